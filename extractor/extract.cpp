// Front end of the static analyses: dumps the type-checked program of one translation unit of
// /repo as a compact JSON tree (functions, records, variables with static storage, enums).
// Nothing of the analysed program is executed.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root;       // absolute path of the repository
static std::string OutFile;

struct Dumper {
	ASTContext &C;
	SourceManager &SM;
	PrintingPolicy PP;
	json::Object Functions, Insts, Records, Vars, Enums, Types;
	std::map<const Decl *, std::string> idCache;
	std::map<const Decl *, int> localIds;
	std::set<std::string> seenFn;
	int nextLocal = 0;
	std::vector<const CXXMethodDecl *> pendingLambdas;
	std::map<const CXXRecordDecl *, std::string> lambdaNames;
	std::map<std::string, int> lambdaCounters;
	std::string curFn;

	Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
		PP.SuppressTagKeyword = true;
		PP.SuppressInlineNamespace = true;
		PP.Bool = true;
		PP.PrintCanonicalTypes = true;
	}

	std::string fileOf(SourceLocation L) {
		L = SM.getExpansionLoc(L);
		if (L.isInvalid()) return "";
		auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
		if (!FE) return "";
		llvm::StringRef P = FE->getFileEntry().tryGetRealPathName();
		std::string s = P.empty() ? FE->getName().str() : P.str();
		return s;
	}
	bool inRepo(SourceLocation L) {
		std::string f = fileOf(L);
		if (f.rfind(Root + "/", 0) != 0) return false;
		std::string rel = f.substr(Root.size() + 1);
		if (rel.rfind("ext/", 0) == 0) return false;
		return true;
	}
	std::string rel(SourceLocation L) {
		std::string f = fileOf(L);
		if (f.rfind(Root + "/", 0) == 0) return f.substr(Root.size() + 1);
		return f;
	}
	unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

	// qualified name without template arguments and inline namespaces
	std::string qname(const NamedDecl *D) {
		std::string base;
		if (auto *RD = dyn_cast<CXXRecordDecl>(D)) {
			if (RD->isLambda()) return lambdaName(RD);
		}
		if (D->getDeclName().isIdentifier()) base = D->getName().str();
		else if (isa<CXXConstructorDecl>(D)) base = cast<CXXConstructorDecl>(D)->getParent()->getName().str();
		else if (isa<CXXDestructorDecl>(D)) base = "~" + cast<CXXDestructorDecl>(D)->getParent()->getName().str();
		else if (isa<CXXConversionDecl>(D)) base = "operator conversion";
		else base = D->getDeclName().getAsString();
		if (base.empty()) {
			if (auto *TD = dyn_cast<TagDecl>(D))
				if (auto *T = TD->getTypedefNameForAnonDecl()) base = T->getName().str();
		}
		if (base.empty()) base = "(anon)";
		const DeclContext *DC = D->getDeclContext();
		std::string pre;
		while (DC && !DC->isTranslationUnit()) {
			if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
				if (!NS->isInline()) pre = (NS->isAnonymousNamespace() ? std::string("(anonns)") : NS->getName().str()) + "::" + pre;
			} else if (auto *TD = dyn_cast<TagDecl>(DC)) {
				if (auto *RD = dyn_cast<CXXRecordDecl>(TD)) {
					if (RD->isLambda()) { return lambdaName(RD) + "::" + pre + base; }
				}
				std::string n = TD->getName().str();
				if (n.empty()) {
					if (auto *T = TD->getTypedefNameForAnonDecl()) n = T->getName().str();
					else n = "(anon)";
				}
				pre = n + "::" + pre;
			} else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
				return fnId(FD) + "::" + pre + base;
			}
			DC = DC->getParent();
		}
		return pre + base;
	}
	std::string lambdaName(const CXXRecordDecl *RD) {
		RD = RD->getCanonicalDecl();
		auto it = lambdaNames.find(RD);
		if (it != lambdaNames.end()) return it->second;
		std::string owner = curFn.empty() ? "" : curFn;
		int n = lambdaCounters[owner]++;
		std::string s = owner + "::lambda#" + std::to_string(n);
		if (owner.empty()) s = "lambda@" + rel(RD->getLocation()) + "#" + std::to_string(n);
		lambdaNames[RD] = s;
		return s;
	}
	std::string tyStr(QualType T) {
		if (T.isNull()) return "?";
		return T.getCanonicalType().getAsString(PP);
	}
	std::string fnId(const FunctionDecl *FD) {
		const FunctionDecl *Can = FD->getCanonicalDecl();
		auto it = idCache.find(Can);
		if (it != idCache.end()) return it->second;
		std::string s;
		if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
			if (MD->getParent()->isLambda()) {
				s = lambdaName(MD->getParent()) + "::" + (MD->getOverloadedOperator() == OO_Call ? "operator()" : qnameLeaf(MD));
				idCache[Can] = s;
				return s;
			}
		}
		const FunctionDecl *ForSig = FD;
		bool tmpl = false;
		if (auto *P = FD->getPrimaryTemplate()) { ForSig = P->getTemplatedDecl(); tmpl = true; }
		else if (auto *P = FD->getTemplateInstantiationPattern()) { ForSig = P; tmpl = true; }
		s = qname(ForSig);
		if (tmpl || !inRepo(FD->getLocation())) {
			if (tmpl) s += "<>";
			if (!inRepo(FD->getLocation())) { s = qname(ForSig); idCache[Can] = s; return s; }
			s += "/" + std::to_string(ForSig->getNumParams());
		} else {
			s += "(";
			bool first = true;
			for (auto *P : ForSig->parameters()) {
				if (!first) s += ",";
				first = false;
				s += tyStr(P->getType());
			}
			s += ")";
			if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) if (MD->isConst()) s += " const";
			if (!FD->isExternallyVisible() && !isa<CXXMethodDecl>(FD) ) s += "@" + rel(FD->getLocation());
		}
		idCache[Can] = s;
		return s;
	}
	std::string qnameLeaf(const NamedDecl *D) { return D->getDeclName().getAsString(); }

	std::string varName(const VarDecl *VD) {
		std::string s = qname(VD->getCanonicalDecl());
		if (!VD->isExternallyVisible() && !VD->isStaticLocal() && !VD->isStaticDataMember()) s += "@" + rel(VD->getLocation());
		return s;
	}

	std::string regType(QualType T) {
		if (T.isNull()) return "?";
		QualType CT = T.getCanonicalType();
		std::string s = CT.getAsString(PP);
		if (!Types.get(s)) {
			json::Object o;
			QualType NR = CT.getNonReferenceType();
			if (CT->isReferenceType()) { o["ref"] = true; }
			if (NR.isConstQualified()) o["const"] = true;
			if (CT->isPointerType()) {
				o["ptr"] = tyStr(CT->getPointeeType().getUnqualifiedType());
				if (CT->getPointeeType().isConstQualified()) o["pconst"] = true;
			}
			QualType U = NR.getUnqualifiedType();
			const Type *TP = U.getTypePtr();
			if (auto *ET = TP->getAs<EnumType>()) {
				o["enum"] = qname(ET->getDecl());
				if (ET->getDecl()->isComplete()) {
					QualType IT = ET->getDecl()->getIntegerType();
					if (!IT.isNull()) { o["w"] = (int64_t)C.getIntWidth(IT); o["sg"] = IT->isSignedIntegerType(); }
				}
			} else if (TP->isIntegerType()) {
				o["w"] = (int64_t)C.getIntWidth(U);
				o["sg"] = U->isSignedIntegerType();
				if (TP->isBooleanType()) o["bool"] = true;
			} else if (TP->isRealFloatingType()) {
				o["fl"] = (int64_t)C.getTypeSize(U);
			} else if (auto *RD = TP->getAsCXXRecordDecl()) {
				o["rec"] = qname(RD);
				if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
					json::Array a;
					for (auto &A : S->getTemplateArgs().asArray()) {
						if (A.getKind() == TemplateArgument::Type) a.push_back(regTypeLazy(A.getAsType()));
						else if (A.getKind() == TemplateArgument::Integral) a.push_back(A.getAsIntegral().getExtValue());
					}
					o["targs"] = std::move(a);
				}
			} else if (auto *AT = C.getAsArrayType(U)) {
				o["elem"] = regTypeLazy(AT->getElementType());
				if (auto *CA = dyn_cast<ConstantArrayType>(AT)) o["n"] = (int64_t)CA->getSize().getZExtValue();
			}
			Types[s] = std::move(o);
			for (auto &P : lazy) pendingTypes.push_back(P);
			lazy.clear();
			while (!pendingTypes.empty()) {
				QualType Q = pendingTypes.back(); pendingTypes.pop_back();
				regType(Q);
			}
		}
		return s;
	}
	std::vector<QualType> lazy, pendingTypes;
	std::string regTypeLazy(QualType T) { lazy.push_back(T); return tyStr(T); }

	int localId(const Decl *D) {
		auto *Can = D;
		auto it = localIds.find(Can);
		if (it != localIds.end()) return it->second;
		return localIds[Can] = nextLocal++;
	}

	json::Value apInt(const llvm::APSInt &V) {
		if (V.isSigned()) return V.getSExtValue();
		if (V.getActiveBits() <= 63) return (int64_t)V.getZExtValue();
		llvm::SmallString<40> S; V.toString(S, 10);
		return std::string("#") + S.str().str();
	}

	json::Object node(const char *k, const Stmt *S) {
		json::Object o;
		o["k"] = k;
		o["l"] = (int64_t)line(S->getBeginLoc());
		return o;
	}

	json::Value stmtOrNull(const Stmt *S) { return S ? stmt(S) : json::Value(nullptr); }

	json::Value varDecl(const VarDecl *VD) {
		json::Object o;
		o["k"] = "var";
		o["l"] = (int64_t)line(VD->getLocation());
		o["n"] = VD->getName().str();
		o["ty"] = regType(VD->getType());
		if (VD->isStaticLocal()) {
			o["st"] = varName(VD);
			dumpVar(VD);
		} else {
			o["id"] = localId(VD);
			if (auto *DD = dyn_cast<DecompositionDecl>(VD)) {
				json::Array a;
				for (auto *B : DD->bindings()) { json::Object b; b["n"] = B->getName().str(); b["id"] = localId(B); a.push_back(std::move(b)); }
				o["bind"] = std::move(a);
			}
			if (VD->getInit()) o["init"] = expr(VD->getInit());
		}
		return o;
	}

	json::Value stmt(const Stmt *S) {
		if (auto *E = dyn_cast<Expr>(S)) return expr(E);
		switch (S->getStmtClass()) {
		case Stmt::CompoundStmtClass: {
			auto o = node("block", S);
			json::Array a;
			for (auto *X : cast<CompoundStmt>(S)->body()) a.push_back(stmt(X));
			o["s"] = std::move(a);
			return o;
		}
		case Stmt::DeclStmtClass: {
			auto o = node("decl", S);
			json::Array a;
			for (auto *D : cast<DeclStmt>(S)->decls()) if (auto *VD = dyn_cast<VarDecl>(D)) a.push_back(varDecl(VD));
			o["v"] = std::move(a);
			return o;
		}
		case Stmt::IfStmtClass: {
			auto *I = cast<IfStmt>(S);
			auto o = node("if", S);
			if (I->isConstexpr()) o["constexpr"] = true;
			if (I->getInit()) o["init"] = stmt(I->getInit());
			if (I->getConditionVariable()) o["var"] = varDecl(I->getConditionVariable());
			o["c"] = expr(I->getCond());
			o["t"] = stmt(I->getThen());
			if (I->getElse()) o["e"] = stmt(I->getElse());
			return o;
		}
		case Stmt::WhileStmtClass: {
			auto *I = cast<WhileStmt>(S);
			auto o = node("while", S);
			if (I->getConditionVariable()) o["var"] = varDecl(I->getConditionVariable());
			o["c"] = expr(I->getCond());
			o["b"] = stmt(I->getBody());
			return o;
		}
		case Stmt::DoStmtClass: {
			auto *I = cast<DoStmt>(S);
			auto o = node("do", S);
			o["c"] = expr(I->getCond());
			o["b"] = stmt(I->getBody());
			return o;
		}
		case Stmt::ForStmtClass: {
			auto *I = cast<ForStmt>(S);
			auto o = node("for", S);
			if (I->getInit()) o["init"] = stmt(I->getInit());
			if (I->getCond()) o["c"] = expr(I->getCond());
			if (I->getInc()) o["inc"] = expr(I->getInc());
			o["b"] = stmt(I->getBody());
			return o;
		}
		case Stmt::CXXForRangeStmtClass: {
			auto *I = cast<CXXForRangeStmt>(S);
			auto o = node("rangefor", S);
			if (I->getInit()) o["init"] = stmt(I->getInit());
			o["range"] = expr(I->getRangeInit());
			o["var"] = varDeclNoInit(I->getLoopVariable());
			o["b"] = stmt(I->getBody());
			return o;
		}
		case Stmt::SwitchStmtClass: {
			auto *I = cast<SwitchStmt>(S);
			auto o = node("switch", S);
			if (I->getInit()) o["init"] = stmt(I->getInit());
			if (I->getConditionVariable()) o["var"] = varDecl(I->getConditionVariable());
			o["c"] = expr(I->getCond());
			o["b"] = stmt(I->getBody());
			return o;
		}
		case Stmt::CaseStmtClass: {
			auto *I = cast<CaseStmt>(S);
			auto o = node("case", S);
			o["v"] = apInt(I->getLHS()->EvaluateKnownConstInt(C));
			if (I->getRHS()) o["v2"] = apInt(I->getRHS()->EvaluateKnownConstInt(C));
			o["s"] = stmt(I->getSubStmt());
			return o;
		}
		case Stmt::DefaultStmtClass: {
			auto o = node("default", S);
			o["s"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
			return o;
		}
		case Stmt::BreakStmtClass: return node("break", S);
		case Stmt::ContinueStmtClass: return node("continue", S);
		case Stmt::NullStmtClass: return node("null", S);
		case Stmt::ReturnStmtClass: {
			auto o = node("return", S);
			if (auto *E = cast<ReturnStmt>(S)->getRetValue()) o["e"] = expr(E);
			return o;
		}
		case Stmt::GotoStmtClass: { auto o = node("goto", S); o["n"] = cast<GotoStmt>(S)->getLabel()->getName().str(); return o; }
		case Stmt::LabelStmtClass: { auto o = node("label", S); o["n"] = std::string(cast<LabelStmt>(S)->getName()); o["s"] = stmt(cast<LabelStmt>(S)->getSubStmt()); return o; }
		case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
		case Stmt::CXXTryStmtClass: {
			auto *T = cast<CXXTryStmt>(S);
			auto o = node("try", S);
			o["b"] = stmt(T->getTryBlock());
			json::Array a;
			for (unsigned i = 0; i < T->getNumHandlers(); i++) a.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
			o["h"] = std::move(a);
			return o;
		}
		default: {
			auto o = node("other", S);
			o["cls"] = S->getStmtClassName();
			json::Array a;
			for (auto *X : S->children()) if (X) a.push_back(stmt(X));
			o["s"] = std::move(a);
			return o;
		}
		}
	}
	json::Value varDeclNoInit(const VarDecl *VD) {
		json::Object o;
		o["k"] = "var";
		o["l"] = (int64_t)line(VD->getLocation());
		o["n"] = VD->getName().str();
		o["ty"] = regType(VD->getType());
		o["id"] = localId(VD);
		if (auto *DD = dyn_cast<DecompositionDecl>(VD)) {
			json::Array a;
			for (auto *B : DD->bindings()) { json::Object b; b["n"] = B->getName().str(); b["id"] = localId(B); a.push_back(std::move(b)); }
			o["bind"] = std::move(a);
		}
		return o;
	}

	void addTy(json::Object &o, const Expr *E) { o["ty"] = regType(E->getType()); }

	json::Value fin(json::Object &&o, const Expr *E) {
		addTy(o, E);
		if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue()) {
			Expr::EvalResult R;
			if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) o["cv"] = apInt(R.Val.getInt());
		}
		return json::Value(std::move(o));
	}

	void callee(json::Object &o, const FunctionDecl *FD) {
		o["fn"] = fnId(FD);
		o["name"] = qname(FD);
		if (inRepo(FD->getLocation())) o["repo"] = true;
		if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
			o["cls"] = qname(MD->getParent());
			if (MD->isVirtual()) o["virt"] = true;
			if (MD->isConst()) o["cm"] = true;
			if (MD->isStatic()) o["stm"] = true;
		}
		if (FD->isNoReturn()) o["noret"] = true;
		o["rt"] = regType(FD->getReturnType());
		json::Array pm;  // parameter passing mode: n = mutable ref/ptr, c = const ref/ptr, v = value
		std::string m;
		for (auto *P : FD->parameters()) {
			QualType T = P->getType();
			if (T->isReferenceType()) m += T->isRValueReferenceType() ? 'm' : (T.getNonReferenceType().isConstQualified() ? 'c' : 'n');
			else if (T->isPointerType()) m += T->getPointeeType().isConstQualified() ? 'p' : 'q';
			else m += 'v';
		}
		o["pm"] = m;
	}

	json::Value expr(const Expr *E) {
		// transparent wrappers
		for (;;) {
			if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
			else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
			else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
			else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
			else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
			else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
			else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
			else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
			else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) break; E = X->getSourceExpr(); }
			else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
			else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
				auto K = X->getCastKind();
				if (K == CK_LValueToRValue || K == CK_NoOp || K == CK_FunctionToPointerDecay || K == CK_ArrayToPointerDecay ||
				    K == CK_UncheckedDerivedToBase || K == CK_DerivedToBase || K == CK_ConstructorConversion || K == CK_UserDefinedConversion || K == CK_BuiltinFnToFnPtr)
					E = X->getSubExpr();
				else break;
			}
			else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
			else break;
		}
		switch (E->getStmtClass()) {
		case Stmt::IntegerLiteralClass: {
			auto o = node("int", E);
			llvm::APSInt V(cast<IntegerLiteral>(E)->getValue(), !E->getType()->isSignedIntegerType());
			o["v"] = apInt(V);
			return fin(std::move(o), E);
		}
		case Stmt::CharacterLiteralClass: { auto o = node("int", E); o["v"] = (int64_t)(int32_t)cast<CharacterLiteral>(E)->getValue(); o["chr"] = true; return fin(std::move(o), E); }
		case Stmt::CXXBoolLiteralExprClass: { auto o = node("int", E); o["v"] = (int64_t)cast<CXXBoolLiteralExpr>(E)->getValue(); return fin(std::move(o), E); }
		case Stmt::FloatingLiteralClass: { auto o = node("float", E); o["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble(); return fin(std::move(o), E); }
		case Stmt::StringLiteralClass: {
			auto o = node("str", E);
			auto *SL = cast<StringLiteral>(E);
			std::string s;
			if (SL->getCharByteWidth() == 1) s = SL->getString().str();
			// one code point per byte
			std::string u;
			for (unsigned char c : s)
			{
				if (c < 0x80) u += (char) c;
				else { u += (char) (0xC0 | (c >> 6)); u += (char) (0x80 | (c & 0x3F)); }
			}
			o["v"] = u;
			return fin(std::move(o), E);
		}
		case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: return fin(node("nullptr", E), E);
		case Stmt::CXXThisExprClass: return fin(node("this", E), E);
		case Stmt::DeclRefExprClass: {
			auto *D = cast<DeclRefExpr>(E)->getDecl();
			auto o = node("ref", E);
			o["n"] = D->getNameAsString();
			if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["q"] = qname(EC); }
			else if (auto *PD = dyn_cast<ParmVarDecl>(D)) { o["dk"] = "parm"; o["id"] = localId(PD); (void)PD; }
			else if (auto *VD = dyn_cast<VarDecl>(D)) {
				if (VD->hasGlobalStorage()) { o["dk"] = "global"; o["q"] = varName(VD); }
				else { o["dk"] = "local"; o["id"] = localId(VD); }
			}
			else if (auto *BD = dyn_cast<BindingDecl>(D)) { o["dk"] = "local"; o["id"] = localId(BD); }
			else if (auto *FD = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; o["fn"] = fnId(FD); o["name"] = qname(FD); std::string a = arithArgs(FD); if (!a.empty()) o["ta"] = a; }
			else o["dk"] = "other";
			return fin(std::move(o), E);
		}
		case Stmt::MemberExprClass: {
			auto *M = cast<MemberExpr>(E);
			auto *D = M->getMemberDecl();
			if (auto *VD = dyn_cast<VarDecl>(D)) {
				auto o = node("ref", E);
				o["n"] = VD->getNameAsString(); o["dk"] = "global"; o["q"] = varName(VD);
				return fin(std::move(o), E);
			}
			if (auto *FD = dyn_cast<FunctionDecl>(D)) {
				auto o = node("memfn", E);
				o["fn"] = fnId(FD); o["b"] = expr(M->getBase());
				return fin(std::move(o), E);
			}
			// anonymous struct/union members are flattened
			auto o = node("mem", E);
			const Expr *B = M->getBase();
			o["n"] = D->getNameAsString();
			o["q"] = qname(D);
			if (M->isArrow()) o["arrow"] = true;
			if (auto *FD = dyn_cast<FieldDecl>(D)) {
				if (FD->isBitField()) o["bits"] = (int64_t)FD->getBitWidthValue(C);
				if (FD->getParent()->isUnion()) o["union"] = true;
			}
			o["b"] = expr(B);
			return fin(std::move(o), E);
		}
		case Stmt::CXXMemberCallExprClass: {
			auto *X = cast<CXXMemberCallExpr>(E);
			auto o = node("call", E);
			auto *MD = X->getMethodDecl();
			if (!MD) { // pointer to member
				o["fx"] = expr(X->getCallee());
			} else {
				callee(o, MD);
				if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) {
					if (ME->hasQualifier()) o.erase("virt");
					if (ME->isArrow()) o["arrow"] = true;
				}
			}
			if (auto *Obj = X->getImplicitObjectArgument()) { o["obj"] = expr(Obj); o["oty"] = regType(Obj->IgnoreParenImpCasts()->getType()); }
			args(o, X->arguments());
			return fin(std::move(o), E);
		}
		case Stmt::CXXOperatorCallExprClass: {
			auto *X = cast<CXXOperatorCallExpr>(E);
			auto o = node("call", E);
			o["op"] = getOperatorSpelling(X->getOperator());
			if (auto *FD = X->getDirectCallee()) {
				callee(o, FD);
				if (auto *MD = dyn_cast<CXXMethodDecl>(FD); MD && !MD->isStatic()) {
					o["obj"] = expr(X->getArg(0));
					json::Array a;
					for (unsigned i = 1; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
					o["args"] = std::move(a);
				} else args(o, X->arguments());
			} else args(o, X->arguments());
			return fin(std::move(o), E);
		}
		case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass: {
			auto *X = cast<CallExpr>(E);
			auto o = node("call", E);
			if (auto *FD = X->getDirectCallee()) callee(o, FD);
			else o["fx"] = expr(X->getCallee());
			args(o, X->arguments());
			return fin(std::move(o), E);
		}
		case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
			auto *X = cast<CXXConstructExpr>(E);
			auto *CD = X->getConstructor();
			// elide copy/move of prvalue temporaries and trivially-copied class values are kept as ctor
			auto o = node("ctor", E);
			callee(o, CD);
			if (CD->isCopyConstructor()) o["cp"] = "copy";
			else if (CD->isMoveConstructor()) o["cp"] = "move";
			else if (CD->isDefaultConstructor()) o["cp"] = "default";
			if (X->isElidable()) o["elide"] = true;
			args(o, X->arguments());
			return fin(std::move(o), E);
		}
		case Stmt::CXXInheritedCtorInitExprClass: {
			auto o = node("ctor", E);
			callee(o, cast<CXXInheritedCtorInitExpr>(E)->getConstructor());
			o["args"] = json::Array();
			return fin(std::move(o), E);
		}
		case Stmt::CXXNewExprClass: {
			auto *X = cast<CXXNewExpr>(E);
			auto o = node("new", E);
			o["aty"] = regType(X->getAllocatedType());
			if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
			if (X->getInitializer()) o["init"] = expr(X->getInitializer());
			return fin(std::move(o), E);
		}
		case Stmt::CXXDeleteExprClass: { auto o = node("delete", E); o["e"] = expr(cast<CXXDeleteExpr>(E)->getArgument()); return fin(std::move(o), E); }
		case Stmt::BinaryOperatorClass: {
			auto *X = cast<BinaryOperator>(E);
			auto o = node(X->isAssignmentOp() ? "asg" : "bin", E);
			o["op"] = X->getOpcodeStr().str();
			o["a"] = expr(X->getLHS());
			o["b"] = expr(X->getRHS());
			return fin(std::move(o), E);
		}
		case Stmt::CompoundAssignOperatorClass: {
			auto *X = cast<CompoundAssignOperator>(E);
			auto o = node("asg", E);
			o["op"] = X->getOpcodeStr().str();
			o["a"] = expr(X->getLHS());
			o["b"] = expr(X->getRHS());
			o["cty"] = regType(X->getComputationResultType());
			return fin(std::move(o), E);
		}
		case Stmt::UnaryOperatorClass: {
			auto *X = cast<UnaryOperator>(E);
			auto o = node("un", E);
			std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
			if (X->isIncrementDecrementOp()) op = (X->isPrefix() ? "pre" : "post") + op;
			o["op"] = op;
			o["e"] = expr(X->getSubExpr());
			return fin(std::move(o), E);
		}
		case Stmt::ArraySubscriptExprClass: {
			auto *X = cast<ArraySubscriptExpr>(E);
			auto o = node("idx", E);
			o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx());
			return fin(std::move(o), E);
		}
		case Stmt::ConditionalOperatorClass: {
			auto *X = cast<ConditionalOperator>(E);
			auto o = node("cond", E);
			o["c"] = expr(X->getCond()); o["t"] = expr(X->getTrueExpr()); o["e"] = expr(X->getFalseExpr());
			return fin(std::move(o), E);
		}
		case Stmt::UnaryExprOrTypeTraitExprClass: {
			auto o = node("int", E);
			Expr::EvalResult R;
			if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) o["v"] = apInt(R.Val.getInt());
			o["sizeof"] = true;
			return fin(std::move(o), E);
		}
		case Stmt::InitListExprClass: {
			auto *X = cast<InitListExpr>(E);
			if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
			auto o = node("init", E);
			json::Array a;
			for (auto *I : X->inits()) a.push_back(expr(I));
			o["a"] = std::move(a);
			if (X->hasArrayFiller()) o["fill"] = true;
			return fin(std::move(o), E);
		}
		case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: { auto o = node("zero", E); return fin(std::move(o), E); }
		case Stmt::LambdaExprClass: {
			auto *X = cast<LambdaExpr>(E);
			auto o = node("lambda", E);
			auto *MD = X->getCallOperator();
			std::string id = fnId(MD);
			o["fn"] = id;
			json::Array caps;
			auto ci = X->capture_init_begin();
			for (auto &Cp : X->captures()) {
				json::Object c;
				if (Cp.capturesThis()) c["this"] = true;
				else if (Cp.capturesVariable()) { c["id"] = localId(Cp.getCapturedVar()); c["n"] = Cp.getCapturedVar()->getNameAsString(); }
				c["byref"] = Cp.getCaptureKind() == LCK_ByRef || Cp.getCaptureKind() == LCK_This;
				if (ci != X->capture_init_end()) { ++ci; }
				caps.push_back(std::move(c));
			}
			o["caps"] = std::move(caps);
			std::string save = curFn;
			dumpFunction(MD);
			curFn = save;
			return fin(std::move(o), E);
		}
		case Stmt::CXXThrowExprClass: { auto o = node("throw", E); if (auto *S = cast<CXXThrowExpr>(E)->getSubExpr()) o["e"] = expr(S); return fin(std::move(o), E); }
		case Stmt::CXXTypeidExprClass: { return fin(node("typeid", E), E); }
		default: break;
		}
		if (auto *X = dyn_cast<CastExpr>(E)) {
			auto o = node("cast", E);
			o["ck"] = X->getCastKindName();
			if (isa<CXXConstCastExpr>(E)) o["constcast"] = true;
			if (isa<ImplicitCastExpr>(E)) o["impl"] = true;
			if (isa<CXXDynamicCastExpr>(E)) o["dyn"] = true;
			if (isa<CXXReinterpretCastExpr>(E)) o["reint"] = true;
			o["e"] = expr(X->getSubExpr());
			return fin(std::move(o), E);
		}
		auto o = node("other", E);
		o["cls"] = E->getStmtClassName();
		json::Array a;
		for (auto *S : E->children()) if (S) a.push_back(stmt(S));
		o["s"] = std::move(a);
		return fin(std::move(o), E);
	}
	template <class R> void args(json::Object &o, R range) {
		json::Array a;
		for (auto *A : range) a.push_back(expr(A));
		o["args"] = std::move(a);
	}

	// template arguments of a function when all are arithmetic types
	std::string arithArgs(const FunctionDecl *FD) {
		auto *A = FD->getTemplateSpecializationArgs();
		if (!A || !A->size()) return "";
		std::string s;
		for (auto &X : A->asArray()) {
			if (X.getKind() != TemplateArgument::Type || !X.getAsType()->isArithmeticType()) return "";
			if (!s.empty()) s += ",";
			s += X.getAsType().getCanonicalType().getAsString();
		}
		return s;
	}

	void dumpFunction(const FunctionDecl *FD) {
		if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return;
		if (FD->isDependentContext()) return;
		std::string id = fnId(FD), inst = arithArgs(FD);
		if (!inst.empty()) {
			if (!inRepo(FD->getLocation()) || !seenFn.insert(id + "|" + inst).second) return;
		} else if (!seenFn.insert(id).second) return;
		std::string save = curFn;
		curFn = id;
		json::Object o;
		o["id"] = id;
		o["name"] = qname(FD);
		o["file"] = rel(FD->getLocation());
		o["line"] = (int64_t)line(FD->getLocation());
		o["rt"] = regType(FD->getReturnType());
		if (!FD->isExternallyVisible()) o["internal"] = true;
		json::Array ps;
		for (auto *P : FD->parameters()) {
			json::Object p;
			p["n"] = P->getName().str(); p["id"] = localId(P); p["ty"] = regType(P->getType());
			if (P->hasDefaultArg()) p["def"] = true;
			ps.push_back(std::move(p));
		}
		o["params"] = std::move(ps);
		if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
			o["cls"] = qname(MD->getParent());
			if (MD->isVirtual()) o["virt"] = true;
			if (MD->isStatic()) o["static"] = true;
			if (MD->isConst()) o["const"] = true;
			json::Array ov;
			for (auto *B : MD->overridden_methods()) ov.push_back(fnId(B));
			if (!ov.empty()) o["overrides"] = std::move(ov);
			if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
				o["ctor"] = true;
				json::Array in;
				for (auto *I : CD->inits()) {
					json::Object x;
					if (I->isAnyMemberInitializer()) { x["f"] = qname(I->getAnyMember()); x["n"] = I->getAnyMember()->getNameAsString(); x["ty"] = regType(I->getAnyMember()->getType()); }
					else x["base"] = true;
					if (I->isWritten()) x["written"] = true;
					if (I->getInit()) x["e"] = expr(I->getInit());
					x["l"] = (int64_t)line(I->getSourceLocation().isValid() ? I->getSourceLocation() : FD->getLocation());
					in.push_back(std::move(x));
				}
				o["inits"] = std::move(in);
			}
			if (isa<CXXDestructorDecl>(FD)) o["dtor"] = true;
		}
		if (FD->getBody()) o["body"] = stmt(FD->getBody());
		else { json::Object b; b["k"] = "block"; b["l"] = 0; b["s"] = json::Array(); o["body"] = std::move(b); o["defaulted"] = true; }
		if (FD->isImplicit()) o["implicit"] = true;
		if (!inst.empty()) {
			json::Object copy = o;
			Insts[id + "|" + inst] = std::move(copy);
			if (!seenFn.insert(id).second) { curFn = save; return; }
		}
		Functions[id] = std::move(o);
		curFn = save;
	}

	void dumpVar(const VarDecl *VD) {
		VD = VD->getDefinition() ? VD->getDefinition() : VD;
		std::string q = varName(VD);
		if (Vars.get(q)) {
			auto *old = Vars.get(q)->getAsObject();
			if (old && (old->get("init") || VD->isThisDeclarationADefinition() != VarDecl::Definition)) return;
		}
		json::Object o;
		o["q"] = q;
		o["file"] = rel(VD->getLocation());
		o["line"] = (int64_t)line(VD->getLocation());
		o["ty"] = regType(VD->getType());
		QualType T = VD->getType();
		bool cst = T.isConstQualified() || VD->isConstexpr();
		if (auto *AT = C.getAsArrayType(T)) cst = cst || AT->getElementType().isConstQualified();
		o["const"] = cst;
		if (VD->isStaticLocal()) o["stloc"] = true;
		if (VD->isThisDeclarationADefinition() == VarDecl::Definition || VD->isThisDeclarationADefinition() == VarDecl::TentativeDefinition) o["def"] = true;
		if (VD->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
		Vars[q] = json::Object(o);
		if (VD->getInit() && !VD->getInit()->isValueDependent()) { o["init"] = expr(VD->getInit()); }
		Vars[q] = std::move(o);
	}

	void dumpRecord(const CXXRecordDecl *RD) {
		if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda()) return;
		std::string q = qname(RD);
		if (Records.get(q)) return;
		json::Object o;
		o["q"] = q;
		o["file"] = rel(RD->getLocation());
		o["line"] = (int64_t)line(RD->getLocation());
		if (RD->isUnion()) o["union"] = true;
		json::Array bases;
		for (auto &B : RD->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) bases.push_back(qname(BR));
		o["bases"] = std::move(bases);
		json::Array fs;
		for (auto *F : RD->fields()) {
			json::Object f;
			f["n"] = F->getNameAsString(); f["q"] = qname(F); f["ty"] = regType(F->getType());
			if (F->isMutable()) f["mutable"] = true;
			if (F->isAnonymousStructOrUnion()) f["anon"] = true;
			if (F->isBitField()) f["bits"] = (int64_t)F->getBitWidthValue(C);
			if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = true;
			f["l"] = (int64_t)line(F->getLocation());
			fs.push_back(std::move(f));
		}
		o["fields"] = std::move(fs);
		json::Array ms;
		for (auto *M : RD->methods()) {
			json::Object m;
			m["id"] = fnId(M);
			m["n"] = M->getNameAsString();
			if (M->isVirtual()) m["virt"] = true;
			if (M->isPureVirtual()) m["pure"] = true;
			if (M->isImplicit()) m["implicit"] = true;
			if (M->isConst()) m["const"] = true;
			if (M->isStatic()) m["static"] = true;
			m["l"] = (int64_t)line(M->getLocation());
			json::Array ov;
			for (auto *B : M->overridden_methods()) ov.push_back(fnId(B));
			if (!ov.empty()) m["ov"] = std::move(ov);
			ms.push_back(std::move(m));
		}
		o["methods"] = std::move(ms);
		Records[q] = std::move(o);
	}
};

struct Visitor : RecursiveASTVisitor<Visitor> {
	Dumper &D;
	Visitor(Dumper &D) : D(D) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool TraverseLambdaExpr(LambdaExpr *) { return true; } // handled inside the dumper
	bool VisitFunctionDecl(FunctionDecl *FD) {
		if (!FD->isThisDeclarationADefinition() || !D.inRepo(FD->getLocation())) return true;
		if (FD->isDeleted()) return true;
		D.curFn.clear();
		if (FD->doesThisDeclarationHaveABody()) D.dumpFunction(FD);
		return true;
	}
	bool VisitVarDecl(VarDecl *VD) {
		if (!VD->hasGlobalStorage() || !D.inRepo(VD->getLocation()) || isa<ParmVarDecl>(VD)) return true;
		if (VD->isStaticLocal()) return true; // through the owner
		if (VD->getDeclContext()->isDependentContext()) return true;
		D.curFn.clear();
		D.dumpVar(VD);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
		if (RD->isThisDeclarationADefinition() && D.inRepo(RD->getLocation())) D.dumpRecord(RD);
		return true;
	}
	bool VisitEnumDecl(EnumDecl *ED) {
		if (!ED->isThisDeclarationADefinition() || !D.inRepo(ED->getLocation())) return true;
		std::string q = D.qname(ED);
		if (ED->getName().empty()) q += "@" + D.rel(ED->getLocation()) + ":" + std::to_string(D.line(ED->getLocation()));
		json::Object o;
		json::Array a;
		for (auto *E : ED->enumerators()) { json::Object e; e["n"] = E->getName().str(); e["v"] = D.apInt(E->getInitVal()); a.push_back(std::move(e)); }
		o["e"] = std::move(a);
		D.Enums[q] = std::move(o);
		return true;
	}
};

struct Consumer : ASTConsumer {
	void HandleTranslationUnit(ASTContext &C) override {
		Dumper D(C);
		Visitor V(D);
		V.TraverseDecl(C.getTranslationUnitDecl());
		json::Object o;
		o["functions"] = std::move(D.Functions);
		o["insts"] = std::move(D.Insts);
		o["records"] = std::move(D.Records);
		o["vars"] = std::move(D.Vars);
		o["enums"] = std::move(D.Enums);
		o["types"] = std::move(D.Types);
		std::error_code EC;
		llvm::raw_fd_ostream OS(OutFile, EC);
		if (EC) { llvm::errs() << EC.message() << "\n"; exit(3); }
		OS << json::Value(std::move(o));
	}
};
struct Action : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
	if (argc < 5) { llvm::errs() << "usage: extract ROOT BUILDDIR SOURCE OUT\n"; return 2; }
	Root = argv[1];
	std::string err;
	auto DB = tooling::CompilationDatabase::loadFromDirectory(argv[2], err);
	if (!DB) { llvm::errs() << err << "\n"; return 2; }
	OutFile = argv[4];
	tooling::ClangTool Tool(*DB, {std::string(argv[3])});
	Tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster({"-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-Wno-everything"}, tooling::ArgumentInsertPosition::END));
	return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
