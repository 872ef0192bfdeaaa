from front import Broken
from prog import tail, walk, walk_fn, strip
import check as CK
import terms as T
from absint import Interp, show
from machine import directives, bytes_at, unions_of, emit, const_of

RULE = """abstract interpretation with per-bit provenance: every multi-byte writer of the file manager, every accessor of byte buffers and every reader and writer of object file headers is interpreted for both byte orders with unknown values; each byte that reaches the file or the buffer must be exactly the byte of the value that the selected order puts there, and each value read back must be made of those bytes; the byte order in force must be the one of the architecture selected by the directive, and no multi-byte number may reach the raw writer without going through the ordered writers"""
ASSUMPTIONS = ['the host is little endian, as the file manager detects at start', 'a C array of bytes is laid out in index order']
LEVEL = 'other'
BIG, LITTLE = 0, 1

# directive -> byte order the documentation gives its machine (Readme: supported architectures)
ORDER = {'.psx': 'Little', '.ps2': 'Little', '.psp': 'Little', '.n64': 'Big', '.rsp': 'Big', '.gba': 'Little', '.nds': 'Little', '.3ds': 'Little',
         '.arm.big': 'Big', '.arm.little': 'Little', '.saturn': 'Big', '.32x': 'Big'}

# ELF32: field -> (offset, bytes)
EHDR = {'e_type': (0x10, 2), 'e_machine': (0x12, 2), 'e_version': (0x14, 4), 'e_entry': (0x18, 4), 'e_phoff': (0x1C, 4), 'e_shoff': (0x20, 4), 'e_flags': (0x24, 4),
        'e_ehsize': (0x28, 2), 'e_phentsize': (0x2A, 2), 'e_phnum': (0x2C, 2), 'e_shentsize': (0x2E, 2), 'e_shnum': (0x30, 2), 'e_shstrndx': (0x32, 2)}
PHDR = {k: (4 * i, 4) for i, k in enumerate(['p_type', 'p_offset', 'p_vaddr', 'p_paddr', 'p_filesz', 'p_memsz', 'p_flags', 'p_align'])}
SHDR = {k: (4 * i, 4) for i, k in enumerate(['sh_name', 'sh_type', 'sh_flags', 'sh_addr', 'sh_offset', 'sh_size', 'sh_link', 'sh_info', 'sh_addralign', 'sh_entsize'])}
SYM = {'st_name': (0, 4), 'st_value': (4, 4), 'st_size': (8, 4), 'st_info': (12, 1), 'st_other': (13, 1), 'st_shndx': (14, 2)}
RELA = {'r_offset': (0, 4), 'r_info': (4, 4), 'r_addend': (8, 4)}


def enumvals(P, q):
    o = P.enums.get(q)
    if not o: raise Broken('enum %s not found' % q)
    return {e['n']: e['v'] for e in o['e']}


def check(P, res, tier):
    E = CK.effects()
    en = enumvals(P, 'Endianness')
    if set(en) != {'Big', 'Little'}: raise Broken('byte orders are not Big and Little')
    writers(P, E, res, en)
    buffers(P, E, res, en)
    elf(P, E, res, en)
    selection(P, E, res, en)
    raw(P, E, res)
    data_units(P, E, res)
    res.need(len(res.obligations), 60, 'obligations_examined')


# ---------------------------------------------------------------- file manager
def writers(P, E, res, en):
    sinks = P.over.get('AssemblerFile::write(void *,unsigned long)')
    if not sinks: raise Broken('AssemblerFile::write not found')
    n = 0
    for m in P.rec['FileManager']['methods']:
        f = P.fn.get(m['id'])
        if f is None or len(f['params']) != 1 or f.get('ctor'): continue
        t = P.ty(f['params'][0]['ty'])
        if t.get('w') not in (8, 16, 32, 64) or t.get('enum') or not tail(f['name']).startswith('write'): continue
        n += 1
        w = t['w']
        for nm in en:
            got = []

            def sink(I, node, want):
                I.rv(node['obj'])
                p = I.rv(node['args'][0]); k = I.rv(node['args'][1])
                b = None
                if isinstance(k, int) and 0 < k <= 64: b = bytes_at(I, p, k)
                emit(I, 'bytes', node['l'], tuple(tuple(x) for x in b) if b else None)
                return ('v', ('written', I.nobj), 'b')
            I = Interp(P, E, {s: sink for s in sinks})
            this = (('X', 'fm'), ())
            I.store((this[0], ('endianness',)), en[nm]); I.store((this[0], ('ownEndianness',)), en['Little'])
            x = ('v', 'value', (w, bool(t.get('sg'))))
            I.enter(m['id'], [(f['params'][0], False, x)], this, None)
            want = [tuple((x, 8 * i + j) for j in range(8)) for i in range(w // 8)]
            if nm == 'Big': want.reverse()
            seqs = [s for s in traces(I.st.ev) if s]
            ok = bool(seqs) and all(sum((list(e[2]) if e[2] else [None] for e in s), []) == want for s in seqs)
            res.ob('%s emits the %d bytes of its value in %s-endian order (%d paths)' % (f['name'], w // 8, nm.lower(), len(seqs)), ok, 'writer/%s/%s' % (tail(f['name']), nm),
                   '%s (%s:%d) in %s-endian mode hands over bytes %s' % (f['name'], f['file'], f.get('line', 0), nm.lower(), '; '.join(bytestr(sum((list(e[2]) if e[2] else [None] for e in s), [])) for s in seqs) or 'none'))
    res.need(n, 4, 'file_writers')


def bytestr(bs):
    out = []
    for b in bs:
        if b is None: out.append('?'); continue
        if all(isinstance(x, tuple) and len(x) == 2 for x in b) and b[0][1] % 8 == 0 and all(b[j] == (b[0][0], b[0][1] + j) for j in range(8)): out.append('byte%d' % (b[0][1] // 8))
        elif all(x == 0 for x in b): out.append('00')
        else: out.append('mixed')
    return '[' + ' '.join(out) + ']'


def traces(ev):
    """All event sequences of a gated trace."""
    outs = [()]
    for e in ev:
        if e[0] == 'gate':
            a = traces(e[2]); b = traces(e[3])
            outs = [o + x for o in outs for x in set(a + b)]
        elif e[0] == 'loop':
            outs = [o + ((('bytes', e[1]['line'], None),) if list(unions_of((e,))) else ()) for o in outs]
        else: outs = [o + (e,) for o in outs]
        if len(outs) > 64: outs = outs[:64]
    return outs


# ---------------------------------------------------------------- buffers
NBYTES = {'getWord': 2, 'getDoubleWord': 4, 'replaceWord': 2, 'replaceDoubleWord': 4}


def buf(I, root=('X', 'buf')):
    """An unknown byte buffer at a location: returns the atom of byte i."""
    data = I.load((root, ('data_',)), None)
    return lambda i: ('v', ('in', ('D', data), (('i', i),)), (8, False))


def order(n, nm):
    return list(range(n)) if nm == 'Little' else list(range(n - 1, -1, -1))


def buffers(P, E, res, en):
    cnt = 0
    for m in P.rec['ByteArray']['methods']:
        f = P.fn.get(m['id'])
        if f is None or not any(P.ty(p['ty']).get('enum') == 'Endianness' for p in f['params']): continue
        t = tail(f['name'])
        n = NBYTES.get(t)
        if n is None: continue
        cnt += 1
        for nm in en:
            I = Interp(P, E)
            this = (('X', 'buf'), ())
            I.store((this[0], ('size_',)), ('v', 'size', (32, False)))
            vals = []; pos = ('v', 'pos', (31, False)); val = None
            for i, p in enumerate(f['params']):
                if P.ty(p['ty']).get('enum') == 'Endianness': vals.append((p, False, en[nm]))
                elif i == 0: vals.append((p, False, pos))
                else:
                    val = ('v', 'value', I.aty(p['ty'])); vals.append((p, False, val))
            I.assume(T.lt(T.add(pos, n - 1), ('v', 'size', (32, False))))
            byte = buf(I)
            r = I.enter(m['id'], vals, this, None)
            od = order(n, nm)
            if val is None:
                b = T.bits(r, 8 * n, I.st.rng) if I.st is not None else None
                want = []
                for k in range(n):
                    a = byte(T.add(pos, od.index(k)))
                    want += [(a, j) for j in range(8)]
                ok = b == want
                # the rest must be a plain extension
                res.ob('%s builds its value from %d bytes in %s-endian order' % (f['name'], n, nm.lower()), ok, 'buffer/%s/%s' % (t, nm),
                       '%s (%s:%d), %s-endian: the value is %s' % (f['name'], f['file'], f.get('line', 0), nm.lower(), show(r)))
            else:
                ok = True
                for k in range(n):
                    v = I.load((('D', I.load((this[0], ('data_',)), None)), (('i', T.add(pos, k)),)), 'unsigned char')
                    b = T.bits(v, 8, I.st.rng)
                    if b != [(val, 8 * od[k] + j) for j in range(8)]: ok = False; break
                stray = [p for (r0, p) in I.st.mem if r0 == ('D', I.load((this[0], ('data_',)), None)) and p and p[-1][0] == 'i' and not any(p[-1][1] == T.add(pos, k) for k in range(n))]
                res.ob('%s stores its %d bytes in %s-endian order' % (f['name'], n, nm.lower()), ok and not stray, 'buffer/%s/%s' % (t, nm),
                       '%s (%s:%d), %s-endian: byte %s is wrong' % (f['name'], f['file'], f.get('line', 0), nm.lower(), k if not stray else 'outside the value'))
    res.need(cnt, 2, 'buffer_accessors')


# ---------------------------------------------------------------- ELF
def elf(P, E, res, en):
    n = 0
    for cls, fields, hdr in (('ElfSection', SHDR, 'header'), ('ElfSegment', PHDR, 'header'), ('ElfFile', EHDR, 'fileHeader')):
        for fid in P.find(cls + '::writeHeader', False):
            f = P.fn[fid]
            for nm in en:
                I = Interp(P, E)
                this = (('X', 'obj'), ())
                I.store((('X', 'buf'), ('size_',)), 1 << 20)
                pos = 0x100
                vals = []
                for p in f['params']:
                    t = P.ty(p['ty'])
                    if t.get('rec') == 'ByteArray': vals.append((p, True, ('ptr', ('X', 'buf'), ())))
                    elif t.get('enum') == 'Endianness': vals.append((p, False, en[nm]))
                    else: vals.append((p, False, pos))
                data = I.load((('X', 'buf'), ('data_',)), None)
                I.enter(fid, vals, this, None)
                n += 1
                for fld, (off, k) in fields.items():
                    od = order(k, nm)
                    bad = None
                    for i in range(k):
                        v = I.load((('D', data), (('i', pos + off + i),)), 'unsigned char') if I.st is not None else 0
                        b = T.bits(v, 8, I.st.rng)
                        if not all(src(b[j], hdr, fld) == 8 * od[i] + j for j in range(8)): bad = i; break
                    res.ob('%s puts %s at 0x%02X, %s-endian' % (f['name'], fld, off, nm.lower()), bad is None, 'elf-write/%s/%s/%s' % (cls, fld, nm),
                           '%s (%s:%d): byte %s of %s is not at offset 0x%02X in %s-endian files' % (f['name'], f['file'], f.get('line', 0), bad, fld, off, nm.lower()))
    for name, fields, out in (('ElfFile::loadElfHeader', EHDR, 'fileHeader'), ('ElfFile::loadProgramHeader', PHDR, 0), ('ElfFile::loadSectionHeader', SHDR, 0), ('ElfFile::getSymbol', SYM, 0), ('ElfRelocator::loadRelocation', RELA, 0)):
        for fid in P.find(name, False):
            f = P.fn[fid]
            n += 1
            for nm in en:
                I = Interp(P, E, {'ElfFile::getEndianness': lambda I, node, want, v=en[nm]: v, 'ElfSection::getData': lambda I, node, want: ('LOC', (('X', 'buf'), ()))})
                this = (('X', 'obj'), ())
                I.store((('X', 'buf'), ('size_',)), 1 << 20)
                I.st.mem[(('X', 'obj'), ('fileData',))] = ('v', 'fd', None)
                pos = 0x200
                vals = []
                outroot = ('X', 'obj')
                bufroot = ('X', 'buf')
                for p in f['params']:
                    t = P.ty(p['ty'])
                    if t.get('rec') == 'ByteArray': vals.append((p, True, ('ptr', ('X', 'buf'), ())))
                    elif t.get('rec'): vals.append((p, True, ('ptr', ('X', 'out'), ()))); outroot = ('X', 'out')
                    elif t.get('enum') == 'Endianness': vals.append((p, False, en[nm]))
                    elif t.get('bool'): vals.append((p, False, 1))
                    else: vals.append((p, False, ('v', 'index', (16, False)) if 'getSymbol' in name else pos))
                I.enter(fid, vals, this, None)
                if I.st is None: continue
                for fld, (off, k) in fields.items():
                    loc = (outroot, ((out,) if out else ()) + (fld,))
                    v = I.load(loc, None)
                    b = T.bits(strip_guard(v), 8 * k, I.st.rng)
                    od = order(k, nm)
                    bad = None
                    for i in range(8 * k):
                        o = byteoff(b[i])
                        w = od.index(i // 8)
                        base = 0 if out else pos
                        if 'getSymbol' in name:
                            if o is None or not isinstance(o[0], tuple): bad = i; break
                            o0 = T.sub(o[0], T.mul(16, ('v', 'index', (16, False))))
                            if o0 != off + w or o[1] != i % 8: bad = i; break
                        elif o is None or o[0] != base + off + w or o[1] != i % 8: bad = i; break
                    res.ob('%s reads %s from 0x%02X, %s-endian' % (f['name'], fld, off, nm.lower()), bad is None, 'elf-read/%s/%s/%s' % (tail(f['name']), fld, nm),
                           '%s (%s:%d): bit %s of %s is not the one at offset 0x%02X in %s-endian files (value %s)' % (f['name'], f['file'], f.get('line', 0), bad, fld, off, nm.lower(), show(v)[:200]))
    for fid in P.find('ElfFile::getEndianness', False):
        for code, nm in ((1, 'Little'), (2, 'Big')):
            I = Interp(P, E)
            I.store((('X', 'obj'), ('fileHeader', 'e_ident', ('i', 5))), code)
            r = I.enter(fid, [], (('X', 'obj'), ()), None)
            res.ob('EI_DATA %d means %s-endian' % (code, nm.lower()), r == en[nm], 'elf-order/%s' % nm, '%s: EI_DATA %d gives %s' % (P.where(fid), code, show(r)))
        n += 1
    res.need(n, 5, 'object_file_accessors')
    # object data is read and patched in the object's own order
    users = 0
    for fid, f in P.fn.items():
        if f.get('cls') not in ('ElfRelocator', 'ElfFile', 'ElfSection', 'ElfSegment'): continue
        for c in walk_fn(f):
            if c.get('k') == 'call' and tail(c.get('name', '')) in NBYTES and c.get('cls') == 'ByteArray':
                users += 1
                a = c['args'][-1]
                bad = a.get('cv') is not None or a.get('k') == 'defarg' or strip(a).get('k') == 'ref' and strip(a).get('dk') == 'enum'
                res.ob('%s:%d uses the byte order of the object file' % (f['file'], c['l']), not bad, 'elf-fixed-order/%s/%s' % (f['name'], tail(c['name'])),
                       '%s (%s:%d) calls %s with a fixed byte order' % (f['name'], f['file'], c['l'], c['name']))
    res.stats['object_data_accesses'] = users


def strip_guard(v):
    """The value on the path where the read is in bounds / the option is on: drop gates to a constant."""
    while isinstance(v, tuple) and v[0] == 'ite':
        a, b = v[2], v[3]
        if isinstance(a, int) or not has_buf(a): v = b
        elif isinstance(b, int) or not has_buf(b): v = a
        else: break
    if isinstance(v, tuple) and v[0] == 'wrap' and isinstance(v[3], tuple) and v[3][0] == 'ite': return strip_guard(v[3])
    return v


def has_buf(t):
    return any(isinstance(a[1], tuple) and a[1][0] == 'in' and a[1][1][0] == 'D' for a in T.atoms(t))


def src(bit, hdr, fld):
    """Bit number when the bit comes from obj.<hdr>.<fld>."""
    if not (isinstance(bit, tuple) and len(bit) == 2): return None
    t, i = bit
    if isinstance(t, tuple) and t[0] == 'v' and isinstance(t[1], tuple) and t[1][0] == 'in' and t[1][1] == ('X', 'obj') and t[1][2][-2:] == (hdr, fld): return i
    return None


def byteoff(bit):
    if not (isinstance(bit, tuple) and len(bit) == 2): return None
    t, i = bit
    if isinstance(t, tuple) and t[0] == 'v' and isinstance(t[1], tuple) and t[1][0] in ('in', 'fld') and t[1][2]:
        e = t[1][2][-1]
        if isinstance(e, tuple) and e[0] == 'i': return (e[1], i)
    return None


# ---------------------------------------------------------------- which order is in force
def selection(P, E, res, en):
    archs = [d for d in directives(P) if d[1] in ORDER]
    res.need(len(archs), 8, 'architecture_directives')
    for tab, name, fid, flags in archs:
        f = P.fn.get(fid)
        if f is None: continue
        made = []

        def ctor(I, node, rec, root):
            made.append((rec, root))
        I = Interp(P, E, {'make': ctor, 'ExpressionFunctionHandler::updateArchitecture': lambda I, n, w: 0, 'ExpressionFunctionHandler::instance': lambda I, n, w: ('LOC', (('X', 'efh'), ()))})
        for g, cls in (('Mips', 'CMipsArchitecture'), ('Arm', 'CArmArchitecture'), ('SuperH', 'CShArchitecture')):
            I.dyn[('G', g)] = cls
        vals = []
        for p in f['params']:
            if P.ty(p['ty']).get('ref'): vals.append((p, True, ('ptr', ('X', 'parser'), ())))
            else: vals.append((p, False, flags))
        r = I.enter(fid, vals, None, None)
        got = None
        cmd = next((root for rec, root in made if rec == 'ArchitectureCommand'), None)
        if I.st is not None and cmd is not None: got = I.load((cmd, ('endianness',)), None)
        res.ob('%s selects %s-endian output' % (name, ORDER[name].lower()), got == en[ORDER[name]], 'order/%s' % name,
               'directive %s (%s) selects %s, documented is %s-endian' % (name, P.where(fid), 'nothing recognisable' if got is None else show(got), ORDER[name].lower()))
    # the command applies it in layout and output, on every path
    for ph in ('Validate', 'Encode'):
        for fid in P.find('ArchitectureCommand::' + ph, False):
            f = P.fn[fid]
            I = Interp(P, E, {'Architecture::setCurrent': lambda I, n, w: 0, 'FileManager::getVirtualAddress': lambda I, n, w: ('v', 'pos', (64, True))})
            fm = (('X', 'fm'), ())
            I.st.mem[(('G', 'g_fileManager'), ())] = ('ptr', fm[0], ())
            vals = [(p, True, ('ptr', ('X', 'state'), ())) for p in f['params']]
            want = I.load((('X', 'cmd'), ('endianness',)), None)
            I.enter(fid, vals, (('X', 'cmd'), ()), None)
            got = I.load((fm[0], ('endianness',)), None) if I.st is not None else None
            ok = isinstance(got, tuple) and got[0] == 'v' and got[1] == want[1]
            res.ob('%s puts its byte order in force' % f['name'], ok, 'apply/%s' % f['name'], '%s (%s:%d) leaves the file manager with byte order %s' % (f['name'], f['file'], f.get('line', 0), show(got) if got is not None else '?'))


# ---------------------------------------------------------------- raw writes
def raw(P, E, res):
    k = 0
    for fid, f in P.fn.items():
        if f.get('cls') == 'FileManager' or P.is_a(f.get('cls') or '', 'AssemblerFile'): continue
        for c in walk_fn(f):
            if c.get('k') != 'call' or c.get('name') not in ('FileManager::write', 'AssemblerFile::write'): continue
            k += 1
            a = c['args'][0]
            while a.get('k') == 'cast' and 'ptr' in P.ty(a['e'].get('ty', '')) or a.get('k') == 'cast' and 'elem' in P.ty(a['e'].get('ty', '')): a = a['e']
            t = P.ty(a.get('ty', ''))
            el = P.ty(t.get('ptr') or t.get('elem') or '')
            if not el and (t.get('ptr') or t.get('elem')): el = P.ty((t.get('ptr') or t.get('elem')).replace('const ', ''))
            bad = el.get('w', 8) > 8
            res.ob('%s:%d writes bytes, not numbers' % (f['file'], c['l']), not bad, 'raw/%s' % f['name'], '%s (%s:%d) hands a %d-bit number to the raw writer, bypassing the byte order' % (f['name'], f['file'], c['l'], el.get('w', 0)))
    res.need(k, 1, 'raw_writes')


# ---------------------------------------------------------------- units of the data directive
UNITS = {'U8': 1, 'Ascii': 1, 'U16': 2, 'U32': 4, 'Float': 4, 'U64': 8, 'Double': 8}


def data_units(P, E, res):
    ens = P.enums.get('CDirectiveData::EncodingMode') or P.enums.get('EncodingMode')
    fids = P.find('CDirectiveData::Encode', False)
    if not ens or not fids: return
    for e in ens['e']:
        if e['n'] not in UNITS: continue
        hooks = {}
        for m in P.rec['FileManager']['methods']:
            f = P.fn.get(m['id'])
            if f is None or not tail(f['name']).startswith('write'): continue
            if len(f['params']) == 1 and 'w' in P.ty(f['params'][0]['ty']):
                def h(I, node, want, w=P.ty(f['params'][0]['ty'])['w']):
                    v = I.rv(node['args'][0]); emit(I, 'unit', w // 8, T.wrap(w, False, v)); return ('v', ('ok', I.nobj), 'b')
            else:
                def h(I, node, want):
                    emit(I, 'unit', 'raw', 0); return ('v', ('ok', I.nobj), 'b')
            hooks[m['id']] = h
        I = Interp(P, E, hooks)
        I.store((('X', 'cmd'), ('mode',)), e['v'])
        I.enter(fids[0], [], (('X', 'cmd'), ()), None)
        ev = [x for x in unions_of(I.st.ev) if x[0] == 'unit'] if I.st is not None else []
        ok = bool(ev) and all(x[1] == UNITS[e['n']] for x in ev)
        # the value written is the stored one, cut to the unit
        for x in ev:
            if x[1] == 'raw': continue
            b = T.bits(x[2], 8 * x[1])
            a = b[0][0] if isinstance(b[0], tuple) else None
            if not (a and a[0] == 'v' and 'normalData' in T.rk(a) and b == [(a, i) for i in range(8 * x[1])]): ok = False
        res.ob('data directive in mode %s writes units of %d bytes' % (e['n'], UNITS[e['n']]), ok, 'unit/%s' % e['n'],
               '%s: mode %s writes units of %s' % (P.where(fids[0]), e['n'], [x[1] for x in ev]))
