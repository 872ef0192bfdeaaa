A='Commands/CDirectiveArea.cpp'; L='Commands/CAssemblerLabel.cpp'; F='Commands/CDirectiveFile.cpp'; S='Core/Assembler.cpp'; CS='Commands/CommandSequence.cpp'
EL='Core/ELF/ElfRelocator.cpp'; PX='Archs/MIPS/PsxRelocator.cpp'; C='Commands/CDirectiveConditional.cpp'; CM='Archs/MIPS/CMipsInstruction.cpp'
def m(x,*e): return ('C08',x,[(e[i],e[i+1],e[i+2]) for i in range(0,len(e),3)])
MUT={
 'labelval':m(1,L,'''		label->setValue(virtualValue);
		result = true;''','''		label->setValue(virtualValue);
		result = virtualValue > label->getValue();'''),
 'labelphys':m(1,L,'''		label->setPhysicalValue(physicalValue);
		result = true;''','''		label->setPhysicalValue(physicalValue);'''),
 'labeldef':m(1,L,'''		label->setDefined(true);
		defined = true;
		result = true;''','''		label->setDefined(true);
		defined = true;'''),
 'labelcmp32':m(1,L,'if (label->getValue() != virtualValue)\n	{\n		label->setValue(virtualValue);\n		result = true;\n	}','if ((int)label->getValue() != (int)virtualValue)\n		result = true;\n	label->setValue(virtualValue);'),
 'labelbackonly':m(1,L,'''	if (label->getValue() != virtualValue)
	{
		label->setValue(virtualValue);
		result = true;
	}''','''	if (label->getValue() != virtualValue)
	{
		result = label->getValue() < virtualValue;
		label->setValue(virtualValue);
	}'''),
 'areapos':m(1,A,'fileID != oldFileID || position != oldPosition || areaSize','fileID != oldFileID || areaSize'),
 'areasize':m(1,A,'position != oldPosition || areaSize != oldAreaSize || contentSize','position != oldPosition || contentSize'),
 'areacontent':m(1,A,' || contentSize != oldContentSize)\n		result = true;\n\n	if ((old',')\n		result = true;\n\n	if ((old'),
 'areaand':m(1,A,'areaSize != oldAreaSize || contentSize','areaSize != oldAreaSize && contentSize'),
 'autoregpos':m(1,A,'if (position != oldPosition || contentSize != oldContentSize)\n		result = true;\n\n	return result;\n}\n\nvoid CDirectiveAutoRegion','if (contentSize != oldContentSize)\n		result = true;\n\n	return result;\n}\n\nvoid CDirectiveAutoRegion'),
 'autoregcontent':m(1,A,'if (position != oldPosition || contentSize != oldContentSize)\n		result = true;\n\n	return result;\n}\n\nvoid CDirectiveAutoRegion','if (position != oldPosition)\n		result = true;\n\n	return result;\n}\n\nvoid CDirectiveAutoRegion'),
 'seqlast':m(1,CS,'''		if (cmd->Validate(state))
			result = true;''','''		result = cmd->Validate(state);'''),
 'funcflag':m(1,L,'''	if (content->Validate(contentValidation))
		result = true;''','''	if (content->Validate(contentValidation))
		result = start != end;'''),
 'condflag':m(1,C,'''		if (ifBlock->Validate(state))
			returnValue = true;''','''		if (ifBlock->Validate(state) && !previousResult)
			returnValue = true;'''),
 'objflag':m(1,F,'return rel.hasDataChanged() || result;','return rel.hasDataChanged() && result;'),
 'objflag2':m(1,F,'return rel.hasDataChanged() || result;','return result;'),
 'elfsym':m(1,EL,'		if (oldAddress != sym.relocatedAddress)\n			dataChanged = true;','		if (oldAddress != sym.relocatedAddress && sym.section != SHN_COMMON)\n			dataChanged = true;'),
 'elfsym2':m(1,EL,'		if (oldAddress != sym.relocatedAddress)\n			dataChanged = true;','		dataChanged = oldAddress != sym.relocatedAddress;'),
 'elfreset':m(1,EL,'''	if (oldCrc != newCrc)
		dataChanged = true;''','''	dataChanged = oldCrc != newCrc;'''),
 'psxsym':m(1,PX,'		if (label.getValue() != value)\n			dataChanged = true;','		if (label.getValue() > value)\n			dataChanged = true;'),
 'psxreset':m(1,PX,'''	if (oldCrc != newCrc)
		dataChanged = true;''','''	dataChanged = oldCrc != newCrc;'''),
 'bound':m(1,S,'''			Logger::queueError(Logger::Error, "Stuck in infinite validation loop");
			break;''','''			Logger::queueError(Logger::Warning, "Stuck in infinite validation loop");
			break;'''),
 'boundless':m(1,S,'	} while (Revalidate);','	} while (Revalidate && validation.passes < 50);'),
 'twopass':m(1,S,'	} while (Revalidate);','	} while (Revalidate || validation.passes < 2);\n	if (validation.passes > 60) Logger::clearQueue();'),
 'nopass':m(1,S,'''		validation.passes++;
	} while''','''		if (validation.passes == 0) validation.passes++;
	} while'''),
 'loopinv':m(1,S,'Revalidate = content->Validate(validation);','if (content->Validate(validation) && validation.passes < 98) Revalidate = true;'),
 # behaviour kept
 'q_label':m(0,L,'''	if (label->getValue() != virtualValue)
	{
		label->setValue(virtualValue);
		result = true;
	}''','''	const bool moved = label->getValue() != virtualValue;
	label->setValue(virtualValue);
	result |= moved;'''),
 'q_area':m(0,A,'''	if (fileID != oldFileID || position != oldPosition || areaSize != oldAreaSize || contentSize != oldContentSize)
		result = true;
''','''	const bool moved = fileID != oldFileID || position != oldPosition;
	const bool resized = !(areaSize == oldAreaSize && contentSize == oldContentSize);
	if (moved || resized)
		result = true;
'''),
 'q_seq':m(0,CS,'''		if (cmd->Validate(state))
			result = true;''','''		result = cmd->Validate(state) || result;'''),
 'q_fill':m(0,F,'''	bool result = oldSize != finalSize;
	oldSize = finalSize;
	return result;''','''	return oldSize != finalSize;'''),
 'q_elf':m(0,EL,'''		if (sym.label != nullptr)
			sym.label->setValue(sym.relocatedAddress);

		if (oldAddress != sym.relocatedAddress)
			dataChanged = true;''','''		const bool moved = oldAddress != sym.relocatedAddress;
		dataChanged = dataChanged || moved;

		if (sym.label != nullptr)
			sym.label->setValue(sym.relocatedAddress);
'''),
 'q_loop':m(0,S,'''		validation.passes++;
	} while (Revalidate);''','''		++validation.passes;
		if (!Revalidate)
			break;
	} while (true);'''),
 'q_loop2':m(0,S,'''		Revalidate = content->Validate(validation);
''','''		const auto runPass = [&]() { return content->Validate(validation); };
		Revalidate = runPass();
'''),
 'q_auto':m(0,A,'''	if (position != oldPosition || contentSize != oldContentSize)
		result = true;

	return result;
}

void CDirectiveAutoRegion''','''	return result || position != oldPosition || contentSize != oldContentSize;
}

void CDirectiveAutoRegion'''),
 'q_obj':m(0,F,'''	return rel.hasDataChanged() || result;''','''	if (rel.hasDataChanged())
		result = true;
	return result;'''),
 'q_while':m(0,S,'''		if (validation.passes >= 100)
		{
			Logger::queueError(Logger::Error, "Stuck in infinite validation loop");
			break;
		}
''','''		bool stuck = !(validation.passes < 100);
		if (stuck)
		{
			Logger::queueError(Logger::Error, "Stuck in infinite validation loop");
			break;
		}
'''),
}
