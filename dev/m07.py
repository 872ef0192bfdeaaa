A='Commands/CDirectiveArea.cpp'; D='Commands/CDirectiveData.cpp'; F='Commands/CDirectiveFile.cpp'; X='Archs/MIPS/MipsMacros.cpp'
FM='Core/FileManager.cpp'; CM='Archs/MIPS/CMipsInstruction.cpp'; CT='Archs/ARM/CThumbInstruction.cpp'; CA='Archs/ARM/CArmInstruction.cpp'; AR='Archs/ARM/Arm.cpp'
def m(x,*e): return ('C07',x,[(e[i],e[i+1],e[i+2]) for i in range(0,len(e),3)])
MUT={
 'fill128':m(1,F,'''	while (n > 128)
	{
		g_fileManager->write(buffer,128);
		n -= 128;
	}
''','''	while (n > 128)
	{
		g_fileManager->write(buffer,128);
		n -= 127;
	}
'''),
 'fillge':m(1,F,'''	while (n > 128)
	{
		g_fileManager->write(buffer,128);
		n -= 128;
	}

	g_fileManager->write(buffer,n);''','''	while (n > 128)
	{
		g_fileManager->write(buffer,128);
		n -= 128;
	}

	if (n < 128)
		g_fileManager->write(buffer,n);'''),
 'incbintrunc':m(1,F,'''		size = fileSize-start;
	}

	Architecture::current().NextSection();
	g_fileManager->advanceMemory(size);''','''		g_fileManager->advanceMemory(fileSize-start);
		return false;
	}

	Architecture::current().NextSection();
	g_fileManager->advanceMemory(size);'''),
 'incbinclamp':m(1,F,'''		ByteArray data = ByteArray::fromFile(fileName,(long)start,size);
		if ((int) data.size() != size)''','''		ByteArray data = ByteArray::fromFile(fileName,(long)start,size);
		if ((int) data.size() == 0)'''),
 'term':m(1,D,'''	if (writeTermination)
	{
		normalData.push_back(0);
	}
''','',D,'''		for (auto value: normalData)
		{
			g_fileManager->writeU8((uint8_t)value);
		}
		break;''','''		for (auto value: normalData)
		{
			g_fileManager->writeU8((uint8_t)value);
		}
		if (writeTermination)
			g_fileManager->writeU8(0);
		break;'''),
 'u16width':m(1,D,'''			g_fileManager->writeU16((uint16_t)value);''','''			g_fileManager->writeU8((uint8_t)value);'''),
 'dblunit':m(1,D,'''	case EncodingMode::Float:
		return 4;
	case EncodingMode::U64:
	case EncodingMode::Double:''','''	case EncodingMode::Float:
	case EncodingMode::Double:
		return 4;
	case EncodingMode::U64:'''),
 'skipneg':m(1,F,'''void CDirectiveSkip::Encode() const
{
	Architecture::current().NextSection();
	g_fileManager->advanceMemory(value);''','''void CDirectiveSkip::Encode() const
{
	Architecture::current().NextSection();
	if (value > 0)
		g_fileManager->advanceMemory(value);'''),
 'areasub':m(1,A,'''		if (subAreaUsage != 0)
			g_fileManager->advanceMemory(subAreaUsage);
''',''),
 'areacap':m(1,A,'''			size_t part = std::min<size_t>(64,writeSize);
			g_fileManager->write(buffer,part);''','''			size_t part = std::min<size_t>(64,writeSize);
			g_fileManager->write(buffer,part & ~1);'''),
 'areashared':m(1,A,'''	if (fillExpression.isLoaded() || shared)
		g_fileManager->advanceMemory(areaSize-contentSize);''','''	if (fillExpression.isLoaded() || (shared && content == nullptr))
		g_fileManager->advanceMemory(areaSize-contentSize);'''),
 'autoreset':m(1,A,'''	content->Encode();
	g_fileManager->seekVirtual(resetPosition);''','''	content->Encode();
	if (contentSize != 0)
		g_fileManager->seekVirtual(resetPosition);'''),
 'posphys':m(1,F,'''	case Physical:
		g_fileManager->seekPhysical(position);
		break;
	case Virtual:
		g_fileManager->seekVirtual(position);
		break;
	}
}

bool CDirectivePosition::Validate''','''	case Physical:
	case Virtual:
		g_fileManager->seekVirtual(position);
		break;
	}
}

bool CDirectivePosition::Validate''',F,'''	Architecture::current().NextSection();
	exec();
	return false;
}

void CDirectivePosition''','''	Architecture::current().NextSection();
	if (type == Physical)
		g_fileManager->seekPhysical(position);
	else
		exec();
	return false;
}

void CDirectivePosition'''),
 'hdrsize':m(1,F,'''void CDirectiveHeaderSize::Encode() const
{
	exec();''','''void CDirectiveHeaderSize::Encode() const
{
	if (headerSize > 0)
		exec();'''),
 'thumb32':m(1,CT,'''	g_fileManager->writeU16(encoding);''','''	g_fileManager->writeU32(encoding);''') ,
 'mipsnop':m(1,CM,'''	if (addNop)''','''	if (addNop && registerData.grd.num != -1)'''),
 'rawwrite':m(1,FM,'''	stream.write(reinterpret_cast<const char *>( data ), length);
	virtualAddress += length;''','''	stream.write(reinterpret_cast<const char *>( data ), length);
	if (length > 1) virtualAddress += length;'''),
 'seekhdr':m(1,FM,'''	int64_t physicalAddress = virtualAddress-headerSize;

	if (isOpen())''','''	int64_t physicalAddress = virtualAddress-originalHeaderSize;

	if (isOpen())'''),
 # quiet
 'q_fillwhile':m(0,F,'''	while (n > 128)
	{
		g_fileManager->write(buffer,128);
		n -= 128;
	}

	g_fileManager->write(buffer,n);''','''	while (n > 0)
	{
		int64_t part = n < 128 ? n : 128;
		g_fileManager->write(buffer,part);
		n -= part;
	}'''),
 'q_fillfor':m(0,F,'''	while (n > 128)
	{
		g_fileManager->write(buffer,128);
		n -= 128;
	}

	g_fileManager->write(buffer,n);''','''	for (; n > 128; n -= 128)
		g_fileManager->write(buffer,128);

	g_fileManager->write(buffer,n);'''),
 'q_datafor':m(0,D,'''		for (auto value: normalData)
		{
			g_fileManager->writeU16((uint16_t)value);
		}''','''		for (size_t i = 0; i < normalData.size(); ++i)
		{
			uint16_t half = (uint16_t)normalData[i];
			g_fileManager->writeU16(half);
		}'''),
 'q_datahelper':m(0,D,'''	g_fileManager->advanceMemory(getDataSize());
	return oldSize != getDataSize();''','''	const size_t newSize = getDataSize();
	g_fileManager->advanceMemory(newSize);
	return newSize != oldSize;'''),
 'q_areahelper':m(0,A,'''		size_t writeSize = areaSize-contentSize-subAreaUsage;
		while (writeSize > 0)
		{
			size_t part = std::min<size_t>(64,writeSize);
			g_fileManager->write(buffer,part);
			writeSize -= part;
		}''','''		size_t written = 0;
		const size_t writeSize = areaSize-contentSize-subAreaUsage;
		while (written < writeSize)
		{
			size_t part = writeSize - written;
			if (part > sizeof(buffer))
				part = sizeof(buffer);
			g_fileManager->write(buffer,part);
			written += part;
		}'''),
 'q_skip':m(0,F,'''	Architecture::current().NextSection();
	g_fileManager->advanceMemory(value);

	return false;''','''	Architecture::current().NextSection();
	g_fileManager->seekVirtual(virtualAddress + value);

	return false;'''),
 'q_incbin':m(0,F,'''	if (size != 0)
	{
		ByteArray data = ByteArray::fromFile(fileName,(long)start,size);
		if ((int) data.size() != size)
		{
			Logger::printError(Logger::Error, "Could not read file \\"%s\\"",fileName.u8string());
			return;
		}
		g_fileManager->write(data.data(),data.size());
	}''','''	if (size == 0)
		return;

	ByteArray data = ByteArray::fromFile(fileName,(long)start,size);
	if ((int) data.size() == size)
		g_fileManager->write(data.data(),data.size());
	else
		Logger::printError(Logger::Error, "Could not read file \\"%s\\"",fileName.u8string());'''),
 'q_writehelper':m(0,D,'''void CDirectiveData::Encode() const
{''','''template <typename T, typename F>
static void writeEach(const T& list, F fn)
{
	for (auto value: list)
		fn(value);
}

void CDirectiveData::Encode() const
{''',D,'''		for (auto value: normalData)
		{
			g_fileManager->writeU32((uint32_t)value);
		}''','''		writeEach(normalData, [](int64_t value) { g_fileManager->writeU32((uint32_t)value); });'''),
 'q_fillmerge':m(0,F,'''	switch (mode)
	{
	case AlignVirtual:
		mod = g_fileManager->getVirtualAddress() % value;
		finalSize = mod ? value-mod : 0;
		break;
	case AlignPhysical:
		mod = g_fileManager->getPhysicalAddress() % value;
		finalSize = mod ? value-mod : 0;
		break;
	case Fill:
		finalSize = value;
		break;
	}
''','''	if (mode == Fill)
	{
		finalSize = value;
	}
	else
	{
		int64_t from = mode == AlignVirtual ? g_fileManager->getVirtualAddress() : g_fileManager->getPhysicalAddress();
		mod = from % value;
		finalSize = mod == 0 ? 0 : value-mod;
	}
'''),
}
