package main

import "strings"

// Specifications shared by several properties, and which property rests on which.

func init() {
	m := "minigopdf"
	core := "minigopdf/fontmaker/core"
	add := func(rel, impl, ref string, opaque ...string) {
		addSpecs("pool", spec{rel: rel, impl: impl, ref: "zzC40" + ref, when: true, opaque: opaque})
	}
	so := []string{"buildImgProp", "rc4Cip", "PDFProtection.objectkey"}
	// editing library
	add("", "PDFt.Open", "Open", "PDFt.OpenFrom")
	add("", "PDFFontData.addChars", "AddChars", "minigopdf:SubsetFontObj.AddChars")
	add("", "PDFData.getPageCrawl", "PageCrawl", "crawl.run", "crawlResult.String")
	add("", "crawlResult.valOf", "ValOf", "loopValOf")
	add("", "crawlResult.setValOf", "SetValOf", "loopSetValOf")
	add("", "PDFObjPropertyData.asDictionaryArr", "Refs", "readObjIDFromDictionaryArr")
	add("", "PDFObjPropertyData.asDictionary", "Ref", "readObjIDFromDictionary")
	add("", "PDFObjPropertyData.valType", "Typ", "propertyType")
	// images
	add(m, "ImageObj.SetImage", "SetImage")
	add(m, "SMask.BytesBuffer", "MaskBuff", "SMask.build")
	addSpecs("pool", spec{rel: m, impl: "ImageObj.Build", ref: "zzC04Image", opaque: so})
	addSpecs("pool", spec{rel: m, impl: "ImageObj.Parse", ref: "zzC26Obj", opaque: []string{"parseImg"}})
	add(m, "newImageBuff", "HolderBytes")
	add(m, "newImageBuffByPath", "HolderPath")
	add(m, "newImageBuffByReader", "HolderReader")
	add(m, "imageBuff.ID", "HolderID")
	// fonts
	add(m, "NewMapOfCharacterToGlyphIndex", "NewMap")
	add(m, "MapOfCharacterToGlyphIndex.AllKeys", "Keys")
	add(m, "MapOfCharacterToGlyphIndex.Index", "MapIndex")
	add(m, "SubsetFontObj.KernValueByLeft", "KernLeft")
	add(m, "SubsetFontObj.SetTTFByPath", "ByPath", core+":TTFParser.Parse")
	add(m, "SubsetFontObj.SetTTFByReader", "ByReader", core+":TTFParser.ParseByReader")
	add(m, "SubsetFontObj.SetFuncTextriseOverride", "Rise")
	add(m, "DesignUnitsToPdf", "Units")
	for _, b := range []struct{ t, r string }{{"SubsetFontObj", "zzC03Font"}, {"CIDFontObj", "zzC03CID"}, {"SubfontDescriptorObj", "zzC03Desc"}, {"PdfDictionaryObj", "zzC03File"}, {"UnicodeMap", "zzC03Map"}} {
		addSpecs("pool", spec{rel: m, impl: b.t + ".Build", ref: b.r, ws: true, opaque: []string{"DesignUnitsToPdf", "PdfDictionaryObj.makeFont", "rc4Cip", "PDFProtection.objectkey", "UnicodeMap.pdfToUnicodeMap"}})
	}
	addSpecs("pool", spec{rel: core, impl: "TTFParser.parsekernSubTableFormat0", ref: "zzC40Pairs", pre: "zzC40TwoPairs", skip: []string{"*p1"}, opaque: []string{"TTFParser.ReadUShort", "TTFParser.ReadShortInt16", "TTFParser.Skip"}})
	add(core, "TTFParser.Parse", "Parse", "TTFParser.parse")
	add(core, "TTFParser.ParseByReader", "ParseReader", "TTFParser.parse")
	add(core, "TTFParser.SetUseKerning", "UseKern")
	// bundled generator
	add(m, "cacheContentText.isSame", "Same")
	add(m, "GoPdf.SetFont", "SetFont", "GoPdf.SetFontWithStyle")
	add(m, "GoPdf.MeasureTextWidth", "Measure", "SubsetFontObj.AddChars", "createContent")
	add(m, "GoPdf.SetInfo", "Info")
	add(m, "GoPdf.resetCurrXY", "Reset")
	add(m, "GoPdf.KernOverride", "Kern")
	add(m, "GoPdf.Image", "Image", "ImageHolderByPath", "GoPdf.ImageByHolder")
	addSpecs("pool", spec{rel: m, impl: "GoPdf.AddTTFFontByReaderWithOption", ref: "zzC40AddFont", pre: "zzC40PreAdd", when: true, opaque: []string{"SubsetFontObj.SetTTFByReader", "RelateFonts.IsContainsFamilyAndStyle"}})
	add(m, "GoPdf.AddTTFFontByReader", "AddFontDef", "GoPdf.AddTTFFontByReaderWithOption")
	add(m, "GoPdf.AddTTFFontWithOption", "AddFontPath", "GoPdf.AddTTFFontByReaderWithOption")
	add(m, "GoPdf.AddTTFFont", "AddFontPathDef", "GoPdf.AddTTFFontWithOption")
	add(m, "GoPdf.Read", "Read", "GoPdf.compilePdf")
}

// Small parts, each specified on its own: other specifications are written in terms of them.
func init() {
	m := "minigopdf"
	core := "minigopdf/fontmaker/core"
	add := func(rel, impl, ref string, opaque ...string) {
		addSpecs("pool", spec{rel: rel, impl: impl, ref: "zzC41" + ref, when: true, opaque: opaque})
	}
	for _, a := range []string{"CIDFontObj CIDBuff", "EncryptionObj EncBuff", "ImageObj ImgBuff", "PdfDictionaryObj FileBuff", "SubfontDescriptorObj DescBuff",
		"SubsetFontObj FontBuff", "UnicodeMap MapBuff"} {
		t, ref, _ := strings.Cut(a, " ")
		add(m, t+".GetObjBuff", ref)
		add(m, t+".getObjBuff", ref)
	}
	for _, a := range []string{"SMask MaskBuff", "CatalogObj CatalogBuff", "ContentObj ContentBuff", "DeviceRGBObj RGBBuff", "EmbedFontObj EmbedBuff", "EncodingObj EncodingBuff",
		"FontDescriptorObj DescriptorBuff", "FontObj SimpleBuff", "PageObj PageBuff", "PagesObj PagesBuff", "ProcSetObj ProcBuff"} {
		t, ref, _ := strings.Cut(a, " ")
		add(m, t+".getObjBuff", ref)
	}
	for _, a := range []string{"ImageObj.protection ImgProt", "ImageObj.setProtection ImgSetProt", "PdfDictionaryObj.protection FileProt", "PdfDictionaryObj.setProtection FileSetProt",
		"SMask.protection MaskProt", "SMask.setProtection MaskSetProt", "GoPdf.protection Prot", "ContentObj.protection ContentProt", "DeviceRGBObj.protection RGBProt",
		"EmbedFontObj.protection EmbedProt", "ContentObj.init ContentInit", "DeviceRGBObj.init RGBInit", "EmbedFontObj.init EmbedInit", "ProcSetObj.init ProcInit", "PagesObj.init PagesInit",
		"SubsetFontObj.GetFamily Family", "SubsetFontObj.GetUp Up", "SubsetFontObj.GetUt Ut", "ContentObj_CalTextHeight TextHeight", "CacheContent.WriteTextToContent Write",
		"CacheContent.Setup Setup", "EncryptionObj.escape Escape", "isColspaceIndexed Indexed", "haveSMask HasMask", "textrise Rise", "infodate Date",
		"FontObj.SetIndexObjWidth SetWidth", "FontObj.SetIndexObjFontDescriptor SetDesc", "FontObj.SetIndexObjEncoding SetEncoding", "FontConvertHelper_Cw2Str Widths",
		"StrHelperGetStringWidth StringWidth", "ImgReactagleToWH WH", "ImageObj.getRect Rect", "readBytes ReadBytes", "ReadUShortFromByte UShort"} {
		f, ref, _ := strings.Cut(a, " ")
		add(m, f, ref)
	}
	add(m, "readUInt", "ReadUInt", "readBytes")
	add(m, "readInt", "ReadInt", "readUInt")
	add(m, "ImageHolderByBytes", "ByBytes", "newImageBuff")
	add(m, "ImageHolderByPath", "ByPath", "newImageBuffByPath")
	add(m, "ImageHolderByReader", "ByReader", "newImageBuffByReader")
	add(m, "ImageObj.SetImagePath", "SetPath")
	for _, a := range []string{"FontObj.build Font", "EncodingObj.build Encoding", "FontDescriptorObj.build Descriptor"} {
		f, ref, _ := strings.Cut(a, " ")
		addSpecs("pool", spec{rel: m, impl: f, ref: "zzC41" + ref, when: true, ws: true})
	}
	for _, a := range []string{"PDFObjPropertiesData.at At", "PDFObjPropertiesData.append Append", "PDFObjPropertiesData.size Size", "PDFData.Len Len", "PDFObjPropertyData.setRaw Raw",
		"PDFFontData.fontName Name", "PDFFontData.setFontName SetName"} {
		f, ref, _ := strings.Cut(a, " ")
		add("", f, ref)
	}
	add("", "PDFFontData.setTTFPath", "Path", "minigopdf:SubsetFontObj.SetTTFByPath")
	add("", "PDFFontData.setTTFReader", "Reader", "minigopdf:SubsetFontObj.SetTTFByReader")
	add(core, "Round", "Round")
}

func init() {
	pool := func(prop string, impls ...string) { reuse(prop, "pool", impls...) }

	reuse("C01", "C02", "PDFt.build", "PDFData.maxID")

	reuse("C02", "C08", "PDFt.InsertImg", "PDFt.InsertImgBase64", "PDFt.InsertImgWithCache")
	reuse("C02", "C10", "PDFt.DuplicatePageAfter")
	reuse("C02", "C01", "PDFt.toStream")
	reuse("C02", "C09", "PDFData.injectFontsToPDF", "PDFData.injectImgsToPDF")

	reuse("C03", "C02", "PDFt.build")
	reuse("C03", "C09", "PDFData.injectFontsToPDF", "sortedFontNames")
	reuse("C03", "C30", "PDFt.AddFont", "PDFt.AddFontFrom")
	pool("C03", "SubsetFontObj.SetTTFByPath", "SubsetFontObj.SetTTFByReader", "DesignUnitsToPdf", "NewMapOfCharacterToGlyphIndex",
		"SubsetFontObj.Build", "CIDFontObj.Build", "SubfontDescriptorObj.Build", "PdfDictionaryObj.Build", "UnicodeMap.Build")

	reuse("C04", "C12", "PDFData.injectContentToPDF")
	reuse("C04", "C18", "PDFObjData.encrypt")
	pool("C04", "ImageObj.Build", "SMask.BytesBuffer")
	pool("C05", "ImageObj.Build", "SMask.BytesBuffer")

	reuse("C06", "C12", "ContentText.page", "PDFData.injectContentToPDF")
	reuse("C06", "C33", "createContent", "cacheContentText.calX", "CacheContent.MeasureTextWidth", "cacheContentText.createContent", "ContentText.measureTextWidth")
	reuse("C06", "C02", "PDFt.build")
	reuse("C06", "C35", "parsePageSize", "PDFData.inheritedProperty", "PDFt.OpenFrom")
	pool("C06", "PDFFontData.addChars", "SubsetFontObj.SetFuncTextriseOverride")

	reuse("C07", "C08", "PDFt.InsertImg", "PDFt.InsertImgBase64", "PDFt.InsertImgWithCache")
	reuse("C07", "C02", "PDFt.build")
	reuse("C07", "C12", "PDFData.injectContentToPDF")
	reuse("C07", "C09", "PDFData.injectImgsToPDF")
	reuse("C07", "C35", "parsePageSize", "PDFData.inheritedProperty")

	reuse("C08", "C07", "contentImgBase64.toSteram", "contentImgBase64.page", "PDFt.pageHeight")
	reuse("C08", "C26", "ImageObj.parse", "ImageObj.CreateSMask", "ImageObj.SetSMaskObjID", "ImageObj.SetPaletteObjID", "ImageObj.haveSMask", "ImageObj.isColspaceIndexed", "ImageObj.CreatePalette")
	reuse("C08", "C02", "PDFData.putNewObject", "PDFData.put", "PDFData.maxID", "PDFt.build")
	reuse("C08", "C09", "PDFData.injectImgsToPDF")
	reuse("C08", "C35", "PDFt.OpenFrom")
	pool("C08", "ImageObj.SetImage", "ImageObj.Build", "ImageObj.Parse", "SMask.BytesBuffer")

	reuse("C09", "C08", "PDFt.InsertImg", "PDFt.InsertImgBase64", "PDFt.InsertImgWithCache")
	reuse("C09", "C06", "PDFt.Insert")
	reuse("C09", "C12", "readProperty")
	reuse("C09", "C35", "readProperties", "parseProps.set", "parseProps.loop")
	pool("C09", "PDFData.getPageCrawl", "crawlResult.valOf", "crawlResult.setValOf", "PDFObjPropertyData.valType")

	reuse("C10", "C35", "readProperties", "parseProps.set", "parseProps.loop", "setPagesObj")
	pool("C10", "PDFObjPropertyData.asDictionary", "PDFObjPropertyData.asDictionaryArr", "PDFObjPropertyData.valType")

	reuse("C11", "C08", "PDFt.InsertImgBase64", "PDFt.InsertImgWithCache")
	reuse("C11", "C10", "PDFt.setPages", "PDFData.getPageObjIDs")
	reuse("C11", "C12", "PDFData.injectContentToPDF")

	reuse("C12", "C35", "readProperties", "parseProps.set", "parseProps.loop")
	reuse("C12", "C01", "PDFt.toStream", "PDFt.SaveTo", "PDFt.Save")
	reuse("C12", "C27", "PDFt.InsertWrapText")
	pool("C12", "crawlResult.valOf", "PDFObjPropertyData.valType", "PDFObjPropertyData.asDictionary", "PDFObjPropertyData.asDictionaryArr")

	reuse("C13", "C01", "PDFt.SaveTo", "PDFt.Save")
	reuse("C13", "C24", "createContent")
	pool("C13", "SubsetFontObj.Build", "CIDFontObj.Build", "SubfontDescriptorObj.Build", "PdfDictionaryObj.Build", "UnicodeMap.Build")

	reuse("C15", "C01", "PDFt.SaveTo", "PDFt.Save")

	reuse("C18", "C19", "PDFProtection.setProtection", "EncryptionObj.build", "PDFProtection.encryptionObj")
	reuse("C18", "C08", "PDFt.InsertImg", "PDFt.InsertImgBase64", "PDFt.InsertImgWithCache")
	reuse("C18", "C01", "PDFt.SaveTo", "PDFt.Save")
	reuse("C18", "C12", "PDFData.injectContentToPDF")
	pool("C18", "ImageObj.Build", "SMask.BytesBuffer", "PdfDictionaryObj.Build", "UnicodeMap.Build")

	reuse("C19", "C18", "PDFt.SetProtection", "PDFt.toStream", "PDFObjData.encrypt")

	pool("C23", "TTFParser.parsekernSubTableFormat0", "TTFParser.Parse", "TTFParser.ParseByReader", "TTFParser.SetUseKerning", "SubsetFontObj.KernValueByLeft", "SubsetFontObj.SetTTFByPath", "SubsetFontObj.SetTTFByReader", "DesignUnitsToPdf")
	reuse("C23", "C24", "SubsetFontObj.charCodeToGlyphIndexFormat4", "SubsetFontObj.charCodeToGlyphIndexFormat12", "SubsetFontObj.CharCodeToGlyphIndex", "SubsetFontObj.GlyphIndexToPdfWidth")
	reuse("C23", "C25", "PdfDictionaryObj.GetOffset", "ReadShortFromByte", "ReadUShortFromByte")
	reuse("C23", "C03", "SubfontDescriptorObj.build")

	pool("C24", "PDFFontData.addChars", "MapOfCharacterToGlyphIndex.AllKeys", "MapOfCharacterToGlyphIndex.Index", "NewMapOfCharacterToGlyphIndex", "CIDFontObj.Build", "UnicodeMap.Build")
	reuse("C24", "C06", "PDFt.Insert", "ContentText.toSteram")
	reuse("C24", "C23", "TTFParser.ParseCmap", "TTFParser.ParseCmapFormat12", "TTFParser.ParseHmtx", "TTFParser.Widths", "TTFParser.Chars", "TTFParser.UnitsPerEm")

	reuse("C25", "C24", "SubsetFontObj.AddChars", "MapOfCharacterToGlyphIndex.Set", "SubsetFontObj.CharCodeToGlyphIndex")
	reuse("C25", "C23", "TTFParser.ParseLoca", "TTFParser.parse", "TTFParser.GetTables", "TTFParser.FontData")
	reuse("C25", "C04", "PdfDictionaryObj.build")
	pool("C25", "PDFFontData.addChars", "PdfDictionaryObj.Build")

	reuse("C26", "C04", "ImageObj.createSMask", "ImageObj.createDeviceRGB", "DeviceRGBObj.build")
	reuse("C26", "C08", "PDFt.InsertImg", "PDFt.InsertImgBase64", "PDFt.InsertImgWithCache")
	pool("C26", "ImageObj.SetImage", "ImageObj.Build", "ImageObj.Parse", "SMask.BytesBuffer")

	reuse("C27", "C06", "PDFt.Insert")
	reuse("C27", "C33", "PDFt.MeasureTextWidth", "ContentText.measureTextWidth", "createContent")
	reuse("C27", "C34", "BasicTextbreak.BreakTextToToken")

	reuse("C28", "C06", "PDFt.SetFont", "PDFt.ShowCellBorder")
	pool("C28", "PDFt.Open")

	pool("C30", "PDFt.Open")
	reuse("C30", "C03", "PDFParseFont", "PDFParseFontReader")

	pool("C31", "cacheContentText.isSame", "GoPdf.SetFont", "GoPdf.MeasureTextWidth", "GoPdf.SetInfo", "GoPdf.resetCurrXY", "GoPdf.KernOverride", "GoPdf.Image",
		"GoPdf.AddTTFFontByReaderWithOption", "GoPdf.AddTTFFontByReader", "GoPdf.AddTTFFontWithOption", "GoPdf.AddTTFFont", "GoPdf.Read",
		"newImageBuff", "newImageBuffByPath", "newImageBuffByReader", "imageBuff.ID", "ImageObj.SetImage")
	reuse("C31", "C33", "cacheContentText.createContent", "cacheContentText.calX")
	reuse("C31", "C04", "ImageObj.build", "SMask.build", "DeviceRGBObj.build", "ContentObj.build", "EmbedFontObj.build", "ImageObj.createSMask", "ImageObj.createDeviceRGB")
	reuse("C31", "C03", "SubsetFontObj.build", "CIDFontObj.build", "SubfontDescriptorObj.build", "PdfDictionaryObj.build", "UnicodeMap.build")

	reuse("C33", "C24", "SubsetFontObj.AddChars", "SubsetFontObj.CharIndex", "SubsetFontObj.CharWidth", "MapOfCharacterToGlyphIndex.Val", "MapOfCharacterToGlyphIndex.Set")
	reuse("C33", "C23", "KernValue.ValueByRight", "TTFParser.ParseHmtx", "TTFParser.Widths", "TTFParser.UnitsPerEm")
	reuse("C33", "C30", "PDFt.SetFont", "PDFt.KernOverride")
	pool("C33", "SubsetFontObj.KernValueByLeft", "MapOfCharacterToGlyphIndex.Index", "GoPdf.MeasureTextWidth")

	pool("C35", "PDFt.Open", "PDFObjPropertyData.asDictionary", "PDFObjPropertyData.asDictionaryArr", "PDFObjPropertyData.valType")
	reuse("C35", "C10", "PDFObjPropertyData.setAsDictionary")

	fonts := []string{"CIDFontObj", "PdfDictionaryObj", "SubfontDescriptorObj", "SubsetFontObj", "UnicodeMap"}
	small := func(prop, suffix string, types ...string) {
		for _, t := range types {
			pool(prop, t+"."+suffix)
		}
	}
	small("C03", "GetObjBuff", fonts...)
	pool("C03", "PDFFontData.fontName", "PDFFontData.setFontName", "PDFFontData.setTTFPath", "PDFFontData.setTTFReader", "SubsetFontObj.GetFamily")
	for _, c := range []string{"C04", "C05", "C08", "C26"} {
		pool(c, "ImageObj.GetObjBuff", "haveSMask", "isColspaceIndexed")
	}
	small("C04", "getObjBuff", "ContentObj", "DeviceRGBObj", "EmbedFontObj", "SMask")
	pool("C26", "readBytes", "readUInt", "readInt", "ImageObj.SetImagePath")
	pool("C08", "readBytes", "readUInt", "readInt")
	pool("C19", "EncryptionObj.GetObjBuff", "EncryptionObj.getObjBuff", "EncryptionObj.escape")
	for _, c := range []string{"C18", "C31"} {
		pool(c, "EncryptionObj.escape", "ImageObj.protection", "ImageObj.setProtection", "PdfDictionaryObj.protection", "PdfDictionaryObj.setProtection", "SMask.protection", "SMask.setProtection",
			"GoPdf.protection", "ContentObj.protection", "DeviceRGBObj.protection", "EmbedFontObj.protection")
	}
	pool("C06", "CacheContent.Setup", "CacheContent.WriteTextToContent", "ContentObj_CalTextHeight", "SubsetFontObj.GetUp", "SubsetFontObj.GetUt", "textrise", "PDFFontData.fontName")
	pool("C33", "CacheContent.Setup", "CacheContent.WriteTextToContent", "ContentObj_CalTextHeight", "textrise", "PDFFontData.fontName")
	pool("C23", "ReadUShortFromByte", "SubsetFontObj.GetUp", "SubsetFontObj.GetUt", "PDFFontData.setTTFPath", "PDFFontData.setTTFReader")
	pool("C25", "ReadUShortFromByte", "PdfDictionaryObj.GetObjBuff")
	pool("C30", "SubsetFontObj.GetFamily", "PDFFontData.fontName", "PDFFontData.setFontName", "PDFFontData.setTTFPath", "PDFFontData.setTTFReader")
	for _, c := range []string{"C09", "C10", "C12", "C35"} {
		pool(c, "PDFObjPropertiesData.at", "PDFObjPropertiesData.append", "PDFObjPropertiesData.size", "PDFObjPropertyData.setRaw")
	}
	for _, c := range []string{"C01", "C02", "C10", "C35"} {
		pool(c, "PDFData.Len")
	}
	small("C31", "getObjBuff", fonts...)
	small("C31", "getObjBuff", "EncryptionObj", "ImageObj", "SMask", "CatalogObj", "ContentObj", "DeviceRGBObj", "EmbedFontObj", "EncodingObj", "FontDescriptorObj", "FontObj", "PageObj", "PagesObj", "ProcSetObj")
	small("C31", "init", "ContentObj", "DeviceRGBObj", "EmbedFontObj", "ProcSetObj", "PagesObj")
	pool("C31", "SubsetFontObj.GetFamily", "SubsetFontObj.GetUp", "SubsetFontObj.GetUt", "ContentObj_CalTextHeight", "CacheContent.Setup", "CacheContent.WriteTextToContent", "textrise", "infodate",
		"FontObj.build", "EncodingObj.build", "FontDescriptorObj.build", "FontObj.SetIndexObjWidth", "FontObj.SetIndexObjFontDescriptor", "FontObj.SetIndexObjEncoding", "FontConvertHelper_Cw2Str",
		"StrHelperGetStringWidth", "ImgReactagleToWH", "ImageObj.getRect", "ImageHolderByBytes", "ImageHolderByPath", "ImageHolderByReader", "ImageObj.SetImagePath", "isColspaceIndexed", "haveSMask",
		"readBytes", "readUInt", "readInt")
}

func init() {
	fails("C16", "", "minigopdf", "minigopdf/fontmaker/core", "render", "textbreak")
	fails("C29", "", "minigopdf/fontmaker/core")
}

func init() {
	failsOf("C26", "minigopdf", "paesePng", "parseImg", "ImageObj.parse")
	failsOf("C05", "minigopdf", "paesePng")
	failsOf("C16", "minigopdf", "paesePng")
}
