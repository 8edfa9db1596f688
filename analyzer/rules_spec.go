package main

func init() {
	addSpecs("C06",
		spec{impl: "ContentText.toSteram", ref: "zzC06Text", ws: true},
		spec{impl: "PDFt.pageHeight", ref: "zzC06Height"},
		spec{impl: "PDFt.Insert", ref: "zzC06Insert", when: true, opaque: []string{"PDFFontData.addChars"}},
		spec{impl: "PDFt.SetFont", ref: "zzC06SetFont", when: true},
		spec{impl: "PDFt.ShowCellBorder", ref: "zzC06Border"},
		spec{impl: "ContentLineStyle.toSteram", ref: "zzC06Line", ws: true},
	)
	addSpecs("C07",
		spec{impl: "contentImgBase64.toSteram", ref: "zzC07Draw", ws: true},
		spec{impl: "contentImgBase64.page", ref: "zzC07Page"},
		spec{impl: "PDFt.pageHeight", ref: "zzC07Height"},
	)
	imgOpq := []string{"minigopdf:parseImg", "minigopdf:buildImgProp", "PDFData.putNewObject"}
	addSpecs("C08",
		spec{impl: "PDFt.InsertImg", ref: "zzC08Bytes", opaque: imgOpq},
		spec{impl: "PDFt.InsertImgBase64", ref: "zzC08Base64", opaque: imgOpq},
		spec{impl: "PDFt.InsertImgWithCache", ref: "zzC08Cached", opaque: imgOpq},
	)
}

func init() {
	addSpecs("C27", spec{impl: "PDFt.InsertWrapText", ref: "zzC27", when: true, opaque: []string{"PDFt.Insert", "PDFt.MeasureTextWidth"}})
	ro := []string{":PDFt.Insert", ":PDFt.InsertWrapText", ":PDFt.SetFont", ":PDFt.InsertImgBase64", ":PDFt.Open", ":PDFt.ShowCellBorder"}
	addSpecs("C28",
		spec{rel: "render", impl: "FieldInfos.toMap", ref: "zzC28Map"},
		spec{rel: "render", impl: "NewRender", ref: "zzC28New", opaque: ro},
		spec{rel: "render", impl: "Render.Text", ref: "zzC28Text", opaque: ro, when: true},
		spec{rel: "render", impl: "Render.ImgBase64", ref: "zzC28Img", opaque: ro, when: true},
		spec{rel: "render", impl: "Render.ShowDesignView", ref: "zzC28Design", opaque: ro},
	)
	fo := []string{"PDFParseFont", "PDFParseFontReader", "PDFFontData.addChars", "PDFParse", "ContentText.measureTextWidth"}
	addSpecs("C30",
		spec{impl: "PDFt.AddFont", ref: "zzC30Add", when: true, opaque: fo},
		spec{impl: "PDFt.AddFontFrom", ref: "zzC30AddFrom", when: true, opaque: fo},
		spec{impl: "PDFt.TextriseOverride", ref: "zzC30Rise", when: true, opaque: fo},
		spec{impl: "PDFt.KernOverride", ref: "zzC30Kern", when: true, opaque: fo},
		spec{impl: "PDFt.SetFont", ref: "zzC30Set", when: true, opaque: fo},
		spec{impl: "PDFt.Insert", ref: "zzC30Insert", when: true, opaque: fo, only: []string{"success"}},
		spec{impl: "PDFt.MeasureTextWidth", ref: "zzC30Measure", when: true, opaque: fo[:4], only: []string{"success", "result"}},
		spec{impl: "PDFt.OpenFrom", ref: "zzC30Open", when: true, opaque: fo},
	)
	addSpecs("C34", spec{rel: "textbreak", impl: "BasicTextbreak.BreakTextToToken", ref: "zzC34", when: true})
}

func init() {
	addSpecs("C01",
		spec{impl: "PDFt.toStream", ref: "zzC01Stream", opaque: []string{"PDFt.xref"}},
		spec{impl: "PDFt.xref", ref: "zzC01Xref", opaque: []string{"PDFt.formatXrefline"}},
		spec{impl: "PDFt.formatXrefline", ref: "zzC01Line"},
		spec{impl: "PDFt.SaveTo", ref: "zzC01SaveTo", when: true, opaque: []string{"PDFt.build", "PDFt.toStream"}},
		spec{impl: "PDFt.Save", ref: "zzC01SaveFile", when: true, opaque: []string{"PDFt.build", "PDFt.toStream"}},
	)
	bo := []string{"PDFFontData.build", "PDFData.injectFontsToPDF", "PDFData.injectImgsToPDF", "PDFData.injectContentToPDF", "PDFObjData.encrypt"}
	addSpecs("C02",
		spec{impl: "PDFData.maxID", ref: "zzC02Max"},
		spec{impl: "PDFData.put", ref: "zzC02Put"},
		spec{impl: "PDFData.putNewObject", ref: "zzC02New"},
		spec{impl: "PDFFontData.build", ref: "zzC02Font", only: []string{"result", "*p0.fontID", "*p0.cidID", "*p0.unicodeMapID", "*p0.fontDescID", "*p0.dictionaryID"}},
		spec{impl: "PDFt.build", ref: "zzC02Build", opaque: bo},
	)
}

func init() {
	m := "minigopdf"
	addSpecs("C33",
		spec{rel: m, impl: "SubsetFontObj.GlyphIndexToPdfWidth", ref: "zzC33Glyph"},
		spec{rel: m, impl: "convertTTFUnit2PDFUnit", ref: "zzC33Unit"},
		spec{rel: m, impl: "kern", ref: "zzC33Kern"},
		spec{rel: m, impl: "SubsetFontObj.SetFuncKernOverride", ref: "zzC33Override"},
		spec{rel: m, impl: "createContent", ref: "zzC33Width", only: []string{"result", "success"}, opaque: []string{"kern", "convertTTFUnit2PDFUnit", "SubsetFontObj.GlyphIndexToPdfWidth"}},
		spec{rel: m, impl: "CacheContent.MeasureTextWidth", ref: "zzC33Measure", only: []string{"result"}, opaque: []string{"createContent"}},
		spec{impl: "ContentText.measureTextWidth", ref: "zzC33Text", opaque: []string{"minigopdf:createContent"}},
		spec{impl: "PDFt.MeasureTextWidth", ref: "zzC33API", opaque: []string{"minigopdf:createContent"}},
	)
}

func init() {
	m := "minigopdf"
	addSpecs("C33",
		spec{rel: m, impl: "cacheContentText.createContent", ref: "zzC33Cell", opaque: []string{"createContent"}},
		spec{rel: m, impl: "cacheContentText.calX", ref: "zzC33X", when: true},
	)
	addSpecs("C24",
		spec{rel: m, impl: "createContent", ref: "zzC24Content", under: nonNil(4), skip: []string{"result"}, ws: true, opaque: []string{"kern", "convertTTFUnit2PDFUnit", "SubsetFontObj.GlyphIndexToPdfWidth"}},
		spec{rel: m, impl: "SubsetFontObj.AddChars", ref: "zzC24Add", opaque: []string{"SubsetFontObj.CharCodeToGlyphIndex"}},
		spec{rel: m, impl: "MapOfCharacterToGlyphIndex.Set", ref: "zzC24Set"},
		spec{rel: m, impl: "MapOfCharacterToGlyphIndex.Val", ref: "zzC24Val"},
		spec{rel: m, impl: "MapOfCharacterToGlyphIndex.KeyExists", ref: "zzC24Has"},
		spec{rel: m, impl: "SubsetFontObj.CharIndex", ref: "zzC24Index", when: true},
		spec{rel: m, impl: "SubsetFontObj.CharWidth", ref: "zzC24Width", when: true},
		spec{rel: m, impl: "SubsetFontObj.charCodeToGlyphIndexFormat4", ref: "zzC24Fmt4", when: true},
		spec{rel: m, impl: "SubsetFontObj.charCodeToGlyphIndexFormat12", ref: "zzC24Fmt12", when: true},
		spec{rel: m, impl: "SubsetFontObj.CharCodeToGlyphIndex", ref: "zzC24Code", when: true, opaque: []string{"SubsetFontObj.charCodeToGlyphIndexFormat4", "SubsetFontObj.charCodeToGlyphIndexFormat12"}},
		spec{rel: m, impl: "SubsetFontObj.GlyphIndexToPdfWidth", ref: "zzC24Glyph"},
		spec{rel: m, impl: "CIDFontObj.build", ref: "zzC24CID", ws: true},
		spec{rel: m, impl: "UnicodeMap.pdfToUnicodeMap", ref: "zzC24Map", ws: true, opaque: []string{"rc4Cip", "PDFProtection.objectkey"}},
	)
}

func nonNil(is ...int) func(e *Eng, args []*Term) *Term {
	return func(e *Eng, args []*Term) *Term {
		c := e.b.T()
		for _, i := range is {
			c = e.b.and(c, e.b.not(e.b.eq(args[i], e.b.nil_())))
		}
		return c
	}
}

func init() {
	m := "minigopdf"
	po := []string{"minigopdf/fontmaker/core:TTFParser.Parse", "minigopdf/fontmaker/core:TTFParser.ParseByReader"}
	addSpecs("C03",
		spec{rel: m, impl: "CreateEmbeddedFontSubsetName", ref: "zzC03Name"},
		spec{rel: m, impl: "SubsetFontObj.build", ref: "zzC03Font", ws: true},
		spec{rel: m, impl: "CIDFontObj.build", ref: "zzC03CID", ws: true},
		spec{rel: m, impl: "SubfontDescriptorObj.build", ref: "zzC03Desc", ws: true, opaque: []string{"DesignUnitsToPdf"}},
		spec{rel: m, impl: "PdfDictionaryObj.build", ref: "zzC03File", ws: true, opaque: []string{"PdfDictionaryObj.makeFont", "rc4Cip", "PDFProtection.objectkey"}},
		spec{rel: m, impl: "UnicodeMap.build", ref: "zzC03Map", ws: true, opaque: []string{"UnicodeMap.pdfToUnicodeMap"}},
		spec{impl: "PDFFontData.build", ref: "zzC03Build", ws: true, opaque: []string{"minigopdf:PdfDictionaryObj.makeFont", "minigopdf:UnicodeMap.pdfToUnicodeMap"}},
		spec{impl: "PDFFontData.setFontName", ref: "zzC03SetName"},
		spec{impl: "PDFParseFont", ref: "zzC03Parse", opaque: po},
		spec{impl: "PDFParseFontReader", ref: "zzC03ParseReader", opaque: po},
	)
}

func init() {
	m := "minigopdf"
	so := []string{"buildImgProp", "rc4Cip", "PDFProtection.objectkey"}
	addSpecs("C04",
		spec{rel: m, impl: "ImageObj.build", ref: "zzC04Image", opaque: so},
		spec{rel: m, impl: "SMask.build", ref: "zzC04Mask", opaque: so},
		spec{rel: m, impl: "ImageObj.CreatePalette", ref: "zzC04Palette"},
		spec{rel: m, impl: "DeviceRGBObj.build", ref: "zzC04RGB", opaque: so},
		spec{rel: m, impl: "PdfDictionaryObj.build", ref: "zzC04File", opaque: append(so, "PdfDictionaryObj.makeFont")},
		spec{rel: m, impl: "EmbedFontObj.build", ref: "zzC04Embed", opaque: so},
		spec{rel: m, impl: "ContentObj.build", ref: "zzC04Content", opaque: append(so, "listCacheContent.toStream"), skip: []string{"*p0.stream"}},
		spec{rel: m, impl: "ImageObj.createSMask", ref: "zzC04SMask"},
		spec{rel: m, impl: "ImageObj.createDeviceRGB", ref: "zzC04DevRGB"},
		spec{rel: m, impl: "compress", ref: "zzC04Compress"},
		spec{rel: m, impl: "UnicodeMap.pdfToUnicodeMap", ref: "zzC24Map", opaque: []string{"rc4Cip", "PDFProtection.objectkey"}},
		spec{rel: m, impl: "UnicodeMap.build", ref: "zzC03Map", opaque: []string{"UnicodeMap.pdfToUnicodeMap"}},
	)
}

func init() {
	m := "minigopdf"
	so := []string{"buildImgProp", "rc4Cip", "PDFProtection.objectkey"}
	addSpecs("C26",
		spec{rel: m, impl: "buildImgProp", ref: "zzC26Props", ws: true},
		spec{rel: m, impl: "parseImgJpg", ref: "zzC26Jpg", when: true},
		spec{rel: m, impl: "parseImg", ref: "zzC26Parse", opaque: []string{"parseImgJpg", "paesePng"}},
		spec{rel: m, impl: "paesePng", ref: "zzC26Png", ws: true, only: []string{"*p1"}},
		spec{rel: m, impl: "ImageObj.parse", ref: "zzC26Obj", opaque: []string{"parseImg"}},
		spec{rel: m, impl: "ImageObj.SetSMaskObjID", ref: "zzC26SetMask"},
		spec{rel: m, impl: "ImageObj.SetPaletteObjID", ref: "zzC26SetPal"},
		spec{rel: m, impl: "ImageObj.haveSMask", ref: "zzC26HasMask"},
		spec{rel: m, impl: "ImageObj.isColspaceIndexed", ref: "zzC26Indexed"},
		spec{rel: m, impl: "ImageObj.CreateSMask", ref: "zzC26Create", ws: true},
		spec{rel: m, impl: "ImageObj.build", ref: "zzC04Image", opaque: so},
		spec{rel: m, impl: "SMask.build", ref: "zzC04Mask", opaque: so},
		spec{rel: m, impl: "ImageObj.CreatePalette", ref: "zzC04Palette"},
	)
}

func init() {
	m := "minigopdf"
	addSpecs("C19",
		spec{rel: m, impl: "padPassword", ref: "zzC19Pass"},
		spec{rel: m, impl: "PDFProtection.createOValue", ref: "zzC19O"},
		spec{rel: m, impl: "PDFProtection.createUValue", ref: "zzC19U"},
		spec{rel: m, impl: "PDFProtection.generateEncryptionKey", ref: "zzC19Gen"},
		spec{rel: m, impl: "PDFProtection.setProtection", ref: "zzC19Set", opaque: []string{"PDFProtection.generateEncryptionKey", "PDFProtection.randomPass"}},
		spec{rel: m, impl: "PDFProtection.SetProtection", ref: "zzC19Set", opaque: []string{"PDFProtection.generateEncryptionKey", "PDFProtection.randomPass"}},
		spec{rel: m, impl: "PDFProtection.encryptionObj", ref: "zzC19Obj"},
		spec{rel: m, impl: "PDFProtection.EncryptionObj", ref: "zzC19Obj"},
		spec{rel: m, impl: "PDFProtection.objectkey", ref: "zzC19Key"},
		spec{rel: m, impl: "PDFProtection.Objectkey", ref: "zzC19Key"},
		spec{rel: m, impl: "rc4Cip", ref: "zzC19Cip"},
		spec{rel: m, impl: "EncryptionObj.build", ref: "zzC19Build"},
		spec{rel: m, impl: "EncryptionObj.Build", ref: "zzC19Build"},
	)
}

func init() {
	m := "minigopdf"
	ko := []string{"minigopdf:PDFProtection.objectkey", "rc4Cip"}
	so := []string{"buildImgProp", "rc4Cip", "PDFProtection.objectkey"}
	bo := []string{"PDFFontData.build", "PDFData.injectFontsToPDF", "PDFData.injectImgsToPDF", "PDFData.injectContentToPDF", "PDFObjData.encrypt"}
	addSpecs("C18",
		spec{impl: "trimStreamEOL", ref: "zzC18Trim"},
		spec{impl: "PDFObjData.encrypt", ref: "zzC18Encrypt", opaque: ko},
		spec{impl: "PDFt.SetProtection", ref: "zzC18Protect", opaque: []string{"minigopdf:PDFProtection.setProtection"}},
		spec{impl: "PDFt.protection", ref: "zzC18Get"},
		spec{impl: "rc4Cip", ref: "zzC18Cip"},
		spec{impl: "PDFt.build", ref: "zzC02Build", opaque: bo},
		spec{impl: "PDFt.toStream", ref: "zzC01Stream", opaque: []string{"PDFt.xref"}},
		spec{impl: "PDFt.xref", ref: "zzC01Xref", opaque: []string{"PDFt.formatXrefline"}},
		spec{impl: "PDFFontData.build", ref: "zzC03Build", ws: true, opaque: []string{"minigopdf:PdfDictionaryObj.makeFont", "minigopdf:UnicodeMap.pdfToUnicodeMap"}},
		spec{rel: m, impl: "PDFProtection.objectkey", ref: "zzC19Key"},
		spec{rel: m, impl: "PDFProtection.Objectkey", ref: "zzC19Key"},
		spec{rel: m, impl: "rc4Cip", ref: "zzC19Cip"},
		spec{rel: m, impl: "ImageObj.build", ref: "zzC04Image", opaque: so},
		spec{rel: m, impl: "SMask.build", ref: "zzC04Mask", opaque: so},
		spec{rel: m, impl: "ImageObj.CreatePalette", ref: "zzC04Palette"},
		spec{rel: m, impl: "ImageObj.createSMask", ref: "zzC04SMask"},
		spec{rel: m, impl: "ImageObj.createDeviceRGB", ref: "zzC04DevRGB"},
		spec{rel: m, impl: "DeviceRGBObj.build", ref: "zzC04RGB", opaque: so},
		spec{rel: m, impl: "PdfDictionaryObj.build", ref: "zzC04File", opaque: append(so, "PdfDictionaryObj.makeFont")},
		spec{rel: m, impl: "EmbedFontObj.build", ref: "zzC04Embed", opaque: so},
		spec{rel: m, impl: "ContentObj.build", ref: "zzC04Content", opaque: append(so, "listCacheContent.toStream"), skip: []string{"*p0.stream"}},
		spec{rel: m, impl: "UnicodeMap.pdfToUnicodeMap", ref: "zzC24Map", opaque: []string{"rc4Cip", "PDFProtection.objectkey"}},
		spec{rel: m, impl: "UnicodeMap.build", ref: "zzC03Map", opaque: []string{"UnicodeMap.pdfToUnicodeMap"}},
	)
}

func init() {
	ro := []string{"readProperties", "readObjIDFromDictionary", "propertyType", "PDFData.findObjByID", "crawlResultFonts.parse", "crawlResultXObjects.parse", "loopValOf", "loopSetValOf", "loopCrawlResultString", "PDFData.getPageCrawl", "findMaxFontIndex", "crawl.next"}
	addSpecs("C09",
		spec{impl: "crawlResultFont.name", ref: "zzC09FontName"},
		spec{impl: "crawlResultXObject.name", ref: "zzC09ImgName"},
		spec{impl: "crawlResultFonts.String", ref: "zzC09FontStr", ws: true},
		spec{impl: "crawlResultXObjects.String", ref: "zzC09ImgStr", ws: true},
		spec{impl: "crawlResultFonts.append", ref: "zzC09Append"},
		spec{impl: "crawlResultFonts.maxFontIndex", ref: "zzC09MaxIn"},
		spec{impl: "splitFont", ref: "zzC09Split", when: true},
		spec{impl: "crawlResultFonts.parse", ref: "zzC09ParseFonts", opaque: []string{"readProperties", "splitFont", "readObjIDFromDictionary"}},
		spec{impl: "crawlResultXObjects.parse", ref: "zzC09ParseImgs", opaque: []string{"readProperties", "readObjIDFromDictionary"}},
		spec{impl: "loopValOf", ref: "zzC09ValOf", opaque: []string{"loopValOf"}},
		spec{impl: "loopSetValOf", ref: "zzC09SetValOf", opaque: []string{"loopSetValOf"}},
		spec{impl: "loopCrawlResultString", ref: "zzC09Str", ws: true, opaque: []string{"loopCrawlResultString"}},
		spec{impl: "crawlResult.add", ref: "zzC09Add"},
		spec{impl: "crawl.objIDs", ref: "zzC09IDs"},
		spec{impl: "crawl.set", ref: "zzC09Set"},
		spec{impl: "findMaxFontIndex", ref: "zzC09Max", opaque: ro[:9]},
		spec{impl: "PDFData.injectFontsToPDF", ref: "zzC09Fonts", opaque: ro[:11]},
		spec{impl: "PDFData.injectImgsToPDF", ref: "zzC09Imgs", opaque: append(append([]string{}, ro[:10]...), "crawl.run")},
		spec{impl: "crawl.resultByObjID", ref: "zzC09Result"},
		spec{impl: "crawl.run", ref: "zzC09Run", opaque: []string{"PDFData.findObjByID", "crawl.resultByObjID"}},
		spec{impl: "crawl.next", ref: "zzC09Next", opaque: []string{"crawl.next", "readProperties", "PDFData.findObjByID", "crawl.resultByObjID", "readObjIDFromDictionary", "readObjIDFromDictionaryArr", "propertyType"}},
		spec{impl: "PDFData.getObjByID", ref: "zzC09Get", opaque: []string{"PDFObjData.readProperties"}},
		spec{impl: "PDFFontData.setFontIndex", ref: "zzC09SetIndex"},
		spec{impl: "PDFFontData.fontIndex", ref: "zzC09Index"},
		spec{impl: "PDFData.findObjByID", ref: "zzC09Find", when: true, opaque: []string{"PDFData.getObjByID"}},
		spec{impl: "sortedFontNames", ref: "zzC09Names"},
		spec{impl: "readObjIDFromDictionary", ref: "zzC09Dict", when: true},
		spec{impl: "readObjIDFromDictionaryArr", ref: "zzC09DictArr", when: true},
		spec{impl: "propertyType", ref: "zzC09Type"},
		spec{impl: "ContentText.toSteram", ref: "zzC06Text", ws: true},
		spec{impl: "contentImgBase64.toSteram", ref: "zzC07Draw", ws: true},
		spec{impl: "PDFt.build", ref: "zzC02Build", opaque: []string{"PDFFontData.build", "PDFData.injectFontsToPDF", "PDFData.injectImgsToPDF", "PDFData.injectContentToPDF", "PDFObjData.encrypt"}},
	)
}

func init() {
	co := []string{"crawl.run", "readProperty", "readObjIDFromDictionary", "readObjIDFromDictionaryArr", "propertyType", "PDFData.findObjByID", "PDFData.getPageObjIDs", "crawlResult.valOf", "isFlateStream", "streamLength", "extractStream"}
	addSpecs("C12",
		spec{impl: "PDFData.injectContentToPDF", ref: "zzC12Inject", opaque: co, skip: []string{"*mem bytes.Buffer"}},
		spec{impl: "isFlateStream", ref: "zzC12Flate", when: true, opaque: []string{"readProperties", "propertyType"}},
		spec{impl: "streamLength", ref: "zzC12Length", when: true, opaque: []string{"readProperties", "propertyType", "readObjIDFromDictionary", "PDFData.findObjByID"}},
		spec{impl: "extractStream", ref: "zzC12Extract", when: true},
		spec{impl: "trimStreamEOL", ref: "zzC18Trim"},
		spec{impl: "readProperty", ref: "zzC12Prop", when: true, opaque: []string{"readProperties"}},
		spec{impl: "ContentText.page", ref: "zzC12TextPage"},
		spec{impl: "contentImgBase64.page", ref: "zzC12ImgPage"},
		spec{impl: "PDFObjPropertiesData.getPropByKey", ref: "zzC10Prop"},
		spec{impl: "loopValOf", ref: "zzC09ValOf", opaque: []string{"loopValOf"}},
		spec{impl: "crawl.set", ref: "zzC09Set"},
		spec{impl: "crawl.run", ref: "zzC09Run", opaque: []string{"PDFData.findObjByID", "crawl.resultByObjID"}},
		spec{impl: "crawl.next", ref: "zzC09Next", opaque: []string{"crawl.next", "readProperties", "PDFData.findObjByID", "crawl.resultByObjID", "readObjIDFromDictionary", "readObjIDFromDictionaryArr", "propertyType"}},
		spec{impl: "crawl.resultByObjID", ref: "zzC09Result"},
		spec{impl: "PDFData.getPageObjIDs", ref: "zzC10Pages", when: true, closures: true, skip: []string{"**(v"}, opaque: []string{"PDFData.rootPagesID", "PDFData.getObjByID", "PDFObjData.readProperties", "readObjIDFromDictionaryArr"}},
		spec{impl: "PDFData.rootPagesID", ref: "zzC10Root", when: true, opaque: []string{"PDFData.findObjByID", "PDFObjData.readProperties", "readObjIDFromDictionary"}},
		spec{impl: "PDFObjData.readProperties", ref: "zzC10Props", when: true, opaque: []string{"readProperties"}},
		spec{impl: "PDFData.findObjByID", ref: "zzC09Find", when: true, opaque: []string{"PDFData.getObjByID"}},
		spec{impl: "PDFData.getObjByID", ref: "zzC09Get", opaque: []string{"PDFObjData.readProperties"}},
		spec{impl: "readObjIDFromDictionary", ref: "zzC09Dict", when: true},
		spec{impl: "readObjIDFromDictionaryArr", ref: "zzC09DictArr", when: true},
		spec{impl: "propertyType", ref: "zzC09Type"},
		spec{impl: "PDFt.Insert", ref: "zzC06Insert", when: true, opaque: []string{"PDFFontData.addChars"}},
		spec{impl: "PDFt.InsertImg", ref: "zzC08Bytes", opaque: []string{"minigopdf:parseImg", "minigopdf:buildImgProp", "PDFData.putNewObject"}},
		spec{impl: "PDFt.InsertImgBase64", ref: "zzC08Base64", opaque: []string{"minigopdf:parseImg", "minigopdf:buildImgProp", "PDFData.putNewObject"}},
		spec{impl: "PDFt.InsertImgWithCache", ref: "zzC08Cached", opaque: []string{"minigopdf:parseImg", "minigopdf:buildImgProp", "PDFData.putNewObject"}},
		spec{impl: "PDFt.build", ref: "zzC02Build", opaque: []string{"PDFFontData.build", "PDFData.injectFontsToPDF", "PDFData.injectImgsToPDF", "PDFData.injectContentToPDF", "PDFObjData.encrypt"}},
	)
}

func init() {
	po := []string{"PDFData.getPageObjIDs", "PDFData.rootPagesID", "PDFData.findObjByID", "PDFObjData.readProperties", "readObjIDFromDictionary", "PDFt.setPages", "PDFData.putNewObject", "PDFObjData.setProperties"}
	addSpecs("C10",
		spec{impl: "PDFData.getPageObjIDs", ref: "zzC10Pages", when: true, closures: true, skip: []string{"**(v"}, opaque: []string{"PDFData.rootPagesID", "PDFData.getObjByID", "PDFObjData.readProperties", "readObjIDFromDictionaryArr"}},
		spec{impl: "PDFt.RemovePage", ref: "zzC10Remove", when: true, opaque: po},
		spec{impl: "PDFt.RemoveOtherPages", ref: "zzC10Keep", when: true, opaque: po},
		spec{impl: "PDFt.GetNumberOfPage", ref: "zzC10Count", when: true, opaque: po},
		spec{impl: "PDFt.DuplicatePageAfter", ref: "zzC10Dup", when: true, opaque: po},
		spec{impl: "PDFt.setPages", ref: "zzC10Set", when: true, opaque: po[1:5]},
		spec{impl: "PDFObjData.setProperties", ref: "zzC10SetProps", ws: true},
		spec{impl: "PDFObjData.readProperties", ref: "zzC10Props", when: true, opaque: []string{"readProperties"}},
		spec{impl: "PDFObjPropertyData.setAsDictionary", ref: "zzC10SetRef"},
		spec{impl: "PDFObjPropertyData.setAsDictionaryArr", ref: "zzC10SetRefs", ws: true},
		spec{impl: "PDFObjPropertiesData.getPropByKey", ref: "zzC10Prop"},
		spec{impl: "PDFData.rootPagesID", ref: "zzC10Root", when: true, opaque: []string{"PDFData.findObjByID", "PDFObjData.readProperties", "readObjIDFromDictionary"}},
		spec{impl: "readObjIDFromDictionary", ref: "zzC09Dict", when: true},
		spec{impl: "readObjIDFromDictionaryArr", ref: "zzC09DictArr", when: true},
		spec{impl: "PDFData.findObjByID", ref: "zzC09Find", when: true, opaque: []string{"PDFData.getObjByID"}},
		spec{impl: "PDFData.getObjByID", ref: "zzC09Get", opaque: []string{"PDFObjData.readProperties"}},
		spec{impl: "PDFData.maxID", ref: "zzC02Max"},
		spec{impl: "PDFData.put", ref: "zzC02Put"},
		spec{impl: "PDFData.putNewObject", ref: "zzC02New"},
	)
}

func init() {
	ops := []string{"PDFData.rootPagesID", "PDFData.findObjByID", "PDFObjData.readProperties", "readObjIDFromDictionary", "PDFData.getPageObjIDs", "propertyType"}
	addSpecs("C35",
		spec{impl: "PDFParse", ref: "zzC35Parse", opaque: []string{"parseXref", "parseTrailer", "parseObjOnlyKeywordN", "setPagesObj", "parsePageSize"}},
		spec{impl: "PDFObjData.parse", ref: "zzC35Obj", when: true, opaque: []string{"objIDFromStartObjLine"}},
		spec{impl: "objIDFromStartObjLine", ref: "zzC35Head", when: true},
		spec{impl: "XrefData.parse", ref: "zzC35Entry", when: true},
		spec{impl: "parseXref", ref: "zzC35Xref", when: true, opaque: []string{"XrefData.parse"}},
		spec{impl: "parseTrailer", ref: "zzC35Trailer", when: true, opaque: []string{"readProperties", "readObjIDFromDictionary"}},
		spec{impl: "parseObjOnlyKeywordN", ref: "zzC35Objs", opaque: []string{"PDFObjData.parse"}},
		spec{impl: "setPagesObj", ref: "zzC35Pages", when: true, opaque: ops},
		spec{impl: "parseFloatSlice", ref: "zzC35Floats", when: true},
		spec{impl: "parsePageSize", ref: "zzC35Sizes", opaque: append([]string{"parseFloatSlice", "PDFData.inheritedProperty"}, ops...)},
		spec{impl: "PDFData.inheritedProperty", ref: "zzC35Inherited", opaque: ops},
		spec{impl: "readProperties", ref: "zzC35Props", when: true, opaque: []string{"parseProps.set"}},
		spec{impl: "parseProps.set", ref: "zzC35SetPP", opaque: []string{"parseProps.loop"}},
		spec{impl: "parseProps.loop", ref: "zzC35Loop", opaque: []string{"parseProps.loop"}},
		spec{impl: "PDFObjData.readProperties", ref: "zzC10Props", when: true, opaque: []string{"readProperties"}},
		spec{impl: "PDFObjPropertiesData.getPropByKey", ref: "zzC10Prop"},
		spec{impl: "PDFData.rootPagesID", ref: "zzC10Root", when: true, opaque: ops[1:4]},
		spec{impl: "PDFData.getPageObjIDs", ref: "zzC10Pages", when: true, closures: true, skip: []string{"**(v"}, opaque: []string{"PDFData.rootPagesID", "PDFData.getObjByID", "PDFObjData.readProperties", "readObjIDFromDictionaryArr"}},
		spec{impl: "PDFData.findObjByID", ref: "zzC09Find", when: true, opaque: []string{"PDFData.getObjByID"}},
		spec{impl: "PDFData.getObjByID", ref: "zzC09Get", opaque: []string{"PDFObjData.readProperties"}},
		spec{impl: "PDFData.put", ref: "zzC02Put"},
		spec{impl: "readObjIDFromDictionary", ref: "zzC09Dict", when: true},
		spec{impl: "readObjIDFromDictionaryArr", ref: "zzC09DictArr", when: true},
		spec{impl: "propertyType", ref: "zzC09Type"},
		spec{impl: "PDFt.pageHeight", ref: "zzC06Height"},
		spec{impl: "PDFt.OpenFrom", ref: "zzC30Open", when: true, opaque: []string{"PDFParse"}},
	)
}

func init() {
	m := "minigopdf"
	so := []string{"buildImgProp", "rc4Cip", "PDFProtection.objectkey"}
	addSpecs("C05",
		spec{rel: m, impl: "compress", ref: "zzC04Compress"},
		spec{rel: m, impl: "PdfDictionaryObj.build", ref: "zzC04File", opaque: append(so, "PdfDictionaryObj.makeFont")},
		spec{rel: m, impl: "ContentObj.build", ref: "zzC04Content", opaque: append(so, "listCacheContent.toStream"), skip: []string{"*p0.stream"}},
		spec{rel: m, impl: "EmbedFontObj.build", ref: "zzC04Embed", opaque: so},
		spec{rel: m, impl: "GoPdf.SetCompressLevel", ref: "zzC05Level", only: []string{"*p0"}},
		spec{rel: m, impl: "GoPdf.SetNoCompression", ref: "zzC05None"},
		spec{rel: m, impl: "buildImgProp", ref: "zzC26Props", ws: true},
		spec{rel: m, impl: "parseImgJpg", ref: "zzC26Jpg", when: true},
		spec{rel: m, impl: "paesePng", ref: "zzC26Png", ws: true, only: []string{"*p1"}},
		spec{rel: m, impl: "ImageObj.build", ref: "zzC04Image", opaque: so},
		spec{rel: m, impl: "SMask.build", ref: "zzC04Mask", opaque: so},
		spec{rel: m, impl: "ImageObj.createSMask", ref: "zzC04SMask"},
		spec{rel: m, impl: "ImageObj.CreateSMask", ref: "zzC26Create", ws: true},
		spec{rel: m, impl: "ImageObj.CreatePalette", ref: "zzC04Palette"},
		spec{rel: m, impl: "ImageObj.createDeviceRGB", ref: "zzC04DevRGB"},
		spec{rel: m, impl: "DeviceRGBObj.build", ref: "zzC04RGB", opaque: so},
		spec{rel: m, impl: "UnicodeMap.pdfToUnicodeMap", ref: "zzC24Map", opaque: []string{"rc4Cip", "PDFProtection.objectkey"}},
		spec{rel: m, impl: "UnicodeMap.build", ref: "zzC03Map", opaque: []string{"UnicodeMap.pdfToUnicodeMap"}},
		spec{impl: "PDFData.injectContentToPDF", ref: "zzC12Inject", skip: []string{"*mem bytes.Buffer"}, opaque: []string{"crawl.run", "readProperty", "readObjIDFromDictionary", "readObjIDFromDictionaryArr", "propertyType", "PDFData.findObjByID", "PDFData.getPageObjIDs", "crawlResult.valOf", "isFlateStream", "streamLength", "extractStream"}},
		spec{impl: "isFlateStream", ref: "zzC12Flate", when: true, opaque: []string{"readProperties", "propertyType"}},
		spec{impl: "extractStream", ref: "zzC12Extract", when: true},
	)
}

func init() {
	c := "minigopdf/fontmaker/core"
	sk := []string{"*p1"}
	all := []string{"Head", "Hhea", "Maxp", "Hmtx", "Cmap", "Name", "OS2", "Post", "Loca"}
	var ps []string
	for _, n := range all {
		ps = append(ps, "TTFParser.Parse"+n)
	}
	ps = append(ps, "TTFParser.Parsekern")
	addSpecs("C23",
		spec{rel: c, impl: "TTFParser.ReadUShort", ref: "zzC23ReadUShort"},
		spec{rel: c, impl: "TTFParser.ReadShort", ref: "zzC23ReadShort"},
		spec{rel: c, impl: "TTFParser.ReadShortInt16", ref: "zzC23ReadShortInt16"},
		spec{rel: c, impl: "TTFParser.ReadULong", ref: "zzC23ReadULong"},
		spec{rel: c, impl: "TTFParser.Skip", ref: "zzC23Skip"},
		spec{rel: c, impl: "TTFParser.Seek", ref: "zzC23Seek", when: true},
		spec{rel: c, impl: "TTFParser.parse", ref: "zzC23Parse", only: []string{"*p0.tables", "*p0.cahceFontData"}, opaque: ps},
		spec{rel: c, impl: "TTFParser.ParseCmapFormat12", ref: "zzC23Cmap12", skip: sk, when: true},
		spec{rel: c, impl: "TTFParser.Parsekern", ref: "zzC23Kern", opaque: []string{"TTFParser.parsekernSubTable"}},
		spec{rel: c, impl: "TTFParser.parsekernSubTable", ref: "zzC23KernSub", opaque: []string{"TTFParser.parsekernSubTableFormat0"}, when: true},
		spec{rel: c, impl: "KernValue.ValueByRight", ref: "zzC23KernVal"},
	)
	for _, n := range all {
		s := spec{rel: c, impl: "TTFParser.Parse" + n, ref: "zzC23" + n, skip: sk, when: true}
		if n == "Cmap" {
			s.opaque = []string{"TTFParser.ParseCmapFormat12"}
		}
		addSpecs("C23", s)
	}
	for i, r := range map[string]string{"XHeight": "XHeight", "Ascender": "Ascender", "Descender": "Descender", "Flag": "Flag", "XMin": "XMin", "YMin": "YMin", "XMax": "XMax", "YMax": "YMax",
		"ItalicAngle": "Italic", "UnderlinePosition": "ULPos", "UnderlineThickness": "ULThick", "TypoAscender": "TypoAsc", "TypoDescender": "TypoDesc", "CapHeight": "Cap", "NumGlyphs": "Num",
		"UnitsPerEm": "Upm", "NumberOfHMetrics": "NumHM", "Widths": "Widths", "Chars": "Chars", "Kern": "KernTab", "GroupingTables": "Groups", "GetTables": "Tables", "FontData": "Data"} {
		addSpecs("C23", spec{rel: c, impl: "TTFParser." + i, ref: "zzC23" + r})
	}
}

func init() {
	moreRules["C23"] = append(moreRules["C23"], func(p *Prog, r *Report) {
		ruleAssigned(p, r, "minigopdf/fontmaker/core", "TTFParser", "parse", "tables", "unitsPerEm", "xMin", "yMin", "xMax", "yMax", "indexToLocFormat", "ascender", "descender", "numberOfHMetrics",
			"numGlyphs", "chars", "postScriptName", "os2Version", "typoAscender", "typoDescender", "capHeight", "usWinAscent", "usWinDescent", "italicAngle", "underlinePosition", "underlineThickness",
			"LocaTable", "IsShortIndex", "cahceFontData")
	})
}

func init() {
	m := "minigopdf"
	d := "PdfDictionaryObj."
	addSpecs("C25",
		spec{rel: m, impl: d + "getGlyphSize", ref: "zzC25Size"},
		spec{rel: m, impl: d + "getGlyphData", ref: "zzC25Data"},
		spec{rel: m, impl: d + "GetOffset", ref: "zzC25Offset"},
		spec{rel: m, impl: "CheckSum", ref: "zzC25Sum"},
		spec{rel: m, impl: "Buff.Write", ref: "zzC25Write"},
		spec{rel: m, impl: "Buff.Len", ref: "zzC25Len"},
		spec{rel: m, impl: "Buff.Bytes", ref: "zzC25Bytes"},
		spec{rel: m, impl: "Buff.Position", ref: "zzC25Pos"},
		spec{rel: m, impl: "Buff.SetPosition", ref: "zzC25SetPos"},
		spec{rel: m, impl: "WriteUInt32", ref: "zzC25U32"},
		spec{rel: m, impl: "WriteUInt16", ref: "zzC25U16"},
		spec{rel: m, impl: "WriteTag", ref: "zzC25Tag"},
		spec{rel: m, impl: "WriteBytes", ref: "zzC25Raw"},
		spec{rel: m, impl: "ReadShortFromByte", ref: "zzC25Short"},
		spec{rel: m, impl: "ReadUShortFromByte", ref: "zzC25UShort"},
		spec{rel: m, impl: "MapOfCharacterToGlyphIndex.AllVals", ref: "zzC25All"},
		spec{rel: m + "/fontmaker/core", impl: "TableDirectoryEntry.PaddedLength", ref: "zzC25Padded"},
		spec{rel: m, impl: d + "completeGlyphClosure", ref: "zzC25Closure", opaque: []string{d + "AddCompositeGlyphs"}},
		spec{rel: m, impl: d + "AddCompositeGlyphs", ref: "zzC25Composite"},
		spec{rel: m, impl: d + "makeGlyfAndLocaTable", ref: "zzC25Glyf", opaque: []string{d + "completeGlyphClosure", d + "getGlyphSize", d + "getGlyphData"}},
		spec{rel: m, impl: d + "makeFont", ref: "zzC25Font", opaque: []string{d + "makeGlyfAndLocaTable", "CheckSum"}},
	)
}

func init() {
	m := "minigopdf"
	add := func(impl, ref string, opaque ...string) {
		addSpecs("C31", spec{rel: m, impl: impl, ref: "zzC31" + ref, opaque: opaque})
	}
	add("GoPdf.xref", "Xref")
	add("GoPdf.formatXrefline", "Line")
	add("GoPdf.bindInfo", "Info", "encodeUtf8", "infodate")
	add("encodeUtf8", "Utf")
	add("GoPdf.addObj", "AddObj")
	add("GoPdf.compilePdf", "Compile", "GoPdf.prepare", "GoPdf.xref")
	add("GoPdf.GetBytesPdfReturnErr", "Bytes", "GoPdf.compilePdf")
	addSpecs("C31", spec{rel: m, impl: "GoPdf.prepare", ref: "zzC31Prepare", pre: "zzC31PreObjs"})
	add("GoPdf.getContent", "GetContent")
	add("GoPdf.AddPageWithOption", "AddPage")
	add("GoPdf.AddPage", "AddPage0")
	add("GoPdf.Br", "Br")
	add("GoPdf.SetX", "SetX")
	add("GoPdf.SetY", "SetY")
	add("GoPdf.GetX", "GetX")
	add("GoPdf.GetY", "GetY")
	add("GoPdf.SetLeftMargin", "Left")
	add("GoPdf.SetTopMargin", "Top")
	add("GoPdf.SetTextColor", "Color")
	add("GoPdf.Line", "GpLine")
	add("GoPdf.Oval", "GpOval")
	add("GoPdf.Curve", "GpCurve")
	add("GoPdf.RectFromLowerLeft", "RectLow")
	add("GoPdf.RectFromUpperLeft", "RectUp")
	add("GoPdf.RectFromLowerLeftWithStyle", "RectLowS")
	add("GoPdf.RectFromUpperLeftWithStyle", "RectUpS")
	add("GoPdf.SetLineWidth", "GpLineWidth")
	add("GoPdf.SetGrayFill", "GpGrayFill")
	add("GoPdf.SetGrayStroke", "GpGrayStroke")
	add("GoPdf.SetStrokeColor", "GpStrokeColor")
	add("GoPdf.SetFillColor", "GpFillColor")
	add("fixRange10", "Range")
	add("ContentObj.AppendStreamLine", "AddLine")
	add("ContentObj.AppendStreamOval", "AddOval")
	add("ContentObj.AppendStreamRectangle", "AddRect")
	add("ContentObj.AppendStreamCurve", "AddCurve")
	add("ContentObj.AppendStreamImage", "AddImage")
	add("ContentObj.AppendStreamSetLineWidth", "AddWidth")
	add("ContentObj.AppendStreamSetLineType", "AddType")
	add("ContentObj.AppendStreamSetGrayFill", "AddGrayFill")
	add("ContentObj.AppendStreamSetGrayStroke", "AddGrayStroke")
	add("ContentObj.AppendStreamSetColorStroke", "AddStroke")
	add("ContentObj.AppendStreamSetColorFill", "AddFill")
	add("cacheContentLine.toStream", "Line2")
	add("cacheContentRectangle.toStream", "Rect")
	add("parseStyle", "Style")
	add("cacheContentImage.toStream", "Image")
	add("cacheContentOval.toStream", "Oval")
	add("cacheContentCurve.toStream", "Curve")
	add("cacheContentColor.toStream", "ColorS")
	add("cacheContentGray.toStream", "GrayS")
	add("cacheContentLineType.toStream", "TypeS")
	add("cacheContentLineWidth.toStream", "WidthS")
	add("listCacheContent.toStream", "List")
	add("listCacheContent.last", "Last")
	add("listCacheContent.append", "Append")
	add("listCacheContent.appendContentText", "AppendText", "cacheContentText.createContent", "cacheContentText.isSame")
	add("ContentObj.AppendStreamText", "Text", "listCacheContent.appendContentText")
	add("ContentObj.AppendStreamSubsetFont", "Cell", "listCacheContent.appendContentText")
	add("GoPdf.Text", "GpText", "SubsetFontObj.AddChars", "ContentObj.AppendStreamText", "GoPdf.getContent")
	add("GoPdf.CellWithOption", "GpCellOpt", "SubsetFontObj.AddChars", "ContentObj.AppendStreamSubsetFont", "GoPdf.getContent")
	add("GoPdf.Cell", "GpCell", "SubsetFontObj.AddChars", "ContentObj.AppendStreamSubsetFont", "GoPdf.getContent")
	add("PageObj.build", "Page")
	add("PagesObj.build", "Pages")
	add("CatalogObj.build", "Catalog")
	add("ProcSetObj.build", "ProcSet")
	add("RelateFonts.IsContainsFamily", "HasFamily")
	add("RelateFonts.IsContainsFamilyAndStyle", "HasFont")
	add("GoPdf.Start", "Start", "GoPdf.createProtection")
	add("GoPdf.init", "Init")
	add("GoPdf.SetFontWithStyle", "SetFont")
	addSpecs("C31", spec{rel: m, impl: "GoPdf.ImageByHolder", ref: "zzC31ImageByHolder", pre: "zzC31PreImage",
		opaque: []string{"ImageObj.SetImage", "ImageObj.getRect", "ImageObj.parse", "ImageObj.createSMask", "ImageObj.createDeviceRGB"}})
}

func init() {
	po := []string{"PDFData.getPageObjIDs", "PDFData.rootPagesID", "PDFData.findObjByID", "PDFObjData.readProperties", "readObjIDFromDictionary", "PDFt.setPages", "PDFData.putNewObject", "PDFObjData.setProperties"}
	ro := []string{"PDFData.rootPagesID", "PDFData.findObjByID", "PDFObjData.readProperties", "readObjIDFromDictionary", "PDFData.putNewObject", "PDFObjData.setProperties"}
	addSpecs("C11",
		spec{impl: "PDFt.RemovePage", ref: "zzC10Remove", when: true, opaque: po},
		spec{impl: "PDFt.RemoveOtherPages", ref: "zzC10Keep", when: true, opaque: po},
		spec{impl: "PDFt.DuplicatePageAfter", ref: "zzC10Dup", when: true, opaque: po},
		spec{impl: "PDFt.RemovePage", ref: "zzC10Remove", errs: true, opaque: append(ro, "PDFData.getPageObjIDs")},
		spec{impl: "PDFt.RemoveOtherPages", ref: "zzC10Keep", errs: true, opaque: append(ro, "PDFData.getPageObjIDs")},
		spec{impl: "PDFt.DuplicatePageAfter", ref: "zzC10Dup", errs: true, opaque: po},
		spec{impl: "PDFt.GetNumberOfPage", ref: "zzC10Count", when: true, opaque: po},
		spec{impl: "PDFt.pageHeight", ref: "zzC06Height"},
		spec{impl: "PDFt.Insert", ref: "zzC06Insert", when: true, opaque: []string{"PDFFontData.addChars"}},
		spec{impl: "PDFt.InsertImg", ref: "zzC08Bytes", opaque: []string{"minigopdf:parseImg", "minigopdf:buildImgProp", "PDFData.putNewObject"}},
	)
}

func init() {
	moreRules["C13"] = append(moreRules["C13"], ruleC13)
	reuse("C13", "C02", "PDFt.build")
	reuse("C13", "C18", "PDFt.toStream", "PDFt.xref", "PDFObjData.encrypt", "rc4Cip", "PDFFontData.build")
	reuse("C13", "C03", "SubsetFontObj.build", "CIDFontObj.build", "SubfontDescriptorObj.build", "PdfDictionaryObj.build", "UnicodeMap.build")
	reuse("C13", "C09", "PDFData.injectFontsToPDF", "PDFData.injectImgsToPDF", "PDFFontData.setFontIndex", "ContentText.toSteram", "contentImgBase64.toSteram")
	reuse("C13", "C12", "PDFData.injectContentToPDF")
}

func init() {
	reuse("C29", "C10", "PDFData.findObjByID", "PDFData.getObjByID", "PDFObjPropertiesData.getPropByKey", "PDFData.rootPagesID", "PDFObjData.readProperties", "PDFData.getPageObjIDs", "PDFt.setPages")
	reuse("C29", "C30", "PDFt.TextriseOverride", "PDFt.KernOverride", "PDFt.Insert", "PDFt.MeasureTextWidth")
	reuse("C29", "C24", "SubsetFontObj.CharIndex", "SubsetFontObj.CharWidth", "SubsetFontObj.CharCodeToGlyphIndex")
	reuse("C29", "C12", "isFlateStream", "streamLength", "readProperty")
	reuse("C29", "C35", "parseTrailer", "setPagesObj", "PDFData.inheritedProperty")
	reuse("C29", "C09", "crawl.resultByObjID", "crawl.run", "crawl.next")
	reuse("C29", "C23", "TTFParser.Seek", "KernValue.ValueByRight")
}
