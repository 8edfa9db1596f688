#!/usr/bin/env python3
"""Hand-written refactorings that keep the behaviour. usage: refac_hand.py DIR [name...]; development tool."""
import sys,os,subprocess
R={}
def r(name,*edits): R[name]=edits

r("remove-append",("pdft.go",'''	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
	pageObjIds = pageObjIds[:len(pageObjIds)-1]

	return i.setPages(pageObjIds)''','''	return i.setPages(append(pageObjIds[:targetPageNumber-1], pageObjIds[targetPageNumber:]...))'''))
r("remove-loop",("pdft.go",'''	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
	pageObjIds = pageObjIds[:len(pageObjIds)-1]

	return i.setPages(pageObjIds)''','''	var remaining []int
	for idx, id := range pageObjIds {
		if idx+1 == targetPageNumber {
			continue
		}
		remaining = append(remaining, id)
	}
	return i.setPages(remaining)'''))
r("dup-append",("pdft.go",'''	pageObjIds = append(pageObjIds, 0)
	copy(pageObjIds[position+1:], pageObjIds[position:])
	pageObjIds[position+1] = pageID

	return i.setPages(pageObjIds)''','''	newPages := make([]int, 0, len(pageObjIds)+1)
	newPages = append(newPages, pageObjIds[:position+1]...)
	newPages = append(newPages, pageID)
	newPages = append(newPages, pageObjIds[position+1:]...)
	return i.setPages(newPages)'''))
r("page-range-helper",("pdft.go",'''	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
		return ErrNoDesiredPageToRemove
	}
''','''	if !validPage(targetPageNumber, pageObjIds) {
		return ErrNoDesiredPageToRemove
	}
'''),("pdft.go",'''	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
		return ErrNoDesiredPageToKeep
	}
''','''	if !validPage(targetPageNumber, pageObjIds) {
		return ErrNoDesiredPageToKeep
	}
'''),("pdft.go",'''	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
		return ErrNoDesiredPageToCopy
	}
''','''	if !validPage(targetPageNumber, pageObjIds) {
		return ErrNoDesiredPageToCopy
	}
'''),("pdft.go",'''func (i *PDFt) setPages(''','''func validPage(n int, pages []int) bool {
	return n > 0 && n <= len(pages)
}

func (i *PDFt) setPages('''))
r("insert-literal",("pdft.go",'''	var ct ContentText
	ct.text = text
	ct.fontColor = fontColor
	ct.fontName = i.curr.fontName
	ct.fontStyle = i.curr.fontStyle
	ct.fontSize = i.curr.fontSize
	ct.pageNum = pageNum
	ct.x = x
	ct.y = y
	ct.w = w
	ct.h = h
	ct.align = align
	ct.lineWidth = i.curr.lineWidth
	ct.pageHeight = i.pageHeight(pageNum)
	ct.setProtection(i.protection())
	if _, have := i.fontDatas[ct.fontName]; !have {
		return ErrFontNameNotFound
	}
	ct.pdfFontData = i.fontDatas[ct.fontName]
	err := ct.pdfFontData.addChars(text)
	if err != nil {
		return err
	}
	i.contenters = append(i.contenters, &ct)
	return nil''','''	ct, err := i.newContentText(text)
	if err != nil {
		return err
	}
	ct.fontColor = fontColor
	ct.pageNum = pageNum
	ct.x, ct.y = x, y
	ct.w, ct.h = w, h
	ct.align = align
	ct.pageHeight = i.pageHeight(pageNum)
	ct.setProtection(i.protection())
	i.contenters = append(i.contenters, ct)
	return nil'''),("pdft.go",'''	var ct ContentText
	ct.text = text
	ct.fontName = i.curr.fontName
	ct.fontStyle = i.curr.fontStyle
	ct.fontSize = i.curr.fontSize
	ct.lineWidth = i.curr.lineWidth
	ct.pageHeight = i.pageHeight(1)
	if _, have := i.fontDatas[ct.fontName]; !have {
		return 0, ErrFontNameNotFound
	}
	ct.pdfFontData = i.fontDatas[ct.fontName]
	err := ct.pdfFontData.addChars(text)
	if err != nil {
		return 0, err
	}
	width, err := ct.measureTextWidth()
	return width, err
}
''','''	ct, err := i.newContentText(text)
	if err != nil {
		return 0, err
	}
	ct.pageHeight = i.pageHeight(1)
	return ct.measureTextWidth()
}

// newContentText prepares text in the current font
func (i *PDFt) newContentText(text string) (*ContentText, error) {
	fontData, ok := i.fontDatas[i.curr.fontName]
	if !ok {
		return nil, ErrFontNameNotFound
	}
	if err := fontData.addChars(text); err != nil {
		return nil, err
	}
	return &ContentText{
		text:        text,
		fontName:    i.curr.fontName,
		fontStyle:   i.curr.fontStyle,
		fontSize:    i.curr.fontSize,
		lineWidth:   i.curr.lineWidth,
		pdfFontData: fontData,
	}, nil
}
'''))
smask='''	if smask != nil {
		buff, err := smask.BytesBuffer(0) //ใส่ id ไปมั่วๆทำให้ไม่ support password protect
		if err != nil {
			return err
		}
		var pdfObj PDFObjData
		pdfObj.data = buff.Bytes()
		smaskObjID := i.pdf.putNewObject(pdfObj)
		imgObj.SetSMaskObjID(smaskObjID)
	}
	if palette := imgObj.CreatePalette(); palette != nil {
		imgObj.SetPaletteObjID(i.pdf.putNewObject(PDFObjData{data: palette.Bytes()}))
	}
'''
r("img-helpers",("pdft.go",'''	if err != nil {
		return err
	}

'''+smask,'''	if err != nil {
		return err
	}
	if err := i.putImgExtras(&imgObj, smask); err != nil {
		return err
	}
'''),("pdft.go",'''	if err != nil {
		return err
	}
'''+smask,'''	if err != nil {
		return err
	}
	if err := i.putImgExtras(&imgObj, smask); err != nil {
		return err
	}
'''),("pdft.go",'''	var ct contentImgBase64
	ct.pageNum = pageNum
	ct.x = x
	ct.y = y
	ct.h = h
	ct.w = w
	ct.refPdfimg = &pdfimg //i.pdfImgs[len(i.pdfImgs)-1]
	ct.pageHeight = i.pageHeight(pageNum)
	i.contenters = append(i.contenters, &ct)
	return nil
}
''','''	i.placeImg(&pdfimg, pageNum, x, y, w, h)
	return nil
}

func (i *PDFt) placeImg(img *PDFImageData, pageNum int, x, y, w, h float64) {
	i.contenters = append(i.contenters, &contentImgBase64{
		pageNum:    pageNum,
		x:          x,
		y:          y,
		w:          w,
		h:          h,
		pageHeight: i.pageHeight(pageNum),
		refPdfimg:  img,
	})
}

func (i *PDFt) putImgExtras(imgObj *gopdf.ImageObj, smask *gopdf.SMask) error {
	if smask != nil {
		buff, err := smask.BytesBuffer(0)
		if err != nil {
			return err
		}
		imgObj.SetSMaskObjID(i.pdf.putNewObject(PDFObjData{data: buff.Bytes()}))
	}
	palette := imgObj.CreatePalette()
	if palette == nil {
		return nil
	}
	id := i.pdf.putNewObject(PDFObjData{data: palette.Bytes()})
	imgObj.SetPaletteObjID(id)
	return nil
}
'''),("pdft.go",'''	var ct contentImgBase64
	ct.pageNum = pageNum
	ct.x = x
	ct.y = y
	ct.h = h
	ct.w = w
	ct.pageHeight = i.pageHeight(pageNum)
	ct.refPdfimg = &pdfimg //i.pdfImgs[len(i.pdfImgs)-1]
	i.contenters = append(i.contenters, &ct)
''','''	i.placeImg(&pdfimg, pageNum, x, y, w, h)
'''),("pdft.go",'''	var ct contentImgBase64
	ct.pageNum = pageNum
	ct.x = x
	ct.y = y
	ct.h = h
	ct.w = w
	ct.refPdfimg = pdfimg
	ct.pageHeight = i.pageHeight(pageNum)
	i.contenters = append(i.contenters, &ct)
''','''	i.placeImg(pdfimg, pageNum, x, y, w, h)
'''))
r("img-base64-delegates",("pdft.go",'''	var pdfimg PDFImageData
	imgObj, smask, err := createImgObjFromImgBase64(base64str)
	if err != nil {
		return err
	}
''','''	imgObj, smask, err := createImgObjFromImgBase64(base64str)
	if err != nil {
		return err
	}
	var pdfimg PDFImageData
'''))
r("wrap-closure",("pdft.go",'''			renderCaches = append(renderCaches, cacheWrapTextRender{
				text:      strings.TrimSpace(prevText),
				pageNum:   pageNum,
				x:         x,
				y:         currentY,
				w:         w,
				h:         h,
				align:     align,
				fontColor: fontColor,
			})
			currentY += fontSize + newLine
			currText = token
		}
		prevText = currText
	}
	if currText != "" {
		renderCaches = append(renderCaches, cacheWrapTextRender{
			text:      strings.TrimSpace(prevText),
			pageNum:   pageNum,
			x:         x,
			y:         currentY,
			w:         w,
			h:         h,
			align:     align,
			fontColor: fontColor,
		})
		currentY += fontSize + newLine
	}
''','''			addLine(prevText)
			currText = token
		}
		prevText = currText
	}
	if currText != "" {
		addLine(prevText)
	}
'''),("pdft.go",'''	newLine := fontSize * 0.2
''','''	newLine := fontSize * 0.2
	addLine := func(line string) {
		renderCaches = append(renderCaches, cacheWrapTextRender{
			text:      strings.TrimSpace(line),
			pageNum:   pageNum,
			x:         x,
			y:         currentY,
			w:         w,
			h:         h,
			align:     align,
			fontColor: fontColor,
		})
		currentY += fontSize + newLine
	}
'''))
r("wrap-lines",("pdft.go",'''	var renderCaches []cacheWrapTextRender
''','''	var lines []string
'''),("pdft.go",'''			renderCaches = append(renderCaches, cacheWrapTextRender{
				text:      strings.TrimSpace(prevText),
				pageNum:   pageNum,
				x:         x,
				y:         currentY,
				w:         w,
				h:         h,
				align:     align,
				fontColor: fontColor,
			})
			currentY += fontSize + newLine
''','''			lines = append(lines, strings.TrimSpace(prevText))
'''),("pdft.go",'''		renderCaches = append(renderCaches, cacheWrapTextRender{
			text:      strings.TrimSpace(prevText),
			pageNum:   pageNum,
			x:         x,
			y:         currentY,
			w:         w,
			h:         h,
			align:     align,
			fontColor: fontColor,
		})
		currentY += fontSize + newLine
	}
''','''		lines = append(lines, strings.TrimSpace(prevText))
	}
'''),("pdft.go",'''	currentY := y
	tokens''','''	tokens'''),("pdft.go",'''		yoffset = (currentY-y)/2.0 - fontSize/2.0
''','''		yoffset = (float64(len(lines))*(fontSize+newLine))/2.0 - fontSize/2.0
'''),("pdft.go",'''	for _, cache := range renderCaches {
		err := i.Insert(cache.text, cache.pageNum, cache.x, cache.y-yoffset, cache.w, cache.h, cache.align, cache.fontColor)
		if err != nil {
			return err
		}
	}
''','''	for n, line := range lines {
		lineY := y + float64(n)*(fontSize+newLine)
		if err := i.Insert(line, pageNum, x, lineY-yoffset, w, h, align, fontColor); err != nil {
			return err
		}
	}
'''),("pdft.go","type cacheWrapTextRender struct","type cacheWrapTextRenderUnused struct") if False else ("pdft.go","type xrefrow struct","type xrefrow struct"))
r("tostream-helper",("pdft.go",'''		buff.WriteString("\\n")
		xrefs[obj.objID] = buff.Len()
		buff.WriteString(fmt.Sprintf("%d 0 obj\\n", obj.objID))
		buff.WriteString(strings.TrimSpace(string(obj.data)))
		buff.WriteString("\\nendobj\\n")
	}
''','''		buff.WriteByte('\\n')
		xrefs[obj.objID] = buff.Len()
		writeObj(&buff, obj)
	}
'''),("pdft.go",'''type xrefrow struct''','''func writeObj(buff *bytes.Buffer, obj PDFObjData) {
	fmt.Fprintf(buff, "%d 0 obj\\n", obj.objID)
	buff.Write(bytes.TrimSpace(obj.data))
	buff.WriteString("\\nendobj\\n")
}

type xrefrow struct'''))
r("xref-sprintf",("pdft.go",'''		buff.WriteString(i.formatXrefline(xrefrow.offset) + " " + xrefrow.gen + " " + xrefrow.flag + " \\n")
''','''		fmt.Fprintf(buff, "%s %s %s \\n", i.formatXrefline(xrefrow.offset), xrefrow.gen, xrefrow.flag)
'''),("pdft.go",'''	str := strconv.Itoa(n)
	for len(str) < 10 {
		str = "0" + str
	}
	return str
''','''	return fmt.Sprintf("%010d", n)
'''))
r("xref-for",("pdft.go",'''	j := 1
	//fmt.Printf("size:%d\\n", size)
	for j <= size {
		if linelen, ok := linelens[j]; ok {
			xrefrows = append(xrefrows, xrefrow{offset: linelen, flag: "n", gen: "00000"})
		} else {
			xrefrows = append(xrefrows, xrefrow{offset: 0, flag: "f", gen: "65535"})
			offset := len(xrefrows) - 1
			xrefrows[lastIndexOfF].offset = offset
			lastIndexOfF = offset
		}
		j++
	}
''','''	for j := 1; j <= size; j++ {
		linelen, used := linelens[j]
		if !used {
			xrefrows[lastIndexOfF].offset = j
			lastIndexOfF = j
			xrefrows = append(xrefrows, xrefrow{flag: "f", gen: "65535"})
			continue
		}
		xrefrows = append(xrefrows, xrefrow{offset: linelen, flag: "n", gen: "00000"})
	}
'''))
r("build-put-loop",("pdft.go",'''		var fontobj, cidObj, unicodeMapObj, fontDescObj, dictionaryObj PDFObjData

		fontobj.objID = fontData.fontID
		fontobj.data = fontData.fontStream.Bytes()

		cidObj.objID = fontData.cidID
		cidObj.data = fontData.cidStream.Bytes()

		unicodeMapObj.objID = fontData.unicodeMapID
		unicodeMapObj.data = fontData.unicodeMapStream.Bytes()

		fontDescObj.objID = fontData.fontDescID
		fontDescObj.data = fontData.fontDescStream.Bytes()

		dictionaryObj.objID = fontData.dictionaryID
		dictionaryObj.data = fontData.dictionaryStream.Bytes()

		newpdf.put(fontobj)
		newpdf.put(cidObj)
		newpdf.put(unicodeMapObj)
		newpdf.put(fontDescObj)
		newpdf.put(dictionaryObj)
''','''		for _, obj := range []PDFObjData{
			{objID: fontData.fontID, data: fontData.fontStream.Bytes()},
			{objID: fontData.cidID, data: fontData.cidStream.Bytes()},
			{objID: fontData.unicodeMapID, data: fontData.unicodeMapStream.Bytes()},
			{objID: fontData.fontDescID, data: fontData.fontDescStream.Bytes()},
			{objID: fontData.dictionaryID, data: fontData.dictionaryStream.Bytes()},
		} {
			newpdf.put(obj)
		}
'''),("pdft.go",'''		max := newpdf.Len()
		x := 0
		for x < max {
			err = newpdf.objs[x].encrypt(i.protection())
			if err != nil {
				return nil, 0, err
			}
			x++
		}
''','''		for x := range newpdf.objs {
			if err = newpdf.objs[x].encrypt(i.protection()); err != nil {
				return nil, 0, err
			}
		}
'''))
r("build-split",("pdft.go",'''	for j, pdfImg := range i.pdfImgs {
		nextID++
		var obj PDFObjData
		obj.objID = nextID
		obj.data = pdfImg.imgObj.GetObjBuff().Bytes()
		i.pdfImgs[j].objID = obj.objID
		//fmt.Printf("---->%d\\n", obj.objID)
		newpdf.put(obj)
	}
''','''	nextID = putImgs(&newpdf, i.pdfImgs, nextID)
'''),("pdft.go",'''func (i *PDFt) toStream(''','''func putImgs(pdf *PDFData, imgs []*PDFImageData, lastID int) int {
	for _, img := range imgs {
		lastID++
		img.objID = lastID
		pdf.put(PDFObjData{objID: img.objID, data: img.imgObj.GetObjBuff().Bytes()})
	}
	return lastID
}

func (i *PDFt) toStream('''))
r("save-tail",("pdft.go",'''	err = os.WriteFile(filepath, buff.Bytes(), 0644)
	if err != nil {
		return err
	}
	return nil
''','''	return os.WriteFile(filepath, buff.Bytes(), 0644)
'''),("pdft.go",'''	_, err = buff.WriteTo(w)
	if err != nil {
		return err
	}
	return nil
''','''	if _, err := w.Write(buff.Bytes()); err != nil {
		return err
	}
	return nil
'''))
r("color-helper",("content_text.go",'''	var rgb gopdf.Rgb
	if c.fontColor != nil {
		rgb.SetR(uint8(c.fontColor.R))
		rgb.SetG(uint8(c.fontColor.G))
		rgb.SetB(uint8(c.fontColor.B))
	}
	if rgb == (gopdf.Rgb{}) { //pure black writes no color operator, and would keep the color of the text before it
		rgb.SetR(1)
		rgb.SetG(1)
		rgb.SetB(1)
	}

''','''	rgb := c.rgb()
'''),("content_text.go",'''func (c *ContentText) page() int {''','''func (c *ContentText) rgb() gopdf.Rgb {
	var col gopdf.Rgb
	if fc := c.fontColor; fc != nil {
		col.SetB(uint8(fc.B))
		col.SetG(uint8(fc.G))
		col.SetR(uint8(fc.R))
	}
	var none gopdf.Rgb
	if col != none {
		return col
	}
	col.SetR(1)
	col.SetG(1)
	col.SetB(1)
	return col
}

func (c *ContentText) page() int {'''))
r("img-stream",("content_img_base64.go",'''	buff.WriteString(fmt.Sprintf("q %0.2f 0 0 %0.2f %0.2f %0.2f cm /%s%d Do Q\\n", c.w, c.h, c.x, c.pageHeight-(c.y+c.h), c.refPdfimg.xObjChar, c.refPdfimg.xObjIndex))
''','''	bottom := c.pageHeight - c.y - c.h
	name := fmt.Sprintf("%s%d", c.refPdfimg.xObjChar, c.refPdfimg.xObjIndex)
	fmt.Fprintf(&buff, "q %0.2f 0 0 %0.2f ", c.w, c.h)
	fmt.Fprintf(&buff, "%0.2f %0.2f cm /", c.x, bottom)
	buff.WriteString(name + " Do Q\\n")
'''))
r("fontbuild-loop",("pdf_font_data.go",'''	var err error
	err = p.font.Build(p.fontID)
	if err != nil {
		return 0, err
	}

	err = p.cid.Build(p.cidID)
	if err != nil {
		return 0, err
	}

	err = p.unicodeMap.Build(p.unicodeMapID)
	if err != nil {
		return 0, err
	}

	err = p.fontDesc.Build(p.fontDescID)
	if err != nil {
		return 0, err
	}

	err = p.dictionary.Build(p.dictionaryID)
	if err != nil {
		return 0, err
	}
''','''	steps := []struct {
		build func(int) error
		id    int
	}{
		{p.font.Build, p.fontID},
		{p.cid.Build, p.cidID},
		{p.unicodeMap.Build, p.unicodeMapID},
		{p.fontDesc.Build, p.fontDescID},
		{p.dictionary.Build, p.dictionaryID},
	}
	for _, s := range steps {
		if err := s.build(s.id); err != nil {
			return 0, err
		}
	}
'''))
r("fontbuild-ids",("pdf_font_data.go",'''	p.fontID = p.startID + 1
	p.cidID = p.startID + 2
	p.unicodeMapID = p.startID + 3
	p.fontDescID = p.startID + 4
	p.dictionaryID = p.startID + 5
	newMaxID := p.dictionaryID
''','''	id := p.startID
	next := func() int {
		id++
		return id
	}
	p.fontID = next()
	p.cidID = next()
	p.unicodeMapID = next()
	p.fontDescID = next()
	p.dictionaryID = next()
	newMaxID := id
'''))
r("pages-walker",("pdf_data.go",'''	var visit func(id int) // Preorder Traversal, supporting for page nesting
	visit = func(id int) {
		if kids := getKids(id); kids != nil {
			for _, kid := range kids {
				visit(kid)
			}
		} else if isPage(id) {
			results = append(results, id)
		}
	}
	visit(rootPagesID)
''','''	stack := []int{rootPagesID} // Preorder Traversal, supporting for page nesting
	for len(stack) > 0 {
		id := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		kids := getKids(id)
		if kids == nil {
			if isPage(id) {
				results = append(results, id)
			}
			continue
		}
		for k := len(kids) - 1; k >= 0; k-- {
			stack = append(stack, kids[k])
		}
	}
'''))
r("xobject-values",("pdf_data.go",'''	found := false
	var xObjectVals []string
	for _, objID := range cw.objIDs() {
		r := cw.results[objID]
		xobject, err := r.valOf("XObject")
		if err == ErrCrawlResultValOfNotFound {
			continue
		} else if err != nil {
			return err
		} else {
			xObjectVals = append(xObjectVals, xobject)
			found = true
		}
	}

	if !found { //ถ้ายังไม่เจออีก
		cw2, err := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
		if err != nil {
			return err
		}
		cw = *cw2
		for _, objID := range cw.objIDs() {
			r := cw.results[objID]
			xobject, err := r.valOf("XObject")
			if err == ErrCrawlResultValOfNotFound {
				continue
			} else if err != nil {
				return err
			} else {
				xObjectVals = append(xObjectVals, xobject)
				found = true
			}
		}
	}
''','''	xObjectVals, err := xObjectValues(&cw)
	if err != nil {
		return err
	}
	if len(xObjectVals) == 0 { //ถ้ายังไม่เจออีก
		cw2, err := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
		if err != nil {
			return err
		}
		cw = *cw2
		if xObjectVals, err = xObjectValues(&cw); err != nil {
			return err
		}
	}
	found := len(xObjectVals) > 0
'''),("pdf_data.go",'''func (p *PDFData) injectImgsToPDF(''','''func xObjectValues(cw *crawl) ([]string, error) {
	var vals []string
	for _, id := range cw.objIDs() {
		val, err := cw.results[id].valOf("XObject")
		switch err {
		case nil:
			vals = append(vals, val)
		case ErrCrawlResultValOfNotFound:
		default:
			return nil, err
		}
	}
	return vals, nil
}

func (p *PDFData) injectImgsToPDF('''))
r("maxid",("pdf_data.go",'''	max := 0
	for _, id := range p.objIDs {
		if id > max {
			max = id
		}
	}
	return max
''','''	var highest int
	for k := len(p.objIDs) - 1; k >= 0; k-- {
		if highest < p.objIDs[k] {
			highest = p.objIDs[k]
		}
	}
	return highest
'''))

def apply(dir,name):
    for f,a,b in R[name]:
        p=os.path.join(dir,f); s=open(p).read()
        if a not in s: print("NOMATCH",name,f,a[:60]); return False
        s=s.replace(a,b); open(p,"w").write(s)
    return True
if __name__=="__main__":
    for n in (sys.argv[2:] or list(R)): apply(sys.argv[1],n)
