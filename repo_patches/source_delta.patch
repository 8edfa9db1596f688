From 7ee1be5141ace921923940b2ef96fb84b302ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 01/25] fix: RemoveOtherPages keeps the requested page, not the
 one after it

---
 pdft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index ebbb481..3ebd68a 100644
--- a/pdft.go
+++ b/pdft.go
@@ -180,7 +180,7 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 		return ErrNoDesiredPageToKeep
 	}
 
-	return i.setPages([]int{pageObjIds[targetPageNumber]})
+	return i.setPages([]int{pageObjIds[targetPageNumber-1]})
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-- 
2.43.0


From 2e858c7c83198ce0fb330381f1f5b0976e779530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:04 +0000
Subject: [PATCH 02/25] fix: page operations report page numbers and positions
 outside the document

---
 pdft.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdft.go b/pdft.go
index 3ebd68a..67f9736 100644
--- a/pdft.go
+++ b/pdft.go
@@ -121,7 +121,13 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
+		return ErrNoDesiredPageToCopy
+	}
+	if position < 0 {
+		position = len(pageObjIds) + position // like python
+	}
+	if position < 0 || position >= len(pageObjIds) {
 		return ErrNoDesiredPageToCopy
 	}
 
@@ -145,9 +151,6 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 
 	pageID := i.pdf.putNewObject(pageObj)
 
-	if position < 0 {
-		position = len(pageObjIds) + position // like python
-	}
 	pageObjIds = append(pageObjIds, 0)
 	copy(pageObjIds[position+1:], pageObjIds[position:])
 	pageObjIds[position+1] = pageID
@@ -161,7 +164,7 @@ func (i *PDFt) RemovePage(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToRemove
 	}
 	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
@@ -176,7 +179,7 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToKeep
 	}
 
-- 
2.43.0


From e15ce0bb36fa6c8797ca63d12bea4e3da0f1dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:04 +0000
Subject: [PATCH 03/25] fix: follow page trees nested more than two levels when
 collecting resources

---
 pdf_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index e0339ca..42ca769 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -93,10 +93,10 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 			subCw.set(p, key, path...)
 			subCw.run()
 			for k, v := range subCw.results {
-				cw.results[k] = v
 				if _, ok := cw.results[k]; !ok {
 					checkedQueue = append(checkedQueue, k)
 				}
+				cw.results[k] = v
 			}
 		}
 		checkedQueue = checkedQueue[1:]
-- 
2.43.0


From 6e706f7678c58e785a6db08c79f299a8bdb0005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:06 +0000
Subject: [PATCH 04/25] fix: the last character of a format 12 cmap group
 belongs to the group

---
 minigopdf/subset_font_obj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 284706e..1bc87be 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -186,7 +186,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat12(r rune) (uint, error) {
 	value := uint(r)
 	gTbs := s.ttfp.GroupingTables()
 	for _, gTb := range gTbs {
-		if value >= gTb.StartCharCode && value < gTb.EndCharCode {
+		if value >= gTb.StartCharCode && value <= gTb.EndCharCode {
 			gIndex := (value - gTb.StartCharCode) + gTb.GlyphID
 			return gIndex, nil
 		}
-- 
2.43.0


From 0585d7ac9f4ea54c12016d2395d39d0433b4d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:07 +0000
Subject: [PATCH 05/25] fix: SetProtection no longer writes into the spare
 capacity of the caller's passwords

---
 minigopdf/pdf_protection.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 5fa588b..3eef2d6 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -50,10 +50,8 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	userPassWithPadding := padPassword(userPass)
+	ownerPassWithPadding := padPassword(ownerPass)
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
@@ -72,6 +70,13 @@ func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte,
 	return nil
 }
 
+// padPassword pads or truncates pass to 32 bytes, in memory of its own
+func padPassword(pass []byte) []byte {
+	padded := append([]byte{}, pass...)
+	padded = append(padded, protectionPadding...)
+	return padded[0:32]
+}
+
 // EncryptionObj get Encryption Object
 func (p *PDFProtection) EncryptionObj() *EncryptionObj {
 	return p.encryptionObj()
-- 
2.43.0


From 87c7537194ad5b188bc406b97160186706f6d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:09 +0000
Subject: [PATCH 06/25] fix: text colors whose components add up to 256, and
 explicit black, are written

---
 content_text.go                 | 3 ++-
 minigopdf/cache_content_text.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/content_text.go b/content_text.go
index e236813..ea6a714 100644
--- a/content_text.go
+++ b/content_text.go
@@ -51,7 +51,8 @@ func (c *ContentText) toSteram() (*bytes.Buffer, error) {
 		rgb.SetR(uint8(c.fontColor.R))
 		rgb.SetG(uint8(c.fontColor.G))
 		rgb.SetB(uint8(c.fontColor.B))
-	} else {
+	}
+	if rgb == (gopdf.Rgb{}) { //pure black writes no color operator, and would keep the color of the text before it
 		rgb.SetR(1)
 		rgb.SetG(1)
 		rgb.SetB(1)
diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 0da146c..6989485 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -129,7 +129,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
-	if r+g+b != 0 {
+	if r != 0 || g != 0 || b != 0 {
 		rFloat := float64(r) * 0.00392156862745
 		gFloat := float64(g) * 0.00392156862745
 		bFloat := float64(b) * 0.00392156862745
-- 
2.43.0


From ade616db99af36d3fa9fc7983c50e0094902f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:10 +0000
Subject: [PATCH 07/25] fix: PNG chunks of 32 KiB and more, truncated chunks,
 and gray images with alpha

---
 minigopdf/image_obj_parse.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index e230ff5..5724153 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -8,7 +8,9 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"io"
 	"io/ioutil"
+	"math"
 	"strings"
 )
 
@@ -346,8 +348,15 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				}
 				i++
 			}
-			//fmt.Print("aaaaa")
+			info.smask, err = compress(alpha)
+			if err != nil {
+				return err
+			}
 
+			info.data, err = compress(color)
+			if err != nil {
+				return err
+			}
 		} else {
 			// RGB image
 			length := 4 * w
@@ -416,18 +425,18 @@ func readInt(f *bytes.Reader) (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	var v int
-	if u >= 0x8000 {
-		v = int(u) - 65536
-	} else {
-		v = int(u)
+	if u > math.MaxInt32 { //png lengths and dimensions are limited to 2^31-1
+		return 0, errors.New("Incorrect PNG file")
 	}
-	return v, nil
+	return int(u), nil
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 28aac4d89ccb35e1198be66399060f8c1b1c71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:12 +0000
Subject: [PATCH 08/25] fix: the font subset contains the parts of nested
 composite glyphs

---
 minigopdf/pdf_dictionary_obj.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index c31501b..76b99b3 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -266,8 +266,7 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	}
 
 	i := 0
-	count := len(glyphs)
-	for i < count {
+	for i < len(glyphArray) { //glyphArray grows: parts of a composite glyph can be composite too
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
 		i++
 	}
-- 
2.43.0


From 6bcc1c547815fc72ed4aaa35ee093f48d97b09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:53 +0000
Subject: [PATCH 09/25] fix: an object or page property that is missing is an
 error (or inherited), not a nil dereference

---
 crawl.go     | 17 ++++++++---
 pdf_data.go  | 81 +++++++++++++++++++++++++++++++++++++++++++++-------
 pdf_parse.go | 49 +++++++++++++++++++++++--------
 pdft.go      | 26 ++++++++++++-----
 4 files changed, 140 insertions(+), 33 deletions(-)

diff --git a/crawl.go b/crawl.go
index 4cdab91..7c5cab0 100644
--- a/crawl.go
+++ b/crawl.go
@@ -31,8 +31,11 @@ func (c *crawl) set(pdf *PDFData, objID int, p ...string) {
 }
 
 func (c *crawl) run() error {
-	objdata := c.pdf.getObjByID(c.objID)
-	err := c.next(&objdata.data, 0, c.objID, c.resultByObjID(c.objID))
+	objdata, err := c.pdf.findObjByID(c.objID)
+	if err != nil {
+		return err
+	}
+	err = c.next(&objdata.data, 0, c.objID, c.resultByObjID(c.objID))
 	return err
 }
 
@@ -66,7 +69,10 @@ func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
 				if err != nil {
 					return err
 				}
-				objdata := c.pdf.getObjByID(objID)
+				objdata, err := c.pdf.findObjByID(objID)
+				if err != nil {
+					return err
+				}
 				err = c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
 				if err != nil {
 					return err
@@ -79,7 +85,10 @@ func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
 					return err
 				}
 				for _, objID := range objIDs {
-					objdata := c.pdf.getObjByID(objID)
+					objdata, err := c.pdf.findObjByID(objID)
+					if err != nil {
+						return err
+					}
 					c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
 				}
 			} else if propType == object {
diff --git a/pdf_data.go b/pdf_data.go
index 42ca769..4f68ead 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -76,6 +76,18 @@ func (p *PDFData) getObjByID(objID int) *PDFObjData {
 	return nil
 }
 
+// ErrObjectNotFound an object that is referred to is not in the pdf
+var ErrObjectNotFound = errors.New("object not found")
+
+// findObjByID like getObjByID, but an object that is not there is an error
+func (p *PDFData) findObjByID(objID int) (*PDFObjData, error) {
+	obj := p.getObjByID(objID)
+	if obj == nil {
+		return nil, ErrObjectNotFound
+	}
+	return obj, nil
+}
+
 // getPageCrawl use crawl, supporting for page nesting
 func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 	var cw crawl
@@ -104,17 +116,41 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 	return &cw, nil
 }
 
+// rootPagesID get the obj ID of the root of the page tree
+func (p *PDFData) rootPagesID() (int, error) {
+	rootObj, err := p.findObjByID(p.trailer.rootObjID)
+	if err != nil {
+		return 0, err
+	}
+	rootProps, err := rootObj.readProperties()
+	if err != nil {
+		return 0, err
+	}
+	pagesProp := rootProps.getPropByKey("Pages")
+	if pagesProp == nil {
+		return 0, errors.New("/Pages not found")
+	}
+	pagesID, _, err := pagesProp.asDictionary()
+	return pagesID, err
+}
+
 // getPageObjIDs get page obj IDs
 func (p *PDFData) getPageObjIDs() ([]int, error) {
 	results := []int{}
-	rootProps, _ := p.getObjByID(p.trailer.rootObjID).readProperties()
-	rootPagesID, _, _ := rootProps.getPropByKey("Pages").asDictionary()
+	rootPagesID, err := p.rootPagesID()
+	if err != nil {
+		return nil, err
+	}
 	objProps := map[int]*PDFObjPropertiesData{} // cache props
 	getObjProps := func(id int) *PDFObjPropertiesData {
 		if v, ok := objProps[id]; ok {
 			return v
 		}
-		if data, err := p.getObjByID(id).readProperties(); err == nil {
+		obj := p.getObjByID(id)
+		if obj == nil {
+			return nil
+		}
+		if data, err := obj.readProperties(); err == nil {
 			objProps[id] = data
 			return objProps[id]
 		}
@@ -333,7 +369,11 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 	}
 
 	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
+		obj, err := p.findObjByID(objID)
+		if err != nil {
+			return err
+		}
+		obj.data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
 	}
 
 	return nil
@@ -386,7 +426,10 @@ func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
 				return err
 			}
 			var crFonts crawlResultFonts
-			fontObj := p.getObjByID(fontObjID)
+			fontObj, err := p.findObjByID(fontObjID)
+			if err != nil {
+				return err
+			}
 			err = crFonts.parse(&fontObj.data)
 			if err != nil {
 				return err
@@ -397,7 +440,11 @@ func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
 	}
 
 	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
+		obj, err := p.findObjByID(objID)
+		if err != nil {
+			return err
+		}
+		obj.data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
 	}
 
 	return nil
@@ -468,7 +515,11 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 				return errors.New("not support /Contents type not dictionary,array yet")
 			}
 
-			data := &p.getObjByID(contentsObjID).data
+			contentsObj, err := p.findObjByID(contentsObjID)
+			if err != nil {
+				return err
+			}
+			data := &contentsObj.data
 			zip := true
 			propContentsObj, err := readProperty(data, "FlateDecode")
 			if err != nil {
@@ -503,7 +554,11 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	for objID := range objMustReplaces {
 		//_ = objID
 		//fmt.Printf("objID=%d\n", objID)
-		p.getObjByID(objID).data = []byte("" + objMustReplaces[objID] + "")
+		obj, err := p.findObjByID(objID)
+		if err != nil {
+			return err
+		}
+		obj.data = []byte("" + objMustReplaces[objID] + "")
 		//fmt.Printf("objId=%d %s\n", objID, string(p.getObjByID(objID).data))
 	}
 
@@ -534,7 +589,10 @@ func streamLength(p *PDFData, data *[]byte) (int, error) {
 		if err != nil {
 			return 0, err
 		}
-		fontlengthObj := p.getObjByID(objID)
+		fontlengthObj, err := p.findObjByID(objID)
+		if err != nil {
+			return 0, err
+		}
 		return strconv.Atoi(strings.TrimSpace(string(fontlengthObj.data)))
 	} else {
 		return 0, errors.New("/Length or /Length1  wrong type")
@@ -595,7 +653,10 @@ func findMaxFontIndex(cw *crawl, p *PDFData) (int, error) {
 			if err != nil {
 				return 0, err
 			}
-			fontObj := p.getObjByID(fontObjID)
+			fontObj, err := p.findObjByID(fontObjID)
+			if err != nil {
+				return 0, err
+			}
 			err = crFonts.parse(&fontObj.data)
 			if err != nil {
 				return 0, err
diff --git a/pdf_parse.go b/pdf_parse.go
index d5d314a..386d201 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -53,11 +53,13 @@ func parsePageSize(pdf *PDFData) error {
 	}
 
 	for n, pageID := range pageIDs {
-		data := pdf.getObjByID(pageID).data
-		propContentsObj, err := readProperty(&data, "MediaBox")
+		propContentsObj, err := pdf.inheritedProperty(pageID, "MediaBox")
 		if err != nil {
 			return err
 		}
+		if propContentsObj == nil {
+			continue
+		}
 		valType := propContentsObj.valType()
 		if valType != array {
 			fmt.Printf("MediaBox type is not array, but %s", valType)
@@ -67,11 +69,42 @@ func parsePageSize(pdf *PDFData) error {
 		if err != nil {
 			return err
 		}
+		if len(parseMediaBoxd) != 4 {
+			return errors.New("/MediaBox is not a rectangle")
+		}
 		pdf.pageSizes[n] = parseMediaBoxd
 	}
 	return nil
 }
 
+// inheritedProperty reads a property of a page, or, where the page does not have it, of the closest node above it that does
+func (p *PDFData) inheritedProperty(objID int, key string) (*PDFObjPropertyData, error) {
+	visited := make(map[int]bool)
+	for !visited[objID] {
+		visited[objID] = true
+		obj, err := p.findObjByID(objID)
+		if err != nil {
+			return nil, err
+		}
+		props, err := obj.readProperties()
+		if err != nil {
+			return nil, err
+		}
+		if prop := props.getPropByKey(key); prop != nil {
+			return prop, nil
+		}
+		parent := props.getPropByKey("Parent")
+		if parent == nil {
+			return nil, nil
+		}
+		objID, _, err = parent.asDictionary()
+		if err != nil {
+			return nil, err
+		}
+	}
+	return nil, nil
+}
+
 func parseFloatSlice(s string) ([]float64, error) {
 	// ตัด [] ออก
 	s = strings.TrimSpace(s)
@@ -93,20 +126,12 @@ func parseFloatSlice(s string) ([]float64, error) {
 }
 
 func setPagesObj(pdf *PDFData) error {
-	pagesProps, err := pdf.getObjByID(pdf.trailer.rootObjID).readProperties()
-	if err != nil {
-		return err
-	}
-	pagesProp := pagesProps.getPropByKey("Pages")
-	if pagesProp == nil {
-		return errors.New("/Pages not found")
-	}
-	pagesID, _, err := pagesProp.asDictionary()
+	pagesID, err := pdf.rootPagesID()
 	if err != nil {
 		return err
 	}
 
-	pagesObj := pdf.getObjByID(pagesID)
+	pagesObj, err := pdf.findObjByID(pagesID)
 	if err != nil {
 		return err
 	}
diff --git a/pdft.go b/pdft.go
index 67f9736..2c0e42d 100644
--- a/pdft.go
+++ b/pdft.go
@@ -131,7 +131,11 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 		return ErrNoDesiredPageToCopy
 	}
 
-	pageObj := *(i.pdf.getObjByID(pageObjIds[targetPageNumber-1])) //copy object value
+	targetObj, err := i.pdf.findObjByID(pageObjIds[targetPageNumber-1])
+	if err != nil {
+		return err
+	}
+	pageObj := *targetObj //copy object value
 
 	props, err := pageObj.readProperties()
 	if err != nil {
@@ -145,7 +149,11 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if err != nil {
 		return err
 	}
-	contentID = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
+	contentObj, err := i.pdf.findObjByID(contentID)
+	if err != nil {
+		return err
+	}
+	contentID = i.pdf.putNewObject(*contentObj) //copy object value
 	pageContent.setAsDictionary(contentID, 0)
 	pageObj.setProperties(props)
 
@@ -187,22 +195,26 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-	rootProps, err := i.pdf.getObjByID(i.pdf.trailer.rootObjID).readProperties()
+	rootPagesID, err := i.pdf.rootPagesID()
 	if err != nil {
 		return err
 	}
-	rootPagesID, _, err := rootProps.getPropByKey("Pages").asDictionary()
+	pagesObj, err := i.pdf.findObjByID(rootPagesID)
 	if err != nil {
 		return err
 	}
-	pagesObj := i.pdf.getObjByID(rootPagesID)
 	props, err := pagesObj.readProperties()
 	if err != nil {
 		return err
 	}
+	count := props.getPropByKey("Count")
+	kids := props.getPropByKey("Kids")
+	if count == nil || kids == nil {
+		return errors.New("/Count or /Kids not found in the page tree")
+	}
 	nPage := len(pageObjIds)
-	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
-	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
+	count.rawVal = strconv.Itoa(nPage)
+	kids.setAsDictionaryArr(pageObjIds, nil)
 	pagesObj.setProperties(props)
 	return nil
 }
-- 
2.43.0


From 240ea5b1dee108359e3b56e27ad37be682016374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:28 +0000
Subject: [PATCH 10/25] fix: page sizes follow their page when pages are
 removed or duplicated

---
 pdf_data.go  |  1 +
 pdf_parse.go |  5 +++--
 pdft.go      | 11 ++++++++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 4f68ead..9bfd75e 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -18,6 +18,7 @@ type PDFData struct {
 	objs      []PDFObjData
 	pagesObj  *PDFObjData
 	pageSizes map[int][]float64 //key is page objID
+	pageIDs   []int             //objIDs of the pages, in order
 }
 
 // TrailerData trailer
diff --git a/pdf_parse.go b/pdf_parse.go
index 386d201..c613b57 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -52,7 +52,8 @@ func parsePageSize(pdf *PDFData) error {
 		return err
 	}
 
-	for n, pageID := range pageIDs {
+	pdf.pageIDs = pageIDs
+	for _, pageID := range pageIDs {
 		propContentsObj, err := pdf.inheritedProperty(pageID, "MediaBox")
 		if err != nil {
 			return err
@@ -72,7 +73,7 @@ func parsePageSize(pdf *PDFData) error {
 		if len(parseMediaBoxd) != 4 {
 			return errors.New("/MediaBox is not a rectangle")
 		}
-		pdf.pageSizes[n] = parseMediaBoxd
+		pdf.pageSizes[pageID] = parseMediaBoxd
 	}
 	return nil
 }
diff --git a/pdft.go b/pdft.go
index 2c0e42d..b355f5f 100644
--- a/pdft.go
+++ b/pdft.go
@@ -158,6 +158,9 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	pageObj.setProperties(props)
 
 	pageID := i.pdf.putNewObject(pageObj)
+	if size, ok := i.pdf.pageSizes[pageObjIds[targetPageNumber-1]]; ok {
+		i.pdf.pageSizes[pageID] = size
+	}
 
 	pageObjIds = append(pageObjIds, 0)
 	copy(pageObjIds[position+1:], pageObjIds[position:])
@@ -216,6 +219,7 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	count.rawVal = strconv.Itoa(nPage)
 	kids.setAsDictionaryArr(pageObjIds, nil)
 	pagesObj.setProperties(props)
+	i.pdf.pageIDs = pageObjIds
 	return nil
 }
 
@@ -352,9 +356,10 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 }
 
 func (i *PDFt) pageHeight(pageNum int) float64 {
-	pageIndex := pageNum - 1
-	if val, ok := i.pdf.pageSizes[pageIndex]; ok {
-		return val[3]
+	if pageNum >= 1 && pageNum <= len(i.pdf.pageIDs) {
+		if val, ok := i.pdf.pageSizes[i.pdf.pageIDs[pageNum-1]]; ok {
+			return val[3]
+		}
 	}
 	return 841.89 //A4
 }
-- 
2.43.0


From 2906448ef94efd61c182a79fc9770cfb49541bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:29 +0000
Subject: [PATCH 11/25] fix: saving a document twice gives the same output
 twice

---
 minigopdf/cid_font_obj.go           | 1 +
 minigopdf/image_obj.go              | 1 +
 minigopdf/pdf_dictionary_obj.go     | 1 +
 minigopdf/smask_obj.go              | 1 +
 minigopdf/subfont_descriptor_obj.go | 1 +
 minigopdf/subset_font_obj.go        | 1 +
 minigopdf/unicode_map.go            | 1 +
 pdft.go                             | 2 ++
 8 files changed, 9 insertions(+)

diff --git a/minigopdf/cid_font_obj.go b/minigopdf/cid_font_obj.go
index 310b2d2..8ef3a0f 100644
--- a/minigopdf/cid_font_obj.go
+++ b/minigopdf/cid_font_obj.go
@@ -15,6 +15,7 @@ func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
 }
 
 func (ci *CIDFontObj) build(objID int) error {
+	ci.buffer.Reset()
 
 	ci.buffer.WriteString("<<\n")
 	ci.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily())))
diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 7873b7e..68852e9 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -41,6 +41,7 @@ func (i *ImageObj) protection() *PDFProtection {
 }
 
 func (i *ImageObj) build(objID int) error {
+	i.buffer.Reset()
 
 	buff, err := buildImgProp(i.imginfo)
 	if err != nil {
diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 76b99b3..70f9fce 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -43,6 +43,7 @@ func (p *PdfDictionaryObj) protection() *PDFProtection {
 }
 
 func (p *PdfDictionaryObj) build(objID int) error {
+	p.buffer.Reset()
 	b, err := p.makeFont()
 	if err != nil {
 		//log.Panicf("%s", err.Error())
diff --git a/minigopdf/smask_obj.go b/minigopdf/smask_obj.go
index 9338bba..37967e7 100644
--- a/minigopdf/smask_obj.go
+++ b/minigopdf/smask_obj.go
@@ -34,6 +34,7 @@ func (s *SMask) getObjBuff() *bytes.Buffer {
 }
 
 func (s *SMask) build(objID int) error {
+	s.buffer.Reset()
 
 	buff, err := buildImgProp(s.imgInfo)
 	if err != nil {
diff --git a/minigopdf/subfont_descriptor_obj.go b/minigopdf/subfont_descriptor_obj.go
index ca21e7e..6cc469e 100644
--- a/minigopdf/subfont_descriptor_obj.go
+++ b/minigopdf/subfont_descriptor_obj.go
@@ -24,6 +24,7 @@ func (s *SubfontDescriptorObj) getObjBuff() *bytes.Buffer {
 }
 
 func (s *SubfontDescriptorObj) build(objID int) error {
+	s.buffer.Reset()
 
 	ttfp := s.PtrToSubsetFontObj.GetTTFParser()
 	//fmt.Printf("-->%d\n", ttfp.UnitsPerEm())
diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 1bc87be..7b0f902 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -46,6 +46,7 @@ func (s *SubsetFontObj) init(funcGetRoot func() *GoPdf) {
 }
 
 func (s *SubsetFontObj) build(objID int) error {
+	s.buffer.Reset()
 	//me.AddChars("จ")
 	s.buffer.WriteString("<<\n")
 	s.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(s.Family)))
diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 4068711..afd4e0e 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -31,6 +31,7 @@ func (u *UnicodeMap) SetPtrToSubsetFontObj(ptr *SubsetFontObj) {
 }
 
 func (u *UnicodeMap) build(objID int) error {
+	u.buffer.Reset()
 	buff, err := u.pdfToUnicodeMap(objID)
 	if err != nil {
 		return err
diff --git a/pdft.go b/pdft.go
index b355f5f..f1f3a17 100644
--- a/pdft.go
+++ b/pdft.go
@@ -628,6 +628,8 @@ func (i *PDFt) build() (*PDFData, int, error) {
 	}
 
 	newpdf := i.pdf //copy
+	newpdf.objIDs = append([]int{}, i.pdf.objIDs...)
+	newpdf.objs = append([]PDFObjData{}, i.pdf.objs...)
 
 	err = newpdf.injectFontsToPDF(i.fontDatas)
 	if err != nil {
-- 
2.43.0


From 6d90deb7173ac04aa4894b8ab9fed7925fec1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:29 +0000
Subject: [PATCH 12/25] fix: errors that were dropped reach the caller

---
 crawl.go                                      |  5 +-
 crawl_result.go                               |  5 +-
 minigopdf/cache_content_text.go               | 10 ++-
 minigopdf/content_obj.go                      | 15 +++-
 minigopdf/fontmaker/core/ttfparser.go         | 20 ++++-
 .../core/ttfparser_cmap_other_format.go       | 10 ++-
 minigopdf/fontmaker/core/ttfparser_kern.go    | 15 +++-
 minigopdf/image_obj_parse.go                  |  5 +-
 minigopdf/pdf_dictionary_obj.go               |  5 +-
 pdf_data.go                                   | 74 ++++++++++++++-----
 pdft.go                                       | 15 +++-
 11 files changed, 140 insertions(+), 39 deletions(-)

diff --git a/crawl.go b/crawl.go
index 7c5cab0..9741f6f 100644
--- a/crawl.go
+++ b/crawl.go
@@ -89,7 +89,10 @@ func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
 					if err != nil {
 						return err
 					}
-					c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
+					err = c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
+					if err != nil {
+						return err
+					}
 				}
 			} else if propType == object {
 				if lenPath <= i+1 {
diff --git a/crawl_result.go b/crawl_result.go
index d0d86ed..544b07d 100644
--- a/crawl_result.go
+++ b/crawl_result.go
@@ -47,7 +47,10 @@ func loopSetValOf(cr *crawlResult, key string, val string) error {
 				return nil
 			}
 		} else if item.typeOfVal == typeOfValCr {
-			v, _ := item.getValCr()
+			v, err := item.getValCr()
+			if err != nil {
+				return err
+			}
 			return loopSetValOf(v, key, val)
 		}
 	}
diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 6989485..8cc8433 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -154,7 +154,10 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 		}
 	}
 
-	c.drawBorder(&stream)
+	err = c.drawBorder(&stream)
+	if err != nil {
+		return nil, err
+	}
 
 	return &stream, nil
 }
@@ -388,7 +391,10 @@ func (c *CacheContent) WriteTextToContent(text string) {
 
 // ToStream create stream of content
 func (c *CacheContent) ToStream(protection *PDFProtection) (*bytes.Buffer, error) {
-	c.cacheContentText.createContent()
+	_, _, err := c.cacheContentText.createContent()
+	if err != nil {
+		return nil, err
+	}
 	return c.cacheContentText.toStream(protection)
 }
 
diff --git a/minigopdf/content_obj.go b/minigopdf/content_obj.go
index 19940a8..e8d544e 100644
--- a/minigopdf/content_obj.go
+++ b/minigopdf/content_obj.go
@@ -41,9 +41,18 @@ func (c *ContentObj) build(objID int) error {
 			// should never happen...
 			return err
 		}
-		c.stream.WriteTo(zwriter)
-		buff.WriteTo(zwriter)
-		zwriter.Close()
+		_, err = c.stream.WriteTo(zwriter)
+		if err != nil {
+			return err
+		}
+		_, err = buff.WriteTo(zwriter)
+		if err != nil {
+			return err
+		}
+		err = zwriter.Close()
+		if err != nil {
+			return err
+		}
 		cPtr = &zbuff
 	} else {
 		// zlib compressLevel = 0 adds header and thus
diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index c750a59..6d0695d 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -240,7 +240,10 @@ func (t *TTFParser) parse(rd io.Reader) error {
 	if err != nil {
 		return err
 	}
-	t.Skip(fd, 3*2) //searchRange, entrySelector, rangeShift
+	err = t.Skip(fd, 3*2) //searchRange, entrySelector, rangeShift
+	if err != nil {
+		return err
+	}
 	t.tables = make(map[string]TableDirectoryEntry)
 	for i < numTables {
 
@@ -600,8 +603,14 @@ func (t *TTFParser) PregReplace(pattern string, replacement string, subject stri
 
 // ParseCmap parse cmap table format 4 https://www.microsoft.com/typography/otspec/cmap.htm
 func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
-	t.Seek(fd, "cmap")
-	t.Skip(fd, 2) // version
+	err := t.Seek(fd, "cmap")
+	if err != nil {
+		return err
+	}
+	err = t.Skip(fd, 2) // version
+	if err != nil {
+		return err
+	}
 	numTables, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
@@ -789,7 +798,10 @@ func (t *TTFParser) FTell(fd *bytes.Reader) (uint, error) {
 // ParseHmtx parse hmtx table  https://www.microsoft.com/typography/otspec/hmtx.htm
 func (t *TTFParser) ParseHmtx(fd *bytes.Reader) error {
 
-	t.Seek(fd, "hmtx")
+	err := t.Seek(fd, "hmtx")
+	if err != nil {
+		return err
+	}
 	i := uint(0)
 	for i < t.numberOfHMetrics {
 		advanceWidth, err := t.ReadUShort(fd)
diff --git a/minigopdf/fontmaker/core/ttfparser_cmap_other_format.go b/minigopdf/fontmaker/core/ttfparser_cmap_other_format.go
index e3d8512..23dbb9d 100644
--- a/minigopdf/fontmaker/core/ttfparser_cmap_other_format.go
+++ b/minigopdf/fontmaker/core/ttfparser_cmap_other_format.go
@@ -8,8 +8,14 @@ import (
 // ParseCmapFormat12 parse cmap table format 12 https://www.microsoft.com/typography/otspec/cmap.htm
 func (t *TTFParser) ParseCmapFormat12(fd *bytes.Reader) (bool, error) {
 
-	t.Seek(fd, "cmap")
-	t.Skip(fd, 2) //skip version
+	err := t.Seek(fd, "cmap")
+	if err != nil {
+		return false, err
+	}
+	err = t.Skip(fd, 2) //skip version
+	if err != nil {
+		return false, err
+	}
 	numTables, err := t.ReadUShort(fd)
 	if err != nil {
 		return false, err
diff --git a/minigopdf/fontmaker/core/ttfparser_kern.go b/minigopdf/fontmaker/core/ttfparser_kern.go
index 92315b7..9b90b7e 100644
--- a/minigopdf/fontmaker/core/ttfparser_kern.go
+++ b/minigopdf/fontmaker/core/ttfparser_kern.go
@@ -44,7 +44,10 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 
 func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 
-	t.Skip(fd, 2+2) //skip version and length
+	err := t.Skip(fd, 2+2) //skip version and length
+	if err != nil {
+		return err
+	}
 
 	coverage, err := t.ReadUShort(fd)
 	if err != nil {
@@ -55,7 +58,10 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 	//fmt.Printf("format = %d\n", format) //debug
 	t.kern.Kerning = make(KernMap) //init
 	if format == 0 {
-		t.parsekernSubTableFormat0(fd)
+		err = t.parsekernSubTableFormat0(fd)
+		if err != nil {
+			return err
+		}
 	} else {
 		//not support other format yet
 		return fmt.Errorf("not support kerning format %d", format)
@@ -69,7 +75,10 @@ func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
-	t.Skip(fd, 2+2+2) //skip searchRange , entrySelector , rangeShift
+	err = t.Skip(fd, 2+2+2) //skip searchRange , entrySelector , rangeShift
+	if err != nil {
+		return err
+	}
 
 	i := uint(0)
 	for i < nPairs {
diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 5724153..a679d91 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -405,7 +405,10 @@ func compress(data []byte) ([]byte, error) {
 	if err != nil {
 		return results, err
 	}
-	zwr.Close()
+	err = zwr.Close()
+	if err != nil {
+		return results, err
+	}
 	return buff.Bytes(), nil
 }
 
diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 70f9fce..1158daf 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -57,7 +57,10 @@ func (p *PdfDictionaryObj) build(objID int) error {
 	if err != nil {
 		return err
 	}
-	gzipwriter.Close()
+	err = gzipwriter.Close()
+	if err != nil {
+		return err
+	}
 
 	p.buffer.WriteString("<</Length " + strconv.Itoa(zbuff.Len()) + "\n")
 	p.buffer.WriteString("/Filter /FlateDecode\n")
diff --git a/pdf_data.go b/pdf_data.go
index 9bfd75e..14c2b12 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -94,7 +94,10 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 	var cw crawl
 	pagePath := append([]string{"Pages"}, path...)
 	cw.set(p, objID, pagePath...)
-	cw.run()
+	err := cw.run()
+	if err != nil {
+		return nil, err
+	}
 	checkedQueue := []int{}
 	for k := range cw.results {
 		checkedQueue = append(checkedQueue, k)
@@ -104,7 +107,10 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 		if s := cw.results[key].String(); strings.Contains(s, "/Pages") && strings.Contains(s, "/Parent") {
 			var subCw crawl
 			subCw.set(p, key, path...)
-			subCw.run()
+			err = subCw.run()
+			if err != nil {
+				return nil, err
+			}
 			for k, v := range subCw.results {
 				if _, ok := cw.results[k]; !ok {
 					checkedQueue = append(checkedQueue, k)
@@ -157,10 +163,14 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 		}
 		return nil
 	}
+	var visitErr error
 	getKids := func(id int) []int {
 		if props := getObjProps(id); props != nil {
 			if pages, kid := props.getPropByKey("Pages"), props.getPropByKey("Kids"); pages != nil && kid != nil {
-				kidIDs, _, _ := kid.asDictionaryArr()
+				kidIDs, _, err := kid.asDictionaryArr()
+				if err != nil && visitErr == nil {
+					visitErr = err
+				}
 				return kidIDs
 			}
 		}
@@ -183,6 +193,9 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 		}
 	}
 	visit(rootPagesID)
+	if visitErr != nil {
+		return nil, visitErr
+	}
 	return results, nil
 }
 
@@ -201,10 +214,10 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 	isEmbedResources := false
 	rootOfXObjectID := -1
 	resourcesContent := ""
-	cwRes, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources")
-	//if err != nil {
-	//	return err
-	//}
+	cwRes, err := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources")
+	if err != nil {
+		return err
+	}
 	foundRes := false
 	for resID, r := range cwRes.results {
 		resources, err := r.valOf("Resources")
@@ -234,6 +247,9 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 	}
 
 	if !foundRes {
+		if len(pdfImgs) == 0 {
+			return nil //nothing to add
+		}
 		return errors.New("not found /Resources in /Type/Pages")
 	}
 
@@ -260,11 +276,11 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 	}
 
 	if !found { //ถ้ายังไม่เจออีก
-		cw2, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
-		cw = *cw2
+		cw2, err := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
 		if err != nil {
 			return err
 		}
+		cw = *cw2
 		for objID, r := range cw.results {
 			xobject, err := r.valOf("XObject")
 			if err == ErrCrawlResultValOfNotFound {
@@ -334,7 +350,10 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 					newXObjs = append(newXObjs, xobj)
 				}
 			}
-			r.setValOf("XObject", fmt.Sprintf("<<%s>>\n", newXObjs.String()))
+			err = r.setValOf("XObject", fmt.Sprintf("<<%s>>\n", newXObjs.String()))
+			if err != nil {
+				return err
+			}
 			objMustReplaces[objID] = r.String()
 		}
 	} else {
@@ -354,7 +373,10 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 				} else {
 					res = strings.TrimSpace(res)
 					res = fmt.Sprintf("%s /XObject <<%s>>", res[2:len(res)-2], xobjs.String())
-					r.setValOf("Resources", fmt.Sprintf("<<%s>>\n", res))
+					err = r.setValOf("Resources", fmt.Sprintf("<<%s>>\n", res))
+					if err != nil {
+						return err
+					}
 					objMustReplaces[objID] = r.String()
 				}
 			}
@@ -362,7 +384,10 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 			for objID, r := range cw.results {
 				res := strings.TrimSpace(resourcesContent)
 				res = fmt.Sprintf("<<%s>>\n", xobjs.String())
-				r.add("XObject", res)
+				err = r.add("XObject", res)
+				if err != nil {
+					return err
+				}
 				objMustReplaces[objID] = r.String()
 				//fmt.Printf("%s\n", r.String())
 			}
@@ -381,8 +406,7 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 }
 
 func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
-	var err error
-	cw, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "Font")
+	cw, err := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "Font")
 	if err != nil {
 		return err
 	}
@@ -418,7 +442,10 @@ func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
 				return err
 			}
 			crFonts = append(crFonts, newCrFonts...)
-			r.setValOf("Font", "<<\n"+crFonts.String()+">>\n")
+			err = r.setValOf("Font", "<<\n"+crFonts.String()+">>\n")
+			if err != nil {
+				return err
+			}
 			objMustReplaces[objID] = r.String()
 		} else if fontPropValType == dictionary {
 			var fontObjID int
@@ -473,7 +500,10 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			return err
 		}
 	}
-	pageObjIDs, _ := p.getPageObjIDs()
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
 	objMustReplaces := make(map[int]string)
 	for pageIndex, pageObjID := range pageObjIDs {
 
@@ -494,6 +524,8 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			// fmt.Printf("%d propContentsVal=%s\n\n", 0, r.String())
 			if err == ErrCrawlResultValOfNotFound {
 				continue
+			} else if err != nil {
+				return err
 			}
 
 			propContentsValType := propertyType(propContentsVal)
@@ -508,9 +540,12 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 				}
 			} else if propContentsValType == array {
 				contentsObjIDs, _, err := readObjIDFromDictionaryArr(propContentsVal)
-				if err != nil || len(contentsObjIDs) <= 0 {
+				if err != nil {
 					return err
 				}
+				if len(contentsObjIDs) <= 0 {
+					return errors.New("/Contents is empty")
+				}
 				contentsObjID = contentsObjIDs[0]
 			} else {
 				return errors.New("not support /Contents type not dictionary,array yet")
@@ -545,7 +580,10 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 
 			if _, ok := pageBuffs[pageIndex+1]; ok {
 				stm.WriteString("\n")
-				pageBuffs[pageIndex+1].WriteTo(stm)
+				_, err = pageBuffs[pageIndex+1].WriteTo(stm)
+				if err != nil {
+					return err
+				}
 				objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
 			}
 
diff --git a/pdft.go b/pdft.go
index f1f3a17..cfe65de 100644
--- a/pdft.go
+++ b/pdft.go
@@ -430,7 +430,10 @@ func (i *PDFt) InsertImg(img []byte, pageNum int, x float64, y float64, w float6
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
 
-	pdfimg.setImgObj(imgObj)
+	err = pdfimg.setImgObj(imgObj)
+	if err != nil {
+		return err
+	}
 
 	i.pdfImgs = append(i.pdfImgs, &pdfimg)
 	//fmt.Printf("-->%d\n", len(i.pdfImgs))
@@ -475,7 +478,10 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 			smaskObjID := i.pdf.putNewObject(pdfObj)
 			imgObj.SetSMaskObjID(smaskObjID)
 		}
-		pdfimg.setImgObj(imgObj)
+		err = pdfimg.setImgObj(imgObj)
+		if err != nil {
+			return err
+		}
 
 		i.pdfImgs = append(i.pdfImgs, pdfimg)
 		i.pdfImgsMd5Map[md5Str] = pdfimg
@@ -688,7 +694,10 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		max := newpdf.Len()
 		x := 0
 		for x < max {
-			newpdf.objs[x].encrypt(i.protection())
+			err = newpdf.objs[x].encrypt(i.protection())
+			if err != nil {
+				return nil, 0, err
+			}
 			x++
 		}
 	}
-- 
2.43.0


From 23b5d5ec326d5768c64e1440a6c1c4eae75f190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:30 +0000
Subject: [PATCH 13/25] fix: a failing Insert, MeasureTextWidth or OpenFrom
 leaves the document as it was

---
 pdft.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/pdft.go b/pdft.go
index cfe65de..20b80b3 100644
--- a/pdft.go
+++ b/pdft.go
@@ -99,15 +99,19 @@ func (i *PDFt) Open(filepath string) error {
 
 // OpenFrom open pdf from io.Reader
 func (i *PDFt) OpenFrom(r io.Reader) error {
-	//init
-	i.fontDatas = make(map[string]*PDFFontData)
-	i.curr.lineWidth = 1.0
-	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
 	//open
-	err := PDFParse(r, &i.pdf)
+	var pdf PDFData
+	err := PDFParse(r, &pdf)
 	if err != nil {
 		return err
 	}
+	//init
+	i.pdf = pdf
+	i.fontDatas = make(map[string]*PDFFontData)
+	i.curr.lineWidth = 1.0
+	i.pdfImgs = nil
+	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+	i.contenters = nil
 
 	i.ShowCellBorder(false)
 
@@ -333,13 +337,16 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 		return ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	err := ct.pdfFontData.addChars(text)
+	if err != nil {
+		return err
+	}
 	i.contenters = append(i.contenters, &ct)
-	return i.fontDatas[ct.fontName].addChars(text)
+	return nil
 }
 
 // MeasureTextWidth measure text width
 func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
-	i.fontDatas[i.curr.fontName].addChars(text)
 	var ct ContentText
 	ct.text = text
 	ct.fontName = i.curr.fontName
@@ -351,6 +358,10 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 		return 0, ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	err := ct.pdfFontData.addChars(text)
+	if err != nil {
+		return 0, err
+	}
 	width, err := ct.measureTextWidth()
 	return width, err
 }
@@ -484,6 +495,9 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 		}
 
 		i.pdfImgs = append(i.pdfImgs, pdfimg)
+		if i.pdfImgsMd5Map == nil {
+			i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+		}
 		i.pdfImgsMd5Map[md5Str] = pdfimg
 	}
 	var ct contentImgBase64
@@ -517,6 +531,9 @@ func (i *PDFt) AddFont(name string, ttfpath string) error {
 		return err
 	}
 
+	if i.fontDatas == nil {
+		i.fontDatas = make(map[string]*PDFFontData)
+	}
 	i.fontDatas[name] = fontData
 	return nil
 }
@@ -532,6 +549,9 @@ func (i *PDFt) AddFontFrom(name string, reader io.Reader) error {
 		return err
 	}
 
+	if i.fontDatas == nil {
+		i.fontDatas = make(map[string]*PDFFontData)
+	}
 	i.fontDatas[name] = fontData
 	return nil
 }
-- 
2.43.0


From e6f2e6b2f915e79ddf531549461413c12a488d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:30 +0000
Subject: [PATCH 14/25] fix: output no longer depends on map iteration order

---
 crawl.go         | 12 ++++++++++++
 pdf_data.go      | 26 ++++++++++++++------------
 pdf_font_data.go | 11 +++++++++++
 pdft.go          |  7 +++++--
 render/render.go |  9 ++++++++-
 5 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/crawl.go b/crawl.go
index 9741f6f..8e32ce0 100644
--- a/crawl.go
+++ b/crawl.go
@@ -1,5 +1,7 @@
 package pdft
 
+import "sort"
+
 type crawl struct {
 	//setup
 	pdf   *PDFData
@@ -21,6 +23,16 @@ func (c *crawl) resultByObjID(id int) *crawlResult {
 	return c.results[id]
 }
 
+// objIDs IDs of the results, in order
+func (c *crawl) objIDs() []int {
+	var ids []int
+	for id := range c.results {
+		ids = append(ids, id)
+	}
+	sort.Ints(ids)
+	return ids
+}
+
 func (c *crawl) set(pdf *PDFData, objID int, p ...string) {
 
 	c.pdf = pdf
diff --git a/pdf_data.go b/pdf_data.go
index 14c2b12..8a568cb 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -98,10 +98,7 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 	if err != nil {
 		return nil, err
 	}
-	checkedQueue := []int{}
-	for k := range cw.results {
-		checkedQueue = append(checkedQueue, k)
-	}
+	checkedQueue := cw.objIDs()
 	for len(checkedQueue) > 0 {
 		key := checkedQueue[0]
 		if s := cw.results[key].String(); strings.Contains(s, "/Pages") && strings.Contains(s, "/Parent") {
@@ -111,7 +108,8 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 			if err != nil {
 				return nil, err
 			}
-			for k, v := range subCw.results {
+			for _, k := range subCw.objIDs() {
+				v := subCw.results[k]
 				if _, ok := cw.results[k]; !ok {
 					checkedQueue = append(checkedQueue, k)
 				}
@@ -219,7 +217,8 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 		return err
 	}
 	foundRes := false
-	for resID, r := range cwRes.results {
+	for _, resID := range cwRes.objIDs() {
+		r := cwRes.results[resID]
 		resources, err := r.valOf("Resources")
 		if err == ErrCrawlResultValOfNotFound {
 			continue
@@ -262,15 +261,16 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 	}
 
 	found := false
-	xObjectVals := make(map[int]string)
-	for objID, r := range cw.results {
+	var xObjectVals []string
+	for _, objID := range cw.objIDs() {
+		r := cw.results[objID]
 		xobject, err := r.valOf("XObject")
 		if err == ErrCrawlResultValOfNotFound {
 			continue
 		} else if err != nil {
 			return err
 		} else {
-			xObjectVals[objID] = xobject
+			xObjectVals = append(xObjectVals, xobject)
 			found = true
 		}
 	}
@@ -281,14 +281,15 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 			return err
 		}
 		cw = *cw2
-		for objID, r := range cw.results {
+		for _, objID := range cw.objIDs() {
+			r := cw.results[objID]
 			xobject, err := r.valOf("XObject")
 			if err == ErrCrawlResultValOfNotFound {
 				continue
 			} else if err != nil {
 				return err
 			} else {
-				xObjectVals[objID] = xobject
+				xObjectVals = append(xObjectVals, xobject)
 				found = true
 			}
 		}
@@ -417,7 +418,8 @@ func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
 	}
 
 	var newCrFonts crawlResultFonts //font ใหม่ที่จะยัดเข้าไป
-	for _, pdffontdata := range fontDatas {
+	for _, fontName := range sortedFontNames(fontDatas) {
+		pdffontdata := fontDatas[fontName]
 		maxFontIndex++
 		newCrFonts.append(maxFontIndex, pdffontdata.fontID)
 		pdffontdata.setFontIndex(maxFontIndex)
diff --git a/pdf_font_data.go b/pdf_font_data.go
index ce7d668..b8bb17b 100644
--- a/pdf_font_data.go
+++ b/pdf_font_data.go
@@ -3,6 +3,7 @@ package pdft
 import (
 	"bytes"
 	"io"
+	"sort"
 
 	gopdf "github.com/signintech/pdft/minigopdf"
 )
@@ -28,6 +29,16 @@ type PDFFontData struct {
 	dictionaryStream *bytes.Buffer
 }
 
+// sortedFontNames the order in which fonts get their obj IDs and indexes
+func sortedFontNames(fontDatas map[string]*PDFFontData) []string {
+	var names []string
+	for name := range fontDatas {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (p *PDFFontData) init() {
 	p.font.CharacterToGlyphIndex = gopdf.NewMapOfCharacterToGlyphIndex() //make(map[rune]uint)
 }
diff --git a/pdft.go b/pdft.go
index 20b80b3..c5c814b 100644
--- a/pdft.go
+++ b/pdft.go
@@ -644,7 +644,9 @@ func (i *PDFt) build() (*PDFData, int, error) {
 
 	var err error
 	nextID := i.pdf.maxID()
-	for _, fontData := range i.fontDatas {
+	fontNames := sortedFontNames(i.fontDatas)
+	for _, fontName := range fontNames {
+		fontData := i.fontDatas[fontName]
 		nextID++
 		fontData.setStartID(nextID)
 		nextID, err = fontData.build()
@@ -663,7 +665,8 @@ func (i *PDFt) build() (*PDFData, int, error) {
 	}
 
 	//ยัด subsetfont obj กลับไป
-	for _, fontData := range i.fontDatas {
+	for _, fontName := range fontNames {
+		fontData := i.fontDatas[fontName]
 
 		var fontobj, cidObj, unicodeMapObj, fontDescObj, dictionaryObj PDFObjData
 
diff --git a/render/render.go b/render/render.go
index 5d201f9..aa34f9a 100644
--- a/render/render.go
+++ b/render/render.go
@@ -3,6 +3,7 @@ package render
 import (
 	"fmt"
 	"log"
+	"sort"
 
 	"github.com/signintech/pdft"
 	"github.com/signintech/pdft/textbreak"
@@ -78,7 +79,13 @@ func (r *Render) ImgBase64(key string, base64 string) error {
 // ShowDesignView for debug
 func (r *Render) ShowDesignView() {
 	r.ShowCellBorder(true)
-	for key, finfo := range r.finfoMap {
+	var keys []string
+	for key := range r.finfoMap {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	for _, key := range keys {
+		finfo := r.finfoMap[key]
 		r.SetFont(finfo.Font, "", finfo.Size)
 		r.Insert("#"+key, finfo.PageNum, finfo.X, finfo.Y, finfo.W, finfo.H, finfo.Align, nil)
 	}
-- 
2.43.0


From 1bb13101127fd693235db742ac26d823e0f38eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:32 +0000
Subject: [PATCH 15/25] fix: fonts and images that are already in the pdf keep
 their resource names

---
 crawl_result_font.go     | 16 +++++++++++++---
 crawl_result_x_object.go | 22 +++++++++++++++++-----
 pdf_data.go              | 24 ++++++++++++++++--------
 3 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/crawl_result_font.go b/crawl_result_font.go
index 23ece59..2f2596c 100644
--- a/crawl_result_font.go
+++ b/crawl_result_font.go
@@ -39,8 +39,9 @@ func (c *crawlResultFonts) parse(propVal *[]byte) error {
 	for _, prop := range props {
 		var crFont crawlResultFont
 
-		prefix, fontIndex, err := splitFont(strings.TrimSpace(prop.key))
-		if err != nil {
+		crFont.key = strings.TrimSpace(prop.key)
+		prefix, fontIndex, err := splitFont(crFont.key)
+		if err != nil && err != ErrNoFontIndex {
 			return err
 		}
 		objID, _, err := prop.asDictionary()
@@ -58,7 +59,7 @@ func (c *crawlResultFonts) parse(propVal *[]byte) error {
 func (c *crawlResultFonts) String() string {
 	var buff bytes.Buffer
 	for _, f := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R\n", f.prefix, f.fontIndex, f.fontObjID))
+		buff.WriteString(fmt.Sprintf("/%s %d 0 R\n", f.name(), f.fontObjID))
 	}
 	return buff.String()
 }
@@ -81,7 +82,16 @@ func (c *crawlResultFonts) maxFontIndex() int {
 	return max
 }
 
+// name resource name: the one it already has, or, for a new one, its prefix and index
+func (f crawlResultFont) name() string {
+	if f.key != "" {
+		return f.key
+	}
+	return fmt.Sprintf("%s%d", f.prefix, f.fontIndex)
+}
+
 type crawlResultFont struct {
+	key       string
 	fontIndex int
 	fontObjID int
 	prefix    string
diff --git a/crawl_result_x_object.go b/crawl_result_x_object.go
index ca895a0..1b59bbb 100644
--- a/crawl_result_x_object.go
+++ b/crawl_result_x_object.go
@@ -28,11 +28,14 @@ func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 
 		var xObj crawlResultXObject
 		xObj.xObjChar = tokens[1]
-		xObjIndex, err := strconv.Atoi(strings.TrimSpace(tokens[2]))
-		if err != nil {
-			return err
+		xObj.key = prop.key
+		if tokens[2] != "" {
+			xObjIndex, err := strconv.Atoi(strings.TrimSpace(tokens[2]))
+			if err != nil {
+				return err
+			}
+			xObj.xObjIndex = xObjIndex
 		}
-		xObj.xObjIndex = xObjIndex
 
 		xObjObjID, _, err := readObjIDFromDictionary(prop.rawVal)
 		if err != nil {
@@ -49,12 +52,21 @@ func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 func (c *crawlResultXObjects) String() string {
 	var buff bytes.Buffer
 	for _, xObj := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R", xObj.xObjChar, xObj.xObjIndex, xObj.xObjObjID))
+		buff.WriteString(fmt.Sprintf("/%s %d 0 R", xObj.name(), xObj.xObjObjID))
 	}
 	return buff.String()
 }
 
+// name resource name: the one it already has, or, for a new one, its prefix and index
+func (x crawlResultXObject) name() string {
+	if x.key != "" {
+		return x.key
+	}
+	return fmt.Sprintf("%s%d", x.xObjChar, x.xObjIndex)
+}
+
 type crawlResultXObject struct {
+	key       string
 	xObjChar  string
 	xObjIndex int
 	xObjObjID int
diff --git a/pdf_data.go b/pdf_data.go
index 8a568cb..ea35b20 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -301,12 +301,17 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 	if found {
 		for _, xObjectVal := range xObjectVals {
 			propVal := []byte(xObjectVal)
-			xobjs.parse(&propVal)
-			if len(xobjs) > 0 {
-				xObjChar = xobjs[len(xobjs)-1].xObjChar
-				if xobjs[len(xobjs)-1].xObjIndex > xObjIndex {
-					xObjIndex = xobjs[len(xobjs)-1].xObjIndex
-				}
+			err = xobjs.parse(&propVal)
+			if err != nil {
+				return err
+			}
+		}
+		if len(xobjs) > 0 {
+			xObjChar = xobjs[len(xobjs)-1].xObjChar
+		}
+		for _, xobj := range xobjs {
+			if xobj.xObjIndex > xObjIndex {
+				xObjIndex = xobj.xObjIndex
 			}
 		}
 	}
@@ -338,11 +343,14 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 			}
 			var newXObjs crawlResultXObjects
 			bOldXObjectStr := []byte(oldXObjectStr)
-			newXObjs.parse(&bOldXObjectStr)
+			err = newXObjs.parse(&bOldXObjectStr)
+			if err != nil {
+				return err
+			}
 			for _, xobj := range xobjs { // pick new item from xobjs into newXObjs
 				isExisted := false
 				for _, existedXObj := range newXObjs {
-					if existedXObj.xObjChar == xobj.xObjChar && existedXObj.xObjIndex == xobj.xObjIndex { // Avoid conflict of same xObjIndex when editing emerged pdf
+					if existedXObj.name() == xobj.name() { // Avoid conflict of same xObjIndex when editing emerged pdf
 						isExisted = true
 						break
 					}
-- 
2.43.0


From 67763a887424ea6376a0a7e711a06a879e5b94a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:32 +0000
Subject: [PATCH 16/25] fix: stream data that begins or ends with white space,
 and other filters, survive saving

---
 pdf_data.go     | 61 +++++++++++++++++++++++++++++++++++++------------
 pdf_obj_data.go | 19 +++++++++++----
 2 files changed, 61 insertions(+), 19 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index ea35b20..e4d7dc1 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -517,6 +517,10 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	objMustReplaces := make(map[int]string)
 	for pageIndex, pageObjID := range pageObjIDs {
 
+		if _, ok := pageBuffs[pageIndex+1]; !ok {
+			continue
+		}
+
 		var cw2Content crawl
 		cw2Content.set(p, pageObjID, "Contents")
 		err = cw2Content.run()
@@ -566,14 +570,10 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 				return err
 			}
 			data := &contentsObj.data
-			zip := true
-			propContentsObj, err := readProperty(data, "FlateDecode")
+			zip, err := isFlateStream(data)
 			if err != nil {
 				return err
 			}
-			if propContentsObj == nil {
-				zip = false
-			}
 
 			var stm *bytes.Buffer
 			//fmt.Printf("\n-------------------%d-----------------------\n%s\n\n", contentsObjID, string(*data))
@@ -588,14 +588,12 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			}
 			//fmt.Printf("stm=%s\n\n", stm.String())
 
-			if _, ok := pageBuffs[pageIndex+1]; ok {
-				stm.WriteString("\n")
-				_, err = pageBuffs[pageIndex+1].WriteTo(stm)
-				if err != nil {
-					return err
-				}
-				objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
+			stm.WriteString("\n")
+			_, err = pageBuffs[pageIndex+1].WriteTo(stm)
+			if err != nil {
+				return err
 			}
+			objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
 
 		}
 	}
@@ -614,6 +612,36 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	return nil
 }
 
+// isFlateStream whether the content is compressed; what is compressed in another way cannot be extended
+func isFlateStream(data *[]byte) (bool, error) {
+	filter, err := readProperty(data, "Filter")
+	if err != nil {
+		return false, err
+	}
+	if filter == nil {
+		return false, nil
+	}
+	names := strings.Fields(strings.NewReplacer("[", " ", "]", " ", "/", " ").Replace(filter.rawVal))
+	if filter.valType() == array {
+		if len(names) == 0 {
+			return false, nil
+		}
+		if len(names) == 1 && names[0] == "FlateDecode" {
+			return true, nil
+		}
+		return false, errors.New("not support /Filter of /Contents yet")
+	}
+	//the value of "/Filter /FlateDecode" is read as a key of its own
+	flate, err := readProperty(data, "FlateDecode")
+	if err != nil {
+		return false, err
+	}
+	if flate == nil {
+		return false, errors.New("not support /Filter of /Contents yet")
+	}
+	return true, nil
+}
+
 func streamLength(p *PDFData, data *[]byte) (int, error) {
 
 	prop, err := readProperty(data, "Length")
@@ -654,9 +682,14 @@ var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 
 	index := bytes.Index(*b, extractStreamBytes)
+	if index == -1 {
+		return nil, errors.New("stream not found")
+	}
 	offset := len(extractStreamBytes)
-	tmp := (*b)[index+offset:]
-	tmp = bytes.TrimSpace(tmp)
+	tmp := trimStreamEOL((*b)[index+offset:])
+	if length < 0 || length > len(tmp) {
+		return nil, errors.New("/Length is not the length of the stream")
+	}
 	tmp = tmp[0:length]
 	var buff bytes.Buffer
 	buff.Write(tmp)
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 719a34a..a2947d2 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -69,14 +69,12 @@ func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
 	stream := []byte("stream")
 	endstream := []byte("endstream")
 	start := bytes.Index(p.data, stream)
-	if start != -1 {
-		end := bytes.LastIndex(p.data, endstream)
-
+	end := bytes.LastIndex(p.data, endstream)
+	if start != -1 && end >= start+len(stream) {
 		var head, body bytes.Buffer
 		head.Write(p.data[0:start])
 		body.Write(p.data[start+len(stream) : end])
-		tmp := bytes.Trim(body.Bytes(), "\r\n")
-		tmp = bytes.Trim(tmp, "\n")
+		tmp := trimStreamEOL(body.Bytes()) //what follows the keyword; a line break before endstream does no harm
 		bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), tmp)
 		if err != nil {
 			return err
@@ -94,6 +92,17 @@ func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
 	return nil
 }
 
+// trimStreamEOL removes the end of line between the keyword stream and the data
+func trimStreamEOL(b []byte) []byte {
+	if bytes.HasPrefix(b, []byte("\r\n")) {
+		return b[2:]
+	}
+	if bytes.HasPrefix(b, []byte("\n")) || bytes.HasPrefix(b, []byte("\r")) {
+		return b[1:]
+	}
+	return b
+}
+
 func rc4Cip(key []byte, src []byte) ([]byte, error) {
 	cip, err := rc4.NewCipher(key)
 	if err != nil {
-- 
2.43.0


From 96ef5f00c0ac5138b13d8963d97dd3dddef78804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:33 +0000
Subject: [PATCH 17/25] fix: xref offsets and startxref point at the object and
 the table, not at the line break before

---
 pdft.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdft.go b/pdft.go
index c5c814b..6163a5f 100644
--- a/pdft.go
+++ b/pdft.go
@@ -753,8 +753,9 @@ func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
 	for _, obj := range newpdf.objs {
 		//xrefs = append(xrefs, buff.Len())
 		//fmt.Printf("%d\n", obj.objID)
+		buff.WriteString("\n")
 		xrefs[obj.objID] = buff.Len()
-		buff.WriteString(fmt.Sprintf("\n%d 0 obj\n", obj.objID))
+		buff.WriteString(fmt.Sprintf("%d 0 obj\n", obj.objID))
 		buff.WriteString(strings.TrimSpace(string(obj.data)))
 		buff.WriteString("\nendobj\n")
 	}
@@ -770,11 +771,12 @@ type xrefrow struct {
 }
 
 func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, encryptionObjID int) {
+	buff.WriteString("\n")
 	xrefbyteoffset := buff.Len()
 
 	//start xref
-	buff.WriteString("\nxref\n")
-	buff.WriteString(fmt.Sprintf("0 %d\r\n", size+1))
+	buff.WriteString("xref\n")
+	buff.WriteString(fmt.Sprintf("0 %d\n", size+1))
 	var xrefrows []xrefrow
 	xrefrows = append(xrefrows, xrefrow{offset: 0, flag: "f", gen: "65535"})
 	lastIndexOfF := 0
-- 
2.43.0


From 9962afa27dcfca6d7e6f406941032b673290bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:21 +0000
Subject: [PATCH 18/25] fix: new content goes after the last content stream of
 a page, not after the first

---
 pdf_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index e4d7dc1..ea8bdd2 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -560,7 +560,7 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 				if len(contentsObjIDs) <= 0 {
 					return errors.New("/Contents is empty")
 				}
-				contentsObjID = contentsObjIDs[0]
+				contentsObjID = contentsObjIDs[len(contentsObjIDs)-1]
 			} else {
 				return errors.New("not support /Contents type not dictionary,array yet")
 			}
-- 
2.43.0


From 3c55c13eb31fcd87f055ca9dfc12f1ad47c7e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:22 +0000
Subject: [PATCH 19/25] fix: gopdf soft mask reference, compress level above 9
 and MeasureTextWidth

---
 minigopdf/gopdf.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 637e7e9..c9287f5 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -79,7 +79,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
@@ -247,7 +246,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
-			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
+			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj) + 1
 		}
 
 		if imgobj.isColspaceIndexed() {
@@ -628,7 +627,7 @@ func (gp *GoPdf) MeasureTextWidth(text string) (float64, error) {
 		return 0, err
 	}
 
-	_, _, textWidthPdfUnit, err := createContent(gp.curr.Font_ISubset, text, gp.curr.Font_Size, nil, nil)
+	_, _, textWidthPdfUnit, err := createContent(gp.curr.Font_ISubset, text, gp.curr.Font_Size, nil, new(bytes.Buffer))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 9fc999f8b07aef235495e8005bd3e3171e010c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:23 +0000
Subject: [PATCH 20/25] fix: indexed PNG images refer to a palette that exists

---
 minigopdf/image_obj.go | 17 +++++++++++++++++
 pdft.go                |  9 +++++++++
 2 files changed, 26 insertions(+)

diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 68852e9..86db5fc 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -104,6 +104,23 @@ func (i *ImageObj) createDeviceRGB() (*DeviceRGBObj, error) {
 	return &dRGB, nil
 }
 
+// CreatePalette create the stream object of the palette of an indexed image, nil for other images
+func (i *ImageObj) CreatePalette() *bytes.Buffer {
+	if !i.isColspaceIndexed() {
+		return nil
+	}
+	var buff bytes.Buffer
+	buff.WriteString(fmt.Sprintf("<<\n/Length %d\n>>\nstream\n", len(i.imginfo.pal)))
+	buff.Write(i.imginfo.pal)
+	buff.WriteString("\nendstream\n")
+	return &buff
+}
+
+// SetPaletteObjID set objId of the palette
+func (i *ImageObj) SetPaletteObjID(objID int) {
+	i.imginfo.deviceRGBObjID = objID - 1
+}
+
 func (i *ImageObj) getType() string {
 	return "Image"
 }
diff --git a/pdft.go b/pdft.go
index 6163a5f..9080634 100644
--- a/pdft.go
+++ b/pdft.go
@@ -394,6 +394,9 @@ func (i *PDFt) InsertImgBase64(base64str string, pageNum int, x float64, y float
 		smaskObjID := i.pdf.putNewObject(pdfObj)
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
+	if palette := imgObj.CreatePalette(); palette != nil {
+		imgObj.SetPaletteObjID(i.pdf.putNewObject(PDFObjData{data: palette.Bytes()}))
+	}
 
 	err = pdfimg.setImgObj(imgObj)
 	if err != nil {
@@ -440,6 +443,9 @@ func (i *PDFt) InsertImg(img []byte, pageNum int, x float64, y float64, w float6
 		smaskObjID := i.pdf.putNewObject(pdfObj)
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
+	if palette := imgObj.CreatePalette(); palette != nil {
+		imgObj.SetPaletteObjID(i.pdf.putNewObject(PDFObjData{data: palette.Bytes()}))
+	}
 
 	err = pdfimg.setImgObj(imgObj)
 	if err != nil {
@@ -489,6 +495,9 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 			smaskObjID := i.pdf.putNewObject(pdfObj)
 			imgObj.SetSMaskObjID(smaskObjID)
 		}
+		if palette := imgObj.CreatePalette(); palette != nil {
+			imgObj.SetPaletteObjID(i.pdf.putNewObject(PDFObjData{data: palette.Bytes()}))
+		}
 		err = pdfimg.setImgObj(imgObj)
 		if err != nil {
 			return err
-- 
2.43.0


From d0b578105cf11ab20e655748651dda4e9b86a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:00 +0000
Subject: [PATCH 21/25] fix: write characters beyond the BMP as UTF-16 in the
 ToUnicode map

---
 minigopdf/unicode_map.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index afd4e0e..4747dc1 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"bytes"
 	"fmt"
+	"unicode/utf16"
 )
 
 // UnicodeMap unicode map
@@ -86,7 +87,11 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X>\n", k, k, v))
+		buff.WriteString(fmt.Sprintf("<%04X><%04X><", k, k))
+		for _, code := range utf16.Encode([]rune{v}) {
+			buff.WriteString(fmt.Sprintf("%04X", code))
+		}
+		buff.WriteString(">\n")
 	}
 	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
-- 
2.43.0


From 4167c4b3e03c4403f8b008da9ac7f0d539de4f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:50 +0000
Subject: [PATCH 22/25] fix: glyphs after one shared by two characters were
 missing in the embedded font

---
 minigopdf/pdf_dictionary_obj.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 1158daf..7459cd0 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -259,7 +259,12 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	//copy
 	isContainZero := false
 	glyphs := mapOfglyphs.AllVals()
+	added := make(map[uint]bool)
 	for _, v := range glyphs {
+		if added[v] { //several characters can have the same glyph
+			continue
+		}
+		added[v] = true
 		glyphArray = append(glyphArray, int(v))
 		if v == 0 {
 			isContainZero = true
-- 
2.43.0


From 2537dc59ef1fdb49b4ea631241565358f11a7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:30 +0000
Subject: [PATCH 23/25] fix: take the format of a kern subtable from the high
 byte of its coverage

---
 minigopdf/fontmaker/core/ttfparser_kern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/ttfparser_kern.go b/minigopdf/fontmaker/core/ttfparser_kern.go
index 9b90b7e..903092e 100644
--- a/minigopdf/fontmaker/core/ttfparser_kern.go
+++ b/minigopdf/fontmaker/core/ttfparser_kern.go
@@ -54,7 +54,7 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 		return err
 	}
 
-	format := coverage & 0xf0
+	format := coverage >> 8 // high byte of coverage
 	//fmt.Printf("format = %d\n", format) //debug
 	t.kern.Kerning = make(KernMap) //init
 	if format == 0 {
-- 
2.43.0


From 30906d8e78dec9f9e25f51ee27b2eb9225794287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:22 +0000
Subject: [PATCH 24/25] fix: close the generator's Info dictionary once

With a creation date the dictionary was closed after that entry and again
after the last one, which also closed the trailer too early.
---
 minigopdf/gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index c9287f5..2e45ec5 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -817,7 +817,7 @@ func (gp *GoPdf) bindInfo(buff *bytes.Buffer) {
 	}
 
 	if !zerotime.Equal(gp.info.CreationDate) {
-		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)>>\n", infodate(gp.info.CreationDate)))
+		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)\n", infodate(gp.info.CreationDate)))
 	}
 
 	buff.WriteString(" >>\n")
-- 
2.43.0


From 0b1b1c08d12fab9b8fd8d8625d62b8dd8de67e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:22 +0000
Subject: [PATCH 25/25] fix: write characters outside the basic plane as UTF-16
 in Info

Their code was written as five or six hexadecimal digits, which shifted
everything after them in the string.
---
 minigopdf/gopdf.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 2e45ec5..1afc4d3 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"strconv"
 	"time"
+	"unicode/utf16"
 )
 
 const subsetFont = "SubsetFont"
@@ -854,12 +855,8 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+	for _, c := range utf16.Encode([]rune(str)) {
+		buff.WriteString(fmt.Sprintf("%04X", c))
 	}
 	return buff.String()
 }
-- 
2.43.0

