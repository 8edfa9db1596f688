SEEDS = [
dict(id='c26-interlaced-accepted', prop='C26', pkg='minigopdf',
 edits=[('minigopdf/image_obj_parse.go', "	if interlacing[0] != 0 {", "	if interlacing[0] > 1 {")],
 test='''package gopdf

import (
	"bytes"
	"image"
	"testing"
)

func TestZZDemo(t *testing.T) {
	// one row of 2 grey pixels, Adam7 interlaced: the data are not what /Predictor 15 of a PDF describes
	png := []byte("\\x89PNG\\r\\n\\x1a\\n\\x00\\x00\\x00\\x0dIHDR\\x00\\x00\\x00\\x02\\x00\\x00\\x00\\x01\\x08\\x00\\x00\\x00\\x01CRC!")
	png = append(png, "\\x00\\x00\\x00\\x04IDATdataCRC!\\x00\\x00\\x00\\x00IENDCRC!"...)
	var info imgInfo
	if err := paesePng(bytes.NewReader(png), &info, image.Config{}); err == nil {
		t.Fatalf("an interlaced image is accepted: %v", info)
	}
}
''', needs='an Adam7-interlaced PNG', breaks='interlaced image data are embedded as if they were not interlaced'),
dict(id='c02-new-id-from-count', prop='C02',
 edits=[('pdf_data.go', "	newObjID := p.maxID() + 1\n", "	newObjID := p.Len() + 1\n")],
 test='''package pdft

import "testing"

func TestZZDemo(t *testing.T) {
	var p PDFData
	for _, id := range []int{1, 2, 4, 9} {
		p.put(PDFObjData{objID: id})
	}
	used := map[int]bool{1: true, 2: true, 4: true, 9: true}
	for i := 0; i < 8; i++ {
		id := p.putNewObject(PDFObjData{})
		if used[id] {
			t.Fatalf("the new object has the number %d, which is taken", id)
		}
		used[id] = true
	}
}
''', needs='a document whose object numbers have gaps', breaks='a new object gets a number that another object has'),
dict(id='c34-leading-space-lost', prop='C34', pkg='textbreak',
 edits=[('textbreak/basic_textbreak.go', "			tokens = append(tokens, tmp)\n			tokens = append(tokens, string(ru))\n", "			if tmp != \"\" {\n				tokens = append(tokens, tmp)\n				tokens = append(tokens, string(ru))\n			}\n")],
 test='''package textbreak

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var tb BasicTextbreak
	for _, s := range []string{"a b", "a  b", " a", "a ", "  "} {
		tokens, err := tb.BreakTextToToken(s)
		if err != nil {
			t.Fatal(err)
		}
		if got := strings.Join(tokens, ""); got != s {
			t.Fatalf("the tokens of %q make %q", s, got)
		}
	}
}
''', needs='two spaces in a row, or a space at the beginning', breaks='the tokens are not the whole text'),
dict(id='c33-kern-left-glyph', prop='C33', pkg='minigopdf',
 edits=[('minigopdf/cache_content_text.go', "		leftRuneIndex = glyphindex\n", "		if pairvalPdfUnit == 0 {\n			leftRuneIndex = glyphindex\n		}\n")],
 test='''package gopdf

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	pdf := GoPdf{}
	pdf.Start(Config{Unit: "pt", PageSize: Rect{W: 595.28, H: 841.89}})
	pdf.AddPage()
	if err := pdf.AddTTFFontWithOption("times", "test/res/times.ttf", TtfOption{UseKerning: true}); err != nil {
		t.Fatal(err)
	}
	if err := pdf.SetFont("times", "", 50); err != nil {
		t.Fatal(err)
	}
	f := pdf.curr.Font_ISubset
	if err := f.AddChars("WoWiWo"); err != nil {
		t.Fatal(err)
	}
	f.SetFuncKernOverride(func(left rune, right rune, leftIndex uint, rightIndex uint, val int16) int16 {
		want, err := f.CharIndex(left)
		if err != nil {
			t.Fatal(err)
		}
		if leftIndex != want {
			t.Errorf("kerning of %c and %c is looked up for glyph %d, not for %d", left, right, leftIndex, want)
		}
		return val
	})
	var out bytes.Buffer
	if _, _, _, err := createContent(f, "WoWiWo", 12, nil, &out); err != nil {
		t.Fatal(err)
	}
}
''', needs='three characters of which both pairs are kerned', breaks='the second pair is kerned as if the first character stood before it'),
]
