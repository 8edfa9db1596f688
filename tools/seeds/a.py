HEAD = '''package pdft

import (
	"bytes"
	"testing"
	"os"
	"strings"
)

var _ = bytes.NewBuffer
var _ = os.ReadFile
var _ = strings.Contains

'''
SEEDS = [
dict(id='c20-password-alias', prop='C20', pkg='minigopdf',
 edits=[('minigopdf/pdf_protection.go', "dest := make([]byte, len(userPassWithPadding))\n\tcip.XORKeyStream(dest, userPassWithPadding)\n\treturn dest, nil", "dest := make([]byte, len(userPassWithPadding))\n\tcip.XORKeyStream(dest, userPassWithPadding)\n\tfor n := range ownerPassWithPadding {\n\t\townerPassWithPadding[n] = 0 //the padded password is not needed any more\n\t}\n\treturn dest, nil"),
  ('minigopdf/pdf_protection.go', "func padPassword(pass []byte) []byte {\n", "func padPassword(pass []byte) []byte {\n\tif len(pass) >= 32 {\n\t\treturn pass[0:32]\n\t}\n")],
 test='''package gopdf

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	owner := bytes.Repeat([]byte("o"), 40)
	var p PDFProtection
	if err := p.SetProtection(PermissionsPrint, []byte("user"), owner); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(owner, bytes.Repeat([]byte("o"), 40)) {
		t.Fatalf("the caller's password was changed: %q", owner)
	}
}
''', needs='an owner password of 32 bytes or more: only then the padded password is the caller\'s own memory', breaks='SetProtection overwrites the caller\'s password bytes'),
dict(id='c16-font-entry-skipped', prop='C16',
 edits=[('crawl_result_font.go', "		objID, _, err := prop.asDictionary()\n		if err != nil {\n			return err\n		}", "		objID, _, err := prop.asDictionary()\n		if err != nil {\n			continue\n		}")],
 test=HEAD+'''
func TestZZDemo(t *testing.T) {
	var fonts crawlResultFonts
	raw := []byte("<</F1 5 0 R /F2 <</Type /Font>> >>")
	if err := fonts.parse(&raw); err == nil {
		t.Fatalf("a font entry that cannot be read is dropped without an error: %v", fonts)
	}
}
''', needs='a font resource dictionary in which one font is a direct object', breaks='the entry that cannot be read is dropped from the rewritten font dictionary instead of failing the save'),
dict(id='c21-shared-regexp-cache', prop='C21',
 edits=[('textbreak/basic_textbreak.go', "func (BasicTextbreak) BreakTextToToken(text string) ([]string, error) {\n	var tokens []string\n", "var tokenBuff = make([]string, 0, 64) //avoids an allocation for each text\n\nfunc (BasicTextbreak) BreakTextToToken(text string) ([]string, error) {\n	tokens := tokenBuff\n")],
 pkg='textbreak',
 test='''package textbreak

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var tb BasicTextbreak
	a, _ := tb.BreakTextToToken("Hello World")
	b, _ := tb.BreakTextToToken("other text")
	_ = b
	if strings.Join(a, "") != "Hello World" {
		t.Fatalf("tokens of the first text changed: %q", a)
	}
}
''', needs='two texts broken one after the other while the first tokens are still in use', breaks='two documents share the token buffer: the second text overwrites the tokens of the first'),
dict(id='c14-fonts-in-map-order', prop='C14',
 edits=[('minigopdf/pdf_dictionary_obj.go', "	sort.Strings(tags) //order\n", "	sort.Slice(tags, func(a, b int) bool { return tags[a][0] < tags[b][0] }) //order\n")],
 pkg='minigopdf',
 test='''package gopdf

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var first []byte
	for n := 0; n < 40; n++ {
		var f SubsetFontObj
		f.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex()
		if err := f.SetTTFByPath("../test/ttf/Loma.ttf"); err != nil {
			t.Fatal(err)
		}
		if err := f.AddChars("Hello"); err != nil {
			t.Fatal(err)
		}
		var d PdfDictionaryObj
		d.SetPtrToSubsetFontObj(&f)
		b, err := d.makeFont()
		if err != nil {
			t.Fatal(err)
		}
		if first == nil {
			first = append([]byte{}, b...)
		} else if !bytes.Equal(first, b) {
			t.Fatal("the embedded font differs between two identical builds")
		}
	}
}
''', needs='two runs in which the map of tables is iterated in different orders (head before hhea before hmtx, fpgm)', breaks='tables whose tags begin with the same letter are written in map iteration order'),
dict(id='c15-save-creates-first', prop='C15',
 edits=[('pdft.go', "	var buff bytes.Buffer\n	err := i.SaveTo(&buff)\n	if err != nil {\n		return err\n	}\n	err = os.WriteFile(filepath, buff.Bytes(), 0644)\n	if err != nil {\n		return err\n	}\n	return nil\n", "	f, err := os.Create(filepath)\n	if err != nil {\n		return err\n	}\n	defer f.Close()\n	return i.SaveTo(f)\n")],
 test=HEAD+'''
func TestZZDemo(t *testing.T) {
	out := t.TempDir() + "/out.pdf"
	if err := os.WriteFile(out, []byte("precious"), 0644); err != nil {
		t.Fatal(err)
	}
	var p PDFt //nothing opened: building the new document fails
	if err := p.Save(out); err == nil {
		t.Fatal("expected an error")
	}
	b, err := os.ReadFile(out)
	if err != nil || string(b) != "precious" {
		t.Fatalf("the destination was touched by a failing save: %q %v", b, err)
	}
}
''', needs='a save that fails while the new document is built, onto a file that exists', breaks='the destination is truncated before the document is built'),
dict(id='c17-setfont-before-check', prop='C17',
 edits=[('pdft.go', "	if _, have := i.fontDatas[name]; !have {\n		return ErrFontNameNotFound\n	}\n	i.curr.fontName = name\n	i.curr.fontStyle = getConvertedStyle(style)\n	i.curr.fontSize = size\n	return nil\n", "	i.curr.fontSize = size\n	i.curr.fontStyle = getConvertedStyle(style)\n	if _, have := i.fontDatas[name]; have {\n		i.curr.fontName = name\n		return nil\n	}\n	return ErrFontNameNotFound\n")],
 test=HEAD+'''
func TestZZDemo(t *testing.T) {
	var p PDFt
	if err := p.Open("test/pdf/pdf_from_gopdf.pdf"); err != nil {
		t.Fatal(err)
	}
	if err := p.AddFont("arial", "test/ttf/Loma.ttf"); err != nil {
		t.Fatal(err)
	}
	if err := p.SetFont("arial", "", 14); err != nil {
		t.Fatal(err)
	}
	if err := p.SetFont("nosuchfont", "U", 99); err != ErrFontNameNotFound {
		t.Fatal(err)
	}
	if err := p.Insert("Hi", 1, 10, 10, 100, 100, Left|Top, nil); err != nil {
		t.Fatal(err)
	}
	b, err := p.contenters[len(p.contenters)-1].toSteram()
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), " 14 Tf") {
		t.Fatalf("a refused SetFont changed the size: %s", b.String())
	}
}
''', needs='SetFont with an unknown name, then an insertion', breaks='a refused SetFont still changes size and style'),
dict(id='c32-image-not-closed', prop='C32', pkg='minigopdf',
 edits=[('minigopdf/image_obj.go', "	defer file.Close()\n\n	err = i.SetImage(file)\n	if err != nil {\n		return err\n	}\n	return nil\n", "	err = i.SetImage(file)\n	if err != nil {\n		return err\n	}\n	return file.Close()\n")],
 test='''package gopdf

import (
	"os"
	"path/filepath"
	"testing"
)

func open(t *testing.T, p string) int {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Skip(err)
	}
	n := 0
	for _, e := range ents {
		if l, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name())); err == nil && l == p {
			n++
		}
	}
	return n
}

func TestZZDemo(t *testing.T) {
	dir := t.TempDir() //reading a directory fails after it was opened
	var i ImageObj
	if err := i.SetImagePath(dir); err == nil {
		t.Fatal("expected an error")
	}
	if n := open(t, dir); n != 0 {
		t.Fatalf("%d descriptors left open", n)
	}
}
''', needs='a path that opens but cannot be read', breaks='the file stays open when reading fails'),
]
