#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
I,H,C,F=["inputs"],["histories"],["configurations"],["fault_sequences"]

p("C01","Cross-reference table, trailer and startxref agree with the saved objects",
"In every file saved by the editing library, each in-use cross-reference entry holds the byte offset at which the object of that number begins, and the number after startxref is the byte offset of the table. The table has exactly one entry for each number from 0 to the highest object number, free numbers are written as free entries, and the trailer's Size is the number of entries and its Root is the catalog of the opened document.",
I+H,"every opened document and every sequence of edits before a save","Tests write files and at most reopen one; the parser finds tables by searching for text, so a wrong offset, count or Size is not noticed.",
["pdft.go"],[("offset recorded where the object header is written","pdft.go toStream"),("table, trailer and startxref","pdft.go xref")])
p("C02","New objects get object numbers that nothing else has",
"Every object that an edit or a save adds (copied pages, masks, palettes, font parts, images, the encryption dictionary) gets a number above every number in use in the document at that moment, and no two added objects share a number. References from one added object to another use exactly those numbers.",
I+H,"every opened document, any number of fonts, images, copies and saves","Tests never compare object numbers; collisions need particular combinations of fonts, images and protection.",
["pdft.go","pdf_data.go","pdf_font_data.go"],[("next number = maximum + 1","pdf_data.go putNewObject/maxID"),("running counter in the save","pdft.go build/toStream")])
p("C03","Embedded fonts are linked completely",
"For every embedded font the saved file contains a composite font object whose descendant is the CID font, whose descriptor is the font descriptor, whose font file is the embedded subset, and whose ToUnicode entry is the character map of that same font. All of them carry the same base font name, derived from the name the font was added under.",
I+C,"every font and any number of fonts in one document","No test resolves the references between font objects.",
["pdf_font_data.go","minigopdf/subset_font_obj.go","minigopdf/cid_font_obj.go","minigopdf/subfont_descriptor_obj.go"],[("numbers handed to each part","pdf_font_data.go build"),("references written","minigopdf/*_obj.go build")])
p("C04","Stream lengths match the stream data",
"In every stream object that the library writes (page content, embedded font file, character map, image, soft mask, palette) the Length entry is exactly the number of data bytes written after the stream keyword's line break. The embedded font file's Length1 is the number of bytes before compression.",
I+C,"every text, font and image; with and without compression","Tests do not decode the streams they write; most viewers repair a wrong length silently.",
["minigopdf/pdf_dictionary_obj.go","minigopdf/unicode_map.go","minigopdf/image_obj.go","minigopdf/smask_obj.go","minigopdf/content_obj.go","pdf_data.go"],[("length and data taken from the same buffer","every stream builder")])
p("C05","Compressed streams are complete and declared as compressed",
"Data that the library compresses is used only after the compressor was closed, and a stream is declared as Flate-compressed exactly when its data is zlib-compressed. Data that is uncompressed is never declared as compressed.",
I+C,"every font, image and compression level","A missing flush loses only the tail of large inputs; tests do not decompress.",
["minigopdf/pdf_dictionary_obj.go","minigopdf/image_obj_parse.go","minigopdf/content_obj.go","pdf_data.go"],[("Close before Bytes/Len","builders with zlib writers")])
p("C06","Text is drawn where, how large and in which colour it was requested",
"Inserted text is drawn with the current font, size and style at the requested place: horizontally left, centred or right-aligned in the given box, vertically at its top, middle or bottom, measured from the top of the page it was requested for, in the given colour (black when none is given). Underlining and the optional cell border follow the same box.",
I+C,"every position, size, alignment, style, colour and page height","Tests save files and never look at the operators written.",
["pdft.go","content_text.go","minigopdf/cache_content_text.go"],[("arguments stored with the text","pdft.go Insert"),("position and colour operators","minigopdf/cache_content_text.go")])
p("C07","Images are drawn where and as large as requested",
"Every inserted image is drawn once, scaled to exactly the requested width and height, with its upper left corner at the requested x and y measured from the top left of the requested page. The graphics state is saved before and restored after it.",
I,"every position, size and page height","Tests never inspect the drawing operators of images.",
["pdft.go","content_img_base64.go"],[("placement operator","content_img_base64.go toSteram")])
p("C08","The three ways to insert an image have the same effect",
"Inserting the same image as base64 text, as bytes, or as bytes with caching leaves the document with the same image object, the same soft mask and palette, and the same drawing at the same place. Caching only shares the image object between equal images; a cached image is drawn again at each place it was requested.",
I+H,"every image, position and order of insertions","Tests insert with each variant separately and compare nothing.",
["pdft.go","pdf_image_data.go"],[("three insertion entry points","pdft.go InsertImg*")])
p("C09","Drawn fonts and images are registered under the name they are drawn with",
"The resource name under which a font or image is drawn is the name registered for exactly that object in the resource dictionaries the save extends. Names given to new fonts and images differ from each other and from all names already there, and entries already there keep their name and target.",
I+H,"every document with existing fonts and images, any number of new ones","Tests use documents with few or no existing resources and do not resolve names.",
["pdf_data.go","crawl_result_font.go","crawl_result_x_object.go"],[("highest existing index + 1","pdf_data.go injectFontsToPDF/injectImgsToPDF")])
p("C10","Page operations produce exactly the requested page list",
"Removing a page removes that page only, keeping one page keeps that page only, and duplicating inserts a copy of the page directly after the given zero-based position (negative positions count from the end); all other pages keep their order. The page tree's Count is always the number of its Kids, and the reported number of pages is the number of pages in that list.",
I+H,"every document, page number, position and sequence of operations","Tests cover one document and one page number per operation.",
["pdft.go","pdf_data.go"],[("list edits","pdft.go DuplicatePageAfter/RemovePage/RemoveOtherPages"),("page tree update","pdft.go setPages")])
p("C11","Page numbers and positions outside the document give an error, not a crash",
"A page operation whose page number is not between 1 and the number of pages, or whose position is outside the page list, returns an error and leaves the document unchanged. Inserting text or images never crashes because of the page number.",
I+H,"every page number and position, including zero and negative ones","Tests use valid page numbers.",
["pdft.go"],[("range checks","pdft.go page operations"),("bounds check","pdft.go pageHeight")])
p("C12","Saving keeps existing page content and appends new content after it",
"On every page that gets new content, the existing content is kept in full and the new content follows it, in the order in which it was inserted and only on the requested page. Pages without new content keep their content streams unchanged.",
I+H,"every document, compressed or not, with one or several content streams","Tests do not compare page content before and after.",
["pdf_data.go"],[("extract, append, replace","pdf_data.go injectContentToPDF/extractStream")])
p("C13","Saving does not change the document",
"A save works on a copy: the opened document's objects, page list, pending insertions and registered fonts are the same after it. Saving twice therefore writes the same file twice, and edits after a save behave as if it had not happened.",
H,"every sequence of edits and saves","Tests save once.",
["pdft.go","pdf_data.go","minigopdf"],[("copies of the object lists","pdft.go build"),("object buffers rebuilt from scratch","minigopdf/*_obj.go build")])
p("C14","The same edits give the same file",
"The bytes written depend only on the document, the calls made and their arguments: never on map iteration order, time, randomness or earlier documents. The only exception is the generated owner password when protection is set without one.",
I+H,"every document and every run","Map order varies between runs only when there are several fonts, images or resource dictionaries; tests compare nothing.",
["pdft.go","pdf_data.go","crawl.go","render/render.go"],[("sorted iteration","sortedFontNames, crawl.objIDs")])
p("C15","A failed save leaves the destination untouched",
"Nothing is written to the destination of a save, and no file is created or truncated, before the complete new document was built without error. When building fails, the error is returned and the destination is as it was.",
F+I,"every failure while building","Tests have no failing saves.",
["pdft.go"],[("build into memory first","pdft.go Save/SaveTo")])
p("C16","Errors reach the caller",
"When a step that an editing, parsing or saving call depends on reports an error, the call returns an error. It never goes on as if the step had succeeded.",
F+I,"every failing step in every call","Tests only run paths on which nothing fails.",
["pdft.go","pdf_data.go","pdf_parse.go","minigopdf","minigopdf/fontmaker/core"],[("error results checked and returned","all packages")])
p("C17","A failed call leaves the document as it was",
"When inserting text or an image, measuring text, adding a font, setting the font, changing pages, setting protection or opening a document returns an error, the text, images, fonts and pages that a later save writes are those from before the call.",
F+H,"every failing call at every point of a history","Tests have no failing calls followed by a save.",
["pdft.go"],[("state changed only after the last step that can fail","pdft.go")])
p("C18","Protection covers every stream exactly once",
"When protection is set, every stream of the saved file is encrypted exactly once with the key of its own object number, whether it comes from the opened document or was added. The encryption dictionary itself is not encrypted, and the trailer refers to it if and only if protection is set.",
I+C,"every document, with any fonts, images and content","The one protection test checks that saving works, not what is encrypted.",
["pdft.go","pdf_obj_data.go"],[("loop over all objects","pdft.go build"),("encrypt","pdf_obj_data.go")])
p("C19","Encryption keys follow the PDF standard security handler",
"The owner and user entries, the permission value, the document key and the per-object keys are computed as the PDF standard security handler revision 2 prescribes, from passwords padded or cut to 32 bytes with the standard padding. The permission value written is the one that went into the key.",
I,"every pair of passwords, permission set and object number","One test calls the function; no test compares with the algorithm.",
["minigopdf/pdf_protection.go","minigopdf/encryption_obj.go"],[("key computation","minigopdf/pdf_protection.go")])
p("C20","Memory passed in by the caller is never modified",
"No call modifies bytes, slices or structures that the caller passed in, including the spare capacity of slices, and image or password bytes may be reused by the caller after the call without changing what is saved.",
I+H,"every argument of every call","Tests pass fresh slices and do not look at them again.",
["pdft.go","minigopdf/pdf_protection.go","pdf_image_data.go"],[("copies taken","padPassword, ReadAll in SetImage")])
p("C21","Documents do not share mutable state",
"Two documents never influence each other: no call on one changes anything that a call on another reads, so different documents can be used from different goroutines. Package-level variables are never modified after initialisation.",
["schedules","histories"],"every interleaving of calls on different documents","Tests use documents one after the other.",
["regex.go","crawl_result.go","minigopdf"],[("package variables are read only","all packages")])
p("C22","The editing library never terminates the process",
"No call of the editing, rendering or text-breaking packages ends the process or panics deliberately: whatever goes wrong is reported as an error.",
I+F,"every call and every failure","Tests stay on success paths.",
["pdft.go","render/render.go","minigopdf"],[("errors returned","all packages")])
p("C23","Font tables are read as the TrueType format defines them",
"Every font value the library uses (units per em, bounding box, ascents, descents, glyph count, advance widths, glyph locations, character map, underline, italic angle, kerning) is read from the table, offset, width and signedness that the TrueType specification defines.",
I,"every TrueType font","Tests use two fonts and check no metric except kerning.",
["minigopdf/fontmaker/core"],[("table readers","minigopdf/fontmaker/core/ttfparser*.go")])
p("C24","Glyph codes in text, widths and character map agree",
"Each character of an inserted text is written as the four-digit hexadecimal number of the glyph that the font maps it to; the width array of the embedded font has that glyph's advance width scaled to 1000 units per em, and its character map leads from that glyph back to the character.",
I+H,"every text and font","Tests do not decode text from the files they write.",
["minigopdf/cache_content_text.go","minigopdf/subset_font_obj.go","minigopdf/cid_font_obj.go","minigopdf/unicode_map.go"],[("one character-to-glyph map for all three","minigopdf/map_of_character_To_glyph_index.go")])
p("C25","Embedded font subsets contain every glyph that is used",
"The embedded font contains the outlines of glyph 0, of every glyph used and of every part of composite glyphs, at any nesting depth, each at the location its location table states. Its table directory is sorted and states for each table the offset, length and checksum of what is written.",
I,"every font and text","No test parses the embedded font.",
["minigopdf/pdf_dictionary_obj.go"],[("closure and table writer","minigopdf/pdf_dictionary_obj.go")])
p("C26","Image dictionaries describe the image",
"The dictionary of every image states the width, height, colour space, bits per component and filter of the image's own data; for PNG also the matching predictor parameters, transparency mask, palette reference and soft mask of the same size. Alpha channels are separated pixel by pixel from the colour data.",
I,"every JPEG and PNG of a supported kind","Tests parse a few images and check nothing but success.",
["minigopdf/image_obj_parse.go","minigopdf/image_obj.go","minigopdf/smask_obj.go"],[("image parsing and dictionary writer","minigopdf/image_obj_parse.go")])
p("C27","Wrapped text keeps all words in order, one line below the other",
"Wrapped text is split only at the breaks the text breaker gives, every piece ends up on exactly one line in its original order, lines follow each other at 1.2 times the font size, and each line is inserted with the box, page, alignment and colour of the call. Middle alignment centres the block of lines vertically; without a text breaker the text is inserted unwrapped.",
I,"every text, box width and text breaker","Tests render one text and check nothing.",
["pdft.go","textbreak/basic_textbreak.go"],[("line builder","pdft.go InsertWrapText")])
p("C28","Template fields are filled at the place defined for them",
"Filling a field by key draws the text or image with the font, size, page, position, size, alignment and wrapping that the field definition of that key states. A key without definition changes nothing and is not an error.",
I+C,"every set of field definitions and every key","The render test fills fields and checks nothing.",
["render/render.go","render/field_info.go"],[("lookup and forward","render/render.go")])
p("C29","Missing objects and entries are reported, not dereferenced",
"When an object, dictionary entry or font table that the document or font should contain is missing, the call returns an error or applies the documented default. It never uses a missing value as if it were there.",
I,"every incomplete document and font","Tests use complete documents.",
["pdf_data.go","pdf_parse.go","crawl.go","minigopdf/fontmaker/core"],[("lookups checked before use","findObjByID, getPropByKey, Seek")])
p("C30","Font names are unique and unknown fonts are refused",
"Adding a font under a name that is already taken returns an error and keeps the font that is there; selecting, overriding or using a font name that was not added returns an error. Selecting a font sets the name, style and size that later insertions use.",
I+H,"every sequence of adding, selecting and using fonts","Tests add each font once and use existing names.",
["pdft.go"],[("registry lookups","pdft.go AddFont/AddFontFrom/SetFont/TextriseOverride/KernOverride")])
p("C31","The bundled generator writes consistent files",
"In every file the bundled generator writes, the object numbered n is the nth object, each cross-reference entry holds its byte offset, Size is the number of objects plus one, and startxref is the offset of the table. Shapes, images and text are drawn at the requested coordinates measured from the top of the current page.",
I+H,"every document built with the generator","The generator tests write files and check nothing.",
["minigopdf/gopdf.go","minigopdf/content_obj.go"],[("compile loop and table","minigopdf/gopdf.go compilePdf/xref")])
p("C32","Opened files are closed",
"Every file the library opens is closed before the call that opened it returns, on success and on failure.",
I+F,"every call that opens a file, every outcome","A leaked descriptor does not fail a test.",
["pdft.go","minigopdf/image_obj.go"],[("deferred Close","pdft.go Open, minigopdf/image_obj.go SetImagePath")])
p("C33","Measured text width is the width of the text as drawn",
"The measured width of a text is the sum over its characters of the advance widths of their glyphs, plus kerning when it is on, scaled by the current font size over 1000. It is the width that alignment of the same text uses, and measuring draws nothing.",
I,"every text, font and size","One test checks one text.",
["pdft.go","content_text.go","minigopdf/cache_content_text.go"],[("shared width computation","minigopdf/cache_content_text.go createContent")])
p("C34","The basic text breaker loses nothing",
"The pieces the basic text breaker returns, joined together, are the text it was given, and each space is a piece of its own.",
I,"every text","Two tests check two texts.",
["textbreak/basic_textbreak.go"],[("tokenizer","textbreak/basic_textbreak.go")])
p("C35","Opening a document reads the objects the cross-reference table lists",
"Opening a document keeps every object that the cross-reference table lists as in use, under the number in its own header and with all bytes up to its endobj, and takes the catalog from the trailer. Page heights are those of the page's own or nearest inherited MediaBox.",
I,"every readable document","Tests open a handful of documents and count pages.",
["pdf_parse.go","pdf_obj_data.go","xref_data.go"],[("parsers","pdf_parse.go")])
p("C36","Any malformed document is rejected without a crash or hang",
"Opening or editing any byte sequence, however malformed, returns an error or succeeds, in bounded time and without a panic.",
I,"every byte sequence","Tests open well-formed files.",
["pdf_parse.go","pdf_obj_property_data.go"],[("none: parsing trusts the input","pdf_parse.go")])
p("C37","Saved documents render exactly as the original plus the insertions",
"Rendering a saved document shows every page exactly as the opened document's page with the inserted text and images painted over it.",
I+H,"every document and edit history","No renderer in the tests.",
["pdft.go","pdf_data.go"],[("content appended, resources extended","pdf_data.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
