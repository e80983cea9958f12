import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=[observe]
    if state:a["state"]=state
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
p("P01","Every saved file is a structurally sound PDF",
"Whatever template was opened and whatever sequence of calls was made, the bytes written by Save/SaveTo form one consistent PDF: startxref points at the xref table, every in-use row points at the object with that number (white space before it allowed), unused numbers form a valid free list, /Size is one more than the highest number, no object number is defined twice, and no dictionary has a repeated key. Every stream's /Length equals its data length, every indirect reference resolves to an in-use object unless the template itself left it dangling, and the page tree's /Count, /Kids and /Parent agree.",
["inputs","histories"],"all classic-xref templates (any page-tree shape, resource layout, id gaps) x all sequences of font/text/image/page/protection calls",
"the repository tests only check that Save returns nil; soundness depends on the combination of template layout, id gaps, number of fonts and images, page operations and protection",
["pdft.go","pdf_data.go","pdf_font_data.go"],[("object assembly and xref writer","pdft.go: build, toStream, xref"),("id allocation","pdf_data.go: maxID, putNewObject; pdf_font_data.go: build")],"bytes written by SaveTo")
p("P02","Everything already in the template survives",
"Every object of the template that is not a page-tree node, page content stream or resource dictionary appears in the saved file with its dictionary entries and stream data unchanged. Every surviving page keeps all its dictionary entries and every font, XObject and other resource name it had, under the same name and referring to the same object, and its own content is kept operator for operator and drawn exactly as in the template, before anything inserted.",
["inputs","histories"],"all templates x all call sequences",
"depends on how each template spells its resources (inline, indirect, shared, inherited, unusual names, filters, arrays); tests use a handful of files and never compare content",
["pdf_data.go","pdf_obj_property_data.go","page_resources.go"],[("resource rewriting","pdf_data.go: injectFontsToPDF, injectImgsToPDF"),("content rewriting","pdf_data.go: injectContentToPDF, extractStream")],"objects and decoded page contents of the saved file compared with the template")
p("P03","Insertions land on the requested page, once, in call order",
"At save, page number n shows exactly the text and images inserted with page number n since the document was opened, each exactly once, in call order, drawn after the page's own template content. Items whose page number does not exist at save time are not drawn anywhere, and no other page gains marks.",
["histories","inputs"],"all interleavings of insertions on any page numbers with page removals and duplications, on any template shape",
"page numbers are resolved late, across page operations and nested page trees, Contents arrays and shared objects; only exploring histories reaches the combinations",
["pdft.go","pdf_data.go","contenter.go"],[("deferred contenters","pdft.go: Insert, InsertImg*"),("page resolution at save","pdf_data.go: injectContentToPDF, getPageObjIDs")],"interpreted content of each page of the saved file")
p("P04","Drawn text is exactly the text that was asked for",
"Each inserted string is drawn with the font, size and fill colour that were current/passed at the Insert call (nil colour means black up to rounding, RGB 0-255 maps to 0-1), and decoding the drawn glyph codes through the embedded font's own ToUnicode map and through the glyph-to-character correspondence of the font program gives back exactly the inserted characters in order (characters that the font maps to one glyph are interchangeable; BMP characters it lacks show its missing-glyph shape, others are refused). This holds independently of other strings, fonts, colours and template content on the page.",
["inputs","histories"],"all strings over the fonts' repertoires (BMP and beyond), all fonts, sizes, colours, styles and orders of insertion",
"colour and font state leak between items, glyph aliasing and resource-name clashes appear only for particular combinations",
["content_text.go","minigopdf/cache_content_text.go","minigopdf/unicode_map.go","minigopdf/subset_font_obj.go"],[("text drawing","minigopdf/cache_content_text.go: toStream, createContent"),("ToUnicode","minigopdf/unicode_map.go: pdfToUnicodeMap")],"text-showing operators with effective font/size/colour in the saved file")
p("P05","Text is positioned by its cell, alignment and page height",
"The baseline origin of an inserted string is determined by its rectangle: horizontally at the left edge, centred or right-aligned using the string's measured width, vertically with the ascender at the top, centred, or the descender at the bottom, and y is measured downwards from the top edge of the target page's MediaBox. Positions are exact to 0.01 point (plus font-unit rounding).",
["inputs"],"all rectangles, alignments, font sizes, strings, fonts and page heights",
"needs arithmetic over the whole parameter space against an independent layout model; tests never look at coordinates",
["minigopdf/cache_content_text.go","content_text.go","pdft.go"],[("cell layout","minigopdf/cache_content_text.go: calX, calY"),("page height","pdft.go: pageHeight; pdf_parse.go: parsePageSize")],"text matrices in the saved file")
p("P06","Underline, cell borders, text rise and kerning follow the settings",
"A string set with style U is underlined with one filled rectangle in the text's colour spanning the cell at the font's underline position and thickness, cell borders are stroked around the cell exactly for strings inserted while ShowCellBorder(true) is in effect, and text-rise and kern overrides registered for a font move exactly the glyphs they return values for. None of these settings changes how any other string is drawn.",
["inputs","histories"],"all sequences of SetFont styles, ShowCellBorder, TextriseOverride/KernOverride and insertions",
"requires tracking graphics and text state across every item of a page",
["minigopdf/cache_content_text.go","content_line_style.go","pdft.go"],[("decorations","minigopdf/cache_content_text.go: underline, drawBorder, createContent, kern, textrise"),("border state","pdft.go: ShowCellBorder")],"path, rise and TJ-adjustment operators in the saved file")
p("P07","The embedded font subset draws and measures like the original font",
"For every added font the saved file embeds a font program in which every drawn glyph, and every component a drawn glyph is built from at any depth, has exactly the outline and metrics it has in the original TrueType file. The declared width of every drawn glyph equals its scaled advance in the original font, and the descriptor metrics are the original's, rounded.",
["inputs"],"all TrueType fonts (short/long loca, format 4/12 cmap, nested composites, truncated hmtx, shared glyphs, optional tables absent) and all strings",
"defects depend on glyph ids, composition depth, table layout and which characters are combined",
["minigopdf/pdf_dictionary_obj.go","minigopdf/cid_font_obj.go","minigopdf/subset_font_obj.go","minigopdf/subfont_descriptor_obj.go","minigopdf/fontmaker/core/ttfparser.go"],[("subsetting","minigopdf/pdf_dictionary_obj.go: makeFont, makeGlyfAndLocaTable, completeGlyphClosure"),("character mapping","minigopdf/subset_font_obj.go: CharCodeToGlyphIndex*")],"FontFile2, /W, FontDescriptor of the saved file")
p("P08","Inserted images show the same pixels",
"Decoding the image object drawn for an inserted JPEG or PNG gives the size, colours and transparency of the source image, for every supported colour type, bit depth, palette, alpha channel, chunk layout and filter; the same bytes given raw, as base64 or through the cache give the same image. Data that is not a supported image is refused with an error.",
["inputs"],"all supported image encodings and sizes, through InsertImg, InsertImgWithCache and InsertImgBase64",
"PNG has dozens of encodings of which tests use one or two, and nothing in them decodes the output",
["minigopdf/image_obj_parse.go","minigopdf/image_obj.go","minigopdf/smask_obj.go","pdf_image_data.go"],[("PNG/JPEG parsing","minigopdf/image_obj_parse.go: paesePng, parseImgJpg, buildImgProp"),("soft mask","minigopdf/smask_obj.go")],"image XObjects of the saved file, decoded")
p("P09","Images are drawn where asked and resolve on their page",
"Each inserted image is painted on its page with its lower-left corner and size given by the requested rectangle measured from the top of the page, under a resource name that resolves on that page to exactly that image whatever XObjects the template already has. Repeating identical bytes through InsertImgWithCache embeds one shared image object, and different bytes never share one.",
["inputs","histories"],"all templates, numbers and orders of images, cached and uncached, on any pages",
"resource name collisions depend on names already used on any page of the template",
["pdft.go","pdf_data.go","content_img_base64.go","pdf_image_data.go"],[("placement","content_img_base64.go: toSteram"),("naming","pdf_data.go: injectImgsToPDF"),("cache","pdft.go: InsertImgWithCache")],"Do operators and resolved XObjects in the saved file")
p("P10","Removing pages leaves exactly the other pages, in order",
"RemovePage(n) removes exactly the n-th page and RemoveOtherPages(n) keeps exactly the n-th page, for every valid n and every page-tree shape; remaining pages keep their order, content and attributes, and GetNumberOfPage and the saved file agree. Invalid page numbers return the documented error and change nothing.",
["histories","inputs"],"all page counts, tree shapes and sequences of page operations",
"off-by-one and nesting errors need every position of every tree shape, before and after other operations",
["pdft.go","pdf_data.go"],[("page operations","pdft.go: RemovePage, RemoveOtherPages, setPages"),("page enumeration","pdf_data.go: getPageObjIDs")],"page list of the saved file and GetNumberOfPage")
p("P11","Duplicating a page inserts one independent copy at the position",
"DuplicatePageAfter(t, p) adds exactly one page showing the same content, resources and size as page t, immediately after the 0-based position p (negative p counts from the end), leaving all other pages as they were. Later insertions on the copy do not appear on the original or the reverse; invalid targets or positions return an error and change nothing.",
["histories","inputs"],"all targets, positions, tree shapes and following operations",
"independence shows only in later insertions and further duplications of copies",
["pdft.go","pdf_data.go"],[("duplication","pdft.go: DuplicatePageAfter, setPages"),("object copy","pdf_data.go: putNewObject")],"page list and contents of the saved file")
p("P12","Coordinates use the size of the page that has that number now",
"An insertion on page n measures y from the top of the page that is page n at the time of the call, including pages whose MediaBox is inherited, and after any removals, duplications or re-opening. Page sizes themselves are never changed by any operation.",
["histories","inputs"],"templates with differing page sizes (own or inherited MediaBox) x sequences of page operations and insertions",
"needs mixed page sizes combined with page operations",
["pdf_parse.go","pdft.go"],[("page sizes","pdf_parse.go: parsePageSize; pdft.go: pageHeight, setPages")],"text/image matrices and MediaBox in the saved file")
p("P13","Failing calls return errors and leave the document as it was",
"A call that cannot be honoured (unknown or duplicate font, no current font, missing character, bad page number or position, undecodable font/image/base64, failing text breaker, bad template) returns an error instead of panicking, and afterwards the document shows and behaves exactly as if the failing call had never been made (unused glyphs in an embedded font subset aside).",
["histories","inputs","fault_sequences"],"all erroneous calls at any point of any history",
"partial effects of failed calls are visible only in later saves",
["pdft.go","pdf_parse.go","pdf_font_data.go"],[("error paths","pdft.go: Insert, InsertWrapText, MeasureTextWidth, AddFont, page operations")],"returned errors and subsequently saved file")
p("P14","Saving never changes the document",
"Save/SaveTo may be called any number of times at any points of a session: each output equals the one a fresh session with the same preceding non-save calls would write, apart from object numbering, resource naming and random owner passwords. Saving twice in a row gives two equivalent files.",
["histories"],"all sessions with saves interleaved at any points, with and without protection, fonts and images",
"state mutated by save is only visible in a second save",
["pdft.go","pdf_font_data.go","pdf_data.go"],[("save","pdft.go: build, toStream"),("font buffers","pdf_font_data.go: build")],"successive saved files")
p("P15","Output can be re-opened and edited further",
"A file saved without protection can be opened again as a template with the same number of pages and sizes, and splitting a session at any point by saving and re-opening yields a document that shows the same pages as the unsplit session (fonts added again as needed; page numbers of earlier insertions are settled by the save). Nothing drawn earlier is lost, altered or renamed by later generations.",
["histories"],"all split points and up to several generations of re-opening",
"a multi-step history across two or more documents",
["pdft.go","pdf_parse.go","pdf_data.go"],[("parser","pdf_parse.go, pdf_obj_data.go"),("writer","pdft.go: toStream")],"interpreted pages of files of each generation")
p("P16","Protection encrypts everything and opens with either password",
"With SetProtection the saved file opens with the given user password and with the given owner password and with no other, declares exactly the requested permissions, and every stream and string of every object (template, fonts, images, masks, new content) decrypts to what the unprotected save would contain. The caller's password slices are not modified.",
["inputs","configurations"],"all permission sets, passwords (empty, short, long, sharing memory) and documents",
"needs an independent implementation of the standard security handler run over every object",
["minigopdf/pdf_protection.go","minigopdf/encryption_obj.go","pdf_obj_data.go","pdft.go"],[("key derivation","minigopdf/pdf_protection.go"),("object encryption","pdf_obj_data.go: encrypt; pdft.go: build, toStream")],"decrypted objects of the saved file")
p("P17","Measured width equals drawn width and measuring is free of effects",
"MeasureTextWidth returns the sum of the scaled advances of the string's characters (and kern overrides) at the current font and size, which equals the advance the drawn string has in the saved file; it is additive and proportional to size. Measuring draws nothing and changes nothing visible in the saved pages.",
["inputs","histories"],"all strings, fonts, sizes and interleavings with other calls",
"agreement between measuring and drawing is relational, over all strings",
["pdft.go","content_text.go","minigopdf/cache_content_text.go","minigopdf/subset_font_obj.go"],[("measuring","pdft.go: MeasureTextWidth; minigopdf/cache_content_text.go: createContent"),("advance","minigopdf/subset_font_obj.go: GlyphIndexToPdfWidth")],"returned width and drawn advances")
p("P18","Wrapped text keeps every word, fits the width and steps evenly",
"InsertWrapText draws the tokens of the text breaker in order, greedily filling lines: a line is broken only when the next token would exceed the width, no drawn line is wider than the width unless it is a single token, no blank line is drawn, and nothing but white space at line ends is dropped. Lines are 1.2 font sizes apart starting at y, and with Middle the block is shifted up by half its height less half a line; a nil breaker is a plain Insert.",
["inputs"],"all texts, widths, alignments, fonts and text breakers",
"line breaking is a state machine over token widths whose corner cases (overlong tokens, repeated spaces, empty tokens) are combinatorial",
["pdft.go","textbreak/basic_textbreak.go"],[("wrapping","pdft.go: InsertWrapText"),("tokens","textbreak/basic_textbreak.go: BreakTextToToken")],"drawn lines in the saved file and tokens returned")
p("P19","Rendering by field map equals the direct calls",
"Render.Text and Render.ImgBase64 for a known key produce exactly the document that SetFont with Insert or InsertWrapText (with the configured breaker) or InsertImgBase64 would produce with that field's page, rectangle, alignment, font and size; an unknown key changes nothing and is not an error, and a failing call fails as the direct calls do. ShowDesignView draws '#key' in a bordered cell for every field.",
["inputs","histories"],"all field maps and sequences of Text/ImgBase64 calls",
"equivalence of two APIs over all field maps and histories",
["render/render.go","render/field_info.go"],[("field map","render/render.go: Text, ImgBase64, ShowDesignView; render/field_info.go: toMap")],"saved file of the Render compared with the model of direct calls")
p("P20","Document instances never influence each other",
"Using any number of PDFt instances, interleaved in one goroutine or concurrently, sharing templates, font bytes and images, gives each the same result as running it alone, without data races; opening another template on a used instance gives the same result as on a new one (only protection settings persist).",
["schedules","histories"],"all interleavings of two or more sessions, and all re-open points",
"interference depends on the schedule",
["pdft.go","minigopdf/subset_font_obj.go","pdf_parse.go"],[("instance state","pdft.go: PDFt, OpenFrom"),("package state","regex.go, minigopdf/*")],"saved files of interleaved sessions, race detector")
p("P21","Every way in and out is equivalent and I/O faults are reported",
"Open/OpenFrom, AddFont/AddFontFrom and Save/SaveTo are equivalent, whatever chunk sizes the readers and writers use. A read error while opening or adding a font, or a write error while saving, is returned, and the instance then behaves as if the failed call had not been made.",
["inputs","fault_sequences"],"all chunkings and fault positions of readers and writers, at any point of a session",
"fault positions and retry-after-fault histories are not sampled by tests",
["pdft.go","pdf_parse.go","minigopdf/fontmaker/core/ttfparser.go"],[("entry points","pdft.go: Open, OpenFrom, AddFont, AddFontFrom, Save, SaveTo")],"errors returned and files saved afterwards")
p("P22","Page dictionary entries survive parsing and rewriting",
"When a page, page-tree node or resource dictionary is rewritten, every entry the library does not own keeps its key and its value, for all legal PDF spellings: literal strings with brackets, slashes and escapes, hex strings, names with special characters, nested dictionaries and arrays, any white space or none between tokens, and any entry order.",
["inputs"],"all dictionaries built from the PDF object grammar in all spacings",
"a character-level parser: defects need particular token adjacencies",
["pdf_obj_property_data.go","pdf_obj_data.go"],[("property parser","pdf_obj_property_data.go: readProperties, parseProps.loop"),("rewriting","pdf_obj_data.go: setProperties")],"rewritten dictionaries in the saved file, parsed independently")
p("P23","The bundled PDF writer emits what was drawn",
"A document made with the bundled gopdf writer (pages of any sizes, text, cells, lines, rectangles, ovals, curves, colours, images, fonts, protection) is structurally sound and shows on each page exactly the drawn items in call order at the requested positions, and the current X/Y cursor advances by exactly the drawn width (or height) as documented. Writing it more than once gives the same document.",
["histories","inputs"],"all sequences of drawing calls over several pages",
"cursor, caching of text runs and id bookkeeping depend on the history of calls",
["minigopdf/gopdf.go","minigopdf/content_obj.go","minigopdf/list_cache_content.go","minigopdf/cache_content_text.go"],[("writer","minigopdf/gopdf.go: compilePdf, prepare, xref"),("content list","minigopdf/list_cache_content.go: appendContentText")],"bytes from GetBytesPdf, GetX/GetY")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x, s if s.get('type')=='object' else s)
    assert len(x['title'])<=80
print(len(P))
