From 5ba2687eb65766c4cd79ef964d63ca72a0512427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:25 +0000
Subject: [PATCH 01/50] fix: page operations reject invalid page numbers and
 RemoveOtherPages keeps the requested page

RemoveOtherPages(n) kept page n+1 (and panicked for the last page);
non-positive page numbers and out-of-range positions panicked.
---
 pdft.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pdft.go b/pdft.go
index ebbb481..4c06022 100644
--- a/pdft.go
+++ b/pdft.go
@@ -121,7 +121,13 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
+		return ErrNoDesiredPageToCopy
+	}
+	if position < 0 {
+		position = len(pageObjIds) + position // like python
+	}
+	if position < 0 || len(pageObjIds) <= position {
 		return ErrNoDesiredPageToCopy
 	}
 
@@ -145,9 +151,6 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 
 	pageID := i.pdf.putNewObject(pageObj)
 
-	if position < 0 {
-		position = len(pageObjIds) + position // like python
-	}
 	pageObjIds = append(pageObjIds, 0)
 	copy(pageObjIds[position+1:], pageObjIds[position:])
 	pageObjIds[position+1] = pageID
@@ -161,7 +164,7 @@ func (i *PDFt) RemovePage(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToRemove
 	}
 	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
@@ -176,11 +179,11 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToKeep
 	}
 
-	return i.setPages([]int{pageObjIds[targetPageNumber]})
+	return i.setPages([]int{pageObjIds[targetPageNumber-1]})
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-- 
2.43.0


From dde0bba0adeed0251b97400785e57ad9eebf3a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:07 +0000
Subject: [PATCH 02/50] fix: DuplicatePageAfter copies pages whose Contents is
 an array of streams

---
 pdft.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/pdft.go b/pdft.go
index 4c06022..a7a8871 100644
--- a/pdft.go
+++ b/pdft.go
@@ -141,12 +141,33 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if pageContent == nil {
 		return ErrNoContentsProperty
 	}
-	contentID, _, err := pageContent.asDictionary()
-	if err != nil {
-		return err
+	var contentIDs []int
+	isArray := pageContent.valType() == array
+	if isArray {
+		contentIDs, _, err = pageContent.asDictionaryArr()
+		if err != nil {
+			return err
+		}
+	} else {
+		contentID, _, err := pageContent.asDictionary()
+		if err != nil {
+			return err
+		}
+		contentIDs = append(contentIDs, contentID)
+	}
+	for _, contentID := range contentIDs {
+		if i.pdf.getObjByID(contentID) == nil {
+			return ErrNoContentsProperty
+		}
+	}
+	for n, contentID := range contentIDs {
+		contentIDs[n] = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
+	}
+	if isArray {
+		pageContent.setAsDictionaryArr(contentIDs, nil)
+	} else {
+		pageContent.setAsDictionary(contentIDs[0], 0)
 	}
-	contentID = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
-	pageContent.setAsDictionary(contentID, 0)
 	pageObj.setProperties(props)
 
 	pageID := i.pdf.putNewObject(pageObj)
-- 
2.43.0


From cd5d5679a4b74ad4d33f513f954540724242d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:10 +0000
Subject: [PATCH 03/50] fix: saving no longer changes the document

build() shared the object slice with the opened pdf, so a second Save
appended all content twice (and encrypted twice), and the buffers of the
font objects were never cleared.
---
 pdf_font_data.go | 7 +++++++
 pdft.go          | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/pdf_font_data.go b/pdf_font_data.go
index ce7d668..cf70a72 100644
--- a/pdf_font_data.go
+++ b/pdf_font_data.go
@@ -88,6 +88,13 @@ func (p *PDFFontData) build() (int, error) {
 	//dictionary
 	p.dictionary.SetPtrToSubsetFontObj(&p.font)
 
+	//clear result of previous build
+	p.font.GetObjBuff().Reset()
+	p.cid.GetObjBuff().Reset()
+	p.unicodeMap.GetObjBuff().Reset()
+	p.fontDesc.GetObjBuff().Reset()
+	p.dictionary.GetObjBuff().Reset()
+
 	var err error
 	err = p.font.Build(p.fontID)
 	if err != nil {
diff --git a/pdft.go b/pdft.go
index a7a8871..4eecc5c 100644
--- a/pdft.go
+++ b/pdft.go
@@ -632,6 +632,9 @@ func (i *PDFt) build() (*PDFData, int, error) {
 	}
 
 	newpdf := i.pdf //copy
+	//objects will be changed below, must not share them with i.pdf
+	newpdf.objIDs = append([]int{}, i.pdf.objIDs...)
+	newpdf.objs = append([]PDFObjData{}, i.pdf.objs...)
 
 	err = newpdf.injectFontsToPDF(i.fontDatas)
 	if err != nil {
-- 
2.43.0


From e86711998b7661037b54ac1ad8dfc49a698b3dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:57 +0000
Subject: [PATCH 04/50] fix: inserted content goes to a content stream of its
 own

Appending to the (first) content stream of the page lost content on pages
without /Contents, drew before the rest of a /Contents array, drew on all
pages sharing the stream, and damaged streams starting with white space,
using /Filter [..] or any filter other than FlateDecode.
---
 pdf_data.go              | 167 ++++++++++-----------------------------
 pdf_obj_property_data.go |   5 +-
 pdft.go                  |  24 ++----
 3 files changed, 51 insertions(+), 145 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index e0339ca..f09e66e 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -2,10 +2,8 @@ package pdft
 
 import (
 	"bytes"
-	"compress/zlib"
 	"errors"
 	"fmt"
-	"io"
 	"strconv"
 	"strings"
 )
@@ -425,150 +423,69 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			return err
 		}
 	}
-	pageObjIDs, _ := p.getPageObjIDs()
-	objMustReplaces := make(map[int]string)
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
 	for pageIndex, pageObjID := range pageObjIDs {
-
-		var cw2Content crawl
-		cw2Content.set(p, pageObjID, "Contents")
-		err = cw2Content.run()
+		pageBuff, ok := pageBuffs[pageIndex+1]
+		if !ok {
+			continue
+		}
+		props, err := p.getObjByID(pageObjID).readProperties()
 		if err != nil {
 			return err
 		}
-
-		for _, r := range cw2Content.results {
-
-			//fmt.Printf("%s\n\n", r.String())
-
-			var propContentsVal string
-			// fmt.Printf("id=%d\n", id)
-			propContentsVal, err = r.valOf("Contents")
-			// fmt.Printf("%d propContentsVal=%s\n\n", 0, r.String())
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			}
-
-			propContentsValType := propertyType(propContentsVal)
-			/*if propContentsValType != dictionary {
-				return errors.New("not support /Contents type not dictionary yet")
-			}*/
-			var contentsObjID int
-			if propContentsValType == dictionary {
-				contentsObjID, _, err = readObjIDFromDictionary(propContentsVal)
-				if err != nil {
-					return err
-				}
-			} else if propContentsValType == array {
-				contentsObjIDs, _, err := readObjIDFromDictionaryArr(propContentsVal)
-				if err != nil || len(contentsObjIDs) <= 0 {
-					return err
-				}
-				contentsObjID = contentsObjIDs[0]
-			} else {
-				return errors.New("not support /Contents type not dictionary,array yet")
-			}
-
-			data := &p.getObjByID(contentsObjID).data
-			zip := true
-			propContentsObj, err := readProperty(data, "FlateDecode")
-			if err != nil {
-				return err
-			}
-			if propContentsObj == nil {
-				zip = false
-			}
-
-			var stm *bytes.Buffer
-			//fmt.Printf("\n-------------------%d-----------------------\n%s\n\n", contentsObjID, string(*data))
-			stmLen, err := streamLength(p, data)
-			if err != nil {
-				return err
-			}
-
-			stm, err = extractStream(data, stmLen, zip)
-			if err != nil {
-				return err
-			}
-			//fmt.Printf("stm=%s\n\n", stm.String())
-
-			if _, ok := pageBuffs[pageIndex+1]; ok {
-				stm.WriteString("\n")
-				pageBuffs[pageIndex+1].WriteTo(stm)
-				objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
-			}
-
+		contentsObjIDs, err := p.contentsObjIDs(props)
+		if err != nil {
+			return err
 		}
-	}
 
-	for objID := range objMustReplaces {
-		//_ = objID
-		//fmt.Printf("objID=%d\n", objID)
-		p.getObjByID(objID).data = []byte("" + objMustReplaces[objID] + "")
-		//fmt.Printf("objId=%d %s\n", objID, string(p.getObjByID(objID).data))
+		//put new content in a new stream after all of streams of the page, page content may be shared
+		//with other pages, use any filter or not exist.
+		var contentObj PDFObjData
+		contentObj.data = []byte(fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%s\nendstream", pageBuff.Len(), pageBuff.String()))
+		contentsObjIDs = append(contentsObjIDs, p.putNewObject(contentObj))
+		if props.getPropByKey("Contents") == nil {
+			props.append(PDFObjPropertyData{key: "Contents"})
+		}
+		props.getPropByKey("Contents").setAsDictionaryArr(contentsObjIDs, nil)
+		p.getObjByID(pageObjID).setProperties(props)
 	}
 
 	return nil
 }
 
-func streamLength(p *PDFData, data *[]byte) (int, error) {
-
-	prop, err := readProperty(data, "Length")
-	if err != nil {
-		return 0, err
+// contentsObjIDs get IDs of content streams of the page
+func (p *PDFData) contentsObjIDs(pageProps *PDFObjPropertiesData) ([]int, error) {
+	contents := pageProps.getPropByKey("Contents")
+	if contents == nil {
+		return nil, nil
 	}
-	if prop == nil {
-		prop, err = readProperty(data, "Length1")
+	raw := strings.TrimSpace(contents.rawVal)
+	if propertyType(raw) != array {
+		id, _, err := readObjIDFromDictionary(raw)
 		if err != nil {
-			return 0, err
+			return nil, err
 		}
-		if prop == nil {
-			return 0, errors.New("/Length or /Length1 not found")
+		obj := p.getObjByID(id)
+		if obj == nil {
+			return nil, nil
 		}
-	}
-
-	propType := prop.valType()
-	if propType == number {
-		return strconv.Atoi(strings.TrimSpace(prop.rawVal))
-	} else if propType == dictionary {
-		objID, _, err := prop.asDictionary()
-		if err != nil {
-			return 0, err
+		raw = strings.TrimSpace(string(obj.data))
+		if propertyType(raw) != array { //not array of streams
+			return []int{id}, nil
 		}
-		fontlengthObj := p.getObjByID(objID)
-		return strconv.Atoi(strings.TrimSpace(string(fontlengthObj.data)))
-	} else {
-		return 0, errors.New("/Length or /Length1  wrong type")
 	}
-
+	if strings.Trim(raw, "[] \r\n\t") == "" {
+		return nil, nil
+	}
+	ids, _, err := readObjIDFromDictionaryArr(raw)
+	return ids, err
 }
 
 var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
-func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
-
-	index := bytes.Index(*b, extractStreamBytes)
-	offset := len(extractStreamBytes)
-	tmp := (*b)[index+offset:]
-	tmp = bytes.TrimSpace(tmp)
-	tmp = tmp[0:length]
-	var buff bytes.Buffer
-	buff.Write(tmp)
-	if !zip {
-		return &buff, nil
-	}
-	r, err := zlib.NewReader(&buff)
-	if err != nil {
-		return nil, err
-	}
-	defer r.Close()
-	var out bytes.Buffer
-	_, err = io.Copy(&out, r)
-	if err != nil {
-		return nil, err
-	}
-	return &out, nil
-}
-
 func findMaxFontIndex(cw *crawl, p *PDFData) (int, error) {
 	//find max font index
 	max := 0
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index bbe0127..7562e49 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -176,12 +176,15 @@ func readObjIDFromDictionaryArr(str string) ([]int, []int, error) {
 	str = strings.Replace(str, "[", "", -1)
 	str = strings.Replace(str, "]", "", -1)
 	str = strings.TrimSpace(str)
-	tokens := strings.Split(str, " ")
+	tokens := strings.Fields(str)
 	var objIDs []int
 	var revisions []int
 
 	i := 0
 	max := len(tokens)
+	if max%3 != 0 {
+		return nil, nil, ErrorObjectIDNotFound
+	}
 	for i < max {
 		objID, err := strconv.Atoi(strings.TrimSpace(tokens[i]))
 		if err != nil {
diff --git a/pdft.go b/pdft.go
index 4eecc5c..9d29f7b 100644
--- a/pdft.go
+++ b/pdft.go
@@ -141,19 +141,9 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if pageContent == nil {
 		return ErrNoContentsProperty
 	}
-	var contentIDs []int
-	isArray := pageContent.valType() == array
-	if isArray {
-		contentIDs, _, err = pageContent.asDictionaryArr()
-		if err != nil {
-			return err
-		}
-	} else {
-		contentID, _, err := pageContent.asDictionary()
-		if err != nil {
-			return err
-		}
-		contentIDs = append(contentIDs, contentID)
+	contentIDs, err := i.pdf.contentsObjIDs(props)
+	if err != nil {
+		return err
 	}
 	for _, contentID := range contentIDs {
 		if i.pdf.getObjByID(contentID) == nil {
@@ -163,11 +153,7 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	for n, contentID := range contentIDs {
 		contentIDs[n] = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
 	}
-	if isArray {
-		pageContent.setAsDictionaryArr(contentIDs, nil)
-	} else {
-		pageContent.setAsDictionary(contentIDs[0], 0)
-	}
+	pageContent.setAsDictionaryArr(contentIDs, nil)
 	pageObj.setProperties(props)
 
 	pageID := i.pdf.putNewObject(pageObj)
@@ -698,7 +684,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		}
 	}
 
-	return &newpdf, nextID, nil
+	return &newpdf, newpdf.maxID(), nil
 }
 
 func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
-- 
2.43.0


From a1bc5a8bd01d5ec14a3d0717f1936bc7ed70e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 05/50] fix: new fonts are added to the resources of every page
 under fresh names

Names of template fonts were rewritten (TT1_0 -> TT10, F01 -> F1), names
without digit made Save fail, shared /Resources objects got duplicated
keys, and pages without /Font, with inherited /Resources or deep in the
page tree did not get the font at all.
---
 crawl_result_font.go       |  61 -------------
 page_resources.go          | 172 +++++++++++++++++++++++++++++++++++++
 pdf_data.go                | 110 +++---------------------
 pdf_obj_data.go            |   4 +-
 pdf_obj_properties_data.go |  11 +++
 5 files changed, 197 insertions(+), 161 deletions(-)
 create mode 100644 page_resources.go

diff --git a/crawl_result_font.go b/crawl_result_font.go
index 23ece59..9a1c23d 100644
--- a/crawl_result_font.go
+++ b/crawl_result_font.go
@@ -1,15 +1,12 @@
 package pdft
 
 import (
-	"bytes"
 	"fmt"
 	"strconv"
 	"strings"
 	"unicode"
 )
 
-type crawlResultFonts []crawlResultFont
-
 var ErrNoFontIndex = fmt.Errorf("no font index")
 
 // Split a font string like '/F1' or '/TT2' into the prefix and index
@@ -28,61 +25,3 @@ func splitFont(s string) (string, int, error) {
 	}
 	return "", 0, ErrNoFontIndex
 }
-
-func (c *crawlResultFonts) parse(propVal *[]byte) error {
-	var props PDFObjPropertiesData
-	err := readProperties(propVal, &props)
-	if err != nil {
-		return err
-	}
-
-	for _, prop := range props {
-		var crFont crawlResultFont
-
-		prefix, fontIndex, err := splitFont(strings.TrimSpace(prop.key))
-		if err != nil {
-			return err
-		}
-		objID, _, err := prop.asDictionary()
-		if err != nil {
-			return err
-		}
-		crFont.prefix = prefix
-		crFont.fontIndex = fontIndex
-		crFont.fontObjID = objID
-		*c = append(*c, crFont)
-	}
-	return nil
-}
-
-func (c *crawlResultFonts) String() string {
-	var buff bytes.Buffer
-	for _, f := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R\n", f.prefix, f.fontIndex, f.fontObjID))
-	}
-	return buff.String()
-}
-
-func (c *crawlResultFonts) append(fontIndex int, fontObjID int) {
-	var crFont crawlResultFont
-	crFont.fontIndex = fontIndex
-	crFont.fontObjID = fontObjID
-	crFont.prefix = "F"
-	*c = append(*c, crFont)
-}
-
-func (c *crawlResultFonts) maxFontIndex() int {
-	max := 0
-	for _, f := range *c {
-		if f.fontIndex > max {
-			max = f.fontIndex
-		}
-	}
-	return max
-}
-
-type crawlResultFont struct {
-	fontIndex int
-	fontObjID int
-	prefix    string
-}
diff --git a/page_resources.go b/page_resources.go
new file mode 100644
index 0000000..1417862
--- /dev/null
+++ b/page_resources.go
@@ -0,0 +1,172 @@
+package pdft
+
+import (
+	"errors"
+	"fmt"
+	"strings"
+)
+
+// maxParentDepth protect against loop of /Parent
+const maxParentDepth = 64
+
+// inheritedProp get property of the page, or of the nearest ancestor that has it.
+// return ID of the object that holds the property.
+func (p *PDFData) inheritedProp(pageObjID int, key string) (int, *PDFObjPropertyData, error) {
+	id := pageObjID
+	for depth := 0; depth < maxParentDepth; depth++ {
+		obj := p.getObjByID(id)
+		if obj == nil {
+			break
+		}
+		props, err := obj.readProperties()
+		if err != nil {
+			return 0, nil, err
+		}
+		if prop := props.getPropByKey(key); prop != nil {
+			return id, prop, nil
+		}
+		parent := props.getPropByKey("Parent")
+		if parent == nil {
+			break
+		}
+		id, _, err = parent.asDictionary()
+		if err != nil {
+			break
+		}
+	}
+	return 0, nil, nil
+}
+
+// pageResourceNames get all names in category (Font, XObject ...) of /Resources of all pages
+func (p *PDFData) pageResourceNames(category string) ([]string, error) {
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return nil, err
+	}
+	var names []string
+	for _, pageObjID := range pageObjIDs {
+		_, resources, err := p.inheritedProp(pageObjID, "Resources")
+		if err != nil {
+			return nil, err
+		}
+		if resources == nil {
+			continue
+		}
+		resourcesProps, err := p.dictionaryProps(resources.rawVal)
+		if err != nil {
+			return nil, err
+		}
+		items := resourcesProps.getPropByKey(category)
+		if items == nil {
+			continue
+		}
+		itemProps, err := p.dictionaryProps(items.rawVal)
+		if err != nil {
+			return nil, err
+		}
+		for _, prop := range *itemProps {
+			names = append(names, strings.TrimSpace(prop.key))
+		}
+	}
+	return names, nil
+}
+
+// dictionaryProps read properties of inline dictionary or of object that raw refer to
+func (p *PDFData) dictionaryProps(raw string) (*PDFObjPropertiesData, error) {
+	var props PDFObjPropertiesData
+	if propertyType(raw) == object {
+		data := []byte(raw)
+		err := readProperties(&data, &props)
+		return &props, err
+	}
+	id, _, err := readObjIDFromDictionary(raw)
+	if err != nil {
+		return nil, err
+	}
+	obj := p.getObjByID(id)
+	if obj == nil {
+		return &props, nil
+	}
+	return obj.readProperties()
+}
+
+// addPageResources add new items to category (Font, XObject ...) of /Resources of every page
+func (p *PDFData) addPageResources(category string, items PDFObjPropertiesData) error {
+	if len(items) == 0 {
+		return nil
+	}
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
+	done := make(map[string]bool) //dictionary can be shared by many pages
+	for _, pageObjID := range pageObjIDs {
+		holderID, resources, err := p.inheritedProp(pageObjID, "Resources")
+		if err != nil {
+			return err
+		}
+		if resources == nil {
+			holderID = pageObjID
+		}
+		err = p.addItemsAt(holderID, []string{"Resources", category}, items, done)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// addItemsAt add items to the dictionary that found by following path from object
+func (p *PDFData) addItemsAt(objID int, path []string, items PDFObjPropertiesData, done map[string]bool) error {
+	key := fmt.Sprintf("%d/%s", objID, strings.Join(path, "/"))
+	if done[key] {
+		return nil
+	}
+	done[key] = true
+
+	obj := p.getObjByID(objID)
+	if obj == nil {
+		return errors.New("object of resources not found")
+	}
+	props, err := obj.readProperties()
+	if err != nil {
+		return err
+	}
+	err = p.addItems(props, path, items, done)
+	if err != nil {
+		return err
+	}
+	obj.setProperties(props)
+	return nil
+}
+
+func (p *PDFData) addItems(props *PDFObjPropertiesData, path []string, items PDFObjPropertiesData, done map[string]bool) error {
+	if len(path) == 0 {
+		*props = append(*props, items...)
+		return nil
+	}
+
+	prop := props.getPropByKey(path[0])
+	if prop == nil {
+		props.append(PDFObjPropertyData{key: path[0], rawVal: "<<>>"})
+		prop = props.at(props.size() - 1)
+	}
+	if prop.valType() != object { //refer to other object
+		id, _, err := prop.asDictionary()
+		if err != nil {
+			return err
+		}
+		return p.addItemsAt(id, path[1:], items, done)
+	}
+
+	subProps, err := p.dictionaryProps(prop.rawVal)
+	if err != nil {
+		return err
+	}
+	err = p.addItems(subProps, path[1:], items, done)
+	if err != nil {
+		return err
+	}
+	prop.rawVal = "<<" + subProps.String() + ">>"
+	return nil
+}
diff --git a/pdf_data.go b/pdf_data.go
index f09e66e..72b1963 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -338,67 +338,28 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 }
 
 func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
-	var err error
-	cw, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "Font")
+	names, err := p.pageResourceNames("Font")
 	if err != nil {
 		return err
 	}
-
-	maxFontIndex, err := findMaxFontIndex(cw, p)
-	if err != nil {
-		return err
+	maxFontIndex := 0
+	for _, name := range names {
+		_, index, err := splitFont(name)
+		if err == nil && index > maxFontIndex {
+			maxFontIndex = index
+		}
 	}
 
-	var newCrFonts crawlResultFonts //font ใหม่ที่จะยัดเข้าไป
+	var newFonts PDFObjPropertiesData //font ใหม่ที่จะยัดเข้าไป
 	for _, pdffontdata := range fontDatas {
 		maxFontIndex++
-		newCrFonts.append(maxFontIndex, pdffontdata.fontID)
 		pdffontdata.setFontIndex(maxFontIndex)
+		newFonts.append(PDFObjPropertyData{
+			key:    fmt.Sprintf("F%d", maxFontIndex),
+			rawVal: fmt.Sprintf("%d 0 R", pdffontdata.fontID),
+		})
 	}
-
-	objMustReplaces := make(map[int]string)
-	//หา obj ที่ต้องยัด font ใหม่ลงไป
-	for objID, r := range cw.results { //วน แต่ละ ojb
-		fontPropVal, err := r.valOf("Font")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		}
-
-		fontPropValType := propertyType(fontPropVal)
-		if fontPropValType == object {
-			var crFonts crawlResultFonts
-			tmp := []byte(fontPropVal)
-			err = crFonts.parse(&tmp)
-			if err != nil {
-				return err
-			}
-			crFonts = append(crFonts, newCrFonts...)
-			r.setValOf("Font", "<<\n"+crFonts.String()+">>\n")
-			objMustReplaces[objID] = r.String()
-		} else if fontPropValType == dictionary {
-			var fontObjID int
-			fontObjID, _, err = readObjIDFromDictionary(fontPropVal)
-			if err != nil {
-				return err
-			}
-			var crFonts crawlResultFonts
-			fontObj := p.getObjByID(fontObjID)
-			err = crFonts.parse(&fontObj.data)
-			if err != nil {
-				return err
-			}
-			crFonts = append(crFonts, newCrFonts...)
-			objMustReplaces[fontObjID] = crFonts.String()
-		}
-	}
-
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
-	}
-
-	return nil
+	return p.addPageResources("Font", newFonts)
 }
 
 func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
@@ -486,51 +447,6 @@ func (p *PDFData) contentsObjIDs(pageProps *PDFObjPropertiesData) ([]int, error)
 
 var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
-func findMaxFontIndex(cw *crawl, p *PDFData) (int, error) {
-	//find max font index
-	max := 0
-	for _, item := range cw.results {
-		fontPropVal, err := item.valOf("Font")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return 0, err
-		}
-
-		var crFonts crawlResultFonts
-		fontPropValType := propertyType(fontPropVal)
-		if fontPropValType == object {
-			tmp := []byte(fontPropVal)
-			err = crFonts.parse(&tmp)
-			if err != nil {
-				return 0, err
-			}
-			//fmt.Printf("%#v\n", crFonts)
-		} else if fontPropValType == dictionary {
-			var fontObjID int
-			fontObjID, _, err = readObjIDFromDictionary(fontPropVal)
-			if err != nil {
-				return 0, err
-			}
-			fontObj := p.getObjByID(fontObjID)
-			err = crFonts.parse(&fontObj.data)
-			if err != nil {
-				return 0, err
-			}
-			//fmt.Printf("%#v\n", crFonts)
-		} else {
-			return 0, errors.New("not support /Font type array yet")
-		}
-
-		maxFontIndex := crFonts.maxFontIndex()
-		if maxFontIndex > max {
-			max = maxFontIndex
-		}
-	}
-
-	return max, nil
-}
-
 func objIDFromStartObjLine(line string) (int, error) {
 	tokens := strings.Fields(line)
 	if len(tokens) < 3 {
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 719a34a..c7adb1b 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -57,9 +57,7 @@ func (p *PDFObjData) readProperties() (*PDFObjPropertiesData, error) {
 func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 	var data bytes.Buffer
 	data.WriteString("<<\n")
-	for _, prop := range *props {
-		data.WriteString("/" + prop.key + " " + prop.rawVal)
-	}
+	data.WriteString(props.String())
 	data.WriteString(">>\n")
 	p.data = data.Bytes()
 }
diff --git a/pdf_obj_properties_data.go b/pdf_obj_properties_data.go
index 95ec842..106b9a9 100644
--- a/pdf_obj_properties_data.go
+++ b/pdf_obj_properties_data.go
@@ -1,5 +1,7 @@
 package pdft
 
+import "strings"
+
 // PDFObjPropertiesData array of PDFObjPropertyData
 type PDFObjPropertiesData []PDFObjPropertyData
 
@@ -23,3 +25,12 @@ func (p *PDFObjPropertiesData) getPropByKey(key string) *PDFObjPropertyData {
 func (p *PDFObjPropertiesData) at(i int) *PDFObjPropertyData {
 	return &(*p)[i]
 }
+
+// String write properties in pdf format
+func (p *PDFObjPropertiesData) String() string {
+	var sb strings.Builder
+	for _, prop := range *p {
+		sb.WriteString("/" + prop.key + " " + prop.rawVal)
+	}
+	return sb.String()
+}
-- 
2.43.0


From e1f1c28a92a306ffe0cc5b1df704a1bb9b394024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:42 +0000
Subject: [PATCH 06/50] fix: images get fresh XObject names in the resources of
 every page

XObject names with other characters than letters+digits were dropped or
renamed, the new index only looked at the last entry (name collisions),
and only the resources of one arbitrary page received the image. The
crawler that rewrote the resources is not needed any more.
---
 crawl.go                 | 103 -------------------
 crawl_result.go          | 130 ------------------------
 crawl_result_x_object.go |  61 -----------
 pdf_data.go              | 213 +++------------------------------------
 4 files changed, 16 insertions(+), 491 deletions(-)
 delete mode 100644 crawl.go
 delete mode 100644 crawl_result.go
 delete mode 100644 crawl_result_x_object.go

diff --git a/crawl.go b/crawl.go
deleted file mode 100644
index 4cdab91..0000000
--- a/crawl.go
+++ /dev/null
@@ -1,103 +0,0 @@
-package pdft
-
-type crawl struct {
-	//setup
-	pdf   *PDFData
-	objID int
-	paths []string
-
-	//result
-	index int
-
-	//onCrawl     funcOnCrawl
-	results map[int]*crawlResult
-}
-
-func (c *crawl) resultByObjID(id int) *crawlResult {
-	if r, ok := c.results[id]; ok {
-		return r
-	}
-	c.results[id] = new(crawlResult)
-	return c.results[id]
-}
-
-func (c *crawl) set(pdf *PDFData, objID int, p ...string) {
-
-	c.pdf = pdf
-	c.objID = objID
-	c.paths = p
-	//init
-	c.results = make(map[int]*crawlResult)
-}
-
-func (c *crawl) run() error {
-	objdata := c.pdf.getObjByID(c.objID)
-	err := c.next(&objdata.data, 0, c.objID, c.resultByObjID(c.objID))
-	return err
-}
-
-func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
-
-	lenPath := len(c.paths)
-	if lenPath <= i {
-
-		return nil
-	}
-
-	var err error
-	var props PDFObjPropertiesData
-	err = readProperties(data, &props)
-	if err != nil {
-		return err
-	}
-
-	//var cr crawlResult
-	for _, prop := range props {
-		var item crawlResultItem
-		item.key = prop.key
-		if prop.key != c.paths[i] {
-			item.setValStr(prop.rawVal)
-		} else {
-			propType := prop.valType()
-			if propType == dictionary {
-				var objID int
-				item.setValStr(prop.rawVal)
-				objID, _, err = prop.asDictionary()
-				if err != nil {
-					return err
-				}
-				objdata := c.pdf.getObjByID(objID)
-				err = c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
-				if err != nil {
-					return err
-				}
-			} else if propType == array {
-				var objIDs []int
-				item.setValStr(prop.rawVal)
-				objIDs, _, err = prop.asDictionaryArr()
-				if err != nil {
-					return err
-				}
-				for _, objID := range objIDs {
-					objdata := c.pdf.getObjByID(objID)
-					c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
-				}
-			} else if propType == object {
-				if lenPath <= i+1 {
-					item.setValStr(prop.rawVal)
-				} else {
-					var subCr crawlResult
-					item.setValCr(&subCr)
-					tmp := []byte(prop.rawVal)
-					err = c.next(&tmp, i+1, -1, &subCr)
-					if err != nil {
-						return err
-					}
-				}
-			}
-		}
-		cr.items = append(cr.items, item)
-	}
-
-	return nil
-}
diff --git a/crawl_result.go b/crawl_result.go
deleted file mode 100644
index d0d86ed..0000000
--- a/crawl_result.go
+++ /dev/null
@@ -1,130 +0,0 @@
-package pdft
-
-import (
-	"bytes"
-	"errors"
-	"fmt"
-	"strings"
-)
-
-type crawlResult struct {
-	items []crawlResultItem
-}
-
-func (c *crawlResult) String() string {
-	var buff bytes.Buffer
-	loopCrawlResultString(&buff, c)
-	return buff.String()
-}
-
-// ErrCrawlResultValOfNotFound CrawlResult Val Of Not Found
-var ErrCrawlResultValOfNotFound = errors.New("CrawlResult Val Of Not Found")
-
-func (c *crawlResult) valOf(key string) (string, error) {
-	return loopValOf(c, key)
-}
-
-func (c *crawlResult) setValOf(key string, val string) error {
-	return loopSetValOf(c, key, val)
-}
-
-func (c *crawlResult) add(key string, val string) error {
-	var item crawlResultItem
-	item.key = key
-	item.valStr = val
-	item.typeOfVal = typeOfValStr
-	//fmt.Printf("key===%s\n", key)
-	c.items = append(c.items, item)
-	return nil
-}
-
-func loopSetValOf(cr *crawlResult, key string, val string) error {
-	for i := range cr.items {
-		item := &cr.items[i]
-		if item.typeOfVal == typeOfValStr {
-			if item.key == key {
-				item.setValStr(val)
-				return nil
-			}
-		} else if item.typeOfVal == typeOfValCr {
-			v, _ := item.getValCr()
-			return loopSetValOf(v, key, val)
-		}
-	}
-	return ErrCrawlResultValOfNotFound
-}
-
-func loopValOf(cr *crawlResult, key string) (string, error) {
-	//fmt.Printf("\n#####%s\n", key)
-	for _, item := range cr.items {
-		if item.typeOfVal == typeOfValStr {
-			//fmt.Printf("key=%s\n", item.key)
-			if item.key == key {
-				v, err := item.getValStr()
-				if err != nil {
-					return "", err
-				}
-				return v, nil
-			}
-		} else if item.typeOfVal == typeOfValCr {
-			v, err := item.getValCr()
-			if err != nil {
-				return "", err
-			}
-			return loopValOf(v, key)
-		}
-	}
-	return "", ErrCrawlResultValOfNotFound
-}
-
-func loopCrawlResultString(buff *bytes.Buffer, cr *crawlResult) {
-	for _, item := range cr.items {
-		buff.WriteString(fmt.Sprintf("/%s ", item.key))
-		if item.typeOfVal == typeOfValStr {
-			if strings.TrimSpace(item.valStr) != "" {
-				buff.WriteString(fmt.Sprintf("%s\n", item.valStr))
-			}
-		} else if item.typeOfVal == typeOfValCr {
-			buff.WriteString("\n\t<<")
-			loopCrawlResultString(buff, item.valCr)
-			buff.WriteString(">>\n")
-		}
-	}
-}
-
-var typeOfValStr = "str"
-var typeOfValCr = "cr" //crawlResult
-
-type crawlResultItem struct {
-	key       string
-	typeOfVal string
-	valCr     *crawlResult
-	valStr    string
-}
-
-// ErrWrongTypeOfVal wrong type of val
-var ErrWrongTypeOfVal = errors.New("wrong type of val")
-
-func (c *crawlResultItem) getValCr() (*crawlResult, error) {
-	if c.typeOfVal != typeOfValCr {
-		return nil, ErrWrongTypeOfVal
-	}
-	return c.valCr, nil
-}
-
-func (c *crawlResultItem) getValStr() (string, error) {
-	if c.typeOfVal != typeOfValStr {
-		return "", ErrWrongTypeOfVal
-	}
-	return c.valStr, nil
-}
-
-func (c *crawlResultItem) setValStr(v string) {
-	c.typeOfVal = typeOfValStr
-	c.valStr = v
-}
-
-func (c *crawlResultItem) setValCr(v *crawlResult) {
-	c.typeOfVal = typeOfValCr
-	c.valCr = v
-}
diff --git a/crawl_result_x_object.go b/crawl_result_x_object.go
deleted file mode 100644
index ca895a0..0000000
--- a/crawl_result_x_object.go
+++ /dev/null
@@ -1,61 +0,0 @@
-package pdft
-
-import (
-	"bytes"
-	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
-)
-
-type crawlResultXObjects []crawlResultXObject
-
-var regSplit = regexp.MustCompile("([a-z A-Z]*)([0-9]*)")
-
-func (c *crawlResultXObjects) parse(propVal *[]byte) error {
-	var props PDFObjPropertiesData
-	err := readProperties(propVal, &props)
-	if err != nil {
-		return err
-	}
-
-	for _, prop := range props {
-		//fmt.Printf("\t %#v\n", prop)
-		tokens := regSplit.FindStringSubmatch(prop.key)
-		if len(tokens) < 3 {
-			continue
-		}
-
-		var xObj crawlResultXObject
-		xObj.xObjChar = tokens[1]
-		xObjIndex, err := strconv.Atoi(strings.TrimSpace(tokens[2]))
-		if err != nil {
-			return err
-		}
-		xObj.xObjIndex = xObjIndex
-
-		xObjObjID, _, err := readObjIDFromDictionary(prop.rawVal)
-		if err != nil {
-			return err
-		}
-
-		xObj.xObjObjID = xObjObjID
-		*c = append(*c, xObj)
-	}
-
-	return nil
-}
-
-func (c *crawlResultXObjects) String() string {
-	var buff bytes.Buffer
-	for _, xObj := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R", xObj.xObjChar, xObj.xObjIndex, xObj.xObjObjID))
-	}
-	return buff.String()
-}
-
-type crawlResultXObject struct {
-	xObjChar  string
-	xObjIndex int
-	xObjObjID int
-}
diff --git a/pdf_data.go b/pdf_data.go
index 72b1963..432824f 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -74,34 +74,6 @@ func (p *PDFData) getObjByID(objID int) *PDFObjData {
 	return nil
 }
 
-// getPageCrawl use crawl, supporting for page nesting
-func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
-	var cw crawl
-	pagePath := append([]string{"Pages"}, path...)
-	cw.set(p, objID, pagePath...)
-	cw.run()
-	checkedQueue := []int{}
-	for k := range cw.results {
-		checkedQueue = append(checkedQueue, k)
-	}
-	for len(checkedQueue) > 0 {
-		key := checkedQueue[0]
-		if s := cw.results[key].String(); strings.Contains(s, "/Pages") && strings.Contains(s, "/Parent") {
-			var subCw crawl
-			subCw.set(p, key, path...)
-			subCw.run()
-			for k, v := range subCw.results {
-				cw.results[k] = v
-				if _, ok := cw.results[k]; !ok {
-					checkedQueue = append(checkedQueue, k)
-				}
-			}
-		}
-		checkedQueue = checkedQueue[1:]
-	}
-	return &cw, nil
-}
-
 // getPageObjIDs get page obj IDs
 func (p *PDFData) getPageObjIDs() ([]int, error) {
 	results := []int{}
@@ -158,183 +130,30 @@ func (p *PDFData) maxID() int {
 }
 
 func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
-	var err error
-	isEmbedResources := false
-	rootOfXObjectID := -1
-	resourcesContent := ""
-	cwRes, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources")
-	//if err != nil {
-	//	return err
-	//}
-	foundRes := false
-	for resID, r := range cwRes.results {
-		resources, err := r.valOf("Resources")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		} else {
-			foundRes = true
-			resourcesID, _, err := readObjIDFromDictionary(resources)
-			if err == ErrorObjectIDNotFound {
-				rootOfXObjectID = resID
-				resourcesContent = resources
-				isEmbedResources = true
-			} else if err != nil {
-				return err
-			} else {
-				rootOfXObjectID = resourcesID
-				data := p.getObjByID(resourcesID)
-				if data != nil {
-					resourcesContent = string(data.data)
-				}
-				isEmbedResources = false
-			}
-			break
-		}
-	}
-
-	if !foundRes {
-		return errors.New("not found /Resources in /Type/Pages")
-	}
-
-	var cw crawl
-	//cw.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources", "XObject")
-	cw.set(p, rootOfXObjectID, "XObject")
-	err = cw.run()
+	names, err := p.pageResourceNames("XObject")
 	if err != nil {
 		return err
 	}
-
-	found := false
-	xObjectVals := make(map[int]string)
-	for objID, r := range cw.results {
-		xobject, err := r.valOf("XObject")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		} else {
-			xObjectVals[objID] = xobject
-			found = true
-		}
-	}
-
-	if !found { //ถ้ายังไม่เจออีก
-		cw2, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
-		cw = *cw2
-		if err != nil {
-			return err
-		}
-		for objID, r := range cw.results {
-			xobject, err := r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			} else {
-				xObjectVals[objID] = xobject
-				found = true
-			}
-		}
-	}
-
-	var xobjs crawlResultXObjects
-	var xObjIndex int
 	xObjChar := "I"
-	if found {
-		for _, xObjectVal := range xObjectVals {
-			propVal := []byte(xObjectVal)
-			xobjs.parse(&propVal)
-			if len(xobjs) > 0 {
-				xObjChar = xobjs[len(xobjs)-1].xObjChar
-				if xobjs[len(xobjs)-1].xObjIndex > xObjIndex {
-					xObjIndex = xobjs[len(xobjs)-1].xObjIndex
-				}
-			}
-		}
-	}
-
-	i := 0
-	max := len(pdfImgs)
-	for i < max {
-		objID := pdfImgs[i].objID
-		pdfImgs[i].xObjChar = xObjChar
-		pdfImgs[i].xObjIndex = xObjIndex + i + 1
-
-		var xobj crawlResultXObject
-		xobj.xObjChar = xObjChar
-		xobj.xObjIndex = xObjIndex + i + 1
-		xobj.xObjObjID = objID
-		xobjs = append(xobjs, xobj)
-		i++
-	}
-
-	objMustReplaces := make(map[int]string)
-	if found {
-		for objID, r := range cw.results {
-			var oldXObjectStr string
-			oldXObjectStr, err = r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			}
-			var newXObjs crawlResultXObjects
-			bOldXObjectStr := []byte(oldXObjectStr)
-			newXObjs.parse(&bOldXObjectStr)
-			for _, xobj := range xobjs { // pick new item from xobjs into newXObjs
-				isExisted := false
-				for _, existedXObj := range newXObjs {
-					if existedXObj.xObjChar == xobj.xObjChar && existedXObj.xObjIndex == xobj.xObjIndex { // Avoid conflict of same xObjIndex when editing emerged pdf
-						isExisted = true
-						break
-					}
-				}
-				if !isExisted {
-					newXObjs = append(newXObjs, xobj)
-				}
-			}
-			r.setValOf("XObject", fmt.Sprintf("<<%s>>\n", newXObjs.String()))
-			objMustReplaces[objID] = r.String()
-		}
-	} else {
-		if isEmbedResources {
-			var cw01 crawl
-			cw01.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources")
-			err = cw01.run()
-			if err != nil {
-				return err
-			}
-			for objID, r := range cw01.results {
-				res, err := r.valOf("Resources")
-				if err == ErrCrawlResultValOfNotFound {
-					continue
-				} else if err != nil {
-					return err
-				} else {
-					res = strings.TrimSpace(res)
-					res = fmt.Sprintf("%s /XObject <<%s>>", res[2:len(res)-2], xobjs.String())
-					r.setValOf("Resources", fmt.Sprintf("<<%s>>\n", res))
-					objMustReplaces[objID] = r.String()
-				}
-			}
-		} else {
-			for objID, r := range cw.results {
-				res := strings.TrimSpace(resourcesContent)
-				res = fmt.Sprintf("<<%s>>\n", xobjs.String())
-				r.add("XObject", res)
-				objMustReplaces[objID] = r.String()
-				//fmt.Printf("%s\n", r.String())
-			}
+	xObjIndex := 0
+	for _, name := range names {
+		index, err := strconv.Atoi(strings.TrimPrefix(name, xObjChar))
+		if err == nil && index > xObjIndex {
+			xObjIndex = index
 		}
 	}
 
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
+	var newXObjs PDFObjPropertiesData
+	for _, pdfImg := range pdfImgs {
+		xObjIndex++
+		pdfImg.xObjChar = xObjChar
+		pdfImg.xObjIndex = xObjIndex
+		newXObjs.append(PDFObjPropertyData{
+			key:    fmt.Sprintf("%s%d", xObjChar, xObjIndex),
+			rawVal: fmt.Sprintf("%d 0 R", pdfImg.objID),
+		})
 	}
-
-	return nil
+	return p.addPageResources("XObject", newXObjs)
 }
 
 func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
-- 
2.43.0


From 31a4afcd9da7c2180b4cb3b02914fa657a93d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:24 +0000
Subject: [PATCH 07/50] fix: the last definition of an object wins in
 incrementally updated templates

The first definition (or the one with /Annots) was used and changed while
both were written to the output, so updates of the template and
insertions could be lost.
---
 pdf_data.go  | 15 +--------------
 pdf_parse.go |  5 +++++
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 432824f..b7d0fbf 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -53,24 +53,11 @@ func (p *PDFData) removeObjByID(objID int) error {
 
 // GetObjByID get obj by objid
 func (p *PDFData) getObjByID(objID int) *PDFObjData {
-	// if pdf exists annotations, it will have multiple same objIDs. So, need find the right one.
-	indexArr := []int{}
 	for i, id := range p.objIDs {
 		if id == objID {
-			indexArr = append(indexArr, i)
+			return &p.objs[i]
 		}
 	}
-	if len(indexArr) == 1 {
-		return &p.objs[indexArr[0]]
-	} else if len(indexArr) > 1 {
-		result := &p.objs[indexArr[0]]
-		for _, i := range indexArr {
-			if props, err := (&p.objs[i]).readProperties(); err == nil && props.getPropByKey("Annots") != nil {
-				result = &p.objs[i]
-			}
-		}
-		return result
-	}
 	return nil
 }
 
diff --git a/pdf_parse.go b/pdf_parse.go
index d5d314a..f8f898f 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -179,6 +179,11 @@ func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
 			if err != nil {
 				return err
 			}
+			if old := pdf.getObjByID(pdfobj.objID); old != nil {
+				//pdf was updated incrementally (e.g. annotations), the last one is the right one
+				*old = pdfobj
+				continue
+			}
 			pdf.put(pdfobj)
 		}
 	}
-- 
2.43.0


From 3324718c03a51141b230e4dcc8df098240e0b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:59 +0000
Subject: [PATCH 08/50] fix: templates whose MediaBox is inherited or indirect
 can be opened

Open dereferenced nil when the page itself has no /MediaBox.
---
 pdf_parse.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pdf_parse.go b/pdf_parse.go
index f8f898f..97f3e7f 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -2,7 +2,6 @@ package pdft
 
 import (
 	"errors"
-	"fmt"
 	"io"
 	"io/ioutil"
 	"strconv"
@@ -53,20 +52,32 @@ func parsePageSize(pdf *PDFData) error {
 	}
 
 	for n, pageID := range pageIDs {
-		data := pdf.getObjByID(pageID).data
-		propContentsObj, err := readProperty(&data, "MediaBox")
+		_, mediaBox, err := pdf.inheritedProp(pageID, "MediaBox")
 		if err != nil {
 			return err
 		}
-		valType := propContentsObj.valType()
-		if valType != array {
-			fmt.Printf("MediaBox type is not array, but %s", valType)
+		if mediaBox == nil {
 			continue
 		}
-		parseMediaBoxd, err := parseFloatSlice(propContentsObj.rawVal)
+		raw := mediaBox.rawVal
+		if mediaBox.valType() != array { //refer to other object
+			id, _, err := mediaBox.asDictionary()
+			if err != nil {
+				return err
+			}
+			obj := pdf.getObjByID(id)
+			if obj == nil {
+				continue
+			}
+			raw = string(obj.data)
+		}
+		parseMediaBoxd, err := parseFloatSlice(raw)
 		if err != nil {
 			return err
 		}
+		if len(parseMediaBoxd) != 4 {
+			return errors.New("bad MediaBox")
+		}
 		pdf.pageSizes[n] = parseMediaBoxd
 	}
 	return nil
-- 
2.43.0


From bb25aa66fe3f556631f8d945653da3713bd0eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:03 +0000
Subject: [PATCH 09/50] fix: page operations keep page sizes and the page tree
 consistent

After RemovePage, RemoveOtherPages and DuplicatePageAfter the page sizes
were still those of the old page numbers, and pages of nested page trees
were moved below the root without updating /Parent.
---
 page_resources.go | 31 +++++++++++++++++++++++++++++++
 pdft.go           | 10 +++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/page_resources.go b/page_resources.go
index 1417862..129a28d 100644
--- a/page_resources.go
+++ b/page_resources.go
@@ -37,6 +37,37 @@ func (p *PDFData) inheritedProp(pageObjID int, key string) (int, *PDFObjProperty
 	return 0, nil, nil
 }
 
+// setPageParent change /Parent of the page, properties that inherited from old parents are kept
+func (p *PDFData) setPageParent(pageObjID int, parentObjID int) error {
+	pageObj := p.getObjByID(pageObjID)
+	props, err := pageObj.readProperties()
+	if err != nil {
+		return err
+	}
+	parent := props.getPropByKey("Parent")
+	if parent == nil {
+		props.append(PDFObjPropertyData{key: "Parent"})
+		parent = props.at(props.size() - 1)
+	} else if id, _, err := parent.asDictionary(); err == nil && id == parentObjID {
+		return nil
+	}
+	parent.setAsDictionary(parentObjID, 0)
+	for _, key := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
+		if props.getPropByKey(key) != nil {
+			continue
+		}
+		holderID, prop, err := p.inheritedProp(pageObjID, key)
+		if err != nil {
+			return err
+		}
+		if prop != nil && holderID != parentObjID {
+			props.append(*prop)
+		}
+	}
+	pageObj.setProperties(props)
+	return nil
+}
+
 // pageResourceNames get all names in category (Font, XObject ...) of /Resources of all pages
 func (p *PDFData) pageResourceNames(category string) ([]string, error) {
 	pageObjIDs, err := p.getPageObjIDs()
diff --git a/pdft.go b/pdft.go
index 9d29f7b..115b2a5 100644
--- a/pdft.go
+++ b/pdft.go
@@ -211,7 +211,15 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
 	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
 	pagesObj.setProperties(props)
-	return nil
+
+	//every page is a kid of rootPagesID now
+	for _, pageObjID := range pageObjIds {
+		err = i.pdf.setPageParent(pageObjID, rootPagesID)
+		if err != nil {
+			return err
+		}
+	}
+	return parsePageSize(&i.pdf)
 }
 
 // GetNumberOfPage get number of page
-- 
2.43.0


From 8d39c87a68b3173d1b09f7e028958f5737480436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:57 +0000
Subject: [PATCH 10/50] fix: opening a template on a used PDFt starts a fresh
 document

Objects, inserted contents and images of the previous template were kept,
and a failed Open dropped the fonts of the current document.
---
 pdft.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pdft.go b/pdft.go
index 115b2a5..f8d9aeb 100644
--- a/pdft.go
+++ b/pdft.go
@@ -99,15 +99,19 @@ func (i *PDFt) Open(filepath string) error {
 
 // OpenFrom open pdf from io.Reader
 func (i *PDFt) OpenFrom(r io.Reader) error {
-	//init
-	i.fontDatas = make(map[string]*PDFFontData)
-	i.curr.lineWidth = 1.0
-	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
 	//open
-	err := PDFParse(r, &i.pdf)
+	var pdf PDFData
+	err := PDFParse(r, &pdf)
 	if err != nil {
 		return err
 	}
+	//init
+	i.pdf = pdf
+	i.fontDatas = make(map[string]*PDFFontData)
+	i.pdfImgs = nil
+	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+	i.contenters = nil
+	i.curr = current{lineWidth: 1.0}
 
 	i.ShowCellBorder(false)
 
-- 
2.43.0


From 2bcd8e4056909ea12040fea26c174c84bda9022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:24 +0000
Subject: [PATCH 11/50] fix: malformed templates and calls before Open return
 errors instead of panicking

---
 pdf_data.go     | 43 ++++++++++++++++++++++++++++++++++++++-----
 pdf_obj_data.go |  3 +++
 pdf_parse.go    | 21 +++++----------------
 pdft.go         | 23 ++++++++++++++++-------
 4 files changed, 62 insertions(+), 28 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index b7d0fbf..a9ecc14 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -61,19 +61,47 @@ func (p *PDFData) getObjByID(objID int) *PDFObjData {
 	return nil
 }
 
+// rootPagesID get ID of root of page tree
+func (p *PDFData) rootPagesID() (int, error) {
+	rootObj := p.getObjByID(p.trailer.rootObjID)
+	if rootObj == nil {
+		return 0, errors.New("/Root not found")
+	}
+	props, err := rootObj.readProperties()
+	if err != nil {
+		return 0, err
+	}
+	pages := props.getPropByKey("Pages")
+	if pages == nil {
+		return 0, errors.New("/Pages not found")
+	}
+	id, _, err := pages.asDictionary()
+	if err != nil {
+		return 0, err
+	}
+	if p.getObjByID(id) == nil {
+		return 0, errors.New("/Pages not found")
+	}
+	return id, nil
+}
+
 // getPageObjIDs get page obj IDs
 func (p *PDFData) getPageObjIDs() ([]int, error) {
 	results := []int{}
-	rootProps, _ := p.getObjByID(p.trailer.rootObjID).readProperties()
-	rootPagesID, _, _ := rootProps.getPropByKey("Pages").asDictionary()
+	rootPagesID, err := p.rootPagesID()
+	if err != nil {
+		return nil, err
+	}
 	objProps := map[int]*PDFObjPropertiesData{} // cache props
 	getObjProps := func(id int) *PDFObjPropertiesData {
 		if v, ok := objProps[id]; ok {
 			return v
 		}
-		if data, err := p.getObjByID(id).readProperties(); err == nil {
-			objProps[id] = data
-			return objProps[id]
+		if obj := p.getObjByID(id); obj != nil {
+			if data, err := obj.readProperties(); err == nil {
+				objProps[id] = data
+				return objProps[id]
+			}
 		}
 		return nil
 	}
@@ -92,9 +120,14 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 		}
 		return false
 	}
+	visited := map[int]bool{}
 	var visit func(id int) // Preorder Traversal, supporting for page nesting
 	visit = func(id int) {
 		if kids := getKids(id); kids != nil {
+			if visited[id] { //loop in page tree
+				return
+			}
+			visited[id] = true
 			for _, kid := range kids {
 				visit(kid)
 			}
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index c7adb1b..12ab5e5 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -16,6 +16,9 @@ type PDFObjData struct {
 
 func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 
+	if stratoffset < 0 || stratoffset > len(*raw) {
+		return errors.New("bad offset of obj")
+	}
 	tmp := (*raw)[stratoffset:]
 	endObjIndex := regexpEndObj.FindAllIndex(tmp, 1)
 	if len(endObjIndex) <= 0 {
diff --git a/pdf_parse.go b/pdf_parse.go
index 97f3e7f..c2d5d72 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -104,24 +104,12 @@ func parseFloatSlice(s string) ([]float64, error) {
 }
 
 func setPagesObj(pdf *PDFData) error {
-	pagesProps, err := pdf.getObjByID(pdf.trailer.rootObjID).readProperties()
-	if err != nil {
-		return err
-	}
-	pagesProp := pagesProps.getPropByKey("Pages")
-	if pagesProp == nil {
-		return errors.New("/Pages not found")
-	}
-	pagesID, _, err := pagesProp.asDictionary()
+	pagesID, err := pdf.rootPagesID()
 	if err != nil {
 		return err
 	}
 
-	pagesObj := pdf.getObjByID(pagesID)
-	if err != nil {
-		return err
-	}
-	pdf.pagesObj = pagesObj
+	pdf.pagesObj = pdf.getObjByID(pagesID)
 	return nil
 }
 
@@ -132,12 +120,13 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 		return errors.New("trailer not found")
 	}
 
-	indexStartxrefs := regexpStartxref.FindAllIndex(*raw, 1)
+	tmp := (*raw)[indexTrailers[0][1]:]
+	indexStartxrefs := regexpStartxref.FindAllIndex(tmp, 1)
 	if len(indexStartxrefs) <= 0 {
 		return errors.New("startxref not found")
 	}
 
-	tmp := (*raw)[indexTrailers[0][1]:indexStartxrefs[0][0]]
+	tmp = tmp[:indexStartxrefs[0][0]]
 	var props PDFObjPropertiesData
 	err := readProperties(&tmp, &props)
 	if err != nil {
diff --git a/pdft.go b/pdft.go
index f8d9aeb..81919ff 100644
--- a/pdft.go
+++ b/pdft.go
@@ -198,11 +198,7 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-	rootProps, err := i.pdf.getObjByID(i.pdf.trailer.rootObjID).readProperties()
-	if err != nil {
-		return err
-	}
-	rootPagesID, _, err := rootProps.getPropByKey("Pages").asDictionary()
+	rootPagesID, err := i.pdf.rootPagesID()
 	if err != nil {
 		return err
 	}
@@ -211,6 +207,9 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	if err != nil {
 		return err
 	}
+	if props.getPropByKey("Count") == nil || props.getPropByKey("Kids") == nil {
+		return errors.New("/Count or /Kids not found")
+	}
 	nPage := len(pageObjIds)
 	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
 	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
@@ -480,6 +479,9 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 		pdfimg.setImgObj(imgObj)
 
 		i.pdfImgs = append(i.pdfImgs, pdfimg)
+		if i.pdfImgsMd5Map == nil {
+			i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+		}
 		i.pdfImgsMd5Map[md5Str] = pdfimg
 	}
 	var ct contentImgBase64
@@ -513,7 +515,7 @@ func (i *PDFt) AddFont(name string, ttfpath string) error {
 		return err
 	}
 
-	i.fontDatas[name] = fontData
+	i.setFontData(name, fontData)
 	return nil
 }
 
@@ -528,10 +530,17 @@ func (i *PDFt) AddFontFrom(name string, reader io.Reader) error {
 		return err
 	}
 
-	i.fontDatas[name] = fontData
+	i.setFontData(name, fontData)
 	return nil
 }
 
+func (i *PDFt) setFontData(name string, fontData *PDFFontData) {
+	if i.fontDatas == nil {
+		i.fontDatas = make(map[string]*PDFFontData)
+	}
+	i.fontDatas[name] = fontData
+}
+
 // TextriseOverride override text rise
 // Text rise, Trise , specifies the distance, in unscaled text space units,
 // to move the baseline up or down from its default location.
-- 
2.43.0


From ac1ddac9f7924e5b9af2be2439442d313584d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:58 +0000
Subject: [PATCH 12/50] fix: a failing Insert or MeasureTextWidth has no effect

Insert kept the content item when a character was not found, which drew a
truncated string and hid the error; MeasureTextWidth panicked without a
current font.
---
 pdft.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdft.go b/pdft.go
index 81919ff..2e5622e 100644
--- a/pdft.go
+++ b/pdft.go
@@ -335,13 +335,16 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 		return ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	err := ct.pdfFontData.addChars(text)
+	if err != nil {
+		return err
+	}
 	i.contenters = append(i.contenters, &ct)
-	return i.fontDatas[ct.fontName].addChars(text)
+	return nil
 }
 
 // MeasureTextWidth measure text width
 func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
-	i.fontDatas[i.curr.fontName].addChars(text)
 	var ct ContentText
 	ct.text = text
 	ct.fontName = i.curr.fontName
@@ -353,8 +356,11 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 		return 0, ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
-	width, err := ct.measureTextWidth()
-	return width, err
+	err := ct.pdfFontData.addChars(text)
+	if err != nil {
+		return 0, err
+	}
+	return ct.measureTextWidth()
 }
 
 func (i *PDFt) pageHeight(pageNum int) float64 {
-- 
2.43.0


From f147b865dea0df918ff54a5e84cd30e2e653a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:09 +0000
Subject: [PATCH 13/50] fix: the font subset has every glyph that is needed
 exactly once

---
 minigopdf/pdf_dictionary_obj.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index c31501b..6146b9d 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -251,25 +251,20 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 }
 
 func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGlyphIndex) []int {
-	var glyphArray []int
-	//copy
-	isContainZero := false
-	glyphs := mapOfglyphs.AllVals()
-	for _, v := range glyphs {
-		glyphArray = append(glyphArray, int(v))
-		if v == 0 {
-			isContainZero = true
+	glyphArray := []int{0}
+	//copy, many characters can use the same glyph
+	have := map[int]bool{0: true}
+	for _, v := range mapOfglyphs.AllVals() {
+		if have[int(v)] {
+			continue
 		}
-	}
-	if !isContainZero {
-		glyphArray = append(glyphArray, 0)
+		have[int(v)] = true
+		glyphArray = append(glyphArray, int(v))
 	}
 
-	i := 0
-	count := len(glyphs)
-	for i < count {
+	//composite glyph can be a part of other composite glyph, glyphArray grows in the loop
+	for i := 0; i < len(glyphArray); i++ {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
-		i++
 	}
 	return glyphArray
 }
-- 
2.43.0


From a31bbf28b3d991dad14c436346eada8790a6d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:13 +0000
Subject: [PATCH 14/50] fix: the last character of a cmap format 12 group can
 be inserted

---
 minigopdf/subset_font_obj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 284706e..1bc87be 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -186,7 +186,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat12(r rune) (uint, error) {
 	value := uint(r)
 	gTbs := s.ttfp.GroupingTables()
 	for _, gTb := range gTbs {
-		if value >= gTb.StartCharCode && value < gTb.EndCharCode {
+		if value >= gTb.StartCharCode && value <= gTb.EndCharCode {
 			gIndex := (value - gTb.StartCharCode) + gTb.GlyphID
 			return gIndex, nil
 		}
-- 
2.43.0


From 8a361558bf55433a9ea6a6317073f62137eaca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:47 +0000
Subject: [PATCH 15/50] fix: ToUnicode map uses UTF-16 and covers every code

---
 minigopdf/unicode_map.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 4068711..10f0613 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"bytes"
 	"fmt"
+	"unicode/utf16"
 )
 
 // UnicodeMap unicode map
@@ -59,18 +60,12 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
-
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
+		if _, ok := glyphIndexToCharacter.runeByIndex(index); ok {
+			continue //many characters can use the same glyph
 		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
@@ -79,13 +74,13 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	var buff bytes.Buffer
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	buff.WriteString(fmt.Sprintf("<%04X><%04X>\n", lowIndex, hiIndex))
+	buff.WriteString("<0000><FFFF>\n") //code always has 2 bytes (Identity-H)
 	buff.WriteString("endcodespacerange\n")
 	buff.WriteString(fmt.Sprintf("%d beginbfrange\n", glyphIndexToCharacter.size()))
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X>\n", k, k, v))
+		buff.WriteString(fmt.Sprintf("<%04X><%04X><%s>\n", k, k, utf16Hex(v)))
 	}
 	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
@@ -112,6 +107,15 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	return &streambuff, nil
 }
 
+// utf16Hex character in UTF-16BE
+func utf16Hex(r rune) string {
+	hex := ""
+	for _, code := range utf16.Encode([]rune{r}) {
+		hex += fmt.Sprintf("%04X", code)
+	}
+	return hex
+}
+
 // GetObjBuff get buffer
 func (u *UnicodeMap) GetObjBuff() *bytes.Buffer {
 	return u.getObjBuff()
-- 
2.43.0


From 460b03b4a194f3ec904e26a31bd1c7322607dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:51 +0000
Subject: [PATCH 16/50] fix: fonts without optional tables or padding after the
 last table can be embedded

---
 minigopdf/pdf_dictionary_obj.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 6146b9d..009fdaa 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -157,15 +157,11 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 	var buff Buff
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
 	tables := make(map[string]core.TableDirectoryEntry)
-	tables["cvt "] = ttfp.GetTables()["cvt "] //มีช่องว่างด้วยนะ
-	tables["fpgm"] = ttfp.GetTables()["fpgm"]
-	tables["glyf"] = ttfp.GetTables()["glyf"]
-	tables["head"] = ttfp.GetTables()["head"]
-	tables["hhea"] = ttfp.GetTables()["hhea"]
-	tables["hmtx"] = ttfp.GetTables()["hmtx"]
-	tables["loca"] = ttfp.GetTables()["loca"]
-	tables["maxp"] = ttfp.GetTables()["maxp"]
-	tables["prep"] = ttfp.GetTables()["prep"]
+	for _, tag := range []string{"cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "prep"} { //cvt มีช่องว่างด้วยนะ
+		if entry, ok := ttfp.GetTables()[tag]; ok { //cvt, fpgm, prep are optional
+			tables[tag] = entry
+		}
+	}
 	tableCount := len(tables)
 	selector := EntrySelectors[tableCount]
 
@@ -230,7 +226,13 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 			entry.CheckSum = CheckSum(data)
 			WriteBytes(&buff, data, 0, len(data))
 		} else {
-			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), entry.PaddedLength())
+			start, end := int(entry.Offset), int(entry.Offset)+int(entry.Length)
+			if end > len(ttfp.FontData()) {
+				return nil, errors.New("table " + tags[idx] + " is out of font data")
+			}
+			data := make([]byte, entry.PaddedLength()) //last table in font file may have no padding
+			copy(data, ttfp.FontData()[start:end])
+			WriteBytes(&buff, data, 0, len(data))
 		}
 		endPosition := buff.Position()
 		tablePosition = endPosition
-- 
2.43.0


From f8fccacdaa218cdfaf9cffa7dd920611142605f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:22 +0000
Subject: [PATCH 17/50] fix: strings, comments and streams of templates are
 read as PDF defines them

---
 pdf_obj_data.go          |  23 +++---
 pdf_obj_property_data.go |  42 +++++++---
 pdf_scan.go              | 169 +++++++++++++++++++++++++++++++++++++++
 regex.go                 |   1 +
 4 files changed, 212 insertions(+), 23 deletions(-)
 create mode 100644 pdf_scan.go

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 12ab5e5..1bd56a7 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -20,22 +20,19 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 		return errors.New("bad offset of obj")
 	}
 	tmp := (*raw)[stratoffset:]
-	endObjIndex := regexpEndObj.FindAllIndex(tmp, 1)
-	if len(endObjIndex) <= 0 {
-		return errors.New("bad endobj")
-	}
-	endObjOffsetBefore := endObjIndex[0][0] + stratoffset
-
-	tmp = (*raw)[stratoffset:endObjOffsetBefore]
-	startObjIndex := regexpStartObj.FindAllIndex(tmp, 1)
-	if len(startObjIndex) <= 0 {
+	startObjIndex := regexpStartObj.FindIndex(tmp)
+	if startObjIndex == nil {
 		return errors.New("bad start obj")
 	}
+	startObjLine := tmp[startObjIndex[0]:startObjIndex[1]]
 
-	startObjOffsetAfter := startObjIndex[0][1]
-	startObjOffset := startObjIndex[0][0]
-	startObjLine := tmp[startObjOffset:startObjOffsetAfter]
-	data := tmp[startObjOffsetAfter:]
+	tmp = tmp[startObjIndex[1]:]
+	contentEnd := objContentEnd(tmp)
+	endObjIndex := regexpEndObj.FindIndex(tmp[contentEnd:])
+	if endObjIndex == nil {
+		return errors.New("bad endobj")
+	}
+	data := tmp[:contentEnd+endObjIndex[0]]
 	objID, err := objIDFromStartObjLine(string(startObjLine))
 	if err != nil {
 		return err
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index 7562e49..900e0cf 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -77,17 +77,28 @@ func readProperty(rawObj *[]byte, key string) (*PDFObjPropertyData, error) {
 
 func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
 
-	tmp0 := *rawObj
-	index := bytes.Index(*rawObj, extractStreamBytes)
-	if index != -1 { //เป็น stream
-		tmp0 = tmp0[0:index]
-	}
-	startObjInx := strings.Index(string(tmp0), "<<")
-	endObjInx := strings.LastIndex(string(tmp0), ">>")
-	if startObjInx > endObjInx || startObjInx == -1 || endObjInx == -1 {
+	startObjInx, endObjInx, ok := dictionaryRange(*rawObj)
+	if !ok {
 		return errors.New("bad obj properties")
 	}
 
+	//strings can contain anything, they must not be parsed or changed
+	raw := (*rawObj)[startObjInx+len("<<") : endObjInx-len(">>")]
+	var masked strings.Builder
+	var texts []string
+	for i := 0; i < len(raw); {
+		kind, end := scanToken(raw, i)
+		if kind == tokenString {
+			masked.WriteString(" \x00" + strconv.Itoa(len(texts)) + "\x00 ")
+			texts = append(texts, string(raw[i:end]))
+		} else if kind == tokenSpace || kind == tokenComment {
+			masked.WriteString(" ")
+		} else {
+			masked.Write(raw[i:end])
+		}
+		i = end
+	}
+
 	//fmt.Printf("\n\n%s\n\n%d\n", string(*rawObj), endObjInx)
 
 	var regexpSlash = regexp.MustCompile("[\\r\\n\\t ]+\\/")
@@ -97,7 +108,7 @@ func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
 	var regexpClose = regexp.MustCompile("[\\r\\n\\t ]+\\>\\>")
 	var regexpLine = regexp.MustCompile("[\\r\\n\\t ]+")
 
-	tmp := strings.TrimSpace(string((*rawObj)[startObjInx+len("<<") : endObjInx]))
+	tmp := strings.TrimSpace(masked.String())
 	tmp = regexpLine.ReplaceAllString(tmp, " ")
 	tmp = regexpSlash.ReplaceAllString(tmp, "/")
 	tmp = regexpOpenB.ReplaceAllString(tmp, "[")
@@ -108,6 +119,17 @@ func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
 	var pp parseProps
 
 	pp.set(tmp, outProps)
+
+	if len(texts) > 0 {
+		var oldnew []string
+		for i, text := range texts {
+			oldnew = append(oldnew, "\x00"+strconv.Itoa(i)+"\x00", text)
+		}
+		unmask := strings.NewReplacer(oldnew...)
+		for i := range *outProps {
+			outProps.at(i).rawVal = unmask.Replace(outProps.at(i).rawVal)
+		}
+	}
 	return nil
 }
 
@@ -130,7 +152,7 @@ func (p *parseProps) loop(i int, status string) (int, string) {
 	count01 := 0
 	count02 := 0
 	for i < p.max {
-		r := string(p.str[i])
+		r := p.str[i : i+1]
 		if status == "" && r == "/" {
 			p.propsIndex++
 			p.props.append(PDFObjPropertyData{})
diff --git a/pdf_scan.go b/pdf_scan.go
new file mode 100644
index 0000000..7c8a7ba
--- /dev/null
+++ b/pdf_scan.go
@@ -0,0 +1,169 @@
+package pdft
+
+import (
+	"bytes"
+	"strconv"
+	"strings"
+)
+
+type tokenKind int
+
+const (
+	tokenOther tokenKind = iota //one byte of anything else
+	tokenSpace
+	tokenComment
+	tokenString    // (...)
+	tokenHexString // <...>
+	tokenOpenDict  // <<
+	tokenCloseDict // >>
+)
+
+// scanToken find kind and end of token that start at data[i]
+func scanToken(data []byte, i int) (tokenKind, int) {
+	switch data[i] {
+	case 0, '\t', '\n', '\f', '\r', ' ':
+		return tokenSpace, i + 1
+	case '%':
+		for i < len(data) && data[i] != '\r' && data[i] != '\n' {
+			i++
+		}
+		return tokenComment, i
+	case '(':
+		depth := 0
+		for ; i < len(data); i++ {
+			if data[i] == '\\' {
+				i++
+			} else if data[i] == '(' {
+				depth++
+			} else if data[i] == ')' {
+				depth--
+				if depth == 0 {
+					return tokenString, i + 1
+				}
+			}
+		}
+		return tokenString, len(data)
+	case '<':
+		if i+1 < len(data) && data[i+1] == '<' {
+			return tokenOpenDict, i + 2
+		}
+		end := bytes.IndexByte(data[i:], '>')
+		if end == -1 {
+			return tokenHexString, len(data)
+		}
+		return tokenHexString, i + end + 1
+	case '>':
+		if i+1 < len(data) && data[i+1] == '>' {
+			return tokenCloseDict, i + 2
+		}
+	}
+	return tokenOther, i + 1
+}
+
+// dictionaryRange find first dictionary in data, start is offset of << , end is offset after >>
+func dictionaryRange(data []byte) (int, int, bool) {
+	start, depth := -1, 0
+	for i := 0; i < len(data); {
+		kind, end := scanToken(data, i)
+		if kind == tokenOpenDict {
+			if depth == 0 {
+				start = i
+			}
+			depth++
+		} else if kind == tokenCloseDict && depth > 0 {
+			depth--
+			if depth == 0 {
+				return start, end, true
+			}
+		}
+		i = end
+	}
+	return 0, 0, false
+}
+
+// skipSpace find first byte that is not white space or comment
+func skipSpace(data []byte, i int) int {
+	for i < len(data) {
+		kind, end := scanToken(data, i)
+		if kind != tokenSpace && kind != tokenComment {
+			break
+		}
+		i = end
+	}
+	return i
+}
+
+// streamStart find first byte of stream in data of object
+func streamStart(data []byte) (int, bool) {
+	i := skipSpace(data, 0)
+	if !bytes.HasPrefix(data[i:], []byte("<<")) {
+		return 0, false
+	}
+	_, i, ok := dictionaryRange(data)
+	if !ok {
+		return 0, false
+	}
+	i = skipSpace(data, i)
+	if !bytes.HasPrefix(data[i:], extractStreamBytes) {
+		return 0, false
+	}
+	i += len(extractStreamBytes)
+	if bytes.HasPrefix(data[i:], []byte("\r\n")) {
+		return i + 2, true
+	}
+	if i < len(data) && (data[i] == '\n' || data[i] == '\r') {
+		return i + 1, true
+	}
+	return i, true
+}
+
+// isStreamLength check that length of stream is right
+func isStreamLength(data []byte, start int, length int) bool {
+	return length >= 0 && start+length <= len(data) &&
+		bytes.HasPrefix(bytes.TrimLeft(data[start+length:], "\r\n\t "), []byte("endstream"))
+}
+
+// streamEnd find end of stream, length is used only if it is right
+func streamEnd(data []byte, start int, length int) int {
+	if isStreamLength(data, start, length) {
+		return start + length
+	}
+	end := bytes.LastIndex(data[start:], []byte("endstream"))
+	if end == -1 {
+		return len(data)
+	}
+	end += start
+	if end-2 >= start && data[end-2] == '\r' && data[end-1] == '\n' {
+		return end - 2
+	}
+	if end-1 >= start && (data[end-1] == '\n' || data[end-1] == '\r') {
+		return end - 1
+	}
+	return end
+}
+
+// objContentEnd find where "endobj" should be searched from, dictionary and stream can contain "endobj"
+func objContentEnd(data []byte) int {
+	if !bytes.HasPrefix(data[skipSpace(data, 0):], []byte("<<")) {
+		return 0
+	}
+	_, dictEnd, ok := dictionaryRange(data)
+	if !ok {
+		return 0
+	}
+	start, ok := streamStart(data)
+	if !ok {
+		return dictEnd
+	}
+	dict := data[:dictEnd]
+	if prop, err := readProperty(&dict, "Length"); err == nil && prop != nil {
+		length, err := strconv.Atoi(strings.TrimSpace(prop.rawVal))
+		if err == nil && isStreamLength(data, start, length) {
+			return start + length
+		}
+	}
+	if end := regexpEndStreamObj.FindIndex(data[start:]); end != nil {
+		return start + end[0]
+	}
+	return dictEnd
+}
diff --git a/regex.go b/regex.go
index 18e38fc..4fd4013 100644
--- a/regex.go
+++ b/regex.go
@@ -6,5 +6,6 @@ var regexpXref = regexp.MustCompile("xref")
 var regexpXrefLine = regexp.MustCompile("[0-9]{10}[\\t ]+[0-9]{5}[\\t ][f,n]")
 var regexpStartObj = regexp.MustCompile("[0-9]+[\\n\\r\\t ]0[\\n\\r\\t ]obj")
 var regexpEndObj = regexp.MustCompile("endobj")
+var regexpEndStreamObj = regexp.MustCompile("endstream[\\n\\r\\t ]*endobj")
 var regexpTrailer = regexp.MustCompile("trailer")
 var regexpStartxref = regexp.MustCompile("startxref")
-- 
2.43.0


From a827f0ad881a454cdc2b851df0375bfcded6ec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:43 +0000
Subject: [PATCH 18/50] fix: protection keeps every byte of streams and
 encrypts strings

---
 pdf_data.go     | 21 +++++++++++++++
 pdf_obj_data.go | 69 ++++++++++++++++++++++++++++++++++---------------
 pdf_scan.go     | 66 ++++++++++++++++++++++++++++++++++++++++++++++
 pdft.go         |  9 ++++++-
 4 files changed, 143 insertions(+), 22 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index a9ecc14..4860d99 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -256,6 +256,27 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	return nil
 }
 
+// streamLength get /Length of the object, -1 if not found
+func (p *PDFData) streamLength(obj *PDFObjData) int {
+	prop, err := readProperty(&obj.data, "Length")
+	if err != nil || prop == nil {
+		return -1
+	}
+	raw := prop.rawVal
+	if id, _, err := prop.asDictionary(); err == nil { //refer to other object
+		lengthObj := p.getObjByID(id)
+		if lengthObj == nil {
+			return -1
+		}
+		raw = string(lengthObj.data)
+	}
+	length, err := strconv.Atoi(strings.TrimSpace(raw))
+	if err != nil {
+		return -1
+	}
+	return length
+}
+
 // contentsObjIDs get IDs of content streams of the page
 func (p *PDFData) contentsObjIDs(pageProps *PDFObjPropertiesData) ([]int, error) {
 	contents := pageProps.getPropByKey("Contents")
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 1bd56a7..3c276d2 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/rc4"
 	"errors"
+	"fmt"
 
 	gopdf "github.com/signintech/pdft/minigopdf"
 )
@@ -62,36 +63,62 @@ func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 	p.data = data.Bytes()
 }
 
-func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
+// encrypt encrypt stream and strings, length is /Length of stream or -1
+func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection, length int) error {
 
-	stream := []byte("stream")
-	endstream := []byte("endstream")
-	start := bytes.Index(p.data, stream)
-	if start != -1 {
-		end := bytes.LastIndex(p.data, endstream)
-
-		var head, body bytes.Buffer
-		head.Write(p.data[0:start])
-		body.Write(p.data[start+len(stream) : end])
-		tmp := bytes.Trim(body.Bytes(), "\r\n")
-		tmp = bytes.Trim(tmp, "\n")
-		bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), tmp)
+	key := protection.Objectkey(p.objID)
+	start, isStream := streamStart(p.data)
+	if !isStream {
+		data, err := encryptStrings(p.data, key)
 		if err != nil {
 			return err
 		}
+		p.data = data
+		return nil
+	}
 
-		var data bytes.Buffer
-		data.Write(head.Bytes())
-		data.Write(stream)
-		data.WriteString("\n")
-		data.Write(bodyRc4)
-		data.WriteString("\n")
-		data.Write(endstream)
-		p.data = data.Bytes()
+	_, dictEnd, _ := dictionaryRange(p.data)
+	head, err := encryptStrings(p.data[:dictEnd], key)
+	if err != nil {
+		return err
+	}
+	bodyRc4, err := rc4Cip(key, p.data[start:streamEnd(p.data, start, length)])
+	if err != nil {
+		return err
 	}
+
+	var data bytes.Buffer
+	data.Write(head)
+	data.WriteString("\nstream\n")
+	data.Write(bodyRc4)
+	data.WriteString("\nendstream")
+	p.data = data.Bytes()
 	return nil
 }
 
+// encryptStrings encrypt all strings in data
+func encryptStrings(data []byte, key []byte) ([]byte, error) {
+	var out bytes.Buffer
+	for i := 0; i < len(data); {
+		kind, end := scanToken(data, i)
+		if kind == tokenString || kind == tokenHexString {
+			text := decodeHexString(data[i:end])
+			if kind == tokenString {
+				text = decodeLiteralString(bytes.TrimSuffix(data[i+1:end], []byte(")")))
+			}
+			textRc4, err := rc4Cip(key, text)
+			if err != nil {
+				return nil, err
+			}
+			out.WriteString(fmt.Sprintf("<%X>", textRc4))
+		} else {
+			out.Write(data[i:end])
+		}
+		i = end
+	}
+	return out.Bytes(), nil
+}
+
 func rc4Cip(key []byte, src []byte) ([]byte, error) {
 	cip, err := rc4.NewCipher(key)
 	if err != nil {
diff --git a/pdf_scan.go b/pdf_scan.go
index 7c8a7ba..e4a918f 100644
--- a/pdf_scan.go
+++ b/pdf_scan.go
@@ -167,3 +167,69 @@ func objContentEnd(data []byte) int {
 	}
 	return dictEnd
 }
+
+// decodeLiteralString decode content of (...)
+func decodeLiteralString(s []byte) []byte {
+	var out []byte
+	for i := 0; i < len(s); i++ {
+		if s[i] == '\r' { //end of line is always \n
+			out = append(out, '\n')
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+			continue
+		}
+		if s[i] != '\\' || i+1 >= len(s) {
+			out = append(out, s[i])
+			continue
+		}
+		i++
+		switch s[i] {
+		case 'n':
+			out = append(out, '\n')
+		case 'r':
+			out = append(out, '\r')
+		case 't':
+			out = append(out, '\t')
+		case 'b':
+			out = append(out, '\b')
+		case 'f':
+			out = append(out, '\f')
+		case '\n':
+		case '\r':
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			n := 0
+			j := i
+			for j < len(s) && j < i+3 && s[j] >= '0' && s[j] <= '7' {
+				n = n*8 + int(s[j]-'0')
+				j++
+			}
+			out = append(out, byte(n))
+			i = j - 1
+		default:
+			out = append(out, s[i])
+		}
+	}
+	return out
+}
+
+// decodeHexString decode content of <...>
+func decodeHexString(s []byte) []byte {
+	var out, digits []byte
+	for _, c := range s {
+		if c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' {
+			digits = append(digits, c)
+		}
+	}
+	if len(digits)%2 == 1 {
+		digits = append(digits, '0')
+	}
+	for i := 0; i < len(digits); i += 2 {
+		n, _ := strconv.ParseUint(string(digits[i:i+2]), 16, 8)
+		out = append(out, byte(n))
+	}
+	return out
+}
diff --git a/pdft.go b/pdft.go
index 2e5622e..6590bfc 100644
--- a/pdft.go
+++ b/pdft.go
@@ -705,8 +705,15 @@ func (i *PDFt) build() (*PDFData, int, error) {
 	if i.protection() != nil {
 		max := newpdf.Len()
 		x := 0
+		lengths := make([]int, max)
+		for n := range lengths {
+			lengths[n] = newpdf.streamLength(&newpdf.objs[n])
+		}
 		for x < max {
-			newpdf.objs[x].encrypt(i.protection())
+			err = newpdf.objs[x].encrypt(i.protection(), lengths[x])
+			if err != nil {
+				return nil, 0, err
+			}
 			x++
 		}
 	}
-- 
2.43.0


From 6efae83baa5e57df559ff0920de9b311e99a4ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:47 +0000
Subject: [PATCH 19/50] fix: SetProtection does not write into the password
 slices of the caller

---
 minigopdf/pdf_protection.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 5fa588b..9fb7493 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -50,10 +50,9 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	//must not write to array of caller
+	userPassWithPadding := append(append([]byte{}, userPass...), protectionPadding...)[0:32]
+	ownerPassWithPadding := append(append([]byte{}, ownerPass...), protectionPadding...)[0:32]
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
-- 
2.43.0


From a0cbe28e051356295cc6262294ae7f5e7f572016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:19 +0000
Subject: [PATCH 20/50] fix: text colours black and those whose components add
 up to a multiple of 256 are set

---
 minigopdf/cache_content_text.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 0da146c..fb1c94e 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -28,6 +28,7 @@ type cacheContentText struct {
 	contentType    int
 	cellOpt        CellOption
 	lineWidth      float64
+	mustSetColor   bool //set color even if it is black
 	//---result---
 	content                            bytes.Buffer
 	text                               bytes.Buffer
@@ -129,7 +130,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
-	if r+g+b != 0 {
+	if r != 0 || g != 0 || b != 0 || c.mustSetColor {
 		rFloat := float64(r) * 0.00392156862745
 		gFloat := float64(g) * 0.00392156862745
 		bFloat := float64(b) * 0.00392156862745
@@ -378,6 +379,7 @@ func (c *CacheContent) Setup(rectangle *Rect,
 		contentType:    ContentTypeCell,
 		cellOpt:        cellOpt,
 		lineWidth:      lineWidth,
+		mustSetColor:   true,
 	}
 }
 
-- 
2.43.0


From 5a0c59cde6da919407b43d4cc8317e2ae2247cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:23 +0000
Subject: [PATCH 21/50] fix: text rise of an overridden font does not leak into
 later text

---
 minigopdf/cache_content_text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index fb1c94e..9ce907b 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -292,6 +292,9 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 		runeIndex++
 	}
 	out.WriteString(">] TJ\n")
+	if f.funcTextriseOverride != nil {
+		out.WriteString("0 Ts\n") //text rise must not affect next text
+	}
 
 	cellWidthPdfUnit := float64(0)
 	cellHeightPdfUnit := float64(0)
-- 
2.43.0


From ff55d9a075b457ced76c525dfa12027a0d65a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:52 +0000
Subject: [PATCH 22/50] fix: InsertWrapText does not render blank lines

---
 pdft.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pdft.go b/pdft.go
index 6590bfc..aae0588 100644
--- a/pdft.go
+++ b/pdft.go
@@ -270,22 +270,24 @@ func (i *PDFt) InsertWrapText(text string,
 			return err
 		}
 		if width > w {
-			renderCaches = append(renderCaches, cacheWrapTextRender{
-				text:      strings.TrimSpace(prevText),
-				pageNum:   pageNum,
-				x:         x,
-				y:         currentY,
-				w:         w,
-				h:         h,
-				align:     align,
-				fontColor: fontColor,
-			})
-			currentY += fontSize + newLine
+			if strings.TrimSpace(prevText) != "" { //never render blank line
+				renderCaches = append(renderCaches, cacheWrapTextRender{
+					text:      strings.TrimSpace(prevText),
+					pageNum:   pageNum,
+					x:         x,
+					y:         currentY,
+					w:         w,
+					h:         h,
+					align:     align,
+					fontColor: fontColor,
+				})
+				currentY += fontSize + newLine
+			}
 			currText = token
 		}
 		prevText = currText
 	}
-	if currText != "" {
+	if strings.TrimSpace(currText) != "" {
 		renderCaches = append(renderCaches, cacheWrapTextRender{
 			text:      strings.TrimSpace(prevText),
 			pageNum:   pageNum,
-- 
2.43.0


From f1f3c3b2695cc0efd6933106566796b0d157d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:54 +0000
Subject: [PATCH 23/50] fix: GoPdf.MeasureTextWidth measures instead of
 panicking

---
 minigopdf/cache_content_text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 9ce907b..07b3ddf 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -247,6 +247,9 @@ func (c *cacheContentText) createContent() (float64, float64, error) {
 
 func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect, out *bytes.Buffer) (float64, float64, float64, error) {
 
+	if out == nil { //measure only
+		out = new(bytes.Buffer)
+	}
 	unitsPerEm := int(f.ttfp.UnitsPerEm())
 	var leftRune rune
 	var leftRuneIndex uint
-- 
2.43.0


From 45c72425f9667fb923172d282ed7ef2752d8f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:58 +0000
Subject: [PATCH 24/50] fix: GoPdf refers to the soft mask of transparent
 images, not to the object before it

---
 minigopdf/gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 637e7e9..8af139f 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -247,7 +247,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
-			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
+			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj) + 1 //index to object id
 		}
 
 		if imgobj.isColspaceIndexed() {
-- 
2.43.0


From 72ab54a2093780654219fc28772999f0b57efb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:03 +0000
Subject: [PATCH 25/50] fix: GoPdf writes a well formed info dictionary

---
 minigopdf/gopdf.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 8af139f..1b12e93 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -818,7 +818,7 @@ func (gp *GoPdf) bindInfo(buff *bytes.Buffer) {
 	}
 
 	if !zerotime.Equal(gp.info.CreationDate) {
-		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)>>\n", infodate(gp.info.CreationDate)))
+		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)\n", infodate(gp.info.CreationDate)))
 	}
 
 	buff.WriteString(" >>\n")
@@ -856,11 +856,7 @@ func (gp *GoPdf) getContent() *ContentObj {
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
 	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+		buff.WriteString(utf16Hex(r))
 	}
 	return buff.String()
 }
-- 
2.43.0


From 03f14fd98709556584305c474c2ebcf7701af6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 26/50] fix: GoPdf writes well formed blank pages

---
 minigopdf/page_obj.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minigopdf/page_obj.go b/minigopdf/page_obj.go
index f737f9b..64127b0 100644
--- a/minigopdf/page_obj.go
+++ b/minigopdf/page_obj.go
@@ -38,7 +38,9 @@ func (p *PageObj) build(objID int) error {
 	}
 	me.buffer.WriteString("    >>\n")*/
 	//me.buffer.WriteString("  >>\n")
-	p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	if p.Contents != "" { //blank page
+		p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	}
 	if !p.pageOption.isEmpty() {
 		height := fmt.Sprintf("%0.2f", p.pageOption.PageSize.H)
 		width := fmt.Sprintf("%0.2f", p.pageOption.PageSize.W)
-- 
2.43.0


From 9b373d91910ecd792723ac4048671e280ef7a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:11 +0000
Subject: [PATCH 27/50] fix: GoPdf advances by the width of the new text only
 when it joins the previous text

---
 minigopdf/list_cache_content.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/minigopdf/list_cache_content.go b/minigopdf/list_cache_content.go
index fbe898e..506f5b9 100644
--- a/minigopdf/list_cache_content.go
+++ b/minigopdf/list_cache_content.go
@@ -31,6 +31,7 @@ func (l *listCacheContent) appendContentText(cache cacheContentText, text string
 		if cacheFont != nil {
 			if cacheFont.isSame(cache) {
 				mustMakeNewCache = false
+				x = cacheFont.x //text is measured from start of the cache
 			}
 		}
 	}
-- 
2.43.0


From 927d44477ebea54d7b3485a1c48d92a8f184631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:16 +0000
Subject: [PATCH 28/50] fix: GoPdf can be compiled more than once

---
 minigopdf/content_obj.go |  5 +++--
 minigopdf/gopdf.go       | 12 ++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/minigopdf/content_obj.go b/minigopdf/content_obj.go
index 19940a8..adcecbd 100644
--- a/minigopdf/content_obj.go
+++ b/minigopdf/content_obj.go
@@ -48,8 +48,9 @@ func (c *ContentObj) build(objID int) error {
 	} else {
 		// zlib compressLevel = 0 adds header and thus
 		// needs /FlateDecode => pass through
-		buff.WriteTo(&c.stream)
-		cPtr = &c.stream
+		cPtr = new(bytes.Buffer)
+		cPtr.Write(c.stream.Bytes())
+		buff.WriteTo(cPtr)
 	}
 	streamlen := (*cPtr).Len()
 	c.buffer.WriteString("<<\n")
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 1b12e93..59c6bf0 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -412,6 +412,7 @@ func (gp *GoPdf) compilePdf() error {
 		objID := i + 1
 		linelens[i] = gp.buf.Len()
 		pdfObj := gp.pdfObjs[i]
+		pdfObj.getObjBuff().Reset() //clear result of previous compile
 		err = pdfObj.build(objID)
 		if err != nil {
 			return err
@@ -715,14 +716,20 @@ func (gp *GoPdf) protection() *PDFProtection {
 func (gp *GoPdf) prepare() {
 
 	if gp.isUseProtection() {
-		encObj := gp.pdfProtection.encryptionObj()
-		gp.addObj(encObj)
+		if gp.encryptionObjID == 0 {
+			encObj := gp.pdfProtection.encryptionObj()
+			gp.addObj(encObj)
+		}
 	}
 
 	if gp.indexOfPagesObj != -1 {
 		indexCurrPage := -1
 		var pagesObj *PagesObj
 		pagesObj = gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		//clear result of previous compile
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
+		gp.curr.CountOfL = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -732,6 +739,7 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				indexCurrPage = i
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 			} else if objtype == "Content" {
 				if indexCurrPage != -1 {
 					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
-- 
2.43.0


From eb520d9d481b2000c2e6a6c55abee332334df0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:53 +0000
Subject: [PATCH 29/50] fix: PNG images with large or empty chunks, or cut
 short, are read right

---
 minigopdf/image_obj_parse.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index e230ff5..332ef46 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"io"
 	"io/ioutil"
 	"strings"
 )
@@ -248,6 +249,10 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
+			if (ct[0] == 0 && len(t) < 2) || (ct[0] == 2 && len(t) < 6) {
+				return errors.New("Incorrect PNG file")
+			}
+
 			if ct[0] == 0 {
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
@@ -284,10 +289,6 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} //end for
 
 	//info.data = data //ok
@@ -296,7 +297,7 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	//fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && len(pal) == 0 {
 		return errors.New("Missing palette")
 	}
 
@@ -325,6 +326,10 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 
+		if len(afterZipData) < (1+w*(int(ct[0])-2))*h { //2 or 4 bytes per pixel
+			return io.ErrUnexpectedEOF
+		}
+
 		var color []byte
 		var alpha []byte
 		if ct[0] == 4 {
@@ -416,18 +421,18 @@ func readInt(f *bytes.Reader) (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	var v int
-	if u >= 0x8000 {
-		v = int(u) - 65536
-	} else {
-		v = int(u)
+	if u > 0x7fffffff { //PNG integers are limited to 31 bits
+		return 0, errors.New("Incorrect PNG file")
 	}
-	return v, nil
+	return int(u), nil
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ac58808aa3d2354fafcb11eb80daf5481b1b77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:58 +0000
Subject: [PATCH 30/50] fix: gray PNG images with alpha channel are drawn

---
 minigopdf/image_obj_parse.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 332ef46..e71f715 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -372,15 +372,16 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 				i++
 			}
-			info.smask, err = compress(alpha)
-			if err != nil {
-				return err
-			}
+		}
 
-			info.data, err = compress(color)
-			if err != nil {
-				return err
-			}
+		info.smask, err = compress(alpha)
+		if err != nil {
+			return err
+		}
+
+		info.data, err = compress(color)
+		if err != nil {
+			return err
 		}
 
 	} else {
-- 
2.43.0


From 1921f4ac2c3afa499b6bd9b3e98b66d022d67b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:33 +0000
Subject: [PATCH 31/50] fix: font names with special characters are written as
 valid PDF names

---
 minigopdf/strhelper.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/minigopdf/strhelper.go b/minigopdf/strhelper.go
index 18f0614..68aac8e 100644
--- a/minigopdf/strhelper.go
+++ b/minigopdf/strhelper.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -22,7 +23,15 @@ func StrHelperGetStringWidth(str string, fontSize int, ifont IFont) float64 {
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	var out strings.Builder
+	for _, c := range []byte(name) {
+		if c <= 32 || c >= 127 || strings.IndexByte("#()<>[]{}%", c) != -1 {
+			out.WriteString(fmt.Sprintf("#%02X", c)) //not allowed in name object
+		} else {
+			out.WriteByte(c)
+		}
+	}
+	return out.String()
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From d63d3237d0080c812bd505ae6a62ee09435a45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:38 +0000
Subject: [PATCH 32/50] fix: palettes of indexed PNG images are put in the
 document

---
 minigopdf/image_obj.go | 13 +++++++++++++
 pdft.go                | 14 ++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 7873b7e..be38a48 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -32,6 +32,19 @@ func (i *ImageObj) SetSMaskObjID(objID int) {
 	i.imginfo.smarkObjID = objID
 }
 
+// Palette get palette of indexed image, nil if image is not indexed
+func (i *ImageObj) Palette() []byte {
+	if !i.isColspaceIndexed() {
+		return nil
+	}
+	return i.imginfo.pal
+}
+
+// SetPaletteObjID set objId of palette
+func (i *ImageObj) SetPaletteObjID(objID int) {
+	i.imginfo.deviceRGBObjID = objID - 1
+}
+
 func (i *ImageObj) setProtection(p *PDFProtection) {
 	i.pdfProtection = p
 }
diff --git a/pdft.go b/pdft.go
index aae0588..059550a 100644
--- a/pdft.go
+++ b/pdft.go
@@ -373,6 +373,17 @@ func (i *PDFt) pageHeight(pageNum int) float64 {
 	return 841.89 //A4
 }
 
+// putPalette put palette of indexed image to pdf
+func (i *PDFt) putPalette(imgObj *gopdf.ImageObj) {
+	palette := imgObj.Palette()
+	if palette == nil {
+		return
+	}
+	var pdfObj PDFObjData
+	pdfObj.data = []byte(fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%s\nendstream", len(palette), palette))
+	imgObj.SetPaletteObjID(i.pdf.putNewObject(pdfObj))
+}
+
 // InsertImgBase64 insert img base 64
 func (i *PDFt) InsertImgBase64(base64str string, pageNum int, x float64, y float64, w float64, h float64) error {
 
@@ -392,6 +403,7 @@ func (i *PDFt) InsertImgBase64(base64str string, pageNum int, x float64, y float
 		smaskObjID := i.pdf.putNewObject(pdfObj)
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
+	i.putPalette(&imgObj)
 
 	err = pdfimg.setImgObj(imgObj)
 	if err != nil {
@@ -438,6 +450,7 @@ func (i *PDFt) InsertImg(img []byte, pageNum int, x float64, y float64, w float6
 		smaskObjID := i.pdf.putNewObject(pdfObj)
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
+	i.putPalette(&imgObj)
 
 	pdfimg.setImgObj(imgObj)
 
@@ -484,6 +497,7 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 			smaskObjID := i.pdf.putNewObject(pdfObj)
 			imgObj.SetSMaskObjID(smaskObjID)
 		}
+		i.putPalette(&imgObj)
 		pdfimg.setImgObj(imgObj)
 
 		i.pdfImgs = append(i.pdfImgs, pdfimg)
-- 
2.43.0


From 04e0394fe2cf2f19afb134a7d38494d6ef51867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:43 +0000
Subject: [PATCH 33/50] fix: transparency of indexed PNG images is kept

---
 minigopdf/image_obj_parse.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index e71f715..e6ac999 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"image/png"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -258,9 +259,13 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			} else if ct[0] == 2 {
 				trns = []byte{t[1], t[3], t[5]}
 			} else {
-				pos := strings.Index(string(t), "\x00")
-				if pos >= 0 {
-					trns = []byte{byte(pos)}
+				if bytes.Count(t, []byte{0}) == 1 && bytes.Count(t, []byte{255}) == len(t)-1 {
+					trns = []byte{byte(bytes.IndexByte(t, 0))}
+				} else { //color key mask can not do this
+					info.smask, err = pngAlpha(f)
+					if err != nil {
+						return err
+					}
 				}
 			}
 
@@ -391,6 +396,29 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 	return nil
 }
 
+// pngAlpha create compressed alpha channel of image, position of f is not changed
+func pngAlpha(f *bytes.Reader) ([]byte, error) {
+	pos, err := f.Seek(0, 1)
+	if err != nil {
+		return nil, err
+	}
+	defer f.Seek(pos, 0)
+	f.Seek(0, 0)
+	img, err := png.Decode(f)
+	if err != nil {
+		return nil, err
+	}
+	var alpha []byte
+	for y := img.Bounds().Min.Y; y < img.Bounds().Max.Y; y++ {
+		alpha = append(alpha, 0) //no filter
+		for x := img.Bounds().Min.X; x < img.Bounds().Max.X; x++ {
+			_, _, _, a := img.At(x, y).RGBA()
+			alpha = append(alpha, byte(a>>8))
+		}
+	}
+	return compress(alpha)
+}
+
 func compress(data []byte) ([]byte, error) {
 	var results []byte
 	var buff bytes.Buffer
-- 
2.43.0


From 1e67b689d1db1d254955998dff38c277bb70e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:17 +0000
Subject: [PATCH 34/50] fix: graphics state left by the template does not
 affect inserted content

---
 pdf_data.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 4860d99..7e123e6 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -243,9 +243,13 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 
 		//put new content in a new stream after all of streams of the page, page content may be shared
 		//with other pages, use any filter or not exist.
-		var contentObj PDFObjData
-		contentObj.data = []byte(fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%s\nendstream", pageBuff.Len(), pageBuff.String()))
-		contentsObjIDs = append(contentsObjIDs, p.putNewObject(contentObj))
+		//graphics state that is left by the streams of the page must not affect new content.
+		newContent := pageBuff.String()
+		if len(contentsObjIDs) > 0 {
+			contentsObjIDs = append([]int{p.putNewObject(newStreamObj("q\n"))}, contentsObjIDs...)
+			newContent = "Q\n" + newContent
+		}
+		contentsObjIDs = append(contentsObjIDs, p.putNewObject(newStreamObj(newContent)))
 		if props.getPropByKey("Contents") == nil {
 			props.append(PDFObjPropertyData{key: "Contents"})
 		}
@@ -277,6 +281,13 @@ func (p *PDFData) streamLength(obj *PDFObjData) int {
 	return length
 }
 
+// newStreamObj create object of stream
+func newStreamObj(content string) PDFObjData {
+	var obj PDFObjData
+	obj.data = []byte(fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%s\nendstream", len(content), content))
+	return obj
+}
+
 // contentsObjIDs get IDs of content streams of the page
 func (p *PDFData) contentsObjIDs(pageProps *PDFObjPropertiesData) ([]int, error) {
 	contents := pageProps.getPropByKey("Contents")
-- 
2.43.0


From 4fc7c1851a3f9800e1ef679b3f89208eb1ec8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:21 +0000
Subject: [PATCH 35/50] fix: document information of the template is kept

---
 pdf_data.go  |  1 +
 pdf_parse.go |  7 +++++++
 pdft.go      | 11 +++++++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 7e123e6..33f56dc 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -21,6 +21,7 @@ type PDFData struct {
 // TrailerData trailer
 type TrailerData struct {
 	rootObjID int
+	infoObjID int //0 if not found
 }
 
 // Len count
diff --git a/pdf_parse.go b/pdf_parse.go
index c2d5d72..182cd05 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -144,6 +144,13 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 	}
 	pdf.trailer.rootObjID = rootID
 
+	if propInfo := props.getPropByKey("Info"); propInfo != nil {
+		infoID, _, err := propInfo.asDictionary()
+		if err == nil {
+			pdf.trailer.infoObjID = infoID
+		}
+	}
+
 	return nil
 }
 
diff --git a/pdft.go b/pdft.go
index 059550a..5d4a4be 100644
--- a/pdft.go
+++ b/pdft.go
@@ -767,7 +767,11 @@ func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
 		buff.WriteString(strings.TrimSpace(string(obj.data)))
 		buff.WriteString("\nendobj\n")
 	}
-	i.xref(xrefs, &buff, lastID, newpdf.trailer.rootObjID, encryptionObjID)
+	infoObjID := newpdf.trailer.infoObjID
+	if newpdf.getObjByID(infoObjID) == nil {
+		infoObjID = 0
+	}
+	i.xref(xrefs, &buff, lastID, newpdf.trailer.rootObjID, infoObjID, encryptionObjID)
 
 	return &buff, nil
 }
@@ -778,7 +782,7 @@ type xrefrow struct {
 	flag   string
 }
 
-func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, encryptionObjID int) {
+func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, infoObjID int, encryptionObjID int) {
 	xrefbyteoffset := buff.Len()
 
 	//start xref
@@ -810,6 +814,9 @@ func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID i
 	buff.WriteString("<<\n")
 	buff.WriteString(fmt.Sprintf("/Size %d\n", size+1))
 	buff.WriteString(fmt.Sprintf("/Root %d 0 R\n", rootID))
+	if infoObjID != 0 {
+		buff.WriteString(fmt.Sprintf("/Info %d 0 R\n", infoObjID))
+	}
 	if i.protection() != nil {
 		buff.WriteString(fmt.Sprintf("/Encrypt %d 0 R\n", encryptionObjID))
 		buff.WriteString("/ID [()()]\n")
-- 
2.43.0


From 4474b9b2fd59a2adacc6986420df6e251cb997d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:56 +0000
Subject: [PATCH 36/50] fix: the colour of inserted text is the one given at
 the call

---
 pdft.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index 5d4a4be..0fb9fa3 100644
--- a/pdft.go
+++ b/pdft.go
@@ -320,7 +320,10 @@ func (i *PDFt) InsertWrapText(text string,
 func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64, h float64, align int, fontColor *FontColor) error {
 	var ct ContentText
 	ct.text = text
-	ct.fontColor = fontColor
+	if fontColor != nil { //caller can change its value after this call
+		color := *fontColor
+		ct.fontColor = &color
+	}
 	ct.fontName = i.curr.fontName
 	ct.fontStyle = i.curr.fontStyle
 	ct.fontSize = i.curr.fontSize
-- 
2.43.0


From 4e45a5739eae40a3bb348ee9eae92c6a741235c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:28 +0000
Subject: [PATCH 37/50] fix: trailer keyword in a stream and updated trailers

---
 pdf_parse.go | 27 ++++++++++++++++-----------
 regex.go     |  2 +-
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/pdf_parse.go b/pdf_parse.go
index 182cd05..f88e757 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -115,22 +115,27 @@ func setPagesObj(pdf *PDFData) error {
 
 func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
-	indexTrailers := regexpTrailer.FindAllIndex(*raw, 1)
+	indexTrailers := regexpTrailer.FindAllIndex(*raw, -1)
 	if len(indexTrailers) <= 0 {
 		return errors.New("trailer not found")
 	}
 
-	tmp := (*raw)[indexTrailers[0][1]:]
-	indexStartxrefs := regexpStartxref.FindAllIndex(tmp, 1)
-	if len(indexStartxrefs) <= 0 {
-		return errors.New("startxref not found")
-	}
-
-	tmp = tmp[:indexStartxrefs[0][0]]
+	//pdf was updated incrementally if there is more than one trailer, the last one is the right one
 	var props PDFObjPropertiesData
-	err := readProperties(&tmp, &props)
-	if err != nil {
-		return err
+	for i := len(indexTrailers) - 1; i >= 0; i-- {
+		tmp := (*raw)[indexTrailers[i][0]+len("trailer"):]
+		if indexStartxref := regexpStartxref.FindIndex(tmp); indexStartxref == nil {
+			continue
+		}
+		var trailerProps PDFObjPropertiesData
+		err := readProperties(&tmp, &trailerProps)
+		if err != nil {
+			continue
+		}
+		if trailerProps.getPropByKey("Root") != nil {
+			props = trailerProps
+			break
+		}
 	}
 
 	propRoot := props.getPropByKey("Root")
diff --git a/regex.go b/regex.go
index 4fd4013..7c6e25b 100644
--- a/regex.go
+++ b/regex.go
@@ -7,5 +7,5 @@ var regexpXrefLine = regexp.MustCompile("[0-9]{10}[\\t ]+[0-9]{5}[\\t ][f,n]")
 var regexpStartObj = regexp.MustCompile("[0-9]+[\\n\\r\\t ]0[\\n\\r\\t ]obj")
 var regexpEndObj = regexp.MustCompile("endobj")
 var regexpEndStreamObj = regexp.MustCompile("endstream[\\n\\r\\t ]*endobj")
-var regexpTrailer = regexp.MustCompile("trailer")
+var regexpTrailer = regexp.MustCompile("trailer([\\x00\\t\\n\\f\\r ]|%[^\\r\\n]*)*<<") //"trailer" can be in content of stream too
 var regexpStartxref = regexp.MustCompile("startxref")
-- 
2.43.0


From 47cafe354b40e053a08cd2d8659f480d43384cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:24 +0000
Subject: [PATCH 38/50] fix: names as values are not keys of the dictionary

---
 pdf_data.go                | 4 ++--
 pdf_obj_properties_data.go | 6 ++++++
 pdf_obj_property_data.go   | 5 +++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 33f56dc..5ab01a2 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -108,7 +108,7 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 	}
 	getKids := func(id int) []int {
 		if props := getObjProps(id); props != nil {
-			if pages, kid := props.getPropByKey("Pages"), props.getPropByKey("Kids"); pages != nil && kid != nil {
+			if kid := props.getPropByKey("Kids"); kid != nil && props.isType("Pages") {
 				kidIDs, _, _ := kid.asDictionaryArr()
 				return kidIDs
 			}
@@ -117,7 +117,7 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 	}
 	isPage := func(id int) bool {
 		if props := getObjProps(id); props != nil {
-			return props.getPropByKey("Page") != nil
+			return props.isType("Page")
 		}
 		return false
 	}
diff --git a/pdf_obj_properties_data.go b/pdf_obj_properties_data.go
index 106b9a9..04ed025 100644
--- a/pdf_obj_properties_data.go
+++ b/pdf_obj_properties_data.go
@@ -22,6 +22,12 @@ func (p *PDFObjPropertiesData) getPropByKey(key string) *PDFObjPropertyData {
 	return nil
 }
 
+// isType check /Type
+func (p *PDFObjPropertiesData) isType(name string) bool {
+	prop := p.getPropByKey("Type")
+	return prop != nil && strings.TrimSpace(prop.rawVal) == "/"+name
+}
+
 func (p *PDFObjPropertiesData) at(i int) *PDFObjPropertyData {
 	return &(*p)[i]
 }
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index 900e0cf..5109810 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -162,8 +162,9 @@ func (p *parseProps) loop(i int, status string) (int, string) {
 				i, status = p.loop(i+1, "val")
 			} else if r == "<" || r == "[" {
 				i, status = p.loop(i, "val")
-			} else if r == "/" {
-				return i - 1, ""
+			} else if r == "/" { //value is name
+				p.props.at(p.propsIndex).rawVal = r
+				i, status = p.loop(i+1, "val")
 			} else {
 				p.props.at(p.propsIndex).key += r
 			}
-- 
2.43.0


From a308e2296c87055acd24ec54533ba814379976a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:27 +0000
Subject: [PATCH 39/50] fix: cells are not joined with preceding text

---
 minigopdf/cache_content_text.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 07b3ddf..f2836b1 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -37,8 +37,12 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
-		//if rectangle != nil we assumes this is not same content
+	if c.contentType != ContentTypeText || cache.contentType != ContentTypeText {
+		//only text can be joined, a cell has its own position
+		return false
+	}
+	if c.x+c.cellWidthPdfUnit != cache.x {
+		//current position was moved
 		return false
 	}
 	if c.textColor.equal(cache.textColor) &&
-- 
2.43.0


From 66b2c3da5ff79697b88e9bf2352abcda4eee95bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:27 +0000
Subject: [PATCH 40/50] fix: color of text does not leak into next contents of
 gopdf

---
 minigopdf/cache_content_text.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index f2836b1..d0f6d1f 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -131,6 +131,10 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 		return nil, err
 	}
 
+	isColored := (r != 0 || g != 0 || b != 0) && !c.mustSetColor
+	if isColored {
+		stream.WriteString("q\n") //color of text must not affect next contents
+	}
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
@@ -159,6 +163,10 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 		}
 	}
 
+	if isColored {
+		stream.WriteString("Q\n")
+	}
+
 	c.drawBorder(&stream)
 
 	return &stream, nil
-- 
2.43.0


From a12d6e57e070cddf2026809cd85d41df2fbfa3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 41/50] fix: indexed images in gopdf

---
 minigopdf/device_rgb_obj.go | 1 +
 minigopdf/image_obj.go      | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/minigopdf/device_rgb_obj.go b/minigopdf/device_rgb_obj.go
index 68b8228..7e1d725 100644
--- a/minigopdf/device_rgb_obj.go
+++ b/minigopdf/device_rgb_obj.go
@@ -43,6 +43,7 @@ func (d *DeviceRGBObj) build(objID int) error {
 		d.buffer.WriteString("\n")
 	} else {
 		d.buffer.Write(d.data)
+		d.buffer.WriteString("\n")
 	}
 	d.buffer.WriteString("endstream\n")
 
diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index be38a48..d268533 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -20,11 +20,11 @@ type ImageObj struct {
 	rawImgReader  *bytes.Reader
 	imginfo       imgInfo
 	pdfProtection *PDFProtection
-	//getRoot func() *GoPdf
+	getRoot       func() *GoPdf
 }
 
 func (i *ImageObj) init(funcGetRoot func() *GoPdf) {
-
+	i.getRoot = funcGetRoot
 }
 
 // SetSMaskObjID set objId of SMask
@@ -112,6 +112,7 @@ func (i *ImageObj) createSMask() (*SMask, error) {
 
 func (i *ImageObj) createDeviceRGB() (*DeviceRGBObj, error) {
 	var dRGB DeviceRGBObj
+	dRGB.init(i.getRoot)
 	dRGB.data = i.imginfo.pal
 	return &dRGB, nil
 }
-- 
2.43.0


From 627786f0104d8fb732721aea5192a7b30a2f3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:06 +0000
Subject: [PATCH 42/50] fix: length of encrypted images and masks

---
 minigopdf/image_obj.go | 1 -
 minigopdf/smask_obj.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index d268533..8edf3a9 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -72,7 +72,6 @@ func (i *ImageObj) build(objID int) error {
 			return err
 		}
 		i.buffer.Write(tmp)
-		i.buffer.WriteString("\n")
 	} else {
 		i.buffer.Write(i.imginfo.data)
 	}
diff --git a/minigopdf/smask_obj.go b/minigopdf/smask_obj.go
index 9338bba..08eb5aa 100644
--- a/minigopdf/smask_obj.go
+++ b/minigopdf/smask_obj.go
@@ -52,7 +52,6 @@ func (s *SMask) build(objID int) error {
 			return err
 		}
 		s.buffer.Write(tmp)
-		s.buffer.WriteString("\n")
 	} else {
 		s.buffer.Write(s.data)
 	}
-- 
2.43.0


From 1e81e967c331e944ea98b2b95c7e37c84dbde72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:37 +0000
Subject: [PATCH 43/50] fix: objects with generation number other than 0 were
 lost, generation numbers of template were not kept

---
 minigopdf/pdf_protection.go | 11 ++++++++++-
 page_resources.go           |  2 +-
 pdf_data.go                 | 27 ++++++++++++++++++++++-----
 pdf_obj_data.go             |  6 ++++--
 pdft.go                     | 28 +++++++++++++++++-----------
 regex.go                    |  2 +-
 6 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 9fb7493..c8b704d 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -132,10 +132,19 @@ func (p *PDFProtection) Objectkey(objID int) []byte {
 	return p.objectkey(objID)
 }
 
+// ObjectkeyOfGen create object key from ObjID and generation number
+func (p *PDFProtection) ObjectkeyOfGen(objID int, genID int) []byte {
+	return p.objectkeyOfGen(objID, genID)
+}
+
 func (p *PDFProtection) objectkey(n int) []byte {
+	return p.objectkeyOfGen(n, 0)
+}
+
+func (p *PDFProtection) objectkeyOfGen(n int, gen int) []byte {
 	tmp := make([]byte, 8, 8)
 	binary.LittleEndian.PutUint32(tmp, uint32(n))
-	tmp2 := append(p.encryptionKey, tmp[0], tmp[1], tmp[2], 0, 0)
+	tmp2 := append(p.encryptionKey, tmp[0], tmp[1], tmp[2], byte(gen), byte(gen>>8))
 	tmp3 := md5.Sum(tmp2)
 	return tmp3[0:10]
 }
diff --git a/page_resources.go b/page_resources.go
index 129a28d..3eb10c2 100644
--- a/page_resources.go
+++ b/page_resources.go
@@ -51,7 +51,7 @@ func (p *PDFData) setPageParent(pageObjID int, parentObjID int) error {
 	} else if id, _, err := parent.asDictionary(); err == nil && id == parentObjID {
 		return nil
 	}
-	parent.setAsDictionary(parentObjID, 0)
+	parent.setAsDictionary(parentObjID, p.genIDs([]int{parentObjID})[0])
 	for _, key := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
 		if props.getPropByKey(key) != nil {
 			continue
diff --git a/pdf_data.go b/pdf_data.go
index 5ab01a2..1d2452a 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -37,6 +37,7 @@ func (p *PDFData) put(pdfobj PDFObjData) {
 func (p *PDFData) putNewObject(pdfobj PDFObjData) int {
 	newObjID := p.maxID() + 1
 	pdfobj.objID = newObjID
+	pdfobj.genID = 0
 	p.put(pdfobj)
 	return newObjID
 }
@@ -62,6 +63,17 @@ func (p *PDFData) getObjByID(objID int) *PDFObjData {
 	return nil
 }
 
+// genIDs get generation numbers of objects
+func (p *PDFData) genIDs(objIDs []int) []int {
+	genIDs := make([]int, len(objIDs))
+	for n, objID := range objIDs {
+		if obj := p.getObjByID(objID); obj != nil {
+			genIDs[n] = obj.genID
+		}
+	}
+	return genIDs
+}
+
 // rootPagesID get ID of root of page tree
 func (p *PDFData) rootPagesID() (int, error) {
 	rootObj := p.getObjByID(p.trailer.rootObjID)
@@ -254,7 +266,7 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 		if props.getPropByKey("Contents") == nil {
 			props.append(PDFObjPropertyData{key: "Contents"})
 		}
-		props.getPropByKey("Contents").setAsDictionaryArr(contentsObjIDs, nil)
+		props.getPropByKey("Contents").setAsDictionaryArr(contentsObjIDs, p.genIDs(contentsObjIDs))
 		p.getObjByID(pageObjID).setProperties(props)
 	}
 
@@ -319,14 +331,19 @@ func (p *PDFData) contentsObjIDs(pageProps *PDFObjPropertiesData) ([]int, error)
 
 var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
-func objIDFromStartObjLine(line string) (int, error) {
+// objIDFromStartObjLine get ID and generation number
+func objIDFromStartObjLine(line string) (int, int, error) {
 	tokens := strings.Fields(line)
 	if len(tokens) < 3 {
-		return 0, errors.New("bad start obj")
+		return 0, 0, errors.New("bad start obj")
 	}
 	id, err := strconv.Atoi(strings.TrimSpace(tokens[0]))
 	if err != nil {
-		return 0, err
+		return 0, 0, err
 	}
-	return id, nil
+	gen, err := strconv.Atoi(strings.TrimSpace(tokens[1]))
+	if err != nil {
+		return 0, 0, err
+	}
+	return id, gen, nil
 }
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 3c276d2..a467568 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -12,6 +12,7 @@ import (
 // PDFObjData byte of obj
 type PDFObjData struct {
 	objID int
+	genID int //generation number
 	data  []byte
 }
 
@@ -34,12 +35,13 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 		return errors.New("bad endobj")
 	}
 	data := tmp[:contentEnd+endObjIndex[0]]
-	objID, err := objIDFromStartObjLine(string(startObjLine))
+	objID, genID, err := objIDFromStartObjLine(string(startObjLine))
 	if err != nil {
 		return err
 	}
 
 	p.objID = objID
+	p.genID = genID
 	p.data = data
 
 	return nil
@@ -66,7 +68,7 @@ func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 // encrypt encrypt stream and strings, length is /Length of stream or -1
 func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection, length int) error {
 
-	key := protection.Objectkey(p.objID)
+	key := protection.ObjectkeyOfGen(p.objID, p.genID)
 	start, isStream := streamStart(p.data)
 	if !isStream {
 		data, err := encryptStrings(p.data, key)
diff --git a/pdft.go b/pdft.go
index 0fb9fa3..d6af5e6 100644
--- a/pdft.go
+++ b/pdft.go
@@ -212,7 +212,7 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	}
 	nPage := len(pageObjIds)
 	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
-	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
+	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, i.pdf.genIDs(pageObjIds))
 	pagesObj.setProperties(props)
 
 	//every page is a kid of rootPagesID now
@@ -761,12 +761,12 @@ func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
 
 	var buff bytes.Buffer
 	buff.WriteString("%PDF-1.7\n\n")
-	xrefs := make(map[int]int)
+	xrefs := make(map[int]xrefrow)
 	for _, obj := range newpdf.objs {
 		//xrefs = append(xrefs, buff.Len())
 		//fmt.Printf("%d\n", obj.objID)
-		xrefs[obj.objID] = buff.Len()
-		buff.WriteString(fmt.Sprintf("\n%d 0 obj\n", obj.objID))
+		xrefs[obj.objID] = xrefrow{offset: buff.Len(), flag: "n", gen: fmt.Sprintf("%05d", obj.genID)}
+		buff.WriteString(fmt.Sprintf("\n%d %d obj\n", obj.objID, obj.genID))
 		buff.WriteString(strings.TrimSpace(string(obj.data)))
 		buff.WriteString("\nendobj\n")
 	}
@@ -774,7 +774,13 @@ func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
 	if newpdf.getObjByID(infoObjID) == nil {
 		infoObjID = 0
 	}
-	i.xref(xrefs, &buff, lastID, newpdf.trailer.rootObjID, infoObjID, encryptionObjID)
+	genIDs := newpdf.genIDs([]int{newpdf.trailer.rootObjID, infoObjID})
+	rootRef := fmt.Sprintf("%d %d R", newpdf.trailer.rootObjID, genIDs[0])
+	infoRef := ""
+	if infoObjID != 0 {
+		infoRef = fmt.Sprintf("%d %d R", infoObjID, genIDs[1])
+	}
+	i.xref(xrefs, &buff, lastID, rootRef, infoRef, encryptionObjID)
 
 	return &buff, nil
 }
@@ -785,7 +791,7 @@ type xrefrow struct {
 	flag   string
 }
 
-func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, infoObjID int, encryptionObjID int) {
+func (i *PDFt) xref(rows map[int]xrefrow, buff *bytes.Buffer, size int, rootRef string, infoRef string, encryptionObjID int) {
 	xrefbyteoffset := buff.Len()
 
 	//start xref
@@ -797,8 +803,8 @@ func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID i
 	j := 1
 	//fmt.Printf("size:%d\n", size)
 	for j <= size {
-		if linelen, ok := linelens[j]; ok {
-			xrefrows = append(xrefrows, xrefrow{offset: linelen, flag: "n", gen: "00000"})
+		if row, ok := rows[j]; ok {
+			xrefrows = append(xrefrows, row)
 		} else {
 			xrefrows = append(xrefrows, xrefrow{offset: 0, flag: "f", gen: "65535"})
 			offset := len(xrefrows) - 1
@@ -816,9 +822,9 @@ func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID i
 	buff.WriteString("trailer\n")
 	buff.WriteString("<<\n")
 	buff.WriteString(fmt.Sprintf("/Size %d\n", size+1))
-	buff.WriteString(fmt.Sprintf("/Root %d 0 R\n", rootID))
-	if infoObjID != 0 {
-		buff.WriteString(fmt.Sprintf("/Info %d 0 R\n", infoObjID))
+	buff.WriteString(fmt.Sprintf("/Root %s\n", rootRef))
+	if infoRef != "" {
+		buff.WriteString(fmt.Sprintf("/Info %s\n", infoRef))
 	}
 	if i.protection() != nil {
 		buff.WriteString(fmt.Sprintf("/Encrypt %d 0 R\n", encryptionObjID))
diff --git a/regex.go b/regex.go
index 7c6e25b..763c25e 100644
--- a/regex.go
+++ b/regex.go
@@ -4,7 +4,7 @@ import "regexp"
 
 var regexpXref = regexp.MustCompile("xref")
 var regexpXrefLine = regexp.MustCompile("[0-9]{10}[\\t ]+[0-9]{5}[\\t ][f,n]")
-var regexpStartObj = regexp.MustCompile("[0-9]+[\\n\\r\\t ]0[\\n\\r\\t ]obj")
+var regexpStartObj = regexp.MustCompile("[0-9]+[\\n\\r\\t ][0-9]+[\\n\\r\\t ]obj")
 var regexpEndObj = regexp.MustCompile("endobj")
 var regexpEndStreamObj = regexp.MustCompile("endstream[\\n\\r\\t ]*endobj")
 var regexpTrailer = regexp.MustCompile("trailer([\\x00\\t\\n\\f\\r ]|%[^\\r\\n]*)*<<") //"trailer" can be in content of stream too
-- 
2.43.0


From 7ed9e9211b4a1c24f62a548f8a9d6ff270b65cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:43 +0000
Subject: [PATCH 44/50] fix: y was measured from the bottom of page if corners
 of MediaBox are swapped

---
 pdft.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index d6af5e6..e0a4278 100644
--- a/pdft.go
+++ b/pdft.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -371,7 +372,7 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 func (i *PDFt) pageHeight(pageNum int) float64 {
 	pageIndex := pageNum - 1
 	if val, ok := i.pdf.pageSizes[pageIndex]; ok {
-		return val[3]
+		return math.Max(val[1], val[3]) //corners can be in any order
 	}
 	return 841.89 //A4
 }
-- 
2.43.0


From 5821ad2a884371ce2e5c39554872a8e8becd2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:49 +0000
Subject: [PATCH 45/50] fix: new resource could get the name of a resource of
 template that is written with #

---
 page_resources.go |  2 +-
 pdf_scan.go       | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/page_resources.go b/page_resources.go
index 3eb10c2..4320155 100644
--- a/page_resources.go
+++ b/page_resources.go
@@ -96,7 +96,7 @@ func (p *PDFData) pageResourceNames(category string) ([]string, error) {
 			return nil, err
 		}
 		for _, prop := range *itemProps {
-			names = append(names, strings.TrimSpace(prop.key))
+			names = append(names, decodeName(strings.TrimSpace(prop.key)))
 		}
 	}
 	return names, nil
diff --git a/pdf_scan.go b/pdf_scan.go
index e4a918f..a2f0468 100644
--- a/pdf_scan.go
+++ b/pdf_scan.go
@@ -233,3 +233,20 @@ func decodeHexString(s []byte) []byte {
 	}
 	return out
 }
+
+// decodeName decode #xx in name
+func decodeName(s string) string {
+	var out []byte
+	for i := 0; i < len(s); i++ {
+		if s[i] == '#' && i+2 < len(s) {
+			n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
+			if err == nil {
+				out = append(out, byte(n))
+				i += 2
+				continue
+			}
+		}
+		out = append(out, s[i])
+	}
+	return string(out)
+}
-- 
2.43.0


From 037116831a62bdf9c7f98321d529381bcde679de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:56 +0000
Subject: [PATCH 46/50] fix: pages were not found if /Kids refers to an array
 object

---
 pdf_data.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index 1d2452a..feeab05 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -121,7 +121,15 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 	getKids := func(id int) []int {
 		if props := getObjProps(id); props != nil {
 			if kid := props.getPropByKey("Kids"); kid != nil && props.isType("Pages") {
-				kidIDs, _, _ := kid.asDictionaryArr()
+				raw := kid.rawVal
+				if kid.valType() != array { //refer to other object
+					if kidsID, _, err := kid.asDictionary(); err == nil {
+						if kidsObj := p.getObjByID(kidsID); kidsObj != nil {
+							raw = string(kidsObj.data)
+						}
+					}
+				}
+				kidIDs, _, _ := readObjIDFromDictionaryArr(raw)
 				return kidIDs
 			}
 		}
-- 
2.43.0


From 05f52cd2fa05e79210d878a9344ea714422ce9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:29 +0000
Subject: [PATCH 47/50] fix: encrypted pdf was opened and saved as a file that
 can not be read

---
 pdf_parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf_parse.go b/pdf_parse.go
index f88e757..0b6d102 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -143,6 +143,11 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 		return errors.New("/Root not found")
 	}
 
+	//contents of encrypted pdf can not be read and /Encrypt is not kept when the pdf is saved
+	if props.getPropByKey("Encrypt") != nil {
+		return errors.New("encrypted pdf is not supported")
+	}
+
 	rootID, _, err := propRoot.asDictionary()
 	if err != nil {
 		return err
-- 
2.43.0


From 04e84be9660ccba37f0a7c27860c60d83174cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:37 +0000
Subject: [PATCH 48/50] fix: only last kern subtable of font was used

---
 minigopdf/fontmaker/core/ttfparser_kern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/ttfparser_kern.go b/minigopdf/fontmaker/core/ttfparser_kern.go
index 92315b7..c8d9b26 100644
--- a/minigopdf/fontmaker/core/ttfparser_kern.go
+++ b/minigopdf/fontmaker/core/ttfparser_kern.go
@@ -29,6 +29,7 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 		return err
 	}
 	t.kern.NTables = nTables
+	t.kern.Kerning = make(KernMap) //init, subtables add to it
 
 	i := uint(0)
 	for i < nTables {
@@ -53,7 +54,6 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 
 	format := coverage & 0xf0
 	//fmt.Printf("format = %d\n", format) //debug
-	t.kern.Kerning = make(KernMap) //init
 	if format == 0 {
 		t.parsekernSubTableFormat0(fd)
 	} else {
-- 
2.43.0


From 4f29d04af31ee5482cd62cf4ee1ce5762f6c0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 49/50] fix: content of streams was read as xref and trailer

A stream that contains another pdf (e.g. attached file that is not
compressed) has its own xref and trailer. Tables are found by following
startxref and /Prev now, all of rows are searched only if startxref is wrong.
---
 pdf_parse.go | 71 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/pdf_parse.go b/pdf_parse.go
index 0b6d102..a3afc50 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -1,6 +1,7 @@
 package pdft
 
 import (
+	"bytes"
 	"errors"
 	"io"
 	"io/ioutil"
@@ -122,6 +123,14 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
 	//pdf was updated incrementally if there is more than one trailer, the last one is the right one
 	var props PDFObjPropertiesData
+	if tables, ok := readXrefTables(*raw); ok {
+		indexTrailers = nil //content of stream can look like trailer
+		for _, table := range tables {
+			if table.trailer.getPropByKey("Root") != nil {
+				props = table.trailer
+			}
+		}
+	}
 	for i := len(indexTrailers) - 1; i >= 0; i-- {
 		tmp := (*raw)[indexTrailers[i][0]+len("trailer"):]
 		if indexStartxref := regexpStartxref.FindIndex(tmp); indexStartxref == nil {
@@ -164,8 +173,70 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 	return nil
 }
 
+// xrefTable table of xref and its trailer
+type xrefTable struct {
+	rows    [][]byte
+	trailer PDFObjPropertiesData
+}
+
+// readXrefTables read tables by following startxref and /Prev, the oldest table is the first one.
+// return false if any of them is not found.
+func readXrefTables(raw []byte) ([]xrefTable, bool) {
+	index := bytes.LastIndex(raw, []byte("startxref"))
+	if index == -1 {
+		return nil, false
+	}
+	tokens := bytes.Fields(raw[index+len("startxref"):])
+	if len(tokens) == 0 {
+		return nil, false
+	}
+	offset := string(tokens[0])
+	var tables []xrefTable
+	visited := make(map[int]bool)
+	for {
+		start, err := strconv.Atoi(strings.TrimSpace(offset))
+		if err != nil || start < 0 || start >= len(raw) || visited[start] {
+			return nil, false
+		}
+		visited[start] = true
+		tmp := raw[skipSpace(raw, start):]
+		indexTrailer := regexpTrailer.FindIndex(tmp)
+		if !bytes.HasPrefix(tmp, []byte("xref")) || indexTrailer == nil {
+			return nil, false
+		}
+		var table xrefTable
+		table.rows = regexpXrefLine.FindAll(tmp[:indexTrailer[0]], -1)
+		tmp = tmp[indexTrailer[0]+len("trailer"):]
+		err = readProperties(&tmp, &table.trailer)
+		if err != nil {
+			return nil, false
+		}
+		tables = append([]xrefTable{table}, tables...)
+		prev := table.trailer.getPropByKey("Prev")
+		if prev == nil {
+			return tables, true
+		}
+		offset = prev.rawVal
+	}
+}
+
 func parseXref(raw *[]byte, pdf *PDFData) error {
 
+	if tables, ok := readXrefTables(*raw); ok {
+		for _, table := range tables {
+			for _, row := range table.rows {
+				var xref XrefData
+				err := xref.parse(string(row))
+				if err != nil {
+					return err
+				}
+				pdf.xrefs = append(pdf.xrefs, xref)
+			}
+		}
+		return nil
+	}
+
+	//startxref is wrong, find all of rows
 	indexXrefs := regexpXref.FindAllIndex(*raw, 1)
 	if len(indexXrefs) <= 0 {
 		return errors.New("xref not found")
-- 
2.43.0


From 96b1d8b1585f29f922a4f72024654a177ef8a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 50/50] fix: object that was deleted by incremental update was
 restored

Rows "f" of newer tables of xref are used to remove objects of older tables,
references to them are null again.
---
 pdf_parse.go | 45 +++++++++++++++++++++++++++++++++++----------
 xref_data.go |  1 +
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/pdf_parse.go b/pdf_parse.go
index a3afc50..a44c9ef 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -175,7 +175,7 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
 // xrefTable table of xref and its trailer
 type xrefTable struct {
-	rows    [][]byte
+	rows    []XrefData
 	trailer PDFObjPropertiesData
 }
 
@@ -205,7 +205,10 @@ func readXrefTables(raw []byte) ([]xrefTable, bool) {
 			return nil, false
 		}
 		var table xrefTable
-		table.rows = regexpXrefLine.FindAll(tmp[:indexTrailer[0]], -1)
+		table.rows, err = readXrefRows(tmp[:indexTrailer[0]])
+		if err != nil {
+			return nil, false
+		}
 		tmp = tmp[indexTrailer[0]+len("trailer"):]
 		err = readProperties(&tmp, &table.trailer)
 		if err != nil {
@@ -220,18 +223,35 @@ func readXrefTables(raw []byte) ([]xrefTable, bool) {
 	}
 }
 
+// readXrefRows read all of rows of table, and ID of objects of rows
+func readXrefRows(raw []byte) ([]XrefData, error) {
+	var rows []XrefData
+	objID, end := 0, 0
+	for _, xrefLine := range regexpXrefLine.FindAllIndex(raw, -1) {
+		var xref XrefData
+		err := xref.parse(string(raw[xrefLine[0]:xrefLine[1]]))
+		if err != nil {
+			return nil, err
+		}
+		objID++
+		if tokens := bytes.Fields(raw[end:xrefLine[0]]); len(tokens) >= 2 { //start of subsection
+			objID, err = strconv.Atoi(string(tokens[len(tokens)-2]))
+			if err != nil {
+				return nil, err
+			}
+		}
+		end = xrefLine[1]
+		xref.objID = objID
+		rows = append(rows, xref)
+	}
+	return rows, nil
+}
+
 func parseXref(raw *[]byte, pdf *PDFData) error {
 
 	if tables, ok := readXrefTables(*raw); ok {
 		for _, table := range tables {
-			for _, row := range table.rows {
-				var xref XrefData
-				err := xref.parse(string(row))
-				if err != nil {
-					return err
-				}
-				pdf.xrefs = append(pdf.xrefs, xref)
-			}
+			pdf.xrefs = append(pdf.xrefs, table.rows...)
 		}
 		return nil
 	}
@@ -273,6 +293,11 @@ func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
 				continue
 			}
 			pdf.put(pdfobj)
+		} else if pdf.getObjByID(xref.objID) != nil { //object was deleted by incremental update
+			err := pdf.removeObjByID(xref.objID)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	//fmt.Printf("parseObjOnlyKeywordN = %d\n", pdf.Len())
diff --git a/xref_data.go b/xref_data.go
index 42a9735..288bcf2 100644
--- a/xref_data.go
+++ b/xref_data.go
@@ -11,6 +11,7 @@ type XrefData struct {
 	N10Digit int    //nnnnnnnnnn
 	G5Digit  int    //ggggg
 	Keyword  string //x
+	objID    int    //0 if not known
 }
 
 func (x *XrefData) parse(xrefline string) error {
-- 
2.43.0

