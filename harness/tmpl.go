package main

// Synthetic PDF templates built from descriptors chosen by the specification.

import (
	"bytes"
	"compress/zlib"
	"encoding/hex"
	"fmt"
	"os"
	"sort"
	"strings"
)

type PageD struct {
	W     int      `json:"w"` // hundredths of a point
	H     int      `json:"h"`
	LLX   int      `json:"llx"`
	LLY   int      `json:"lly"`
	Swap  bool     `json:"swap"` // the corners of the box are given in the other order
	Rot   string   `json:"rot"`  // "" | page | inh
	Crop  string   `json:"crop"` // "" | inh
	MB    string   `json:"mb"`   // page | inh | ind
	Res   string   `json:"res"`  // inline | ind | shared | inh | none
	FD    string   `json:"fd"`   // inline | ind | none
	XD    string   `json:"xd"`
	Fonts []string `json:"fonts"`
	XObjs []string `json:"xobjs"`
	Con   string   `json:"con"` // one | arr | arr1 | none | indarr | shared | empty
	Filt  string   `json:"filt"`
	State string   `json:"state"` // bal | cm | color | clip | text | q
	Extra []int    `json:"extra"`
	Ent   []string `json:"ent"`  // raw extra entries of the page
	REnt  []string `json:"rent"` // raw extra entries of its resource dictionary
}

type TmplD struct {
	File   string   `json:"file"`
	Tree   string   `json:"tree"` // flat | nested | deep | mixed
	Pages  []PageD  `json:"pages"`
	IDs    string   `json:"ids"` // seq | gap | rev
	EOL    string   `json:"eol"` // n | rn | r
	Inc    bool     `json:"inc"`
	Upd    string   `json:"upd"` // what the update does besides: "" | gen: numbers get reused | root: another catalog and info | multi: two updates | more: new objects | free: removes an object
	LenInd bool     `json:"lenind"`
	Info   bool     `json:"info"`
	Outl   bool     `json:"outl"`
	Sty    int      `json:"sty"`
	Ord    int      `json:"ord"`
	Bin    bool     `json:"bin"` // binary streams containing PDF keywords
	Huge   int      `json:"huge"`
	Base   int      `json:"base"`  // object numbers jump by this
	Bad    string   `json:"bad"`   // deliberately broken template
	NEnt   []string `json:"nent"`  // raw extra entries of the root of the page tree
	Gens   bool     `json:"gens"`  // some objects have another generation number
	XEol   string   `json:"xeol"`  // end of the rows of the table: "" | rn | r
	Subs   bool     `json:"subs"`  // table with subsections, without rows for unused numbers
	Skw    string   `json:"skw"`   // after the stream keyword: "" | rn
	NoEol  bool     `json:"noeol"` // no end of line before endstream
	Top    string   `json:"top"`   // inherited values: "" at the parent | root: at the root of the tree | decoy: others at the root
	Kind   string   `json:"kind"`  // "" | kids: arrays of kids are objects of their own | count: the counts too
	Lin    bool     `json:"lin"`   // two tables, the first one for the first half of the objects at the start (linearized)
}

type tb struct {
	t     TmplD
	names []string
	num   map[string]int
	gen   map[string]func() string
	eol   string
	bump  map[int]bool // numbers that the update reuses with the next generation
}

func (b *tb) obj(name string, f func() string) {
	if _, ok := b.gen[name]; !ok {
		b.names = append(b.names, name)
	}
	b.gen[name] = f
}
func (b *tb) ref(name string) string {
	n, ok := b.num[name]
	if !ok {
		panic("no object " + name)
	}
	return fmt.Sprintf("%d %d R", n, b.genOf(n))
}

// genOf: the generation number of an object
func (b *tb) genOf(n int) int {
	g := 0
	if b.t.Gens && n%3 == 1 {
		g = 1 + n%300*7
	}
	if b.bump[n] {
		g++
	}
	return g
}

func (b *tb) dict(pairs ...string) string {
	type kv struct{ k, v string }
	var ps []kv
	for i := 0; i+1 < len(pairs); i += 2 {
		ps = append(ps, kv{pairs[i], pairs[i+1]})
	}
	if n := len(ps); n > 1 && b.t.Ord > 0 {
		r := b.t.Ord % n
		ps = append(append([]kv{}, ps[r:]...), ps[:r]...)
	}
	var sb strings.Builder
	switch b.t.Sty {
	case 1: // compact
		sb.WriteString("<<")
		for _, p := range ps {
			sb.WriteString("/" + p.k)
			if c := p.v[0]; c != '/' && c != '[' && c != '<' && c != '(' {
				sb.WriteString(" ")
			}
			sb.WriteString(p.v)
		}
		sb.WriteString(">>")
	case 2: // generous white space
		sb.WriteString("<< \t")
		for _, p := range ps {
			sb.WriteString(b.eol + "  /" + p.k + "\t\f \r\n \x00 " + p.v + " \f " + b.eol)
		}
		sb.WriteString(b.eol + ">>")
	case 3: // comments
		sb.WriteString("<<% page >> /X" + b.eol)
		for _, p := range ps {
			sb.WriteString("/" + p.k + " " + p.v + " % (note]" + b.eol)
		}
		sb.WriteString(">>")
	default:
		sb.WriteString("<<" + b.eol)
		for _, p := range ps {
			sb.WriteString("/" + p.k + " " + p.v + b.eol)
		}
		sb.WriteString(">>")
	}
	return sb.String()
}

// addRaw puts raw entries into a dictionary: first, last or around the others
func (b *tb) addRaw(d string, ent []string) string {
	if len(ent) == 0 {
		return d
	}
	e := strings.Join(ent, "")
	switch b.t.Ord % 3 {
	case 1:
		return "<<" + e + strings.TrimPrefix(d, "<<")
	case 2:
		return "<<" + ent[0] + strings.TrimPrefix(strings.TrimSuffix(d, ">>"), "<<") + strings.Join(ent[1:], "") + ">>"
	}
	return strings.TrimSuffix(d, ">>") + e + ">>"
}

func deflate(b []byte) []byte {
	var o bytes.Buffer
	w := zlib.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func (b *tb) stream(name string, data []byte, filt string, pairs ...string) {
	enc := data
	var fp []string
	switch filt {
	case "flate":
		enc = deflate(data)
		fp = []string{"Filter", "/FlateDecode"}
	case "array":
		enc = deflate(data)
		fp = []string{"Filter", "[/FlateDecode]"}
	case "hex":
		enc = []byte(hex.EncodeToString(data) + ">")
		fp = []string{"Filter", "/ASCIIHexDecode"}
	case "hexflate":
		enc = []byte(hex.EncodeToString(deflate(data)) + ">")
		fp = []string{"Filter", "[/ASCIIHexDecode /FlateDecode]"}
	}
	nl, end := "\n", b.eol
	if b.t.Skw == "rn" {
		nl = "\r\n"
	}
	if b.t.NoEol {
		end = ""
	}
	if b.t.LenInd {
		ln := name + ".len"
		b.obj(ln, func() string { return fmt.Sprint(len(enc)) })
		b.obj(name, func() string {
			return b.dict(append(append(append([]string{}, pairs...), fp...), "Length", b.ref(ln))...) + b.eol + "stream" + nl + string(enc) + end + "endstream"
		})
		return
	}
	b.obj(name, func() string {
		return b.dict(append(append(append([]string{}, pairs...), fp...), "Length", fmt.Sprint(len(enc)))...) + b.eol + "stream" + nl + string(enc) + end + "endstream"
	})
}

func pt2(v int) string {
	if v%100 == 0 {
		return fmt.Sprint(v / 100)
	}
	return fmt.Sprintf("%.2f", float64(v)/100)
}

func esc(s string) string { // name escape for odd names
	return s
}

func (b *tb) pageContent(j int, p PageD) []byte {
	var c strings.Builder
	fn, xn := "", ""
	if p.Res != "none" {
		if len(p.Fonts) > 0 && p.FD != "none" {
			fn = p.Fonts[0]
		}
		if len(p.XObjs) > 0 && p.XD != "none" {
			xn = p.XObjs[0]
		}
	}
	c.WriteString("q 0.5 0.25 0 rg " + fmt.Sprint(10+j) + " 20 30 40 re f Q\n")
	if fn != "" {
		fmt.Fprintf(&c, "BT /%s %d Tf 1 0 0 1 %d 60 Tm (Page %d \\(x\\) of tmpl) Tj ET\n", fn, 9+j, 50+j, j)
	}
	if xn != "" {
		fmt.Fprintf(&c, "q %d 0 0 15 7 8 cm /%s Do Q\n", 20+j, xn)
	}
	switch p.State {
	case "cm":
		c.WriteString("0.5 0 0 0.5 30 40 cm 1 0 0 RG 5 w\n")
		fmt.Fprintf(&c, "1 1 m %d 9 l S\n", 30+j)
	case "color":
		c.WriteString("0 1 0 rg 1 0 0 RG 3 w [4 2] 1 d\n")
	case "clip":
		c.WriteString("0 0 50 50 re W n\n")
	case "text":
		c.WriteString("BT 5 Tc 3 Tw 50 Tz 4 Ts 1 Tr ET\n")
	case "q":
		c.WriteString("q 2 0 0 2 0 0 cm q 0 0 1 rg Q Q 0 0 1 rg 0.9 0 0 0.9 1 2 cm\n")
	}
	if p.State == "sp" { // ends without white space
		return []byte(strings.TrimSpace(c.String()))
	}
	return []byte(c.String())
}

func buildTemplate(t TmplD) []byte {
	if t.File != "" {
		raw, err := os.ReadFile(repoDir + "/test/pdf/" + t.File)
		if err != nil {
			panic(err)
		}
		return raw
	}
	t.Pages = append([]PageD{}, t.Pages...)
	b := &tb{t: t, num: map[string]int{}, gen: map[string]func() string{}}
	b.eol = map[string]string{"rn": "\r\n", "r": "\r"}[t.EOL]
	if b.eol == "" {
		b.eol = "\n"
	}
	n := len(t.Pages)
	b.obj("cat", func() string {
		ps := []string{"Type", "/Catalog", "Pages", b.ref("pages")}
		if t.Outl {
			ps = append(ps, "Outlines", b.ref("outl"), "PageMode", "/UseOutlines")
		}
		return b.dict(ps...)
	})
	// ---- page tree ----
	type node struct {
		name, parent string
		kids         []string
		count        int
		pg           []int
	}
	nodes := []*node{{name: "pages", count: n}}
	root := nodes[0]
	parentOf := make([]string, n)
	sub := func(parent *node, name string, from, to int) *node {
		nd := &node{name: name, parent: parent.name, count: to - from}
		parent.kids = append(parent.kids, name)
		nodes = append(nodes, nd)
		return nd
	}
	put := func(nd *node, from, to int) {
		for i := from; i < to; i++ {
			nd.kids = append(nd.kids, fmt.Sprintf("page%d", i+1))
			nd.pg = append(nd.pg, i)
			parentOf[i] = nd.name
		}
	}
	switch t.Tree {
	case "nested":
		h := (n + 1) / 2
		put(sub(root, "pt1", 0, h), 0, h)
		if n > h {
			put(sub(root, "pt2", h, n), h, n)
		}
	case "deep":
		a := sub(root, "pt1", 0, n)
		bb := sub(a, "pt2", 0, n)
		put(sub(bb, "pt3", 0, n), 0, n)
	case "mixed":
		put(root, 0, 1)
		if n > 1 {
			a := sub(root, "pt1", 1, n)
			put(a, 1, 2)
			if n > 2 {
				put(sub(a, "pt2", 2, n), 2, n)
			}
		}
	case "hollow": // nodes without pages between the others
		sub(root, "pt1", 0, 0)
		h := n / 2
		a := sub(root, "pt2", 0, h)
		put(a, 0, h)
		sub(a, "pt3", h, h)
		put(root, h, n)
		sub(root, "pt4", n, n)
	default:
		put(root, 0, n)
	}
	mb := func(p PageD) string {
		if p.Swap {
			return fmt.Sprintf("[%s %s %s %s]", pt2(p.W), pt2(p.H), pt2(p.LLX), pt2(p.LLY))
		}
		return fmt.Sprintf("[%s %s %s %s]", pt2(p.LLX), pt2(p.LLY), pt2(p.W), pt2(p.H))
	}
	// inherited attributes come from the parent node of the page: all pages below it agree on them when "inh"
	if t.Top == "root" {
		for _, nd := range nodes[1:] {
			root.pg = append(root.pg, nd.pg...)
			nd.pg = nil
		}
	}
	for _, nd := range nodes {
		nd := nd
		var inhBox, inhRes *PageD
		rot, crop := false, false
		for _, i := range nd.pg {
			p := t.Pages[i]
			if p.MB == "inh" && inhBox == nil {
				q := p
				inhBox = &q
			}
			rot = rot || p.Rot == "inh"
			crop = crop || p.Crop == "inh"
			if p.Res == "inh" && inhRes == nil {
				q := p
				inhRes = &q
			}
		}
		for _, i := range nd.pg {
			if t.Pages[i].MB == "inh" {
				t.Pages[i].W, t.Pages[i].H, t.Pages[i].LLX, t.Pages[i].LLY, t.Pages[i].Swap = inhBox.W, inhBox.H, inhBox.LLX, inhBox.LLY, inhBox.Swap
			}
			if t.Pages[i].Res == "inh" {
				t.Pages[i].Fonts, t.Pages[i].XObjs, t.Pages[i].FD, t.Pages[i].XD = inhRes.Fonts, inhRes.XObjs, inhRes.FD, inhRes.XD
			}
		}
		decoy := t.Top == "decoy" && nd == root
		if decoy {
			b.prepRes(PageD{Fonts: []string{"F9"}, XObjs: []string{"I9"}, FD: "ind"}, "decoy")
		}
		kidsOf := func() string {
			var ks []string
			for _, k := range nd.kids {
				ks = append(ks, b.ref(k))
			}
			return "[" + strings.Join(ks, " ") + "]"
		}
		if t.Kind != "" {
			b.obj(nd.name+".kids", kidsOf)
			b.obj(nd.name+".count", func() string { return fmt.Sprint(nd.count) })
		}
		b.obj(nd.name, func() string {
			ks, n := kidsOf(), fmt.Sprint(nd.count)
			if t.Kind != "" {
				ks = b.ref(nd.name + ".kids")
			}
			if t.Kind == "count" {
				n = b.ref(nd.name + ".count")
			}
			ps := []string{"Type", "/Pages", "Kids", ks, "Count", n}
			if nd.parent != "" {
				ps = append(ps, "Parent", b.ref(nd.parent))
			}
			if inhBox != nil {
				ps = append(ps, "MediaBox", mb(*inhBox))
			} else if decoy {
				ps = append(ps, "MediaBox", "[0 0 77 66]")
			}
			if inhRes != nil {
				ps = append(ps, "Resources", b.resDict(*inhRes, nd.name))
			} else if decoy {
				ps = append(ps, "Resources", b.resDict(PageD{Fonts: []string{"F9"}, XObjs: []string{"I9"}, FD: "ind"}, "decoy"))
			}
			if rot {
				ps = append(ps, "Rotate", "90")
			} else if decoy {
				ps = append(ps, "Rotate", "270")
			}
			if crop {
				ps = append(ps, "CropBox", "[ 0 1 99.5 100 ]")
			}
			if nd.parent == "" {
				return b.addRaw(b.dict(ps...), t.NEnt)
			}
			return b.dict(ps...)
		})
	}
	// shared resources
	var sharedRes *PageD
	for i := range t.Pages {
		if t.Pages[i].Res == "shared" {
			if sharedRes == nil {
				q := t.Pages[i]
				sharedRes = &q
			}
			t.Pages[i].Fonts, t.Pages[i].XObjs, t.Pages[i].FD, t.Pages[i].XD = sharedRes.Fonts, sharedRes.XObjs, sharedRes.FD, sharedRes.XD
		}
	}
	if sharedRes != nil {
		q := *sharedRes
		b.prepRes(q, "sres")
		b.obj("sres", func() string { return b.resDict(q, "sres") })
	}
	for _, nd := range nodes {
		for _, i := range nd.pg {
			if t.Pages[i].Res == "inh" {
				b.prepRes(t.Pages[i], nd.name)
			}
		}
	}
	sharedCon := ""
	for i := range t.Pages {
		i := i
		p := t.Pages[i]
		j := i + 1
		pn := fmt.Sprintf("page%d", j)
		var con string // name(s)
		var cons []string
		switch p.Con {
		case "none":
		case "arr", "indarr":
			data := b.pageContent(j, p)
			k := bytes.Index(data, []byte("Q\n")) + 2
			if k < 2 {
				k = 0
			}
			b.stream(pn+".c1", data[:k], p.Filt)
			b.stream(pn+".c2", data[k:], p.Filt)
			cons = []string{pn + ".c1", pn + ".c2"}
			if p.Con == "indarr" {
				b.obj(pn+".ca", func() string { return "[" + b.ref(cons[0]) + " " + b.ref(cons[1]) + "]" })
				con = pn + ".ca"
			}
		case "arr5": // many streams, cut between lines
			ls := bytes.SplitAfter(b.pageContent(j, p), []byte("\n"))
			for k := 0; k < 5; k++ {
				nm := fmt.Sprintf("%s.c%d", pn, k+1)
				b.stream(nm, bytes.Join(ls[k*len(ls)/5:(k+1)*len(ls)/5], nil), p.Filt)
				cons = append(cons, nm)
			}
		case "arr1":
			b.stream(pn+".c1", b.pageContent(j, p), p.Filt)
			cons = []string{pn + ".c1"}
		case "arr0":
			cons = []string{}
		case "empty":
			b.stream(pn+".c", nil, "")
			con = pn + ".c"
		case "shared":
			if sharedCon == "" {
				sharedCon = "scon"
				b.stream("scon", b.pageContent(0, PageD{Res: "none"}), p.Filt)
			}
			con = sharedCon
		default:
			b.stream(pn+".c", b.pageContent(j, p), p.Filt)
			con = pn + ".c"
		}
		if p.MB == "ind" {
			b.obj(pn+".mb", func() string { return mb(p) })
		}
		if p.Res == "ind" || p.Res == "inline" || p.Res == "" {
			b.prepRes(p, pn)
		}
		if p.Res == "ind" {
			b.obj(pn+".res", func() string { return b.resDict(p, pn) })
		}
		for _, e := range p.Extra {
			if e == 0 {
				b.obj(pn+".annot", func() string {
					return b.dict("Type", "/Annot", "Subtype", "/Text", "Rect", "[1 2 3 4]", "Contents", "(a note \\) >> \\( ] \\\\)", "P", b.ref(pn))
				})
			}
		}
		b.obj(pn, func() string {
			ps := []string{"Type", "/Page", "Parent", b.ref(parentOf[i]), "VPg", fmt.Sprint(j)}
			switch p.MB {
			case "inh":
			case "ind":
				ps = append(ps, "MediaBox", b.ref(pn+".mb"))
			default:
				ps = append(ps, "MediaBox", mb(p))
			}
			switch p.Res {
			case "ind":
				ps = append(ps, "Resources", b.ref(pn+".res"))
			case "shared":
				ps = append(ps, "Resources", b.ref("sres"))
			case "inh", "none":
			default:
				ps = append(ps, "Resources", b.resDict(p, pn))
			}
			if p.Rot == "page" {
				ps = append(ps, "Rotate", "180")
			}
			if con != "" {
				ps = append(ps, "Contents", b.ref(con))
			} else if cons != nil {
				var rs []string
				for _, c := range cons {
					rs = append(rs, b.ref(c))
				}
				ps = append(ps, "Contents", "["+strings.Join(rs, " ")+"]")
			}
			for _, e := range p.Extra {
				switch e {
				case 0:
					ps = append(ps, "Annots", "["+b.ref(pn+".annot")+"]")
				case 1:
					ps = append(ps, "BleedBox", "[0 0 10 10]")
				case 2:
					ps = append(ps, "CropBox", "[1 2 300.5 400]")
				case 3:
					ps = append(ps, "LastModified", "(D:20200102 \\(a\\) [b] /Font << >>)")
				case 4:
					ps = append(ps, "PieceInfo", "<</App<</LastModified(x)/Private<</Contents 1/Kids[1[2 3]]/S(>>)>>>>>>")
				case 5:
					ps = append(ps, "Tabs", "/S")
				case 6:
					ps = append(ps, "Trans", "<</S/Dissolve/D .5>>")
				case 7:
					ps = append(ps, "Group", "<< /S /Transparency /CS /DeviceRGB /I true >>")
				case 8:
					ps = append(ps, "ID", "<48 65 6C6c6F2>")
				case 9:
					ps = append(ps, "A#20B", "/x#2Fy")
				case 10:
					ps = append(ps, "UserUnit", "1.0")
				case 11:
					ps = append(ps, "StructParents", "0")
				}
			}
			return b.addRaw(b.dict(ps...), p.Ent)
		})
	}
	if t.Info {
		b.obj("info", func() string {
			return b.dict("Title", "(Tmpl \\050x\\051 \\\\ end)", "Producer", "<FEFF00e9>", "Esc", "(a\\n\\r\\t\\b\\f\\q\\7\\053x\\0501\\\ny\r\nq\rw\\\r\nv\\\rz\\501\\777)", "Hx", "< 4 1\n4>", "ModDate", "(D:2019)")
		})
	}
	if t.Outl {
		b.obj("outl", func() string {
			return b.dict("Type", "/Outlines", "First", b.ref("outl1"), "Last", b.ref("outl1"), "Count", "1")
		})
		b.obj("outl1", func() string {
			return b.dict("Title", "(Chapter << /Kids [ >>)", "Parent", b.ref("outl"), "Dest", "["+b.ref("page1")+" /Fit]")
		})
	}
	if t.Bin {
		if t.Ord%2 == 1 { // an attached document, not compressed
			b.stream("attach", []byte("%PDF-1.4\n1 0 obj\n<</Type/Catalog/Pages 2 0 R>>\nendobj\n2 0 obj\n<</Type/Pages/Kids[3 0 R]/Count 1>>\nendobj\n3 0 obj\n<</Type/Page/Parent 2 0 R/MediaBox[0 0 7 9]>>\nendobj\nxref\n0 4\n0000000000 65535 f \n0000000009 00000 n \n0000000056 00000 n \n0000000107 00000 n \ntrailer\n<</Size 4/Root 1 0 R>>\nstartxref\n171\n%%EOF\n"), "", "Type", "/EmbeddedFile")
		}
		att := func() string {
			if t.Ord%2 == 1 {
				return b.ref("attach")
			}
			return "null"
		}
		data := []byte("binary endobj \nxref 1 0 obj stream << /Type /Page >> \r\n trailer startxref \x00\x01\xff\xfe (")
		b.obj("bin2", func() string {
			return b.dict("Kind", "/Holder", "Blob", b.ref("bin"), "S", "(un\\)balanced << [ endobj stream)",
				"Arr", b.ref("binarr"), "Str", b.ref("binstr"), "Hex", b.ref("binhex"), "Num", b.ref("binnum"), "Nm", b.ref("binname"), "Att", att())
		})
		b.obj("binarr", func() string {
			return "[ (s\\)1) <41 42> [(x)<</K (y)/L[(z)]>>] " + b.ref("bin2") + " 12 null true -.5(w)/N#20m(v)]"
		})
		b.obj("binstr", func() string { return "(a \\( bare string)" })
		b.obj("binhex", func() string { return "<48 656C6C6F>" })
		b.obj("binnum", func() string { return "42" })
		b.obj("binname", func() string { return "/Name#20x" })
		b.stream("bin", data, "", "Kind", "/Blob")
	}
	if t.Huge > 0 {
		b.stream("huge", bytes.Repeat([]byte("0123456789abcde\n"), t.Huge), "", "Kind", "/Filler")
	}
	if t.Inc && t.Upd == "root" {
		b.obj("oldcat", func() string { return b.dict("Type", "/Catalog", "Pages", b.ref("pages"), "VOld", "1") })
		b.obj("oldinfo", func() string { return b.dict("Title", "(old)") })
	}
	if t.Inc && t.Upd == "free" {
		b.obj("gone", func() string { return b.dict("VGone", "[1 2]") })
	}
	// ---- numbering ----
	ids := make([]int, len(b.names))
	next := 1
	for i := range b.names {
		ids[i] = next
		next++
		if t.IDs == "gap" && i%3 == 1 {
			next += 2
		}
		if i == 1 {
			next += t.Base
		}
	}
	if t.IDs == "rev" {
		sort.Sort(sort.Reverse(sort.IntSlice(ids)))
	}
	for i, nm := range b.names {
		b.num[nm] = ids[i]
	}
	maxID := 0
	for _, v := range ids {
		if v > maxID {
			maxID = v
		}
	}
	// ---- writing ----
	var out bytes.Buffer
	out.WriteString("%PDF-1.4\n%\xe2\xe3\xcf\xd3\n")
	write := func(names []string, offs map[int]int, content func(nm string) string) {
		for _, nm := range names {
			offs[b.num[nm]] = out.Len()
			c, sep := content(nm), b.eol
			if b.t.Sty == 1 && strings.HasPrefix(c, "<<") {
				sep = ""
			}
			fmt.Fprintf(&out, "%d %d obj%s%s%sendobj%s", b.num[nm], b.genOf(b.num[nm]), sep, c, b.eol, b.eol)
		}
	}
	rowEnd := map[string]string{"": " \n", "rn": "\r\n", "r": " \r"}[t.XEol]
	used := func(o, n int) string { return fmt.Sprintf("%010d %05d n%s", o, b.genOf(n), rowEnd) }
	realRoot, freed := true, 0
	trailer := func(root bool, prev int) string {
		ps := []string{"Size", fmt.Sprint(maxID + 1)}
		if root && !realRoot {
			ps = append(ps, "Root", b.ref("oldcat"))
			if t.Ord%2 == 0 {
				ps = append(ps, "Info", b.ref("oldinfo"))
			}
		} else if root {
			ps = append(ps, "Root", b.ref("cat"))
			if t.Info {
				ps = append(ps, "Info", b.ref("info"))
			}
			ps = append(ps, "ID", "[<0102><28290a>]")
		}
		if prev >= 0 {
			ps = append(ps, "Prev", fmt.Sprintf("%010d", prev))
		}
		return b.dict(ps...)
	}
	sections := func(offs map[int]int) string {
		var ks []int
		for k := range offs {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		var sb strings.Builder
		for i := 0; i < len(ks); {
			k := i
			for k < len(ks) && ks[k] == ks[i]+k-i {
				k++
			}
			fmt.Fprintf(&sb, "%d %d\n", ks[i], k-i)
			for ; i < k; i++ {
				sb.WriteString(used(offs[ks[i]], ks[i]))
			}
		}
		return sb.String()
	}
	xref := func(offs map[int]int, full bool, prev int) int {
		pos := out.Len()
		out.WriteString("xref\n")
		if full && t.Subs {
			fmt.Fprintf(&out, "0 1\n%010d 65535 f%s%s", 0, rowEnd, sections(offs))
		} else if full {
			fmt.Fprintf(&out, "0 %d\n", maxID+1)
			var free []int
			free = append(free, 0)
			for i := 1; i <= maxID; i++ {
				if _, ok := offs[i]; !ok {
					free = append(free, i)
				}
			}
			nf := map[int]int{}
			for k, v := range free {
				if k+1 < len(free) {
					nf[v] = free[k+1]
				}
			}
			for i := 0; i <= maxID; i++ {
				if o, ok := offs[i]; ok {
					out.WriteString(used(o, i))
				} else {
					fmt.Fprintf(&out, "%010d %05d f%s", nf[i], 65535, rowEnd)
				}
			}
		} else {
			if freed > 0 {
				fmt.Fprintf(&out, "0 1\n%010d 65535 f%s%d 1\n%010d %05d f%s", freed, rowEnd, freed, 0, b.genOf(freed)+1, rowEnd)
			}
			out.WriteString(sections(offs))
		}
		fmt.Fprintf(&out, "trailer\n%s\nstartxref\n%d\n%%%%EOF\n", trailer(true, prev), pos)
		return pos
	}
	offs := map[int]int{}
	order := append([]string{}, b.names...)
	if t.IDs == "rev" {
		for i, k := 0, len(order)-1; i < k; i, k = i+1, k-1 {
			order[i], order[k] = order[k], order[i]
		}
	}
	final := map[string]string{}
	for _, nm := range order {
		final[nm] = b.gen[nm]()
	}
	if t.Lin && !t.Inc {
		// the table of the second half of the objects comes first, before them
		h := len(order) / 2
		start := out.Len()
		prev := 0
		for round := 0; round < 3; round++ { // the positions settle
			out.Truncate(start)
			head := fmt.Sprintf("xref\n%strailer\n%s\nstartxref\n0\n%%%%EOF\n", sections(offs), trailer(true, prev))
			if round == 0 {
				z := map[int]int{}
				for _, nm := range order[h:] {
					z[b.num[nm]] = 0
				}
				head = fmt.Sprintf("xref\n%strailer\n%s\nstartxref\n0\n%%%%EOF\n", sections(z), trailer(true, 0))
			}
			out.WriteString(head)
			offs = map[int]int{}
			write(order[h:], offs, func(nm string) string { return final[nm] })
			rest := map[int]int{}
			write(order[:h], rest, func(nm string) string { return final[nm] })
			prev = out.Len()
			fmt.Fprintf(&out, "xref\n0 1\n%010d 65535 f%s%strailer\n%s\nstartxref\n%d\n%%%%EOF\n", 0, rowEnd, sections(rest), trailer(false, -1), start)
		}
	} else if !t.Inc {
		write(order, offs, func(nm string) string { return final[nm] })
		xref(offs, true, -1)
	} else {
		// earlier revisions: pages have another mark and contents that the update replaces
		isC := func(nm string) bool { return strings.HasSuffix(nm, ".c") }
		old := func(cur map[string]string, nm string, k int) string {
			if strings.HasPrefix(nm, "page1") && !strings.Contains(nm, ".") {
				return strings.Replace(cur[nm], "/VPg 1", fmt.Sprintf("/VPg 99%d", k), 1)
			}
			if isC(nm) {
				return fmt.Sprintf("<</Length 23>>\nstream\n0 1 %d rg 0 0 9 9 re f\n \nendstream", k)
			}
			return cur[nm]
		}
		first := map[string]string{}
		for _, nm := range order {
			first[nm] = old(final, nm, 1)
		}
		var names []string
		for _, nm := range order {
			if t.Upd == "more" && isC(nm) {
				continue
			}
			names = append(names, nm)
		}
		write(names, offs, func(nm string) string { return first[nm] })
		if t.Upd == "root" {
			realRoot = false
		}
		prev := xref(offs, true, -1)
		realRoot = true
		if t.Upd == "multi" {
			upd := map[int]int{}
			names = nil
			for _, nm := range order {
				if first[nm] != final[nm] {
					names = append(names, nm)
				}
			}
			write(names, upd, func(nm string) string { return old(final, nm, 0) })
			prev = xref(upd, false, prev)
		}
		if t.Upd == "gen" {
			b.bump = map[int]bool{}
			for _, nm := range order {
				if isC(nm) {
					b.bump[b.num[nm]] = true
				}
			}
			for _, nm := range order {
				final[nm] = b.gen[nm]()
			}
		}
		upd := map[int]int{}
		names = nil
		for _, nm := range order {
			if nm == "oldcat" || nm == "oldinfo" || nm == "gone" {
				continue
			}
			if first[nm] != final[nm] || t.Upd == "more" && isC(nm) {
				names = append(names, nm)
			}
		}
		write(names, upd, func(nm string) string { return final[nm] })
		if t.Upd == "free" {
			freed = b.num["gone"]
		}
		xref(upd, false, prev)
	}
	return breakTemplate(out.Bytes(), t.Bad)
}

func breakTemplate(raw []byte, how string) []byte {
	switch how {
	case "":
		return raw
	case "empty":
		return nil
	case "text":
		return []byte("hello world, this is not a PDF file\n")
	case "half":
		return raw[:len(raw)/2]
	case "noeof":
		return raw[:len(raw)-20]
	case "noroot":
		return bytes.ReplaceAll(raw, []byte("/Root"), []byte("/Rxxt"))
	case "nopages":
		return bytes.ReplaceAll(raw, []byte("/Pages"), []byte("/Pxges"))
	case "badxref":
		i := bytes.LastIndex(raw, []byte("startxref"))
		return append(append([]byte{}, raw[:i]...), []byte("startxref\n99999999\n%%EOF\n")...)
	case "xrefstm": // as with a cross-reference stream: no table, no trailer
		i := bytes.LastIndex(raw, []byte("xref\n0 "))
		return append(append([]byte{}, raw[:i]...), []byte("99 0 obj\n<</Type/XRef/Size 5/W[1 2 1]/Length 4>>\nstream\n\x00\x01\x02\x03\nendstream\nendobj\nstartxref\n"+fmt.Sprint(i)+"\n%%EOF\n")...)
	case "enc": // the trailer of an encrypted document
		return bytes.ReplaceAll(raw, []byte("/Root"), []byte("/Encrypt 1 0 R/ID[<41><42>]/Root"))
	case "nokids":
		return bytes.ReplaceAll(raw, []byte("/Kids"), []byte("/Kxds"))
	}
	return raw
}

// prepRes registers the objects a resource dictionary needs
func (b *tb) prepRes(p PageD, owner string) {
	for _, f := range p.Fonts {
		f := f
		b.obj("font."+f, func() string {
			return b.dict("Type", "/Font", "Subtype", "/Type1", "BaseFont", "/Helvetica", "VName", "/"+f)
		})
	}
	for k, x := range p.XObjs {
		x := x
		if k%2 == 0 {
			b.stream("xo."+x, []byte{255, 0, 0, 0, 255, byte(k), 0, byte(len(x)), 255, x[0], 2, 3}, "", "Type", "/XObject", "Subtype", "/Image", "Width", "2", "Height", "2", "ColorSpace", "/DeviceRGB", "BitsPerComponent", "8", "VName", "/"+x)
		} else {
			b.stream("xo."+x, []byte("0 0 10 10 re f "), "", "Type", "/XObject", "Subtype", "/Form", "BBox", "[0 0 10 10]", "VName", "/"+x)
		}
	}
	b.obj("gs0", func() string { return b.dict("Type", "/ExtGState", "CA", "0.5") })
	if p.FD == "ind" {
		b.obj(owner+".fd", func() string { return b.fontDict(p) })
	}
	if p.XD == "ind" {
		b.obj(owner+".xd", func() string { return b.xobjDict(p) })
	}
}
func (b *tb) fontDict(p PageD) string {
	var ps []string
	for _, f := range p.Fonts {
		ps = append(ps, f, b.ref("font."+f))
	}
	return b.dict(ps...)
}
func (b *tb) xobjDict(p PageD) string {
	var ps []string
	for _, f := range p.XObjs {
		ps = append(ps, f, b.ref("xo."+f))
	}
	return b.dict(ps...)
}
func (b *tb) resDict(p PageD, owner string) string {
	ps := []string{"ProcSet", "[/PDF /Text /ImageC]", "ExtGState", b.dict("GS0", b.ref("gs0"))}
	switch p.FD {
	case "none":
	case "ind":
		ps = append(ps, "Font", b.ref(owner+".fd"))
	default:
		ps = append(ps, "Font", b.fontDict(p))
	}
	switch p.XD {
	case "none":
	case "ind":
		ps = append(ps, "XObject", b.ref(owner+".xd"))
	default:
		ps = append(ps, "XObject", b.xobjDict(p))
	}
	return b.addRaw(b.dict(ps...), p.REnt)
}
