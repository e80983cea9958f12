package main

// Observation: what a saved file contains, in terms the specification talks about.

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf16"
)

type M map[string]any

type tplCache struct {
	pages []tplPage
}
type tplPage struct {
	draws  []string
	tokens []string
}

// openPDF parses and, when encrypted, decrypts with the user password.
func (r *Runner) openPDF(raw []byte) (*PDF, error) {
	return parsePDF(raw)
}

func pageAttrs(p *PDF, pg *Page) []string {
	var at []string
	for _, k := range pg.d.Keys {
		switch k {
		case "Type", "Parent", "Contents", "Resources", "MediaBox", "CropBox", "Rotate":
			continue
		}
		at = append(at, k+"="+p.digest(pg.d.M[k]))
	}
	for _, k := range []string{"MediaBox", "CropBox", "Rotate"} {
		if v, ok := pg.inh[k]; ok {
			at = append(at, "eff "+k+"="+p.digest(v))
		}
	}
	sort.Strings(at)
	return at
}

func pageRes(p *PDF, pg *Page) []string {
	out := []string{}
	res := p.dict(pg.inh["Resources"])
	if res == nil {
		return out
	}
	for _, cat := range res.Keys {
		if sub := p.dict(res.M[cat]); sub != nil {
			out = append(out, cat+"/")
			for _, n := range sub.Keys {
				out = append(out, cat+"/"+n+"="+p.digest(sub.M[n]))
			}
			continue
		}
		out = append(out, cat+"="+p.digest(res.M[cat]))
	}
	sort.Strings(out)
	return out
}

// cutResources marks the objects that hold page resource dictionaries (the library may add to them)
// rootNode lists the entries of the root of the page tree that the library does not own
func rootNode(p *PDF) []string {
	out := []string{}
	d := p.dict(p.dict(p.trailer.get("Root")).get("Pages"))
	if d == nil {
		return out
	}
	for _, k := range d.Keys {
		switch k {
		case "Type", "Kids", "Count", "Parent", "MediaBox", "CropBox", "Rotate", "Resources":
			continue
		}
		out = append(out, k+"="+p.digest(d.M[k]))
	}
	sort.Strings(out)
	return out
}

func cutResources(p *PDF, pgs []*Page) {
	p.cutSet = map[int]bool{}
	for _, pg := range pgs {
		if r, ok := pg.inh["Resources"].(Ref); ok {
			p.cutSet[r.N] = true
		}
		res := p.dict(pg.inh["Resources"])
		for _, k := range []string{"Font", "XObject"} {
			if r, ok := res.get(k).(Ref); ok {
				p.cutSet[r.N] = true
			}
		}
		p.cutSet[pg.num] = false
	}
}

// otherObjects: digests of every object that is not a page tree node, page content or page resource dictionary
func otherObjects(p *PDF, pgs []*Page) []string {
	skip := map[int]bool{}
	for n := range p.pageSet {
		skip[n] = true
	}
	for n, c := range p.cutSet {
		if c {
			skip[n] = true
		}
	}
	for _, pg := range pgs {
		skip[pg.num] = true
		for _, n := range pg.parents {
			skip[n] = true
		}
		for _, n := range pg.cnums {
			skip[n] = true
		}
		if r, ok := pg.d.get("Contents").(Ref); ok {
			skip[r.N] = true
		}
	}
	lens := map[int]bool{}
	for _, o := range p.objs {
		if s, ok := o.(*Stream); ok {
			if r, ok := s.D.get("Length").(Ref); ok {
				lens[r.N] = true
			}
		}
	}
	if r, ok := p.trailer.get("Encrypt").(Ref); ok {
		skip[r.N] = true
	}
	out := []string{}
	for n := range p.objs {
		if skip[n] || lens[n] {
			continue
		}
		out = append(out, sh(p.digest(Ref{n, p.gens[n]})))
	}
	sort.Strings(out)
	return out
}

func box100(p *PDF, pg *Page) []int {
	b := p.nums(pg.inh["MediaBox"])
	out := []int{}
	for _, v := range b {
		out = append(out, int(math.Round(v*100)))
	}
	return out
}

func (r *Runner) tmplFacts(raw []byte, bad bool) int {
	k := sh(raw)
	if i, ok := r.tfKey[k]; ok {
		return i
	}
	idx := len(r.tfs) + 1
	r.tfKey[k] = idx
	facts := M{"ok": false, "pages": []any{}, "objs": []string{}, "root": "", "info": "", "nd": []string{}, "dang": []int{}}
	tc := &tplCache{}
	p, err := parsePDF(raw)
	if err == nil && !bad {
		pgs := p.pages()
		for _, pg := range pgs {
			p.interpret(pg)
		}
		cutResources(p, pgs)
		fp := []any{}
		for _, pg := range pgs {
			fp = append(fp, M{"box": box100(p, pg), "at": pageAttrs(p, pg), "res": pageRes(p, pg), "nd": len(pg.draws), "con": pg.d.get("Contents") != nil})
			tp := tplPage{tokens: pg.tokens}
			for _, d := range pg.draws {
				tp.draws = append(tp.draws, d.Dig)
			}
			tc.pages = append(tc.pages, tp)
		}
		facts = M{"ok": true, "pages": fp, "objs": otherObjects(p, pgs), "root": sh(p.digest(p.trailer.get("Root"))), "info": infoDig(p), "nd": rootNode(p), "dang": danglingRefs(p)}
	}
	r.tfs = append(r.tfs, facts)
	r.tpls = append(r.tpls, tc)
	return idx
}

func infoDig(p *PDF) string {
	if p.trailer.get("Info") == nil {
		return ""
	}
	return sh(p.digest(p.trailer.get("Info")))
}

func containsSeq(hay, needle []string) bool {
	if len(needle) == 0 {
		return true
	}
	for i := 0; i+len(needle) <= len(hay); i++ {
		ok := true
		for j := range needle {
			if hay[i+j] != needle[j] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// protInfo describes the protection a document is expected to have; passwords come from the scenario
type protInfo struct {
	set  bool
	u, o []byte
}

func (r *Runner) observe(raw []byte, tfi int, prot protInfo) M {
	o := M{"parse": true, "msg": ""}
	p, err := parsePDF(raw)
	if err != nil {
		return M{"parse": false, "msg": err.Error(), "pages": []any{}}
	}
	// ---- protection ----
	enc := M{"on": false}
	if ei, has := p.encInfo(); has {
		enc = M{"on": true, "valid": ei.Valid, "perm": int(ei.P), "uok": false, "ook": false, "wrong": 0}
		if ei.Valid {
			enc["uok"] = ei.userOK(prot.u)
			enc["ook"] = len(prot.o) > 0 && ei.ownerOK(prot.o)
			wrong := 0
			for _, w := range [][]byte{[]byte("wrong"), {}, append(append([]byte{}, prot.u...), 'x'), append(append([]byte{}, prot.o...), 'y'), bytes.ToUpper(prot.u), []byte("(")} {
				pw := pad32(w)
				if !bytes.Equal(pw, pad32(prot.u)) && ei.userOK(w) {
					wrong++
				}
				if !(len(prot.o) > 0 && bytes.Equal(pw, pad32(prot.o))) && ei.ownerOK(w) {
					wrong++
				}
			}
			enc["wrong"] = wrong
			if ei.userOK(prot.u) {
				p.decryptAll(ei.key(prot.u))
			} else if ei.userOK(nil) {
				p.decryptAll(ei.key(nil))
			}
		}
	}
	o["enc"] = enc
	// ---- structure ----
	pgs := p.pages()
	o["st"] = r.structure(p, pgs)
	for _, pg := range pgs {
		p.interpret(pg)
	}
	cutResources(p, pgs)
	o["objs"] = otherObjects(p, pgs)
	o["root"] = sh(p.digest(p.trailer.get("Root")))
	o["info"] = infoDig(p)
	o["nd"] = rootNode(p)
	// ---- pages ----
	var tc *tplCache
	if tfi >= 1 {
		tc = r.tpls[tfi-1]
	}
	ob := &obsCtx{r: r, p: p, fontIdx: map[int]int{}, imgIdx: map[int]int{}, imgMatch: map[int][]string{}}
	pages := []any{}
	for _, pg := range pgs {
		js := []int{}
		own := []int{}
		best := -1
		if tc != nil {
			for j, tp := range tc.pages {
				if len(tp.draws) > len(pg.draws) || len(tp.draws) < best {
					continue
				}
				ok := true
				for k := range tp.draws {
					if tp.draws[k] != pg.draws[k].Dig {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				if len(tp.draws) > best {
					best = len(tp.draws)
					js = []int{}
				}
				js = append(js, j+1)
			}
			for j, tp := range tc.pages {
				if containsSeq(pg.tokens, tp.tokens) {
					own = append(own, j+1)
				}
			}
		}
		if best < 0 {
			best = 0
		}
		rest := pg.draws[best:]
		if len(rest) > 6000 {
			rest = rest[:6000]
		}
		ds := []any{}
		for i := range rest {
			ds = append(ds, ob.draw(&rest[i]))
		}
		probs := pg.problems
		if probs == nil {
			probs = []string{}
		}
		pages = append(pages, M{"box": box100(p, pg), "at": pageAttrs(p, pg), "res": pageRes(p, pg), "js": js, "own": own, "ds": ds, "probs": probs})
	}
	o["pages"] = pages
	if ob.fonts == nil {
		ob.fonts = []any{}
	}
	o["fonts"] = ob.fonts
	nimg := 0
	for _, x := range p.objs {
		if s, ok := x.(*Stream); ok && s.D.get("Subtype") == Name("Image") {
			nimg++
		}
	}
	o["nimg"] = nimg
	return o
}

// structure: raw facts about the file; the specification decides whether they are sound
func (r *Runner) structure(p *PDF, pgs []*Page) M {
	st := M{}
	maxn := 0
	for n := range p.rows {
		if n > maxn {
			maxn = n
		}
	}
	// rows: [kind 0 free 1 used, value, generation, object number found there]
	rows := []any{}
	for n := 0; n <= maxn; n++ {
		row, ok := p.rows[n]
		if !ok {
			rows = append(rows, []int{2, 0, 0, -1, 0})
			continue
		}
		if row.Kind == "f" {
			rows = append(rows, []int{0, row.Val, row.Gen, -1, 0})
			continue
		}
		found, gen := -1, 0
		if row.Val >= 0 && row.Val < len(p.raw) {
			l := &Lexer{b: p.raw, pos: row.Val}
			if a, err := l.tok(); err == nil {
				if an, ok := a.(Num); ok {
					if g, err := l.tok(); err == nil {
						if gn, ok := g.(Num); ok {
							gen = int(gn.V)
						}
						if c, err := l.tok(); err == nil && c == Kw("obj") {
							found = int(an.V)
						}
					}
				}
			}
		}
		rows = append(rows, []int{1, row.Val, row.Gen, found, gen})
	}
	if len(rows) > 20000 { // too long for the trace; the structure of such files is not judged
		rows = []any{}
	}
	st["rows"] = rows
	size, _ := p.num(p.trailer.get("Size"))
	st["size"] = int(size)
	ids, err := p.bodyScan()
	if err != nil {
		st["body"] = "error: " + err.Error()
	} else {
		st["body"] = ""
	}
	st["ids"] = ids
	if ids == nil {
		st["ids"] = []int{}
	}
	bad := []string{}
	for n, e := range p.objErr {
		bad = append(bad, fmt.Sprintf("%d: %v", n, e))
	}
	sort.Strings(bad)
	st["objerr"] = bad
	lens := []int{}
	dups := []int{}
	for n, o := range p.objs {
		if s, ok := o.(*Stream); ok && !s.LenOK {
			lens = append(lens, n)
		}
		if countDups(o) > 0 {
			dups = append(dups, n)
		}
	}
	if countDups(p.trailer) > 0 {
		dups = append(dups, 0)
	}
	sort.Ints(lens)
	sort.Ints(dups)
	st["badlen"] = lens
	st["dups"] = dups
	st["dang"] = danglingRefs(p)
	// page tree nodes
	nodes := []any{}
	var tree func(r Ref, parent int, depth int)
	visited := map[int]bool{}
	tree = func(rf Ref, parent int, depth int) {
		if visited[rf.N] || depth > 60 {
			nodes = append(nodes, M{"id": rf.N, "leaf": false, "par": -1, "cnt": -1, "kids": []int{}, "up": parent})
			return
		}
		visited[rf.N] = true
		d := p.dict(rf)
		pid := 0
		if pr, ok := d.get("Parent").(Ref); ok {
			pid = pr.N
		}
		t, _ := p.resolve(d.get("Type")).(Name)
		nd := M{"id": rf.N, "leaf": t == "Page", "par": pid, "up": parent, "cnt": 0, "kids": []int{}}
		if t != "Page" {
			c, ok := p.num(d.get("Count"))
			if !ok {
				c = -1
			}
			nd["cnt"] = int(c)
			ks := []int{}
			kids, _ := p.resolve(d.get("Kids")).(Arr)
			for _, k := range kids {
				if kr, ok := k.(Ref); ok {
					ks = append(ks, kr.N)
				} else {
					ks = append(ks, -1)
				}
			}
			nd["kids"] = ks
			nodes = append(nodes, nd)
			for _, k := range kids {
				if kr, ok := k.(Ref); ok {
					tree(kr, rf.N, depth+1)
				}
			}
			return
		}
		nodes = append(nodes, nd)
	}
	root := p.dict(p.trailer.get("Root"))
	if pr, ok := root.get("Pages").(Ref); ok {
		tree(pr, 0, 0)
	}
	st["tree"] = nodes
	st["xrefok"] = xrefRowsExact(p)
	st["header"] = bytes.HasPrefix(p.raw, []byte("%PDF-"))
	tail := strings.TrimSpace(string(p.raw[max(0, len(p.raw)-16):]))
	st["eof"] = strings.HasSuffix(tail, "%%EOF")
	pr := []string{}
	pr = append(pr, p.problems...)
	st["treeprob"] = pr
	return st
}

// xrefRowsExact: every row of the table has the fixed 20 byte form
func xrefRowsExact(p *PDF) bool {
	l := &Lexer{b: p.raw, pos: p.xrefOff}
	l.tok()
	for {
		t, err := l.tok()
		if err != nil {
			return false
		}
		if t == Kw("trailer") {
			return true
		}
		c, err := l.tok()
		n, ok := c.(Num)
		if err != nil || !ok {
			return false
		}
		l.skip()
		for i := 0; i < int(n.V); i++ {
			if l.pos+20 > len(l.b) {
				return false
			}
			row := l.b[l.pos : l.pos+20]
			for k, ch := range row {
				switch {
				case k < 10 || (k > 10 && k < 16):
					if ch < '0' || ch > '9' {
						return false
					}
				case k == 10 || k == 16:
					if ch != ' ' {
						return false
					}
				case k == 17:
					if ch != 'n' && ch != 'f' {
						return false
					}
				default:
					if !isWS(ch) {
						return false
					}
				}
			}
			l.pos += 20
		}
	}
}

func countDups(v any) int {
	n := 0
	switch x := v.(type) {
	case Arr:
		for _, e := range x {
			n += countDups(e)
		}
	case *Dict:
		n += x.Dup
		for _, e := range x.M {
			n += countDups(e)
		}
	case *Stream:
		n += countDups(x.D)
	}
	return n
}

// ---- draws ----
type obsCtx struct {
	r        *Runner
	p        *PDF
	fonts    []any
	fontIdx  map[int]int
	fontObs  []*embFont
	imgIdx   map[int]int
	imgMatch map[int][]string
}

type embFont struct {
	ok    bool
	ttf   *TTF
	w     *widths
	uni   map[int][]int
	space func(int) bool
	c2g   []byte
}

func (c *obsCtx) draw(d *Draw) M {
	ex := d.GS.extra()
	switch d.Kind {
	case "t":
		m := M{"k": "t"}
		if d.GS.tc != 0 || d.GS.tw != 0 || d.GS.tz != 100 || d.GS.tr != 0 {
			ex += "textstate "
		}
		l := d.Lin
		if math.Abs(l[0]-1) > 1e-6 || math.Abs(l[3]-1) > 1e-6 || math.Abs(l[1]) > 1e-6 || math.Abs(l[2]) > 1e-6 {
			ex += "matrix "
		}
		m["e"] = ex
		m["x"] = e4(d.Glyphs[0].X)
		m["y"] = e4(d.Glyphs[0].Y)
		m["z"] = int(math.Round(d.FS * 100))
		m["c"] = d.GS.fill.rgb()
		fi := c.font(d.Font)
		m["f"] = fi
		ef := c.fontObs[fi-1]
		gl := []any{}
		x0 := d.Glyphs[0].X
		for _, g := range d.Glyphs {
			gm := M{"w": int(math.Round(math.Max(-400000, math.Min(400000, g.W)))), "r": int(math.Round(g.Rise * 100)), "p": int(math.Round((g.X - x0) * 1000 / d.FS)), "dy": e4(g.Y - d.Glyphs[0].Y)}
			u := -1
			if us, ok := ef.uni[g.Code]; ok && len(us) == 1 && ef.space(g.Code) {
				u = us[0]
			}
			gm["u"] = u
			gm["o"], gm["a"], gm["l"] = "?", -1, 0
			if ef.ok {
				gid := g.Code
				if ef.c2g != nil {
					gid = -1
					if 2*g.Code+1 < len(ef.c2g) {
						gid = int(ef.c2g[2*g.Code])<<8 | int(ef.c2g[2*g.Code+1])
					}
				}
				if o, err := ef.ttf.outline(gid); err == nil {
					gm["o"] = o
				} else {
					gm["o"] = "!" + err.Error()
				}
				if a, lsb, err := ef.ttf.adv(gid); err == nil {
					gm["a"], gm["l"] = a, lsb
				}
			}
			gl = append(gl, gm)
		}
		m["g"] = gl
		return m
	case "p":
		m := M{"k": "p", "e": ex, "op": d.Op, "lw": int(math.Round(d.GS.lw * 100)), "c": d.GS.fill.rgb(), "sc": d.GS.stroke.rgb()}
		da := []int{}
		for _, v := range d.GS.dashA {
			da = append(da, int(math.Round(v*100)))
		}
		m["da"] = append(da, int(math.Round(d.GS.dashP*100)))
		seg := ""
		nc := 0
		pts := []any{}
		for _, s := range d.Path {
			seg += string(s.T)
			if s.T == 'c' {
				nc++
			}
			for i := 0; i+1 < len(s.Pts); i += 2 {
				pts = append(pts, []int{e4(s.Pts[i]), e4(s.Pts[i+1])})
			}
		}
		m["seg"] = seg
		m["nc"] = nc
		m["pts"] = pts
		return m
	case "i":
		m := M{"k": "i", "e": ex}
		mt := []int{}
		for _, v := range d.Mat {
			mt = append(mt, e4(v))
		}
		m["m"] = mt
		n := -1
		if rf, ok := d.XRef.(Ref); ok {
			n = rf.N
		}
		if _, ok := c.imgIdx[n]; !ok {
			c.imgIdx[n] = len(c.imgIdx) + 1
			ms := []string{}
			px, err := c.p.decodeImageXObject(d.XRef)
			if err != nil {
				ms = append(ms, "!"+err.Error())
			} else {
				dg := px.digest()
				var keys []string
				for k, v := range c.r.imgDig {
					if v == dg {
						keys = append(keys, k)
					}
				}
				sort.Strings(keys)
				ms = append(ms, keys...)
			}
			c.imgMatch[n] = ms
		}
		m["ob"] = c.imgIdx[n]
		m["im"] = c.imgMatch[n]
		return m
	}
	return M{"k": d.Kind, "e": ex, "dig": d.Dig}
}

func (c *obsCtx) font(f any) int {
	key := -1
	if r, ok := f.(Ref); ok {
		key = r.N
	}
	if i, ok := c.fontIdx[key]; ok {
		return i
	}
	p := c.p
	ef := &embFont{uni: map[int][]int{}, space: func(int) bool { return true }}
	info := M{"emb": false, "why": "", "asc": 0, "desc": 0, "cap": 0, "xh": 0, "ital": 0, "flags": 0, "bbox": []int{}, "names": true}
	func() {
		d := p.dict(f)
		if d == nil {
			info["why"] = "no font dictionary"
			return
		}
		if d.get("Subtype") != Name("Type0") || d.get("Encoding") != Name("Identity-H") {
			info["why"] = "not a Type0 Identity-H font"
			return
		}
		a, ok := p.resolve(d.get("DescendantFonts")).(Arr)
		if !ok || len(a) != 1 {
			info["why"] = "bad DescendantFonts"
			return
		}
		cd := p.dict(a[0])
		if cd == nil || cd.get("Subtype") != Name("CIDFontType2") {
			info["why"] = "descendant is not CIDFontType2"
			return
		}
		if s, ok := p.resolve(cd.get("CIDToGIDMap")).(*Stream); ok {
			ef.c2g, _ = p.decode(s)
		}
		fd := p.dict(cd.get("FontDescriptor"))
		if fd == nil {
			info["why"] = "no font descriptor"
			return
		}
		gi := func(k string) int { v, _ := p.num(fd.get(k)); return int(math.Round(v)) }
		info["asc"], info["desc"], info["cap"], info["xh"], info["ital"], info["flags"] = gi("Ascent"), gi("Descent"), gi("CapHeight"), gi("XHeight"), gi("ItalicAngle"), gi("Flags")
		bb := []int{}
		for _, v := range p.nums(fd.get("FontBBox")) {
			bb = append(bb, int(math.Round(v)))
		}
		info["bbox"] = bb
		b1, b2, b3 := d.get("BaseFont"), cd.get("BaseFont"), fd.get("FontName")
		info["names"] = b1 != nil && b1 == b2 && b2 == b3
		ff, ok := p.resolve(fd.get("FontFile2")).(*Stream)
		if !ok {
			info["why"] = "no FontFile2"
			return
		}
		prog, err := p.decode(ff)
		if err != nil {
			info["why"] = "font program: " + err.Error()
			return
		}
		if l1, ok := p.num(ff.D.get("Length1")); ok && int(l1) != len(prog) {
			info["why"] = "Length1 is not the length of the font program"
			return
		}
		t, err := parseTTF(prog)
		if err != nil {
			info["why"] = "font program: " + err.Error()
			return
		}
		if tu, ok := p.resolve(d.get("ToUnicode")).(*Stream); ok {
			b, err := p.decode(tu)
			if err == nil {
				ef.uni, ef.space = parseToUnicode(b)
			}
		}
		ef.ttf = t
		ef.ok = true
		info["emb"] = true
	}()
	c.fontObs = append(c.fontObs, ef)
	c.fonts = append(c.fonts, info)
	c.fontIdx[key] = len(c.fontObs)
	return len(c.fontObs)
}

func parseToUnicode(b []byte) (map[int][]int, func(int) bool) {
	m := map[int][]int{}
	type rng struct{ lo, hi, n int }
	var spaces []rng
	l := &Lexer{b: b}
	var st []any
	code := func(v any) int {
		s, _ := v.(Str)
		n := 0
		for _, c := range s {
			n = n<<8 | int(c)
		}
		return n
	}
	uni := func(v any, add int) []int {
		s, _ := v.(Str)
		var u []uint16
		for i := 0; i+1 < len(s); i += 2 {
			u = append(u, uint16(s[i])<<8|uint16(s[i+1]))
		}
		if len(u) > 0 {
			u[len(u)-1] += uint16(add)
		}
		out := []int{}
		for _, r := range utf16.Decode(u) {
			out = append(out, int(r))
		}
		return out
	}
	for {
		v, err := l.tok()
		if err != nil {
			break
		}
		k, ok := v.(Kw)
		if !ok {
			st = append(st, v)
			continue
		}
		switch k {
		case "endcodespacerange":
			for i := 0; i+1 < len(st); i += 2 {
				s, _ := st[i].(Str)
				spaces = append(spaces, rng{code(st[i]), code(st[i+1]), len(s)})
			}
		case "endbfchar":
			for i := 0; i+1 < len(st); i += 2 {
				m[code(st[i])] = uni(st[i+1], 0)
			}
		case "endbfrange":
			for i := 0; i+2 < len(st); i += 3 {
				lo, hi := code(st[i]), code(st[i+1])
				for c := lo; c <= hi && c-lo < 70000; c++ {
					if a, ok := st[i+2].(Arr); ok {
						if c-lo < len(a) {
							m[c] = uni(a[c-lo], 0)
						}
					} else {
						m[c] = uni(st[i+2], c-lo)
					}
				}
			}
		}
		st = nil
	}
	return m, func(c int) bool {
		for _, s := range spaces {
			if s.n == 2 && c >= s.lo && c <= s.hi {
				return true
			}
		}
		return false
	}
}

// fontFacts: what the original font says, for the characters the scenario uses
func (r *Runner) fontFacts(key string) M {
	t := r.ttf(key)
	if t == nil {
		return M{"ok": false}
	}
	rd := func(v int) int { return int(math.Round(float64(v) * 1000 / float64(t.upem))) }
	m := M{"ok": true, "upem": t.upem, "typoa": t.typoA, "typod": t.typoD, "up": t.up, "ut": t.ut,
		"hasc": t.hAsc, "hdesc": t.hDesc, "wina": t.winA, "wind": t.winD, "cap": t.cap, "xh": t.xh, "os2v": t.os2v, "ital": t.italic, "bbox": []int{rd(t.bbox[0]), rd(t.bbox[1]), rd(t.bbox[2]), rd(t.bbox[3])}}
	ch := M{}
	for c := range r.chars {
		g, ok := t.gid(c)
		e := M{"g": g, "in": ok, "o": "?", "a": 0, "l": 0}
		if !ok {
			e["g"] = 0
		}
		if ok || c <= 0xFFFF {
			if o, err := t.outline(e["g"].(int)); err == nil {
				e["o"] = o
			}
			if a, l, err := t.adv(e["g"].(int)); err == nil {
				e["a"], e["l"] = a, l
			}
		}
		ch[fmt.Sprint(c)] = e
	}
	m["ch"] = ch
	kern := M{}
	for p, v := range t.kern {
		kern[fmt.Sprintf("%d %d", p[0], p[1])] = v
	}
	m["kern"] = kern
	return m
}

// danglingRefs: references reachable from the trailer that do not resolve
func danglingRefs(p *PDF) []int {
	dang := map[int]bool{}
	seen := map[Ref]bool{}
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case Ref:
			if seen[x] {
				return
			}
			seen[x] = true
			o, ok := p.objs[x.N]
			if !ok || p.gens[x.N] != x.G {
				dang[x.N] = true
				return
			}
			walk(o)
		case Arr:
			for _, e := range x {
				walk(e)
			}
		case *Dict:
			for _, e := range x.M {
				walk(e)
			}
		case *Stream:
			walk(x.D)
		}
	}
	walk(p.trailer)
	dl := []int{}
	for n := range dang {
		dl = append(dl, n)
	}
	sort.Ints(dl)
	return dl
}
