package main

// Content stream interpreter: turns a page into the list of marks it draws.

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
)

type Mat [6]float64

var ident = Mat{1, 0, 0, 1, 0, 0}

func (a Mat) mul(b Mat) Mat { // a applied first, then b
	return Mat{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5]}
}
func (a Mat) apply(x, y float64) (float64, float64) {
	return x*a[0] + y*a[2] + a[4], x*a[1] + y*a[3] + a[5]
}

type Color struct {
	CS string
	V  []float64
	P  string
}

func (c Color) str() string { return fmt.Sprintf("%s%.4f%s", c.CS, c.V, c.P) }
func (c Color) rgb() []int {
	switch c.CS {
	case "rgb":
		if len(c.V) == 3 {
			return []int{r1000(c.V[0]), r1000(c.V[1]), r1000(c.V[2])}
		}
	case "gray":
		if len(c.V) == 1 {
			return []int{r1000(c.V[0]), r1000(c.V[0]), r1000(c.V[0])}
		}
	}
	return []int{-1, -1, -1}
}
func r1000(v float64) int { return int(math.Round(v * 1000)) }
func e4(v float64) int    { return int(math.Round(v * 10000)) }

type GState struct {
	ctm          Mat
	fill, stroke Color
	lw           float64
	dash         string
	dashA        []float64
	dashP        float64
	misc         string // line cap, join, miter, flatness, intent
	gs           string // ext g state
	clip         string
	tc, tw, tz   float64
	tl, ts       float64
	tr           int
	font         any
	fontName     string
	fs           float64
}

func newGState() GState {
	return GState{ctm: ident, fill: Color{CS: "gray", V: []float64{0}}, stroke: Color{CS: "gray", V: []float64{0}}, lw: 1, dash: "[]0", tz: 100}
}

func (g *GState) extra() string {
	s := ""
	if g.clip != "" {
		s += "clip "
	}
	if g.gs != "" {
		s += "gs "
	}
	return s
}

type GlyphRun struct {
	Code int
	N    int     // bytes of the code
	X, Y float64 // device position of the glyph origin without rise
	Rise float64
	W    float64 // declared width, thousandths
}

type Draw struct {
	Kind   string // t p i f(form) s(shading) b(inline)
	Dig    string
	GS     GState
	Glyphs []GlyphRun
	Lin    Mat // linear part for text
	Font   any
	FS     float64
	Path   []PathSeg
	Op     string
	Mat    Mat
	XRef   any
	XName  string
}
type PathSeg struct {
	T   byte
	Pts []float64
}

type Page struct {
	num      int // object number
	d        *Dict
	inh      map[string]any // effective attributes incl. inherited
	parents  []int
	contents []*Stream
	cnums    []int
	data     []byte
	tokens   []string
	draws    []Draw
	problems []string
}

// pages walks the page tree; structural problems go to p.problems
func (p *PDF) pages() []*Page {
	var out []*Page
	root := p.dict(p.trailer.get("Root"))
	if root == nil {
		p.prob("no catalog")
		return nil
	}
	pr, ok := root.get("Pages").(Ref)
	if !ok {
		p.prob("no /Pages in catalog")
		return nil
	}
	seen := map[int]bool{}
	var walk func(r Ref, parent int, inh map[string]any, path []int) int
	walk = func(r Ref, parent int, inh map[string]any, path []int) int {
		if seen[r.N] {
			p.prob("page tree node %d visited twice", r.N)
			return 0
		}
		seen[r.N] = true
		d := p.dict(r)
		if d == nil {
			p.prob("page tree node %d missing", r.N)
			return 0
		}
		if parent != 0 {
			if pp, ok := d.get("Parent").(Ref); !ok || pp.N != parent {
				p.prob("node %d: /Parent is not %d", r.N, parent)
			}
		} else if d.get("Parent") != nil {
			p.prob("root of page tree has /Parent")
		}
		in := map[string]any{}
		for k, v := range inh {
			in[k] = v
		}
		for _, k := range []string{"MediaBox", "CropBox", "Resources", "Rotate"} {
			if v := d.get(k); v != nil {
				in[k] = v
			}
		}
		t, _ := p.resolve(d.get("Type")).(Name)
		if t == "Pages" || (t == "" && d.get("Kids") != nil) {
			kids, ok := p.resolve(d.get("Kids")).(Arr)
			if !ok {
				p.prob("node %d: no /Kids", r.N)
				return 0
			}
			n := 0
			for _, k := range kids {
				kr, ok := k.(Ref)
				if !ok {
					p.prob("node %d: kid is not a reference", r.N)
					continue
				}
				n += walk(kr, r.N, in, append(append([]int{}, path...), r.N))
			}
			if c, ok := p.num(d.get("Count")); !ok || int(c) != n {
				p.prob("node %d: /Count %v but %d pages", r.N, d.get("Count"), n)
			}
			return n
		}
		if t != "Page" {
			p.prob("node %d: bad /Type %q", r.N, t)
		}
		out = append(out, &Page{num: r.N, d: d, inh: in, parents: path})
		return 1
	}
	walk(pr, 0, map[string]any{}, nil)
	return out
}

func (p *PDF) loadContents(pg *Page) {
	var add func(v any, depth int)
	add = func(v any, depth int) {
		if depth > 4 {
			return
		}
		if r, ok := v.(Ref); ok {
			if s, ok := p.at(r).(*Stream); ok {
				pg.contents = append(pg.contents, s)
				pg.cnums = append(pg.cnums, r.N)
				return
			}
		}
		switch x := p.resolve(v).(type) {
		case *Stream:
			pg.contents = append(pg.contents, x)
		case Arr:
			for _, e := range x {
				add(e, depth+1)
			}
		case nil:
		default:
			pg.problems = append(pg.problems, "bad /Contents")
		}
	}
	add(pg.d.get("Contents"), 0)
	for _, s := range pg.contents {
		b, err := p.decode(s)
		if err != nil {
			pg.problems = append(pg.problems, "content stream: "+err.Error())
			continue
		}
		pg.data = append(pg.data, b...)
		pg.data = append(pg.data, '\n')
	}
}

func fmtTok(v any) string {
	switch x := v.(type) {
	case Num:
		return strconv.FormatFloat(x.V, 'f', -1, 64)
	case Kw:
		return string(x)
	}
	return (&PDF{}).dig(v, 0)
}

func (p *PDF) interpret(pg *Page) {
	p.loadContents(pg)
	res := p.dict(pg.inh["Resources"])
	lookup := func(cat, name string) (any, bool) {
		d := p.dict(res.get(cat))
		if d == nil {
			return nil, false
		}
		v, ok := d.M[name]
		return v, ok
	}
	resDig := func(cat, name string) string {
		v, ok := lookup(cat, name)
		if !ok {
			return "?" + name
		}
		return p.digest(v)
	}
	l := &Lexer{b: pg.data}
	gs := newGState()
	var stack []GState
	var ops []any
	var path []PathSeg
	var cx, cy, sx, sy float64
	pendClip := ""
	inText := false
	tm, tlm := ident, ident
	var cur *Draw // current text group
	bad := func(f string, a ...any) {
		if len(pg.problems) < 20 {
			pg.problems = append(pg.problems, fmt.Sprintf(f, a...))
		}
	}
	f := func(i int) float64 {
		if i < len(ops) {
			if n, ok := ops[i].(Num); ok {
				return n.V
			}
		}
		return 0
	}
	flushText := func() {
		if cur != nil && len(cur.Glyphs) > 0 {
			pg.draws = append(pg.draws, *cur)
		}
		cur = nil
	}
	pt := func(x, y float64) []float64 { a, b := gs.ctm.apply(x, y); return []float64{a, b} }
	pathStr := func() string {
		s := ""
		for _, q := range path {
			s += string(q.T)
			for _, v := range q.Pts {
				s += fmt.Sprintf(" %.4f", v)
			}
		}
		return s
	}
	paint := func(op string) {
		if op != "n" && len(path) > 0 {
			d := Draw{Kind: "p", GS: gs, Path: path, Op: op}
			d.Dig = sh("p", op, pathStr(), gs.stateDig(false))
			pg.draws = append(pg.draws, d)
		}
		if pendClip != "" {
			gs.clip = sh(gs.clip, pendClip, pathStr())
			pendClip = ""
		}
		path = nil
	}
	show := func(b []byte) {
		if !inText {
			bad("text shown outside BT/ET")
		}
		fd := p.dict(gs.font)
		if fd == nil {
			bad("text shown with font %q which does not resolve", gs.fontName)
		}
		if cur != nil && (cur.FS != gs.fs || !sameFont(cur.Font, gs.font) || cur.GS.fill.str() != gs.fill.str()) {
			flushText()
		}
		full := tm.mul(gs.ctm)
		if cur == nil {
			cur = &Draw{Kind: "t", GS: gs, Font: gs.font, FS: gs.fs, Lin: full}
			cur.Dig = sh("t", p.digest(gs.font), gs.fs, gs.stateDig(true))
		}
		cur.Dig = sh(cur.Dig, b, fmt.Sprintf("%.4f %.4f %.3f %.3f %.3f %.3f %d", full, gs.ts, gs.tc, gs.tw, gs.tz, gs.fs, gs.tr))
		wd := p.fontWidths(gs.font)
		step := 1
		if wd.two {
			step = 2
		}
		for i := 0; i+step <= len(b); i += step {
			code := int(b[i])
			if step == 2 {
				code = code<<8 | int(b[i+1])
			}
			w := wd.width(code)
			full := tm.mul(gs.ctm)
			cur.Glyphs = append(cur.Glyphs, GlyphRun{Code: code, N: step, X: full[4], Y: full[5], Rise: gs.ts, W: w})
			tx := (w/1000*gs.fs + gs.tc)
			if step == 1 && code == 32 {
				tx += gs.tw
			}
			tx *= gs.tz / 100
			tm = Mat{1, 0, 0, 1, tx, 0}.mul(tm)
		}
		if step == 2 && len(b)%2 == 1 {
			bad("odd string length for two byte font")
		}
	}
	nextLine := func(x, y float64) {
		tlm = Mat{1, 0, 0, 1, x, y}.mul(tlm)
		tm = tlm
	}
	for {
		l.skip()
		if l.pos >= len(l.b) {
			break
		}
		v, err := l.tok()
		if err != nil {
			bad("content syntax: %v", err)
			break
		}
		if _, ok := v.(closer); ok {
			bad("content syntax: stray closer")
			break
		}
		pg.tokens = append(pg.tokens, fmtTok(v))
		op, isOp := v.(Kw)
		if !isOp {
			ops = append(ops, v)
			continue
		}
		switch op {
		case "q":
			stack = append(stack, gs)
		case "Q":
			if len(stack) == 0 {
				bad("Q without q")
			} else {
				gs = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
		case "cm":
			gs.ctm = Mat{f(0), f(1), f(2), f(3), f(4), f(5)}.mul(gs.ctm)
		case "w":
			gs.lw = f(0)
		case "d":
			gs.dashA = nil
			if len(ops) >= 2 {
				if a, ok := ops[0].(Arr); ok {
					for _, e := range a {
						if n, ok := e.(Num); ok {
							gs.dashA = append(gs.dashA, n.V)
						}
					}
				}
			}
			gs.dashP = f(1)
			gs.dash = fmt.Sprint(gs.dashA, gs.dashP)
		case "J", "j", "M", "i":
			gs.misc = sh(gs.misc, string(op), f(0))
		case "ri":
			gs.misc = sh(gs.misc, "ri", fmt.Sprint(ops))
		case "gs":
			n := opName(ops, 0)
			gs.gs = sh(gs.gs, resDig("ExtGState", n))
			if _, ok := lookup("ExtGState", n); !ok {
				bad("gs %s does not resolve", n)
			}
		case "rg":
			gs.fill = Color{CS: "rgb", V: []float64{f(0), f(1), f(2)}}
		case "RG":
			gs.stroke = Color{CS: "rgb", V: []float64{f(0), f(1), f(2)}}
		case "g":
			gs.fill = Color{CS: "gray", V: []float64{f(0)}}
		case "G":
			gs.stroke = Color{CS: "gray", V: []float64{f(0)}}
		case "k":
			gs.fill = Color{CS: "cmyk", V: []float64{f(0), f(1), f(2), f(3)}}
		case "K":
			gs.stroke = Color{CS: "cmyk", V: []float64{f(0), f(1), f(2), f(3)}}
		case "cs":
			gs.fill = Color{CS: "cs" + csDig(opName(ops, 0), resDig)}
		case "CS":
			gs.stroke = Color{CS: "cs" + csDig(opName(ops, 0), resDig)}
		case "sc", "scn", "SC", "SCN":
			c := Color{}
			for _, o := range ops {
				switch x := o.(type) {
				case Num:
					c.V = append(c.V, x.V)
				case Name:
					c.P = resDig("Pattern", string(x))
				}
			}
			if op == "sc" || op == "scn" {
				c.CS = gs.fill.CS
				gs.fill = c
			} else {
				c.CS = gs.stroke.CS
				gs.stroke = c
			}
		case "m":
			cx, cy = f(0), f(1)
			sx, sy = cx, cy
			path = append(path, PathSeg{'m', pt(cx, cy)})
		case "l":
			cx, cy = f(0), f(1)
			path = append(path, PathSeg{'l', pt(cx, cy)})
		case "c":
			path = append(path, PathSeg{'c', append(append(pt(f(0), f(1)), pt(f(2), f(3))...), pt(f(4), f(5))...)})
			cx, cy = f(4), f(5)
		case "v":
			path = append(path, PathSeg{'c', append(append(pt(cx, cy), pt(f(0), f(1))...), pt(f(2), f(3))...)})
			cx, cy = f(2), f(3)
		case "y":
			path = append(path, PathSeg{'c', append(append(pt(f(0), f(1)), pt(f(2), f(3))...), pt(f(2), f(3))...)})
			cx, cy = f(2), f(3)
		case "h":
			path = append(path, PathSeg{'h', nil})
			cx, cy = sx, sy
		case "re":
			x, y, w, h := f(0), f(1), f(2), f(3)
			path = append(path, PathSeg{'m', pt(x, y)}, PathSeg{'l', pt(x+w, y)}, PathSeg{'l', pt(x+w, y+h)}, PathSeg{'l', pt(x, y+h)}, PathSeg{'h', nil})
			cx, cy, sx, sy = x, y, x, y
		case "S":
			paint("S")
		case "s":
			path = append(path, PathSeg{'h', nil})
			paint("S")
		case "f", "F":
			paint("f")
		case "f*", "B", "B*":
			paint(string(op))
		case "b":
			path = append(path, PathSeg{'h', nil})
			paint("B")
		case "b*":
			path = append(path, PathSeg{'h', nil})
			paint("B*")
		case "n":
			paint("n")
		case "W", "W*":
			pendClip = string(op)
		case "BT":
			if inText {
				bad("nested BT")
			}
			inText = true
			tm, tlm = ident, ident
		case "ET":
			if !inText {
				bad("ET without BT")
			}
			inText = false
			flushText()
		case "Tf":
			gs.fontName = opName(ops, 0)
			v, ok := lookup("Font", gs.fontName)
			if !ok {
				bad("font %s does not resolve", gs.fontName)
			}
			gs.font = v
			gs.fs = f(1)
		case "Tc":
			gs.tc = f(0)
		case "Tw":
			gs.tw = f(0)
		case "Tz":
			gs.tz = f(0)
		case "TL":
			gs.tl = f(0)
		case "Ts":
			gs.ts = f(0)
		case "Tr":
			gs.tr = int(f(0))
		case "Td":
			nextLine(f(0), f(1))
		case "TD":
			gs.tl = -f(1)
			nextLine(f(0), f(1))
		case "Tm":
			tlm = Mat{f(0), f(1), f(2), f(3), f(4), f(5)}
			tm = tlm
		case "T*":
			nextLine(0, -gs.tl)
		case "Tj":
			if len(ops) > 0 {
				if s, ok := ops[0].(Str); ok {
					show(s)
				}
			}
		case "'":
			nextLine(0, -gs.tl)
			if len(ops) > 0 {
				if s, ok := ops[0].(Str); ok {
					show(s)
				}
			}
		case "\"":
			gs.tw, gs.tc = f(0), f(1)
			nextLine(0, -gs.tl)
			if len(ops) > 2 {
				if s, ok := ops[2].(Str); ok {
					show(s)
				}
			}
		case "TJ":
			if len(ops) > 0 {
				if a, ok := ops[0].(Arr); ok {
					for _, e := range a {
						switch x := e.(type) {
						case Str:
							show(x)
						case Num:
							tm = Mat{1, 0, 0, 1, -x.V / 1000 * gs.fs * gs.tz / 100, 0}.mul(tm)
						}
					}
				}
			}
		case "Do":
			n := opName(ops, 0)
			v, ok := lookup("XObject", n)
			if !ok {
				bad("XObject %s does not resolve", n)
			}
			d := Draw{Kind: "i", GS: gs, XRef: v, XName: n, Mat: gs.ctm}
			xd := p.dict(v)
			st, _ := p.resolve(xd.get("Subtype")).(Name)
			if st != "Image" {
				d.Kind = "f"
			}
			d.Dig = sh("do", p.digest(v), gs.stateDig(false))
			pg.draws = append(pg.draws, d)
		case "sh":
			pg.draws = append(pg.draws, Draw{Kind: "s", GS: gs, Dig: sh("sh", resDig("Shading", opName(ops, 0)), gs.stateDig(false))})
		case "BI":
			// inline image: dictionary up to ID, data up to EI
			st := l.pos
			for {
				v, err := l.tok()
				if err != nil || v == Kw("ID") {
					break
				}
			}
			e := bytes.Index(l.b[min(l.pos+1, len(l.b)):], []byte("EI"))
			for e >= 0 {
				q := l.pos + 1 + e
				if (q == 0 || isWS(l.b[q-1])) && (q+2 >= len(l.b) || isWS(l.b[q+2])) {
					break
				}
				k := bytes.Index(l.b[q+2:], []byte("EI"))
				if k < 0 {
					e = -1
					break
				}
				e += 2 + k
			}
			if e < 0 {
				bad("inline image without EI")
				l.pos = len(l.b)
				break
			}
			l.pos = l.pos + 1 + e + 2
			pg.tokens = append(pg.tokens, "inline"+sh(l.b[st:l.pos]))
			pg.draws = append(pg.draws, Draw{Kind: "b", GS: gs, Dig: sh("bi", l.b[st:l.pos], gs.stateDig(false))})
		case "BX", "EX", "BMC", "BDC", "EMC", "MP", "DP", "d0", "d1":
		default:
			bad("unknown operator %q", string(op))
		}
		ops = nil
	}
	flushText()
	if inText {
		bad("BT without ET")
	}
	if len(ops) > 0 {
		bad("operands without operator at the end")
	}
}

func csDig(n string, rd func(a, b string) string) string {
	switch n {
	case "DeviceGray", "DeviceRGB", "DeviceCMYK", "Pattern":
		return n
	}
	return rd("ColorSpace", n)
}

func opName(ops []any, i int) string {
	if i < len(ops) {
		if n, ok := ops[i].(Name); ok {
			return string(n)
		}
	}
	return ""
}

func sameFont(a, b any) bool {
	ra, oka := a.(Ref)
	rb, okb := b.(Ref)
	if oka && okb {
		return ra == rb
	}
	return fmt.Sprint(a) == fmt.Sprint(b)
}

func (g *GState) stateDig(text bool) string {
	s := fmt.Sprintf("%.4f|%s|%s|%.3f|%s|%s|%s|%s", g.ctm, g.fill.str(), g.stroke.str(), g.lw, g.dash, g.misc, g.gs, g.clip)
	return sh(s)
}

type widths struct {
	two  bool
	m    map[int]float64
	dw   float64
	def  func(int) float64
	cids bool
}

func (w *widths) width(code int) float64 {
	if v, ok := w.m[code]; ok {
		return v
	}
	return w.dw
}

func (p *PDF) fontWidths(f any) *widths {
	if p.wMemo == nil {
		p.wMemo = map[int]*widths{}
	}
	r, isRef := f.(Ref)
	if isRef {
		if w, ok := p.wMemo[r.N]; ok {
			return w
		}
	}
	w := &widths{m: map[int]float64{}}
	d := p.dict(f)
	if d != nil {
		if st, _ := p.resolve(d.get("Subtype")).(Name); st == "Type0" {
			w.two = true
			w.dw = 1000
			if a, ok := p.resolve(d.get("DescendantFonts")).(Arr); ok && len(a) > 0 {
				cd := p.dict(a[0])
				if v, ok := p.num(cd.get("DW")); ok {
					w.dw = v
				}
				if arr, ok := p.resolve(cd.get("W")).(Arr); ok {
					i := 0
					for i < len(arr) {
						c, ok := p.num(arr[i])
						if !ok || i+1 >= len(arr) {
							break
						}
						if list, ok := p.resolve(arr[i+1]).(Arr); ok {
							for k, e := range list {
								v, _ := p.num(e)
								w.m[int(c)+k] = v
							}
							i += 2
						} else if i+2 < len(arr) {
							c2, _ := p.num(arr[i+1])
							v, _ := p.num(arr[i+2])
							for k := int(c); k <= int(c2) && k-int(c) < 70000; k++ {
								w.m[k] = v
							}
							i += 3
						} else {
							break
						}
					}
				}
			}
		} else {
			fc, _ := p.num(d.get("FirstChar"))
			for i, v := range p.nums(d.get("Widths")) {
				w.m[int(fc)+i] = v
			}
		}
	}
	if isRef {
		p.wMemo[r.N] = w
	}
	return w
}
