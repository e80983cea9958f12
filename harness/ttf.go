package main

// TrueType builder (synthetic fonts) and an independent TrueType reader.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
)

type CompD struct {
	G  int `json:"g"`
	DX int `json:"dx"`
	DY int `json:"dy"`
	FL int `json:"fl"` // 0 bytes args, 1 word args, 2 scale, 3 xy scale, 4 two by two
}
type GlyphD struct {
	Adv   int     `json:"adv"`
	Lsb   int     `json:"lsb"`
	K     string  `json:"k"` // e empty, s simple, c composite
	N     int     `json:"n"` // outline seed
	Comps []CompD `json:"comps"`
}
type FontD struct {
	Name   string     `json:"name"`
	Upem   int        `json:"upem"`
	Asc    int        `json:"asc"`
	Desc   int        `json:"desc"`
	TypoA  int        `json:"typoa"`
	TypoD  int        `json:"typod"`
	WinA   int        `json:"wina"`
	WinD   int        `json:"wind"`
	Cap    int        `json:"cap"`
	XH     int        `json:"xh"`
	OS2V   int        `json:"os2v"`
	Up     int        `json:"up"`
	Ut     int        `json:"ut"`
	Italic int        `json:"italic"`
	NHM    int        `json:"nhm"`
	Long   bool       `json:"long"`
	Glyphs []GlyphD   `json:"glyphs"`
	Cmap   [][2]int   `json:"cmap"`
	Seg    string     `json:"seg"`  // delta | range
	F12    bool       `json:"f12"`  // add a (3,10) format 12 subtable with all the characters
	Tabs   []string   `json:"tabs"` // optional tables: cvt fpgm prep
	NoPad  bool       `json:"nopad"`
	Last   string     `json:"last"` // table placed last in the file
	BBox   []int      `json:"bbox"`
	Kern   [][][3]int `json:"kern"` // subtables of the kern table: left glyph, right glyph, value
	Gap    int        `json:"gap"`  // unused glyphs between glyph 0 and the others
}

// spread inserts the unused glyphs and renumbers the others
func (f FontD) spread() FontD {
	if f.Gap == 0 {
		return f
	}
	up := func(g int) int {
		if g > 0 {
			return g + f.Gap
		}
		return g
	}
	gl := []GlyphD{f.Glyphs[0]}
	for i := 0; i < f.Gap; i++ {
		g := GlyphD{Adv: 100 + i%900, Lsb: i % 50, K: "s", N: i}
		if f.Gap > 3000 {
			g.K = "e"
		}
		gl = append(gl, g)
	}
	for _, g := range f.Glyphs[1:] {
		g.Comps = append([]CompD{}, g.Comps...)
		for i := range g.Comps {
			g.Comps[i].G = up(g.Comps[i].G)
		}
		gl = append(gl, g)
	}
	f.Glyphs = gl
	cm := append([][2]int{}, f.Cmap...)
	for i := range cm {
		cm[i][1] = up(cm[i][1])
	}
	f.Cmap = cm
	if f.NHM > 1 {
		f.NHM += f.Gap
	}
	return f
}

type bw struct{ b []byte }

func (w *bw) u8(v int)  { w.b = append(w.b, byte(v)) }
func (w *bw) u16(v int) { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *bw) u32(v int) { w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

func buildTTF(f FontD) []byte {
	f = f.spread()
	tabs := map[string][]byte{}
	var head bw
	head.u32(0x10000)
	head.u32(0x10000)
	head.u32(0)
	head.u32(0x5F0F3CF5)
	head.u16(0)
	head.u16(f.Upem)
	for i := 0; i < 4; i++ {
		head.u32(0)
	}
	bb := f.BBox
	if len(bb) != 4 {
		bb = []int{-50, f.Desc, f.Upem, f.Asc}
	}
	for _, v := range bb {
		head.u16(v)
	}
	head.u16(0)
	head.u16(8)
	head.u16(2)
	if f.Long {
		head.u16(1)
	} else {
		head.u16(0)
	}
	head.u16(0)
	tabs["head"] = head.b

	ng := len(f.Glyphs)
	nhm := f.NHM
	if nhm <= 0 || nhm > ng {
		nhm = ng
	}
	var hhea bw
	hhea.u32(0x10000)
	hhea.u16(f.Asc)
	hhea.u16(f.Desc)
	hhea.u16(0)
	for i := 0; i < 13; i++ {
		hhea.u16(0)
	}
	hhea.u16(nhm)
	tabs["hhea"] = hhea.b[:36]
	// hhea: 4 + 2*3 + 2 (advanceWidthMax) + 2*3 + 2*3 + 2*4 + 2 + 2 = 36
	hh := tabs["hhea"]
	binary.BigEndian.PutUint16(hh[34:], uint16(nhm))

	var maxp bw
	maxp.u32(0x10000)
	maxp.u16(ng)
	for i := 0; i < 13; i++ {
		maxp.u16(0)
	}
	tabs["maxp"] = maxp.b

	var hmtx bw
	for i, g := range f.Glyphs {
		if i < nhm {
			hmtx.u16(g.Adv)
		}
		hmtx.u16(g.Lsb)
	}
	tabs["hmtx"] = hmtx.b

	var glyf bw
	var offs []int
	for _, g := range f.Glyphs {
		offs = append(offs, len(glyf.b))
		switch g.K {
		case "s":
			nc := 1 + g.N%2
			glyf.u16(nc)
			for i := 0; i < 4; i++ {
				glyf.u16(g.N*7 + i*13)
			}
			np := 0
			for c := 0; c < nc; c++ {
				np += 3 + (g.N+c)%3
				glyf.u16(np - 1)
			}
			ins := g.N % 3
			glyf.u16(ins)
			for i := 0; i < ins; i++ {
				glyf.u8(0x4F)
			}
			for i := 0; i < np; i++ {
				glyf.u8(1) // on curve, words
			}
			for i := 0; i < np; i++ {
				glyf.u16((g.N*31+i*97)%400 - 150)
			}
			for i := 0; i < np; i++ {
				glyf.u16((g.N*53+i*61)%300 - 100)
			}
		case "c":
			glyf.u16(0xFFFF)
			for i := 0; i < 4; i++ {
				glyf.u16(g.N + i)
			}
			for i, c := range g.Comps {
				fl := 2 // args are xy
				if i < len(g.Comps)-1 {
					fl |= 32
				}
				if c.FL >= 1 {
					fl |= 1
				}
				switch c.FL {
				case 2:
					fl |= 8
				case 3:
					fl |= 64
				case 4:
					fl |= 128
				}
				glyf.u16(fl)
				glyf.u16(c.G)
				if fl&1 != 0 {
					glyf.u16(c.DX)
					glyf.u16(c.DY)
				} else {
					glyf.u8(c.DX)
					glyf.u8(c.DY)
				}
				n := map[int]int{2: 1, 3: 2, 4: 4}[c.FL]
				for k := 0; k < n; k++ {
					glyf.u16(0x2000 + k*16)
				}
			}
		}
		for len(glyf.b)%2 != 0 {
			glyf.u8(0)
		}
	}
	offs = append(offs, len(glyf.b))
	tabs["glyf"] = glyf.b
	var loca bw
	for _, o := range offs {
		if f.Long {
			loca.u32(o)
		} else {
			loca.u16(o / 2)
		}
	}
	tabs["loca"] = loca.b

	tabs["cmap"] = buildCmap(f)

	var name bw
	ps := f.Name
	if ps == "" {
		ps = "Synth"
	}
	name.u16(0)
	name.u16(1)
	name.u16(6 + 12)
	name.u16(1)
	name.u16(0)
	name.u16(0)
	name.u16(6)
	name.u16(len(ps))
	name.u16(0)
	name.b = append(name.b, ps...)
	tabs["name"] = name.b

	var os2 bw
	os2.u16(f.OS2V)
	os2.u16(500)
	os2.u16(400)
	os2.u16(5)
	os2.u16(0)
	for i := 0; i < 10; i++ {
		os2.u16(0)
	}
	os2.u16(0)
	for i := 0; i < 10; i++ {
		os2.u8(0)
	}
	for i := 0; i < 4; i++ {
		os2.u32(0)
	}
	os2.u32(0)  // vendor
	os2.u16(64) // fsSelection
	os2.u16(32)
	os2.u16(0xFFFF)
	os2.u16(f.TypoA)
	os2.u16(f.TypoD)
	os2.u16(0)
	os2.u16(f.WinA)
	os2.u16(f.WinD)
	if f.OS2V >= 1 {
		os2.u32(1)
		os2.u32(0)
	}
	if f.OS2V >= 2 {
		os2.u16(f.XH)
		os2.u16(f.Cap)
		os2.u16(0)
		os2.u16(32)
		os2.u16(1)
	}
	tabs["OS/2"] = os2.b

	var post bw
	post.u32(0x30000)
	post.u16(f.Italic)
	post.u16(0)
	post.u16(f.Up)
	post.u16(f.Ut)
	for i := 0; i < 5; i++ {
		post.u32(0)
	}
	tabs["post"] = post.b
	if len(f.Kern) > 0 {
		var k bw
		k.u16(0)
		k.u16(len(f.Kern))
		for _, pairs := range f.Kern {
			k.u16(0)
			k.u16(14 + 6*len(pairs))
			k.u16(1) // format 0, horizontal
			k.u16(len(pairs))
			k.u16(0)
			k.u16(0)
			k.u16(0)
			for _, p := range pairs {
				k.u16(p[0])
				k.u16(p[1])
				k.u16(p[2])
			}
		}
		tabs["kern"] = k.b
	}
	for _, t := range f.Tabs {
		tabs[(t + "    ")[:4]] = []byte{1, 2, 3, 4, 5, 6, 7, 8}
	}

	var tags []string
	for t := range tabs {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	order := append([]string{}, tags...)
	if f.Last != "" {
		sort.SliceStable(order, func(i, j int) bool { return order[i] != f.Last && order[j] == f.Last })
	}
	pos := map[string]int{}
	var body bw
	base := 12 + 16*len(tags)
	for i, t := range order {
		pos[t] = base + len(body.b)
		body.b = append(body.b, tabs[t]...)
		if i == len(order)-1 && f.NoPad {
			break
		}
		for len(body.b)%4 != 0 {
			body.u8(0)
		}
	}
	var out bw
	out.u32(0x10000)
	out.u16(len(tags))
	out.u16(0)
	out.u16(0)
	out.u16(0)
	for _, t := range tags {
		out.b = append(out.b, t...)
		out.u32(0)
		out.u32(pos[t])
		out.u32(len(tabs[t]))
	}
	return append(out.b, body.b...)
}

func buildCmap(f FontD) []byte {
	bmp := [][2]int{}
	all := append([][2]int{}, f.Cmap...)
	sort.Slice(all, func(i, j int) bool { return all[i][0] < all[j][0] })
	for _, c := range all {
		if c[0] <= 0xFFFE {
			bmp = append(bmp, c)
		}
	}
	type seg struct {
		s, e, d int
		gids    []int
	}
	var segs []seg
	for _, c := range bmp {
		d := (c[1] - c[0]) & 0xFFFF
		if n := len(segs); n > 0 && segs[n-1].e+1 == c[0] && (f.Seg == "range" || segs[n-1].d == d) {
			segs[n-1].e = c[0]
			segs[n-1].gids = append(segs[n-1].gids, c[1])
			continue
		}
		segs = append(segs, seg{c[0], c[0], d, []int{c[1]}})
	}
	segs = append(segs, seg{0xFFFF, 0xFFFF, 1, []int{0}})
	n := len(segs)
	var f4 bw
	var ids []int
	ro := make([]int, n)
	for i, s := range segs {
		if f.Seg == "range" && s.s != 0xFFFF {
			ro[i] = 2 * (n - i + len(ids))
			for _, g := range s.gids {
				ids = append(ids, g+16)
			}
		}
	}
	f4.u16(4)
	f4.u16(16 + 8*n + 2*len(ids))
	f4.u16(0)
	f4.u16(2 * n)
	f4.u16(0)
	f4.u16(0)
	f4.u16(0)
	for _, s := range segs {
		f4.u16(s.e)
	}
	f4.u16(0)
	for _, s := range segs {
		f4.u16(s.s)
	}
	for i, s := range segs {
		if ro[i] != 0 {
			f4.u16(0xFFF0) // idDelta counts with a glyph array too: 16 less
		} else {
			f4.u16(s.d)
		}
	}
	for i := range segs {
		f4.u16(ro[i])
	}
	for _, g := range ids {
		f4.u16(g)
	}
	var out bw
	out.u16(0)
	if f.F12 {
		out.u16(2)
	} else {
		out.u16(1)
	}
	hdr := 4 + 8
	if f.F12 {
		hdr += 8
	}
	out.u16(3)
	out.u16(1)
	out.u32(hdr)
	if f.F12 {
		out.u16(3)
		out.u16(10)
		out.u32(hdr + len(f4.b))
	}
	out.b = append(out.b, f4.b...)
	if f.F12 {
		type grp struct{ s, e, g int }
		var gs []grp
		for _, c := range all {
			if k := len(gs); k > 0 && gs[k-1].e+1 == c[0] && gs[k-1].g+(c[0]-gs[k-1].s) == c[1] {
				gs[k-1].e = c[0]
				continue
			}
			gs = append(gs, grp{c[0], c[0], c[1]})
		}
		var f12 bw
		f12.u16(12)
		f12.u16(0)
		f12.u32(16 + 12*len(gs))
		f12.u32(0)
		f12.u32(len(gs))
		for _, g := range gs {
			f12.u32(g.s)
			f12.u32(g.e)
			f12.u32(g.g)
		}
		out.b = append(out.b, f12.b...)
	}
	return out.b
}

// ---------- reader ----------

type TTF struct {
	kern     map[[2]int]int
	b        []byte
	tab      map[string][2]int
	upem     int
	long     bool
	nGlyphs  int
	nhm      int
	hAsc     int
	hDesc    int
	bbox     [4]int
	typoA    int
	typoD    int
	winA     int
	winD     int
	xh, cap  int
	os2v     int
	hasOS2   bool
	up, ut   int
	italic   int
	outMemo  map[int]string
	cmap4    map[int]int
	cmapHi   map[int]int
	problems []string
}

func (t *TTF) u16(tag string, off int) int {
	e, ok := t.tab[tag]
	if !ok || off+2 > e[1] || off < 0 || e[0]+off+2 > len(t.b) {
		panic(fmt.Sprintf("read outside table %s (%d)", tag, off))
	}
	return int(binary.BigEndian.Uint16(t.b[e[0]+off:]))
}
func (t *TTF) i16(tag string, off int) int { return int(int16(t.u16(tag, off))) }
func (t *TTF) u32(tag string, off int) int { return t.u16(tag, off)<<16 | t.u16(tag, off+2) }

func parseTTF(b []byte) (t *TTF, err error) {
	defer func() {
		if r := recover(); r != nil {
			t, err = nil, fmt.Errorf("%v", r)
		}
	}()
	if len(b) < 12 {
		return nil, errors.New("short font")
	}
	t = &TTF{b: b, tab: map[string][2]int{}, outMemo: map[int]string{}, cmap4: map[int]int{}, cmapHi: map[int]int{}, kern: map[[2]int]int{}}
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		t.tab[string(e[:4])] = [2]int{int(binary.BigEndian.Uint32(e[8:])), int(binary.BigEndian.Uint32(e[12:]))}
	}
	t.upem = t.u16("head", 18)
	for i := 0; i < 4; i++ {
		t.bbox[i] = t.i16("head", 36+2*i)
	}
	t.long = t.u16("head", 50) == 1
	t.hAsc = t.i16("hhea", 4)
	t.hDesc = t.i16("hhea", 6)
	t.nhm = t.u16("hhea", 34)
	t.nGlyphs = t.u16("maxp", 4)
	if _, ok := t.tab["OS/2"]; ok {
		t.hasOS2 = true
		t.os2v = t.u16("OS/2", 0)
		t.typoA = t.i16("OS/2", 68)
		t.typoD = t.i16("OS/2", 70)
		t.winA = t.u16("OS/2", 74)
		t.winD = t.u16("OS/2", 76)
		if t.os2v >= 2 {
			t.xh = t.i16("OS/2", 86)
			t.cap = t.i16("OS/2", 88)
		}
	}
	if _, ok := t.tab["post"]; ok {
		t.italic = t.i16("post", 4)
		t.up = t.i16("post", 8)
		t.ut = t.i16("post", 10)
	}
	if _, ok := t.tab["kern"]; ok {
		off := 4
		for i := 0; i < t.u16("kern", 2); i++ {
			if t.u16("kern", off+4) == 1 {
				for k := 0; k < t.u16("kern", off+6); k++ {
					p := off + 14 + 6*k
					t.kern[[2]int{t.u16("kern", p), t.u16("kern", p+2)}] += t.i16("kern", p+4)
				}
			}
			off += t.u16("kern", off+2)
		}
	}
	if _, ok := t.tab["cmap"]; ok {
		nt := t.u16("cmap", 2)
		for i := 0; i < nt; i++ {
			pid, eid, off := t.u16("cmap", 4+8*i), t.u16("cmap", 6+8*i), t.u32("cmap", 8+8*i)
			if pid == 3 && eid == 1 && t.u16("cmap", off) == 4 {
				sc := t.u16("cmap", off+6) / 2
				for s := 0; s < sc; s++ {
					end := t.u16("cmap", off+14+2*s)
					start := t.u16("cmap", off+16+2*sc+2*s)
					delta := t.u16("cmap", off+16+4*sc+2*s)
					rpos := off + 16 + 6*sc + 2*s
					ro := t.u16("cmap", rpos)
					for c := start; c <= end && c != 0xFFFF; c++ {
						g := 0
						if ro == 0 {
							g = (c + delta) & 0xFFFF
						} else {
							g = t.u16("cmap", rpos+ro+2*(c-start))
							if g != 0 {
								g = (g + delta) & 0xFFFF
							}
						}
						if _, have := t.cmap4[c]; !have && g != 0 {
							t.cmap4[c] = g
						}
					}
				}
			}
			if pid == 3 && eid == 10 && t.u16("cmap", off) == 12 {
				ng := t.u32("cmap", off+12)
				for k := 0; k < ng; k++ {
					s, e, g := t.u32("cmap", off+16+12*k), t.u32("cmap", off+20+12*k), t.u32("cmap", off+24+12*k)
					for c := s; c <= e && c-s < 70000; c++ {
						t.cmapHi[c] = g + c - s
					}
				}
			}
		}
	}
	return t, nil
}

func (t *TTF) gid(cp int) (int, bool) {
	if cp <= 0xFFFF {
		g, ok := t.cmap4[cp]
		return g, ok
	}
	g, ok := t.cmapHi[cp]
	return g, ok
}

func (t *TTF) adv(g int) (adv, lsb int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	if g < t.nhm {
		return t.u16("hmtx", 4*g), t.i16("hmtx", 4*g+2), nil
	}
	return t.u16("hmtx", 4*(t.nhm-1)), t.i16("hmtx", 4*t.nhm+2*(g-t.nhm)), nil
}

func (t *TTF) locaRange(g int) (int, int) {
	if g < 0 || g >= t.nGlyphs {
		panic(fmt.Sprintf("glyph %d outside font", g))
	}
	if t.long {
		return t.u32("loca", 4*g), t.u32("loca", 4*g+4)
	}
	return 2 * t.u16("loca", 2*g), 2 * t.u16("loca", 2*g+2)
}

// outline gives a digest of the outline of a glyph, independent of glyph numbers.
func (t *TTF) outline(g int) (s string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return t.outl(g, 0), nil
}

func (t *TTF) outl(g, depth int) string {
	if m, ok := t.outMemo[g]; ok {
		return m
	}
	if depth > 20 {
		panic("composite loop")
	}
	s, e := t.locaRange(g)
	r := ""
	if s == e {
		r = "-"
	} else if s > e {
		panic("loca not increasing")
	} else if nc := t.i16("glyf", s); nc >= 0 {
		desc := fmt.Sprint(nc)
		for i := 0; i < 4; i++ {
			desc += fmt.Sprint(",", t.i16("glyf", s+2+2*i))
		}
		p := s + 10
		np := 0
		for i := 0; i < nc; i++ {
			np = t.u16("glyf", p) + 1
			desc += fmt.Sprint(";", np)
			p += 2
		}
		il := t.u16("glyf", p)
		p += 2 + il
		rb := func() int {
			v := t.u16("glyf", p&^1)
			if p&1 == 0 {
				v >>= 8
			}
			p++
			return v & 255
		}
		gb := t.tab["glyf"]
		rb = func() int {
			if p >= gb[1] {
				panic("glyph outside glyf")
			}
			v := int(t.b[gb[0]+p])
			p++
			return v
		}
		var fl []int
		for len(fl) < np {
			f := rb()
			fl = append(fl, f)
			if f&8 != 0 {
				for k := rb(); k > 0; k-- {
					fl = append(fl, f)
				}
			}
		}
		for axis := 0; axis < 2; axis++ {
			sb, sm := 2, 16
			if axis == 1 {
				sb, sm = 4, 32
			}
			v := 0
			for _, f := range fl {
				if f&sb != 0 {
					d := rb()
					if f&sm == 0 {
						d = -d
					}
					v += d
				} else if f&sm == 0 {
					d := rb() << 8
					d |= rb()
					v += int(int16(d))
				}
				desc += fmt.Sprint(" ", v, ".", f&1)
			}
			desc += "|"
		}
		if p > e {
			panic("glyph data cut")
		}
		r = "s" + sh(desc)
	} else {
		desc := "c"
		for i := 0; i < 4; i++ {
			desc += fmt.Sprint(",", t.i16("glyf", s+2+2*i))
		}
		p := s + 10
		for {
			fl := t.u16("glyf", p)
			cg := t.u16("glyf", p+2)
			p += 4
			desc += fmt.Sprintf(" f%d %s", fl, t.outl(cg, depth+1))
			gb := t.tab["glyf"]
			n := 2
			if fl&1 != 0 {
				n = 4
			}
			if fl&8 != 0 {
				n += 2
			} else if fl&64 != 0 {
				n += 4
			} else if fl&128 != 0 {
				n += 8
			}
			if p+n > e {
				panic("composite cut")
			}
			desc += fmt.Sprintf(" %x", t.b[gb[0]+p:gb[0]+p+n])
			p += n
			if fl&32 == 0 {
				break
			}
		}
		r = "c" + sh(desc)
	}
	t.outMemo[g] = r
	return r
}

// ---------- catalogue of fonts used by scenarios ----------

func catalogFont(key string) (FontD, bool) {
	mk := func(upem, asc, desc int, chars []int, seed int, adv func(i int) int) FontD {
		f := FontD{Name: "Syn" + key, Upem: upem, Asc: asc, Desc: desc, TypoA: asc * 9 / 10, TypoD: desc * 9 / 10,
			WinA: asc + 5, WinD: -desc + 7, Cap: asc * 7 / 10, XH: asc / 2, OS2V: 2, Up: -upem / 10, Ut: upem / 20}
		f.Glyphs = append(f.Glyphs, GlyphD{Adv: adv(0), Lsb: 3, K: "s", N: seed})
		for i, c := range chars {
			g := GlyphD{Adv: adv(i + 1), Lsb: i % 7, K: "s", N: seed + 3*i + 1}
			if c == ' ' {
				g.K = "e"
			}
			f.Glyphs = append(f.Glyphs, g)
			f.Cmap = append(f.Cmap, [2]int{c, i + 1})
		}
		return f
	}
	// kern pairs of the glyphs lo..hi
	pairs := func(lo, hi int) (ps [][3]int) {
		for l := lo; l <= hi; l++ {
			for r := lo; r <= hi; r++ {
				if v := ((l*7+r*11)%23 - 11) * 15; (l*5+r*3)%4 != 1 && v != 0 {
					ps = append(ps, [3]int{l, r, v})
				}
			}
		}
		return
	}
	ascii := []int{}
	for c := 32; c < 127; c++ {
		ascii = append(ascii, c)
	}
	switch key {
	case "A": // upem 1000, easy widths
		return mk(1000, 800, -200, ascii, 1000, func(i int) int { return 500 }), true
	case "B": // upem 2048, varied widths, composites, few hmetrics, long loca, astral characters
		chars := append(append([]int{}, ascii...), 0xE9, 0xE8, 0xEA, 0xE01, 0xE48, 0x4E2D, 0x6587)
		f := mk(2048, 1638, -410, chars, 5000, func(i int) int { return 300 + (i*137)%1500 })
		n := len(f.Glyphs)
		f.Glyphs = append(f.Glyphs,
			GlyphD{Adv: 911, Lsb: 1, K: "c", N: 3, Comps: []CompD{{G: 40, DX: 3, DY: 5}, {G: 41, DX: 300, DY: -200, FL: 1}}},
			GlyphD{Adv: 912, Lsb: 2, K: "c", N: 4, Comps: []CompD{{G: n, DX: 1, DY: 2, FL: 2}, {G: 42, DX: 9, DY: 8, FL: 4}}},
			GlyphD{Adv: 913, Lsb: 4, K: "c", N: 5, Comps: []CompD{{G: n + 1, DX: 1, DY: 2, FL: 3}}},
			GlyphD{Adv: 914, Lsb: 4, K: "s", N: 777})
		f.Cmap = append(f.Cmap, [2]int{0xC0, n}, [2]int{0xC1, n + 1}, [2]int{0xC2, n + 2}, [2]int{0x1F600, n + 2}, [2]int{0x1F601, n + 3}, [2]int{0x10FFFD, n})
		f.NHM = n - 3
		f.Long = true
		f.Seg = "range"
		f.F12 = true
		f.Tabs = []string{"cvt", "prep", "fpgm"}
		f.Kern = [][][3]int{pairs(30, 60)}
		return f, true
	case "C": // several characters share glyphs, old OS/2, odd em
		chars := []int{}
		for c := 'a'; c <= 'z'; c++ {
			chars = append(chars, int(c))
		}
		chars = append(chars, ' ')
		f := mk(1024, 900, -333, chars, 9000, func(i int) int { return 211 + 29*i })
		for c := 'A'; c <= 'Z'; c++ {
			f.Cmap = append(f.Cmap, [2]int{int(c), int(c-'A') + 1})
		}
		for c := '0'; c <= '9'; c++ {
			f.Cmap = append(f.Cmap, [2]int{int(c), 27})
		}
		f.OS2V = 1
		f.NoPad = true
		f.Last = "hmtx"
		f.Seg = "range"
		return f, true
	case "E": // many glyphs: numbers above 255
		chars := append([]int{}, ascii...)
		for c := 0x4E00; c < 0x4E00+600; c++ {
			chars = append(chars, c)
		}
		f := mk(1000, 850, -150, chars, 40000, func(i int) int { return 600 + (i%5)*100 })
		f.NHM = 650
		return f, true
	case "D": // like A but other outlines and widths; odd PostScript name
		f := mk(1000, 760, -240, ascii, 20000, func(i int) int { return 250 + (i%4)*250 })
		f.Italic = -12
		f.Name = "Syn D(x)#1"
		f.Kern = [][][3]int{pairs(30, 45), pairs(46, 75)}
		return f, true
	}
	return FontD{}, false
}
