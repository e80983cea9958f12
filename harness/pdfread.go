package main

// Independent PDF reader: used only to observe what the library wrote. It shares no code with /repo.

import (
	"bytes"
	"compress/zlib"
	"crypto/md5"
	"crypto/rc4"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
)

type (
	Name string
	Str  []byte
	Ref  struct{ N, G int }
	Num  struct {
		V   float64
		Int bool
	}
	Arr  []any
	Dict struct {
		Keys []string
		M    map[string]any
		Dup  int // repeated keys
	}
	Stream struct {
		D      *Dict
		Raw    []byte
		LenOK  bool
		RawEnd int
	}
	Kw string // keyword / operator
)

func newDict() *Dict { return &Dict{M: map[string]any{}} }

func (d *Dict) get(k string) any {
	if d == nil {
		return nil
	}
	return d.M[k]
}

type Lexer struct {
	b   []byte
	pos int
}

func isWS(c byte) bool {
	return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32
}
func isDelim(c byte) bool {
	switch c {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return false
}
func (l *Lexer) skip() {
	for l.pos < len(l.b) {
		c := l.b[l.pos]
		if isWS(c) {
			l.pos++
		} else if c == '%' {
			for l.pos < len(l.b) && l.b[l.pos] != 10 && l.b[l.pos] != 13 {
				l.pos++
			}
		} else {
			return
		}
	}
}

type closer string

var errEOF = errors.New("eof")

// token or object; structured objects are parsed recursively. refs are handled by the caller (obj()).
func (l *Lexer) tok() (any, error) {
	l.skip()
	if l.pos >= len(l.b) {
		return nil, errEOF
	}
	c := l.b[l.pos]
	switch {
	case c == '/':
		l.pos++
		var out []byte
		for l.pos < len(l.b) && !isWS(l.b[l.pos]) && !isDelim(l.b[l.pos]) {
			if l.b[l.pos] == '#' && l.pos+2 < len(l.b) {
				if v, err := strconv.ParseUint(string(l.b[l.pos+1:l.pos+3]), 16, 8); err == nil {
					out = append(out, byte(v))
					l.pos += 3
					continue
				}
			}
			out = append(out, l.b[l.pos])
			l.pos++
		}
		return Name(out), nil
	case c == '(':
		return l.litString()
	case c == '<':
		if l.pos+1 < len(l.b) && l.b[l.pos+1] == '<' {
			l.pos += 2
			d := newDict()
			for {
				k, err := l.tok()
				if err != nil {
					return nil, err
				}
				if cl, ok := k.(closer); ok {
					if cl == ">>" {
						return d, nil
					}
					return nil, fmt.Errorf("bad closer %s in dict at %d", cl, l.pos)
				}
				kn, ok := k.(Name)
				if !ok {
					return nil, fmt.Errorf("dict key is not a name at %d: %v", l.pos, k)
				}
				v, err := l.obj()
				if err != nil {
					return nil, err
				}
				if cl, ok := v.(closer); ok {
					return nil, fmt.Errorf("key %s without value (%s) at %d", kn, cl, l.pos)
				}
				if _, ok := v.(Kw); ok {
					return nil, fmt.Errorf("keyword %v as value of %s", v, kn)
				}
				if _, have := d.M[string(kn)]; have {
					d.Dup++
				} else {
					d.Keys = append(d.Keys, string(kn))
				}
				d.M[string(kn)] = v
			}
		}
		l.pos++
		var out, dig []byte
		for l.pos < len(l.b) && l.b[l.pos] != '>' {
			ch := l.b[l.pos]
			if !isWS(ch) {
				if !(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F') {
					return nil, fmt.Errorf("bad hex string at %d", l.pos)
				}
				dig = append(dig, ch)
			}
			l.pos++
		}
		l.pos++
		if len(dig)%2 == 1 {
			dig = append(dig, '0')
		}
		for i := 0; i < len(dig); i += 2 {
			v, _ := strconv.ParseUint(string(dig[i:i+2]), 16, 8)
			out = append(out, byte(v))
		}
		return Str(out), nil
	case c == '>':
		if l.pos+1 < len(l.b) && l.b[l.pos+1] == '>' {
			l.pos += 2
			return closer(">>"), nil
		}
		return nil, fmt.Errorf("lone > at %d", l.pos)
	case c == '[':
		l.pos++
		a := Arr{}
		for {
			v, err := l.obj()
			if err != nil {
				return nil, err
			}
			if cl, ok := v.(closer); ok {
				if cl == "]" {
					return a, nil
				}
				return nil, fmt.Errorf("bad closer %s in array at %d", cl, l.pos)
			}
			if _, ok := v.(Kw); ok {
				return nil, fmt.Errorf("keyword %v in array", v)
			}
			a = append(a, v)
		}
	case c == ']':
		l.pos++
		return closer("]"), nil
	case c == ')' || c == '{' || c == '}':
		l.pos++
		return nil, fmt.Errorf("unexpected %c at %d", c, l.pos)
	}
	st := l.pos
	for l.pos < len(l.b) && !isWS(l.b[l.pos]) && !isDelim(l.b[l.pos]) {
		l.pos++
	}
	w := string(l.b[st:l.pos])
	if isNumTok(w) {
		v, err := strconv.ParseFloat(w, 64)
		if err == nil {
			in := true
			for i := 0; i < len(w); i++ {
				if w[i] == '.' {
					in = false
				}
			}
			return Num{v, in}, nil
		}
	}
	switch w {
	case "true":
		return true, nil
	case "false":
		return false, nil
	case "null":
		return nil, nil
	}
	return Kw(w), nil
}

func isNumTok(w string) bool {
	if w == "" {
		return false
	}
	digits := 0
	for i := 0; i < len(w); i++ {
		c := w[i]
		if c >= '0' && c <= '9' {
			digits++
		} else if c == '.' || (i == 0 && (c == '+' || c == '-')) {
		} else {
			return false
		}
	}
	return digits > 0
}

func (l *Lexer) litString() (any, error) {
	depth := 0
	var out []byte
	for l.pos < len(l.b) {
		c := l.b[l.pos]
		switch c {
		case '\\':
			l.pos++
			if l.pos >= len(l.b) {
				return nil, errEOF
			}
			e := l.b[l.pos]
			switch e {
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 't':
				out = append(out, 9)
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case 13:
				if l.pos+1 < len(l.b) && l.b[l.pos+1] == 10 {
					l.pos++
				}
			case 10:
			default:
				if e >= '0' && e <= '7' {
					v := 0
					n := 0
					for n < 3 && l.pos < len(l.b) && l.b[l.pos] >= '0' && l.b[l.pos] <= '7' {
						v = v*8 + int(l.b[l.pos]-'0')
						l.pos++
						n++
					}
					out = append(out, byte(v))
					continue
				}
				out = append(out, e)
			}
			l.pos++
			continue
		case '(':
			depth++
			if depth > 1 {
				out = append(out, c)
			}
		case ')':
			depth--
			if depth == 0 {
				l.pos++
				return Str(out), nil
			}
			out = append(out, c)
		case 13:
			out = append(out, 10)
			if l.pos+1 < len(l.b) && l.b[l.pos+1] == 10 {
				l.pos++
			}
		default:
			out = append(out, c)
		}
		l.pos++
	}
	return nil, errEOF
}

// obj parses an object, recognising "n g R"
func (l *Lexer) obj() (any, error) {
	v, err := l.tok()
	if err != nil {
		return nil, err
	}
	if n, ok := v.(Num); ok && n.Int && n.V >= 0 {
		save := l.pos
		g, err := l.tok()
		if err == nil {
			if gn, ok := g.(Num); ok && gn.Int && gn.V >= 0 {
				r, err := l.tok()
				if err == nil {
					if k, ok := r.(Kw); ok && k == "R" {
						return Ref{int(n.V), int(gn.V)}, nil
					}
				}
			}
		}
		l.pos = save
	}
	return v, nil
}

type XRow struct {
	Kind string
	Val  int
	Gen  int
}

type PDF struct {
	raw      []byte
	rows     map[int]XRow
	trailer  *Dict
	xrefOff  int
	objs     map[int]any
	objErr   map[int]error
	bodyIDs  []int
	problems []string
	objEnd   int
	objPos   map[int]int
	gens     map[int]int // generation in the object header
	sections int
	rowList  []int

	// encryption
	encKey []byte
	encNum int
	enc    *Dict

	digMemo map[[2]int]string
	pageSet map[int]bool
	cutSet  map[int]bool
	wMemo   map[int]*widths
}

func (p *PDF) prob(f string, a ...any) { p.problems = append(p.problems, fmt.Sprintf(f, a...)) }

// parsePDF reads a classic-xref file strictly following startxref and /Prev.
func parsePDF(raw []byte) (*PDF, error) {
	p := &PDF{raw: raw, rows: map[int]XRow{}, objs: map[int]any{}, objErr: map[int]error{}, objPos: map[int]int{}, gens: map[int]int{}, digMemo: map[[2]int]string{}}
	si := bytes.LastIndex(raw, []byte("startxref"))
	if si < 0 {
		return nil, errors.New("no startxref")
	}
	l := &Lexer{b: raw, pos: si + 9}
	t, err := l.tok()
	if err != nil {
		return nil, err
	}
	n, ok := t.(Num)
	if !ok {
		return nil, errors.New("startxref without number")
	}
	off := int(n.V)
	p.xrefOff = off
	seen := map[int]bool{}
	for first := true; ; first = false {
		if off < 0 || off >= len(raw) || seen[off] {
			return nil, fmt.Errorf("bad xref offset %d", off)
		}
		seen[off] = true
		l := &Lexer{b: raw, pos: off}
		t, err := l.tok()
		if err != nil {
			return nil, err
		}
		if k, ok := t.(Kw); !ok || k != "xref" {
			return nil, fmt.Errorf("no xref at %d", off)
		}
		for {
			t, err := l.tok()
			if err != nil {
				return nil, err
			}
			if k, ok := t.(Kw); ok && k == "trailer" {
				break
			}
			start, ok := t.(Num)
			if !ok {
				return nil, errors.New("bad xref subsection")
			}
			t, err = l.tok()
			cnt, ok := t.(Num)
			if err != nil || !ok {
				return nil, errors.New("bad xref subsection count")
			}
			p.sections++
			for i := 0; i < int(cnt.V); i++ {
				a, e1 := l.tok()
				b, e2 := l.tok()
				c, e3 := l.tok()
				an, o1 := a.(Num)
				bn, o2 := b.(Num)
				ck, o3 := c.(Kw)
				if e1 != nil || e2 != nil || e3 != nil || !o1 || !o2 || !o3 || (ck != "n" && ck != "f") {
					return nil, errors.New("bad xref row")
				}
				num := int(start.V) + i
				if _, have := p.rows[num]; !have {
					p.rows[num] = XRow{string(ck), int(an.V), int(bn.V)}
					p.rowList = append(p.rowList, num)
				}
			}
		}
		d, err := l.obj()
		if err != nil {
			return nil, fmt.Errorf("trailer: %w", err)
		}
		td, ok := d.(*Dict)
		if !ok {
			return nil, errors.New("trailer is not a dictionary")
		}
		if first {
			p.trailer = td
		}
		prev, ok := td.get("Prev").(Num)
		if !ok {
			break
		}
		off = int(prev.V)
	}
	for num, row := range p.rows {
		if row.Kind != "n" {
			continue
		}
		o, err := p.parseObjAt(row.Val, num)
		if err != nil {
			p.objErr[num] = err
			continue
		}
		if p.gens[num] != row.Gen {
			p.objErr[num] = fmt.Errorf("object %d: generation %d, %d in the table", num, p.gens[num], row.Gen)
			continue
		}
		p.objs[num] = o
	}
	// page objects (targets of references that must not be descended into by digests)
	p.pageSet = map[int]bool{}
	for n, o := range p.objs {
		if d, ok := o.(*Dict); ok {
			if t, ok := d.get("Type").(Name); ok && (t == "Page" || t == "Pages") {
				p.pageSet[n] = true
			}
		}
	}
	return p, nil
}

func (p *PDF) intAt(v any) (int, bool) {
	switch x := v.(type) {
	case Num:
		return int(x.V), true
	case Ref:
		row, ok := p.rows[x.N]
		if !ok || row.Kind != "n" || row.Val < 0 || row.Val >= len(p.raw) {
			return 0, false
		}
		l := &Lexer{b: p.raw, pos: row.Val}
		for i := 0; i < 3; i++ {
			if _, err := l.tok(); err != nil {
				return 0, false
			}
		}
		t, err := l.tok()
		if err != nil {
			return 0, false
		}
		n, ok := t.(Num)
		return int(n.V), ok
	}
	return 0, false
}

func (p *PDF) parseObjAt(off, want int) (any, error) {
	if off < 0 || off >= len(p.raw) {
		return nil, fmt.Errorf("offset %d outside file", off)
	}
	l := &Lexer{b: p.raw, pos: off}
	a, e1 := l.tok()
	st := l.pos
	b, e2 := l.tok()
	c, e3 := l.tok()
	an, o1 := a.(Num)
	gn, o2 := b.(Num)
	ck, o3 := c.(Kw)
	if e1 != nil || e2 != nil || e3 != nil || !o1 || !o2 || !o3 || ck != "obj" {
		return nil, fmt.Errorf("no object header at %d", off)
	}
	if int(an.V) != want {
		return nil, fmt.Errorf("object %d found where %d expected", int(an.V), want)
	}
	p.objPos[want] = st
	p.gens[want] = int(gn.V)
	o, err := l.obj()
	if err != nil {
		return nil, fmt.Errorf("object %d: %w", want, err)
	}
	if d, ok := o.(*Dict); ok {
		l.skip()
		if bytes.HasPrefix(p.raw[l.pos:], []byte("stream")) {
			l.pos += 6
			if bytes.HasPrefix(p.raw[l.pos:], []byte("\r\n")) {
				l.pos += 2
			} else if l.pos < len(p.raw) && p.raw[l.pos] == '\n' {
				l.pos++
			} else {
				return nil, fmt.Errorf("object %d: bad stream keyword", want)
			}
			s := &Stream{D: d}
			n, ok := p.intAt(d.get("Length"))
			body := p.raw[l.pos:]
			if ok && n >= 0 && n <= len(body) {
				rest := body[n:]
				for _, eol := range []string{"", "\n", "\r\n", "\r"} {
					if bytes.HasPrefix(rest, []byte(eol+"endstream")) {
						s.LenOK = true
					}
				}
				if s.LenOK {
					s.Raw = body[:n]
					l.pos += n
				}
			}
			if !s.LenOK {
				e := bytes.Index(body, []byte("endstream"))
				if e < 0 {
					return nil, fmt.Errorf("object %d: no endstream", want)
				}
				s.Raw = body[:e]
				l.pos += e
			}
			l.skip()
			if !bytes.HasPrefix(p.raw[l.pos:], []byte("endstream")) {
				return nil, fmt.Errorf("object %d: no endstream", want)
			}
			l.pos += 9
			o = s
		}
	}
	l.skip()
	if !bytes.HasPrefix(p.raw[l.pos:], []byte("endobj")) {
		return nil, fmt.Errorf("object %d: no endobj", want)
	}
	p.objEnd = l.pos + 6
	return o, nil
}

// bodyScan walks the file from the header to the xref table and lists the object numbers defined there.
func (p *PDF) bodyScan() ([]int, error) {
	var ids []int
	l := &Lexer{b: p.raw[:], pos: 0}
	for {
		l.skip()
		if l.pos >= p.xrefOff || l.pos >= len(p.raw) {
			break
		}
		if bytes.HasPrefix(p.raw[l.pos:], []byte("xref")) {
			break
		}
		st := l.pos
		a, err := l.tok()
		if err != nil {
			return ids, err
		}
		n, ok := a.(Num)
		if !ok {
			return ids, fmt.Errorf("unexpected data in body at %d", st)
		}
		_, err = p.parseObjAt(st, int(n.V))
		if err != nil {
			return ids, err
		}
		ids = append(ids, int(n.V))
		l.pos = p.objEnd
	}
	return ids, nil
}

func (p *PDF) resolve(v any) any {
	for i := 0; i < 32; i++ {
		r, ok := v.(Ref)
		if !ok {
			return v
		}
		v = p.at(r)
	}
	return nil
}

// at gives the object a reference refers to, nil if there is none
func (p *PDF) at(r Ref) any {
	if p.gens[r.N] != r.G {
		return nil
	}
	return p.objs[r.N]
}
func (p *PDF) dict(v any) *Dict {
	switch x := p.resolve(v).(type) {
	case *Dict:
		return x
	case *Stream:
		return x.D
	}
	return nil
}
func (p *PDF) num(v any) (float64, bool) {
	n, ok := p.resolve(v).(Num)
	return n.V, ok
}
func (p *PDF) nums(v any) []float64 {
	a, ok := p.resolve(v).(Arr)
	if !ok {
		return nil
	}
	var out []float64
	for _, x := range a {
		f, ok := p.num(x)
		if !ok {
			return nil
		}
		out = append(out, f)
	}
	return out
}

// ---- filters ----
func (p *PDF) decode(s *Stream) ([]byte, error) {
	data := s.Raw
	var filters []any
	switch f := p.resolve(s.D.get("Filter")).(type) {
	case Name:
		filters = []any{f}
	case Arr:
		filters = f
	}
	var parms []any
	switch f := p.resolve(s.D.get("DecodeParms")).(type) {
	case *Dict:
		parms = []any{f}
	case Arr:
		parms = f
	}
	for i, f := range filters {
		fn, _ := p.resolve(f).(Name)
		var pd *Dict
		if i < len(parms) {
			pd = p.dict(parms[i])
		}
		var err error
		switch fn {
		case "FlateDecode", "Fl":
			data, err = inflate(data)
			if err == nil && pd != nil {
				data, err = p.predict(data, pd)
			}
		case "ASCIIHexDecode", "AHx":
			var dig []byte
			for _, c := range data {
				if c == '>' {
					break
				}
				if !isWS(c) {
					dig = append(dig, c)
				}
			}
			if len(dig)%2 == 1 {
				dig = append(dig, '0')
			}
			out := make([]byte, len(dig)/2)
			_, err = hex.Decode(out, dig)
			data = out
		case "DCTDecode":
			return data, nil // left encoded
		default:
			return data, fmt.Errorf("filter %s not supported by the observer", fn)
		}
		if err != nil {
			return nil, err
		}
	}
	return data, nil
}

func inflate(b []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func (p *PDF) predict(data []byte, d *Dict) ([]byte, error) {
	geti := func(k string, def int) int {
		if f, ok := p.num(d.get(k)); ok {
			return int(f)
		}
		return def
	}
	pr := geti("Predictor", 1)
	if pr < 10 {
		return data, nil
	}
	colors, bpc, cols := geti("Colors", 1), geti("BitsPerComponent", 8), geti("Columns", 1)
	return unfilterPNG(data, (colors*bpc*cols+7)/8, (colors*bpc+7)/8)
}

func unfilterPNG(data []byte, rowlen, bpp int) ([]byte, error) {
	var out []byte
	prev := make([]byte, rowlen)
	for len(data) > 0 {
		if len(data) < rowlen+1 {
			return nil, errors.New("short predictor row")
		}
		ft := data[0]
		row := append([]byte{}, data[1:1+rowlen]...)
		data = data[1+rowlen:]
		for i := range row {
			var a, b, c int
			if i >= bpp {
				a = int(row[i-bpp])
				c = int(prev[i-bpp])
			}
			b = int(prev[i])
			switch ft {
			case 0:
			case 1:
				row[i] += byte(a)
			case 2:
				row[i] += byte(b)
			case 3:
				row[i] += byte((a + b) / 2)
			case 4:
				q := a + b - c
				pa, pb, pc := abs(q-a), abs(q-b), abs(q-c)
				if pa <= pb && pa <= pc {
					row[i] += byte(a)
				} else if pb <= pc {
					row[i] += byte(b)
				} else {
					row[i] += byte(c)
				}
			default:
				return nil, fmt.Errorf("bad png filter %d", ft)
			}
		}
		out = append(out, row...)
		prev = row
	}
	return out, nil
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// ---- digests ----
func sh(parts ...any) string {
	h := sha1.New()
	for _, x := range parts {
		switch v := x.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	return hex.EncodeToString(h.Sum(nil))[:12]
}

// digest gives a canonical digest of an object: references are followed (to a bounded depth), object numbers do not matter.
func (p *PDF) digest(v any) string { return p.dig(v, 8) }

func (p *PDF) dig(v any, depth int) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(x)
	case Num:
		return strconv.FormatFloat(x.V, 'f', -1, 64)
	case Name:
		return "/" + hex.EncodeToString([]byte(x))
	case Str:
		return "(" + hex.EncodeToString(x) + ")"
	case Kw:
		return "kw:" + string(x)
	case Ref:
		o, ok := p.objs[x.N]
		if !ok || p.gens[x.N] != x.G {
			return "null" // a reference to an object that does not exist is null
		}
		if p.pageSet[x.N] {
			d := p.dict(o)
			return "PAGE" + p.dig(d.get("VPg"), 2)
		}
		if p.cutSet[x.N] {
			return "RES"
		}
		if depth <= 0 {
			return "DEEP"
		}
		k := [2]int{x.N, depth}
		if m, ok := p.digMemo[k]; ok {
			return m
		}
		r := p.dig(o, depth-1)
		p.digMemo[k] = r
		return r
	case Arr:
		s := "["
		for _, e := range x {
			s += p.dig(e, depth) + " "
		}
		s += "]"
		if len(s) > 200 {
			return "A" + sh(s)
		}
		return s
	case *Dict:
		return p.digDict(x, depth, nil)
	case *Stream:
		data, err := p.decode(x)
		sk := map[string]bool{"Length": true}
		es := ""
		if err != nil {
			data = x.Raw
			es = "E"
		} else {
			sk["Filter"] = true
			sk["DecodeParms"] = true
		}
		if f, ok := p.resolve(x.D.get("Filter")).(Name); ok && f == "DCTDecode" {
			sk["Filter"] = false
		}
		return "S" + es + sh(data) + p.digDict(x.D, depth, sk)
	}
	return fmt.Sprintf("?%T", v)
}

func (p *PDF) digDict(d *Dict, depth int, skip map[string]bool) string {
	keys := append([]string{}, d.Keys...)
	sort.Strings(keys)
	s := "<<"
	for _, k := range keys {
		if skip[k] {
			continue
		}
		s += "/" + k + " " + p.dig(d.M[k], depth)
	}
	s += ">>"
	if len(s) > 200 {
		return "D" + sh(s)
	}
	return s
}

// ---- standard security handler (independent implementation of PDF 1.7 7.6, V1 R2) ----
var padStr = []byte{
	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

func pad32(b []byte) []byte {
	out := make([]byte, 0, 64)
	out = append(out, b...)
	out = append(out, padStr...)
	return out[:32]
}
func rc4x(key, b []byte) []byte {
	c, _ := rc4.NewCipher(key)
	out := make([]byte, len(b))
	c.XORKeyStream(out, b)
	return out
}

type encInfo struct {
	O, U  []byte
	P     int32
	ID0   []byte
	V, R  int
	Valid bool
}

func (p *PDF) encInfo() (encInfo, bool) {
	er := p.trailer.get("Encrypt")
	if er == nil {
		return encInfo{}, false
	}
	d := p.dict(er)
	if d == nil {
		return encInfo{}, true
	}
	var e encInfo
	o, _ := p.resolve(d.get("O")).(Str)
	u, _ := p.resolve(d.get("U")).(Str)
	pv, ok := p.num(d.get("P"))
	v, _ := p.num(d.get("V"))
	r, _ := p.num(d.get("R"))
	e.O, e.U, e.P, e.V, e.R = o, u, int32(int64(pv)), int(v), int(r)
	if a, ok := p.resolve(p.trailer.get("ID")).(Arr); ok && len(a) > 0 {
		s, _ := p.resolve(a[0]).(Str)
		e.ID0 = s
	}
	f, _ := d.get("Filter").(Name)
	e.Valid = ok && f == "Standard" && e.V == 1 && e.R == 2 && len(e.O) == 32 && len(e.U) == 32
	return e, true
}
func (e encInfo) key(user []byte) []byte {
	h := md5.New()
	h.Write(pad32(user))
	h.Write(e.O)
	u := uint32(e.P)
	h.Write([]byte{byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)})
	h.Write(e.ID0)
	return h.Sum(nil)[:5]
}
func (e encInfo) userOK(pw []byte) bool {
	return bytes.Equal(rc4x(e.key(pw), padStr), e.U)
}
func (e encInfo) ownerUser(pw []byte) []byte {
	m := md5.Sum(pad32(pw))
	return rc4x(m[:5], e.O)
}
func (e encInfo) ownerOK(pw []byte) bool { return e.userOK(e.ownerUser(pw)) }

func objKey(key []byte, n, g int) []byte {
	h := md5.New()
	h.Write(key)
	h.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(g), byte(g >> 8)})
	return h.Sum(nil)[:10]
}

func (p *PDF) decryptAll(key []byte) {
	encNum := -1
	if r, ok := p.trailer.get("Encrypt").(Ref); ok {
		encNum = r.N
	}
	for n, o := range p.objs {
		if n == encNum {
			continue
		}
		p.objs[n] = decryptObj(o, objKey(key, n, p.gens[n]))
	}
	p.digMemo = map[[2]int]string{}
}
func decryptObj(o any, k []byte) any {
	switch x := o.(type) {
	case Str:
		return Str(rc4x(k, x))
	case Arr:
		out := make(Arr, len(x))
		for i, e := range x {
			out[i] = decryptObj(e, k)
		}
		return out
	case *Dict:
		d := newDict()
		d.Keys = x.Keys
		d.Dup = x.Dup
		for kk, v := range x.M {
			d.M[kk] = decryptObj(v, k)
		}
		return d
	case *Stream:
		s := *x
		s.D = decryptObj(x.D, k).(*Dict)
		s.Raw = rc4x(k, x.Raw)
		return &s
	}
	return o
}
