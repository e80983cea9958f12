package main

// Executes scenarios (operation sequences written by the specification) on the real library, public API only.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/render"
	"github.com/signintech/pdft/textbreak"
)

type FieldD struct {
	Key  string `json:"key"`
	P    int    `json:"p"`
	X    int    `json:"x"`
	Y    int    `json:"y"`
	W    int    `json:"w"`
	H    int    `json:"h"`
	Al   int    `json:"al"`
	Font string `json:"font"`
	Z    int    `json:"z"`
	Wrap bool   `json:"wrap"`
}

type Op struct {
	Op string `json:"op"`
	D  int    `json:"d"`
	// parameters
	T    *TmplD   `json:"t,omitempty"`
	SV   int      `json:"sv,omitempty"` // reopen: index of the save event (1-based, global) to open
	IO   string   `json:"io,omitempty"` // how bytes go in or out
	At   int      `json:"at,omitempty"` // fault position
	N    string   `json:"n,omitempty"`  // font name
	F    string   `json:"f,omitempty"`  // font key
	FD   *FontD   `json:"fd,omitempty"`
	St   string   `json:"st,omitempty"`
	Z    int      `json:"z,omitempty"`
	P    int      `json:"p,omitempty"`
	X    int      `json:"x,omitempty"`
	Y    int      `json:"y,omitempty"`
	W    int      `json:"w,omitempty"`
	H    int      `json:"h,omitempty"`
	Al   int      `json:"al,omitempty"`
	C    []int    `json:"c,omitempty"`
	S    []int    `json:"s,omitempty"`
	TB   string   `json:"tb,omitempty"`
	I    string   `json:"i,omitempty"`
	ID   *ImgD    `json:"id,omitempty"`
	API  string   `json:"api,omitempty"`
	On   bool     `json:"on,omitempty"`
	Pos  int      `json:"pos,omitempty"`
	K    int      `json:"k,omitempty"`
	Perm int      `json:"perm,omitempty"`
	U    []int    `json:"u,omitempty"`
	O    []int    `json:"o,omitempty"`
	Key  string   `json:"key,omitempty"`
	Fs   []FieldD `json:"fs,omitempty"`
}

type Scenario struct {
	ID  string `json:"id"`
	Par bool   `json:"par"`
	Ops []Op   `json:"ops"`
	GP  []GPOp `json:"gp"`
	raw []json.RawMessage
}

type Event map[string]any

type docState struct {
	p     *pdft.PDFt
	r     *render.Render
	tf    int // template facts of the template the document came from
	stuck bool
	size  int               // of the last save
	fk    map[string]string // font name -> catalog key
}

type Runner struct {
	mu     sync.Mutex
	tmp    string
	tfs    []any // template facts
	tfKey  map[string]int
	tpls   []*tplCache
	saves  map[int][]byte // save event index -> bytes
	saveTF map[int]int
	fonts  map[string][]byte
	fontD  map[string]*TTF
	imgs   map[string][]byte
	imgDig map[string]string
	chars  map[int]bool
	facts  map[string]any
}

var repoDir = "/repo"

func newRunner(tmp string) *Runner {
	return &Runner{tmp: tmp, tfKey: map[string]int{}, saves: map[int][]byte{}, saveTF: map[int]int{}, fonts: map[string][]byte{}, fontD: map[string]*TTF{}, imgs: map[string][]byte{}, imgDig: map[string]string{}, chars: map[int]bool{}}
}

func classify(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, pdft.ErrAddSameFontName):
		return "ErrAddSameFontName"
	case errors.Is(err, pdft.ErrFontNameNotFound):
		return "ErrFontNameNotFound"
	case errors.Is(err, pdft.ErrNoDesiredPageToKeep):
		return "ErrNoDesiredPageToKeep"
	case errors.Is(err, pdft.ErrNoDesiredPageToRemove):
		return "ErrNoDesiredPageToRemove"
	case errors.Is(err, pdft.ErrNoDesiredPageToCopy):
		return "ErrNoDesiredPageToCopy"
	case errors.Is(err, pdft.ErrNoContentsProperty):
		return "ErrNoContentsProperty"
	}
	return "err"
}

func runes(s []int) string {
	var sb strings.Builder
	for _, c := range s {
		sb.WriteRune(rune(c))
	}
	return sb.String()
}
func bytesOf(s []int) []byte {
	b := make([]byte, 0, len(s)+80) // spare capacity: writes past the end would be seen
	for _, c := range s {
		b = append(b, byte(c))
	}
	return b
}

// ---- readers and writers with chosen behaviour ----
var errInjected = errors.New("injected fault")

type chunkReader struct {
	b       []byte
	n       int
	failAt  int
	pos     int
	eofData bool
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.failAt >= 0 && c.pos >= c.failAt {
		return 0, errInjected
	}
	if c.pos >= len(c.b) {
		return 0, io.EOF
	}
	n := c.n
	if n <= 0 || n > len(p) {
		n = len(p)
	}
	if n > len(c.b)-c.pos {
		n = len(c.b) - c.pos
	}
	if c.failAt >= 0 && c.pos+n > c.failAt {
		n = c.failAt - c.pos
	}
	copy(p, c.b[c.pos:c.pos+n])
	c.pos += n
	if c.eofData && c.pos >= len(c.b) {
		return n, io.EOF
	}
	return n, nil
}

type faultWriter struct {
	buf    bytes.Buffer
	failAt int
	short  bool
}

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.failAt >= 0 && f.buf.Len()+len(p) > f.failAt {
		n := f.failAt - f.buf.Len()
		if n < 0 {
			n = 0
		}
		f.buf.Write(p[:n])
		if f.short {
			return n, nil
		}
		return n, errInjected
	}
	return f.buf.Write(p)
}

func reader(b []byte, mode string, at int) io.Reader {
	c := &chunkReader{b: b, failAt: -1}
	switch mode {
	case "one":
		c.n = 1
	case "seven":
		c.n = 7
	case "eofdata":
		c.eofData = true
	case "oneeof":
		c.n = 1
		c.eofData = true
	case "fail":
		c.failAt = len(b) * at / 100
	case "failone":
		c.n = 1
		c.failAt = len(b) * at / 100
	case "failend":
		c.failAt = len(b) // everything delivered, then the error
	case "strings":
		return strings.NewReader(string(b))
	}
	if mode == "" {
		return bytes.NewReader(b)
	}
	return c
}

// ---- overrides: the same formulas are in Model.tla ----
func kernFn(k int, l, r rune) int { return ((int(l)*7+int(r)*3+k*5)%11 - 5) * 40 }
func glyphOf(t *TTF, c rune) int {
	g, ok := t.gid(int(c))
	if !ok {
		return 0
	}
	return g
}
func riseFn(k int, r rune, idx, size int) int {
	return ((int(r)+idx+k+size)%5 - 2) * 137 // hundredths
}

type tbFn func(string) ([]string, error)

func (f tbFn) BreakTextToToken(s string) ([]string, error) { return f(s) }

func breaker(name string) textbreak.TextBreaker {
	switch name {
	case "basic":
		return textbreak.BasicTextbreak{}
	case "char":
		return tbFn(func(s string) ([]string, error) {
			var out []string
			for _, r := range s {
				out = append(out, string(r))
			}
			return out, nil
		})
	case "three":
		return tbFn(func(s string) ([]string, error) {
			var out []string
			rs := []rune(s)
			for i := 0; i < len(rs); i += 3 {
				j := i + 3
				if j > len(rs) {
					j = len(rs)
				}
				out = append(out, "", string(rs[i:j]))
			}
			return out, nil
		})
	case "err":
		return tbFn(func(s string) ([]string, error) { return []string{s}, errInjected })
	case "none":
		return tbFn(func(s string) ([]string, error) { return nil, nil })
	}
	return nil
}

func (r *Runner) font(key string, fd *FontD) []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.fonts[key]; ok {
		return b
	}
	var b []byte
	if fd != nil {
		b = buildTTF(*fd)
	} else if strings.HasPrefix(key, "ttf:") {
		raw, err := os.ReadFile(repoDir + "/" + key[4:])
		if err != nil {
			panic(err)
		}
		b = raw
	} else if f, ok := catalogFont(key); ok {
		b = buildTTF(f)
	} else {
		switch key {
		case "bad0":
			b = []byte{}
		case "bad1":
			b = []byte("not a font, just some text that is long enough to be read")
		case "bad2": // truncated
			f, _ := catalogFont("A")
			x := buildTTF(f)
			b = x[:200]
		case "bad3":
			b = []byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
		default:
			panic("unknown font " + key)
		}
	}
	r.fonts[key] = b
	return b
}

func (r *Runner) ttf(key string) *TTF {
	b := r.font(key, nil)
	r.mu.Lock()
	defer r.mu.Unlock()
	if t, ok := r.fontD[key]; ok {
		return t
	}
	t, err := parseTTF(b)
	if err != nil {
		t = nil
	}
	r.fontD[key] = t
	return t
}

func (r *Runner) image(key string, d *ImgD) []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.imgs[key]; ok {
		return b
	}
	if d == nil {
		c, ok := catalogImage(key)
		if !ok {
			panic("unknown image " + key)
		}
		d = &c
	}
	b, err := buildImage(*d)
	if err != nil {
		panic(err)
	}
	r.imgs[key] = b
	if px, err := decodeSource(b); err == nil {
		r.imgDig[key] = px.digest()
	}
	return b
}

func h2(v int) float64 { return float64(v) / 100 }

func (r *Runner) exec(ds *docState, op *Op, idx int) (ev Event) {
	ev = Event{"r": "ok"}
	defer func() {
		if x := recover(); x != nil {
			ev["r"] = "panic"
			ev["msg"] = fmt.Sprint(x)
			ds.stuck = true
		}
	}()
	var err error
	p := ds.p
	switch op.Op {
	case "open", "ropen":
		raw := buildTemplate(*op.T)
		r.mu.Lock()
		tfi := r.tmplFacts(raw, op.T.Bad != "")
		r.mu.Unlock()
		ev["tf"] = tfi
		if op.Op == "ropen" {
			fn := filepath.Join(r.tmp, fmt.Sprintf("t%d_%d.pdf", op.D, idx))
			os.WriteFile(fn, raw, 0644)
			var fs render.FieldInfos
			for _, f := range op.Fs {
				fs = append(fs, render.FieldInfo{Key: f.Key, PageNum: f.P, X: h2(f.X), Y: h2(f.Y), W: h2(f.W), H: h2(f.H), Align: f.Al, Font: f.Font, Size: f.Z, IsWrapText: f.Wrap})
			}
			var rd *render.Render
			rd, err = render.NewRender(fn, fs)
			if err == nil {
				ds.r = rd
				ds.p = &rd.PDFt
			}
			os.Remove(fn)
		} else if op.IO == "path" {
			fn := filepath.Join(r.tmp, fmt.Sprintf("t%d_%d.pdf", op.D, idx))
			os.WriteFile(fn, raw, 0644)
			err = p.Open(fn)
			os.Remove(fn)
		} else if op.IO == "nopath" {
			err = p.Open(filepath.Join(r.tmp, "does-not-exist.pdf"))
		} else {
			err = p.OpenFrom(reader(raw, op.IO, op.At))
		}
		if err == nil {
			ds.tf = tfi
		}
	case "reopen":
		r.mu.Lock()
		raw, ok := r.saves[op.SV]
		tfi := r.saveTF[op.SV]
		r.mu.Unlock()
		if !ok {
			err = errors.New("harness: no such save")
			break
		}
		ev["tf"] = tfi
		err = p.OpenFrom(reader(raw, op.IO, op.At))
		if err == nil {
			ds.tf = tfi
		}
	case "addfont":
		b := r.font(op.F, op.FD)
		switch op.IO {
		case "path":
			fn := filepath.Join(r.tmp, fmt.Sprintf("f%d_%d.ttf", op.D, idx))
			os.WriteFile(fn, b, 0644)
			err = p.AddFont(op.N, fn)
			os.Remove(fn)
		case "nopath":
			err = p.AddFont(op.N, filepath.Join(r.tmp, "does-not-exist.ttf"))
		default:
			err = p.AddFontFrom(op.N, reader(b, op.IO, op.At))
		}
		if err == nil {
			if ds.fk == nil {
				ds.fk = map[string]string{}
			}
			ds.fk[op.N] = op.F
		}
	case "setfont":
		err = p.SetFont(op.N, op.St, op.Z)
	case "text", "wrap":
		var c *pdft.FontColor
		if len(op.C) == 3 {
			c = &pdft.FontColor{R: op.C[0], G: op.C[1], B: op.C[2]}
		}
		if op.Op == "text" {
			err = p.Insert(runes(op.S), op.P, h2(op.X), h2(op.Y), h2(op.W), h2(op.H), op.Al, c)
		} else {
			err = p.InsertWrapText(runes(op.S), op.P, h2(op.X), h2(op.Y), h2(op.W), h2(op.H), op.Al, c, breaker(op.TB))
		}
		if c != nil { // the caller reuses its colour
			c.R, c.G, c.B = 77, 66, 55
		}
	case "img":
		b := r.image(op.I, op.ID)
		cp := append([]byte{}, b...)
		switch op.API {
		case "raw":
			err = p.InsertImg(cp, op.P, h2(op.X), h2(op.Y), h2(op.W), h2(op.H))
		case "cache":
			err = p.InsertImgWithCache(cp, op.P, h2(op.X), h2(op.Y), h2(op.W), h2(op.H))
		case "badb64":
			err = p.InsertImgBase64("!!"+base64.StdEncoding.EncodeToString(b), op.P, h2(op.X), h2(op.Y), h2(op.W), h2(op.H))
		default:
			err = p.InsertImgBase64(base64.StdEncoding.EncodeToString(b), op.P, h2(op.X), h2(op.Y), h2(op.W), h2(op.H))
		}
		if !bytes.Equal(cp, b) {
			ev["mut"] = true
		}
		for i := range cp { // the caller reuses its buffer
			cp[i] = 0x55
		}
	case "border":
		p.ShowCellBorder(op.On)
	case "rm":
		err = p.RemovePage(op.P)
	case "keep":
		err = p.RemoveOtherPages(op.P)
	case "dup":
		err = p.DuplicatePageAfter(op.P, op.Pos)
	case "count":
		ev["v"] = p.GetNumberOfPage()
	case "measure":
		var w float64
		w, err = p.MeasureTextWidth(runes(op.S))
		if err == nil {
			ev["v"] = int(math.Round(w * 10000))
		}
	case "kern":
		k := op.K
		var t *TTF
		if key, ok := ds.fk[op.N]; ok {
			t = r.ttf(key)
		}
		err = p.KernOverride(op.N, func(l, rr rune, lp, rp uint, pv int16) int16 {
			if t != nil && (uint(glyphOf(t, l)) != lp || uint(glyphOf(t, rr)) != rp) {
				return 777 // wrong arguments
			}
			return int16(kernFn(k, l, rr))
		})
	case "rise":
		k := op.K
		err = p.TextriseOverride(op.N, func(l, rr rune, fs int, all string, i int) float32 {
			rs := []rune(all)
			if i < 0 || i >= len(rs) || rs[i] != rr || i > 0 && rs[i-1] != l || i == 0 && l != 0 {
				return 77 // wrong arguments
			}
			return float32(riseFn(k, rr, i, fs)) / 100
		})
	case "prot":
		u, o := bytesOf(op.U), bytesOf(op.O)
		uc, oc := append([]byte{}, u[:cap(u)]...), append([]byte{}, o[:cap(o)]...)
		err = p.SetProtection(op.Perm, u, o)
		if !bytes.Equal(uc, u[:cap(u)]) || !bytes.Equal(oc, o[:cap(o)]) {
			ev["mut"] = true
		}
	case "save":
		var out []byte
		switch op.IO {
		case "path":
			fn := filepath.Join(r.tmp, fmt.Sprintf("o%d_%d.pdf", op.D, idx))
			err = p.Save(fn)
			if err == nil {
				out, _ = os.ReadFile(fn)
			}
			os.Remove(fn)
		case "nodir":
			err = p.Save(filepath.Join(r.tmp, "no", "such", "dir.pdf"))
		case "fail", "short":
			// a first save, to know the length (its encryption keys may differ, its length hardly)
			probe := &faultWriter{failAt: -1}
			if err = p.SaveTo(probe); err != nil {
				break
			}
			at := probe.buf.Len() * op.At / 100
			if op.At >= 90 { // in the last bytes
				at = probe.buf.Len() - 1 - (99-op.At)*(99-op.At)
			}
			w := &faultWriter{failAt: at, short: op.IO == "short"}
			err = p.SaveTo(w)
		case "over": // overwrite an existing longer file
			fn := filepath.Join(r.tmp, fmt.Sprintf("o%d_%d.pdf", op.D, idx))
			os.WriteFile(fn, bytes.Repeat([]byte("startxref\n3\n%%EOF\n"), 120000), 0644)
			err = p.Save(fn)
			if err == nil {
				out, _ = os.ReadFile(fn)
			}
			os.Remove(fn)
		default:
			var b bytes.Buffer
			err = p.SaveTo(&b)
			out = b.Bytes()
		}
		if err == nil {
			ds.size = len(out)
			r.mu.Lock()
			r.saves[idx] = out
			r.saveTF[idx] = ds.tf
			r.mu.Unlock()
			ev["obs"] = out
			ev["obstf"] = ds.tf
		}
	case "rtext":
		err = ds.r.Text(op.Key, runes(op.S))
	case "rimg":
		if op.API == "badb64" {
			err = ds.r.ImgBase64(op.Key, "@@@")
		} else {
			err = ds.r.ImgBase64(op.Key, base64.StdEncoding.EncodeToString(r.image(op.I, op.ID)))
		}
	case "rbreak":
		ds.r.SetTextBreaker(breaker(op.TB))
	case "rdesign":
		ds.r.ShowDesignView()
	default:
		panic("harness: unknown op " + op.Op)
	}
	ev["r"] = classify(err)
	if err != nil {
		ev["msg"] = err.Error()
		if strings.HasPrefix(err.Error(), "harness:") {
			ev["r"] = "skip"
		}
	}
	return ev
}

func newDoc() *docState { return &docState{p: new(pdft.PDFt)} }
