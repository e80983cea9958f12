package main

// Documents made with the bundled writer (package minigopdf), for P23.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf16"

	gopdf "github.com/signintech/pdft/minigopdf"
)

type GPOp struct {
	Op    string          `json:"op"`
	W     int             `json:"w"`
	H     int             `json:"h"`
	X     int             `json:"x"`
	Y     int             `json:"y"`
	X2    int             `json:"x2"`
	Y2    int             `json:"y2"`
	V     int             `json:"v"`
	On    bool            `json:"on"`
	Perm  int             `json:"perm"`
	U     []int           `json:"u"`
	O     []int           `json:"o"`
	N     string          `json:"n"`
	F     string          `json:"f"`
	St    string          `json:"st"`
	Sp    string          `json:"sp"`
	IO    string          `json:"io"`
	Z     int             `json:"z"`
	S     []int           `json:"s"`
	Rect  bool            `json:"rect"`
	Plain bool            `json:"plain"`
	Al    int             `json:"al"`
	Bd    int             `json:"bd"`
	Fl    int             `json:"fl"`
	UL    bool            `json:"ul"`
	C     []int           `json:"c"`
	T     json.RawMessage `json:"t"`
	A     []int           `json:"a"`
	P     []int           `json:"p"`
	D     bool            `json:"d"`
	I     string          `json:"i"`
	API   string          `json:"api"`
	None  bool            `json:"none"`
	UK    bool            `json:"uk"`
	K     int             `json:"k"`
}

type gpDoc struct {
	g     *gopdf.GoPdf
	stuck bool
	prot  protInfo
	fk    map[string]string // family -> catalog key of its first font
}

func gpStyle(s string) int {
	st := 0
	for _, c := range strings.ToUpper(s) {
		switch c {
		case 'B':
			st |= gopdf.Bold
		case 'I':
			st |= gopdf.Italic
		}
	}
	return st
}

func (r *Runner) execGP(d *gpDoc, op *GPOp, idx int) (ev Event, out []byte) {
	ev = Event{"r": "ok"}
	defer func() {
		if x := recover(); x != nil {
			ev["r"] = "panic"
			ev["msg"] = fmt.Sprint(x)
			d.stuck = true
		}
		ev["cx"], ev["cy"] = 0, 0
		if d.g != nil {
			ev["cx"], ev["cy"] = e4(d.g.GetX()), e4(d.g.GetY())
		}
	}()
	var err error
	g := d.g
	col := func() (uint8, uint8, uint8) { return uint8(op.C[0]), uint8(op.C[1]), uint8(op.C[2]) }
	switch op.Op {
	case "gstart":
		d.g = new(gopdf.GoPdf)
		u, o := bytesOf(op.U), bytesOf(op.O)
		d.prot = protInfo{set: op.On, u: bytesOf(op.U), o: bytesOf(op.O)}
		cfg := gopdf.Config{Unit: "pt", PageSize: gopdf.Rect{W: h2(op.W), H: h2(op.H)}}
		if op.On {
			cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: op.Perm, UserPass: u, OwnerPass: o}
		}
		d.g.Start(cfg)
		if !bytes.Equal(u, bytesOf(op.U)) || !bytes.Equal(o, bytesOf(op.O)) {
			ev["mut"] = true
		}
	case "page":
		if op.W == 0 {
			g.AddPage()
		} else {
			g.AddPageWithOption(gopdf.PageOption{PageSize: gopdf.Rect{W: h2(op.W), H: h2(op.H)}})
		}
	case "gfont":
		b := r.font(op.F, nil)
		opt := gopdf.TtfOption{UseKerning: op.UK, Style: gpStyle(op.St)}
		switch {
		case op.IO == "nopath":
			err = g.AddTTFFontWithOption(op.N, filepath.Join(r.tmp, "none.ttf"), opt)
		case op.IO == "path":
			fn := filepath.Join(r.tmp, fmt.Sprintf("gf%d.ttf", idx))
			os.WriteFile(fn, b, 0644)
			if op.St == "" && !op.UK {
				err = g.AddTTFFont(op.N, fn)
			} else {
				err = g.AddTTFFontWithOption(op.N, fn, opt)
			}
			os.Remove(fn)
		case op.St == "" && op.IO != "opt" && !op.UK:
			err = g.AddTTFFontByReader(op.N, reader(b, op.IO, 0))
		default:
			err = g.AddTTFFontByReaderWithOption(op.N, reader(b, op.IO, 0), opt)
		}
		if _, ok := d.fk[op.N]; !ok && err == nil {
			if d.fk == nil {
				d.fk = map[string]string{}
			}
			d.fk[op.N] = op.F
		}
	case "gkern":
		k := op.K
		var t *TTF
		if key, ok := d.fk[op.N]; ok {
			t = r.ttf(key)
		}
		err = g.KernOverride(op.N, func(l, rr rune, lp, rp uint, pv int16) int16 {
			if t == nil || uint(glyphOf(t, l)) != lp || uint(glyphOf(t, rr)) != rp {
				return 777 // wrong arguments
			}
			return pv + int16(kernFn(k, l, rr))
		})
	case "gset":
		if idx%3 == 0 {
			st := gpStyle(op.St)
			if strings.ContainsAny(op.St, "uU") {
				st |= gopdf.Underline
			}
			err = g.SetFontWithStyle(op.N, st, op.Z)
		} else {
			err = g.SetFont(op.N, op.St, op.Z)
		}
	case "x":
		g.SetX(h2(op.V))
	case "y":
		g.SetY(h2(op.V))
	case "br":
		g.Br(h2(op.V))
	case "lm":
		g.SetLeftMargin(h2(op.V))
	case "tm":
		g.SetTopMargin(h2(op.V))
	case "gtext":
		err = g.Text(runes(op.S))
	case "gcell":
		var rc *gopdf.Rect
		if op.Rect {
			rc = &gopdf.Rect{W: h2(op.W), H: h2(op.H)}
		}
		if op.Plain {
			err = g.Cell(rc, runes(op.S))
		} else {
			err = g.CellWithOption(rc, runes(op.S), gopdf.CellOption{Align: op.Al, Border: op.Bd, Float: op.Fl})
		}
		if rc != nil { // the caller reuses its rectangle for something else
			if rc.W != h2(op.W) || rc.H != h2(op.H) {
				ev["mut"] = true
			}
		}
	case "line":
		g.Line(h2(op.X), h2(op.Y), h2(op.X2), h2(op.Y2))
	case "rect":
		switch {
		case op.UL && op.Plain:
			g.RectFromUpperLeft(h2(op.X), h2(op.Y), h2(op.W), h2(op.H))
		case op.Plain:
			g.RectFromLowerLeft(h2(op.X), h2(op.Y), h2(op.W), h2(op.H))
		case op.UL:
			g.RectFromUpperLeftWithStyle(h2(op.X), h2(op.Y), h2(op.W), h2(op.H), op.St)
		default:
			g.RectFromLowerLeftWithStyle(h2(op.X), h2(op.Y), h2(op.W), h2(op.H), op.St)
		}
	case "oval":
		g.Oval(h2(op.X), h2(op.Y), h2(op.X2), h2(op.Y2))
	case "curve":
		st := op.St
		switch op.Sp {
		case " ":
			st = " " + st + " "
		case "l":
			st = strings.ToLower(st)
		}
		g.Curve(h2(op.C[0]), h2(op.C[1]), h2(op.C[2]), h2(op.C[3]), h2(op.C[4]), h2(op.C[5]), h2(op.C[6]), h2(op.C[7]), st)
	case "gfill":
		g.SetGrayFill(h2(op.V))
	case "gstroke":
		g.SetGrayStroke(h2(op.V))
	case "cfill":
		g.SetFillColor(col())
	case "cstroke":
		g.SetStrokeColor(col())
	case "tcol":
		g.SetTextColor(col())
	case "lw":
		g.SetLineWidth(h2(op.V))
	case "lt":
		var t string
		json.Unmarshal(op.T, &t)
		g.SetLineType(t)
	case "gimg":
		b := r.image(op.I, nil)
		var rc *gopdf.Rect
		if op.W != 0 {
			rc = &gopdf.Rect{W: h2(op.W), H: h2(op.H)}
		}
		switch op.API {
		case "path":
			fn := filepath.Join(r.tmp, "gi_"+op.I)
			os.WriteFile(fn, b, 0644)
			err = g.Image(fn, h2(op.X), h2(op.Y), rc)
		case "reader":
			var h gopdf.ImageHolder
			h, err = gopdf.ImageHolderByReader(reader(b, "seven", 0))
			if err == nil {
				err = g.ImageByHolder(h, h2(op.X), h2(op.Y), rc)
			}
		default:
			var h gopdf.ImageHolder
			cp := append([]byte{}, b...)
			h, err = gopdf.ImageHolderByBytes(cp)
			if err == nil {
				err = g.ImageByHolder(h, h2(op.X), h2(op.Y), rc)
			}
			for i := range cp {
				cp[i] = 0x55
			}
		}
	case "gmeas":
		var w float64
		w, err = g.MeasureTextWidth(runes(op.S))
		if err == nil {
			ev["val"] = int(math.Round(w * 10000))
		}
	case "info":
		var t []int
		json.Unmarshal(op.T, &t)
		in := gopdf.PdfInfo{Title: runes(t), Author: runes(op.A), Subject: runes(op.S), Creator: runes(op.C), Producer: runes(op.P)}
		if op.D {
			in.CreationDate = gpDate
		}
		g.SetInfo(in)
	case "compress":
		if op.None {
			g.SetNoCompression()
		} else {
			g.SetCompressLevel(op.V)
		}
	case "write":
		switch op.IO {
		case "err":
			out, err = g.GetBytesPdfReturnErr()
		case "path":
			fn := filepath.Join(r.tmp, fmt.Sprintf("go%d.pdf", idx))
			g.WritePdf(fn)
			out, err = os.ReadFile(fn)
			os.Remove(fn)
		case "read", "readone":
			g.Close()
			var rd io.Reader = g
			if op.IO == "readone" {
				rd = &oneReader{g}
			}
			out, err = io.ReadAll(rd)
		default:
			out = g.GetBytesPdf()
		}
		out = append([]byte{}, out...)
	default:
		panic("harness: unknown op " + op.Op)
	}
	if err != nil {
		ev["r"], ev["msg"] = "err", err.Error()
		out = nil
	}
	return ev, out
}

var gpDate = time.Date(2021, 3, 4, 5, 6, 7, 0, time.FixedZone("x", 7*3600))

type oneReader struct{ r io.Reader }

func (o *oneReader) Read(p []byte) (int, error) {
	if len(p) > 13 {
		p = p[:13]
	}
	return o.r.Read(p)
}

func asStr(v any) Str {
	s, _ := v.(Str)
	return s
}

func infoText(p *PDF, v any) []int {
	out := []int{}
	s, ok := p.resolve(v).(Str)
	if !ok {
		return out
	}
	b := []byte(s)
	if len(b) >= 2 && b[0] == 0xFE && b[1] == 0xFF {
		var u []uint16
		for i := 2; i+1 < len(b); i += 2 {
			u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
		}
		for _, r := range utf16.Decode(u) {
			out = append(out, int(r))
		}
		return out
	}
	for _, c := range b {
		out = append(out, int(c))
	}
	return out
}

func runGP(s *Scenario, dir string) M {
	r := newRunner(dir)
	for i := range s.GP {
		op := &s.GP[i]
		if op.Op != "info" {
			for _, c := range op.S {
				r.chars[c] = true
			}
		}
		if op.Op == "gimg" {
			r.image(op.I, nil)
		}
		if op.Op == "gfont" {
			r.font(op.F, nil)
		}
	}
	d := &gpDoc{}
	out := []any{}
	for i := range s.GP {
		op := &s.GP[i]
		m := M{}
		var rawm map[string]json.RawMessage
		json.Unmarshal(s.raw[i], &rawm)
		for k, v := range rawm {
			m[k] = v
		}
		if d.stuck {
			m["r"], m["cx"], m["cy"] = "skip", 0, 0
			out = append(out, m)
			continue
		}
		ev, raw := r.execGP(d, op, i+1)
		for k, v := range ev {
			m[k] = v
		}
		if op.Op == "write" && ev["r"] == "ok" {
			o := r.observe(raw, 0, d.prot)
			if o["parse"] == true {
				p, _ := parsePDF(raw)
				in := p.dict(p.trailer.get("Info"))
				if in == nil {
					o["inf"] = M{"on": false}
				} else {
					o["inf"] = M{"on": true, "t": infoText(p, in.get("Title")), "a": infoText(p, in.get("Author")), "s": infoText(p, in.get("Subject")),
						"c": infoText(p, in.get("Creator")), "p": infoText(p, in.get("Producer")), "d": string(asStr(in.get("CreationDate"))) == "D:20210304050607+07'00'"}
				}
			}
			delete(o, "objs")
			m["obs"] = o
			if kd := os.Getenv("VERIF_KEEP"); kd != "" {
				os.WriteFile(fmt.Sprintf("%s/%s_%d.pdf", kd, s.ID, i+1), raw, 0644)
			}
		}
		out = append(out, m)
	}
	ff := M{}
	for k := range r.fonts {
		ff[k] = r.fontFacts(k)
	}
	sz := M{}
	for k, b := range r.imgs {
		if px, err := decodeSource(b); err == nil {
			sz[k] = []int{px.W, px.H}
		}
	}
	sz["none"] = []int{1, 1}
	return M{"id": s.ID, "hang": false, "ev": out, "fonts": ff, "imgsz": sz}
}
