package main

// helpers of the demonstrations: build inputs, save, read the saved file with an independent reader

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"

	"github.com/signintech/pdft"
)

type oGlyph struct {
	W, R, P, U, A, L int
	O                string
}
type oDraw struct {
	K       string
	X, Y, Z int
	C, SC   []int
	F       int
	G       []oGlyph
	M       []int
	Im      []string
	Ob      int
	Op, Seg string
	Pts     [][]int
	LW      int
	DA      []int
	E       string
}
type oPage struct {
	Box     []int
	At, Res []string
	Ds      []oDraw
	Js, Own []int
	Probs   []string
}
type oFile struct {
	Parse      bool
	Msg        string
	Pages      []oPage
	Objs       []string
	Info, Root string
	NImg       int
	Enc        struct {
		On, Valid, Uok, Ook bool
		Perm, Wrong         int
	}
	St    map[string]any
	Fonts []map[string]any
}

func (d oDraw) text() string {
	s := ""
	for _, g := range d.G {
		if g.U < 0 {
			s += "?"
		} else {
			s += string(rune(g.U))
		}
	}
	return s
}
func (p oPage) of(k string) (out []oDraw) {
	for _, d := range p.Ds {
		if d.K == k {
			out = append(out, d)
		}
	}
	return
}
func (p oPage) texts() (out []string) {
	for _, d := range p.of("t") {
		out = append(out, d.text())
	}
	return
}

var kr = newRunner(os.TempDir())

func page(w, h int) PageD {
	return PageD{W: w * 100, H: h * 100, MB: "page", Res: "inline", FD: "inline", XD: "inline", Con: "one", Filt: "flate", State: "bal"}
}
func tmplOf(pages ...PageD) TmplD {
	return TmplD{Tree: "flat", Pages: pages, IDs: "seq", EOL: "n"}
}
func fontBytes(k string) []byte { return kr.font(k, nil) }
func imgBytes(k string) []byte  { return kr.image(k, nil) }
func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}
func fail(f string, a ...any) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}
func want(c bool, f string, a ...any) {
	if !c {
		fail(f, a...)
	}
}
func openT(raw []byte, fonts ...string) *pdft.PDFt {
	p := new(pdft.PDFt)
	must(p.OpenFrom(bytes.NewReader(raw)))
	for _, f := range fonts {
		must(p.AddFontFrom(f, bytes.NewReader(fontBytes(f))))
	}
	return p
}
func saveT(p *pdft.PDFt) []byte {
	var b bytes.Buffer
	must(p.SaveTo(&b))
	return b.Bytes()
}
func look(raw, tmpl []byte) oFile { return lookP(raw, tmpl, protInfo{}) }
func lookP(raw, tmpl []byte, pi protInfo) oFile {
	m := kr.observe(raw, kr.tmplFacts(tmpl, false), pi)
	b, err := json.Marshal(m)
	must(err)
	var o oFile
	must(json.Unmarshal(b, &o))
	want(o.Parse, "the saved file cannot be read: %s", o.Msg)
	return o
}
