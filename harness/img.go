package main

// Image sources (PNG/JPEG made from descriptors) and an independent decoder for PDF image objects.

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"os"
)

type ImgD struct {
	K     string   `json:"k"` // png | jpg | file | junk
	File  string   `json:"file"`
	W     int      `json:"w"`
	H     int      `json:"h"`
	CT    int      `json:"ct"`
	BD    int      `json:"bd"`
	IL    int      `json:"il"`
	Filt  int      `json:"filt"` // 0..4, 5 = all in turn
	NID   int      `json:"nid"`  // number of IDAT chunks
	Seed  int      `json:"seed"`
	Pal   int      `json:"pal"`  // palette entries
	Trns  []int    `json:"trns"` // ct 3: alpha values; ct 0/2: colour key samples
	Extra []string `json:"extra"`
	Junk  string   `json:"junk"`
	Cut   int      `json:"cut"` // bytes removed from the end
	Gray  bool     `json:"gray"`
	Q     int      `json:"q"`
	Big   int      `json:"big"` // size of an ancillary chunk
}

// sample value at x, y, channel c
func sample(d ImgD, x, y, c int) int {
	m := 1 << uint(d.BD)
	if d.CT == 3 {
		m = d.Pal
	}
	if channels(d.CT) >= 3 && d.Seed%3 == 0 { // colours of a row differ in one channel only
		if c == d.Seed/3%3 {
			return (d.Seed + 7*x) % m
		}
		return (d.Seed + 13*y + 29*c) % m
	}
	return (d.Seed + 7*x + 13*y + 29*c + x*y) % m
}

func palEntry(d ImgD, i int) [3]int {
	return [3]int{(d.Seed*3 + i*67) % 256, (d.Seed*5 + i*31) % 256, (d.Seed + i*101) % 256}
}

func channels(ct int) int { return map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct] }

func chunk(o *bytes.Buffer, typ string, data []byte) {
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], uint32(len(data)))
	o.Write(n[:])
	o.WriteString(typ)
	o.Write(data)
	c := crc32.NewIEEE()
	c.Write([]byte(typ))
	c.Write(data)
	binary.BigEndian.PutUint32(n[:], c.Sum32())
	o.Write(n[:])
}

func buildImage(d ImgD) ([]byte, error) {
	switch d.K {
	case "file":
		b, err := os.ReadFile(repoDir + "/test/img/" + d.File)
		return b, err
	case "junk":
		switch d.Junk {
		case "empty":
			return nil, nil
		case "gif":
			return []byte("GIF89a\x01\x00\x01\x00\x80\x00\x00\x00\x00\x00\xff\xff\xff!\xf9\x04\x01\x00\x00\x00\x00,\x00\x00\x00\x00\x01\x00\x01\x00\x00\x02\x02D\x01\x00;"), nil
		case "magic":
			return []byte{0x89, 'P', 'N', 'G', 13, 10, 26, 10}, nil
		case "jpgmagic":
			return []byte{0xff, 0xd8, 0xff, 0xe0, 0, 16}, nil
		}
		return []byte("this is not an image at all"), nil
	case "jpg":
		if d.CT == 9 { // CMYK, or YCCK
			return cmykJPEG(d.W, d.H, d.Seed, d.Pal), nil
		}
		var o bytes.Buffer
		var im image.Image
		if d.Gray {
			g := image.NewGray(image.Rect(0, 0, d.W, d.H))
			for y := 0; y < d.H; y++ {
				for x := 0; x < d.W; x++ {
					g.SetGray(x, y, color.Gray{uint8(d.Seed + 40*x + 17*y)})
				}
			}
			im = g
		} else {
			g := image.NewRGBA(image.Rect(0, 0, d.W, d.H))
			for y := 0; y < d.H; y++ {
				for x := 0; x < d.W; x++ {
					g.SetRGBA(x, y, color.RGBA{uint8(d.Seed + 40*x), uint8(17 * y), uint8(d.Seed * 3), 255})
				}
			}
			im = g
		}
		q := d.Q
		if q == 0 {
			q = 80
		}
		err := jpeg.Encode(&o, im, &jpeg.Options{Quality: q})
		b := o.Bytes()
		return b, err
	}
	// PNG
	nc := channels(d.CT)
	if len(d.Trns) == 3 && d.Trns[0] < 0 { // the colour of a pixel
		x, y := d.Trns[1]%d.W, d.Trns[2]%d.H
		d.Trns = nil
		for c := 0; c < nc; c++ {
			d.Trns = append(d.Trns, sample(d, x, y, c))
		}
	}
	bpp := (nc*d.BD + 7) / 8
	rowlen := (d.W*nc*d.BD + 7) / 8
	rows := func(w, h int, sx, sy, dx, dy int) []byte {
		var out []byte
		rl := (w*nc*d.BD + 7) / 8
		prev := make([]byte, rl)
		for y := 0; y < h; y++ {
			row := make([]byte, rl)
			bit := 0
			for x := 0; x < w; x++ {
				for c := 0; c < nc; c++ {
					v := sample(d, sx+x*dx, sy+y*dy, c)
					if d.BD == 16 {
						row[bit/8] = byte(v >> 8)
						row[bit/8+1] = byte(v)
					} else {
						row[bit/8] |= byte(v << uint(8-d.BD-bit%8))
					}
					bit += d.BD
				}
			}
			ft := d.Filt
			if ft == 5 {
				ft = y % 5
			}
			out = append(out, byte(ft))
			f := make([]byte, rl)
			for i := range row {
				var a, b, c int
				if i >= bpp {
					a, c = int(row[i-bpp]), int(prev[i-bpp])
				}
				b = int(prev[i])
				switch ft {
				case 0:
					f[i] = row[i]
				case 1:
					f[i] = row[i] - byte(a)
				case 2:
					f[i] = row[i] - byte(b)
				case 3:
					f[i] = row[i] - byte((a+b)/2)
				case 4:
					p := a + b - c
					pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
					pr := c
					if pa <= pb && pa <= pc {
						pr = a
					} else if pb <= pc {
						pr = b
					}
					f[i] = row[i] - byte(pr)
				}
			}
			out = append(out, f...)
			prev = row
		}
		return out
	}
	_ = rowlen
	var raw []byte
	if d.IL == 0 {
		raw = rows(d.W, d.H, 0, 0, 1, 1)
	} else {
		for _, p := range [][4]int{{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}} {
			w := (d.W - p[0] + p[2] - 1) / p[2]
			h := (d.H - p[1] + p[3] - 1) / p[3]
			if w > 0 && h > 0 {
				raw = append(raw, rows(w, h, p[0], p[1], p[2], p[3])...)
			}
		}
	}
	var z bytes.Buffer
	zw := zlib.NewWriter(&z)
	zw.Write(raw)
	zw.Close()
	var o bytes.Buffer
	o.Write([]byte{0x89, 'P', 'N', 'G', 13, 10, 26, 10})
	var ihdr bw
	ihdr.u32(d.W)
	ihdr.u32(d.H)
	ihdr.u8(d.BD)
	ihdr.u8(d.CT)
	ihdr.u8(0)
	ihdr.u8(0)
	ihdr.u8(d.IL)
	chunk(&o, "IHDR", ihdr.b)
	for _, e := range d.Extra {
		switch e {
		case "gAMA":
			chunk(&o, "gAMA", []byte{0, 0, 0xb1, 0x8f})
		case "tEXt":
			chunk(&o, "tEXt", append([]byte("Comment\x00PLTE tRNS IDAT "), bytes.Repeat([]byte("x"), d.Big)...))
		case "pHYs":
			chunk(&o, "pHYs", []byte{0, 0, 1, 0, 0, 0, 1, 0, 1})
		case "vpAg":
			chunk(&o, "vpAg", nil)
		}
	}
	if d.CT == 3 || (d.Pal > 0 && (d.CT == 2 || d.CT == 6)) {
		var pl bw
		for i := 0; i < d.Pal; i++ {
			e := palEntry(d, i)
			pl.u8(e[0])
			pl.u8(e[1])
			pl.u8(e[2])
		}
		chunk(&o, "PLTE", pl.b)
	}
	if len(d.Trns) > 0 {
		var t bw
		for _, v := range d.Trns {
			if d.CT == 3 {
				t.u8(v)
			} else {
				t.u16(v)
			}
		}
		chunk(&o, "tRNS", t.b)
	}
	zb := z.Bytes()
	n := d.NID
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		chunk(&o, "IDAT", zb[len(zb)*i/n:len(zb)*(i+1)/n])
	}
	for _, e := range d.Extra {
		if e == "tIME" {
			chunk(&o, "tIME", []byte{7, 0xe0, 1, 1, 1, 1, 1})
		}
		if e == "emptyIDAT" {
			chunk(&o, "IDAT", nil)
		}
	}
	chunk(&o, "IEND", nil)
	b := o.Bytes()
	if d.Cut > 0 && d.Cut < len(b) {
		b = b[:len(b)-d.Cut]
	}
	return b, nil
}

type Pix struct {
	W, H int
	P    []byte // RGBA, not premultiplied
}

func (p *Pix) digest() string { return sh(fmt.Sprint(p.W, "x", p.H), p.canon()) }

// canon: colour of fully transparent pixels does not matter
func (p *Pix) canon() []byte {
	o := append([]byte{}, p.P...)
	for i := 0; i+3 < len(o); i += 4 {
		if o[i+3] == 0 {
			o[i], o[i+1], o[i+2] = 0, 0, 0
		}
	}
	return o
}

func decodeSource(b []byte) (*Pix, error) {
	im, f, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	_ = f
	return fromImage(im), nil
}

func fromImage(im image.Image) *Pix {
	r := im.Bounds()
	p := &Pix{W: r.Dx(), H: r.Dy()}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			c := color.NRGBAModel.Convert(im.At(x, y)).(color.NRGBA)
			p.P = append(p.P, c.R, c.G, c.B, c.A)
		}
	}
	return p
}

var _ = png.Decode

// decodeImageXObject renders an image XObject to RGBA
func (p *PDF) decodeImageXObject(v any) (*Pix, error) {
	s, ok := p.resolve(v).(*Stream)
	if !ok {
		return nil, errors.New("not a stream")
	}
	data, err := p.decode(s)
	if err != nil {
		return nil, err
	}
	wf, ok1 := p.num(s.D.get("Width"))
	hf, ok2 := p.num(s.D.get("Height"))
	if !ok1 || !ok2 {
		return nil, errors.New("no width/height")
	}
	w, h := int(wf), int(hf)
	bpcf, _ := p.num(s.D.get("BitsPerComponent"))
	bpc := int(bpcf)
	out := &Pix{W: w, H: h, P: make([]byte, 4*w*h)}
	flt := p.resolve(s.D.get("Filter"))
	if a, ok := flt.(Arr); ok && len(a) == 1 {
		flt = a[0]
	}
	nc := 0
	var pal []byte
	hival := 0
	cs := p.resolve(s.D.get("ColorSpace"))
	switch x := cs.(type) {
	case Name:
		nc = map[Name]int{"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[x]
	case Arr:
		if len(x) == 4 && x[0] == Name("Indexed") && p.resolve(x[1]) == Name("DeviceRGB") {
			nc = 1
			hv, ok := p.num(x[2])
			if !ok {
				return nil, errors.New("bad hival")
			}
			hival = int(hv)
			switch y := p.resolve(x[3]).(type) {
			case Str:
				pal = y
			case *Stream:
				pal, err = p.decode(y)
				if err != nil {
					return nil, err
				}
			default:
				return nil, errors.New("palette does not resolve")
			}
			if len(pal) != 3*(hival+1) {
				return nil, fmt.Errorf("palette of %d bytes for hival %d", len(pal), hival)
			}
		}
	}
	if nc == 0 {
		return nil, errors.New("colour space not understood")
	}
	if flt == Name("DCTDecode") {
		im, err := jpeg.Decode(bytes.NewReader(data))
		if err != nil {
			return nil, err
		}
		jn := 3
		switch im.(type) {
		case *image.Gray:
			jn = 1
		case *image.CMYK:
			jn = 4
		}
		if err := applyDecode(im, p.nums(s.D.get("Decode"))); err != nil {
			return nil, err
		}
		px := fromImage(im)
		if px.W != w || px.H != h || jn != nc || bpc != 8 {
			return nil, errors.New("image dictionary does not agree with the JPEG data")
		}
		out = px
	} else {
		if bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 && bpc != 16 {
			return nil, errors.New("bad BitsPerComponent")
		}
		rl := (w*nc*bpc + 7) / 8
		if len(data) != rl*h {
			return nil, fmt.Errorf("image data has %d bytes, %d expected", len(data), rl*h)
		}
		dec := p.nums(s.D.get("Decode"))
		key := p.nums(s.D.get("Mask"))
		if len(key) != 0 && len(key) != 2*nc {
			return nil, errors.New("bad colour key mask")
		}
		max := (1 << uint(bpc)) - 1
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				var sv [4]int
				for c := 0; c < nc; c++ {
					bit := (x*nc + c) * bpc
					row := data[y*rl:]
					if bpc == 16 {
						sv[c] = int(row[bit/8])<<8 | int(row[bit/8+1])
					} else {
						sv[c] = int(row[bit/8]>>uint(8-bpc-bit%8)) & max
					}
				}
				o := out.P[4*(y*w+x):]
				o[3] = 255
				if len(key) > 0 {
					in := true
					for c := 0; c < nc; c++ {
						if float64(sv[c]) < key[2*c] || float64(sv[c]) > key[2*c+1] {
							in = false
						}
					}
					if in {
						o[3] = 0
					}
				}
				if pal != nil {
					i := sv[0]
					if i > hival {
						return nil, errors.New("index outside palette")
					}
					o[0], o[1], o[2] = pal[3*i], pal[3*i+1], pal[3*i+2]
					continue
				}
				var f [4]float64
				for c := 0; c < nc; c++ {
					f[c] = float64(sv[c]) / float64(max)
					if len(dec) == 2*nc {
						f[c] = dec[2*c] + f[c]*(dec[2*c+1]-dec[2*c])
					}
				}
				b := func(v float64) byte { return byte(v*255 + 0.5) }
				switch nc {
				case 1:
					o[0], o[1], o[2] = b(f[0]), b(f[0]), b(f[0])
				case 3:
					o[0], o[1], o[2] = b(f[0]), b(f[1]), b(f[2])
				case 4:
					o[0], o[1], o[2] = b((1-f[0])*(1-f[3])), b((1-f[1])*(1-f[3])), b((1-f[2])*(1-f[3]))
				}
			}
		}
	}
	if sm := s.D.get("SMask"); sm != nil {
		ms, ok := p.resolve(sm).(*Stream)
		if !ok {
			return nil, errors.New("SMask does not resolve to a stream")
		}
		if ms.D.get("SMask") != nil {
			return nil, errors.New("SMask of SMask")
		}
		if ms.D.get("ColorSpace") != Name("DeviceGray") {
			return nil, errors.New("SMask is not DeviceGray")
		}
		mp, err := p.decodeImageXObject(sm)
		if err != nil {
			return nil, fmt.Errorf("SMask: %w", err)
		}
		if mp.W != w || mp.H != h {
			return nil, errors.New("SMask has another size")
		}
		for i := 0; i < w*h; i++ {
			out.P[4*i+3] = mp.P[4*i]
		}
	}
	return out, nil
}

// applyDecode changes the samples of a decoded JPEG as /Decode demands. A file with four components stores
// them inverted, which the decoder used here has undone already and a PDF viewer has not.
func applyDecode(im image.Image, dec []float64) error {
	cm, isCMYK := im.(*image.CMYK)
	if len(dec) == 0 && !isCMYK {
		return nil
	}
	n := 3
	switch im.(type) {
	case *image.Gray:
		n = 1
	case *image.CMYK:
		n = 4
	}
	if len(dec) != 0 && len(dec) != 2*n {
		return errors.New("/Decode of another colour space")
	}
	for c := 0; c < n; c++ {
		inv := false
		if len(dec) != 0 {
			switch {
			case dec[2*c] == 1 && dec[2*c+1] == 0:
				inv = true
			case dec[2*c] != 0 || dec[2*c+1] != 1:
				return errors.New("/Decode changes the image")
			}
		}
		if !isCMYK {
			if inv {
				return errors.New("/Decode inverts the image")
			}
			continue
		}
		if !inv {
			for i := c; i < len(cm.Pix); i += 4 {
				cm.Pix[i] = 255 - cm.Pix[i]
			}
		}
	}
	return nil
}

// catalogue of images used by document sessions
func catalogImage(key string) (ImgD, bool) {
	switch key {
	case "g8":
		return ImgD{K: "png", W: 5, H: 3, CT: 0, BD: 8, Seed: 11}, true
	case "rgb":
		return ImgD{K: "png", W: 4, H: 4, CT: 2, BD: 8, Seed: 3, Filt: 5, NID: 2}, true
	case "rgba":
		return ImgD{K: "png", W: 4, H: 6, CT: 6, BD: 8, Seed: 9, Filt: 4}, true
	case "rgba2":
		return ImgD{K: "png", W: 4, H: 6, CT: 6, BD: 8, Seed: 10, Filt: 4}, true
	case "ga":
		return ImgD{K: "png", W: 3, H: 2, CT: 4, BD: 8, Seed: 77, Filt: 1}, true
	case "ix":
		return ImgD{K: "png", W: 6, H: 5, CT: 3, BD: 4, Seed: 5, Pal: 9}, true
	case "ixt":
		return ImgD{K: "png", W: 6, H: 5, CT: 3, BD: 8, Seed: 6, Pal: 20, Trns: []int{0, 128, 255, 3}}, true
	case "jp":
		return ImgD{K: "jpg", W: 9, H: 7, Seed: 40}, true
	case "jg":
		return ImgD{K: "jpg", W: 8, H: 8, Seed: 90, Gray: true}, true
	case "jc":
		return ImgD{K: "jpg", W: 10, H: 17, Seed: 33, CT: 9}, true
	case "fpng":
		return ImgD{K: "file", File: "gopher.png"}, true
	case "fjpg":
		return ImgD{K: "file", File: "gopher2.jpg"}, true
	case "junk":
		return ImgD{K: "junk"}, true
	case "junk0":
		return ImgD{K: "junk", Junk: "empty"}, true
	case "junkp":
		return ImgD{K: "junk", Junk: "magic"}, true
	case "cut":
		return ImgD{K: "png", W: 4, H: 4, CT: 2, BD: 8, Seed: 3, Cut: 20}, true
	case "p16":
		return ImgD{K: "png", W: 4, H: 4, CT: 2, BD: 16, Seed: 3}, true
	case "il":
		return ImgD{K: "png", W: 9, H: 9, CT: 2, BD: 8, Seed: 3, IL: 1}, true
	}
	return ImgD{}, false
}
