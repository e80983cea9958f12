package main

import "bytes"

// cmykJPEG makes a baseline JPEG with four components and an Adobe marker: every 8x8 block has one colour,
// samples are stored inverted, as in all files with that marker. transform: 0 CMYK, 2 YCCK.
func cmykJPEG(w, h, seed, transform int) []byte {
	var o bytes.Buffer
	seg := func(m byte, b []byte) {
		o.Write([]byte{0xff, m, byte((len(b) + 2) >> 8), byte(len(b) + 2)})
		o.Write(b)
	}
	o.Write([]byte{0xff, 0xd8})
	seg(0xee, append([]byte("Adobe\x00\x64\x00\x00\x00\x00"), byte(transform)))
	dqt := make([]byte, 65)
	for i := 1; i < 65; i++ {
		dqt[i] = 8
	}
	seg(0xdb, dqt)
	seg(0xc0, []byte{8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), 4, 1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0, 4, 0x11, 0})
	dc := make([]byte, 17)
	dc[4] = 12
	for i := 0; i < 12; i++ {
		dc = append(dc, byte(i))
	}
	seg(0xc4, dc) // category c has the code c, 4 bits
	ac := make([]byte, 17)
	ac[0], ac[1] = 0x10, 1
	seg(0xc4, append(ac, 0)) // end of block: code 0, 1 bit
	seg(0xda, []byte{4, 1, 0, 2, 0, 3, 0, 4, 0, 0, 63, 0})
	acc, n := uint32(0), 0
	put := func(v uint32, k int) {
		for k--; k >= 0; k-- {
			acc = acc<<1 | v>>uint(k)&1
			if n++; n == 8 {
				o.WriteByte(byte(acc))
				if byte(acc) == 0xff {
					o.WriteByte(0)
				}
				acc, n = 0, 0
			}
		}
	}
	var prev [4]int
	for by := 0; by < (h+7)/8; by++ {
		for bx := 0; bx < (w+7)/8; bx++ {
			for c := 0; c < 4; c++ {
				v := (seed*(c+1)+37*bx+59*by)%256 - 128
				d := v - prev[c]
				prev[c] = v
				a, cat := d, 0
				if a < 0 {
					a = -a
				}
				for ; a > 0; a >>= 1 {
					cat++
				}
				put(uint32(cat), 4)
				if d < 0 {
					d += 1<<uint(cat) - 1
				}
				put(uint32(d), cat)
				put(0, 1)
			}
		}
	}
	for n != 0 {
		put(1, 1)
	}
	o.Write([]byte{0xff, 0xd9})
	return o.Bytes()
}
