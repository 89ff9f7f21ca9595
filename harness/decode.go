package main

import "encoding/binary"

// Independent decoders that yield as much as can be decoded from a prefix of encoded data.

func isWS(b byte) bool {
	switch b {
	case 0, '\t', '\n', '\f', '\r', ' ':
		return true
	}
	return false
}

// decHexPrefix: complete pairs only; complete tells that the end marker was seen.
func decHexPrefix(in []byte) []byte {
	var out []byte
	hi := -1
	for _, b := range in {
		if isWS(b) {
			continue
		}
		v := -1
		switch {
		case b >= '0' && b <= '9':
			v = int(b - '0')
		case b >= 'a' && b <= 'f':
			v = int(b-'a') + 10
		case b >= 'A' && b <= 'F':
			v = int(b-'A') + 10
		case b == '>':
			if hi >= 0 {
				out = append(out, byte(hi<<4))
			}
			return out
		default:
			return out
		}
		if hi < 0 {
			hi = v
		} else {
			out = append(out, byte(hi<<4|v))
			hi = -1
		}
	}
	return out
}

func dec85Prefix(in []byte) []byte {
	var out []byte
	var v uint64
	n := 0
	for _, b := range in {
		switch {
		case isWS(b):
		case b == 'z' && n == 0:
			out = append(out, 0, 0, 0, 0)
		case b == '~':
			if n > 1 {
				for i := n; i < 5; i++ {
					v = v*85 + 84
				}
				var q [4]byte
				binary.BigEndian.PutUint32(q[:], uint32(v))
				out = append(out, q[:n-1]...)
			}
			return out
		case b >= '!' && b <= 'u':
			v = v*85 + uint64(b-'!')
			n++
			if n == 5 {
				var q [4]byte
				binary.BigEndian.PutUint32(q[:], uint32(v))
				out = append(out, q[:]...)
				v, n = 0, 0
			}
		default:
			return out
		}
	}
	return out
}

func decRLEPrefix(in []byte) []byte {
	var out []byte
	for i := 0; i < len(in); {
		l := int(in[i])
		i++
		switch {
		case l == 128:
			return out
		case l < 128:
			for k := 0; k <= l; k++ {
				if i >= len(in) {
					return out
				}
				out = append(out, in[i])
				i++
			}
		default:
			if i >= len(in) {
				return out
			}
			for k := 0; k < 257-l; k++ {
				out = append(out, in[i])
			}
			i++
		}
	}
	return out
}

func decLZWPrefix(in []byte, early bool) []byte {
	var out []byte
	ec := 0
	if early {
		ec = 1
	}
	type ent struct {
		prev int
		b    byte
		n    int
	}
	var tab [4097]ent
	for i := 0; i < 256; i++ {
		tab[i] = ent{-1, byte(i), 1}
	}
	next, width, last := 258, 9, -1
	expand := func(c int) []byte {
		n := tab[c].n
		b := make([]byte, n)
		for i := n - 1; i >= 0; i-- {
			b[i] = tab[c].b
			c = tab[c].prev
		}
		return b
	}
	pos := 0
	for pos+width <= len(in)*8 {
		c := 0
		for k := 0; k < width; k++ {
			c = c<<1 | int(in[(pos+k)/8]>>uint(7-(pos+k)%8)&1)
		}
		pos += width
		if c == 256 {
			next, width, last = 258, 9, -1
			continue
		}
		if c == 257 {
			return out
		}
		if last < 0 {
			if c > 255 {
				return out
			}
			out = append(out, byte(c))
			last = c
			continue
		}
		var s []byte
		switch {
		case c < next && c != 256 && c != 257:
			s = expand(c)
		case c == next:
			s = expand(last)
			s = append(s, s[0])
		default:
			return out
		}
		if next < 4096 {
			tab[next] = ent{last, s[0], tab[last].n + 1}
			next++
		}
		out = append(out, s...)
		last = c
		if next+ec >= 1<<uint(width) && width < 12 {
			width++
		}
	}
	return out
}

// inflatePrefix decodes a zlib stream as far as its bytes reach.
func inflatePrefix(in []byte) []byte {
	if len(in) < 2 {
		return nil
	}
	d := &infl{in: in[2:]}
	d.run()
	return d.out
}

type infl struct {
	in  []byte
	pos int // bits
	out []byte
}

type inflEnd struct{}

func (d *infl) bit() int {
	if d.pos/8 >= len(d.in) {
		panic(inflEnd{})
	}
	b := int(d.in[d.pos/8]>>uint(d.pos%8)) & 1
	d.pos++
	return b
}

func (d *infl) bits(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v |= d.bit() << uint(i)
	}
	return v
}

type huff struct{ count, sym []int }

func mkHuff(lens []int) huff {
	h := huff{make([]int, 16), make([]int, len(lens))}
	for _, l := range lens {
		h.count[l]++
	}
	h.count[0] = 0
	offs := make([]int, 17)
	for i := 1; i < 16; i++ {
		offs[i+1] = offs[i] + h.count[i]
	}
	for s, l := range lens {
		if l != 0 {
			h.sym[offs[l]] = s
			offs[l]++
		}
	}
	return h
}

func (d *infl) symbol(h huff) int {
	code, first, index := 0, 0, 0
	for l := 1; l < 16; l++ {
		code |= d.bit()
		c := h.count[l]
		if code-c < first {
			return h.sym[index+code-first]
		}
		index += c
		first = (first + c) << 1
		code <<= 1
	}
	panic(inflEnd{})
}

var (
	lenBase  = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
	lenExtra = []int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
	dstBase  = []int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
	dstExtra = []int{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}
)

func (d *infl) run() {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(inflEnd); !ok {
				panic(e)
			}
		}
	}()
	for {
		final := d.bit()
		switch d.bits(2) {
		case 0:
			d.pos = (d.pos + 7) &^ 7
			n := d.bits(16)
			m := d.bits(16)
			if n != ^m&0xffff {
				return
			}
			for i := 0; i < n; i++ {
				d.out = append(d.out, byte(d.bits(8)))
			}
		case 1:
			l := make([]int, 288)
			for i := range l {
				switch {
				case i < 144:
					l[i] = 8
				case i < 256:
					l[i] = 9
				case i < 280:
					l[i] = 7
				default:
					l[i] = 8
				}
			}
			dl := make([]int, 30)
			for i := range dl {
				dl[i] = 5
			}
			if !d.codes(mkHuff(l), mkHuff(dl), 7) {
				return
			}
		case 2:
			nl, nd, nc := d.bits(5)+257, d.bits(5)+1, d.bits(4)+4
			order := []int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
			cl := make([]int, 19)
			for i := 0; i < nc; i++ {
				cl[order[i]] = d.bits(3)
			}
			h := mkHuff(cl)
			lens := make([]int, 0, nl+nd)
			for len(lens) < nl+nd {
				s := d.symbol(h)
				if s < 16 {
					lens = append(lens, s)
					continue
				}
				prev, rep := 0, 0
				switch s {
				case 16:
					if len(lens) == 0 {
						return
					}
					prev = lens[len(lens)-1]
					rep = 3 + d.bits(2)
				case 17:
					rep = 3 + d.bits(3)
				default:
					rep = 11 + d.bits(7)
				}
				for ; rep > 0; rep-- {
					lens = append(lens, prev)
				}
			}
			if len(lens) != nl+nd {
				return
			}
			if !d.codes(mkHuff(lens[:nl]), mkHuff(lens[nl:]), lens[256]) {
				return
			}
		default:
			return
		}
		if final == 1 {
			return
		}
	}
}

// codes decodes one block. The Go inflater never looks at fewer bits than the
// end-of-block code has, so symbols within that distance of a cut are not required.
func (d *infl) codes(l, dist huff, eob int) bool {
	for {
		if len(d.in)*8-d.pos < eob {
			return false
		}
		s := d.symbol(l)
		if s < 256 {
			d.out = append(d.out, byte(s))
			continue
		}
		if s == 256 {
			return true
		}
		s -= 257
		if s >= 29 {
			return false
		}
		n := lenBase[s] + d.bits(lenExtra[s])
		k := d.symbol(dist)
		if k >= 30 {
			return false
		}
		off := dstBase[k] + d.bits(dstExtra[k])
		if off > len(d.out) {
			return false
		}
		for ; n > 0; n-- {
			d.out = append(d.out, d.out[len(d.out)-off])
		}
	}
}

func (p Pred) decodePNG(in []byte) []byte {
	rb, bpp := p.rowBytes(), p.pixBytes()
	var out []byte
	for pos := 0; pos < len(in); pos += rb + 1 {
		tag := int(in[pos])
		start := len(out)
		for i := 1; i <= rb && pos+i < len(in); i++ {
			k := len(out)
			col := k - start
			var a, b, c int
			if col >= bpp {
				a = int(out[k-bpp])
			}
			if start >= rb {
				b = int(out[k-rb])
				if col >= bpp {
					c = int(out[k-rb-bpp])
				}
			}
			pr := 0
			switch tag {
			case 1:
				pr = a
			case 2:
				pr = b
			case 3:
				pr = (a + b) / 2
			case 4:
				pr = paeth(a, b, c)
			}
			out = append(out, in[pos+i]+byte(pr))
		}
	}
	return out
}

func (p Pred) decodeTIFF(in []byte) []byte {
	out := append([]byte{}, in...)
	rb := p.rowBytes()
	mask := 1<<uint(p.Bits) - 1
	for start := 0; start < len(out); start += rb {
		end := start + rb
		if end > len(out) {
			end = len(out)
		}
		row := out[start:end]
		n := len(row) * 8 / p.Bits
		if n > p.Columns*p.Colors {
			n = p.Columns * p.Colors
		}
		get := func(i int) int {
			v := 0
			for k := 0; k < p.Bits; k++ {
				pos := i*p.Bits + k
				v = v<<1 | int(row[pos/8]>>uint(7-pos%8)&1)
			}
			return v
		}
		set := func(i, v int) {
			for k := 0; k < p.Bits; k++ {
				pos := i*p.Bits + k
				bit := byte(v>>uint(p.Bits-1-k)&1) << uint(7-pos%8)
				row[pos/8] = row[pos/8]&^(1<<uint(7-pos%8)) | bit
			}
		}
		for i := p.Colors; i < n; i++ {
			set(i, (get(i)+get(i-p.Colors))&mask)
		}
	}
	return out
}

// decodePrefix decodes what can be decoded of a prefix of data coded with f.
func decodePrefix(f FilterUse, in []byte) []byte {
	var out []byte
	switch f.Name {
	case "ASCIIHexDecode":
		return decHexPrefix(in)
	case "ASCII85Decode":
		return dec85Prefix(in)
	case "RunLengthDecode":
		return decRLEPrefix(in)
	case "FlateDecode":
		out = inflatePrefix(in)
	case "LZWDecode":
		out = decLZWPrefix(in, f.Parms["EarlyChange"] != Num(0))
	}
	if pv, ok := f.Parms["Predictor"].(Num); ok && pv > 1 {
		num := func(k string, def int) int {
			if v, ok := f.Parms[k].(Num); ok {
				return int(v)
			}
			return def
		}
		p := Pred{int(pv), num("Colors", 1), num("BitsPerComponent", 8), num("Columns", 1)}
		if p.Predictor == 2 {
			if p.Bits == 16 && len(out)%2 == 1 {
				out = out[:len(out)-1]
			}
			return p.decodeTIFF(out)
		}
		return p.decodePNG(out)
	}
	return out
}
