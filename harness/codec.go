package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
)

// Independent encoders. Every choice a legal encoder has is made at random.

var wsBytes = []string{" ", "\n", "\r", "\t", "\f", "\x00", "\r\n"}

func encHex(r *Rand, data []byte, eod bool) []byte {
	var b bytes.Buffer
	ws := r.P(40)
	mode := r.IntN(3)
	space := func() {
		for ws && r.P(15) {
			b.WriteString(wsBytes[r.IntN(len(wsBytes))])
		}
	}
	put := func(d byte) {
		ds := "0123456789abcdef"
		if mode == 1 || (mode == 2 && r.Bool()) {
			ds = "0123456789ABCDEF"
		}
		b.WriteByte(ds[d])
	}
	for i, c := range data {
		space()
		put(c >> 4)
		space()
		if eod && i == len(data)-1 && c&15 == 0 && r.P(50) {
			break
		}
		put(c & 15)
	}
	space()
	if eod {
		b.WriteByte('>')
	}
	return b.Bytes()
}

func enc85(r *Rand, data []byte, eod bool) []byte {
	var b bytes.Buffer
	ws := r.P(40)
	zs := r.P(80)
	space := func() {
		for ws && r.P(15) {
			b.WriteString(wsBytes[r.IntN(len(wsBytes))])
		}
	}
	group := func(g []byte) {
		var q [4]byte
		copy(q[:], g)
		v := binary.BigEndian.Uint32(q[:])
		if len(g) == 4 && v == 0 && zs && r.P(90) {
			space()
			b.WriteByte('z')
			return
		}
		var d [5]byte
		for i := 4; i >= 0; i-- {
			d[i] = byte(v%85) + '!'
			v /= 85
		}
		for i := 0; i < len(g)+1; i++ {
			space()
			b.WriteByte(d[i])
		}
	}
	for len(data) >= 4 {
		group(data[:4])
		data = data[4:]
	}
	if len(data) > 0 {
		group(data)
	}
	space()
	if eod {
		b.WriteByte('~')
		if ws && r.P(10) {
			b.WriteByte('\n')
		}
		b.WriteByte('>')
	}
	return b.Bytes()
}

// rleUnits returns the encoding and, for each encoded prefix, how much is decodable.
func encRLE(r *Rand, data []byte, eod bool) []byte {
	var b bytes.Buffer
	for i := 0; i < len(data); {
		run := 1
		for i+run < len(data) && run < 128 && data[i+run] == data[i] {
			run++
		}
		if run >= 2 && r.P(80) {
			if r.P(20) {
				run = r.Range(2, run)
			}
			b.WriteByte(byte(257 - run))
			b.WriteByte(data[i])
			i += run
			continue
		}
		n := r.Range(1, 128)
		if r.P(20) {
			n = 128
		}
		if i+n > len(data) {
			n = len(data) - i
		}
		b.WriteByte(byte(n - 1))
		b.Write(data[i : i+n])
		i += n
	}
	if eod {
		b.WriteByte(128)
	}
	return b.Bytes()
}

func encFlate(r *Rand, data []byte) []byte {
	var b bytes.Buffer
	level := Pick(r, -2, -1, 0, 1, 5, 9)
	if len(data) > 50000 && (level > 1 || level == -1) {
		level = 1 // deep searches in long repetitive data take minutes
	}
	w, err := zlib.NewWriterLevel(&b, level)
	Must(err)
	for len(data) > 0 {
		n := len(data)
		if r.P(30) {
			n = r.Range(1, len(data))
		}
		w.Write(data[:n])
		data = data[n:]
		if r.P(30) {
			w.Flush()
		}
	}
	w.Close()
	return b.Bytes()
}

// encLZW is a straightforward variable-width (9-12 bit) MSB-first encoder.
// limit is the number of table entries after which the table is cleared.
func encLZW(r *Rand, data []byte, early bool, eod bool) []byte {
	var out bytes.Buffer
	var acc uint32
	var bits uint
	emit := func(code, width int) {
		acc = acc<<uint(width) | uint32(code)
		bits += uint(width)
		for bits >= 8 {
			out.WriteByte(byte(acc >> (bits - 8)))
			bits -= 8
		}
		acc &= 1<<bits - 1
	}
	ec := 0
	if early {
		ec = 1
	}
	max := 4094 // clear before the table overflows, also with early change
	if r.P(50) {
		max = r.Range(258, 4094)
	}
	var table map[string]int
	next, width := 258, 9
	reset := func() {
		table = map[string]int{}
		next, width = 258, 9
	}
	reset()
	emit(256, 9)
	code := func(s []byte) int {
		if len(s) == 1 {
			return int(s[0])
		}
		if c, ok := table[string(s)]; ok {
			return c
		}
		return -1
	}
	var cur []byte
	for _, c := range data {
		ext := append(append([]byte{}, cur...), c)
		if len(cur) == 0 || code(ext) >= 0 {
			cur = ext
			continue
		}
		emit(code(cur), width)
		table[string(ext)] = next
		next++
		if next+ec > 1<<uint(width) && width < 12 {
			width++
		}
		cur = []byte{c}
		if next >= max || r.P(1) && r.P(5) {
			emit(code(cur), width)
			cur = nil
			// the decoder adds an entry for the code just written
			next++
			if next+ec > 1<<uint(width) && width < 12 {
				width++
			}
			emit(256, width)
			reset()
			if r.P(50) {
				max = 4094
			}
		}
	}
	if len(cur) > 0 {
		emit(code(cur), width)
		next++
		if next+ec > 1<<uint(width) && width < 12 {
			width++
		}
	}
	if eod {
		emit(257, width)
	}
	if bits > 0 {
		out.WriteByte(byte(acc << (8 - bits)))
	}
	return out.Bytes()
}

// ------------------------------------------------------------ predictors

type Pred struct {
	Predictor, Colors, Bits, Columns int
}

func (p Pred) rowBytes() int { return (p.Colors*p.Bits*p.Columns + 7) / 8 }
func (p Pred) pixBytes() int { return (p.Colors*p.Bits + 7) / 8 }

func (p Pred) parms(r *Rand) Dict {
	d := Dict{"Predictor": Num(p.Predictor)}
	if p.Colors != 1 || r.Bool() {
		d["Colors"] = Num(p.Colors)
	}
	if p.Bits != 8 || r.Bool() {
		d["BitsPerComponent"] = Num(p.Bits)
	}
	if p.Columns != 1 || r.Bool() {
		d["Columns"] = Num(p.Columns)
	}
	return d
}

func genPred(r *Rand) Pred {
	p := Pred{Predictor: Pick(r, 2, 10, 11, 12, 13, 14, 15, 15), Colors: Pick(r, 1, 1, 2, 3, 3, 4, r.Range(1, 9)), Bits: Pick(r, 1, 2, 4, 8, 8, 16), Columns: Pick(r, 1, 2, 3, r.Range(1, 20), r.Range(1, 300))}
	return p
}

func (p Pred) encode(r *Rand, data []byte) []byte {
	if p.Predictor == 2 {
		return p.encodeTIFF(data)
	}
	return p.encodePNG(r, data)
}

func paeth(a, b, c int) int {
	abs := func(x int) int {
		if x < 0 {
			return -x
		}
		return x
	}
	pp := a + b - c
	pa, pb, pc := abs(pp-a), abs(pp-b), abs(pp-c)
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}

func (p Pred) encodePNG(r *Rand, data []byte) []byte {
	rb, bpp := p.rowBytes(), p.pixBytes()
	var out []byte
	fixed := r.IntN(5)
	mode := r.IntN(3)
	for start := 0; start < len(data); start += rb {
		end := start + rb
		if end > len(data) {
			end = len(data)
		}
		tag := r.IntN(5)
		if mode == 0 {
			tag = fixed
		} else if mode == 1 && p.Predictor < 15 {
			tag = p.Predictor - 10
		}
		out = append(out, byte(tag))
		for i := start; i < end; i++ {
			var a, b, c int
			col := i - start
			if col >= bpp {
				a = int(data[i-bpp])
			}
			if start >= rb {
				b = int(data[i-rb])
				if col >= bpp {
					c = int(data[i-rb-bpp])
				}
			}
			var pr int
			switch tag {
			case 1:
				pr = a
			case 2:
				pr = b
			case 3:
				pr = (a + b) / 2
			case 4:
				pr = paeth(a, b, c)
			}
			out = append(out, data[i]-byte(pr))
		}
	}
	return out
}

// encodeTIFF differences samples; data must hold whole samples.
func (p Pred) encodeTIFF(data []byte) []byte {
	out := append([]byte{}, data...)
	rb := p.rowBytes()
	get := func(row []byte, i int) int {
		switch p.Bits {
		case 16:
			return int(row[2*i])<<8 | int(row[2*i+1])
		case 8:
			return int(row[i])
		}
		pos := i * p.Bits
		return int(row[pos/8]) >> uint(8-p.Bits-pos%8) & (1<<uint(p.Bits) - 1)
	}
	put := func(row []byte, i, v int) {
		v &= 1<<uint(p.Bits) - 1
		switch p.Bits {
		case 16:
			row[2*i], row[2*i+1] = byte(v>>8), byte(v)
			return
		case 8:
			row[i] = byte(v)
			return
		}
		pos := i * p.Bits
		sh := uint(8 - p.Bits - pos%8)
		m := byte(1<<uint(p.Bits)-1) << sh
		row[pos/8] = row[pos/8]&^m | byte(v)<<sh
	}
	for start := 0; start < len(data); start += rb {
		end := start + rb
		if end > len(data) {
			end = len(data)
		}
		src, dst := data[start:end], out[start:end]
		n := len(src) * 8 / p.Bits
		if n > p.Columns*p.Colors {
			n = p.Columns * p.Colors
		}
		for i := p.Colors; i < n; i++ {
			put(dst, i, get(src, i)-get(src, i-p.Colors))
		}
	}
	return out
}

// ------------------------------------------------------------ pipelines

type FilterUse struct {
	Name  string
	Parms Dict // nil: none
}

var filterNames = []string{"ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode", "LZWDecode"}

// encodeFor applies one filter's encoder.
func encodeFor(r *Rand, data []byte, f *FilterUse, pred *Pred, eod bool) []byte {
	if pred != nil {
		data = pred.encode(r, data)
	}
	switch f.Name {
	case "ASCIIHexDecode":
		return encHex(r, data, eod)
	case "ASCII85Decode":
		return enc85(r, data, eod)
	case "RunLengthDecode":
		return encRLE(r, data, eod)
	case "FlateDecode":
		return encFlate(r, data)
	case "LZWDecode":
		early := true
		if v, ok := f.Parms["EarlyChange"]; ok && v == Num(0) {
			early = false
		}
		return encLZW(r, data, early, eod)
	}
	panic(harnessError{fmt.Errorf("no encoder for %q", f.Name)})
}

// genFilters picks a pipeline in decoding order and encodes data for it.
func genFilters(r *Rand, data []byte, max int, preds bool) ([]FilterUse, []byte) {
	n := r.IntN(max + 1)
	if r.P(30) && max > 0 {
		n = 1
	}
	var fs []FilterUse
	for i := 0; i < n; i++ {
		f := FilterUse{Name: filterNames[r.IntN(len(filterNames))]}
		var pred *Pred
		if f.Name == "LZWDecode" && r.P(60) {
			f.Parms = Dict{"EarlyChange": Num(r.IntN(2))}
		}
		if preds && (f.Name == "FlateDecode" || f.Name == "LZWDecode") && r.P(40) {
			p := genPred(r)
			if p.Predictor == 2 && p.Bits == 16 && len(data)%2 != 0 {
				p.Bits = 8
			}
			pred = &p
			if f.Parms == nil {
				f.Parms = Dict{}
			}
			for k, v := range p.parms(r) {
				f.Parms[k] = v
			}
		}
		data = encodeFor(r, data, &f, pred, true)
		fs = append([]FilterUse{f}, fs...)
	}
	return fs, data
}
