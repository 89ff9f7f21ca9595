package main

import (
	"bytes"
	"fmt"
)

func init() {
	register(&Prop{
		ID: "C08", Quick: 20000, Thorough: 400000, Run: runC08,
		Rule: "one damaged stream (truncated, a byte changed, illegal character, no end marker, file cut, trailing garbage) whose decodable prefix, computed by independent decoders, is non-empty (hash of the damaged bytes)",
		Need: []string{"truncated", "corrupted", "no end marker", "illegal character", "file cut inside stream", "endstream missing", "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode", "LZWDecode", "predictor", "two filters"},
	})
}

// wantPrefix decodes as far as possible what precedes the damage.
func wantPrefix(fs []FilterUse, prefix []byte) []byte {
	for _, f := range fs {
		prefix = decodePrefix(f, prefix)
	}
	return prefix
}

func runC08(c *Ctx) {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 1))
	type expect struct {
		o     *Obj
		want  []byte // required prefix
		exact bool
		alt   func(got []byte) string
		what  string
	}
	var exps []expect
	for i := 0; i < 8; i++ {
		ln := r.SkewLen(2500)
		if r.P(3) {
			ln = r.Range(5000, 60000)
		}
		data := r.Data(ln)
		k := Pick(r, 1, 1, 1, 2)
		var fs []FilterUse
		enc := data
		noEOD := r.P(15)
		for j := 0; j < k; j++ {
			f := FilterUse{Name: filterNames[r.IntN(5)]}
			var pred *Pred
			if f.Name == "LZWDecode" && r.Bool() {
				f.Parms = Dict{"EarlyChange": Num(r.IntN(2))}
			}
			if (f.Name == "FlateDecode" || f.Name == "LZWDecode") && r.P(30) {
				p := genPred(r)
				if p.Predictor == 2 && p.Bits == 16 {
					p.Bits = 8
				}
				pred = &p
				if f.Parms == nil {
					f.Parms = Dict{}
				}
				for kk, v := range p.parms(r) {
					f.Parms[kk] = v
				}
				c.Event("predictor", 1)
			}
			enc = encodeFor(r, enc, &f, pred, !(noEOD && j == k-1))
			fs = append([]FilterUse{f}, fs...)
			c.Event(f.Name, 1)
		}
		if k == 2 {
			c.Event("two filters", 1)
		}
		full := wantPrefix(fs, enc)
		if !noEOD && !bytes.Equal(full, data) {
			panic(harnessError{fmt.Errorf("reference decoder disagrees with the encoder for %v: %s", fs, firstDiff(full, data))})
		}
		if !bytes.HasPrefix(data, full) {
			panic(harnessError{fmt.Errorf("reference decoder wrong prefix for %v: %s", fs, firstDiff(full, data))})
		}
		e := expect{}
		outer := fs[0].Name
		dmg := enc
		pos := 0
		if len(enc) > 0 {
			pos = r.IntN(len(enc))
			if r.P(20) {
				pos = len(enc) - 1 - r.IntN(min(len(enc), 8))
			}
		}
		kind := r.IntN(4)
		switch {
		case noEOD:
			// a final partial group still counts when only the marker is missing
			if outer == "ASCII85Decode" {
				full = wantPrefix(fs, append(append([]byte{}, enc...), "~>"...))
			}
			if outer == "ASCIIHexDecode" {
				full = wantPrefix(fs, append(append([]byte{}, enc...), '>'))
			}
			e.want, e.what = full, "no end marker"
		case kind <= 1 || len(enc) == 0:
			dmg = enc[:pos]
			e.want, e.what = wantPrefix(fs, dmg), "truncated"
		case kind == 2:
			dmg = append([]byte{}, enc...)
			m := r.Range(1, 4)
			for j := pos; j < len(dmg) && j < pos+m; j++ {
				dmg[j] ^= byte(r.Range(1, 255))
			}
			if r.P(20) {
				dmg = append(append([]byte{}, enc[:pos]...), r.Bytes(r.Range(1, 50))...)
			}
			e.want, e.what = wantPrefix(fs, enc[:pos]), "corrupted"
		default:
			if k == 1 && outer == "ASCIIHexDecode" {
				// a digit is replaced: at most its byte is lost
				for tries := 0; tries < 20 && (isWS(enc[pos]) || enc[pos] == '>'); tries++ {
					pos = r.IntN(len(enc))
				}
				if isWS(enc[pos]) || enc[pos] == '>' {
					dmg, e.want, e.what = enc[:pos], wantPrefix(fs, enc[:pos]), "truncated"
					break
				}
				dmg = append([]byte{}, enc...)
				dmg[pos] = Pick[byte](r, 'G', 'z', '!', '~', '<', 0x80, 0xff, 'x', '-', '+', '_')
				at := 0
				for _, b := range enc[:pos] {
					if !isWS(b) {
						at++
					}
				}
				at /= 2
				e.what = "illegal character"
				e.want = data[:at]
				rest := data[min(at+1, len(data)):]
				e.alt = func(got []byte) string {
					g := got[at:]
					if bytes.Equal(g, rest) || (len(g) > 0 && bytes.Equal(g[1:], rest)) {
						return ""
					}
					return fmt.Sprintf("an illegal character in the pair of byte %d disturbs other bytes: %s", at, firstDiff(got, data))
				}
			} else if k == 1 && outer == "ASCII85Decode" {
				// extra characters are ignored
				end := bytes.IndexByte(enc, '~')
				pos = r.IntN(end + 1)
				dmg = append([]byte{}, enc[:pos]...)
				dmg = append(dmg, Pick[byte](r, 'v', 'w', '{', '|', 0x80, 0xff, 0x7f, 1, 0x1b, 'y'))
				dmg = append(dmg, enc[pos:]...)
				e.want, e.exact, e.what = data, true, "illegal character"
			} else {
				dmg = append(append([]byte{}, enc...), r.Bytes(r.Range(1, 30))...)
				e.want, e.what = data, "garbage after the end"
			}
		}
		if bytes.Contains(dmg, []byte("endstream")) {
			continue
		}
		o := d.AddStream(Dict{}, nil)
		o.Filters, o.Encoded, o.PlainLen = fs, dmg, true
		if dmg == nil {
			o.Encoded = []byte{}
		}
		e.o = o
		exps = append(exps, e)
		if len(e.want) > 0 {
			c.Sig(dmg)
		}
	}
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	p := c.LoadOK(d, data)
	for _, e := range exps {
		got := p.GetObject(e.o.N)
		c.Event(e.what, 1)
		c.Check(bytes.HasPrefix(got.Stream, e.want), "prefix", "object %d, %v, %s: result does not begin with the %d bytes decodable before the damage: %s", e.o.N, filterList(e.o), e.what, len(e.want), firstDiff(got.Stream, e.want))
		if e.exact {
			c.Check(bytes.Equal(got.Stream, e.want), "exact", "object %d, %v, %s: %s", e.o.N, filterList(e.o), e.what, firstDiff(got.Stream, e.want))
		}
		if e.alt != nil {
			why := e.alt(got.Stream)
			c.Check(why == "", "group", "object %d, %v: %s", e.o.N, filterList(e.o), why)
		}
		c.Event("bytes required", len(e.want))
	}
	if len(exps) > 0 {
		c.Sample("%v %s: %d of the bytes required", filterList(exps[0].o), exps[0].what, len(exps[0].want))
	}
	c.runCut()
}

// runCut damages the file rather than the encoded data: the file ends inside a
// stream, or its endstream keyword is missing.
func (c *Ctx) runCut() {
	r := c.R
	d := NewDoc(r, 0)
	d.Kind = "none"
	fillInert(d, r.Range(0, 3), GenOpt{Depth: 2}, true)
	data := r.Data(r.SkewLen(2000))
	var o *Obj
	fs, enc := genFilters(r, data, 2, true)
	if bytes.Contains(enc, []byte("endstream")) {
		return
	}
	w := NewFileW(r, 0)
	w.alloc = d.Alloc
	var objs []*Obj
	for _, x := range d.Objs {
		w.prepare(x)
	}
	for _, x := range append(append([]*Obj{}, d.Objs...), w.extra...) {
		w.Obj(x)
		objs = append(objs, x)
	}
	ref := d.Alloc()
	o = &Obj{N: ref.N, G: ref.G, V: Dict{}, IsStream: true, Data: data, Filters: fs, Encoded: enc, PlainLen: true}
	if r.Bool() {
		o.PlainLen = false
		w.alloc = nil
	}
	w.prepare(o)
	w.Obj(o)
	b := w.buf.Bytes()
	start := bytes.LastIndex(b, append([]byte("stream"), []byte{}...))
	// the data lie at a known place: endstream and endobj follow it
	end := bytes.LastIndex(b, []byte("endstream"))
	dataEnd := end - len(o.eol)
	dataStart := dataEnd - len(enc)
	_ = start
	var want []byte
	var what string
	if !w.Sane() {
		return
	}
	if r.Bool() {
		cut := dataStart + r.IntN(len(enc)+1)
		b = b[:cut]
		want, what = wantPrefix(fs, enc[:cut-dataStart]), "file cut inside stream"
	} else {
		b = append(append([]byte{}, b[:end]...), Pick(r, "", "endobj\n", "end", "endstrea", "\n%%EOF\n")...)
		want, what = data, "endstream missing"
	}
	c.Attach("cut.pdf", b)
	c.Attach("in.pdf", b)
	p, err := Load(bytes.NewReader(b), "")
	c.Check(err == nil, "load-error", "%v", err)
	got := p.GetObject(o.N)
	c.Event(what, 1)
	c.Check(bytes.HasPrefix(got.Stream, want), "cut", "object %d, %v, %s: result does not begin with the %d bytes present: %s", o.N, filterList(o), what, len(want), firstDiff(got.Stream, want))
	for _, x := range objs {
		c.CheckObj(p, x)
	}
	if len(want) > 0 {
		c.Sig(b)
	}
}
