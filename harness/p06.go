package main

import (
	"bytes"
	"fmt"
)

func init() {
	register(&Prop{
		ID: "C06", Quick: 18000, Thorough: 360000, Run: runC06,
		Rule: "one stream: data encoded by independent encoders for a random filter sequence and read back (hash of the encoded bytes and the filter list)",
		Need: []string{"streams compared", "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode", "LZWDecode", "LZW EarlyChange 0", "unsupported filters", "empty streams", "LZW table full"},
	})
	register(&Prop{
		ID: "C07", Quick: 16000, Thorough: 320000, Run: runC07,
		Rule: "one stream coded with a predictor: parameters, rows and per-row algorithms at random after a systematic sweep of small parameters (hash of the encoded bytes and parameters)",
		Need: []string{"streams compared", "predictor 2", "predictor 10", "predictor 15", "partial rows", "bits 1", "bits 2", "bits 4", "bits 8", "bits 16"},
	})
}

func runC06(c *Ctx) {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 1, 2))
	maybeEnc(d, 10)
	n := r.Range(2, 10)
	for i := 0; i < n; i++ {
		ln := r.SkewLen(3000)
		if r.P(4) {
			ln = r.Range(3000, 120000)
		}
		data := r.Data(ln)
		if r.P(4) {
			data = nil
		}
		o := d.AddStream(Dict{}, data)
		var fs []FilterUse
		enc := data
		k := r.Range(1, 2)
		if r.P(20) {
			k = r.Range(1, 6)
		}
		if len(data) == 0 {
			c.Event("empty streams", 1)
		}
		if len(data) == 0 && r.Bool() {
			// nothing at all between stream and endstream
			fs = []FilterUse{{Name: filterNames[r.IntN(5)]}}
			if r.Bool() {
				fs = append(fs, FilterUse{Name: filterNames[r.IntN(5)]})
			}
			enc = []byte{}
		} else {
			for j := 0; j < k; j++ {
				if r.P(6) {
					f := FilterUse{Name: Pick(r, "DCTDecode", "JPXDecode", "CCITTFaxDecode", "Flate_Decode", "flatedecode", "JBIG2Decode", "X"+plainWord(r))}
					fs = append([]FilterUse{f}, fs...)
					c.Event("unsupported filters", 1)
					continue
				}
				f := FilterUse{Name: filterNames[r.IntN(5)]}
				if f.Name == "LZWDecode" && r.P(70) {
					f.Parms = Dict{"EarlyChange": Num(r.IntN(2))}
				}
				if (f.Name == "FlateDecode" || f.Name == "LZWDecode") && r.P(15) {
					if f.Parms == nil {
						f.Parms = Dict{}
					}
					f.Parms["Predictor"] = Num(1)
					if r.Bool() {
						f.Parms["Columns"] = Num(r.Range(1, 100))
					}
				}
				if f.Name == "LZWDecode" && f.Parms["EarlyChange"] == Num(0) {
					c.Event("LZW EarlyChange 0", 1)
				}
				if f.Name == "LZWDecode" && len(enc) > 8000 {
					c.Event("LZW table full", 1)
				}
				enc = encodeFor(r, enc, &f, nil, true)
				c.Event(f.Name, 1)
				fs = append([]FilterUse{f}, fs...)
			}
		}
		o.Filters, o.Encoded = fs, enc
		if o.Encoded == nil {
			o.Encoded = []byte{}
		}
		if o.Data == nil {
			o.Data = []byte{}
		}
		c.Sig(enc, fmt.Sprint(fs))
	}
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	p := c.LoadOK(d, data)
	for _, o := range d.All() {
		c.CheckObj(p, o)
	}
	o := d.Objs[0]
	c.Sample("object %d: %d bytes through %v", o.N, len(o.Data), filterList(o))
}

func runC07(c *Ctx) {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 2))
	n := 12
	for i := 0; i < n; i++ {
		var p Pred
		if c.Case < 400 {
			// systematic part: 400*12 = 4800 > 7 predictors * 5 depths * 6 colors * 20 columns
			k := c.Case*n + i
			p.Predictor = []int{2, 10, 11, 12, 13, 14, 15}[k%7]
			k /= 7
			p.Bits = []int{1, 2, 4, 8, 16}[k%5]
			k /= 5
			p.Colors = 1 + k%6
			k /= 6
			p.Columns = 1 + k%20
		} else {
			p = genPred(r)
			if r.P(10) {
				p.Columns = r.Range(1, 3000)
			}
			if r.P(5) {
				p.Colors = r.Range(1, 40)
			}
		}
		rows := r.Range(0, 6)
		if r.P(10) {
			rows = r.Range(0, 60)
		}
		rb := p.rowBytes()
		ln := rows * rb
		if r.P(50) {
			ln += r.IntN(rb + 1)
		}
		if p.Predictor == 2 && p.Bits == 16 {
			ln &^= 1
		}
		if ln > 200000 {
			ln = ln % 200000 &^ 1
		}
		if ln%rb != 0 {
			c.Event("partial rows", 1)
		}
		data := r.Data(ln)
		if r.P(30) { // image-like: smooth rows
			for j := range data {
				data[j] = byte(j%rb*3 + j/rb)
			}
		}
		f := FilterUse{Name: Pick(r, "FlateDecode", "LZWDecode"), Parms: p.parms(r)}
		if f.Name == "LZWDecode" && r.Bool() {
			f.Parms["EarlyChange"] = Num(r.IntN(2))
		}
		o := d.AddStream(Dict{}, data)
		enc := encodeFor(r, data, &f, &p, true)
		fs := []FilterUse{f}
		if r.P(15) {
			g := FilterUse{Name: Pick(r, "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode")}
			enc = encodeFor(r, enc, &g, nil, true)
			fs = append([]FilterUse{g}, fs...)
		}
		if r.P(8) { // predictors on two levels
			q := genPred(r)
			if q.Predictor == 2 && q.Bits == 16 {
				q.Bits = 8
			}
			g := FilterUse{Name: "FlateDecode", Parms: q.parms(r)}
			enc = encodeFor(r, enc, &g, &q, true)
			fs = append([]FilterUse{g}, fs...)
		}
		o.Filters, o.Encoded = fs, enc
		c.Event(fmt.Sprintf("predictor %d", p.Predictor), 1)
		c.Event(fmt.Sprintf("bits %d", p.Bits), 1)
		c.Sig(enc, fmt.Sprint(p))
	}
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	p := c.LoadOK(d, data)
	for _, o := range d.All() {
		c.CheckObj(p, o)
	}
	o := d.Objs[0]
	c.Sample("object %d: %d bytes through %v", o.N, len(o.Data), filterList(o))
}

var _ = bytes.Equal
