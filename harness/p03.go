package main

import (
	"fmt"
)

func init() {
	register(&Prop{
		ID: "C03", Quick: 24000, Thorough: 480000, Run: runC03,
		Rule: "one distinct object value written in one randomly chosen legal spelling and read back (hash of the spelled bytes)",
		Need: []string{"values compared", "nested levels", "huge values"},
	})
}

func runC03(c *Ctx) {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 1, 2, 2, 2, 2))
	n := r.Range(3, 25)
	var refs []Ref
	for i := 0; i < n; i++ {
		refs = append(refs, d.Alloc())
	}
	depth := 4
	huge := -1
	if r.P(2) {
		huge = r.IntN(len(refs))
	}
	for i, ref := range refs {
		var v Val
		switch k := r.IntN(20); {
		case i == huge:
			v = hugeVal(r, refs)
			c.Event("huge values", 1)
		case k == 0:
			v = deepVal(r, r.Range(5, 400), refs)
			c.Event("nested levels", 1)
		case k == 1:
			v = Str(genStrBytes(r, 6000))
		case k == 2: // every byte value in one string
			b := make([]byte, 256)
			for i := range b {
				b[i] = byte(i)
			}
			r.Shuffle(256, func(i, j int) { b[i], b[j] = b[j], b[i] })
			v = Str(b)
		case k == 3:
			b := make([]byte, 0, 255)
			for i := 1; i < 256; i++ {
				b = append(b, byte(i))
			}
			r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
			m := r.Range(1, 80)
			if r.P(20) {
				m = r.Range(100, 255)
			}
			v = Name(b[:m])
		case k < 9:
			v = GenVal(r, GenOpt{Depth: 0, Refs: refs, MaxStr: 1000})
		case k < 14:
			v = GenDict(r, GenOpt{Depth: depth, Refs: refs})
		case k < 18:
			v = GenArr(r, GenOpt{Depth: depth, Refs: refs})
		default: // wide
			a := Arr{}
			for i := r.Range(50, 600); i > 0; i-- {
				a = append(a, GenVal(r, GenOpt{Depth: 0, Refs: refs}))
			}
			v = a
			if r.Bool() {
				m := Dict{}
				for i, e := range a {
					m[fmt.Sprintf("K%d", i)] = e
				}
				v = m
			}
		}
		if r.P(8) {
			dd, ok := v.(Dict)
			if !ok {
				dd = Dict{"V": v}
			}
			d.PutStream(ref, dd, r.Data(r.SkewLen(500)))
		} else {
			d.Put(ref, v)
		}
	}
	d.Kind = Pick(r, "table", "stream", "none")
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	p := c.LoadOK(d, data)
	for _, o := range d.All() {
		c.CheckObj(p, o)
		c.Sig(show(o.Full), o.N)
	}
	c.Sample("%s: object %d = %s", d.Describe(), d.Objs[0].N, show(d.Objs[0].Full))
}

// hugeVal has more elements or bytes than readers commonly reckon with.
func hugeVal(r *Rand, refs []Ref) Val {
	switch r.IntN(4) {
	case 0: // more than the 65535 bytes of older limits
		b := make([]byte, r.Range(60000, 150000))
		for i := range b {
			b[i] = byte(r.IntN(256))
			if r.P(70) {
				b[i] = 'x'
			}
		}
		return Str(b)
	case 1:
		b := make([]byte, r.Range(128, 9000))
		for i := range b {
			b[i] = byte(r.Range('a', 'z'))
		}
		return Name(b)
	case 2:
		a := Arr{}
		for i := r.Range(8000, 20000); i > 0; i-- {
			a = append(a, GenVal(r, GenOpt{Depth: 0, Refs: refs, MaxStr: 3}))
		}
		return a
	}
	m := Dict{}
	for i := r.Range(4000, 9000); i > 0; i-- {
		m[fmt.Sprintf("K%d", i)] = Num(i)
	}
	return m
}

// deepVal nests arrays and dictionaries with siblings before and after the nested value.
func deepVal(r *Rand, depth int, refs []Ref) Val {
	var v Val = GenVal(r, GenOpt{Depth: 0, Refs: refs})
	for i := 0; i < depth; i++ {
		if r.Bool() {
			a := Arr{}
			for r.P(30) {
				a = append(a, GenVal(r, GenOpt{Depth: 0, Refs: refs}))
			}
			a = append(a, v)
			for r.P(30) {
				a = append(a, GenVal(r, GenOpt{Depth: 0, Refs: refs}))
			}
			v = a
		} else {
			m := Dict{genKey(r): v}
			for r.P(30) {
				m[genKey(r)+"_"] = GenVal(r, GenOpt{Depth: 0, Refs: refs})
			}
			v = m
		}
	}
	return v
}
