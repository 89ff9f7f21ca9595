package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C13", Quick: 30000, Thorough: 600000, Run: runC13,
		Rule: "one (value, chain length, accessor) read directly and through references, or one interleaving of sequential reading with resolving (hash of the value, the chain and the accessor answers)",
		Need: []string{"accessor answers", "chains", "cycles", "missing objects", "streams through chains", "sequential reads", "resolves between reads", "present answers", "absent answers"},
	})
}

type answer struct {
	v  Val
	ok bool
}

func (a answer) String() string { return fmt.Sprintf("(%s, %v)", show(a.v), a.ok) }

var accessors = []string{"Array", "Bool", "Bytes", "Dictionary", "Int", "Int64", "Name", "Number", "Object", "String", "Stream"}

func askDict(d pdf.Dictionary, key, acc string) answer {
	switch acc {
	case "Array":
		v, ok := d.GetArray(key)
		return answer{fromPDF(v), ok}
	case "Bool":
		v, ok := d.GetBool(key)
		return answer{Kw(fmt.Sprint(v)), ok}
	case "Bytes":
		v, ok := d.GetBytes(key)
		return answer{Str(v), ok}
	case "Dictionary":
		v, ok := d.GetDictionary(key)
		return answer{fromPDF(v), ok}
	case "Int":
		v, ok := d.GetInt(key)
		return answer{Num(v), ok}
	case "Int64":
		v, ok := d.GetInt64(key)
		return answer{Num(v), ok}
	case "Name":
		v, ok := d.GetName(key)
		return answer{Name(v), ok}
	case "Number":
		v, ok := d.GetNumber(key)
		return answer{Num(v), ok}
	case "Object":
		v, ok := d.GetObject(key)
		return answer{fromPDF(v), ok}
	case "String":
		v, ok := d.GetString(key)
		return answer{Str(v), ok}
	case "Stream":
		v, ok := d.GetStream(key)
		return answer{Str(v), ok}
	}
	panic(acc)
}

func askArr(a pdf.Array, i int, acc string) answer {
	switch acc {
	case "Array":
		v, ok := a.GetArray(i)
		return answer{fromPDF(v), ok}
	case "Bool":
		v, ok := a.GetBool(i)
		return answer{Kw(fmt.Sprint(v)), ok}
	case "Bytes":
		v, ok := a.GetBytes(i)
		return answer{Str(v), ok}
	case "Dictionary":
		v, ok := a.GetDictionary(i)
		return answer{fromPDF(v), ok}
	case "Int":
		v, ok := a.GetInt(i)
		return answer{Num(v), ok}
	case "Int64":
		v, ok := a.GetInt64(i)
		return answer{Num(v), ok}
	case "Name":
		v, ok := a.GetName(i)
		return answer{Name(v), ok}
	case "Number":
		v, ok := a.GetNumber(i)
		return answer{Num(v), ok}
	case "Object":
		v, ok := a.GetObject(i)
		return answer{fromPDF(v), ok}
	case "String":
		v, ok := a.GetString(i)
		return answer{Str(v), ok}
	case "Stream":
		v, ok := a.GetStream(i)
		return answer{Str(v), ok}
	}
	panic(acc)
}

// wantAnswer is the answer of the model; stream is nil if v is not a stream's dictionary reached by reference.
func wantAnswer(v Val, stream []byte, acc string) answer {
	switch acc {
	case "Array":
		if a, ok := v.(Arr); ok {
			return answer{a, true}
		}
		return answer{Arr{}, false}
	case "Bool":
		if v == True || v == False {
			return answer{v, true}
		}
		return answer{False, false}
	case "Bytes", "String":
		if s, ok := v.(Str); ok {
			return answer{s, true}
		}
		return answer{Str(""), false}
	case "Dictionary":
		if d, ok := v.(Dict); ok {
			return answer{d, true}
		}
		return answer{Dict{}, false}
	case "Int", "Int64":
		if n, ok := v.(Num); ok {
			return answer{Num(math.Trunc(float64(n))), true}
		}
		return answer{Num(0), false}
	case "Name":
		if n, ok := v.(Name); ok {
			return answer{n, true}
		}
		return answer{Name(""), false}
	case "Number":
		if n, ok := v.(Num); ok {
			return answer{n, true}
		}
		return answer{Num(0), false}
	case "Object":
		return answer{v, true}
	case "Stream":
		if stream != nil {
			return answer{Str(stream), true}
		}
		return answer{Str(""), false}
	}
	panic(acc)
}

func runC13(c *Ctx) {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 0, 1, 2))
	maybeEnc(d, 10)
	var all []Ref
	for i := r.Range(1, 4); i > 0; i-- {
		ref := d.Alloc()
		d.Put(ref, GenVal(r, GenOpt{Depth: 2, Dyadic: true}))
		all = append(all, ref)
	}
	type item struct {
		direct Val // nil: only reachable by reference
		v      Val
		ref    Ref
		stream []byte
		kind   string
	}
	var items []item
	chain := func(ref Ref) Ref {
		n := 0
		if r.P(50) {
			n = r.Range(1, 4)
		}
		if r.P(4) {
			n = r.Range(5, 120)
		}
		for ; n > 0; n-- {
			c.Event("chains", 1)
			ref = d.Add(ref)
		}
		all = append(all, ref)
		return ref
	}
	for i := r.Range(3, 12); i > 0; i-- {
		switch r.IntN(10) {
		case 0: // missing
			ref := Ref{d.next + 5000 + r.IntN(1000), 0}
			items = append(items, item{v: Null, ref: chain(ref), kind: "missing objects"})
		case 1: // cycle
			n := r.Range(1, 4)
			refs := make([]Ref, n)
			for j := range refs {
				refs[j] = d.Alloc()
			}
			for j := range refs {
				d.Put(refs[j], refs[(j+1)%n])
			}
			items = append(items, item{v: Null, ref: chain(refs[0]), kind: "cycles"})
		case 2, 3:
			data := r.Data(r.SkewLen(400))
			o := d.AddStream(GenDict(r, GenOpt{Depth: 1, Keys: inertKey, Dyadic: true}), data)
			if data == nil {
				data = []byte{}
			}
			items = append(items, item{v: nil, ref: chain(o.Ref()), stream: data, kind: "streams through chains"})
		default:
			v := GenVal(r, GenOpt{Depth: 2, Dyadic: true, Refs: all, MaxStr: 100})
			if ref, ok := v.(Ref); ok {
				v = Arr{ref}
			}
			if r.P(20) {
				v = Pick[Val](r, Num(2.5), Num(-2.5), Num(-0.5), Num(4294967296), Num(-9007199254740991), True, False, Null, Str(""), Name("x"), Arr{}, Dict{}, Kw("obj"), Kw("foo"))
			}
			items = append(items, item{direct: v, v: v, ref: chain(d.Add(v)), kind: "values"})
		}
	}
	hd, ha := Dict{}, Arr{}
	for i, it := range items {
		if it.direct != nil {
			hd[fmt.Sprintf("D%d", i)] = it.direct
			ha = append(ha, it.direct)
		} else {
			ha = append(ha, Val(Null))
		}
		hd[fmt.Sprintf("R%d", i)] = it.ref
		ha = append(ha, it.ref)
	}
	ho, hao := d.Add(hd), d.Add(ha)
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	for i := range items {
		if items[i].kind == "streams through chains" {
			ref := items[i].ref
			for d.Find(ref.N) != nil && !d.Find(ref.N).IsStream {
				ref = d.Find(ref.N).V.(Ref)
			}
			items[i].v = d.Find(ref.N).Full
		}
	}
	p := c.LoadOK(d, data)
	dict, ok1 := p.GetObject(ho.N).Value.(pdf.Dictionary)
	arr, ok2 := p.GetObject(hao.N).Value.(pdf.Array)
	c.Check(ok1 && ok2 && len(arr) == len(ha), "holder", "holders read wrongly")
	check := func(got, want answer, what string) {
		c.Eval()
		c.Event("accessor answers", 1)
		if want.ok {
			c.Event("present answers", 1)
		} else {
			c.Event("absent answers", 1)
		}
		if got.ok != want.ok || diffVal(got.v, want.v) != "" {
			c.Fail("accessor", "%s answers %v, want %v", what, got, want)
		}
	}
	order := r.Perm(len(items))
	for _, i := range order {
		it := items[i]
		c.Event(it.kind, 1)
		accs := append([]string{}, accessors...)
		r.Shuffle(len(accs), func(i, j int) { accs[i], accs[j] = accs[j], accs[i] })
		for _, acc := range accs {
			w := wantAnswer(it.v, it.stream, acc)
			if it.direct != nil {
				wd := wantAnswer(it.direct, nil, acc)
				check(askDict(dict, fmt.Sprintf("D%d", i), acc), wd, fmt.Sprintf("Dictionary.Get%s of the direct value %s", acc, show(it.direct)))
				check(askArr(arr, 2*i, acc), wd, fmt.Sprintf("Array.Get%s of the direct value %s", acc, show(it.direct)))
			}
			check(askDict(dict, fmt.Sprintf("R%d", i), acc), w, fmt.Sprintf("Dictionary.Get%s through %s (%s)", acc, show(it.ref), it.kind))
			check(askArr(arr, 2*i+1, acc), w, fmt.Sprintf("Array.Get%s through %s (%s)", acc, show(it.ref), it.kind))
			c.Sig(show(it.v), show(it.ref), acc)
		}
		ref, ok := dict.GetReference(fmt.Sprintf("R%d", i))
		c.Check(ok && ref.Number == it.ref.N && ref.Generation == it.ref.G, "reference", "GetReference of %s gives %v %v", show(it.ref), ref, ok)
		if it.direct != nil {
			_, ok := dict.GetReference(fmt.Sprintf("D%d", i))
			c.Check(!ok, "reference", "GetReference of a direct value answers present")
		}
		res := pdf.NewReference(p, it.ref.N, it.ref.G).Resolve()
		dv := diffVal(fromPDF(res), it.v)
		c.Check(dv == "", "resolve", "%s resolves wrongly: %s", show(it.ref), dv)
		st := pdf.NewReference(p, it.ref.N, it.ref.G).ResolveStream()
		c.Check(bytes.Equal(st, it.stream), "resolve-stream", "stream of %s: %s", show(it.ref), firstDiff(st, it.stream))
	}
	// out of range and unknown keys
	for _, acc := range accessors {
		w := wantAnswer(Null, nil, acc)
		w.ok = false
		check(askDict(dict, "NoSuchKey", acc), w, "Get"+acc+" of an absent key")
		check(askArr(arr, Pick(r, -1, -2, -1<<40, len(arr), len(arr)+7), acc), w, "Get"+acc+" outside the array")
	}
	if d.Enc == nil {
		c.seqC13(d, p, all)
	}
	c.Sample("%d items, %s", len(items), d.Describe())
}

// seqC13 reads the file token by token while references are resolved in between.
func (c *Ctx) seqC13(d *Doc, p *pdf.Parser, all []Ref) {
	r := c.R
	disturb := func() {
		for k := r.IntN(3); k > 0; k-- {
			c.Event("resolves between reads", 1)
			ref := all[r.IntN(len(all))]
			if r.P(20) {
				ref.N = d.Objs[r.IntN(len(d.Objs))].N
			}
			before := p.CurrentOffset()
			pr := pdf.NewReference(p, ref.N, ref.G)
			switch r.IntN(4) {
			case 0:
				pr.Resolve()
			case 1:
				pr.ResolveStream()
			case 2:
				pdf.Dictionary{"K": pr}.GetPageTree("K")
			default:
				pdf.Array{pr}.GetStream(0)
			}
			c.Check(p.CurrentOffset() == before, "offset", "resolving %v moved the read position from %d to %d", pr, before, p.CurrentOffset())
		}
	}
	none := &pdf.DecryptorNone{}
	for k := r.Range(1, 4); k > 0; k-- {
		o := d.Objs[r.IntN(len(d.Objs))]
		p.Seek(o.Offset, 0)
		disturb()
		n, g, ok := p.ReadObjectHeader()
		c.Check(ok && n == o.N && g == o.G, "seq-header", "reading the header of %d %d after resolving: %d %d %v", o.N, o.G, n, g, ok)
		disturb()
		if a, isArr := o.Full.(Arr); isArr && d.Level == 0 {
			b, err := p.ReadByte()
			c.Check(err == nil && b == '[', "seq-array", "expected [ got %q %v", b, err)
			for i := 0; ; i++ {
				disturb()
				v, err := p.ReadObject(none)
				if err == pdf.EndOfArray {
					c.Check(i == len(a), "seq-array", "array ended after %d of %d elements", i, len(a))
					break
				}
				c.Check(err == nil && i < len(a), "seq-array", "element %d: %v", i, err)
				dv := diffVal(fromPDF(v), a[i])
				c.Check(dv == "", "seq-element", "element %d read after resolving: %s", i, dv)
				c.Event("sequential reads", 1)
			}
		} else {
			v, err := p.ReadObject(none)
			c.Check(err == nil, "seq-value", "%v", err)
			dv := diffVal(fromPDF(v), o.Full)
			c.Check(dv == "", "seq-value", "value read after resolving: %s", dv)
			c.Event("sequential reads", 1)
		}
		disturb()
		kw := string(p.ReadKeyword())
		want := "endobj"
		if o.IsStream {
			want = "stream"
		}
		c.Check(kw == want, "seq-keyword", "keyword after the value of %d is %q, want %q", o.N, kw, want)
		c.Sig("seq", show(o.Full), r.Uint64())
	}
}
