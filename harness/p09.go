package main

import (
	"bytes"
	"fmt"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C09", Quick: 30000, Thorough: 600000, Run: runC09,
		Rule: "one file with a history of 1-6 cross-reference sections (define, redefine, free, revive, repeat) in which at least one object was mentioned by more than one section (hash of the file)",
		Need: []string{"sections table", "sections stream", "redefined", "freed", "revived", "sections out of file order", "mixed chains", "values compared", "free objects checked", "raw.pdf entries matched", "encrypted histories", "trailing bytes", "entries of other types"},
	})
}

// state of one object number after some section
type histState struct {
	obj  *Obj
	free bool
	gen  int
}

type section struct {
	kind  string
	ents  map[int]histState
	objs  []*Obj // objects written for this section
	self  bool
	ref   Ref // of the cross-reference stream
	off   int64
	xobj  *Obj
	done  bool
	count int
}

type hist struct {
	c      *Ctx
	r      *Rand
	d      *Doc
	w      *FileW
	secs   []*section
	state  map[int]histState
	multi  bool
	jumped bool
	kinds  map[string]bool
}

const prevMark = 7000000000

// genHist builds the model of a file history. val makes the value of an object.
func genHist(c *Ctx, nsec int, level int, enc bool, val func(h *hist, ref Ref) *Obj) *hist {
	r := c.R
	h := &hist{c: c, r: r, d: NewDoc(r, level), state: map[int]histState{}, kinds: map[string]bool{}}
	d := h.d
	if enc {
		d.Enc = genEnc(r)
		d.Trailer["ID"] = d.Enc.idArray(r)
		ed := d.Enc.dict(r)
		if r.Bool() {
			d.Trailer["Encrypt"] = ed
		} else {
			ref := d.Alloc()
			d.Trailer["Encrypt"] = ref
			d.EncObj = &Obj{N: ref.N, G: ref.G, V: ed, NoEncrypt: true}
		}
	}
	mode := r.IntN(3)
	for i := 0; i < nsec; i++ {
		s := &section{ents: map[int]histState{}}
		switch mode {
		case 0:
			s.kind = "table"
		case 1:
			s.kind = "stream"
		default:
			s.kind = Pick(r, "table", "stream")
		}
		h.kinds[s.kind] = true
		if i == 0 && d.EncObj != nil {
			s.objs = append(s.objs, d.EncObj)
			s.ents[d.EncObj.N] = histState{obj: d.EncObj, gen: d.EncObj.G}
		}
		if i == 0 && r.P(70) {
			s.ents[0] = histState{free: true, gen: 65535}
		}
		known := []int{}
		for n := range h.state {
			if n != 0 && (d.EncObj == nil || n != d.EncObj.N) {
				known = append(known, n)
			}
		}
		sortInts(known)
		r.Shuffle(len(known), func(i, j int) { known[i], known[j] = known[j], known[i] })
		// new objects
		for k := r.Range(1, 6); k > 0; k-- {
			ref := d.Alloc()
			if r.P(15) {
				s.ents[ref.N] = histState{free: true, gen: Pick(r, 0, ref.G, 1, 65535)}
				continue
			}
			o := val(h, ref)
			s.objs = append(s.objs, o)
			s.ents[ref.N] = histState{obj: o, gen: ref.G}
		}
		// changes
		for k, n := range known {
			if k > 8 || !r.P(60) {
				continue
			}
			st := h.state[n]
			h.multi = true
			switch {
			case st.free && r.P(70): // revived under the generation of the free entry
				g := st.gen
				if g == 65535 && r.Bool() {
					g = 0
				}
				o := val(h, Ref{n, g})
				s.objs = append(s.objs, o)
				s.ents[n] = histState{obj: o, gen: g}
				c.Event("revived", 1)
			case st.free || r.P(15): // repeated
				s.ents[n] = st
				c.Event("repeated", 1)
			case r.P(35):
				s.ents[n] = histState{free: true, gen: min(st.gen+1, 65535)}
				c.Event("freed", 1)
			default:
				o := val(h, Ref{n, st.gen})
				s.objs = append(s.objs, o)
				s.ents[n] = histState{obj: o, gen: st.gen}
				c.Event("redefined", 1)
			}
		}
		if s.kind == "stream" {
			s.self = r.P(70)
			s.ref = d.Alloc()
			if len(known) > 0 && r.P(30) {
				// the number of an earlier object or cross-reference stream is used again
				for _, n := range known {
					if _, taken := s.ents[n]; !taken {
						g := h.state[n].gen
						s.ref, s.self = Ref{n, g}, true
						c.Event("xref stream number reused", 1)
						break
					}
				}
			}
		}
		for n, st := range s.ents {
			h.state[n] = st
		}
		if s.kind == "stream" {
			h.state[s.ref.N] = histState{gen: s.ref.G} // object known once written
		}
		h.secs = append(h.secs, s)
	}
	return h
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// render writes the history; objects and sections in any physical order that lets
// a section follow its own objects.
func (h *hist) render() ([]byte, bool) {
	r := h.r
	w := NewFileW(r, h.d.Level)
	w.enc = h.d.Enc
	h.w, h.d.W = w, w
	// objects needed by streams belong to the section of their stream
	for _, s := range h.secs {
		w.alloc = func() Ref {
			return h.d.Alloc()
		}
		for _, o := range s.objs {
			w.extra = nil
			w.prepare(o)
			for _, x := range w.extra {
				w2 := x
				s.objs = append(s.objs, w2)
				s.ents[x.N] = histState{obj: w2, gen: x.G}
				h.state[x.N] = s.ents[x.N]
			}
		}
		for _, o := range s.objs {
			w.prepare(o)
		}
		w.extra = nil
		w.alloc = nil
	}
	type item struct {
		o *Obj
		s int
	}
	var items []item
	shuffle := r.P(40)
	for i, s := range h.secs {
		var os []item
		for _, o := range s.objs {
			os = append(os, item{o, -1})
		}
		r.Shuffle(len(os), func(i, j int) { os[i], os[j] = os[j], os[i] })
		items = append(items, os...)
		items = append(items, item{nil, i})
	}
	if shuffle {
		r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	}
	written := map[*Obj]bool{}
	patch := map[int]int{} // mark -> section it refers to
	lastSec := -1
	put := func(o *Obj) {
		if !written[o] {
			written[o] = true
			w.Obj(o)
		}
	}
	for _, it := range items {
		if it.o != nil {
			put(it.o)
			continue
		}
		s := h.secs[it.s]
		for _, o := range s.objs {
			put(o)
		}
		trailer := Dict{}
		for k, v := range h.d.Trailer {
			trailer[k] = v
		}
		max := 0
		var ents []XEnt
		for n, st := range s.ents {
			if n > max {
				max = n
			}
			e := XEnt{N: n, Gen: st.gen, Free: st.free}
			if st.obj != nil {
				e.Off = st.obj.Offset
				if !written[st.obj] {
					// repeated entry of an object that is written later or a cross-reference stream
					continue
				}
			} else if !st.free {
				continue
			} else if r.P(50) {
				e.Off = int64(r.IntN(30))
			}
			if st.free && s.kind != "table" && r.P(12) {
				// kept in an object stream, or of a type there is not: nothing that can be read
				e.Odd = Pick(r, 2, 2, 3, 7, 255, 256, 257, 513, 65535)
				h.c.Event("entries of other types", 1)
			}
			ents = append(ents, e)
		}
		if it.s > 0 {
			mark := prevMark + it.s
			trailer["Prev"] = Num(mark)
			patch[mark] = it.s - 1
		}
		if it.s < lastSec {
			h.jumped = true
		}
		lastSec = it.s
		h.c.Event("sections "+s.kind, 1)
		if s.kind == "table" {
			for n := range h.state {
				if n > max {
					max = n
				}
			}
			trailer["Size"] = Num(max + 1)
			s.off = w.Table(ents, trailer)
		} else {
			s.off, s.xobj = w.XStream(s.ref.N, s.ref.G, ents, trailer, s.self)
		}
		if r.P(60) {
			w.StartXref(Pick(r, 0, s.off, s.off))
		}
	}
	last := h.secs[len(h.secs)-1]
	w.StartXref(last.off)
	if r.P(15) {
		w.Tail()
		h.c.Event("trailing bytes", 1)
	}
	b := append([]byte{}, w.buf.Bytes()...)
	for mark, i := range patch {
		m := []byte(fmt.Sprint(mark))
		if bytes.Count(b, m) != 1 {
			return nil, false
		}
		b = bytes.Replace(b, m, []byte(fmt.Sprintf("%010d", h.secs[i].off)), 1)
		if x := h.secs[i+1].xobj; x != nil {
			x.Full.(Dict)["Prev"] = Num(h.secs[i].off)
		}
	}
	// final state, in the order of the history
	h.state = map[int]histState{}
	for _, s := range h.secs {
		for n, st := range s.ents {
			if st.obj == nil && !st.free {
				continue
			}
			h.state[n] = st
		}
		if s.xobj != nil {
			h.state[s.ref.N] = histState{obj: s.xobj, gen: s.ref.G}
		}
	}
	return b, w.Sane()
}

// live returns the objects in use at the end of the history.
func (h *hist) live() []*Obj {
	var os []*Obj
	var ns []int
	for n, st := range h.state {
		if !st.free {
			ns = append(ns, n)
		}
	}
	sortInts(ns)
	for _, n := range ns {
		os = append(os, h.state[n].obj)
	}
	return os
}

func (h *hist) free() []int {
	var ns []int
	for n, st := range h.state {
		if st.free {
			ns = append(ns, n)
		}
	}
	sortInts(ns)
	return ns
}

func (h *hist) describe() string {
	var s string
	for i, x := range h.secs {
		s += fmt.Sprintf("section %d %s at %d (stream object %v):", i, x.kind, x.off, x.ref)
		for _, k := range sortedEnts(x.ents) {
			st := x.ents[k]
			if st.free {
				s += fmt.Sprintf(" %d free gen %d;", k, st.gen)
			} else if st.obj != nil {
				s += fmt.Sprintf(" %d gen %d at %d;", k, st.gen, st.obj.Offset)
			}
		}
		s += "\n"
	}
	return s
}

func sortedEnts(m map[int]histState) []int {
	var ns []int
	for n := range m {
		ns = append(ns, n)
	}
	sortInts(ns)
	return ns
}

func plainObj(h *hist, ref Ref) *Obj {
	r := h.r
	o := GenOpt{Depth: 2, Dyadic: true, Keys: inertKey, MaxStr: 40}
	if r.P(35) {
		dd := GenDict(r, o)
		return &Obj{N: ref.N, G: ref.G, V: dd, IsStream: true, Data: r.Data(r.SkewLen(300)), MaxFilters: 2, Preds: true}
	}
	v := GenVal(r, o)
	if r.P(60) {
		v = Arr{v, Str(fmt.Sprintf("version %d", r.IntN(1<<30)))}
	}
	return &Obj{N: ref.N, G: ref.G, V: v}
}

func runC09(c *Ctx) {
	r := c.R
	h := genHist(c, r.Range(1, 6), Pick(r, 0, 0, 1, 2), r.P(20), plainObj)
	data, ok := h.render()
	if !ok {
		c.Skip()
	}
	if h.jumped {
		c.Event("sections out of file order", 1)
	}
	if len(h.kinds) == 2 {
		c.Event("mixed chains", 1)
	}
	if h.d.Enc != nil {
		c.Event("encrypted histories", 1)
	}
	if h.multi {
		c.Sig(data)
	}
	c.Attach("history.txt", []byte(h.describe()))
	p := c.LoadOK(h.d, data)
	for _, o := range h.live() {
		c.CheckObj(p, o)
	}
	for _, n := range h.free() {
		got := p.GetObject(n)
		c.Check(show(fromPDF(got.Value)) == "null" && len(got.Stream) == 0, "freed", "object %d is free in the newest section that mentions it but reads as %s", n, show(fromPDF(got.Value)))
		res := pdf.NewReference(p, n, 0).Resolve()
		c.Check(show(fromPDF(res)) == "null", "freed-ref", "a reference to the free object %d resolves to %s", n, show(fromPDF(res)))
		c.Event("free objects checked", 1)
	}
	if r.P(40) {
		res := c.ParseOK(h.d, data)
		c.CheckRaw(res.Get("raw.pdf"), h.live())
	}
	c.Sample("%d sections, %d live, %d free: %s", len(h.secs), len(h.live()), len(h.free()), h.describe())
}
