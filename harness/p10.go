package main

import (
	"bytes"
	"fmt"
	"regexp"
)

func init() {
	register(&Prop{
		ID: "C10", Quick: 60000, Thorough: 1200000, Run: runC10,
		Rule: "one file in which at least one object needs repair: its entry is missing or leads elsewhere (hash of the file)",
		Need: []string{"entry missing", "entry wrong", "entry right", "older copies in file", "right entry to older copy", "no section at all", "prefix junk", "table cut short", "subsection shifted", "startxref wrong", "startxref missing", "look-alike headers", "objects of files that end early", "damaged objects before others", "values compared", "stream section damaged", "encrypted"},
	})
}

var hdrAt = regexp.MustCompile(`^([\s\x00]|%[^\r\n]*[\r\n])*0*(\d+)([\s\x00]|%[^\r\n]*[\r\n])+\d+([\s\x00]|%[^\r\n]*[\r\n])+obj`)

// unclosed is the text of a damaged object that is open in some way where it ends. With dict it may
// be an open dictionary, which takes in the keys of whatever follows.
func unclosed(r *Rand, dict bool) []byte {
	open := Pick(r, "[", "[<</K", "[1 0 R", "[(", "(", "(a\\", "(\\1", "(((", "<", "<4", "/A#", "stream\n", "<<>>stream\n",
		"<</Length 99999999>>stream\r\nabc", "<</Length 60>>stream\n", "<</Filter/FlateDecode>>stream\nx\x9c\x00", "1", "1 0", "-", "]", ">>", ")", "\\")
	if dict && r.P(50) {
		open = Pick(r, "<<", "<</A ", "<</A[", "<</A<", "<</A/", "<</Type/X/A(")
	}
	b := bytes.Repeat([]byte(open), Pick(r, 1, 1, r.Range(2, 40)))
	if r.P(30) {
		b = append(b, r.Bytes(r.Range(1, 60))...)
	}
	return append(b, Pick[byte](r, '\n', '\r'))
}

// leads tells whether reading at off finds a header of object n.
func leads(b []byte, off int64, n int) bool {
	if off < 0 || off >= int64(len(b)) {
		return false
	}
	m := hdrAt.FindSubmatch(b[off:])
	return m != nil && string(m[2]) == fmt.Sprint(n)
}

func leadsAny(b []byte, off int64) bool {
	return off >= 0 && off < int64(len(b)) && hdrAt.Match(b[off:])
}

// cutFile checks what is read of a file that ends early: every object that is all there.
func cutFile(c *Ctx) {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 1, 2))
	d.Kind = Pick(r, "table", "table", "stream", "none")
	for k := r.Range(1, 3); k > 0; k-- {
		fillInert(d, r.Range(1, 5), GenOpt{Depth: 2, Dyadic: true}, true)
		if r.P(20) {
			o := d.Put(d.Alloc(), Null)
			o.Raw = unclosed(r, d.Kind != "stream")
			c.Event("damaged objects before others", 1)
		}
	}
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	all := d.All()
	cut := r.IntN(len(data))
	if r.P(50) {
		// close to the end of an object or near its header
		o := all[r.IntN(len(all))]
		cut = int(Pick(r, o.End, o.Offset)) + r.Range(0, 8)
		if cut > len(data) || r.P(30) {
			cut = int(o.End)
		}
	}
	if x := d.XRefObj; x != nil && x.Offset < int64(cut) && int64(cut) < x.End {
		if vd, ok := x.Full.(Dict); ok && vd["Filter"] != nil {
			// the filter may decode nothing of what is left, it is junk that says anything then
			c.Skip()
		}
	}
	whole, byN := map[int]bool{}, map[int]*Obj{}
	for _, o := range all {
		whole[o.N] = o.End <= int64(cut) && !o.Unlisted
		byN[o.N] = o
	}
	c.Event("files that end early", 1)
	c.Attach("whole.pdf", data)
	c.Attach("cut", []byte(fmt.Sprint(cut)))
	p := c.LoadOK(d, data[:cut:cut])
	n := 0
	for _, o := range all {
		if !whole[o.N] || o.Raw != nil {
			continue
		}
		if o.IsStream {
			// what describes the data must be there too
			needs := Dict{}
			if vd, ok := o.Full.(Dict); ok {
				for _, k := range []string{"Length", "Filter", "DecodeParms"} {
					needs[k] = vd[k]
				}
			}
			if !present(needs, whole, byN) {
				continue
			}
		}
		c.CheckObj(p, o)
		c.Event("objects of files that end early", 1)
		n++
	}
	if n > 0 {
		c.Sig(data[:cut])
	}
}

// present tells whether all objects v leads to are.
func present(v Val, whole map[int]bool, byN map[int]*Obj) bool {
	seen := map[int]bool{}
	var walk func(v Val) bool
	walk = func(v Val) bool {
		switch x := v.(type) {
		case Ref:
			o := byN[x.N]
			if seen[x.N] || o == nil {
				return true
			}
			seen[x.N] = true
			return whole[x.N] && walk(o.V)
		case Arr:
			for _, e := range x {
				if !walk(e) {
					return false
				}
			}
		case Dict:
			for _, e := range x {
				if !walk(e) {
					return false
				}
			}
		}
		return true
	}
	return walk(v)
}

func runC10(c *Ctx) {
	r := c.R
	if r.P(12) {
		cutFile(c)
		return
	}
	d := NewDoc(r, Pick(r, 0, 1, 2))
	if r.P(20) {
		d.Enc = genEnc(r)
		c.Event("encrypted", 1)
	}
	w := NewFileW(r, d.Level)
	if r.P(25) {
		// junk in front of the header moves everything
		w.buf.Reset()
		w.buf.WriteString(Pick(r, "\n", "\r\n\r\n", "junk before the header\n", "GIF89a\x01\x00\x01\x00\x80\xff\n", "HTTP/1.1 OK\r\nContent-Type: application/pdf\r\n\r\n"))
		w.buf.WriteString("%PDF-1.6\n")
		c.Event("prefix junk", 1)
	}
	prefix := int64(w.buf.Len()) - int64(len("%PDF-1.6\n"))
	shifted := prefix > 0 && w.buf.Bytes()[0] != '%'
	w.enc = d.Enc
	w.alloc = d.Alloc
	trailer := Dict{}
	vers := map[int][]*Obj{}
	var order []*Obj
	add := func(o *Obj) {
		vers[o.N] = append(vers[o.N], o)
		order = append(order, o)
	}
	if d.Enc != nil {
		trailer["ID"] = d.Enc.idArray(r)
		if r.Bool() {
			trailer["Encrypt"] = d.Enc.dict(r)
		} else {
			ref := d.Alloc()
			trailer["Encrypt"] = ref
			add(&Obj{N: ref.N, G: ref.G, V: d.Enc.dict(r), NoEncrypt: true})
		}
	}
	h := &hist{c: c, r: r}
	n := r.Range(2, 14)
	for i := 0; i < n; i++ {
		ref := d.Alloc()
		k := 1
		if r.P(30) {
			k = r.Range(2, 3)
			c.Event("older copies in file", 1)
		}
		for ; k > 0; k-- {
			add(plainObj(h, ref))
			if r.P(30) {
				ref.G = r.IntN(100)
			}
		}
	}
	for i := 0; i < len(order); i++ {
		w.prepare(order[i])
		for _, x := range w.extra {
			add(x)
		}
		w.extra = nil
	}
	w.alloc = nil
	// look-alikes: text inside a stream that looks like the header of another object
	looks := map[int]bool{}
	fakes := 0
	if r.P(30) {
		for k := r.Range(1, 3); k > 0; k-- {
			t := order[r.IntN(len(order))]
			looks[t.N] = true
			ref := d.Alloc()
			text := fmt.Sprintf("\n%d %d obj\n<</Fake true>>\nendobj\n", t.N, t.G)
			o := &Obj{N: ref.N, G: ref.G, V: Dict{}, IsStream: true, Data: []byte(text), Encoded: []byte(text), PlainLen: true}
			if d.Enc != nil {
				o.NoEncrypt = false
			}
			add(o)
			w.prepare(o)
			fakes += len(hdrRe.FindAll(o.final, -1))
		}
		c.Event("look-alike headers", 1)
	}
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	last := map[int]*Obj{}
	mode := r.IntN(8) // 0: no section, 1: table cut short, 2: shifted subsection, 3: damaged stream
	streamed := mode == 3 || (mode > 3 && r.P(40))
	spoilt := r.P(25)
	for _, o := range order {
		if spoilt && r.P(30) {
			// what is damaged does not hide what follows
			ref := d.Alloc()
			w.Obj(&Obj{N: ref.N, G: ref.G, Raw: unclosed(r, !streamed)})
			c.Event("damaged objects before others", 1)
		}
		w.Obj(o)
		last[o.N] = o
	}
	body := append([]byte{}, w.buf.Bytes()...)
	// entries
	want := map[int]*Obj{}
	var ents []XEnt
	repaired := 0
	delta := int64(0)
	if shifted && r.P(80) {
		delta = -prefix // the writer did not know about the prefix
	}
	for _, nn := range sortedIntKeys(vers) {
		vs := vers[nn]
		o := vs[r.IntN(len(vs))]
		e := XEnt{N: nn, Off: o.Offset + delta, Gen: o.G}
		kind := r.IntN(10)
		if looks[nn] {
			kind = 9
			if delta != 0 || mode <= 3 {
				c.Skip() // which of the two is meant would be ambiguous
			}
		}
		switch {
		case kind == 0:
			c.Event("entry missing", 1)
			want[nn] = last[nn]
			repaired++
			continue
		case kind <= 3:
			size := int64(len(body))
			e.Off = Pick(r, 0, size+int64(r.IntN(100000)), o.Offset+1, o.Offset+int64(r.Range(1, 30)), o.Offset-int64(r.Range(1, 30)), r.Int64N(size), order[r.IntN(len(order))].Offset, 9999999999)
			if e.Off < 0 {
				e.Off = 0
			}
		}
		if kind <= 3 && r.P(20) {
			e.Gen = r.IntN(65536)
		}
		ents = append(ents, e)
		want[nn] = nil // decided below
	}
	byN := map[int]*XEnt{}
	for i := range ents {
		byN[ents[i].N] = &ents[i]
	}
	shiftBy := 0
	switch mode {
	case 0:
		ents = nil
		c.Event("no section at all", 1)
	case 2:
		// every entry is attributed to the next or previous number
		shiftBy = Pick(r, 1, -1)
		c.Event("subsection shifted", 1)
	}
	if shiftBy != 0 {
		moved := map[int]XEnt{}
		for _, e := range ents {
			nn := e.N + shiftBy
			if len(vers[nn]) == 0 {
				continue // only numbers of real objects are judged
			}
			e.N = nn
			moved[nn] = e
		}
		ents = nil
		for _, k := range sortedIntKeys(moved) {
			ents = append(ents, moved[k])
		}
	}
	// the section
	off := int64(0)
	var xobj *Obj
	var kept map[int]bool
	switch {
	case mode == 0:
		if len(trailer) > 0 {
			off = w.Table(nil, trailer)
		}
	case mode == 1 && len(ents) > 0:
		// the table claims more entries than it holds
		c.Event("table cut short", 1)
		lvl := w.level
		w.level = 0
		runs := w.runs(ents)
		w.freshLine()
		off = int64(w.buf.Len())
		w.nXref++
		w.buf.WriteString("xref\n")
		kept = map[int]bool{}
		cutRun := r.IntN(len(runs))
		for i, run := range runs {
			fmt.Fprintf(&w.buf, "%d %d\n", run[0].N, len(run))
			cut := len(run)
			if i == cutRun {
				cut = r.IntN(len(run))
			}
			for j, e := range run {
				if j < cut {
					kept[e.N] = true
					fmt.Fprintf(&w.buf, "%010d %05d n \n", e.Off, e.Gen)
				}
			}
			if i == cutRun {
				break
			}
		}
		w.buf.WriteString("trailer\n")
		s := w.spell()
		s.Val(trailer)
		w.buf.Write(s.Bytes())
		w.level = lvl
		w.gap()
	case mode == 3:
		c.Event("stream section damaged", 1)
		ref := d.Alloc()
		tr := Dict{}
		for k, v := range trailer {
			tr[k] = v
		}
		tr["Type"], tr["Size"] = Name("XRef"), Num(ref.N+1)
		switch r.IntN(4) {
		case 0:
			tr["W"] = Arr{Num(1), Num(4), Num(2)}
		case 1:
			tr["W"] = Arr{Num(1), Num(4)}
			tr["Index"] = Arr{Num(0), Num(3)}
		case 2:
			tr["W"] = Pick[Val](r, Arr{Num(0), Num(0), Num(0)}, Arr{Num(-1), Num(4), Num(2)}, Arr{Num(1), Num(1 << 30), Num(2)}, Name("W"), Num(3))
		}
		xobj = &Obj{N: ref.N, G: ref.G, V: tr, IsStream: true, NoEncrypt: true, PlainLen: true, Data: []byte{}, Encoded: []byte{}}
		w.Obj(xobj)
		off = xobj.Offset
		ents = nil
	case streamed:
		ref := d.Alloc()
		off, xobj = w.XStream(ref.N, ref.G, ents, trailer, r.P(70))
	default:
		trailer["Size"] = Num(100)
		off = w.Table(ents, trailer)
	}
	switch r.IntN(5) {
	case 0:
		c.Event("startxref missing", 1)
	case 1:
		c.Event("startxref wrong", 1)
		bad := Pick(r, 0, off+delta+1, off+500000, r.Int64N(int64(w.buf.Len())), 9999999999)
		if bad < 0 || (xobj != nil && leadsAny(w.buf.Bytes(), bad) && skipSpace(w.buf.Bytes(), bad) > xobj.Offset && bad < xobj.Offset+8) {
			bad = 0 // leading into the middle of the number of a cross-reference stream misnames it
		}
		w.StartXref(bad)
	default:
		w.StartXref(max(off+delta, 0))
	}
	data := append([]byte{}, w.buf.Bytes()...)
	sane := w.Sane()
	if len(looks) > 0 {
		found := map[int64]bool{}
		for _, m := range hdrRe.FindAllIndex(data, -1) {
			found[int64(m[0])] = true
		}
		sane = !w.misleads() && bytes.Count(data, []byte("xref")) == w.nXref && len(found) == len(w.hdrs)+fakes
		for _, h := range w.hdrs {
			sane = sane && found[h]
		}
	}
	if !sane {
		c.Skip()
	}
	has := map[int]XEnt{}
	for _, e := range ents {
		if kept == nil || kept[e.N] {
			has[e.N] = e
		}
	}
	for nn, vs := range vers {
		e, ok := has[nn]
		if !ok {
			want[nn] = last[nn]
			repaired++
			continue
		}
		if leads(data, e.Off, nn) {
			// the entry must lead to one of the real copies, with the right generation
			want[nn] = nil
			for _, o := range vs {
				if skipSpace(data, e.Off) == o.Offset && e.Gen == o.G {
					want[nn] = o
				}
			}
			if want[nn] == nil {
				c.Skip()
			}
			c.Event("entry right", 1)
			if want[nn] != last[nn] {
				c.Event("right entry to older copy", 1)
			}
			continue
		}
		c.Event("entry wrong", 1)
		want[nn] = last[nn]
		repaired++
	}
	if repaired > 0 {
		c.Sig(data)
	}
	c.Attach("entries.txt", []byte(fmt.Sprintf("%+v\nsection at %d delta %d mode %d\n", has, off, delta, mode)))
	p := c.LoadOK(d, data)
	for _, nn := range sortedIntKeys(vers) {
		c.CheckObj(p, want[nn])
	}
	if xobj != nil && mode != 3 {
		c.CheckObj(p, xobj)
	}
	c.Sample("%d objects, %d repaired, mode %d, delta %d", len(vers), repaired, mode, delta)
}

func skipSpace(b []byte, off int64) int64 {
	for off < int64(len(b)) {
		switch {
		case b[off] == '%':
			for off < int64(len(b)) && b[off] != '\n' && b[off] != '\r' {
				off++
			}
		case isWS(b[off]):
			off++
		default:
			return off
		}
	}
	return off
}

func sortedIntKeys[V any](m map[int]V) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sortInts(ks)
	return ks
}
