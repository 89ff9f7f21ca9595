package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// Obj is one indirect object as it is meant to be.
type Obj struct {
	N, G     int
	V        Val
	IsStream bool
	Data     []byte // decoded stream data
	// encoding choices (filled in by prepare when Encoded is nil)
	Filters    []FilterUse
	Encoded    []byte
	MaxFilters int
	Preds      bool
	Crypt      string // Crypt filter override, "" for none
	Embedded   bool
	NoEncrypt  bool
	PlainLen   bool   // direct correct length, no references in the dictionary
	Raw        []byte // written verbatim between "obj" and "endobj" instead of V
	Unlisted   bool   // no cross-reference entry
	Dead       bool   // only a leftover of an object that is free
	Noise      bool   // Raw may contain anything, even what looks like structure

	prepared bool
	final    []byte // bytes written between stream and endstream
	eol      string
	Full     Val // the value as written (with Length, Filter, DecodeParms)
	Offset   int64
	End      int64 // where endobj ends
}

func (o *Obj) Ref() Ref { return Ref{o.N, o.G} }

// FileW assembles a file.
type FileW struct {
	r      *Rand
	buf    bytes.Buffer
	enc    *Enc
	level  int
	clean  bool
	pad    func() string
	hdrs   []int64
	nXref  int
	header string
	wrong  []int64    // where wrong declared lengths lead
	alloc  func() Ref // numbers for objects needed by streams (Length, Filter...)
	extra  []*Obj
	cur    *Spell // where the construct being written is
	objEnd int64  // where the last "obj" keyword ends
	place  string // what is being written: object, gap, trailer
	noise  [][2]int
}

func NewFileW(r *Rand, level int) *FileW {
	w := &FileW{r: r, level: level}
	w.buf.WriteString(Pick(r, "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n", "%PDF-1.4\n", "%PDF-1.5\r\n%\xff\xfe\xfd\xfc\r\n"))
	return w
}

func (w *FileW) spell() *Spell {
	w.cur = &Spell{R: w.r, Level: w.level, Clean: w.clean, Pad: w.pad}
	return w.cur
}

// prepare fixes the encoding of a stream object; needs w.alloc for indirect entries.
func (w *FileW) prepare(o *Obj) {
	if o.prepared {
		return
	}
	o.prepared = true
	o.Full = o.V
	if !o.IsStream {
		return
	}
	r := w.r
	d := Dict{}
	if vd, ok := o.V.(Dict); ok {
		for k, v := range vd {
			d[k] = v
		}
	}
	if o.Encoded == nil {
		o.Filters, o.Encoded = genFilters(r, o.Data, o.MaxFilters, o.Preds)
	}
	data := o.Encoded
	fs := append([]FilterUse{}, o.Filters...)
	if w.enc != nil && !o.NoEncrypt {
		override := "-"
		if o.Crypt != "" {
			override = o.Crypt
			f := FilterUse{Name: "Crypt", Parms: Dict{"Name": Name(o.Crypt)}}
			if o.Crypt == "Identity" && r.P(50) {
				f.Parms = nil
			} else if r.P(30) {
				f.Parms["Type"] = Name("CryptFilterDecodeParms")
			}
			fs = append([]FilterUse{f}, fs...)
		}
		data = w.enc.encryptWith(r, w.enc.streamMethod(override, o.Embedded), o.N, o.G, data)
	}
	o.final = data
	// Filter and DecodeParms
	indirect := func(v Val, pct int) Val {
		if w.alloc == nil || o.PlainLen || !r.P(pct) {
			return v
		}
		ref := w.alloc()
		w.extra = append(w.extra, &Obj{N: ref.N, G: ref.G, V: v})
		return ref
	}
	if len(fs) > 0 {
		anyParms := false
		var names, parms Arr
		for _, f := range fs {
			names = append(names, indirect(Name(f.Name), 5))
			if f.Parms != nil {
				anyParms = true
				p := Dict{}
				for k, v := range f.Parms {
					p[k] = indirect(v, 4)
				}
				parms = append(parms, indirect(p, 6))
			} else {
				parms = append(parms, Val(Null))
				if r.P(5) {
					// parameters the filter has no use for
					anyParms = true
					parms[len(parms)-1] = Dict{"X" + plainWord(r): Num(12)}
				}
			}
		}
		if len(fs) > 1 && r.P(30) {
			// the list of parameters may be shorter or longer than the list of filters
			for len(parms) > 0 && r.P(70) && parms[len(parms)-1] == Val(Null) {
				parms = parms[:len(parms)-1]
			}
			for len(parms) == len(fs) && r.P(20) {
				parms = append(parms, Pick[Val](r, Null, Dict{"Predictor": Num(12), "Columns": Num(3)}))
			}
		}
		if len(fs) == 1 && r.Bool() {
			d["Filter"] = indirect(names[0], 10)
			if _, isRef := names[0].(Ref); isRef {
				d["Filter"] = names[0]
			}
		} else {
			d["Filter"] = indirect(names, 10)
		}
		if anyParms {
			if len(fs) == 1 && r.Bool() {
				d["DecodeParms"] = parms[0]
			} else {
				d["DecodeParms"] = indirect(parms, 10)
			}
		} else if r.P(10) {
			d["DecodeParms"] = parms
		}
	}
	// Length and the line break before endstream
	n := len(data)
	endsEOL := n > 0 && (data[n-1] == '\n' || data[n-1] == '\r')
	safe := !bytes.Contains(data, []byte("endstream"))
	mode := r.IntN(10)
	if o.PlainLen {
		mode = 0
	}
	if w.alloc == nil && mode == 7 {
		mode = 0
	}
	o.eol = Pick(r, "\n", "\n", "\r\n", "\r", "")
	if mode >= 8 && safe {
		if o.eol == "" && endsEOL {
			o.eol = "\r\n"
		}
		if o.eol == "\n" && n > 0 && data[n-1] == '\r' {
			o.eol = "\r\n"
		}
		if mode == 9 {
			wrong := Pick[int64](r, 0, int64(n)+3, int64(n)+int64(r.Range(3, 5000)), int64(n)-1, int64(n)/2, 1<<31, -1, 1<<40)
			if wrong != int64(n) {
				d["Length"] = Num(wrong)
			}
		}
	} else if mode == 6 || mode == 7 {
		ref := Num(n)
		d["Length"] = Val(ref)
		if w.alloc != nil {
			d["Length"] = indirect(ref, 100)
		}
	} else {
		d["Length"] = Num(n)
	}
	o.Full = d
}

// Obj writes an object.
func (w *FileW) Obj(o *Obj) {
	w.prepare(o)
	w.freshLine()
	r := w.r
	o.Offset = int64(w.buf.Len())
	s := w.spell()
	w.place = "object"
	if w.enc != nil && !o.NoEncrypt {
		s.Str = func(b string) string { return w.enc.encryptString(r, o.N, o.G, b) }
	}
	if w.level == 0 && w.pad == nil {
		fmt.Fprintf(&s.buf, "%d %d obj", o.N, o.G)
	} else {
		fmt.Fprintf(&s.buf, "%d%s%d%sobj", o.N, s.Sep(true), o.G, s.Sep(true))
	}
	s.regular = true
	w.objEnd = o.Offset + int64(s.buf.Len())
	w.hdrs = append(w.hdrs, o.Offset)
	if o.Raw != nil {
		s.Raw("\n")
		s.Raw(string(o.Raw))
		if o.Noise {
			end := w.buf.Len() + s.buf.Len()
			w.noise = append(w.noise, [2]int{end - len(o.Raw), end})
		}
	} else {
		s.Val(o.Full)
	}
	if o.IsStream {
		s.Tok("stream")
		start := Pick(r, "\n", "\r\n")
		if w.level > 0 && !w.clean && r.P(5) {
			start = Pick(r, " \n", "\t \r\n", "\x00\n")
			if len(o.final) > 0 && o.final[0] != '\n' {
				start = "\r"
			}
		}
		s.Raw(start)
		if l, ok := o.Full.(Dict)["Length"].(Num); ok && int64(l) != int64(len(o.final)) {
			w.wrong = append(w.wrong, o.Offset+int64(s.buf.Len())+int64(l))
		}
		s.Raw(string(o.final))
		s.Raw(o.eol)
		s.Raw("endstream")
		s.regular = true
	}
	s.Tok("endobj")
	w.buf.Write(s.Bytes())
	o.End = int64(w.buf.Len())
	w.gap()
}

// freshLine ends the comment an end-of-file marker is.
func (w *FileW) freshLine() {
	if bytes.HasSuffix(w.buf.Bytes(), []byte("EOF")) {
		w.buf.WriteString("\n")
	}
}

// gap separates top-level constructs.
func (w *FileW) gap() {
	s := w.spell()
	w.place = "gap"
	s.regular = true
	t := s.Sep(true)
	if w.level == 0 && w.pad == nil {
		t = "\n"
	}
	w.buf.WriteString(t)
}

type XEnt struct {
	N    int
	Free bool
	Odd  int // type of a stream entry that is neither free nor in use
	Off  int64
	Gen  int
}

// runs splits entries (sorted by number) into subsections.
func (w *FileW) runs(ents []XEnt) [][]XEnt {
	sort.Slice(ents, func(i, j int) bool { return ents[i].N < ents[j].N })
	var out [][]XEnt
	for i, e := range ents {
		if i == 0 || e.N != ents[i-1].N+1 || (w.level > 0 && w.r.P(10)) {
			out = append(out, nil)
		}
		out[len(out)-1] = append(out[len(out)-1], e)
	}
	if w.level > 0 && w.r.P(20) {
		w.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

// Table writes a cross-reference table and trailer and returns its offset.
func (w *FileW) Table(ents []XEnt, trailer Dict) int64 {
	r := w.r
	w.freshLine()
	off := int64(w.buf.Len())
	w.nXref++
	eol := "\n"
	if w.level > 0 {
		eol = Pick(r, "\n", "\r\n", "\r")
	}
	w.buf.WriteString("xref" + eol)
	entEol := Pick(r, " \n", " \r", "\r\n")
	runs := w.runs(ents)
	if len(runs) == 0 && r.Bool() {
		w.buf.WriteString("0 0" + eol)
	}
	for _, run := range runs {
		if w.level > 0 && r.P(4) { // nothing
			fmt.Fprintf(&w.buf, "%d 0%s", Pick(r, 0, run[0].N, r.IntN(100)), eol)
		}
		fmt.Fprintf(&w.buf, "%d %d%s", run[0].N, len(run), eol)
		for _, e := range run {
			f := "n"
			if e.Free {
				f = "f"
			}
			fmt.Fprintf(&w.buf, "%010d %05d %s%s", e.Off, e.Gen, f, entEol)
		}
	}
	s := w.spell()
	w.place = "trailer"
	s.Raw("trailer")
	s.regular = true
	if w.level == 0 {
		s.Raw("\n")
	}
	s.Val(trailer)
	w.buf.Write(s.Bytes())
	w.gap()
	return off
}

// XStream writes a cross-reference stream as object n g and returns its offset.
// self tells whether it lists itself.
func (w *FileW) XStream(n, g int, ents []XEnt, trailer Dict, self bool) (int64, *Obj) {
	r := w.r
	w.freshLine()
	off := int64(w.buf.Len())
	ents = append([]XEnt{}, ents...)
	if self {
		ents = append(ents, XEnt{N: n, Off: off, Gen: g})
	}
	runs := w.runs(ents)
	var maxOff, maxGen int64
	allUsed := true
	odd := false
	for _, e := range ents {
		odd = odd || e.Odd > 255
		if e.Off > maxOff {
			maxOff = e.Off
		}
		if int64(e.Gen) > maxGen {
			maxGen = int64(e.Gen)
		}
		if e.Free {
			allUsed = false
		}
	}
	need := func(v int64) int {
		k := 0
		for v > 0 {
			k++
			v >>= 8
		}
		return k
	}
	w0 := r.Range(1, 2)
	if odd {
		w0 = 2
	}
	if allUsed && r.P(40) {
		w0 = 0
	}
	w1 := need(maxOff)
	if r.P(50) {
		w1 = r.Range(w1, 8)
	}
	if r.P(3) {
		w1 = r.Range(9, 20) // leading zeros
	}
	w2 := need(maxGen)
	if r.P(50) {
		w2 = r.Range(w2, 4)
	}
	if w0+w1+w2 == 0 {
		w1 = 1
	}
	var data []byte
	put := func(v int64, k int) {
		for i := k - 1; i >= 0; i-- {
			data = append(data, byte(v>>uint(8*i))) // zero beyond 64 bits
		}
	}
	var index Arr
	size := n + 1
	for _, run := range runs {
		if w.level > 0 && r.P(4) { // nothing
			index = append(index, Num(Pick(r, 0, run[0].N, r.IntN(100))), Num(0))
		}
		index = append(index, Num(run[0].N), Num(len(run)))
		for _, e := range run {
			t := int64(1)
			if e.Free {
				t = int64(e.Odd)
			}
			put(t, w0)
			put(e.Off, w1)
			put(int64(e.Gen), w2)
			if e.N+1 > size {
				size = e.N + 1
			}
		}
	}
	d := Dict{"Type": Name("XRef"), "W": Arr{Num(w0), Num(w1), Num(w2)}, "Size": Num(size)}
	for k, v := range trailer {
		d[k] = v
	}
	if len(runs) == 1 && runs[0][0].N == 0 && r.P(60) {
		d["Size"] = Num(len(runs[0]))
	} else {
		if index == nil {
			index = Arr{}
		}
		d["Index"] = index
	}
	o := &Obj{N: n, G: g, V: d, IsStream: true, Data: data, NoEncrypt: true, PlainLen: true}
	switch r.IntN(4) {
	case 0:
		o.Encoded = data
		if data == nil {
			o.Encoded = []byte{}
		}
	case 1, 2:
		p := Pred{Predictor: Pick(r, 10, 12, 12, 12, 15, 2), Colors: 1, Bits: 8, Columns: w0 + w1 + w2}
		o.Filters = []FilterUse{{Name: Pick(r, "FlateDecode", "FlateDecode", "LZWDecode"), Parms: p.parms(r)}}
		o.Encoded = encodeFor(r, data, &o.Filters[0], &p, true)
	default:
		o.Filters, o.Encoded = genFilters(r, data, 2, true)
	}
	w.Obj(o)
	return off, o
}

func (w *FileW) StartXref(off int64) {
	r := w.r
	w.nXref++
	eol := "\n"
	if w.level > 0 {
		eol = Pick(r, "\n", "\r\n", "\r")
	}
	fmt.Fprintf(&w.buf, "startxref%s%d%s%%%%EOF%s", eol, off, eol, Pick(r, eol, "", eol+eol))
}

// Tail adds what mailers, servers and padding leave behind the end of a file.
func (w *FileW) Tail() {
	r := w.r
	b := Pick(r, "\n", "\r\n") + Pick(r, strings.Repeat("\x00", r.Range(1, 190)), strings.Repeat(" ", r.Range(1, 190)), strings.Repeat("\r\n", r.Range(1, 90)), "% "+strings.Repeat("appended ", r.Range(1, 19)),
		"--boundary_"+strings.Repeat("=", r.Range(1, 150))+"--\r\n")
	w.buf.WriteString(b)
}

var hdrRe = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)

var endRe = regexp.MustCompile(`^[\r\n]{0,2}endstream`)

// Sane tells whether the bytes contain only the object headers and xref keywords that were meant.
func (w *FileW) Sane() bool {
	b := w.buf.Bytes()
	if len(w.noise) > 0 {
		b = append([]byte{}, b...)
		for _, n := range w.noise {
			for i := n[0]; i < n[1]; i++ {
				b[i] = '.'
			}
		}
	}
	if bytes.Count(b, []byte("xref")) != w.nXref {
		return false
	}
	if w.misleads() {
		return false
	}
	// bytes that look like a header to the expression only do not matter unless they hide one
	next := 0
	for _, m := range hdrRe.FindAllIndex(b, -1) {
		if next < len(w.hdrs) && int64(m[0]) == w.hdrs[next] {
			next++
		} else if strictHdrRe.Match(b[m[0]:]) {
			return false
		}
	}
	return next == len(w.hdrs)
}

// misleads tells whether a wrong length leads to the end of another stream by accident.
func (w *FileW) misleads() bool {
	b := w.buf.Bytes()
	for _, e := range w.wrong {
		if e >= 0 && e < int64(len(b)) && endRe.Match(b[e:]) {
			return true
		}
	}
	return false
}

// strictHdrRe matches what reads as an object header: comments end with the line.
var strictHdrRe = regexp.MustCompile(`^\d+([\s\x00]|(%[^\r\n]*[\r\n]))+\d+([\s\x00]|(%[^\r\n]*[\r\n]))+obj([\s\x00()<>\[\]/%]|$)`)

// ------------------------------------------------------------ whole documents

// Doc is a single-section document under construction.
type Doc struct {
	r       *Rand
	Objs    []*Obj
	Free    []Ref // free entries listed in the cross-reference section
	Trailer Dict
	Enc     *Enc
	Level   int
	Clean   bool
	Kind    string // table, stream, none, "" = any of the first two
	next    int
	sparse  bool
	gens    bool
	bigNums bool
	XRefObj *Obj // the cross-reference stream, if one was written
	W       *FileW
	EncObj  *Obj
	Pad     func(w *FileW) string       // chooses separators
	nulls   []string                    // trailer entries that are null
	MutEnc  func(encrypt, trailer Dict) // damages the encryption dictionary
}

func NewDoc(r *Rand, level int) *Doc {
	d := &Doc{r: r, Level: level, Trailer: Dict{}, next: 1}
	d.sparse = r.P(40)
	d.gens = r.P(40)
	d.bigNums = r.P(5)
	return d
}

// scatterEnc writes entries of the encryption dictionary as objects of their own; strings stay,
// nobody can tell whether they would have to be encrypted elsewhere.
func (d *Doc) scatterEnc(ed Dict) {
	pct := Pick(d.r, 15, 50, 100)
	for _, k := range sortedKeys(ed) {
		switch v := ed[k].(type) {
		case Str:
		case Dict:
			m := Dict{}
			for _, k := range sortedKeys(v) {
				m[k] = v[k]
				if f, ok := v[k].(Dict); ok {
					g := Dict{}
					for _, k := range sortedKeys(f) {
						g[k] = d.Maybe(f[k], pct)
					}
					m[k] = d.Maybe(g, pct)
				}
			}
			ed[k] = d.Maybe(m, pct)
		default:
			ed[k] = d.Maybe(v, pct)
		}
	}
}

// Alloc reserves an object number.
func (d *Doc) Alloc() Ref {
	n := d.next
	if d.sparse && d.r.P(40) {
		n += d.r.Range(1, 6)
		if d.r.P(10) {
			n += d.r.Range(1, 600)
		}
		if d.bigNums && d.r.P(20) {
			n += d.r.Range(1, 1<<20)
		}
	}
	d.next = n + 1
	g := 0
	if d.gens && d.r.P(40) {
		g = Pick(d.r, 1, 2, 255, 256, 257, 65535, d.r.Range(0, 65535))
	}
	return Ref{n, g}
}

func (d *Doc) Put(ref Ref, v Val) *Obj {
	o := &Obj{N: ref.N, G: ref.G, V: v}
	d.Objs = append(d.Objs, o)
	return o
}

func (d *Doc) Add(v Val) Ref {
	ref := d.Alloc()
	d.Put(ref, v)
	return ref
}

func (d *Doc) PutStream(ref Ref, dict Dict, data []byte) *Obj {
	o := &Obj{N: ref.N, G: ref.G, V: dict, IsStream: true, Data: data, MaxFilters: 2, Preds: true}
	d.Objs = append(d.Objs, o)
	return o
}

func (d *Doc) AddStream(dict Dict, data []byte) *Obj {
	return d.PutStream(d.Alloc(), dict, data)
}

// Maybe returns v itself or a reference to a new object holding it.
func (d *Doc) Maybe(v Val, pct int) Val {
	if d.r.P(pct) {
		return d.Add(v)
	}
	return v
}

func (d *Doc) Find(n int) *Obj {
	for _, o := range d.Objs {
		if o.N == n {
			return o
		}
	}
	return nil
}

// Render writes the document. ok is false if bytes that merely look like
// structure appeared by accident (the caller then skips the case).
func (d *Doc) Render() (data []byte, ok bool) {
	r := d.r
	w := NewFileW(r, d.Level)
	w.clean = d.Clean
	w.enc = d.Enc
	w.alloc = d.Alloc
	d.W = w
	w.pad = nil
	if d.Pad != nil {
		w.pad = func() string { return d.Pad(w) }
	}
	trailer := Dict{}
	for k, v := range d.Trailer {
		trailer[k] = v
	}
	if d.Enc != nil {
		ed := d.Enc.dict(r)
		if r.P(60) {
			ref := d.Alloc()
			d.EncObj = d.Put(ref, ed)
			d.EncObj.NoEncrypt = true
			trailer["Encrypt"] = ref
		} else {
			trailer["Encrypt"] = ed
		}
		trailer["ID"] = d.Enc.idArray(d.r)
		if d.MutEnc != nil {
			d.MutEnc(ed, trailer)
		} else if r.P(25) {
			d.scatterEnc(ed)
		}
	}
	// an entry that is null is no entry, every rendering has the same ones
	if d.nulls == nil && d.Kind != "none" {
		d.nulls = []string{}
		sum := 0
		for i, o := range d.Objs {
			sum += (i + 1) * (o.N + o.G)
		}
		if rn := NewRand(uint64(sum), "null entries", uint64(len(d.Objs))); rn.P(4) {
			for _, k := range []string{"Encrypt", "Prev", "XRefStm", "Info", "ID"} {
				if _, ok := trailer[k]; !ok && rn.Bool() {
					d.nulls = append(d.nulls, k)
				}
			}
		}
	}
	for _, k := range d.nulls {
		trailer[k] = Null
	}
	for _, o := range d.Objs {
		w.prepare(o)
	}
	d.Objs = append(d.Objs, w.extra...)
	order := append([]*Obj{}, d.Objs...)
	if r.P(50) {
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	for _, o := range order {
		w.Obj(o)
	}
	var ents []XEnt
	if r.P(70) {
		ents = append(ents, XEnt{N: 0, Free: true, Gen: 65535})
	}
	max := 0
	for _, o := range d.Objs {
		if !o.Unlisted {
			ents = append(ents, XEnt{N: o.N, Off: o.Offset, Gen: o.G})
		}
		if o.N > max {
			max = o.N
		}
	}
	for _, f := range d.Free {
		ents = append(ents, XEnt{N: f.N, Gen: f.G, Free: true})
		if f.N > max {
			max = f.N
		}
	}
	kind := d.Kind
	if kind == "" {
		kind = Pick(r, "table", "table", "stream")
	}
	switch kind {
	case "table":
		trailer["Size"] = Num(max + 1)
		off := w.Table(ents, trailer)
		w.StartXref(off)
	case "stream":
		ref := d.Alloc()
		off, o := w.XStream(ref.N, ref.G, ents, trailer, r.P(70))
		d.XRefObj = o
		w.StartXref(off)
	case "none":
		if len(trailer) > 0 {
			// a trailer without any entries is still needed to find the root or the encryption dictionary
			trailer["Size"] = Num(max + 1)
			off := w.Table(nil, trailer)
			w.StartXref(off)
		}
	}
	return append([]byte{}, w.buf.Bytes()...), w.Sane()
}

// All returns every object a reader should find, including the cross-reference stream.
func (d *Doc) All() []*Obj {
	all := append([]*Obj{}, d.Objs...)
	if d.XRefObj != nil {
		all = append(all, d.XRefObj)
	}
	return all
}

func (d *Doc) Password() string {
	if d.Enc != nil {
		return d.Enc.User
	}
	return Pick(d.r, "", "", plainWord(d.r))
}

// Describe gives a short description for samples.
func (d *Doc) Describe() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d objects", len(d.Objs))
	if d.XRefObj != nil {
		sb.WriteString(", xref stream")
	}
	if d.Enc != nil {
		sb.WriteString(", " + d.Enc.Explain)
	}
	return sb.String()
}
