package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C05", Quick: 14000, Thorough: 280000, Run: runC05,
		Rule: "one file whose constructs were moved to chosen distances from 4096-byte read boundaries, or one file read through one chunking (hash of the file and the chunking)",
		Need: []string{"pads", "boundary inside object", "boundary inside gap", "boundary inside trailer", "shaped reads", "single byte reads", "streams compared", "values compared", "shifted files compared", "log lines compared", "objects in large tables"},
	})
}

// filler is separator text of exactly n bytes.
func filler(r *Rand, n int) string {
	var sb strings.Builder
	ws := func(k int) {
		for ; k > 0; k-- {
			sb.WriteString(Pick(r, " ", "\n", "\t", "\f", "\x00", "\r", " ", " "))
		}
	}
	comment := func(k int) { // k >= 2
		e := Pick(r, "\n", "\r", "\r\n")
		if len(e)+1 > k {
			e = "\n"
		}
		sb.WriteByte('%')
		sb.WriteString(strings.Repeat(Pick(r, "x", "(", ">", "%", "\\", "]", "/"), k-1-len(e)))
		sb.WriteString(e)
	}
	switch k := r.IntN(5); {
	case k == 0 || n < 4:
		ws(n)
	case k == 1:
		comment(n)
	case k == 2:
		a := r.IntN(n - 2)
		ws(a)
		comment(n - a)
	case k == 3:
		a := r.Range(2, n-2)
		comment(a)
		ws(n - a)
	default:
		for n > 0 {
			a := r.Range(2, 60)
			if a > n {
				a = n
			}
			if a < 2 || r.Bool() {
				ws(a)
			} else {
				comment(a)
			}
			n -= a
		}
	}
	return sb.String()
}

// boundaryPad puts read boundaries into what follows.
func boundaryPad(c *Ctx, pct int) func(w *FileW) string {
	r := c.R
	return func(w *FileW) string {
		if !r.P(pct) {
			return Pick(r, "", "", " ", "\n", "\r\n")
		}
		pos := int64(w.cur.buf.Len())
		var base int64
		switch w.place {
		case "object":
			base = int64(w.cur.lastNum)
			if r.P(40) {
				base = 0
			}
		case "gap":
			pos += int64(w.buf.Len())
			if r.Bool() {
				base = w.objEnd
			}
		default:
			base = int64(w.cur.lastNum)
		}
		k := int64(r.IntN(20)) - 1
		if r.P(30) {
			k = int64(r.IntN(120))
		}
		n := ((base-pos-k)%4096 + 4096) % 4096
		if r.P(5) {
			n += 4096
		}
		c.Event("pads", 1)
		c.Event("boundary inside "+w.place, 1)
		return filler(r, int(n))
	}
}

// edgeStr is a string that has something special near a multiple of 4096.
func edgeStr(r *Rand) string {
	n := 4096*r.Range(1, 2) - r.IntN(60)
	if r.P(30) {
		n /= 2 // for hexadecimal spelling
	}
	return strings.Repeat(Pick(r, "a", "Z", " ", "8"), n) + genStrBytes(r, 60) + string(byte(r.IntN(256)))
}

func edgeVal(r *Rand, refs []Ref) Val {
	switch r.IntN(8) {
	case 0, 1:
		return Str(edgeStr(r))
	case 2:
		n := 4096 - r.IntN(40)
		return Name(strings.Repeat("n", n) + genNameBytes(r))
	case 3:
		return Arr{Num(r.IntN(100)), Str(edgeStr(r)), GenVal(r, GenOpt{Depth: 1, Refs: refs, Dyadic: true})}
	case 4:
		return Kw(strings.Repeat("k", 4096-r.IntN(30)))
	}
	return GenVal(r, GenOpt{Depth: 2, Refs: refs, Dyadic: true, MaxStr: 60})
}

func shapes(c *Ctx, data []byte) *MemFile {
	r := c.R
	m := &MemFile{b: data}
	c.Event("shaped reads", 1)
	m.eof = r.P(30)
	switch r.IntN(7) {
	case 0:
		c.Event("single byte reads", 1)
		m.size = func(n int) int { return min(n, 1) }
	case 1:
		m.size = func(n int) int { return min(n, r.Range(1, 3)) }
	case 2:
		k := Pick(r, 2, 3, 5, 7, 8, 9, 11, 13, 16, 17, 64, 100, 255, 256, 257, 511, 1000, 2047, 4095)
		m.size = func(n int) int { return min(n, k) }
	case 3:
		m.size = func(n int) int { return r.Range(min(n, 1), n) }
	case 4: // some reads deliver nothing
		zero := 0
		m.size = func(n int) int {
			if zero < 50 && r.P(30) {
				zero++
				return 0
			}
			zero = 0
			return min(n, r.Range(1, 40))
		}
	case 5:
		m.size = func(n int) int {
			if r.P(50) {
				return min(n, 1)
			}
			return n
		}
	default:
		k := r.Range(1, 5000)
		m.size = func(n int) int { return min(n, k) }
	}
	return m
}

// readAll reads every object the parser knows.
func readAll(p *pdf.Parser) map[int]string {
	out := map[int]string{}
	for n, e := range p.Xref {
		if e.Type != pdf.XrefTypeIndirectObject {
			out[n] = fmt.Sprintf("type %d", e.Type)
			continue
		}
		o := p.GetObject(n)
		st := "no stream"
		if o.Stream != nil {
			st = fmt.Sprintf("stream %q", o.Stream)
		}
		var sb strings.Builder
		showTo(&sb, fromPDF(o.Value))
		out[n] = fmt.Sprintf("%d %d %s %s", o.Number, o.Generation, sb.String(), st)
	}
	return out
}

func (c *Ctx) sameObjects(got, want map[int]string, what string) {
	c.Eval()
	for _, n := range sortedIntKeys(want) {
		g, ok := got[n]
		if !ok {
			c.Fail("existence", "%s: object %d is not found", what, n)
		}
		if g != want[n] {
			c.Fail("difference", "%s: object %d: %s", what, n, firstDiff([]byte(g), []byte(want[n])))
		}
		c.Event("values compared", 1)
	}
	for _, n := range sortedIntKeys(got) {
		if _, ok := want[n]; !ok {
			c.Fail("existence", "%s: object %d appears", what, n)
		}
	}
}

func (c *Ctx) sameLog(got, want []string, what string) {
	sort.Strings(got)
	sort.Strings(want)
	c.Event("log lines compared", len(want))
	c.Check(strings.Join(got, "\n") == strings.Join(want, "\n"), "log", "%s: logged %d lines %.400q, otherwise %d lines %.400q", what, len(got), got, len(want), want)
}

func runC05(c *Ctx) {
	switch c.R.IntN(10) {
	case 0, 1, 2, 3, 4:
		c.paddedC05()
	case 5, 6, 7:
		c.shiftedC05()
	default:
		c.chunkedC05()
	}
}

func (c *Ctx) paddedC05() {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 1, 2))
	d.Clean = true
	maybeEnc(d, 15)
	d.bigNums = false
	var refs []Ref
	for i := r.Range(2, 9); i > 0; i-- {
		refs = append(refs, d.Alloc())
	}
	for _, ref := range refs {
		if r.P(35) {
			var data []byte
			switch r.IntN(3) {
			case 0:
				data = r.Data(r.SkewLen(300))
			case 1:
				data = r.Data(4096*r.Range(1, 2) - r.IntN(20) + 4)
			default:
				data = append(bytes.Repeat([]byte{'s'}, 4096-r.IntN(30)), Pick(r, "endstrea", "\r", "\n", "\r\n", "endstream", "\r\nendstreamendobj", "e", "")...)
			}
			o := d.PutStream(ref, Dict{inertKey(r): GenVal(r, GenOpt{Depth: 1, Dyadic: true})}, data)
			if r.Bool() {
				o.Encoded = data
				if data == nil {
					o.Encoded = []byte{}
				}
			}
		} else {
			d.Put(ref, edgeVal(r, refs))
		}
	}
	d.Kind = Pick(r, "table", "stream", "none")
	d.Pad = boundaryPad(c, Pick(r, 3, 8, 20))
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	c.Attach("in.pdf", data)
	p, err, log := c.LoadLog(bytes.NewReader(data), d.PasswordFixed())
	c.Check(err == nil, "load-error", "%v", err)
	for _, o := range d.All() {
		c.CheckObj(p, o)
	}
	c.sameLog(log(), nil, "padded clean file")
	c.Sig(data)
	// the same bytes in pieces
	m := shapes(c, data)
	p2, err, log2 := c.LoadLog(m, d.PasswordFixed())
	c.Check(err == nil, "load-error", "through a chunking reader: %v", err)
	c.sameObjects(readAll(p2), readAll(p), "through a chunking reader")
	c.sameLog(log2(), nil, "chunked")
	c.Sample("%s, %d bytes", d.Describe(), len(data))
}

// PasswordFixed is the user password without random choices.
func (d *Doc) PasswordFixed() string {
	if d.Enc != nil {
		return d.Enc.User
	}
	return ""
}

func (c *Ctx) shiftedC05() {
	r := c.R
	d := NewDoc(r, r.IntN(2))
	d.bigNums = false
	fillInert(d, r.IntN(6), GenOpt{Depth: 2, Dyadic: true}, true)
	for i := r.IntN(5); i > 0; i-- {
		a := &abn{c: c, r: r, s: &Spell{R: r, Level: d.Level}, must: map[string]bool{}, may: map[string]bool{}}
		a.value(r.IntN(3), false)
		d.Put(d.Alloc(), Null).Raw = append([]byte{}, a.s.Bytes()...)
	}
	d.Kind = "none"
	base, ok := d.Render()
	if !ok || len(d.Objs) == 0 {
		c.Skip()
	}
	objs := append([]*Obj{}, d.Objs...)
	sort.Slice(objs, func(i, j int) bool { return objs[i].Offset < objs[j].Offset })
	end := int64(len(base))
	type part struct{ head, rest []byte }
	var parts []part
	for i := len(objs) - 1; i >= 0; i-- {
		t := base[objs[i].Offset:end]
		end = objs[i].Offset
		k := hdrRe.FindIndex(t)
		if k == nil || k[0] != 0 {
			c.Skip()
		}
		parts = append([]part{{t[:k[1]], t[k[1]:]}}, parts...)
	}
	table := r.P(60)
	build := func(padded bool) []byte {
		var b bytes.Buffer
		b.Write(base[:end])
		offs := map[int]int64{}
		last := int64(0)
		for i, pt := range parts {
			if padded && r.P(70) {
				from := int64(0)
				if r.Bool() {
					from = last
				}
				n := (from - int64(b.Len()) - int64(r.IntN(len(pt.head)+3))) % 4096
				if r.P(30) {
					n = int64(r.IntN(9000))
				}
				b.WriteString(filler(r, int((n+4096)%4096)))
			}
			b.WriteString("\n")
			offs[i] = int64(b.Len())
			b.Write(pt.head)
			last = int64(b.Len())
			if padded && r.P(50) {
				n := 4096 - len(pt.head) - r.IntN(len(pt.rest)+2)
				if n < 0 || r.P(20) {
					n = r.IntN(5000)
				}
				b.WriteString(filler(r, n))
			}
			b.Write(pt.rest)
		}
		b.WriteString("\n")
		if table {
			x := b.Len()
			b.WriteString("xref\n")
			for i, o := range objs {
				fmt.Fprintf(&b, "%d 1\n%010d %05d n \n", o.N, offs[i], o.G)
			}
			fmt.Fprintf(&b, "trailer\n<< /Size %d >>\nstartxref\n%d\n%%%%EOF\n", objs[len(objs)-1].N+1, x)
		}
		return b.Bytes()
	}
	plain, moved := build(false), build(true)
	c.Attach("plain.pdf", plain)
	c.Attach("in.pdf", moved)
	p1, e1, l1 := c.LoadLog(bytes.NewReader(plain), "")
	r1 := readAll(p1)
	g1 := l1()
	p2, e2, l2 := c.LoadLog(bytes.NewReader(moved), "")
	r2 := readAll(p2)
	c.Check(e1 == nil && e2 == nil, "load-error", "%v %v", e1, e2)
	c.Check(len(r1) == len(objs), "existence", "%d of %d objects found", len(r1), len(objs))
	c.sameObjects(r2, r1, "after shifting")
	c.sameLog(l2(), g1, "after shifting")
	p3, e3, l3 := c.LoadLog(shapes(c, moved), "")
	c.Check(e3 == nil, "load-error", "%v", e3)
	c.sameObjects(readAll(p3), r1, "after shifting, in pieces")
	c.sameLog(l3(), g1, "after shifting, in pieces")
	c.Event("shifted files compared", 1)
	c.Sig(moved)
}

// chunkedC05 reads files with long histories or large tables in pieces.
func (c *Ctx) chunkedC05() {
	r := c.R
	var data []byte
	var objs []*Obj
	pw := ""
	if r.Bool() {
		h := genHist(c, r.Range(1, 5), r.IntN(3), r.P(20), plainObj)
		b, ok := h.render()
		if !ok {
			c.Skip()
		}
		data, objs, pw = b, h.live(), h.d.PasswordFixed()
	} else {
		d := NewDoc(r, r.IntN(2))
		n := r.Range(150, 500)
		for i := 0; i < n; i++ {
			d.Put(d.Alloc(), Pick[Val](r, Num(i), Str(fmt.Sprint(i)), Arr{Num(i)}))
		}
		d.Kind = Pick(r, "table", "stream")
		b, ok := d.Render()
		if !ok {
			c.Skip()
		}
		data, objs = b, d.All()
		c.Event("objects in large tables", n)
	}
	c.Attach("in.pdf", data)
	p1, e1, l1 := c.LoadLog(bytes.NewReader(data), pw)
	r1 := readAll(p1)
	g1 := l1()
	c.Check(e1 == nil, "load-error", "%v", e1)
	for _, o := range objs {
		c.CheckObj(p1, o)
	}
	p2, e2, l2 := c.LoadLog(shapes(c, data), pw)
	c.Check(e2 == nil, "load-error", "%v", e2)
	c.sameObjects(readAll(p2), r1, "in pieces")
	c.sameLog(l2(), g1, "in pieces")
	c.Sig(data, r.Uint64())
}
