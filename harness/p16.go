package main

import (
	"bytes"
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C16", Quick: 30000, Thorough: 600000, Run: runC16,
		Rule: "one document whose contents.txt was compared with the text its page contents show (hash of the file)",
		Need: []string{"Tj", "'", "\"", "TJ", "lines expected", "pages", "contents split over streams", "splits inside a text object", "splits inside operands", "inherited resources", "resources that are null", "font changes", "q/Q", "deeply saved states", "contents split over dozens of streams", "long contents", "nodes with dozens of kids", "kids without text", "dozens of fonts on a page", "inline images", "shared pages contents"},
	})
	register(&Prop{
		ID: "C17", Quick: 30000, Thorough: 600000, Run: runC17,
		Rule: "one document with fonts whose ToUnicode maps decide the expected text (hash of the file)",
		Need: []string{"codes mapped by bfchar", "codes mapped by bfrange", "codes mapped by array", "codes in large ranges", "codes unmapped", "width 1", "width 2", "width 3", "width 4", "fonts without a map", "carries", "lines expected"},
	})
}

// cmapM is a ToUnicode map as meant.
type cmapM struct {
	width  int
	single map[uint64]string
	kind   map[uint64]string
	ranges []cmapRange
}

type cmapRange struct {
	lo, hi uint64
	dst    string
	kind   string
}

func addBE(s string, n uint64) (string, bool) {
	b := []byte(s)
	carried := false
	for i := len(b) - 1; i >= 0 && n > 0; i-- {
		n += uint64(b[i])
		b[i] = byte(n)
		n >>= 8
		if n > 0 {
			carried = true
		}
	}
	return string(b), carried
}

func be(code uint64, width int) string {
	b := make([]byte, width)
	for i := width - 1; i >= 0; i-- {
		b[i] = byte(code)
		code >>= 8
	}
	return string(b)
}

func (m *cmapM) taken(lo, hi uint64) bool {
	for _, r := range m.ranges {
		if lo <= r.hi && hi >= r.lo {
			return true
		}
	}
	if hi-lo > 5000 {
		for k := range m.single {
			if k >= lo && k <= hi {
				return true
			}
		}
		return false
	}
	for k := lo; k <= hi; k++ {
		if _, ok := m.single[k]; ok {
			return true
		}
	}
	return false
}

// decode is the oracle: s is a whole number of codes.
func (m *cmapM) decode(c *Ctx, s string) string {
	if m == nil {
		return s
	}
	var out strings.Builder
next:
	for i := 0; i+m.width <= len(s); i += m.width {
		var k uint64
		for j := 0; j < m.width; j++ {
			k = k<<8 | uint64(s[i+j])
		}
		if v, ok := m.single[k]; ok {
			c.Event("codes mapped by "+m.kind[k], 1)
			out.WriteString(v)
			continue
		}
		for _, r := range m.ranges {
			if k >= r.lo && k <= r.hi {
				v, carried := addBE(r.dst, k-r.lo)
				if carried {
					c.Event("carries", 1)
				}
				if r.hi-r.lo >= 256 {
					c.Event("codes in large ranges", 1)
				}
				c.Event("codes mapped by bfrange", 1)
				out.WriteString(v)
				continue next
			}
		}
		c.Event("codes unmapped", 1)
		out.WriteString(s[i : i+m.width])
	}
	return out.String()
}

func (m *cmapM) max() uint64 {
	if m.width >= 8 {
		return 1<<63 - 1
	}
	return 1<<(8*uint(m.width)) - 1
}

// code picks a code worth showing.
func (m *cmapM) code(r *Rand) uint64 {
	switch r.IntN(10) {
	case 0:
		return r.Uint64() & m.max()
	case 1, 2, 3:
		if len(m.single) > 0 {
			n := r.IntN(len(m.single))
			// map order must not influence the case
			best, have := uint64(0), false
			pivot := r.Uint64() & m.max()
			_ = n
			for k := range m.single {
				if k >= pivot && (!have || k < best) {
					best, have = k, true
				}
			}
			if have {
				return best
			}
			for k := range m.single {
				if !have || k < best {
					best, have = k, true
				}
			}
			return best
		}
	}
	if len(m.ranges) > 0 {
		g := m.ranges[r.IntN(len(m.ranges))]
		switch r.IntN(6) {
		case 0:
			return g.lo
		case 1:
			return g.hi
		case 2:
			if g.lo > 0 {
				return g.lo - 1
			}
		case 3:
			if g.hi < m.max() {
				return g.hi + 1
			}
		}
		return g.lo + r.Uint64N(g.hi-g.lo+1)
	}
	return r.Uint64() & m.max()
}

func genDst(r *Rand) string {
	n := Pick(r, 2, 2, 2, 2, 4, 1, 1, 3, 6, 8)
	b := r.Bytes(n)
	if r.P(40) {
		for i := range b {
			b[i] = byte(r.Range(' ', '~'))
		}
	}
	if r.P(10) {
		b[n-1] = Pick[byte](r, 0xff, 0xfe, 0xf0)
	}
	if r.P(25) {
		// bytes that could be taken for something else
		for i := range b {
			if r.P(60) {
				b[i] = Pick[byte](r, 0, 0, 0, ' ', '\n', '\r', '(', ')', '\\', '<', '>', 0xfe, 0xff, 0xd8, 0x80)
			}
		}
	}
	return string(b)
}

// genCMap makes a map and a program that defines it.
func genCMap(r *Rand, entries int) (*cmapM, []byte) {
	m := &cmapM{width: Pick(r, 1, 1, 2, 2, 2, 2, 3, 4), single: map[uint64]string{}, kind: map[uint64]string{}}
	level := r.IntN(3)
	s := &Spell{R: r, Level: level}
	word := func(ts ...string) {
		for _, t := range ts {
			s.Tok(t)
		}
	}
	if r.P(70) {
		word("/CIDInit", "/ProcSet", "findresource", "begin", "12", "dict", "begin", "begincmap", "/CIDSystemInfo")
		s.Val(Dict{"Registry": Str("Adobe"), "Ordering": Str("UCS"), "Supplement": Num(0)})
		word("def", "/CMapName", "/Adobe-Identity-UCS", "def", "/CMapType", "2", "def")
	}
	if r.P(70) {
		word("1", "begincodespacerange")
		s.Tok(s.HexString(be(0, m.width)))
		s.Tok(s.HexString(be(m.max(), m.width)))
		word("endcodespacerange")
	}
	room := func(lo, hi uint64) bool { return hi >= lo && hi <= m.max() && !m.taken(lo, hi) }
	pick := func() uint64 {
		if r.P(70) {
			return uint64(r.IntN(300+4*entries)) & m.max()
		}
		return r.Uint64() & m.max()
	}
	manyValues := false
	left := entries
	for left > 0 {
		n := r.Range(1, 20)
		if r.P(10) {
			n = r.Range(1, 120)
		}
		if r.P(6) {
			n = r.Range(100, 700)
		}
		if n > left {
			n = left
		}
		left -= n
		type item struct {
			toks []func()
		}
		var items []func()
		isChar := r.Bool()
		for i := 0; i < n; i++ {
			if isChar {
				k := pick()
				if !room(k, k) {
					continue
				}
				d := genDst(r)
				m.single[k], m.kind[k] = d, "bfchar"
				items = append(items, func() { s.Tok(s.HexString(be(k, m.width))); s.Tok(s.HexString(d)) })
				continue
			}
			lo := pick()
			span := uint64(r.IntN(20))
			if r.P(15) {
				span = Pick[uint64](r, 0, 1, 254, 255, 256, 257, 300, 1000, 65535, 1<<20)
			}
			if r.P(1) {
				lo, span = 0, m.max()
			}
			hi := lo + span
			if !room(lo, hi) {
				continue
			}
			if r.P(2) {
				span = uint64(r.Range(256, 900))
				if hi = lo + span; !room(lo, hi) {
					continue
				}
				manyValues = true
			}
			if (span < 300 && r.P(40)) || manyValues {
				manyValues = false
				var a Arr
				for k := lo; k <= hi; k++ {
					d := genDst(r)
					m.single[k], m.kind[k] = d, "array"
					a = append(a, Str(d))
				}
				items = append(items, func() {
					s.Tok(s.HexString(be(lo, m.width)))
					s.Tok(s.HexString(be(hi, m.width)))
					s.Tok("[")
					for _, d := range a {
						s.Tok(s.HexString(string(d.(Str))))
					}
					s.Tok("]")
				})
				continue
			}
			d := genDst(r)
			if v, _ := addBE(d, span); span > 0 && v < d {
				// keep the last destination from wrapping around
				d = "\x00\x00\x00\x00" + d
			}
			m.ranges = append(m.ranges, cmapRange{lo, hi, d, "bfrange"})
			items = append(items, func() {
				s.Tok(s.HexString(be(lo, m.width)))
				s.Tok(s.HexString(be(hi, m.width)))
				s.Tok(s.HexString(d))
			})
		}
		if len(items) == 0 && r.Bool() {
			continue
		}
		s.Tok(fmt.Sprint(len(items)))
		if isChar {
			s.Tok("beginbfchar")
		} else {
			s.Tok("beginbfrange")
		}
		for _, f := range items {
			f()
		}
		if isChar {
			s.Tok("endbfchar")
		} else {
			s.Tok("endbfrange")
		}
		if r.P(5) {
			s.Raw("\n%" + strings.Repeat("x", r.Range(3900, 4200)) + "\n")
		}
	}
	if len(m.single) == 0 && len(m.ranges) == 0 {
		// nothing tells the width of the codes
		m.width = 1
	}
	word("endcmap", "CMapName", "currentdict", "/CMap", "defineresource", "pop", "end", "end")
	return m, s.Bytes()
}

// book builds pages and the text they show.
type book struct {
	c       *Ctx
	r       *Rand
	d       *Doc
	entries int // size of maps
	maps    []*cmapM
	fonts   []Val // font values usable in resources, parallel to maps
	texts   []string
	streams []Ref
	nPages  int
	progs   []contentProg
}

type contentProg struct {
	val   Val
	fonts map[string]*cmapM // programs may only be shared between pages with the same resources
	lines []string
}

func (b *book) maybe(v Val, pct int) Val {
	if b.r.P(pct) {
		v = b.d.Add(v)
		if b.r.P(10) {
			v = b.d.Add(v)
		}
	}
	return v
}

func (b *book) newFont() {
	r := b.r
	f := Dict{"Type": Name("Font"), "Subtype": Name(Pick(r, "Type0", "Type1", "TrueType", "Type3")), "BaseFont": Name("X" + plainWord(r))}
	var m *cmapM
	if r.P(70) {
		var prog []byte
		m, prog = genCMap(r, r.SkewLen(b.entries))
		b.c.Event(fmt.Sprintf("width %d", m.width), 1)
		ref := b.d.AddStream(Dict{}, prog).Ref()
		if r.P(10) {
			ref = b.d.Add(ref)
		}
		f["ToUnicode"] = ref
	} else {
		b.c.Event("fonts without a map", 1)
		if r.P(20) {
			f["ToUnicode"] = Name("Identity-H")
		}
		if r.P(20) {
			f["Encoding"] = Name("WinAnsiEncoding")
		}
	}
	b.maps = append(b.maps, m)
	b.fonts = append(b.fonts, b.maybe(f, 60))
}

// resources makes a resource dictionary and tells what its fonts are.
func (b *book) resources() (Val, map[string]*cmapM) {
	r := b.r
	names := map[string]*cmapM{}
	fd := Dict{}
	k := r.IntN(5)
	many := r.P(2)
	if many {
		k = r.Range(20, 150)
		b.c.Event("dozens of fonts on a page", 1)
	}
	for i := k; i > 0; i-- {
		n := fmt.Sprintf("F%d", r.IntN(6))
		if many {
			n = fmt.Sprintf("%s%d", Pick(r, "F", "TT", "C2_"), r.IntN(300))
		}
		if r.P(10) {
			n = genNameBytes(r)
		}
		j := r.IntN(len(b.fonts))
		fd[n] = b.fonts[j]
		names[n] = b.maps[j]
	}
	res := Dict{}
	if len(fd) > 0 || r.Bool() {
		res["Font"] = b.maybe(fd, 30)
	}
	if r.P(30) {
		res["ProcSet"] = Arr{Name("PDF"), Name("Text")}
	}
	return b.maybe(res, 40), names
}

// piece is a string to show in the given font and what must come out.
func (b *book) piece(m *cmapM) (string, string) {
	r := b.r
	if m == nil || (len(m.single) == 0 && len(m.ranges) == 0) {
		t := genStrBytes(r, 200)
		if r.P(10) {
			t = Pick(r, "BT", "ET", "(ET)", "Tj", "endstream", ") Tj ET", "<FE>", "%x")
		}
		return t, t
	}
	n := r.IntN(8)
	if r.P(5) {
		n = r.IntN(200)
		if r.P(3) {
			n = Pick(r, r.Range(200, 5000), 33000, 70000)
		}
	}
	var sb strings.Builder
	for ; n > 0; n-- {
		sb.WriteString(be(m.code(r), m.width))
	}
	s := sb.String()
	return s, m.decode(b.c, s)
}

// program writes a content program; it returns its bytes, the places it may be cut, and the lines it shows.
func (b *book) program(fonts map[string]*cmapM, ops int) ([]byte, []int, []string) {
	r, c := b.r, b.c
	s := &Spell{R: r, Level: r.IntN(3)}
	var lines []string
	var cur *cmapM
	var stack []*cmapM
	names := sortedKeys(fonts)
	num := func() { s.Val(genNum(r, true)) }
	word := func(t string) { s.Tok(t) }
	var opaque [][2]int
	tf := func() {
		n := "F" + fmt.Sprint(r.IntN(6))
		if len(names) > 0 && r.P(85) {
			n = names[r.IntN(len(names))]
		}
		s.Val(Name(n))
		num()
		word("Tf")
		cur = fonts[n]
		c.Event("font changes", 1)
	}
	marked := func() {
		switch r.IntN(3) {
		case 0:
			s.Val(Name("Span"))
			s.Val(Dict{"ActualText": Str(Pick(r, "ET", "(x) Tj", "hidden")), "MCID": Num(3), "Lang": Arr{Str("en"), Name("Tf")}})
			word("BDC")
		case 1:
			s.Val(Name("P"))
			word("BMC")
		default:
			word("EMC")
		}
	}
	show := func(shown bool) {
		in, out := b.piece(cur)
		op := Pick(r, "Tj", "Tj", "'", "\"", "TJ", "TJ")
		switch op {
		case "TJ":
			out = ""
			s.Tok("[")
			n := r.IntN(6)
			if r.P(5) {
				n = r.IntN(60)
			}
			for i := 0; i < n; i++ {
				if r.P(40) {
					num()
					continue
				}
				in, o := b.piece(cur)
				s.Val(Str(in))
				out += o
			}
			s.Tok("]")
		case "\"":
			num()
			num()
			s.Val(Str(in))
		default:
			s.Val(Str(in))
		}
		word(op)
		if shown {
			lines = append(lines, out)
			c.Event(op, 1)
		} else {
			c.Event("text outside of text objects", 1)
		}
	}
	for ; ops > 0; ops-- {
		switch r.IntN(12) {
		case 0:
			if r.P(2) { // deep, back up with text on the way
				n := r.Range(20, 200)
				for i := 0; i < n; i++ {
					word("q")
					stack = append(stack, cur)
					if r.P(30) {
						tf()
					}
				}
				for i := r.Range(n/2, n); i > 0; i-- {
					word("Q")
					cur = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if r.P(20) {
						word("BT")
						show(true)
						word("ET")
					}
				}
				c.Event("deeply saved states", 1)
			}
			word("q")
			stack = append(stack, cur)
			if r.Bool() {
				for i := 0; i < 6; i++ {
					num()
				}
				word("cm")
			}
			c.Event("q/Q", 1)
		case 1:
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				word("Q")
			}
		case 2:
			switch r.IntN(5) {
			case 0:
				for i := 0; i < 4; i++ {
					num()
				}
				word("re")
				word(Pick(r, "f", "f*", "B*", "W", "n"))
			case 1:
				s.Val(Name("GS0"))
				word("gs")
			case 2:
				s.Val(Name("Im0"))
				word("Do")
			case 3:
				s.Val(Arr{Num(3), Num(2)})
				num()
				word("d")
			default:
				s.Val(Name("DeviceRGB"))
				word("cs")
			}
		case 3:
			marked()
		case 4:
			tf()
		case 5:
			if r.P(40) {
				word("BI")
				s.Val(Name("W"))
				s.Val(Num(r.IntN(100)))
				s.Val(Name("F"))
				s.Val(Arr{Name("AHx")})
				at := s.buf.Len()
				word("ID")
				data := r.Data(r.SkewLen(300))
				for _, w := range []string{" BT (no) Tj ET ", "(", "<<", "[", "%", " ET ", " EIx ", "xEI "} {
					if r.P(20) {
						p := r.IntN(len(data) + 1)
						data = append(append(append([]byte{}, data[:p]...), w...), data[p:]...)
					}
				}
				data = append(data, Pick(r, " ", "\n", "\r\n", ">")...)
				if imageEnd(append([]byte{' '}, data...)) {
					data = []byte("x\n")
				}
				s.Raw(Pick(r, " ", "\n", "\r\n"))
				s.Raw(string(data))
				s.Raw("EI")
				opaque = append(opaque, [2]int{at, s.buf.Len()})
				s.regular = true
				s.Raw(Pick(r, " ", "\n"))
				c.Event("inline images", 1)
			}
		case 6:
			if r.P(15) {
				show(false)
			}
		default:
			word("BT")
			if r.P(60) {
				tf()
			}
			for n := r.SkewLen(12); n > 0; n-- {
				switch r.IntN(8) {
				case 0:
					tf()
				case 1:
					num()
					num()
					word(Pick(r, "Td", "TD"))
				case 2:
					word("T*")
				case 3:
					for i := 0; i < 6; i++ {
						num()
					}
					word("Tm")
				case 4:
					num()
					word(Pick(r, "Tc", "Tw", "Tz", "TL", "Ts", "Tr", "g"))
				case 5:
					marked()
				default:
					show(true)
				}
			}
			if ops > 1 || r.P(90) {
				word("ET")
			}
		}
		if r.P(2) {
			s.Raw("\n%" + strings.Repeat("y", r.Range(3800, 4200)) + "\n")
		}
	}
	var cuts []int
	for _, e := range s.ends {
		ok := true
		for _, o := range opaque {
			if e > o[0] && e < o[1] {
				ok = false
			}
		}
		if ok {
			cuts = append(cuts, e)
		}
	}
	return append([]byte{}, s.Bytes()...), cuts, lines
}

func imageEnd(b []byte) bool {
	ws := func(c byte) bool { return bytes.IndexByte([]byte("\x00\t\n\f\r "), c) >= 0 }
	for i := 0; i+2 < len(b); i++ {
		if (ws(b[i]) || b[i] == '>') && b[i+1] == 'E' && b[i+2] == 'I' && (i+3 == len(b) || ws(b[i+3])) {
			return true
		}
	}
	return false
}

// contents turns a program into a Contents value.
func (b *book) contents(prog []byte, cuts []int) Val {
	r, d := b.r, b.d
	put := func(data []byte) Ref {
		o := d.AddStream(Dict{}, data)
		ref := o.Ref()
		if r.P(8) {
			ref = d.Add(ref)
		}
		return ref
	}
	if r.P(45) {
		return put(prog)
	}
	var a Arr
	at := 0
	k := r.IntN(5)
	if r.P(8) {
		k = r.Range(20, 150)
		if k < len(cuts) {
			b.c.Event("contents split over dozens of streams", 1)
		}
	}
	var chosen []int
	for i := 0; i < k && len(cuts) > 0; i++ {
		chosen = append(chosen, cuts[r.IntN(len(cuts))])
	}
	chosen = append(chosen, len(prog))
	for i := range chosen {
		for j := i + 1; j < len(chosen); j++ {
			if chosen[j] < chosen[i] {
				chosen[i], chosen[j] = chosen[j], chosen[i]
			}
		}
	}
	for _, e := range chosen {
		if e < at {
			continue
		}
		if e > at && e < len(prog) {
			b.c.Event("contents split over streams", 1)
			head := string(prog[:e])
			if strings.LastIndex(head, "BT") > strings.LastIndex(head, "ET") {
				b.c.Event("splits inside a text object", 1)
			}
			if bytes.HasSuffix(prog[:e], []byte(")")) || bytes.HasSuffix(prog[:e], []byte("[")) {
				b.c.Event("splits inside operands", 1)
			}
		}
		part := prog[at:e]
		if at > 0 && r.P(50) {
			// the border between two streams separates like whitespace
			part = bytes.TrimLeft(part, "\x00\t\n\f\r ")
		}
		a = append(a, put(part))
		at = e
		if r.P(4) {
			a = append(a, Val(Null))
		}
	}
	return b.maybe(a, 40)
}

// page makes one page object with the resources in effect if it has none of its own.
func (b *book) page(inherited map[string]*cmapM, parent Ref) Ref {
	r, d := b.r, b.d
	b.nPages++
	b.c.Event("pages", 1)
	ref := d.Alloc()
	p := Dict{"Type": Name("Page"), "Parent": parent}
	fonts := inherited
	if r.P(45) {
		p["Resources"], fonts = b.resources()
	} else if len(inherited) > 0 {
		if r.P(5) {
			// an entry that is null is no entry
			p["Resources"] = Pick[Val](r, Null, Ref{9000000 + r.IntN(1000), 0}, d.Add(Null))
			b.c.Event("resources that are null", 1)
		}
		b.c.Event("inherited resources", 1)
	}
	if r.P(90) {
		shared := false
		if len(b.progs) > 0 && r.P(15) {
			q := b.progs[r.IntN(len(b.progs))]
			if sameFonts(q.fonts, fonts) {
				p["Contents"] = q.val
				b.texts = append(b.texts, q.lines...)
				b.c.Event("shared pages contents", 1)
				shared = true
			}
		}
		if !shared {
			ops := r.SkewLen(25)
			if r.P(3) {
				ops = r.Range(100, 600)
				b.c.Event("long contents", 1)
			}
			prog, cuts, lines := b.program(fonts, ops)
			v := b.contents(prog, cuts)
			p["Contents"] = v
			b.texts = append(b.texts, lines...)
			b.progs = append(b.progs, contentProg{v, fonts, lines})
		}
	} else if r.Bool() {
		p["Contents"] = Pick[Val](r, Null, Arr{}, Num(3))
	}
	if r.P(20) {
		p["MediaBox"] = Arr{Num(0), Num(0), Num(612), Num(792)}
	}
	d.Put(ref, p)
	return ref
}

func sameFonts(a, b map[string]*cmapM) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// tree makes a page tree node.
func (b *book) tree(depth, fan int, inherited map[string]*cmapM, parent Val) Ref {
	r, d := b.r, b.d
	ref := d.Alloc()
	n := Dict{"Type": Name("Pages")}
	if parent != nil {
		n["Parent"] = parent
	}
	fonts := inherited
	if r.P(40) {
		n["Resources"], fonts = b.resources()
	} else if len(inherited) > 0 && r.P(5) {
		n["Resources"] = Pick[Val](r, Null, Ref{9000000 + r.IntN(1000), 0}, d.Add(Null))
		b.c.Event("resources that are null", 1)
	}
	var kids Arr
	before := b.nPages
	k := r.IntN(fan + 1)
	if parent == nil && k == 0 {
		k = 1
	}
	if r.P(1) {
		k = r.Range(20, 80)
		b.c.Event("nodes with dozens of kids", 1)
	}
	for i := 0; i < k; i++ {
		if r.P(5) {
			// nothing that shows text, which is no reason to lose the others
			b.c.Event("kids without text", 1)
			kids = append(kids, Pick[Val](r, d.Add(Dict{}), d.Add(Dict{"Type": Name("Page")}), d.Add(Dict{"Type": Name("Page"), "Contents": Num(1)}), Ref{9000000 + r.IntN(1000), 0}, d.Add(Num(1)), Null, Str("page"), d.Add(Dict{"Type": Name("Pages"), "Kids": Num(1)}), d.Add(Dict{"Contents": Ref{9000000, 0}, "Resources": Num(1)})))
		}
		if depth > 0 && k < 20 && r.P(40) {
			kids = append(kids, b.tree(depth-1, fan, fonts, ref))
		} else {
			kids = append(kids, b.page(fonts, ref))
		}
	}
	n["Kids"] = b.maybe(kids, 20)
	n["Count"] = Num(b.nPages - before)
	if r.P(10) {
		n["Count"] = Num(r.IntN(1000))
	}
	d.Put(ref, n)
	return ref
}

func newBook(c *Ctx, entries, fonts int) *book {
	d := NewDoc(c.R, c.R.IntN(3))
	maybeEnc(d, 20)
	b := &book{c: c, r: c.R, d: d, entries: entries}
	for i := 0; i < fonts; i++ {
		b.newFont()
	}
	return b
}

func (b *book) finish(pages Val) []byte {
	d := b.d
	cat := Dict{"Type": Name("Catalog"), "Pages": pages}
	root := d.Add(cat)
	if b.r.P(80) {
		d.Trailer["Root"] = root
	}
	data, ok := d.Render()
	if !ok {
		b.c.Skip()
	}
	return data
}

func (b *book) check(data []byte) {
	c := b.c
	res := c.ParseOK(b.d, data)
	want := []byte{}
	for _, t := range b.texts {
		want = append(append(want, t...), '\n')
	}
	got := res.Get("contents.txt")
	c.Event("lines expected", len(b.texts))
	c.Check(bytes.Equal(got, want), "contents", "contents.txt: %s", firstDiff(got, want))
	c.Sig(data)
	c.Sample("%d pages, text %.300q", b.nPages, b.texts)
}

func runC16(c *Ctx) {
	b := newBook(c, 12, c.R.Range(1, 4))
	pages := b.tree(c.R.IntN(4), c.R.Range(1, 4), nil, nil)
	if c.R.P(20) { // text that is not page text
		prog, _, _ := b.program(nil, 3)
		b.d.AddStream(Dict{}, prog)
	}
	b.check(b.finish(pages))
}

func runC17(c *Ctx) {
	b := newBook(c, 60, c.R.Range(1, 3))
	if c.R.P(10) {
		b.entries = Pick(c.R, 400, 400, 1500)
		b.newFont()
	}
	pages := b.tree(0, 2, nil, nil)
	b.check(b.finish(pages))
}
