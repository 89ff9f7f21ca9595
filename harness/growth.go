package main

import (
	"bytes"
	"fmt"
	"strings"
)

// Growth: the same structure written twice, the second time with four times as many parts. What the parser
// does may grow with the file, not with its square.

type gdoc struct {
	buf     bytes.Buffer
	offs    []int
	root    string
	trailer string
	noTable bool
}

func (g *gdoc) obj(body string) int {
	g.offs = append(g.offs, g.buf.Len())
	fmt.Fprintf(&g.buf, "%d 0 obj\n%s\nendobj\n", len(g.offs), body)
	return len(g.offs)
}

func (g *gdoc) stream(dict string, data string) int {
	return g.obj(fmt.Sprintf("<<%s/Length %d>>\nstream\n%s\nendstream", dict, len(data), data))
}

// ref is a reference to the object k after the next one.
func (g *gdoc) ref(k int) string { return fmt.Sprintf("%d 0 R", len(g.offs)+1+k) }

func (g *gdoc) page(cmap, content string) {
	f := g.stream("", cmap)
	s := g.stream("", content)
	p := g.obj(fmt.Sprintf("<</Contents %d 0 R/Resources<</Font<</F1<</ToUnicode %d 0 R>>>>>>>>", s, f))
	g.root = fmt.Sprintf("/Pages<</Kids[%d 0 R]>>", p)
}

func (g *gdoc) finish() []byte {
	root := g.obj("<<" + g.root + ">>")
	start := g.buf.Len()
	if !g.noTable {
		fmt.Fprintf(&g.buf, "xref\n0 %d\n0000000000 65535 f \n", len(g.offs)+1)
		for _, o := range g.offs {
			fmt.Fprintf(&g.buf, "%010d 00000 n \n", o)
		}
	}
	fmt.Fprintf(&g.buf, "trailer\n<</Root %d 0 R%s>>\nstartxref\n%d\n%%%%EOF\n", root, g.trailer, start)
	return g.buf.Bytes()
}

func rep(n int, f func(i int) string) string {
	var s strings.Builder
	for i := 0; i < n; i++ {
		s.WriteString(f(i))
	}
	return s.String()
}

var growths = []struct {
	name string
	unit int // parts of the smaller document
	make func(g *gdoc, n int)
}{
	{"page tree, flat", 700, func(g *gdoc, n int) {
		g.root = "/Pages<</Kids[" + rep(n, func(i int) string { return g.ref(i) + " " }) + "]>>"
		for i := 0; i < n; i++ {
			g.obj("<</Type/Page>>")
		}
	}},
	{"page tree, deep", 700, func(g *gdoc, n int) {
		g.root = "/Pages " + g.ref(0)
		for i := 0; i < n; i++ {
			g.obj("<</Type/Pages/Kids[" + g.ref(1) + "]>>")
		}
	}},
	{"page tree, comb", 500, func(g *gdoc, n int) {
		g.root = "/Pages " + g.ref(0)
		for i := 0; i < n; i++ {
			g.obj("<</Kids[" + g.ref(1) + " " + g.ref(2) + "]>>")
			g.obj("<</Type/Page>>")
		}
	}},
	{"name tree, flat", 700, func(g *gdoc, n int) {
		g.root = "/URLS<</Kids[" + rep(n, func(i int) string { return g.ref(i) + " " }) + "]>>"
		for i := 0; i < n; i++ {
			g.obj("<</Names[(a)(b)]>>")
		}
	}},
	{"name tree, deep", 700, func(g *gdoc, n int) {
		g.root = "/EmbeddedFiles " + g.ref(0)
		for i := 0; i < n; i++ {
			g.obj("<</Names[(a)(b)]/Kids[" + g.ref(1) + "]>>")
		}
	}},
	{"name tree, one leaf", 2000, func(g *gdoc, n int) {
		g.root = "/URLS<</Names[" + rep(n, func(i int) string { return fmt.Sprintf("(u%d)(v)", i) }) + "]>>"
	}},
	{"name tree, nested in place", 600, func(g *gdoc, n int) {
		g.root = "/EmbeddedFiles<</Kids[" + rep(n, func(i int) string { return "<</Names[(a)(b)]>>" }) + "]>>"
	}},
	{"string", 30000, func(g *gdoc, n int) {
		g.obj("(" + rep(n, func(i int) string { return Pick2(i, "a", "\\n", "(", ")", "b") }) + "")
	}},
	{"hexadecimal string", 30000, func(g *gdoc, n int) { g.obj("<" + strings.Repeat("4 1", n) + ">") }},
	{"name", 30000, func(g *gdoc, n int) { g.obj("/" + strings.Repeat("A#20", n)) }},
	{"keyword", 30000, func(g *gdoc, n int) { g.obj(strings.Repeat("abc", n)) }},
	{"number", 30000, func(g *gdoc, n int) { g.obj(strings.Repeat("1", n) + "." + strings.Repeat("2", n)) }},
	{"array", 3000, func(g *gdoc, n int) { g.obj("[" + strings.Repeat("1 /A (b) 2 0 R ", n) + "]") }},
	{"dictionary", 3000, func(g *gdoc, n int) {
		g.obj("<<" + rep(n, func(i int) string { return fmt.Sprintf("/K%d 2 0 R", i) }) + ">>")
	}},
	{"comments", 10000, func(g *gdoc, n int) { g.obj(strings.Repeat("%c\n\t", n) + "1") }},
	{"objects", 800, func(g *gdoc, n int) {
		for i := 0; i < n; i++ {
			g.obj("<</A(b)>>")
		}
	}},
	{"objects without table", 800, func(g *gdoc, n int) {
		g.noTable = true
		for i := 0; i < n; i++ {
			g.obj("<</A(b)>>")
		}
	}},
	{"versions of one object", 800, func(g *gdoc, n int) {
		for i := 0; i < n; i++ {
			fmt.Fprintf(&g.buf, "900 0 obj\n[%d]\nendobj\n", i)
		}
	}},
	{"header-like text", 3000, func(g *gdoc, n int) { g.buf.WriteString(strings.Repeat("1 0 ob 2 0 objx ", n)) }},
	{"numbers between objects", 6000, func(g *gdoc, n int) { g.buf.WriteString(strings.Repeat("1 0 2 ", n) + "\n") }},
	{"table entries", 3000, func(g *gdoc, n int) {
		g.buf.WriteString("xref\n1000 " + fmt.Sprint(n) + "\n" + strings.Repeat("0000000009 00000 f \n", n) + "trailer\n<<>>\n")
	}},
	{"table subsections", 1500, func(g *gdoc, n int) {
		g.buf.WriteString("xref\n" + rep(n, func(i int) string { return fmt.Sprintf("%d 1\n0000000009 00000 f \n", 1000+i) }) + "trailer\n<<>>\n")
	}},
	{"cross-reference stream entries", 6000, func(g *gdoc, n int) {
		g.stream(fmt.Sprintf("/Type/XRef/W[1 2 1]/Index[1000 %d]", n), strings.Repeat("\x00\x00\x00\x00", n))
	}},
	{"cross-reference stream subsections", 1500, func(g *gdoc, n int) {
		g.stream("/Type/XRef/W[1 2 1]/Index["+rep(n, func(i int) string { return fmt.Sprintf("%d 1 ", 1000+i) })+"]", strings.Repeat("\x00\x00\x00\x00", n))
	}},
	{"trailer entries", 2000, func(g *gdoc, n int) { g.trailer = rep(n, func(i int) string { return fmt.Sprintf("/T%d(x)", i) }) }},
	{"text operators", 3000, func(g *gdoc, n int) { g.page("", "BT /F1 1 Tf "+strings.Repeat("(ab) Tj [(c) 1 (d)] TJ\n", n)+" ET") }},
	{"text blocks", 3000, func(g *gdoc, n int) { g.page("", strings.Repeat("BT /F1 1 Tf (a) Tj ET ", n)) }},
	{"text elements", 6000, func(g *gdoc, n int) { g.page("", "BT ["+strings.Repeat("(a) -5 ", n)+"] TJ ET") }},
	{"saved states", 10000, func(g *gdoc, n int) { g.page("", strings.Repeat("q ", n)+strings.Repeat("Q ", n)) }},
	{"operands", 10000, func(g *gdoc, n int) { g.page("", "BT "+strings.Repeat("1 /A ", n)+" Tj ET") }},
	{"inline images", 3000, func(g *gdoc, n int) { g.page("", strings.Repeat("BI /W 1 ID abc EI ", n)) }},
	{"unclosed inline images", 10000, func(g *gdoc, n int) { g.page("", strings.Repeat("BI ID x ", n)) }},
	{"image data", 30000, func(g *gdoc, n int) { g.page("", "BI ID "+strings.Repeat("E I", n)+" EI BT (a) Tj ET") }},
	{"contents array", 600, func(g *gdoc, n int) {
		g.root = "/Pages<</Kids[" + g.ref(0) + "]>>"
		g.obj("<</Contents[" + rep(n, func(i int) string { return g.ref(i+1) + " " }) + "]>>")
		for i := 0; i < n; i++ {
			g.stream("", "BT (abc) Tj ET")
		}
	}},
	{"fonts of a page", 500, func(g *gdoc, n int) {
		g.root = "/Pages<</Kids[" + g.ref(0) + "]>>"
		g.obj("<</Resources<</Font<<" + rep(n, func(i int) string { return fmt.Sprintf("/F%d<</ToUnicode %s>>", i, g.ref(1)) }) + ">>>>>>")
		g.stream("", "1 beginbfchar <01> <41> endbfchar")
	}},
	{"character map entries", 3000, func(g *gdoc, n int) {
		g.page(fmt.Sprintf("%d beginbfchar\n", n)+rep(n, func(i int) string { return fmt.Sprintf("<%04x> <0041>\n", i) })+"endbfchar", "BT /F1 1 Tf (abcd) Tj ET")
	}},
	{"character map ranges", 1500, func(g *gdoc, n int) {
		g.page(fmt.Sprintf("%d beginbfrange\n", n)+rep(n, func(i int) string { return fmt.Sprintf("<%06x> <%06x> <0041>\n", i*300, i*300+299) })+"endbfrange", "BT /F1 1 Tf (abcdef) Tj ET")
	}},
	{"character map destinations", 3000, func(g *gdoc, n int) {
		g.page("1 beginbfrange <0000> <FFFF> ["+strings.Repeat("<0041>", n)+"] endbfrange", "BT /F1 1 Tf (abcd) Tj ET")
	}},
	{"mapped text", 10000, func(g *gdoc, n int) {
		g.page("1 beginbfrange <0000> <00FF> <0041> endbfrange 1 beginbfchar <0101> <4142> endbfchar", "BT /F1 1 Tf <"+strings.Repeat("00410101FFFF", n)+"> Tj ET")
	}},
	{"text of many characters", 10000, func(g *gdoc, n int) { g.page("", "BT ("+strings.Repeat("abc", n)+") Tj ET") }},
	{"stream without length", 30000, func(g *gdoc, n int) {
		g.obj("<<>>stream\n" + strings.Repeat("ends", n) + "\nendstream")
	}},
	{"stream without end", 30000, func(g *gdoc, n int) { g.buf.WriteString("77 0 obj<<>>stream\n" + strings.Repeat("ends", n)) }},
	{"ASCIIHex data", 30000, func(g *gdoc, n int) { g.stream("/Filter/ASCIIHexDecode", strings.Repeat("41 ", n)) }},
	{"ASCII85 data", 10000, func(g *gdoc, n int) { g.stream("/Filter/ASCII85Decode", strings.Repeat("abcde z\n", n)) }},
	{"run length data", 10000, func(g *gdoc, n int) { g.stream("/Filter/RunLengthDecode", strings.Repeat("\x02abc\xfbd", n)) }},
	{"Flate data", 30000, func(g *gdoc, n int) {
		g.stream("/Filter/FlateDecode", string(deflate([]byte(rep(n, func(i int) string { return fmt.Sprintf("%x", i*i*31) })))))
	}},
	{"LZW data", 30000, func(g *gdoc, n int) {
		g.stream("/Filter/LZWDecode/DecodeParms<</EarlyChange 0>>", string(lzwData([]byte(rep(n, func(i int) string { return fmt.Sprintf("%x", i*i*31) })))))
	}},
	{"PNG rows", 6000, func(g *gdoc, n int) {
		g.stream("/Filter/FlateDecode/DecodeParms<</Predictor 15/Columns 4>>", string(deflate([]byte(rep(n, func(i int) string { return string([]byte{byte(i % 5), 1, 2, 3, byte(i)}) })))))
	}},
	{"TIFF rows", 6000, func(g *gdoc, n int) {
		g.stream("/Filter/FlateDecode/DecodeParms<</Predictor 2/Columns 4>>", string(deflate([]byte(strings.Repeat("\x01\x02\x03\x04", n)))))
	}},
	{"TIFF row", 20000, func(g *gdoc, n int) {
		g.stream(fmt.Sprintf("/Filter/FlateDecode/DecodeParms<</Predictor 2/Columns %d>>", n), string(deflate([]byte(strings.Repeat("\x01", n)))))
	}},
	{"forms", 500, func(g *gdoc, n int) {
		g.root = "/AcroForm<</XFA[" + rep(n, func(i int) string { return "(a) " + g.ref(i) + " " }) + "]>>"
		for i := 0; i < n; i++ {
			g.stream("", "<xdp/>")
		}
	}},
	{"actions", 800, func(g *gdoc, n int) {
		g.obj("[" + strings.Repeat("<</A<</S/Launch/F(a)>>/JS(b)/URI(c)>>", n) + "]")
	}},
	{"triggers", 1500, func(g *gdoc, n int) {
		g.obj("<</AA<<" + rep(n, func(i int) string { return fmt.Sprintf("/T%d<</S/Launch/F(a)>>", i) }) + ">>>>")
	}},
	{"abnormalities", 3000, func(g *gdoc, n int) { g.obj("[" + strings.Repeat("/A#41(\\101)<4x1>", n) + "]") }},
}

// Pick2 is the i-th of the choices in turn.
func Pick2(i int, s ...string) string { return s[i%len(s)] }

func growthCase(c *Ctx) {
	k := c.R.IntN(len(growths))
	f := growths[k]
	n := f.unit*c.R.Range(80, 120)/100 + 1
	var w [2]work
	var l [2]int
	for i := range w {
		g := &gdoc{}
		g.buf.WriteString("%PDF-1.7\n")
		f.make(g, n)
		data := g.finish()
		n *= 4
		l[i] = len(data)
		c.Attach("in.pdf", data)
		c.Attach("what", []byte("growth of "+f.name))
		c.Watchdog("growth of " + f.name)
		c.Sig(data)
		w[i], _ = c.measure(data, "")
	}
	const limit = 8
	say := func(what string) string {
		return fmt.Sprintf("growth of %s: %s grows faster than the file: %d bytes took %s, %d bytes took %s", f.name, what, l[0], w[0], l[1], w[1])
	}
	c.Check(w[1].alloc <= limit*w[0].alloc+(8<<20), "memory growth", "%s", say("memory"))
	c.Check(w[1].read <= limit*w[0].read+(2<<20), "reading growth", "%s", say("reading"))
	c.Check(w[1].seeks <= limit*w[0].seeks+2000, "seeking growth", "%s", say("seeking"))
	c.Check(w[1].out <= limit*w[0].out+(1<<20), "writing growth", "%s", say("writing"))
	c.Check(w[1].cpu <= 12*w[0].cpu+2, "time growth", "%s", say("time"))
	c.Event("growth compared", 1)
	c.Sample("%s: %d bytes: %s; %d bytes: %s", f.name, l[0], w[0], l[1], w[1])
}
