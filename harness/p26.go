package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	kinds := make([]string, 0, len(noises))
	for _, n := range noises {
		kinds = append(kinds, n.name)
	}
	register(&Prop{
		ID: "C26", Quick: 6000, Thorough: 700000, Run: runC26,
		Rule:   "one document with content of every kind into which hostile or damaged objects were mixed, parsed, after which every item and every object of the document was looked for (hash of the file)",
		Need:   append([]string{"neighbours compared", "streams compared", "urls.txt items found", "javascript.js items found", "commands.txt items found", "files.txt items found", "dumped files found", "page texts found", "kids without text", "damaged objects mixed in", "encrypted documents", "objects read around a damaged one"}, kinds...),
		Assume: []string{"the newest cross-reference section of the document names every object of the document, so that sections written into the damaged parts cannot legitimately replace them"},
	})
}

// noise is bytes written between two objects or inside one of their own.
var noises = []struct {
	name string
	gen  func(r *Rand, c *Ctx, d *Doc) []byte
}{
	{"noise: hostile objects", func(r *Rand, c *Ctx, d *Doc) []byte {
		h := &hb{c: c, r: r, offs: map[int]int{}, next: d.topNumber() + r.IntN(3)}
		if r.P(30) {
			h.next = r.IntN(3)
		}
		for k := Pick(r, 1, 1, 2, 3); k > 0; k-- {
			f := families[r.IntN(len(families))]
			f.gen(h)
			c.Event("mixed in: "+f.name, 1)
		}
		h.obj("<</Type/Catalog" + strings.Join(h.root, "") + ">>")
		return h.buf.Bytes()
	}},
	{"noise: unclosed nesting", func(r *Rand, c *Ctx, d *Doc) []byte {
		open := Pick(r, "[", "<<", "<</A ", "<</A[", "[<</K", "[1 0 R", "[(", "<</A<")
		return bytes.Repeat([]byte(open), Pick(r, 1, 10, r.Range(100, 1500), Pick(r, 200, 6000)))
	}},
	{"noise: many unclosed objects", func(r *Rand, c *Ctx, d *Doc) []byte {
		var b bytes.Buffer
		n := d.topNumber() + 1000
		open := Pick(r, "[[[[[[[[[[", "<</A<</A<</A<</A", "[", "<<", "(", "<", "<</A(")
		for k := r.Range(1, 80); k > 0; k-- {
			fmt.Fprintf(&b, "%d 0 obj%s\n", n, open)
			n++
		}
		return b.Bytes()
	}},
	{"noise: unclosed value", func(r *Rand, c *Ctx, d *Doc) []byte {
		return []byte(Pick(r, "(", "(a\\", "(\\1", "(((", "<", "<4", "<<", "<</A", "<</A/", "[", "/", "/A#", "%", "stream\n", "<<>>stream\n", "<</Length 99999999>>stream\r\nabc", "<</Filter/FlateDecode>>stream\nx\x9c\x00", "1", "1 0", "-", "+.", "#", "]", ">>", ")", "}", "\\"))
	}},
	{"noise: random bytes", func(r *Rand, c *Ctx, d *Doc) []byte { return r.Bytes(r.SkewLen(2000)) }},
	{"noise: random tokens", func(r *Rand, c *Ctx, d *Doc) []byte {
		var b bytes.Buffer
		for k := r.SkewLen(400); k > 0; k-- {
			b.WriteString(Pick(r, "[", "]", "<<", ">>", "(", ")", "<", ">", "/", "/A", "%", "#", "obj", "endobj", "stream\n", "endstream", "xref", "R", "null", " 1 0 R ", " 0 0 obj ", "\\", "\r", "\n", " ", "1", " 2 ", "-3", "(x)", "<41>", "/Kids", "/Pages", "/A<</S/Launch/F(x)>>", "BT", "Tj", "ET", "true", "/Length 5", "/Type/XRef", "/W[1 1 1]"))
		}
		return b.Bytes()
	}},
	{"noise: damaged copy", func(r *Rand, c *Ctx, d *Doc) []byte {
		// an object of the document, spelled again and spoilt
		o := d.Objs[r.IntN(len(d.Objs))]
		s := &Spell{R: r, Level: r.IntN(3)}
		v := o.V
		if v == nil || o.Raw != nil {
			v = Dict{"A": Str("x")}
		}
		s.Val(v)
		b := append([]byte{}, s.Bytes()...)
		if o.IsStream {
			b = append(b, "stream\n"...)
			b = append(b, o.Data...)
			b = append(b, "\nendstream"...)
		}
		b = mutate(r, b)
		if r.P(50) {
			b = b[:r.IntN(len(b)+1)]
		}
		return b
	}},
	{"noise: stray cross-reference data", func(r *Rand, c *Ctx, d *Doc) []byte {
		// not part of the newest section's chain
		var b bytes.Buffer
		keys := func() {
			for k := r.Range(1, 5); k > 0; k-- {
				b.WriteString(Pick(r, "/Encrypt<<>>", "/Encrypt null", "/Encrypt 1 0 R", "/Encrypt<</Filter/Standard/V 1/R 2/P -4/O(o)/U(u)>>", "/Encrypt<</Filter/Standard/V 2/R 3/Length 128/P -1/O<00>/U<"+strings.Repeat("00", 32)+">>>", "/ID[(a)(b)]", "/ID[]", "/Root 1 0 R", "/Root null", "/Size 3", "/Size 0", "/Prev 0", "/Prev 17", "/Info 2 0 R"))
			}
		}
		n := d.topNumber()
		if r.P(50) {
			b.WriteString(Pick(r, "<</Type/XRef", "<<", "<</Type/XRef/Type/XRef"))
			keys()
			w := r.Range(1, 3)
			fmt.Fprintf(&b, "/W[1 %d 1]/Index[%d %d]/Length %d>>stream\n", w, r.IntN(n+1), 3, 3*(w+2))
			for k := 0; k < 3; k++ {
				b.WriteByte(byte(r.IntN(3)))
				b.Write(r.Bytes(w + 1))
			}
			b.WriteString("\nendstream")
		} else {
			fmt.Fprintf(&b, "%s\n%d 3\n", Pick(r, "xref", "null xref", "(x)\nxref", "<<>>\nendobj\nxref"), r.IntN(n+1))
			for k := 0; k < 3; k++ {
				fmt.Fprintf(&b, "%010d %05d %s \n", Pick(r, 0, r.IntN(3000)), r.IntN(3), Pick(r, "n", "f"))
			}
			b.WriteString("trailer\n<<")
			keys()
			b.WriteString(">>\n")
			b.WriteString(Pick(r, "", "startxref\n0\n%%EOF\n", "startxref\n99\n"))
		}
		return b.Bytes()
	}},
	{"noise: damaged stream", func(r *Rand, c *Ctx, d *Doc) []byte {
		fs, enc := genFilters(r, r.Data(r.SkewLen(3000)), 2, true)
		var b bytes.Buffer
		b.WriteString("<</Filter[")
		for _, f := range fs {
			b.WriteString("/" + f.Name)
		}
		b.WriteString(Pick(r, "]", "", "/Crypt]", " null]"))
		fmt.Fprintf(&b, "/Length %s/Type/%s>>stream\n", hnum(r), Pick(r, "EmbeddedFile", "XRef", "ObjStm", "Metadata", "X"))
		b.Write(mutate(r, enc))
		b.WriteString(Pick(r, "\nendstream", "", "\nendstrea", "endobj"))
		return b.Bytes()
	}},
}

// topNumber is the highest object number in use.
func (d *Doc) topNumber() int {
	n := 0
	for _, o := range d.Objs {
		n = max(n, o.N)
	}
	return n
}

func runC26(c *Ctx) {
	r := c.R
	h := genHarvest(c, r.Range(1, 5))
	d := h.d
	d.Kind = Pick(r, "table", "stream")
	b := &book{c: c, r: r, d: d, entries: 8}
	for i := r.Range(1, 2); i > 0; i-- {
		b.newFont()
	}
	pages := b.tree(r.IntN(3), r.Range(1, 3), nil, nil)
	d.Trailer["Root"] = d.Add(Dict{"Type": Name("Catalog"), "Pages": pages})

	// the damaged parts
	var bad []*Obj
	for k := r.Range(1, 6); k > 0; k-- {
		n := noises[r.IntN(len(noises))]
		raw := n.gen(r, c, d)
		c.Event(n.name, 1)
		if r.P(40) {
			// behind an object, not in one
			raw = append([]byte("null\nendobj\n"), raw...)
		}
		o := d.Put(d.Alloc(), Null)
		o.Raw, o.Noise, o.Unlisted = append(raw, '\n'), true, r.P(40)
		if len(o.Raw) > 40000 {
			o.Raw = o.Raw[:40000]
		}
		bad = append(bad, o)
		c.Event("damaged objects mixed in", 1)
	}
	data := h.render()
	c.Watchdog("mixed document")
	pw := d.Password()
	c.Attach("in.pdf", data)
	c.Attach("doc.txt", []byte(d.Describe()+"\n"))
	c.Attach("password", []byte(pw))
	res := c.Parse(data, pw)
	c.Check(res.Err == nil, "parse-error", "Parse returned %v", res.Err)
	found := func(file string, want []string) {
		got := string(res.Get(file))
		n := map[string]int{}
		for _, w := range want {
			n[w]++
		}
		for w, k := range n {
			c.Check(strings.Count(got, w+"\n") >= k, "lost in "+file, "%s: %d times %.200q expected, %d found", file, k, w, strings.Count(got, w+"\n"))
			c.Event(file+" items found", k)
		}
	}
	found("urls.txt", h.urls)
	found("javascript.js", h.js)
	found("commands.txt", h.cmds)
	found("files.txt", h.files)
	for name, want := range h.dumps {
		got, ok := res.Files[name]
		c.Check(ok && bytes.Equal(got, want), "lost file", "file %s (%d bytes, %.40q) is missing or different: %s", name, len(want), want, firstDiff(got, want))
		c.Event("dumped files found", 1)
	}
	text := []byte{}
	for _, t := range b.texts {
		text = append(append(text, t...), '\n')
	}
	c.Check(bytes.Contains(res.Get("contents.txt"), text), "lost text", "contents.txt does not contain the %d bytes of page text %.200q", len(text), text)
	c.Event("page texts found", len(b.texts))

	// reading damaged objects leaves the others alone
	p, err := Load(bytes.NewReader(data), pw)
	c.Check(err == nil, "load-error", "Load returned %v", err)
	all := append([]*Obj{}, d.All()...)
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for _, o := range all {
		if o.Noise || o.Unlisted || o.Dead || o.Raw != nil {
			continue
		}
		if r.P(30) {
			c.readBad(p, bad[r.IntN(len(bad))].N)
		}
		c.CheckObj(p, o)
		c.Event("neighbours compared", 1)
	}
	c.Sig(data)
	c.Sample("%d objects, %d damaged parts, %d bytes, urls %.100q", len(d.Objs), len(bad), len(data), h.urls)
}

func (c *Ctx) readBad(p *pdf.Parser, n int) {
	p.GetObject(n)
	c.Event("objects read around a damaged one", 1)
}
