package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C25", Quick: 16000, Thorough: 320000, Run: runC25,
		Rule: "one document with a page tree and name trees of random shape whose delivery was compared with a depth-first walk of the model (hash of the file)",
		Need: []string{"pages compared", "names compared", "shared nodes", "cycles", "missing kids", "ill-typed kids", "references to the root", "trees deeper than 50", "nodes with more than 200 kids", "nodes of odd types", "page texts compared", "name tree lines compared"},
	})
}

// tnode is a tree node as meant.
type tnode struct {
	ref    Ref
	direct bool // written in place in its parent's Kids
	isRef  bool
	kids   []tkid
	tag    int // page number, 0 for interior nodes
	names  []int
}

type tkid struct {
	node *tnode
	junk Val // instead of a node
	via  Val // how it is written if not by its own reference
}

type forest struct {
	c     *Ctx
	r     *Rand
	d     *Doc
	nodes []*tnode
	tags  int
	names bool
	odd   int // chance of irregular kids
	depth int

	oddTypes bool
}

func (f *forest) node() *tnode {
	n := &tnode{ref: f.d.Alloc(), isRef: true}
	f.nodes = append(f.nodes, n)
	return n
}

// junk is a kid that is none.
func (f *forest) junk() Val {
	r, d := f.r, f.d
	switch r.IntN(4) {
	case 0:
		f.c.Event("missing kids", 1)
		return Ref{d.next + 3000000 + r.IntN(1000), 0}
	case 1:
		f.c.Event("ill-typed kids", 1)
		return d.Add(Pick[Val](r, Num(1), Null, Str("page"), Name("Page"), Arr{Num(1)}, True))
	case 2: // a chain into nothing
		f.c.Event("missing kids", 1)
		return d.Add(Ref{d.next + 4000000, 0})
	}
	f.c.Event("ill-typed kids", 1)
	return Pick[Val](r, Num(1), Null, Str("page"), Name("Page"), Arr{Num(1)}, True)
}

func (f *forest) grow(depth, fan int) *tnode {
	r := f.r
	f.depth++
	defer func() { f.depth-- }()
	n := f.node()
	if f.names {
		if r.P(60) || depth == 0 {
			k := r.IntN(4)
			for i := 0; i < k; i++ {
				f.tags++
				n.names = append(n.names, f.tags)
			}
		}
		if depth == 0 {
			return n
		}
	} else if depth == 0 || (f.depth > 1 && r.P(30)) {
		f.tags++
		n.tag = f.tags
		return n
	}
	k := r.IntN(fan + 1)
	for i := 0; i < k; i++ {
		if r.P(f.odd) {
			n.kids = append(n.kids, tkid{junk: f.junk()})
			continue
		}
		if r.P(f.odd) && len(f.nodes) > 0 {
			// a node that already occurs: an ancestor, a finished subtree or a node still to come
			o := f.nodes[r.IntN(len(f.nodes))]
			if !o.direct {
				n.kids = append(n.kids, tkid{node: o})
				f.c.Event("shared nodes", 1)
				continue
			}
		}
		kid := f.grow(depth-1, fan)
		if f.names && r.P(25) && !f.shared(kid) {
			kid.direct = true
		}
		k := tkid{node: kid}
		if !kid.direct && r.P(5) && !f.shared(kid) {
			k.via = f.d.Add(kid.ref)
			kid.direct = true // nothing else may refer to it
		}
		n.kids = append(n.kids, k)
	}
	return n
}

func (f *forest) shared(n *tnode) bool {
	for _, m := range f.nodes {
		for _, k := range m.kids {
			if k.node == n {
				return true
			}
		}
	}
	return false
}

// line makes deep or wide trees.
func (f *forest) line(depth, width int) *tnode {
	root := f.node()
	at := root
	for i := 0; i < depth; i++ {
		n := f.node()
		leaf := f.node()
		f.tags++
		if f.names {
			leaf.names = []int{f.tags}
		} else {
			leaf.tag = f.tags
		}
		at.kids = append(at.kids, tkid{node: leaf}, tkid{node: n})
		if f.r.P(5) {
			at.kids = append(at.kids, tkid{node: f.nodes[f.r.IntN(len(f.nodes))]})
			f.c.Event("shared nodes", 1)
		}
		at = n
	}
	for i := 0; i < width; i++ {
		n := f.node()
		f.tags++
		if f.names {
			n.names = []int{f.tags}
		} else {
			n.tag = f.tags
		}
		at.kids = append(at.kids, tkid{node: n})
		if f.r.P(2) {
			leaf := f.node()
			f.tags++
			if f.names {
				leaf.names = []int{f.tags}
			} else {
				leaf.tag = f.tags
				n.tag = 0
				f.tags++
			}
			n.kids = append(n.kids, tkid{node: leaf})
		}
	}
	return root
}

// walk is the oracle.
func (f *forest) walk(root *tnode) (tags []int) {
	seen := map[*tnode]bool{root: true}
	open := map[*tnode]bool{}
	var rec func(n *tnode)
	rec = func(n *tnode) {
		open[n] = true
		if n.tag > 0 {
			tags = append(tags, n.tag)
		}
		tags = append(tags, n.names...)
		for _, k := range n.kids {
			if k.node == nil {
				continue
			}
			if open[k.node] {
				f.c.Event("cycles", 1)
				if k.node == root {
					f.c.Event("references to the root", 1)
				}
			}
			if seen[k.node] {
				continue
			}
			seen[k.node] = true
			rec(k.node)
		}
		open[n] = false
	}
	rec(root)
	return
}

// value is what a node looks like in the file.
func (f *forest) value(n *tnode) Dict {
	r, d := f.r, f.d
	v := Dict{}
	var kids Arr
	for _, k := range n.kids {
		switch {
		case k.node == nil:
			kids = append(kids, k.junk)
		case k.via != nil:
			kids = append(kids, k.via)
		case k.node.direct:
			kids = append(kids, f.value(k.node))
		default:
			kids = append(kids, k.node.ref)
		}
	}
	hasKids := kids != nil || (n.tag == 0 && r.Bool())
	if f.names {
		if n.names != nil || r.P(20) {
			var a Arr
			for _, t := range n.names {
				a = append(a, Str(fmt.Sprintf("key%d", t)), Str(fmt.Sprintf("value%d", t)))
			}
			v["Names"] = d.Maybe(a, 20)
		}
		if r.P(40) {
			v["Limits"] = Arr{Str("a"), Str("z")}
		}
	} else if n.tag > 0 {
		v["Type"] = Name("Page")
		v["Tag"] = Num(n.tag)
		o := d.AddStream(Dict{}, []byte(fmt.Sprintf("BT (page %d) Tj ET", n.tag)))
		v["Contents"] = o.Ref()
	} else {
		v["Type"] = Name("Pages")
		v["Count"] = Num(r.IntN(100))
	}
	// what a node says it is does not matter
	if f.oddTypes && r.P(25) {
		if r.Bool() {
			delete(v, "Type")
		} else {
			v["Type"] = Pick[Val](r, Name("Page"), Name("Pages"), Name("Catalog"), Name("Filespec"), Name("XObject"), Null, Num(1))
		}
		f.c.Event("nodes of odd types", 1)
	}
	if hasKids {
		if kids == nil {
			kids = Arr{}
		}
		v["Kids"] = d.Maybe(kids, 20)
	} else if r.P(10) {
		v["Kids"] = Pick[Val](r, Null, Num(3), Name("x"), Dict{}, Str("x"))
	}
	return v
}

// write puts the nodes into the document.
func (f *forest) write(root *tnode) Val {
	written := map[*tnode]bool{}
	for _, n := range f.nodes {
		if written[n] {
			continue
		}
		written[n] = true
		if n.direct {
			// written in place, unless it has its own object behind a chain
			via := false
			for _, m := range f.nodes {
				for _, k := range m.kids {
					via = via || (k.node == n && k.via != nil)
				}
			}
			if !via {
				continue
			}
		}
		f.d.Put(n.ref, f.value(n))
	}
	return root.ref
}

func (c *Ctx) genForest(d *Doc, names bool) (*forest, *tnode) {
	r := c.R
	f := &forest{c: c, r: r, d: d, names: names, odd: Pick(r, 0, 5, 15, 30), oddTypes: r.P(20)}
	if r.P(6) {
		depth, width := r.Range(60, 200), 0
		if r.Bool() {
			depth, width = r.IntN(3), r.Range(201, 600)
			if r.P(8) {
				width = Pick(r, r.Range(3000, 6000), r.Range(8000, 20000))
			}
			c.Event("nodes with more than 200 kids", 1)
		} else {
			c.Event("trees deeper than 50", 1)
		}
		return f, f.line(depth, width)
	}
	root := f.grow(r.Range(1, 5), r.Range(1, 5))
	if r.P(10) && f.odd > 0 {
		// a reference back to the root from anywhere
		n := f.nodes[r.IntN(len(f.nodes))]
		if n.tag == 0 {
			n.kids = append(n.kids, tkid{node: root})
		}
	}
	return f, root
}

func runC25(c *Ctx) {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 0, 1, 2))
	maybeEnc(d, 10)
	cat := Dict{"Type": Name("Catalog")}
	var pages, files, urls []int
	pf, proot := c.genForest(d, false)
	pages = pf.walk(proot)
	if proot.tag == 0 || true {
		cat["Pages"] = pf.write(proot)
	}
	if r.P(10) { // through another reference
		cat["Pages"] = pf.alias(proot, cat["Pages"])
	}
	names := Dict{}
	tree := func() ([]int, Val) {
		f, root := c.genForest(d, true)
		tags := f.walk(root)
		v := f.write(root)
		if len(f.nodes) > 0 && r.P(25) && !f.shared(root) {
			// the root written in place: its own object stays unused
			return tags, f.value(root)
		}
		return tags, v
	}
	if r.P(80) {
		files, names["EmbeddedFiles"] = tree()
	}
	if r.P(80) {
		urls, names["URLS"] = tree()
	}
	cat["Names"] = d.Maybe(names, 50)
	root := d.Add(cat)
	d.Trailer["Root"] = root
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	p := c.LoadOK(d, data)
	cd, ok := p.GetObject(root.N).Value.(pdf.Dictionary)
	c.Check(ok, "catalog", "the catalog is not a dictionary")
	for i := r.Range(1, 2); i > 0; i-- {
		list, ok := cd.GetPageTree("Pages")
		c.Check(ok, "page-tree", "GetPageTree found nothing")
		var got []int
		for _, pg := range list {
			if t, ok := pg.GetInt("Tag"); ok {
				got = append(got, t)
			}
		}
		c.Check(fmt.Sprint(got) == fmt.Sprint(pages), "pages", "pages delivered: %v, in the tree: %v", got, pages)
		c.Event("pages compared", len(pages))
	}
	nd, _ := cd.GetDictionary("Names")
	ask := func(key string, want []int) {
		m := nd.GetNameTreeMap(key)
		var got, exp []string
		for i := range m {
			s, _ := m.GetString(i)
			got = append(got, s)
		}
		for _, t := range want {
			exp = append(exp, fmt.Sprintf("key%d", t), fmt.Sprintf("value%d", t))
		}
		c.Check(fmt.Sprint(got) == fmt.Sprint(exp), "names", "%s delivered: %v, in the tree: %v", key, got, exp)
		c.Event("names compared", len(want))
	}
	ask("EmbeddedFiles", files)
	ask("URLS", urls)
	if r.P(60) {
		res := c.ParseOK(d, data)
		want := ""
		for _, t := range pages {
			want += fmt.Sprintf("page %d\n", t)
		}
		got := res.Get("contents.txt")
		c.Check(string(got) == want, "contents", "contents.txt: %s", firstDiff(got, []byte(want)))
		c.Event("page texts compared", len(pages))
		// one name dictionary: its lines come in tree order
		var fl, ul []string
		for _, t := range files {
			fl = append(fl, fmt.Sprintf("%s:value%d", zeroHash, t))
		}
		for _, t := range urls {
			ul = append(ul, fmt.Sprintf("key%d", t))
		}
		for _, x := range []struct {
			file string
			want []string
		}{{"files.txt", fl}, {"urls.txt", ul}} {
			w := strings.Join(x.want, "\n")
			if len(x.want) > 0 {
				w += "\n"
			}
			c.Check(bytes.Equal(res.Get(x.file), []byte(w)), x.file, "%s: %s", x.file, firstDiff(res.Get(x.file), []byte(w)))
			c.Event("name tree lines compared", len(x.want))
		}
	}
	c.Sig(data)
	c.Sample("%d pages %v, %d files, %d urls", len(pages), pages, len(files), len(urls))
}

// alias puts a reference in between, if the root is not referred to by its own number.
func (f *forest) alias(root *tnode, v Val) Val {
	if f.shared(root) {
		return v
	}
	return f.d.Add(v)
}
