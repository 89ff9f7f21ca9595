package main

import (
	"bytes"
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C14", Quick: 18000, Thorough: 480000, Run: runC14,
		Rule: "one document with planted URLs, scripts and commands (and decoys) whose report files were matched line by line (hash of the file)",
		Need: []string{"urls.txt lines matched", "javascript.js lines matched", "commands.txt lines matched", "item URI", "item Base", "item URLS", "item URL file", "item JS string", "item JS stream", "item launch F string", "item launch F dictionary", "item launch Win", "item launch F and Win", "through A", "through OpenAction", "through AA", "decoys", "dead copies", "freed copies", "encrypted documents", "nested placement", "shared actions", "shared scripts", "dictionaries with several sources"},
	})
	register(&Prop{
		ID: "C15", Quick: 20000, Thorough: 480000, Run: runC15,
		Rule: "one document with planted embedded and external files whose manifest and dumps were matched (hash of the file)",
		Need: []string{"files.txt lines matched", "dumped files compared", "item embedded file", "item embedded duplicate", "item embedded empty", "item external string", "item external dictionary", "item XFA stream", "item XFA array", "item action file", "item action embedded", "item launch Win", "through AA", "decoys", "dead copies", "encrypted documents", "deep name trees", "shared file specifications", "shared actions"},
	})
}

const zeroHash = "00000000000000000000000000000000"

// harvest collects what a document must yield.
type harvest struct {
	c     *Ctx
	r     *Rand
	d     *Doc
	id    int
	urls  []string
	js    []string
	cmds  []string
	files []string
	dumps map[string][]byte
	datas [][]byte
	// things several dictionaries lead to, with what each time adds
	shared  []sharedAct
	scripts []sharedScript
	specs   []sharedSpec
	name    func() string // chooses file names, if set
}

type sharedAct struct {
	ref               Ref
	urls, cmds, files []string
}

type sharedScript struct {
	ref  Ref
	text string
}

type sharedSpec struct {
	ref  Ref
	line string
}

func (h *harvest) text(tag string) string {
	h.id++
	switch tag {
	case "emb", "file", "ext", "path", "run", "cmd":
		if h.name != nil {
			return h.name()
		}
	}
	return lineText(h.r, tag, h.id)
}

// v is a value, written in place or behind references.
func (h *harvest) v(x Val) Val {
	switch {
	case h.r.P(70):
		return x
	case h.r.P(85):
		return h.d.Add(x)
	}
	return h.d.Add(h.d.Add(x))
}

func (h *harvest) event(kind string) { h.c.Event("item "+kind, 1) }

func (h *harvest) url(s string) { h.urls = append(h.urls, s) }
func (h *harvest) ext(s string) { h.files = append(h.files, zeroHash+":"+s) }
func (h *harvest) cmd(s string) { h.cmds = append(h.cmds, s) }
func (h *harvest) dump(name string, data []byte) {
	sum := md5.Sum(data)
	x := hex.EncodeToString(sum[:])
	h.files = append(h.files, x+":"+name)
	h.dumps[x] = data
}

// extra adds entries without meaning.
func (h *harvest) extra(d Dict) Dict {
	for h.r.P(30) {
		inertEntry(h.r, d, false)
	}
	return d
}

// extraS adds entries without meaning to the dictionary of a stream.
func (h *harvest) extraS(d Dict) Dict {
	for h.r.P(30) {
		inertEntry(h.r, d, true)
	}
	return d
}

// act is an action, possibly one that other dictionaries lead to as well.
func (h *harvest) act() Val {
	r := h.r
	if len(h.shared) > 0 && r.P(20) {
		h.c.Event("shared actions", 1)
		s := h.shared[r.IntN(len(h.shared))]
		h.urls = append(h.urls, s.urls...)
		h.cmds = append(h.cmds, s.cmds...)
		h.files = append(h.files, s.files...)
		return s.ref
	}
	u, c, f := len(h.urls), len(h.cmds), len(h.files)
	a := h.action()
	s := sharedAct{cmds: append([]string{}, h.cmds[c:]...), files: append([]string{}, h.files[f:]...)}
	if _, own := a["URI"]; !own {
		s.urls = append([]string{}, h.urls[u:]...)
	}
	if r.P(6) {
		// what follows is found as a dictionary of its own
		h.c.Event("next actions", 1)
		next := h.uri
		if r.Bool() {
			next = h.jsItem
		}
		a["Next"] = h.v(next(Dict{}))
		if r.P(30) {
			a["Next"] = Arr{a["Next"]}
		}
	}
	if !r.P(15) {
		return h.v(a)
	}
	s.ref = h.d.Add(a)
	h.shared = append(h.shared, s)
	return s.ref
}

func (h *harvest) content() []byte {
	r := h.r
	if len(h.datas) > 0 && r.P(15) {
		h.event("embedded duplicate")
		return h.datas[r.IntN(len(h.datas))]
	}
	data := []byte{}
	if r.P(8) {
		h.event("embedded empty")
	} else {
		data = r.Data(r.SkewLen(3000))
		if r.IntN(400) == 0 {
			h.event("embedded large")
			data = r.Data(r.Range(60000, 2500000))
		}
		if len(data) == 0 {
			data = []byte{}
		}
	}
	h.datas = append(h.datas, data)
	return data
}

func (h *harvest) embeddedStream(data []byte) Ref {
	r := h.r
	sd := h.extraS(Dict{})
	if r.P(60) {
		sd["Type"] = h.v(Name("EmbeddedFile"))
	}
	if r.P(20) {
		sd["Params"] = Dict{"Size": Num(len(data))}
	}
	o := h.d.AddStream(sd, data)
	o.Embedded = sd["Type"] != nil
	if h.d.Enc != nil && h.d.Enc.V == 4 && r.P(20) {
		o.Crypt = Pick(r, append(sortedKeys(h.d.Enc.CFs), "Identity")...)
	}
	if r.P(15) {
		return h.d.Add(o.Ref())
	}
	return o.Ref()
}

// urlSpec is a file specification naming a URL.
func (h *harvest) urlSpec() Dict {
	h.event("URL file")
	u := h.text("http://f")
	h.url(u)
	d := Dict{"FS": h.v(Pick[Val](h.r, Name("URL"), Name("URL"), Str("URL"))), "F": h.v(Str(u))}
	if h.r.Bool() {
		d["Type"] = Name("Filespec")
	}
	return h.extra(d)
}

func (h *harvest) fileSpec() Dict {
	f := h.text("file")
	h.ext(f)
	d := Dict{"F": h.v(Str(f))}
	if h.r.Bool() {
		d["Type"] = Name(Pick(h.r, "Filespec", "F"))
	}
	if h.r.P(20) {
		d["UF"] = Str("other name")
	}
	if h.r.P(10) {
		d["FS"] = Name(Pick(h.r, "File", "Unix", "URLs"))
	}
	return h.extra(d)
}

func (h *harvest) embedSpec() Dict {
	h.event("embedded file")
	name := h.text("emb")
	data := h.content()
	h.dump(name, data)
	ef := Dict{"F": h.embeddedStream(data)}
	if h.r.P(20) {
		ef["UF"] = ef["F"]
	}
	d := Dict{"F": h.v(Str(name)), "EF": h.v(h.extra(ef))}
	if h.r.Bool() {
		d["Type"] = Name("Filespec")
	}
	return h.extra(d)
}

// action builds an action dictionary that yields something when reached by A, OpenAction or AA.
func (h *harvest) action() Dict {
	r := h.r
	a := Dict{}
	if r.P(30) {
		a["Type"] = Name("Action")
	}
	launch := func() { a["S"] = h.v(Name("Launch")) }
	win := func() {
		f := h.text("cmd")
		w := Dict{"F": h.v(Str(f))}
		line := f
		if r.P(60) {
			p := h.text("arg")
			w["P"] = h.v(Str(p))
			line += " " + p
		}
		if r.P(20) {
			w["D"], w["O"] = Str("C:\\dir"), Str("open")
		}
		h.cmd(line)
		h.ext(f)
		a["Win"] = h.v(h.extra(w))
	}
	fstr := func() {
		f := h.text("run")
		h.cmd(f)
		h.ext(f)
		a["F"] = h.v(Str(f))
	}
	fdict := func() {
		n := len(h.files)
		a["F"] = h.v(h.fileSpec())
		h.cmd(strings.TrimPrefix(h.files[n], zeroHash+":"))
	}
	switch r.IntN(12) {
	case 0:
		h.event("launch F string")
		launch()
		fstr()
	case 1:
		h.event("launch F dictionary")
		launch()
		fdict()
	case 2, 3:
		h.event("launch Win")
		launch()
		win()
	case 4:
		h.event("launch F and Win")
		launch()
		if r.Bool() {
			fstr()
		} else {
			fdict()
		}
		win()
	case 5, 6:
		h.event("action file")
		a["S"] = h.v(Name(Pick(r, "GoToR", "SubmitForm", "ImportData", "Thread")))
		if r.Bool() {
			f := h.text("ext")
			h.ext(f)
			a["F"] = h.v(Str(f))
		} else {
			a["F"] = h.v(h.fileSpec())
		}
	case 7:
		a["S"] = Name(Pick(r, "SubmitForm", "Launch", "GoToR"))
		a["F"] = h.v(h.urlSpec())
	case 8:
		h.event("action embedded")
		a["S"] = Name(Pick(r, "GoToE", "GoToR"))
		a["F"] = h.v(h.embedSpec())
	case 9:
		return h.uri(a)
	case 10:
		return h.jsItem(a)
	default: // nothing to extract
		a["S"] = Name(Pick(r, "Named", "GoTo", "Launch"))
		if r.Bool() {
			a["F"] = Pick[Val](r, Num(3), Null, Name("x"), Arr{Str("no")})
			a["Win"] = Pick[Val](r, Num(3), Null, Str("x"), Dict{})
		}
		h.c.Event("decoys", 1)
	}
	return h.extra(a)
}

func (h *harvest) uri(a Dict) Dict {
	h.event("URI")
	u := h.text("http://u")
	h.url(u)
	a["S"] = Name("URI")
	a["URI"] = h.v(Str(u))
	return h.extra(a)
}

func (h *harvest) jsItem(a Dict) Dict {
	r := h.r
	t := h.text("js")
	if r.P(30) {
		t += "\n" + h.text("more")
	}
	if r.P(1) {
		t += strings.Repeat("x = 1; ", r.Range(8000, 40000))
	}
	if r.P(80) {
		a["S"] = Name("JavaScript")
	}
	if len(h.scripts) > 0 && r.P(10) {
		h.c.Event("shared scripts", 1)
		s := h.scripts[r.IntN(len(h.scripts))]
		h.js = append(h.js, s.text)
		a["JS"] = s.ref
		return h.extra(a)
	}
	h.js = append(h.js, t)
	if r.Bool() {
		h.event("JS string")
		a["JS"] = h.v(Str(t))
	} else {
		h.event("JS stream")
		o := h.d.AddStream(h.extraS(Dict{}), []byte(t))
		ref := o.Ref()
		if r.P(15) {
			ref = h.d.Add(ref)
		}
		h.scripts = append(h.scripts, sharedScript{ref, t})
		a["JS"] = ref
	}
	return h.extra(a)
}

// holder makes a dictionary from which something is extracted, in some cases for several reasons.
func (h *harvest) holder() Dict {
	d := h.holder1()
	for h.r.P(25) {
		// the second part must not use what the first one has
		e := h.holder2(d)
		for k, v := range e {
			d[k] = v
		}
		h.c.Event("dictionaries with several sources", 1)
	}
	return d
}

// holder2 makes a part with keys that d does not have.
func (h *harvest) holder2(d Dict) Dict {
	has := func(k string) bool { _, ok := d[k]; return ok }
	switch h.r.IntN(7) {
	case 0:
		if !has("A") {
			h.c.Event("through A", 1)
			return Dict{"A": h.act()}
		}
	case 1:
		if !has("OpenAction") {
			h.c.Event("through OpenAction", 1)
			return Dict{"OpenAction": h.act()}
		}
	case 2:
		if !has("AA") {
			h.c.Event("through AA", 1)
			return Dict{"AA": h.v(Dict{"O": h.act(), "WC": h.act()})}
		}
	case 3:
		if !has("JS") && !has("S") {
			return h.jsItem(Dict{})
		}
	case 4:
		if !has("URI") && !has("S") {
			return h.uri(Dict{})
		}
	case 5:
		if !has("EmbeddedFiles") {
			return Dict{"EmbeddedFiles": nameTree(h.d, Arr{Str("k"), h.v(h.embedSpec())}, 1)}
		}
	case 6:
		if !has("XFA") {
			h.event("XFA stream")
			data := h.content()
			h.dump("form.xml", data)
			return Dict{"XFA": h.d.AddStream(h.extraS(Dict{}), data).Ref()}
		}
	}
	return nil
}

func (h *harvest) holder1() Dict {
	r := h.r
	switch r.IntN(14) {
	case 0, 1, 2:
		h.c.Event("through A", 1)
		return h.extra(Dict{"A": h.act()})
	case 3:
		h.c.Event("through OpenAction", 1)
		return h.extra(Dict{"OpenAction": h.act()})
	case 4, 5:
		h.c.Event("through AA", 1)
		aa := Dict{}
		for _, k := range []string{"E", "X", "D", "U", "Fo", "Bl", "PO", "PC", "O", "C", "K", "F", "V", "WC", "WS", "DS", "WP", "DP", "Custom", "S"} {
			if r.P(15) {
				aa[k] = h.act()
			}
		}
		return h.extra(Dict{"AA": h.v(aa)})
	case 6:
		return h.uri(Dict{})
	case 7:
		h.event("Base")
		u := h.text("http://b")
		h.url(u)
		return h.extra(Dict{"URI": h.v(h.extra(Dict{"Base": h.v(Str(u))}))})
	case 8:
		h.event("URLS")
		var pairs Arr
		n := r.Range(1, 8)
		if r.P(2) {
			n = r.Range(200, 1500)
		}
		for i := n; i > 0; i-- {
			u := h.text("http://n")
			h.url(u)
			pairs = append(pairs, h.v(Str(u)), h.v(GenVal(r, GenOpt{Depth: 1, Keys: inertKey, Dyadic: true})))
		}
		return h.extra(Dict{"URLS": nameTree(h.d, pairs, r.IntN(4))})
	case 9:
		return h.jsItem(Dict{})
	case 10, 11:
		var pairs Arr
		n := r.Range(1, 6)
		if r.P(5) {
			n = r.Range(6, 40)
		} else if r.P(1) {
			n = r.Range(200, 800)
		}
		for i := 0; i < n; i++ {
			pairs = append(pairs, h.v(Str(fmt.Sprintf("key%d", i))))
			switch r.IntN(6) {
			case 0:
				h.event("external string")
				f := h.text("path")
				h.ext(f)
				pairs = append(pairs, h.v(Str(f)))
			case 1:
				h.event("external dictionary")
				pairs = append(pairs, h.v(h.fileSpec()))
			case 2:
				pairs = append(pairs, h.v(h.urlSpec()))
			default:
				if len(h.specs) > 0 && r.P(15) {
					h.c.Event("shared file specifications", 1)
					s := h.specs[r.IntN(len(h.specs))]
					h.files = append(h.files, s.line)
					pairs = append(pairs, s.ref)
					break
				}
				n := len(h.files)
				v := h.v(h.embedSpec())
				if ref, ok := v.(Ref); ok {
					h.specs = append(h.specs, sharedSpec{ref, h.files[n]})
				}
				pairs = append(pairs, v)
			}
		}
		depth := r.IntN(4)
		if depth > 1 && n > 3 {
			h.c.Event("deep name trees", 1)
		}
		return h.extra(Dict{"EmbeddedFiles": nameTree(h.d, pairs, depth)})
	case 12:
		if r.Bool() {
			h.event("XFA stream")
			data := h.content()
			h.dump("form.xml", data)
			return h.extra(Dict{"XFA": h.d.AddStream(h.extraS(Dict{}), data).Ref()})
		}
		h.event("XFA array")
		var a Arr
		var all []byte
		for i := r.Range(1, 5); i > 0; i-- {
			data := h.content()
			all = append(all, data...)
			if !r.P(15) {
				a = append(a, Str(plainWord(r)))
			}
			a = append(a, h.d.AddStream(h.extraS(Dict{}), data).Ref())
		}
		h.dump("form.xml", all)
		return h.extra(Dict{"XFA": h.v(a)})
	default:
		h.c.Event("decoys", 1)
		d := Dict{}
		junk := func(k string, vs ...Val) {
			if r.P(40) {
				d[k] = h.v(Pick(r, vs...))
			}
		}
		junk("JS", Num(1), Name("js"), Arr{Str("js")}, Null, Dict{}, True)
		junk("URI", Num(1), Name("u"), Arr{Str("u")}, Null, Dict{"Bass": Str("no")}, Dict{"Base": Num(2)})
		junk("A", Num(1), Str("a"), Arr{Name("Launch"), Str("x")}, Null)
		junk("OpenAction", Arr{Ref{1, 0}, Name("Fit")}, Null, Str("x"))
		junk("AA", Arr{}, Null, Name("n"), Str("x"), Dict{"E": Num(1), "X": Str("cmd")})
		junk("EmbeddedFiles", Num(1), Null, Str("x"), Arr{Str("a"), Str("b")}, Dict{}, Dict{"Names": Num(1)}, Dict{"Names": Arr{Str("a"), Num(7)}}, Dict{"Names": Arr{Str("a")}})
		junk("URLS", Num(1), Null, Arr{Str("u")}, Dict{"Names": Arr{Num(1), Str("v")}}, Dict{"Kids": Null})
		junk("XFA", Num(1), Null, Str("x"), Name("n"), Dict{})
		junk("F", Str("not an action"), Dict{"F": Str("no")})
		junk("Win", Dict{"F": Str("no"), "P": Str("no")})
		junk("Base", Str("http://no"))
		return d
	}
}

func genHarvest(c *Ctx, n int) *harvest { return genHarvestNamed(c, n, nil) }

func genHarvestNamed(c *Ctx, n int, name func() string) *harvest {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 1, 2))
	maybeEnc(d, 25)
	if d.Enc != nil {
		c.Event("encrypted documents", 1)
	}
	h := &harvest{c: c, r: r, d: d, dumps: map[string][]byte{}, name: name}
	for i := 0; i < n; i++ {
		hd := h.holder()
		if r.P(8) {
			c.Event("nested placement", 1)
			d.Add(wrap(r, hd, r.Range(5, 80)))
		} else if r.P(2) {
			c.Event("among thousands", 1)
			a := Arr{}
			for k := r.Range(1000, 5000); k > 0; k-- {
				a = append(a, Pick[Val](r, Num(k), Null, Str("s"), Name("n"), Arr{}, Dict{}))
			}
			a[Pick(r, r.IntN(len(a)), len(a)-1)] = hd
			if r.Bool() {
				m := Dict{}
				for i, v := range a {
					m[fmt.Sprintf("Z%d", i)] = v
				}
				d.Add(m)
			} else {
				d.Add(a)
			}
		} else {
			place(d, hd)
		}
	}
	fillInert(d, r.IntN(4), GenOpt{Depth: 2, Keys: inertKey, Dyadic: true}, true)
	return h
}

// render writes the document, with dead copies that must not be extracted.
func (h *harvest) render() []byte {
	r, d := h.r, h.d
	if r.P(30) {
		h.c.Event("dead copies", 1)
		ghost := &harvest{c: h.c, r: r, d: d, dumps: map[string][]byte{}, id: 100000}
		n := len(d.Objs)
		for i := r.Range(1, 3); i > 0; i-- {
			o := d.Objs[r.IntN(n)]
			dead := &Obj{N: o.N, G: o.G, V: ghost.uri(ghost.jsItemDirect(Dict{"A": Dict{"S": Name("Launch"), "F": Str(ghost.text("dead"))}, "EmbeddedFiles": Dict{"Names": Arr{Str("x"), Str("dead")}}})), Unlisted: true}
			if r.P(30) {
				// a number that is free
				h.c.Event("freed copies", 1)
				ref := d.Alloc()
				dead.N, dead.G = ref.N, ref.G
				d.Free = append(d.Free, ref)
			}
			d.Objs = append(d.Objs, dead)
		}
	}
	data, ok := d.Render()
	if !ok {
		h.c.Skip()
	}
	return data
}

func (h *harvest) jsItemDirect(a Dict) Dict {
	a["JS"] = Str(h.text("dead"))
	return a
}

// checkDumps compares the dumped files with files.txt and the planted data.
func (h *harvest) checkDumps(res *Result) {
	c := h.c
	for name, data := range res.Files {
		if md5Name.MatchString(name) {
			want, ok := h.dumps[name]
			c.Check(ok, "extra-dump", "unexpected file %s (%d bytes) in the output directory", name, len(data))
			c.Check(bytes.Equal(want, data), "dump", "%s: %s", name, firstDiff(data, want))
			c.Event("dumped files compared", 1)
		}
	}
	for name, want := range h.dumps {
		_, ok := res.Files[name]
		c.Check(ok, "missing-dump", "file %s (%d bytes, %.40q) is missing", name, len(want), want)
	}
}

func runC14(c *Ctx) {
	n := c.R.Range(1, 12)
	if c.R.P(5) {
		n = c.R.Range(12, 60)
	}
	h := genHarvest(c, n)
	data := h.render()
	res := c.ParseOK(h.d, data)
	c.CheckPieces(res, "urls.txt", h.urls)
	c.CheckPieces(res, "javascript.js", h.js)
	c.CheckPieces(res, "commands.txt", h.cmds)
	c.Sig(data)
	c.Sample("urls %.200q js %.100q commands %.100q", h.urls, h.js, h.cmds)
}

func runC15(c *Ctx) {
	n := c.R.Range(1, 10)
	h := genHarvest(c, n)
	data := h.render()
	res := c.ParseOK(h.d, data)
	c.CheckPieces(res, "files.txt", h.files)
	h.checkDumps(res)
	c.Sig(data)
	c.Sample("files %.400q", h.files)
}
