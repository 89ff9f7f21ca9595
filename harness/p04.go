package main

import (
	"bytes"
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C04", Quick: 36000, Thorough: 720000, Run: runC04,
		Rule: "one file with planted abnormalities (or provably none), its messages and all surviving values checked (hash of the file)",
		Need: append([]string{"clean files", "abnormal files", "neighbours compared", "streams behind abnormal dictionaries"}, messageEvents()...),
	})
}

// the messages documented in README.md
var messages = []string{
	"invalid dictionary key type",
	"invalid hex string character",
	"invalid name escape character",
	"invalid octal in string",
	"missing dictionary value",
	"unclosed array",
	"unclosed dictionary",
	"unclosed hex string",
	"unclosed stream",
	"unclosed string",
	"unclosed escape in string",
	"unclosed octal in string",
	"unnecessary espace sequence in name",
	"unnecessary espace sequence in string",
}

func messageEvents() []string {
	var e []string
	for _, m := range messages {
		e = append(e, "planted: "+m)
	}
	return e
}

// patterns for values that are only partly determined
type (
	anyVal   struct{}
	strPat   struct{ pre, suf string } // a string that starts and ends like this
	arrStart struct{ a Arr }           // an array that starts with these elements
	dictWith struct{ d Dict }          // a dictionary with at least these entries
)

func diffPat(path string, got, want Val) string {
	switch w := want.(type) {
	case anyVal:
		return ""
	case strPat:
		g, ok := got.(Str)
		if !ok || !strings.HasPrefix(string(g), w.pre) || !strings.HasSuffix(string(g), w.suf) || len(g) < len(w.pre)+len(w.suf) {
			return fmt.Sprintf("%s: got %s, want a string starting %q and ending %q", path, show(got), w.pre, w.suf)
		}
		return ""
	case arrStart:
		g, ok := got.(Arr)
		if !ok || len(g) < len(w.a) {
			return fmt.Sprintf("%s: got %s, want an array starting with %d elements", path, show(got), len(w.a))
		}
		return diffPat(path, g[:len(w.a)], w.a)
	case dictWith:
		g, ok := got.(Dict)
		if !ok {
			return fmt.Sprintf("%s: got %s, want a dictionary", path, show(got))
		}
		for _, k := range sortedKeys(w.d) {
			gv, ok := g[k]
			if !ok {
				if _, any := w.d[k].(anyVal); any {
					continue
				}
				return fmt.Sprintf("%s/%q: entry is missing", path, k)
			}
			if d := diffPat(path+"/"+k, gv, w.d[k]); d != "" {
				return d
			}
		}
		return ""
	case Arr:
		g, ok := got.(Arr)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s: got %s, want an array of %d elements", path, show(got), len(w))
		}
		for i := range w {
			if d := diffPat(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
		return ""
	case Dict:
		g, ok := got.(Dict)
		if !ok {
			return fmt.Sprintf("%s: got %s, want a dictionary", path, show(got))
		}
		for _, k := range sortedKeys(g) {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s/%q: unexpected entry %s", path, k, show(g[k]))
			}
		}
		return diffPat(path, got, dictWith{w})
	}
	return diffAt(path, got, want)
}

// abnormal text under construction
type abn struct {
	c       *Ctx
	r       *Rand
	s       *Spell
	must    map[string]bool
	may     map[string]bool
	oneOf   [][]string
	planted int
	open    bool // an unclosed construct was written: nothing may follow
	closers string
}

func (a *abn) plant(m string) {
	a.must[m] = true
	a.planted++
	a.c.Event("planted: "+m, 1)
}

func (a *abn) letters(max int) string {
	b := make([]byte, a.r.IntN(max+1))
	for i := range b {
		b[i] = byte(a.r.Range('g', 'm'))
	}
	return string(b)
}

// closed writes one abnormal token that has an end and returns what is known about its value.
func (a *abn) closed() Val { return a.closedKind(a.r.IntN(5)) }

func (a *abn) closedKind(kind int) Val {
	r := a.r
	switch kind {
	case 0: // illegal characters between hex digits
		a.plant("invalid hex string character")
		raw := genStrBytes(r, 40)
		hex := []byte(fmt.Sprintf("%x", raw))
		n := r.Range(1, 4)
		if r.P(10) {
			n = r.Range(1, 60)
		}
		for i := 0; i < n; i++ {
			at := r.IntN(len(hex) + 1)
			ill := Pick[byte](r, 'g', 'G', 'z', 'x', '-', '(', ')', '[', ']', '/', '<', '\\', '.', '#', '"', '{', 0x80, 0xff, 0x7f, 1, '`', '@', ':')
			hex = append(hex[:at], append([]byte{ill}, hex[at:]...)...)
		}
		// "<<" would open a dictionary
		if hex[0] == '<' {
			hex[0] = 'q'
		}
		a.s.Tok("<" + string(hex) + ">")
		return Str(raw)
	case 3: // illegal characters in a name escape
		a.plant("invalid name escape character")
		a.may["unnecessary espace sequence in name"] = true
		t := "/" + a.letters(3) + "#" + Pick(r, "", "4", "f", "0", "2") + Pick(r, "g", "x", "-", "Z", "_", "")
		if t[len(t)-1] == '#' || isHexDigit(t[len(t)-1]) {
			// the escape is cut by the end of the name
			a.s.Tok(t)
			a.s.Raw(Pick(r, " ", "\n", "\r", "\t"))
			a.s.regular = false
		} else {
			a.s.Tok(t + a.letters(3))
		}
		return anyVal{}
	case 1: // octal code above 377
		a.plant("invalid octal in string")
		a.may["unnecessary espace sequence in string"] = true
		pre, suf := a.letters(5), a.letters(5)
		a.s.Tok(fmt.Sprintf("(%s\\%o%s)", pre, r.Range(256, 511), suf))
		return strPat{pre, suf}
	case 2: // unnecessary octal code
		a.plant("unnecessary espace sequence in string")
		pre, suf := a.letters(5), a.letters(5)
		ch := byte(r.Range('!', '~'))
		for ch == '(' || ch == ')' || ch == '\\' {
			ch = byte(r.Range('!', '~'))
		}
		t := fmt.Sprintf("\\%o", ch)
		if r.Bool() {
			t = fmt.Sprintf("\\%03o", ch)
		}
		a.s.Tok("(" + pre + t + suf + ")")
		return Str(pre + string([]byte{ch}) + suf)
	default:
		a.plant("unnecessary espace sequence in name")
		pre, suf := a.letters(4), a.letters(4)
		ch := byte(r.Range('!', '~'))
		for !isRegular(ch) || ch == '#' {
			ch = byte(r.Range('!', '~'))
		}
		f := "#%02x"
		if r.Bool() {
			f = "#%02X"
		}
		a.s.Tok("/" + pre + fmt.Sprintf(f, ch) + suf)
		return Name(pre + string([]byte{ch}) + suf)
	}
}

func isHexDigit(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

func (a *abn) plain(depth int) Val {
	v := GenVal(a.r, GenOpt{Depth: depth, Keys: inertKey, Dyadic: true, MaxStr: 40})
	a.s.Val(v)
	a.c.Event("neighbours compared", 1)
	return v
}

// value writes a value; at depth 0 it is certainly one of the abnormal tokens, or the unclosed construct.
func (a *abn) value(depth int, unclosed bool) Val {
	r := a.r
	if depth <= 0 {
		if unclosed {
			return a.unclosed()
		}
		if r.P(25) {
			return a.dict(0, false, true)
		}
		return a.closed()
	}
	if r.Bool() {
		a.s.Tok("[")
		arr := Arr{}
		for r.P(50) {
			arr = append(arr, a.side())
		}
		arr = append(arr, a.value(depth-1, unclosed))
		if a.open {
			return arrStart{arr}
		}
		for r.P(50) {
			arr = append(arr, a.side())
		}
		a.s.Tok("]")
		return arr
	}
	return a.dict(depth, unclosed, false)
}

// side is a neighbour, mostly well formed.
func (a *abn) side() Val {
	if a.r.P(10) {
		return a.closed()
	}
	return a.plain(1)
}

func (a *abn) key(d Dict) string {
	k := inertKey(a.r)
	for _, used := d[k]; used; _, used = d[k] {
		k += "x"
	}
	a.s.Tok("/" + k)
	return k
}

// dict writes a dictionary; bad asks for a wrong key or a missing value.
func (a *abn) dict(depth int, unclosed, bad bool) Val {
	r := a.r
	d := Dict{}
	a.s.Tok("<<")
	entry := func() {
		k := a.key(d)
		d[k] = Null
		d[k] = a.side()
	}
	junk := func() {
		a.plant("invalid dictionary key type")
		switch r.IntN(7) {
		case 0:
			a.s.Val(Num(r.IntN(1000)))
		case 1:
			a.s.Val(Str(a.letters(6)))
		case 2:
			a.s.Val(GenArr(r, GenOpt{Depth: 1, Keys: inertKey}))
		case 3:
			a.s.Val(GenDict(r, GenOpt{Depth: 1, Keys: inertKey}))
		case 4:
			a.s.Val(Ref{r.Range(1, 9), 0})
		case 5:
			a.s.Val(Pick(r, True, False, Null, Kw("foo")))
		default:
			a.closedKind(r.IntN(3)) // a string
		}
	}
	for r.P(50) {
		entry()
	}
	if bad {
		if r.Bool() {
			a.plant("missing dictionary value")
			a.s.Tok("/" + inertKey(r))
			a.s.Tok(">>")
			return d
		}
		n := r.Range(1, 3)
		for i := 0; i < n; i++ {
			junk()
			for r.P(40) {
				entry()
			}
		}
	}
	if depth > 0 {
		k := a.key(d)
		d[k] = Null
		d[k] = a.value(depth-1, unclosed)
		if a.open {
			return dictWith{d}
		}
	}
	for r.P(50) {
		entry()
	}
	a.s.Tok(">>")
	return d
}

// unclosed starts something that is never closed.
func (a *abn) unclosed() Val {
	r := a.r
	a.open = true
	switch r.IntN(7) {
	case 0:
		a.plant("unclosed array")
		a.closers = "]"
		a.s.Tok("[")
		arr := Arr{}
		for r.P(60) {
			arr = append(arr, a.side())
		}
		return arrStart{arr}
	case 1:
		a.closers = ">"
		a.s.Tok("<<")
		d := Dict{}
		for r.P(60) {
			k := a.key(d)
			d[k] = Null
			d[k] = a.side()
		}
		if r.P(30) {
			a.planted++
			a.s.Tok("/" + inertKey(r))
			a.oneOf = append(a.oneOf, []string{"unclosed dictionary", "missing dictionary value"})
		} else {
			a.plant("unclosed dictionary")
		}
		return dictWith{d}
	case 2:
		a.plant("unclosed hex string")
		a.closers = ">"
		a.s.Tok("<" + strings.Repeat(Pick(r, "41", "4 1", "4"), r.IntN(5)))
		a.s.regular = true
		return anyVal{}
	case 3:
		a.plant("unclosed escape in string")
		a.may["unclosed string"] = true
		a.closers = "*"
		a.s.Tok("(" + a.letters(5) + "\\" + Pick(r, "", "", "\r"))
		return anyVal{}
	case 4:
		a.plant("unclosed octal in string")
		a.closers = "*"
		a.may["unclosed string"] = true
		a.may["unnecessary espace sequence in string"] = true
		a.s.Tok("(" + a.letters(5) + "\\" + Pick(r, "0", "1", "7", "04", "10", "33"))
		return anyVal{}
	default:
		a.plant("unclosed string")
		a.closers = ")"
		pre := a.letters(8)
		if r.P(30) {
			pre += "(" + a.letters(3) + ")" + a.letters(3)
		}
		if r.P(20) {
			pre += "("
		}
		a.s.Tok("(" + pre)
		return strPat{pre, ""}
	}
}

func runC04(c *Ctx) {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 1, 2, 2))
	d.Clean = true
	if r.P(25) {
		maybeEnc(d, 30)
		c.cleanC04(d)
		return
	}
	c.Event("abnormal files", 1)
	fillInert(d, r.IntN(5), GenOpt{Depth: 2, Dyadic: true}, true)
	type abnObj struct {
		o    *Obj
		want Val
		data []byte
	}
	var objs []abnObj
	must, may := map[string]bool{}, map[string]bool{}
	var oneOf [][]string
	newAbn := func() *abn {
		return &abn{c: c, r: r, s: &Spell{R: r, Level: d.Level, Clean: true, NoDup: true}, must: must, may: may}
	}
	for i := r.IntN(4); i >= 0; i-- {
		a := newAbn()
		o := d.Put(d.Alloc(), Null)
		var want Val
		depth := r.IntN(4)
		if r.P(5) {
			depth = r.Range(4, 60)
		}
		stream := r.P(25)
		if stream {
			want = a.dict(depth, false, depth == 0)
			if dd, ok := want.(Dict); ok {
				data := plainWord(r)
				o.Raw = append([]byte{}, a.s.Bytes()...)
				o.Raw = append(o.Raw, []byte(Pick(r, "stream\n", "\nstream\r\n", " stream\n")+data+Pick(r, "\n", "\r\n", "\r", "")+"endstream ")...)
				c.Event("streams behind abnormal dictionaries", 1)
				objs = append(objs, abnObj{o, dd, []byte(data)})
				oneOf = append(oneOf, a.oneOf...)
				continue
			}
		}
		want = a.value(depth, false)
		o.Raw = append([]byte{}, a.s.Bytes()...)
		objs = append(objs, abnObj{o, want, nil})
		oneOf = append(oneOf, a.oneOf...)
	}
	var tail *abn
	var tailObj abnObj
	kind := Pick(r, "table", "stream", "none")
	atEOF := r.P(70)
	d.Kind = kind
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	if r.P(60) {
		tail = newAbn()
		if r.P(20) {
			// an unclosed stream
			tail.plant("unclosed stream")
			tail.closers = "endstream"
			tail.s.Val(Dict{"XK": Num(1)})
			tailObj.want = Dict{"XK": Num(1)}
			content := a2(r)
			tail.s.Raw("stream" + Pick(r, "\n", "\r\n") + content)
			if r.P(20) {
				tail.s.buf.Reset()
				tail.s.Raw("<</XK 1>>stream" + Pick(r, "", "\n", "\r", "\r\n"))
				atEOF = true
			} else {
				tailObj.data = []byte(content)
			}
		} else {
			tailObj.want = tail.value(r.IntN(3), true)
		}
		ref := d.Alloc()
		tailObj.o = &Obj{N: ref.N, G: ref.G}
		head := fmt.Sprintf("\n%d %d obj ", ref.N, ref.G)
		if tail.closers == "*" {
			atEOF = true
		}
		add := append([]byte(head), tail.s.Bytes()...)
		if bytes.Count(add, []byte("obj")) != 1 {
			c.Skip()
		}
		end := ""
		if !atEOF {
			end = "\nendobj\nstartxref\n0\n%%EOF\n"
			if tail.closers == "endstream" {
				tailObj.data = append(tailObj.data, end...)
			}
		}
		// the table before it stays the last one, the object is found by scanning
		add = append(add, end...)
		data = append(data, add...)
		oneOf = append(oneOf, tail.oneOf...)
		// what is open at the end of the file may be reported too
		for _, m := range []string{"unclosed array", "unclosed dictionary", "missing dictionary value", "unclosed string"} {
			may[m] = true
		}
		if !atEOF {
			may["invalid dictionary key type"] = true
			may["invalid hex string character"] = true
		}
		c.Event("unclosed tails", 1)
	}
	in := append([]byte{}, data...)
	res := c.ParseOK(d, in)
	got := map[string]bool{}
	for _, l := range lines(res.Get("errors.txt")) {
		got[l] = true
	}
	for _, m := range sortedKeys(must) {
		c.Check(got[m], "missing-message", "errors.txt does not contain %q (it has %v)", m, sortedKeys(got))
	}
	for _, l := range oneOf {
		okOne := false
		for _, m := range l {
			okOne = okOne || got[m]
			may[m] = true
		}
		c.Check(okOne, "missing-message", "errors.txt contains none of %q (it has %v)", l, sortedKeys(got))
	}
	for _, m := range sortedKeys(got) {
		c.Check(must[m] || may[m], "wrong-message", "errors.txt contains %q, but the file has only %v", m, sortedKeys(must))
	}
	p := c.LoadOK(d, in)
	for _, o := range d.All() {
		if o.Raw == nil {
			c.CheckObj(p, o)
		}
	}
	if tail != nil {
		objs = append(objs, tailObj)
	}
	for _, ao := range objs {
		g := p.GetObject(ao.o.N)
		c.Check(g != nil && g.Number == ao.o.N && g.Generation == ao.o.G, "identity", "object %d %d delivered as %v", ao.o.N, ao.o.G, g)
		df := diffPat("", fromPDF(g.Value), ao.want)
		c.Check(df == "", "neighbour", "object %d (%.300q): %s", ao.o.N, ao.o.Raw, df)
		if ao.data != nil {
			c.Check(bytes.HasPrefix(g.Stream, ao.data) && (ao.o == tailObj.o || len(g.Stream) == len(ao.data)), "stream-neighbour", "object %d: stream %.100q, want %.100q", ao.o.N, g.Stream, ao.data)
		}
	}
	c.Sig(in)
	c.Sample("%v in %.200q", sortedKeys(must), func() []byte {
		if len(objs) > 0 {
			return objs[0].o.Raw
		}
		return nil
	}())
}

func a2(r *Rand) string {
	if r.P(20) {
		return ""
	}
	return strings.Repeat(plainWord(r), r.Range(1, 5))
}

// cleanC04 checks that nothing is reported for files without abnormalities.
func (c *Ctx) cleanC04(d *Doc) {
	r := c.R
	c.Event("clean files", 1)
	fillInert(d, r.Range(1, 12), GenOpt{Depth: 3}, true)
	d.Kind = Pick(r, "table", "stream", "none")
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	if r.P(15) {
		// nothing after the last endobj, or cut inside the trailing line break
		if d.Kind == "none" && d.Enc == nil {
			data = bytes.TrimRight(data, "\r\n \t\x00\f")
			if !bytes.HasSuffix(data, []byte("endobj")) {
				c.Skip()
			}
		}
	}
	res := c.ParseOK(d, data)
	c.Check(len(res.Get("errors.txt")) == 0, "false-message", "errors.txt of a clean file: %.300q", res.Get("errors.txt"))
	c.Sig(data)
}
