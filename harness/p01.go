package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C01", Quick: 10000, Thorough: 1500000, Run: runC01, CPU: 90,
		Rule:   "one input (hostile families, mutated documents, damaged encryption, long chains, token soup, direct calls) after which the process was still alive (hash of the input)",
		Need:   append([]string{"library parses", "objects read", "accessor calls", "command line runs", "verbose runs", "mutated documents", "mutated test files", "damaged encryption", "unaligned ciphertext", "token soup", "long chains", "repetitions", "inputs of parse errors", "encrypted loads"}, directNeeds(familyNames())...),
		Assume: []string{"workers run with a stack limit of 16 MB (the default is 1 GB), so recursion in proportion to the input's length is seen on inputs of a few megabytes"},
	})
}

func familyNames() []string {
	var s []string
	for _, f := range families {
		s = append(s, f.name)
	}
	return s
}

const c01Stack = 16 << 20

func runC01(c *Ctx) {
	r := c.R
	defer debug.SetMaxStack(debug.SetMaxStack(c01Stack))
	switch k := r.IntN(1000); {
	case k < 420:
		for i := 0; i < 4; i++ {
			data, what := hostileDoc(c)
			c.hammer(data, Pick(r, "", "", plainWord(r)), what)
			if r.P(40) {
				c.hammer(mutate(r, data), "", what+", mutated")
			}
		}
	case k < 640:
		data, pw := c.sureDoc()
		for i := 0; i < 4; i++ {
			c.hammer(mutate(r, data), Pick(r, pw, pw, pw, "wrong"), "mutated document")
			c.Event("mutated documents", 1)
		}
	case k < 760:
		data := testFile(r)
		if data == nil {
			c.Skip()
		}
		for i := 0; i < 4; i++ {
			c.hammer(mutate(r, data), Pick(r, "", "", plainWord(r)), "mutated test file")
			c.Event("mutated test files", 1)
		}
	case k < 860:
		c.brokenCrypt()
	case k < 920:
		for i := 0; i < 4; i++ {
			c.hammer(soup(r), "", "token soup")
			c.Event("token soup", 1)
		}
	case k < 955:
		c.directFilters()
	case k < 999:
		c.directParser()
	default:
		if r.P(12) {
			c.bomb()
		} else {
			c.longChain()
		}
	}
	if r.P(6) {
		c.repetition()
	}
}

// repetition is one short piece of text a hundred thousand times over, wherever text can be: what
// recurs per token, instead of looping, runs out of stack here.
func (c *Ctx) repetition() {
	r := c.R
	piece := Pick(r, "%\n", "% \r", "%%\n", "%x\r\n", " ", "\n", "\r", "\x00", "\t\n", "(", ")", "()", "(\\", "\\(", "\\\n", "\\8", "\\0", "\\z", "(a)%\n",
		"<", ">", "<>", "<0>", "z", "g", "~", "!", "z!", "0", "1", "-", ".", "+", "1 ", "1 0 ", "0 0 0 ", "1 0 R ", "/", "/ ", "/#", "#", "#2", "#20", "#z", "/A ", "[", "]", "[]", "[ ]", "<<>>", ">>", "<< ", "{", "}",
		"null ", "true ", "x ", "R ", "\x80", "\xff", "\x00\x01", "\x81a", "q ", "Q ", "q Q ", "BT ", "ET ", "BT ET ", "T* ", "() Tj ", "(a) ' ", "[] TJ ", "[(a)1] TJ ", "/F Tf ", "/F1 1 Tf ", "ID ", "EI ", "BI ID EI ", "BI ID x EI ",
		"1 beginbfchar <41> <42> endbfchar ", "beginbfchar ", "endbfrange ", "0 beginbfrange ", "<00> <01> <41> ", "<00> <01> ", "1 beginbfrange <00> <01> [<41> <42>] endbfrange ", "usecmap ", "endcmap ")
	if r.P(40) {
		piece = Pick(r, "%\n", "%x\r\n", "(", "(", "()", "\n", "/A ", "1 ", "q ", "x ")
	}
	n := Pick(r, 300, 5000, 150000, 200000, 600000)
	n = min(n, 1200000/len(piece))
	rep := Pick(r, "", "", "(", "<", "/", "[", "<<", "%") + strings.Repeat(piece, n)
	if !strings.ContainsAny(rep, "[<") {
		// the parser may recurse for nested values to a fixed depth, but not for anything else
		defer debug.SetMaxStack(debug.SetMaxStack(8 << 20))
	}
	where := Pick(r, "object", "object", "content", "content", "character map", "junk", "table", "trailer", "data", "head", "dictionary")
	what := fmt.Sprintf("%d repetitions of %q in %s", n, piece, where)
	h := &hb{c: c, r: r, offs: map[int]int{}, next: 0}
	h.buf.WriteString("%PDF-1.7\n")
	switch where {
	case "head", "junk":
		h.buf.WriteString(rep + "\n")
		h.page(h.obj("<<>>"), "BT ET")
	case "object":
		h.obj(rep)
	case "dictionary":
		h.obj("<</A " + rep + ">>")
	case "content":
		h.page(h.obj("<<>>"), rep)
	case "character map":
		h.page(h.stream("", []byte(rep)), "BT /F1 12 Tf "+textOps(h)+" ET")
	case "data":
		f := Pick(r, "/ASCIIHexDecode", "/ASCII85Decode", "/RunLengthDecode", "/FlateDecode", "/LZWDecode")
		h.stream("/Filter"+f, []byte(rep))
	}
	root := h.obj("<</Type/Catalog" + strings.Join(h.root, "") + ">>")
	start := h.buf.Len()
	h.buf.WriteString("xref\n")
	if where == "table" {
		h.buf.WriteString(rep + "\n")
	}
	h.buf.WriteString("0 1\n0000000000 65535 f \n")
	for n := 1; n <= h.next; n++ {
		fmt.Fprintf(&h.buf, "%d 1\n%010d 00000 n \n", n, h.offs[n])
	}
	fmt.Fprintf(&h.buf, "trailer\n<</Root %d 0 R/Size %d", root, h.next+1)
	if where == "trailer" {
		h.buf.WriteString("/X " + rep)
	}
	fmt.Fprintf(&h.buf, ">>\nstartxref\n%d\n%%%%EOF", start)
	c.hammer(h.buf.Bytes(), "", what)
	c.Event("repetitions", 1)
}

// bomb is a small stream that decodes to more than fits into any memory.
func (c *Ctx) bomb() {
	r := c.R
	seed := bytes.Repeat([]byte{0x81}, 80)
	f, n := strings.Repeat("/RunLengthDecode ", 7), 7
	if r.Bool() {
		seed, _ = hex.DecodeString(zeros3)
		n = 3
		f = strings.Repeat("/FlateDecode ", n)
	}
	data := []byte(fmt.Sprintf("%%PDF-1.4\n1 0 obj<</Filter[%s]/Length %d>>stream\n%s\nendstream endobj\n", f, len(seed), seed))
	os.WriteFile(filepath.Join(c.Dir, "what"), []byte("decode bomb"), 0644)
	os.WriteFile(filepath.Join(c.Dir, "in.pdf"), data, 0644)
	c.Watchdog("bomb")
	p, _ := Load(bytes.NewReader(data), "")
	o := p.GetObject(1)
	c.Check(o != nil, "bomb", "no object")
	c.Event("decode bombs", 1)
	c.Event("decode bomb bytes", len(o.Stream))
	o = nil
	debug.FreeOSMemory()
}

// hammer drives everything the library offers over one input; surviving is the verdict.
func (c *Ctx) hammer(data []byte, pw, what string) {
	r := c.R
	c.Sig(data, pw)
	c.Eval()
	c.Attach("password", []byte(pw))
	c.Attach("what", []byte(what))
	c.Watchdog(what)
	in := c.WriteFile("in.pdf", data)
	os.WriteFile(filepath.Join(c.Dir, "password"), []byte(pw), 0644)

	verbose := r.P(20)
	parse := func() {
		if err := pdf.Parse(in, pw, filepath.Join(c.Dir, "out")); err != nil {
			c.Event("inputs of parse errors", 1)
		}
	}
	if verbose {
		c.captureStderr(func() {
			pdf.Verbose = &verbose
			defer func() { pdf.Verbose = nil }()
			parse()
		})
		c.Event("verbose runs", 1)
	} else {
		parse()
	}
	c.Event("library parses", 1)

	if r.P(50) {
		var out *pdf.Output
		p := pdf.NewParser(bytes.NewReader(data), out)
		if err := p.Load(pw); err != nil && r.P(50) {
			p.SetPassword(pw + "x")
		}
		c.touchAll(p)
	}
	if r.P(2) {
		args := []string{"-f", "-p", strings.ReplaceAll(pw, "\x00", "0")}
		if r.Bool() {
			args = append(args, "-v")
		}
		c.CheckAlive(c.RunCLI(c.Dir, nil, append(args, in, filepath.Join(c.Dir, "cli"))...), what)
		c.Event("command line runs", 1)
	}
	c.Sample("%s: %d bytes", what, len(data))
}

// touchAll reads every object and calls every accessor on what is found.
func (c *Ctx) touchAll(p *pdf.Parser) {
	r := c.R
	nums := []int{0, -1, 1, 1 << 40, r.IntN(100)}
	for n := range p.Xref {
		if len(nums) > 300 {
			break
		}
		nums = append(nums, n)
	}
	steps := 0
	for _, n := range nums {
		o := p.GetObject(n)
		c.Check(o != nil && o.Value != nil, "nil", "GetObject(%d) delivered nothing", n)
		c.Event("objects read", 1)
		_ = o.String()
		c.touch(p, o.Value, 0, &steps)
	}
	p.GetObject(nums[0])
}

func (c *Ctx) touch(p *pdf.Parser, v pdf.Object, depth int, steps *int) {
	if depth > 6 || *steps > 150 {
		return
	}
	*steps++
	switch x := v.(type) {
	case pdf.Dictionary:
		keys := []string{"absent"}
		for k := range x {
			keys = append(keys, k)
		}
		for _, k := range keys {
			x.GetArray(k)
			x.GetBool(k)
			x.GetBytes(k)
			x.GetDictionary(k)
			x.GetInt(k)
			x.GetInt64(k)
			x.GetName(k)
			x.GetNameTreeMap(k)
			x.GetNumber(k)
			x.GetPageTree(k)
			x.GetReference(k)
			x.GetStream(k)
			x.GetString(k)
			if w, ok := x.GetObject(k); ok {
				c.touch(p, w, depth+1, steps)
			}
			c.Event("accessor calls", 14)
		}
	case pdf.Array:
		for i := -1; i <= len(x) && i < 100; i++ {
			x.GetArray(i)
			x.GetBool(i)
			x.GetBytes(i)
			x.GetDictionary(i)
			x.GetInt(i)
			x.GetInt64(i)
			x.GetName(i)
			x.GetNumber(i)
			x.GetStream(i)
			x.GetString(i)
			if w, ok := x.GetObject(i); ok {
				c.touch(p, w, depth+1, steps)
			}
			c.Event("accessor calls", 11)
		}
	case *pdf.Reference:
		x.Resolve()
		x.ResolveStream()
		_ = x.String()
	case nil:
	default:
		_ = x.String()
	}
}

var testFiles [][]byte
var testFilesRead bool

// testFile is one of the documents the repository's own tests use.
func testFile(r *Rand) []byte {
	if !testFilesRead {
		testFilesRead = true
		names, _ := filepath.Glob("/repo/pdf/test/*.pdf")
		for _, n := range names {
			if b, err := os.ReadFile(n); err == nil && len(b) < 1<<20 {
				testFiles = append(testFiles, b)
			}
		}
	}
	if len(testFiles) == 0 {
		return nil
	}
	return testFiles[r.IntN(len(testFiles))]
}

// brokenCrypt is a document whose password is right but whose encryption is damaged.
func (c *Ctx) brokenCrypt() {
	r := c.R
	d := cryptDoc(c)
	if r.P(60) {
		// ciphertext of any length
		for _, o := range d.Objs {
			if r.P(60) {
				o.NoEncrypt = true
				c.Event("unaligned ciphertext", 1)
			}
		}
	}
	if r.P(70) {
		d.MutEnc = func(encrypt, trailer Dict) {
			for k := r.Range(1, 2); k > 0; k-- {
				t := encrypt
				if cf, ok := encrypt["CF"].(Dict); ok && r.P(60) {
					names := sortedKeys(cf)
					if len(names) > 0 {
						if f, ok := cf[names[r.IntN(len(names))]].(Dict); ok {
							// the filter dictionaries belong to the document's model
							t = f
						} else {
							t = cf
						}
					}
				} else if r.P(15) {
					t = trailer
				}
				keys := append(sortedKeys(t), "Length", "EFF", "StmF")
				key := keys[r.IntN(len(keys))]
				switch r.IntN(5) {
				case 0:
					delete(t, key)
				case 1:
					t[key] = Num(Pick(r, -1, 0, 1, 4, 5, 8, 15, 16, 17, 24, 39, 40, 41, 127, 128, 129, 256, 1<<31-1, -1<<31, 1<<40))
				case 2:
					t[key] = Pick[Val](r, Null, True, Arr{}, Dict{}, Str(""), Name(""), Name("Identity"), Ref{1, 0}, Arr{Num(1)}, Str(r.Bytes(r.IntN(50))))
				case 3:
					if s, ok := t[key].(Str); ok && len(s) > 0 {
						t[key] = s[:r.IntN(len(s))]
					}
				default:
					t["Length"] = Num(r.Range(-10, 300))
				}
			}
		}
	}
	var data []byte
	func() {
		defer func() {
			if e := recover(); e != nil {
				if s := fmt.Sprint(e); strings.Contains(s, "interface conversion") || strings.Contains(s, "nil pointer") {
					c.Skip()
				}
				panic(e)
			}
		}()
		data, _ = d.Render()
	}()
	c.Event("damaged encryption", 1)
	pw := d.Password()
	if _, err := Load(bytes.NewReader(data), pw); err == nil {
		c.Event("encrypted loads", 1)
	}
	c.hammer(data, pw, "damaged encryption: "+d.Enc.Explain)
	c.hammer(mutate(r, data), pw, "mutated encrypted document")
}

// soup is a random sequence of tokens.
func soup(r *Rand) []byte {
	var s bytes.Buffer
	if r.Bool() {
		s.WriteString("%PDF-1.4\n")
	}
	if r.P(10) {
		return r.Bytes(r.IntN(3000))
	}
	for k := r.SkewLen(500); k > 0; k-- {
		s.WriteString(Pick(r, "1 0 obj", "2 0 obj ", "endobj\n", "<<", ">>", "[", "]", "(", ")", "<", ">", "/Type", "/XRef", "/W[1 1 1]", "/Index", "/Size 3", "/Filter", "/FlateDecode", "/Length 5", "stream\n", "endstream", "xref\n", "0 1\n", "0000000000 00000 n\n", "trailer", "startxref\n", "%%EOF", "1 0 R", "2 0 R", "/Kids", "/Pages", "/Contents", "/A", "/URI", "/JS", "/EmbeddedFiles", "/Encrypt", "null", "true", "-1", "1.5", "\\", "#", "%", "\r", "\n", "\x00", " ", "/", "xref", "obj", "R", "\xff", hnum(r)))
		s.WriteString(Pick(r, " ", " ", "", "\n"))
	}
	if r.Bool() {
		fmt.Fprintf(&s, "\nstartxref %d %%%%EOF", r.IntN(s.Len()+1))
	}
	return s.Bytes()
}

// NewSpellText is a plausible sequence of objects.
func NewSpellText(r *Rand) string {
	var s strings.Builder
	for k := r.Range(1, 20); k > 0; k-- {
		s.WriteString(show(GenVal(r, GenOpt{Depth: 4})) + " ")
	}
	return s.String()
}

// longChain is a document whose structure is one long chain.
func (c *Ctx) longChain() {
	r := c.R
	n := 90000
	var b bytes.Buffer
	b.WriteString("%PDF-1.4\n")
	kind := Pick(r, "references", "page tree", "name tree", "nesting", "xref streams")
	body := map[string]string{"references": "%d 0 obj %d 0 R endobj\n", "page tree": "%d 0 obj<</Kids[%d 0 R]>>endobj\n", "name tree": "%d 0 obj<</Kids[%d 0 R]>>endobj\n"}[kind]
	switch kind {
	case "nesting":
		b.WriteString("1 0 obj " + strings.Repeat(Pick(r, "[", "<</A ", "[<</K["), n) + "\nendobj\n")
	case "xref streams":
		defer debug.SetMaxStack(debug.SetMaxStack(256 << 20)) // a long but limited chain is followed
		n = 2000
		for i := 1; i <= n; i++ {
			next := b.Len() + len("0000000 0 obj<</W[1 1 1]/Size 0/Prev 0000000000>>stream\n\nendstream\n")
			fmt.Fprintf(&b, "%07d 0 obj<</W[1 1 1]/Size 0/Prev %010d>>stream\n\nendstream\n", i, next)
		}
		b.WriteString("startxref 9 %%EOF")
	default:
		for i := 1; i <= n; i++ {
			fmt.Fprintf(&b, body, i, i+1)
		}
	}
	data := b.Bytes()
	c.Sig(data)
	os.WriteFile(filepath.Join(c.Dir, "what"), []byte("chain: "+kind), 0644)
	os.WriteFile(filepath.Join(c.Dir, "in.pdf"), data[:min(len(data), 4096)], 0644)
	c.Attach("what", []byte("chain: "+kind))
	c.Watchdog(kind)
	p, _ := Load(bytes.NewReader(data), "")
	first := pdf.Dictionary{"X": pdf.NewReference(p, 1, 0)}
	switch kind {
	case "page tree":
		l, _ := first.GetPageTree("X")
		c.Check(len(l) == n, "chain", "page tree of %d levels delivered as %d pages", n, len(l))
	case "name tree":
		first.GetNameTreeMap("X")
	case "references":
		first.GetObject("X")
		first.GetStream("X")
	default:
		o := p.GetObject(1)
		_ = o.String()
	}
	c.Eval()
	c.Event("long chains", 1)
	c.Event("chain of "+kind, 1)
}

// zeros3 is a thousand million zero bytes, deflated three times.
const zeros3 = "78daabb8f5f68eadde524689b687ef5b0e79487049f5a666a8f8289ed2f4d1155b70ddb2f385e9b5859b18e6cafe58a9e3e0b22ca0d3b8f09ac1d5f2f8eb42f73e9d9cfdfbcdcfaf7946926d89555f4b3f6fdb62c30004cae6b5bb227ec831b7bdbd79f8e07b7ba0c8811b73ffc4c4cee9679a7f3cfaf73946a0c8e2f29dbb379bfd17f8515db7eb850c50c0a04a5a5ebffab3ee83bab2dd754fe4c022fd4d20a513942440a6ea823917201c4364cea8cca8cca8cca8cca8cc909229fafbd1e8ef3ca66fefd2f9b5edd91818fe4dff7ef670fce127f2a5932edd03005d392091"
