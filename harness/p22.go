package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C22", Quick: 9000, Thorough: 300000, Run: runC22,
		Rule: "one document read through one random history of calls and modifications of returned values (hash of file and history)",
		Need: []string{"calls compared with a fresh parser", "returned values modified", "returned streams modified", "held values checked again", "references resolved", "accessor calls", "pages delivered", "repeated parses compared", "parsers interleaved", "encrypted documents", "damaged documents"},
	})
}

func text(o pdf.Object) string {
	var sb strings.Builder
	showTo(&sb, fromPDF(o))
	return sb.String()
}

func objText(o *pdf.IndirectObject) string {
	st := "no stream"
	if o.Stream != nil {
		st = fmt.Sprintf("stream %q", o.Stream)
	}
	return fmt.Sprintf("%d %d %s %s", o.Number, o.Generation, text(o.Value), st)
}

// vandalize modifies a returned value in every way a caller can.
func vandalize(r *Rand, o pdf.Object, depth int) {
	if depth > 20 {
		return
	}
	switch x := o.(type) {
	case pdf.Array:
		for i := range x {
			vandalize(r, x[i], depth+1)
			if r.P(70) {
				x[i] = pdf.Name("vandal")
			}
		}
		_ = append(x, pdf.Name("vandal"))
	case pdf.Dictionary:
		for _, k := range sortedKeys(x) {
			vandalize(r, x[k], depth+1)
			switch r.IntN(3) {
			case 0:
				delete(x, k)
			case 1:
				x[k] = pdf.Name("vandal")
			}
		}
		x["Vandal"] = pdf.Name("vandal")
		x["Length"] = pdf.Number(3)
	case *pdf.Reference:
		if r.P(50) {
			x.Number, x.Generation = 424242, 7
		}
	}
}

type held struct {
	what string
	show func() string
	want string
}

func runC22(c *Ctx) {
	r := c.R
	var data []byte
	var pw string
	if r.P(25) {
		b := newBook(c, 8, 2)
		data = b.finish(b.tree(r.IntN(3), 3, nil, nil))
		pw = b.d.PasswordFixed()
	} else {
		data, pw = c.anyDoc()
	}
	c.Attach("in.pdf", data)
	c.Attach("password", []byte(pw))
	if r.P(25) {
		c.repeatParse(data, pw)
		c.Sig(data, "parse")
		return
	}
	np := 1
	if r.P(30) {
		np = r.Range(2, 3)
		c.Event("parsers interleaved", np)
	}
	var ps []*pdf.Parser
	var lerr0 error
	for i := 0; i < np; i++ {
		p, err := Load(bytes.NewReader(data), pw)
		if i == 0 {
			lerr0 = err
		}
		c.Check(fmt.Sprint(err) == fmt.Sprint(lerr0), "load", "the same file loads with %v and then with %v", lerr0, err)
		ps = append(ps, p)
	}
	if lerr0 != nil {
		return
	}
	nums := sortedIntKeys(ps[0].Xref)
	if len(nums) == 0 {
		c.Skip()
	}
	for _, p := range ps[1:] {
		c.Check(fmt.Sprint(sortedIntKeys(p.Xref)) == fmt.Sprint(nums), "xref", "two parsers of the same file know different objects: %v and %v", nums, sortedIntKeys(p.Xref))
	}
	fresh := func() *pdf.Parser {
		p, err := Load(bytes.NewReader(data), pw)
		c.Check(err == nil, "load", "the file loaded before, now Load returns %v", err)
		return p
	}
	// what a parser says that has done nothing before
	memo := map[string]string{}
	base := func(key string, f func(p *pdf.Parser) string) string {
		if v, ok := memo[key]; ok {
			return v
		}
		memo[key] = f(fresh())
		return memo[key]
	}
	var hist strings.Builder
	var holds []held
	compare := func(key, got string, f func(p *pdf.Parser) string) {
		want := base(key, f)
		c.Check(got == want, "history", "after %d calls, %s: %s", strings.Count(hist.String(), ";"), key, firstDiff([]byte(got), []byte(want)))
		c.Event("calls compared with a fresh parser", 1)
	}
	pick := func() int {
		if r.P(8) {
			return nums[len(nums)-1] + r.Range(1, 50)
		}
		return nums[r.IntN(len(nums))]
	}
	steps := r.Range(4, 40)
	for i := 0; i < steps; i++ {
		p := ps[r.IntN(len(ps))]
		n := pick()
		op := r.IntN(8)
		fmt.Fprintf(&hist, "%d:%d;", op, n)
		c.Attach("history.txt", []byte(hist.String()))
		switch op {
		case 0, 1, 2:
			o := p.GetObject(n)
			f := func(p *pdf.Parser) string { return objText(p.GetObject(n)) }
			compare(fmt.Sprintf("object %d", n), objText(o), f)
			if r.P(40) {
				vandalize(r, o.Value, 0)
				c.Event("returned values modified", 1)
				for j := range o.Stream {
					o.Stream[j] ^= 0xff
				}
				if len(o.Stream) > 0 {
					c.Event("returned streams modified", 1)
				}
				_ = append(o.Stream, "vandal"...)
			} else {
				holds = append(holds, held{fmt.Sprintf("object %d", n), func() string { return objText(o) }, objText(o)})
			}
		case 3:
			c.Event("references resolved", 1)
			ref := pdf.NewReference(p, n, 0)
			v := ref.Resolve()
			compare(fmt.Sprintf("resolving %d", n), text(v), func(p *pdf.Parser) string { return text(pdf.NewReference(p, n, 0).Resolve()) })
			if r.P(40) {
				vandalize(r, v, 0)
				c.Event("returned values modified", 1)
			} else {
				holds = append(holds, held{fmt.Sprintf("value of %d", n), func() string { return text(v) }, text(v)})
			}
		case 4:
			c.Event("references resolved", 1)
			b := pdf.NewReference(p, n, 0).ResolveStream()
			compare(fmt.Sprintf("resolving the stream of %d", n), fmt.Sprintf("%q", b), func(p *pdf.Parser) string {
				return fmt.Sprintf("%q", pdf.NewReference(p, n, 0).ResolveStream())
			})
			if len(b) > 0 && r.P(60) {
				for j := range b {
					b[j] = 'V'
				}
				c.Event("returned streams modified", 1)
			}
		case 5, 6:
			c.Event("accessor calls", 1)
			acc := Pick(r, "array", "bytes", "dict", "name", "tree", "object", "stream", "string", "int")
			ask := func(p *pdf.Parser) string {
				d, ok := p.GetObject(n).Value.(pdf.Dictionary)
				if !ok {
					a, ok := p.GetObject(n).Value.(pdf.Array)
					if !ok {
						return "neither"
					}
					var sb strings.Builder
					for i := range a {
						v, ok := a.GetObject(i)
						s, ok2 := a.GetStream(i)
						fmt.Fprintf(&sb, "%s %v %q %v|", text(v), ok, s, ok2)
					}
					return sb.String()
				}
				var sb strings.Builder
				for _, k := range sortedKeys(d) {
					switch acc {
					case "array":
						v, ok := d.GetArray(k)
						fmt.Fprintf(&sb, "%s %v|", text(v), ok)
					case "bytes":
						v, ok := d.GetBytes(k)
						fmt.Fprintf(&sb, "%q %v|", v, ok)
					case "dict":
						v, ok := d.GetDictionary(k)
						fmt.Fprintf(&sb, "%s %v|", text(v), ok)
					case "name":
						v, ok := d.GetName(k)
						fmt.Fprintf(&sb, "%q %v|", v, ok)
					case "tree":
						fmt.Fprintf(&sb, "%s|", text(d.GetNameTreeMap(k)))
					case "object":
						v, ok := d.GetObject(k)
						fmt.Fprintf(&sb, "%s %v|", text(v), ok)
					case "stream":
						v, ok := d.GetStream(k)
						fmt.Fprintf(&sb, "%q %v|", v, ok)
					case "string":
						v, ok := d.GetString(k)
						fmt.Fprintf(&sb, "%q %v|", v, ok)
					default:
						v, ok := d.GetInt(k)
						fmt.Fprintf(&sb, "%d %v|", v, ok)
					}
				}
				return sb.String()
			}
			compare(fmt.Sprintf("%s accessor on %d", acc, n), ask(p), ask)
		default:
			pages := func(p *pdf.Parser) string {
				var sb strings.Builder
				for _, n := range nums {
					d, ok := p.GetObject(n).Value.(pdf.Dictionary)
					if !ok {
						continue
					}
					if _, ok := d["Pages"]; !ok {
						continue
					}
					t, ok := d.GetPageTree("Pages")
					fmt.Fprintf(&sb, "%v:", ok)
					for _, pg := range t {
						fmt.Fprintf(&sb, "%s|", text(pg))
					}
					c.Event("pages delivered", len(t))
					if r.P(30) {
						for _, pg := range t {
							vandalize(r, pg, 0)
						}
					}
				}
				return sb.String()
			}
			compare("page trees", pages(p), pages)
		}
	}
	for _, h := range holds {
		c.Check(h.show() == h.want, "aliasing", "%s, returned earlier, was changed by later calls: %s", h.what, firstDiff([]byte(h.show()), []byte(h.want)))
		c.Event("held values checked again", 1)
	}
	c.Sig(data, hist.String())
	c.Sample("%d objects, history %s", len(nums), hist.String())
}

// repeatParse parses the same file several times, with other work in between.
func (c *Ctx) repeatParse(data []byte, pw string) {
	r := c.R
	in := filepath.Join(c.Dir, "in.pdf")
	Must(os.WriteFile(in, data, 0644))
	var want map[string]string
	var wantErr string
	for i := r.Range(2, 4); i > 0; i-- {
		out := filepath.Join(c.Dir, Pick(r, "a", "b", "c"))
		err := pdf.Parse(in, pw, out)
		got := normalOut(ReadOut(out))
		if want == nil {
			want, wantErr = got, fmt.Sprint(err)
		} else {
			c.Check(fmt.Sprint(err) == wantErr, "parse-error", "parsing the same file again returned %v instead of %v", err, wantErr)
			c.sameOutput(got, want, "the same file parsed again")
			c.Event("repeated parses compared", 1)
		}
		if r.P(30) {
			other, opw := c.anyDoc()
			oin := filepath.Join(c.Dir, "other.pdf")
			Must(os.WriteFile(oin, other, 0644))
			pdf.Parse(oin, opw, filepath.Join(c.Dir, "other"))
		}
	}
}
