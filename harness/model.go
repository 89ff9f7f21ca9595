package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

// The harness's own object model: what a file is meant to say, independent of the code under test.
type Val interface{}
type (
	Name string
	Str  string
	Num  float64
	Kw   string
	Ref  struct{ N, G int }
	Arr  []Val
	Dict map[string]Val
)

const (
	Null  = Kw("null")
	True  = Kw("true")
	False = Kw("false")
)

// show renders a value deterministically for messages and signatures.
func show(v Val) string {
	var sb strings.Builder
	showTo(&sb, v)
	s := sb.String()
	if len(s) > 2000 {
		s = s[:2000] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func showTo(sb *strings.Builder, v Val) {
	switch x := v.(type) {
	case Name:
		fmt.Fprintf(sb, "/%q", string(x))
	case Str:
		fmt.Fprintf(sb, "(%q)", string(x))
	case Num:
		fmt.Fprintf(sb, "%v", float64(x))
	case Kw:
		sb.WriteString(string(x))
	case Ref:
		fmt.Fprintf(sb, "%d %d R", x.N, x.G)
	case Arr:
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(' ')
			}
			showTo(sb, e)
		}
		sb.WriteByte(']')
	case Dict:
		sb.WriteString("<<")
		for _, k := range sortedKeys(x) {
			fmt.Fprintf(sb, "/%q ", k)
			showTo(sb, x[k])
			sb.WriteByte(' ')
		}
		sb.WriteString(">>")
	case nil:
		sb.WriteString("<nil>")
	default:
		fmt.Fprintf(sb, "<%T>", v)
	}
}

// fromPDF converts a value of the code under test.
func fromPDF(o pdf.Object) Val {
	switch x := o.(type) {
	case pdf.Name:
		return Name(x)
	case pdf.String:
		return Str(x)
	case pdf.Number:
		return Num(x)
	case pdf.Keyword:
		return Kw(x)
	case *pdf.Reference:
		return Ref{x.Number, x.Generation}
	case pdf.Array:
		a := make(Arr, len(x))
		for i := range x {
			a[i] = fromPDF(x[i])
		}
		return a
	case pdf.Dictionary:
		d := Dict{}
		for k, e := range x {
			d[k] = fromPDF(e)
		}
		return d
	case nil:
		return nil
	}
	return fmt.Sprintf("<%T>", o)
}

// diffVal returns "" if got denotes the same value as want.
func diffVal(got, want Val) string { return diffAt("", got, want) }

func diffAt(path string, got, want Val) string {
	bad := func() string {
		p := path
		if p == "" {
			p = "the value"
		}
		return fmt.Sprintf("%s: got %s, want %s", p, show(got), show(want))
	}
	switch w := want.(type) {
	case Num:
		g, ok := got.(Num)
		if !ok || math.Abs(float64(g)-float64(w)) > 1e-9*math.Max(1, math.Abs(float64(w))) {
			return bad()
		}
	case Arr:
		g, ok := got.(Arr)
		if !ok {
			return bad()
		}
		for i := range w {
			if i >= len(g) {
				return fmt.Sprintf("%s: array has %d elements, want %d", path, len(g), len(w))
			}
			if d := diffAt(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: array has %d elements, want %d: got %s", path, len(g), len(w), show(got))
		}
	case Dict:
		g, ok := got.(Dict)
		if !ok {
			return bad()
		}
		for _, k := range sortedKeys(w) {
			gv, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s/%q: entry is missing, want %s", path, k, show(w[k]))
			}
			if d := diffAt(fmt.Sprintf("%s/%q", path, k), gv, w[k]); d != "" {
				return d
			}
		}
		for _, k := range sortedKeys(g) {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s/%q: unexpected entry %s", path, k, show(g[k]))
			}
		}
	default:
		if got != want {
			return bad()
		}
	}
	return ""
}

// matchText matches text[pos:] against the printed form of v as used in raw.pdf
// (dictionary entries in any order) and calls next with every possible end.
func matchText(text []byte, pos int, v Val, next func(int) bool) bool {
	lit := func(s string) bool {
		if bytes.HasPrefix(text[pos:], []byte(s)) {
			return next(pos + len(s))
		}
		return false
	}
	switch x := v.(type) {
	case Name:
		return lit("/" + string(x))
	case Str:
		return lit("(" + string(x) + ")")
	case Num:
		e := pos
		for e < len(text) && strings.IndexByte("0123456789+-.e", text[e]) >= 0 {
			e++
		}
		f, err := strconv.ParseFloat(string(text[pos:e]), 64)
		return err == nil && math.Abs(f-float64(x)) <= 1e-9*math.Max(1, math.Abs(float64(x))) && next(e)
	case Kw:
		return lit(string(x))
	case Ref:
		return lit(fmt.Sprintf("%d %d R", x.N, x.G))
	case Arr:
		if pos >= len(text) || text[pos] != '[' {
			return false
		}
		var elem func(i, p int) bool
		elem = func(i, p int) bool {
			if i == len(x) {
				return p < len(text) && text[p] == ']' && next(p+1)
			}
			if i > 0 {
				if p >= len(text) || text[p] != ' ' {
					return false
				}
				p++
			}
			return matchText(text, p, x[i], func(e int) bool { return elem(i+1, e) })
		}
		return elem(0, pos+1)
	case Dict:
		if !bytes.HasPrefix(text[pos:], []byte("<<")) {
			return false
		}
		keys := sortedKeys(x)
		// longest keys first so that a key that is a prefix of another is tried last
		sort.SliceStable(keys, func(i, j int) bool { return len(keys[i]) > len(keys[j]) })
		used := make([]bool, len(keys))
		var entry func(left, p int) bool
		entry = func(left, p int) bool {
			if left == 0 {
				return bytes.HasPrefix(text[p:], []byte(">>")) && next(p+2)
			}
			for i, k := range keys {
				if used[i] || !bytes.HasPrefix(text[p:], []byte("/"+k+" ")) {
					continue
				}
				used[i] = true
				if matchText(text, p+len(k)+2, x[k], func(e int) bool { return entry(left-1, e) }) {
					return true
				}
				used[i] = false
			}
			return false
		}
		return entry(len(keys), pos+2)
	}
	return false
}

// matchConcat reports whether content is a concatenation, in some order, of all the pieces.
func matchConcat(content []byte, pieces []string) (bool, string) {
	left := map[string]int{}
	total := 0
	for _, p := range pieces {
		left[p]++
		total += len(p)
	}
	keys := sortedKeys(left)
	sort.SliceStable(keys, func(i, j int) bool { return len(keys[i]) > len(keys[j]) })
	best := 0
	steps := 0
	var rec func(p, n int) bool
	rec = func(p, n int) bool {
		if p > best {
			best = p
		}
		if n == 0 {
			return p == len(content)
		}
		if steps++; steps > 200000 {
			return false
		}
		for _, k := range keys {
			if left[k] > 0 && bytes.HasPrefix(content[p:], []byte(k)) {
				left[k]--
				if rec(p+len(k), n-1) {
					return true
				}
				left[k]++
			}
		}
		return false
	}
	if rec(0, len(pieces)) {
		return true, ""
	}
	// explain
	var missing []string
	for _, k := range keys {
		if n := bytes.Count(content, []byte(k)); n < countOf(pieces, k) {
			missing = append(missing, fmt.Sprintf("%q (found %d, want %d)", k, n, countOf(pieces, k)))
		}
	}
	if len(missing) > 5 {
		missing = missing[:5]
	}
	hi := best + 200
	if hi > len(content) {
		hi = len(content)
	}
	return false, fmt.Sprintf("content of %d bytes, expected %d bytes in %d pieces; unmatched from offset %d: %q; missing: %s", len(content), total, len(pieces), best, content[best:hi], strings.Join(missing, ", "))
}

func countOf(xs []string, s string) int {
	n := 0
	for _, x := range xs {
		if x == s {
			n++
		}
	}
	return n
}

// GenOpt bounds random values.
type GenOpt struct {
	Depth  int
	Refs   []Ref
	Keys   func(r *Rand) string // dictionary keys
	Plain  bool                 // only strings and names that print unambiguously
	Dyadic bool                 // only numbers that are exact in binary
	MaxStr int
}

func genKey(r *Rand) string {
	if r.P(70) {
		return "X" + string(byte('a'+r.IntN(26))) + fmt.Sprint(r.IntN(50))
	}
	return genNameBytes(r)
}

func genNameBytes(r *Rand) string {
	n := r.Range(1, 12)
	if r.P(3) {
		n = r.Range(100, 300)
	}
	b := make([]byte, n)
	for i := range b {
		switch r.IntN(5) {
		case 0:
			b[i] = byte(r.Range(1, 255))
		case 1:
			b[i] = Pick[byte](r, ' ', '#', '(', ')', '<', '>', '[', ']', '/', '%', '\n', '\r', '\t', '\f', '{', '}', '\\', '!', '~', 0x7f, 0x80, 0xff)
		default:
			b[i] = byte(r.Range('!', '~'))
		}
	}
	s := string(b)
	// names the code gives a meaning to are used deliberately, not by accident
	switch s {
	case "A", "AA", "JS", "F", "P", "URI", "XFA":
		return "Q" + s
	}
	return s
}

func genNum(r *Rand, dyadic bool) Num {
	var f float64
	switch r.IntN(6) {
	case 0:
		f = float64(r.IntN(10))
	case 1:
		f = float64(r.IntN(100000))
	case 2:
		f = float64(r.Int64N(1 << 40))
	case 3:
		if dyadic {
			f = float64(r.IntN(1<<16)) / 8
		} else {
			f = float64(r.IntN(1000000)) / 1000
		}
	case 4:
		if dyadic {
			f = float64(r.IntN(100)) + .5
		} else {
			f = float64(r.IntN(1000000000)) / 100000000
		}
	default:
		f = float64(Pick(r, 0, 1, 9, 10, 255, 256, 65535, 65536, 2147483647, 2147483648, 4294967295))
	}
	if r.P(30) && f != 0 {
		f = -f
	}
	return Num(f)
}

func genStrBytes(r *Rand, max int) string {
	n := r.IntN(12)
	if r.P(15) {
		n = r.SkewLen(max)
	}
	b := make([]byte, n)
	mode := r.IntN(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.IntN(256))
		case 1:
			b[i] = Pick[byte](r, '(', ')', '\\', '\r', '\n', '\t', '\b', '\f', 0, '0', '7', '8', '9', 'n', '<', '>', '%', '/', 0xff, ' ')
		default:
			b[i] = byte(r.Range(' ', '~'))
		}
	}
	return string(b)
}

func plainWord(r *Rand) string {
	n := r.Range(1, 10)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."[r.IntN(65)]
	}
	return string(b)
}

func GenVal(r *Rand, o GenOpt) Val {
	if o.MaxStr == 0 {
		o.MaxStr = 300
	}
	k := r.IntN(10)
	if o.Depth <= 0 && k >= 8 {
		k = r.IntN(8)
	}
	switch k {
	case 0:
		return Pick[Kw](r, True, False, Null)
	case 1, 2:
		return genNum(r, o.Dyadic)
	case 3:
		if o.Plain {
			return Name(plainWord(r))
		}
		if r.P(2) {
			return Name("")
		}
		return Name(genNameBytes(r))
	case 4, 5, 6:
		if o.Plain {
			return Str(plainWord(r))
		}
		return Str(genStrBytes(r, o.MaxStr))
	case 7:
		if len(o.Refs) > 0 {
			return o.Refs[r.IntN(len(o.Refs))]
		}
		return genNum(r, o.Dyadic)
	case 8:
		return GenArr(r, o)
	}
	return GenDict(r, o)
}

func GenArr(r *Rand, o GenOpt) Arr {
	o.Depth--
	n := r.IntN(6)
	if r.P(4) {
		n = r.IntN(60)
	}
	a := Arr{}
	for i := 0; i < n; i++ {
		a = append(a, GenVal(r, o))
	}
	return a
}

func GenDict(r *Rand, o GenOpt) Dict {
	o.Depth--
	n := r.IntN(6)
	if r.P(4) {
		n = r.IntN(40)
	}
	d := Dict{}
	for i := 0; i < n; i++ {
		k := ""
		switch {
		case o.Keys != nil:
			k = o.Keys(r)
		case o.Plain:
			k = "X" + plainWord(r)
		default:
			k = genKey(r)
		}
		d[k] = GenVal(r, o)
	}
	return d
}

func cloneVal(v Val) Val {
	switch x := v.(type) {
	case Arr:
		a := make(Arr, len(x))
		for i := range x {
			a[i] = cloneVal(x[i])
		}
		return a
	case Dict:
		d := Dict{}
		for k, e := range x {
			d[k] = cloneVal(e)
		}
		return d
	}
	return v
}
