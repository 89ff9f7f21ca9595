package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// Spell writes values in randomly chosen legal ways.
type Spell struct {
	R *Rand
	// Level 0: one canonical way; 1: varied whitespace; 2: varied whitespace, comments and token forms
	Level int
	// Clean avoids escapes that the parser is documented to report as abnormal
	Clean bool
	// Str transforms strings before they are written (encryption)
	Str func(string) string
	// Pad, if set, is consulted at every optional separator
	Pad func() string
	// NoDup: never write an overridden duplicate key first
	NoDup bool

	buf     bytes.Buffer
	regular bool  // last token ends in a regular character
	lastNum int   // where the last number written ends
	ends    []int // where each token ends
}

func (s *Spell) Bytes() []byte { return s.buf.Bytes() }

func spellVal(r *Rand, level int, clean bool, v Val) []byte {
	s := &Spell{R: r, Level: level, Clean: clean}
	s.Val(v)
	return s.Bytes()
}

func isRegular(b byte) bool {
	return strings.IndexByte("\x00\t\n\f\r ()<>[]/%", b) < 0
}

func (s *Spell) eol() string { return Pick(s.R, "\n", "\r", "\r\n") }

func (s *Spell) comment() string {
	r := s.R
	n := r.IntN(12)
	if r.P(3) {
		n = r.IntN(400)
	}
	b := []byte{'%'}
	for i := 0; i < n; i++ {
		c := byte(r.Range(1, 255))
		if r.P(30) {
			c = Pick[byte](r, '(', ')', '<', '>', '[', ']', '/', '%', '\\', ' ', '#')
		}
		// no line ends and no digits, so that no object header can appear by accident
		if c == '\n' || c == '\r' || (c >= '0' && c <= '9') {
			c = '.'
		}
		b = append(b, c)
	}
	if r.P(10) {
		b = append(b, Pick(r, "endobj", ">>", "endstream", "stream", "(", "]", "%%EOF", "R", "trailer")...)
	}
	return string(b) + s.eol()
}

// Sep returns separator text; required tells whether at least one whitespace is needed.
func (s *Spell) Sep(required bool) string {
	r := s.R
	if s.Pad != nil {
		p := s.Pad()
		if p == "" && required {
			p = " "
		}
		return p
	}
	switch s.Level {
	case 0:
		if required {
			return " "
		}
		return ""
	}
	var sb strings.Builder
	n := 0
	switch r.IntN(5) {
	case 0, 1:
		n = 0
	case 2, 3:
		n = 1
	default:
		n = r.Range(2, 5)
	}
	if required && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		if s.Level >= 2 && r.P(15) {
			sb.WriteString(s.comment())
		} else {
			sb.WriteString(Pick(r, " ", "\n", "\r", "\t", "\f", "\x00", "\r\n", " "))
		}
	}
	return sb.String()
}

// Tok writes a token with the separation it needs.
func (s *Spell) Tok(t string) {
	if t == "" {
		return
	}
	first := s.buf.Len() == 0
	s.buf.WriteString(s.Sep(!first && s.regular && isRegular(t[0])))
	s.buf.WriteString(t)
	s.ends = append(s.ends, s.buf.Len())
	s.regular = isRegular(t[len(t)-1])
	if t[0] == '/' {
		s.regular = true // "/" alone is the empty name
	}
	if t[0] == '(' || t[0] == '<' {
		s.regular = false
	}
}

func (s *Spell) Raw(t string) { s.buf.WriteString(t) }

func (s *Spell) Val(v Val) {
	switch x := v.(type) {
	case Name:
		s.Tok(s.Name(string(x)))
	case Str:
		b := string(x)
		if s.Str != nil {
			b = s.Str(b)
		}
		s.Tok(s.String(b))
	case Num:
		s.Tok(s.Num(float64(x)))
		s.lastNum = s.buf.Len()
	case Kw:
		s.Tok(string(x))
	case Ref:
		s.Tok(s.Uint(x.N))
		s.Tok(s.Uint(x.G))
		s.Tok("R")
	case Arr:
		s.Tok("[")
		for _, e := range x {
			s.Val(e)
		}
		s.Tok("]")
	case Dict:
		s.Tok("<<")
		keys := sortedKeys(x)
		s.R.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		if s.Level >= 2 && !s.NoDup && s.R.P(5) && len(keys) > 0 {
			// the last one of a repeated key counts
			s.Tok(s.Name(keys[s.R.IntN(len(keys))]))
			s.Val(GenVal(s.R, GenOpt{Depth: 1}))
		}
		for _, k := range keys {
			s.Tok(s.Name(k))
			s.Val(x[k])
		}
		s.Tok(">>")
	default:
		panic(fmt.Sprintf("cannot spell %T", v))
	}
}

func (s *Spell) Uint(n int) string {
	t := strconv.Itoa(n)
	if s.Level >= 2 && s.R.P(5) {
		t = strings.Repeat("0", s.R.Range(1, 4)) + t
	}
	return t
}

func (s *Spell) Name(n string) string {
	r := s.R
	var sb strings.Builder
	sb.WriteByte('/')
	for i := 0; i < len(n); i++ {
		c := n[i]
		must := !isRegular(c) || c == '#'
		may := c < '!' || c > '~' // escaping these is never reported
		esc := must
		if !must && s.Level >= 1 {
			if may {
				esc = r.P(70)
			} else if !s.Clean && s.Level >= 2 {
				esc = r.P(5)
			}
		} else if !must && may {
			esc = true
		}
		if esc {
			f := "#%02x"
			if r.Bool() {
				f = "#%02X"
			}
			fmt.Fprintf(&sb, f, c)
		} else {
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

func (s *Spell) Num(f float64) string {
	r := s.R
	neg := f < 0
	a := f
	if neg {
		a = -f
	}
	t := strconv.FormatFloat(a, 'f', -1, 64)
	if s.Level >= 2 {
		if strings.Contains(t, ".") {
			if strings.HasPrefix(t, "0.") && r.P(50) {
				t = t[1:]
			}
			if r.P(30) {
				t += strings.Repeat("0", r.Range(1, 5))
			}
		} else {
			switch r.IntN(12) {
			case 0:
				t += "."
			case 1:
				t += ".0"
			case 2:
				t += "." + strings.Repeat("0", r.Range(1, 6))
			}
		}
		if r.P(6) {
			t = strings.Repeat("0", r.Range(1, 8)) + t
		}
	}
	if neg {
		t = "-" + t
	} else if s.Level >= 2 && r.P(8) {
		t = "+" + t
	}
	return t
}

func (s *Spell) String(b string) string {
	if s.Level == 0 {
		return litString(b)
	}
	if s.R.P(30) {
		return s.HexString(b)
	}
	return s.LitString(b)
}

// litString is the plain literal form.
func litString(b string) string {
	var sb strings.Builder
	sb.WriteByte('(')
	for i := 0; i < len(b); i++ {
		switch b[i] {
		case '(', ')', '\\':
			sb.WriteByte('\\')
			sb.WriteByte(b[i])
		case '\r':
			sb.WriteString("\\r")
		default:
			sb.WriteByte(b[i])
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (s *Spell) HexString(b string) string {
	r := s.R
	ws := s.Level >= 2 && r.P(40)
	digits := "0123456789abcdef"
	if r.Bool() {
		digits = "0123456789ABCDEF"
	}
	mixed := r.P(20)
	var sb strings.Builder
	sb.WriteByte('<')
	space := func() {
		for ws && r.P(25) {
			sb.WriteString(Pick(r, " ", "\n", "\r", "\t", "\f", "\x00", "\r\n"))
		}
	}
	put := func(d byte) {
		if mixed {
			digits = Pick(r, "0123456789abcdef", "0123456789ABCDEF")
		}
		sb.WriteByte(digits[d])
	}
	space()
	for i := 0; i < len(b); i++ {
		put(b[i] >> 4)
		space()
		if i == len(b)-1 && b[i]&15 == 0 && r.P(40) {
			break // a missing last digit is zero
		}
		put(b[i] & 15)
		space()
	}
	sb.WriteByte('>')
	return sb.String()
}

func (s *Spell) LitString(b string) string {
	r := s.R
	fancy := s.Level >= 2
	// choose which balanced parentheses stay unescaped
	bare := make([]bool, len(b))
	var stack []int
	for i := 0; i < len(b); i++ {
		if b[i] == '(' {
			stack = append(stack, i)
		} else if b[i] == ')' && len(stack) > 0 {
			j := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if r.P(70) {
				bare[i], bare[j] = true, true
			}
		}
	}
	var out []byte
	out = append(out, '(')
	afterCR := false // the last byte written is an unescaped CR, a raw LF would join it
	shortOctal := false
	emit := func(t string) {
		out = append(out, t...)
	}
	octal := func(c byte, next int) {
		t := fmt.Sprintf("\\%03o", c)
		if r.P(40) {
			u := fmt.Sprintf("\\%o", c)
			if len(u) < 4 {
				t = u
				shortOctal = true
			}
		}
		emit(t)
	}
	for i := 0; i < len(b); i++ {
		c := b[i]
		if fancy && r.P(4) && !shortOctal {
			// line continuation
			e := s.eol()
			if e == "\n" || !afterCR || true {
				emit("\\" + e)
				afterCR = e == "\r"
			}
		}
		wasShort, wasCR := shortOctal, afterCR
		shortOctal, afterCR = false, false
		isOct := c >= '0' && c <= '7'
		if wasShort && isOct {
			// a digit here would extend the previous code: continue the line first
			emit("\\\n")
		}
		printable := c >= '!' && c <= '~' && c != '\\' && c != '(' && c != ')'
		switch {
		case c == '(' || c == ')':
			if bare[i] {
				out = append(out, c)
			} else if fancy && r.P(30) {
				octal(c, i)
			} else {
				out = append(out, '\\', c)
			}
		case c == '\\':
			if fancy && r.P(30) {
				octal(c, i)
			} else {
				emit("\\\\")
			}
		case c == '\r':
			if fancy && r.P(30) {
				octal(c, i)
			} else {
				emit("\\r")
			}
		case c == '\n':
			switch k := r.IntN(6); {
			case fancy && k == 0:
				octal(c, i)
			case fancy && k == 1:
				emit("\\n")
			case fancy && k == 2:
				emit("\r\n")
			case fancy && k == 3:
				emit("\r")
				afterCR = true
			case wasCR:
				emit("\\n")
			default:
				emit("\n")
			}
		case printable:
			if fancy && r.P(3) && !s.Clean {
				octal(c, i)
			} else if fancy && r.P(3) && !isOct && strings.IndexByte("nrtbf", c) < 0 {
				out = append(out, '\\', c) // an unknown escape stands for the character
			} else {
				out = append(out, c)
			}
		default:
			esc := strings.IndexByte("\t\b\f", c)
			switch {
			case fancy && esc >= 0 && r.P(40):
				out = append(out, '\\', "tbf"[esc])
			case fancy && r.P(30):
				octal(c, i)
			default:
				out = append(out, c)
			}
		}
	}
	out = append(out, ')')
	return string(out)
}
