package main

import (
	"bytes"
	"compress/lzw"
	"compress/zlib"
	"fmt"
	"strings"
)

// Hostile documents: written as text, so that every number and every reference can lie.

type hb struct {
	c       *Ctx
	r       *Rand
	buf     bytes.Buffer
	offs    map[int]int
	next    int
	trailer []string
	root    []string
	lies    []string // starts of cross-reference sections other than the regular one
	labels  []string
}

func (h *hb) alloc() int { h.next++; return h.next }

func (h *hb) at(n int, body string) int {
	h.offs[n] = h.buf.Len()
	fmt.Fprintf(&h.buf, "%d 0 obj%s%s%sendobj\n", n, Pick(h.r, " ", "\n", ""), body, Pick(h.r, " ", "\n"))
	return n
}

func (h *hb) obj(body string) int { return h.at(h.alloc(), body) }

func (h *hb) streamAt(n int, dict string, data []byte) int {
	length := fmt.Sprint(len(data))
	switch h.r.IntN(8) {
	case 0:
		length = hnum(h.r)
	case 1:
		length = fmt.Sprintf("%d 0 R", h.r.Range(0, h.next+2))
	}
	end := "\nendstream"
	if h.r.P(4) {
		end = Pick(h.r, "", "\nendstrea", "\nend stream")
	}
	if h.r.P(90) {
		dict += "/Length " + length
	}
	return h.at(n, "<<"+dict+">>"+Pick(h.r, "stream\n", "stream\r\n", "\nstream\n", "stream\r", "stream")+string(data)+end)
}

func (h *hb) stream(dict string, data []byte) int { return h.streamAt(h.alloc(), dict, data) }

func (h *hb) ref() string { return fmt.Sprintf("%d 0 R", h.r.Range(0, h.next+3)) }

// hnum is a number nobody should believe.
func hnum(r *Rand) string {
	return Pick(r, "0", "1", "-1", "2", "3", "7", "8", "9", "15", "16", "17", "31", "32", "33", "63", "64", "127", "255", "256", "65535", "65536",
		"1000000", "10000000", "100000000", "2147483647", "2147483648", "4294967295", "4294967296", "-2147483648", "-2147483649",
		"1099511627776", "4611686018427387904", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616",
		"99999999999999999999999", strings.Repeat("9", 310), "-"+strings.Repeat("9", 310), "0.5", "-0.5", "1.5", ".", "-", "+", "1e9", "--5", "0x10", "536870912", "268435456", "1073741824", "268435455.9")
}

// huge is a count far larger than any few-kilobyte file can back.
func huge(r *Rand) string {
	return Pick(r, "100000000", "300000000", "1000000000", "2147483647", "4294967295", "4294967296", "99999999999", "1099511627776", "4611686018427387904", "9223372036854775807")
}

func hostileVal(h *hb) string {
	r := h.r
	switch r.IntN(10) {
	case 0, 1, 2, 3:
		return hnum(r)
	case 4:
		return h.ref()
	case 5:
		return Pick(r, "null", "true", "false", "[]", "<<>>", "()", "<>", "/", "/X", "(x)", "<41>", "xref", "R", "endobj", "stream")
	case 6:
		return "[" + hnum(r) + " " + hnum(r) + " " + h.ref() + "]"
	case 7:
		return "[[" + hnum(r) + "] /N (s) " + h.ref() + "]"
	case 8:
		return "<</A " + h.ref() + "/B " + hnum(r) + ">>"
	}
	return Pick(r, "[", "]", "<<", ">>", "(", ")", "<", ">", "{", "}", "%", "#", "[[[[", "<<<<", "((((")
}

func deflate(data []byte) []byte {
	var b bytes.Buffer
	w := zlib.NewWriter(&b)
	w.Write(data)
	w.Close()
	return b.Bytes()
}

func lzwData(data []byte) []byte {
	var b bytes.Buffer
	w := lzw.NewWriter(&b, lzw.MSB, 8)
	w.Write(data)
	w.Close()
	return b.Bytes()
}

type family struct {
	name string
	gen  func(h *hb)
}

var families = []family{
	{"xref table counts", func(h *hb) {
		r := h.r
		h.lies = append(h.lies, fmt.Sprint(h.buf.Len()))
		h.buf.WriteString("xref\n")
		for k := r.Range(1, 4); k > 0; k-- {
			fmt.Fprintf(&h.buf, "%s %s\n", Pick(r, "0", "1", "5", hnum(r)), Pick(r, huge(r), hnum(r)))
			for j := r.IntN(4); j > 0; j-- {
				fmt.Fprintf(&h.buf, "%s %s %s\n", Pick(r, "0000000000", "0000000010", hnum(r)), Pick(r, "00000", "65535", hnum(r)), Pick(r, "n", "f", "x", ""))
			}
		}
		fmt.Fprintf(&h.buf, "trailer\n<</Size %s/Prev %s>>\n", hnum(r), Pick(r, hnum(r), h.lies[0], h.ref(), "0"))
	}},
	{"xref stream widths", func(h *hb) {
		r := h.r
		n := h.alloc()
		h.lies = append(h.lies, fmt.Sprint(h.buf.Len()))
		w := func() string { return Pick(r, "0", "1", "2", "4", "8", "9", hnum(r), huge(r)) }
		d := fmt.Sprintf("/Type/XRef/Size %s/W[%s %s %s]", Pick(r, huge(r), hnum(r)), w(), w(), w())
		if r.P(15) {
			d = strings.Replace(d, "/Type/XRef", "", 1)
		}
		if r.P(60) {
			d += "/Index["
			for k := r.Range(0, 5); k > 0; k-- {
				d += Pick(r, "0", "1", hnum(r)) + " " + Pick(r, huge(r), hnum(r)) + " "
			}
			d += "]"
		}
		if r.P(30) {
			d += "/Prev " + Pick(r, hnum(r), h.lies[0], fmt.Sprint(h.buf.Len()))
		}
		data := r.Bytes(r.IntN(120))
		if r.P(30) {
			data = make([]byte, r.IntN(200))
		}
		if r.P(50) {
			d += "/Filter/FlateDecode"
			if r.P(50) {
				d += "/DecodeParms<</Predictor " + Pick(r, "2", "12", "15", hnum(r)) + "/Columns " + Pick(r, "4", hnum(r), huge(r)) + ">>"
			}
			data = deflate(data)
		}
		h.streamAt(n, d, data)
	}},
	{"xref cycles", func(h *hb) {
		r := h.r
		k := r.Range(1, 6)
		size := 0
		var starts []int
		body := func(i int, prev string) string {
			return fmt.Sprintf("xref\n%d 1\n%010d 00000 n \ntrailer\n<</Size %d/Prev %s>>\n", r.IntN(9), r.IntN(3000), r.IntN(20), prev)
		}
		base := h.buf.Len()
		for i := 0; i < k; i++ {
			starts = append(starts, base+size)
			// all are of almost the same length; padding makes the offsets right
			size += 100
		}
		for i := 0; i < k; i++ {
			prev := fmt.Sprintf("%06d", starts[r.IntN(k)])
			if r.P(10) {
				prev = h.ref()
			}
			b := body(i, prev)
			h.buf.WriteString(b)
			for p := len(b); p < 99; p++ {
				h.buf.WriteByte(' ')
			}
			h.buf.WriteByte('\n')
			h.lies = append(h.lies, fmt.Sprint(starts[i]))
		}
	}},
	{"reference cycles", func(h *hb) {
		r := h.r
		first := h.next + 1
		k := r.Range(1, 6)
		h.next += k
		pick := func() string { return fmt.Sprintf("%d 0 R", first+r.IntN(k)) }
		for i := 0; i < k; i++ {
			n := first + i
			switch r.IntN(9) {
			case 0, 1:
				h.at(n, pick())
			case 2:
				h.at(n, "["+pick()+" "+pick()+"]")
			case 3:
				h.at(n, fmt.Sprintf("<</A %s/AA %s/OpenAction %s/JS %s/URI %s/XFA %s>>", pick(), pick(), pick(), pick(), pick(), pick()))
			case 4, 5:
				h.at(n, fmt.Sprintf("<</Length %s/Filter %s/DecodeParms %s/Type %s>>stream\nabc\nendstream", pick(), pick(), pick(), pick()))
			case 6:
				h.at(n, fmt.Sprintf("<</Length %s/Filter[%s/FlateDecode %s]/DecodeParms[%s]>>stream\nabc\nendstream", pick(), pick(), pick(), pick()))
			case 7:
				h.at(n, fmt.Sprintf("<</Type/XRef/W %s/Index %s/Size %s/Prev %s/Length %s>>stream\nabc\nendstream", pick(), pick(), pick(), pick(), pick()))
			default:
				h.at(n, fmt.Sprintf("<</Kids %s/Names %s/Pages %s/URLS %s/EmbeddedFiles %s/Resources %s/Contents %s/Font %s/ToUnicode %s/F %s/EF %s/Win %s>>", pick(), pick(), pick(), pick(), pick(), pick(), pick(), pick(), pick(), pick(), pick(), pick()))
			}
		}
		h.root = append(h.root, fmt.Sprintf("/X%d %s", n0(r), pick()))
		if r.P(30) {
			h.trailer = append(h.trailer, Pick(r, "/Encrypt ", "/ID ", "/Prev ", "/Size ")+pick())
		}
	}},
	{"tree cycles", func(h *hb) {
		r := h.r
		first := h.next + 1
		k := r.Range(1, 25)
		h.next += k
		pick := func() string { return fmt.Sprintf("%d 0 R", first+r.IntN(k)) }
		kids := func() string {
			var s strings.Builder
			s.WriteString("[")
			for j := r.IntN(5); j >= 0; j-- {
				s.WriteString(pick() + " ")
				if r.P(5) {
					s.WriteString(Pick(r, "<</Kids["+pick()+"]>> ", "<</Kids "+pick()+">> "))
				}
			}
			s.WriteString("]")
			return s.String()
		}
		for i := 0; i < k; i++ {
			switch r.IntN(6) {
			case 0, 1, 2:
				h.at(first+i, "<</Kids"+kids()+">>")
			case 3:
				h.at(first+i, "<</Kids"+kids()+"/Names[(a) (b) "+pick()+" "+pick()+"]/Parent "+pick()+">>")
			case 4:
				h.at(first+i, "<</Contents "+Pick(r, pick(), kids())+"/Resources "+pick()+"/Kids "+pick()+">>")
			default:
				h.at(first+i, Pick(r, kids(), pick()))
			}
		}
		h.root = append(h.root, "/Pages "+pick()+"/URLS "+pick()+"/EmbeddedFiles "+pick())
	}},
	{"shared structures", func(h *hb) {
		// every object refers to the next one more than once: two to the power of k ways lead to the last one
		r := h.r
		first := h.next + 1
		k := r.Range(10, 45)
		h.next += k
		var keys []string
		for j := r.Range(1, 4); j > 0; j-- {
			keys = append(keys, Pick(r, "Kids", "Kids", "Names", "Next", "A", "AA", "OpenAction", "Win", "F", "EF", "Parent", "Resources", "Font", "Contents", "ToUnicode", "DecodeParms", "Filter", "XFA", "Pages", "EmbeddedFiles", "URLS", "JS", "X", "Length"))
		}
		form := r.IntN(4)
		for i := 0; i < k; i++ {
			to := fmt.Sprintf("%d 0 R", first+i+1)
			if i+1 == k {
				to = Pick(r, "null", "(x)", fmt.Sprintf("%d 0 R", first))
			}
			var s strings.Builder
			for _, key := range keys {
				s.WriteString("/" + key + Pick(r, " "+to, "["+to+" "+to+"]", "["+to+" "+to+" "+to+"]", "[(a) "+to+" (b) "+to+"]", "<</F "+to+"/A "+to+">>"))
			}
			switch form {
			case 0:
				h.at(first+i, "<<"+s.String()+">>stream\nx\nendstream")
			case 1:
				h.at(first+i, "["+to+" "+to+"]")
			default:
				h.at(first+i, "<<"+s.String()+">>")
			}
		}
		h.root = append(h.root, fmt.Sprintf("/%s %d 0 R/Pages %d 0 R/URLS %d 0 R", Pick(r, "A", "OpenAction", "AA", "EmbeddedFiles", "X"), first, first, first))
	}},
	{"deep nesting", func(h *hb) {
		r := h.r
		k := Pick(r, 10, 100, 500, r.Range(1, 1500))
		open := Pick(r, "[", "<<", "<</A ", "(", "<", "[<</K", "<</Kids[", "/A<<", "[1 0 R", "<</Pages<<", "<</A<</AA")
		s := strings.Repeat(open, k/len(open)+1)
		if r.P(50) {
			clos := strings.NewReplacer("[", "]", "<<", ">>", "(", ")").Replace(open)
			s += strings.Repeat(clos, k/len(open)+1)
		}
		if r.P(50) {
			h.obj(s)
		} else {
			h.root = append(h.root, "/Deep "+s)
		}
	}},
	{"predictor numbers", func(h *hb) {
		r := h.r
		parms := "<<"
		for _, k := range []string{"Predictor", "Columns", "Colors", "BitsPerComponent", "EarlyChange"} {
			switch r.IntN(5) {
			case 0:
			case 1:
				parms += "/" + k + " " + hostileVal(h)
			case 2:
				parms += "/" + k + " " + hnum(r)
			default:
				parms += "/" + k + " " + map[string]string{"Predictor": Pick(r, "2", "10", "12", "15"), "Columns": Pick(r, "1", "5", "1000", "100000000"), "Colors": Pick(r, "1", "3", "4", "60"), "BitsPerComponent": Pick(r, "1", "2", "4", "8", "16", "3", "13"), "EarlyChange": Pick(r, "0", "1")}[k]
			}
		}
		parms += ">>"
		data := r.Data(r.IntN(600))
		f := "FlateDecode"
		if r.P(40) {
			f, data = "LZWDecode", lzwData(data)
		} else {
			data = deflate(data)
		}
		if r.P(20) && len(data) > 0 {
			data[r.IntN(len(data))] ^= byte(1 << r.IntN(8))
		}
		if r.P(40) {
			h.stream("/Filter["+"/"+f+"]/DecodeParms["+parms+"]", data)
		} else {
			h.stream("/Filter/"+f+"/DecodeParms"+parms, data)
		}
	}},
	{"filter chains", func(h *hb) {
		r := h.r
		var s, p strings.Builder
		data := r.Data(r.IntN(500))
		for k := r.IntN(60); k > 0; k-- {
			s.WriteString(Pick(r, "/ASCIIHexDecode", "/ASCII85Decode", "/RunLengthDecode", "/FlateDecode", "/LZWDecode", "/Crypt", "/JBIG2Decode", "/DCTDecode", "/X", "null", h.ref(), "1", "()") + " ")
			p.WriteString(Pick(r, "null", "<<>>", "<</Predictor 12/Columns 3>>", h.ref(), hostileVal(h)) + " ")
		}
		if r.P(30) {
			s.Reset()
			s.WriteString(Pick(r, "/ASCIIHexDecode", "/ASCII85Decode", "/RunLengthDecode", "/FlateDecode", "/LZWDecode"))
			switch r.IntN(4) {
			case 0:
				data = []byte(Pick(r, "z", "~", "~>", ">", "\x80", "\xff", "\x7f", "\x00", "x\x9c", "x\x9c\x03\x00", "\x80\x00", "!", "!!!!!", "uuuuu", "zzzz!!z~>", " ", "<~", "0", "G", "\xfe"))
			case 1:
				data = bytes.Repeat([]byte(Pick(r, "z", "!", "0", "\xff", "\x00\x00", "u", "\x80\x0b")), r.Range(1, 300))
			}
		}
		// expanding filters one after another are a bomb, which is for C01's own case
		chain := s.String()
		for _, f := range []string{"/RunLengthDecode", "/FlateDecode", "/LZWDecode"} {
			if n := strings.Count(chain, f); n > 1 {
				chain = strings.Replace(chain, f, "/Y", n-1)
			}
		}
		h.stream("/Filter["+chain+"]/DecodeParms["+p.String()+"]", data)
	}},
	{"character maps", func(h *hb) {
		r := h.r
		var cm strings.Builder
		hex := func() string {
			switch r.IntN(8) {
			case 0:
				return "<>"
			case 1:
				return "<" + strings.Repeat("F", r.Range(1, 40)) + ">"
			case 2:
				return Pick(r, "<", ">", "(a)", "/x", "12", "[", "]", "<zz>", "")
			case 3:
				return "<0000>"
			case 4:
				return "<FFFF>"
			case 5:
				return "<FFFFFFFF>"
			}
			return fmt.Sprintf("<%X>", r.Bytes(r.Range(1, 9)))
		}
		for k := r.Range(1, 5); k > 0; k-- {
			op := Pick(r, "beginbfrange", "beginbfchar")
			fmt.Fprintf(&cm, "%s %s\n", Pick(r, huge(r), hnum(r), "3"), op)
			for j := r.IntN(5); j > 0; j-- {
				if op == "beginbfchar" {
					fmt.Fprintf(&cm, "%s %s\n", hex(), hex())
				} else {
					lo, hi := hex(), hex()
					if r.P(60) {
						lo, hi = Pick(r, "<00>", "<0000>", "<00000000>", "<0000000000000000>"), Pick(r, "<FF>", "<FFFF>", "<FFFFFFFF>", "<7FFFFFFFFFFFFFFF>", "<FFFFFFFFFFFFFFFF>", "<FFFFFFFFFFFFFFFFFFFFFFFF>")
					}
					fmt.Fprintf(&cm, "%s %s %s\n", lo, hi, Pick(r, hex(), "<0041>", "["+hex()+hex()+"]", "["+strings.Repeat("<41>", r.IntN(30))+"]", hostileVal(h)))
				}
			}
			if r.P(70) {
				cm.WriteString(Pick(r, "endbfrange\n", "endbfchar\n"))
			}
		}
		h.page(h.stream("", []byte(cm.String())), "BT /F1 12 Tf "+textOps(h)+" ET")
	}},
	{"page contents", func(h *hb) {
		r := h.r
		var s strings.Builder
		for k := r.Range(1, 60); k > 0; k-- {
			s.WriteString(Pick(r, "BT", "ET", "Tf", "/F1 Tf", "/F1 1 Tf", "1 Tf", "Tj", "(a) Tj", "TJ", "[] TJ", "[(a) 1 [(b)] << >>] TJ", "'", "\"", "1 2 (c) \"", "q", "Q", "ID", "EI", "BI", "ID x EI", "BI /W 1 ID \x00\x01 EI ", "[", "]", "<<", ">>", "(", ")", "<", ">", "%c\n", "T*", hnum(r), hostileVal(h)) + Pick(r, " ", "\n", ""))
		}
		h.page(h.obj("<<>>"), s.String())
	}},
	{"many things", func(h *hb) {
		r := h.r
		s := Pick(r, "q ", "Q ", "ID ", "BT ", "[", "<<", "(", "1 ", "1 0 R ", "1 0 obj", "xref ", "startxref 0 %%EOF ", "trailer", "/A#", "(\\", "(\\7", "stream\n", "endstream ", "<</Type/XRef/W[1 1 1]>>stream\n", "%", "1 0 obj<</Pages 1 0 R>>", "12%\n", "beginbfrange ", "<</Kids[1 0 R]>>", "9 0 obj 9 0 R ")
		k := r.Range(1, 1200/len(s))
		t := strings.Repeat(s, k)
		switch r.IntN(3) {
		case 0:
			h.buf.WriteString(t + "\n")
		case 1:
			h.page(h.obj("<<>>"), t)
		default:
			h.obj(t)
		}
	}},
	{"object headers", func(h *hb) {
		r := h.r
		for k := r.Range(1, 8); k > 0; k-- {
			fmt.Fprintf(&h.buf, "%s %s obj%s%s endobj\n", hnum(r), hnum(r), Pick(r, "", " ", "<<"), hostileVal(h))
		}
		h.root = append(h.root, "/Far["+hnum(r)+" 0 R 1 "+hnum(r)+" R]")
	}},
	{"harvest entries", func(h *hb) {
		r := h.r
		var s strings.Builder
		for k := r.Range(1, 12); k > 0; k-- {
			s.WriteString("/" + Pick(r, "A", "AA", "OpenAction", "JS", "URI", "URLS", "XFA", "EmbeddedFiles", "Pages", "Names", "F", "UF", "EF", "Win", "P", "FS", "S", "Base", "Kids", "Contents", "Resources", "Font", "ToUnicode", "Length", "Filter", "Type"))
			s.WriteString(" " + hostileVal(h))
		}
		if r.P(50) {
			h.obj("<<" + s.String() + ">>")
		} else {
			h.root = append(h.root, s.String())
		}
	}},
	{"encryption dictionary", func(h *hb) {
		r := h.r
		var s strings.Builder
		str := func() string {
			return fmt.Sprintf("<%X>", r.Bytes(Pick(r, 0, 1, 15, 16, 17, 31, 32, 33, 127)))
		}
		for _, k := range []string{"Filter", "V", "R", "Length", "O", "U", "P", "CF", "StmF", "StrF", "EFF", "EncryptMetadata"} {
			if r.P(8) {
				continue
			}
			v := map[string]string{"Filter": "/Standard", "V": Pick(r, "1", "2", "4", "5"), "R": Pick(r, "2", "3", "4", "6"), "Length": hnum(r), "O": str(), "U": str(), "P": hnum(r),
				"CF":   "<</StdCF<</CFM" + Pick(r, "/V2", "/AESV2", "/None", "/X", " 1") + "/Length " + hnum(r) + ">>/B " + hostileVal(h) + ">>",
				"StmF": "/StdCF", "StrF": Pick(r, "/StdCF", "/Identity", "/B"), "EFF": "/Nope", "EncryptMetadata": Pick(r, "true", "false", "null")}[k]
			if r.P(12) {
				v = hostileVal(h)
			}
			s.WriteString("/" + k + " " + v)
		}
		ed := "<<" + s.String() + ">>"
		if r.P(60) {
			ed = fmt.Sprintf("%d 0 R", h.obj(ed))
		}
		h.trailer = append(h.trailer, "/Encrypt "+ed)
		if r.P(90) {
			h.trailer = append(h.trailer, "/ID "+Pick(r, "["+str()+str()+"]", "[]", hostileVal(h), "[1]"))
		}
	}},
}

func n0(r *Rand) int { return r.IntN(100) }

func textOps(h *hb) string {
	r := h.r
	var s strings.Builder
	for k := r.IntN(6); k > 0; k-- {
		s.WriteString(Pick(r, "(abcdefgh) Tj ", "<0001000200FF> Tj ", "[(ab) -5 (cd)] TJ ", "(x) ' ", "1 2 (y) \" ", "() Tj "))
	}
	return s.String()
}

// page makes a page tree of one page.
func (h *hb) page(toUnicode int, content string) {
	data := []byte(content)
	d := ""
	if h.r.P(30) {
		data, d = deflate(data), "/Filter/FlateDecode"
	}
	cs := h.stream(d, data)
	p := h.obj(fmt.Sprintf("<</Type/Page/Contents %d 0 R/Resources<</Font<</F1<</ToUnicode %d 0 R>>>>>>>>", cs, toUnicode))
	t := h.obj(fmt.Sprintf("<</Kids[%d 0 R]>>", p))
	h.root = append(h.root, fmt.Sprintf("/Pages %d 0 R", t))
}

// hostileDoc mixes some families into one document of a few kilobytes.
func hostileDoc(c *Ctx) ([]byte, string) {
	r := c.R
	h := &hb{c: c, r: r, offs: map[int]int{}, next: r.IntN(3)}
	if r.P(90) {
		h.buf.WriteString("%PDF-1.7\n")
	}
	for k := Pick(r, 1, 1, 2, 2, 3, 4); k > 0; k-- {
		f := families[r.IntN(len(families))]
		h.labels = append(h.labels, f.name)
		f.gen(h)
		c.Event(f.name, 1)
	}
	root := h.obj("<</Type/Catalog" + strings.Join(h.root, "") + ">>")
	start := fmt.Sprint(h.buf.Len())
	switch r.IntN(5) {
	case 0: // no table
	case 1:
		start = Pick(r, hnum(r), "0", "9", start)
		fallthrough
	default:
		h.buf.WriteString("xref\n0 1\n0000000000 65535 f \n")
		for n := 1; n <= h.next; n++ {
			if off, ok := h.offs[n]; ok {
				if r.P(3) {
					off = r.IntN(h.buf.Len())
				}
				fmt.Fprintf(&h.buf, "%d 1\n%010d 00000 n \n", n, off)
			}
		}
	}
	prev := ""
	if len(h.lies) > 0 && r.P(60) {
		prev = "/Prev " + h.lies[r.IntN(len(h.lies))]
		if r.P(30) {
			start = h.lies[r.IntN(len(h.lies))]
		}
	}
	fmt.Fprintf(&h.buf, "trailer\n<</Root %d 0 R/Size %d%s%s>>\n", root, h.next+1, prev, strings.Join(h.trailer, ""))
	if r.P(90) {
		fmt.Fprintf(&h.buf, "startxref\n%s\n%%%%EOF", start)
	}
	return h.buf.Bytes(), strings.Join(h.labels, ", ")
}

// mutate damages data at random.
func mutate(r *Rand, data []byte) []byte {
	data = append([]byte{}, data...)
	n := func() int { return r.IntN(len(data) + 1) }
	for k := Pick(r, 1, 1, 2, 3, 5, 10, 30); k > 0; k-- {
		if len(data) == 0 {
			return data
		}
		switch r.IntN(11) {
		case 0:
			data[r.IntN(len(data))] ^= 1 << r.IntN(8)
		case 1:
			data[r.IntN(len(data))] = r.Byte()
		case 2: // cut a piece
			a := n()
			b := min(len(data), a+r.SkewLen(200))
			data = append(data[:a:a], data[b:]...)
		case 3: // repeat a piece
			a := n()
			b := min(len(data), a+r.SkewLen(100))
			at := n()
			piece := append([]byte{}, data[a:b]...)
			data = append(data[:at:at], append(piece, data[at:]...)...)
		case 4: // end early
			if r.P(30) {
				data = data[:n()]
			}
		case 5, 6: // another number
			if i, j := findNumber(r, data); i >= 0 {
				data = append(data[:i:i], append([]byte(hnum(r)), data[j:]...)...)
			}
		case 7: // a token
			at := n()
			tok := Pick(r, "[", "]", "<<", ">>", "(", ")", "<", ">", "/", "%", "#", "obj", "endobj", "stream", "endstream", "xref", "trailer", "startxref", "R", "null", " 1 0 R ", " 0 0 obj ", "\\", "\r", "\n", "\x00", "/Type/XRef", "/Kids[1 0 R]", "/Length -1", "/Filter/LZWDecode", "/Prev 0", "/Encrypt<<>>", "/Predictor 2", "ID ", "BT ")
			data = append(data[:at:at], append([]byte(tok), data[at:]...)...)
		case 8: // move references around
			if i, j := findNumber(r, data); i >= 0 {
				data = append(data[:i:i], append([]byte(fmt.Sprint(r.IntN(30))), data[j:]...)...)
			}
		case 9: // swap two pieces of one length
			l := r.SkewLen(60)
			if len(data) > 2*l && l > 0 {
				a, b := r.IntN(len(data)-l), r.IntN(len(data)-l)
				x := append([]byte{}, data[a:a+l]...)
				copy(data[a:a+l], data[b:b+l])
				copy(data[b:b+l], x)
			}
		default:
			a := n()
			for i := a; i < len(data) && i < a+r.SkewLen(30); i++ {
				data[i] = r.Byte()
			}
		}
	}
	return data
}

func findNumber(r *Rand, data []byte) (int, int) {
	at := r.IntN(len(data))
	for i := 0; i < 400 && i < len(data); i++ {
		p := (at + i) % len(data)
		if data[p] >= '0' && data[p] <= '9' && (p == 0 || data[p-1] < '0' || data[p-1] > '9') {
			e := p
			for e < len(data) && data[e] >= '0' && data[e] <= '9' {
				e++
			}
			return p, e
		}
	}
	return -1, -1
}
