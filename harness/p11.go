package main

import (
	"bytes"
	"fmt"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C11", Quick: 30000, Thorough: 600000, Run: runC11,
		Rule: "one encrypted document (version, revision, key length, filters, password, identifier, object numbers and generations at random) opened with its user password (hash of the file)",
		Need: []string{"V1 R2", "V1 R3", "V2 R3", "V4 R4", "AESV2", "Identity", "crypt overrides", "embedded file filter", "EncryptMetadata false", "password retried", "raw.pdf entries matched", "values compared", "streams compared", "big object numbers"},
	})
	register(&Prop{
		ID: "C12", Quick: 24000, Thorough: 480000, Run: runC12,
		Rule: "one encrypted document opened with a wrong password, or with an encryption dictionary made unsupported or incomplete (hash of the file and password)",
		Need: []string{"wrong password", "unsupported filter", "unsupported version", "unsupported revision", "missing O", "missing U", "missing P", "missing ID", "Encrypt is not a dictionary", "empty outputs checked", "owner password", "password entry altered", "Encrypt is null"},
	})
}

// cryptDoc makes an encrypted document with a bit of everything in it.
func cryptDoc(c *Ctx) *Doc {
	r := c.R
	d := NewDoc(r, Pick(r, 0, 1, 2))
	d.Enc = genEnc(r)
	if r.P(30) {
		d.bigNums, d.sparse = true, true
	}
	if r.P(50) {
		d.gens = true
	}
	fillInert(d, r.Range(2, 12), GenOpt{Depth: 3, Dyadic: true, Keys: inertKey, MaxStr: 120}, true)
	// strings and streams of every length around the block size
	for k := r.Range(1, 6); k > 0; k-- {
		n := Pick(r, 0, 1, 15, 16, 17, 31, 32, 33, 47, 48, r.IntN(200))
		s := Str(r.Data(n))
		d.Add(wrap(r, s, r.IntN(4)))
		o := d.AddStream(Dict{inertKey(r): s}, r.Data(n))
		if r.P(50) {
			o.Encoded, o.PlainLen = append([]byte{}, o.Data...), true
			if bytes.Contains(o.Data, []byte("endstream")) {
				o.Encoded = nil
			}
		}
		if r.P(20) {
			o.V.(Dict)["Type"] = d.Maybe(Name("EmbeddedFile"), 20)
			o.Embedded = true
			c.Event("embedded file filter", 1)
		}
		if d.Enc.V == 4 && r.P(25) {
			o.Crypt = Pick(r, append(sortedKeys(d.Enc.CFs), "Identity")...)
			c.Event("crypt overrides", 1)
		}
	}
	return d
}

func runC11(c *Ctx) {
	r := c.R
	d := cryptDoc(c)
	e := d.Enc
	c.Event(fmt.Sprintf("V%d R%d", e.V, e.R), 1)
	for _, f := range e.CFs {
		c.Event(f.Method, 1)
	}
	if e.V == 4 && (e.StmF == "Identity" || e.StrF == "Identity") {
		c.Event("Identity", 1)
	}
	if !e.Meta {
		c.Event("EncryptMetadata false", 1)
	}
	if d.bigNums {
		c.Event("big object numbers", 1)
	}
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	c.Sig(data)
	p := c.LoadOK(d, data)
	for _, o := range d.All() {
		c.CheckObj(p, o)
	}
	if r.P(25) {
		res := c.ParseOK(d, data)
		c.CheckRaw(res.Get("raw.pdf"), d.All())
	}
	if wrong := wrongPassword(r, e); r.P(15) && wrong != e.User {
		p, err := Load(bytes.NewReader(data), wrong)
		if err == pdf.EncryptionPasswordError {
			err = p.SetPassword(e.User)
			c.Check(err == nil, "retry", "SetPassword with the right password after a wrong one: %v", err)
			for _, o := range d.All() {
				c.CheckObj(p, o)
			}
			c.Event("password retried", 1)
		}
	}
	c.Sample("%s", d.Describe())
}

// wrongPassword returns a password whose 32 significant bytes differ from the user password's.
func wrongPassword(r *Rand, e *Enc) string {
	for {
		var w string
		u := e.User
		switch r.IntN(6) {
		case 0:
			w = ""
		case 1:
			w = e.Owner
		case 2: // one bit off
			if len(u) == 0 {
				continue
			}
			b := []byte(u)
			b[r.IntN(min(len(b), 32))] ^= 1 << uint(r.IntN(8))
			w = string(b)
		case 3:
			w = u + plainWord(r)
		case 4:
			if len(u) == 0 {
				continue
			}
			w = u[:r.IntN(len(u))]
		default:
			w = genPassword(r)
		}
		if !bytes.Equal(padPw(w), padPw(u)) {
			return w
		}
	}
}

func runC12(c *Ctx) {
	r := c.R
	d := cryptDoc(c)
	e := d.Enc
	// content that must not come out
	d.Add(Dict{"JS": Str("secret script")})
	d.Add(Dict{"URI": Str("http://secret")})
	d.Add(Dict{"A": Dict{"S": Name("Launch"), "F": Str("secret.exe")}})
	st := d.AddStream(Dict{}, []byte("BT (secret) Tj ET"))
	page := d.Add(Dict{"Type": Name("Page"), "Contents": st.Ref()})
	d.Trailer["Root"] = d.Add(Dict{"Pages": Dict{"Kids": Arr{page}}})
	ef := d.AddStream(Dict{}, []byte("secret file"))
	d.Add(Dict{"EmbeddedFiles": Dict{"Names": Arr{Str("a"), Dict{"F": Str("secret"), "EF": Dict{"F": ef.Ref()}}}}})
	pw := e.User
	var want error
	what := ""
	damage := r.IntN(11)
	var mut func(ed Dict, trailer Dict)
	if r.P(3) {
		// an entry that is null is no entry, so nothing is encrypted
		d.MutEnc = func(_, tr Dict) { set(tr, "Encrypt", Null) }
		data, ok := d.Render()
		if !ok {
			c.Skip()
		}
		c.Sig(data, pw)
		c.Event("Encrypt is null", 1)
		_, err := Load(bytes.NewReader(data), pw)
		c.Check(err == nil, "load", "Encrypt is null (%s): Load returned %v", d.Describe(), err)
		return
	}
	switch damage {
	case 0, 1, 2:
		pw = wrongPassword(r, e)
		want, what = pdf.EncryptionPasswordError, "wrong password"
		if pw == e.Owner {
			c.Event("owner password", 1)
		}
	case 3:
		f := Pick[Val](r, Name("Adobe.PubSec"), Name("FOPN_foweb"), Name("standard"), Name("Standard2"), Str("Standard"), Num(1))
		if r.P(20) {
			f = nil
		}
		want, what = pdf.EncryptionUnsupported, "unsupported filter"
		mut = func(ed, _ Dict) { set(ed, "Filter", f) }
	case 4:
		v := Pick[Val](r, Num(0), Num(3), Num(5), Num(6), Num(-1), Num(40), Name("V4"), nil)
		want, what = pdf.EncryptionUnsupported, "unsupported version"
		mut = func(ed, _ Dict) { set(ed, "V", v) }
	case 5:
		v := Pick[Val](r, Num(0), Num(1), Num(5), Num(6), Num(-2), Num(100), Str("3"), nil)
		want, what = pdf.EncryptionUnsupported, "unsupported revision"
		mut = func(ed, _ Dict) { set(ed, "R", v) }
	case 6, 7, 8:
		k := Pick(r, "O", "U", "P")
		v := Pick[Val](r, nil, nil, Null, Name("x"), Arr{})
		want, what = pdf.EncryptionError, "missing "+k
		mut = func(ed, _ Dict) { set(ed, k, v) }
	case 9:
		// what the password is checked with is not what the password gives
		u := []byte(e.U)
		n := 16
		if e.R == 2 {
			n = 32
		}
		switch r.IntN(4) {
		case 0: // too short to be checked in full
			u = u[:r.IntN(n)]
		case 1:
			u[n-1] ^= 1 << uint(r.IntN(8))
		default:
			u[r.IntN(n)] ^= 1 << uint(r.IntN(8))
		}
		want, what = pdf.EncryptionPasswordError, "password entry altered"
		mut = func(ed, _ Dict) { set(ed, "U", Str(u)) }
	default:
		if r.Bool() {
			v := Pick[Val](r, nil, Arr{}, Null, Str("x"), Arr{Num(1)})
			want, what = pdf.EncryptionError, "missing ID"
			mut = func(_, tr Dict) { set(tr, "ID", v) }
		} else {
			v := Pick[Val](r, Num(1), Name("Standard"), Arr{}, Ref{1 << 20, 0}, True)
			want, what = pdf.EncryptionError, "Encrypt is not a dictionary"
			mut = func(_, tr Dict) { set(tr, "Encrypt", v) }
		}
	}
	d.MutEnc = mut
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	c.Sig(data, pw)
	c.Event(what, 1)
	c.Attach("password", []byte(pw))
	c.Attach("doc.txt", []byte(what+" "+d.Describe()))
	_, err := Load(bytes.NewReader(data), pw)
	c.Check(err == want, "load", "%s (%s): Load returned %v, want %v", what, d.Describe(), err, want)
	res := c.Parse(data, pw)
	c.Check(res.Err == want, "parse", "%s: Parse returned %v, want %v", what, res.Err, want)
	for name, b := range res.Files {
		if name == "errors.txt" {
			continue
		}
		c.Check(len(b) == 0, "content", "%s: Parse failed with %v but %s holds %s", what, res.Err, name, q(b))
	}
	c.Event("empty outputs checked", 1)
	c.Sample("%s %s", what, d.Describe())
}

func set(d Dict, k string, v Val) {
	if v == nil {
		delete(d, k)
	} else {
		d[k] = v
	}
}
