package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
)

// Independent implementation of the writer's side of the standard security handler
// (ISO 32000-1, 7.6), user-password part.

const pwPad = "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A"

type CF struct {
	Method string // V2, AESV2, None
	Dict   Dict
}

type Enc struct {
	V, R    int
	KeyLen  int // bytes
	User    string
	Owner   string
	P       int64
	ID      string
	Meta    bool
	CFs     map[string]*CF
	StmF    string // "" = not written
	StrF    string
	EFF     string
	O, U    string
	key     []byte
	Explain string
}

func md5sum(parts ...[]byte) []byte {
	h := md5.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func rc4x(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	Must(err)
	out := make([]byte, len(data))
	c.XORKeyStream(out, data)
	return out
}

func padPw(p string) []byte { return []byte((p + pwPad)[:32]) }

func (e *Enc) setup(r *Rand) {
	// algorithm 3
	ow := e.Owner
	if ow == "" {
		ow = e.User
	}
	k := md5sum(padPw(ow))
	if e.R >= 3 {
		for i := 0; i < 50; i++ {
			k = md5sum(k)
		}
	}
	n := e.KeyLen
	k = k[:n]
	o := rc4x(k, padPw(e.User))
	if e.R >= 3 {
		for i := 1; i <= 19; i++ {
			o = rc4x(xorKey(k, i), o)
		}
	}
	e.O = string(o)
	e.key = e.fileKey(e.User, n)
	// algorithms 4 and 5
	if e.R == 2 {
		e.U = string(rc4x(e.key, []byte(pwPad)))
	} else {
		u := rc4x(e.key, md5sum([]byte(pwPad), []byte(e.ID)))
		for i := 1; i <= 19; i++ {
			u = rc4x(xorKey(e.key, i), u)
		}
		e.U = string(u) + string(r.Bytes(16))
	}
}

func xorKey(k []byte, i int) []byte {
	x := make([]byte, len(k))
	for j := range k {
		x[j] = k[j] ^ byte(i)
	}
	return x
}

// algorithm 2
func (e *Enc) fileKey(pw string, n int) []byte {
	p := uint32(e.P)
	in := [][]byte{padPw(pw), []byte(e.O), {byte(p), byte(p >> 8), byte(p >> 16), byte(p >> 24)}, []byte(e.ID)}
	if e.R >= 4 && !e.Meta {
		in = append(in, []byte{255, 255, 255, 255})
	}
	k := md5sum(in...)
	if e.R >= 3 {
		for i := 0; i < 50; i++ {
			k = md5sum(k[:n])
		}
	}
	return k[:n]
}

func (e *Enc) method(filter string) string {
	if e.V < 4 {
		return "V2"
	}
	if filter == "Identity" || filter == "" {
		return "None"
	}
	return e.CFs[filter].Method
}

func (e *Enc) encryptWith(r *Rand, method string, n, g int, data []byte) []byte {
	if method == "None" {
		return data
	}
	k := append(append([]byte{}, e.key...), byte(n), byte(n>>8), byte(n>>16), byte(g), byte(g>>8))
	if method == "AESV2" {
		k = append(k, "sAlT"...)
	}
	l := len(e.key) + 5
	if l > 16 {
		l = 16
	}
	ok := md5sum(k)[:l]
	if method == "AESV2" {
		blk, err := aes.NewCipher(ok)
		Must(err)
		iv := r.Bytes(16)
		pad := 16 - len(data)%16
		pt := append(append([]byte{}, data...), bytes.Repeat([]byte{byte(pad)}, pad)...)
		ct := make([]byte, len(pt))
		cipher.NewCBCEncrypter(blk, iv).CryptBlocks(ct, pt)
		return append(iv, ct...)
	}
	return rc4x(ok, data)
}

func (e *Enc) encryptString(r *Rand, n, g int, s string) string {
	m := "V2"
	if e.V == 4 {
		m = e.method(e.StrF)
	}
	return string(e.encryptWith(r, m, n, g, []byte(s)))
}

// streamMethod: override is the name of a Crypt filter on the stream, "-" for none.
func (e *Enc) streamMethod(override string, embedded bool) string {
	if e.V < 4 {
		if override == "Identity" {
			return "None"
		}
		return "V2"
	}
	if override != "-" {
		return e.method(override)
	}
	if embedded && e.EFF != "" {
		return e.method(e.EFF)
	}
	return e.method(e.StmF)
}

func (e *Enc) dict(r *Rand) Dict {
	p := e.P
	if p < 0 && r.P(25) {
		p += 1 << 32 // also found in the wild: written as an unsigned number
	}
	d := Dict{"Filter": Name("Standard"), "V": Num(e.V), "R": Num(e.R), "O": Str(e.O), "U": Str(e.U), "P": Num(p)}
	if e.V == 2 && (e.KeyLen != 5 || r.Bool()) {
		d["Length"] = Num(e.KeyLen * 8)
	}
	if e.V == 1 && r.P(30) {
		d["Length"] = Num(40)
	}
	if e.V == 4 {
		if e.KeyLen != 16 || r.P(60) {
			d["Length"] = Num(e.KeyLen * 8)
		}
		cf := Dict{}
		for k, f := range e.CFs {
			cf[k] = f.Dict
		}
		d["CF"] = cf
		if e.StmF != "" {
			d["StmF"] = Name(e.StmF)
		}
		if e.StrF != "" {
			d["StrF"] = Name(e.StrF)
		}
		if e.EFF != "" {
			d["EFF"] = Name(e.EFF)
		}
		if !e.Meta || r.P(30) {
			d["EncryptMetadata"] = Kw(fmt.Sprint(e.Meta))
		}
	}
	if e.V < 4 {
		// without meaning before version 4
		if r.P(10) {
			d["EncryptMetadata"] = Pick[Val](r, False, True)
		}
		if r.P(5) {
			d["CF"] = Dict{"StdCF": Dict{"CFM": Name(Pick(r, "None", "AESV2", "X"))}}
			d[Pick(r, "StmF", "StrF", "EFF")] = Name(Pick(r, "Identity", "StdCF"))
		}
	}
	if r.P(30) {
		d["SubFilter"] = Name("None.Such")
	}
	return d
}

func genPassword(r *Rand) string {
	switch r.IntN(6) {
	case 0:
		return ""
	case 1:
		return plainWord(r)
	case 2:
		return string(r.Bytes(r.Range(1, 31)))
	case 3:
		return string(r.Bytes(Pick(r, 31, 32, 33, 40, 64)))
	case 4:
		return pwPad[:r.Range(0, 32)] // looks like padding
	}
	return "pass word (\\)" + plainWord(r)
}

func genEnc(r *Rand) *Enc {
	e := &Enc{User: genPassword(r), Owner: genPassword(r), Meta: true}
	e.P = int64(int32(uint32(r.Uint64())))
	if r.P(30) {
		e.P = Pick[int64](r, -4, -44, -1, -3904, 0, 1, 2147483647, -2147483648)
	}
	e.ID = string(r.Bytes(Pick(r, 16, 16, 16, 0, 1, 32, r.IntN(40))))
	switch r.IntN(6) {
	case 0:
		e.V, e.R, e.KeyLen = 1, 2, 5
	case 1:
		e.V, e.R, e.KeyLen = 1, 3, 5
	case 2, 3:
		e.V, e.R, e.KeyLen = 2, 3, Pick(r, 5, 16, 16, r.Range(5, 16))
	default:
		e.V, e.R, e.KeyLen = 4, 4, 16
		e.Meta = r.P(60)
		e.CFs = map[string]*CF{}
		add := func(name, method string) {
			d := Dict{"CFM": Name(method)}
			switch r.IntN(4) {
			case 0, 1:
				d["Length"] = Num(e.KeyLen)
			case 2:
				if e.KeyLen*8 > 16 {
					d["Length"] = Num(e.KeyLen * 8)
				}
			}
			if r.Bool() {
				d["AuthEvent"] = Name(Pick(r, "DocOpen", "EFOpen"))
			}
			if r.Bool() {
				d["Type"] = Name("CryptFilter")
			}
			e.CFs[name] = &CF{method, d}
		}
		kind := r.IntN(4)
		if kind == 0 && r.P(60) {
			e.KeyLen = r.Range(5, 16) // RC4 only
		}
		names := []string{"StdCF", "Other", "Third#" + plainWord(r)}
		for i, nme := range names {
			m := "V2"
			switch kind {
			case 1:
				m = "AESV2"
			case 2, 3:
				m = Pick(r, "V2", "AESV2", "None")
			}
			if i == 0 || r.P(60) {
				add(nme, m)
			}
		}
		all := append(sortedKeys(e.CFs), "Identity")
		e.StmF = all[r.IntN(len(all))]
		e.StrF = all[r.IntN(len(all))]
		if r.P(60) {
			e.StmF, e.StrF = "StdCF", "StdCF"
		}
		if r.P(40) {
			e.EFF = all[r.IntN(len(all))]
		}
	}
	e.setup(r)
	e.Explain = fmt.Sprintf("V%d R%d %d bits StmF=%s StrF=%s EFF=%s meta=%v pw=%q", e.V, e.R, e.KeyLen*8, e.StmF, e.StrF, e.EFF, e.Meta, e.User)
	return e
}

// idArray is the file identifier: the first part stays, the second changes with every update of a file.
func (e *Enc) idArray(r *Rand) Val {
	switch r.IntN(5) {
	case 0:
		return Arr{Str(e.ID)}
	case 1:
		return Arr{Str(e.ID), Str(e.ID)}
	}
	return Arr{Str(e.ID), Str(r.Bytes(Pick(r, 16, 16, 16, 0, r.IntN(40))))}
}
