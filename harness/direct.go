//go:build !nodirect

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

// Calls to parts of the package's interface that nothing but C01 needs. If they no longer
// compile, run.sh builds the harness without them.

func directNeeds(s []string) []string { return append(s, "direct filter calls", "direct parser calls") }

func toPDFDict(d map[string]string) pdf.Dictionary {
	var s strings.Builder
	s.WriteString("<<")
	for _, k := range sortedKeys(d) {
		s.WriteString("/" + k + " " + d[k] + " ")
	}
	s.WriteString(">>")
	p := pdf.NewParser(strings.NewReader(s.String()), nil)
	v, _ := p.ReadObject(&pdf.DecryptorNone{})
	dict, _ := v.(pdf.Dictionary)
	return dict
}

func (c *Ctx) directFilters() {
	r := c.R
	for i := 0; i < 20; i++ {
		parms := map[string]string{}
		for _, k := range []string{"Predictor", "Columns", "Colors", "BitsPerComponent", "EarlyChange"} {
			if r.P(70) {
				parms[k] = Pick(r, hnum(r), fmt.Sprint(r.IntN(20)), fmt.Sprint(r.IntN(300)), "12", "2", "15", "1")
			}
		}
		plain := r.Data(r.SkewLen(2000))
		filter := Pick(r, "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode", "LZWDecode", "Crypt", "")
		data := plain
		switch r.IntN(3) {
		case 0:
			switch filter {
			case "FlateDecode":
				data = deflate(plain)
			case "LZWDecode":
				data = lzwData(plain)
			}
		case 1:
			data = mutate(r, deflate(plain))
		}
		d := toPDFDict(parms)
		c.Attach("data", data)
		c.Attach("what", []byte(filter+" "+fmt.Sprint(parms)))
		os.WriteFile(filepath.Join(c.Dir, "data"), data, 0644)
		os.WriteFile(filepath.Join(c.Dir, "what"), []byte(filter+" "+fmt.Sprint(parms)), 0644)
		c.Sig(filter, data, fmt.Sprint(parms))
		pdf.DecodeStream(filter, append([]byte{}, data...), d)
		pdf.ReversePredictor(append([]byte{}, plain...), d)
		c.Eval()
		c.Event("direct filter calls", 2)
	}
}

// directParser calls the exported readers on hostile text at every starting point.
func (c *Ctx) directParser() {
	r := c.R
	var data []byte
	switch r.IntN(3) {
	case 0:
		data, _ = hostileDoc(c)
	case 1:
		data = soup(r)
	default:
		data = mutate(r, []byte(NewSpellText(r)))
	}
	c.Attach("in.pdf", data)
	os.WriteFile(filepath.Join(c.Dir, "in.pdf"), data, 0644)
	c.Sig(data)
	dec := &pdf.DecryptorNone{}
	p := pdf.NewParser(bytes.NewReader(data), nil)
	for i := 0; i < 40; i++ {
		p.Seek(int64(r.IntN(len(data)+2)), 0)
		switch r.IntN(14) {
		case 0:
			p.ReadObject(dec)
		case 1:
			p.ReadArray(dec)
		case 2:
			p.ReadDictionary(dec)
		case 3:
			p.ReadHexString(dec)
		case 4:
			p.ReadString(dec)
		case 5:
			p.ReadName()
		case 6:
			p.ReadNumber()
		case 7:
			p.ReadInt()
		case 8:
			p.ReadInt64()
		case 9:
			p.ReadKeyword()
		case 10:
			p.ReadObjectHeader()
		case 11:
			p.ReadCommand()
		case 12:
			p.ReadStream(dec, int64(r.Range(-5, 2000)), pdf.Array{pdf.Name("FlateDecode"), pdf.Number(1)}, pdf.Array{})
		default:
			p.CurrentOffset()
			p.ReadObject(dec)
			p.ReadObject(dec)
		}
		c.Event("direct parser calls", 1)
		c.Eval()
	}
}
