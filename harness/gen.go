package main

import (
	"fmt"
	"strings"
)

// fillInert adds objects that carry values and streams but nothing that is extracted.
func fillInert(d *Doc, n int, o GenOpt, streams bool) {
	r := d.r
	var refs []Ref
	for i := 0; i < n; i++ {
		refs = append(refs, d.Alloc())
	}
	if o.Refs == nil {
		o.Refs = refs
	}
	for _, ref := range refs {
		if streams && r.P(30) {
			dd := GenDict(r, o)
			for _, k := range []string{"Length", "Filter", "DecodeParms", "Type"} {
				delete(dd, k)
			}
			data := r.Data(r.SkewLen(3000))
			ob := d.PutStream(ref, dd, data)
			if d.Enc != nil {
				if r.P(20) {
					ob.V.(Dict)["Type"] = Name("EmbeddedFile")
					ob.Embedded = true
				}
				if d.Enc.V == 4 && r.P(20) {
					ob.Crypt = Pick(r, append(sortedKeys(d.Enc.CFs), "Identity")...)
				}
			}
			continue
		}
		d.Put(ref, GenVal(r, o))
	}
}

// inertKey never collides with keys that have a meaning to the extractor.
func inertKey(r *Rand) string {
	if r.P(25) {
		return inertKeys[r.IntN(len(inertKeys))]
	}
	k := "X" + plainWord(r)
	if k == "XFA" {
		k = "XF"
	}
	return k
}

// inertKeys are keys documents use that have no meaning to the extractor where they are put.
var inertKeys = strings.Fields("Subtype Limits Parent Next Kids Names Nums Annots Rect Dest Dests D T V FT Ff MK BS Border AP AS DA DR Fields AcroForm Metadata Lang Outlines Title Count First Last Resources Font Contents MediaBox Rotate StructParents ProcSet XObject JavaScript Extensions PageLabels Perms Params CheckSum UF Desc CI Flags MH IsMap NewWindow Operation TM NM M BE IT Popup Order Sy Dur Trans Thumb B PZ SeparationInfo Tabs TemplateInstantiated PresSteps UserUnit VP")

// inertEntry adds an entry without meaning.
func inertEntry(r *Rand, d Dict, stream bool) {
	k := inertKey(r)
	var v Val = GenVal(r, GenOpt{Depth: 1, Keys: inertKey, Dyadic: true, MaxStr: 20})
	if r.P(15) && !stream {
		k, v = "Type", Name(Pick(r, "Page", "Pages", "Annot", "Action", "Catalog", "Filespec", "Font", "XObject", "ObjStm", "Outlines", "Sig", "Encoding", "F", "X"+plainWord(r)))
	} else if k == "Limits" && r.P(70) {
		v = Arr{Str("a"), Str("z")}
	} else if k == "Subtype" && r.P(70) {
		v = Name(Pick(r, "Link", "Widget", "Screen", "FileAttachment", "Text", "Form", "Image", "XML"))
	}
	if _, has := d[k]; !has {
		d[k] = v
	}
}

// wrap hides v somewhere inside inert dictionaries and arrays.
func wrap(r *Rand, v Val, depth int) Val {
	small := func() Val { return GenVal(r, GenOpt{Depth: 1, Keys: inertKey, Dyadic: true, MaxStr: 20}) }
	for ; depth > 0; depth-- {
		if r.Bool() {
			a := Arr{}
			for r.P(40) {
				a = append(a, small())
			}
			a = append(a, v)
			for r.P(40) {
				a = append(a, small())
			}
			v = a
		} else {
			m := Dict{inertKey(r): v}
			for r.P(40) {
				inertEntry(r, m, false)
			}
			v = m
		}
	}
	return v
}

// place puts v into the document at a random kind of place.
func place(d *Doc, v Val) {
	r := d.r
	switch r.IntN(5) {
	case 0, 1:
		d.Add(v)
	case 2:
		d.Add(wrap(r, v, r.Range(1, 4)))
	case 3:
		d.Add(Arr{v, Num(1)})
	default:
		dd := Dict{inertKey(r): wrap(r, v, r.IntN(3))}
		if m, ok := v.(Dict); ok && r.P(30) {
			// the stream's own dictionary carries it
			_, has := m["F"]
			if _, typed := m["Type"]; !has && !typed {
				dd = cloneVal(m).(Dict)
			}
		}
		d.AddStream(dd, r.Data(r.SkewLen(200)))
	}
}

// nameTree builds a name tree of the given pairs, nodes direct or referenced, and returns its root.
func nameTree(d *Doc, pairs Arr, depth int) Val {
	r := d.r
	if depth <= 0 || len(pairs) <= 2 || r.P(30) {
		node := Dict{"Names": d.Maybe(pairs, 25)}
		if len(pairs) > 0 && r.P(60) {
			node["Limits"] = Arr{Str("a"), Str("z")}
		}
		return d.Maybe(node, 50)
	}
	node := Dict{}
	n := len(pairs) / 2
	k := r.Range(1, n)
	if k > 5 && r.P(80) {
		k = r.Range(1, 5)
	}
	var kids Arr
	at := 0
	if r.P(15) { // names and kids in one node
		m := r.Range(0, n)
		node["Names"] = append(Arr{}, pairs[:2*m]...)
		at = m
	}
	for i := 0; i < k; i++ {
		end := at + (n-at)/(k-i)
		if i == k-1 {
			end = n
		}
		kids = append(kids, nameTree(d, append(Arr{}, pairs[2*at:2*end]...), depth-1))
		at = end
	}
	node["Kids"] = d.Maybe(kids, 25)
	return d.Maybe(node, 50)
}

// lineText is a payload for one line of a report file.
func lineText(r *Rand, tag string, id int) string {
	switch r.IntN(12) {
	case 0:
		return ""
	case 1:
		return tag
	}
	s := fmt.Sprintf("%s%d:", tag, id)
	n := r.IntN(30)
	if r.P(5) {
		n = r.Range(200, 6000)
	}
	b := make([]byte, n)
	for i := range b {
		if r.P(80) {
			b[i] = byte(r.Range(' ', '~'))
		} else {
			b[i] = byte(r.IntN(256))
		}
		if b[i] == '\n' || b[i] == '\r' {
			b[i] = '/'
		}
	}
	return s + string(b)
}

// maybeEnc turns encryption on in some documents.
func maybeEnc(d *Doc, pct int) {
	if d.r.P(pct) {
		d.Enc = genEnc(d.r)
	}
}
