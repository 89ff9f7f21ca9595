package main

import "fmt"

func init() {
	register(&Prop{
		ID: "C18", Quick: 30000, Thorough: 600000, Run: runC18,
		Rule: "one document whose raw.pdf was matched entry by entry against the objects it must hold (hash of the file)",
		Need: []string{"raw.pdf entries matched", "streams in raw.pdf", "free entries", "objects without an entry", "encrypted documents", "update histories", "documents with extractable content", "free objects absent"},
	})
}

func runC18(c *Ctx) {
	r := c.R
	if r.P(25) {
		// update histories
		h := genHist(c, r.Range(1, 5), Pick(r, 0, 1, 2), r.P(30), plainObj)
		data, ok := h.render()
		if !ok {
			c.Skip()
		}
		c.Event("update histories", 1)
		if h.d.Enc != nil {
			c.Event("encrypted documents", 1)
		}
		c.Attach("history.txt", []byte(h.describe()))
		res := c.ParseOK(h.d, data)
		c.CheckRaw(res.Get("raw.pdf"), h.live())
		c.Event("free objects absent", len(h.free()))
		c.Sig(data)
		c.countStreams(h.live())
		return
	}
	if r.P(25) {
		h := genHarvest(c, r.Range(1, 6))
		data, ok := h.d.Render()
		if !ok {
			c.Skip()
		}
		c.Event("documents with extractable content", 1)
		res := c.ParseOK(h.d, data)
		c.CheckRaw(res.Get("raw.pdf"), h.d.All())
		c.Sig(data)
		c.countStreams(h.d.All())
		return
	}
	d := NewDoc(r, r.IntN(3))
	maybeEnc(d, 35)
	if d.Enc != nil {
		c.Event("encrypted documents", 1)
	}
	n := r.Range(1, 10)
	if r.P(8) {
		n = r.Range(30, 150)
	}
	d.Kind = Pick(r, "", "", "", "none")
	fillInert(d, n, GenOpt{Depth: 3, Dyadic: true}, true)
	if d.Kind == "" {
		for _, o := range d.Objs {
			if r.P(5) {
				o.Unlisted = true
				c.Event("objects without an entry", 1)
			}
		}
		for i := r.IntN(4); i > 0; i-- {
			ref := d.Alloc()
			d.Free = append(d.Free, ref)
			c.Event("free entries", 1)
			if r.P(40) {
				// what a freed object leaves behind in the file
				o := d.Put(ref, GenVal(r, GenOpt{Depth: 2, Dyadic: true}))
				o.Unlisted = true
				o.Dead = true
				c.Event("freed bodies", 1)
			}
		}
	} else {
		c.Event("objects without an entry", n)
	}
	data, ok := d.Render()
	if !ok {
		c.Skip()
	}
	res := c.ParseOK(d, data)
	var live []*Obj
	for _, o := range d.All() {
		if !o.Dead {
			live = append(live, o)
		}
	}
	c.CheckRaw(res.Get("raw.pdf"), live)
	c.Event("free objects absent", len(d.Free))
	c.countStreams(live)
	c.Sig(data)
	c.Sample("%s: %d entries", d.Describe(), len(live))
}

func (c *Ctx) countStreams(objs []*Obj) {
	for _, o := range objs {
		if o.IsStream {
			c.Event("streams in raw.pdf", 1)
			for _, f := range o.Filters {
				c.Event(fmt.Sprintf("filter %s", f.Name), 1)
			}
		}
	}
}
