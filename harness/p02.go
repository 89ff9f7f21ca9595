package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/metrics"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C02", Quick: 20000, Thorough: 1500000, Run: runC02, CPU: 40, RSS: 700 << 20,
		Rule:   "one input of a few kilobytes (hostile families and mutations of them) processed while CPU time, allocated bytes, live memory, bytes read and seeks were counted (hash of the input)",
		Need:   append([]string{"inputs measured", "bytes read from the file", "seeks", "bytes allocated", "growth compared"}, familyNames()...),
		Assume: []string{"in proportion is decided with fixed budgets for inputs of a few kilobytes: quadratic growth in the bytes present fits, anything driven by a declared number does not"},
	})
}

// meter counts what is asked of the file.
type meter struct {
	*bytes.Reader
	read, seeks int64
}

func (m *meter) Read(p []byte) (int, error) {
	n, err := m.Reader.Read(p)
	m.read += int64(n)
	return n, err
}

func (m *meter) Seek(off int64, whence int) (int64, error) {
	m.seeks++
	return m.Reader.Seek(off, whence)
}

var _ io.ReadSeeker = &meter{}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() int64 {
	metrics.Read(allocSample)
	return int64(allocSample[0].Value.Uint64())
}

type work struct {
	alloc, read, seeks int64
	cpu                float64
	entries, decoded   int64
	out                int64
}

func (w work) String() string {
	return fmt.Sprintf("%d bytes allocated, %d bytes read, %d seeks, %.2f CPU seconds, %d bytes written for %d cross-reference entries and %d decoded bytes", w.alloc, w.read, w.seeks, w.cpu, w.out, w.entries, w.decoded)
}

// measure processes data as a user would, once through Load and every object and once through Parse.
func (c *Ctx) measure(data []byte, pw string) (w work, p *pdf.Parser) {
	a0, t0 := allocated(), cpuSeconds()
	m := &meter{Reader: bytes.NewReader(data)}
	p = pdf.NewParser(m, nil)
	p.Load(pw)
	at := map[int64]bool{}
	for n, e := range p.Xref {
		l := int64(len(p.GetObject(n).Stream))
		if !at[e.Offset] {
			at[e.Offset] = true
			w.decoded += l
		}
	}
	w.entries = int64(len(p.Xref))
	c.Event("decoded bytes", int(w.decoded))
	c.Event("cross-reference entries", int(w.entries))
	in := filepath.Join(c.Dir, "in.pdf")
	Must(os.WriteFile(in, data, 0644))
	out := filepath.Join(c.Dir, "out")
	pdf.Parse(in, pw, out)
	w.alloc, w.read, w.seeks, w.cpu = allocated()-a0, m.read, m.seeks, cpuSeconds()-t0
	filepath.Walk(out, func(_ string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			w.out += fi.Size()
		}
		return nil
	})
	c.Event("inputs measured", 1)
	c.Event("bytes read from the file", int(w.read))
	c.Event("seeks", int(w.seeks))
	c.Event("bytes allocated", int(w.alloc))
	return
}

func runC02(c *Ctx) {
	r := c.R
	if r.P(2) {
		growthCase(c)
		return
	}
	for i := 0; i < 4; i++ {
		data, what := hostileDoc(c)
		if r.P(25) {
			data = mutate(r, data)
		}
		if len(data) > 8192 {
			continue
		}
		c.Attach("in.pdf", data)
		c.Attach("what", []byte(what))
		c.Watchdog(what)
		c.Sig(data)
		w, _ := c.measure(data, "")
		n := int64(len(data)) + max(w.decoded, w.entries)
		c.Check(w.alloc <= 64<<20+40*n*n, "memory", "%s: %s for an input of %d bytes", what, w, len(data))
		c.Check(w.read <= 16<<20+40*n*n, "reading", "%s: %s for an input of %d bytes", what, w, len(data))
		c.Check(w.seeks <= 100000+n*n/10, "seeking", "%s: %s for an input of %d bytes", what, w, len(data))
		c.Check(w.out <= 4<<20+20*n*n, "writing", "%s: %s for an input of %d bytes", what, w, len(data))
		c.Check(w.cpu <= 2.5+float64(n*n)*1.5e-6, "time", "%s: %s for an input of %d bytes", what, w, len(data))
		c.Sample("%s: %d bytes: %s", what, len(data), w)
	}
}
