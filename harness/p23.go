package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C23", Quick: 500, Thorough: 20000, Run: runC23,
		Rule: "one sequence of succeeding and failing parses around which descriptors, goroutines, temporary files and live memory were compared (hash of the sequence)",
		Need: []string{"descriptor tables compared", "goroutine counts compared", "temporary directories compared", "live memory compared", "documents of spoiled streams", "successful parses", "parses with missing input", "parses with uncreatable output", "parses failing at a report file", "parses failing at the password", "parses of damaged files"},
	})
}

func openFDs() []string {
	var s []string
	es, err := os.ReadDir("/proc/self/fd")
	Must(err)
	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil {
			continue // the descriptor of this listing
		}
		if strings.HasPrefix(t, "/proc/") {
			continue
		}
		s = append(s, e.Name()+" "+t)
	}
	sort.Strings(s)
	return s
}

func diffLists(a, b []string) (added []string) {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		if m[x]--; m[x] < 0 {
			added = append(added, x)
		}
	}
	return
}

func listTmp() []string {
	var s []string
	for _, dir := range []string{os.TempDir()} {
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			s = append(s, filepath.Join(dir, e.Name()))
		}
	}
	return s
}

func liveHeap() uint64 {
	var ms runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

func runC23(c *Ctx) {
	r := c.R
	if r.P(6) {
		c.heapC23()
		return
	}
	type doc struct {
		path, pw string
		wrong    string
	}
	var docs []doc
	damaged := c.stats.Events["damaged documents"]
	for i := r.Range(1, 3); i > 0; i-- {
		data, pw := c.sureDoc()
		if r.P(15) {
			data, _ = hostileDoc(c)
			pw = ""
		} else if r.P(20) {
			if b, ok := spoiledDoc(c).Render(); ok {
				data, pw = b, ""
			}
		}
		p := filepath.Join(c.Dir, fmt.Sprintf("d%d.pdf", i))
		Must(os.WriteFile(p, data, 0644))
		c.Attach(filepath.Base(p), data)
		docs = append(docs, doc{p, pw, pw + "wrong"})
	}
	old := debug.SetGCPercent(-1) // the collector would close forgotten files
	defer debug.SetGCPercent(old)
	runtime.GC()
	time.Sleep(time.Millisecond)
	fds0, gor0, tmp0 := openFDs(), runtime.NumGoroutine(), listTmp()
	var seq []string
	for k := r.Range(2, 10); k > 0; k-- {
		d := docs[r.IntN(len(docs))]
		in, out, pw := d.path, filepath.Join(c.Dir, "out"), d.pw
		what := "plain"
		var undo []func()
		switch r.IntN(8) {
		case 0:
			in = Pick(r, filepath.Join(c.Dir, "missing"), filepath.Join(d.path, "x"))
			what = "missing input"
			c.Event("parses with missing input", 1)
		case 1:
			out = Pick(r, filepath.Join(d.path, "x"), filepath.Join(c.Dir, strings.Repeat("n", 300)))
			what = "uncreatable output"
			c.Event("parses with uncreatable output", 1)
		case 2, 3:
			// a report file cannot be created: something undeletable is in its place
			if os.Getuid() == 0 {
				break
			}
			f := Pick(r, reportFiles...)
			blocker := filepath.Join(out, f)
			os.RemoveAll(out)
			Must(os.MkdirAll(filepath.Join(blocker, "full"), 0755))
			Must(os.Chmod(blocker, 0555))
			undo = append(undo, func() { os.Chmod(blocker, 0755); os.RemoveAll(out) })
			what = "blocked " + f
			c.Event("parses failing at a report file", 1)
		case 4:
			pw = d.wrong
			what = "other password"
		case 5:
			in = c.Dir // a directory can be opened but not read
			what = "directory as input"
		}
		err := pdf.Parse(in, pw, out)
		fds, gor, tmp := openFDs(), runtime.NumGoroutine(), listTmp()
		for i := 0; i < 50 && gor > gor0; i++ {
			time.Sleep(4 * time.Millisecond)
			gor = runtime.NumGoroutine()
		}
		if err == nil {
			c.Event("successful parses", 1)
		} else if err == pdf.EncryptionPasswordError {
			c.Event("parses failing at the password", 1)
		}
		seq = append(seq, fmt.Sprintf("%s %s -> %v", filepath.Base(in), what, err))
		c.Attach("sequence.txt", []byte(strings.Join(seq, "\n")))
		if strings.HasPrefix(what, "blocked") || what == "missing input" || what == "uncreatable output" {
			c.Check(err != nil, "no-error", "%s: Parse returned no error", what)
		}
		for _, f := range undo {
			f()
		}
		leaked := diffLists(fds0, fds)
		c.Check(len(leaked) == 0, "descriptors", "after %s: still open: %v", seq[len(seq)-1], leaked)
		c.Event("descriptor tables compared", 1)
		c.Check(gor <= gor0, "goroutines", "after %s: %d goroutines, before %d", seq[len(seq)-1], gor, gor0)
		c.Event("goroutine counts compared", 1)
		left := diffLists(tmp0, tmp)
		c.Check(len(left) == 0, "temporary-files", "after %s: left behind: %v", seq[len(seq)-1], left)
		c.Event("temporary directories compared", 1)
	}
	if c.stats.Events["damaged documents"] > damaged {
		c.Event("parses of damaged files", 1)
	}
	c.Sig(strings.Join(seq, "\n"), c.Case)
	c.Sample("%v", seq)
}

// heapSlack is what initialisations done once and the runtime's own bookkeeping
// may add between two measurements.
const heapSlack = 20 << 10

// heapC23 parses many documents and checks that nothing of them stays in memory.
func (c *Ctx) heapC23() {
	r := c.R
	// the documents wait on disk, so that nothing of them lives in the harness:
	// the first half warms up, the second half, of contents never seen before,
	// is what the measured rounds parse
	n := 80
	var pws []string
	for i := 0; i < 2*n; i++ {
		data, pw := c.sureDoc()
		if len(data) > 1<<20 {
			data = data[:1<<20]
		}
		Must(os.WriteFile(filepath.Join(c.Dir, fmt.Sprintf("src%d", i)), data, 0644))
		pws = append(pws, pw)
	}
	var bigs int
	for k := 0; k < 6; k++ {
		big := NewDoc(r, 0)
		for i := 0; i < 4; i++ {
			big.AddStream(Dict{"N": Num(i)}, r.Bytes(200000))
		}
		if bdata, ok := big.Render(); ok {
			Must(os.WriteFile(filepath.Join(c.Dir, fmt.Sprintf("big%d", bigs)), bdata, 0644))
			bigs++
		}
	}
	if bigs < 4 {
		c.Skip()
	}
	out := filepath.Join(c.Dir, "out")
	serial := 0
	parse := func(src, pw, out string) {
		// never the same path or content twice
		serial++
		data, err := os.ReadFile(filepath.Join(c.Dir, src))
		Must(err)
		p := filepath.Join(c.Dir, fmt.Sprintf("doc%d.pdf", serial))
		Must(os.WriteFile(p, append(data, fmt.Sprintf("\n%% %d\n", serial)...), 0644))
		pdf.Parse(p, pw, out)
		os.Remove(p)
	}
	round := func(from, k int) {
		for i := from; i < from+k; i++ {
			j := i % (2 * n)
			parse(fmt.Sprintf("src%d", j), pws[j], out)
			if i%40 == 39 {
				parse(fmt.Sprintf("big%d", i/40%bigs), "", out)
			}
			if i%10 == 9 {
				pdf.Parse(filepath.Join(c.Dir, fmt.Sprintf("missing%d", i)), "", out)
				parse(fmt.Sprintf("src%d", j), pws[j], filepath.Join(c.Dir, strings.Repeat("x", 300)))
			}
		}
	}
	round(0, n)
	before := liveHeap()
	round(n, n) // contents of its own
	middle := liveHeap()
	round(n, 2*n)
	after := liveHeap()
	for _, g := range []struct {
		what  string
		n     int
		grown int64
	}{{"new documents", n, int64(middle) - int64(before)}, {"documents, half of them new,", 3 * n, int64(after) - int64(before)}} {
		c.Check(g.grown < heapSlack, "memory", "parsing %d more %s left %d more bytes in memory (%d before)", g.n, g.what, g.grown, before)
		c.Event("live memory compared", 1)
		c.Event("bytes of growth (sum)", int(max(g.grown, 0)))
	}
	// very many small documents, of which next to nothing may stay
	tiny := func(k int) {
		for i := 0; i < k; i++ {
			serial++
			p := filepath.Join(c.Dir, fmt.Sprintf("doc%d.pdf", serial))
			body := fmt.Sprintf("%%PDF-1.4\n1 0 obj <</Type/Catalog/N%d (%d)>> endobj\n", serial, serial)
			Must(os.WriteFile(p, fmt.Appendf(nil, "%sxref\n0 2\n0000000000 65535 f \n0000000009 00000 n \ntrailer <</Root 1 0 R/Size 2>>\nstartxref\n%d\n%%%%EOF", body, len(body)), 0644))
			pdf.Parse(p, "", out)
			os.Remove(p)
		}
	}
	tiny(50)
	before = liveHeap()
	tiny(1000)
	after = liveHeap()
	grown := int64(after) - int64(before)
	c.Check(grown < heapSlack, "memory", "parsing 1000 more small documents left %d more bytes in memory (%d before)", grown, before)
	c.Event("live memory compared", 1)
	c.Event("bytes of growth (sum)", int(max(grown, 0)))
	runtime.KeepAlive(pws)
	c.Sig("heap", c.Case)
}
