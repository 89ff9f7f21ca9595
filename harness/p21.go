package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C21", CPU: 300, Quick: 500, Thorough: 30000, Run: runC21, Race: true, Workers: 4,
		Rule:   "one group of documents read concurrently; distinct by the order in which the parsers' reads interleaved (hash of the sequence of parser numbers over all reads)",
		Need:   []string{"concurrent parses", "concurrent parsers", "reads interleaved", "switches between parsers", "outputs compared", "objects compared", "encrypted documents", "verbose groups", "same document in several parses"},
		Assume: []string{"the race detector sees only the memory accesses of the executed interleavings"},
	})
}

// anyDoc makes a document of any kind together with its password.
func (c *Ctx) anyDoc() ([]byte, string) {
	r := c.R
	var d *Doc
	var data []byte
	switch r.IntN(7) {
	case 6:
		d = spoiledDoc(c)
		var ok bool
		if data, ok = d.Render(); !ok {
			c.Skip()
		}
	case 0, 1:
		h := genHarvest(c, r.Range(1, 6))
		data, d = h.render(), h.d
	case 2:
		b := newBook(c, 20, 2)
		data, d = b.finish(b.tree(1, 3, nil, nil)), b.d
	case 3:
		h := genHist(c, r.Range(1, 4), r.IntN(3), r.P(30), plainObj)
		var ok bool
		if data, ok = h.render(); !ok {
			c.Skip()
		}
		d = h.d
	case 4:
		d = cryptDoc(c)
		var ok bool
		if data, ok = d.Render(); !ok {
			c.Skip()
		}
	default:
		d = NewDoc(r, r.IntN(3))
		fillInert(d, r.Range(5, 40), GenOpt{Depth: 3, Dyadic: true, Keys: inertKey}, true)
		var ok bool
		if data, ok = d.Render(); !ok {
			c.Skip()
		}
	}
	if d.Enc != nil {
		c.Event("encrypted documents", 1)
	}
	pw := d.PasswordFixed()
	if r.P(10) {
		// damaged documents and wrong passwords go through other paths
		switch r.IntN(3) {
		case 0:
			data = append([]byte{}, data[:r.IntN(len(data)+1)]...)
		case 1:
			data = append([]byte{}, data...)
			for k := r.Range(1, 10); k > 0 && len(data) > 0; k-- {
				data[r.IntN(len(data))] = r.Byte()
			}
		default:
			pw = plainWord(r)
		}
		c.Event("damaged documents", 1)
	}
	return data, pw
}

// spoiledDoc has streams whose data do not decode cleanly.
func spoiledDoc(c *Ctx) *Doc {
	r := c.R
	d := NewDoc(r, r.IntN(3))
	fillInert(d, r.IntN(6), GenOpt{Depth: 2, Dyadic: true, Keys: inertKey}, true)
	for i := r.Range(1, 8); i > 0; i-- {
		n := r.SkewLen(3000)
		if r.P(15) {
			n = r.Range(5000, 60000)
		}
		fs, enc := genFilters(r, r.Data(n), 2, true)
		enc = append([]byte{}, enc...)
		if len(fs) == 0 {
			fs = []FilterUse{{Name: filterNames[r.IntN(len(filterNames))]}}
		}
		switch r.IntN(6) {
		case 0:
			enc = enc[:0]
		case 1:
			enc = enc[:r.IntN(len(enc)+1)]
		case 2, 3:
			for k := r.Range(1, 4); k > 0 && len(enc) > 0; k-- {
				enc[Pick(r, r.IntN(len(enc)), r.IntN(min(len(enc), 4)))] = r.Byte()
			}
		case 4:
			enc = append(enc, r.Bytes(Pick(r, r.Range(1, 3000), 20000))...)
		default:
			enc = r.Bytes(r.IntN(300))
		}
		if bytes.Contains(enc, []byte("endstream")) {
			continue
		}
		o := d.AddStream(Dict{}, nil)
		o.Filters, o.Encoded, o.PlainLen = fs, enc, true
	}
	c.Event("documents of spoiled streams", 1)
	return d
}

// sureDoc is anyDoc for groups in which a single document must not abandon the case.
func (c *Ctx) sureDoc() (data []byte, pw string) {
	for {
		ok := func() (ok bool) {
			defer func() {
				if e := recover(); e != nil {
					if _, skip := e.(skipCase); !skip {
						panic(e)
					}
				}
			}()
			data, pw = c.anyDoc()
			return true
		}()
		if ok {
			return
		}
	}
}

// slowFile gives other goroutines a chance at every read and records who read.
type slowFile struct {
	MemFile
	id    int
	r     *Rand
	log   *readLog
	after func()
}

type readLog struct {
	mu  sync.Mutex
	ids []byte
}

func (s *slowFile) Read(p []byte) (int, error) {
	s.log.mu.Lock()
	s.log.ids = append(s.log.ids, byte(s.id))
	s.log.mu.Unlock()
	switch s.r.IntN(6) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(s.r.IntN(30)) * time.Microsecond)
	}
	return s.MemFile.Read(p)
}

func dumpParser(p *pdf.Parser, err error) (string, map[int]string) {
	if err != nil {
		return err.Error(), nil
	}
	return "", readAll(p)
}

func runC21(c *Ctx) {
	r := c.R
	n := r.Range(2, 6)
	type item struct {
		data []byte
		pw   string
		path string
		// sequential results
		perr  error
		files map[string]string
		lerr  string
		objs  map[int]string
	}
	var items []*item
	for i := 0; i < n; i++ {
		if i > 0 && r.P(25) {
			o := items[r.IntN(i)]
			items = append(items, &item{data: o.data, pw: o.pw, path: o.path})
			c.Event("same document in several parses", 1)
			continue
		}
		data, pw := c.sureDoc()
		for len(data) > 150000 {
			// the race detector slows reading down so much that large documents only cost interleavings
			data, pw = c.sureDoc()
		}
		it := &item{data: data, pw: pw, path: filepath.Join(c.Dir, fmt.Sprintf("doc%d.pdf", i))}
		Must(os.WriteFile(it.path, data, 0644))
		c.Attach(fmt.Sprintf("doc%d.pdf", i), data)
		c.Attach(fmt.Sprintf("password%d", i), []byte(pw))
		items = append(items, it)
	}
	verbose := r.P(25)
	if verbose {
		c.Event("verbose groups", 1)
		v := true
		pdf.Verbose = &v
		defer func() { pdf.Verbose = nil }()
	}
	run := func() {
		for i, it := range items {
			out := filepath.Join(c.Dir, fmt.Sprintf("seq%d", i))
			it.perr = pdf.Parse(it.path, it.pw, out)
			it.files = normalOut(ReadOut(out))
			it.lerr, it.objs = dumpParser(Load(bytes.NewReader(it.data), it.pw))
		}
		rounds := r.Range(1, 3)
		for k := 0; k < rounds; k++ {
			log := &readLog{}
			var wg sync.WaitGroup
			start := make(chan struct{})
			perr := make([]error, n)
			lerr := make([]string, n)
			objs := make([]map[int]string, n)
			parse := make([]bool, n)
			read := make([]bool, n)
			for i := range items {
				parse[i] = r.P(70)
				read[i] = !parse[i] || r.P(60)
			}
			for i, it := range items {
				i, it := i, it
				if parse[i] {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						perr[i] = pdf.Parse(it.path, it.pw, filepath.Join(c.Dir, fmt.Sprintf("con%d", i)))
					}()
				}
				if read[i] {
					f := &slowFile{MemFile: MemFile{b: it.data}, id: i, r: NewRand(r.Uint64(), "slow", 0), log: log}
					if r.P(50) {
						sz := NewRand(r.Uint64(), "size", 0)
						f.size = func(n int) int { return sz.Range(1, n) }
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						lerr[i], objs[i] = dumpParser(Load(f, it.pw))
					}()
				}
			}
			close(start)
			wg.Wait()
			switches := 0
			for i := 1; i < len(log.ids); i++ {
				if log.ids[i] != log.ids[i-1] {
					switches++
				}
			}
			c.Event("reads interleaved", len(log.ids))
			c.Event("switches between parsers", switches)
			if switches > n {
				c.Sig(log.ids)
			}
			for i, it := range items {
				if parse[i] {
					c.Event("concurrent parses", 1)
					c.Check(fmt.Sprint(perr[i]) == fmt.Sprint(it.perr), "parse-error", "document %d: concurrent Parse returned %v, alone %v", i, perr[i], it.perr)
					out := filepath.Join(c.Dir, fmt.Sprintf("con%d", i))
					c.sameOutput(normalOut(ReadOut(out)), it.files, fmt.Sprintf("document %d parsed concurrently against alone", i))
					c.Event("outputs compared", 1)
				}
				if read[i] {
					c.Event("concurrent parsers", 1)
					c.Check(lerr[i] == it.lerr, "load-error", "document %d: concurrent Load returned %q, alone %q", i, lerr[i], it.lerr)
					if lerr[i] == "" {
						c.sameObjects(objs[i], it.objs, fmt.Sprintf("document %d read concurrently", i))
						c.Event("objects compared", len(objs[i]))
					}
				}
			}
		}
	}
	if verbose {
		c.captureStderr(run)
	} else {
		run()
	}
	if races, _ := filepath.Glob(filepath.Join(filepath.Dir(c.Dir), "race.*")); len(races) > 0 {
		b, _ := os.ReadFile(races[0])
		c.Fail("race", "data race reported by the race detector:\n%.3500s", b)
	}
	c.Sample("%d documents", n)
}
