package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C24", Quick: 30000, Thorough: 600000, Run: runC24, CPU: 60,
		Rule: "one document read under one schedule of read and seek failures, then read again by the same parser (hash of file and of the failing operations)",
		Need: []string{"failed reads", "failed seeks", "partial reads with an error", "early ends of file", "reads without progress", "loads under failures", "objects read under failures", "objects compared after recovery", "reloads after failed loads", "unopenable inputs", "uncreatable outputs", "recoveries without reload"},
	})
}

var errFault = errors.New("injected fault")

// faultFile fails some of its operations.
type faultFile struct {
	MemFile
	c     *Ctx
	op    int
	fails func(op int) bool // nil: none
	kind  func(op int) int
	log   []int
}

func (f *faultFile) Read(p []byte) (int, error) {
	op := f.op
	f.op++
	if f.fails == nil || !f.fails(op) {
		return f.MemFile.Read(p)
	}
	f.log = append(f.log, op)
	switch f.kind(op) {
	case 0, 1:
		f.c.Event("failed reads", 1)
		return 0, errFault
	case 2:
		f.c.Event("partial reads with an error", 1)
		n := len(p) / 2
		n, _ = f.MemFile.Read(p[:n])
		return n, errFault
	case 3:
		f.c.Event("early ends of file", 1)
		return 0, io.EOF
	case 4:
		f.c.Event("reads without progress", 1)
		return 0, nil
	}
	f.c.Event("failed reads", 1)
	return 0, io.ErrUnexpectedEOF
}

func (f *faultFile) Seek(off int64, whence int) (int64, error) {
	op := f.op
	f.op++
	if f.fails == nil || !f.fails(op) {
		return f.MemFile.Seek(off, whence)
	}
	f.log = append(f.log, op)
	f.c.Event("failed seeks", 1)
	switch f.kind(op) {
	case 0, 1, 2:
		return 0, errFault
	case 3:
		return -1, errFault
	}
	return f.pos, errFault
}

// schedule chooses which of about n operations fail.
func schedule(r *Rand, n int) (func(int) bool, string) {
	if n < 1 {
		n = 1
	}
	switch r.IntN(6) {
	case 0:
		i := r.IntN(n)
		return func(op int) bool { return op == i }, fmt.Sprintf("operation %d", i)
	case 1:
		i := r.IntN(n)
		k := r.Range(2, 12)
		return func(op int) bool { return op >= i && op < i+k }, fmt.Sprintf("operations %d-%d", i, i+k-1)
	case 2:
		i := r.IntN(n)
		return func(op int) bool { return op >= i }, fmt.Sprintf("operations from %d", i)
	case 3:
		seed := r.Uint64()
		pct := Pick(r, 2, 10, 50)
		return func(op int) bool { return NewRand(seed, "f", uint64(op)).P(pct) }, fmt.Sprintf("%d%% of the operations", pct)
	case 4:
		k := r.Range(2, 9)
		o := r.IntN(k)
		return func(op int) bool { return op%k == o }, fmt.Sprintf("every %d. operation", k)
	}
	i, j := r.IntN(n), r.IntN(n)
	return func(op int) bool { return op == i || op == j }, fmt.Sprintf("operations %d and %d", i, j)
}

func runC24(c *Ctx) {
	r := c.R
	if r.P(8) {
		c.openC24()
		return
	}
	var data []byte
	var pw string
	switch r.IntN(4) {
	case 0:
		b := newBook(c, 8, 2)
		data = b.finish(b.tree(r.IntN(3), 3, nil, nil))
		pw = b.d.PasswordFixed()
	case 1:
		h := genHist(c, r.Range(1, 4), r.IntN(3), r.P(30), plainObj)
		var ok bool
		if data, ok = h.render(); !ok {
			c.Skip()
		}
		pw = h.d.PasswordFixed()
	case 2:
		d := cryptDoc(c)
		var ok bool
		if data, ok = d.Render(); !ok {
			c.Skip()
		}
		pw = d.PasswordFixed()
	default:
		h := genHarvest(c, r.Range(1, 6))
		data = h.render()
		pw = h.d.PasswordFixed()
	}
	c.Attach("in.pdf", data)
	c.Attach("password", []byte(pw))
	seed := r.Uint64()
	small := r.P(40)
	file := func() *faultFile {
		f := &faultFile{MemFile: MemFile{b: data}, c: c}
		ks := seed
		f.kind = func(op int) int { return NewRand(ks, "kind", uint64(op)).IntN(6) }
		if small {
			sz := NewRand(seed, "size", 0)
			f.size = func(n int) int { return min(n, sz.Range(1, 400)) }
		}
		return f
	}
	ref := file()
	p0, err := Load(ref, pw)
	c.Check(err == nil, "load-error", "Load returned %v", err)
	loadOps := ref.op
	want := readAll(p0)
	readOps := ref.op - loadOps
	nums := sortedIntKeys(want)

	f := file()
	var plan []string
	note := func(s string) {
		plan = append(plan, s)
		c.Attach("plan.txt", []byte(strings.Join(plan, "\n")))
		c.Watchdog(s)
	}
	p := pdf.NewParser(f, nil)
	faultyLoad := r.P(50)
	if faultyLoad {
		for k := r.Range(1, 3); k > 0; k-- {
			base := f.op
			fails, what := schedule(r, loadOps)
			f.fails = func(op int) bool { return fails(op - base) }
			note("Load with failures of " + what)
			lerr := p.Load(pw)
			c.Eval()
			c.Event("loads under failures", 1)
			if r.P(50) {
				// an interrupted Load may be used, whatever it found
				note("objects read after an interrupted Load")
				for _, n := range nums {
					p.GetObject(n)
				}
				c.Event("objects read under failures", len(nums))
			}
			f.fails = nil
			if r.P(30) {
				for _, n := range nums {
					p.GetObject(n)
				}
			}
			_ = lerr
		}
		f.fails = nil
		note("Load again")
		err := p.Load(pw)
		c.Check(err == nil, "reload", "Load failed after the failures were over: %v (%v)", err, plan)
		c.Event("reloads after failed loads", 1)
	} else {
		err := p.Load(pw)
		c.Check(err == nil, "load-error", "Load returned %v", err)
	}
	if !faultyLoad || r.P(50) {
		for k := r.Range(1, 4); k > 0; k-- {
			base := f.op
			fails, what := schedule(r, readOps)
			f.fails = func(op int) bool { return fails(op - base) }
			note("reading with failures of " + what)
			for i := r.Range(1, 2*len(nums)+1); i > 0 && len(nums) > 0; i-- {
				n := nums[r.IntN(len(nums))]
				switch r.IntN(4) {
				case 0:
					pdf.NewReference(p, n, 0).Resolve()
				case 1:
					pdf.NewReference(p, n, 0).ResolveStream()
				case 2:
					if d, ok := p.GetObject(n).Value.(pdf.Dictionary); ok {
						for _, k := range sortedKeys(d) {
							d.GetObject(k)
							d.GetStream(k)
							d.GetNameTreeMap(k)
							d.GetPageTree(k)
						}
					}
				default:
					p.GetObject(n)
				}
				c.Event("objects read under failures", 1)
			}
			f.fails = nil
			if r.P(50) && len(nums) > 0 {
				n := nums[r.IntN(len(nums))]
				if e := p.Xref[n]; e != nil && e.Type == pdf.XrefTypeIndirectObject {
					o := p.GetObject(n)
					got := objText(o)
					c.Check(got == want[n], "recovery", "object %d read right after the failures (%v): %s", n, plan, firstDiff([]byte(got), []byte(want[n])))
				}
			}
		}
		c.Event("recoveries without reload", 1)
	}
	note("reading everything again")
	got := readAll(p)
	for n := range got {
		if _, ok := want[n]; !ok {
			delete(got, n) // an interrupted Load may have noted objects the file does not have
		}
	}
	c.sameObjects(got, want, fmt.Sprintf("after the failures are over (%v)", plan))
	c.Event("objects compared after recovery", len(want))
	c.Sig(data, fmt.Sprint(f.log))
	c.Sample("%d failed operations: %v", len(f.log), plan)
}

// openC24 makes opening the input or creating the output fail.
func (c *Ctx) openC24() {
	r := c.R
	data, pw := c.sureDoc()
	in := filepath.Join(c.Dir, "in.pdf")
	Must(os.WriteFile(in, data, 0644))
	c.Attach("in.pdf", data)
	out := filepath.Join(c.Dir, "out")
	var want error
	what := ""
	root := os.Getuid() == 0
	switch r.IntN(8) {
	case 0:
		in, want, what = filepath.Join(c.Dir, "missing.pdf"), fs.ErrNotExist, "missing input"
	case 1:
		in, want, what = filepath.Join(in, "x"), syscall.ENOTDIR, "input below a file"
	case 2:
		Must(os.Symlink("loop", filepath.Join(c.Dir, "loop")))
		in, want, what = filepath.Join(c.Dir, "loop"), syscall.ELOOP, "input in a link loop"
	case 3:
		if root {
			c.Skip()
		}
		Must(os.Chmod(in, 0))
		want, what = fs.ErrPermission, "unreadable input"
	case 4:
		out, want, what = filepath.Join(in, "out"), syscall.ENOTDIR, "output below a file"
	case 5:
		out, want, what = filepath.Join(c.Dir, strings.Repeat("n", 300)), syscall.ENAMETOOLONG, "output name too long"
	case 6:
		if root {
			c.Skip()
		}
		ro := filepath.Join(c.Dir, "ro")
		Must(os.Mkdir(ro, 0555))
		out, want, what = filepath.Join(ro, "out"), fs.ErrNotExist, "output in a read-only directory"
	default:
		if root {
			c.Skip()
		}
		f := Pick(r, reportFiles...)
		blocker := filepath.Join(out, f)
		Must(os.MkdirAll(filepath.Join(blocker, "full"), 0755))
		Must(os.Chmod(blocker, 0555))
		defer os.Chmod(blocker, 0755)
		want, what = syscall.EISDIR, "report file "+f+" cannot be created"
	}
	if strings.Contains(what, "input") {
		c.Event("unopenable inputs", 1)
	} else {
		c.Event("uncreatable outputs", 1)
	}
	before := openFDs()
	err := pdf.Parse(in, pw, out)
	left := diffLists(before, openFDs())
	c.Check(err != nil, "no-error", "%s: Parse returned no error", what)
	c.Check(errors.Is(err, want), "wrong-error", "%s: Parse returned %v", what, err)
	c.Check(len(left) == 0, "open", "%s: Parse returned %v and left open %v", what, err, left)
	if strings.Contains(what, "input") {
		_, e := os.Lstat(out)
		c.Check(os.IsNotExist(e), "output", "%s: an output was created", what)
	}
	c.Sig(what, data)
}
