package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"
)

var reportFiles = []string{"commands.txt", "contents.txt", "errors.txt", "files.txt", "javascript.js", "raw.pdf", "urls.txt"}
var md5Name = regexp.MustCompile(`^[0-9a-f]{32}$`)

// Result is what a parse left in the output directory.
type Result struct {
	Err   error
	Files map[string][]byte
}

func (r *Result) Get(name string) []byte { return r.Files[name] }

// ReadOut collects an output directory.
func ReadOut(dir string) map[string][]byte {
	files := map[string][]byte{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.Mode().IsRegular() {
			b, e := os.ReadFile(p)
			Must(e)
			files[rel] = b
		} else {
			files[rel] = []byte("<" + fi.Mode().String() + ">")
		}
		return nil
	})
	return files
}

// Parse runs the library on data and collects the output.
func (c *Ctx) Parse(data []byte, password string) *Result {
	in := c.WriteFile("in.pdf", data)
	out := filepath.Join(c.Dir, "out")
	err := pdf.Parse(in, password, out)
	return &Result{err, ReadOut(out)}
}

// ParseOK is Parse for documents that must parse without error.
func (c *Ctx) ParseOK(d *Doc, data []byte) *Result {
	if d != nil {
		c.Attach("doc.txt", []byte(d.Describe()+"\n"))
	}
	pw := ""
	if d != nil {
		pw = d.Password()
	}
	c.Attach("password", []byte(pw))
	res := c.Parse(data, pw)
	c.Check(res.Err == nil, "parse-error", "Parse returned %v", res.Err)
	return res
}

// Load opens data with a parser of its own.
func Load(rs io.ReadSeeker, password string) (*pdf.Parser, error) {
	p := pdf.NewParser(rs, nil)
	err := p.Load(password)
	return p, err
}

func (c *Ctx) LoadOK(d *Doc, data []byte) *pdf.Parser {
	c.Attach("in.pdf", data)
	pw := ""
	if d != nil {
		pw = d.Password()
		c.Attach("doc.txt", []byte(d.Describe()+"\n"))
	}
	c.Attach("password", []byte(pw))
	p, err := Load(bytes.NewReader(data), pw)
	c.Check(err == nil, "load-error", "Load returned %v", err)
	return p
}

// LoadLog loads with the errors log going to a file and returns a function reading it.
func (c *Ctx) LoadLog(rs io.ReadSeeker, password string) (*pdf.Parser, error, func() []string) {
	f, err := os.Create(filepath.Join(c.Dir, "errors.log"))
	Must(err)
	p := pdf.NewParser(rs, &pdf.Output{Errors: f})
	lerr := p.Load(password)
	return p, lerr, func() []string {
		f.Close()
		b, e := os.ReadFile(f.Name())
		Must(e)
		return lines(b)
	}
}

func lines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

func sortedLines(b []byte) []string {
	l := lines(b)
	sort.Strings(l)
	return l
}

// CheckObj compares an object read from the code under test with the model.
func (c *Ctx) CheckObj(p *pdf.Parser, o *Obj) {
	c.CompareObj(p.GetObject(o.N), o)
}

func (c *Ctx) CompareObj(got *pdf.IndirectObject, o *Obj) {
	where := fmt.Sprintf("object %d %d", o.N, o.G)
	c.Check(got != nil, "nil-object", "%s: nil", where)
	c.Check(got.Number == o.N && got.Generation == o.G, "identity", "%s: delivered as %d %d", where, got.Number, got.Generation)
	d := diffVal(fromPDF(got.Value), o.Full)
	c.Check(d == "", "value", "%s: %s", where, d)
	c.Event("values compared", 1)
	if o.IsStream {
		c.Check(got.Stream != nil, "no-stream", "%s: stream missing", where)
		c.Check(bytes.Equal(got.Stream, o.Data), "stream", "%s (filters %v): stream differs: %s", where, filterList(o), firstDiff(got.Stream, o.Data))
		c.Event("streams compared", 1)
		c.Event("stream bytes compared", len(o.Data))
	} else {
		c.Check(len(got.Stream) == 0, "stray-stream", "%s: has a stream of %d bytes but was written without", where, len(got.Stream))
	}
}

func filterList(o *Obj) []string {
	var s []string
	for _, f := range o.Filters {
		t := f.Name
		if f.Parms != nil {
			t += show(f.Parms)
		}
		s = append(s, t)
	}
	return s
}

// CheckRaw compares raw.pdf with the expected objects.
func (c *Ctx) CheckRaw(raw []byte, objs []*Obj) {
	left := map[string]*Obj{}
	for _, o := range objs {
		left[fmt.Sprintf("%d %d", o.N, o.G)] = o
	}
	var rec func(pos int) bool
	best, bestWhy := -1, ""
	note := func(pos int, why string) {
		if pos > best {
			best, bestWhy = pos, why
		}
	}
	rec = func(pos int) bool {
		if pos == len(raw) {
			if len(left) == 0 {
				return true
			}
			note(pos, fmt.Sprintf("objects missing from raw.pdf: %v", sortedKeys(left)))
			return false
		}
		nl := bytes.IndexByte(raw[pos:], '\n')
		if nl < 0 {
			note(pos, "no object header")
			return false
		}
		head := string(raw[pos : pos+nl])
		id := strings.TrimSuffix(head, " obj")
		o := left[id]
		if o == nil || id == head {
			note(pos, fmt.Sprintf("unexpected or repeated entry %.60q", head))
			return false
		}
		delete(left, id)
		if matchText(raw, pos+nl+1, o.Full, func(e int) bool {
			rest := "\n"
			if o.IsStream {
				rest += "stream\n" + string(o.Data) + "\nendstream\n"
			}
			rest += "endobj\n\n"
			if !bytes.HasPrefix(raw[e:], []byte(rest)) {
				hi := e + 200
				if hi > len(raw) {
					hi = len(raw)
				}
				note(e, fmt.Sprintf("after the value of %s: got %q want %.200q", id, raw[e:hi], rest))
				return false
			}
			return rec(e + len(rest))
		}) {
			return true
		}
		hi := pos + 300
		if hi > len(raw) {
			hi = len(raw)
		}
		note(pos, fmt.Sprintf("entry of %s does not match %s: %q", id, show(o.Full), raw[pos:hi]))
		left[id] = o
		return false
	}
	c.Check(rec(0), "raw", "raw.pdf: %s", bestWhy)
	c.Event("raw.pdf entries matched", len(objs))
}

// CheckPieces checks that a report file holds exactly the given lines (in any order).
func (c *Ctx) CheckPieces(res *Result, file string, want []string) {
	pieces := make([]string, len(want))
	for i, w := range want {
		pieces[i] = w + "\n"
	}
	ok, why := matchConcat(res.Get(file), pieces)
	c.Check(ok, file, "%s: %s", file, why)
	c.Event(file+" lines matched", len(want))
}

// ------------------------------------------------------------ processes

type Proc struct {
	Exit           int
	Signal         string
	Stdout, Stderr []byte
	TimedOut       bool
	CPU            float64
}

// RunCLI runs the freshly built command line program.
func (c *Ctx) RunCLI(dir string, wrap []string, args ...string) *Proc {
	argv := append(append([]string{}, wrap...), c.CLI)
	argv = append(argv, args...)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = dir
	var so, se limitedBuffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	Must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	p := &Proc{}
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		p.TimedOut = true
	}
	ps := cmd.ProcessState
	p.Exit = ps.ExitCode()
	if ws, ok := ps.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		p.Signal = ws.Signal().String()
	}
	p.CPU = (ps.UserTime() + ps.SystemTime()).Seconds()
	p.Stdout, p.Stderr = so.b, se.b
	return p
}

func (c *Ctx) CheckAlive(p *Proc, what string) {
	bad := p.TimedOut || p.Signal != "" || p.Exit == 2 || bytes.Contains(p.Stderr, []byte("goroutine ")) || bytes.Contains(p.Stderr, []byte("panic"))
	c.Check(!bad, "cli-crash", "%s: exit %d signal %q timeout %v stderr %.1500q", what, p.Exit, p.Signal, p.TimedOut, p.Stderr)
}

// captureStderr runs f with the process's standard error redirected to a file and returns what was written.
func (c *Ctx) captureStderr(f func()) []byte {
	tmp, err := os.Create(filepath.Join(c.Dir, "stderr.txt"))
	Must(err)
	defer tmp.Close()
	old := os.Stderr
	os.Stderr = tmp
	defer func() { os.Stderr = old }()
	f()
	b, _ := os.ReadFile(tmp.Name())
	return b
}

func runSub(role string, args []string) {
	fmt.Fprintln(os.Stderr, "unknown role", role)
	os.Exit(2)
}

// MemFile is an in-memory ReadSeeker that can cut reads into pieces.
type MemFile struct {
	b    []byte
	pos  int64
	size func(n int) int // how many of n wanted bytes to return
	eof  bool            // report the end of the file together with the last bytes
}

func (m *MemFile) Read(p []byte) (int, error) {
	if m.pos >= int64(len(m.b)) {
		return 0, io.EOF
	}
	n := len(p)
	if m.size != nil {
		n = m.size(n)
	}
	k := copy(p[:n], m.b[m.pos:])
	m.pos += int64(k)
	if m.eof && m.pos == int64(len(m.b)) {
		return k, io.EOF
	}
	return k, nil
}

func (m *MemFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += int64(len(m.b))
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	m.pos = off
	return off, nil
}
