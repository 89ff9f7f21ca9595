package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C20", Quick: 5000, Thorough: 100000, Run: runC20,
		Rule: "one sequence of command line runs over documents and output paths, each run compared with the model of what it may do (hash of the arguments and states)",
		Need: []string{"runs", "run refused: output exists", "run over an existing output with -f", "run into a new output", "run with missing input", "run with unreadable input", "run with wrong password", "run with wrong arguments", "run with uncreatable output", "run with -v", "outputs compared with the library", "output path was a dangling link", "output path was a link"},
	})
}

// normalOut makes outputs comparable: the order of unordered entries is removed.
func normalOut(files map[string][]byte) map[string]string {
	m := map[string]string{}
	for name, b := range files {
		switch name {
		case "raw.pdf":
			// dictionaries print in any order
			s := append([]byte{}, b...)
			sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
			m[name] = string(s)
		case "contents.txt":
			m[name] = string(b)
		default:
			m[name] = strings.Join(sortedLines(b), "\n")
			if md5Name.MatchString(name) {
				m[name] = string(b)
			}
		}
	}
	return m
}

func (c *Ctx) sameOutput(got, want map[string]string, what string) {
	for _, n := range sortedKeys(want) {
		g, ok := got[n]
		c.Check(ok, "out-missing", "%s: %s is missing", what, n)
		c.Check(g == want[n], "out-differs", "%s: %s differs: %s", what, n, firstDiff([]byte(g), []byte(want[n])))
	}
	for _, n := range sortedKeys(got) {
		_, ok := want[n]
		c.Check(ok, "out-extra", "%s: unexpected file %s", what, n)
	}
}

type cliDoc struct {
	path string
	data []byte
	pw   string // user password
	enc  *Enc
	kind string
	refs map[string]map[string]string // library output by password
	errs map[string]error
}

func (c *Ctx) libRef(d *cliDoc, pw string) (map[string]string, error) {
	if m, ok := d.refs[pw]; ok {
		return m, d.errs[pw]
	}
	out := filepath.Join(c.Dir, "libref")
	err := pdf.Parse(d.path, pw, out)
	m := normalOut(ReadOut(out))
	os.RemoveAll(out)
	d.refs[pw], d.errs[pw] = m, err
	return m, err
}

func runC20(c *Ctx) {
	r := c.R
	var docs []*cliDoc
	for i := r.Range(1, 3); i > 0; i-- {
		var data []byte
		cd := &cliDoc{kind: "document", refs: map[string]map[string]string{}, errs: map[string]error{}}
		if r.P(70) {
			h := genHarvest(c, r.Range(1, 5))
			if r.P(50) && h.d.Enc == nil {
				h.d.Enc = genEnc(r)
			}
			if h.d.Enc != nil {
				cd.enc = h.d.Enc
				cd.pw = h.d.Enc.User
				if strings.Contains(cd.pw, "\x00") {
					c.Skip()
				}
			}
			data = h.render()
		} else if r.P(50) {
			data = r.Data(r.SkewLen(3000))
			cd.kind = "junk"
		} else {
			b := newBook(c, 6, 2)
			data = b.finish(b.tree(1, 2, nil, nil))
			if b.d.Enc != nil {
				cd.enc, cd.pw = b.d.Enc, b.d.Enc.User
				if strings.Contains(cd.pw, "\x00") {
					c.Skip()
				}
			}
		}
		name := Pick(r, "doc.pdf", "my file.pdf", "-doc.pdf", "doc")
		cd.path = filepath.Join(c.Dir, fmt.Sprintf("in%d", i), name)
		Must(os.MkdirAll(filepath.Dir(cd.path), 0755))
		Must(os.WriteFile(cd.path, data, 0644))
		old := time.Now().Add(-3 * time.Hour)
		Must(os.Chtimes(cd.path, old, old))
		cd.data = data
		c.Attach(fmt.Sprintf("in%d.pdf", i), data)
		docs = append(docs, cd)
	}
	var outs []string
	for i := 0; i < 2; i++ {
		o := filepath.Join(c.Dir, fmt.Sprintf("o%d", i), Pick(r, "out", "out dir", "-out"))
		state := c.outState(o)
		if strings.Contains(state, "link") {
			c.Event("output path was a "+state, 1)
		}
		outs = append(outs, o)
	}
	var log strings.Builder
	n := r.Range(2, 7)
	for k := 0; k < n; k++ {
		c.cliRun(docs, outs, &log)
	}
	c.Sig(log.String())
	c.Sample("%s", log.String())
}

func (c *Ctx) cliRun(docs []*cliDoc, outs []string, log *strings.Builder) {
	r := c.R
	c.Event("runs", 1)
	d := docs[r.IntN(len(docs))]
	out := outs[r.IntN(len(outs))]
	in := d.path
	force := r.P(50)
	verbose := r.P(30)
	pw := d.pw
	wantErr := ""
	openable := true
	var after []func()
	switch r.IntN(12) {
	case 0:
		in = Pick(r, filepath.Join(c.Dir, "missing.pdf"), filepath.Join(c.Dir, "no", "such", "dir.pdf"), d.path+"/x")
		openable = false
		c.Event("run with missing input", 1)
	case 1:
		if os.Getuid() != 0 {
			Must(os.Chmod(in, 0))
			after = append(after, func() { os.Chmod(d.path, 0644) })
			openable = false
		}
		c.Event("run with unreadable input", 1)
	case 2, 3:
		if d.enc != nil {
			pw = wrongPassword(r, d.enc)
			if strings.Contains(pw, "\x00") {
				return
			}
			wantErr = pdf.EncryptionPasswordError.Error()
			c.Event("run with wrong password", 1)
		} else {
			pw = plainWord(r)
		}
	}
	creatable := true
	if r.P(12) {
		creatable = false
		c.Event("run with uncreatable output", 1)
		switch {
		case os.Getuid() != 0 && r.Bool():
			ro := filepath.Join(c.Dir, "ro")
			Must(os.MkdirAll(ro, 0755))
			Must(os.Chmod(ro, 0555))
			out = filepath.Join(ro, "out")
		case r.Bool():
			out = filepath.Join(d.path, "out") // below a file
		default:
			out = filepath.Join(c.Dir, strings.Repeat("n", 300))
		}
	}
	// arguments
	var args []string
	flags := []string{}
	if force {
		flags = append(flags, Pick(r, "-f", "--f", "-f=true"))
	} else if r.P(10) {
		flags = append(flags, "-f=false")
	}
	if verbose {
		flags = append(flags, Pick(r, "-v", "--v", "-v=true"))
		c.Event("run with -v", 1)
	}
	if pw != "" || r.P(30) {
		flags = append(flags, "P")
	}
	r.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
	for _, f := range flags {
		if f == "P" {
			if r.Bool() {
				args = append(args, Pick(r, "-p", "--p"), pw)
			} else {
				args = append(args, Pick(r, "-p=", "--p=")+pw)
			}
		} else {
			args = append(args, f)
		}
	}
	rel := func(p string) string {
		if q, err := filepath.Rel(c.Dir, p); err == nil && r.P(30) && !strings.HasPrefix(q, "-") {
			return q
		}
		return p
	}
	inArg, outArg := rel(in), rel(out)
	if r.P(40) {
		args = append(args, "--")
	}
	badArgs := 0
	pos := []string{inArg, outArg}
	if r.P(8) {
		badArgs = 1
		pos = [][]string{{}, {inArg}, {inArg, outArg, "third"}, {inArg, outArg, "-f", "x"}}[r.IntN(4)]
	} else if r.P(3) {
		badArgs = 2
		args = append([]string{Pick(r, "-z", "--overwrite", "-f=maybe")}, args...)
	}
	args = append(args, pos...)
	_, lerr := os.Lstat(out)
	exists := !os.IsNotExist(lerr)
	before := snapshot(c.root())
	p := c.RunCLI(c.Dir, nil, args...)
	aft := snapshot(c.root())
	for _, f := range after {
		f()
	}
	said := append(append([]byte{}, p.Stdout...), p.Stderr...)
	what := fmt.Sprintf("args %.300q (output exists: %v)", args, exists)
	fmt.Fprintf(log, "%s -> exit %d\n", what, p.Exit)
	c.Attach("runs.txt", []byte(log.String()))
	unchanged := func(why string) {
		c.checkOutside(before, aft, filepath.Join(c.Dir, "no such path"))
		c.Check(len(bytes.TrimSpace(said)) > 0, "silent", "%s: %s, but no message was printed", what, why)
		c.Event("run refused: "+why, 1)
	}
	if badArgs > 0 {
		c.Check(!p.TimedOut && p.Signal == "" && !bytes.Contains(p.Stderr, []byte("goroutine ")), "cli-crash", "%s: %+v", what, p)
		c.Event("run with wrong arguments", 1)
		unchanged("wrong arguments")
		c.Check(p.Exit != 0, "usage-exit", "%s: wrong arguments but exit status 0", what)
		return
	}
	c.CheckAlive(p, what)
	if exists && !force {
		unchanged("output exists")
		return
	}
	if !openable {
		unchanged("input cannot be opened")
		return
	}
	if !creatable {
		c.Check(len(bytes.TrimSpace(said)) > 0, "silent", "%s: the output cannot be created, but no message was printed", what)
		c.checkOutside(before, aft, filepath.Join(c.Dir, "no such path"))
		return
	}
	if exists {
		c.Event("run over an existing output with -f", 1)
	} else {
		c.Event("run into a new output", 1)
	}
	c.checkOutside(before, aft, out)
	want, err := c.libRef(d, pw)
	got := normalOut(ReadOut(out))
	c.sameOutput(got, want, what+" against the library")
	c.Event("outputs compared with the library", 1)
	if wantErr != "" {
		c.Check(err != nil && err.Error() == wantErr, "lib-error", "%s: the library returned %v, want %s", what, err, wantErr)
	}
	if d.kind == "document" && pw == d.pw {
		c.Check(err == nil, "lib-error", "%s: the library returned %v", what, err)
	}
	if err != nil {
		c.Check(bytes.Contains(said, []byte(err.Error())), "message", "%s: the library fails with %v but the program printed %.300q", what, err, said)
	}
}
