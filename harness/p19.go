package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{
		ID: "C19", Quick: 12000, Thorough: 240000, Run: runC19,
		Rule:   "one document with hostile file names parsed over one previous state of the output path, with the scratch tree compared before and after (hash of file and state)",
		Need:   []string{"paths compared", "hostile names", "output existed", "output contained links", "runs of the command line", "dumped files compared", "neighbours named as files of the document"},
		Assume: []string{"writes outside the worker's scratch tree are impossible for the unprivileged worker or seen by strace where it can run"},
	})
}

// snapshot describes everything below root.
func snapshot(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if fi == nil {
				return nil
			}
		}
		switch {
		case fi.Mode().IsRegular():
			b, e := os.ReadFile(p)
			if e != nil {
				m[p] = fmt.Sprintf("%v unreadable %d", fi.Mode(), fi.Size())
				return nil
			}
			m[p] = fmt.Sprintf("%v %d %x %d", fi.Mode(), fi.Size(), sha256.Sum256(b), fi.ModTime().UnixNano())
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[p] = "link to " + t
		default:
			m[p] = fi.Mode().String()
		}
		return nil
	})
	return m
}

func under(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// checkOutside compares two snapshots, ignoring what lies below out and the harness's own files.
func (c *Ctx) checkOutside(before, after map[string]string, out string, ignore ...string) {
	all := map[string]bool{}
	for p := range before {
		all[p] = true
	}
	for p := range after {
		all[p] = true
	}
	own := func(p string) bool {
		switch filepath.Base(p) {
		case "progress", "stderr.txt":
			return true
		}
		for _, i := range ignore {
			if p == i {
				return true
			}
		}
		return false
	}
	n := 0
	for _, p := range sortedKeys(all) {
		if under(p, out) || own(p) {
			continue
		}
		n++
		b, was := before[p]
		a, is := after[p]
		switch {
		case was && !is:
			c.Check(false, "removed", "%s was removed (output directory %s)", p, out)
		case !was && is:
			if strings.HasPrefix(out, p+"/") && strings.HasPrefix(a, "d") {
				continue // a parent of the output directory had to be made
			}
			c.Check(false, "created", "%s was created outside of the output directory %s", p, out)
		default:
			c.Check(a == b, "changed", "%s was changed outside of the output directory %s: %s -> %s", p, out, b, a)
		}
	}
	c.Event("paths compared", n)
}

// root of the worker's private tree
func (c *Ctx) root() string { return filepath.Dir(filepath.Dir(filepath.Dir(c.Dir))) }

// outState prepares the output path in one of many previous states; it returns a description.
func (c *Ctx) outState(out string) string {
	r := c.R
	Must(os.MkdirAll(filepath.Dir(out), 0755))
	canary := filepath.Join(c.Dir, "canary")
	Must(os.MkdirAll(filepath.Join(canary, "sub"), 0755))
	for _, n := range []string{"a.txt", "sub/b.txt", "raw.pdf", "errors.txt"} {
		Must(os.WriteFile(filepath.Join(canary, n), []byte("canary "+n), 0644))
	}
	old := time.Now().Add(-time.Hour)
	Must(os.Chtimes(filepath.Join(canary, "a.txt"), old, old))
	fill := func() {
		Must(os.MkdirAll(out, 0755))
		for _, n := range append([]string{"old.txt", ".hidden", "0123456789abcdef0123456789abcdef", "raw.pdf.bak"}, reportFiles...) {
			if r.P(50) {
				Must(os.WriteFile(filepath.Join(out, n), []byte("stale\nstale\n"+strings.Repeat("s", r.IntN(9000))), Pick[os.FileMode](r, 0644, 0444, 0600)))
			}
		}
		if r.Bool() {
			Must(os.MkdirAll(filepath.Join(out, "dir", "deeper"), 0755))
			Must(os.WriteFile(filepath.Join(out, "dir", "deeper", "x"), []byte("x"), 0644))
		}
		if r.P(30) {
			n := Pick(r, "raw.pdf", "urls.txt", "errors.txt", "files.txt")
			os.Remove(filepath.Join(out, n))
			Must(os.Mkdir(filepath.Join(out, n), 0755))
		}
	}
	switch r.IntN(9) {
	case 0, 1:
		return "absent"
	case 2:
		Must(os.MkdirAll(out, 0755))
		c.Event("output existed", 1)
		return "empty directory"
	case 3, 4:
		fill()
		c.Event("output existed", 1)
		return "filled directory"
	case 5:
		fill()
		for _, n := range []string{"raw.pdf", "errors.txt", "link", "urls.txt", "0123456789abcdef0123456789abcdef"} {
			if r.P(60) {
				p := filepath.Join(out, n)
				os.RemoveAll(p)
				Must(os.Symlink(Pick(r, canary, filepath.Join(canary, "a.txt"), filepath.Join(canary, "raw.pdf"), "../../canary/sub", filepath.Join(canary, "new"), "."), p))
			}
		}
		c.Event("output contained links", 1)
		return "directory with links"
	case 6:
		Must(os.WriteFile(out, []byte("a file"), 0644))
		c.Event("output existed", 1)
		return "file"
	case 7:
		Must(os.Symlink(Pick(r, canary, filepath.Join(canary, "sub"), filepath.Join(canary, "a.txt")), out))
		c.Event("output was a link", 1)
		return "link"
	default:
		Must(os.Symlink(filepath.Join(canary, "nothing"), out))
		c.Event("output was a link", 1)
		return "dangling link"
	}
}

func (c *Ctx) nastyName() string {
	r := c.R
	c.Event("hostile names", 1)
	up := strings.Repeat("../", r.Range(1, 6))
	switch r.IntN(14) {
	case 12, 13:
		return Pick(r, "tool", "Setup", "report", "in", "form", "a", "old") + Pick(r, ".exe", ".lnk", ".js", ".bat", ".pdf", ".xml", ".zip", ".txt", ".tmp", ".doc", "", "~", ".bin", ".html")
	case 0:
		return up + Pick(r, "escape", "canary/a.txt", "in.pdf", "x/y", "c/in.pdf")
	case 1:
		return filepath.Join(c.Dir, Pick(r, "escape", "canary/a.txt", "canary/sub/b.txt", "in.pdf"))
	case 2:
		return Pick(r, reportFiles...)
	case 3:
		return Pick(r, "", ".", "..", "/", "./", "../", "//", "\x00", " ", "~", "...", "-rf", "*", "?")
	case 4:
		return "ok\x00" + up + "escape"
	case 5:
		return strings.Repeat("n", r.Range(200, 5000))
	case 6:
		return strings.ReplaceAll(up, "/", "\\") + "escape"
	case 7:
		return Pick(r, "0123456789abcdef0123456789abcdef", zeroHash, "d41d8cd98f00b204e9800998ecf8427e")
	case 8:
		return Pick(r, "$(touch escape)", "`touch escape`", "|touch escape", ";touch escape", "a b", "%2e%2e%2fescape", "file:///"+strings.TrimPrefix(c.Dir, "/")+"/escape")
	case 9:
		return "sub/" + up + "escape"
	case 10:
		return "dir/sub/file.bin"
	}
	return lineText(r, "name", r.IntN(100))
}

// neighbours makes files that have the names, and some of them the contents, of
// what the document carries, next to the output directory and in the working directory.
func (c *Ctx) neighbours(h *harvest, base, out string) {
	r := c.R
	for k, line := range h.files {
		if k == 6 || len(line) < 33 {
			break
		}
		sum, name := line[:32], line[33:]
		n := filepath.Base(strings.ReplaceAll(name, "\x00", ""))
		if r.P(15) {
			n = sum
		}
		if n == "." || n == ".." || n == "/" || len(n) > 200 || r.P(40) {
			continue
		}
		b, ok := h.dumps[sum]
		if !ok || r.P(30) {
			b = []byte("neighbour")
		}
		p := filepath.Join(Pick(r, c.Dir, base), n)
		if _, err := os.Lstat(p); err == nil || n == "in.pdf" || n == "ro" || n == "trace.txt" || n == "a" || n == "b" || strings.HasPrefix(filepath.Join(out, "x"), p+"/") {
			continue
		}
		if os.WriteFile(p, b, 0644) == nil {
			c.Event("neighbours named as files of the document", 1)
		}
	}
}

func runC19(c *Ctx) {
	r := c.R
	h := genHarvestNamed(c, r.Range(1, 8), c.nastyName)
	data := h.render()
	depth := r.IntN(3)
	base := c.Dir
	for i := 0; i < depth; i++ {
		base = filepath.Join(base, string(rune('a'+i)))
	}
	if r.P(80) {
		Must(os.MkdirAll(base, 0755))
	}
	out := filepath.Join(base, Pick(r, "out", "out.d", "my output", "-out", "Ausgabe\xc3\xa4"))
	state := "absent"
	if _, err := os.Stat(base); err == nil {
		state = c.outState(out)
	}
	c.neighbours(h, base, out)
	in := filepath.Join(c.Dir, "in.pdf")
	if r.P(20) {
		Must(os.MkdirAll(filepath.Join(c.Dir, "ro"), 0755))
		in = filepath.Join(c.Dir, "ro", "in.pdf")
	}
	Must(os.WriteFile(in, data, Pick[os.FileMode](r, 0644, 0444, 0400)))
	c.Attach("in.pdf", data)
	c.Attach("state.txt", []byte(state+"\n"+out+"\n"))
	old := time.Now().Add(-2 * time.Hour)
	Must(os.Chtimes(in, old, old))
	arg := out
	if rel, err := filepath.Rel(c.Dir, out); err == nil && r.P(30) {
		arg = Pick(r, rel, "./"+rel, rel+"/")
	}
	pw := h.d.Password()
	root := c.root()
	trace := filepath.Join(c.Dir, "trace.txt")
	before := snapshot(root)
	mode := r.IntN(10)
	var ignore []string
	switch {
	case mode < 5:
		wd, _ := os.Getwd()
		Must(os.Chdir(c.Dir))
		err := pdf.Parse(in, pw, arg)
		Must(os.Chdir(wd))
		c.Check(err == nil, "parse-error", "Parse over %s: %v", state, err)
		c.Event("library parses", 1)
	default:
		args := []string{"-f"}
		if pw != "" || r.Bool() {
			args = append(args, "-p", pw)
		}
		if strings.Contains(pw, "\x00") {
			c.Skip()
		}
		if r.P(30) {
			args = append(args, "-v")
		}
		args = append(args, "--", in, arg)
		var wrap []string
		if mode == 9 && straceWorks(c) {
			wrap = []string{"strace", "-f", "-y", "-qq", "-s", "6000", "-o", trace, "-e", "trace=file,desc,process"}
			ignore = append(ignore, trace)
		}
		p := c.RunCLI(c.Dir, wrap, args...)
		c.CheckAlive(p, "command line over "+state)
		c.Event("runs of the command line", 1)
		if wrap != nil {
			c.checkTrace(trace, out)
		}
	}
	after := snapshot(root)
	c.checkOutside(before, after, out, ignore...)
	res := &Result{nil, ReadOut(out)}
	for _, f := range reportFiles {
		_, ok := res.Files[f]
		c.Check(ok, "missing-report", "%s is missing in the output directory (previously %s)", f, state)
	}
	for name, b := range res.Files {
		ok := md5Name.MatchString(name)
		for _, f := range reportFiles {
			ok = ok || name == f
		}
		c.Check(ok, "stray-file", "unexpected %q in the output directory (previously %s)", name, state)
		fi, err := os.Lstat(filepath.Join(out, name))
		c.Check(err == nil && fi.Mode().IsRegular(), "not-regular", "%s in the output directory is not a regular file: %.40q", name, b)
	}
	c.CheckPieces(res, "files.txt", h.files)
	c.CheckPieces(res, "commands.txt", h.cmds)
	c.CheckPieces(res, "urls.txt", h.urls)
	c.CheckPieces(res, "javascript.js", h.js)
	h.checkDumps(res)
	got, err := os.ReadFile(in)
	c.Check(err == nil && bytes.Equal(got, data), "input", "the input file was changed: %v", err)
	c.Sig(data, state)
	c.Sample("output %s was: %s; files %.200q", arg, state, h.files)
}

var straceOK = 0

func straceWorks(c *Ctx) bool {
	if straceOK == 0 {
		straceOK = -1
		p := (&Ctx{CLI: "/bin/true"}).RunCLISafe(c.Dir, []string{"strace", "-f", "-qq", "-e", "trace=file", "-o", "/dev/null"})
		if p != nil && p.Exit == 0 {
			straceOK = 1
		}
	}
	if straceOK < 0 {
		c.Event("strace not usable", 1)
	}
	return straceOK > 0
}

// RunCLISafe is RunCLI for programs that may not exist.
func (c *Ctx) RunCLISafe(dir string, wrap []string, args ...string) (p *Proc) {
	defer func() {
		if recover() != nil {
			p = nil
		}
	}()
	return c.RunCLI(dir, wrap, args...)
}

var callRe = regexp.MustCompile(`^\d+\s+(\w+)\((.*)$`)
var fdPathRe = regexp.MustCompile(`^(?:AT_FDCWD|\d+)(?:<([^>]*)>)?, "((?:[^"\\]|\\.)*)"(?:, (.*))?$`)
var pathRe = regexp.MustCompile(`^"((?:[^"\\]|\\.)*)"(?:, (.*))?$`)
var writeFlags = regexp.MustCompile(`O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND`)

// checkTrace reads the system calls of a run and looks for effects outside of out.
func (c *Ctx) checkTrace(file, out string) {
	f, err := os.Open(file)
	Must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	calls, execs := 0, 0
	kinds := map[string]int{}
	for sc.Scan() {
		m := callRe.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		calls++
		name, args := m[1], m[2]
		if name == "execve" {
			execs++
			continue
		}
		var paths []string
		grab := func(a string) string {
			dir, p, rest := c.Dir, "", ""
			if g := fdPathRe.FindStringSubmatch(a); g != nil {
				p, rest = g[2], g[3]
				if g[1] != "" {
					dir = g[1]
				}
			} else if g := pathRe.FindStringSubmatch(a); g != nil {
				p, rest = g[1], g[2]
			} else {
				return ""
			}
			p = unescapeStrace(p)
			if !filepath.IsAbs(p) {
				p = filepath.Join(unescapeStrace(dir), p)
			}
			paths = append(paths, filepath.Clean(p))
			return rest
		}
		switch name {
		case "open", "openat", "openat2", "creat":
			rest := grab(args)
			if name != "creat" && !writeFlags.MatchString(rest) {
				continue
			}
		case "mkdir", "mkdirat", "mknod", "mknodat", "unlink", "unlinkat", "rmdir", "chmod", "fchmodat", "fchmodat2", "chown", "lchown", "fchownat", "truncate", "utime", "utimes", "utimensat", "futimesat", "setxattr", "removexattr":
			grab(args)
		case "rename", "renameat", "renameat2", "link", "linkat", "symlink", "symlinkat":
			rest := grab(args)
			grab(rest)
		default:
			continue
		}
		for _, p := range paths {
			if p == "/dev/null" || strings.HasPrefix(p, "/proc/") || strings.HasPrefix(p, "/sys/") || strings.HasPrefix(p, "/dev/") {
				continue
			}
			if under(p, out) || (strings.HasPrefix(name, "mkdir") && under(out, p)) {
				kinds[name]++
				continue
			}
			c.Check(false, "syscall", "%s touches %s outside of the output directory %s: %.300s", name, p, out, sc.Text())
		}
	}
	c.Eval()
	c.Check(execs <= 1, "exec", "the program started %d other programs", execs-1)
	c.Event("system calls examined", calls)
	ks := sortedKeys(kinds)
	sort.Strings(ks)
	for _, k := range ks {
		c.Event("traced "+k, kinds[k])
	}
}

func unescapeStrace(s string) string {
	if !strings.Contains(s, "\\") {
		return s
	}
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' || i+1 == len(s) {
			b = append(b, s[i])
			continue
		}
		i++
		switch s[i] {
		case 'n':
			b = append(b, '\n')
		case 't':
			b = append(b, '\t')
		case 'r':
			b = append(b, '\r')
		case 'f':
			b = append(b, '\f')
		case 'v':
			b = append(b, '\v')
		default:
			if s[i] >= '0' && s[i] <= '7' {
				v, n := 0, 0
				for n < 3 && i < len(s) && s[i] >= '0' && s[i] <= '7' {
					v = v*8 + int(s[i]-'0')
					i++
					n++
				}
				i--
				b = append(b, byte(v))
			} else {
				b = append(b, s[i])
			}
		}
	}
	return string(b)
}
