// Command verifharness runs the monitors for the properties in /verif/properties.jsonl
// against the pdfparser package it was linked with (always the working tree of /repo).
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is one property's workload and monitor.
type Prop struct {
	ID       string
	Quick    int // cases
	Thorough int
	Workers  int  // 0: one per core
	Race     bool // run in the race-detector build
	Rule     string
	Need     []string // events that must have been observed, else the run is inconclusive
	CPU      float64  // CPU seconds one case may take (0: default)
	RSS      int64    // bytes of resident memory a worker may use (0: default)
	Assume   []string
	Run      func(c *Ctx)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

const (
	defaultCPU  = 90.0
	defaultRSS  = 3 << 30
	maxFailures = 2
)

func main() {
	var (
		prop    = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Uint64("seed", 1, "seed")
		scratch = flag.String("scratch", "", "scratch directory")
		cli     = flag.String("cli", "", "command line binary")
		worker  = flag.String("worker", "", "i/n: run as worker")
		only    = flag.Int("case", -1, "run only this case")
		out     = flag.String("out", "/verif", "verif directory")
		cases   = flag.Int("cases", 0, "override number of cases")
		wall    = flag.Int("wall", 0, "watchdog in seconds")
		sub     = flag.String("sub", "", "internal: run a sub-process role")
	)
	flag.Parse()
	if *sub != "" {
		runSub(*sub, flag.Args())
		return
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	n := p.Quick
	if *tier == "thorough" {
		n = p.Thorough
	}
	if *cases > 0 {
		n = *cases
	}
	if *worker != "" {
		runWorker(p, *tier, *seed, *worker, n, *only, *scratch, *cli)
		return
	}
	w := *wall
	if w == 0 {
		w = 840
		if *tier == "thorough" {
			w = 4 * 3600
		}
	}
	os.Exit(runParent(p, *tier, *seed, n, *only, *scratch, *cli, *out, time.Duration(w)*time.Second))
}

// ---------------------------------------------------------------- worker

type workerReport struct {
	Stats    *Stats    `json:"stats"`
	Failures []Failure `json:"failures"`
	Cases    int       `json:"cases"`
	Harness  string    `json:"harness_error"`
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	v, _ := strconv.ParseInt(f[1], 10, 64)
	return v * int64(os.Getpagesize())
}

type progress struct {
	mu    sync.Mutex
	f     *os.File
	c     int
	cpu0  float64
	label string
}

var prog progress

func (p *progress) set(c int) {
	p.mu.Lock()
	p.c, p.cpu0, p.label = c, cpuSeconds(), ""
	p.f.WriteAt([]byte(fmt.Sprintf("%-20d", c)), 0)
	p.mu.Unlock()
}

// Watchdog restarts the per-step CPU budget inside a case that runs many inputs.
func (c *Ctx) Watchdog(label string) {
	prog.mu.Lock()
	prog.cpu0, prog.label = cpuSeconds(), label
	prog.mu.Unlock()
}

func runWorker(p *Prop, tier string, seed uint64, shard string, n, only int, scratch, cli string) {
	var si, sn int
	fmt.Sscanf(shard, "%d/%d", &si, &sn)
	syscall.Umask(0022)
	os.Chdir(scratch)
	pf, err := os.Create(filepath.Join(scratch, "progress"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	prog.f = pf
	cpuMax, rssMax := p.CPU, p.RSS
	if cpuMax == 0 {
		cpuMax = defaultCPU
	}
	if rssMax == 0 {
		rssMax = defaultRSS
	}
	if !raceEnabled {
		lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	core := syscall.Rlimit{}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &core)
	go func() {
		extended := 0
		for {
			time.Sleep(100 * time.Millisecond)
			prog.mu.Lock()
			used := cpuSeconds() - prog.cpu0
			c, label := prog.c, prog.label
			prog.mu.Unlock()
			if used > cpuMax {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				if extended < 20 && !bytes.Contains(buf, []byte("pdfparser/pdf.")) {
					// the time is being spent by the harness itself, not by the code under test
					extended++
					prog.mu.Lock()
					prog.cpu0 += 5
					prog.mu.Unlock()
					continue
				}
				fmt.Fprintf(os.Stderr, "BUDGET cpu: case %d %s used %.1f CPU seconds (budget %.0f)\n%s\n", c, label, used, cpuMax, buf)
				os.Exit(42)
			}
			if m := rssBytes(); m > rssMax {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "BUDGET memory: case %d %s uses %d MB (budget %d MB)\n%s\n", c, label, m>>20, rssMax>>20, buf)
				os.Exit(43)
			}
		}
	}()
	// the library must work with the package's verbosity variable left alone; quiet unless a case sets it
	rep := workerReport{Stats: NewStats()}
	for i := si; i < n; i += sn {
		if only >= 0 && i != only {
			continue
		}
		prog.set(i)
		dir := filepath.Join(scratch, "c")
		removeTree(scratch, dir)
		if err := os.MkdirAll(dir, 0755); err != nil {
			rep.Harness = err.Error()
			break
		}
		c := &Ctx{R: NewRand(seed, p.ID, uint64(i)), Prop: p.ID, Tier: tier, Seed: seed, Case: i, Dir: dir, CLI: cli, attached: map[string][]byte{}, stats: rep.Stats}
		f, herr := runCase(p, c)
		rep.Cases++
		if herr != nil {
			rep.Harness = fmt.Sprintf("case %d: %v", i, herr)
			break
		}
		if f != nil {
			fd := filepath.Join(scratch, "fail", fmt.Sprint(i))
			os.MkdirAll(fd, 0755)
			for name, data := range f.Files {
				os.WriteFile(filepath.Join(fd, name), data, 0644)
			}
			rep.Failures = append(rep.Failures, *f)
			if len(rep.Failures) >= maxFailures {
				break
			}
		}
	}
	os.RemoveAll(filepath.Join(scratch, "c"))
	var sig bytes.Buffer
	for s := range rep.Stats.Sigs {
		binary.Write(&sig, binary.LittleEndian, s)
	}
	os.WriteFile(filepath.Join(scratch, "sigs"), sig.Bytes(), 0644)
	b, _ := json.Marshal(rep)
	os.WriteFile(filepath.Join(scratch, "report.json"), b, 0644)
}

func runCase(p *Prop, c *Ctx) (fail *Failure, herr error) {
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case *Failure:
				fail = v
			case skipCase:
				c.stats.Skipped++
			case harnessError:
				herr = v.err
			default:
				st := string(debug.Stack())
				if !strings.Contains(st, "github.com/KarmaPenny/pdfparser") {
					herr = fmt.Errorf("harness panic: %v\n%s", e, st)
					return
				}
				if len(st) > 3000 {
					st = st[:3000]
				}
				fail = &Failure{Prop: c.Prop, Tier: c.Tier, Seed: c.Seed, Case: c.Case, Key: "panic", Msg: fmt.Sprintf("panic in the code under test: %v\n%s", e, st), Files: c.attached}
			}
		}
	}()
	p.Run(c)
	return
}

// removeTree removes dir, which must lie inside base.
func removeTree(base, dir string) {
	if strings.HasPrefix(dir, base+"/") && len(base) > 5 {
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() && fi.Mode().Perm()&0700 != 0700 {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(dir)
	}
}

// ---------------------------------------------------------------- parent

type limitedBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	if room := 1<<16 - len(l.b); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		l.b = append(l.b, p[:room]...)
	}
	l.mu.Unlock()
	return len(p), nil
}

func runParent(p *Prop, tier string, seed uint64, n, only int, scratch, cli, out string, wall time.Duration) int {
	start := time.Now()
	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	if workers > n {
		workers = n
	}
	if only >= 0 {
		workers = 1
	}
	self, _ := os.Executable()
	cred := unprivileged(scratch)
	coverdir := filepath.Join(scratch, "cov")
	os.MkdirAll(coverdir, 0777)
	os.Chmod(coverdir, 0777)

	type result struct {
		rep     *workerReport
		crash   string
		case_   int
		harness string
		sigs    []byte
		dir     string
	}
	results := make([]result, workers)
	timedOut := false
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		// nested so that even several levels up from a case directory is still scratch space
		dir := filepath.Join(scratch, fmt.Sprintf("w%d", w), "p", "q")
		os.MkdirAll(dir, 0755)
		if cred != nil {
			for d := dir; d != scratch; d = filepath.Dir(d) {
				os.Chown(d, int(cred.Uid), int(cred.Gid))
			}
		}
		shard := fmt.Sprintf("%d/%d", w, workers)
		if only >= 0 {
			shard = "0/1"
		}
		args := []string{"-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-worker", shard, "-scratch", dir, "-cli", cli, "-cases", fmt.Sprint(n)}
		if only >= 0 {
			args = append(args, "-case", fmt.Sprint(only))
		}
		cmd := exec.Command(self, args...)
		cmd.Dir = dir
		cmd.Env = append(cleanEnv(), "TMPDIR="+dir, "HOME="+dir, "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=66 log_path="+filepath.Join(dir, "race"), "GOMAXPROCS="+fmt.Sprint(gomax(workers)), "GOCOVERDIR="+coverdir)
		var eb limitedBuffer
		cmd.Stderr = &eb
		cmd.Stdout = &eb
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: cred}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := &results[w]
			r.dir = dir
			r.case_ = -1
			if err := cmd.Start(); err != nil {
				r.harness = "cannot start worker: " + err.Error()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var err error
			select {
			case err = <-done:
			case <-time.After(wall - time.Since(start)):
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				timedOut = true
				r.harness = "wall clock watchdog fired (inconclusive)"
				return
			}
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			if b, e := os.ReadFile(filepath.Join(dir, "progress")); e == nil {
				r.case_, _ = strconv.Atoi(strings.TrimSpace(string(b)))
			}
			if b, e := os.ReadFile(filepath.Join(dir, "report.json")); e == nil {
				r.rep = &workerReport{}
				if e := json.Unmarshal(b, r.rep); e != nil {
					r.rep = nil
				}
			}
			r.sigs, _ = os.ReadFile(filepath.Join(dir, "sigs"))
			if races, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(races) > 0 {
				b, _ := os.ReadFile(races[0])
				if len(b) > 6000 {
					b = b[:6000]
				}
				r.crash = "data race reported by the race detector:\n" + string(b)
				return
			}
			if r.rep == nil {
				tail := string(eb.b)
				if len(tail) > 5000 {
					tail = tail[:3000] + "\n...\n" + tail[len(tail)-1500:]
				}
				if r.case_ < 0 || strings.Contains(tail, "harness") {
					r.harness = fmt.Sprintf("worker failed (%v): %s", err, tail)
					return
				}
				r.crash = fmt.Sprintf("worker process ended abnormally (%v) in case %d:\n%s", err, r.case_, tail)
			} else if r.rep.Harness != "" {
				r.harness = r.rep.Harness
			}
		}(w)
	}
	wg.Wait()

	total := NewStats()
	casesRun := 0
	var fails []Failure
	var harness []string
	for w := range results {
		r := &results[w]
		if r.harness != "" {
			harness = append(harness, r.harness)
		}
		if r.rep != nil {
			casesRun += r.rep.Cases
			total.Evals += r.rep.Stats.Evals
			total.Skipped += r.rep.Stats.Skipped
			for k, v := range r.rep.Stats.Events {
				total.Events[k] += v
			}
			if len(total.Samples) < 4 && len(r.rep.Stats.Samples) > 0 {
				total.Samples = append(total.Samples, r.rep.Stats.Samples[0])
			}
			for _, f := range r.rep.Failures {
				f.Files = map[string][]byte{}
				fd := filepath.Join(r.dir, "fail", fmt.Sprint(f.Case))
				if es, err := os.ReadDir(fd); err == nil {
					for _, e := range es {
						b, _ := os.ReadFile(filepath.Join(fd, e.Name()))
						f.Files[e.Name()] = b
					}
				}
				fails = append(fails, f)
			}
		}
		if r.crash != "" {
			f := Failure{Prop: p.ID, Tier: tier, Seed: seed, Case: r.case_, Key: "abnormal-end", Msg: r.crash, Files: map[string][]byte{}}
			// keep whatever input the dying case had written
			es, _ := filepath.Glob(filepath.Join(r.dir, "c", "*"))
			for _, e := range es {
				if fi, err := os.Lstat(e); err == nil && fi.Mode().IsRegular() && fi.Size() < 1<<20 {
					b, _ := os.ReadFile(e)
					f.Files[filepath.Base(e)] = b
				}
			}
			fails = append(fails, f)
		}
		for s := r.sigs; len(s) >= 8; s = s[8:] {
			total.Sigs[binary.LittleEndian.Uint64(s)] = true
		}
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].Case < fails[j].Case })

	known := loadKnown(filepath.Join(out, "known_findings.txt"))
	for _, k := range known {
		if k.prop == p.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, k.text)
		}
	}
	violations := 0
	for _, f := range fails {
		suppressed := false
		for _, k := range known {
			if k.prop == p.ID && k.key == f.Key {
				suppressed = true
			}
		}
		if suppressed {
			continue
		}
		violations++
		path := saveReplay(out, f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		m := f.Msg
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		fmt.Printf("  case %d [%s]: %s\n", f.Case, f.Key, strings.ReplaceAll(m, "\n", "\n  "))
		if violations >= 5 {
			break
		}
	}
	if only >= 0 {
		fmt.Printf("case %d: %d evaluations, %d failures, harness: %v\n", only, total.Evals, len(fails), harness)
		if violations > 0 {
			return 1
		}
		return 0
	}

	missing := []string{}
	for _, e := range p.Need {
		if total.Events[e] == 0 {
			missing = append(missing, e)
		}
	}
	cov := coverageOf(coverdir)
	ev := map[string]interface{}{
		"evaluations":         total.Evals,
		"distinct_nontrivial": len(total.Sigs),
		"rule":                p.Rule,
		"samples":             total.Samples,
		"cases":               casesRun,
		"skipped_cases":       total.Skipped,
		"observed_events":     total.Events,
		"workers":             workers,
		"build":               map[bool]string{true: "race detector", false: "plain"}[raceEnabled],
	}
	if cov != "" {
		ev["statements_of_package_pdf_executed"] = cov
	}
	rec := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage":    ev,
		"assumptions": append([]string{"the property is decided only for the executions observed in this run"}, p.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(rec, "", " ")
	os.MkdirAll(filepath.Join(out, "evidence"), 0755)
	os.WriteFile(filepath.Join(out, "evidence", p.ID+".json"), append(b, '\n'), 0644)

	fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct, %d skipped, %d violations, coverage %s, %.1fs\n", p.ID, tier, casesRun, total.Evals, len(total.Sigs), total.Skipped, violations, cov, time.Since(start).Seconds())
	for _, h := range harness {
		fmt.Printf("HARNESS: %s\n", h)
	}
	if violations > 0 {
		return 1
	}
	if len(harness) > 0 || timedOut {
		fmt.Println("INCONCLUSIVE: the run did not complete")
		return 3
	}
	if len(missing) > 0 || total.Evals == 0 {
		fmt.Printf("INCONCLUSIVE: nothing observed for %v\n", missing)
		return 3
	}
	return 0
}

func gomax(workers int) int {
	if workers >= runtime.NumCPU() {
		return 2
	}
	return runtime.NumCPU()
}

func cleanEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "GOTRACEBACK=") || strings.HasPrefix(e, "TMPDIR=") || strings.HasPrefix(e, "HOME=") || strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GOCOVERDIR=") {
			continue
		}
		env = append(env, e)
	}
	return env
}

// unprivileged returns credentials for workers, so that nothing the code under
// test does can touch files other than the worker's own scratch files.
func unprivileged(scratch string) *syscall.Credential {
	if os.Getuid() != 0 {
		return nil
	}
	cred := &syscall.Credential{Uid: 65534, Gid: 65534}
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
	if err := cmd.Run(); err != nil {
		return nil
	}
	return cred
}

func saveReplay(out string, f Failure) string {
	dir := filepath.Join(out, "replays", f.Prop, fmt.Sprintf("%s-seed%d-case%d", f.Tier, f.Seed, f.Case))
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	for name, data := range f.Files {
		os.WriteFile(filepath.Join(dir, name), data, 0644)
	}
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(filepath.Join(dir, "failure.json"), append(b, '\n'), 0644)
	os.WriteFile(filepath.Join(dir, "message.txt"), []byte(f.Msg+"\n"), 0644)
	return dir
}

type knownFinding struct{ prop, key, text string }

// lines: "known: property=C01 key=<key> <text>"; "fixed:" lines suppress nothing.
func loadKnown(path string) []knownFinding {
	var ks []knownFinding
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		w := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(w) == 3 {
			ks = append(ks, knownFinding{strings.TrimPrefix(w[0], "property="), strings.TrimPrefix(w[1], "key="), w[2]})
		}
	}
	return ks
}

func coverageOf(dir string) string {
	es, _ := os.ReadDir(dir)
	if len(es) == 0 {
		return ""
	}
	o, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).CombinedOutput()
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(o), "\n") {
		if strings.Contains(l, "pdfparser/pdf") {
			f := strings.Fields(l)
			for _, x := range f {
				if strings.HasSuffix(x, "%") {
					return x
				}
			}
		}
	}
	return ""
}
