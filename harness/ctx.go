package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
)

type Failure struct {
	Prop  string            `json:"property"`
	Tier  string            `json:"tier"`
	Seed  uint64            `json:"seed"`
	Case  int               `json:"case"`
	Key   string            `json:"key"`
	Msg   string            `json:"message"`
	Files map[string][]byte `json:"-"`
}

type skipCase struct{}

// Ctx is what one case of a property sees.
type Ctx struct {
	R        *Rand
	Prop     string
	Tier     string
	Seed     uint64
	Case     int
	Dir      string // private scratch directory of this worker
	CLI      string // path of the freshly built command line binary
	attached map[string][]byte
	stats    *Stats
}

type Stats struct {
	Evals   int64            `json:"evals"`
	Skipped int64            `json:"skipped"`
	Events  map[string]int64 `json:"events"`
	Sigs    map[uint64]bool  `json:"-"`
	Samples []string         `json:"samples"`
}

func NewStats() *Stats { return &Stats{Events: map[string]int64{}, Sigs: map[uint64]bool{}} }

// Eval counts one oracle evaluation.
func (c *Ctx) Eval() { c.stats.Evals++ }

// Event counts something a monitor observed.
func (c *Ctx) Event(name string, n int) { c.stats.Events[name] += int64(n) }

// Sig registers a non-trivial case by content.
func (c *Ctx) Sig(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	c.stats.Sigs[h.Sum64()] = true
}

func (c *Ctx) Sample(format string, a ...interface{}) {
	if len(c.stats.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.stats.Samples = append(c.stats.Samples, fmt.Sprintf("case %d: %s", c.Case, s))
	}
}

// Attach keeps bytes that are written next to the replay file if the case fails.
func (c *Ctx) Attach(name string, data []byte) {
	c.attached[name] = append([]byte(nil), data...)
}

func (c *Ctx) Fail(key, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	panic(&Failure{Prop: c.Prop, Tier: c.Tier, Seed: c.Seed, Case: c.Case, Key: key, Msg: msg, Files: c.attached})
}

// Skip abandons a case whose generated input is outside the property.
func (c *Ctx) Skip() { panic(skipCase{}) }

func (c *Ctx) Check(ok bool, key, format string, a ...interface{}) {
	c.Eval()
	if !ok {
		c.Fail(key, format, a...)
	}
}

// Must is for harness I/O that is expected to work; a failure there is not a verdict.
func Must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

type harnessError struct{ err error }

func (c *Ctx) WriteFile(name string, data []byte) string {
	p := filepath.Join(c.Dir, name)
	Must(os.WriteFile(p, data, 0644))
	c.Attach(filepath.Base(name), data)
	return p
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func q(b interface{}) string {
	s := fmt.Sprintf("%q", b)
	if len(s) > 300 {
		s = s[:300] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// firstDiff describes where two byte strings differ.
func firstDiff(got, want []byte) string {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	lo := n - 10
	if lo < 0 {
		lo = 0
	}
	cut := func(b []byte) []byte {
		hi := n + 20
		if hi > len(b) {
			hi = len(b)
		}
		if lo > hi {
			return nil
		}
		return b[lo:hi]
	}
	return fmt.Sprintf("lengths got=%d want=%d, first difference at %d: got ...%q want ...%q", len(got), len(want), n, cut(got), cut(want))
}
