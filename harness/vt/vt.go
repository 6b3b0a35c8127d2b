// Package vt is the shared runtime of the property checks: it wraps rapid so that
// every run is seeded, counted, classified, sampled and, on failure, leaves the
// minimal failing case behind as text.
package vt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"pgregory.net/rapid"
)

type Failure struct {
	Test    string `json:"test"`
	Input   string `json:"input"`
	Message string `json:"message"`
	Kind    string `json:"kind"` // violation | harness
}

type stats struct {
	mu          sync.Mutex
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"distinct_nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Failures    []*Failure     `json:"failures"`
	Known       map[string]int `json:"known"`
	Excluded    map[string]int `json:"excluded"`
	Tests       map[string]int `json:"tests"`
	seen        map[uint64]bool
	sampleN     map[string]int
}

var st = &stats{
	Classes: map[string]int{}, Known: map[string]int{}, Excluded: map[string]int{}, Tests: map[string]int{},
	seen: map[uint64]bool{}, sampleN: map[string]int{},
}

// C is one generated case.
type C struct {
	*rapid.T
	test  string
	input strings.Builder
}

var (
	curMu    sync.Mutex
	curCase  *C
	curStart time.Duration
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Input records (part of) the generated case as text, for the replay file and, before
// the code under test runs, for the journal that survives a crash of the process.
func (c *C) Input(format string, args ...interface{}) {
	fmt.Fprintf(&c.input, format, args...)
	c.input.WriteString("\n")
	if journal != nil {
		b := []byte(c.test + "\n" + c.input.String())
		_ = journal.Truncate(0)
		_, _ = journal.WriteAt(b, 0)
	}
}

// NonTrivial counts the case as non-trivial; key identifies it (distinct keys are counted once).
func (c *C) NonTrivial(key string) {
	h := fnv.New64a()
	h.Write([]byte(c.test))
	h.Write([]byte{0})
	h.Write([]byte(key))
	st.mu.Lock()
	defer st.mu.Unlock()
	if !st.seen[h.Sum64()] {
		st.seen[h.Sum64()] = true
		st.NonTrivial++
		n := st.sampleN[c.test]
		st.sampleN[c.test] = n + 1
		if n == 3 || n == 40 || n == 200 {
			s := c.input.String()
			if s == "" {
				s = key
			}
			if len(s) > 1200 {
				s = s[:1200] + "..."
			}
			st.Samples = append(st.Samples, c.test+": "+s)
		}
	}
}

// Class counts the case under a label.
func (c *C) Class(label string) {
	st.mu.Lock()
	st.Classes[c.test+"/"+label]++
	st.mu.Unlock()
}

// Classf counts the case under a label when cond holds.
func (c *C) ClassIf(cond bool, label string) {
	if cond {
		c.Class(label)
	}
}

// KnownFinding counts an observation of a listed known finding.
func KnownFinding(id string) {
	st.mu.Lock()
	st.Known[id]++
	st.mu.Unlock()
}

// Exclude counts a case left out because of a listed known finding.
func Exclude(id string) {
	st.mu.Lock()
	st.Excluded[id]++
	st.mu.Unlock()
}

var journal *os.File

// Scale is the factor the tier applies to case counts.
func Scale() float64 {
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && s > 0 {
		return s
	}
	return 1
}

func record(f *Failure) {
	st.mu.Lock()
	defer st.mu.Unlock()
	for i, o := range st.Failures {
		if o.Test == f.Test {
			st.Failures[i] = f // the last failing run of a test is the most shrunk one
			return
		}
	}
	st.Failures = append(st.Failures, f)
}

// Check runs prop on `checks` generated cases (scaled by the tier).
func Check(t *testing.T, name string, checks int, prop func(c *C)) {
	CheckSteps(t, name, checks, 0, prop)
}

func CheckSteps(t *testing.T, name string, checks, steps int, prop func(c *C)) {
	n := int(float64(checks) * Scale())
	if n < 1 {
		n = 1
	}
	t.Run(name, func(t *testing.T) {
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
		if steps > 0 {
			_ = flag.Set("rapid.steps", strconv.Itoa(steps))
		}
		violated, done := false, 0
		t.Cleanup(func() {
			if t.Failed() && !violated {
				record(&Failure{Test: t.Name(), Message: "the harness could not generate enough valid cases", Kind: "harness"})
			}
		})
		rapid.Check(t, func(rt *rapid.T) {
			if !violated && done >= checks && overBudget() {
				return // on a slow machine only the tier's basic number of cases is run
			}
			done++
			c := &C{T: rt, test: name}
			st.mu.Lock()
			st.Evaluations++
			st.Tests[name]++
			st.mu.Unlock()
			curMu.Lock()
			curCase, curStart = c, cpuTime()
			curMu.Unlock()
			defer func() {
				curMu.Lock()
				curCase = nil
				curMu.Unlock()
				r := recover()
				if r == nil {
					if rt.Failed() {
						violated = true
						record(&Failure{Test: t.Name(), Input: c.input.String(), Message: "case failed", Kind: "violation"})
					}
					return
				}
				if tn := fmt.Sprintf("%T", r); !strings.HasSuffix(tn, "invalidData") {
					violated = true
					msg := fmt.Sprint(r)
					if !strings.HasSuffix(tn, "stopTest") {
						msg = "panic: " + msg + "\n" + trimStack(string(debug.Stack()))
					}
					record(&Failure{Test: t.Name(), Input: c.input.String(), Message: msg, Kind: "violation"})
				}
				panic(r)
			}()
			prop(c)
		})
	})
}

var started = time.Now()

// overBudget tells whether the time for more than the basic number of cases is used up.
func overBudget() bool {
	b, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	return err == nil && time.Since(started) > time.Duration(b)*time.Second
}

func trimStack(s string) string {
	if len(s) > 6000 {
		return s[:6000]
	}
	return s
}

func flush() {
	if p := os.Getenv("VERIF_STATS"); p != "" {
		st.mu.Lock()
		b, err := json.MarshalIndent(st, "", " ")
		st.mu.Unlock()
		if err != nil {
			fmt.Println("stats:", err)
			os.Exit(3)
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			fmt.Println("stats:", err)
			os.Exit(3)
		}
	}
}

const (
	caseCPULimit = 90 * time.Second
	caseMemLimit = 8 << 30
)

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		curMu.Lock()
		c, s := curCase, curStart
		curMu.Unlock()
		if c == nil {
			continue
		}
		var ms runtime.MemStats
		over := ""
		if cpuTime()-s > caseCPULimit {
			over = fmt.Sprintf("one case used more than %s of CPU time without finishing (normal cases take milliseconds)", caseCPULimit)
		} else if runtime.ReadMemStats(&ms); ms.HeapAlloc > caseMemLimit {
			over = "one case used more than 8 GB of memory (normal cases take a few MB)"
		}
		if over != "" {
			curMu.Lock()
			same := curCase == c
			curMu.Unlock()
			if !same {
				continue
			}
			record(&Failure{Test: c.test, Input: journalText(), Message: over, Kind: "violation"})
			flush()
			fmt.Println("watchdog:", over)
			os.Exit(1)
		}
	}
}

func journalText() string {
	if p := os.Getenv("VERIF_JOURNAL"); p != "" {
		b, _ := os.ReadFile(p)
		return string(b)
	}
	return ""
}

// Main is TestMain's body.
func Main(m *testing.M) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	time.Local = time.UTC
	if p := os.Getenv("VERIF_JOURNAL"); p != "" {
		f, err := os.Create(p)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		journal = f
	}
	flag.Parse()
	go watchdog()
	code := m.Run()
	flush()
	os.Exit(code)
}
