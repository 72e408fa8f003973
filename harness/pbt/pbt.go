// Package pbt is the shared runner for the property checks: it drives rapid with a
// deterministic seed, counts and samples the generated cases, remembers the last
// (shrunk) failing case, and guards every case against hangs and hard crashes.
package pbt

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type SubStats struct {
	Name          string         `json:"name"`
	Rule          string         `json:"rule"`
	Evaluations   int            `json:"evaluations"`
	NonTrivial    int            `json:"nontrivial"`
	DistinctNT    int            `json:"distinct_nontrivial"`
	Discarded     int            `json:"discarded"`
	SkippedBudget int            `json:"skipped_by_time_budget"`
	Classes       map[string]int `json:"classes,omitempty"`
	Samples       []string       `json:"samples,omitempty"`
	WallS         float64        `json:"wall_s"`
	Failed        bool           `json:"failed"`
	Seed          uint64         `json:"seed"`

	seen map[uint64]bool
}

type Failure struct {
	Sub      string `json:"check"`
	Message  string `json:"message"`
	Case     string `json:"case"`
	Seed     uint64 `json:"seed"`
	Checks   int    `json:"checks"`
	FailFile string `json:"rapid_failfile,omitempty"`
}

type Known struct {
	ID     string `json:"id"`
	What   string `json:"what"`
	Fails  bool   `json:"fails"`
	Detail string `json:"detail"`
}

type Stats struct {
	Subs     []*SubStats `json:"subs"`
	Failures []*Failure  `json:"failures"`
	Known    []*Known    `json:"known"`
	Done     bool        `json:"done"`
}

var (
	mu      sync.Mutex
	stats   Stats
	statOut = os.Getenv("VERIF_STATS")
	caseOut = os.Getenv("VERIF_CASE")
	only    = os.Getenv("VERIF_SUB")
	// the case being executed, for the watchdog
	curSub   string
	curDesc  string
	curStart time.Time
	running  bool
	caseTime = 90 * time.Second
)

func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func baseSeed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil || n == 0 {
		n = 1
	}
	return n
}

func scale() float64 {
	f, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64)
	if err != nil || f <= 0 {
		return 1
	}
	return f
}

// Main is called from every TestMain.
func Main(m *testing.M) {
	flag.Parse()
	debug.SetMaxStack(128 << 20)
	go watchdog()
	rc := m.Run()
	mu.Lock()
	stats.Done = true
	save()
	mu.Unlock()
	os.Exit(rc)
}

func save() {
	if statOut == "" {
		return
	}
	b, _ := json.MarshalIndent(&stats, "", " ")
	os.WriteFile(statOut, b, 0644)
}

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		mu.Lock()
		if running && time.Since(curStart) > caseTime {
			if !noteFailureLocked(curSub, fmt.Sprintf("the case did not finish within %v", caseTime), curDesc, 0, 0) {
				save()
			}
			save()
			os.Exit(3)
		}
		mu.Unlock()
	}
}

func noteFailureLocked(sub, msg, desc string, seed uint64, checks int) bool {
	for _, f := range stats.Failures {
		if f.Sub == sub {
			f.Message, f.Case = msg, desc
			return true
		}
	}
	stats.Failures = append(stats.Failures, &Failure{Sub: sub, Message: msg, Case: desc, Seed: seed, Checks: checks})
	return false
}

// C is one generated case.
type C struct {
	*rapid.T
	sub     *SubStats
	desc    string
	nt      bool
	classes []string
	msg     string
}

// Case records a readable rendering of the input; call it before exercising the code.
func (c *C) Case(format string, args ...interface{}) {
	if len(args) == 0 {
		c.desc = format
	} else {
		c.desc = fmt.Sprintf(format, args...)
	}
	mu.Lock()
	curDesc = c.desc
	mu.Unlock()
	if caseOut != "" {
		os.WriteFile(caseOut, []byte(c.sub.Name+"\n"+c.desc), 0644)
	}
}

// CaseJSON records the JSON of the input as the case.
func (c *C) CaseJSON(v interface{}) {
	c.Case("%s", JSON(v))
}

// NonTrivial marks the case as non-trivial under the sub-check's rule.
func (c *C) NonTrivial(b bool) {
	if b {
		c.nt = true
	}
}

// Class counts the case under a label.
func (c *C) Class(format string, args ...interface{}) {
	c.classes = append(c.classes, fmt.Sprintf(format, args...))
}

func (c *C) Fatalf(format string, args ...interface{}) {
	c.Helper()
	c.msg = fmt.Sprintf(format, args...)
	c.T.Fatalf("%s", c.msg)
}

func (c *C) Fatal(args ...interface{}) {
	c.Helper()
	c.msg = strings.TrimSpace(fmt.Sprintln(args...))
	c.T.Fatalf("%s", c.msg)
}

// Check is a shorthand for failing with a message when cond is false.
func (c *C) Check(cond bool, format string, args ...interface{}) {
	if !cond {
		c.Helper()
		c.Fatalf(format, args...)
	}
}

func JSON(v interface{}) string {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	if err := enc.Encode(v); err != nil {
		return fmt.Sprintf("%#v (%v)", v, err)
	}
	return strings.TrimRight(buf.String(), "\n")
}

// Opt holds the size of a sub-check.
type Opt struct {
	Quick    int           // number of generated cases in the quick tier
	Thorough int           // in the thorough tier (default 25x)
	Budget   time.Duration // wall-clock cap for the quick tier (default 60s; thorough 10x)
	Rule     string        // what makes a case non-trivial
}

// Run executes one sub-check of a property as a rapid check.
func Run(t *testing.T, name string, o Opt, f func(c *C)) {
	if only != "" && only != name {
		return
	}
	n := o.Quick
	if n >= 100 && Tier() != "thorough" { // cases that are not batches of compiled programs
		n *= 2
	}
	budget := o.Budget
	if budget == 0 {
		budget = 60 * time.Second
	}
	if Tier() == "thorough" {
		n = o.Thorough
		if n == 0 {
			n = o.Quick * 25
		}
		budget *= 5
	}
	n = int(float64(n)*scale() + 0.5)
	if n < 1 {
		n = 1
	}
	h := fnv.New64a()
	h.Write([]byte(t.Name() + "/" + name))
	seed := (h.Sum64()>>1)*31 + baseSeed()*0x9E3779B97F4A7C15
	if seed == 0 {
		seed = 1
	}
	if s := os.Getenv("VERIF_RAW_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	if s := os.Getenv("VERIF_CHECKS"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			n = v
		}
	}
	st := &SubStats{Name: name, Rule: o.Rule, Classes: map[string]int{}, seen: map[uint64]bool{}, Seed: seed}
	mu.Lock()
	stats.Subs = append(stats.Subs, st)
	mu.Unlock()
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	if os.Getenv("VERIF_SHRINK") != "" {
		flag.Set("rapid.shrinktime", os.Getenv("VERIF_SHRINK"))
	} else {
		flag.Set("rapid.shrinktime", "15s")
	}
	start := time.Now()
	failedOnce := false
	t.Run(name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			if !failedOnce && time.Since(start) > budget {
				st.SkippedBudget++
				return
			}
			c := &C{T: rt, sub: st}
			mu.Lock()
			curSub, curDesc, curStart, running = name, "", time.Now(), true
			mu.Unlock()
			finished := false
			defer func() {
				mu.Lock()
				running = false
				mu.Unlock()
				if finished {
					return
				}
				r := recover()
				if r != nil {
					if isInvalid(r) {
						st.Discarded++
					} else {
						failedOnce = true
						msg := c.msg
						if msg == "" {
							msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
						}
						mu.Lock()
						noteFailureLocked(name, msg, c.desc, seed, n)
						mu.Unlock()
					}
					panic(r)
				}
			}()
			f(c)
			finished = true
			if failedOnce {
				return
			}
			st.Evaluations++
			for _, cl := range c.classes {
				st.Classes[cl]++
			}
			if c.nt {
				st.NonTrivial++
				h := fnv.New64a()
				h.Write([]byte(c.desc))
				k := h.Sum64()
				if !st.seen[k] {
					st.seen[k] = true
					st.DistinctNT++
					if d := st.DistinctNT; len(st.Samples) < 3 && (d == 1 || d == 10 || d == 60) {
						s := c.desc
						if len(s) > 900 {
							s = s[:900] + " ..."
						}
						st.Samples = append(st.Samples, s)
					}
				}
			}
		})
	})
	st.WallS = time.Since(start).Seconds()
	st.Failed = failedOnce
	mu.Lock()
	save()
	mu.Unlock()
}

func isInvalid(r interface{}) bool {
	return strings.Contains(fmt.Sprintf("%T", r), "invalidData")
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	// drop the frames above the panic call
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// KnownFinding runs a probe for a listed defect: fails reports whether the defect is
// still there. It never fails the check.
func KnownFinding(t *testing.T, id string, probe func() (fails bool, detail string)) {
	k := &Known{ID: id}
	func() {
		defer func() {
			if r := recover(); r != nil {
				k.Fails, k.Detail = true, fmt.Sprintf("panic: %v", r)
			}
		}()
		k.Fails, k.Detail = probe()
	}()
	mu.Lock()
	stats.Known = append(stats.Known, k)
	save()
	mu.Unlock()
}

// NoPanic runs f and converts a panic into a failure message.
func NoPanic(c *C, what string, f func()) {
	c.Helper()
	defer func() {
		if r := recover(); r != nil {
			if isInvalid(r) || strings.Contains(fmt.Sprintf("%T", r), "rapid.") {
				panic(r)
			}
			c.Fatalf("%s panicked: %v\n%s", what, r, trimStack(string(debug.Stack())))
		}
	}()
	f()
}

// Capture runs f with the process's standard output redirected, and returns what it wrote.
func Capture(f func()) string {
	old := os.Stdout
	tmp, err := os.CreateTemp("", "verif-out")
	if err != nil {
		panic(err)
	}
	defer func() {
		tmp.Close()
		os.Remove(tmp.Name())
	}()
	func() {
		os.Stdout = tmp
		defer func() { os.Stdout = old }()
		f()
	}()
	b, _ := os.ReadFile(tmp.Name())
	return string(b)
}

// Scratch makes a scratch directory that is removed when the returned function is called.
func Scratch() (string, func()) {
	d, err := os.MkdirTemp("", "verif-scratch")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// Files lists the regular files under dir (relative), with their contents.
func Files(dir string) map[string]string {
	r := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			r[rel] = string(b)
		}
		return nil
	})
	return r
}

func SortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
