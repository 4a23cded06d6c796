// Package kit is the monitoring harness shared by all property checks: it runs
// cases of real code under watch (panics, hangs, crashes), seeds every random
// choice from VERIF_SEED, collects what was observed and reports violations.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Violation struct {
	Case string `json:"case"`
	Key  string `json:"key"`
	Msg  string `json:"msg"`
}

type result struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    int              `json:"distinct_nontrivial"`
	Rule        string           `json:"rule"`
	Samples     []string         `json:"samples"`
	Observed    map[string]int64 `json:"observed"`
	Violations  []Violation      `json:"violations"`
	Truncated   bool             `json:"truncated"`
	Done        bool             `json:"done"`
}

// K is one run of one property's check.
type K struct {
	ID      string
	Tier    string
	Seed    int64
	Scratch string // private scratch directory, current directory of the process
	only    string // run only cases whose name has this prefix

	mu       sync.Mutex
	res      result
	sigs     map[uint64]bool
	samples  int
	resFile  string
	curFile  string
	curName  atomic.Value
	curStart int64
	curCPU   int64
	fails    map[string]int
}

// C is one case.
type C struct {
	K    *K
	Name string
	Rng  *rand.Rand
	bad  bool
}

type failNow struct{}

const maxFailingCases = 12

// Main runs the check. Everything in f must be driven through k.Case.
func Main(id, rule string, f func(k *K)) {
	k := &K{ID: id, Tier: os.Getenv("VERIF_TIER"), sigs: map[uint64]bool{}, fails: map[string]int{}}
	if k.Tier == "" {
		k.Tier = "quick"
	}
	k.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	k.resFile = os.Getenv("VK_RESULT")
	k.curFile = os.Getenv("VK_CURRENT")
	k.only = os.Getenv("VK_CASE")
	k.Scratch, _ = os.Getwd()
	k.res.Rule = rule
	k.res.Observed = map[string]int64{}
	k.curName.Store("")
	go k.watchdog()
	f(k)
	k.finish()
}

func (k *K) finish() {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.res.Distinct = len(k.sigs)
	k.res.Done = true
	b, _ := json.MarshalIndent(k.res, "", " ")
	if k.resFile != "" {
		os.WriteFile(k.resFile, b, 0644)
	} else {
		os.Stdout.Write(b)
		fmt.Println()
	}
	os.Exit(0)
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(0, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// A case normally takes well below a second. It counts as hanging when it burnt
// minutes of CPU time, or when it sat idle for minutes (a deadlock).
func (k *K) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		st := atomic.LoadInt64(&k.curStart)
		if st == 0 {
			continue
		}
		wall := time.Duration(time.Now().UnixNano() - st)
		cpu := time.Duration(cpuNow() - atomic.LoadInt64(&k.curCPU))
		lim := 90 * time.Second
		hang := wall > lim && (cpu > 80*time.Second || cpu < 2*time.Second)
		if hang || wall > 600*time.Second {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "VKHANG case %s wall %v cpu %v\n%s\n", k.curName.Load(), wall, cpu, buf[:n])
			os.Exit(97)
		}
	}
}

func (k *K) Thorough() bool { return k.Tier == "thorough" }

// N picks the number of repetitions by tier.
func (k *K) N(quick, thorough int) int {
	if k.Thorough() {
		return thorough
	}
	return quick
}

func hash64(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// Case runs one case under watch. A panic is a violation.
func (k *K) Case(name string, fn func(c *C)) {
	if k.only != "" && !strings.HasPrefix(name, k.only) {
		return
	}
	k.mu.Lock()
	if len(k.fails) >= maxFailingCases {
		k.res.Truncated = true
		k.mu.Unlock()
		return
	}
	k.mu.Unlock()
	c := &C{K: k, Name: name, Rng: rand.New(rand.NewSource(k.Seed*1000003 + int64(hash64(k.ID+"/"+name)>>1)))}
	if k.curFile != "" {
		os.WriteFile(k.curFile, []byte(name), 0644)
	}
	k.curName.Store(name)
	atomic.StoreInt64(&k.curCPU, cpuNow())
	atomic.StoreInt64(&k.curStart, time.Now().UnixNano())
	defer atomic.StoreInt64(&k.curStart, 0)
	atomic.AddInt64(&k.res.Evaluations, 1)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failNow); ok {
					return
				}
				st := string(debug.Stack())
				c.FailKey("panic", "panic: %v\n%s", r, trimStack(st))
			}
		}()
		fn(c)
	}()
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	var o []string
	for _, l := range ls {
		if strings.Contains(l, "nightlight/internal/") || strings.Contains(l, "/repo/internal/") {
			o = append(o, strings.TrimSpace(l))
		}
		if len(o) > 16 {
			break
		}
	}
	return strings.Join(o, "\n")
}

// Sample records the description of a case in the evidence (first few only).
func (c *C) Sample(f string, a ...interface{}) {
	k := c.K
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.res.Samples) < 12 {
		k.res.Samples = append(k.res.Samples, c.Name+": "+fmt.Sprintf(f, a...))
	}
}

// Seen marks a distinct non-trivial observation, identified by its parts.
func (c *C) Seen(parts ...interface{}) {
	h := hash64(fmt.Sprint(parts...))
	k := c.K
	k.mu.Lock()
	k.sigs[h] = true
	k.mu.Unlock()
}

// Count adds to an observation counter.
func (c *C) Count(what string, n int) {
	k := c.K
	k.mu.Lock()
	k.res.Observed[what] += int64(n)
	k.mu.Unlock()
}

func (c *C) FailKey(key, f string, a ...interface{}) {
	k := c.K
	k.mu.Lock()
	defer k.mu.Unlock()
	c.bad = true
	if k.fails[c.Name] >= 3 {
		return
	}
	k.fails[c.Name]++
	msg := fmt.Sprintf(f, a...)
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	k.res.Violations = append(k.res.Violations, Violation{c.Name, key, msg})
	if k.resFile != "" { // keep what is known in case the process dies later
		k.res.Distinct = len(k.sigs)
		b, _ := json.MarshalIndent(k.res, "", " ")
		os.WriteFile(k.resFile, b, 0644)
	}
}

// Fail records a violation of the property in this case.
func (c *C) Fail(f string, a ...interface{}) { c.FailKey("", f, a...) }

// Fatal records a violation and ends the case.
func (c *C) Fatal(f string, a ...interface{}) { c.FailKey("", f, a...); panic(failNow{}) }

func (c *C) Bad() bool { return c.bad }

// Dir returns a fresh empty scratch directory.
func (c *C) Dir() string {
	d, err := os.MkdirTemp(c.K.Scratch, "d")
	if err != nil {
		panic(err)
	}
	return d
}

// Dump is a helper for debugging.
func SortedKeys(m map[string]int64) []string {
	var o []string
	for x := range m {
		o = append(o, x)
	}
	sort.Strings(o)
	return o
}

// CleanDir removes the content of a scratch directory below the scratch root.
func (k *K) CleanDir(d string) {
	if strings.HasPrefix(filepath.Clean(d), k.Scratch+string(os.PathSeparator)) {
		os.RemoveAll(d)
	}
}
