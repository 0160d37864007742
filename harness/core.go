package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
)

// Cfg holds the sizes that moeingads fixes at compile time (variables under the
// 'verif' build tag).
type Cfg struct {
	HPFile    int
	HPBuf     int
	Reap      int64
	RootCache int
}

var defaultCfg = Cfg{HPFile: 1 << 20, HPBuf: 1 << 13, Reap: 10000, RootCache: 1024}

// Result is what one worker process reports.
type Result struct {
	Scenario  string           `json:"scenario"`
	Seed      int64            `json:"seed"`
	Completed bool             `json:"completed"`
	Evals     int64            `json:"evals"` // oracle evaluations
	Stats     map[string]int64 `json:"stats"`
	Max       map[string]int64 `json:"max"`
	Distinct  []string         `json:"distinct"` // hashed case identities
	Samples   []string         `json:"samples"`
	Known     []string         `json:"known"` // known-finding classes observed: id|text
	Violation string           `json:"violation"`
	Trace     []string         `json:"trace"`
	Inconcl   string           `json:"inconclusive"`
}

// Ctx is the monitor state of one worker. It is safe for concurrent use.
type Ctx struct {
	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	known    map[string]string
	tail     []string // last operations, for the witness
	rnd      *rand.Rand
	prop     string
	tier     string
	dir      string
	on       map[string]bool // which monitors are switched on
	listed   map[string]bool // known finding ids listed in the committed file
}

func newCtx(prop, scn, tier, dir string, seed int64) *Ctx {
	c := &Ctx{prop: prop, tier: tier, dir: dir}
	c.res = Result{Scenario: scn, Seed: seed, Stats: map[string]int64{}, Max: map[string]int64{}}
	c.distinct = map[uint64]struct{}{}
	c.known = map[string]string{}
	c.rnd = rand.New(rand.NewSource(seed*1000003 + int64(hashStr(scn)%1000000007)))
	return c
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

type stopRun struct{}

// Failf records a violation and ends the run.
func (c *Ctx) Failf(format string, args ...interface{}) {
	c.mu.Lock()
	if c.res.Violation == "" {
		c.res.Violation = fmt.Sprintf(format, args...)
		c.res.Trace = append([]string{}, c.tail...)
		c.res.Trace = append(c.res.Trace, "at:\n"+string(debug.Stack()))
	}
	c.mu.Unlock()
	panic(stopRun{})
}

func (c *Ctx) Eval(n int64) {
	c.mu.Lock()
	c.res.Evals += n
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.res.Stats[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	if c.res.Max[name] < n {
		c.res.Max[name] = n
	}
	c.mu.Unlock()
}

// Distinct notes one case identity; the number of different ones is reported.
func (c *Ctx) Distinct(format string, args ...interface{}) {
	h := hashStr(fmt.Sprintf(format, args...))
	c.mu.Lock()
	c.distinct[h] = struct{}{}
	c.mu.Unlock()
}

func (c *Ctx) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.res.Samples) < 4 {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf(format, args...))
	}
	c.mu.Unlock()
}

func (c *Ctx) Log(format string, args ...interface{}) {
	c.mu.Lock()
	c.tail = append(c.tail, fmt.Sprintf(format, args...))
	if len(c.tail) > 40 {
		c.tail = append([]string{}, c.tail[len(c.tail)-40:]...)
	}
	c.mu.Unlock()
}

// KnownOr reports an instance of a listed known finding, or fails if it is not listed.
func (c *Ctx) KnownOr(id string, format string, args ...interface{}) {
	if c.listed[id] {
		c.mu.Lock()
		if _, ok := c.known[id]; !ok {
			c.known[id] = fmt.Sprintf(format, args...)
		}
		c.res.Stats["known_"+id]++
		c.mu.Unlock()
		return
	}
	c.Failf(format, args...)
}

func (c *Ctx) finish() Result {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := c.res
	for h := range c.distinct {
		r.Distinct = append(r.Distinct, fmt.Sprintf("%016x", h))
	}
	sort.Strings(r.Distinct)
	for id, t := range c.known {
		r.Known = append(r.Known, id+"|"+t)
	}
	sort.Strings(r.Known)
	return r
}

func hx(b []byte) string {
	if len(b) > 40 {
		return hex.EncodeToString(b[:20]) + fmt.Sprintf("..(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

// panics runs fn and returns what it panicked with (nil if it did not). In a run with
// failing files a panic reports the failure and goes through, unless fn is the outermost.
func panics(fn func()) (p interface{}, stack string) { return panicsAt("", fn) }

func panicsAt(depth string, fn func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRun); ok {
				panic(r)
			}
			if os.Getenv("VH_FAULT") != "" && depth == "" {
				panic(r) // a failing file was reported
			}
			p = r
			stack = string(debug.Stack())
		}
	}()
	fn()
	return nil, ""
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, b, 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, path); err != nil {
		panic(err)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func goid() int { return runtime.NumGoroutine() }
