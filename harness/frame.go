package main

// The parent process of a check: plans the cases, runs each in a worker process of its
// own, watches it, collects what its monitors saw, and decides.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Case is one execution under observation.
type Case struct {
	Worker  string            `json:"worker"`
	Name    string            `json:"name"`
	Seed    int64             `json:"seed"`
	P       map[string]int64  `json:"p,omitempty"`
	S       map[string]string `json:"s,omitempty"`
	Variant string            `json:"variant,omitempty"` // which build of the harness
	Env     []string          `json:"env,omitempty"`
	Slots   int               `json:"slots,omitempty"`
	NoIdle  bool              `json:"noidle,omitempty"` // it waits for processes of its own
}

func (cs *Case) n(name string, def int64) int64 {
	if v, ok := cs.P[name]; ok {
		return v
	}
	return def
}

func (cs *Case) id() string {
	s := fmt.Sprintf("%s/%s/seed%d", cs.Worker, cs.Name, cs.Seed)
	if cs.Variant != "" {
		s += "/" + cs.Variant
	}
	return s
}

type Check struct {
	ID     string
	Rule   string
	Level  string
	Assume []string
	Cases  func(tier string, seed int64) []Case
	// Need: totals below which the run observed too little to say anything
	Need map[string]int64
}

var workers = map[string]func(c *Ctx, cs *Case){}
var checks = map[string]*Check{}

func register(ck *Check) {
	if ck.Level == "" {
		ck.Level = "exploration"
	}
	checks[ck.ID] = ck
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// parseListed reads the committed known-findings file.
func parseListed(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		var id, pr string
		rest := 1
		for i, w := range f[1:] {
			if strings.HasPrefix(w, "id=") {
				id = w[3:]
				rest = i + 2
			} else if strings.HasPrefix(w, "property=") {
				pr = w[9:]
				rest = i + 2
			} else {
				break
			}
		}
		for _, p := range strings.Split(pr, ",") {
			if p == prop {
				out[id] = strings.Join(f[rest:], " ")
			}
		}
	}
	return out
}

func runWorkerMain(args []string) {
	// worker PROP TIER CASEFILE OUTFILE DIR
	prop, tier, casef, outf, dir := args[0], args[1], args[2], args[3], args[4]
	b, err := os.ReadFile(casef)
	must(err)
	var cs Case
	must(json.Unmarshal(b, &cs))
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	c := newCtx(prop, cs.Worker+cs.Name, tier, dir, cs.Seed)
	c.on = map[string]bool{}
	for _, w := range strings.Fields(cs.S["on"]) {
		c.on[w] = true
	}
	c.listed = map[string]bool{}
	for id := range parseListed(os.Getenv("VH_KNOWN"), prop) {
		c.listed[id] = true
	}
	c.res.Scenario = cs.id()
	w := workers[cs.Worker]
	if w == nil {
		panic("no worker " + cs.Worker)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); ok {
					return
				}
				// keep what was observed, and the last operations; the panic itself is
				// reported by the parent
				res := c.finish()
				res.Trace = append([]string{}, c.tail...)
				writeJSON(outf+".partial", res)
				panic(r)
			}
		}()
		w(c, &cs)
		c.res.Completed = true
	}()
	writeJSON(outf, c.finish())
	os.Exit(0)
}

type caseOut struct {
	cs   Case
	res  *Result
	viol string
	inc  string
	wall float64
	cpu  int64 // ticks of the worker itself, as last seen
}

func procCPU(pid int) (ticks int64, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, false
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 14 {
			for _, j := range []int{11, 12, 13, 14} {
				v, _ := strconv.ParseInt(f[j], 10, 64)
				ticks += v
			}
			return ticks, true
		}
	}
	return 0, false
}

func tailOf(path string, n int) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	if i := strings.Index(string(b), "panic:"); i >= 0 {
		b = b[i:]
	} else if i := strings.Index(string(b), "fatal error:"); i >= 0 {
		b = b[i:]
	}
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func runCase(prop, tier string, cs Case, scratch string, idx int) caseOut {
	t0 := time.Now()
	out := caseOut{cs: cs}
	dir := filepath.Join(scratch, fmt.Sprintf("case%04d", idx))
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	casef, outf, errf := filepath.Join(dir, "case.json"), filepath.Join(dir, "out.json"), filepath.Join(dir, "stderr")
	writeJSON(casef, cs)
	bin := os.Args[0]
	if cs.Variant != "" {
		bin = os.Getenv("VH_BIN_" + cs.Variant)
		if bin == "" {
			out.inc = "no harness build for variant " + cs.Variant
			return out
		}
	}
	cmd := exec.Command(bin, "worker", prop, tier, casef, outf, filepath.Join(dir, "w"))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	racelog := filepath.Join(dir, "race")
	if strings.HasPrefix(cs.Variant, "race") {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 history_size=3 log_path="+racelog)
	}
	cmd.Env = append(cmd.Env, cs.Env...)
	ef, err := os.Create(errf)
	must(err)
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(os.MkdirAll(filepath.Join(dir, "w"), 0755))
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	cpuBudget, wallPolls := int64(240*100), 400
	if tier == "thorough" {
		cpuBudget, wallPolls = int64(6000*100), 3000
	}
	idle, last := 0, int64(-1)
	stuck := ""
	var werr error
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
loop:
	for polls := 0; ; {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			polls++
			if stuck != "" {
				if idle++; idle > 10 {
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				}
				continue
			}
			t, ok := procCPU(cmd.Process.Pid)
			if ok && t > cpuBudget {
				stuck = fmt.Sprintf("used %d s of processor time without finishing", t/100)
			}
			if ok && !cs.NoIdle && t-last <= 1 {
				if idle++; idle >= 90 {
					stuck = "is blocked: no progress in 90 polls"
				}
			} else {
				idle = 0
			}
			last = t
			out.cpu = t
			if polls > wallPolls && stuck == "" {
				out.inc = "watchdog: case did not finish"
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
			if stuck != "" {
				idle = 0
				syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
			}
		}
	}
	ef.Close()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	out.wall = time.Since(t0).Seconds()
	var res Result
	if b, err := os.ReadFile(outf); err == nil && json.Unmarshal(b, &res) == nil {
		out.res = &res
	} else if b, err := os.ReadFile(outf + ".partial"); err == nil && json.Unmarshal(b, &res) == nil {
		res.Completed = false
		out.res = &res
	}
	if stuck != "" && out.inc == "" {
		out.viol = "the run " + stuck + "\n" + tailOf(errf, 12000)
		return out
	}
	if out.inc != "" {
		return out
	}
	if races, _ := filepath.Glob(racelog + ".*"); len(races) > 0 {
		var txt string
		for _, f := range races {
			b, _ := os.ReadFile(f)
			txt += string(b)
		}
		if n := strings.Count(txt, "WARNING: DATA RACE"); n > 0 {
			if len(txt) > 12000 {
				txt = txt[:12000]
			}
			out.viol = fmt.Sprintf("%d data race reports\n%s", n, txt)
			return out
		}
	}
	if werr != nil && !(out.res != nil && out.res.Completed && strings.HasPrefix(cs.Variant, "race")) {
		txt := tailOf(errf, 12000)
		low := strings.ToLower(txt)
		ws, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if ws.Signaled() && ws.Signal() == syscall.SIGKILL || strings.Contains(low, "out of memory") ||
			strings.Contains(low, "cannot allocate memory") || strings.Contains(low, "no space left") ||
			strings.Contains(low, "too many open files") || strings.Contains(low, "harness:") {
			out.inc = "worker ended by its surroundings: " + werr.Error() + "\n" + txt
			return out
		}
		out.viol = "the run crashed: " + werr.Error() + "\n" + txt
		return out
	}
	if out.res == nil {
		out.inc = "worker left no result"
		return out
	}
	if out.res.Violation != "" {
		out.viol = out.res.Violation
	} else if out.res.Inconcl != "" {
		out.inc = out.res.Inconcl
	} else if !out.res.Completed {
		out.inc = "worker did not complete"
	}
	return out
}

func runCheckMain(id string, replay string) int {
	t0 := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	scratch, vdir := os.Getenv("VH_SCRATCH"), os.Getenv("VH_VERIF")
	evdir := filepath.Join(vdir, "evidence")
	must(os.MkdirAll(evdir, 0755))
	listed := parseListed(os.Getenv("VH_KNOWN"), id)
	var cases []Case
	if replay != "" {
		b, err := os.ReadFile(replay)
		must(err)
		var w struct{ Case Case }
		must(json.Unmarshal(b, &w))
		cases = []Case{w.Case}
	} else {
		cases = ck.Cases(tier, seed)
	}
	if f := os.Getenv("VH_ONLY"); f != "" {
		var keep []Case
		for _, cs := range cases {
			if strings.Contains(cs.id(), f) {
				keep = append(keep, cs)
			}
		}
		cases = keep
	}
	maxSlots := int(envInt("VH_SLOTS", 8))
	outs := make([]caseOut, len(cases))
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	free := maxSlots
	failed := false
	var wg sync.WaitGroup
	for i := range cases {
		sl := cases[i].Slots
		if sl < 1 {
			sl = 1
		}
		if sl > maxSlots {
			sl = maxSlots
		}
		mu.Lock()
		for free < sl {
			cond.Wait()
		}
		if failed {
			mu.Unlock()
			outs[i] = caseOut{cs: cases[i], inc: "skipped"}
			continue
		}
		free -= sl
		mu.Unlock()
		wg.Add(1)
		go func(i, sl int) {
			defer wg.Done()
			o := runCase(id, tier, cases[i], scratch, i)
			if os.Getenv("VH_VERBOSE") != "" {
				v := "ok"
				if o.viol != "" {
					v = "VIOL " + firstLine(o.viol)
				} else if o.inc != "" {
					v = "inconclusive " + firstLine(o.inc)
				}
				fmt.Fprintf(os.Stderr, "%-50s %6.1fs cpu %ds %s\n", cases[i].id(), o.wall, o.cpu/100, v)
			}
			mu.Lock()
			outs[i] = o
			free += sl
			if o.viol != "" {
				failed = true
			}
			cond.Broadcast()
			mu.Unlock()
		}(i, sl)
	}
	wg.Wait()

	evals := int64(0)
	stats, maxs := map[string]int64{}, map[string]int64{}
	distinct := map[string]bool{}
	var samples, incs []string
	known := map[string]string{}
	var first *caseOut
	perCase := []string{}
	ran := 0
	for i := range outs {
		o := &outs[i]
		if o.inc == "skipped" {
			continue
		}
		ran++
		if o.res != nil {
			evals += o.res.Evals
			for k, v := range o.res.Stats {
				stats[k] += v
			}
			for k, v := range o.res.Max {
				if maxs[k] < v {
					maxs[k] = v
				}
			}
			for _, d := range o.res.Distinct {
				distinct[d] = true
			}
			for j, s := range o.res.Samples {
				if j < 2 && len(samples) < 24 {
					samples = append(samples, o.cs.id()+": "+s)
				}
			}
			for _, kf := range o.res.Known {
				p := strings.SplitN(kf, "|", 2)
				if _, ok := known[p[0]]; !ok {
					known[p[0]] = p[1]
				}
			}
		}
		if o.viol != "" && first == nil {
			first = o
		}
		if o.inc != "" {
			incs = append(incs, o.cs.id()+": "+o.inc)
		}
		perCase = append(perCase, fmt.Sprintf("%s %.1fs", o.cs.id(), o.wall))
	}
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	viols := 0
	if first != nil {
		viols = 1
	}
	cov := map[string]interface{}{
		"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": ck.Rule, "samples": samples,
		"executions": ran, "observed": stats, "observed_max": maxs, "cases": perCase,
	}
	if len(known) > 0 {
		cov["known_findings_observed"] = known
	}
	if len(incs) > 0 {
		cov["inconclusive"] = incs
	}
	writeJSON(filepath.Join(evdir, id+".json"), map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": ck.Assume, "wall_s": time.Since(t0).Seconds(), "violations": viols,
	})
	var ids []string
	for k := range known {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (observed: %s)\n", id, k, listed[k], firstLine(known[k]))
	}
	if first != nil {
		rp := filepath.Join(evdir, id+".violation.json")
		var tr []string
		if first.res != nil {
			tr = first.res.Trace
		}
		writeJSON(rp, map[string]interface{}{"property": id, "case": first.cs, "what": first.viol, "trace": tr,
			"rerun": fmt.Sprintf("cd /verif && ./check %s --replay %s", id, rp)})
		fmt.Printf("%s\n  in %s\n", clipText(first.viol, 3000), first.cs.id())
		for _, t := range tr {
			if !strings.HasPrefix(t, "at:") {
				fmt.Printf("    %s\n", clipText(t, 200))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if len(incs) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s: %s\n", id, clipText(strings.Join(incs, "\n"), 6000))
		return 2
	}
	if replay == "" && os.Getenv("VH_ONLY") == "" {
		for k, v := range ck.Need {
			got := stats[k]
			if maxs[k] > got {
				got = maxs[k]
			}
			if got < v {
				fmt.Printf("INCONCLUSIVE property=%s: observed only %d %s, expected at least %d\n", id, got, k, v)
				return 2
			}
		}
	}
	fmt.Printf("HELD property=%s executions=%d evaluations=%d distinct=%d wall=%.1fs\n", id, ran, evals, len(distinct), time.Since(t0).Seconds())
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return clipText(s, 400)
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
