package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// proc is one worker process.
type proc struct {
	cmd     *exec.Cmd
	in      *os.File
	out     *bufio.Reader
	outF    *os.File
	errb    *tailBuf
	served  int
	scratch string
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 64<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func selfExe() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

func startProc(id string) (*proc, error) {
	sc, err := os.MkdirTemp(scratchBase(), "vh-w-*")
	if err != nil {
		return nil, err
	}
	p := &proc{scratch: sc, errb: &tailBuf{}}
	p.cmd = exec.Command(selfExe(), "worker", id)
	p.cmd.Env = append(os.Environ(), "VH_SCRATCH="+sc, "TMPDIR="+sc, "GOMAXPROCS="+strconv.Itoa(workerProcs(id)), "GORACE=halt_on_error=1 exitcode=66")
	ir, iw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	or, ow, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p.cmd.Stdin = ir
	p.cmd.ExtraFiles = []*os.File{ow}
	p.cmd.Stderr = p.errb
	if os.Getenv("VH_DEBUG") != "" {
		p.cmd.Stderr = os.Stderr
	}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	ir.Close()
	ow.Close()
	p.in, p.outF, p.out = iw, or, bufio.NewReaderSize(or, 1<<20)
	return p, nil
}

func workerProcs(id string) int {
	if id == "C11" {
		return 4
	}
	return 2
}

func (p *proc) stop() {
	p.in.Close()
	done := make(chan struct{})
	go func() { _ = p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		_ = p.cmd.Process.Kill()
		<-done
	}
	p.outF.Close()
	if strings.HasPrefix(filepath.Base(p.scratch), "vh-w-") {
		_ = os.RemoveAll(p.scratch)
	}
}

const wallLimit = 400 * time.Second

// do runs one case in the worker. restart is true when the process must be replaced.
func (p *proc) do(c *Case) (res Result, restart bool) {
	p.served++
	b := append([]byte(c.JSON()), '\n')
	type rd struct {
		line []byte
		err  error
	}
	ch := make(chan rd, 1)
	go func() {
		if _, err := p.in.Write(b); err != nil {
			ch <- rd{nil, err}
			return
		}
		l, err := p.out.ReadBytes('\n')
		ch <- rd{l, err}
	}()
	var r rd
	select {
	case r = <-ch:
	case <-time.After(wallLimit):
		_ = p.cmd.Process.Kill()
		<-ch
		return Result{V: "error", Msg: "no answer within the wall clock limit (inconclusive)"}, true
	}
	if r.err == nil {
		if err := json.Unmarshal(r.line, &res); err != nil {
			return Result{V: "error", Msg: "bad worker answer: " + string(r.line)}, true
		}
		return res, false
	}
	// the worker died: a crash of the process
	werr := p.cmd.Wait()
	st := p.errb.String()
	if ee, ok := werr.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return Result{V: "error", Msg: "worker was killed"}, true
		}
	}
	switch {
	case strings.Contains(st, "out of memory") || strings.Contains(st, "cannot allocate memory") || strings.Contains(st, "no space left") || strings.Contains(st, "too many open files") || strings.Contains(st, "newosproc"):
		return Result{V: "error", Msg: "worker ran out of resources: " + clip(st, 2000)}, true
	case strings.Contains(st, "DATA RACE"):
		return Result{V: "violation", Msg: "data race\n" + clip(st, 6000)}, true
	case strings.Contains(st, "panic:") || strings.Contains(st, "fatal error:") || strings.Contains(st, "unexpected signal"):
		if crashFromRepo(st) {
			return Result{V: "violation", Msg: "the process crashed\n" + clip(st, 4000)}, true
		}
		return Result{V: "error", Msg: "worker crashed: " + clip(st, 4000)}, true
	}
	return Result{V: "error", Msg: fmt.Sprintf("worker died: %v: %s", werr, clip(st, 2000))}, true
}

func crashFromRepo(st string) bool {
	return strings.Contains(st, "stfs/pkg/") || strings.Contains(st, "/repo/")
}

type caseResult struct {
	c   *Case
	res Result
}

type runner struct {
	ck   *Check
	free chan *proc
}

func newRunner(ck *Check, n int) (*runner, error) {
	r := &runner{ck: ck, free: make(chan *proc, n)}
	for i := 0; i < n; i++ {
		r.free <- nil
	}
	return r, nil
}

func (r *runner) run(c *Case) Result {
	p := <-r.free
	var err error
	for attempt := 0; ; attempt++ {
		if p != nil && p.served >= 150 {
			p.stop()
			p = nil
		}
		if p == nil {
			if p, err = startProc(r.ck.ID); err != nil {
				r.free <- nil
				return Result{V: "error", Msg: "start worker: " + err.Error()}
			}
		}
		res, restart := p.do(c)
		if restart || strings.HasPrefix(res.Msg, "a call never returns") || strings.HasPrefix(res.Msg, "a call does not return") {
			p.stop()
			p = nil
		}
		// an environmental failure is tried once more in a fresh process before it is reported
		if res.V == "error" && attempt < 2 {
			time.Sleep(time.Duration(attempt+1) * 500 * time.Millisecond)
			continue
		}
		r.free <- p
		return res
	}
}

func (r *runner) close() {
	for i := 0; i < cap(r.free); i++ {
		if p := <-r.free; p != nil {
			p.stop()
		}
	}
}

type knownFinding struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Match    string `json:"match"` // substring of the violation message
	Case     *Case  `json:"case"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	if wd, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(wd, "properties.jsonl")); err == nil {
			return wd
		}
	}
	return "/verif"
}

func loadKnown() knownFile {
	var k knownFile
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &k); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	return k
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func driverMain(id string, args []string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	seed := uint64(envInt("VERIF_SEED", 1))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	n, budget := ck.Quick, ck.QuickS
	if tier == "thorough" {
		n, budget = ck.Thorough, ck.ThorS
	}
	n = envInt("VH_CASES", n)
	budget = envInt("VH_SECONDS", budget)
	workers := ck.Workers
	if workers == 0 {
		workers = 8
	}
	workers = envInt("VH_WORKERS", workers)
	keepGoing := os.Getenv("VH_KEEP") != ""
	t0 := time.Now()
	rn, err := newRunner(ck, workers)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer rn.close()

	known := loadKnown()
	agg := &aggregate{cls: map[string]int{}, hashes: map[uint64]bool{}, seed: seed, tier: tier}

	var mu sync.Mutex
	var fails []caseResult
	var errs []caseResult
	stopped := false
	next := 0
	var fixed []*Case
	if ck.Fixed != nil {
		fixed = ck.Fixed(tier)
	}
	total := n + len(fixed)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stopped || next >= total {
					mu.Unlock()
					return
				}
				if budget > 0 && time.Since(t0) > time.Duration(budget)*time.Second && next >= len(fixed)+minCases(n) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				var c *Case
				if i < len(fixed) {
					c = fixed[i]
					c.Prop = id
				} else {
					j := i - len(fixed)
					c = genCase(ck, seed, j, tier)
				}
				res := rn.run(c)
				mu.Lock()
				agg.add(c, &res)
				if res.V == "violation" {
					fails = append(fails, caseResult{c, res})
					if !keepGoing {
						stopped = true
					}
				} else if res.V != "ok" {
					errs = append(errs, caseResult{c, res})
					if len(errs) > 3 {
						stopped = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	code := 0
	violations := 0
	// known findings are demonstrated again on every run
	for _, k := range known.Findings {
		if k.Property != id || k.Case == nil {
			continue
		}
		res := rn.run(k.Case)
		if res.V == "violation" && strings.Contains(res.Msg, k.Match) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	if len(fails) > 0 {
		sort.Slice(fails, func(a, b int) bool { return fails[a].c.Idx < fails[b].c.Idx })
		limit := 1
		if keepGoing {
			limit = envInt("VH_KEEP", 1)
		}
		seen := map[string]bool{}
		for _, f := range fails {
			if limit <= 0 {
				break
			}
			key := msgKey(f.res.Msg)
			if seen[key] {
				continue
			}
			seen[key] = true
			limit--
			sc, sres := shrink(rn, f.c, f.res, time.Duration(envInt("VH_SHRINK", 45))*time.Second)
			path := writeReplay(id, seed, sc, sres)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  %s\n", strings.ReplaceAll(clip(sres.Msg, 1800), "\n", "\n  "))
			violations++
		}
		if keepGoing {
			h := map[string]int{}
			for _, f := range fails {
				h[msgKey(f.res.Msg)]++
			}
			shown := 0
			for k, v := range h {
				if shown++; shown > 12 {
					break
				}
				fmt.Printf("  [%d] %s\n", v, k)
			}
		}
		code = 1
	} else if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintf(os.Stderr, "ERROR case %d: %s\n", e.c.Idx, clip(e.res.Msg, 3000))
			fmt.Fprintf(os.Stderr, "  case: %s\n", clip(e.c.JSON(), 3000))
		}
		code = 2
	}
	if err := agg.write(ck, time.Since(t0), violations); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s %s seed=%d cases=%d nontrivial=%d checks=%d violations=%d errors=%d wall=%.1fs\n", id, tier, seed, agg.n, len(agg.hashes), agg.checks, len(fails), len(errs), time.Since(t0).Seconds())
	if os.Getenv("VH_STATS") != "" {
		for _, k := range sortedKeys(agg.cls) {
			fmt.Printf("   %-40s %d\n", k, agg.cls[k])
		}
	}
	return code
}

var reKey = regexp.MustCompile(`"[^"]*"|[0-9]+`)

// msgKey groups violations by the shape of their message.
func msgKey(m string) string {
	m = firstLine(m)
	if i := strings.Index(m, "): "); i >= 0 && strings.HasPrefix(m, "after op") {
		m = m[i+3:]
	}
	return clip(reKey.ReplaceAllString(m, "#"), 110)
}

func minCases(n int) int {
	m := n / 20
	if m < 16 {
		m = 16
	}
	return m
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func genCase(ck *Check, seed uint64, j int, tier string) *Case {
	r := NewRng(seed, strSeed(ck.ID), uint64(j))
	c := ck.Gen(r, j, tier)
	c.Prop, c.Idx = ck.ID, j
	return c
}

func sortedKeys(m map[string]int) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func writeReplay(id string, seed uint64, c *Case, res Result) string {
	dir := filepath.Join(verifDir(), "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", id, seed, c.Idx))
	b, _ := json.MarshalIndent(map[string]interface{}{"case": c, "message": res.Msg, "run": "build the harness and run: vh replay " + p}, "", " ")
	_ = os.WriteFile(p, b, 0o644)
	return p
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Case *Case `json:"case"`
	}
	if err := json.Unmarshal(b, &f); err != nil || f.Case == nil {
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		f.Case = &c
	}
	ck := checks[f.Case.Prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", f.Case.Prop)
		return 2
	}
	rn, _ := newRunner(ck, 1)
	defer rn.close()
	res := rn.run(f.Case)
	fmt.Println(res.V, res.Msg)
	if res.V == "violation" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Case.Prop, path)
		return 1
	}
	if res.V != "ok" {
		return 2
	}
	return 0
}

// aggregate collects what a run covered.
type aggregate struct {
	n, checks int
	cls       map[string]int
	hashes    map[uint64]bool
	samples   []string
	seed      uint64
	tier      string
	maxSample int
}

func (a *aggregate) add(c *Case, r *Result) {
	if r.V == "error" {
		a.cls["inconclusive"]++
		return
	}
	a.n++
	a.checks += r.Checks
	for k, v := range r.Cls {
		a.cls[k] += v
	}
	if r.NT {
		h := c.Hash()
		if !a.hashes[h] {
			a.hashes[h] = true
			if len(a.samples) < 6 {
				if s := c.JSON(); len(s) < 3000 {
					a.samples = append(a.samples, s)
				}
			}
		}
	}
}

func (a *aggregate) write(ck *Check, wall time.Duration, violations int) error {
	samples := []interface{}{}
	for _, s := range a.samples {
		samples = append(samples, json.RawMessage(s))
	}
	if len(samples) == 0 {
		samples = append(samples, "no non-trivial case was generated")
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": a.tier, "seed": a.seed, "level": ck.Level,
		"coverage": map[string]interface{}{
			"evaluations": a.n, "distinct_nontrivial": len(a.hashes), "rule": ck.Rule, "samples": samples,
			"oracle_evaluations": a.checks, "classes": a.cls,
		},
		"assumptions": ck.Assum, "wall_s": float64(int(wall.Seconds()*10)) / 10, "violations": violations,
	}
	if ck.Assum == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if len(b) > 60<<10 {
		ev["coverage"].(map[string]interface{})["samples"] = samples[:1]
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	dir := filepath.Join(verifDir(), "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, ck.ID+".json"), bytes.TrimSpace(b), 0o644)
}
