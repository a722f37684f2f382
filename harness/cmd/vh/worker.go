package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

// Check is one property's generator and oracle.
type Check struct {
	ID    string
	Rule  string
	Level string
	Assum []string
	// Gen makes case i of n. It must be a pure function of its arguments.
	Gen func(r *Rng, i int, tier string) *Case
	// Run decides one case against the real code. It panics with violation{} / harnessError{}.
	Run func(c *Case, r *Result)
	// Quick and Thorough bound the number of generated cases; the time budgets only ever cut the
	// exploration short, they never decide anything.
	Quick, Thorough int
	QuickS, ThorS   int // seconds
	Workers         int
	CPUs            int                       // CPU seconds one case may burn before it counts as a busy hang
	Fixed           func(tier string) []*Case // cases run first on every run (regressions)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// runCase executes one case with panics turned into verdicts.
func runCase(ck *Check, c *Case) (res Result) {
	res.V = "ok"
	defer func() {
		if p := recover(); p != nil {
			switch x := p.(type) {
			case violation:
				res.V, res.Msg = "violation", x.msg
			case harnessError:
				res.V, res.Msg = "error", x.msg
			default:
				st := string(debug.Stack())
				if panicFromRepo(st) {
					res.V, res.Msg = "violation", fmt.Sprintf("the call panicked: %v\n%s", p, trimStack(st))
				} else {
					res.V, res.Msg = "error", fmt.Sprintf("harness panic: %v\n%s", p, st)
				}
			}
		}
	}()
	ck.Run(c, &res)
	return
}

// panicFromRepo: is a frame of the code under test above the first harness frame?
func panicFromRepo(st string) bool {
	i := strings.LastIndex(st, "panic(")
	if i >= 0 {
		st = st[i:]
	}
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "stfs/pkg/") || strings.Contains(l, "stfs/internal/") {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "stfs") || strings.HasPrefix(l, "main.") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var gHeader = regexp.MustCompile(`^goroutine (\d+)(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[([^\]]*)\]:`)

// blockedSnapshot returns the stacks of all goroutines relevant to the case and whether every one of
// them is blocked for good (no runnable or sleeping goroutine except the watchdog itself).
func blockedSnapshot() (string, bool) {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	blocked := true
	var keep []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		m := gHeader.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		if strings.Contains(g, "main.watchdog") {
			continue
		}
		state := strings.SplitN(m[2], ",", 2)[0]
		switch {
		case strings.HasPrefix(state, "semacquire"), strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "chan "),
			strings.HasPrefix(state, "select"), state == "IO wait", strings.HasPrefix(state, "finalizer"), strings.HasPrefix(state, "GC"),
			strings.HasPrefix(state, "force gc"), strings.HasPrefix(state, "cleanup"), strings.HasPrefix(state, "debug call"):
		default:
			blocked = false
		}
		if strings.Contains(g, "stfs/pkg") || strings.Contains(g, "main.") {
			keep = append(keep, g)
		}
	}
	return strings.Join(keep, "\n\n"), blocked
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// stripNums removes what changes between two dumps of the same blocked state ("2 minutes").
var reMinutes = regexp.MustCompile(`, \d+ minutes`)

type watchResult struct {
	kind  string
	stack string
}

// watchdog reports "deadlock" when, while the case has not finished, every goroutine is blocked on
// another one in two consecutive observations; and "busy" when the case burnt cpuLimit CPU seconds.
func watchdog(done <-chan struct{}, out chan<- watchResult, cpuLimit float64) {
	start := cpuSeconds()
	prev := ""
	delay := 1500 * time.Millisecond
	for {
		t := time.NewTimer(delay)
		select {
		case <-done:
			t.Stop()
			return
		case <-t.C:
		}
		delay = time.Second
		st, blocked := blockedSnapshot()
		st = reMinutes.ReplaceAllString(st, "")
		if blocked && prev == st {
			select {
			case <-done:
				return
			default:
			}
			out <- watchResult{"deadlock", st}
			return
		}
		if blocked {
			prev = st
		} else {
			prev = ""
		}
		if cpuSeconds()-start > cpuLimit {
			out <- watchResult{"busy", st}
			return
		}
	}
}

// guarded runs a case under the watchdog.
func guarded(ck *Check, c *Case) (Result, bool) {
	done := make(chan struct{})
	wr := make(chan watchResult, 1)
	resCh := make(chan Result, 1)
	limit := float64(ck.CPUs)
	if limit <= 0 {
		limit = 90
	}
	go watchdog(done, wr, limit)
	go func() { resCh <- runCase(ck, c) }()
	select {
	case r := <-resCh:
		close(done)
		return r, true
	case w := <-wr:
		select {
		case r := <-resCh: // finished in the meantime
			return r, true
		default:
		}
		msg := "a call never returns: every goroutine is blocked (deadlock)"
		if w.kind == "busy" {
			msg = fmt.Sprintf("a call does not return: it burnt more than %.0f CPU seconds", limit)
		}
		cur := ""
		if currentCall != "" {
			cur = " during " + currentCall
		}
		return Result{V: "violation", Msg: msg + cur + "\n" + clip(w.stack, 6000)}, false
	}
}

// currentCall names the call being executed, for hang reports only.
var currentCall string

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// workerMain executes cases read from stdin, one JSON document per line.
func workerMain(id string) {
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(3)
	}
	debug.SetGCPercent(200)
	defer startProf()()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := os.NewFile(3, "results")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c Case
		if err := json.Unmarshal(line, &c); err != nil {
			fmt.Fprintln(os.Stderr, "bad case", err)
			os.Exit(3)
		}
		res, alive := guarded(ck, &c)
		b, _ := json.Marshal(&res)
		b = append(b, '\n')
		if _, err := out.Write(b); err != nil {
			return
		}
		if !alive {
			os.Exit(0)
		}
		if numGoroutines := runtime.NumGoroutine(); numGoroutines > 2000 {
			os.Exit(0)
		}
	}
}
