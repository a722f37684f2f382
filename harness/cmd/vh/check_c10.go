package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/spf13/afero"
)

// C10: every call returns and leaves the drive free.

func init() {
	register(&Check{
		ID: "C10", Level: "fault_enumeration",
		Rule:  "four kinds of cases over adversarial names and configurations. fault: a generated setup history, then one or two target calls which are first run without faults, counting every operation STFS makes on its environment (open/close/read/write/seek/truncate of the drive, every index call, every operation of the data source or destination and of the write cache); then, from a copy of the setup, the target is run once per chosen operation k with that operation failing (partial drive writes included; once, or with all later ones of its class), up to 36 (thorough: 200) points per case: for each distinct operation its first, last and random occurrences. drive: the target runs while the drive is missing, a directory, unopenable, truncated or garbled. reject: calls which have to be rejected, including unsupported levels, formats and missing keys. open: several handles stay open, half read or half written, while other calls run. After every target call the drive must be obtainable and a fixed series of probe calls must return. Non-trivial: at least 8 injected faults were reached (fault), or at least 3 calls failed (drive, reject), or 2 handles were open at once (open).",
		Assum: []string{"a failed drive/index/cache operation returns an error instead of its result; it does not block", "a hang is decided by every goroutine being blocked (or by CPU time burnt), never by wall time", "probe calls have to return; whether they succeed is not part of the property"},
		Quick: 1600, QuickS: 70, Thorough: 40000, ThorS: 750, CPUs: 60,
		Gen: genC10, Run: runC10,
	})
}

func genC10(r *Rng, i int, tier string) *Case {
	c := &Case{Cfg: genCfg(r, 60)}
	p := newPool(r, 30)
	switch x := r.N(100); {
	case x < 55:
		c.Mode = "fault"
		c.Ops = genHistoryPool(p, &c.Cfg, 1+r.N(6), histOpts{arch: true, big: 2, handle: true})
		c.Ops2 = genTargets(p, c, 1+r.N(2))
		n := 36
		if tier == "thorough" {
			n = 200
		}
		c.I = []int64{int64(r.U64() % 1000000), int64(n), int64(r.N(len(faultErrors)))}
	case x < 67:
		c.Mode = "drive"
		c.Ops = genHistoryPool(p, &c.Cfg, 1+r.N(6), histOpts{arch: true, big: 2, handle: true})
		c.Ops2 = genTargets(p, c, 1+r.N(3))
		c.S = []string{pick(r, "missing", "directory", "loop", "empty", "garbage", "torn", "zero", "readonlydir")}
		c.I = []int64{int64(r.U64() % 1000000)}
	case x < 82:
		c.Mode = "reject"
		c.Ops = genHistoryPool(p, &c.Cfg, 1+r.N(5), histOpts{arch: true, big: 2, handle: true})
		c.Ops2 = genRejects(p, c, 3+r.N(5))
		if r.P(50) {
			c.S = []string{pick(r, "level", "comp", "enc", "sig", "wcache", "keys", "readonly", "nokeys", "nokeys")}
		}
	default:
		c.Mode = "open"
		c.Ops = genHistoryPool(p, &c.Cfg, 2+r.N(5), histOpts{arch: true, big: 10, handle: true})
		slots := 2 + r.N(2)
		n := 6 + r.N(14)
		for len(c.Ops2) < n {
			switch r.N(10) {
			case 0, 1, 2:
				f := p.existing('f', false)
				if f == "" || r.P(10) {
					f = p.target('a', 80)
				}
				c.Ops2 = append(c.Ops2, Op{K: "hopen", N: r.N(slots), P: f, Flag: pick(r, os.O_RDONLY, os.O_RDONLY, os.O_RDWR, os.O_WRONLY, os.O_RDWR|os.O_TRUNC, os.O_WRONLY|os.O_APPEND, os.O_RDWR|os.O_CREATE), Mode: 0644})
			case 3, 4, 5:
				c.Ops2 = append(c.Ops2, Op{K: "hdo", N: r.N(slots), H: genHandleOps(r, &c.Cfg, 1+r.N(2), os.O_RDWR, 200)})
			case 6:
				c.Ops2 = append(c.Ops2, Op{K: pick(r, "hclose", "hdir"), N: r.N(slots)})
			default:
				c.Ops2 = append(c.Ops2, genHistoryPool(p, &c.Cfg, 1, histOpts{arch: true, reads: true, handle: true})...)
			}
		}
	}
	return c
}

// genTargets draws the calls into which faults are injected; all kinds with equal weight.
func genTargets(p *pool, c *Case, n int) []Op {
	r := p.r
	var out []Op
	for tries := 0; len(out) < n && tries < 40; tries++ {
		k := pick(r, "mkdir", "mkdirall", "write", "write", "open", "create", "remove", "removeall", "rename", "rename", "chmod", "chown", "chtimes",
			"stat", "list", "read", "read", "arch", "arch", "update", "delete", "move", "restore", "symlink", "readlink", "init", "opinit", "find", "invstat", "invlist", "query", "fetch", "index")
		switch k {
		case "init":
			out = append(out, Op{K: k})
			continue
		case "opinit": // an overwriting drive manager truncates on its first writer, so this comes first
			if len(out) == 0 {
				out = append(out, Op{K: k})
			}
			continue
		case "find", "invstat", "invlist", "query", "fetch", "index":
			out = append(out, genArchiveCall(p, k))
			continue
		case "symlink":
			t := p.existing('a', false)
			if t == "" {
				continue
			}
			out = append(out, Op{K: "symlink", P: t, Q: p.fresh()})
			continue
		case "readlink":
			out = append(out, Op{K: "readlink", P: p.target('a', 70)})
			continue
		}
		if op, ok := genOp(p, &c.Cfg, k, histOpts{arch: true, reads: true, handle: true}); ok {
			out = append(out, op)
			applyGen(p.m, op)
		}
	}
	return out
}

// genArchiveCall draws a call of the inventory and recovery packages.
func genArchiveCall(p *pool, k string) Op {
	r := p.r
	op := Op{K: k, P: p.target('a', 80), N: r.N(3)}
	switch k {
	case "find":
		op.Q = pick(r, "", ".*", "a", "^/", "(", "[", "*", "a{2,1}", "\\", "(?P<", "x**", "\\pZ[", string(r.Bytes(1+r.N(6))), p.name())
	case "query":
		op.N = pick(r, 0, 0, 1, 7)
	case "fetch":
		if r.P(30) {
			op.P, op.N = "", pick(r, 0, 1, 2, 1000)
		}
		op.UID = r.N(4) / 3
	case "index":
		op.N = r.N(2)
	}
	return op
}

func genRejects(p *pool, c *Case, n int) []Op {
	r := p.r
	var out []Op
	gone := func() string {
		for i := 0; i < 10; i++ {
			w := p.wild()
			if p.m.N[mclean(w)] == nil {
				return w
			}
		}
		return "/none/none"
	}
	for len(out) < n {
		switch r.N(16) {
		case 14, 15:
			op := genArchiveCall(p, pick(r, "find", "find", "invstat", "invlist", "query", "fetch", "index"))
			if op.K != "fetch" && r.P(60) {
				op.P = gone()
			}
			out = append(out, op)
		case 0:
			out = append(out, Op{K: pick(r, "remove", "removeall", "delete", "restore", "stat", "read", "list", "readlink"), P: gone()})
		case 1:
			out = append(out, Op{K: pick(r, "rename", "move"), P: gone(), Q: p.fresh()})
		case 2:
			out = append(out, Op{K: pick(r, "rename", "move"), P: p.target('a', 90), Q: gone() + "/x/y"})
		case 3:
			out = append(out, Op{K: pick(r, "chmod", "chown", "chtimes"), P: gone()})
		case 4:
			out = append(out, Op{K: "mkdir", P: gone() + "/x/y", Mode: 0755})
		case 5:
			out = append(out, Op{K: "create", P: gone() + "/x/y"})
		case 6:
			out = append(out, Op{K: pick(r, "mkdir", "create", "mkdirall"), P: p.target('a', 100), Mode: 0755})
		case 7:
			if d := p.existing('d', true); d != "" {
				out = append(out, Op{K: pick(r, "remove", "create", "read"), P: d})
				out = append(out, Op{K: "rename", P: d, Q: d + "/" + p.name()})
			}
		case 8:
			if f := p.existing('f', false); f != "" {
				out = append(out, Op{K: pick(r, "list", "mkdirall"), P: f}, Op{K: "mkdir", P: f + "/x"})
			}
		case 9:
			out = append(out, Op{K: "symlink", P: gone(), Q: p.target('a', 80)})
		case 10:
			out = append(out, Op{K: "update", N: r.N(2), It: []Item{{Path: gone(), Mode: 0644, Data: genData(r, c.Cfg.RS, 0)}}})
		case 11:
			out = append(out, Op{K: "arch"}, Op{K: "update", N: 1})
		case 12:
			out = append(out, Op{K: "arch", It: []Item{{Path: p.fresh(), Mode: 0644, Data: genData(r, c.Cfg.RS, 0)}, {Path: pick(r, "", "/", p.wild()), Mode: 0644, Data: &Data{N: 5}}}})
		default:
			f := p.existing('f', false)
			if f == "" {
				continue
			}
			out = append(out, Op{K: "open", P: f, Flag: pick(r, os.O_RDONLY, os.O_RDWR, os.O_RDWR|os.O_EXCL|os.O_CREATE), H: []HOp{{K: "seek", Off: -3}, {K: "trunc", Off: -1}, {K: "readat", N: 3, Off: -1}, {K: "seek", Wh: 7}, {K: "writeat", Off: -2, Data: &Data{N: 3}}, {K: "read", N: 0}}})
		}
	}
	return out
}

func runC10(c *Case, r *Result) {
	dir := mkScratch()
	defer rmScratch(dir)
	base := filepath.Join(dir, "base")
	if err := os.MkdirAll(base, 0o755); err != nil {
		harnessf("mkdir: %v", err)
	}
	e, err := NewEnv(base, base+"/tape.tar", c.Cfg, EnvOpts{})
	if err != nil {
		harnessf("env: %v", err)
	}
	if err := e.Init(); err != nil {
		e.Close()
		failf("Initialize on an empty tape: %v", err)
	}
	for _, op := range c.Ops {
		_ = sysOp(e, e.FS, op)
	}
	e.Close()

	j := 0
	fresh := func(cfg Cfg, f *faulter, o EnvOpts) *Env {
		j++
		o.Over = len(c.Ops2) > 0 && c.Ops2[0].K == "opinit"
		d := filepath.Join(dir, fmt.Sprintf("t%d", j))
		if err := os.MkdirAll(d, 0o755); err != nil {
			harnessf("mkdir: %v", err)
		}
		copyFile(base+"/tape.tar", d+"/tape.tar")
		copyFile(base+"/idx.sqlite", d+"/idx.sqlite")
		if f != nil {
			o.Hooks = f.hooks()
		}
		n, err := NewEnv(d, d+"/tape.tar", cfg, o)
		if err != nil {
			harnessf("env: %v", err)
		}
		return n
	}
	drop := func(n *Env) {
		n.Close()
		if filepath.Dir(n.Dir) == dir {
			_ = os.RemoveAll(n.Dir)
		}
	}

	switch c.Mode {
	case "fault":
		f := &faulter{}
		n := fresh(c.Cfg, f, EnvOpts{})
		f.arm(0, 0, nil)
		for _, op := range c.Ops2 {
			_ = faultOp(n, f, op)
		}
		f.disarm()
		labels := append([]string{}, f.labels...)
		drop(n)
		hit := 0
		for _, k := range choosePoints(labels, uint64(c.I[0]), int(c.I[1])) {
			kr := NewRng(uint64(c.I[0]), uint64(k))
			ferr := faultErrors[int(c.I[2])]
			if kr.P(30) {
				ferr = errInjected
			}
			sticky := 0
			if kr.P(35) {
				sticky = 1 + kr.N(2)
			}
			f := &faulter{}
			n := fresh(c.Cfg, f, EnvOpts{})
			f.arm(k, sticky, ferr)
			failed := false
			for _, op := range c.Ops2 {
				if err := faultOp(n, f, op); err != nil {
					failed = true
				}
			}
			f.disarm()
			if f.fired == "" {
				r.cls("point not reached")
			} else {
				hit++
				r.cls("fault at " + f.fired)
				if failed {
					r.cls("faulted call failed")
				} else {
					r.cls("faulted call succeeded")
				}
			}
			what := fmt.Sprintf("after %s with %s (operation %d) failing (%v, sticky=%d)", opsString(c.Ops2), f.fired, k, ferr, sticky)
			probeC10(n, what, r)
			drop(n)
		}
		r.NT = hit >= 8
	case "drive":
		n := fresh(c.Cfg, nil, EnvOpts{})
		tape := n.TapeBytes()
		fails := 0
		restore := breakDrive(n, c.S[0], uint64(c.I[0]))
		for _, op := range c.Ops2 {
			if err := sysOpC10(n, op); err != nil {
				fails++
				r.cls("failed with drive " + c.S[0])
			} else {
				r.cls("succeeded with drive " + c.S[0])
			}
			lockFree(n, "after "+opString(op)+" with the drive "+c.S[0])
		}
		probeC10(n, "with the drive "+c.S[0], nil)
		restore()
		_ = os.WriteFile(n.Tape, tape, 0o600)
		probeC10(n, "after the drive was "+c.S[0]+" and came back", r)
		drop(n)
		r.NT = fails >= 1
	case "reject":
		cfg, o := c.Cfg, EnvOpts{}
		what := ""
		if len(c.S) > 0 {
			what = c.S[0]
			switch what {
			case "level":
				cfg.Level = "bogus"
				if cfg.Comp == "" {
					cfg.Comp = "gzip"
				}
			case "comp":
				cfg.Comp = "bogus"
			case "enc":
				cfg.Enc = "bogus"
			case "sig":
				cfg.Sig = "bogus"
			case "wcache":
				cfg.WCache = "bogus"
			case "keys":
				o.Keys = 1
			case "readonly":
				o.ReadOnly = true
			}
		}
		n := fresh(cfg, nil, o)
		if what == "nokeys" {
			n.Close()
			n = noKeys(n)
		}
		fails := 0
		for i, op := range c.Ops2 {
			if err := sysOpC10(n, op); err != nil {
				fails++
				r.cls("rejected:" + op.K)
			}
			w := fmt.Sprintf("after rejected call %d %s (%s)", i, opString(op), what)
			lockFree(n, w)
			if i == len(c.Ops2)-1 || i%3 == 1 {
				probeC10(n, w, r)
			}
		}
		drop(n)
		r.NT = fails >= 3
	case "open":
		n := fresh(c.Cfg, nil, EnvOpts{})
		hs := map[int]afero.File{}
		most := 0
		for i, op := range c.Ops2 {
			currentCall = fmt.Sprintf("call %d %s with %d open handles", i, opString(op), len(hs))
			switch op.K {
			case "hopen":
				if hs[op.N] != nil {
					_ = hs[op.N].Close()
					delete(hs, op.N)
				}
				h, err := n.FS.OpenFile(op.P, op.Flag, os.FileMode(op.Mode))
				if err == nil {
					hs[op.N] = h
				}
			case "hdo":
				if h := hs[op.N]; h != nil {
					for _, x := range op.H {
						_ = blindHandle(h, x)
						r.cls("open handle:" + x.K)
					}
				}
			case "hdir":
				if h := hs[op.N]; h != nil {
					_, _ = h.Readdir(-1)
					_, _ = h.Readdirnames(1)
					_ = h.Name()
				}
			case "hclose":
				if h := hs[op.N]; h != nil {
					_ = h.Close()
					_ = h.Close()
					_ = blindHandle(h, HOp{K: "read", N: 4})
					_ = h.Close()
					delete(hs, op.N)
				}
			default:
				_ = sysOp(n, n.FS, op)
			}
			if len(hs) > most {
				most = len(hs)
			}
			r.Checks++
			lockFree(n, fmt.Sprintf("after call %d %s with %d open handles", i, opString(op), len(hs)))
		}
		probeC10(n, fmt.Sprintf("with %d open handles", len(hs)), r)
		for k := 0; k < 4; k++ {
			if h := hs[k]; h != nil {
				currentCall = "closing the remaining handles"
				_ = h.Close()
			}
		}
		probeC10(n, "at the end", r)
		drop(n)
		r.NT = most >= 2
	}
}

func opsString(ops []Op) string {
	s := ""
	for i, o := range ops {
		if i > 0 {
			s += ", "
		}
		s += opString(o)
	}
	return s
}

func sysOpC10(n *Env, op Op) error {
	switch op.K {
	case "init", "opinit", "find", "invstat", "invlist", "query", "fetch", "index":
		return faultOp(n, &faulter{}, op)
	}
	return sysOp(n, n.FS, op)
}

// choosePoints: for each distinct label its first, last and some random occurrences.
func choosePoints(labels []string, seed uint64, max int) []int {
	r := NewRng(seed, 5)
	occ := map[string][]int{}
	var order []string
	for i, l := range labels {
		if occ[l] == nil {
			order = append(order, l)
		}
		occ[l] = append(occ[l], i+1)
	}
	seen := map[int]bool{}
	var out []int
	add := func(k int) {
		if !seen[k] && len(out) < max {
			seen[k] = true
			out = append(out, k)
		}
	}
	if len(labels) <= max {
		for i := range labels {
			add(i + 1)
		}
		return out
	}
	for _, l := range order {
		add(occ[l][0])
	}
	for _, l := range order {
		add(occ[l][len(occ[l])-1])
	}
	for tries := 0; len(out) < max && tries < 20*max; tries++ {
		l := order[r.N(len(order))]
		add(occ[l][r.N(len(occ[l]))])
	}
	return out
}

// lockFree: the drive can be obtained and released again.
func lockFree(n *Env, what string) {
	currentCall = "obtaining the drive " + what
	if _, err := n.TM.GetReader(); err == nil {
		_ = n.TM.Close()
	}
}

func probeC10(n *Env, what string, r *Result) {
	lockFree(n, what)
	note := func(k string, err error) {
		if r != nil {
			r.Checks++
			if err != nil {
				r.cls("probe failed:" + k)
				if os.Getenv("VH_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "probe %s: %v   %s\n", k, err, what)
				}
			} else {
				r.cls("probe ok:" + k)
			}
		}
	}
	step := func(k string, f func() error) {
		currentCall = "probe " + k + " " + what
		note(k, f())
	}
	step("stat", func() error { _, err := n.FS.Stat("/"); return err })
	step("list", func() error { _, err := listDir(n.FS, "/"); return err })
	step("mkdir", func() error { return n.FS.Mkdir("/zzprobe", 0o755) })
	step("write", func() error {
		f, err := n.FS.OpenFile("/zzprobe/f", os.O_RDWR|os.O_CREATE, 0o644)
		if err != nil {
			return err
		}
		_, err = f.Write([]byte("probe"))
		if cerr := f.Close(); err == nil {
			err = cerr
		}
		return err
	})
	step("read", func() error {
		b, err := ReadAll(n.FS, "/zzprobe/f")
		if err == nil && string(b) != "probe" {
			err = fmt.Errorf("read %q", b)
		}
		return err
	})
	step("archive", func() error {
		return archiveOp(n, []Item{{Path: "/zzprobe/g", Mode: 0644, Data: &Data{N: 700}}}, false, false)
	})
	step("restore", func() error { _, err := restoreAll(n, "/zzprobe", "out", false); return err })
	step("rename", func() error { return n.FS.Rename("/zzprobe/f", "/zzprobe/h") })
	step("chmod", func() error { return n.FS.Chmod("/zzprobe/h", 0o600) })
	step("delete", func() error { return n.W.Delete("/zzprobe") })
	lockFree(n, what)
}

// breakDrive makes the drive unusable in a physical way; the returned function takes it back.
func breakDrive(n *Env, how string, seed uint64) func() {
	away := n.Tape + ".away"
	mv := func() {
		if err := os.Rename(n.Tape, away); err != nil {
			harnessf("rename: %v", err)
		}
	}
	back := func() {
		if fi, err := os.Lstat(n.Tape); err == nil {
			if fi.IsDir() {
				_ = os.Remove(n.Tape)
			} else {
				_ = os.Remove(n.Tape)
			}
		}
		_ = os.Rename(away, n.Tape)
	}
	b := n.TapeBytes()
	r := NewRng(seed, 9)
	switch how {
	case "missing":
		mv()
		return back
	case "directory":
		mv()
		if err := os.Mkdir(n.Tape, 0o755); err != nil {
			harnessf("mkdir: %v", err)
		}
		return back
	case "loop":
		mv()
		if err := os.Symlink(n.Tape, n.Tape); err != nil {
			harnessf("symlink: %v", err)
		}
		return back
	case "readonlydir":
		mv()
		if err := os.Symlink(filepath.Join(n.Dir, "nodir", "tape"), n.Tape); err != nil {
			harnessf("symlink: %v", err)
		}
		return back
	case "empty":
		b = nil
	case "garbage":
		b = append(append([]byte{}, b...), r.Bytes(1+r.N(5000))...)
	case "torn":
		b = b[:r.N(len(b)+1)]
	case "zero":
		b = append([]byte{}, b...)
		at := r.N(len(b))
		for i := at; i < len(b) && i < at+2048; i++ {
			b[i] = 0
		}
	}
	if err := os.WriteFile(n.Tape, b, 0o600); err != nil {
		harnessf("write: %v", err)
	}
	return func() {}
}

// noKeys composes an instance without any keys for a pipeline which needs them.
func noKeys(n *Env) *Env {
	cfg := n.Cfg
	if cfg.Enc == "" && cfg.Sig == "" {
		cfg.Enc, cfg.Sig = "age", "pgp"
	}
	m, err := NewEnv(n.Dir, n.Tape, cfg, EnvOpts{NoKeys: true})
	if err != nil {
		harnessf("env: %v", err)
	}
	return m
}

var _ = io.EOF
