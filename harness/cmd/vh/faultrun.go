package main

import (
	"fmt"
	"os"
)

// Histories in which single operations of the environment (drive, index, sources, write caches) fail.

// withFaults puts, before some of the calls, an order to fail the k-th operation that the call makes on its environment.
func withFaults(r *Rng, ops []Op, pct int) []Op {
	var out []Op
	for _, op := range ops {
		if !isSwap(op.K) && r.P(pct) {
			k := 1 + r.N(12)
			if r.P(50) {
				k = 1 + r.N(60)
			}
			out = append(out, Op{K: "fault", N: k, UID: r.N(len(faultErrors))})
		}
		out = append(out, op)
	}
	return out
}

// faultRun executes the calls of a history with faults. lag says that a faulted call failed, and that since then
// neither has the index been rebuilt nor has a call appended successfully: the index may be behind the tape for that long.
type faultRun struct {
	f    *faulter
	next *Op
	lag  bool
	hit  bool // some fault was reached
}

func faultOpts(c *Case) (*faultRun, EnvOpts) {
	if c.Mode != "faults" {
		return nil, EnvOpts{}
	}
	x := &faultRun{f: &faulter{}}
	return x, EnvOpts{Hooks: x.f.hooks()}
}

// order takes the order to fail something in the next call.
func (x *faultRun) order(op Op) bool {
	if op.K == "fault" && x != nil {
		x.next = &op
	}
	return op.K == "fault"
}

// do runs op, with the fault that has been ordered.
func (x *faultRun) do(e *Env, op Op, r *Result) (err error) {
	if x != nil {
		x.f.fired = ""
	}
	if x == nil || x.next == nil {
		return sysOp(e, e.FS, op)
	}
	n := x.next
	x.next = nil
	x.f.arm(n.N, 0, faultErrors[n.UID%len(faultErrors)])
	err = faultOp(e, x.f, op)
	x.f.disarm()
	if x.f.fired == "" {
		r.cls("fault not reached")
		return err
	}
	x.hit = true
	r.cls("fault at " + x.f.fired)
	if os.Getenv("VH_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "FAULT %s %v in %s -> %v\n", x.f.fired, faultErrors[n.UID%len(faultErrors)], opString(op), err)
	}
	if err != nil {
		x.lag = true
		r.cls("faulted call failed")
	} else {
		r.cls("faulted call succeeded")
	}
	return err
}

// swapped is told that the instance has been replaced.
func (x *faultRun) swapped(kind string) {
	if x != nil && (kind == "rebuilt" || kind == "lost") {
		x.lag = false
	}
}

// settle is told what became of a call and whether it appended.
func (x *faultRun) settle(err error, appended bool) {
	if x != nil && err == nil && appended && x.f.fired == "" {
		x.lag = false
	}
}

func (x *faultRun) lags() bool { return x != nil && x.lag }

// was says whether a call of this history has been faulted.
func (x *faultRun) was() bool { return x != nil && x.hit }
