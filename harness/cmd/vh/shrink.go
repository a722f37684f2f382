package main

import (
	"encoding/json"
	"strings"
	"time"
)

// shrink reduces a failing case structurally while it keeps failing.
func shrink(rn *runner, c *Case, res Result, budget time.Duration) (*Case, Result) {
	deadline := time.Now().Add(budget)
	best, bres := cloneCase(c), res
	try := func(n *Case) bool {
		if time.Now().After(deadline) || n == nil {
			return false
		}
		r := rn.run(n)
		if r.V == "violation" && (missing(res.Msg) || !missing(r.Msg)) {
			best, bres = n, r
			return true
		}
		return false
	}
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		before := best.JSON()
		shrinkOps(&best, try, func(c *Case) *[]Op { return &c.Ops })
		shrinkOps(&best, try, func(c *Case) *[]Op { return &c.Ops2 })
		for i := range best.Cli {
			i := i
			shrinkOps(&best, try, func(c *Case) *[]Op { return &c.Cli[i] })
		}
		// extras
		for sz := len(best.Extra); sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(best.Extra); {
				n := cloneCase(best)
				n.Extra = append(append([]Extra{}, n.Extra[:i]...), n.Extra[i+sz:]...)
				if !try(n) {
					i += sz
				}
			}
		}
		// configuration
		for _, f := range []func(*Case){
			func(c *Case) { c.Cfg.Comp = "" }, func(c *Case) { c.Cfg.Enc = "" }, func(c *Case) { c.Cfg.Sig = "" },
			func(c *Case) { c.Cfg.Level = "" }, func(c *Case) { c.Cfg.WCache = "" }, func(c *Case) { c.Cfg.WPR = false },
			func(c *Case) { c.Cfg.RS = 20 }, func(c *Case) { c.Cfg.RS = 1 },
		} {
			n := cloneCase(best)
			f(n)
			if n.JSON() != best.JSON() {
				try(n)
			}
		}
		// inside operations
		for oi := 0; oi < len(best.Ops); oi++ {
			shrinkOp(&best, try, oi, func(c *Case) []Op { return c.Ops })
		}
		for oi := 0; oi < len(best.Ops2); oi++ {
			shrinkOp(&best, try, oi, func(c *Case) []Op { return c.Ops2 })
		}
		for di := range best.Data {
			for _, nn := range []int{0, 1, best.Data[di].N / 2} {
				if nn < best.Data[di].N {
					n := cloneCase(best)
					n.Data[di].N = nn
					if try(n) {
						break
					}
				}
			}
		}
		for di := range best.Extra {
			if best.Extra[di].D != nil {
				for _, nn := range []int{0, 1, best.Extra[di].D.N / 2} {
					if nn < best.Extra[di].D.N {
						n := cloneCase(best)
						n.Extra[di].D.N = nn
						if try(n) {
							break
						}
					}
				}
			}
		}
		if best.JSON() == before {
			break
		}
	}
	return best, bres
}

// missing: dropping a call which later ones rely on must not turn a failure into the lack of what it made.
func missing(m string) bool {
	return strings.Contains(m, "no rows in result set") || strings.Contains(m, "does not exist") || strings.Contains(m, "no such file")
}

func shrinkOps(best **Case, try func(*Case) bool, get func(*Case) *[]Op) {
	for sz := len(*get(*best)); sz >= 1; sz /= 2 {
		for i := len(*get(*best)) - sz; i >= 0; {
			n := cloneCase(*best)
			ops := get(n)
			*ops = append(append([]Op{}, (*ops)[:i]...), (*ops)[i+sz:]...)
			try(n)
			i -= sz
			if l := len(*get(*best)); i+sz > l {
				i = l - sz
			}
		}
	}
}

func shrinkOp(best **Case, try func(*Case) bool, oi int, get func(*Case) []Op) {
	for sz := len(get(*best)[oi].H); sz >= 1; sz /= 2 {
		for i := 0; i+sz <= len(get(*best)[oi].H); {
			n := cloneCase(*best)
			o := &get(n)[oi]
			o.H = append(append([]HOp{}, o.H[:i]...), o.H[i+sz:]...)
			if !try(n) {
				i += sz
			}
		}
	}
	for i := 0; i < len(get(*best)[oi].It) && len(get(*best)[oi].It) > 1; {
		n := cloneCase(*best)
		o := &get(n)[oi]
		o.It = append(append([]Item{}, o.It[:i]...), o.It[i+1:]...)
		if !try(n) {
			i++
		}
	}
	for hi := range get(*best)[oi].H {
		if d := get(*best)[oi].H[hi].Data; d != nil {
			for _, nn := range []int{0, 1, d.N / 2, d.N - 1} {
				if nn < get(*best)[oi].H[hi].Data.N && nn >= 0 {
					n := cloneCase(*best)
					get(n)[oi].H[hi].Data.N = nn
					if try(n) {
						break
					}
				}
			}
			if get(*best)[oi].H[hi].Data.Kind != "text" {
				n := cloneCase(*best)
				get(n)[oi].H[hi].Data.Kind = "text"
				try(n)
			}
		}
	}
	for ii := range get(*best)[oi].It {
		if d := get(*best)[oi].It[ii].Data; d != nil {
			for _, nn := range []int{0, 1, d.N / 2} {
				if nn < d.N {
					n := cloneCase(*best)
					get(n)[oi].It[ii].Data.N = nn
					if try(n) {
						break
					}
				}
			}
		}
	}
}

func cloneCase(c *Case) *Case {
	b, _ := json.Marshal(c)
	var n Case
	_ = json.Unmarshal(b, &n)
	return &n
}
