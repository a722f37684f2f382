package main

import (
	"encoding/json"
	"fmt"
	"os"
)

// scriptMain runs the calls of a case one after another and prints every outcome (for debugging).
func scriptMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if c.Cfg.RS == 0 {
		c.Cfg.RS = 20
	}
	withEnv(&c, func(e *Env) {
		s := map[int]*csys{}
		for _, op := range c.Ops {
			k := 0
			if len(op.K) > 1 && op.K[0] == 'h' {
				k = op.N
			}
			if s[k] == nil {
				s[k] = &csys{fs: e.FS}
			}
			if op.K == "hread" {
				op.N = 1 << 20
			}
			ok, out, errs := s[k].do(op)
			fmt.Printf("%s -> %v %q %s\n", opString(op), ok, clip(out, 200), errs)
		}
		sn, err := Snapshot(e.FS, snapOpts{})
		fmt.Println(sn, err)
		reb, err := e.Rebuild()
		if err != nil {
			fmt.Println("rebuild:", err)
			return
		}
		defer reb.Close()
		s2, err := Snapshot(reb.FS, snapOpts{})
		fmt.Println("rebuilt diff:", diffSnap(sn, s2, "live", "rebuilt", nil), err)
	})
	return 0
}
