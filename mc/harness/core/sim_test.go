//go:build !mcreal

package core

import (
	"fmt"
	"strings"

	"verif.local/vs/ex"
)

func exec(plan string, trace bool) ex.Result {
	r := parse(plan)
	r.s.KeepTrace = trace
	r.s.Spawn(9999, "main", r.main)
	r.s.Run()
	v, det := r.verdict()
	if v == "" && r.s.Budget {
		v = "execution does not come to rest"
	}
	if v != "" {
		for p := 0; p < 20; p++ {
			if b := r.s.Blocked(p); len(b) > 0 {
				det = append(det, fmt.Sprintf("node %d waits: %s", p, strings.Join(b, " ")))
			}
		}
	}
	return ex.Result{Viol: v, Detail: det, Transitions: r.s.Deliveries, Trace: r.s.Trace, Sig: r.s.StateHash() ^ ex.Hash(plan)}
}

