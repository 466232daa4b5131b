//go:build go1.22

package scen

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"zsim/rt"
)

// EXP runs a script given in the environment (for experiments).
func init() {
	Registry["EXP"] = func(g *Gen) *Scenario {
		s := &Scenario{Family: "exp", Race: true}
		s.Script = strings.Split(os.Getenv("ZSIM_SCRIPT"), "\n")
		if c := os.Getenv("ZSIM_COMMAND"); c != "" {
			s.Script, s.Command = nil, c
		}
		if f := os.Getenv("ZSIM_FAULT"); f != "" {
			if err := json.Unmarshal([]byte(f), &s.Fault); err != nil {
				panic(err)
			}
			s.FaultMax = 3
		}
		s.Check = func(r *Run) {
			r.Ended()

			if os.Getenv("ZSIM_PROF") != "" {
				l := []string{}
				for k, n := range rt.Prof {
					l = append(l, fmt.Sprintf("%8d %s", n, k))
				}
				sort.Strings(l)
				os.WriteFile("/tmp/prof.txt", []byte(strings.Join(l, "\n")), 0o644)
			}
		}
		if os.Getenv("ZSIM_PROF") != "" {
			OnLive = append(OnLive, func() { rt.Prof = map[string]int{} })
			s.Sched = &rt.Policy{Kind: "random", Slice: 100}
		}

		return s
	}
}
