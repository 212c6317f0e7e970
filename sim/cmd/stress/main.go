// Command stress runs every case of tools/stress under many schedules and prints
// each distinct result; tools/stress.sh compares it with the native run.
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"

	"github.com/BTBurke/monny/pkg/stress"
	"github.com/BTBurke/monny/simall"

	"simverif/rt"
)

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	var names []string
	for k := range stress.Cases {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, name := range names {
		res := map[string]int{}
		for i := 0; i < n; i++ {
			out := ""
			end := runCase(uint64(i+1), func() { out = stress.Cases[name]() })
			res[out+end]++
		}
		var rs []string
		for r := range res {
			rs = append(rs, r)
		}
		sort.Strings(rs)
		for _, r := range rs {
			fmt.Printf("%s: %s\n", name, r)
		}
	}
}

func runCase(seed uint64, f func()) string {
	ch := rt.NewChoices(seed)
	simall.Reset()
	cfg := rt.Config{Strategy: rt.Strategy(ch.W(4)), PSync: float64(ch.W(3)) * 0.2, PStmt: float64(ch.W(3)) * 0.15, PCTDepth: ch.W(4), SelectRand: true, MaxSteps: 100000}
	s := rt.New(cfg, ch)
	s.Run(func() {
		g := &rt.Group{Name: "sut", SUT: true}
		done := false
		rt.GoIn(g, "case", func() { f(); done = true; rt.Abort("") })
		rt.Sleep(time.Hour)
		_ = done
	})
	if s.End == rt.EndAbort {
		return ""
	}
	return " [" + s.End.String() + " " + s.EndMsg + " " + s.EndStk + "]"
}
