package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func initGlobals() {
	ex := newExec("init")
	st := newState()
	f := icsPkg.Func("init")
	// every global starts at zero
	for _, m := range icsPkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			a := globalAddr(g)
			st.heap[objOf(a).id] = zeroOf(objOf(a).typ)
		}
	}
	rets := ex.callBody(st, f, nil, nil)
	// guard false on entry; take the path which initialises
	var last *State
	for _, r := range rets {
		last = r.st
	}
	if last == nil {
		fatal("package initialisation gives no state")
	}
	for id, v := range last.heap {
		globalHeap[id] = v
	}
	for _, o := range objs {
		o.ro = true
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: engine verify|list ...")
	}
	tmp, err := os.MkdirTemp("", "verif-engine")
	if err != nil {
		fatal("%v", err)
	}
	code := 0
	func() {
		defer os.RemoveAll(tmp)
		loadProgram(tmp)
		initTypes()
		solver = newSolver()
		defer solver.stop()
		initGlobals()
		takeSnapshot()
		code = command(os.Args[1], os.Args[2:])
	}()
	os.Exit(code)
}

func command(cmd string, args []string) int {
	switch cmd {
	case "externs":
		m := map[string]int{}
		for _, f := range codeFuncs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && g.Pkg != icsPkg {
							m[g.String()]++
						} else if c.Common().IsInvoke() {
							m["invoke "+c.Common().Value.Type().String()+"."+c.Common().Method.Name()]++
						}
					}
				}
			}
		}
		for k, n := range m {
			fmt.Println(n, k)
		}
	case "list":
		for _, f := range codeFuncs {
			c := "-"
			if contracts[funcKey(f)] != nil {
				c = contracts[funcKey(f)].line
			}
			fmt.Println(funcKey(f), c)
		}
	case "worker":
		return worker()
	case "search":
		// looks for failing inputs without any obligation having failed
		def := propDefs[args[0]]
		var us []string
		for _, u := range unitNames() {
			if matches(u, def.units) && !matches(u, def.except) {
				us = append(us, u)
			}
		}
		in, _ := replay(args[0], def, us, 1, "quick")
		fmt.Println(args[0], in)
	case "check":
		return check(args[0])
	case "verify":
		keys := unitNames()
		for _, a := range args {
			if strings.HasPrefix(a, "dep:") {
				keys = append(keys, a)
			}
		}
		bad := 0
		for _, k := range keys {
			match := len(args) == 0
			for _, a := range args {
				if a == k || strings.HasSuffix(a, "*") && strings.HasPrefix(k, a[:len(a)-1]) || strings.HasPrefix(a, "*") && strings.HasSuffix(k, a[1:]) {
					match = true
				}
			}
			if !match {
				continue
			}
			q := smtQueries
			r := runUnit(k)
			n, f := 0, 0
			for _, o := range r.Obls {
				n++
				if !o.OK {
					f++
				}
			}
			stt := "ok"
			if f > 0 || r.Error != "" || r.Missing || !r.Feasible {
				stt = "FAIL"
				bad++
			}
			fmt.Printf("%s %s %s obls=%d failed=%d paths=%d feasible=%v q=%d %.2fs %s\n", stt, k, r.Kind, n, f, r.Paths, r.Feasible, smtQueries-q, r.Seconds, r.Error)
			for _, o := range r.Obls {
				if !o.OK {
					fmt.Printf("   %s @ %s: %s\n", o.Kind, o.Where, o.Detail)
				}
			}
			if os.Getenv("VERIF_JSON") != "" {
				b, _ := json.Marshal(r)
				fmt.Println(string(b))
			}
		}
		fmt.Printf("queries=%d cached=%d unknown=%d smt=%.1fs unfolds=%d\n", smtQueries, smtCached, smtUnknown, smtTime.Seconds(), unfoldCount)
		if bad > 0 {
			return 1
		}
	default:
		fatal("unknown command %s", cmd)
	}
	return 0
}
