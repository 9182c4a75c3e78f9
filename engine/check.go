package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// unitNames lists every unit of verification: functions under contract and
// the specification functions whose own well-definedness needs a proof.
func unitNames() []string {
	var keys []string
	for k := range contracts {
		keys = append(keys, k)
	}
	for _, s := range specOrder {
		if (s.recursive || specByName[s.name+"_ensures"] != nil) && !s.lemma && s.opts["of"] == "" {
			keys = append(keys, "spec:"+s.name)
		}
	}
	for _, s := range specOrder {
		if lineOf(s) != nil {
			keys = append(keys, "line:"+s.name)
		}
	}
	for _, s := range lemmas {
		keys = append(keys, "lemma:"+strings.TrimPrefix(s.name, "vLemma"))
	}
	for _, s := range wrongs {
		keys = append(keys, "wrong:"+s.name)
	}
	sort.Strings(keys)
	return keys
}

func matches(k string, pats []string) bool {
	for _, a := range pats {
		if ok, _ := filepath.Match(a, k); ok {
			return true
		}
	}
	return false
}

// ok reports a unit with every obligation discharged.
func (r *UnitResult) ok() bool {
	return r.Error == "" && r.Feasible && len(r.failed(allKinds)) == 0
}

// verifyWrong tries to prove what does not hold.
func verifyWrong(s *SpecFn) (res UnitResult) {
	of := s.opts["of"]
	if of == "lemma" {
		res = verifyLemma(s)
	} else if c := contracts[of]; c == nil || c.fn == nil {
		res.Missing = true
	} else {
		w := *c
		w.spec, w.alts = s, nil
		s.contract = &w
		res = verifyContract(&w)
	}
	res.Unit = "wrong:" + s.name
	return
}

// attempts bounds the time of one attempt at a unit.
var attempts time.Time

func attempt(d time.Duration) { attempts = time.Now().Add(d) }

func inTime() {
	if !attempts.IsZero() && time.Now().After(attempts) {
		attempts = time.Time{}
		panic(giveUp{"not verified within the time limit"})
	}
}

// peel has the first round of every loop executed by itself.
var peel bool

func runUnit(k string) UnitResult {
	st, q, t := time.Now(), smtQueries, smtTime
	var r UnitResult
	if n, ok := strings.CutPrefix(k, "spec:"); ok {
		r = verifySpec(specByName[n])
	} else if n, ok := strings.CutPrefix(k, "lemma:"); ok {
		r = verifyLemma(specByName["vLemma"+n])
	} else if n, ok := strings.CutPrefix(k, "line:"); ok {
		r = verifyLine(specByName[n])
	} else if n, ok := strings.CutPrefix(k, "wrong:"); ok {
		r = verifyWrong(specByName[n])
	} else if strings.HasPrefix(k, "dep:") {
		r = verifyDep(k)
	} else {
		attempt(90 * time.Second)
		r = verifyContract(contracts[k])
		for _, a := range contracts[k].alts {
			if r.ok() || r.Missing {
				break
			}
			attempt(60 * time.Second)
			if v := verifyAlt(contracts[k], a); v.ok() {
				r = v
			}
		}
		c := contracts[k]
		narrows := !narrow[k] && (c.kind == "dec" || c.kind == "decsec" || validOf(c) != nil)
		for i := 0; i < 3 && !r.ok() && !r.Missing && os.Getenv("VERIF_DROP") == ""; i++ {
			// with the receivers which occur; with the first round of
			// loops looked at by itself; with both
			n := i != 1
			if n && !narrows || i > 0 && (c.kind == "decsec" || time.Since(st) > 100*time.Second) {
				continue
			}
			attempt(60 * time.Second)
			if n {
				narrow[k] = true
			}
			peel = i > 0
			if v := verifyContract(c); v.ok() {
				r = v
				r.Narrow = n
			}
			peel = false
			if n {
				delete(narrow, k)
			}
		}
	}
	attempts = time.Time{}
	r.Seconds = time.Since(st).Seconds()
	r.Queries = smtQueries - q
	r.SMTms = (smtTime - t).Milliseconds()
	return r
}

// failed lists the obligations of a unit which were not discharged.
func (r *UnitResult) failed(sel func(string) bool) []Obligation {
	var out []Obligation
	for _, o := range r.Obls {
		if !o.OK && sel(o.Kind) {
			out = append(out, o)
		}
	}
	if r.Error != "" {
		out = append(out, Obligation{Func: r.Unit, Kind: "verified", Where: r.Unit, Detail: r.Error})
	} else if !r.Missing && !r.Feasible {
		out = append(out, Obligation{Func: r.Unit, Kind: "not-vacuous", Where: r.Unit, Detail: "no path through the function was shown to be possible"})
	} else if !r.Missing && len(r.Obls) == 0 {
		out = append(out, Obligation{Func: r.Unit, Kind: "not-vacuous", Where: r.Unit, Detail: "no obligations were generated"})
	}
	return out
}

// worker verifies the units named on its input.
func worker() int {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		r := runUnit(in.Text())
		b, err := json.Marshal(r)
		if err != nil {
			fatal("%v", err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	return 0
}

// verifyAll spreads units over worker processes.
func verifyAll(units, drop, weak []string, limit time.Duration) map[string]UnitResult {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	n := 8
	if len(units) < n {
		n = len(units)
	}
	// the slow ones first
	units = append([]string{}, units...)
	weight := func(u string) int {
		if c := contracts[u]; c != nil && c.fn != nil {
			w := 0
			for _, b := range c.fn.Blocks {
				w += len(b.Instrs)
			}
			if strings.HasPrefix(u, "Recur.") {
				w += 5000
			}
			return w
		}
		return 100
	}
	sort.SliceStable(units, func(i, j int) bool { return weight(units[i]) > weight(units[j]) })
	queue := make(chan string, len(units))
	for _, u := range units {
		queue <- u
	}
	close(queue)
	deadline := time.Now().Add(limit)
	if d := started.Add(checkLimit); d.Before(deadline) {
		deadline = d
	}
	res := map[string]UnitResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in io.WriteCloser
			var out *bufio.Reader
			stop := func() {
				if cmd != nil {
					in.Close()
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
				}
			}
			defer stop()
			for u := range queue {
				left := time.Until(deadline)
				if left <= 0 {
					mu.Lock()
					res[u] = UnitResult{Unit: u, Error: "not verified within the time limit"}
					mu.Unlock()
					continue
				}
				if cmd == nil {
					cmd = exec.Command(exe, "worker")
					cmd.Env = append(os.Environ(), "VERIF_DROP="+strings.Join(drop, ","), "VERIF_WEAK="+strings.Join(weak, ","), "VERIF_NARROW="+strings.Join(keysOf(narrow), ","))
					cmd.Stderr = os.Stderr
					in, _ = cmd.StdinPipe()
					p, _ := cmd.StdoutPipe()
					out = bufio.NewReaderSize(p, 1<<20)
					if err := cmd.Start(); err != nil {
						fatal("%v", err)
					}
				}
				fmt.Fprintln(in, u)
				if left > unitLimit {
					left = unitLimit
				}
				c := cmd
				timer := time.AfterFunc(left, func() { c.Process.Kill() })
				line, err := out.ReadBytes('\n')
				killed := !timer.Stop()
				var r UnitResult
				if err != nil || json.Unmarshal(line, &r) != nil {
					r = UnitResult{Unit: u, Error: "the verifier stopped"}
					if killed {
						r.Error = "not verified within the time limit"
					}
					stop()
				}
				mu.Lock()
				res[u] = r
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return res
}

const unitLimit = 220 * time.Second

// started and checkLimit bound the time of all verification of a check.
var started = time.Now()

const checkLimit = 600 * time.Second

// callersOf finds the units which reach a function without passing through
// another contract.
func callersOf(drop, of map[string]bool) map[string]map[string]bool {
	direct := map[*ssa.Function]map[*ssa.Function]bool{} // callee -> callers
	byName := map[string][]*ssa.Function{}
	for _, f := range codeFuncs {
		byName[f.Name()] = append(byName[f.Name()], f)
	}
	var scan func(f, as *ssa.Function)
	scan = func(f, as *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok {
						if direct[g] == nil {
							direct[g] = map[*ssa.Function]bool{}
						}
						direct[g][as] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range byName[c.Common().Method.Name()] {
						if direct[g] == nil {
							direct[g] = map[*ssa.Function]bool{}
						}
						direct[g][as] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a, as)
		}
	}
	for _, f := range codeFuncs {
		scan(f, f)
	}
	out := map[string]map[string]bool{}
	for k := range of {
		c := contracts[k]
		if c == nil || c.fn == nil {
			continue
		}
		out[k] = map[string]bool{}
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for f := range direct[g] {
				if seen[f] {
					continue
				}
				seen[f] = true
				if contracts[funcKey(f)] != nil && !drop[funcKey(f)] {
					out[k][funcKey(f)] = true
				} else {
					walk(f)
				}
			}
		}
		walk(c.fn)
		if c.kind == "tok" || c.kind == "phrase" || c.kind == "read" {
			for _, d := range contracts {
				if d.fn != nil && (d.kind == "decode" || c.kind == "tok" && d.kind == "phrase") {
					out[k][d.key] = true
				}
			}
		}
	}
	return out
}

type violation struct {
	Property    string       `json:"property"`
	Obligations []Obligation `json:"failed_obligations"`
	Input       any          `json:"failing_input,omitempty"`
	Note        string       `json:"note"`
	Rerun       string       `json:"rerun"`
}

func check(id string) int {
	start := time.Now()
	def := propDefs[id]
	if def == nil {
		fatal("no check for property %q", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var units []string
	for _, u := range unitNames() {
		if matches(u, def.units) && !matches(u, def.except) {
			units = append(units, u)
		}
	}
	if len(units) == 0 {
		fatal("no units for property %s", id)
	}
	units = closure(units)
	guards := []string{}
	for _, s := range wrongs {
		guards = append(guards, "wrong:"+s.name)
	}
	res := verifyAll(append(guards, units...), nil, nil, 400*time.Second)
	// helpers whose contracts the units rely on belong to all of them
	for {
		more := map[string]bool{}
		for _, u := range units {
			for _, k := range res[u].Used {
				if c := contracts[k]; c != nil && c.kind == "fun" && !contains(units, k) {
					more[k] = true
				}
			}
		}
		if len(more) == 0 {
			break
		}
		var list []string
		for _, u := range closure(keysOf(more)) {
			if !contains(units, u) {
				list = append(list, u)
			}
		}
		for u, r := range verifyAll(list, nil, nil, 300*time.Second) {
			res[u] = r
		}
		units = append(units, list...)
		sort.Strings(units)
	}
	// what calls a function whose contract holds for some receivers only has to
	// show that it is given one of those
	for {
		d := map[string]bool{}
		for _, u := range units {
			if res[u].Narrow && !narrow[u] {
				d[u] = true
			}
		}
		if len(d) == 0 {
			break
		}
		again := map[string]bool{}
		for u := range d {
			narrow[u] = true
		}
		for _, cs := range callersOf(nil, d) {
			for c := range cs {
				again[c] = true
			}
		}
		for u, r := range verifyAll(keysOf(again), nil, nil, 300*time.Second) {
			if _, ok := res[u]; !ok {
				units = append(units, u)
			}
			r.Narrow = r.Narrow || narrow[u]
			res[u] = r
		}
	}
	// the callers of functions which do something else than their contract says
	// are looked at again without it, even if this property is not about that
	var loose []string
	isLoose := map[string]bool{}
	for {
		d := map[string]bool{}
		for _, u := range units {
			if r := res[u]; !isLoose[u] && contracts[u] != nil && !r.Missing && len(r.failed(def.kinds)) == 0 && len(r.failed(allKinds)) > 0 {
				loose = append(loose, u)
				isLoose[u], d[u] = true, true
			}
		}
		if len(d) == 0 {
			break
		}
		again := map[string]bool{}
		for _, cs := range callersOf(nil, d) {
			for c := range cs {
				again[c] = true
			}
		}
		var list []string
		for _, u := range units {
			if again[u] {
				list = append(list, u)
			}
		}
		for u, r := range verifyAll(list, nil, loose, 300*time.Second) {
			res[u] = r
		}
	}
	var fails []Obligation
	failed := map[string]bool{}
	total, done, bySolver := 0, 0, 0
	kinds := map[string]int{}
	var smtms int64
	queries := 0
	var funcs []string
	externs, inl, others := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var dropped []string
	for _, u := range units {
		r := res[u]
		if r.Missing {
			dropped = append(dropped, u)
			continue
		}
		if !strings.Contains(u, ":") {
			funcs = append(funcs, u)
		}
		for _, o := range r.Obls {
			if !def.kinds(o.Kind) {
				continue
			}
			total++
			kinds[o.Kind]++
			if o.OK {
				done++
				if o.By != "" {
					bySolver++
				}
			}
		}
		smtms += r.SMTms
		queries += r.Queries
		for _, e := range r.Externs {
			externs[e] = true
		}
		for _, e := range r.Inlined {
			inl[e] = true
		}
		for _, k := range r.Used {
			if contracts[k] != nil && !contains(units, k) {
				others[k] = true
			}
		}
		if fs := r.failed(def.kinds); len(fs) > 0 {
			fails = append(fails, fs...)
			failed[u] = true
		}
	}
	// the functions of the parser package which take part, with what they are
	// given; one that is not proved to do what is said of it stays an assumption
	deps := depUnits(keysOf(externs))
	proved := []string{}
	if len(deps) > 0 {
		rs := verifyAll(append(deps, depLemmas...), nil, nil, 60*time.Second)
		sound := true
		for _, l := range depLemmas {
			r := rs[l]
			sound = sound && r.ok()
		}
		for _, u := range append(deps, depLemmas...) {
			r := rs[u]
			if !sound || !r.ok() {
				continue
			}
			if strings.HasPrefix(u, "dep:") {
				delete(externs, u)
				proved = append(proved, depName(u))
			} else if contains(units, u) {
				continue
			}
			for _, o := range r.Obls {
				total++
				done++
				kinds[o.Kind]++
				if o.By != "" {
					bySolver++
				}
			}
			smtms += r.SMTms
			queries += r.Queries
			for _, e := range r.Externs {
				externs[e] = true
			}
		}
		for _, u := range deps {
			if !contains(proved, depName(u)) {
				delete(externs, u)
				externs[depName(u)] = true
			}
		}
	}
	for _, t := range def.tops {
		if c := contracts[t]; c == nil || c.fn == nil {
			fails = append(fails, Obligation{Func: t, Kind: "verified", Where: t, Detail: "the function does not exist or does not have the expected form"})
			failed[t] = true
		}
	}
	// a contract between functions of the code may change as long as the
	// functions using it keep theirs
	if len(fails) > 0 {
		drop := map[string]bool{}
		for u := range failed {
			if c := contracts[u]; c == nil || contains(def.tops, u) {
				drop = nil
				break
			}
			drop[u] = true
		}
		if drop != nil {
			again := map[string]bool{}
			ok := true
			for _, cs := range callersOf(drop, drop) {
				if len(cs) == 0 {
					ok = false
				}
				for c := range cs {
					again[c] = true
				}
			}
			if ok {
				var list, dl []string
				for c := range again {
					list = append(list, c)
				}
				for c := range drop {
					dl = append(dl, c)
				}
				sort.Strings(list)
				sort.Strings(dl)
				r2 := verifyAll(list, dl, loose, 200*time.Second)
				var f2 []Obligation
				for _, u := range list {
					r := r2[u]
					if isLoose[u] {
						f2 = append(f2, r.failed(def.kinds)...)
					} else {
						f2 = append(f2, r.failed(allKinds)...)
					}
				}
				if len(f2) == 0 {
					for _, u := range list {
						r := r2[u]
						for _, o := range r.Obls {
							if def.kinds(o.Kind) {
								total++
								done++
								kinds[o.Kind]++
							}
						}
					}
					for u := range drop {
						r := res[u]
						for _, o := range r.Obls {
							if def.kinds(o.Kind) {
								total--
								kinds[o.Kind]--
								if o.OK {
									done--
								}
							}
						}
						dropped = append(dropped, u)
					}
					fails = nil
				}
			}
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": def.level,
		"assumptions": assumptions(keysOf(externs)),
	}
	if len(others) > 0 {
		ev["assumptions"] = append(assumptions(keysOf(externs)), "the contracts under contracts_of_other_checks_used hold, which the checks of other properties prove")
	}
	cov := map[string]any{
		"obligations": total, "discharged": done,
		"checker_cmd":                    "bash /verif/check.sh " + id,
		"trusted_base":                   trustedBase,
		"functions_under_contract":       len(funcs),
		"functions":                      funcs,
		"obligations_by_kind":            kinds,
		"discharged_with_z3_5.3.2":       bySolver,
		"discharged_by_rewriting_only":   done - bySolver,
		"solver_queries":                 queries,
		"solver_seconds":                 float64(smtms) / 1000,
		"specification_units":            len(units) - len(funcs) - len(dropped),
		"functions_verified_by_inlining": keysOf(inl),
		"contracts_not_used":             dropped,
		"contracts_of_other_checks_used": keysOf(others),
		"dependency_functions_proved":    proved,
		"bounded_obligations":            0,
	}
	ev["coverage"] = cov
	code := 0
	refuted := 0
	for _, g := range guards {
		r := res[g]
		if len(fails) == 0 && r.ok() {
			fatal("the verifier accepts %s, which does not hold", g)
		}
		if r.Error == "" && !r.Missing && r.Feasible {
			refuted++
		}
	}
	cov["false_statements_rejected"] = refuted
	if len(fails) > 0 {
		sort.SliceStable(fails, func(i, j int) bool { return fails[i].Func < fails[j].Func })
		code = report(id, def, fails, seed, tier, ev)
	}
	ev["wall_s"] = time.Since(start).Seconds()
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s: %d of %d obligations discharged for %d functions in %.1f s\n", id, done, total, len(funcs), time.Since(start).Seconds())
	return code
}

// closure adds the specification functions used by the chosen units.
func closure(units []string) []string {
	in := map[string]bool{}
	for _, u := range units {
		in[u] = true
	}
	all := map[string]bool{}
	for _, u := range unitNames() {
		all[u] = true
	}
	seen := map[*SpecFn]bool{}
	var walk func(s *SpecFn)
	walk = func(s *SpecFn) {
		if s == nil || seen[s] {
			return
		}
		seen[s] = true
		if n := "spec:" + s.name; all[n] && !in[n] {
			in[n] = true
			units = append(units, n)
		}
		for _, f := range []*ssa.Function{s.fn, s.requires} {
			if f == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil {
							walk(specOf[g])
						}
					}
				}
			}
		}
	}
	for _, u := range append([]string{}, units...) {
		if c := contracts[u]; c != nil && len(c.alts) > 0 {
			for _, l := range lemmas {
				if n := "lemma:" + strings.TrimPrefix(l.name, "vLemma"); !in[n] {
					in[n] = true
					units = append(units, n)
					walk(l)
				}
			}
			for _, a := range c.alts {
				walk(a)
			}
		}
		if n, ok := strings.CutPrefix(u, "spec:"); ok {
			walk(specByName[n])
		} else if n, ok := strings.CutPrefix(u, "lemma:"); ok {
			walk(specByName["vLemma"+n])
		} else if n, ok := strings.CutPrefix(u, "line:"); ok {
			walk(specByName[n])
			walk(specByName[n+"_line"])
		} else if c := contracts[u]; c != nil {
			walk(c.spec)
		}
	}
	sort.Strings(units)
	return units
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// known reads the findings which are accepted on the current tree.
func known(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		r, ok := strings.CutPrefix(l, "KNOWN: property="+id+" obligation=")
		if !ok {
			continue
		}
		n, what, _ := strings.Cut(r, " ")
		out[n] = what
	}
	return out
}

// report names what failed, with an input showing it where one is found.
func report(id string, def *propDef, fails []Obligation, seed int, tier string, ev map[string]any) int {
	kn := known(id)
	var rest []Obligation
	for _, o := range fails {
		if w, ok := kn[o.Func+"/"+o.Kind]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, w)
			continue
		}
		rest = append(rest, o)
	}
	if len(rest) == 0 {
		return 0
	}
	v := violation{Property: id, Obligations: rest}
	for i, o := range rest {
		if i == 10 {
			fmt.Printf("... %d more obligations failed\n", len(rest)-i)
			break
		}
		d := o.Detail
		if len(d) > 300 {
			d = d[:300] + "…"
		}
		fmt.Printf("FAILED obligation %s/%s at %s: %s\n", o.Func, o.Kind, o.Where, d)
	}
	us := map[string]bool{}
	for _, o := range rest {
		us[o.Func] = true
	}
	in, rerun := replay(id, def, keysOf(us), seed, tier)
	tail := ""
	if in != nil {
		v.Input = in
		v.Note = "the input makes the running code disagree with the contract of the named function"
		v.Rerun = rerun
		fmt.Printf("failing input: %s\n", clip(fmt.Sprint(in), 600))
	} else {
		v.Note = "no failing input was found; the failed obligations and what the verifier could not prove are listed"
		v.Rerun = "bash /verif/check.sh " + id
		tail = " no-failing-input-found"
	}
	path := filepath.Join(verifDir, "evidence", "replay-"+id+".json")
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	var names []string
	for _, o := range rest {
		names = append(names, o.Func+"/"+o.Kind)
	}
	ev["violations"] = 1
	ev["coverage"].(map[string]any)["failed_obligations"] = names
	ev["coverage"].(map[string]any)["failing_input_found"] = in != nil
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, path, tail)
	return 1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
