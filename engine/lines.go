package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Line units prove, for a specification function f of written text, the
// statement f_line about the places in a content line the text moves through.
// Lemma units prove boolean specification functions for all arguments, with
// the steps given by a proof function: a call of a lemma there is a use of it.

// lineOf gives the statement about the text of a specification function.
func lineOf(s *SpecFn) *SpecFn { return specByName[s.name+"_line"] }

// specNamed finds the specification function of an application.
func specNamed(t *Term) *SpecFn {
	if t.op != OApp {
		return nil
	}
	n, k, ok := strings.Cut(t.name, "#")
	if !ok || k != "0" {
		return nil
	}
	return specByName[n]
}

// resultOf gives the specification function a term is any result of.
func resultOf(t *Term) *SpecFn {
	if t.op != OApp {
		return nil
	}
	n, _, _ := strings.Cut(t.name, "#")
	return specByName[n]
}

// useLemma adds a lemma as a fact. A lemma may be used in the proof of a later
// one, and in its own proof for smaller arguments.
func (ex *Exec) useLemma(st *State, in *ssa.Call, s *SpecFn, args []*Term) {
	if s == ex.specUnit {
		ex.lemmaStep(st, in, args)
	} else if ex.specUnit != nil && ex.specUnit.lemma {
		ok := false
		for _, l := range lemmas {
			if l == ex.specUnit {
				break
			}
			ok = ok || l == s
		}
		ex.record(st, "lemma-order", ex.specUnit.name, ok, s.name+" is used before it is proved")
	}
	usedLemmas[s.name] = true
	ex.ensures(st, s, args)
}

// opens reports a call in a proof whose result is not used: it stands for the
// definition of the function.
func opens(in *ssa.Call) bool {
	n := in.Parent().Name()
	return len(*in.Referrers()) == 0 && (strings.HasSuffix(n, "_proof") || strings.HasSuffix(n, "_hint"))
}

// openSpec adds the definition of a specification function as a fact.
func (ex *Exec) openSpec(st *State, s *SpecFn, args []*Term) []Ret {
	as := s.apps(args)
	ex.keepRets = true
	rets := ex.callBody(st, s.fn, args, nil)
	for i, r := range rets {
		for k, v := range r.vals {
			r.st.axiom(Eq(as[k], r.st.freeze(v)))
		}
		rets[i].vals = as
	}
	return rets
}

var usedLemmas = map[string]bool{}

// lemmaStep notes the arguments made smaller where a lemma is used in its own
// proof.
func (ex *Exec) lemmaStep(st *State, in *ssa.Call, args []*Term) {
	set := map[int]bool{}
	for i, p := range in.Parent().Params {
		if i >= len(args) {
			break
		}
		v := st.regs[p]
		if was, ok := ex.decr[in]; ok && !was[i] {
			continue
		}
		var m0, m1 *Term
		switch {
		case v.sort == SSeq:
			m0, m1 = Len(v), Len(args[i])
		case isSlice(p.Type()):
			m0, m1 = Len(SlSeq(v)), Len(SlSeq(args[i]))
		default:
			continue
		}
		if g := Lt(m1, m0); quick(st.pc, g) == 1 || solver.valid(st.facts(), g) {
			set[i] = true
		}
	}
	ex.decr[in] = set
}

// arguments makes the arguments of a lemma: one list for each case of the
// sequence the induction is on.
func arguments(f *ssa.Function, induct string) [][]*Term {
	out := [][]*Term{nil}
	add := func(vs ...*Term) {
		var n [][]*Term
		for _, o := range out {
			for _, v := range vs {
				n = append(n, append(append([]*Term{}, o...), v))
			}
		}
		out = n
	}
	for _, p := range f.Params {
		v := fresh(p.Name(), p.Type())
		if p.Name() != induct {
			add(v)
			continue
		}
		if isSlice(p.Type()) {
			et := elemType(p.Type())
			add(Sl(SlNil(v), Empty), Sl(False, Concat(Unit(fresh(p.Name()+"_first", et), et), SlSeq(v))))
			continue
		}
		add(Empty, Concat(Unit(fresh(p.Name()+"_first", byteType), byteType), v))
	}
	return out
}

// verifyLemma proves a boolean specification function true for all arguments.
func verifyLemma(f *SpecFn) (res UnitResult) {
	res.Unit, res.Kind = "lemma:"+strings.TrimPrefix(f.name, "vLemma"), "lemma"
	ex := newExec(res.Unit)
	resetUnit()
	defer ex.finish(&res)
	runeOctets = true
	defer func() { runeOctets = false }()
	ex.mode = mFork
	ex.specUnit, ex.decr = f, map[*ssa.Call]map[int]bool{}
	for _, args := range arguments(f.fn, f.opts["induct"]) {
		st := newState()
		states := []*State{st}
		if p := specByName[f.name+"_proof"]; p != nil {
			states = nil
			ex.keepRets = true
			for _, r := range ex.callBody(st, p.fn, args, nil) {
				states = append(states, r.st)
			}
		}
		for _, s := range states {
			ex.goal(s, f, args, "lemma", &res)
		}
	}
	ex.specMeasure(newState(), f)
	return
}

// structural evaluates a recursive specification function in a lemma or line
// unit where the shape of a sequence decides how.
func (ex *Exec) structural(st *State, s *SpecFn, args []*Term) ([]Ret, bool) {
	if set, ok := constStr(args[len(args)-1]); ok && s.name == "vIn" {
		return []Ret{{st, []*Term{inSet(args[0], set)}}}, true
	}
	seq := false
	for i, a := range args {
		if !s.advances(i) {
			continue
		}
		if a.sort == SU && a.op == OSl {
			a = SlSeq(a)
		}
		if a.sort != SSeq {
			continue
		}
		ps := parts(a)
		if len(ps) == 0 || ps[0].op == OUnit || ps[0].op == OStr {
			seq = true
		}
	}
	if !seq {
		return nil, false
	}
	if ts := resTypes(s.fn); len(ts) == 1 && sortOf(ts[0]) == SBool {
		return []Ret{{st, []*Term{ex.boolOf(st, s.fn, args)}}}, true
	}
	return ex.callBody(st, s.fn, args, nil), true
}

// goal proves a boolean specification function at the end of a path.
func (ex *Exec) goal(s *State, f *SpecFn, args []*Term, kind string, res *UnitResult) {
	s2 := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: s.pc, rules: s.rules}
	ex.keepRets = true
	rets := ex.callBody(s2, f.fn, args, nil)
	res.Paths += len(rets)
	for _, r := range rets {
		if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
			res.Feasible = true
		}
		g := r.vals[0]
		ok := proveGoal(r.st.pc, g) || proveRewritten(r.st, g)
		d := ""
		if !ok {
			d = "cannot prove " + g.String()
		}
		ex.record(r.st, kind, f.name, ok, d)
	}
}

// proveRewritten proves a goal after replacing what the facts give a value.
func proveRewritten(st *State, g *Term) bool {
	fs := st.facts()
	for range 12 {
		was := g
		var rules [][2]*Term
		for _, f := range fs {
			if f.op == OOr {
				f = onlyCase(st, f)
			}
			if l, r := oriented(f); l != nil {
				rules = append(rules, [2]*Term{l, r})
			}
			if f.op == OEq && f.args[1].op == OLen && f.args[0] == Int(0) && f.args[1].args[0].op == OSym {
				x := f.args[1].args[0]
				rules = append(rules, [2]*Term{x, Empty})
			}
		}
		if sameBy(g, rules) {
			return true
		}
		for _, u := range rules {
			f := func(x *Term) *Term {
				if x == u[0] {
					return u[1]
				}
				return nil
			}
			g = mapTerm(g, map[*Term]*Term{}, f)
			if u[0].sort == SInt {
				for i, x := range fs {
					if l, _ := oriented(x); l != u[0] {
						fs[i] = mapTerm(x, map[*Term]*Term{}, f)
					}
				}
			}
		}
		if g == was {
			break
		}
		s := newState()
		for _, f := range fs {
			s.axiom(f)
		}
		if s.dead || proveGoal(s.pc, g) {
			return true
		}
	}
	return false
}

// sameBy reports an equation whose sides the rules make the same.
func sameBy(g *Term, rules [][2]*Term) bool {
	if g.op != OEq {
		return false
	}
	class := map[*Term]bool{g.args[0]: true}
	for n := 0; n < len(class); {
		n = len(class)
		for _, r := range rules {
			if class[r[0]] || class[r[1]] {
				class[r[0]], class[r[1]] = true, true
			}
		}
	}
	return class[g.args[1]]
}

// onlyCase gives the alternative of a fact which holds, if the others cannot.
func onlyCase(st *State, f *Term) *Term {
	var left *Term
	for _, a := range f.args {
		if quick(st.pc, a) == -1 || solver.valid(st.facts(), Not(a)) {
			continue
		}
		if left != nil {
			return f
		}
		left = a
	}
	if left == nil {
		return f
	}
	return left
}

// oriented makes a rewriting rule of a fact.
func oriented(f *Term) (l, r *Term) {
	if f.op != OEq {
		return nil, nil
	}
	a, b := f.args[0], f.args[1]
	if a.sort == SInt {
		if b.op == OLin && len(b.args) == 1 && (b.coefs[0] == 1 || b.coefs[0] == -1) && b.args[0].op == OApp {
			return b.args[0], Sub(b.args[0], Mul(Int(b.coefs[0]), b))
		}
		if b.op == OApp {
			return b, Int(0)
		}
		return nil, nil
	}
	if a.sort != SSeq {
		return nil, nil
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if s := resultOf(p[0]); s != nil && s.recursive && !hasTerm(p[1], p[0]) {
			if t := resultOf(p[1]); t != nil && size(p[1]) >= size(p[0]) {
				continue
			}
			return p[0], p[1]
		}
	}
	return nil, nil
}

func hasTerm(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if hasTerm(a, x) {
			return true
		}
	}
	return false
}

func size(t *Term) int {
	n := 1
	for _, a := range t.args {
		n += size(a)
	}
	return n
}

// verifyLine proves the statement about the text of a specification function.
// Applications of the function itself count as already treated: its recursion
// is well founded, which its own unit proves.
func verifyLine(f *SpecFn) (res UnitResult) {
	res.Unit, res.Kind = "line:"+f.name, "line"
	ex := newExec(res.Unit)
	resetUnit()
	defer ex.finish(&res)
	ex.mode, ex.line = mFork, f
	for _, args := range arguments(f.fn, lineOf(f).opts["induct"]) {
		st := newState()
		many, q := freshSort("many", SBool), freshSort("place", SInt)
		states := []*State{st}
		if h := specByName[f.name+"_hint"]; h != nil {
			states = nil
			ex.keepRets = true
			for _, r := range ex.callBody(st, h.fn, args, nil) {
				states = append(states, r.st)
			}
		}
		for _, s := range states {
			ex.keepRets = true
			s2 := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: s.pc}
			if as := specByName[lineOf(f).opts["as"]]; as != nil {
				r := as.apps(args)[0]
				ex.record(s2, "line", f.name, proveGoal(s2.pc, Eq(f.apps(args)[0], r)), "not the text of "+as.name)
				ex.open = true
				ex.goal(s2, lineOf(f), append(append([]*Term{}, args...), many, q, r), "line", &res)
				ex.open = false
				continue
			}
			for _, r := range ex.callBody(s2, f.fn, args, nil) {
				as := append(append([]*Term{}, args...), many, q, r.st.freeze(r.vals[0]))
				ex.open = true
				ex.goal(r.st, lineOf(f), as, "line", &res)
				ex.open = false
			}
		}
	}
	return
}

// lineCall evaluates a call of a specification function in a line unit.
func (ex *Exec) lineCall(st *State, s *SpecFn, args []*Term) ([]Ret, bool) {
	switch {
	case s.name == "vRun":
		return []Ret{{st, []*Term{ex.runLine(st, args[0], args[1], args[2])}}}, true
	case lineOf(s) != nil:
		return []Ret{{st, s.apps(args)}}, true
	case strings.HasPrefix(s.name, "vVal") && !s.recursive && s.contract != nil:
		if strings.TrimPrefix(s.name, "vVal") == strings.TrimPrefix(ex.line.name, "vEnc") && ex.open {
			return nil, false
		}
		part := strings.HasPrefix(s.contract.key, "Prop")
		for _, n := range strings.Fields(sections + " " + alarms) {
			part = part || s.name == "vVal"+n
		}
		if part {
			return []Ret{{st, s.apps(args)}}, true
		}
		return ex.callBody(st, s.fn, args, nil), true
	}
	return nil, false
}

// runLine goes through a text part by part (lemma RunSplit).
func (ex *Exec) runLine(st *State, many, q, r *Term) *Term {
	for _, p := range parts(r) {
		switch {
		case p.op == OStr:
			for i := range len(p.name) {
				q = ex.stepLine(st, many, q, Int(int64(p.name[i])))
			}
		case p.op == OUnit:
			q = ex.stepLine(st, many, q, p.args[0])
		case p.op == OIte:
			q = ex.runEither(st, many, q, p)
		default:
			v := App("vRun#0", SInt, intType, many, q, p)
			if !ex.inFact {
				open := ex.open
				ex.inFact, ex.open = true, false
				ex.partFacts(st, many, q, p, v)
				ex.inFact, ex.open = false, open
			}
			q = ex.simplify(st, v)
		}
	}
	return q
}

// runEither goes through one of two texts.
func (ex *Exec) runEither(st *State, many, q, p *Term) *Term {
	var v [2]*Term
	for i, c := range []*Term{p.args[0], Not(p.args[0])} {
		s := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: st.pc}
		s.assume(c)
		if d := quick(st.pc, c); s.dead || d == -1 || d == 0 && solver.valid(st.facts(), Not(c)) {
			continue
		}
		v[i] = ex.runLine(s, many, ex.simplify(s, q), p.args[1+i])
		for _, f := range extras(s.pc, st.pc) {
			st.axiom(Implies(c, f))
		}
	}
	switch {
	case v[0] == nil && v[1] == nil:
		return Int(-1)
	case v[0] == nil:
		return v[1]
	case v[1] == nil:
		return v[0]
	}
	return ex.simplify(st, Ite(p.args[0], v[0], v[1]))
}

func (ex *Exec) partFacts(st *State, many, q, p, v *Term) {
	if s := specNamed(p); s != nil && lineOf(s) != nil {
		ex.ensures(st, lineOf(s), append(append([]*Term{}, p.args...), many, q, p))
		return
	}
	stays := Implies(Eq(q, Int(7)), Eq(v, Int(7)))
	switch p.name {
	case "base64.Encode", "(time.Time).Format", "strconv.FormatFloat":
		usedExterns[p.name+" writes no control characters"] = true
		st.axiom(stays)
	case "utf8.enc":
		st.axiom(Implies(Le(Int(0x80), p.args[0]), stays))
	default:
		usedLemmas["vLemmaRunFree"] = true
		ex.ensures(st, specByName["vLemmaRunFree"], []*Term{many, q, p})
	}
}

func (ex *Exec) stepLine(st *State, many, q, c *Term) *Term {
	s2 := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: st.pc}
	rets := ex.callBody(s2, specByName["vStep"].fn, []*Term{many, q, c}, nil)
	if len(rets) == 0 {
		return Int(-1)
	}
	v := rets[len(rets)-1].vals[0]
	for i := len(rets) - 2; i >= 0; i-- {
		v = Ite(And(extras(rets[i].st.pc, st.pc)...), rets[i].vals[0], v)
	}
	return ex.simplify(st, v)
}

// simplify replaces a place by the only value it can have.
func (ex *Exec) simplify(st *State, t *Term) *Term {
	if t.op == OInt {
		return t
	}
	for _, v := range []*Term{Int(9), Int(7)} {
		if quick(st.pc, Eq(t, v)) == 1 {
			return v
		}
	}
	if t.op != OIte {
		return t
	}
	switch st.decide(t.args[0]) {
	case 1:
		return ex.simplify(st, t.args[1])
	case -1:
		return ex.simplify(st, t.args[2])
	}
	seen := map[*Term]bool{}
	var walk func(x *Term) *Term
	walk = func(x *Term) *Term {
		if x.op == OIte {
			if v := walk(x.args[1]); v != nil {
				return v
			}
			return walk(x.args[2])
		}
		if x.op != OInt || seen[x] {
			return nil
		}
		seen[x] = true
		if solver.valid(st.facts(), Eq(t, x)) {
			return x
		}
		return nil
	}
	if v := walk(t); v != nil {
		return v
	}
	return t
}

// lineHas expresses strings.ContainsAny by the classes of characters which
// matter for a line.
func (ex *Exec) lineHas(st *State, s *Term, set string) (*Term, bool) {
	c, _ := constStr(specConst("vControls"))
	out := False
	for _, class := range []string{c, "\n", "\"", ",:;"} {
		n := 0
		for _, r := range class {
			if strings.ContainsRune(set, r) {
				n++
			}
		}
		if n == 0 {
			continue
		}
		if n != len(class) {
			return nil, false
		}
		set = strings.Map(func(r rune) rune {
			if strings.ContainsRune(class, r) {
				return -1
			}
			return r
		}, set)
		if class == ",:;" {
			class = ";:,"
		}
		out = Or(out, ex.evalApp(st, specByName["vHas"], []*Term{s, Str(class)})[0])
	}
	return out, set == ""
}

func specConst(n string) *Term {
	c := icsPkg.Members[n].(*ssa.NamedConst)
	return constTerm(c.Value)
}

var _ = types.Typ

// verifyAlt verifies a function against another form of its specification,
// which a lemma proves to be the same.
func verifyAlt(c *Contract, alt *SpecFn) UnitResult {
	c2 := *c
	c2.spec = alt
	contracts[c.key], alt.contract = &c2, &c2
	r := verifyContract(&c2)
	contracts[c.key], alt.contract = c, nil
	if !r.ok() {
		return r
	}
	var same UnitResult
	func() {
		ex := newExec(c.key)
		resetUnit()
		defer ex.finish(&same)
		ex.mode = mFork
		st := newState()
		args := arguments(alt.fn, "")[0]
		ex.ensures(st, specByName["vLemma"+alt.opts["by"]], args)
		if g := specByName[alt.opts["given"]]; g != nil {
			st.assume(g.apps(args)[0])
			usedExterns["texts given to "+c.key+" satisfy "+g.name+" (needed by the form of the specification used, "+alt.name+")"] = true
		}
		var v [2][]*Term
		for i, s := range []*SpecFn{c.spec, alt} {
			s2 := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: st.pc}
			v[i] = s.apps(args)
			if !s.recursive {
				rs := ex.callBody(s2, s.fn, args, nil)
				if len(rs) != 1 {
					panic(giveUp{s.name + " does not give one value"})
				}
				v[i] = rs[0].vals
			}
		}
		for i := range v[0] {
			ok := proveGoal(st.pc, Eq(v[0][i], v[1][i])) || solver.valid(st.facts(), Eq(v[0][i], v[1][i]))
			ex.record(st, "same-specification", alt.name, ok, "the lemma does not give this")
		}
	}()
	same.Feasible = true
	r.Obls = append(r.Obls, same.Obls...)
	if same.Error != "" {
		r.Error = same.Error
	}
	r.Used = append(r.Used, alt.name)
	r.Externs = append(r.Externs, same.Externs...)
	return r
}

// octets finds the specification function which replaces single octets in the
// way of a strings.Replacer.
func (ex *Exec) octets(r *Term) *SpecFn {
	if r.op != OApp || r.name != "replacer" || len(r.args)%2 != 0 {
		return nil
	}
	table := map[byte]string{}
	for i := 0; i < len(r.args); i += 2 {
		o, ok := constStr(r.args[i])
		n, ok2 := constStr(r.args[i+1])
		if !ok || !ok2 || len(o) != 1 {
			return nil
		}
		if _, ok := table[o[0]]; !ok {
			table[o[0]] = n
		}
	}
	for _, s := range specOrder {
		if s.octets && ex.replaces(s, table) {
			return s
		}
	}
	return nil
}

// replaces reports whether a specification function replaces every octet by
// its entry in the table and keeps the others.
func (ex *Exec) replaces(s *SpecFn, table map[byte]string) bool {
	save := ex.mode
	ex.mode = mFork
	defer func() { ex.mode = save }()
	eval := func(x *Term) *Term {
		rs := ex.callBody(newState(), s.fn, []*Term{x}, nil)
		if len(rs) != 1 {
			return nil
		}
		return rs[0].st.freeze(rs[0].vals[0])
	}
	if eval(Empty) != Empty {
		return false
	}
	rest := freshSort("rest", SSeq)
	for c := range 256 {
		n, ok := table[byte(c)]
		if !ok {
			n = string([]byte{byte(c)})
		}
		if eval(Concat(Str(string([]byte{byte(c)})), rest)) != Concat(Str(n), s.apps([]*Term{rest})[0]) {
			return false
		}
	}
	return true
}
