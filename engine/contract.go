package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	phraseType types.Type
	tokenType  types.Type
	tokStruct  *types.Struct
)

func initTypes() {
	phraseType = parPkg.Pkg.Scope().Lookup("Phrase").Type()
	tokenType = parPkg.Pkg.Scope().Lookup("Token").Type()
	tokStruct = types.NewStruct([]*types.Var{
		types.NewField(0, nil, "consumed", stringType, false),
		types.NewField(0, nil, "rest", stringType, false),
	}, nil)
	initStreams()
}

// ---- specification functions

func resTypes(f *ssa.Function) []types.Type {
	var ts []types.Type
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		ts = append(ts, r.At(i).Type())
	}
	return ts
}

func (s *SpecFn) apps(args []*Term) []*Term {
	var out []*Term
	for i, t := range resTypes(s.fn) {
		out = append(out, App(fmt.Sprintf("%s#%d", s.name, i), sortOf(t), t, args...))
	}
	return out
}

type unfoldKey struct {
	s     *SpecFn
	args  string
	pc    *PC
	rules *Rule
}

type unfoldRes struct {
	vals []*Term
	ok   bool
}

var (
	unfoldMemo  = map[unfoldKey]unfoldRes{}
	unfoldDepth int
	unfoldCount int
)

func argKey(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	return b.String()
}

func sameArgs(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// prefixed puts the accumulated part in front of a result component.
func prefixed(pre, v *Term, t types.Type) *Term {
	if pre == nil {
		return v
	}
	if sortOf(t) == SSeq {
		return Concat(pre, v)
	}
	return Sl(And(Eq(Len(pre), Int(0)), SlNil(v)), Concat(pre, SlSeq(v)))
}

// evalApp evaluates an application of a recursive or contract function.
func (ex *Exec) evalApp(st *State, s *SpecFn, args []*Term) []*Term {
	if s.name == "vAcceptN" || s.name == "vExceptN" {
		// only the members of the set matter
		if set, ok := asciiStr(args[1]); ok {
			args = []*Term{args[0], Str(charSet(set))}
		}
	}
	undecided := false
	for r := st.rules; r != nil; r = r.up {
		if r.fn == s && sameArgs(r.fromArgs, args) {
			if r.guard != nil {
				switch st.decide(r.guard) {
				case -1:
					continue
				case 0:
					undecided = true
					vs := r.vals
					if vs == nil {
						vs = s.apps(r.args)
						for i, t := range resTypes(s.fn) {
							vs[i] = prefixed(r.pre[i], vs[i], t)
						}
					}
					for i, a := range s.apps(args) {
						st.axiom(Implies(r.guard, Eq(a, vs[i])))
					}
					continue
				}
			}
			if undecided {
				break
			}
			if r.vals != nil {
				return r.vals
			}
			vs := ex.evalApp(st, s, r.args)
			ts := resTypes(s.fn)
			out := make([]*Term, len(vs))
			for i := range vs {
				out[i] = prefixed(r.pre[i], vs[i], ts[i])
			}
			return out
		}
	}
	if undecided {
		ex.appFacts(st, s, args)
		return s.apps(args)
	}
	if s.contract != nil && s.contract.opts["expand"] != "" && !s.recursive {
		save := ex.mode
		ex.mode = mFork
		defer func() { ex.mode = save }()
		s2 := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: st.pc, rules: st.rules}
		rets := ex.callBody(s2, s.fn, args, nil)
		if len(rets) == 1 {
			vs := make([]*Term, len(rets[0].vals))
			for i, v := range rets[0].vals {
				vs[i] = rets[0].st.freeze(v)
			}
			st.pc = rets[0].st.pc
			return vs
		}
	}
	if s.opaque || s.contract != nil && !(s.recursive && ex.isRoot(s)) {
		ex.appFacts(st, s, args)
		return s.apps(args)
	}
	if ex.collect && s.recursive {
		t := s.apps(args)[0]
		if _, ok := ex.stuck[t]; !ok {
			ex.stuck[t] = appUse{s, args}
			ex.stuckOrder = append(ex.stuckOrder, t)
		}
	}
	k := unfoldKey{s, argKey(args), st.pc, st.rules}
	memo := unfoldMemo
	if ex.collect {
		memo = ex.collectMemo
	}
	r, ok := memo[k]
	if !ok {
		r = ex.tryUnfold(st, s, args)
		if !r.ok && ex.collect && s.recursive && counts(s) {
			r = ex.tryBase(st, s, args)
		}
		memo[k] = r
	}
	if r.ok {
		return r.vals
	}
	ex.appFacts(st, s, args)
	return s.apps(args)
}

func (ex *Exec) isRoot(s *SpecFn) bool {
	for _, r := range ex.roots {
		if r.fn == s {
			return true
		}
	}
	return false
}

func (ex *Exec) tryUnfold(st *State, s *SpecFn, args []*Term) (res unfoldRes) {
	if unfoldDepth > 70 {
		return
	}
	unfoldCount++
	saveMode, saveFn, saveStack := ex.mode, ex.decFn, len(ex.stack)
	unfoldDepth++
	defer func() {
		ex.mode, ex.decFn = saveMode, saveFn
		ex.stack = ex.stack[:saveStack]
		unfoldDepth--
		if r := recover(); r != nil {
			if _, ok := r.(stuckErr); ok {
				res = unfoldRes{}
				return
			}
			panic(r)
		}
	}()
	ex.mode, ex.decFn = mDecide, s.fn
	s2 := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: st.pc, rules: st.rules}
	rets := ex.callBody(s2, s.fn, args, nil)
	if len(rets) != 1 {
		return
	}
	vs := make([]*Term, len(rets[0].vals))
	for i, v := range rets[0].vals {
		vs[i] = rets[0].st.freeze(v)
	}
	return unfoldRes{vs, true}
}

// counts reports a function which gives nothing but integers.
func counts(s *SpecFn) bool {
	for _, t := range resTypes(s.fn) {
		if sortOf(t) != SInt {
			return false
		}
	}
	return true
}

// tryBase evaluates an application whose paths may differ but of which none
// comes to a further application of the same function.
func (ex *Exec) tryBase(st *State, s *SpecFn, args []*Term) (res unfoldRes) {
	if ex.noRec != nil || unfoldDepth > 20 {
		return
	}
	saveMode, saveStack := ex.mode, len(ex.stack)
	ex.noRec = s
	defer func() {
		ex.mode, ex.noRec = saveMode, nil
		ex.stack = ex.stack[:saveStack]
		if r := recover(); r != nil {
			if _, ok := r.(stuckErr); ok {
				res = unfoldRes{}
				return
			}
			panic(r)
		}
	}()
	ex.mode = mFork
	s2 := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: st.pc, rules: st.rules}
	rets := ex.callBody(s2, s.fn, args, nil)
	if len(rets) != 1 {
		return
	}
	vs := make([]*Term, len(rets[0].vals))
	for i, v := range rets[0].vals {
		vs[i] = rets[0].st.freeze(v)
	}
	return unfoldRes{vs, true}
}

func (ex *Exec) callSpec(st *State, in *ssa.Call, s *SpecFn, args []*Term) []Ret {
	if ex.mode == mCode {
		panic(giveUp{"code calls specification " + s.name})
	}
	fa := make([]*Term, len(args))
	for i, a := range args {
		fa[i] = st.freeze(a)
		if sl, ok := s.fn.Params[i].Type().(*types.Slice); ok && types.Identical(sl.Elem(), phraseType) {
			// specifications take lines without regard to being nil
			fa[i] = Sl(False, SlSeq(fa[i]))
		}
	}
	if rs, ok := ex.intrinsic(st, s, fa); ok {
		return rs
	}
	if s.lemma {
		ex.useLemma(st, in, s, fa)
		return []Ret{{st, []*Term{True}}}
	}
	if opens(in) {
		return ex.openSpec(st, s, fa)
	}
	if ex.sets && s.name == "vIn" {
		if set, ok := constStr(fa[1]); ok {
			return []Ret{{st, []*Term{inSet(fa[0], set)}}}
		}
	}
	if ex.line != nil {
		if rs, ok := ex.lineCall(st, s, fa); ok {
			return rs
		}
	}
	if u := ex.specUnit; u != nil && u.lemma && u.opts["closed"] == s.name {
		return []Ret{{st, s.apps(fa)}}
	}
	if s.recursive && (ex.line != nil || ex.specUnit != nil && ex.specUnit.lemma) {
		if rs, ok := ex.structural(st, s, fa); ok {
			return rs
		}
	}
	if s.recursive && s == ex.noRec {
		if solver.check(st.facts()) == resUnsat {
			return nil
		}
		panic(stuckErr{})
	}
	if s.recursive || s.contract != nil || s.opaque {
		if ex.open && s.contract != nil && !s.recursive {
			ex.open = false
			rs := ex.callBody(st, s.fn, fa, nil)
			ex.open = true
			return rs
		}
		if s.recursive && ex.mode != mCode {
			ex.specTermination(st, in, s, fa)
		}
		if ex.mode == mFork && !ex.collect && st.ruled(s, fa) && len(ex.stack) < 12 {
			return ex.forkSpec(st, s, fa)
		}
		return []Ret{{st, ex.evalApp(st, s, fa)}}
	}
	return ex.callBody(st, s.fn, fa, nil)
}

// specTermination notes the arguments which a recursive call inside a
// specification function makes smaller.
func (ex *Exec) specTermination(st *State, in *ssa.Call, s *SpecFn, args []*Term) {
	caller := in.Parent()
	if ex.specUnit != s || specOf[caller] != s {
		return
	}
	set := map[int]bool{}
	for i, p := range caller.Params {
		v, ok := st.regs[p]
		a := args[i]
		if !ok || a == v {
			continue
		}
		if was, ok := ex.decr[in]; ok && !was[i] {
			continue
		}
		var m0, m1 *Term
		switch {
		case v.sort == SSeq:
			m0, m1 = Len(v), Len(a)
		case isSlice(p.Type()):
			m0, m1 = Len(SlSeq(v)), Len(SlSeq(a))
		case v.sort == SInt:
			if quick(st.pc, Le(Int(0), a)) != 1 && !solver.valid(st.facts(), Le(Int(0), a)) {
				continue
			}
			m0, m1 = v, a
		default:
			continue
		}
		g := Lt(m1, m0)
		if quick(st.pc, g) == 1 || solver.valid(st.facts(), g) {
			set[i] = true
		}
	}
	ex.decr[in] = set
}

// specMeasure checks that one argument decreases at every recursive call.
func (ex *Exec) specMeasure(st *State, f *SpecFn) {
	ok := len(ex.decr) == 0
	for i := range f.fn.Params {
		all := true
		for _, s := range ex.decr {
			all = all && s[i]
		}
		ok = ok || all
	}
	ex.record(st, "spec-termination", f.name, ok, "no argument of "+f.name+" is shown to become smaller at every recursive call")
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// appFacts adds facts known about the results of a specification function.
func (ex *Exec) appFacts(st *State, s *SpecFn, args []*Term) {
	apps := s.apps(args)
	if f := specByName[s.name+"_ensures"]; f != nil {
		ex.ensures(st, f, append(append([]*Term{}, args...), apps...))
	}
}

func (ex *Exec) ensures(st *State, f *SpecFn, args []*Term) {
	st.axiom(ex.boolOf(st, f.fn, args))
}

// boolOf evaluates a boolean specification function to one term.
func (ex *Exec) boolOf(st *State, f *ssa.Function, args []*Term) *Term {
	save := ex.mode
	ex.mode = mFork
	defer func() { ex.mode = save }()
	s2 := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: st.pc, rules: st.rules}
	rets := ex.callBody(s2, f, args, nil)
	if len(rets) != 1 {
		panic(giveUp{"predicate " + f.Name() + " does not give one value"})
	}
	return rets[0].vals[0]
}

// evalRoot evaluates a specification with forking.
func (ex *Exec) evalRoot(st *State, r Root) []Ret {
	save, saveDry := ex.mode, ex.decFn
	ex.mode = mFork
	defer func() { ex.mode, ex.decFn = save, saveDry }()
	s2 := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: st.pc, rules: st.rules}
	rets := ex.forkSpec(s2, r.fn, r.args)
	for i := range rets {
		for j, v := range rets[i].vals {
			rets[i].vals[j] = rets[i].st.freeze(v)
		}
	}
	return rets
}

// forkSpec applies the rules of the enclosing loops to an application and
// evaluates what remains, forking on undecided conditions.
func (ex *Exec) forkSpec(st *State, s *SpecFn, args []*Term) []Ret {
	var pres [][]*Term
	for again := true; again; {
		again = false
		for r := st.rules; r != nil; r = r.up {
			if r.fn == s && sameArgs(r.fromArgs, args) && (r.vals != nil || !sameArgs(r.args, args)) {
				if r.guard != nil && st.decide(r.guard) != 1 {
					continue
				}
				if r.vals != nil {
					vs := append([]*Term{}, r.vals...)
					ts := resTypes(s.fn)
					for k := len(pres) - 1; k >= 0; k-- {
						for j := range vs {
							vs[j] = prefixed(pres[k][j], vs[j], ts[j])
						}
					}
					return []Ret{{st, vs}}
				}
				pres = append(pres, r.pre)
				args = r.args
				again = true
				break
			}
		}
	}
	ex.keepRets = true
	rets := ex.callBody(st, s.fn, args, nil)
	ts := resTypes(s.fn)
	for i := range rets {
		vs := append([]*Term{}, rets[i].vals...)
		for k := len(pres) - 1; k >= 0; k-- {
			for j := range vs {
				vs[j] = prefixed(pres[k][j], rets[i].st.freeze(vs[j]), ts[j])
			}
		}
		rets[i].vals = vs
	}
	return rets
}

// decide settles a condition: 1 true, -1 false, 0 unknown.
func (st *State) decide(c *Term) int {
	if d := quick(st.pc, c); d != 0 {
		return d
	}
	f := st.facts()
	if solver.valid(f, c) {
		return 1
	}
	if solver.valid(f, Not(c)) {
		return -1
	}
	return 0
}

// advances reports a parameter which differs in every recursive call, and
// which can so be what bounds the recursion.
func (s *SpecFn) advances(i int) bool {
	if s.adv == nil {
		s.adv = make([]bool, len(s.fn.Params))
		for k, p := range s.fn.Params {
			b, isB := p.Type().Underlying().(*types.Basic)
			s.adv[k] = isSeqLike(p.Type()) || isB && b.Info()&types.IsInteger != 0
		}
		for _, b := range s.fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != s.fn {
					continue
				}
				for k, a := range c.Call.Args {
					if a == s.fn.Params[k] {
						s.adv[k] = false
					}
				}
			}
		}
	}
	return s.adv[i]
}

// resolve evaluates a relation left behind by a loop as far as the path
// decides it.
func (ex *Exec) resolve(st *State, r *Rule) *Rule {
	n := *r
	if n.vals != nil || st.dead {
		return &n
	}
	save := ex.mode
	ex.mode = mFork
	ex.dry++
	vals := func() (vs []*Term) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stuckErr); !ok {
					panic(e)
				}
				vs = nil
			}
		}()
		return ex.evalApp(st, r.fn, r.fromArgs)
	}()
	ex.dry--
	ex.mode = save
	for _, v := range vals {
		if applies(v, r.fn) {
			return &n
		}
	}
	n.vals = vals
	return &n
}

// applies reports a use of the function inside a term.
func applies(t *Term, f *SpecFn) bool {
	pre := f.name + "#"
	seen := map[*Term]bool{}
	var walk func(*Term) bool
	walk = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x.op == OApp && strings.HasPrefix(x.name, pre) {
			return true
		}
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// mergeRules joins the relations known on two paths.
func (ex *Exec) mergeRules(a, b *State, c *Term) *Rule {
	if a.rules == b.rules {
		return a.rules
	}
	in := map[*Rule]bool{}
	for r := a.rules; r != nil; r = r.up {
		in[r] = true
	}
	t := b.rules
	for t != nil && !in[t] {
		t = t.up
	}
	out := t
	add := func(st *State, c *Term) {
		var l []*Rule
		for r := st.rules; r != t; r = r.up {
			l = append(l, r)
		}
		for i := len(l) - 1; i >= 0; i-- {
			n := ex.resolve(st, l[i])
			n.guard = c
			if l[i].guard != nil {
				n.guard = And(c, l[i].guard)
			}
			n.up = out
			out = n
		}
	}
	add(a, c)
	add(b, Not(c))
	return out
}

// ruled reports an application to which the rule of a loop applies.
func (st *State) ruled(s *SpecFn, args []*Term) bool {
	for r := st.rules; r != nil; r = r.up {
		if r.fn == s && sameArgs(r.fromArgs, args) && r.vals == nil && !sameArgs(r.args, args) {
			return true
		}
	}
	return false
}

// ---- contract application

func (ex *Exec) recvValue(st *State, f *ssa.Function, a *Term) *Term {
	if _, ok := f.Params[0].Type().(*types.Pointer); ok {
		return st.freeze(st.load(a, f.Params[0].Type().(*types.Pointer).Elem()))
	}
	return st.freeze(a)
}

func (ex *Exec) checkRequires(st *State, in ssa.Instruction, c *Contract, args []*Term) {
	if c.spec.requires != nil {
		g := ex.boolOf(st, c.spec.requires, args)
		if st.elementHas(g) {
			ex.record(st, "requires:"+c.key, ex.where(in), true, "")
			return
		}
		ex.oblige(st, "requires:"+c.key, in, g)
	}
}

// narrow holds the functions whose contract is only known for receivers which
// are valid, when they are written, or fresh, when they are read into.
var narrow = map[string]bool{}

// validOf finds the specification of validity of what a function writes.
func validOf(c *Contract) *SpecFn {
	t, _, ok := strings.Cut(c.key, ".")
	if v := contracts[t+".valid"]; ok && c.kind == "enc" && v != nil && v.spec != nil {
		return v.spec
	}
	return nil
}

// checkNarrow shows that a receiver is as a narrowed contract needs it.
func (ex *Exec) checkNarrow(st *State, in ssa.Instruction, c *Contract, args []*Term) {
	if !narrow[c.key] || st.dead {
		return
	}
	if c.kind != "enc" {
		ex.oblige(st, "requires:"+c.key, in, Eq(args[0], zeroOf(c.spec.fn.Params[0].Type())))
		return
	}
	v := validOf(c)
	if v == nil {
		ex.oblige(st, "requires:"+c.key, in, False)
		return
	}
	g := v.apps(args[:1])[0]
	if st.elementHas(g) {
		ex.record(st, "requires:"+c.key, ex.where(in), true, "")
		return
	}
	ex.oblige(st, "requires:"+c.key, in, g)
}

// listPred reports a predicate which holds of a list when something holds of
// its first element and the predicate holds of the others.
func (ex *Exec) listPred(f *SpecFn) bool {
	if !f.recursive || len(f.fn.Params) != 1 {
		return false
	}
	if _, ok := f.fn.Params[0].Type().Underlying().(*types.Slice); !ok {
		return false
	}
	if r := resTypes(f.fn); len(r) != 1 || !isBool(r[0]) {
		return false
	}
	if ok, done := listPreds[f]; done {
		return ok
	}
	listPreds[f] = false
	st := newState()
	l := SlSeq(fresh("list", f.fn.Params[0].Type()))
	st.assume(Le(Int(1), Len(l)))
	b := ex.boolOf(st, f.fn, []*Term{Sl(False, l)})
	rest := f.apps([]*Term{Sl(False, Slice(l, Int(1), Len(l)))})[0]
	listPreds[f] = solver.valid(append(st.facts(), b), rest)
	return listPreds[f]
}

var listPreds = map[*SpecFn]bool{}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// elementFacts adds what is known of an element of a list.
func (ex *Exec) elementFacts(st *State, l, i *Term) {
	var fs []*SpecFn
	for q := st.pc; q != nil; q = q.up {
		if t := q.t; t.op == OApp && len(t.args) == 1 && t.sort == SBool {
			if f := specByName[strings.TrimSuffix(t.name, "#0")]; f != nil && t.args[0].sort == l.sort && SlSeq(t.args[0]) == SlSeq(l) {
				fs = append(fs, f)
			}
		}
	}
	for _, f := range fs {
		if !ex.listPred(f) {
			continue
		}
		n := Len(SlSeq(l))
		st.axiom(ex.boolOf(st, f.fn, []*Term{Sl(False, Slice(SlSeq(l), i, n))}))
	}
}

// elementHas reports a predicate applied to an element of a list of which it
// is known to hold everywhere. The index has been checked where it is used.
func (st *State) elementHas(g *Term) bool {
	if g.op != OApp || len(g.args) != 1 || g.args[0].op != OAt {
		return false
	}
	for q := st.pc; q != nil; q = q.up {
		t := q.t
		if t.op != OApp || len(t.args) != 1 {
			continue
		}
		f := specByName[strings.TrimSuffix(t.name, "#0")]
		if f != nil && f.forall+"#0" == g.name && SlSeq(t.args[0]) == g.args[0].args[0] {
			return true
		}
	}
	return false
}

// expanded evaluates a precondition with the specifications it names opened up
// by one level.
func (ex *Exec) expanded(st *State, f *ssa.Function, args []*Term) *Term {
	ex.open = true
	defer func() { ex.open = false }()
	return ex.boolOf(st, f, args)
}

func ghostObj(t *Term, name string) *Obj {
	if t != nil && t.op == OIface && t.name == name && t.args[0].op == OAddr {
		return objOf(t.args[0])
	}
	return nil
}

// tokObj finds the ghost state of a parser.Tokeniser value.
func tokObj(t *Term) *Obj {
	if t == nil || t.op != OMk || len(t.args) != 3 {
		return nil
	}
	return ghostObj(t.args[0], "ghosttok")
}

// weak holds the functions whose contract did not hold in full; what they
// give is unknown, only that they return without failing is known.
var weak = map[string]bool{}

func (ex *Exec) contractApp(st *State, c *Contract, args []*Term) []*Term {
	if !weak[c.key] {
		return ex.evalApp(st, c.spec, args)
	}
	var out []*Term
	for _, t := range resTypes(c.spec.fn) {
		out = append(out, fresh("unknown", t))
	}
	return out
}

func (ex *Exec) applyContract(st *State, in *ssa.Call, c *Contract, args []*Term) []Ret {
	usedContracts[c.key]++
	f := c.fn
	nilDeref := func() {
		if _, ok := f.Params[0].Type().(*types.Pointer); ok {
			ex.oblige(st, "nil-deref", in, Not(IsNil(args[0])))
		}
	}
	switch c.kind {
	case "write":
		nilDeref()
		if st.dead {
			return nil
		}
		q := args[1]
		if q.sort != SSeq {
			q = st.freeze(st.seqOf(q))
		}
		return ex.applyWrite(st, in, c, args[0], q)
	case "enc":
		w := ghostObj(args[len(args)-1], "ghostwriter")
		wi := len(args) - 1
		if w == nil && len(args) > 1 {
			if w = ghostObj(args[0], "ghostwriter"); w != nil {
				wi = 0
			}
		}
		var fc *Contract
		var fr *Term
		if w == nil {
			if fc, fr = folderOf(args[wi]); fc == nil && len(args) > 1 {
				wi = 0
				fc, fr = folderOf(args[wi])
			}
		}
		if w == nil && fc == nil {
			ex.unsupported(st, in, "writer of "+c.key+" is not tracked")
			return nil
		}
		var sa []*Term
		for i, a := range args {
			if i == wi {
				continue
			}
			if i == 0 && f.Signature.Recv() != nil {
				nilDeref()
				sa = append(sa, ex.recvValue(st, f, a))
			} else {
				sa = append(sa, st.freeze(a))
			}
		}
		ex.checkRequires(st, in, c, sa)
		ex.checkNarrow(st, in, c, sa)
		if st.dead {
			return nil
		}
		v := ex.contractApp(st, c, sa)[0]
		if fc != nil {
			rs := ex.applyWrite(st, in, fc, fr, v)
			for i := range rs {
				rs[i].vals = nil
			}
			return rs
		}
		st.heap[w.id] = Concat(st.heap[w.id], v)
		return []Ret{{st, nil}}
	case "chk":
		nilDeref()
		v := ex.recvValue(st, f, args[0])
		ok := ex.contractApp(st, c, []*Term{v})[0]
		return []Ret{{st, []*Term{ErrT(ok)}}}
	case "dec", "decsec":
		nilDeref()
		if st.dead {
			return nil
		}
		recv := args[0]
		if recv.op != OAddr || objOf(recv).ro {
			ex.oblige(st, "frame", in, False)
			return nil
		}
		o := objOf(recv)
		old := st.freeze(st.load(recv, nil))
		sa := []*Term{old}
		var so *Obj
		for i, a := range args[1:] {
			if c.kind == "decsec" && i == 0 {
				so = ex.streamObj(st, a)
				if so == nil {
					ex.unsupported(st, in, "token stream of "+c.key+" is not tracked")
					return nil
				}
				sa = append(sa, Sl(False, ex.streamSeq(st, so)))
				continue
			}
			sa = append(sa, st.freeze(a))
		}
		ex.checkRequires(st, in, c, sa)
		ex.checkNarrow(st, in, c, sa)
		vs := ex.contractApp(st, c, sa)
		ok := vs[len(vs)-1]
		s2 := st.clone()
		var out []Ret
		st.assume(ok)
		if !st.dead {
			st.heap[o.id] = writePath(st.heap[o.id], o.typ, recv.args[1:], vs[0])
			if so != nil {
				ex.setStream(st, so, SlSeq(vs[1]))
				st.axiom(Le(Len(SlSeq(vs[1])), Len(SlSeq(sa[1]))))
			}
			out = append(out, Ret{st, []*Term{Nil}})
		}
		s2.assume(Not(ok))
		if !s2.dead {
			s2.heap[o.id] = writePath(s2.heap[o.id], o.typ, recv.args[1:], fresh("failed", f.Params[0].Type().(*types.Pointer).Elem()))
			if so != nil {
				r := fresh("rest", so.seqTyp())
				s2.axiom(Le(Len(r), Len(ex.streamSeq(s2, so))))
				ex.setStream(s2, so, r)
			}
			out = append(out, Ret{s2, []*Term{ErrT(False)}})
		}
		return out
	case "fun":
		var sa []*Term
		var tk, so *Obj
		for i, a := range args {
			pt := f.Params[i].Type()
			if isTokeniser(pt) {
				v := a
				if _, ok := pt.(*types.Pointer); ok {
					v = st.load(a, nil)
				}
				tk = tokObj(v)
				if tk == nil {
					ex.unsupported(st, in, "tokeniser of "+c.key+" is not tracked")
					return nil
				}
				cont := st.heap[tk.id]
				ex.oblige(st, "requires:"+c.key, in, Eq(Len(cont.args[0]), Int(0)))
				sa = append(sa, cont.args[1])
				continue
			}
			if isStream(pt) {
				so = ex.streamObj(st, a)
				if so == nil {
					ex.unsupported(st, in, "token stream of "+c.key+" is not tracked")
					return nil
				}
				sa = append(sa, Sl(False, ex.streamSeq(st, so)))
				continue
			}
			if i == 0 && f.Signature.Recv() != nil {
				nilDeref()
				sa = append(sa, ex.recvValue(st, f, a))
				continue
			}
			sa = append(sa, st.freeze(a))
		}
		ex.checkRequires(st, in, c, sa)
		if st.dead {
			return nil
		}
		vs := ex.contractApp(st, c, sa)
		var rv []*Term
		for i, t := range resTypes(f) {
			if isErrorType(t) {
				rv = append(rv, ErrT(vs[i]))
				continue
			}
			rv = append(rv, vs[i])
		}
		if tk != nil {
			st.heap[tk.id] = Mk(Empty, vs[len(vs)-1])
		}
		if so != nil {
			// on failure the position in the stream is unspecified
			last := vs[len(vs)-1]
			ok := True
			for i, t := range resTypes(f) {
				if isErrorType(t) {
					ok = vs[i]
				}
			}
			s2 := st.clone()
			st.assume(ok)
			var out []Ret
			if !st.dead {
				ex.setStream(st, so, SlSeq(last))
				st.axiom(Le(Len(SlSeq(last)), Len(SlSeq(sa[0]))))
				out = append(out, Ret{st, rv})
			}
			s2.assume(Not(ok))
			if !s2.dead {
				r := fresh("rest", so.seqTyp())
				s2.axiom(Le(Len(r), Len(ex.streamSeq(s2, so))))
				ex.setStream(s2, so, r)
				out = append(out, Ret{s2, rv})
			}
			return out
		}
		return []Ret{{st, rv}}
	}
	ex.unsupported(st, in, "contract kind "+c.kind)
	return nil
}

var usedContracts = map[string]int{}

func (o *Obj) seqTyp() types.Type {
	if o.kind == "stream" {
		return o.typ
	}
	return types.NewArray(phraseType, -1)
}

func isTokeniser(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == parPkg.Pkg && n.Obj().Name() == "Tokeniser"
}

// isStream recognises the interface through which sections read their lines.
func isStream(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok || i.NumMethods() != 1 {
		return false
	}
	return i.Method(0).Name() == "GetPhrase"
}

// streamObj finds the object holding the remaining lines: the ghost stream,
// or a concrete slice of phrases behind a pointer.
func (ex *Exec) streamObj(st *State, a *Term) *Obj {
	if o := ghostObj(a, "ghoststream"); o != nil {
		return o
	}
	if a.op == OIface {
		if o := ex.parserStream(st, nil, a.args[0]); o != nil {
			return o
		}
	}
	if a.op == OIface && a.args[0].op == OAddr && len(a.args[0].args) == 1 {
		o := objOf(a.args[0])
		if s, ok := o.typ.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), phraseType) {
			if ex.dry == 0 {
				ex.streamModel(st, a.name, o.typ)
				ok := ex.linesOK(st, ex.streamSeq(st, o))
				ex.record(st, "stream-lines", o.name, ok, "the lines handed on are not shown to have at least a name and a value")
			}
			return o
		}
	}
	return nil
}

// linesOK shows that every element has the shape of a content line.
func (ex *Exec) linesOK(st *State, s *Term) bool {
	for _, p := range parts(s) {
		switch {
		case ex.okLines[p] || p == Empty:
		case p.op == OUnit:
			if !ex.holds(st, ex.lineFacts(p.args[0])) {
				return false
			}
		case p.op == OSlice:
			if !ex.linesOK(st, p.args[0]) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// streamModel checks that a type through which lines are read gives them one
// after the other and then an error or the end.
func (ex *Exec) streamModel(st *State, name string, typ types.Type) {
	if ex.models[name] {
		return
	}
	if ex.models == nil {
		ex.models = map[string]bool{}
	}
	ex.models[name] = true
	t := typeByName(name)
	var f *ssa.Function
	if t != nil {
		f = prog.LookupMethod(t, icsPkg.Pkg, "GetPhrase")
	}
	if f == nil || len(f.Blocks) == 0 {
		ex.record(st, "stream-model", name, false, "no method GetPhrase")
		return
	}
	ex.noteInlined(f)
	s := newState()
	s.heap = copyMap(st.heap)
	o := newObj(typ, "", "lines")
	v := fresh("held", typ)
	s.heap[o.id] = v
	lines := SlSeq(v)
	none := Eq(Len(lines), Int(0))
	ex.keepRets = true
	rets := ex.callBody(s, f, []*Term{addrOf(o)}, nil)
	ok := len(rets) > 0
	for _, r := range rets {
		ph, err := r.st.freeze(r.vals[0]), r.vals[1]
		left := r.st.freeze(r.st.seqOf(r.st.heap[o.id]))
		ended := And(Not(IsNil(err)), Eq(left, lines))
		done := And(IsNil(err), Eq(Sel(ph, 0, 2, structOf(phraseType).Field(0).Type()), Int(-1)), Eq(left, lines))
		e, m := r.st.clone(), r.st.clone()
		e.assume(none)
		m.assume(Not(none))
		if !e.dead && !proveGoal(e.pc, Or(ended, done)) {
			ok = false
		}
		if !m.dead {
			for _, g := range []*Term{IsNil(err), Eq(ph, At(lines, Int(0), phraseType)), Eq(left, Slice(lines, Int(1), Len(lines)))} {
				ok = ok && proveGoal(m.pc, g)
			}
		}
	}
	ex.record(st, "stream-model", name, ok, "GetPhrase does not give the held lines in order")
}

func (ex *Exec) streamSeq(st *State, o *Obj) *Term {
	if o.kind == "stream" {
		return st.heap[o.id]
	}
	return st.freeze(st.seqOf(st.heap[o.id]))
}

func (ex *Exec) setStream(st *State, o *Obj, s *Term) {
	if o.kind == "stream" {
		st.heap[o.id] = s
		return
	}
	st.heap[o.id] = Sl(False, s)
}

// ---- verification of one function against its contract

type UnitResult struct {
	Unit     string       `json:"unit"`
	Kind     string       `json:"kind"`
	Obls     []Obligation `json:"obls"`
	Paths    int          `json:"paths"`
	Feasible bool         `json:"feasible"`
	Error    string       `json:"error,omitempty"`
	Inlined  []string     `json:"inlined,omitempty"`
	Used     []string     `json:"used,omitempty"`
	Externs  []string     `json:"externs,omitempty"`
	Missing  bool         `json:"missing,omitempty"`
	Narrow   bool         `json:"narrow,omitempty"` // holds for fresh or valid receivers
	Seconds  float64      `json:"seconds"`
	Queries  int          `json:"queries"`
	SMTms    int64        `json:"smtms"`
}

func newExec(unit string) *Exec {
	return &Exec{unit: unit, stuck: map[*Term]appUse{}}
}

func (ex *Exec) newWriter(st *State) (*Term, *Obj) {
	o := newObj(stringType, "writer", "writer")
	st.heap[o.id] = Empty
	return Iface("ghostwriter", addrOf(o)), o
}

func (ex *Exec) newTok(st *State, rest *Term) (*Term, *Obj) {
	o := newObj(tokStruct, "tok", "tokeniser")
	st.heap[o.id] = Mk(Empty, rest)
	return Mk(Iface("ghosttok", addrOf(o)), Nil, Nil), o
}

func (ex *Exec) newStream(st *State, lines *Term) (*Term, *Obj) {
	o := newObj(types.NewArray(phraseType, -1), "stream", "lines")
	st.heap[o.id] = lines
	return Iface("ghoststream", addrOf(o)), o
}

// verifySpec checks a specification function itself: that it is defined and
// terminates for all arguments and that the facts claimed about its results
// hold; those facts serve as the induction hypothesis at recursive calls.
func verifySpec(f *SpecFn) (res UnitResult) {
	res.Unit, res.Kind = "spec:"+f.name, "spec"
	ex := newExec(res.Unit)
	resetUnit()
	defer ex.finish(&res)
	st := newState()
	var args []*Term
	for _, p := range f.fn.Params {
		args = append(args, fresh(p.Name(), p.Type()))
	}
	ex.mode = mFork
	ex.specUnit, ex.decr = f, map[*ssa.Call]map[int]bool{}
	if f.requires != nil {
		st.assume(ex.boolOf(st, f.requires, args))
	}
	ex.keepRets = true
	rets := ex.callBody(st, f.fn, args, nil)
	res.Paths = len(rets)
	e := specByName[f.name+"_ensures"]
	for _, r := range rets {
		if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
			res.Feasible = true
		}
		if e == nil {
			continue
		}
		vs := append([]*Term{}, args...)
		for _, v := range r.vals {
			vs = append(vs, r.st.freeze(v))
		}
		g := ex.boolOf(r.st, e.fn, vs)
		ok := proveGoal(r.st.pc, g)
		d := ""
		if !ok {
			d = "cannot prove " + g.String()
		}
		ex.record(r.st, "ensures", f.name, ok, d)
	}
	ex.specMeasure(st, f)
	ex.record(st, "spec-defined", f.name, true, "")
	return
}

func resetUnit() {
	inlined = map[string]bool{}
	usedContracts = map[string]int{}
	usedExterns = map[string]bool{}
	unfoldMemo = map[unfoldKey]unfoldRes{}
	restoreSnapshot()
}

// finish completes the result of a unit.
func (ex *Exec) finish(res *UnitResult) {
	res.Obls = ex.obls
	if r := recover(); r != nil {
		switch r := r.(type) {
		case giveUp:
			res.Error = r.why
		case stuckErr:
			res.Error = "undecided condition: " + r.why
		default:
			if debug {
				panic(r)
			}
			res.Error = fmt.Sprint("internal: ", r)
		}
	}
	for k := range inlined {
		res.Inlined = append(res.Inlined, k)
	}
	for k := range usedContracts {
		res.Used = append(res.Used, k)
	}
	for k := range usedExterns {
		res.Externs = append(res.Externs, k)
	}
	sort.Strings(res.Inlined)
	sort.Strings(res.Used)
	sort.Strings(res.Externs)
}

func verifyContract(c *Contract) (res UnitResult) {
	res.Unit, res.Kind = c.key, c.kind
	ex := newExec(c.key)
	resetUnit()
	defer ex.finish(&res)
	if c.fn == nil {
		res.Missing = true
		return
	}
	f := c.fn
	if ex.verifyStream(c, &res) {
		return
	}
	st := newState()
	var args []*Term
	var wobj, robj, sobj, tobj *Obj
	var sa []*Term
	recvType := func() types.Type {
		t := f.Params[0].Type()
		if p, ok := t.(*types.Pointer); ok {
			return p.Elem()
		}
		return t
	}
	sym := func(name string, t types.Type) *Term { return fresh(name, t) }
	for i, p := range f.Params {
		t := p.Type()
		isRecv := i == 0 && f.Signature.Recv() != nil
		switch {
		case isRecv && (c.kind == "dec" || c.kind == "decsec"):
			robj = newObj(recvType(), "", "receiver")
			v := sym("recv", recvType())
			if narrow[c.key] {
				v = zeroOf(recvType())
			}
			st.heap[robj.id] = v
			args = append(args, addrOf(robj))
			sa = append(sa, v)
		case isRecv:
			v := sym("recv", recvType())
			if _, ok := t.(*types.Pointer); ok {
				args = append(args, Box(v))
			} else {
				args = append(args, v)
			}
			sa = append(sa, v)
		case c.kind == "enc" && isWriter(t):
			var a *Term
			a, wobj = ex.newWriter(st)
			args = append(args, a)
		case isTokeniser(t):
			rest := sym("text", stringType)
			a, o := ex.newTok(st, rest)
			tobj = o
			if pt, ok := t.(*types.Pointer); ok {
				to := newObj(pt.Elem(), "", "tokeniser value")
				st.heap[to.id] = a
				a = addrOf(to)
			}
			args = append(args, a)
			sa = append(sa, rest)
		case isStream(t):
			lines := sym("lines", types.NewArray(phraseType, -1))
			a, o := ex.newStream(st, lines)
			sobj = o
			args = append(args, a)
			sa = append(sa, Sl(False, lines))
		default:
			v := sym(p.Name(), t)
			args = append(args, v)
			sa = append(sa, v)
		}
	}
	if c.spec.requires != nil {
		st.assume(ex.boolOf(st, c.spec.requires, sa))
		st.assume(ex.expanded(st, c.spec.requires, sa))
	}
	if v := validOf(c); v != nil && narrow[c.key] {
		st.assume(v.apps(sa[:1])[0])
		st.assume(ex.boolOf(st, v.fn, sa[:1]))
		ex.given = true
	}
	if len(c.spec.fn.Params) != len(sa) {
		res.Error = fmt.Sprintf("specification %s takes %d arguments, function has %d", c.spec.name, len(c.spec.fn.Params), len(sa))
		return
	}
	if c.opts["unroll"] != "" {
		ex.unrollAll = true
	}
	root := Root{c.spec, sa}
	ex.roots = []Root{root}
	var lines0 *Term
	if sobj != nil {
		lines0 = st.heap[sobj.id]
	}
	entry := map[int]*Term{}
	for k, v := range st.heap {
		entry[k] = v
	}
	ex.keepRets = true
	rets := ex.callBody(st, f, args, nil)
	res.Paths = len(rets)
	specRes := resTypes(c.spec.fn)
	for _, r := range rets {
		if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
			res.Feasible = true
		}
		if c.kind == "enc" || c.kind == "chk" {
			// nothing which was there before has changed
			same := true
			for k, v := range entry {
				if (wobj == nil || k != wobj.id) && r.st.heap[k] != v {
					same = false
				}
			}
			ex.record(r.st, "frame", c.key, same, "memory of the caller is changed")
		}
		specs := ex.evalRoot(r.st, root)
		if len(specs) == 0 {
			if solver.check(r.st.facts()) != resUnsat {
				ex.record(r.st, "post", c.key, false, "the specification gives no result")
			}
			continue
		}
		cmp := func(s Ret, name string, code, spec *Term) {
			g := Eq(code, spec)
			ok := proveGoal(s.st.pc, g)
			d := ""
			if !ok {
				d = fmt.Sprintf("code gives %s but the contract says %s", code, spec)
			}
			ex.record(s.st, "post-"+name, c.key, ok, d)
		}
		for _, s := range specs {
			if s.st.dead {
				continue
			}
			switch c.kind {
			case "enc":
				cmp(s, "output", r.st.heap[wobj.id], s.vals[0])
			case "chk":
				cmp(s, "valid", IsNil(r.vals[0]), s.vals[0])
			case "dec", "decsec":
				ok := s.vals[len(s.vals)-1]
				err := r.vals[0]
				cmp(s, "accepts", IsNil(err), ok)
				ok2 := s.st.clone()
				ok2.assume(ok)
				ok2.assume(IsNil(err))
				if ok2.dead {
					continue
				}
				t := Ret{ok2, nil}
				cmp(t, "value", r.st.freeze(r.st.heap[robj.id]), s.vals[0])
				if sobj != nil {
					cmp(t, "rest", r.st.heap[sobj.id], SlSeq(s.vals[1]))
					ex.record(ok2, "post-consumed", c.key, proveGoal(ok2.pc, Le(Len(r.st.heap[sobj.id]), Len(lines0))), "")
				}
			case "fun":
				ok := True
				for i, t := range resTypes(f) {
					if isErrorType(t) {
						cmp(s, "accepts", IsNil(r.vals[i]), s.vals[i])
						ok = s.vals[i]
					}
				}
				ok2 := s.st.clone()
				ok2.assume(ok)
				if ok2.dead {
					continue
				}
				t := Ret{ok2, nil}
				for i, rt := range resTypes(f) {
					if isErrorType(rt) {
						continue
					}
					v := r.st.freeze(r.vals[i])
					if _, ok := rt.Underlying().(*types.Slice); ok && c.opts["nil"] == "any" {
						cmp(t, fmt.Sprintf("result%d", i), SlSeq(v), SlSeq(s.vals[i]))
						continue
					}
					cmp(t, fmt.Sprintf("result%d", i), v, s.vals[i])
				}
				if tobj != nil {
					cmp(t, "rest", r.st.heap[tobj.id].args[1], s.vals[len(specRes)-1])
					cmp(t, "rest-consumed", r.st.heap[tobj.id].args[0], Empty)
				}
				if sobj != nil {
					cmp(t, "rest", r.st.heap[sobj.id], SlSeq(s.vals[len(specRes)-1]))
					ex.record(ok2, "post-consumed", c.key, proveGoal(ok2.pc, Le(Len(r.st.heap[sobj.id]), Len(lines0))), "")
				}
			}
		}
	}
	return
}

func isWriter(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == "WriteString" {
			return true
		}
	}
	return false
}

func dbg(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
