package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	byteType   = types.Typ[types.Uint8]
	intType    = types.Typ[types.Int]
	runeType   = types.Typ[types.Int32]
	stringType = types.Typ[types.String]
	boolType   = types.Typ[types.Bool]
	debug      = os.Getenv("VERIF_DEBUG") != ""
)

type mode int

const (
	mCode   mode = iota // executing code under verification
	mFork               // evaluating a specification, forking
	mDecide             // unfolding a specification application, no forking
)

// Obligation is one proof goal.
type Obligation struct {
	Func   string `json:"func"`
	Kind   string `json:"kind"`
	Where  string `json:"where"`
	OK     bool   `json:"ok"`
	By     string `json:"by,omitempty"`
	Detail string `json:"detail,omitempty"`
}

type Root struct {
	fn   *SpecFn
	args []*Term
}

type Exec struct {
	line      *SpecFn // the function of a line unit
	inFact    bool
	okLines   map[*Term]bool // accumulated lines known to have the shape of lines
	models    map[string]bool
	streams   map[int]*Obj // the lines of parsers which have been set up
	aliasDone map[*ssa.Function]bool
	given     bool // the receiver is known to be valid
	open      bool // open up the specifications named by a precondition

	unit        string
	mode        mode
	dry         int
	obls        []Obligation
	oblSeen     map[string]int
	roots       []Root
	depth       int
	decFn       *ssa.Function // function being unfolded in mDecide
	stuck       map[*Term]appUse
	stuckOrder  []*Term
	unrollAll   bool
	noR         int
	collect     bool
	noRec       *SpecFn
	keepRets    bool
	sets        bool               // membership in a constant set is spelt out
	feed        *Obj               // tokens to come of a parser
	held        func(*State) *Term // tokens read by it
	prune       bool
	fuel        int
	stack       []*ssa.Function
	unsup       map[string]bool
	steps       int
	outs        []*Obj
	cfg         unitCfg
	specUnit    *SpecFn
	collectMemo map[unfoldKey]unfoldRes
	decr        map[*ssa.Call]map[int]bool
}

type unitCfg struct {
	writeFaults bool
}

type appUse struct {
	fn   *SpecFn
	args []*Term
}

type Ret struct {
	st   *State
	vals []*Term
}

type stuckErr struct{ why string }

type giveUp struct{ why string }

const maxSteps = 3000000

func (ex *Exec) unsupported(st *State, in ssa.Instruction, why string) {
	if ex.mode != mCode {
		panic(giveUp{"specification: " + why})
	}
	ex.record(st, "supported", ex.where(in), false, why)
	st.dead = true
}

func (ex *Exec) where(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	fn := in.Parent()
	if !p.IsValid() {
		return funcKey(fn)
	}
	ps := fset.Position(p)
	return fmt.Sprintf("%s %s:%d", funcKey(fn), shortFile(ps.Filename), ps.Line)
}

func shortFile(f string) string {
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		return f[i+1:]
	}
	return f
}

func (ex *Exec) record(st *State, kind, where string, ok bool, detail string) {
	if ex.dry > 0 {
		return
	}
	if !ok && debug {
		fmt.Fprintf(os.Stderr, "FAIL %s %s %s: %s\n", ex.unit, kind, where, detail)
		if st == nil {
			st = newState()
		}
		for _, f := range st.facts() {
			fmt.Fprintf(os.Stderr, "    %s\n", f)
		}
	}
	if len(detail) > 3000 {
		detail = detail[:3000] + "…"
	}
	if !ok && detail == "" {
		detail = "not proved"
	}
	by := ""
	if goalSolver {
		by = "z3"
	}
	goalSolver = false
	ex.obls = append(ex.obls, Obligation{Func: ex.unit, Kind: kind, Where: where, OK: ok, By: by, Detail: detail})
}

// oblige proves a goal at the state, records the outcome and assumes it.
func (ex *Exec) oblige(st *State, kind string, in ssa.Instruction, goal *Term) {
	if st.dead {
		return
	}
	if ex.mode != mCode {
		// a specification is only meaningful where it is defined
		if goal == True || quick(st.pc, goal) == 1 || solver.valid(st.facts(), goal) {
			return
		}
		ex.record(st, "spec-defined", ex.where(in), false, "cannot prove "+goal.String())
		st.assume(goal)
		return
	}
	if ex.dry > 0 {
		st.assume(goal)
		return
	}
	goalSolver = false
	if goal == True {
		ex.record(st, kind, ex.where(in), true, "")
		return
	}
	ok := proveGoal(st.pc, goal)
	d := ""
	if !ok {
		d = "cannot prove " + goal.String()
	}
	ex.record(st, kind, ex.where(in), ok, d)
	st.assume(goal)
}

// ---- control flow information

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
}

type FnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	order []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*Loop
	reach map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	irred bool
}

var fnInfos = map[*ssa.Function]*FnInfo{}

func infoOf(f *ssa.Function) *FnInfo {
	if i := fnInfos[f]; i != nil {
		return i
	}
	fi := &FnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	fnInfos[f] = fi
	if len(f.Blocks) == 0 {
		return fi
	}
	// loops first
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				l.latch = append(l.latch, b)
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] && !s.Dominates(b) {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if !s.Dominates(b) && fi.rpo[s] <= fi.rpo[b] {
				fi.irred = true
			}
		}
	}
	for _, b := range f.Blocks {
		r := map[*ssa.BasicBlock]bool{b: true}
		work := []*ssa.BasicBlock{b}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			for _, s := range x.Succs {
				if !r[s] {
					r[s] = true
					work = append(work, s)
				}
			}
		}
		fi.reach[b] = r
	}
	return fi
}

// Frame is one activation of a function.
type Frame struct {
	fn   *ssa.Function
	info *FnInfo
	up   *Frame
}

type arrival struct {
	from, to *ssa.BasicBlock
	st       *State
}

// call executes a function body on the state.
func (ex *Exec) callBody(st *State, fn *ssa.Function, args []*Term, bindings []*Term) []Ret {
	if len(fn.Blocks) == 0 {
		panic(giveUp{"no body for " + fn.String()})
	}
	n := 0
	for _, f := range ex.stack {
		if f == fn {
			n++
		}
	}
	lim := 0
	if ex.mode != mCode {
		lim = 150
	}
	if n > lim {
		panic(giveUp{"recursion without contract: " + fn.String()})
	}
	ex.stack = append(ex.stack, fn)
	defer func() { ex.stack = ex.stack[:len(ex.stack)-1] }()
	keep := ex.keepRets
	ex.keepRets = false
	if ex.mode == mCode {
		ex.aliasCheck(fn)
	}
	info := infoOf(fn)
	if info.irred {
		panic(giveUp{"irreducible control flow in " + fn.String()})
	}
	saved := st.regs
	st.regs = map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		st.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.regs[p] = bindings[i]
	}
	fr := &Frame{fn: fn, info: info}
	outs, backs, rets := ex.region(fr, nil, nil, []arrival{{nil, fn.Blocks[0], st}})
	if len(outs) > 0 || len(backs) > 0 {
		panic("region leak")
	}
	if !keep || len(rets) > 40 {
		rets = ex.mergeRets(rets)
	}
	for i := range rets {
		if i == 0 {
			rets[i].st.regs = saved
			continue
		}
		m := make(map[ssa.Value]*Term, len(saved))
		for k, v := range saved {
			m[k] = v
		}
		rets[i].st.regs = m
	}
	if len(rets) > 0 {
		m := make(map[ssa.Value]*Term, len(saved))
		for k, v := range saved {
			m[k] = v
		}
		rets[0].st.regs = m
	}
	return rets
}

// region executes blocks in topological order.  blocks nil means the whole
// function; header is the loop whose back edges end the region.
func (ex *Exec) region(fr *Frame, l *Loop, head *State, start []arrival) (outs []arrival, backs []*State, rets []Ret) {
	pending := map[*ssa.BasicBlock][]*State{}
	arrive := func(a arrival, initial bool) {
		if a.st.dead {
			return
		}
		if l != nil && !initial {
			if a.to == l.header {
				ex.phis(a)
				if !a.st.dead {
					backs = append(backs, a.st)
				}
				return
			}
			if !l.blocks[a.to] {
				outs = append(outs, a)
				return
			}
		}
		if a.from != nil {
			ex.phis(a)
		}
		pending[a.to] = append(pending[a.to], a.st)
	}
	if head != nil {
		pending[l.header] = []*State{head}
	}
	for _, a := range start {
		arrive(a, true)
	}
	for len(pending) > 0 {
		var blk *ssa.BasicBlock
		for b := range pending {
			if blk == nil || fr.info.rpo[b] < fr.info.rpo[blk] {
				blk = b
			}
		}
		sts := pending[blk]
		delete(pending, blk)
		if len(sts) > 1 {
			sts = ex.mergeAt(fr, blk, sts)
		}
		for _, st := range sts {
			if st.dead {
				continue
			}
			if il := fr.info.loops[blk]; il != nil && (l == nil || il.header != l.header) {
				o, r := ex.loop(fr, il, st)
				rets = append(rets, r...)
				for _, a := range o {
					arrive(a, false)
				}
				continue
			}
			ex.block(fr, blk, st, 0, func(a arrival) { arrive(a, false) }, func(r Ret) {
				if !r.st.dead {
					rets = append(rets, r)
				}
			})
		}
	}
	return
}

func (ex *Exec) phis(a arrival) {
	idx := -1
	for i, p := range a.to.Preds {
		if p == a.from {
			idx = i
			break
		}
	}
	var ps []*ssa.Phi
	var vs []*Term
	for _, in := range a.to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, ex.val(a.st, p.Edges[idx]))
	}
	for i, p := range ps {
		a.st.regs[p] = vs[i]
	}
}

// ---- merging

func commonPC(a, b *PC) *PC {
	for a != b {
		if pcLen(a) >= pcLen(b) {
			if a == nil {
				return nil
			}
			a = a.up
		} else {
			b = b.up
		}
	}
	return a
}

func extras(p, anc *PC) []*Term {
	var r []*Term
	for q := p; q != anc; q = q.up {
		r = append(r, q.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// split separates the decisions from the facts of a path.
func split(p, anc *PC) (dec, ax []*Term) {
	for q := p; q != anc; q = q.up {
		if q.ax {
			ax = append(ax, q.t)
		} else {
			dec = append(dec, q.t)
		}
	}
	rev := func(r []*Term) {
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	}
	rev(dec)
	rev(ax)
	return
}

func (ex *Exec) liveAt(fr *Frame, v ssa.Value, b *ssa.BasicBlock) bool {
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		if fr.info.reach[b][r.Block()] {
			if _, ok := r.(*ssa.Phi); ok && r.Block() == b {
				// phis of this block are already evaluated; other uses count
				if !inLoopTo(fr, b) {
					continue
				}
			}
			return true
		}
	}
	return false
}

func inLoopTo(fr *Frame, b *ssa.BasicBlock) bool {
	for _, l := range fr.info.loops {
		if l.blocks[b] {
			return true
		}
	}
	return false
}

func cursor(t *Term) bool {
	return t.op == OSlice || t.op == OSym
}

func mergeable(a, b *Term, force bool) bool {
	if a == b {
		return true
	}
	if a.sort != b.sort {
		return false
	}
	switch a.sort {
	case SBool:
		return true
	case SSeq:
		// two positions in the same text are kept apart
		return force || !cursor(a) || !cursor(b)
	case SInt:
		return force
	}
	if a.op == OMk && b.op == OMk && len(a.args) == len(b.args) {
		for i := range a.args {
			if !mergeable(a.args[i], b.args[i], force) {
				return false
			}
		}
		return true
	}
	if a.op == OSl && b.op == OSl {
		return true
	}
	return false
}

func mergeVal(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OMk && b.op == OMk && len(a.args) == len(b.args) {
		fs := make([]*Term, len(a.args))
		for i := range fs {
			fs[i] = mergeVal(c, a.args[i], b.args[i])
		}
		return Mk(fs...)
	}
	if a.op == OSl && b.op == OSl {
		return Sl(mergeVal(c, a.args[0], b.args[0]), mergeVal(c, a.args[1], b.args[1]))
	}
	if a.sort == SSeq {
		x, y := parts(a), parts(b)
		n := 0
		for n < len(x) && n < len(y) && x[n] == y[n] {
			n++
		}
		pre := Concat(x[:n]...)
		xr, yr := Concat(x[n:]...), Concat(y[n:]...)
		// common constant prefix
		if n < len(x) && n < len(y) && x[n].op == OStr && y[n].op == OStr {
			k := 0
			for k < len(x[n].name) && k < len(y[n].name) && x[n].name[k] == y[n].name[k] {
				k++
			}
			if k > 0 {
				pre = Concat(pre, Str(x[n].name[:k]))
				xr = Concat(append([]*Term{Str(x[n].name[k:])}, x[n+1:]...)...)
				yr = Concat(append([]*Term{Str(y[n].name[k:])}, y[n+1:]...)...)
			}
		} else if n < len(x) && n == len(y) || n < len(y) && n == len(x) {
			// one is a prefix of the other
		}
		return Concat(pre, Ite(c, xr, yr))
	}
	return Ite(c, a, b)
}

// merge joins two states of the same block, or returns nil.
func (ex *Exec) merge(fr *Frame, blk *ssa.BasicBlock, a, b *State, va, vb []*Term, force bool) (*State, []*Term) {
	anc := commonPC(a.pc, b.pc)
	if pcLen(a.pc)+pcLen(b.pc)-2*pcLen(anc) > 400 {
		return nil, nil
	}
	e1, x1 := split(a.pc, anc)
	e2, x2 := split(b.pc, anc)
	if len(e1) == 0 || len(e2) == 0 {
		return nil, nil
	}
	var c *Term
	compl := false
	if e1[0] == Not(e2[0]) {
		c, compl = e1[0], true
	} else if And(e1...) == Not(And(e2...)) {
		c = And(e1...)
	} else {
		c = And(e1...)
	}
	type rv struct {
		k    ssa.Value
		x, y *Term
	}
	var diffs []rv
	if blk != nil {
		for k, x := range a.regs {
			y, ok := b.regs[k]
			if ok && x == y {
				continue
			}
			if !ex.liveAt(fr, k, blk) {
				continue
			}
			if !ok {
				continue
			}
			if !mergeable(x, y, force) {
				return nil, nil
			}
			diffs = append(diffs, rv{k, x, y})
		}
	}
	for i := range va {
		if !mergeable(va[i], vb[i], force) {
			return nil, nil
		}
	}
	for id, x := range a.heap {
		if y, ok := b.heap[id]; ok && x != y && !mergeable(x, y, force) {
			return nil, nil
		}
	}
	rules := ex.mergeRules(a, b, c)
	n := &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, rules: rules}
	for k, x := range a.regs {
		if y, ok := b.regs[k]; ok && x == y {
			n.regs[k] = x
		}
	}
	for _, d := range diffs {
		n.regs[d.k] = mergeVal(c, d.x, d.y)
	}
	for id, x := range a.heap {
		if y, ok := b.heap[id]; ok {
			n.heap[id] = mergeVal(c, x, y)
		} else {
			n.heap[id] = x
		}
	}
	for id, y := range b.heap {
		if _, ok := a.heap[id]; !ok {
			n.heap[id] = y
		}
	}
	var vals []*Term
	for i := range va {
		vals = append(vals, mergeVal(c, va[i], vb[i]))
	}
	n.pc = anc
	if compl {
		in2 := map[*Term]bool{}
		for _, f := range e2[1:] {
			in2[f] = true
		}
		for _, f := range e1[1:] {
			if in2[f] {
				n.assume(f)
			}
		}
		for _, f := range e1[1:] {
			n.assume(Implies(c, f))
		}
		for _, f := range e2[1:] {
			n.assume(Implies(Not(c), f))
		}
	} else {
		n.assume(Or(And(e1...), And(e2...)))
	}
	for _, f := range x1 {
		n.axiom(Implies(c, f))
	}
	for _, f := range x2 {
		n.axiom(Implies(Not(c), f))
	}
	return n, vals
}

func (ex *Exec) mergeAt(fr *Frame, blk *ssa.BasicBlock, sts []*State) []*State {
	var live []*State
	for _, s := range sts {
		if !s.dead {
			live = append(live, s)
		}
	}
	sts = live
	tried := map[[2]*State]bool{}
	for {
		inTime()
		force := len(sts) > 12 && !ex.unrollAll
		// the pair with the longest common path first
		bi, bj, bl := -1, -1, -1
		for i := range sts {
			for j := i + 1; j < len(sts); j++ {
				if n := pcLen(commonPC(sts[i].pc, sts[j].pc)); n > bl && !tried[[2]*State{sts[i], sts[j]}] {
					bi, bj, bl = i, j, n
				}
			}
		}
		if bi < 0 {
			return sts
		}
		if m, _ := ex.merge(fr, blk, sts[bi], sts[bj], nil, nil, force); m != nil {
			sts[bi] = m
			sts = append(sts[:bj:bj], sts[bj+1:]...)
		} else {
			tried[[2]*State{sts[bi], sts[bj]}] = true
		}
	}
}

func (ex *Exec) mergeRets(rs []Ret) []Ret {
	tried := map[[2]*State]bool{}
	for {
		inTime()
		force := len(rs) > 12 && !ex.unrollAll
		bi, bj, bl := -1, -1, -1
		for i := range rs {
			for j := i + 1; j < len(rs); j++ {
				if n := pcLen(commonPC(rs[i].st.pc, rs[j].st.pc)); n > bl && !tried[[2]*State{rs[i].st, rs[j].st}] {
					bi, bj, bl = i, j, n
				}
			}
		}
		if bi < 0 {
			return rs
		}
		if m, v := ex.merge(nil, nil, rs[bi].st, rs[bj].st, rs[bi].vals, rs[bj].vals, force); m != nil {
			rs[bi] = Ret{m, v}
			rs = append(rs[:bj:bj], rs[bj+1:]...)
		} else {
			tried[[2]*State{rs[bi].st, rs[bj].st}] = true
		}
	}
}

// ---- instructions

func (ex *Exec) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return globalAddr(v)
	case *ssa.Function:
		return funcTerm(v)
	case *ssa.Builtin:
		return Nil
	}
	if t, ok := st.regs[v]; ok {
		return t
	}
	panic(giveUp{fmt.Sprintf("no value for %s in %s", v.Name(), v.Parent())})
}

var funcByTerm = map[*Term]*ssa.Function{}

func funcTerm(f *ssa.Function) *Term {
	t := mkTerm(OFunc, SU, f.String(), nil, nil, nil, nil)
	funcByTerm[t] = f
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if sortOf(c.Type()) == SInt {
			n := bigI(0)
			if _, ok := n.SetString(c.Value.ExactString(), 10); !ok {
				fatal("constant %s", c.Value.ExactString())
			}
			return IntB(n)
		}
		return App("float:"+c.Value.ExactString(), SU, c.Type())
	case constant.Float:
		if sortOf(c.Type()) == SInt {
			n := bigI(0)
			if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
				n.SetString(i.ExactString(), 10)
				return IntB(n)
			}
		}
		return App("float:"+c.Value.ExactString(), SU, c.Type())
	}
	panic(giveUp{"constant " + c.String()})
}

var (
	globalObjs = map[*ssa.Global]*Obj{}
	globalHeap = map[int]*Term{}
)

func globalAddr(g *ssa.Global) *Term {
	o := globalObjs[g]
	if o == nil {
		t := g.Type().(*types.Pointer).Elem()
		o = newObj(t, "", "global "+g.Name())
		o.ro = true
		globalObjs[g] = o
		if g.Pkg != icsPkg {
			name := g.Pkg.Pkg.Path() + "." + g.Name()
			if isErrorType(t) {
				globalHeap[o.id] = Iface("error:"+name, Nil)
			} else {
				globalHeap[o.id] = App("global:"+name, sortOf(t), t)
			}
		}
	}
	return addrOf(o)
}

type cont func(arrival)

func (ex *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State, i int, next cont, ret func(Ret)) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		ex.steps++
		if ex.steps > maxSteps {
			panic(giveUp{"too many steps"})
		}
		inTime()
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Jump:
			next(arrival{b, b.Succs[0], st})
			return
		case *ssa.If:
			ex.branch(fr, b, st, in, next)
			return
		case *ssa.Return:
			var vs []*Term
			for _, r := range in.Results {
				vs = append(vs, ex.val(st, r))
			}
			ret(Ret{st, vs})
			return
		case *ssa.Panic:
			ex.oblige(st, "no-panic", in, False)
			st.dead = true
			return
		case *ssa.Call:
			rets := ex.call(st, in)
			if len(rets) == 0 {
				return
			}
			for k, r := range rets {
				var v *Term
				switch len(r.vals) {
				case 0:
					v = nil
				case 1:
					v = r.vals[0]
				default:
					v = Tuple(r.vals...)
				}
				if v != nil {
					r.st.regs[in] = v
				}
				if k < len(rets)-1 {
					ex.block(fr, b, r.st, i+1, next, ret)
				} else {
					st = r.st
				}
			}
		case *ssa.TypeAssert:
			sts := ex.typeAssert(st, in)
			if len(sts) == 0 {
				return
			}
			for k, s := range sts {
				if k < len(sts)-1 {
					ex.block(fr, b, s, i+1, next, ret)
				} else {
					st = s
				}
			}
		case *ssa.Next:
			sts := ex.nextRange(st, in)
			if len(sts) == 0 {
				return
			}
			for k, s := range sts {
				if k < len(sts)-1 {
					ex.block(fr, b, s, i+1, next, ret)
				} else {
					st = s
				}
			}
		default:
			ex.instr(st, in)
		}
	}
}

func (ex *Exec) branch(fr *Frame, b *ssa.BasicBlock, st *State, in *ssa.If, next cont) {
	c := ex.val(st, in.Cond)
	d := quick(st.pc, c)
	if d == 0 && (ex.mode != mCode || ex.prune) {
		f := st.facts()
		if solver.valid(f, c) {
			d = 1
		} else if solver.valid(f, Not(c)) {
			d = -1
		}
		if d == 0 && ex.mode == mDecide && fr.fn == ex.decFn {
			panic(stuckErr{c.String()})
		}
	}
	switch d {
	case 1:
		st.assume(c)
		next(arrival{b, b.Succs[0], st})
	case -1:
		st.assume(Not(c))
		next(arrival{b, b.Succs[1], st})
	default:
		s2 := st.clone()
		st.assume(c)
		s2.assume(Not(c))
		next(arrival{b, b.Succs[0], st})
		next(arrival{b, b.Succs[1], s2})
	}
}

func (ex *Exec) instr(st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := newObj(t, "", in.Comment)
		st.heap[o.id] = zeroOf(t)
		st.regs[in] = addrOf(o)
	case *ssa.Store:
		ex.store(st, in, ex.val(st, in.Addr), ex.val(st, in.Val))
	case *ssa.UnOp:
		ex.unop(st, in)
	case *ssa.BinOp:
		st.regs[in] = ex.binop(st, in, in.Op, ex.val(st, in.X), ex.val(st, in.Y), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		st.regs[in] = ex.val(st, in.X)
	case *ssa.ChangeInterface:
		st.regs[in] = ex.val(st, in.X)
	case *ssa.MakeInterface:
		v := ex.val(st, in.X)
		if isErrorType(in.Type()) {
			// identity of concrete errors is not tracked
			if v.op == OIface {
				st.regs[in] = v
				return
			}
		}
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok && ex.mode == mCode && !nonNil(v) {
			ex.oblige(st, "nil-in-interface", in, Not(IsNil(v)))
		}
		st.regs[in] = Iface(in.X.Type().String(), v)
	case *ssa.Convert:
		ex.convert(st, in)
	case *ssa.Extract:
		t := ex.val(st, in.Tuple)
		if t.op != OTuple {
			panic(giveUp{"extract from " + t.String()})
		}
		st.regs[in] = t.args[in.Index]
	case *ssa.Field:
		x := ex.val(st, in.X)
		s := in.X.Type().Underlying().(*types.Struct)
		st.regs[in] = Sel(x, in.Field, s.NumFields(), s.Field(in.Field).Type())
	case *ssa.FieldAddr:
		x := ex.val(st, in.X)
		ex.oblige(st, "nil-deref", in, Not(IsNil(x)))
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		if opaqueStruct(pt) {
			ex.unsupported(st, in, "field of "+pt.String())
			return
		}
		s := pt.Underlying().(*types.Struct)
		st.regs[in] = ex.fieldAddr(x, pt, in.Field, s)
	case *ssa.IndexAddr:
		ex.indexAddr(st, in)
	case *ssa.Index:
		x, i := ex.val(st, in.X), ex.val(st, in.Index)
		ex.bounds(st, in, i, Len(x))
		st.regs[in] = At(x, i, elemType(in.X.Type()))
	case *ssa.Lookup:
		x, k := ex.val(st, in.X), ex.val(st, in.Index)
		if rec := keyRecord(in.X); rec != nil {
			i := rec.keys[k]
			r := st.heap[objOf(x).id]
			v := Sel(r, 2*i, rec.typ.NumFields(), rec.typ.Field(2*i).Type())
			if in.CommaOk {
				v = Tuple(v, Sel(r, 2*i+1, rec.typ.NumFields(), rec.typ.Field(2*i+1).Type()))
			}
			st.regs[in] = v
		} else if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			x = st.freeze(x)
			v := MapGet(x, k, m.Elem())
			if in.CommaOk {
				st.regs[in] = Tuple(v, MapHas(x, k))
			} else {
				st.regs[in] = v
			}
		} else {
			ex.bounds(st, in, k, Len(x))
			st.regs[in] = At(x, k, byteType)
		}
	case *ssa.MapUpdate:
		m := ex.val(st, in.Map)
		if m.op != OAddr || objOf(m).ro {
			ex.oblige(st, "frame", in, False)
			return
		}
		o := objOf(m)
		if rec := keyRecord(in.Map); rec != nil {
			i, n := rec.keys[ex.val(st, in.Key)], rec.typ.NumFields()
			var fs []*Term
			for j := 0; j < n; j++ {
				switch j {
				case 2 * i:
					fs = append(fs, st.freeze(ex.val(st, in.Value)))
				case 2*i + 1:
					fs = append(fs, True)
				default:
					fs = append(fs, Sel(st.heap[o.id], j, n, rec.typ.Field(j).Type()))
				}
			}
			st.heap[o.id] = Mk(fs...)
			return
		}
		st.heap[o.id] = MapSet(st.heap[o.id], ex.val(st, in.Key), st.freeze(ex.val(st, in.Value)))
	case *ssa.MakeMap:
		if rec := keyRecord(in); rec != nil {
			o := newObj(rec.typ, "", "map")
			st.heap[o.id] = zeroOf(rec.typ)
			st.regs[in] = addrOf(o)
			return
		}
		o := newObj(in.Type(), "map", "map")
		st.heap[o.id] = MapNil
		st.regs[in] = addrOf(o)
	case *ssa.MakeSlice:
		n := ex.val(st, in.Len)
		ex.oblige(st, "make-size", in, Le(Int(0), n))
		cp := ex.val(st, in.Cap)
		if cp != n {
			ex.oblige(st, "make-size", in, Le(n, cp))
		}
		et := elemType(in.Type())
		if n == Int(0) {
			st.regs[in] = Sl(False, Empty)
			return
		}
		o := newObj(types.NewArray(et, -1), "", "make")
		st.heap[o.id] = Fill(n, zeroOf(et))
		st.regs[in] = mkTerm(ORS, SU, "", nil, nil, []*Term{addrOf(o), Int(0), n}, nil)
	case *ssa.Slice:
		ex.slice(st, in)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, ex.val(st, b))
		}
		f := in.Fn.(*ssa.Function)
		t := mkTerm(OFunc, SU, f.String(), nil, nil, bs, nil)
		funcByTerm[t] = f
		st.regs[in] = t
	case *ssa.Range:
		x := ex.val(st, in.X)
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			o := newObj(intType, "iter", "range")
			o.aux = x
			st.heap[o.id] = Int(0)
			st.regs[in] = addrOf(o)
			return
		}
		ex.unsupported(st, in, "range over map")
	default:
		ex.unsupported(st, in, fmt.Sprintf("instruction %T", in))
	}
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func (ex *Exec) fieldAddr(x *Term, pt types.Type, f int, s *types.Struct) *Term {
	switch x.op {
	case OAddr:
		return addPath(x, fldT(f, s.NumFields()))
	case OBox:
		return Box(Sel(x.args[0], f, s.NumFields(), s.Field(f).Type()))
	case OIte:
		return Ite(x.args[0], ex.fieldAddr(x.args[1], pt, f, s), ex.fieldAddr(x.args[2], pt, f, s))
	}
	return Box(Sel(Deref(x, pt), f, s.NumFields(), s.Field(f).Type()))
}

func (ex *Exec) bounds(st *State, in ssa.Instruction, i, n *Term) {
	ex.oblige(st, "index-bounds", in, And(Le(Int(0), i), Lt(i, n)))
}

func (ex *Exec) indexAddr(st *State, in *ssa.IndexAddr) {
	x, i := ex.val(st, in.X), ex.val(st, in.Index)
	et := elemType(in.X.Type())
	if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		ex.oblige(st, "nil-deref", in, Not(IsNil(x)))
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		ex.bounds(st, in, i, Int(at.Len()))
		if x.op == OAddr {
			st.regs[in] = addPath(x, idxT(i))
		} else {
			st.regs[in] = Box(At(st.load(x, in.X.Type().Underlying().(*types.Pointer).Elem()), i, et))
		}
		return
	}
	ex.bounds(st, in, i, sliceLen(st, x))
	if x.op == ORS {
		st.regs[in] = addPath(x.args[0], idxT(Add(x.args[1], i)))
		return
	}
	if x.op == OIte && hasRef(x) {
		x = st.freeze(x)
	}
	if ex.given && ex.mode == mCode && !st.dead {
		ex.elementFacts(st, x, i)
	}
	st.regs[in] = Box(At(SlSeq(x), i, et))
}

func (ex *Exec) store(st *State, in ssa.Instruction, a, v *Term) {
	ex.oblige(st, "nil-deref", in, Not(IsNil(a)))
	if a.op != OAddr {
		ex.oblige(st, "frame", in, False)
		return
	}
	o := objOf(a)
	if o.ro && !ex.inInit() {
		ex.oblige(st, "frame", in, False)
		return
	}
	if ex.mode == mCode {
		ex.oblige(st, "frame", in, True)
	}
	st.heap[o.id] = writePath(st.content(o), o.typ, a.args[1:], v)
}

func (ex *Exec) inInit() bool { return ex.unit == "init" }

func (ex *Exec) slice(st *State, in *ssa.Slice) {
	x := ex.val(st, in.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.val(st, v)
	}
	check := func(lo, hi, n *Term) {
		ex.oblige(st, "slice-bounds", in, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)))
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := Len(x)
		lo, hi := get(in.Low, Int(0)), get(in.High, n)
		check(lo, hi, n)
		if runeOctets && x.op == OConcat {
			// within the first of several parts
			f := x.args[0]
			if in.High == nil && lo.op != OInt && ex.holds(st, Le(lo, Len(f))) {
				st.regs[in] = Concat(append([]*Term{Slice(f, lo, Len(f))}, x.args[1:]...)...)
				return
			}
			if in.High != nil && hi.op != OInt && ex.holds(st, Le(hi, Len(f))) {
				st.regs[in] = Slice(f, lo, hi)
				return
			}
		}
		st.regs[in] = Slice(x, lo, hi)
	case *types.Pointer: // *array
		ex.oblige(st, "nil-deref", in, Not(IsNil(x)))
		n := Int(u.Elem().Underlying().(*types.Array).Len())
		lo, hi := get(in.Low, Int(0)), get(in.High, n)
		check(lo, hi, n)
		if x.op == OAddr {
			st.regs[in] = mkTerm(ORS, SU, "", nil, nil, []*Term{x, lo, hi}, nil)
		} else {
			st.regs[in] = Sl(False, Slice(st.load(x, u.Elem()), lo, hi))
		}
	case *types.Slice:
		n := sliceLen(st, x)
		lo, hi := get(in.Low, Int(0)), get(in.High, n)
		// reslicing beyond the length (up to the capacity) is not used
		check(lo, hi, n)
		if x.op == ORS {
			st.regs[in] = mkTerm(ORS, SU, "", nil, nil, []*Term{x.args[0], Add(x.args[1], lo), Add(x.args[1], hi)}, nil)
			return
		}
		st.regs[in] = Sl(SlNil(x), Slice(SlSeq(x), lo, hi))
	default:
		ex.unsupported(st, in, "slice of "+in.X.Type().String())
	}
}

func (ex *Exec) unop(st *State, in *ssa.UnOp) {
	x := ex.val(st, in.X)
	switch in.Op {
	case token.MUL:
		ex.oblige(st, "nil-deref", in, Not(IsNil(x)))
		t := in.Type()
		st.regs[in] = st.load(x, t)
	case token.NOT:
		st.regs[in] = Not(x)
	case token.SUB:
		if sortOf(in.Type()) == SInt {
			st.regs[in] = Wrap(Neg(x), in.Type())
		} else {
			st.regs[in] = App("fneg", SU, in.Type(), x)
		}
	case token.XOR:
		_, signed, _ := intTypeInfo(in.Type())
		if signed {
			st.regs[in] = Sub(Int(-1), x)
		} else {
			_, hi := typeRange(in.Type())
			st.regs[in] = Sub(IntB(hi), x)
		}
	default:
		ex.unsupported(st, in, "unary "+in.Op.String())
	}
}

func (ex *Exec) wrapP(st *State, t *Term, typ types.Type) *Term {
	w := Wrap(t, typ)
	if w.op == OWrap {
		// drop the wrap when the value provably fits
		lo, hi := wrapRange(w.name)
		g := And(Le(IntB(lo), t), Le(t, IntB(hi)))
		if quick(st.pc, g) == 1 || solver.valid(st.facts(), g) {
			return t
		}
	}
	return w
}

func (ex *Exec) binop(st *State, in ssa.Instruction, op token.Token, x, y *Term, xt, rt types.Type) *Term {
	switch op {
	case token.EQL:
		return ex.eqTerm(st, x, y, xt)
	case token.NEQ:
		return Not(ex.eqTerm(st, x, y, xt))
	}
	switch sortOf(xt) {
	case SInt:
		switch op {
		case token.ADD:
			return ex.wrapP(st, Add(x, y), rt)
		case token.SUB:
			return ex.wrapP(st, Sub(x, y), rt)
		case token.MUL:
			return ex.wrapP(st, Mul(x, y), rt)
		case token.QUO, token.REM:
			ex.oblige(st, "div-zero", in, Not(Eq(y, Int(0))))
			return ex.divRem(st, op, x, y, rt)
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Lt(y, x)
		case token.GEQ:
			return Le(y, x)
		case token.SHL:
			if k, ok := y.i64(); ok && k < 63 {
				return ex.wrapP(st, Mul(x, Int(1<<k)), rt)
			}
		case token.SHR:
			if k, ok := y.i64(); ok && k < 63 {
				return Div(x, Int(1<<k))
			}
		case token.AND:
			// x & (2^k - 1) on non-negative values
			if k, ok := y.i64(); ok && k >= 0 && k&(k+1) == 0 {
				return Mod(x, Int(k+1))
			}
			if k, ok := x.i64(); ok && k >= 0 && k&(k+1) == 0 {
				return Mod(y, Int(k+1))
			}
		}
		if x.op == OInt && y.op == OInt {
			var z = bigI(0)
			switch op {
			case token.AND:
				return IntB(z.And(x.iv, y.iv))
			case token.OR:
				return IntB(z.Or(x.iv, y.iv))
			case token.XOR:
				return IntB(z.Xor(x.iv, y.iv))
			}
		}
		return mkTerm(OBits, SInt, op.String()+rt.String(), nil, nil, []*Term{x, y}, rt)
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
	case SSeq:
		switch op {
		case token.ADD:
			return Concat(x, y)
		default:
			switch op {
			case token.LSS:
				return App("strless", SBool, nil, x, y)
			case token.GTR:
				return App("strless", SBool, nil, y, x)
			case token.LEQ:
				return Not(App("strless", SBool, nil, y, x))
			case token.GEQ:
				return Not(App("strless", SBool, nil, x, y))
			}
		}
	case SU:
		return App("fop"+op.String(), sortOf(rt), rt, x, y)
	}
	ex.unsupported(st, in, "operator "+op.String())
	return Int(0)
}

// divRem is truncated division.
func (ex *Exec) divRem(st *State, op token.Token, x, y *Term, rt types.Type) *Term {
	_, signed, _ := intTypeInfo(rt)
	nn := func(t *Term) bool {
		if knownNonNeg(t) {
			return true
		}
		g := Le(Int(0), t)
		return quick(st.pc, g) == 1 || solver.valid(st.facts(), g)
	}
	if !signed || nn(x) && nn(y) {
		if op == token.QUO {
			return Div(x, y)
		}
		return Mod(x, y)
	}
	if y.op == OInt && y.iv.Sign() > 0 {
		neg := Lt(x, Int(0))
		q := Ite(neg, Neg(Div(Neg(x), y)), Div(x, y))
		if op == token.QUO {
			return q
		}
		return Ite(neg, Neg(Mod(Neg(x), y)), Mod(x, y))
	}
	return mkTerm(OBits, SInt, op.String()+rt.String(), nil, nil, []*Term{x, y}, rt)
}

func (ex *Exec) eqTerm(st *State, x, y *Term, t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Slice:
		// only comparison with nil
		if x == NilSlice {
			return SlNil(y)
		}
		return SlNil(x)
	case *types.Map:
		m := x
		if x == MapNil {
			m = y
		}
		if m == MapNil {
			return True
		}
		if m.op == OAddr {
			return False
		}
		return App("mapisnil", SBool, nil, m)
	case *types.Interface:
		if x.op == ONil || y.op == ONil {
			return Eq(x, y)
		}
		if x.op == OErr || y.op == OErr {
			// unknown identity
			if x == y {
				return App("erreq", SBool, nil, x, y)
			}
			return And(Eq(IsNil(x), IsNil(y)), Or(IsNil(x), App("erreq", SBool, nil, x, y)))
		}
	case *types.Basic:
		if sortOf(t) == SU {
			return App("feq", SBool, nil, x, y)
		}
	}
	return Eq(x, y)
}

func (ex *Exec) convert(st *State, in *ssa.Convert) {
	x := ex.val(st, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		st.regs[in] = ex.wrapP(st, x, to)
	case fs == SSeq && ts == SSeq:
		st.regs[in] = x
	case fs == SSeq && ts == SU: // string -> []byte
		if s, ok := to.(*types.Slice); ok && isByte(s.Elem()) {
			st.regs[in] = Sl(False, x)
			return
		}
		ex.unsupported(st, in, "conversion to "+in.Type().String())
	case fs == SU && ts == SSeq: // []byte -> string
		if s, ok := from.(*types.Slice); ok && isByte(s.Elem()) {
			st.regs[in] = st.freeze(st.seqOf(x))
			return
		}
		ex.unsupported(st, in, "conversion from "+in.X.Type().String())
	case fs == SInt && ts == SSeq: // rune -> string
		st.regs[in] = encRune(st, x)
	case fs == SInt && ts == SU:
		st.regs[in] = App("itof", SU, in.Type(), x)
	case fs == SU && ts == SInt:
		st.regs[in] = App("ftoi:"+in.Type().String(), SInt, in.Type(), x)
	case fs == SU && ts == SU:
		st.regs[in] = x
	default:
		ex.unsupported(st, in, "conversion")
	}
}

// keyRec is the structure which stands for a map whose keys are all written
// out: per key the value and whether it is there.
type keyRec struct {
	typ  *types.Struct
	keys map[*Term]int
}

var keyRecs = map[*ssa.MakeMap]*keyRec{}

func keyRecord(v ssa.Value) *keyRec {
	in, ok := v.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	if r, ok := keyRecs[in]; ok {
		return r
	}
	keyRecs[in] = nil
	m := in.Type().Underlying().(*types.Map)
	if b, ok := m.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return nil
	}
	rec := &keyRec{keys: map[*Term]int{}}
	var fs []*types.Var
	for _, r := range *in.Referrers() {
		var k ssa.Value
		switch r := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Lookup:
			k = r.Index
		case *ssa.MapUpdate:
			if r.Value == v {
				return nil
			}
			k = r.Key
		default:
			return nil
		}
		c, ok := k.(*ssa.Const)
		if !ok {
			return nil
		}
		t := Str(constant.StringVal(c.Value))
		if _, ok := rec.keys[t]; !ok {
			n := strconv.Itoa(len(rec.keys))
			rec.keys[t] = len(rec.keys)
			fs = append(fs, types.NewField(0, nil, "v"+n, m.Elem(), false), types.NewField(0, nil, "ok"+n, types.Typ[types.Bool], false))
		}
	}
	rec.typ = types.NewStruct(fs, nil)
	keyRecs[in] = rec
	return rec
}

func (ex *Exec) nextRange(st *State, in *ssa.Next) []*State {
	it := ex.val(st, in.Iter)
	o := objOf(it)
	if !in.IsString {
		ex.unsupported(st, in, "range over map")
		return nil
	}
	pos := st.heap[o.id]
	s := o.aux
	more := Lt(pos, Len(s))
	var out []*State
	s2 := st.clone()
	st.assume(more)
	if !st.dead {
		rest := Slice(s, pos, Len(s))
		r, w := decodeRune(st, rest)
		st.regs[in] = Tuple(True, pos, r)
		st.heap[o.id] = Add(pos, w)
		out = append(out, st)
	}
	s2.assume(Not(more))
	if !s2.dead {
		s2.regs[in] = Tuple(False, Int(0), Int(0))
		out = append(out, s2)
	}
	return out
}

func (ex *Exec) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	x := ex.val(st, in.X)
	name := in.AssertedType.String()
	if types.IsInterface(in.AssertedType) {
		ex.unsupported(st, in, "assertion to interface")
		return nil
	}
	is := Eq(Tag(x), Int(tagOf(name)))
	v := As(x, name, in.AssertedType)
	if _, ok := in.AssertedType.Underlying().(*types.Pointer); ok && nonNil(v) == false {
		// no interface holds a nil pointer: checked where one is made
		st.axiom(Implies(is, Not(IsNil(v))))
	}
	if !in.CommaOk {
		ex.oblige(st, "type-assert", in, is)
		st.regs[in] = v
		return []*State{st}
	}
	s2 := st.clone()
	st.assume(is)
	s2.assume(Not(is))
	var out []*State
	if !st.dead {
		st.regs[in] = Tuple(v, True)
		out = append(out, st)
	}
	if !s2.dead {
		s2.regs[in] = Tuple(zeroOf(in.AssertedType), False)
		out = append(out, s2)
	}
	return out
}

// ---- calls

func (ex *Exec) call(st *State, in *ssa.Call) []Ret {
	c := &in.Call
	var args []*Term
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for _, a := range c.Args {
			args = append(args, ex.val(st, a))
		}
		return ex.builtin(st, in, b, args)
	}
	if c.IsInvoke() {
		recv := ex.val(st, c.Value)
		for _, a := range c.Args {
			args = append(args, ex.val(st, a))
		}
		return ex.invoke(st, in, recv, c.Method, args)
	}
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	if f := c.StaticCallee(); f != nil {
		var bs []*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			bs = ex.val(st, mc).args
		}
		return ex.callFn(st, in, f, args, bs)
	}
	fv := ex.val(st, c.Value)
	if fv.op == OFunc {
		return ex.callFn(st, in, funcByTerm[fv], args, fv.args)
	}
	if ex.feed != nil && fv.op == OApp && fv.name == "partfn" {
		return ex.feedCall(st, fv, args[0])
	}
	ex.unsupported(st, in, "call of unknown function value")
	return nil
}

func (ex *Exec) callFn(st *State, in *ssa.Call, f *ssa.Function, args, bs []*Term) []Ret {
	if s := specOf[f]; s != nil {
		return ex.callSpec(st, in, s, args)
	}
	if rs, ok := ex.external(st, in, f, args); ok {
		return rs
	}
	if f.Pkg == icsPkg || f.Pkg == parPkg || f.Synthetic != "" {
		if f.Pkg == icsPkg && ex.mode == mCode {
			if c := contracts[funcKey(f)]; c != nil && c.fn == f && !ex.inlineOnly(f) {
				return ex.applyContract(st, in, c, args)
			}
		}
		if len(f.Blocks) > 0 {
			if ex.mode == mCode {
				ex.noteInlined(f)
			}
			return ex.callBody(st, f, args, bs)
		}
	}
	if ex.mode != mCode {
		panic(giveUp{"specification calls " + f.String()})
	}
	ex.unsupported(st, in, "no contract for "+f.String())
	return nil
}

var inlined = map[string]bool{}

func (ex *Exec) noteInlined(f *ssa.Function) { inlined[f.String()] = true }

func (ex *Exec) inlineOnly(f *ssa.Function) bool { return false }

func (ex *Exec) invoke(st *State, in *ssa.Call, recv *Term, m *types.Func, args []*Term) []Ret {
	if rs, ok := ex.ghostInvoke(st, in, recv, m, args); ok {
		return rs
	}
	if recv.op == OIface {
		t := typeByName(recv.name)
		if t == nil {
			ex.unsupported(st, in, "method of "+recv.name)
			return nil
		}
		f := prog.LookupMethod(t, m.Pkg(), m.Name())
		if f == nil {
			ex.unsupported(st, in, "no method "+m.Name())
			return nil
		}
		return ex.callFn(st, in, f, append([]*Term{recv.args[0]}, args...), nil)
	}
	// symbolic interface: split over the implementations in the package
	ex.oblige(st, "nil-deref", in, Not(IsNil(recv)))
	it := in.Call.Value.Type().Underlying().(*types.Interface)
	var out []Ret
	rest := st
	known := True
	for _, t := range implementers(it) {
		is := Eq(Tag(recv), Int(tagOf(t.String())))
		known = And(known, Not(is))
		s := rest.clone()
		s.assume(is)
		if s.dead || (quick(s.pc, is) != 1) {
			continue
		}
		if !s.dead && solver.check(s.facts()) == resUnsat {
			continue
		}
		f := prog.LookupMethod(t, m.Pkg(), m.Name())
		v := As(recv, t.String(), t)
		if _, ok := t.(*types.Pointer); ok {
			// no interface holds a nil pointer: checked where one is made
			s.axiom(Not(IsNil(v)))
		}
		if mutates(f) {
			// the pointee is owned through the interface: give it an object
			o := newObj(t.(*types.Pointer).Elem(), "", "owned")
			s.substHeap(recv, Iface(t.String(), addrOf(o)))
			s.heap[o.id] = Deref(v, o.typ)
			v = addrOf(o)
		}
		out = append(out, ex.callFn(s, in, f, append([]*Term{v}, args...), nil)...)
	}
	if solver.check(append(st.facts(), known)) != resUnsat {
		s := st.clone()
		s.assume(known)
		ex.oblige(s, "dynamic-type", in, False)
	}
	return out
}

// substHeap replaces a value in registers and heap.
func (s *State) substHeap(from, to *Term) {
	memo := map[*Term]*Term{}
	f := func(x *Term) *Term {
		if x == from {
			return to
		}
		return nil
	}
	for k, v := range s.regs {
		s.regs[k] = mapTerm(v, memo, f)
	}
	for k, v := range s.heap {
		s.heap[k] = mapTerm(v, memo, f)
	}
}

func mutates(f *ssa.Function) bool {
	c := contracts[funcKey(f)]
	return c != nil && (c.kind == "dec" || c.kind == "decsec")
}

var typeNames map[string]types.Type

func initTypeNames() {
	typeNames = map[string]types.Type{}
	for _, p := range []*ssa.Package{icsPkg, parPkg} {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				typeNames[t.Type().String()] = t.Type()
				pt := types.NewPointer(t.Type())
				typeNames[pt.String()] = pt
			}
		}
	}
}

func typeByName(n string) types.Type {
	if typeNames == nil {
		initTypeNames()
	}
	return typeNames[n]
}

func implementers(it *types.Interface) []types.Type {
	if typeNames == nil {
		initTypeNames()
	}
	var out []types.Type
	var names []string
	for n := range typeNames {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := typeNames[n]
		if types.IsInterface(t) {
			continue
		}
		if _, ok := t.(*types.Pointer); !ok {
			continue
		}
		if types.Implements(t, it) {
			out = append(out, t)
		}
	}
	return out
}

func (ex *Exec) builtin(st *State, in *ssa.Call, b *ssa.Builtin, args []*Term) []Ret {
	one := func(t *Term) []Ret { return []Ret{{st, []*Term{t}}} }
	switch b.Name() {
	case "len":
		switch u := in.Call.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return one(Len(args[0]))
		case *types.Slice:
			return one(sliceLen(st, args[0]))
		case *types.Array:
			return one(Int(u.Len()))
		case *types.Pointer:
			return one(Int(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Map:
			m := st.freeze(args[0])
			if m == MapNil {
				return one(Int(0))
			}
			t := App("maplen", SInt, intType, m)
			st.assume(Le(Int(0), t))
			return one(t)
		}
	case "cap":
		t := fresh("cap", intType)
		st.assume(Le(sliceLen(st, args[0]), t))
		return one(t)
	case "append":
		a, bb := args[0], args[1]
		var bs *Term
		if sortOf(in.Call.Args[1].Type()) == SSeq {
			bs = bb
		} else {
			bs = st.freezeElems(st.seqOf(bb))
		}
		as := st.freezeElems(st.seqOf(a))
		nf := SlNil(a)
		ln := Len(bs)
		if lo, _ := bounds(ln); lo != nil && lo.Sign() > 0 {
			nf = False
		} else {
			nf = And(nf, Eq(ln, Int(0)))
		}
		return one(Sl(nf, Concat(as, bs)))
	case "copy":
		d := args[0]
		if d.op != ORS && Len(SlSeq(d)) == Int(0) {
			return one(Int(0))
		}
		if d.op != ORS {
			ex.oblige(st, "frame", in, False)
			return nil
		}
		var bs *Term
		if sortOf(in.Call.Args[1].Type()) == SSeq {
			bs = args[1]
		} else {
			bs = st.freezeElems(st.seqOf(args[1]))
		}
		ld, ls := sliceLen(st, d), Len(bs)
		n := Ite(Le(ls, ld), ls, ld)
		if solver.valid(st.facts(), Le(ls, ld)) {
			n = ls
		} else if solver.valid(st.facts(), Le(ld, ls)) {
			n = ld
		}
		if objOf(d.args[0]).ro || len(d.args[0].args) != 1 {
			ex.oblige(st, "frame", in, False)
			return nil
		}
		o := objOf(d.args[0])
		c := st.heap[o.id]
		lo := d.args[1]
		st.heap[o.id] = Concat(Slice(c, Int(0), lo), Slice(bs, Int(0), n), Slice(c, Add(lo, n), Len(c)))
		return one(n)
	case "min", "max":
		if sortOf(in.Type()) == SInt {
			r := args[0]
			for _, a := range args[1:] {
				c := Le(r, a)
				if b.Name() == "max" {
					c = Le(a, r)
				}
				r = Ite(c, r, a)
			}
			return one(r)
		}
	case "print", "println":
		return []Ret{{st, nil}}
	case "panic":
		ex.oblige(st, "no-panic", in, False)
		return nil
	case "ssa:wrapnilchk":
		ex.oblige(st, "nil-deref", in, Not(IsNil(args[0])))
		return one(args[0])
	}
	ex.unsupported(st, in, "builtin "+b.Name())
	return nil
}

// freezeElems keeps the structure of a sequence but leaves element pointers.
func (s *State) freezeElems(t *Term) *Term { return t }
