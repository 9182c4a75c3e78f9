package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loc is a place whose value may change from one iteration to the next.
type Loc struct {
	phi  *ssa.Phi
	obj  *Obj
	path []int
	typ  types.Type
}

func (l *Loc) key() string {
	if l.phi != nil {
		return "phi:" + l.phi.Name()
	}
	var b strings.Builder
	fmt.Fprintf(&b, "obj:%d", l.obj.id)
	for _, p := range l.path {
		fmt.Fprintf(&b, ".%d", p)
	}
	return b.String()
}

func (l *Loc) name() string {
	if l.phi != nil {
		if l.phi.Comment != "" {
			return l.phi.Comment
		}
		return l.phi.Name()
	}
	return l.obj.name
}

func (l *Loc) terms() []*Term {
	var ts []*Term
	t := l.obj.typ
	for _, p := range l.path {
		s := t.Underlying().(*types.Struct)
		ts = append(ts, fldT(p, s.NumFields()))
		t = s.Field(p).Type()
	}
	return ts
}

func (l *Loc) get(st *State) *Term {
	if l.phi != nil {
		return st.regs[l.phi]
	}
	c := st.content(l.obj)
	return readPath(c, l.obj.typ, l.terms())
}

func (l *Loc) set(st *State, v *Term) {
	if l.phi != nil {
		st.regs[l.phi] = v
		return
	}
	c := st.content(l.obj)
	st.heap[l.obj.id] = writePath(c, l.obj.typ, l.terms(), v)
}

const (
	shFresh = iota
	shAppend
	shFill
	shEmpty // empty at the head of every iteration
)

type modLoc struct {
	loc    *Loc
	shape  int
	idx    *modLoc // for shFill
	entry  *Term   // frozen value at loop entry
	d      *Term   // head accumulation for append and fill
	noFill bool
	tried  map[string]bool
	head   *Term
}

type loopCtx struct {
	ex    *Exec
	fr    *Frame
	l     *Loop
	entry *State
	mods  []*modLoc
	byKey map[string]*modLoc
	invs  []*inv
	rules *Rule
	roots []Root
	same  map[[2]*Term]bool
	backs []*State
	fill  bool
}

// inv is a candidate fact over the modified locations.
type inv struct {
	t    *Term // over the head symbols of the generation pass
	syms map[*Term]*modLoc
	accs map[*Term]*modLoc // accumulated parts
	name string
}

func stripPrefix(v, pre *Term) (*Term, bool) {
	x, p := parts(v), parts(pre)
	x = append([]*Term{}, x...)
	for i, e := range p {
		if len(x) == 0 {
			return nil, false
		}
		if x[0] == e {
			x = x[1:]
			continue
		}
		if x[0].op == OStr && e.op == OStr && strings.HasPrefix(x[0].name, e.name) {
			x[0] = Str(x[0].name[len(e.name):])
			continue
		}
		_ = i
		return nil, false
	}
	return Concat(x...), true
}

func seqPart(t *Term, typ types.Type) *Term {
	if t.sort == SSeq {
		return t
	}
	return SlSeq(t)
}

func isSeqLike(typ types.Type) bool {
	if typ == nil {
		return false
	}
	switch typ.Underlying().(type) {
	case *types.Slice:
		return true
	}
	return sortOf(typ) == SSeq
}

// ---- entry point

func (ex *Exec) constHeader(l *Loop, st *State) (bool, bool) {
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false, false
	}
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.Call:
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				return false, false
			}
		default:
			return false, false
		}
	}
	s := st.clone()
	ex.dry++
	defer func() { ex.dry-- }()
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.Call:
			for _, r := range ex.call(s, in) {
				if len(r.vals) == 1 {
					s.regs[in] = r.vals[0]
				}
			}
		default:
			ex.instr(s, in)
		}
	}
	c := ex.val(s, iff.Cond)
	if c.op != OBool {
		return false, false
	}
	return true, l.blocks[h.Succs[boolIdx(c == True)]]
}

func boolIdx(b bool) int {
	if b {
		return 0
	}
	return 1
}

func (ex *Exec) loop(fr *Frame, l *Loop, st *State) ([]arrival, []Ret) {
	if ex.mode != mCode || ex.unrollAll {
		return ex.unroll(fr, l, st, 70, ex.unrollAll)
	}
	if c, stays := ex.constHeader(l, st); c {
		if !stays {
			o, b, r := ex.region(fr, l, st.clone(), nil)
			if len(b) > 0 {
				panic("loop exit with back edge")
			}
			return o, r
		}
		if ex.unrollable(fr, l, st) {
			return ex.unroll(fr, l, st, 70, false)
		}
	}
	if peel {
		outs, backs, rets := ex.region(fr, l, st.clone(), nil)
		for _, b := range backs {
			lc := &loopCtx{ex: ex, fr: fr, l: l, entry: b, byKey: map[string]*modLoc{}}
			o, r := lc.run()
			outs = append(outs, o...)
			rets = append(rets, r...)
		}
		return outs, rets
	}
	lc := &loopCtx{ex: ex, fr: fr, l: l, entry: st, byKey: map[string]*modLoc{}}
	return lc.run()
}

func (ex *Exec) unrollable(fr *Frame, l *Loop, st *State) bool {
	ex.dry++
	ex.noR++
	defer func() { ex.dry--; ex.noR-- }()
	s := st.clone()
	for i := 0; i < 70; i++ {
		c, stays := ex.constHeader(l, s)
		if !c {
			return false
		}
		if !stays {
			return true
		}
		_, b, _ := ex.region(fr, l, s.clone(), nil)
		if len(b) == 0 {
			return true
		}
		if len(b) > 1 {
			return false
		}
		s = b[0]
	}
	return false
}

func (ex *Exec) unroll(fr *Frame, l *Loop, st *State, limit int, prune bool) (outs []arrival, rets []Ret) {
	cur := []*State{st}
	sp := ex.prune
	if prune {
		ex.prune = true
	}
	defer func() { ex.prune = sp }()
	for i := 0; len(cur) > 0; i++ {
		if i > limit {
			panic(giveUp{"loop not unrolled within the limit in " + fr.fn.String()})
		}
		var next []*State
		for _, s := range cur {
			o, b, r := ex.region(fr, l, s, nil)
			outs = append(outs, o...)
			rets = append(rets, r...)
			next = append(next, b...)
		}
		if prune {
			var keep []*State
			for _, s := range next {
				if solver.check(s.facts()) != resUnsat {
					keep = append(keep, s)
				}
			}
			next = keep
		}
		cur = next
	}
	return
}

// ---- invariant inference

func (c *loopCtx) phis() []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range c.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

// head builds the state at the loop head with the modified places unknown.
func (c *loopCtx) head() *State {
	h := c.entry.clone()
	for _, m := range c.mods {
		if m.shape == shFill {
			continue
		}
		c.havoc(h, m)
	}
	for _, m := range c.mods {
		if m.shape == shFill {
			c.havoc(h, m)
		}
	}
	for _, i := range c.invs {
		h.assume(c.instInv(i, func(m *modLoc) *Term { return m.head }, &view{c: c, st: h, head: true}))
	}
	return h
}

func (c *loopCtx) havoc(h *State, m *modLoc) {
	typ := m.loc.typ
	switch m.shape {
	case shAppend:
		if m.d == nil {
			m.d = fresh("acc_"+m.loc.name(), nil)
			m.d = mkTerm(OSym, SSeq, m.d.name+"s", nil, nil, nil, nil)
		}
		if m.entry.sort == SSeq {
			m.head = Concat(m.entry, m.d)
		} else {
			m.head = Sl(And(SlNil(m.entry), Eq(Len(m.d), Int(0))), Concat(SlSeq(m.entry), m.d))
		}
	case shEmpty:
		if m.head == nil {
			m.head = Empty
			if m.entry.sort != SSeq {
				m.head = Sl(SlNil(fresh("loop_"+m.loc.name(), typ)), Empty)
			}
		}
	case shFill:
		n := m.idx.head
		k := Sub(n, m.idx.entry)
		if m.d == nil {
			t := fresh("fill_"+m.loc.name(), nil)
			m.d = mkTerm(OSym, SSeq, t.name+"s", nil, nil, nil, nil)
			m.d.lenT = k
		}
		m.head = Concat(m.d, Slice(m.entry, k, Len(m.entry)))
	default:
		if m.head == nil {
			m.head = fresh("loop_"+m.loc.name(), typ)
		}
	}
	m.loc.set(h, m.head)
}

// resetSyms forgets the head symbols after the set of places changed shape.
func (m *modLoc) reset() { m.d, m.head = nil, nil }

func (c *loopCtx) add(l *Loc, shape int) *modLoc {
	m := &modLoc{loc: l, shape: shape, entry: c.entry.freeze(l.get(c.entry))}
	c.mods = append(c.mods, m)
	c.byKey[l.key()] = m
	return m
}

// note records that a place changed from hv to bv.
func (c *loopCtx) note(l *Loc, h, b *State, hv, bv *Term) bool {
	if hv == bv {
		return false
	}
	k := l.key()
	m := c.byKey[k]
	fb := b.freeze(bv)
	if m == nil {
		shape := shFresh
		e := c.entry.freeze(l.get(c.entry))
		if isSeqLike(l.typ) && fb.op != OIte {
			if seqPart(e, l.typ) == Empty && seqPart(fb, l.typ) == Empty {
				shape = shEmpty
			} else if _, ok := stripPrefix(seqPart(fb, l.typ), seqPart(e, l.typ)); ok {
				shape = shAppend
			}
		}
		if l.obj != nil && shape == shFresh && isSeqLike(l.typ) {
			if _, ok := l.typ.Underlying().(*types.Array); ok {
				shape = shFill // decided once an index is known
			}
		}
		m = c.add(l, shape)
		if shape == shFill {
			m.shape = shFresh
			if c.fill {
				m.wantFill(c)
			}
		}
		return true
	}
	if m.head == nil {
		return true // changed shape in this round
	}
	switch m.shape {
	case shAppend:
		x, ok := stripPrefix(seqPart(fb, l.typ), seqPart(m.entry, l.typ))
		if ok && m.entry.sort != SSeq {
			ok = c.ex.holds(b, Eq(SlNil(fb), And(SlNil(m.entry), Eq(Len(x), Int(0)))))
		}
		if !ok {
			m.shape = shFresh
			m.reset()
			return true
		}
	case shEmpty:
		if seqPart(fb, l.typ) != Empty {
			m.shape = shAppend
			m.reset()
			return true
		}
	case shFill:
		if _, ok := c.fillBack(m, b); !ok {
			m.shape = shFresh
			m.idx = nil
			m.reset()
			return true
		}
	case shFresh:
		// an array filled at an index
		if c.fill && m.idx == nil && l.obj != nil && !m.noFill {
			if _, ok := l.typ.Underlying().(*types.Array); ok && m.wantFill(c) {
				return true
			}
		}
	}
	return false
}

// wantFill tries to see the array as filled up to some index.
func (m *modLoc) wantFill(c *loopCtx) bool {
	for _, i := range c.mods {
		if i.loc.typ != nil && i != m && sortOf(i.loc.typ) == SInt && !m.tried[i.loc.key()] {
			if m.tried == nil {
				m.tried = map[string]bool{}
			}
			m.tried[i.loc.key()] = true
			m.shape, m.idx = shFill, i
			m.reset()
			return true
		}
	}
	return false
}

func (c *loopCtx) fillBack(m *modLoc, b *State) (*Term, bool) {
	v := b.freeze(m.loc.get(b))
	k := Sub(b.freeze(m.idx.loc.get(b)), m.idx.entry)
	suffix := Slice(m.entry, k, Len(m.entry))
	x, s := parts(v), parts(suffix)
	if len(s) == 0 {
		return v, true
	}
	if len(x) >= len(s) {
		ok := true
		for i := range s {
			if x[len(x)-len(s)+i] != s[i] {
				ok = false
			}
		}
		if ok {
			d := Concat(x[:len(x)-len(s)]...)
			return d, c.ex.holds(b, Eq(Len(d), k))
		}
	}
	if v.op == OIte {
		d := Slice(v, Int(0), k)
		return d, c.ex.holds(b, Eq(Len(d), k)) && c.ex.holds(b, Eq(Slice(v, k, Len(v)), suffix))
	}
	return nil, false
}

func (ex *Exec) holds(st *State, g *Term) bool {
	return quick(st.pc, g) == 1 || proveGoal(st.pc, g)
}

// diff finds the places changed by an iteration.
func (c *loopCtx) diff(h *State, backs []*State) bool {
	changed := false
	for _, b := range backs {
		for _, p := range c.phis() {
			l := &Loc{phi: p, typ: p.Type()}
			if c.note(l, h, b, h.regs[p], b.regs[p]) {
				changed = true
			}
		}
		var ids []int
		for id := range c.entry.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			o := objs[id]
			hv, bv := h.heap[id], b.heap[id]
			if hv != bv && c.diffLeaf(&Loc{obj: o, typ: o.typ}, h, b, hv, bv) {
				changed = true
			}
		}
	}
	return changed
}

func (c *loopCtx) diffLeaf(l *Loc, h, b *State, hv, bv *Term) bool {
	if hv == bv {
		return false
	}
	if s := structOf(l.typ); s != nil && l.obj.kind != "map" {
		changed := false
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			nl := &Loc{obj: l.obj, path: append(append([]int{}, l.path...), i), typ: ft}
			if c.diffLeaf(nl, h, b, Sel(hv, i, s.NumFields(), ft), Sel(bv, i, s.NumFields(), ft)) {
				changed = true
			}
		}
		return changed
	}
	return c.note(l, h, b, hv, bv)
}

func (c *loopCtx) body(h *State, dry, noR bool, roots []Root, rules *Rule) ([]arrival, []*State, []Ret) {
	ex := c.ex
	if dry {
		ex.dry++
		defer func() { ex.dry-- }()
	}
	if noR {
		ex.noR++
		defer func() { ex.noR-- }()
	}
	if roots != nil {
		sr := ex.roots
		ex.roots = roots
		defer func() { ex.roots = sr }()
	}
	s := h.clone()
	s.rules = rules
	o, b, r := ex.region(c.fr, c.l, s, nil)
	var live []*State
	for _, x := range b {
		if !x.dead {
			live = append(live, x)
		}
	}
	return o, live, r
}

func (c *loopCtx) instInv(i *inv, f func(*modLoc) *Term, v *view) *Term {
	bad := false
	g := mapTerm(i.t, map[*Term]*Term{}, func(t *Term) *Term {
		if m, ok := i.syms[t]; ok {
			return f(m)
		}
		if m, ok := i.accs[t]; ok {
			if a := v.acc(m); a != nil && m.shape == shAppend {
				return a
			}
			bad = true
		}
		return nil
	})
	if bad {
		// not a fact any more
		return BoolT(v.head)
	}
	return g
}

// settle finds the places changed by the loop.
func (c *loopCtx) settle() (*State, []*State) {
	for i := 0; i < 25; i++ {
		h := c.head()
		_, backs, _ := c.body(h, true, true, nil, c.entry.rules)
		if !c.diff(h, backs) {
			return h, backs
		}
	}
	panic(giveUp{"loop analysis does not settle in " + c.fr.fn.String()})
}

func (c *loopCtx) run() ([]arrival, []Ret) {
	ex := c.ex
	// places changed by the loop
	h, backs := c.settle()
	c.genInvs(h, backs)
	// keep the facts which are inductive
	for len(c.invs) > 0 {
		h = c.head()
		_, backs, _ = c.body(h, true, true, nil, c.entry.rules)
		var keep []*inv
		for _, i := range c.invs {
			ok := true
			for _, b := range backs {
				g := c.instInv(i, func(m *modLoc) *Term { return b.freeze(m.loc.get(b)) }, &view{c: c, st: b})
				if quick(b.pc, g) != 1 && !solver.valid(b.facts(), g) {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, i)
			}
		}
		if len(keep) == len(c.invs) {
			break
		}
		c.invs = keep
	}
	// arrays filled up to an index
	for _, m := range c.mods {
		if m.shape == shFresh && m.loc.obj != nil && !m.noFill {
			if _, ok := m.loc.typ.Underlying().(*types.Array); ok {
				c.fill = true
			}
		}
	}
	if c.fill {
		h, backs = c.settle()
	}
	c.backs = backs
	c.lineShapes(backs)
	c.aliased(backs)
	rules := c.entry.rules
	roots := append([]Root{}, ex.roots...)
	if ex.noR == 0 {
		for _, r := range c.findRules() {
			r.up = rules
			rules = r
			roots = append(roots, Root{r.fn, r.args})
		}
	}
	h = c.head()
	h.rules = rules
	outs, backs, rets := c.body(h, false, false, roots, rules)
	if ex.dry == 0 {
		c.termination(backs)
	}
	for _, m := range c.mods {
		if m.shape != shFill {
			continue
		}
		rest := Sub(Len(m.head), Len(m.d))
		for _, o := range outs {
			if !o.st.dead && m.loc.get(o.st) == m.head && ex.holds(o.st, Eq(rest, Int(0))) {
				m.loc.set(o.st, m.d)
			}
		}
	}
	return outs, rets
}

// lineShapes finds collections to which only well-formed lines are added.
func (c *loopCtx) lineShapes(backs []*State) {
	ex := c.ex
	for _, m := range c.mods {
		if m.shape != shAppend || m.d == nil {
			continue
		}
		if e := elemType(m.loc.typ); e == nil || !types.Identical(e, phraseType) {
			continue
		}
		if ex.okLines == nil {
			ex.okLines = map[*Term]bool{}
		}
		ex.okLines[m.d] = true
		for _, b := range backs {
			x := (&view{c: c, st: b}).acc(m)
			if x == nil || !ex.linesOK(b, x) {
				delete(ex.okLines, m.d)
				break
			}
		}
	}
}

// aliased gives up on loops which carry the address of a variable from one
// iteration to the next in more than one place, or that of a variable which
// exists outside of the loop: such values are taken to own what they point to.
func (c *loopCtx) aliased(backs []*State) {
	for _, b := range backs {
		in := map[int]*modLoc{}
		for _, m := range c.mods {
			seen := map[*Term]bool{}
			var walk func(t *Term)
			walk = func(t *Term) {
				if seen[t] || !hasRef(t) {
					return
				}
				seen[t] = true
				if t.op == OAddr && objOf(t).kind == "" {
					id := objOf(t).id
					_, outer := c.entry.heap[id]
					if o := in[id]; outer || o != nil && o != m {
						panic(giveUp{"shared memory carried around the loop in " + c.fr.fn.String()})
					}
					in[id] = m
					if v := b.heap[id]; v != nil {
						walk(v)
					}
				}
				for _, a := range t.args {
					walk(a)
				}
			}
			walk(m.loc.get(b))
		}
	}
}

// ---- numeric facts

func (c *loopCtx) genInvs(h *State, backs []*State) {
	seen := map[*Term]bool{}
	add := func(t *Term, name string) {
		if t.op == OBool || seen[t] {
			return
		}
		seen[t] = true
		syms, accs := map[*Term]*modLoc{}, map[*Term]*modLoc{}
		for _, m := range c.mods {
			if m.head.op == OSym {
				syms[m.head] = m
			}
			if m.d != nil {
				// accumulated parts are only counted
				if mentions(t, m.d) && (name != "count" && name != "tokens" || m.shape != shAppend) {
					return
				}
				accs[m.d] = m
			}
		}
		i := &inv{t: t, syms: syms, accs: accs, name: name}
		e := c.instInv(i, func(m *modLoc) *Term { return m.entry }, &view{c: c, ent: true})
		if e == True || quick(c.entry.pc, e) == 1 || solver.valid(c.entry.facts(), e) {
			c.invs = append(c.invs, i)
		}
	}
	var ints []*modLoc
	for _, m := range c.mods {
		if m.loc.typ != nil && m.head.op == OSym && m.head.sort == SInt {
			ints = append(ints, m)
		}
	}
	for _, m := range ints {
		add(Le(m.entry, m.head), "lower")
		add(Le(m.head, m.entry), "upper")
		add(Le(Int(0), m.head), "nonneg")
	}
	for _, m := range c.mods {
		if m.loc.obj != nil && m.loc.obj.kind == "stream" && m.head.op == OSym {
			add(Le(Len(m.head), Len(m.entry)), "consumed")
		}
	}
	for _, b := range backs {
		sub := map[*Term]*Term{}
		for _, m := range ints {
			d := Sub(unwrap(b.freeze(m.loc.get(b))), m.head)
			if d.op == OInt {
				sub[m.head] = Sub(m.head, d)
			}
		}
		for _, f := range extras(b.pc, commonPC(b.pc, c.entry.pc)) {
			f = unwrap(f)
			n := f
			if f.op == ONot {
				n = f.args[0]
			}
			if n.op != OLe && n.op != OEq && f.op != OOr {
				continue
			}
			hit := false
			for s := range sub {
				if mentions(f, s) {
					hit = true
				}
			}
			if hit {
				add(mapTerm(f, map[*Term]*Term{}, func(t *Term) *Term { return sub[t] }), "guard")
				if n.op == OLe {
					add(f, "guard0")
				}
			}
		}
	}
	for _, b := range backs {
		for _, f := range extras(b.pc, commonPC(b.pc, c.entry.pc)) {
			if f = unwrap(f); f.op != OLe {
				continue
			}
			for _, m := range ints {
				if mentions(f, m.head) {
					add(Le(f.args[0], Add(f.args[1], Int(1))), "bound")
					break
				}
			}
		}
	}
	// one element added to a list in every iteration
	for _, a := range c.mods {
		if a.shape != shAppend || a.d == nil {
			continue
		}
		if _, ok := a.loc.typ.Underlying().(*types.Slice); !ok {
			continue
		}
		for _, m := range ints {
			up := len(backs) > 0
			for _, b := range backs {
				up = up && Sub(unwrap(b.freeze(m.loc.get(b))), m.head) == Int(1)
			}
			if up {
				add(Eq(Len(a.d), Sub(m.head, m.entry)), "count")
			}
		}
	}
	c.ghostInvs(h, add)
	// an interface holding nothing or one of the types assigned in the loop
	for _, m := range c.mods {
		if m.loc.typ == nil || m.head.op != OSym || !types.IsInterface(m.loc.typ) || isErrorType(m.loc.typ) {
			continue
		}
		tags := []*Term{Int(0)}
		ok := true
		var leaf func(t *Term)
		leaf = func(t *Term) {
			switch {
			case t == m.head || t == Nil:
			case t.op == OIface:
				tags = append(tags, Int(tagOf(t.name)))
			case t.op == OIte:
				leaf(t.args[1])
				leaf(t.args[2])
			default:
				ok = false
			}
		}
		for _, b := range backs {
			leaf(b.freeze(m.loc.get(b)))
		}
		if ok {
			d := False
			for _, t := range tags {
				d = Or(d, Eq(Tag(m.head), t))
			}
			add(d, "dynamic types")
		}
	}
	// one of the values assigned in the loop
	for _, m := range ints {
		if m.entry.op != OInt {
			continue
		}
		vals := []*Term{m.entry}
		ok := true
		var leaf func(t *Term)
		leaf = func(t *Term) {
			switch {
			case t == m.head:
			case t.op == OInt:
				for _, v := range vals {
					if v == t {
						return
					}
				}
				vals = append(vals, t)
			case t.op == OIte:
				leaf(t.args[1])
				leaf(t.args[2])
			default:
				ok = false
			}
		}
		for _, b := range backs {
			leaf(b.freeze(m.loc.get(b)))
		}
		if ok && len(vals) < 20 {
			d := False
			for _, v := range vals {
				d = Or(d, Eq(m.head, v))
			}
			add(d, "values")
			// unchanged until a flag is
			for _, b := range c.mods {
				if m.loc.phi != nil && b.loc.phi != nil && b.head.op == OSym && b.head.sort == SBool && b.entry.op == OBool {
					add(Or(Not(Eq(b.head, b.entry)), Eq(m.head, m.entry)), "flagged")
				}
			}
		}
	}
}

// unwrap reads machine arithmetic as mathematical; used for guesses only.
func unwrap(t *Term) *Term {
	return mapTerm(t, map[*Term]*Term{}, func(x *Term) *Term {
		if x.op == OWrap {
			return unwrap(x.args[0])
		}
		return nil
	})
}

func mentions(t, s *Term) bool {
	seen := map[*Term]bool{}
	var walk func(*Term) bool
	walk = func(x *Term) bool {
		if x == s {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		return x.lenT != nil && walk(x.lenT)
	}
	return walk(t)
}

// ---- relations with the specification

// opt gives the value of an argument at the entry, the head or a back edge.
type opt func(v *view) *Term

type view struct {
	c    *loopCtx
	st   *State
	head bool
	ent  bool
}

func (v *view) val(m *modLoc) *Term {
	if v.ent {
		return m.entry
	}
	if v.head {
		return v.st.freeze(m.head)
	}
	return v.st.freeze(m.loc.get(v.st))
}

// acc is the part accumulated by an append-only place.
func (v *view) acc(m *modLoc) *Term {
	if v.ent {
		return Empty
	}
	if v.head {
		return m.d
	}
	if m.shape == shFill {
		d, ok := v.c.fillBack(m, v.st)
		if !ok {
			return nil
		}
		return d
	}
	x, ok := stripPrefix(seqPart(v.st.freeze(m.loc.get(v.st)), m.loc.typ), seqPart(m.entry, m.loc.typ))
	if !ok {
		return nil
	}
	return x
}

type cand struct {
	use  appUse
	args []opt
	pre  []*preOpt
}

// preOpt is what has been produced so far: an accumulation, followed by what
// is still to be added to it.
type preOpt struct {
	m    *modLoc
	pend opt
}

func (p *preOpt) at(v *view) *Term {
	x := v.acc(p.m)
	if x != nil && p.pend != nil {
		x = Concat(x, p.pend(v))
	}
	return x
}

// pending lists parts of the input of a loop which may have been taken but not
// yet handed on.
func (c *loopCtx) pending(u appUse) []opt {
	var ints []opt
	for _, m := range c.mods {
		m := m
		if m.head.sort == SInt && m.loc.typ != nil && (m.loc.phi != nil || m.loc.obj.kind == "iter") {
			ints = append(ints, func(v *view) *Term { return v.val(m) })
		}
	}
	var seqs []opt
	for i, a := range u.args {
		typ := u.fn.fn.Params[i].Type()
		if a.sort == SSeq {
			seqs = append(seqs, func(v *view) *Term { return a })
		}
		for _, m := range c.mods {
			m := m
			if a.sort == SSeq && isSeqLike(m.loc.typ) && (m.entry == a || m.entry.sort != SSeq && SlSeq(m.entry) == a) && sameElem(typ, m.loc.typ) {
				seqs = append(seqs, func(v *view) *Term { return seqPart(v.val(m), m.loc.typ) })
			}
		}
	}
	zero := func(v *view) *Term { return Int(0) }
	var out []opt
	for _, s := range seqs {
		for _, hi := range ints {
			for _, lo := range append([]opt{zero}, ints...) {
				s, hi, lo := s, hi, lo
				p := func(v *view) *Term { return Slice(s(v), lo(v), hi(v)) }
				if p(&view{c: c, st: c.entry, ent: true}) == Empty {
					out = append(out, p)
				}
			}
		}
	}
	return out
}

func (c *loopCtx) findRules() []*Rule {
	ex := c.ex
	// applications which the specification cannot evaluate at the entry
	saveC, saveS, saveO := ex.collect, ex.stuck, ex.stuckOrder
	ex.collect, ex.stuck, ex.stuckOrder = true, map[*Term]appUse{}, nil
	ex.collectMemo = map[unfoldKey]unfoldRes{}
	ex.dry++
	for _, r := range ex.roots {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stuckErr); !ok {
						panic(e)
					}
				}
			}()
			if r.fn.recursive && !c.entry.ruled(r.fn, r.args) {
				t := r.fn.apps(r.args)[0]
				if _, ok := ex.stuck[t]; !ok {
					ex.stuck[t] = appUse{r.fn, r.args}
					ex.stuckOrder = append(ex.stuckOrder, t)
				}
			}
			ex.evalRoot(c.entry, r)
		}()
	}
	ex.dry--
	uses, order := ex.stuck, ex.stuckOrder
	ex.collect, ex.stuck, ex.stuckOrder = saveC, saveS, saveO
	var out []*Rule
	found, missed := map[*SpecFn]bool{}, map[*SpecFn]int{}
	for _, t := range order {
		u := uses[t]
		if !u.fn.recursive || found[u.fn] || missed[u.fn] > 2 {
			continue
		}
		if r := c.ruleFor(u); r != nil {
			dbg("rule in %s: %s%v -> %v pre %v", c.fr.fn.Name(), u.fn.name, u.args, r.args, r.pre)
			out = append(out, r)
			found[u.fn] = true
		} else {
			missed[u.fn]++
			dbg("no rule in %s for %s%v", c.fr.fn.Name(), u.fn.name, u.args)
		}
	}
	return out
}

// sameAtEntry reports values which are provably equal where the loop starts.
func (c *loopCtx) sameAtEntry(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.sort != b.sort {
		return false
	}
	k := [2]*Term{a, b}
	r, ok := c.same[k]
	if !ok {
		r = proveGoal(c.entry.pc, Eq(a, b))
		if c.same == nil {
			c.same = map[[2]*Term]bool{}
		}
		c.same[k] = r
	}
	return r
}

// sameParts reports structures whose fields are provably equal where the loop
// starts.
func (c *loopCtx) sameParts(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != OMk || b.op != OMk || len(a.args) != len(b.args) {
		return false
	}
	n := 0
	for i := range a.args {
		if a.args[i] != b.args[i] {
			if n++; n > 3 || a.args[i].sort != SBool && a.args[i].sort != SInt {
				return false
			}
		}
	}
	for i := range a.args {
		if !c.sameAtEntry(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func (c *loopCtx) argOpts(a *Term, typ types.Type) []opt {
	var out []opt
	// a place with this entry value
	for _, m := range c.mods {
		m := m
		if m.entry == a {
			out = append(out, func(v *view) *Term { return v.val(m) })
		}
	}
	if len(out) == 0 && a.sort == SSeq {
		for _, m := range c.mods {
			m := m
			if m.entry.sort == SSeq && c.sameAtEntry(m.entry, a) {
				out = append(out, func(v *view) *Term { return v.val(m) })
			}
		}
	}
	// a whole object
	seenObj := map[int]bool{}
	for _, m := range c.mods {
		if m.loc.obj == nil || len(m.loc.path) == 0 || seenObj[m.loc.obj.id] {
			continue
		}
		seenObj[m.loc.obj.id] = true
		o := m.loc.obj
		if c.sameParts(c.entry.freeze(c.entry.heap[o.id]), a) {
			out = append(out, func(v *view) *Term {
				if v.ent {
					return c.entry.freeze(c.entry.heap[o.id])
				}
				return v.st.freeze(v.st.heap[o.id])
			})
		}
		// a structure inside an object
		for k := 1; k < len(m.loc.path); k++ {
			l := &Loc{obj: o, path: m.loc.path[:k]}
			if c.sameParts(c.entry.freeze(l.get(c.entry)), a) {
				out = append(out, func(v *view) *Term {
					if v.ent {
						return c.entry.freeze(l.get(c.entry))
					}
					return v.st.freeze(l.get(v.st))
				})
				break
			}
		}
	}
	// what is left of the contents of a slice
	if a.sort == SSeq {
		for _, m := range c.mods {
			m := m
			if !isSeqLike(m.loc.typ) || m.entry.sort == SSeq || SlSeq(m.entry) != a {
				continue
			}
			for _, i := range c.mods {
				i := i
				if i.head.sort == SInt && i.loc.phi != nil {
					out = append(out, func(v *view) *Term {
						s := SlSeq(v.val(m))
						return Slice(s, Sub(v.val(i), i.entry), Len(s))
					})
				}
			}
			out = append(out, func(v *view) *Term { return SlSeq(v.val(m)) })
		}
	}
	isSl := a.sort == SU && typ != nil && isSlice(typ)
	// contents of a place seen as a slice
	if isSl {
		for _, m := range c.mods {
			m := m
			if m.loc.obj != nil && m.loc.obj.kind == "stream" && m.entry == SlSeq(a) {
				nf := SlNil(a)
				out = append(out, func(v *view) *Term { return Sl(nf, v.val(m)) })
			}
		}
	}
	for _, m := range c.mods {
		m := m
		if m.head.sort != SInt || m.loc.typ == nil || m.loc.phi == nil && m.loc.obj.kind != "iter" && m.loc.obj.kind != "dep" {
			continue
		}
		s := a
		if isSl {
			s = SlSeq(a)
		}
		if (a.sort == SSeq || isSl) && (m.loc.obj != nil && m.loc.obj.kind == "dep" || c.indexes(m, s)) {
			// the part from an index on
			out = append(out, func(v *view) *Term {
				k := Sub(v.val(m), m.entry)
				if isSl {
					return Sl(SlNil(a), Slice(s, k, Len(s)))
				}
				return Slice(s, k, Len(s))
			})
		}
		if a == True {
			out = append(out, func(v *view) *Term { return Eq(v.val(m), m.entry) })
		}
		if a == False && m.entry.op == OInt {
			out = append(out, func(v *view) *Term { return Not(Eq(v.val(m), m.entry)) })
		}
		if a.op == OInt && m.entry != a {
			out = append(out, func(v *view) *Term { return Add(a, Sub(v.val(m), m.entry)) })
		}
		// a value which counts once a flag is set
		if a.op != OInt || m.loc.phi == nil {
			continue
		}
		for _, b := range c.mods {
			b := b
			if b.loc.phi == nil || b.head.sort != SBool || b.entry != False && b.entry != True {
				continue
			}
			out = append(out, func(v *view) *Term { return Ite(Eq(v.val(b), b.entry), a, v.val(m)) })
		}
	}
	// a flag the other way round
	if a == True || a == False {
		for _, m := range c.mods {
			m := m
			if m.head.sort == SBool && m.entry == Not(a) {
				out = append(out, func(v *view) *Term { return Not(v.val(m)) })
			}
		}
	}
	if a == True {
		for _, m := range c.mods {
			m := m
			if m.shape == shAppend {
				out = append(out, func(v *view) *Term {
					x := v.acc(m)
					if x == nil {
						return False
					}
					return Eq(Len(x), Int(0))
				})
			}
		}
	}
	out = append(out, func(v *view) *Term { return a })
	return out
}

// indexes reports that the loop compares the index with the sequence.
func (c *loopCtx) indexes(m *modLoc, s *Term) bool {
	for _, b := range c.backs {
		for _, f := range extras(b.pc, commonPC(b.pc, c.entry.pc)) {
			if !mentions(f, m.head) {
				continue
			}
			if mentions(f, s) || s.op == OSlice && s.args[0].op == OSlSeq && mentions(f, Len(s.args[0])) {
				return true
			}
			if s.op != OSlice || s.args[2] == Len(s.args[0]) {
				continue
			}
			n := Len(s)
			if n.op == OLin {
				for _, a := range n.args {
					if mentions(f, a) {
						return true
					}
				}
			} else if n.op != OInt && mentions(f, n) {
				return true
			}
		}
	}
	return false
}

func (c *loopCtx) ruleFor(u appUse) *Rule {
	fn := u.fn
	var opts [][]opt
	total := 1
	for i, a := range u.args {
		o := c.argOpts(a, fn.fn.Params[i].Type())
		opts = append(opts, o)
		total *= len(o)
		if total > 4000 {
			return nil
		}
	}
	// accumulated prefixes per result
	var pres [][]*preOpt
	for _, t := range resTypes(fn.fn) {
		ps := []*preOpt{nil}
		if isSeqLike(t) {
			for _, m := range c.mods {
				if (m.shape == shAppend || m.shape == shFill) && sameElem(t, m.loc.typ) {
					ps = append(ps, &preOpt{m: m})
					if m.loc.obj != nil && m.loc.obj.kind == "sink" {
						for _, p := range c.pending(u) {
							ps = append(ps, &preOpt{m, p})
						}
					}
				}
			}
			// accumulations first
			ps = append(ps[1:], nil)
		}
		pres = append(pres, ps)
		total *= len(ps)
	}
	if total > 6000 {
		return nil
	}
	idx := make([]int, len(opts)+len(pres))
	seen := map[string]bool{}
	build := func(idx []int) cand {
		cd := cand{use: u}
		for i := range opts {
			cd.args = append(cd.args, opts[i][idx[i]])
		}
		for i := range pres {
			cd.pre = append(cd.pre, pres[i][idx[len(opts)+i]])
		}
		return cd
	}
	// what worked for this loop before
	mk := ruleKey{c.l, fn}
	for _, g := range goodRules[mk] {
		ok := len(g) == len(idx)
		for i := range g {
			if ok && (i < len(opts) && g[i] >= len(opts[i]) || i >= len(opts) && g[i] >= len(pres[i-len(opts)])) {
				ok = false
			}
		}
		if ok {
			if r := c.tryCand(build(g), seen); r != nil {
				return r
			}
		}
	}
	if c.ex.dry > 0 && len(goodRules[mk]) == 0 && badRules[mk] > 2 {
		return nil
	}
	for {
		if r := c.tryCand(build(idx), seen); r != nil {
			goodRules[mk] = append(goodRules[mk], append([]int{}, idx...))
			return r
		}
		k := 0
		for k < len(idx) {
			idx[k]++
			n := 0
			if k < len(opts) {
				n = len(opts[k])
			} else {
				n = len(pres[k-len(opts)])
			}
			if idx[k] < n {
				break
			}
			idx[k] = 0
			k++
		}
		if k == len(idx) {
			badRules[mk]++
			return nil
		}
	}
}

// sameElem reports sequences which can be parts of one another.
func sameElem(a, b types.Type) bool {
	x, y := elemType(a), elemType(b)
	return x == nil || y == nil || types.Identical(x, y)
}

type ruleKey struct {
	l  *Loop
	fn *SpecFn
}

var (
	goodRules = map[ruleKey][][]int{}
	badRules  = map[ruleKey]int{}
)

func (c *loopCtx) tryCand(cd cand, seen map[string]bool) *Rule {
	ex := c.ex
	h := c.head()
	hv := &view{c: c, st: h, head: true}
	r := &Rule{fn: cd.use.fn, fromArgs: cd.use.args, up: c.entry.rules}
	var key strings.Builder
	changed := false
	for i, o := range cd.args {
		t := o(hv)
		if t != cd.use.args[i] && r.fn.advances(i) {
			changed = true
		}
		r.args = append(r.args, t)
		key.WriteString(strconv.Itoa(t.id))
		key.WriteByte(',')
	}
	if !changed {
		return nil
	}
	for _, m := range cd.pre {
		if m == nil {
			r.pre = append(r.pre, nil)
			key.WriteByte('-')
			continue
		}
		d := m.at(hv)
		r.pre = append(r.pre, d)
		key.WriteString(strconv.Itoa(d.id))
		key.WriteByte(',')
	}
	if seen[key.String()] {
		return nil
	}
	seen[key.String()] = true
	// the entry: by construction the arguments agree and nothing is accumulated
	ev := &view{c: c, st: c.entry, ent: true}
	for i, o := range cd.args {
		if t := o(ev); t != cd.use.args[i] && !c.sameAtEntry(t, cd.use.args[i]) {
			return nil
		}
	}
	h.rules = r
	roots := append(append([]Root{}, ex.roots...), Root{r.fn, r.args})
	_, backs, _ := c.body(h, true, false, roots, r)
	ex.dry++
	defer func() { ex.dry-- }()
	saveRoots := ex.roots
	ex.roots = roots
	defer func() { ex.roots = saveRoots }()
	ts := resTypes(r.fn.fn)
	for _, b := range backs {
		bv := &view{c: c, st: b}
		var bargs []*Term
		for _, o := range cd.args {
			bargs = append(bargs, o(bv))
		}
		lhs := r.fn.apps(bargs)
		bpre := make([]*Term, len(lhs))
		for i, m := range cd.pre {
			if m != nil {
				bpre[i] = m.at(bv)
				if bpre[i] == nil {
					return nil
				}
			}
		}
		ok := func() (ok bool) {
			defer func() {
				if e := recover(); e != nil {
					if g, is := e.(giveUp); is {
						dbg("candidate gives up: %s", g.why)
						ok = false
						return
					}
					if _, is := e.(stuckErr); is {
						ok = false
						return
					}
					panic(e)
				}
			}()
			for _, ret := range ex.evalRoot(b, Root{r.fn, r.args}) {
				if ret.st.dead {
					continue
				}
				// the results at the back edge may themselves be evaluated
				rhs := lhs
				for i := range ret.vals {
					l := prefixed(r.pre[i], ret.vals[i], ts[i])
					q := prefixed(bpre[i], rhs[i], ts[i])
					if !proveGoal(ret.st.pc, Eq(l, q)) {
						rhs2 := ex.evalApp(ret.st, r.fn, bargs)
						q = prefixed(bpre[i], rhs2[i], ts[i])
						if !proveGoal(ret.st.pc, Eq(l, q)) {
							dbg("candidate %s fails on %d: %s vs %s under %v", r.fn.name, i, l, q, ret.st.facts())
							return false
						}
					}
				}
			}
			return true
		}()
		if !ok {
			return nil
		}
	}
	return r
}

// ---- termination

func (c *loopCtx) termination(backs []*State) {
	ex := c.ex
	where := ex.where(c.l.header.Instrs[0])
	for _, in := range c.l.header.Instrs {
		if in.Pos().IsValid() {
			where = ex.where(in)
			break
		}
	}
	if len(backs) == 0 {
		ex.record(c.entry, "termination", where, true, "")
		return
	}
	all := func(f func(b *State) *Term) bool {
		for _, b := range backs {
			g := f(b)
			if g == nil {
				return false
			}
			if quick(b.pc, g) != 1 && !solver.valid(b.facts(), g) {
				return false
			}
		}
		return true
	}
	for _, m := range c.mods {
		m := m
		if isSeqLike(m.loc.typ) && m.shape == shFresh {
			if all(func(b *State) *Term {
				return Lt(Len(seqPart(b.freeze(m.loc.get(b)), m.loc.typ)), Len(seqPart(m.head, m.loc.typ)))
			}) {
				ex.record(c.entry, "termination", where, true, "")
				return
			}
		}
		if m.head.sort == SInt && m.loc.typ != nil {
			if all(func(b *State) *Term {
				v := b.freeze(m.loc.get(b))
				return And(Lt(v, m.head), Le(Int(0), m.head))
			}) {
				ex.record(c.entry, "termination", where, true, "")
				return
			}
			// increasing towards a bound fixed before the loop
			bounds := map[*Term]bool{}
			for _, f := range extras(backs[0].pc, commonPC(backs[0].pc, c.entry.pc)) {
				if f.op == OLe && mentions(f, m.head) {
					// 0 <= d with d = bound - head ...
					b := Add(f.args[1], m.head)
					inv := true
					for _, o := range c.mods {
						if o.head.op == OSym && mentions(b, o.head) || o.d != nil && mentions(b, o.d) {
							inv = false
						}
					}
					if inv {
						bounds[b] = true
					}
				}
			}
			for bd := range bounds {
				if all(func(b *State) *Term {
					v := b.freeze(m.loc.get(b))
					return And(Lt(m.head, v), Le(m.head, bd))
				}) {
					ex.record(c.entry, "termination", where, true, "")
					return
				}
			}
		}
	}
	// sum measures: sequence length minus index
	for _, m := range c.mods {
		for _, q := range c.mods {
			m, q := m, q
			if !isSeqLike(m.loc.typ) || m.shape != shFresh || q.head.sort != SInt || q.loc.typ == nil {
				continue
			}
			if all(func(b *State) *Term {
				m0 := Sub(Len(seqPart(m.head, m.loc.typ)), q.head)
				m1 := Sub(Len(seqPart(b.freeze(m.loc.get(b)), m.loc.typ)), b.freeze(q.loc.get(b)))
				return And(Lt(m1, m0), Le(Int(0), m0))
			}) {
				ex.record(c.entry, "termination", where, true, "")
				return
			}
		}
	}
	ex.record(c.entry, "termination", where, false, "no measure found which decreases on every iteration")
}
