package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// PC is a path condition: a persistent list of facts.
type PC struct {
	up *PC
	t  *Term
	n  int
	ax bool // a fact about values, not a decision of the path
}

func (p *PC) list() []*Term {
	var r []*Term
	for q := p; q != nil; q = q.up {
		r = append(r, q.t)
	}
	return r
}

func pcLen(p *PC) int {
	if p == nil {
		return 0
	}
	return p.n
}

// Rule rewrites an application of a recursive specification function.
type Rule struct {
	up       *Rule
	fromArgs []*Term
	pre      []*Term // per result component: prefix sequence or nil
	fn       *SpecFn
	args     []*Term
	vals     []*Term // once the loop is left: the results themselves
	guard    *Term   // nil, or the paths on which it holds
}

type State struct {
	regs  map[ssa.Value]*Term
	heap  map[int]*Term
	pc    *PC
	rules *Rule
	dead  bool
	trace *PC // unused marker of the branch decisions, for reports
}

func newState() *State {
	return &State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}}
}

func (s *State) clone() *State {
	n := &State{regs: make(map[ssa.Value]*Term, len(s.regs)+8), heap: make(map[int]*Term, len(s.heap)+4), pc: s.pc, rules: s.rules, dead: s.dead}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) assume(t *Term) { s.assumeK(t, false) }

// axiom adds a fact which holds whenever the path is taken.
func (s *State) axiom(t *Term) { s.assumeK(t, true) }

func (s *State) assumeK(t *Term, ax bool) {
	if t == True || s.dead {
		return
	}
	if t == False {
		s.dead = true
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assumeK(a, ax)
		}
		return
	}
	switch quick(s.pc, t) {
	case 1:
		return
	case -1:
		s.dead = true
		return
	}
	s.pc = &PC{s.pc, t, pcLen(s.pc) + 1, ax}
}

func (s *State) facts() []*Term { return s.pc.list() }

// quick decides a condition syntactically: 1 true, -1 false, 0 unknown.
func quick(pc *PC, c *Term) int {
	switch c.op {
	case OBool:
		if c == True {
			return 1
		}
		return -1
	case ONot:
		return -quick(pc, c.args[0])
	case OAnd:
		r := 1
		for _, a := range c.args {
			switch quick(pc, a) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	case OOr:
		r := -1
		for _, a := range c.args {
			switch quick(pc, a) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	}
	nc := Not(c)
	var x, k *Term
	if c.op == OEq {
		a, b := c.args[0], c.args[1]
		if a.op == OStr {
			x, k = b, a
		} else if b.op == OStr {
			x, k = a, b
		}
	}
	// integer atoms: c is 0 <= d or 0 == d
	var d *Term
	if c.sort == SBool && (c.op == OLe || c.op == OEq && c.args[0] == Int(0)) {
		d = c.args[1]
	}
	for q := pc; q != nil; q = q.up {
		if q.t == c {
			return 1
		}
		if q.t == nc {
			return -1
		}
		if x != nil && q.t.op == OEq {
			a, b := q.t.args[0], q.t.args[1]
			if a == x && b.op == OStr && b != k || b == x && a.op == OStr && a != k {
				return -1
			}
		}
		if d != nil {
			f := q.t
			if f.op == OLe || f.op == OEq && f.args[0] == Int(0) {
				e := f.args[1]
				// f: 0 <= e (or 0 == e); compare with d
				if k, ok := linConst(d, e, 1); ok {
					sg := k.Sign()
					if c.op == OLe && sg >= 0 {
						return 1
					}
					if c.op == OLe && f.op == OEq && sg < 0 {
						return -1
					}
					if c.op == OEq && f.op == OLe && sg > 0 {
						return -1
					}
					if c.op == OEq && f.op == OEq && sg != 0 {
						return -1
					}
				} else if k, ok := linConst(d, e, -1); ok {
					sg := k.Sign()
					// -d = e + k, so d = -e - k
					if c.op == OLe && f.op == OEq && sg <= 0 {
						return 1
					}
					if c.op == OLe && sg > 0 {
						return -1
					}
					if c.op == OEq && f.op == OLe && sg > 0 {
						return -1
					}
					if c.op == OEq && f.op == OEq && sg != 0 {
						return -1
					}
				}
			}
		}
	}
	return 0
}

// linConst reports sign*d - e when that is a constant.
func linConst(d, e *Term, sign int64) (*big.Int, bool) {
	if d.op == OLin && e.op == OLin {
		if len(d.args) != len(e.args) {
			return nil, false
		}
		for i := range d.args {
			if d.args[i] != e.args[i] || d.coefs[i]*sign != e.coefs[i] {
				return nil, false
			}
		}
		k := new(big.Int).Mul(d.iv, bigI(sign))
		return k.Sub(k, e.iv), true
	}
	ca, cc, ci, ok := linAtom(d)
	if !ok {
		return nil, false
	}
	ea, ec, ei, ok := linAtom(e)
	if !ok || ca != ea || cc*sign != ec {
		return nil, false
	}
	k := new(big.Int).Mul(ci, bigI(sign))
	return k.Sub(k, ei), true
}

func linAtom(t *Term) (*Term, int64, *big.Int, bool) {
	if t.op == OLin {
		if len(t.args) != 1 {
			return nil, 0, nil, false
		}
		return t.args[0], t.coefs[0], t.iv, true
	}
	if t.op == OInt {
		return nil, 0, nil, false
	}
	return t, 1, bigZero, true
}

var bigZero = bigI(0)

// ---- objects

type Obj struct {
	id   int
	typ  types.Type
	kind string // "", "map", "writer", "tok", "stream", ...
	ro   bool   // may not be written (memory of the caller)
	name string
	aux  *Term
}

var objs []*Obj

func newObj(t types.Type, kind, name string) *Obj {
	o := &Obj{id: len(objs), typ: t, kind: kind, name: name}
	objs = append(objs, o)
	return o
}

func addrOf(o *Obj, path ...*Term) *Term {
	return mkTerm(OAddr, SU, "", nil, nil, append([]*Term{mkTerm(OObj, SU, "", bigI(int64(o.id)), nil, nil, nil)}, path...), nil)
}

func fldT(i, n int) *Term {
	return mkTerm(OFld, SU, "", bigI(int64(i)), []int64{int64(n)}, nil, nil)
}
func idxT(i *Term) *Term { return mkTerm(OIdx, SU, "", nil, nil, []*Term{i}, nil) }

func objOf(t *Term) *Obj { return objs[t.args[0].iv.Int64()] }

func addPath(a, p *Term) *Term {
	return mkTerm(OAddr, SU, "", nil, nil, append(append([]*Term{}, a.args...), p), nil)
}

func fieldType(t types.Type, i int) types.Type {
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Type()
	}
	return nil
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func readPath(c *Term, t types.Type, path []*Term) *Term {
	for _, p := range path {
		if p.op == OFld {
			i := int(p.iv.Int64())
			ft := fieldType(t, i)
			c = Sel(c, i, int(p.coefs[0]), ft)
			t = ft
		} else {
			et := elemType(t)
			c = At(c, p.args[0], et)
			t = et
		}
	}
	return c
}

func writePath(c *Term, t types.Type, path []*Term, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.op == OFld {
		n := int(p.coefs[0])
		i := int(p.iv.Int64())
		fs := make([]*Term, n)
		for k := range fs {
			ft := fieldType(t, k)
			fs[k] = Sel(c, k, n, ft)
			if k == i {
				fs[k] = writePath(fs[k], ft, path[1:], v)
			}
		}
		return Mk(fs...)
	}
	et := elemType(t)
	old := v
	if len(path) > 1 {
		old = writePath(At(c, p.args[0], et), et, path[1:], v)
	}
	return Upd(c, p.args[0], old, et)
}

// content is the value held by an object.
func (s *State) content(o *Obj) *Term {
	if c := s.heap[o.id]; c != nil {
		return c
	}
	if c := globalHeap[o.id]; c != nil {
		return c
	}
	return zeroOf(o.typ)
}

func (s *State) load(a *Term, t types.Type) *Term {
	switch a.op {
	case OAddr:
		o := objOf(a)
		return readPath(s.content(o), o.typ, a.args[1:])
	case OBox:
		return a.args[0]
	case OIte:
		return Ite(a.args[0], s.load(a.args[1], t), s.load(a.args[2], t))
	}
	return Deref(a, t)
}

// ---- rebuilding terms

func rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.args[i] {
			same = false
			break
		}
	}
	if same {
		return t
	}
	switch t.op {
	case OLin:
		r := IntB(t.iv)
		for i, a := range args {
			r = addMul(r, a, t.coefs[i])
		}
		return r
	case OMul:
		return Mul(args[0], args[1])
	case ODiv:
		return Div(args[0], args[1])
	case OMod:
		return Mod(args[0], args[1])
	case OWrap:
		return wrapN(args[0], t.name)
	case OLe:
		return Le(args[0], args[1])
	case OEq:
		return Eq(args[0], args[1])
	case ONot:
		return Not(args[0])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	case OIte:
		return Ite(args[0], args[1], args[2])
	case OConcat:
		return Concat(args...)
	case OUnit:
		return Unit(args[0], t.typ)
	case OSlice:
		return Slice(args[0], args[1], args[2])
	case OLen:
		return Len(args[0])
	case OAt:
		return At(args[0], args[1], t.typ)
	case OUpd:
		return Upd(args[0], args[1], args[2], t.typ)
	case OFill:
		return Fill(args[0], args[1])
	case OMk:
		return Mk(args...)
	case OSel:
		r := selSort(args[0], int(t.iv.Int64()), atoi(t.name), t.typ, t.sort)
		return r
	case OSl:
		return Sl(args[0], args[1])
	case OSlNil:
		return SlNil(args[0])
	case OSlSeq:
		return SlSeq(args[0])
	case OBox:
		return Box(args[0])
	case ODeref:
		if args[0].op == OBox {
			return args[0].args[0]
		}
		return mkTerm(ODeref, t.sort, "", nil, nil, args, t.typ)
	case OIface:
		return Iface(t.name, args[0])
	case OTag:
		return Tag(args[0])
	case OAs:
		if args[0].op == OIface && args[0].name == t.name {
			return args[0].args[0]
		}
		return mkTerm(OAs, t.sort, t.name, nil, nil, args, t.typ)
	case OErr:
		return ErrT(args[0])
	case OMapSet:
		return MapSet(args[0], args[1], args[2])
	case OMapGet:
		return MapGet(args[0], args[1], t.typ)
	case OMapHas:
		return MapHas(args[0], args[1])
	}
	return mkTerm(t.op, t.sort, t.name, t.iv, t.coefs, args, t.typ)
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

func selSort(t *Term, i, n int, typ types.Type, s Sort) *Term {
	switch t.op {
	case OMk, OTuple:
		return t.args[i]
	case OIte:
		return Ite(t.args[0], selSort(t.args[1], i, n, typ, s), selSort(t.args[2], i, n, typ, s))
	}
	return mkTerm(OSel, s, itoaI(n), big.NewInt(int64(i)), nil, []*Term{t}, typ)
}

func itoaI(n int) string { return big.NewInt(int64(n)).String() }

// mapTerm rewrites bottom-up with memoisation; f may return nil to descend.
func mapTerm(t *Term, memo map[*Term]*Term, f func(*Term) *Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	if len(t.args) == 0 {
		memo[t] = t
		return t
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = mapTerm(a, memo, f)
	}
	r := rebuild(t, args)
	memo[t] = r
	return r
}

var hasRefMemo = map[*Term]bool{}

// hasRef reports whether the term mentions heap objects.
func hasRef(t *Term) bool {
	if len(t.args) == 0 {
		return false
	}
	if t.op == OAddr || t.op == ORS {
		return true
	}
	if r, ok := hasRefMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasRef(a) {
			r = true
			break
		}
	}
	hasRefMemo[t] = r
	return r
}

// freeze turns heap references into immutable values.
func (s *State) freeze(t *Term) *Term {
	if !hasRef(t) {
		return t
	}
	return mapTerm(t, map[*Term]*Term{}, func(x *Term) *Term {
		if !hasRef(x) {
			return x
		}
		switch x.op {
		case OAddr:
			o := objOf(x)
			switch o.kind {
			case "":
				return Box(s.freeze(s.load(x, nil)))
			case "map":
				return s.freeze(s.content(o))
			}
			return x
		case ORS:
			return Sl(False, s.rsSeq(x))
		}
		return nil
	})
}

// rsSeq reads the contents of an array-backed slice.
func (s *State) rsSeq(x *Term) *Term {
	return s.freeze(Slice(s.load(x.args[0], nil), x.args[1], x.args[2]))
}

// seqOf gives the contents of a slice value.
func (s *State) seqOf(x *Term) *Term {
	switch x.op {
	case ORS:
		return Slice(s.load(x.args[0], nil), x.args[1], x.args[2])
	case OIte:
		return Ite(x.args[0], s.seqOf(x.args[1]), s.seqOf(x.args[2]))
	}
	return SlSeq(x)
}

func sliceLen(s *State, x *Term) *Term {
	switch x.op {
	case ORS:
		return Sub(x.args[2], x.args[1])
	case OIte:
		return Ite(x.args[0], sliceLen(s, x.args[1]), sliceLen(s, x.args[2]))
	}
	return Len(SlSeq(x))
}

// ---- repeatable units

// snapshot is the state of the engine after loading; every unit starts there
// so that its outcome does not depend on what was verified before.
var snapshot struct {
	terms   int
	tab     map[string]*Term
	syms    int
	objs    int
	globals map[*ssa.Global]*Obj
	heap    map[int]*Term
	tags    map[string]int64
	errs    int
}

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func takeSnapshot() {
	s := &snapshot
	s.terms, s.tab, s.syms, s.objs, s.errs = len(termList), copyMap(termTab), symCount, len(objs), errCount
	s.globals, s.heap, s.tags = copyMap(globalObjs), copyMap(globalHeap), copyMap(typeTags)
}

func restoreSnapshot() {
	s := &snapshot
	termList, termTab, symCount, objs, errCount = termList[:s.terms], copyMap(s.tab), s.syms, objs[:s.objs], s.errs
	globalObjs, globalHeap, typeTags = copyMap(s.globals), copyMap(s.heap), copyMap(s.tags)
	goodRules, badRules = map[ruleKey][][]int{}, map[ruleKey]int{}
	hasRefMemo = map[*Term]bool{}
	unfoldDepth = 0
	solver.stop()
	solver = newSolver()
}
