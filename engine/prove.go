package main

// prover: decides goals under a path condition.

type Prover struct {
	budget int
}

var proveDepth int

func pcWith(pc *PC, t *Term) (*PC, bool) {
	s := &State{pc: pc}
	s.assume(t)
	return s.pc, !s.dead
}

// goalSolver tells whether the last goal needed the solver.
var goalSolver bool

func proveGoal(pc *PC, g *Term) bool {
	p := &Prover{budget: 3000}
	q := smtQueries + smtCached
	defer func() { goalSolver = smtQueries+smtCached != q }()
	if p.prove(pc, g, 0) {
		return true
	}
	n := 80
	return p.byCases(pc, g, &n, 0)
}

// byCases decides the conditions inside the facts and the goal one by one
// and rewrites everything with them.
func (p *Prover) byCases(pc *PC, g *Term, n *int, d int) bool {
	if *n--; *n < 0 || d > 16 {
		return false
	}
	var c *Term
	if c = iteCond(g); c == nil {
		for q := pc; q != nil && c == nil; q = q.up {
			c = iteCond(q.t)
		}
	}
	if c == nil {
		if d == 0 {
			return false
		}
		p.budget = 300
		return p.prove(pc, g, 0)
	}
	for _, v := range []bool{true, false} {
		s := &State{}
		if v {
			s.assume(c)
		} else {
			s.assume(Not(c))
		}
		fs := pc.list()
		for i := len(fs) - 1; i >= 0; i-- {
			f := applyCond(fs[i], c, v)
			if f == c || f == Not(c) || f.op == OOr || f.op == OAnd || f.op == ONot {
				f = mapTerm(f, map[*Term]*Term{}, func(x *Term) *Term {
					if x == c {
						return BoolT(v)
					}
					return nil
				})
			}
			s.assume(f)
		}
		if s.dead || p.infeasible(s.pc) {
			continue
		}
		if !p.byCases(s.pc, applyCond(g, c, v), n, d+1) {
			return false
		}
	}
	return true
}

func (p *Prover) z3(pc *PC, g *Term) bool {
	switch quick(pc, g) {
	case 1:
		return true
	}
	return solver.valid(pc.list(), g)
}

func (p *Prover) infeasible(pc *PC) bool {
	return solver.check(pc.list()) == resUnsat
}

func (p *Prover) prove(pc *PC, g *Term, d int) bool {
	p.budget--
	if p.budget < 0 || d > 200 {
		return false
	}
	if quick(pc, g) == 1 {
		return true
	}
	switch g.op {
	case OBool:
		return g == True || p.infeasible(pc)
	case OAnd:
		for _, a := range g.args {
			if !p.prove(pc, a, d+1) {
				return false
			}
		}
		return true
	case OOr:
		if p.z3(pc, g) {
			return true
		}
		// assume the negation of all but one structured disjunct
		for i, a := range g.args {
			if a.op == OEq && (a.args[0].sort == SSeq || a.args[0].sort == SU) {
				q := pc
				ok := true
				for j, b := range g.args {
					if j != i {
						if q, ok = pcWith(q, Not(b)); !ok {
							return true
						}
					}
				}
				if p.prove(q, a, d+1) {
					return true
				}
			}
		}
		return false
	case OEq:
		a, b := g.args[0], g.args[1]
		if a.sort == SSeq || a.sort == SU {
			return p.eq(pc, a, b, d)
		}
		if p.z3(pc, g) {
			return true
		}
		if a.op == OInt && a.iv.Sign() == 0 && b.op == OLin && b.iv.Sign() == 0 && len(b.args) == 2 && b.coefs[0] == -b.coefs[1] {
			a, b = b.args[0], b.args[1]
		}
		if a.op == OApp && p.congr(pc, a, b, d+1) {
			return true
		}
	}
	if p.z3(pc, g) {
		return true
	}
	if c := iteCond(g); c != nil {
		return p.split(pc, c, d, func(q *PC, v bool) bool { return p.prove(q, applyCond(g, c, v), d+1) })
	}
	return false
}

// split proves under both values of a condition.
func (p *Prover) split(pc *PC, c *Term, d int, f func(*PC, bool) bool) bool {
	if q, ok := pcWith(pc, c); ok {
		if !f(q, true) && !p.infeasible(q) {
			return false
		}
	}
	if q, ok := pcWith(pc, Not(c)); ok {
		if !f(q, false) && !p.infeasible(q) {
			return false
		}
	}
	return true
}

// iteCond finds the condition of some conditional inside the term.
func iteCond(t *Term) *Term {
	seen := map[*Term]bool{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if t.op == OIte {
			return t.args[0]
		}
		for _, a := range t.args {
			if c := walk(a); c != nil {
				return c
			}
		}
		return nil
	}
	return walk(t)
}

func applyCond(t, c *Term, v bool) *Term {
	return mapTerm(t, map[*Term]*Term{}, func(x *Term) *Term {
		if x.op == OIte && x.args[0] == c {
			if v {
				return applyCond(x.args[1], c, v)
			}
			return applyCond(x.args[2], c, v)
		}
		return nil
	})
}

func (p *Prover) eqT(pc *PC, a, b *Term, d int) bool {
	return p.prove(pc, Eq(a, b), d+1)
}

// eq proves equality of two structured values.
func (p *Prover) eq(pc *PC, a, b *Term, d int) bool {
	p.budget--
	if p.budget < 0 || d > 200 {
		return false
	}
	if a == b {
		return true
	}
	if a.sort == SSeq {
		return p.seqEq(pc, parts(a), parts(b), d)
	}
	if a.op == OIte || b.op == OIte {
		x := a
		if x.op != OIte {
			x = b
		}
		if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
			return p.split(pc, a.args[0], d, func(q *PC, v bool) bool {
				if v {
					return p.eqT(q, a.args[1], b.args[1], d)
				}
				return p.eqT(q, a.args[2], b.args[2], d)
			})
		}
		c := x.args[0]
		return p.split(pc, c, d, func(q *PC, v bool) bool {
			return p.eqT(q, applyCond(a, c, v), applyCond(b, c, v), d)
		})
	}
	if a.op == OMk || b.op == OMk {
		m, x := a, b
		if m.op != OMk {
			m, x = b, a
		}
		if x.op == OMk {
			if len(x.args) != len(m.args) {
				return false
			}
			for i := range m.args {
				if !p.eqT(pc, m.args[i], x.args[i], d) {
					return false
				}
			}
			return true
		}
		ok := true
		for i, f := range m.args {
			if !p.eqT(pc, f, selSort(x, i, len(m.args), f.typ, f.sort), d) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	if a.op == OSl || b.op == OSl {
		return p.eqT(pc, SlNil(a), SlNil(b), d) && p.eqT(pc, SlSeq(a), SlSeq(b), d)
	}
	if a.op == OBox && b.op == OBox {
		return p.eqT(pc, a.args[0], b.args[0], d)
	}
	if a.op == OBox || b.op == OBox {
		m, x := a, b
		if m.op != OBox {
			m, x = b, a
		}
		// equal contents behind a non-nil pointer
		if x.op != ONil && p.prove(pc, Not(IsNil(x)), d+1) && p.eqT(pc, m.args[0], derefSort(x, m.args[0]), d) {
			return true
		}
	}
	if a.op == OIface && b.op == OIface && a.name == b.name {
		return p.eqT(pc, a.args[0], b.args[0], d)
	}
	if a.op == OIface || b.op == OIface {
		m, x := a, b
		if m.op != OIface {
			m, x = b, a
		}
		if x.op != ONil && p.prove(pc, Eq(Tag(x), Int(tagOf(m.name))), d+1) && p.eqT(pc, m.args[0], mkTerm(OAs, m.args[0].sort, m.name, nil, nil, []*Term{x}, m.args[0].typ), d) {
			return true
		}
	}
	if p.congr(pc, a, b, d) {
		return true
	}
	if p.z3(pc, Eq(a, b)) {
		return true
	}
	if c := iteCond(Eq(a, b)); c != nil {
		return p.split(pc, c, d, func(q *PC, v bool) bool {
			return p.eqT(q, applyCond(a, c, v), applyCond(b, c, v), d)
		})
	}
	return false
}

func derefSort(x, like *Term) *Term {
	if x.op == OBox {
		return x.args[0]
	}
	return mkTerm(ODeref, like.sort, "", nil, nil, []*Term{x}, like.typ)
}

// congr proves equality of two applications of the same function argumentwise.
func (p *Prover) congr(pc *PC, a, b *Term, d int) bool {
	if a.op != b.op || a.name != b.name || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	switch a.op {
	case OApp, OSel, OUnit, ODeref, OAs, OMapSet, OIface, OErr, OMapGet, OSlSeq, OTuple:
	default:
		return false
	}
	if a.op == OSel && a.iv.Cmp(b.iv) != 0 {
		return false
	}
	for i := range a.args {
		if a.args[i].sort != b.args[i].sort || !p.eqT(pc, a.args[i], b.args[i], d) {
			return false
		}
	}
	return true
}

func (p *Prover) seqEq(pc *PC, x, y []*Term, d int) bool {
	x = append([]*Term{}, x...)
	y = append([]*Term{}, y...)
	for {
		p.budget--
		if p.budget < 0 || d > 200 {
			return false
		}
		if x2, y2, ok := stripParts(x, y); ok {
			x, y = append([]*Term{}, x2...), append([]*Term{}, y2...)
		} else if x2 == nil && y2 == nil && len(x) > 0 {
			return p.infeasible(pc)
		}
		if len(x) == 0 && len(y) == 0 {
			return true
		}
		if len(x) == 0 || len(y) == 0 {
			r := x
			if len(r) == 0 {
				r = y
			}
			return p.prove(pc, Eq(Len(Concat(r...)), Int(0)), d+1)
		}
		a, b := x[0], y[0]
		if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
			c := a.args[0]
			// branches equal pairwise: continue with the rest
			ok := true
			if q, f := pcWith(pc, c); f && !p.seqEqTry(q, parts(a.args[1]), parts(b.args[1]), d+1) {
				ok = false
			}
			if ok {
				if q, f := pcWith(pc, Not(c)); f && !p.seqEqTry(q, parts(a.args[2]), parts(b.args[2]), d+1) {
					ok = false
				}
			}
			if ok {
				x, y = x[1:], y[1:]
				continue
			}
		}
		if a.op == OIte || b.op == OIte {
			t := a
			if t.op != OIte {
				t = b
			}
			c := t.args[0]
			x1, y1 := x, y
			return p.split(pc, c, d, func(q *PC, v bool) bool {
				return p.seqEq(q, parts(applyCond(Concat(x1...), c, v)), parts(applyCond(Concat(y1...), c, v)), d+1)
			})
		}
		if a.op == OUnit && b.op == OUnit {
			if p.eqT(pc, a.args[0], b.args[0], d) {
				x, y = x[1:], y[1:]
				continue
			}
			dbg("elements differ %s %s", a, b)
			return false
		}
		if (a.op == OStr && b.op == OUnit) || (a.op == OUnit && b.op == OStr) {
			s, u := a, b
			if s.op != OStr {
				s, u = b, a
			}
			if u.args[0].sort == SInt && p.prove(pc, Eq(u.args[0], Int(int64(s.name[0]))), d+1) {
				rest := Str(s.name[1:])
				if a == s {
					x, y = append(parts(rest), x[1:]...), y[1:]
				} else {
					x, y = x[1:], append(parts(rest), y[1:]...)
				}
				continue
			}
			return p.infeasible(pc)
		}
		if p.congr(pc, a, b, d) {
			x, y = x[1:], y[1:]
			continue
		}
		// empty elements
		if e := p.dropEmpty(pc, a); e {
			x = x[1:]
			continue
		}
		if e := p.dropEmpty(pc, b); e {
			y = y[1:]
			continue
		}
		if a.op == OSlice && b.op == OSlice && a.args[0] == b.args[0] && p.z3(pc, Eq(a.args[1], b.args[1])) {
			if p.z3(pc, Eq(a.args[2], b.args[2])) {
				x, y = x[1:], y[1:]
				continue
			}
			if p.z3(pc, Le(a.args[2], b.args[2])) {
				x = x[1:]
				y = append(parts(Slice(b.args[0], a.args[2], b.args[2])), y[1:]...)
				continue
			}
			if p.z3(pc, Le(b.args[2], a.args[2])) {
				y = y[1:]
				x = append(parts(Slice(a.args[0], b.args[2], a.args[2])), x[1:]...)
				continue
			}
		}
		if (a.op == OSlice) != (b.op == OSlice) {
			sl, o := a, b
			if sl.op != OSlice {
				sl, o = b, a
			}
			if o.op == OUnit || o.op == OStr {
				var et = o.typ
				var v *Term
				if o.op == OStr {
					v = Int(int64(o.name[0]))
					et = byteType
				} else {
					v = o.args[0]
				}
				if et != nil && p.z3(pc, Lt(sl.args[1], sl.args[2])) && p.eqT(pc, At(sl.args[0], sl.args[1], et), v, d) {
					r := parts(Slice(sl.args[0], AddI(sl.args[1], 1), sl.args[2]))
					var ro []*Term
					if o.op == OStr {
						ro = parts(Str(o.name[1:]))
					}
					if a == sl {
						x, y = append(r, x[1:]...), append(ro, y[1:]...)
					} else {
						x, y = append(ro, x[1:]...), append(r, y[1:]...)
					}
					continue
				}
			}
			// S[0:k] ++ ... against S
			if o == sl.args[0] {
				full := mkTerm(OSlice, SSeq, "", nil, nil, []*Term{o, Int(0), Len(o)}, nil)
				if sl.args[1] == Int(0) {
					if a == sl {
						x = x[1:]
						y = append(parts(Slice(o, sl.args[2], Len(o))), y[1:]...)
					} else {
						y = y[1:]
						x = append(parts(Slice(o, sl.args[2], Len(o))), x[1:]...)
					}
					continue
				}
				_ = full
			}
		}
		// right ends
		ra, rb := x[len(x)-1], y[len(y)-1]
		if len(x)+len(y) > 2 {
			if ra.op == OUnit && rb.op == OUnit && p.eqT(pc, ra.args[0], rb.args[0], d) || p.congr(pc, ra, rb, d) {
				x, y = x[:len(x)-1], y[:len(y)-1]
				continue
			}
			if p.dropEmpty(pc, ra) {
				x = x[:len(x)-1]
				continue
			}
			if p.dropEmpty(pc, rb) {
				y = y[:len(y)-1]
				continue
			}
			if ra.op == OIte || rb.op == OIte {
				t := ra
				if t.op != OIte {
					t = rb
				}
				c := t.args[0]
				x1, y1 := x, y
				return p.split(pc, c, d, func(q *PC, v bool) bool {
					return p.seqEq(q, parts(applyCond(Concat(x1...), c, v)), parts(applyCond(Concat(y1...), c, v)), d+1)
				})
			}
		}
		if p.z3(pc, Eq(Concat(x...), Concat(y...))) {
			return true
		}
		if c := iteCond(Concat(append(append([]*Term{}, x...), y...)...)); c != nil && quick(pc, c) == 0 {
			x1, y1 := x, y
			return p.split(pc, c, d, func(q *PC, v bool) bool {
				return p.seqEq(q, parts(applyCond(Concat(x1...), c, v)), parts(applyCond(Concat(y1...), c, v)), d+1)
			})
		}
		if debug && !p.infeasible(pc) {
			dbg("sequences differ at\n  %s\n  %s", Concat(x...), Concat(y...))
		}
		return p.infeasible(pc)
	}
}

func (p *Prover) seqEqTry(pc *PC, x, y []*Term, d int) bool {
	b := p.budget
	if p.budget > 400 {
		p.budget = 400
	}
	r := p.seqEq(pc, x, y, d)
	p.budget = b - 20
	return r
}

func (p *Prover) dropEmpty(pc *PC, t *Term) bool {
	l := Len(t)
	if l.op == OInt {
		return l.iv.Sign() == 0
	}
	switch t.op {
	case OSlice, OSlSeq, OSym, OApp, OSel, OIte, OFill, ODeref, OAt:
		return p.z3(pc, Eq(l, Int(0)))
	}
	return false
}
