package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed symbolic values.  Integers are exact mathematical
// integers; machine arithmetic is made explicit with OWrap.

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SSeq
	SU
)

type Op uint8

const (
	OSym Op = iota
	OInt
	OBool
	OStr
	OLin  // iv + sum coefs[i]*args[i]
	OMul  // non-linear product
	ODiv  // floor division by positive divisor (args[1])
	OMod  // floor modulus
	OWrap // name = "u8", "s32", ...
	OLe   // args[0] <= args[1], integers
	OEq
	ONot
	OAnd
	OOr
	OIte
	OConcat
	OUnit
	OSlice // seq lo hi
	OLen
	OAt
	OUpd // seq i v
	OFill
	OMk
	OSel // iv = index
	OSl  // nilflag seq
	OSlNil
	OSlSeq
	ORS   // slice of an array object: addr lo hi
	ONil  // nil pointer / interface / map / func
	OAddr // args[0] = OObj, rest path (OFld / OIdx)
	OObj
	OFld
	OIdx
	OBox // pointer to an immutable value
	ODeref
	OIface // name = type string, args[0]
	OTag   // dynamic type tag of interface (0 is nil)
	OAs    // name = type string, payload of symbolic interface
	OErr   // error value which is nil iff args[0]
	OApp   // name = function, uninterpreted / spec
	OFunc
	OMapEmpty
	OMapSet // map k v
	OMapGet
	OMapHas
	OTuple
	OBits // name = operator, bitwise operation kept abstract
)

var opNames = map[Op]string{OMul: "*", ODiv: "div", OMod: "mod", OLe: "<=", OEq: "=", ONot: "!", OAnd: "and", OOr: "or", OIte: "ite", OConcat: "++", OUnit: "unit", OSlice: "slice", OLen: "len", OAt: "at", OUpd: "upd", OFill: "fill", OMk: "mk", OSl: "sl", OSlNil: "slnil", OSlSeq: "slseq", ORS: "rs", ONil: "nil", OAddr: "addr", OBox: "box", ODeref: "deref", OTag: "tag", OErr: "err", OMapEmpty: "mapempty", OMapSet: "mapset", OMapGet: "mapget", OMapHas: "maphas", OTuple: "tuple", OIdx: "idx"}

type Term struct {
	id    int
	op    Op
	sort  Sort
	name  string
	iv    *big.Int
	coefs []int64
	args  []*Term
	typ   types.Type
	lenT  *Term // for symbols with a defined length
	depth int
	size  int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	symCount int
)

func mkTerm(op Op, s Sort, name string, iv *big.Int, coefs []int64, args []*Term, typ types.Type) *Term {
	var b strings.Builder
	b.WriteByte(byte(op))
	b.WriteByte(byte(s))
	b.WriteString(name)
	b.WriteByte(0)
	if iv != nil {
		b.WriteString(iv.String())
	}
	for _, c := range coefs {
		b.WriteByte('c')
		b.WriteString(strconv.FormatInt(c, 10))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		if t.typ == nil {
			t.typ = typ
		}
		return t
	}
	t := &Term{id: len(termList), op: op, sort: s, name: name, iv: iv, coefs: coefs, args: args, typ: typ, size: 1}
	for _, a := range args {
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	termList = append(termList, t)
	termTab[k] = t
	return t
}

func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SSeq
		}
	case *types.Array:
		return SSeq
	}
	return SU
}

func fresh(prefix string, t types.Type) *Term {
	symCount++
	s := SU
	if t != nil {
		s = sortOf(t)
	}
	return mkTerm(OSym, s, fmt.Sprintf("%s!%d", prefix, symCount), nil, nil, nil, t)
}

func freshSort(prefix string, s Sort) *Term {
	symCount++
	return mkTerm(OSym, s, fmt.Sprintf("%s!%d", prefix, symCount), nil, nil, nil, nil)
}

func bigI(n int64) *big.Int { return big.NewInt(n) }

func Int(n int64) *Term { return IntB(bigI(n)) }
func IntB(n *big.Int) *Term {
	return mkTerm(OInt, SInt, "", n, nil, nil, nil)
}

var (
	True   = mkTerm(OBool, SBool, "true", nil, nil, nil, nil)
	False  = mkTerm(OBool, SBool, "false", nil, nil, nil, nil)
	Nil    = mkTerm(ONil, SU, "", nil, nil, nil, nil)
	MapNil = mkTerm(OMapEmpty, SU, "", nil, nil, nil, nil)
	Empty  = mkTerm(OStr, SSeq, "", nil, nil, nil, nil)
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Str(s string) *Term { return mkTerm(OStr, SSeq, s, nil, nil, nil, nil) }

func (t *Term) isInt() bool { return t.op == OInt }

func (t *Term) i64() (int64, bool) {
	if t.op == OInt && t.iv.IsInt64() {
		return t.iv.Int64(), true
	}
	return 0, false
}

// ---- linear integer arithmetic

type linForm struct {
	c *big.Int
	m map[*Term]int64
}

func toLin(t *Term) linForm {
	switch t.op {
	case OInt:
		return linForm{t.iv, nil}
	case OLin:
		m := make(map[*Term]int64, len(t.args))
		for i, a := range t.args {
			m[a] = t.coefs[i]
		}
		return linForm{t.iv, m}
	}
	return linForm{bigI(0), map[*Term]int64{t: 1}}
}

func fromLin(l linForm) *Term {
	var as []*Term
	for a, c := range l.m {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return IntB(l.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.m[as[0]] == 1 && l.c.Sign() == 0 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return mkTerm(OLin, SInt, "", l.c, cs, as, nil)
}

func addMul(a, b *Term, k int64) *Term {
	if a.op == OIte && b.op == OInt {
		return Ite(a.args[0], addMul(a.args[1], b, k), addMul(a.args[2], b, k))
	}
	la, lb := toLin(a), toLin(b)
	m := make(map[*Term]int64, len(la.m)+len(lb.m))
	for t, c := range la.m {
		m[t] = c
	}
	for t, c := range lb.m {
		m[t] += k * c
	}
	c := new(big.Int).Mul(lb.c, bigI(k))
	c.Add(c, la.c)
	return fromLin(linForm{c, m})
}

func Add(a, b *Term) *Term { return addMul(a, b, 1) }
func Sub(a, b *Term) *Term { return addMul(a, b, -1) }
func AddI(a *Term, n int64) *Term {
	return Add(a, Int(n))
}
func Neg(a *Term) *Term { return Sub(Int(0), a) }

func Mul(a, b *Term) *Term {
	if a.op == OInt {
		a, b = b, a
	}
	if b.op == OInt {
		if k, ok := b.i64(); ok {
			la := toLin(a)
			big1 := true
			for _, c := range la.m {
				if c > 1<<20 || c < -(1<<20) {
					big1 = false
				}
			}
			if big1 && k < 1<<40 && k > -(1<<40) {
				return addMul(Int(0), a, k)
			}
		}
		if a.op == OInt {
			return IntB(new(big.Int).Mul(a.iv, b.iv))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm(OMul, SInt, "", nil, nil, []*Term{a, b}, nil)
}

// Div is floor division; callers only use positive constant divisors or
// non-negative dividends.
func Div(a, b *Term) *Term {
	if b.op == OInt && b.iv.Sign() > 0 {
		if a.op == OInt {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.iv, b.iv, m)
			return IntB(q)
		}
		if b.iv.Cmp(bigI(1)) == 0 {
			return a
		}
		if a.op == ODiv && a.args[1].op == OInt && a.args[1].iv.Sign() > 0 {
			return Div(a.args[0], IntB(new(big.Int).Mul(a.args[1].iv, b.iv)))
		}
		if lo, hi := bounds(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.iv) < 0 {
			return Int(0)
		}
	}
	return mkTerm(ODiv, SInt, "", nil, nil, []*Term{a, b}, nil)
}

func Mod(a, b *Term) *Term {
	if b.op == OInt && b.iv.Sign() > 0 {
		if a.op == OInt {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.iv, b.iv, m)
			return IntB(m)
		}
		if lo, hi := bounds(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.iv) < 0 {
			return a
		}
	}
	return mkTerm(OMod, SInt, "", nil, nil, []*Term{a, b}, nil)
}

func intTypeInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	bits, signed, ok := intTypeInfo(t)
	if !ok {
		return nil, nil
	}
	if signed {
		hi = new(big.Int).Lsh(bigI(1), uint(bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, bigI(1))
		return
	}
	hi = new(big.Int).Lsh(bigI(1), uint(bits))
	return bigI(0), hi.Sub(hi, bigI(1))
}

var maxLen = new(big.Int).Lsh(bigI(1), 60)

// bounds gives interval bounds of an integer term from types alone.
func bounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OInt:
		return t.iv, t.iv
	case OLen:
		return bigI(0), maxLen
	case OSym, OSel, OAt, OApp, ODeref, OMapGet, OAs:
		if t.typ != nil {
			return typeRange(t.typ)
		}
	case OWrap:
		return wrapRange(t.name)
	case OMod:
		if d := t.args[1]; d.op == OInt && d.iv.Sign() > 0 {
			l, h := bounds(t.args[0])
			m := new(big.Int).Sub(d.iv, bigI(1))
			if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(m) < 0 {
				return bigI(0), h
			}
			return bigI(0), m
		}
	case ODiv:
		if d := t.args[1]; d.op == OInt && d.iv.Sign() > 0 {
			l, h := bounds(t.args[0])
			if l != nil && h != nil {
				q1, q2, m := new(big.Int), new(big.Int), new(big.Int)
				q1.DivMod(l, d.iv, m)
				q2.DivMod(h, d.iv, m)
				return q1, q2
			}
		}
	case OIte:
		l1, h1 := bounds(t.args[1])
		l2, h2 := bounds(t.args[2])
		if l1 == nil || l2 == nil {
			return nil, nil
		}
		if l2.Cmp(l1) < 0 {
			l1 = l2
		}
		if h2.Cmp(h1) > 0 {
			h1 = h2
		}
		return l1, h1
	case OLin:
		lo, hi = new(big.Int).Set(t.iv), new(big.Int).Set(t.iv)
		for i, a := range t.args {
			l, h := bounds(a)
			if l == nil || h == nil {
				return nil, nil
			}
			c := bigI(t.coefs[i])
			x, y := new(big.Int).Mul(l, c), new(big.Int).Mul(h, c)
			if c.Sign() < 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
		}
		return
	case OMul:
		l1, h1 := bounds(t.args[0])
		l2, h2 := bounds(t.args[1])
		if l1 != nil && h1 != nil && l2 != nil && h2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
			return new(big.Int).Mul(l1, l2), new(big.Int).Mul(h1, h2)
		}
	case OBits:
		if t.typ != nil {
			return typeRange(t.typ)
		}
	}
	return nil, nil
}

func wrapName(bits int, signed bool) string {
	if signed {
		return "s" + strconv.Itoa(bits)
	}
	return "u" + strconv.Itoa(bits)
}

func wrapRange(name string) (lo, hi *big.Int) {
	bits, _ := strconv.Atoi(name[1:])
	if name[0] == 's' {
		hi = new(big.Int).Lsh(bigI(1), uint(bits-1))
		return new(big.Int).Neg(hi), new(big.Int).Sub(hi, bigI(1))
	}
	hi = new(big.Int).Lsh(bigI(1), uint(bits))
	return bigI(0), hi.Sub(hi, bigI(1))
}

// Wrap reduces a mathematical integer to the machine type.
func Wrap(t *Term, typ types.Type) *Term {
	bits, signed, ok := intTypeInfo(typ)
	if !ok {
		return t
	}
	return wrapN(t, wrapName(bits, signed))
}

func wrapN(t *Term, name string) *Term {
	lo, hi := wrapRange(name)
	if l, h := bounds(t); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if t.op == OInt {
		n := new(big.Int).Sub(hi, lo)
		n.Add(n, bigI(1))
		m := new(big.Int).Sub(t.iv, lo)
		m.Mod(m, n)
		return IntB(m.Add(m, lo))
	}
	if t.op == OIte {
		return Ite(t.args[0], wrapN(t.args[1], name), wrapN(t.args[2], name))
	}
	return mkTerm(OWrap, SInt, name, nil, nil, []*Term{t}, nil)
}

func Le(a, b *Term) *Term {
	d := Sub(b, a) // d >= 0
	if d.op == OInt {
		return BoolT(d.iv.Sign() >= 0)
	}
	if lo, hi := bounds(d); lo != nil && lo.Sign() >= 0 {
		return True
	} else if hi != nil && hi.Sign() < 0 {
		return False
	}
	if d.op == OIte {
		return Ite(d.args[0], Le(Int(0), d.args[1]), Le(Int(0), d.args[2]))
	}
	// at the end of the range an inequality is an equality
	if lo, hi := bounds(d); hi != nil && hi.Sign() == 0 {
		return Eq(d, Int(0))
	} else if lo != nil && lo.IsInt64() && lo.Int64() == -1 {
		return Not(Eq(d, Int(-1)))
	}
	return mkTerm(OLe, SBool, "", nil, nil, []*Term{Int(0), d}, nil)
}

func Lt(a, b *Term) *Term { return Not(Le(b, a)) }

// ---- booleans

func Not(a *Term) *Term {
	switch a.op {
	case OBool:
		return BoolT(a == False)
	case ONot:
		return a.args[0]
	case OLe:
		// !(0 <= d)  ==  0 <= -d-1
		return mkTerm(OLe, SBool, "", nil, nil, []*Term{Int(0), Sub(Neg(a.args[1]), Int(1))}, nil)
	}
	return mkTerm(ONot, SBool, "", nil, nil, []*Term{a}, nil)
}

func And(ts ...*Term) *Term { return andOr(OAnd, ts) }
func Or(ts ...*Term) *Term  { return andOr(OOr, ts) }

func andOr(op Op, ts []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkTerm(op, SBool, "", nil, nil, out, nil)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
		return Or(And(c, a), And(Not(c), b))
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.sort == SSeq {
		// shared ends stay outside
		x, y := parts(a), parts(b)
		i, j := 0, 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		for j < len(x)-i && j < len(y)-i && x[len(x)-1-j] == y[len(y)-1-j] {
			j++
		}
		mx, my := x[i:len(x)-j], y[i:len(y)-j]
		if len(mx) == 1 && len(my) == 1 && mx[0].op == OUnit && my[0].op == OUnit {
			m := Unit(Ite(c, mx[0].args[0], my[0].args[0]), mx[0].typ)
			return Concat(append(append(append([]*Term{}, x[:i]...), m), x[len(x)-j:]...)...)
		}
	}
	if a.op == OMk && b.op == OMk && len(a.args) == len(b.args) && a.typ == b.typ {
		fs := make([]*Term, len(a.args))
		for i := range fs {
			fs[i] = Ite(c, a.args[i], b.args[i])
		}
		return Mk(fs...)
	}
	typ := a.typ
	if typ == nil {
		typ = b.typ
	}
	return mkTerm(OIte, a.sort, "", nil, nil, []*Term{c, a, b}, typ)
}

// nonNil reports whether the term is certainly not nil.
func nonNil(t *Term) bool {
	switch t.op {
	case OAddr, OBox, OIface, OFunc, OMk:
		return true
	}
	return false
}

// eachByte compares a text with single bytes.
func eachByte(s string, ps []*Term) (cs []*Term, ok bool) {
	for _, p := range ps {
		switch {
		case p.op == OStr && len(p.name) <= len(s):
			if s[:len(p.name)] != p.name {
				return []*Term{False}, true
			}
			s = s[len(p.name):]
		case p.op == OUnit && s != "" && p.args[0].sort == SInt:
			cs = append(cs, Eq(p.args[0], Int(int64(s[0]))))
			s = s[1:]
		default:
			return nil, false
		}
	}
	return cs, s == ""
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.op == OIte && (b.op == OInt || b.op == OStr || b.op == ONil || b.op == OBool || nonNil(b)) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == OIte && (a.op == OInt || a.op == OStr || a.op == ONil || a.op == OBool || nonNil(a)) {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	switch a.sort {
	case SInt:
		d := Sub(a, b)
		if d.op == OInt {
			return BoolT(d.iv.Sign() == 0)
		}
		lo, hi := bounds(d)
		if lo != nil && hi != nil && (lo.Sign() > 0 || hi.Sign() < 0) {
			return False
		}
		if d.op == OLin && d.coefs[0] < 0 {
			d = Neg(d)
		}
		return mkTerm(OEq, SBool, "", nil, nil, []*Term{Int(0), d}, nil)
	case SBool:
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
		if a.op == ONot && b.op == ONot {
			return Eq(a.args[0], b.args[0])
		}
	case SSeq:
		if a.op == OStr && b.op == OStr {
			return False
		}
		if a == Empty || b == Empty {
			l := Len(a)
			if a == Empty {
				l = Len(b)
			}
			return Eq(l, Int(0))
		}
		la, lb := Len(a), Len(b)
		if le := Sub(la, lb); le.op == OInt && le.iv.Sign() != 0 {
			return False
		}
		if a.op == OUnit && b.op == OUnit {
			return Eq(a.args[0], b.args[0])
		}
		if b.op == OStr {
			a, b = b, a
		}
		if a.op == OStr {
			if cs, ok := eachByte(a.name, parts(b)); ok {
				return And(cs...)
			}
		}
		// cancel common ends
		if a.op == OConcat || b.op == OConcat {
			x, y := parts(a), parts(b)
			if x2, y2, ok := stripParts(x, y); ok {
				return Eq(Concat(x2...), Concat(y2...))
			} else if x2 == nil && y2 == nil {
				return False
			}
		}
	case SU:
		if b.op == ONil {
			a, b = b, a
		}
		if a.op == ONil {
			if nonNil(b) {
				return False
			}
			if b.op == OErr {
				return b.args[0]
			}
			if b.op == OAddr || b.op == OMapSet {
				return False
			}
		}
		if a.op == OMk && b.op == OMk && len(a.args) == len(b.args) {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
		if a.op == OAddr && b.op == OAddr {
			if a.args[0] != b.args[0] {
				return False
			}
		}
		if a.op == OBox && b.op == OBox {
			return Eq(a.args[0], b.args[0])
		}
		if a.op == OSl && b.op == OSl {
			return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
		}
		if a.op == OIface && b.op == OIface {
			if a.name != b.name {
				return False
			}
			return Eq(a.args[0], b.args[0])
		}
		if a.op == OErr && b.op == OErr {
			// error identity is not tracked beyond nil-ness
			if a.args[0] == True && b.args[0] == True {
				return True
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm(OEq, SBool, "", nil, nil, []*Term{a, b}, nil)
}

// ---- sequences

func parts(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	if t == Empty {
		return nil
	}
	return []*Term{t}
}

// stripParts removes equal elements from both ends; ok if something changed.
// (nil,nil,false) means the constants at the ends differ.
func stripParts(x, y []*Term) ([]*Term, []*Term, bool) {
	changed := false
	for len(x) > 0 && len(y) > 0 {
		a, b := x[0], y[0]
		if a == b {
			x, y = x[1:], y[1:]
			changed = true
			continue
		}
		if a.op == OStr && b.op == OStr {
			n := min(len(a.name), len(b.name))
			if a.name[:n] != b.name[:n] {
				return nil, nil, false
			}
			x2 := append([]*Term{}, x[1:]...)
			y2 := append([]*Term{}, y[1:]...)
			if len(a.name) > n {
				x2 = append([]*Term{Str(a.name[n:])}, x2...)
			}
			if len(b.name) > n {
				y2 = append([]*Term{Str(b.name[n:])}, y2...)
			}
			x, y = x2, y2
			changed = true
			continue
		}
		break
	}
	for len(x) > 0 && len(y) > 0 {
		a, b := x[len(x)-1], y[len(y)-1]
		if a == b {
			x, y = x[:len(x)-1], y[:len(y)-1]
			changed = true
			continue
		}
		if a.op == OStr && b.op == OStr {
			n := min(len(a.name), len(b.name))
			if a.name[len(a.name)-n:] != b.name[len(b.name)-n:] {
				return nil, nil, false
			}
			x2 := append([]*Term{}, x[:len(x)-1]...)
			y2 := append([]*Term{}, y[:len(y)-1]...)
			if len(a.name) > n {
				x2 = append(x2, Str(a.name[:len(a.name)-n]))
			}
			if len(b.name) > n {
				y2 = append(y2, Str(b.name[:len(b.name)-n]))
			}
			x, y = x2, y2
			changed = true
			continue
		}
		break
	}
	if !changed {
		return x, append([]*Term{}, y...), false
	}
	return x, y, true
}

func Concat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t == Empty {
			return
		}
		if t.op == OConcat {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.op == OStr && t.op == OStr {
				out[n-1] = Str(l.name + t.name)
				return
			}
			// adjacent slices of the same sequence
			if l.op == OSlice && t.op == OSlice && l.args[0] == t.args[0] && l.args[2] == t.args[1] {
				out[n-1] = Slice(l.args[0], l.args[1], t.args[2])
				return
			}
			if l.op == OSlice && t.op == OUnit && t.args[0].op == OAt && t.args[0].args[0] == l.args[0] && t.args[0].args[1] == l.args[2] {
				out[n-1] = Slice(l.args[0], l.args[1], AddI(l.args[2], 1))
				return
			}
			if l.op == OUnit && t.op == OSlice && l.args[0].op == OAt && l.args[0].args[0] == t.args[0] && AddI(l.args[0].args[1], 1) == t.args[1] {
				out[n-1] = Slice(t.args[0], l.args[0].args[1], t.args[2])
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	switch len(out) {
	case 0:
		return Empty
	case 1:
		return out[0]
	}
	return mkTerm(OConcat, SSeq, "", nil, nil, out, nil)
}

func isByte(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func Unit(t *Term, elem types.Type) *Term {
	if isByte(elem) && t.op == OInt {
		return Str(string([]byte{byte(t.iv.Int64())}))
	}
	return mkTerm(OUnit, SSeq, "", nil, nil, []*Term{t}, elem)
}

func Len(t *Term) *Term {
	switch t.op {
	case OStr:
		return Int(int64(len(t.name)))
	case OUnit:
		return Int(1)
	case OConcat:
		r := Int(0)
		for _, a := range t.args {
			r = Add(r, Len(a))
		}
		return r
	case OSlice:
		return Sub(t.args[2], t.args[1])
	case OUpd:
		return Len(t.args[0])
	case OFill:
		return t.args[0]
	case OIte:
		return Ite(t.args[0], Len(t.args[1]), Len(t.args[2]))
	case OSym:
		if t.lenT != nil {
			return t.lenT
		}
	}
	if t.typ != nil {
		if a, ok := t.typ.Underlying().(*types.Array); ok && a.Len() >= 0 {
			return Int(a.Len())
		}
	}
	return mkTerm(OLen, SInt, "", nil, nil, []*Term{t}, nil)
}

// knownNonNeg reports a syntactically non-negative integer.
func knownNonNeg(t *Term) bool {
	if t.op == OInt {
		return t.iv.Sign() >= 0
	}
	if t.op == OLin {
		if t.iv.Sign() < 0 {
			return false
		}
		for i, a := range t.args {
			if t.coefs[i] < 0 || !knownNonNeg(a) {
				return false
			}
		}
		return true
	}
	if t.op == OApp && (t.name == "vExceptN#0" || t.name == "vAcceptN#0" || t.name == "utf8.width") {
		return true // their units prove it; a width is a length
	}
	lo, _ := bounds(t)
	return lo != nil && lo.Sign() >= 0
}

// Slice is s[lo:hi]; it is only built where 0 <= lo <= hi <= len(s) holds.
func Slice(s, lo, hi *Term) *Term {
	if lo == hi {
		return Empty
	}
	zero := Int(0)
	if lo == zero && hi == Len(s) {
		return s
	}
	switch s.op {
	case OStr:
		l, ok1 := lo.i64()
		h, ok2 := hi.i64()
		if ok1 && ok2 && l >= 0 && h >= l && h <= int64(len(s.name)) {
			return Str(s.name[l:h])
		}
	case OSlice:
		return Slice(s.args[0], Add(s.args[1], lo), Add(s.args[1], hi))
	case OFill:
		return Fill(Sub(hi, lo), s.args[1])
	case OIte:
		c := s.args[0]
		return Ite(c, Slice(s.args[1], applyCond(lo, c, true), applyCond(hi, c, true)), Slice(s.args[2], applyCond(lo, c, false), applyCond(hi, c, false)))
	case OConcat:
		// strip elements before lo
		if lo != zero {
			l := Len(s.args[0])
			rest := Concat(s.args[1:]...)
			if d := Sub(lo, l); knownNonNeg(d) {
				return Slice(rest, d, Sub(hi, l))
			} else if dd := Sub(l, lo); knownNonNeg(dd) && knownNonNeg(Sub(hi, l)) {
				return Concat(Slice(s.args[0], lo, l), Slice(rest, zero, Sub(hi, l)))
			}
		}
		// strip elements after hi
		n := len(s.args)
		last := s.args[n-1]
		before := Concat(s.args[:n-1]...)
		lb := Len(before)
		if d := Sub(lb, hi); knownNonNeg(d) {
			return Slice(before, lo, hi)
		} else if lo == zero && hi != Len(s) && knownNonNeg(Sub(hi, lb)) {
			return Concat(before, Slice(last, zero, Sub(hi, lb)))
		}
		if lo != zero && knownNonNeg(Sub(lb, lo)) && knownNonNeg(Sub(hi, lb)) {
			return Concat(Slice(before, lo, lb), Slice(last, zero, Sub(hi, lb)))
		}
	}
	return mkTerm(OSlice, SSeq, "", nil, nil, []*Term{s, lo, hi}, nil)
}

// surelyNonEmpty reports that a sequence has an element by its form.
func surelyNonEmpty(s *Term) bool {
	switch s.op {
	case OUnit:
		return true
	case OStr:
		return s.name != ""
	case OConcat:
		for _, a := range s.args {
			if surelyNonEmpty(a) {
				return true
			}
		}
	}
	return false
}

func At(s, i *Term, elem types.Type) *Term {
	switch s.op {
	case OStr:
		if n, ok := i.i64(); ok && n >= 0 && n < int64(len(s.name)) {
			return Int(int64(s.name[n]))
		}
		if n := len(s.name); n > 0 && n <= 16 && i.op != OInt {
			v := Int(int64(s.name[n-1]))
			for k := n - 2; k >= 0; k-- {
				v = Ite(Eq(i, Int(int64(k))), Int(int64(s.name[k])), v)
			}
			return v
		}
	case OUnit:
		if i == Int(0) {
			return s.args[0]
		}
	case OSlice:
		return At(s.args[0], Add(s.args[1], i), elem)
	case OFill:
		return s.args[1]
	case OUpd:
		if s.args[1] == i {
			return s.args[2]
		}
		if d := Sub(s.args[1], i); d.op == OInt {
			return At(s.args[0], i, elem)
		}
	case OConcat:
		if c := s.args[0]; i == Int(0) && c.op == OSlice && c.args[1] == Int(0) && surelyNonEmpty(c.args[0]) {
			// the first octet of a character
			if w := c.args[2]; w.op == OApp && w.name == "utf8.width" && surelyNonEmpty(w.args[0]) {
				return At(c.args[0], i, elem)
			}
		}
		l := Len(s.args[0])
		rest := Concat(s.args[1:]...)
		if d := Sub(i, l); knownNonNeg(d) {
			return At(rest, d, elem)
		}
		if d := Sub(l, i); knownNonNeg(AddI(d, -1)) {
			return At(s.args[0], i, elem)
		}
		n := len(s.args)
		before := Concat(s.args[:n-1]...)
		if d := Sub(i, Len(before)); knownNonNeg(d) {
			return At(s.args[n-1], d, elem)
		}
		// looking something up in a table of constants
		if n <= 64 {
			table := true
			for _, u := range s.args {
				table = table && u.op == OUnit && (u.args[0].op == OStr || u.args[0].op == OInt)
			}
			if table {
				v := s.args[n-1].args[0]
				for k := n - 2; k >= 0; k-- {
					v = Ite(Eq(i, Int(int64(k))), s.args[k].args[0], v)
				}
				return v
			}
		}
	case OIte:
		return Ite(s.args[0], At(s.args[1], i, elem), At(s.args[2], i, elem))
	}
	if elem == nil {
		panic("At: no element type")
	}
	return mkTerm(OAt, sortOf(elem), "", nil, nil, []*Term{s, i}, elem)
}

func Upd(s, i, v *Term, elem types.Type) *Term {
	zero := Int(0)
	if s.op == OSym || s.op == OSel || s.op == ODeref {
		// small arrays are spelled out
		l, ok1 := Len(s).i64()
		n, ok2 := i.i64()
		if ok1 && ok2 && l <= 16 && n >= 0 && n < l {
			var ts []*Term
			for k := int64(0); k < l; k++ {
				if k == n {
					ts = append(ts, Unit(v, elem))
				} else {
					ts = append(ts, Unit(At(s, Int(k), elem), elem))
				}
			}
			return Concat(ts...)
		}
	}
	switch s.op {
	case OStr:
		if n, ok := i.i64(); ok && n >= 0 && n < int64(len(s.name)) {
			return Concat(Str(s.name[:n]), Unit(v, elem), Str(s.name[n+1:]))
		}
	case OUnit:
		if i == zero {
			return Unit(v, elem)
		}
	case OFill:
		if n, ok := i.i64(); ok {
			if l, ok := s.args[0].i64(); ok && l <= 64 && n >= 0 && n < l {
				var ts []*Term
				for k := int64(0); k < l; k++ {
					if k == n {
						ts = append(ts, Unit(v, elem))
					} else {
						ts = append(ts, Unit(s.args[1], elem))
					}
				}
				return Concat(ts...)
			}
		}
		if i == zero {
			return Concat(Unit(v, elem), Fill(AddI(s.args[0], -1), s.args[1]))
		}
	case OSlice:
		if i == zero {
			return Concat(Unit(v, elem), Slice(s.args[0], AddI(s.args[1], 1), s.args[2]))
		}
	case OUpd:
		if s.args[1] == i {
			return Upd(s.args[0], i, v, elem)
		}
	case OConcat:
		l := Len(s.args[0])
		rest := Concat(s.args[1:]...)
		if d := Sub(i, l); knownNonNeg(d) {
			return Concat(s.args[0], Upd(rest, d, v, elem))
		}
		if d := Sub(l, i); knownNonNeg(AddI(d, -1)) {
			return Concat(Upd(s.args[0], i, v, elem), rest)
		}
		n := len(s.args)
		before := Concat(s.args[:n-1]...)
		if d := Sub(i, Len(before)); knownNonNeg(d) {
			return Concat(before, Upd(s.args[n-1], d, v, elem))
		}
		// update of the last element of a known-length suffix
		for k := n - 1; k > 0; k-- {
			pre := Concat(s.args[:k]...)
			if i == Len(pre) {
				return Concat(pre, Upd(Concat(s.args[k:]...), zero, v, elem))
			}
		}
	}
	return mkTerm(OUpd, SSeq, "", nil, nil, []*Term{s, i, v}, elem)
}

func Fill(n, v *Term) *Term {
	if n == Int(0) {
		return Empty
	}
	return mkTerm(OFill, SSeq, "", nil, nil, []*Term{n, v}, nil)
}

// ---- structures

func Mk(args ...*Term) *Term {
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].op == OSel && args[0].iv.Sign() == 0 && args[0].name == strconv.Itoa(len(args)) {
		x := args[0].args[0]
		ok := true
		for i, a := range args {
			if a.op != OSel || a.args[0] != x || a.iv.Int64() != int64(i) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mkTerm(OMk, SU, "", nil, nil, args, nil)
}

// Sel selects field i of a structure with n fields.
func Sel(t *Term, i, n int, typ types.Type) *Term {
	switch t.op {
	case OMk, OTuple:
		return t.args[i]
	case OIte:
		return Ite(t.args[0], Sel(t.args[1], i, n, typ), Sel(t.args[2], i, n, typ))
	}
	s := SU
	if typ != nil {
		s = sortOf(typ)
	}
	return mkTerm(OSel, s, strconv.Itoa(n), bigI(int64(i)), nil, []*Term{t}, typ)
}

func Sl(nilf, seq *Term) *Term {
	if nilf.op == OSlNil && seq.op == OSlSeq && nilf.args[0] == seq.args[0] {
		return nilf.args[0]
	}
	return mkTerm(OSl, SU, "", nil, nil, []*Term{nilf, seq}, nil)
}

var NilSlice = Sl(True, Empty)

func SlNil(t *Term) *Term {
	switch t.op {
	case OSl:
		return t.args[0]
	case ORS:
		return False
	case OIte:
		return Ite(t.args[0], SlNil(t.args[1]), SlNil(t.args[2]))
	}
	return mkTerm(OSlNil, SBool, "", nil, nil, []*Term{t}, nil)
}

func SlSeq(t *Term) *Term {
	switch t.op {
	case OSl:
		return t.args[1]
	case OIte:
		return Ite(t.args[0], SlSeq(t.args[1]), SlSeq(t.args[2]))
	case ORS:
		panic("SlSeq of array-backed slice")
	}
	return mkTerm(OSlSeq, SSeq, "", nil, nil, []*Term{t}, nil)
}

func Box(t *Term) *Term {
	if t.op == ODeref {
		// a pointer with the same contents; identity is not tracked
		return mkTerm(OBox, SU, "", nil, nil, []*Term{t}, nil)
	}
	return mkTerm(OBox, SU, "", nil, nil, []*Term{t}, nil)
}

func Deref(t *Term, typ types.Type) *Term {
	switch t.op {
	case OBox:
		return t.args[0]
	case OIte:
		return Ite(t.args[0], Deref(t.args[1], typ), Deref(t.args[2], typ))
	}
	s := SU
	if typ != nil {
		s = sortOf(typ)
	}
	return mkTerm(ODeref, s, "", nil, nil, []*Term{t}, typ)
}

func Iface(typ string, v *Term) *Term {
	return mkTerm(OIface, SU, typ, nil, nil, []*Term{v}, nil)
}

var typeTags = map[string]int64{}

func tagOf(name string) int64 {
	if n, ok := typeTags[name]; ok {
		return n
	}
	n := int64(len(typeTags) + 1)
	typeTags[name] = n
	return n
}

func Tag(t *Term) *Term {
	switch t.op {
	case ONil:
		return Int(0)
	case OIface:
		return Int(tagOf(t.name))
	case OIte:
		return Ite(t.args[0], Tag(t.args[1]), Tag(t.args[2]))
	}
	return mkTerm(OTag, SInt, "", nil, nil, []*Term{t}, nil)
}

func As(t *Term, name string, typ types.Type) *Term {
	if t.op == OIface && t.name == name {
		return t.args[0]
	}
	if t.op == OIte {
		return Ite(t.args[0], As(t.args[1], name, typ), As(t.args[2], name, typ))
	}
	return mkTerm(OAs, sortOf(typ), name, nil, nil, []*Term{t}, typ)
}

func ErrT(isNil *Term) *Term {
	if isNil == True {
		return Nil
	}
	return mkTerm(OErr, SU, "", nil, nil, []*Term{isNil}, nil)
}

func IsNil(t *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], IsNil(t.args[1]), IsNil(t.args[2]))
	}
	return Eq(t, Nil)
}

func App(name string, s Sort, typ types.Type, args ...*Term) *Term {
	return mkTerm(OApp, s, name, nil, nil, args, typ)
}

func Tuple(args ...*Term) *Term { return mkTerm(OTuple, SU, "", nil, nil, args, nil) }

// ---- maps (string keyed)

func MapSet(m, k, v *Term) *Term {
	if m.op == OMapSet && m.args[1] == k {
		return MapSet(m.args[0], k, v)
	}
	return mkTerm(OMapSet, SU, "", nil, nil, []*Term{m, k, v}, nil)
}

func MapHas(m, k *Term) *Term {
	switch m.op {
	case OMapEmpty, ONil:
		return False
	case OMapSet:
		e := Eq(m.args[1], k)
		if e == True {
			return True
		}
		return Or(e, MapHas(m.args[0], k))
	}
	return mkTerm(OMapHas, SBool, "", nil, nil, []*Term{m, k}, nil)
}

func MapGet(m, k *Term, elem types.Type) *Term {
	switch m.op {
	case OMapEmpty, ONil:
		return zeroOf(elem)
	case OMapSet:
		return Ite(Eq(m.args[1], k), m.args[2], MapGet(m.args[0], k, elem))
	}
	return mkTerm(OMapGet, sortOf(elem), "", nil, nil, []*Term{m, k}, elem)
}

// ---- printing

func (t *Term) String() string {
	var b strings.Builder
	t.print(&b, 0)
	return b.String()
}

func (t *Term) print(b *strings.Builder, d int) {
	if b.Len() > 4000 || d > 14 {
		b.WriteString("…")
		return
	}
	switch t.op {
	case OSym:
		b.WriteString(t.name)
	case OInt:
		b.WriteString(t.iv.String())
	case OBool:
		b.WriteString(t.name)
	case OStr:
		b.WriteString(strconv.Quote(t.name))
	case OLin:
		b.WriteByte('(')
		b.WriteString(t.iv.String())
		for i, a := range t.args {
			fmt.Fprintf(b, "%+d*", t.coefs[i])
			a.print(b, d+1)
		}
		b.WriteByte(')')
	case OSel:
		t.args[0].print(b, d+1)
		b.WriteByte('.')
		b.WriteString(t.iv.String())
	case OObj:
		fmt.Fprintf(b, "obj%s", t.iv)
	case OFld:
		fmt.Fprintf(b, ".%s", t.iv)
	case OConcat:
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(" ++ ")
			}
			a.print(b, d+1)
		}
	default:
		n := opNames[t.op]
		if n == "" || t.name != "" {
			n += t.name
		}
		b.WriteString(n)
		b.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(", ")
			}
			a.print(b, d+1)
		}
		b.WriteByte(')')
	}
}
