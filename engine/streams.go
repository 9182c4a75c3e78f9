package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the functions between the caller's reader and writer and the
// content lines: folding, unfolding, tokens, lines, Encode and Decode.

var sinkStruct, bufioStruct, parserStruct *types.Struct

func initStreams() {
	f := func(n string, t types.Type) *types.Var { return types.NewField(0, nil, n, t, false) }
	errT := types.Universe.Lookup("error").Type()
	sinkStruct = types.NewStruct([]*types.Var{f("out", stringType), f("failed", boolType), f("err", errT), f("tried", stringType)}, nil)
	bufioStruct = types.NewStruct([]*types.Var{f("rest", stringType), f("buffered", intType), f("reported", boolType), f("err", errT)}, nil)
	parserStruct = types.NewStruct([]*types.Var{f("taken", types.NewArray(tokenType, -1)), f("part", stringType), f("text", stringType), f("ended", boolType)}, nil)
	feedStruct = types.NewStruct([]*types.Var{f("part", stringType), f("text", stringType)}, nil)
}

// ---- the caller's writer

const (
	skOut = iota
	skFailed
	skErr
	skTried
)

func (ex *Exec) newSink(st *State) (*Term, *Obj) {
	o := newObj(sinkStruct, "sink", "writer")
	st.heap[o.id] = Mk(Empty, False, Nil, Empty)
	return Iface("ghostsink", addrOf(o)), o
}

// sinkWrite hands bytes to the writer: it takes all of them or fails.
func (ex *Exec) sinkWrite(st *State, in ssa.Instruction, o *Obj, b *Term) []Ret {
	c := st.heap[o.id]
	ex.oblige(st, "write-after-failure", in, Not(c.args[skFailed]))
	if st.dead {
		return nil
	}
	bad := st.clone()
	st.heap[o.id] = Mk(Concat(c.args[skOut], b), False, Nil, Empty)
	out := []Ret{{st, []*Term{Len(b), Nil}}}
	e := Iface("error:write", fresh("failure", intType))
	bad.heap[o.id] = Mk(c.args[skOut], True, e, Concat(c.args[skOut], b))
	n := fresh("n", intType)
	bad.assume(And(Le(Int(0), n), Le(n, Len(b))))
	return append(out, Ret{bad, []*Term{n, e}})
}

// startsWith proves that a sequence is the start of another.
func (ex *Exec) startsWith(st *State, whole, start *Term) bool {
	w, s := append([]*Term{}, parts(whole)...), append([]*Term{}, parts(start)...)
	none := func(t *Term) bool { return ex.holds(st, Eq(Len(t), Int(0))) }
	for len(s) > 0 {
		switch {
		case none(s[0]):
			s = s[1:]
		case len(w) == 0:
			return false
		case w[0] == s[0]:
			w, s = w[1:], s[1:]
		case none(w[0]):
			w = w[1:]
		case w[0].op == OStr && s[0].op == OStr && strings.HasPrefix(w[0].name, s[0].name):
			w[0], s = Str(w[0].name[len(s[0].name):]), s[1:]
		case w[0].op == OStr && s[0].op == OStr && strings.HasPrefix(s[0].name, w[0].name):
			s[0], w = Str(s[0].name[len(w[0].name):]), w[1:]
		default:
			a, b := Concat(s...), Concat(w...)
			if len(s) == 1 && s[0].op == OSlice && s[0].args[0] == w[0] && s[0].args[1] == Int(0) {
				return ex.holds(st, And(Le(Int(0), s[0].args[2]), Le(s[0].args[2], Len(w[0]))))
			}
			return ex.holds(st, Le(Len(a), Len(b))) && proveGoal(st.pc, Eq(a, Slice(b, Int(0), Len(a))))
		}
	}
	return true
}

// ---- folding

// fieldOf finds the one field of a structure a predicate accepts.
func fieldOf(t types.Type, is func(types.Type) bool) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	k := -1
	for i := 0; i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			if k >= 0 {
				return -1
			}
			k = i
		}
	}
	return k
}

func isIface(method string) func(types.Type) bool {
	return func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		if !ok || isErrorType(t) {
			return false
		}
		for k := 0; k < i.NumMethods(); k++ {
			if i.Method(k).Name() == method {
				return true
			}
		}
		return false
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

type foldFields struct{ w, err, line int }

func foldFieldsOf(t types.Type) (foldFields, bool) {
	f := foldFields{fieldOf(t, isIface("Write")), fieldOf(t, isErrorType), fieldOf(t, isInt)}
	return f, f.w >= 0 && f.err >= 0 && f.line >= 0
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// evalWhole evaluates a specification, not at all if the result is already
// what was written.
func (ex *Exec) evalWhole(st *State, root Root, sk *Term) []Ret {
	vs := ex.evalApp(st, root.fn, root.args)
	if sk.args[skFailed] == False && sk.args[skOut] == vs[0] || sk.args[skFailed] == True && ex.startsWith(st, vs[0], sk.args[skTried]) {
		return []Ret{{st, vs}}
	}
	return ex.evalRoot(st, root)
}

func (ex *Exec) verifyWrite(c *Contract, res *UnitResult) {
	f := c.fn
	rt := ptrElem(f.Params[0].Type())
	ff, ok := foldFieldsOf(rt)
	if !ok {
		res.Error = "the receiver does not have one writer, one error and one number"
		return
	}
	s := structOf(rt)
	for _, failed := range []bool{true, false} {
		st := newState()
		sink, so := ex.newSink(st)
		e0 := Nil
		if failed {
			e0 = Iface("error:before", fresh("failure", intType))
			st.heap[so.id] = Mk(Empty, True, e0, Empty)
		}
		line := fresh("line", s.Field(ff.line).Type())
		ro := newObj(rt, "", "receiver")
		vals := make([]*Term, s.NumFields())
		for i := range vals {
			switch i {
			case ff.w:
				vals[i] = sink
			case ff.err:
				vals[i] = e0
			case ff.line:
				vals[i] = line
			default:
				vals[i] = fresh("f", s.Field(i).Type())
			}
		}
		st.heap[ro.id] = Mk(vals...)
		before := st.heap[ro.id]
		q := fresh("q", f.Params[1].Type())
		text := q
		if q.sort != SSeq {
			text = SlSeq(q)
		}
		root := Root{c.spec, []*Term{line, text}}
		ex.roots = nil
		if !failed {
			ex.roots = []Root{root}
		}
		ex.keepRets = true
		rets := ex.callBody(st, f, []*Term{addrOf(ro), q}, nil)
		res.Paths += len(rets)
		for _, r := range rets {
			if !res.Feasible && !failed && solver.check(r.st.facts()) != resUnsat {
				res.Feasible = true
			}
			sk := r.st.heap[so.id]
			rec := r.st.heap[ro.id]
			err := r.vals[1]
			if failed {
				ex.record(r.st, "post-failed-before", c.key, sk.args[skOut] == Empty && err == e0 && rec == before, "after an earlier failure the writer must be left alone and the failure returned again")
				continue
			}
			fe := Sel(rec, ff.err, s.NumFields(), s.Field(ff.err).Type())
			cmp := func(st *State, name string, code, spec *Term) {
				ok := proveGoal(st.pc, Eq(code, spec))
				d := ""
				if !ok {
					d = fmt.Sprintf("code gives %s but the contract says %s", code, spec)
				}
				ex.record(st, "post-"+name, c.key, ok, d)
			}
			ex.record(r.st, "post-writer", c.key, Sel(rec, ff.w, s.NumFields(), s.Field(ff.w).Type()) == sink, "the writer is replaced")
			for _, sp := range ex.evalWhole(r.st, root, sk) {
				if sp.st.dead {
					continue
				}
				if sk.args[skFailed] == False {
					cmp(sp.st, "output", sk.args[skOut], sp.vals[0])
					cmp(sp.st, "column", Sel(rec, ff.line, s.NumFields(), s.Field(ff.line).Type()), sp.vals[1])
					ex.record(sp.st, "post-accepts", c.key, fe == Nil && err == Nil, "an error is reported although every write succeeded")
					continue
				}
				e := sk.args[skErr]
				ex.record(sp.st, "post-error", c.key, fe == e && err == e, "the failure of the writer is not kept and returned")
				tried := sk.args[skTried]
				ex.record(sp.st, "post-prefix", c.key, ex.startsWith(sp.st, sp.vals[0], tried), fmt.Sprintf("before the failure code gives %s but the contract says %s", tried, sp.vals[0]))
			}
		}
	}
}

// applyWrite is the effect of writing a text, in one or more parts, through
// a folder.
func (ex *Exec) applyWrite(st *State, in ssa.Instruction, c *Contract, recv, text *Term) []Ret {
	usedContracts[c.key]++
	rt := ptrElem(c.fn.Params[0].Type())
	ff, ok := foldFieldsOf(rt)
	if !ok || recv.op != OAddr || objOf(recv).ro {
		ex.unsupported(st, in, "receiver of "+c.key)
		return nil
	}
	s := structOf(rt)
	rec := st.load(recv, rt)
	sel := func(i int) *Term { return Sel(rec, i, s.NumFields(), s.Field(i).Type()) }
	so := ghostObj(sel(ff.w), "ghostsink")
	if so == nil {
		ex.unsupported(st, in, "writer of "+c.key+" is not tracked")
		return nil
	}
	n := fresh("n", intType)
	e := sel(ff.err)
	if e != Nil {
		if IsNil(e) != False {
			ex.unsupported(st, in, "state of "+c.key+" is not known")
			return nil
		}
		return []Ret{{st, []*Term{Int(0), e}}}
	}
	put := func(st *State, err, line *Term) {
		a := recv
		st.heap[objOf(a).id] = writePath(st.content(objOf(a)), objOf(a).typ, addPath(a, fldT(ff.err, s.NumFields())).args[1:], err)
		st.heap[objOf(a).id] = writePath(st.content(objOf(a)), objOf(a).typ, addPath(a, fldT(ff.line, s.NumFields())).args[1:], line)
	}
	sk := st.heap[so.id]
	ex.oblige(st, "write-after-failure", in, Not(sk.args[skFailed]))
	vs := ex.contractApp(st, c, []*Term{sel(ff.line), text})
	bad := st.clone()
	st.heap[so.id] = Mk(Concat(sk.args[skOut], vs[0]), False, Nil, Empty)
	put(st, Nil, vs[1])
	fail := Iface("error:write", fresh("failure", intType))
	k := fresh("part", intType)
	bad.assume(And(Le(Int(0), k), Le(k, Len(vs[0]))))
	bad.heap[so.id] = Mk(sk.args[skOut], True, fail, Concat(sk.args[skOut], Slice(vs[0], Int(0), k)))
	put(bad, fail, fresh("line", s.Field(ff.line).Type()))
	return []Ret{{st, []*Term{n, Nil}}, {bad, []*Term{fresh("n", intType), fail}}}
}

// folderOf finds the folder behind an interface and the contract of its
// writing.
func folderOf(a *Term) (*Contract, *Term) {
	if a.op != OIface || a.args[0].op != OAddr {
		return nil, nil
	}
	for _, c := range contracts {
		if c.kind == "write" && c.fn != nil && c.fn.Params[0].Type().String() == a.name {
			return c, a.args[0]
		}
	}
	return nil, nil
}

// ---- unfolding

// lookAhead is how much of the text may be left when its end has been seen: too
// little for a line break followed by a space.
const lookAhead = 2

const (
	brRest = iota
	brBuffered
	brReported
	brErr
)

// bufioCall models a bufio.Reader as the text which is still to come, the
// number of bytes of it held in the buffer and whether the end of the text has
// been reported. What comes after the first error of the underlying reader is
// never read.
func (ex *Exec) bufioCall(st *State, in *ssa.Call, f *ssa.Function, args []*Term) ([]Ret, bool) {
	name := f.String()
	if name == "bufio.NewReader" {
		r := args[0]
		o := ghostObj(r, "ghostsource")
		if o == nil {
			return nil, false
		}
		usedExterns[name] = true
		b := newObj(bufioStruct, "bufio", "reader")
		st.heap[b.id] = Mk(st.heap[o.id], Int(0), False, Nil)
		return []Ret{{st, []*Term{addrOf(b)}}}, true
	}
	if f.Signature.Recv() == nil || len(args) == 0 {
		return nil, false
	}
	if args[0].op == ONil || args[0] == Nil {
		ex.oblige(st, "nil-deref", in, False)
		return nil, true
	}
	if args[0].op == OAddr && objOf(args[0]).kind == "runes" {
		return ex.runesCall(st, in, f, objOf(args[0]))
	}
	if args[0].op != OAddr || objOf(args[0]).kind != "bufio" {
		return nil, false
	}
	usedExterns[name] = true
	o := objOf(args[0])
	c := st.heap[o.id]
	rest, buf, rep, er := readPath(c, bufioStruct, []*Term{fldT(0, 4)}), readPath(c, bufioStruct, []*Term{fldT(1, 4)}), readPath(c, bufioStruct, []*Term{fldT(2, 4)}), readPath(c, bufioStruct, []*Term{fldT(3, 4)})
	n := Len(rest)
	st.axiom(And(Le(Int(0), buf), Le(buf, n)))
	st.axiom(Implies(rep, Eq(buf, n)))
	newErr := func() *Term { return Iface("error:read", fresh("failure", intType)) }
	after := func(s *State, left *Term, held, lo *Term) *Term {
		// what the buffer holds after at least lo more bytes have been asked for
		b := fresh("buffered", intType)
		s.axiom(And(Le(Int(0), b), Le(b, Len(left)), Implies(held, Eq(b, lo))))
		s.axiom(Implies(rep, Eq(b, Len(left))))
		return b
	}
	switch f.Name() {
	case "Buffered":
		return []Ret{{st, []*Term{buf}}}, true
	case "ReadByte":
		ex.oblige(st, "read-after-error", in, Or(Not(rep), Lt(Int(0), buf)))
		none := st.clone()
		var out []Ret
		st.assume(Lt(Int(0), n))
		if !st.dead {
			left := Slice(rest, Int(1), n)
			st.heap[o.id] = Mk(left, after(st, left, Lt(Int(0), buf), Sub(buf, Int(1))), rep, er)
			out = append(out, Ret{st, []*Term{At(rest, Int(0), byteType), Nil}})
		}
		none.assume(Eq(n, Int(0)))
		if !none.dead {
			e := newErr()
			none.heap[o.id] = Mk(rest, Int(0), True, e)
			out = append(out, Ret{none, []*Term{fresh("b", byteType), e}})
		}
		return out, true
	case "Peek":
		k, ok := args[1].i64()
		if !ok || k < 0 || k > 16 {
			return nil, false
		}
		ex.oblige(st, "read-after-error", in, Or(Not(rep), Le(args[1], buf)))
		none := st.clone()
		var out []Ret
		st.assume(Le(args[1], n))
		if !st.dead {
			b := fresh("buffered", intType)
			st.axiom(And(Le(args[1], b), Le(b, n), Implies(Le(args[1], buf), Eq(b, buf)), Implies(rep, Eq(b, n))))
			st.heap[o.id] = Mk(rest, b, rep, er)
			var next []*Term
			for i := int64(0); i < k; i++ {
				next = append(next, Unit(At(rest, Int(i), byteType), byteType))
			}
			out = append(out, Ret{st, []*Term{Sl(False, Concat(next...)), Nil}})
		}
		none.assume(Lt(n, args[1]))
		if !none.dead {
			e := newErr()
			none.heap[o.id] = Mk(rest, n, True, e)
			out = append(out, Ret{none, []*Term{Sl(False, rest), e}})
		}
		return out, true
	case "Discard":
		ex.oblige(st, "read-after-error", in, And(Le(Int(0), args[1]), Le(args[1], buf)))
		if st.dead {
			return nil, true
		}
		st.heap[o.id] = Mk(Slice(rest, args[1], n), Sub(buf, args[1]), rep, er)
		return []Ret{{st, []*Term{args[1], Nil}}}, true
	}
	return nil, false
}

func isBufio(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && p.Elem().String() == "bufio.Reader"
}

type unfoldFields struct{ r, br, err int }

func unfoldFieldsOf(t types.Type) (unfoldFields, bool) {
	f := unfoldFields{fieldOf(t, isIface("Read")), fieldOf(t, isBufio), fieldOf(t, isErrorType)}
	return f, f.r >= 0 && f.br >= 0 && f.err >= 0
}

func (ex *Exec) verifyRead(c *Contract, res *UnitResult) {
	f := c.fn
	rt := ptrElem(f.Params[0].Type())
	uf, ok := unfoldFieldsOf(rt)
	if !ok {
		res.Error = "the receiver does not have one reader, one buffered reader and one error"
		return
	}
	s := structOf(rt)
	for _, state := range []string{"new", "reading", "ended"} {
		st := newState()
		text := fresh("text", stringType)
		so := newObj(stringType, "source", "source")
		st.heap[so.id] = text
		src := Iface("ghostsource", addrOf(so))
		br, err := Nil, Nil
		var bo *Obj
		if state != "new" {
			bo = newObj(bufioStruct, "bufio", "reader")
			b := fresh("buffered", intType)
			st.assume(And(Le(Int(0), b), Le(b, Len(text))))
			st.heap[bo.id] = Mk(text, b, False, Nil)
			if state == "ended" {
				err = Iface("error:read", fresh("failure", intType))
				st.heap[bo.id] = Mk(text, Len(text), True, err)
				st.assume(Le(Len(text), Int(lookAhead)))
			}
			br = addrOf(bo)
		}
		ro := newObj(rt, "", "receiver")
		vals := make([]*Term, s.NumFields())
		for i := range vals {
			switch i {
			case uf.r:
				vals[i] = src
			case uf.br:
				vals[i] = br
			case uf.err:
				vals[i] = err
			default:
				vals[i] = fresh("f", s.Field(i).Type())
			}
		}
		st.heap[ro.id] = Mk(vals...)
		po := newObj(types.NewArray(byteType, -1), "", "p")
		p0 := fresh("p", types.NewArray(byteType, -1))
		st.heap[po.id] = p0
		p := mkTerm(ORS, SU, "", nil, nil, []*Term{addrOf(po), Int(0), Len(p0)}, nil)
		root := Root{c.spec, []*Term{text}}
		ex.roots = []Root{root}
		ex.keepRets = true
		rets := ex.callBody(st, f, []*Term{addrOf(ro), p}, nil)
		res.Paths += len(rets)
		for _, r := range rets {
			if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
				res.Feasible = true
			}
			say := func(st *State, kind string, g *Term, d string) {
				ex.record(st, kind, c.key, proveGoal(st.pc, g), d)
			}
			rec := r.st.heap[ro.id]
			sel := func(i int) *Term { return Sel(rec, i, s.NumFields(), s.Field(i).Type()) }
			nb := sel(uf.br)
			n, err := r.vals[0], r.vals[1]
			if nb == Nil {
				// nothing has been read yet
				say(r.st, "post-count", And(Eq(n, Int(0)), IsNil(err), Eq(Len(p0), Int(0))), "nothing is read")
				continue
			}
			if nb.op != OAddr || objOf(nb).kind != "bufio" {
				ex.record(r.st, "post-state", c.key, false, "the buffered reader is not known")
				continue
			}
			b := r.st.heap[objOf(nb).id]
			bsel := func(i int) *Term { return Sel(b, i, 4, bufioStruct.Field(i).Type()) }
			rest, buf, rep := bsel(brRest), bsel(brBuffered), bsel(brReported)
			e := IsNil(sel(uf.err))
			say(r.st, "post-state", Eq(e, Not(rep)), "the end of the text is not remembered")
			say(r.st, "post-state", Implies(rep, And(Eq(buf, Len(rest)), Le(Len(rest), Int(lookAhead)))), "the end of the text is remembered too early")
			p1 := r.st.heap[po.id]
			say(r.st, "post-count", And(Le(Int(0), n), Le(n, Len(p0))), "the count is not within the buffer")
			say(r.st, "post-progress", Implies(IsNil(err), Or(Lt(Int(0), n), Eq(Len(p0), Int(0)))), "neither data nor an error is returned")
			say(r.st, "post-end", Implies(Not(IsNil(err)), And(Eq(n, Int(0)), Eq(Len(rest), Int(0)))), "an error is returned before the text has been used up")
			for _, sp := range ex.evalRoot(r.st, root) {
				if sp.st.dead {
					continue
				}
				// what was given and what is to come make up the unfolded text
				rem := ex.evalApp(sp.st, c.spec, []*Term{rest})[0]
				g := Eq(Concat(Slice(p1, Int(0), n), rem), sp.vals[0])
				d := ""
				ok := proveGoal(sp.st.pc, g)
				if !ok {
					ok = true
					for _, rs := range ex.evalRoot(sp.st, Root{c.spec, []*Term{rest}}) {
						if !rs.st.dead && !proveGoal(rs.st.pc, Eq(Concat(Slice(p1, Int(0), n), rs.vals[0]), sp.vals[0])) {
							ok = false
						}
					}
				}
				if !ok {
					d = fmt.Sprintf("code gives %s and leaves %s but the contract says %s", Slice(p1, Int(0), n), rest, sp.vals[0])
				}
				ex.record(sp.st, "post-output", c.key, ok, d)
			}
		}
	}
}

// unfolderText is the text which comes out of a reader which has not been
// read from.
func (ex *Exec) unfolderText(st *State, a *Term) *Term {
	if o := ghostObj(a, "ghostsource"); o != nil {
		return st.heap[o.id]
	}
	if a.op != OIface || a.args[0].op != OAddr {
		return nil
	}
	for _, c := range contracts {
		if c.kind != "read" || c.fn == nil || c.fn.Params[0].Type().String() != a.name {
			continue
		}
		rt := ptrElem(c.fn.Params[0].Type())
		uf, ok := unfoldFieldsOf(rt)
		if !ok {
			return nil
		}
		s := structOf(rt)
		rec := st.load(a.args[0], rt)
		sel := func(i int) *Term { return Sel(rec, i, s.NumFields(), s.Field(i).Type()) }
		if sel(uf.br) != Nil || sel(uf.err) != Nil {
			return nil
		}
		o := ghostObj(sel(uf.r), "ghostsource")
		if o == nil {
			return nil
		}
		usedContracts[c.key]++
		return ex.contractApp(st, c, []*Term{st.heap[o.id]})[0]
	}
	return nil
}

// ---- tokens

func partFn(part string) *Term {
	if part == "end" {
		for _, m := range []string{"Done"} {
			t := parPkg.Pkg.Scope().Lookup("Tokeniser").Type()
			if f := prog.LookupMethod(types.NewPointer(t), parPkg.Pkg, m); f != nil {
				return funcTerm(f)
			}
		}
	}
	for _, c := range contracts {
		if c.kind == "tok" && c.fn != nil && c.opts["part"] == part {
			return funcTerm(c.fn)
		}
	}
	return nil
}

// sameFn compares function values; method expressions come as wrappers.
func sameFn(a, b *Term) bool {
	if a == b {
		return a != nil
	}
	if a == nil || b == nil || a.op != OFunc || b.op != OFunc || len(a.args)+len(b.args) > 0 {
		return false
	}
	return unthunk(funcByTerm[a]) == unthunk(funcByTerm[b])
}

func unthunk(f *ssa.Function) *ssa.Function {
	if f != nil && f.Synthetic != "" && f.Object() != nil {
		if o, ok := f.Object().(*types.Func); ok {
			if g := prog.FuncValue(o); g != nil {
				return g
			}
		}
	}
	return f
}

func (ex *Exec) verifyTok(c *Contract, res *UnitResult) {
	f := c.fn
	st := newState()
	text := fresh("text", stringType)
	a, to := ex.newTok(st, text)
	if c.opts["part"] != "name" {
		// characters taken before may be left over, to be dropped
		st.heap[to.id] = Mk(fresh("left", stringType), text)
	}
	obj := newObj(ptrElem(f.Params[0].Type()), "", "tokeniser value")
	st.heap[obj.id] = a
	if c.spec.requires != nil {
		st.assume(ex.boolOf(st, c.spec.requires, []*Term{text}))
	}
	root := Root{c.spec, []*Term{text}}
	ex.roots = []Root{root}
	ex.keepRets = true
	rets := ex.callBody(st, f, []*Term{addrOf(obj)}, nil)
	res.Paths = len(rets)
	ts := structOf(tokenType)
	for _, r := range rets {
		if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
			res.Feasible = true
		}
		tok := r.st.freeze(r.vals[0])
		typ, data := Sel(tok, 0, 2, ts.Field(0).Type()), Sel(tok, 1, 2, ts.Field(1).Type())
		for _, sp := range ex.evalRoot(r.st, root) {
			if sp.st.dead {
				continue
			}
			cmp := func(st *State, name string, code, spec *Term) {
				ok := proveGoal(st.pc, Eq(code, spec))
				d := ""
				if !ok {
					d = fmt.Sprintf("code gives %s but the contract says %s", code, spec)
				}
				ex.record(st, "post-"+name, c.key, ok, d)
			}
			cmp(sp.st, "type", typ, sp.vals[0])
			more := sp.st.clone()
			more.assume(Le(Int(0), typ))
			if !more.dead {
				good := False
				rest := r.st.heap[to.id].args[1]
				for _, p := range []string{"name", "pname", "pvalue", "value", "end"} {
					if sameFn(r.vals[1], partFn(p)) {
						good = ex.boolOf(more, specByName["vToken_ensures"].fn, []*Term{Str(""), text, typ, data, Str(p), rest})
						break
					}
				}
				err := Sel(r.st.heap[obj.id], 1, 3, types.Universe.Lookup("error").Type())
				ex.record(more, "post-noerror", c.key, proveGoal(more.pc, IsNil(err)), "an error is left behind with a token")
				ex.record(more, "post-progress", c.key, proveGoal(more.pc, good), "a token is given without any text being used up, or is followed by the wrong function")
			}
			good := sp.st.clone()
			good.assume(Le(Int(0), sp.vals[0]))
			if good.dead {
				// a failure has to leave an error behind
				err := Sel(r.st.heap[obj.id], 1, 3, types.Universe.Lookup("error").Type())
				ex.record(sp.st, "post-error", c.key, proveGoal(sp.st.pc, Not(IsNil(err))), "no error is left behind")
				continue
			}
			cmp(good, "data", data, sp.vals[1])
			part, ok := constStr(sp.vals[2])
			ok = ok && sameFn(r.vals[1], partFn(part))
			ex.record(good, "post-part", c.key, ok, fmt.Sprintf("code goes on with %s but the contract says %s", r.vals[1], sp.vals[2]))
			tk := r.st.heap[to.id]
			cmp(good, "rest", tk.args[1], sp.vals[3])
			if part == "name" {
				cmp(good, "taken", tk.args[0], Empty)
			}
		}
	}
}

// ---- lines

const (
	paTaken = iota
	paPart
	paText
	paEnded
)

// parserGhost models the part of parser.Parser used by phrase functions: the
// tokens taken so far, the text they come from and whether a token which ends
// them has been accepted.
func (ex *Exec) parserGhost(st *State, in *ssa.Call, f *ssa.Function, name string, args []*Term) ([]Ret, bool) {
	o := objOf(args[0])
	c := st.heap[o.id]
	pa := func(i int) *Term { return Sel(c, i, 4, parserStruct.Field(i).Type()) }
	taken, part, text := pa(paTaken), pa(paPart), pa(paText)
	ended := pa(paEnded)
	var ks []*Term
	kinds, known := "", true
	if f.Signature.Variadic() {
		for _, p := range parts(st.freeze(st.seqOf(args[1]))) {
			if p.op != OUnit {
				return nil, false
			}
			ks = append(ks, p.args[0])
			n, ok := p.args[0].i64()
			known = known && ok && n >= -128 && n < 128
			kinds += string([]byte{byte(n)})
		}
	}
	if known && !ex.sets {
		usedExterns[depUnit("parser."+f.Name(), kinds)] = true
	} else if !ex.sets {
		usedExterns[name] = true
	}
	step := func(st *State) (vs []*Term) {
		ex.obligeCall(st, "token-state", in, f, ex.boolOf(st, specByName["vAt"].fn, []*Term{part, text}))
		for _, c := range contracts {
			if c.kind == "tok" && weak[c.key] {
				vt := specByName["vToken"]
				for _, t := range resTypes(vt.fn) {
					vs = append(vs, fresh("unknown", t))
				}
				st.axiom(ex.boolOf(st, specByName["vToken_ensures"].fn, append([]*Term{part, text}, vs...)))
				return vs
			}
		}
		return ex.evalApp(st, specByName["vToken"], []*Term{part, text})
	}
	switch f.Name() {
	case "Accept", "Except":
		vs := step(st)
		m := False
		for _, k := range ks {
			m = Or(m, Eq(vs[0], k))
		}
		if f.Name() == "Except" {
			m = Not(m)
		}
		no := st.clone()
		var out []Ret
		st.assume(m)
		if !st.dead {
			// the end of the tokens is not passed
			end := st.clone()
			st.assume(Le(Int(0), vs[0]))
			if !st.dead {
				st.heap[o.id] = Mk(Concat(taken, Unit(Mk(vs[0], vs[1]), tokenType)), vs[2], vs[3], False)
				out = append(out, Ret{st, []*Term{True}})
			}
			end.assume(Lt(vs[0], Int(0)))
			if !end.dead {
				end.heap[o.id] = Mk(taken, part, text, True)
				out = append(out, Ret{end, []*Term{True}})
			}
		}
		no.assume(Not(m))
		if !no.dead {
			no.heap[o.id] = Mk(taken, part, text, False)
			out = append(out, Ret{no, []*Term{False}})
		}
		return out, true
	case "AcceptRun":
		var ns []int64
		for _, k := range ks {
			n, ok := k.i64()
			if !ok {
				return nil, false
			}
			ns = append(ns, n)
		}
		sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
		if len(ns) != 2 || ns[0] != 2 || ns[1] != 3 {
			return nil, false
		}
		ex.obligeCall(st, "token-state", in, f, ex.boolOf(st, specByName["vAt"].fn, []*Term{part, text}))
		vs := ex.evalApp(st, specByName["vTokens"], []*Term{part, text})
		st.heap[o.id] = Mk(Concat(taken, SlSeq(vs[0])), vs[1], vs[2], False)
		// the next token is of none of the types
		t := ex.evalApp(st, specByName["vToken"], []*Term{vs[1], vs[2]})[0]
		return []Ret{{st, []*Term{t}}}, true
	case "Peek":
		vs := step(st)
		st.heap[o.id] = Mk(taken, part, text, False)
		return []Ret{{st, []*Term{Mk(vs[0], vs[1])}}}, true
	case "Len", "Get", "Return":
		// a token which ends the others is counted once accepted
		ex.obligeCall(st, "token-state", in, f, Not(ended))
	}
	switch f.Name() {
	case "Len":
		return []Ret{{st, []*Term{Len(taken)}}}, true
	case "Get":
		st.heap[o.id] = Mk(Empty, part, text, False)
		return []Ret{{st, []*Term{Sl(False, taken)}}}, true
	case "Return":
		st.heap[o.id] = Mk(Empty, part, text, False)
		ph := Mk(args[1], Sl(False, taken))
		none := st.clone()
		none.assume(IsNil(args[2]))
		st.assume(Not(IsNil(args[2])))
		var out []Ret
		if !none.dead {
			out = append(out, Ret{none, []*Term{ph, funcTerm(prog.LookupMethod(f.Signature.Recv().Type(), parPkg.Pkg, "Done"))}})
		}
		if !st.dead {
			out = append(out, Ret{st, []*Term{ph, args[2]}})
		}
		return out, true
	case "Done":
		return []Ret{{st, []*Term{Mk(Int(-1), Sl(False, Empty)), funcTerm(f)}}}, true
	case "Error":
		return []Ret{{st, []*Term{Mk(Int(-2), fresh("data", types.NewSlice(tokenType))), funcTerm(f)}}}, true
	}
	return nil, false
}

// obligeCall is an obligation of a call, or of what stands for one.
func (ex *Exec) obligeCall(st *State, kind string, in *ssa.Call, f *ssa.Function, g *Term) {
	if in != nil {
		ex.oblige(st, kind, in, g)
		return
	}
	ex.record(st, kind, f.String(), proveGoal(st.pc, g), "")
}

func (ex *Exec) verifyPhrase(c *Contract, res *UnitResult) {
	f := c.fn
	st := newState()
	text, part := fresh("text", stringType), fresh("part", stringType)
	o := newObj(parserStruct, "parser", "parser")
	st.heap[o.id] = Mk(Empty, part, text, False)
	st.assume(ex.boolOf(st, c.spec.requires, []*Term{part, text}))
	root := Root{c.spec, []*Term{part, text}}
	ex.roots = []Root{root}
	ex.keepRets = true
	rets := ex.callBody(st, f, []*Term{addrOf(o)}, nil)
	res.Paths = len(rets)
	ps := structOf(phraseType)
	for _, r := range rets {
		if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
			res.Feasible = true
		}
		ph := r.st.freeze(r.vals[0])
		typ, data := Sel(ph, 0, 2, ps.Field(0).Type()), Sel(ph, 1, 2, ps.Field(1).Type())
		for _, sp := range ex.evalRoot(r.st, root) {
			if sp.st.dead {
				continue
			}
			cmp := func(st *State, name string, code, spec *Term) {
				ok := proveGoal(st.pc, Eq(code, spec))
				d := ""
				if !ok {
					d = fmt.Sprintf("code gives %s but the contract says %s", code, spec)
				}
				ex.record(st, "post-"+name, c.key, ok, d)
			}
			cmp(sp.st, "type", typ, sp.vals[0])
			line := sp.st.clone()
			line.assume(Le(Int(0), typ))
			if !line.dead {
				ex.record(line, "post-shape", c.key, proveGoal(line.pc, ex.lineFacts(ph)), "a line without a name or a value is given")
				ex.record(line, "post-next", c.key, sameFn(r.vals[1], funcTerm(f)), "the next line is not read in the same way")
				left := Sel(r.st.heap[o.id], paText, 4, parserStruct.Field(paText).Type())
				ex.record(line, "post-progress", c.key, proveGoal(line.pc, Lt(Len(left), Len(text))), "a line is given without any text being used up")
			}
			good := sp.st.clone()
			good.assume(Le(Int(0), sp.vals[0]))
			if good.dead {
				continue
			}
			cmp(good, "data", SlSeq(data), SlSeq(sp.vals[1]))
			g := r.st.heap[o.id]
			gs := func(i int) *Term { return Sel(g, i, 4, parserStruct.Field(i).Type()) }
			cmp(good, "taken", gs(paTaken), Empty)
			cmp(good, "part", gs(paPart), sp.vals[2])
			cmp(good, "rest", gs(paText), sp.vals[3])
		}
	}
}

// parserStream turns a parser which has been set up into the stream of its
// lines.
func (ex *Exec) parserStream(st *State, in ssa.Instruction, a *Term) *Obj {
	if a.op != OAddr || len(a.args) != 1 {
		return nil
	}
	o := objOf(a)
	if s := ex.streams[o.id]; s != nil {
		return s
	}
	pt := parPkg.Pkg.Scope().Lookup("Parser").Type()
	if !types.Identical(o.typ, pt) {
		return nil
	}
	p := structOf(pt)
	v := st.load(a, pt)
	fi := func(n string) int {
		for i := 0; i < p.NumFields(); i++ {
			if p.Field(i).Name() == n {
				return i
			}
		}
		panic(giveUp{"parser.Parser has no field " + n})
	}
	sel := func(n string) *Term { return Sel(v, fi(n), p.NumFields(), p.Field(fi(n)).Type()) }
	tk := sel("Tokeniser")
	to := tokObj(tk)
	if to == nil {
		return nil
	}
	var ph *Contract
	for _, c := range contracts {
		if c.kind == "phrase" && c.fn != nil {
			ph = c
		}
	}
	ok := ph != nil && sameFn(sel("state"), funcTerm(ph.fn)) && sameFn(tk.args[2], partFn("name")) && tk.args[1] == Nil && st.heap[to.id].args[0] == Empty
	ex.oblige(st, "parser-state", in, BoolT(ok))
	if !ok {
		return nil
	}
	usedContracts[ph.key]++
	known := !weak[ph.key]
	for _, c := range contracts {
		if c.kind == "tok" {
			usedContracts[c.key]++
			known = known && !weak[c.key]
		}
	}
	lines := fresh("unknown", types.NewSlice(phraseType))
	if known {
		lines = ex.evalApp(st, specByName["vTextLines"], []*Term{Str("name"), st.heap[to.id].args[1]})[0]
	}
	s := newObj(types.NewArray(phraseType, -1), "stream", "lines")
	st.heap[s.id] = SlSeq(lines)
	if ex.streams == nil {
		ex.streams = map[int]*Obj{}
	}
	ex.streams[o.id] = s
	return s
}

// ---- Encode and Decode

func (ex *Exec) verifyEncode(c *Contract, res *UnitResult) {
	f := c.fn
	usedExterns["texts given to the folder are not cut inside a character (folding them one by one then is folding the whole, lemma FoldParts)"] = true
	st := newState()
	sink, so := ex.newSink(st)
	cal := fresh("cal", ptrElem(f.Params[1].Type()))
	root := Root{c.spec, []*Term{cal}}
	ex.roots = []Root{root}
	ex.keepRets = true
	rets := ex.callBody(st, f, []*Term{sink, Box(cal)}, nil)
	res.Paths = len(rets)
	for _, r := range rets {
		if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
			res.Feasible = true
		}
		sk := r.st.heap[so.id]
		err := r.vals[0]
		for _, sp := range ex.evalRoot(r.st, root) {
			if sp.st.dead {
				continue
			}
			bad := sp.st.clone()
			bad.assume(Not(sp.vals[1]))
			if !bad.dead && solver.check(bad.facts()) != resUnsat {
				ex.record(bad, "post-refuses", c.key, proveGoal(bad.pc, Not(IsNil(err))), "no error for a calendar which is not valid")
				ex.record(bad, "post-refuses", c.key, sk.args[skOut] == Empty && sk.args[skFailed] == False, "something is written for a calendar which is not valid")
			}
			good := sp.st.clone()
			good.assume(sp.vals[1])
			if good.dead || solver.check(good.facts()) == resUnsat {
				continue
			}
			if sk.args[skFailed] == False {
				ex.record(good, "post-accepts", c.key, proveGoal(good.pc, IsNil(err)), "an error although every write succeeded")
				ok := proveGoal(good.pc, Eq(sk.args[skOut], sp.vals[0]))
				d := ""
				if !ok {
					d = fmt.Sprintf("code writes %s but the contract says %s", sk.args[skOut], sp.vals[0])
				}
				ex.record(good, "post-output", c.key, ok, d)
				continue
			}
			ex.record(good, "post-error", c.key, err == sk.args[skErr], "the failure of the writer is not returned")
			tried := sk.args[skTried]
			ex.record(good, "post-prefix", c.key, ex.startsWith(good, sp.vals[0], tried), fmt.Sprintf("before the failure code gives %s but the contract says %s", tried, sp.vals[0]))
		}
	}
}

func (ex *Exec) verifyDecode(c *Contract, res *UnitResult) {
	f := c.fn
	st := newState()
	text := fresh("text", stringType)
	so := newObj(stringType, "source", "source")
	st.heap[so.id] = text
	root := Root{c.spec, []*Term{text}}
	ex.roots = []Root{root}
	ex.keepRets = true
	rets := ex.callBody(st, f, []*Term{Iface("ghostsource", addrOf(so))}, nil)
	res.Paths = len(rets)
	for _, r := range rets {
		if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
			res.Feasible = true
		}
		cal, err := r.vals[0], r.vals[1]
		ex.record(r.st, "post-either", c.key, proveGoal(r.st.pc, Eq(IsNil(err), Not(IsNil(cal)))), "not exactly one of calendar and error")
		for _, sp := range ex.evalRoot(r.st, root) {
			if sp.st.dead {
				continue
			}
			ok := sp.vals[1]
			ex.record(sp.st, "post-accepts", c.key, proveGoal(sp.st.pc, Eq(IsNil(err), ok)), fmt.Sprintf("code gives error %s but the contract says accepted is %s", err, ok))
			good := sp.st.clone()
			good.assume(ok)
			good.assume(IsNil(err))
			if good.dead || solver.check(good.facts()) == resUnsat {
				continue
			}
			v := r.st.freeze(r.st.load(cal, ptrElem(resTypes(f)[0])))
			eq := proveGoal(good.pc, Eq(v, sp.vals[0]))
			d := ""
			if !eq {
				d = fmt.Sprintf("code gives %s but the contract says %s", v, sp.vals[0])
			}
			ex.record(good, "post-value", c.key, eq, d)
		}
	}
}

// verifyStream verifies a function of one of the kinds above.
func (ex *Exec) verifyStream(c *Contract, res *UnitResult) bool {
	switch c.kind {
	case "write":
		ex.verifyWrite(c, res)
	case "read":
		ex.verifyRead(c, res)
	case "tok":
		ex.verifyTok(c, res)
	case "phrase":
		ex.verifyPhrase(c, res)
	case "encode":
		ex.verifyEncode(c, res)
	case "decode":
		ex.verifyDecode(c, res)
	default:
		return false
	}
	return true
}

// streamForm tells whether a function has the form its contract expects.
func (c *Contract) streamForm() (ok, known bool) {
	sig := c.fn.Signature
	str := func(t types.Type) string {
		return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Name() }), "any", "interface{}")
	}
	ps := ""
	for i := 0; i < sig.Params().Len(); i++ {
		ps += str(sig.Params().At(i).Type()) + ","
	}
	rs := ""
	for i := 0; i < sig.Results().Len(); i++ {
		rs += str(sig.Results().At(i).Type()) + ","
	}
	switch c.kind {
	case "write":
		_, f := foldFieldsOf(ptrElem(c.fn.Params[0].Type()))
		return f && (ps == "[]byte," || ps == "string,") && rs == "int,error,", true
	case "read":
		_, f := unfoldFieldsOf(ptrElem(c.fn.Params[0].Type()))
		return f && ps == "[]byte," && rs == "int,error,", true
	case "tok":
		return ps == "*parser.Tokeniser," && rs == "parser.Token,parser.TokenFunc,", true
	case "phrase":
		return ps == "*parser.Parser," && rs == "parser.Phrase,parser.PhraseFunc,", true
	case "encode":
		return ps == "io.Writer,*ics.Calendar," && rs == "error,", true
	case "decode":
		return ps == "io.Reader," && rs == "*ics.Calendar,error,", true
	}
	return false, false
}

// ghostInvs proposes facts about the readers which a loop uses.
func (c *loopCtx) ghostInvs(h *State, add func(*Term, string)) {
	if c.ex.held != nil {
		t := c.ex.held(h)
		add(Or(Eq(Len(t), Int(0)), Le(Int(0), Sel(At(t, Sub(Len(t), Int(1)), tokenType), 0, 2, intType))), "tokens")
	}
	seen := map[*Obj]bool{}
	for _, m := range c.mods {
		o := m.loc.obj
		if o == nil || seen[o] {
			continue
		}
		seen[o] = true
		switch o.kind {
		case "parser":
			v := h.heap[o.id]
			f := func(i int) *Term { return Sel(v, i, 4, parserStruct.Field(i).Type()) }
			add(c.ex.boolOf(h, specByName["vAt"].fn, []*Term{f(paPart), f(paText)}), "token state")
			if e := c.entry.heap[o.id]; e != nil {
				add(Le(Len(f(paText)), Len(Sel(e, paText, 4, parserStruct.Field(paText).Type()))), "text used up")
			}
		case "feed":
			v := h.heap[o.id]
			part, text := Sel(v, 0, 2, stringType), Sel(v, 1, 2, stringType)
			add(c.ex.boolOf(h, specByName["vAt"].fn, []*Term{part, text}), "token state")
			if e := c.entry.heap[o.id]; e != nil {
				add(Le(Len(text), Len(Sel(e, 1, 2, stringType))), "text used up")
			}
		case "bufio":
			v := h.heap[o.id]
			f := func(i int) *Term { return Sel(v, i, 4, bufioStruct.Field(i).Type()) }
			rest, buf, rep := f(brRest), f(brBuffered), f(brReported)
			add(Le(Int(0), buf), "buffer")
			add(Le(buf, Len(rest)), "buffer")
			add(Implies(rep, Eq(buf, Len(rest))), "end of text")
			add(Implies(rep, Le(Len(rest), Int(lookAhead))), "end of text")
			for _, e := range c.mods {
				if e.loc.typ != nil && isErrorType(e.loc.typ) {
					add(Eq(IsNil(e.head), Not(rep)), "end of text")
				}
			}
		}
	}
}
