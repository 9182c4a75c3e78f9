package main

import (
	"encoding/hex"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// depUnit names the unit of a function of the parser package used with a set
// of characters.
func depUnit(f, set string) string { return "dep:" + f + ":" + hex.EncodeToString([]byte(set)) }

// modelled are the functions of a tokeniser which parserCall describes.
var modelled = map[string]bool{"Get": true, "Len": true, "Accept": true, "Except": true, "Next": true, "Peek": true, "AcceptRun": true, "ExceptRun": true}

// depLemmas are the lemmas which the description of the functions relies on.
var depLemmas = []string{"lemma:AsciiIn", "lemma:AcceptRun", "lemma:ExceptRun", "lemma:AcceptEnd", "lemma:ExceptEnd"}

// verifyDep proves that a function of a tokeniser reading from a string does
// what parserCall says: it is executed on a tokeniser in any state, and what
// it gives and leaves compared with that.
func verifyDep(unit string) (res UnitResult) {
	res.Unit, res.Kind = unit, "dep"
	n, h, _ := strings.Cut(strings.TrimPrefix(unit, "dep:"), ":")
	b, err := hex.DecodeString(h)
	if err != nil {
		res.Error = err.Error()
		return
	}
	set := Str(string(b))
	ex := newExec(unit)
	ex.sets = true
	resetUnit()
	defer ex.finish(&res)
	if m, ok := strings.CutPrefix(n, "reader."); ok {
		ex.verifyReader(m, &res)
		return
	}
	if m, ok := strings.CutPrefix(n, "parser."); ok {
		ex.verifyParser(m, b, &res)
		return
	}
	if n == "string.new" {
		ex.verifyNew(&res)
		return
	}
	if n == "get" {
		ex.verifyGet(&res)
		return
	}
	scope := parPkg.Pkg.Scope()
	tt, sp := scope.Lookup("Tokeniser").Type(), scope.Lookup("strParser").Type()
	f := prog.LookupMethod(types.NewPointer(tt), parPkg.Pkg, n)
	if f == nil {
		res.Error = "no such function"
		return
	}
	st := newState()
	str, pos, width := fresh("str", stringType), fresh("pos", intType), fresh("width", intType)
	st.axiom(And(Le(Int(0), pos), Le(pos, Len(str))))
	st.axiom(And(Le(Int(0), width), Le(width, pos)))
	so := newObj(sp, "dep", "text")
	st.heap[so.id] = Mk(str, pos, width)
	to := newObj(tt, "", "tokeniser value")
	st.heap[to.id] = Mk(Iface(types.NewPointer(sp).String(), addrOf(so)), Nil, Nil)
	args := []*Term{addrOf(to)}
	if f.Signature.Params().Len() > 0 {
		args = append(args, set)
	}
	cons, rest := Slice(str, Int(0), pos), Slice(str, pos, Len(str))
	if s := specByName["v"+strings.TrimSuffix(n, "Run")+"At"]; s != nil && strings.HasSuffix(n, "Run") {
		ex.roots = []Root{{s, []*Term{rest, set, pos}}}
	}
	ex.keepRets = true
	rets := ex.callBody(st, f, args, nil)
	res.Paths = len(rets)
	for _, r := range rets {
		if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
			res.Feasible = true
		}
		sts := []Ret{r}
		if ex.roots != nil {
			// where the run ends, by the lemma about it
			sts = nil
			for _, e := range ex.evalRoot(r.st, ex.roots[0]) {
				if e.st.dead || solver.check(e.st.facts()) == resUnsat {
					continue
				}
				k := Add(pos, ex.spec(e.st, "v"+strings.TrimSuffix(n, "Run")+"N", rest, set)[0])
				end := func(x *Term) *Term {
					if x == e.vals[0] {
						return k
					}
					return nil
				}
				if e.vals[0].op != OSym {
					end = func(*Term) *Term { return nil }
				}
				memo := map[*Term]*Term{}
				s := newState()
				s.axiom(Eq(e.vals[0], k))
				for _, f := range e.st.facts() {
					s.axiom(mapTerm(f, memo, end))
				}
				for o, v := range r.st.heap {
					s.heap[o] = mapTerm(v, memo, end)
				}
				vs := make([]*Term, len(r.vals))
				for i, v := range r.vals {
					vs[i] = mapTerm(v, memo, end)
				}
				sts = append(sts, Ret{s, vs})
			}
		}
		for _, s := range sts {
			ex.depAgrees(s.st, f, s.vals, so, cons, rest, set)
		}
	}
	return
}

func (ex *Exec) depAgrees(st *State, f *ssa.Function, vals []*Term, so *Obj, cons, rest, set *Term) {
	c := st.freeze(st.heap[so.id])
	s := st.clone()
	o := newObj(tokStruct, "tok", "tokeniser")
	s.heap[o.id] = Mk(cons, rest)
	to := newObj(ptrElem(f.Params[0].Type()), "", "tokeniser value")
	s.heap[to.id] = Mk(Iface("ghosttok", addrOf(o)), Nil, Nil)
	args := []*Term{addrOf(to)}
	if f.Signature.Params().Len() > 0 {
		args = append(args, set)
	}
	rs, ok := ex.parserCall(s, nil, f, f.String(), args)
	ex.record(st, "dep-model", f.String(), ok, "no model")
	for _, m := range rs {
		if m.st.dead || solver.check(m.st.facts()) == resUnsat {
			continue
		}
		g := m.st.heap[o.id]
		for i, v := range vals {
			ex.agree(m.st, "dep-result", f, v, m.vals[i])
		}
		ex.agree(m.st, "dep-read", f, Slice(c.args[0], Int(0), c.args[1]), g.args[0])
		ex.agree(m.st, "dep-rest", f, Slice(c.args[0], c.args[1], Len(c.args[0])), g.args[1])
		ex.record(m.st, "dep-state", f.String(), proveGoal(m.st.pc, And(Le(Int(0), c.args[2]), Le(c.args[2], c.args[1]), Le(c.args[1], Len(c.args[0])))), "the state of the tokeniser is not kept")
	}
}

func (ex *Exec) agree(st *State, kind string, f *ssa.Function, a, b *Term) {
	g := Eq(a, b)
	ok := proveGoal(st.pc, g) || proveRewritten(st, g)
	d := ""
	if !ok {
		d = "code gives " + a.String() + " but the model says " + b.String()
	}
	ex.record(st, kind, f.String(), ok, d)
}

func depUnits(externs []string) []string {
	out := []string{}
	for _, e := range externs {
		if strings.HasPrefix(e, "dep:") {
			out = append(out, e)
		}
	}
	if contains(externs, "vimagination.zapto.org/parser.NewReaderTokeniser") {
		out = append(out, depReader...)
	}
	for _, e := range externs {
		if strings.HasPrefix(e, "dep:parser.") {
			return append(out, depUnit("get", ""))
		}
	}
	return out
}

// depName is what such a unit is about.
func depName(unit string) string {
	n, h, _ := strings.Cut(strings.TrimPrefix(unit, "dep:"), ":")
	b, _ := hex.DecodeString(h)
	if m, ok := strings.CutPrefix(n, "reader."); ok {
		return "(*vimagination.zapto.org/parser.readerParser)." + m
	}
	if n == "string.new" {
		return "vimagination.zapto.org/parser.NewStringTokeniser"
	}
	if m, ok := strings.CutPrefix(n, "parser."); ok {
		ks := []string{}
		for _, k := range b {
			ks = append(ks, strconv.Itoa(int(int8(k))))
		}
		return "(*vimagination.zapto.org/parser.Parser)." + m + "(" + strings.Join(ks, ", ") + ")"
	}
	if len(b) == 0 {
		return "(*vimagination.zapto.org/parser.Tokeniser)." + n
	}
	return "(*vimagination.zapto.org/parser.Tokeniser)." + n + "(" + strconv.Quote(string(b)) + ")"
}

// depReader are the units of the functions by which a tokeniser reads from a
// reader.
var depReader = []string{"dep:reader.next:", "dep:reader.backup:", "dep:reader.get:", "dep:reader.length:"}

var runesStruct *types.Struct

// verifyReader proves that a function by which a tokeniser reads from a reader
// does what the one for a string with the same text does, as long as that text
// is UTF-8: both are executed in any pair of states which belong together and
// have to give the same and leave states which belong together.
func (ex *Exec) verifyReader(n string, res *UnitResult) {
	scope := parPkg.Pkg.Scope()
	sp, rp := scope.Lookup("strParser").Type(), scope.Lookup("readerParser").Type()
	fs := prog.LookupMethod(types.NewPointer(sp), parPkg.Pkg, n)
	fr := prog.LookupMethod(types.NewPointer(rp), parPkg.Pkg, n)
	if fs == nil || fr == nil {
		res.Error = "no such function"
		return
	}
	if runesStruct == nil {
		f := func(n string, t types.Type) *types.Var { return types.NewField(0, nil, n, t, false) }
		runesStruct = types.NewStruct([]*types.Var{f("text", stringType), f("pos", intType), f("last", intType)}, nil)
	}
	st := newState()
	str, pos, width, last := fresh("str", stringType), fresh("pos", intType), fresh("width", intType), fresh("last", intType)
	st.axiom(And(Le(Int(0), pos), Le(pos, Len(str))))
	st.axiom(And(Le(Int(0), width), Le(width, pos)))
	st.axiom(Or(Eq(width, Int(0)), Eq(last, width)))
	so := newObj(sp, "dep", "text")
	st.heap[so.id] = Mk(str, pos, width)
	ro := newObj(runesStruct, "runes", "reader")
	st.heap[ro.id] = Mk(str, pos, last)
	po := newObj(rp, "", "reader tokeniser")
	c := zeroOf(rp)
	set := func(x *Term, path ...*Term) { c = writePath(c, rp, path, x) }
	rs := structOf(rp)
	field := func(s *types.Struct, n string) *Term {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return fldT(i, s.NumFields())
			}
		}
		panic(giveUp{"no field " + n})
	}
	bs := structOf(rs.Field(1).Type())
	held := []*Term{field(rs, "buf"), field(bs, "buf")}
	set(addrOf(ro), field(rs, "reader"))
	set(Sl(False, Slice(str, Int(0), pos)), held...)
	set(width, field(rs, "width"))
	st.heap[po.id] = c
	ex.keepRets = true
	rets := ex.callBody(st, fr, []*Term{addrOf(po)}, nil)
	res.Paths = len(rets)
	for _, r := range rets {
		if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
			res.Feasible = true
		}
		ex.keepRets = true
		for _, s := range ex.callBody(r.st.clone(), fs, []*Term{addrOf(so)}, nil) {
			if s.st.dead || solver.check(s.st.facts()) == resUnsat {
				continue
			}
			for i, v := range r.vals {
				ex.agree(s.st, "dep-result", fr, v, s.vals[i])
			}
			a, b, q := s.st.freeze(s.st.heap[so.id]), s.st.heap[ro.id], s.st.freeze(s.st.heap[po.id])
			buf := SlSeq(readPath(q, rp, held))
			w := readPath(q, rp, []*Term{field(rs, "width")})
			ex.agree(s.st, "dep-read", fr, buf, Slice(a.args[0], Int(0), a.args[1]))
			ex.agree(s.st, "dep-rest", fr, Slice(b.args[0], b.args[1], Len(b.args[0])), Slice(a.args[0], a.args[1], Len(a.args[0])))
			ex.agree(s.st, "dep-width", fr, w, a.args[2])
			ex.record(s.st, "dep-state", fr.String(), proveGoal(s.st.pc, And(Le(Int(0), w), Le(w, a.args[1]), Or(Eq(w, Int(0)), Eq(b.args[2], w)))), "the last character is not the one to be given back")
		}
	}
}

// runesCall is a call of the bufio.Reader of a tokeniser, which holds a text in
// UTF-8, how much of it has been read and how long the last character was.
func (ex *Exec) runesCall(st *State, in *ssa.Call, f *ssa.Function, o *Obj) ([]Ret, bool) {
	usedExterns[f.String()] = true
	c := st.heap[o.id]
	str, pos, last := c.args[0], c.args[1], c.args[2]
	switch f.Name() {
	case "ReadRune":
		var out []Ret
		none := st.clone()
		none.assume(Eq(pos, Len(str)))
		if !none.dead {
			none.heap[o.id] = Mk(str, pos, Int(-1))
			out = append(out, Ret{none, []*Term{Int(0), Int(0), Iface("error:read", fresh("failure", intType))}})
		}
		st.assume(Not(Eq(pos, Len(str))))
		rest := Slice(str, pos, Len(str))
		asc := Lt(At(rest, Int(0), byteType), Int(0x80))
		long := st.clone()
		st.assume(asc)
		if !st.dead {
			st.heap[o.id] = Mk(str, Add(pos, Int(1)), Int(1))
			out = append(out, Ret{st, []*Term{At(rest, Int(0), byteType), Int(1), Nil}})
		}
		long.assume(Not(asc))
		if !long.dead {
			r, w := decodeRune(long, rest)
			long.axiom(Lt(Int(1), w)) // an octet on its own is not UTF-8
			long.axiom(Eq(App("utf8.enc", SSeq, stringType, r), Slice(rest, Int(0), w)))
			long.heap[o.id] = Mk(str, Add(pos, w), w)
			out = append(out, Ret{long, []*Term{r, w, Nil}})
		}
		return out, true
	case "UnreadRune":
		ex.oblige(st, "dep-unread", in, Le(Int(0), last))
		st.heap[o.id] = Mk(str, Sub(pos, last), Int(-1))
		return []Ret{{st, []*Term{Nil}}}, true
	}
	return nil, false
}

// verifyParser proves that a function of a parser does what parserGhost says of
// it, given that the tokeniser gives the tokens which vToken says: it is
// executed on a parser in any state, where the token read last may have been
// put back or may end the tokens.
func (ex *Exec) verifyParser(n string, kinds []byte, res *UnitResult) {
	pt := parPkg.Pkg.Scope().Lookup("Parser").Type()
	f := prog.LookupMethod(types.NewPointer(pt), parPkg.Pkg, n)
	if f == nil {
		res.Error = "no such function"
		return
	}
	ps := structOf(pt)
	field := func(n string) *Term {
		for i := 0; i < ps.NumFields(); i++ {
			if ps.Field(i).Name() == n {
				return fldT(i, ps.NumFields())
			}
		}
		panic(giveUp{"no field " + n})
	}
	tokens, peeked := []*Term{field("tokens")}, []*Term{field("peekedToken")}
	for _, shape := range []string{"none", "some", "peeked", "ended"} {
		st := newState()
		part, text := fresh("part", stringType), fresh("text", stringType)
		st.axiom(ex.boolOf(st, specByName["vAt"].fn, []*Term{part, text}))
		ex.feed = newObj(feedStruct, "feed", "tokens to come")
		st.heap[ex.feed.id] = Mk(part, text)
		taken := fresh("taken", types.NewArray(tokenType, -1))
		held, ended := taken, False
		switch shape {
		case "none":
			taken = Empty
			held = Empty
		case "some":
			typ := fresh("typ", intType)
			st.axiom(Le(Int(0), typ))
			taken = Concat(taken, Unit(Mk(typ, fresh("data", stringType)), tokenType))
			held = taken
		default:
			vs := ex.evalApp(st, specByName["vToken"], []*Term{part, text})
			held = Concat(taken, Unit(Mk(vs[0], vs[1]), tokenType))
			st.heap[ex.feed.id] = Mk(vs[2], vs[3])
			if shape == "ended" {
				st.axiom(Lt(vs[0], Int(0)))
				ended = True
				if n == "Get" || n == "Return" || n == "Len" {
					continue
				}
			}
		}
		po := newObj(pt, "", "parser value")
		list := Sl(False, held)
		if n == "Get" || n == "Return" {
			// which writes to the list
			lo := newObj(types.NewArray(tokenType, -1), "", "tokens")
			st.heap[lo.id] = held
			list = mkTerm(ORS, SU, "", nil, nil, []*Term{addrOf(lo), Int(0), Len(held)}, nil)
		}
		c := writePath(zeroOf(pt), pt, tokens, list)
		st.heap[po.id] = writePath(c, pt, peeked, BoolT(shape == "peeked"))
		ex.held = func(st *State) *Term { return SlSeq(readPath(st.freeze(st.heap[po.id]), pt, tokens)) }
		args := []*Term{addrOf(po)}
		if f.Signature.Variadic() {
			l := Empty
			for _, k := range kinds {
				l = Concat(l, Unit(Int(int64(int8(k))), intType))
			}
			args = append(args, Sl(False, l))
		} else {
			for _, p := range f.Params[1:] {
				args = append(args, fresh(p.Name(), p.Type()))
			}
		}
		if n == "AcceptRun" {
			ex.roots = []Root{{specByName["vTokens"], []*Term{part, text}}}
		}
		ex.keepRets = true
		peel = shape == "peeked"
		rets := ex.callBody(st, f, args, nil)
		peel = false
		res.Paths += len(rets)
		for _, r := range rets {
			if !res.Feasible && solver.check(r.st.facts()) != resUnsat {
				res.Feasible = true
			}
			s := r.st.clone()
			g := newObj(parserStruct, "parser", "parser")
			s.heap[g.id] = Mk(taken, part, text, ended)
			ms, ok := ex.parserGhost(s, nil, f, f.String(), append([]*Term{addrOf(g)}, args[1:]...))
			ex.record(r.st, "dep-model", f.String(), ok, "no model")
			for _, m := range ms {
				if m.st.dead || solver.check(m.st.facts()) == resUnsat {
					continue
				}
				ex.parserAgrees(m.st, f, r.vals, m.vals, m.st.freeze(m.st.heap[po.id]), m.st.heap[g.id], pt, tokens, peeked)
			}
		}
	}
}

func (ex *Exec) parserAgrees(st *State, f *ssa.Function, vals, model []*Term, c, g *Term, pt types.Type, tokens, peeked []*Term) {
	n := f.Name()
	for i, v := range vals {
		switch {
		case n == "Error" && i == 0:
			// what is given with an error is not said
			ex.agree(st, "dep-result", f, Sel(st.freeze(v), 0, 2, intType), Sel(model[i], 0, 2, intType))
		case i == 1 && v.op == OFunc:
			ex.record(st, "dep-result", f.String(), sameFn(v, model[i]), "another function follows")
		default:
			ex.agree(st, "dep-result", f, st.freeze(v), model[i])
		}
	}
	if n == "Done" || n == "Error" {
		return
	}
	held, back := SlSeq(readPath(c, pt, tokens)), readPath(c, pt, peeked)
	part, text, ended := g.args[paPart], g.args[paText], g.args[paEnded]
	b := back == True
	ex.record(st, "dep-state", f.String(), b || back == False, "not known whether a token has been put back")
	feed := st.heap[ex.feed.id]
	if b || ended == True {
		ex.record(st, "dep-state", f.String(), !b || ended == False, "a token which ends the others has been put back")
		vs := ex.evalApp(st, specByName["vToken"], []*Term{part, text})
		ex.agree(st, "dep-tokens", f, held, Concat(g.args[paTaken], Unit(Mk(vs[0], vs[1]), tokenType)))
		if ended == True {
			ex.record(st, "dep-state", f.String(), proveGoal(st.pc, Lt(vs[0], Int(0))), "a token which does not end the others is kept")
			return
		}
		more := st.clone()
		more.assume(Le(Int(0), vs[0]))
		if !more.dead {
			ex.agree(more, "dep-part", f, feed.args[0], vs[2])
			ex.agree(more, "dep-rest", f, feed.args[1], vs[3])
		}
		return
	}
	ex.agree(st, "dep-tokens", f, held, g.args[paTaken])
	ex.agree(st, "dep-part", f, feed.args[0], part)
	ex.agree(st, "dep-rest", f, feed.args[1], text)
	ex.record(st, "dep-state", f.String(), proveGoal(st.pc, Or(Eq(Len(held), Int(0)), Le(Int(0), Sel(At(held, Sub(Len(held), Int(1)), tokenType), 0, 2, intType)))), "a token which ends the others has been taken")
}

var feedStruct *types.Struct

// feedNext is the next token of the tokeniser of a parser.
func (ex *Exec) feedNext(st *State) []Ret {
	c := st.heap[ex.feed.id]
	vs := ex.evalApp(st, specByName["vToken"], []*Term{Sel(c, 0, 2, stringType), Sel(c, 1, 2, stringType)})
	st.heap[ex.feed.id] = Mk(vs[2], vs[3])
	return []Ret{{st, []*Term{Mk(vs[0], vs[1])}}}
}

// feedCall is a call of a token function, the one for a part of a line, which
// gives the token and the function for the part after it, or leaves an error.
func (ex *Exec) feedCall(st *State, fv, t *Term) []Ret {
	o := objOf(t)
	c := st.heap[ex.feed.id]
	vs := ex.evalApp(st, specByName["vToken"], []*Term{fv.args[0], Sel(c, 1, 2, stringType)})
	st.heap[ex.feed.id] = Mk(vs[2], vs[3])
	bad := st.clone()
	st.assume(Le(Int(0), vs[0]))
	bad.assume(Lt(vs[0], Int(0)))
	var out []Ret
	if !st.dead {
		next := App("partfn", SU, fv.typ, vs[2])
		st.axiom(Not(IsNil(next)))
		out = append(out, Ret{st, []*Term{Mk(vs[0], vs[1]), next}})
	}
	if !bad.dead {
		v := bad.content(o)
		bad.heap[o.id] = Mk(v.args[0], fresh("err", types.Universe.Lookup("error").Type()), v.args[2])
		out = append(out, Ret{bad, []*Term{Mk(vs[0], vs[1]), fresh("fn", fv.typ)}})
	}
	return out
}

// verifyGet proves that a tokeniser gives the tokens of its functions, one
// after the other, as long as there was no failure.
func (ex *Exec) verifyGet(res *UnitResult) {
	tt := parPkg.Pkg.Scope().Lookup("Tokeniser").Type()
	f := prog.LookupMethod(types.NewPointer(tt), parPkg.Pkg, "get")
	if f == nil {
		res.Error = "no such function"
		return
	}
	st := newState()
	part, text := fresh("part", stringType), fresh("text", stringType)
	st.axiom(ex.boolOf(st, specByName["vAt"].fn, []*Term{part, text}))
	ex.feed = newObj(feedStruct, "feed", "tokens to come")
	st.heap[ex.feed.id] = Mk(part, text)
	fn := App("partfn", SU, structOf(tt).Field(2).Type(), part)
	st.axiom(Not(IsNil(fn)))
	to := newObj(tt, "", "tokeniser value")
	st.heap[to.id] = Mk(fresh("tokeniser", structOf(tt).Field(0).Type()), Nil, fn)
	ex.keepRets = true
	rets := ex.callBody(st, f, []*Term{addrOf(to)}, nil)
	res.Paths = len(rets)
	for _, r := range rets {
		if solver.check(r.st.facts()) == resUnsat {
			continue
		}
		res.Feasible = true
		vs := ex.evalApp(r.st, specByName["vToken"], []*Term{part, text})
		ex.agree(r.st, "dep-result", f, r.st.freeze(r.vals[0]), Mk(vs[0], vs[1]))
		more := r.st.clone()
		more.assume(Le(Int(0), vs[0]))
		if more.dead {
			continue
		}
		v, feed := more.content(to), more.heap[ex.feed.id]
		ex.agree(more, "dep-rest", f, feed.args[1], vs[3])
		ex.agree(more, "dep-part", f, v.args[2], App("partfn", SU, fn.typ, vs[2]))
		ex.record(more, "dep-state", f.String(), proveGoal(more.pc, IsNil(v.args[1])), "an error is left behind with a token")
	}
}

// verifyNew proves that a tokeniser of a string starts with all of it to be
// read.
func (ex *Exec) verifyNew(res *UnitResult) {
	f := parPkg.Func("NewStringTokeniser")
	if f == nil {
		res.Error = "no such function"
		return
	}
	st := newState()
	str := fresh("str", stringType)
	ex.keepRets = true
	rets := ex.callBody(st, f, []*Term{str}, nil)
	res.Paths = len(rets)
	for _, r := range rets {
		res.Feasible = true
		v := r.vals[0]
		ok := v.op == OMk && len(v.args) == 3 && v.args[0].op == OIface && len(v.args[0].args) == 1 && v.args[0].args[0].op == OAddr && v.args[1] == Nil && v.args[2] == Nil
		ex.record(r.st, "dep-result", f.String(), ok, "not a tokeniser without error and state")
		if !ok {
			continue
		}
		o := objOf(v.args[0].args[0])
		ex.record(r.st, "dep-result", f.String(), types.Identical(o.typ, parPkg.Pkg.Scope().Lookup("strParser").Type()), "not a tokeniser of a string")
		ex.agree(r.st, "dep-state", f, r.st.freeze(r.st.heap[o.id]), Mk(str, Int(0), Int(0)))
	}
}
