package main

import (
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of functions outside the repository.  Each is a trusted contract;
// the ones met while verifying are listed in the evidence.

var usedExterns = map[string]bool{}

// ---- runes

// runeOctets adds facts about the octets of a character: they matter in lemmas
// only.
var runeOctets bool

func decodeRune(st *State, s *Term) (*Term, *Term) {
	r := App("utf8.rune", SInt, runeType, s)
	w := App("utf8.width", SInt, intType, s)
	b0 := At(s, Int(0), byteType)
	if n, ok := b0.i64(); ok && n < 0x80 {
		return b0, Int(1)
	}
	asc := Lt(b0, Int(0x80))
	if quick(st.pc, asc) == 1 {
		return b0, Int(1)
	}
	st.axiom(And(Le(Int(1), w), Le(w, Int(4)), Le(w, Len(s))))
	st.axiom(And(Le(Int(0), r), Le(r, Int(0x10ffff))))
	st.axiom(Eq(asc, Lt(r, Int(0x80))))
	st.axiom(Implies(asc, And(Eq(r, b0), Eq(w, Int(1)))))
	if runeOctets {
		for i := int64(1); i < 4; i++ {
			st.axiom(Implies(Lt(Int(i), w), Le(Int(0x80), At(s, Int(i), byteType))))
		}
	}
	return r, w
}

func encRune(st *State, r *Term) *Term {
	asc := And(Le(Int(0), r), Lt(r, Int(0x80)))
	switch quick(st.pc, asc) {
	case 1:
		return Unit(r, byteType)
	}
	a := App("utf8.enc", SSeq, stringType, r)
	n := Len(a)
	st.axiom(And(Le(Int(1), n), Le(n, Int(4))))
	if asc == False || solver.valid(st.facts(), Not(asc)) {
		return a
	}
	return Ite(asc, Unit(r, byteType), a)
}

// ---- helpers

func (ex *Exec) spec(st *State, name string, args ...*Term) []*Term {
	s := specByName[name]
	if s == nil {
		panic(giveUp{"specification function " + name + " is missing"})
	}
	save := ex.mode
	if ex.mode == mCode {
		ex.mode = mFork
	}
	defer func() { ex.mode = save }()
	if s.recursive || s.contract != nil || s.opaque {
		return ex.evalApp(st, s, args)
	}
	rets := ex.callBody(&State{regs: map[ssa.Value]*Term{}, heap: map[int]*Term{}, pc: st.pc, rules: st.rules}, s.fn, args, nil)
	if len(rets) != 1 {
		panic(giveUp{"specification " + name + " does not give one value"})
	}
	return rets[0].vals
}

// charSet is a canonical form of a set of characters.
func charSet(set string) string {
	b := []byte(set)
	slices.Sort(b)
	return string(slices.Compact(b))
}

func inSet(r *Term, set string) *Term {
	var cs []*Term
	for i := 0; i < len(set); i++ {
		cs = append(cs, Eq(r, Int(int64(set[i]))))
	}
	return Or(cs...)
}

func constStr(t *Term) (string, bool) {
	if t.op == OStr {
		return t.name, true
	}
	return "", false
}

func asciiStr(t *Term) (string, bool) {
	s, ok := constStr(t)
	if !ok {
		return "", false
	}
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return "", false
		}
	}
	return s, true
}

func paramType(f *ssa.Function, i int) types.Type {
	if r := f.Signature.Recv(); r != nil {
		if i == 0 {
			return r.Type()
		}
		i--
	}
	return f.Signature.Params().At(i).Type()
}

// ---- static calls

// oneByte gives the only byte of a constant string of one ASCII character.
func oneByte(t *Term) (*Term, bool) {
	s, ok := asciiStr(t)
	if !ok || len(s) != 1 {
		return nil, false
	}
	return Int(int64(s[0])), true
}

// indexByte is the first place of a byte in a text.
func indexByte(st *State, s, c *Term) *Term {
	v := App("strings.IndexByte", SInt, intType, s, c)
	st.axiom(And(Le(Int(-1), v), Lt(v, Len(s))))
	st.axiom(Implies(Le(Int(0), v), Eq(At(s, v, byteType), c)))
	return v
}

// atByte gives the results of a function that divides a text at the first
// place of a byte; the place is nil where the byte is not in the text.
func (ex *Exec) atByte(st *State, name string, s, c *Term, f func(*Term) []*Term) ([]Ret, bool) {
	usedExterns[name] = true
	v := indexByte(st, s, c)
	in := Le(Int(0), v)
	s2 := st.clone()
	var out []Ret
	st.assume(in)
	if !st.dead && solver.check(st.facts()) != resUnsat {
		out = append(out, Ret{st, f(v)})
	}
	s2.assume(Not(in))
	if !s2.dead && solver.check(s2.facts()) != resUnsat {
		out = append(out, Ret{s2, f(nil)})
	}
	return out, true
}

func (ex *Exec) external(st *State, in *ssa.Call, f *ssa.Function, args []*Term) ([]Ret, bool) {
	name := f.String()
	if f.Pkg == icsPkg {
		return nil, false
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "bufio" && f.Name() != "init" {
		return ex.bufioCall(st, in, f, args)
	}
	if f.Pkg == parPkg {
		return ex.parserCall(st, in, f, name, args)
	}
	if f.Pkg == nil && f.Synthetic != "" {
		return nil, false
	}
	if f.Name() == "init" {
		return []Ret{{st, nil}}, true
	}
	ret := func(vs ...*Term) ([]Ret, bool) {
		usedExterns[name] = true
		return []Ret{{st, vs}}, true
	}
	fz := func(i int) *Term { return st.freeze(args[i]) }
	deref := func(i int) *Term {
		if p, ok := paramType(f, i).Underlying().(*types.Pointer); ok && p.Elem().String() != "time.Location" {
			ex.oblige(st, "nil-deref", in, Not(IsNil(args[i])))
			return st.freeze(st.load(args[i], paramType(f, i).Underlying().(*types.Pointer).Elem()))
		}
		return st.freeze(args[i])
	}
	// pure: an uninterpreted function of the values of its arguments
	pure := func() ([]Ret, bool) {
		var as []*Term
		for i := range args {
			a := deref(i)
			if hasRef(a) {
				ex.unsupported(st, in, "argument of "+name)
				return nil, true
			}
			if f.Signature.Variadic() && i == len(args)-1 {
				a = SlSeq(a)
			}
			as = append(as, a)
		}
		if st.dead {
			return nil, true
		}
		var vs []*Term
		ts := resTypes(f)
		for i, t := range ts {
			nm := name
			if len(ts) > 1 {
				nm = name + "#" + itoaI(i)
			}
			if isErrorType(t) {
				vs = append(vs, ErrT(App(nm+"ok", SBool, nil, as...)))
				continue
			}
			if p, ok := t.Underlying().(*types.Pointer); ok {
				v := App(nm, SU, t, as...)
				_ = p
				vs = append(vs, v)
				continue
			}
			vs = append(vs, App(nm, sortOf(t), t, as...))
		}
		return ret(vs...)
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		if ex.inInit() {
			errCount++
			return ret(Iface("error:ics"+itoaI(errCount), Nil))
		}
		return ret(ErrT(False))
	case "errors.Is":
		return ret(Ite(IsNil(args[0]), False, App("errors.Is", SBool, nil, fz(0), fz(1))))
	case "strings.ToUpper":
		if s, ok := asciiStr(args[0]); ok {
			return ret(Str(strings.ToUpper(s)))
		}
		return ret(App("strings.ToUpper", SSeq, stringType, args[0]))
	case "strings.EqualFold":
		if _, ok := asciiStr(args[1]); ok {
			u := func(t *Term) *Term {
				if s, ok := asciiStr(t); ok {
					return Str(strings.ToUpper(s))
				}
				return App("strings.ToUpper", SSeq, stringType, t)
			}
			// differs from upper-casing only on U+0131 and U+212A
			return ret(Eq(u(args[0]), u(args[1])))
		}
		return pure()
	case "strings.Join":
		s := st.freeze(st.seqOf(args[0]))
		return ret(App("strings.Join", SSeq, stringType, s, args[1]))
	case "strings.Split":
		v := App("strings.Split", SU, f.Signature.Results().At(0).Type(), args[0], args[1])
		st.axiom(Le(Int(1), Len(SlSeq(v))))
		st.axiom(Not(SlNil(v)))
		return ret(v)
	case "strings.SplitN":
		if c, ok := oneByte(args[1]); ok && args[2] == Int(2) {
			return ex.atByte(st, name, args[0], c, func(i *Term) []*Term {
				if i == nil {
					return []*Term{Sl(False, Unit(args[0], stringType))}
				}
				return []*Term{Sl(False, Concat(Unit(Slice(args[0], Int(0), i), stringType), Unit(Slice(args[0], Add(i, Int(1)), Len(args[0])), stringType)))}
			})
		}
		v := App("strings.SplitN", SU, f.Signature.Results().At(0).Type(), args...)
		st.axiom(Le(Int(1), Len(SlSeq(v))))
		st.axiom(Le(Len(SlSeq(v)), args[2]))
		st.axiom(Not(SlNil(v)))
		return ret(v)
	case "strings.IndexByte":
		return ret(indexByte(st, args[0], args[1]))
	case "strings.Cut":
		if c, ok := oneByte(args[1]); ok {
			return ex.atByte(st, name, args[0], c, func(i *Term) []*Term {
				if i == nil {
					return []*Term{args[0], Str(""), False}
				}
				return []*Term{Slice(args[0], Int(0), i), Slice(args[0], Add(i, Int(1)), Len(args[0])), True}
			})
		}
		b := App("strings.Cut#0", SSeq, stringType, args...)
		a := App("strings.Cut#1", SSeq, stringType, args...)
		return ret(b, a, App("strings.Cut#2", SBool, nil, args...))
	case "strings.Index", "strings.Contains":
		c, ok := oneByte(args[1])
		if !ok {
			return pure()
		}
		if v := indexByte(st, args[0], c); name == "strings.Index" {
			return ret(v)
		} else {
			return ret(Le(Int(0), v))
		}
	case "strings.IndexRune", "strings.ContainsRune":
		if set, ok := asciiStr(args[0]); ok && name == "strings.ContainsRune" {
			return ret(inSet(args[1], set))
		}
		if c, ok := args[1].i64(); !ok || c < 0 || c >= 0x80 {
			return pure()
		}
		if v := indexByte(st, args[0], args[1]); name == "strings.IndexRune" {
			return ret(v)
		} else {
			return ret(Le(Int(0), v))
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.TrimPrefix", "strings.TrimSuffix":
		p, ok := asciiStr(args[1])
		if !ok || len(p) > 16 {
			return pure()
		}
		n, k := Len(args[0]), Int(int64(len(p)))
		has := Le(k, n)
		for i := range p {
			j := Int(int64(i))
			if strings.HasSuffix(name, "Suffix") {
				j = Add(Sub(n, k), j)
			}
			has = And(has, Eq(At(args[0], j, byteType), Int(int64(p[i]))))
		}
		switch name {
		case "strings.TrimPrefix":
			return ret(Ite(has, Slice(args[0], k, n), args[0]))
		case "strings.TrimSuffix":
			return ret(Ite(has, Slice(args[0], Int(0), Sub(n, k)), args[0]))
		}
		return ret(has)
	case "strings.ContainsAny", "strings.IndexAny":
		set, ok := asciiStr(args[1])
		if !ok {
			return pure()
		}
		if ex.line != nil && name == "strings.ContainsAny" {
			if h, ok := ex.lineHas(st, args[0], set); ok {
				return ret(h)
			}
		}
		set = charSet(set)
		has := App("strings.ContainsAny", SBool, nil, args[0], Str(set))
		if name == "strings.ContainsAny" {
			return ret(has)
		}
		v := App("strings.IndexAny", SInt, intType, args[0], Str(set))
		st.axiom(And(Le(Int(-1), v), Lt(v, Len(args[0]))))
		st.axiom(Eq(has, Le(Int(0), v)))
		return ret(v)
	case "strings.TrimSpace", "strings.ReplaceAll", "strings.ToLower":
		return pure()
	case "strconv.ParseUint", "strconv.ParseInt":
		v := App(name, SInt, f.Signature.Results().At(0).Type(), args...)
		ok := App(name+"ok", SBool, nil, args...)
		if b, isc := args[2].i64(); isc {
			if b == 0 {
				b = 64
			}
			if name == "strconv.ParseUint" {
				if b < 63 {
					st.axiom(Lt(v, Int(1<<b)))
				}
			} else if b < 64 {
				st.axiom(And(Le(Int(-(1<<(b-1))), v), Lt(v, Int(1<<(b-1)))))
			}
		}
		return ret(v, ErrT(ok))
	case "strconv.Atoi":
		v := App("strconv.ParseInt", SInt, types.Typ[types.Int64], args[0], Int(10), Int(0))
		return ret(v, ErrT(App("strconv.ParseIntok", SBool, nil, args[0], Int(10), Int(0))))
	case "strconv.ParseBool", "strconv.ParseFloat":
		return pure()
	case "strconv.FormatUint":
		if args[1] == Int(10) {
			return ret(ex.spec(st, "vDec", args[0])[0])
		}
		return pure()
	case "strconv.FormatInt":
		if args[1] == Int(10) {
			return ret(ex.spec(st, "vDecInt", args[0])[0])
		}
		return pure()
	case "strconv.Itoa":
		return ret(ex.spec(st, "vDecInt", args[0])[0])
	case "strconv.AppendUint":
		if args[2] == Int(10) {
			return ret(Sl(False, Concat(st.freeze(st.seqOf(args[0])), ex.spec(st, "vDec", args[1])[0])))
		}
	case "strconv.AppendInt":
		if args[2] == Int(10) {
			return ret(Sl(False, Concat(st.freeze(st.seqOf(args[0])), ex.spec(st, "vDecInt", args[1])[0])))
		}
	case "strconv.FormatFloat":
		return pure()
	case "math.IsNaN", "math.IsInf":
		return pure()
	case "unicode/utf8.EncodeRune":
		d := args[0]
		if d.op != ORS || len(d.args[0].args) != 1 || objOf(d.args[0]).ro {
			ex.oblige(st, "frame", in, False)
			return nil, true
		}
		e := encRune(st, args[1])
		o := objOf(d.args[0])
		c := st.content(o)
		lo := d.args[1]
		ex.oblige(st, "index-bounds", in, Le(Len(e), Sub(d.args[2], lo)))
		st.heap[o.id] = Concat(Slice(c, Int(0), lo), e, Slice(c, Add(lo, Len(e)), Len(c)))
		return ret(Len(e))
	case "unicode/utf8.AppendRune":
		return ret(Sl(False, Concat(st.freeze(st.seqOf(args[0])), encRune(st, args[1]))))
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		s := args[0]
		if name == "unicode/utf8.DecodeRune" {
			s = st.freeze(st.seqOf(s))
		}
		em := Eq(Len(s), Int(0))
		s2 := st.clone()
		st.assume(Not(em))
		var out []Ret
		usedExterns[name] = true
		if !st.dead {
			r, w := decodeRune(st, s)
			out = append(out, Ret{st, []*Term{r, w}})
		}
		s2.assume(em)
		if !s2.dead && solver.check(s2.facts()) != resUnsat {
			out = append(out, Ret{s2, []*Term{Int(0xfffd), Int(0)}})
		}
		return out, true
	case "unicode/utf8.RuneLen", "unicode/utf8.ValidString":
		return pure()
	case "bytes.Equal":
		return ret(Eq(st.freeze(st.seqOf(args[0])), st.freeze(st.seqOf(args[1]))))
	case "net/url.Parse":
		v := App("url.Parse", SU, f.Signature.Results().At(0).Type(), args[0])
		ok := App("url.Parseok", SBool, nil, args[0])
		st.axiom(Eq(ok, Not(IsNil(v))))
		return ret(v, ErrT(ok))
	case "(*net/url.URL).String":
		return ret(App("url.String", SSeq, stringType, deref(0)))
	case "time.Parse", "time.ParseInLocation", "time.LoadLocation":
		var as []*Term
		for i := range args {
			as = append(as, deref(i))
		}
		ok := App(name+"ok", SBool, nil, as...)
		v := App(name, SU, resTypes(f)[0], as...)
		return ret(v, ErrT(ok))
	case "(time.Time).AppendFormat":
		s := App("(time.Time).Format", SSeq, stringType, fz(0), args[2])
		return ret(Sl(False, Concat(st.freeze(st.seqOf(args[1])), s)))
	case "(time.Time).Format":
		return ret(App("(time.Time).Format", SSeq, stringType, fz(0), args[1]))
	case "(time.Time).Location":
		// locations are opaque identities
		return ret(App(name, SU, resTypes(f)[0], fz(0)))
	case "(*time.Location).String", "(time.Time).IsZero", "(time.Time).Year", "(time.Time).After", "(time.Time).Before", "(time.Time).Equal",
		"(time.Time).UTC", "(time.Time).In", "(time.Time).Compare", "(time.Time).Month", "(time.Time).Day", "(time.Time).Hour", "(time.Time).Minute", "(time.Time).Second", "(time.Time).Nanosecond":
		return pure()
	case "(*encoding/base64.Encoding).DecodeString":
		v := App("base64.Decode", SU, resTypes(f)[0], args[0], args[1])
		return ret(v, ErrT(App("base64.Decodeok", SBool, nil, args[0], args[1])))
	case "(*encoding/base64.Encoding).EncodeToString":
		return ret(App("base64.Encode", SSeq, stringType, args[0], st.freeze(st.seqOf(args[1]))))
	case "encoding/base64.NewEncoder":
		w := ghostObj(args[1], "ghostwriter")
		if w == nil {
			ex.unsupported(st, in, "writer of base64.NewEncoder is not tracked")
			return nil, true
		}
		o := newObj(stringType, "b64", "base64 encoder")
		o.aux = Tuple(args[0], args[1])
		st.heap[o.id] = Empty
		return ret(Iface("ghostb64", addrOf(o)))
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune", "(*strings.Builder).Write",
		"(*strings.Builder).String", "(*strings.Builder).Len", "(*strings.Builder).Reset", "(*strings.Builder).Grow",
		"(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).Write",
		"(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*bytes.Buffer).Reset", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Truncate":
		return ex.buffer(st, in, f, args)
	case "regexp.MustCompile":
		return ret(Box(App("regexp", SU, nil, args[0])))
	case "strings.NewReplacer":
		var as []*Term
		for _, p := range parts(st.freeze(st.seqOf(args[0]))) {
			if p.op != OUnit {
				panic(giveUp{"replacer with unknown pairs"})
			}
			as = append(as, p.args[0])
		}
		return ret(Box(App("replacer", SU, nil, as...)))
	case "(*strings.Replacer).Replace":
		if f := ex.octets(deref(0)); f != nil {
			return ret(f.apps([]*Term{args[1]})[0])
		}
	case "(*regexp.Regexp).Match":
		return ret(App("regexp.Match", SBool, nil, deref(0), st.freeze(st.seqOf(args[1]))))
	case "(*regexp.Regexp).MatchString":
		return ret(App("regexp.Match", SBool, nil, deref(0), args[1]))
	}
	return nil, false
}

// buffer is a call of a strings.Builder or of a bytes.Buffer that is only
// written to: the text collected so far is the content of its field buf.
func (ex *Exec) buffer(st *State, in *ssa.Call, f *ssa.Function, args []*Term) ([]Ret, bool) {
	usedExterns[f.String()] = true
	pt := f.Signature.Recv().Type()
	s := pt.(*types.Pointer).Elem().Underlying().(*types.Struct)
	k := 0
	for s.Field(k).Name() != "buf" {
		k++
	}
	ex.oblige(st, "nil-deref", in, Not(IsNil(args[0])))
	a := ex.fieldAddr(args[0], pt, k, s)
	c := st.freeze(st.seqOf(st.load(a, s.Field(k).Type())))
	put := func(x *Term) { ex.store(st, in, a, Sl(False, Concat(c, x))) }
	ok := ErrT(True)
	var vs []*Term
	switch f.Name() {
	case "WriteByte":
		put(Unit(args[1], byteType))
		vs = []*Term{ok}
	case "WriteString":
		put(args[1])
		vs = []*Term{Len(args[1]), ok}
	case "Write":
		x := st.freeze(st.seqOf(args[1]))
		put(x)
		vs = []*Term{Len(x), ok}
	case "WriteRune":
		x := encRune(st, args[1])
		put(x)
		vs = []*Term{Len(x), ok}
	case "String":
		vs = []*Term{c}
	case "Bytes":
		vs = []*Term{Sl(False, c)}
	case "Len":
		vs = []*Term{Len(c)}
	case "Reset":
		ex.store(st, in, a, Sl(False, Empty))
	case "Truncate":
		ex.oblige(st, "slice-bounds", in, And(Le(Int(0), args[1]), Le(args[1], Len(c))))
		ex.store(st, in, a, Sl(False, Slice(c, Int(0), args[1])))
	case "Grow":
		ex.oblige(st, "slice-bounds", in, Le(Int(0), args[1]))
	}
	if st.dead {
		return nil, true
	}
	return []Ret{{st, vs}}, true
}

var errCount int

// ---- the parser package

// tokRune is the next character of a tokeniser: an octet which does not belong
// to one is given by itself.
func tokRune(st *State, s *Term) (*Term, *Term) {
	r, w := decodeRune(st, s)
	return Ite(And(Eq(r, Int(0xfffd)), Eq(w, Int(1))), At(s, Int(0), byteType), r), w
}

func (ex *Exec) parserCall(st *State, in *ssa.Call, f *ssa.Function, name string, args []*Term) ([]Ret, bool) {
	if f.Name() == "init" {
		return []Ret{{st, nil}}, true
	}
	short := f.Name()
	if f.Signature.Recv() != nil && args[0].op == OAddr && objOf(args[0]).kind == "parser" {
		return ex.parserGhost(st, in, f, name, args)
	}
	if ex.feed != nil && ex.held != nil && short == "get" && isTokeniser(f.Signature.Recv().Type()) {
		return ex.feedNext(st), true
	}
	if f.Signature.Recv() == nil {
		if short == "NewReaderTokeniser" {
			text := ex.unfolderText(st, args[0])
			if text == nil {
				return nil, false
			}
			usedExterns[name] = true
			t, _ := ex.newTok(st, text)
			return []Ret{{st, []*Term{t}}}, true
		}
		if short == "NewStringTokeniser" {
			if !ex.sets {
				usedExterns[depUnit("string.new", "")] = true
			}
			t, _ := ex.newTok(st, args[0])
			return []Ret{{st, []*Term{t}}}, true
		}
		return nil, false
	}
	if short == "GetPhrase" {
		if o := ex.parserStream(st, in, args[0]); o != nil {
			usedExterns[name] = true
			rs := ex.streamNext(st, o)
			for _, r := range rs {
				if r.vals[1] == Nil && r.vals[0].op == OMk && r.vals[0].args[0] == Int(-1) {
					// the end of the input is left in the error of the parser
					s := structOf(parPkg.Pkg.Scope().Lookup("Parser").Type())
					r.st.heap[objOf(args[0]).id] = writePath(r.st.content(objOf(args[0])), objOf(args[0]).typ, []*Term{fldT(0, s.NumFields()), fldT(1, 3)}, Iface("error:EOF", Int(0)))
				}
			}
			return rs, true
		}
	}
	if !isTokeniser(f.Signature.Recv().Type()) {
		return nil, false
	}
	v := args[0]
	if _, ok := paramType(f, 0).(*types.Pointer); ok {
		v = st.load(args[0], nil)
	}
	o := tokObj(v)
	if o == nil {
		return nil, false
	}
	if set, _ := asciiStr(args[len(args)-1]); !ex.sets && modelled[short] {
		usedExterns[depUnit(short, set)] = true
	}
	c := st.heap[o.id]
	cons, rest := c.args[0], c.args[1]
	n := Len(rest)
	take := func(s *State, k *Term) {
		s.heap[o.id] = Mk(Concat(cons, Slice(rest, Int(0), k)), Slice(rest, k, n))
	}
	// next rune: forks at the end of the text
	next := func(s *State) (r, w *Term) { return tokRune(s, rest) }
	two := func() (some, none *State) {
		e := Eq(n, Int(0))
		none = st.clone()
		st.assume(Not(e))
		none.assume(e)
		if none.dead {
			none = nil
		}
		if st.dead {
			return nil, none
		}
		return st, none
	}
	switch short {
	case "Get":
		st.heap[o.id] = Mk(Empty, rest)
		return []Ret{{st, []*Term{cons}}}, true
	case "Len":
		return []Ret{{st, []*Term{Len(cons)}}}, true
	case "Accept", "Except":
		set, ok := asciiStr(args[1])
		if !ok {
			ex.unsupported(st, in, "character set is not an ASCII constant")
			return nil, true
		}
		some, none := two()
		var out []Ret
		if none != nil {
			out = append(out, Ret{none, []*Term{False}})
		}
		if some != nil {
			b0 := At(rest, Int(0), byteType)
			m := inSet(b0, set)
			if short == "Except" {
				m = Not(m)
			}
			no := some.clone()
			some.assume(m)
			if !some.dead {
				if short == "Accept" {
					take(some, Int(1))
				} else {
					_, w := next(some)
					take(some, w)
				}
				out = append(out, Ret{some, []*Term{True}})
			}
			no.assume(Not(m))
			if !no.dead {
				out = append(out, Ret{no, []*Term{False}})
			}
		}
		return out, true
	case "Next", "Peek":
		some, none := two()
		var out []Ret
		if none != nil {
			out = append(out, Ret{none, []*Term{Int(-1)}})
		}
		if some != nil {
			r, w := next(some)
			if short == "Next" {
				take(some, w)
			}
			out = append(out, Ret{some, []*Term{r}})
		}
		return out, true
	case "AcceptRun", "ExceptRun":
		set, ok := asciiStr(args[1])
		if !ok {
			ex.unsupported(st, in, "character set is not an ASCII constant")
			return nil, true
		}
		fn := "vAcceptN"
		if short == "ExceptRun" {
			fn = "vExceptN"
		}
		k := ex.spec(st, fn, rest, Str(set))[0]
		st.axiom(And(Le(Int(0), k), Le(k, n)))
		end := Eq(k, n)
		none := st.clone()
		none.assume(end)
		var out []Ret
		if !none.dead {
			none.heap[o.id] = Mk(Concat(cons, rest), Empty)
			out = append(out, Ret{none, []*Term{Int(-1)}})
		}
		st.assume(Not(end))
		if !st.dead {
			st.axiom(Lt(k, n))
			take(st, k)
			b := At(rest, k, byteType)
			m := inSet(b, set)
			var r *Term
			if short == "ExceptRun" {
				st.axiom(m)
				r = b
			} else {
				st.axiom(Not(m))
				r, _ = tokRune(st, Slice(rest, k, n))
			}
			out = append(out, Ret{st, []*Term{r}})
		}
		return out, true
	}
	return nil, false
}

// ---- interface calls on ghost values

func (ex *Exec) ghostInvoke(st *State, in *ssa.Call, recv *Term, m *types.Func, args []*Term) ([]Ret, bool) {
	if recv.op != OIface {
		return nil, false
	}
	unknownErr := func() *Term {
		return ErrT(freshSort("ioerr", SBool))
	}
	switch recv.name {
	case "ghostwriter":
		o := objOf(recv.args[0])
		var b *Term
		switch m.Name() {
		case "Write":
			b = st.freeze(st.seqOf(args[0]))
		case "WriteString":
			b = args[0]
		default:
			return nil, false
		}
		st.heap[o.id] = Concat(st.heap[o.id], b)
		return []Ret{{st, []*Term{fresh("n", intType), unknownErr()}}}, true
	case "ghostsink":
		switch m.Name() {
		case "Write":
			return ex.sinkWrite(st, in, objOf(recv.args[0]), st.freeze(st.seqOf(args[0]))), true
		}
		return nil, false
	case "ghostb64":
		o := objOf(recv.args[0])
		switch m.Name() {
		case "Write":
			if st.heap[o.id] == Nil {
				ex.oblige(st, "closed-encoder", in, False)
				return nil, true
			}
			st.heap[o.id] = Concat(st.heap[o.id], st.freeze(st.seqOf(args[0])))
			return []Ret{{st, []*Term{fresh("n", intType), unknownErr()}}}, true
		case "Close":
			w := objOf(o.aux.args[1].args[0])
			st.heap[w.id] = Concat(st.heap[w.id], App("base64.Encode", SSeq, stringType, o.aux.args[0], st.heap[o.id]))
			st.heap[o.id] = Nil
			return []Ret{{st, []*Term{unknownErr()}}}, true
		}
	case "ghoststream":
		o := objOf(recv.args[0])
		if m.Name() != "GetPhrase" {
			return nil, false
		}
		return ex.streamNext(st, o), true
	}
	if strings.HasPrefix(recv.name, "error:") && m.Name() == "Error" {
		return []Ret{{st, []*Term{App("errtext:"+recv.name, SSeq, stringType)}}}, true
	}
	return nil, false
}

// streamNext reads a line from a stream.
func (ex *Exec) streamNext(st *State, o *Obj) []Ret {
	lines := st.heap[o.id]
	e := Eq(Len(lines), Int(0))
	end := st.clone()
	st.assume(Not(e))
	var out []Ret
	if !st.dead {
		ph := At(lines, Int(0), phraseType)
		st.heap[o.id] = Slice(lines, Int(1), Len(lines))
		st.axiom(ex.lineFacts(ph))
		out = append(out, Ret{st, []*Term{ph, Nil}})
	}
	end.assume(e)
	if !end.dead {
		e2 := end.clone()
		nd := freshSort("endkind", SBool)
		end.assume(nd)
		e2.assume(Not(nd))
		out = append(out, Ret{end, []*Term{Mk(Int(-1), NilSlice), Nil}})
		out = append(out, Ret{e2, []*Term{fresh("phrase", phraseType), ErrT(False)}})
	}
	return out
}

// lineFacts is the shape of a phrase produced by the phraser.
func (ex *Exec) lineFacts(ph *Term) *Term {
	typ := Sel(ph, 0, 2, structOf(phraseType).Field(0).Type())
	data := Sel(ph, 1, 2, structOf(phraseType).Field(1).Type())
	return And(Eq(typ, Int(0)), Le(Int(2), Len(SlSeq(data))))
}

// intrinsic evaluates helper functions of the specification directly.
func (ex *Exec) intrinsic(st *State, s *SpecFn, args []*Term) ([]Ret, bool) {
	switch s.name {
	case "vMapSet":
		return []Ret{{st, []*Term{MapSet(args[0], args[1], args[2])}}}, true
	}
	return nil, false
}
