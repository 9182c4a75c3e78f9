package main

import (
	"bufio"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives a z3 process over a pipe.  Sequences and other values are
// uninterpreted sorts; integers are mathematical integers.

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	cache map[string]int8
}

var (
	solver      *Solver
	smtQueries  int
	smtCached   int
	smtTime     time.Duration
	smtUnknown  int
	smtTimeout  = 10000
	solverBin   = "z3-new"
	solverDebug = os.Getenv("VERIF_SMT_DEBUG") != ""
)

func newSolver() *Solver {
	s := &Solver{cache: map[string]int8{}}
	s.start()
	return s
}

func (s *Solver) start() {
	bin := solverBin
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2", "-memory:2000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("z3 pipe: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("z3 pipe: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start z3: %v", err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :model true)\n(declare-sort S 0)\n(declare-sort U 0)\n(declare-fun len (S) Int)\n(declare-const str_empty S)\n(declare-const nilU U)\n", smtTimeout)
}

func (s *Solver) stop() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func sortName(s Sort) string {
	switch s {
	case SInt:
		return "Int"
	case SBool:
		return "Bool"
	case SSeq:
		return "S"
	}
	return "U"
}

type emitter struct {
	b     strings.Builder
	done  map[*Term]string
	funs  map[string]bool
	facts []string
	strs  []string
}

func smtInt(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func clean(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, ".%02x", c)
		}
	}
	return b.String()
}

func (e *emitter) fun(name string, args []*Term, res Sort) string {
	var b strings.Builder
	b.WriteString("f_")
	b.WriteString(clean(name))
	for _, a := range args {
		b.WriteString("_")
		b.WriteString(sortName(a.sort))
	}
	b.WriteString("__")
	b.WriteString(sortName(res))
	n := b.String()
	if !e.funs[n] {
		e.funs[n] = true
		var sg []string
		for _, a := range args {
			sg = append(sg, sortName(a.sort))
		}
		fmt.Fprintf(&e.b, "(declare-fun %s (%s) %s)\n", n, strings.Join(sg, " "), sortName(res))
	}
	return n
}

func (e *emitter) call(name string, args []*Term, res Sort) string {
	var as []string
	for _, a := range args {
		as = append(as, e.emit(a))
	}
	f := e.fun(name, args, res)
	if len(as) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(as, " ") + ")"
}

func (e *emitter) fact(f string, a ...any) { e.facts = append(e.facts, fmt.Sprintf(f, a...)) }

func (e *emitter) emit(t *Term) string {
	if n, ok := e.done[t]; ok {
		return n
	}
	n := e.emit1(t)
	if t.op != OSym && t.op != OInt && t.op != OBool && t.op != OStr && t.op != ONil {
		nm := "n" + strconv.Itoa(t.id)
		fmt.Fprintf(&e.b, "(define-fun %s () %s %s)\n", nm, sortName(t.sort), n)
		n = nm
	}
	e.done[t] = n
	if t.sort == SInt && t.op != OInt && t.op != OLin {
		switch t.op {
		case OSym, OSel, OAt, OApp, ODeref, OMapGet, OAs, OBits:
			if t.typ != nil {
				if lo, hi := typeRange(t.typ); lo != nil {
					e.fact("(and (<= %s %s) (<= %s %s))", smtInt(lo.String()), n, n, smtInt(hi.String()))
				}
			}
		case OLen:
			e.fact("(and (<= 0 %s) (<= %s %s) (= (= %s 0) (= %s str_empty)))", n, n, maxLen.String(), n, e.emit(t.args[0]))
		}
	}
	return n
}

func (e *emitter) nary(op string, ts []*Term) string {
	var b strings.Builder
	b.WriteString("(")
	b.WriteString(op)
	for _, a := range ts {
		b.WriteByte(' ')
		b.WriteString(e.emit(a))
	}
	b.WriteString(")")
	return b.String()
}

func (e *emitter) emit1(t *Term) string {
	switch t.op {
	case OSym:
		n := "v_" + clean(t.name)
		fmt.Fprintf(&e.b, "(declare-const %s %s)\n", n, sortName(t.sort))
		return n
	case OInt:
		return smtInt(t.iv.String())
	case OBool:
		return t.name
	case OStr:
		if t == Empty {
			return "str_empty"
		}
		n := "str_" + strconv.Itoa(t.id)
		fmt.Fprintf(&e.b, "(declare-const %s S)\n", n)
		e.strs = append(e.strs, n)
		e.fact("(= (len %s) %d)", n, len(t.name))
		return n
	case OLin:
		var b strings.Builder
		b.WriteString("(+ ")
		b.WriteString(smtInt(t.iv.String()))
		for i, a := range t.args {
			fmt.Fprintf(&b, " (* %s %s)", smtInt(strconv.FormatInt(t.coefs[i], 10)), e.emit(a))
		}
		b.WriteString(")")
		return b.String()
	case OMul:
		return e.nary("*", t.args)
	case ODiv:
		return e.nary("div", t.args)
	case OMod:
		return e.nary("mod", t.args)
	case OWrap:
		lo, hi := wrapRange(t.name)
		n := bigI(1)
		n.Add(n, hi)
		n.Sub(n, lo)
		x := e.emit(t.args[0])
		if lo.Sign() == 0 {
			return fmt.Sprintf("(mod %s %s)", x, n)
		}
		return fmt.Sprintf("(+ (mod (- %s %s) %s) %s)", x, smtInt(lo.String()), n, smtInt(lo.String()))
	case OLe:
		return e.nary("<=", t.args)
	case OEq:
		return e.nary("=", t.args)
	case ONot:
		return e.nary("not", t.args)
	case OAnd:
		return e.nary("and", t.args)
	case OOr:
		return e.nary("or", t.args)
	case OIte:
		return e.nary("ite", t.args)
	case OLen:
		return e.nary("len", t.args)
	case ONil:
		return "nilU"
	case OConcat:
		r := e.emit(t.args[len(t.args)-1])
		if !e.funs["cat"] {
			e.funs["cat"] = true
			e.b.WriteString("(declare-fun cat (S S) S)\n")
		}
		for i := len(t.args) - 2; i >= 0; i-- {
			r = fmt.Sprintf("(cat %s %s)", e.emit(t.args[i]), r)
		}
		e.fact("(= (len %s) %s)", r, e.emit(Len(t)))
		return r
	case OSlNil:
		x := e.emit(t.args[0])
		sq := e.fun("slseq", t.args, SSeq)
		e.fact("(=> (%s %s) (= (%s %s) str_empty))", e.fun("slnil", t.args, SBool), x, sq, x)
		return e.call("slnil", t.args, SBool)
	case OSlSeq:
		return e.call("slseq", t.args, SSeq)
	case OTag:
		x := e.emit(t.args[0])
		r := e.call("tag", t.args, SInt)
		e.fact("(and (<= 0 %s) (= (= %s 0) (= %s nilU)))", r, r, x)
		return r
	case OMapGet:
		r := e.call("mapget", t.args, t.sort)
		if t.sort == SSeq {
			e.fact("(=> (not %s) (= %s str_empty))", e.emit(MapHas(t.args[0], t.args[1])), r)
		}
		return r
	case OAddr, OObj, OFld, OIdx, OFunc, OMapEmpty:
		n := "k" + strconv.Itoa(t.id)
		fmt.Fprintf(&e.b, "(declare-const %s %s)\n", n, sortName(t.sort))
		if t.op == OAddr || t.op == OFunc {
			e.fact("(not (= %s nilU))", n)
		}
		return n
	case OUnit:
		return e.call("unit", t.args, SSeq)
	case OSlice:
		r := e.call("slice", t.args, SSeq)
		e.fact("(= (len %s) %s)", r, e.emit(Sub(t.args[2], t.args[1])))
		return r
	case OAt:
		return e.call("at", t.args, t.sort)
	case OUpd:
		return e.call("upd", t.args, SSeq)
	case OFill:
		return e.call("fill", t.args, SSeq)
	case OMk:
		return e.call("mk"+strconv.Itoa(len(t.args)), t.args, SU)
	case OSel:
		return e.call("sel"+t.iv.String()+"_"+t.name, t.args, t.sort)
	case OSl:
		return e.call("sl", t.args, SU)
	case ORS:
		return e.call("rs", t.args, SU)
	case OBox:
		r := e.call("box", t.args, SU)
		e.fact("(not (= %s nilU))", r)
		return r
	case ODeref:
		return e.call("deref", t.args, t.sort)
	case OIface:
		r := e.call("iface_"+t.name, t.args, SU)
		e.fact("(not (= %s nilU))", r)
		return r
	case OAs:
		return e.call("as_"+t.name, t.args, t.sort)
	case OErr:
		r := e.call("err", t.args, SU)
		e.fact("(= %s (= %s nilU))", e.emit(t.args[0]), r)
		return r
	case OApp:
		return e.call("app_"+t.name, t.args, t.sort)
	case OMapSet:
		return e.call("mapset", t.args, SU)
	case OMapHas:
		return e.call("maphas", t.args, SBool)
	case OTuple:
		return e.call("tuple"+strconv.Itoa(len(t.args)), t.args, SU)
	case OBits:
		return e.call("bits_"+t.name, t.args, SInt)
	}
	panic("emit: " + t.String())
}

const (
	resUnsat = 1
	resSat   = 2
	resUnk   = 3
)

// check decides satisfiability of the conjunction.
func (s *Solver) check(ts []*Term) int {
	inTime()
	seen := map[*Term]bool{}
	var us []*Term
	for _, t := range ts {
		if t == False {
			return resUnsat
		}
		if t == True || seen[t] {
			continue
		}
		if seen[Not(t)] {
			return resUnsat
		}
		seen[t] = true
		us = append(us, t)
	}
	if len(us) == 0 {
		return resSat
	}
	ids := make([]int, len(us))
	for i, t := range us {
		ids[i] = t.id
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(' ')
	}
	k := kb.String()
	if r, ok := s.cache[k]; ok {
		smtCached++
		return int(r)
	}
	e := &emitter{done: map[*Term]string{}, funs: map[string]bool{}}
	var as []string
	for _, t := range us {
		as = append(as, e.emit(t))
	}
	var b strings.Builder
	b.WriteString("(push)\n")
	b.WriteString(e.b.String())
	b.WriteString("(assert (= (len str_empty) 0))\n")
	for _, f := range e.facts {
		fmt.Fprintf(&b, "(assert %s)\n", f)
	}
	if len(e.strs) > 0 {
		fmt.Fprintf(&b, "(assert (distinct str_empty %s))\n", strings.Join(e.strs, " "))
	}
	for _, a := range as {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	b.WriteString("(check-sat)\n(pop)\n")
	st := time.Now()
	io.WriteString(s.in, b.String())
	line, err := s.out.ReadString('\n')
	smtTime += time.Since(st)
	smtQueries++
	if err != nil {
		// the solver died (memory limit): restart and give up on the query
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.start()
		smtUnknown++
		s.cache[k] = resUnk
		return resUnk
	}
	r := resUnk
	switch strings.TrimSpace(line) {
	case "unsat":
		r = resUnsat
	case "sat":
		r = resSat
	case "unknown":
		smtUnknown++
	default:
		fmt.Fprintln(os.Stderr, "z3:", line)
		if solverDebug {
			os.WriteFile("/tmp/z3bad.smt2", []byte(b.String()), 0o644)
		}
		// drain: an error was printed, the answer follows
		for i := 0; i < 50; i++ {
			l2, err := s.out.ReadString('\n')
			if err != nil {
				break
			}
			l2 = strings.TrimSpace(l2)
			if l2 == "sat" || l2 == "unsat" || l2 == "unknown" {
				break
			}
		}
		fatal("solver error: %s", line)
	}
	s.cache[k] = int8(r)
	return r
}

// valid reports whether the facts imply the goal.
func (s *Solver) valid(facts []*Term, goal *Term) bool {
	if goal == True {
		return true
	}
	return s.check(append(append([]*Term{}, facts...), Not(goal))) == resUnsat
}

var _ = types.Typ
