package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Slices are treated as values. That is right as long as no append writes
// into memory which another live slice shows. aliasCheck looks at every append
// of a function and asks that its base is memory the function owns, or is put
// back where it was read from, and that no base is extended twice or written
// to afterwards.
func (ex *Exec) aliasCheck(f *ssa.Function) {
	if ex.aliasDone == nil {
		ex.aliasDone = map[*ssa.Function]bool{}
	}
	if ex.aliasDone[f] {
		return
	}
	top := len(ex.aliasDone) == 0
	ex.aliasDone[f] = true
	info := infoOf(f)
	type site struct {
		in   ssa.Instruction
		base ssa.Value
		res  ssa.Value
	}
	var sites []site
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for _, i := range appendArgs(c) {
				sites = append(sites, site{c, c.Call.Args[i], c})
			}
		}
	}
	for _, s := range sites {
		why := ""
		if isNilConst(s.base) {
			ex.record(nil, "aliasing", ex.where(s.in), true, "")
			continue
		}
		switch {
		case putBack(firstBase(s.base), lastAppend(s.res)):
		case !owned(s.base, map[ssa.Value]bool{}, top):
			why = "the slice appended to may be seen elsewhere"
		default:
			why = shortened(s.base)
			for _, o := range sites {
				if o.in == s.in || o.base != s.base {
					continue
				}
				if mayFollow(info, s.in, o.in) && !redefined(s.base, s.in, o.in, info) {
					why = "the same slice is appended to twice"
				}
			}
			if d, ok := s.base.(ssa.Instruction); ok {
				for _, l := range info.loops {
					if l.blocks[s.in.Block()] && !l.blocks[d.Block()] {
						why = "the same slice is appended to in every round of a loop"
					}
				}
			}
			if rs := s.base.Referrers(); rs != nil {
				for _, r := range *rs {
					if r == s.in || !mayFollow(info, s.in, r) {
						continue
					}
					if redefined(s.base, s.in, r, info) {
						continue
					}
					switch r := r.(type) {
					case *ssa.IndexAddr:
						if stored(r) {
							why = "the slice is written to after it has been appended to"
						}
					case *ssa.Slice:
						if r.High != nil {
							why = "a part of the slice is used after it has been appended to"
						}
					}
				}
			}
		}
		ex.record(nil, "aliasing", ex.where(s.in), why == "", why)
	}
}

// redefined tells a use in a later round of a loop, where the value is a new
// one.
func redefined(v ssa.Value, from, to ssa.Instruction, info *FnInfo) bool {
	d, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if from.Block() == to.Block() {
		for _, in := range from.Block().Instrs {
			if in == from {
				return false
			}
			if in == to {
				break
			}
		}
	}
	// reaches without passing the definition again
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == d.Block() || seen[b] {
			return false
		}
		seen[b] = true
		if b == to.Block() {
			return true
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range from.Block().Succs {
		if walk(s) {
			return false
		}
	}
	return true
}

func inLoop(fi *FnInfo, b *ssa.BasicBlock) bool {
	for _, l := range fi.loops {
		if l.blocks[b] {
			return true
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func stored(a ssa.Value) bool {
	rs := a.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				return true
			}
		case *ssa.UnOp:
		default:
			return true
		}
	}
	return false
}

// appendArgs lists the arguments of a call which are appended to.
func appendArgs(c *ssa.Call) []int {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return []int{0}
		}
		return nil
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return nil
	}
	switch g.String() {
	case "strconv.AppendUint", "strconv.AppendInt", "unicode/utf8.AppendRune", "strconv.AppendQuote", "strconv.AppendFloat":
		return []int{0}
	case "(time.Time).AppendFormat":
		return []int{1}
	}
	return appendParams(g)
}

var appendParamsMemo = map[*ssa.Function][]int{}

// appendParams lists the parameters a function of the package appends to.
func appendParams(g *ssa.Function) []int {
	if r, ok := appendParamsMemo[g]; ok {
		return r
	}
	appendParamsMemo[g] = nil
	if g.Pkg != icsPkg || len(g.Blocks) == 0 {
		return nil
	}
	var out []int
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for _, i := range appendArgs(c) {
				for k, p := range g.Params {
					if derives(c.Call.Args[i], p, map[ssa.Value]bool{}) {
						out = append(out, k)
					}
				}
			}
		}
	}
	appendParamsMemo[g] = out
	return out
}

// derives reports that a slice may share the memory of another.
func derives(v, from ssa.Value, seen map[ssa.Value]bool) bool {
	if v == from {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if derives(e, from, seen) {
				return true
			}
		}
	case *ssa.Slice:
		return derives(v.X, from, seen)
	case *ssa.ChangeType:
		return derives(v.X, from, seen)
	case *ssa.Call:
		for _, i := range appendArgs(v) {
			if derives(v.Call.Args[i], from, seen) {
				return true
			}
		}
	}
	return false
}

// owned reports that the memory of a slice beyond its length belongs to the
// function alone.
func owned(v ssa.Value, seen map[ssa.Value]bool, top bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Parameter:
		return !top // the caller is asked instead
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !owned(e, seen, top) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return owned(v.X, seen, top)
	case *ssa.Convert:
		return true // a copy of a string
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok {
			// a new array, sliced once
			n := 0
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Slice:
					n++
				case *ssa.IndexAddr, *ssa.DebugRef:
				case *ssa.Store:
					if r.Addr != a {
						return false
					}
				default:
					return false
				}
			}
			return n == 1
		}
		// x[:hi] is looked at in shortened
		return owned(v.X, seen, top)
	case *ssa.Call:
		if as := appendArgs(v); len(as) > 0 {
			for _, i := range as {
				if b := v.Call.Args[i]; !owned(b, seen, top) {
					return false
				}
			}
			return true
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append"
		}
		g := v.Call.StaticCallee()
		if g == nil {
			return false
		}
		if g.Pkg != icsPkg {
			return true
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				r, ok := in.(*ssa.Return)
				if !ok {
					continue
				}
				for _, x := range r.Results {
					if _, ok := x.Type().Underlying().(*types.Slice); ok && !owned(x, seen, true) {
						return false
					}
				}
			}
		}
		return true
	case *ssa.Extract:
		return owned(v.Tuple, seen, top)
	case *ssa.UnOp: // a load
		a, ok := v.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != a || !owned(r.Val, seen, top) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return false
}

// putBack reports x = append(x, ...) for a variable in memory.
func putBack(base, res ssa.Value) bool {
	l, ok := base.(*ssa.UnOp)
	if !ok {
		return false
	}
	rs := res.Referrers()
	if rs == nil {
		return false
	}
	if !unchangedUntil(l, res) {
		return false
	}
	n := 0
	for _, r := range *rs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val != res || !samePlace(r.Addr, l.X) {
				return false
			}
			n++
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return n == 1
}

// unchangedUntil reports that a variable is not written between its load and
// the append of the loaded value.
func unchangedUntil(l *ssa.UnOp, res ssa.Value) bool {
	to, ok := res.(ssa.Instruction)
	if !ok || to.Block() != l.Block() {
		return false
	}
	on := false
	for _, in := range l.Block().Instrs {
		if in == ssa.Instruction(l) {
			on = true
			continue
		}
		if in == to {
			return true
		}
		if !on {
			continue
		}
		switch in := in.(type) {
		case *ssa.Store:
			if samePlace(in.Addr, l.X) {
				return false
			}
		case *ssa.Call:
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok && in.Call.StaticCallee() == nil && !in.Call.IsInvoke() {
				return false
			}
			if _, ok := in.Call.Value.(*ssa.MakeClosure); ok {
				return false
			}
		}
	}
	return false
}

// firstBase is the slice a nest of appends starts from.
func firstBase(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok && onlyUse(c) != nil {
		if as := appendArgs(c); len(as) == 1 {
			return firstBase(c.Call.Args[as[0]])
		}
	}
	return v
}

// lastAppend is the outermost append of a nest.
func lastAppend(v ssa.Value) ssa.Value {
	if c, ok := onlyUse(v).(*ssa.Call); ok {
		if as := appendArgs(c); len(as) == 1 && c.Call.Args[as[0]] == v {
			return lastAppend(c)
		}
	}
	return v
}

// onlyUse is the one instruction which uses a value.
func onlyUse(v ssa.Value) ssa.Instruction {
	var use ssa.Instruction
	if rs := v.Referrers(); rs != nil {
		for _, r := range *rs {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			if use != nil {
				return nil
			}
			use = r
		}
	}
	return use
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	y, ok := b.(*ssa.FieldAddr)
	return ok && x.Field == y.Field && samePlace(x.X, y.X)
}

// shortened looks at slices which are cut and then appended to, overwriting
// elements: what overwrites must not be seen through the longer slice.
func shortened(base ssa.Value) string {
	web := map[ssa.Value]bool{}
	var appends []*ssa.Call
	cut := false
	var join func(v ssa.Value)
	join = func(v ssa.Value) {
		if web[v] || isNilConst(v) {
			return
		}
		web[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				join(e)
			}
		case *ssa.Slice:
			if _, ok := v.X.Type().Underlying().(*types.Slice); ok {
				join(v.X)
			}
			if v.High != nil {
				if _, ok := v.X.(*ssa.Alloc); !ok {
					cut = true
				}
			}
		case *ssa.Call:
			as := appendArgs(v)
			for _, i := range as {
				join(v.Call.Args[i])
			}
			if len(as) > 0 {
				appends = append(appends, v)
			}
		}
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				switch r := r.(type) {
				case *ssa.Phi:
					join(r)
				case *ssa.Slice:
					join(r)
				case *ssa.Call:
					for _, i := range appendArgs(r) {
						if r.Call.Args[i] == v {
							join(r)
						}
					}
				}
			}
		}
	}
	join(base)
	if !cut {
		return ""
	}
	for w := range web {
		rs := w.Referrers()
		if rs == nil {
			continue
		}
		for _, r := range *rs {
			if v, ok := r.(ssa.Value); ok && web[v] {
				if c, ok := r.(*ssa.Call); !ok || len(c.Call.Args) < 2 || c.Call.Args[len(c.Call.Args)-1] != w {
					continue
				}
			}
			switch r := r.(type) {
			case *ssa.DebugRef, *ssa.Convert, *ssa.Range:
			case *ssa.IndexAddr:
				if stored(r) {
					return "a slice which is cut and appended to is written to"
				}
			case *ssa.Call:
				if g := r.Call.StaticCallee(); g != nil && g.Pkg == icsPkg {
					return "a slice which is cut and appended to is passed on"
				}
			default:
				return "a slice which is cut and appended to is kept"
			}
			info := infoOf(r.Parent())
			for _, a := range appends {
				if ssa.Value(a) != w && ssa.Instruction(a) != r && a.Block() != nil && mayFollow(info, a, r) && !redefined(w, a, r, info) {
					return "a slice is used after a part of it has been overwritten"
				}
			}
		}
	}
	return ""
}

// mayFollow reports that b may run after a.
func mayFollow(info *FnInfo, a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return inLoop(info, a.Block())
			}
		}
	}
	return info.reach[a.Block()][b.Block()]
}
