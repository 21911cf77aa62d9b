package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specRes struct {
	vals []*Term
	w    *Term
	sig  *types.Tuple
}

// runSpec evaluates a specification function in a state, threading the world if it has events.
func (e *Env) runSpec(fn *ssa.Function, args []V, st State) *specRes {
	// loop templates see the memory of the loop itself
	if e.eventSpec(fn) && (!strings.HasPrefix(fn.Name(), "loop_") || e.recursiveSpec(fn)) {
		st = e.worldState(st)
	}
	v, st2 := e.specCallSt(fn, args, st, e.fuel)
	return &specRes{vals: e.terms(v), w: st2.w, sig: fn.Signature.Results()}
}

func (e *Env) specCall(fn *ssa.Function, args []V, st State) V {
	if e.eventSpec(fn) {
		st = e.worldState(st)
	}
	v, _ := e.specCallSt(fn, args, st, e.fuel)
	return v
}

// worldState: the heap as a function of the world token only.
func (e *Env) worldState(st State) State {
	loc := st.loc
	if loc == nil {
		loc = st.heap
	}
	s := e.worldState0(st)
	s.loc = loc
	return s
}

func (e *Env) worldState0(st State) State {
	if st.heap.name == "world" && st.heap.kind == hHavoc && st.heap.wtok == st.w || st.heap == e.entry.heap {
		return st
	}
	return e.heapOfWorld(st.w)
}

func (e *Env) heapOfWorld(w *Term) State {
	if w == e.entry.w {
		return e.entry
	}
	if s, ok := e.worldHeaps[w.id]; ok {
		return s
	}
	al := TApp("w.alloc", SInt, w)
	e.assert(TLe(e.entry.alloc, al))
	h := e.newHeap(&Heap{kind: hHavoc, parent: e.entry.heap, name: "world", wtok: w, alloc: al,
		affects: func(k string) bool { return !strings.HasPrefix(k, "lock.") },
		newArr:  func(k *KeyInfo) *Term { return TApp("hk."+k.name, k.arrSort(), w) },
		frame: func(k *KeyInfo) []FrameOpt {
			if stableKey(k.name) || localElems[k.name] {
				if k.level == 0 || immutableKeys[k.name] {
					return []FrameOpt{{g: TTrue()}}
				}
				return []FrameOpt{{g: TTrue(), bound: e.entry.alloc}}
			}
			return nil
		}})
	s := State{heap: h, alloc: al, w: w, mark: &Mark{heap: h, alloc: al, prev: []*Mark{e.entry.mark}}}
	e.worldHeaps[w.id] = s
	return s
}

// sameSpec: two runs of the specification agree (errors are compared by presence).
func (e *Env) sameSpec(a, b *specRes, fn *ssa.Function) *Term {
	if len(a.vals) != len(b.vals) {
		panic("loop spec result shape differs from spec: " + fn.Name())
	}
	var cs []*Term
	i := 0
	// results beside an error are not specified
	noErr := TTrue()
	for j := 0; j < a.sig.Len(); j++ {
		for range e.leaves(a.sig.At(j).Type()) {
			if isErrorT(a.sig.At(j).Type()) && j > 0 {
				noErr = TEq(b.vals[i], TInt(0))
			}
			i++
		}
	}
	i = 0
	for j := 0; j < a.sig.Len(); j++ {
		t := a.sig.At(j).Type()
		for range e.leaves(t) {
			if isErrorT(t) {
				cs = append(cs, TEq(TEq(a.vals[i], TInt(0)), TEq(b.vals[i], TInt(0))))
			} else {
				cs = append(cs, TImp(noErr, TEq(a.vals[i], b.vals[i])))
			}
			i++
		}
	}
	cs = append(cs, TEq(a.w, b.w))
	return TAnd(cs...)
}

func isErrorT(t types.Type) bool {
	return t.String() == "error"
}

func (e *Env) specCallSt(fn *ssa.Function, args []V, st State, fuel int) (V, State) {
	if v, ok := e.specBuiltin(fn, args, st); ok {
		return v, st
	}
	if e.recursiveSpec(fn) {
		return e.specApp(fn, args, st, fuel)
	}
	e.specDepth++
	if e.specDepth > 60 {
		panic("spec recursion too deep: " + fn.String())
	}
	f := &Frame{fn: fn, vals: map[ssa.Value]V{}, spec: true, fuel: fuel, stack: "spec", args: args}
	for i, p := range fn.Params {
		f.vals[p] = args[i]
	}
	r, st2, _ := e.exec(f, st, TTrue())
	e.specDepth--
	return r, st2
}

// specApp: application of a recursive specification function, as an uninterpreted
// function of its arguments and of the heap arrays it reads, unfolded fuel times.
func (e *Env) specApp(fn *ssa.Function, args []V, st State, fuel int) (V, State) {
	ev := e.eventSpec(fn)
	var flat []*Term
	var refs []*Term
	i := 0
	for j, p := range fn.Params {
		ts := e.terms(args[j])
		lv := e.leaves(p.Type())
		for k, t := range ts {
			flat = append(flat, t)
			if lv[k].isRef {
				refs = append(refs, t)
			}
			i++
		}
	}
	var keyArgs []*Term
	fp := map[string]bool{}
	if ev {
		keyArgs = append(keyArgs, st.w)
	} else {
		for _, k := range e.footprint(fn) {
			fp[k.name] = true
			keyArgs = append(keyArgs, e.arr(st.heap, k))
		}
	}
	keyArgs = append(keyArgs, flat...)
	name := "S." + fn.Name()
	mk := func(a []*Term) []*Term {
		var out []*Term
		n := 0
		for j := 0; j < fn.Signature.Results().Len(); j++ {
			for _, l := range e.leaves(fn.Signature.Results().At(j).Type()) {
				out = append(out, TApp(fmt.Sprintf("%s.%d", name, n), l.sort, a...))
				n++
			}
		}
		return out
	}
	res := mk(keyArgs)
	var wOut *Term
	if ev {
		wOut = TApp(name+".w", SInt, keyArgs...)
	}
	var ks strings.Builder
	ks.WriteString(name)
	for _, a := range keyArgs {
		fmt.Fprintf(&ks, "|%d", a.id)
	}
	key := ks.String()
	app := e.apps[key]
	if app == nil {
		app = &App{fn: fn, fuel: 0}
		e.apps[key] = app
		// type facts of results
		n := 0
		for j := 0; j < fn.Signature.Results().Len(); j++ {
			t := fn.Signature.Results().At(j).Type()
			c := len(e.leaves(t))
			if !isErrorT(t) {
				al := st.alloc
				if ev {
					al = TApp("w.alloc", SInt, wOut)
				}
				e.typeFacts(V{T: res[n : n+c]}, t, al)
				if rg := e.ranges[fn]; rg != nil {
					e.assert(TAnd(TLe(TIntS(rg[0]), res[n]), TLe(res[n], TIntS(rg[1]))))
				}
			}
			n += c
		}
		if !ev {
			// frame: relate to earlier closed states
			if st.mark != nil {
				e.frameApp(fn, args, refs, st, res, keyArgs, fp, fuel)
			}
		}
	}
	if fuel > app.fuel {
		app.fuel = fuel
		f := &Frame{fn: fn, vals: map[ssa.Value]V{}, spec: true, fuel: fuel - 1, stack: "spec", args: args}
		for i, p := range fn.Params {
			f.vals[p] = args[i]
		}
		st0 := st
		if ev {
			st0 = e.worldState(st)
		}
		r, st2, _ := e.exec(f, st0, TTrue())
		for i, t := range e.terms(r) {
			e.assert(TEq(res[i], t))
		}
		if ev {
			e.assert(TEq(wOut, st2.w))
		}
	}
	out := st
	if ev {
		out = e.heapOfWorld(wOut)
	}
	return V{T: res}, out
}

func (e *Env) frameApp(fn *ssa.Function, args []V, refs []*Term, st State, res, keyArgs []*Term, fp map[string]bool, fuel int) {
	marks := []*Mark{st.mark}
	for depth := 0; depth < 4 && len(marks) > 0; depth++ {
		var next []*Mark
		hit := false
		for _, m := range marks {
			if m.heap == st.heap {
				e.boundApp(fn, refs, res, m, st)
				next = append(next, m.prev...)
				continue
			}
			same := true
			for k := range fp {
				if e.arr(m.heap, e.keys[k]) != e.arr(st.heap, e.keys[k]) {
					same = false
				}
			}
			if same {
				e.boundApp(fn, refs, res, m, st)
				next = append(next, m.prev...)
				continue
			}
			hit = true
			g := e.onlyFresh(m.heap, st.heap, m.alloc, fp)
			if st.heap.kind == hMerge && isMergeParentMark(st, m) {
				// equality by congruence on the merge condition; just make the application exist
				g = TFalse()
			}
			ms := State{heap: m.heap, alloc: m.alloc, w: st.w, mark: m}
			r2, _ := e.specApp(fn, args, ms, fuel)
			if g.isFalse() {
				continue
			}
			conds := []*Term{g}
			for _, r := range refs {
				conds = append(conds, TLt(r, m.alloc))
			}
			for i := range res {
				e.assert(TImp(TAnd(conds...), TEq(res[i], r2.T[i])))
			}
		}
		if hit {
			return
		}
		marks = next
	}
}

// boundApp: what is reached from objects of an earlier state, through fields that
// have not changed since, is an object of that state.
func (e *Env) boundApp(fn *ssa.Function, refs, res []*Term, m *Mark, st State) {
	if m.alloc == st.alloc {
		return
	}
	var conds []*Term
	for _, r := range refs {
		conds = append(conds, TLt(r, m.alloc))
	}
	n := 0
	for j := 0; j < fn.Signature.Results().Len(); j++ {
		t := fn.Signature.Results().At(j).Type()
		for _, l := range e.leaves(t) {
			if l.isRef && !isErrorT(t) {
				e.assert(TImp(TAnd(conds...), TLt(res[n], m.alloc)))
			}
			n++
		}
	}
}

func isMergeParentMark(st State, m *Mark) bool {
	return false
}

// ---- static analysis of specification functions -----------------------------

func (e *Env) specCallees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if s := c.Common().StaticCallee(); s != nil {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

func (w *World) isSpecFn(fn *ssa.Function) bool {
	return w.specFns[fn]
}

func (e *Env) recursiveSpec(fn *ssa.Function) bool {
	if r, ok := e.recMemo[fn]; ok {
		return r
	}
	// reachable from itself?
	seen := map[*ssa.Function]bool{}
	var dfs func(x *ssa.Function) bool
	dfs = func(x *ssa.Function) bool {
		for _, c := range e.specCallees(x) {
			if c == fn {
				return true
			}
			if !e.isSpecFn(c) || seen[c] {
				continue
			}
			seen[c] = true
			if dfs(c) {
				return true
			}
		}
		return false
	}
	r := dfs(fn)
	e.recMemo[fn] = r
	return r
}

// eventSpec: does the specification function make opaque calls (evaluation, application)?
func (e *Env) eventSpec(fn *ssa.Function) bool {
	if r, ok := e.evMemo[fn]; ok {
		return r
	}
	e.evMemo[fn] = false
	r := false
	seen := map[*ssa.Function]bool{}
	var dfs func(x *ssa.Function)
	dfs = func(x *ssa.Function) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, c := range e.specCallees(x) {
			if e.eventOf(c) != nil {
				r = true
				return
			}
			if e.isSpecFn(c) {
				dfs(c)
			}
		}
	}
	dfs(fn)
	e.evMemo[fn] = r
	return r
}

// footprint: the heap regions a specification function (transitively) reads.
func (e *Env) footprint(fn *ssa.Function) []*KeyInfo {
	if ks, ok := e.fpMemo[fn]; ok {
		return ks
	}
	set := map[string]*KeyInfo{}
	seen := map[*ssa.Function]bool{}
	add := func(a *Addr) {
		if _, ok := under(a.typ).(*types.Array); ok {
			return
		}
		for _, l := range e.leaves(a.typ) {
			k := e.keyFor(a, l)
			set[k.name] = k
		}
	}
	var addrOf func(v ssa.Value) *Addr
	addrOf = func(v ssa.Value) *Addr {
		et := v.Type().Underlying().(*types.Pointer).Elem()
		switch v := v.(type) {
		case *ssa.Global:
			return &Addr{global: v, prefix: "g." + v.Name(), typ: et}
		case *ssa.FieldAddr:
			st := v.X.Type().Underlying().(*types.Pointer).Elem()
			b := addrOf(v.X)
			fl := under(st).(*types.Struct).Field(v.Field)
			return &Addr{base: b.base, idx: b.idx, global: b.global, prefix: b.prefix + "." + fl.Name(), typ: fl.Type()}
		case *ssa.IndexAddr:
			if stt, ok := v.X.Type().Underlying().(*types.Slice); ok {
				return &Addr{base: TInt(0), idx: TInt(0), prefix: "elem." + e.typeStr(stt.Elem()), typ: stt.Elem()}
			}
		}
		return &Addr{base: TInt(0), prefix: e.typeKey(et), typ: et}
	}
	var dfs func(x *ssa.Function)
	dfs = func(x *ssa.Function) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op.String() == "*" {
						add(addrOf(in.X))
					}
				case *ssa.Lookup:
					if mt, ok := under(in.X.Type()).(*types.Map); ok {
						for _, k := range e.mapKeys(mt) {
							set[k.name] = k
						}
					}
				}
			}
		}
		for _, c := range e.specCallees(x) {
			if e.isSpecFn(c) {
				if b := e.specBuiltinFootprint(c); b != nil {
					for _, k := range b {
						set[k.name] = k
					}
					continue
				}
				dfs(c)
			}
		}
	}
	dfs(fn)
	var out []*KeyInfo
	for _, k := range sortedKeysKI(set) {
		out = append(out, set[k])
	}
	e.fpMemo[fn] = out
	return out
}
