package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EventSpec: a call treated as an opaque step of the outside world.
type EventSpec struct {
	name string
	// argument abstraction per parameter: "v" value, "-" ignored, "l" list contents (sequence), "s" slice contents
	args  string
	fresh bool // the result is a freshly allocated object
	pure  bool // reads the world, does not change it
}

func (e *Env) eventOf(fn *ssa.Function) *EventSpec {
	n := e.shortFn(fn.String())
	if e.isSpecFn(fn) {
		return e.aliases[fn]
	}
	if e.rootC != nil && e.functional() {
		if ev, ok := e.rootC.events[n]; ok {
			return ev
		}
	}
	if ev, ok := e.events[n]; ok {
		if e.rootC != nil && (e.rootC.notEvents[n] || e.rootC.inline[n]) && e.functional() {
			return nil
		}
		// reading the world is specified outright
		if c := e.contracts[n]; ev.pure && c != nil && c.spec != nil && e.functional() {
			return nil
		}
		return ev
	}
	return nil
}

func (e *Env) execCall(f *Frame, in *ssa.Call, st State, pc *Term) (State, *Term) {
	res, st2, pc2 := e.doCall(f, &in.Call, in.Pos(), st, pc, in)
	f.vals[in] = res
	return st2, pc2
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (e *Env) doCall(f *Frame, c *ssa.CallCommon, pos token.Pos, st State, pc *Term, instr ssa.Value) (V, State, *Term) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(f, b, c, pos, st, pc)
	}
	if c.IsInvoke() {
		recv := f.get(e, c.Value)
		var args []*Term
		args = append(args, recv.T[0])
		for _, a := range c.Args {
			args = append(args, e.terms(f.get(e, a))...)
		}
		e.oblig(f, "nil", "method call on nil interface", pos, pc, TNot(TEq(recv.T[0], TInt(0))))
		e.trusted["interface method "+c.Method.Name()] = true
		return e.uf("invoke."+c.Method.Name(), resultType(c), st, args...), st, pc
	}
	var args []V
	for _, a := range c.Args {
		args = append(args, f.get(e, a))
	}
	fn := c.StaticCallee()
	var free []V
	if fn == nil {
		cv := f.get(e, c.Value)
		if cv.clo != nil {
			fn = cv.clo.fn
			free = cv.clo.free
		}
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		cv := f.get(e, mc)
		if cv.clo != nil {
			free = cv.clo.free
		}
	}
	if fn == nil {
		// dynamic call: opaque event
		cv := f.get(e, c.Value)
		e.bodyOblig(f, c, args, pos, pc)
		e.oblig(f, "nil", "call of nil function", pos, pc, TNot(TEq(cv.T[0], TInt(0))))
		var sb strings.Builder
		for range args {
			sb.WriteByte('v')
		}
		spec := sb.String()
		name := "dyncall"
		if strings.HasPrefix(f.fn.Name(), "Apply") && e.isPrimBody(c.Signature()) {
			spec = "lv"
			name = "primbody"
		} else if e.isPrimBody(c.Signature()) {
			spec = "lv"
			name = "primbody"
		}
		if name == "dyncall" && isPureMathSig(c.Signature()) {
			return e.uf("dyn.pure", resultType(c), st, append([]*Term{cv.T[0]}, flatten(e, args)...)...), st, pc
		}
		return e.event(f, &EventSpec{name: name, args: "v" + spec}, append([]V{cv}, args...), nil, resultType(c), st, pc)
	}
	return e.callFn(f, fn, args, free, resultType(c), pos, st, pc)
}

func isPureMathSig(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		if !isFloat(s.Params().At(i).Type()) {
			return false
		}
	}
	return s.Results().Len() == 1 && isFloat(s.Results().At(0).Type())
}

func (e *Env) isPrimBody(s *types.Signature) bool {
	return s.Params().Len() == 2 && s.Results().Len() == 2 && e.typeStr(s.Params().At(0).Type()) == "*Data"
}

func flatten(e *Env, vs []V) []*Term {
	var out []*Term
	for _, v := range vs {
		out = append(out, e.terms(v)...)
	}
	return out
}

func (e *Env) callFn(f *Frame, fn *ssa.Function, args []V, free []V, rt types.Type, pos token.Pos, st State, pc *Term) (V, State, *Term) {
	short := e.shortFn(fn.String())
	if f.spec {
		if ev := e.eventOf(fn); ev != nil {
			return e.event(f, ev, args, fn, rt, st, pc)
		}
		if e.isSpecFn(fn) {
			v, st2 := e.specCallSt(fn, args, st, f.fuel)
			return v, st2, pc
		}
		if v, st2, ok := e.intrinsic(f, fn, args, rt, pos, &st, &pc); ok {
			return v, st2, pc
		}
		if len(fn.Blocks) == 0 || fn.Pkg != e.pkg {
			return e.external(f, fn, args, rt, pos, st, pc)
		}
		panic("specification calls real code: " + fn.String())
	}
	if e.isSpecFn(fn) {
		v, st2 := e.specCallSt(fn, args, st, e.fuel)
		return v, st2, pc
	}
	if fn.Pkg == e.pkg {
		if ev := e.eventOf(fn); ev != nil {
			st = e.flushAll(f, st, pc)
			e.callPre(f, fn, args, pos, st, pc)
			e.lockFree(f, fn, pos, pc, st)
			e.bindCallOblig(f, short, fn, args, pos, pc, st)
			res, st2, pc2 := e.event(f, ev, args, fn, rt, st, pc)
			if c := e.contracts[short]; c != nil {
				pargs := append(append([]V{}, args...), e.splitBy(res.T, fn.Signature.Results())...)
				for _, p := range c.post {
					if len(p.Params) == len(pargs) {
						e.usedCtr[c.name] = true
						e.assume(pc, e.specCall(p, pargs, st2).T[0])
					}
				}
			}
			return res, st2, pc2
		}
		if c := e.contractFor(fn); c != nil && !(e.rootC != nil && e.rootC.inline[short]) {
			st = e.flushAll(f, st, pc)
			return e.applyContract(f, c, fn, args, rt, pos, st, pc)
		}
		if len(fn.Blocks) > 0 && f.depth < 14 && !strings.Contains(f.stack+"/", "/"+fn.Name()+"@") && fn != e.root {
			e.inlined[short] = true
			g := &Frame{fn: fn, vals: map[ssa.Value]V{}, depth: f.depth + 1, free: free, args: args, parent: f, stack: fmt.Sprintf("%s/%s@%d", f.stack, fn.Name(), e.callSite(f, pos))}
			for i, p := range fn.Params {
				g.vals[p] = args[i]
			}
			r, st2, pc2 := e.exec(g, st, pc)
			return r, st2, pc2
		}
		// recursion or depth without a contract: the default contract
		st = e.flushAll(f, st, pc)
		e.notes["default contract used for "+short] = true
		e.lockFree(f, fn, pos, pc, st)
		return e.havocCall(f, short, rt, st, pc)
	}
	if v, st2, ok := e.intrinsic(f, fn, args, rt, pos, &st, &pc); ok {
		return v, st2, pc
	}
	return e.external(f, fn, args, rt, pos, st, pc)
}

func (e *Env) callSite(f *Frame, pos token.Pos) int {
	k := f.stack
	m := e.siteIdx[k]
	if m == nil {
		m = map[token.Pos]int{}
		e.siteIdx[k] = m
	}
	if n, ok := m[pos]; ok {
		return n
	}
	m[pos] = len(m)
	return m[pos]
}

// havocCall: the default contract: nothing pre-existing in list structure changes, anything else may.
func (e *Env) havocCall(f *Frame, name string, rt types.Type, st State, pc *Term) (V, State, *Term) {
	w := TFresh("w.havoc", SInt)
	st2 := e.afterEvent(st, w, pc)
	return e.freshV("ret."+name, rt, st2), st2, pc
}

// afterEvent: state after an opaque step that leads to world w.
func (e *Env) afterEvent(st State, w, pc *Term) State {
	al := TApp("w.alloc", SInt, w)
	e.assert(TLe(st.alloc, al))
	bound := st.alloc
	h := e.newHeap(&Heap{kind: hHavoc, parent: st.heap, name: "world", wtok: w, alloc: al, priv: st.dirty,
		affects: func(k string) bool { return !strings.HasPrefix(k, "lock.") },
		newArr:  func(k *KeyInfo) *Term { return TApp("hk."+k.name, k.arrSort(), w) },
		frame: func(k *KeyInfo) []FrameOpt {
			if stableKey(k.name) || immutableKeys[k.name] || localElems[k.name] {
				if k.level == 0 {
					return []FrameOpt{{g: pc}}
				}
				return []FrameOpt{{g: pc, bound: bound}}
			}
			return nil
		}})
	out := State{heap: h, alloc: al, w: w, dirty: st.dirty}
	out.mark = &Mark{heap: h, alloc: al, prev: []*Mark{{heap: st.heap, alloc: st.alloc, prev: []*Mark{st.mark}}}}
	return out
}

func (e *Env) event(f *Frame, ev *EventSpec, args []V, fn *ssa.Function, rt types.Type, st State, pc *Term) (V, State, *Term) {
	ts := []*Term{st.w}
	for i, a := range args {
		m := byte('v')
		if i < len(ev.args) {
			m = ev.args[i]
		}
		switch m {
		case '-':
		case 'l':
			if !e.functional() {
				continue
			}
			e.seqTouched = true
			sq, _ := e.specCallSt(e.specByName("listOf"), []V{a}, st, e.fuelFor(f))
			ts = append(ts, sq.T[0])
		case 'n': // any of the empty-list values counts as nil
			ts = append(ts, e.nz(e.terms(a)[0]))
		case 's':
			if !e.functional() {
				continue
			}
			e.seqTouched = true
			ts = append(ts, e.sliceSeq(a, e.elemTypeOf(fn, i), st))
		default:
			ts = append(ts, e.terms(a)...)
		}
	}
	st2 := st
	if !ev.pure {
		w := TApp("ev.next."+ev.name, SInt, ts...)
		st2 = e.afterEvent(st, w, pc)
	} else if !e.functional() {
		// nothing changes, but whatever comes out of a table is a complete value
		h := e.newHeap(&Heap{kind: hHavoc, parent: st.heap, name: "E", alloc: st.alloc, priv: st.dirty, affects: func(string) bool { return false }})
		h.newArr = func(k *KeyInfo) *Term { return TFresh("E."+k.name, k.arrSort()) }
		h.frame = func(k *KeyInfo) []FrameOpt { return []FrameOpt{{g: TTrue()}} }
		st2.heap = h
	}
	var out []*Term
	for i, l := range e.leaves(rt) {
		out = append(out, TApp(fmt.Sprintf("ev.res.%s#%d", ev.name, i), l.sort, ts...))
	}
	v := V{T: out}
	e.typeFacts(v, rt, st2.alloc)
	if ev.fresh {
		e.assert(TLe(st.alloc, out[0]))
	}
	e.eventsUsed[ev.name] = true
	return v, st2, pc
}

func (e *Env) fuelFor(f *Frame) int {
	if f != nil && f.spec {
		return f.fuel
	}
	return e.fuel
}

func (e *Env) elemTypeOf(fn *ssa.Function, i int) types.Type {
	return sigParams(fn)[i].Underlying().(*types.Slice).Elem()
}

func (e *Env) functional() bool { return e.kinds["post"] }

// nonNilParam: receivers and environments are not nil.
func (e *Env) nonNilParam(fn *ssa.Function, c *Contract, i int, t types.Type) bool {
	if c != nil && c.nilable {
		return false
	}
	return i == 0 && fn.Signature.Recv() != nil || e.typeStr(t) == "*SymbolTableFrame"
}

func (e *Env) nonNilArgs(f *Frame, fn *ssa.Function, c *Contract, args []V, pos token.Pos, pc *Term) {
	if f.spec {
		return
	}
	for i, t := range sigParams(fn) {
		if i < len(args) && e.nonNilParam(fn, c, i, t) {
			if ts := e.terms(args[i]); len(ts) == 1 && e.leaves(t)[0].isRef {
				e.oblig(f, "nil", "receiver or environment of "+e.shortFn(fn.String())+" is not nil", pos, pc, TNot(TEq(ts[0], TInt(0))))
			}
		}
	}
}

// lockFree: a call that may take locks is made while this call holds none
// (for functions marked underlock: none for writing).
func (e *Env) lockFree(f *Frame, fn *ssa.Function, pos token.Pos, pc *Term, st State) {
	if f.spec || len(e.lockSites) == 0 {
		return
	}
	c := e.contracts[e.shortFn(fn.String())]
	under := c != nil && (c.underLock || c.noLock)
	if c != nil && c.noLock {
		return
	}
	var cs []*Term
	for _, ls := range e.lockSites {
		v := e.read(ls.k, ls.base, nil, st)
		if under {
			cs = append(cs, TLe(TInt(0), v))
		} else {
			cs = append(cs, TEq(v, e.read(ls.k, ls.base, nil, e.entry)))
		}
	}
	e.oblig(f, "lock", "no lock is held while calling "+e.shortFn(fn.String()), pos, pc, TAnd(cs...))
}

// callPre checks the callee's precondition, if it has one.
func (e *Env) callPre(f *Frame, fn *ssa.Function, args []V, pos token.Pos, st State, pc *Term) {
	c := e.contracts[e.shortFn(fn.String())]
	e.nonNilArgs(f, fn, c, args, pos, pc)
	if c == nil {
		return
	}
	for _, p := range c.pre {
		r := e.specCall(p, args, st)
		e.oblig(f, "pre", "precondition "+p.Name()+" of "+c.name, pos, pc, r.T[0])
	}
}

func (e *Env) contractFor(fn *ssa.Function) *Contract {
	c := e.contracts[e.shortFn(fn.String())]
	if c == nil || c.rootOnly {
		return nil
	}
	return c
}

func (e *Env) applyContract(f *Frame, c *Contract, fn *ssa.Function, args []V, rt types.Type, pos token.Pos, st State, pc *Term) (V, State, *Term) {
	e.usedCtr[c.name] = true
	e.nonNilArgs(f, fn, c, args, pos, pc)
	e.lockFree(f, fn, pos, pc, st)
	for _, p := range c.pre {
		r := e.specCall(p, args, st)
		e.oblig(f, "pre", "precondition "+p.Name()+" of "+c.name, pos, pc, r.T[0])
	}
	st0 := st
	var sr *specRes
	var stSpec State
	if c.spec != nil {
		ss := st
		if e.eventSpec(c.spec) {
			ss = e.worldState(st)
		}
		v, s2 := e.specCallSt(c.spec, args, ss, e.fuel)
		sr = &specRes{vals: e.terms(v), w: s2.w, sig: c.spec.Signature.Results()}
		stSpec = s2
	}
	if c.opaque {
		// result unspecified; nothing visible changes
		al := TFresh("alloc.op", SInt)
		e.assert(TLe(st.alloc, al))
		st.alloc = al
		return e.freshV("ret."+fn.Name(), rt, st), st, pc
	}
	var st2 State
	switch {
	case sr != nil && e.eventSpec(c.spec):
		st2 = e.afterEvent(st, sr.w, pc)
	case c.pure:
		st2 = st
	default:
		al := TFresh("alloc.c", SInt)
		e.assert(TLe(st.alloc, al))
		bound := st.alloc
		var excl []*Term
		if c.mods != nil {
			mv := e.specCall(c.mods, args, st0)
			excl = mv.T
			for _, m := range c.modKeys {
				for _, x := range excl {
					e.frameObligRef(f, m, x, pos, pc)
				}
			}
		}
		for _, m := range c.modAny {
			e.frameObligAny(f, m, pos, pc)
		}
		h := e.newHeap(&Heap{kind: hHavoc, parent: st.heap, name: "C", alloc: al, priv: st.dirty})
		h.affects = func(k string) bool { return !strings.HasPrefix(k, "lock.") }
		h.newArr = func(k *KeyInfo) *Term { return TFresh("C."+k.name, k.arrSort()) }
		h.frame = func(k *KeyInfo) []FrameOpt {
			if c.modifiesKeyAny(k.name) && !immutableKeys[k.name] {
				return nil
			}
			if c.modifiesKey(k.name) {
				return []FrameOpt{{g: TTrue(), bound: bound, excl: excl}}
			}
			if k.level == 0 {
				return []FrameOpt{{g: TTrue()}}
			}
			return []FrameOpt{{g: TTrue(), bound: bound}}
		}
		st2 = State{heap: h, alloc: al, w: st.w, dirty: st.dirty}
		st2.mark = &Mark{heap: h, alloc: al, prev: []*Mark{{heap: st.heap, alloc: st.alloc, prev: []*Mark{st.mark}}}}
	}
	_ = stSpec
	if len(c.post) == 0 && sr != nil {
		// definitional: results are the specification's
		var out []*Term
		i := 0
		noErr := TTrue()
		for j := 0; j < sr.sig.Len(); j++ {
			for range e.leaves(sr.sig.At(j).Type()) {
				if isErrorT(sr.sig.At(j).Type()) && j > 0 {
					noErr = TEq(sr.vals[i], TInt(0))
				}
				i++
			}
		}
		i = 0
		for j := 0; j < sr.sig.Len(); j++ {
			t := sr.sig.At(j).Type()
			for k := range e.leaves(t) {
				if !noErr.isTrue() && !isErrorT(t) {
					if k == 0 {
						fv := e.freshV("res."+fn.Name(), t, st2)
						for q, x := range fv.T {
							e.assert(TImp(noErr, TEq(x, sr.vals[i+q])))
						}
						out = append(out, fv.T...)
					}
					i++
					continue
				}
				if isErrorT(t) {
					er := TFresh("err."+fn.Name(), SInt)
					e.assert(TAnd(TLe(TInt(0), er), TEq(TEq(er, TInt(0)), TEq(sr.vals[i], TInt(0)))))
					out = append(out, er)
				} else {
					out = append(out, sr.vals[i])
					if e.leaves(t)[k].isRef { // the function returns a value of its type
						e.assert(TImp(pc, TAnd(TLe(TInt(0), sr.vals[i]), TLt(sr.vals[i], st2.alloc))))
					}
				}
				i++
			}
		}
		return V{T: out}, st2, pc
	}
	res := e.freshV("ret."+fn.Name(), rt, st2)
	pargs := append([]V{}, args...)
	if sr != nil {
		pargs = append(pargs, e.splitBy(sr.vals, sr.sig)...)
	}
	pargs = append(pargs, e.splitBy(res.T, fn.Signature.Results())...)
	fb := e.freshBound
	e.freshBound = st.alloc
	for _, p := range c.post {
		r := e.specCall(p, pargs, st2)
		e.assume(pc, r.T[0])
	}
	e.freshBound = fb
	return res, st2, pc
}

func (e *Env) splitBy(ts []*Term, sig *types.Tuple) []V {
	var out []V
	i := 0
	for j := 0; j < sig.Len(); j++ {
		n := len(e.leaves(sig.At(j).Type()))
		out = append(out, V{T: ts[i : i+n]})
		i += n
	}
	return out
}

// ---- builtins ----------------------------------------------------------------

func (e *Env) builtin(f *Frame, b *ssa.Builtin, c *ssa.CallCommon, pos token.Pos, st State, pc *Term) (V, State, *Term) {
	var args []V
	for _, a := range c.Args {
		args = append(args, f.get(e, a))
	}
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type()
		switch u := under(t).(type) {
		case *types.Basic:
			e.strFacts(args[0].T[0])
			return v1(e.slen(args[0].T[0])), st, pc
		case *types.Slice:
			if b.Name() == "cap" {
				return v1(args[0].T[3]), st, pc
			}
			return v1(args[0].T[2]), st, pc
		case *types.Map:
			e.mapAccess(f, c.Args[0], args[0], u, false, pos, pc, st)
			k := e.mapKeyLen(t)
			n := e.read(k, args[0].T[0], nil, st)
			e.assert(TLe(TInt(0), n))
			return v1(TIte(TEq(args[0].T[0], TInt(0)), TInt(0), n)), st, pc
		case *types.Chan:
			if b.Name() == "cap" {
				r := TApp("chan.cap", SInt, args[0].T[0])
				return v1(r), st, pc
			}
			r := e.uf("chan.len", types.Typ[types.Int], st, st.w, args[0].T[0])
			return r, st, pc
		case *types.Pointer:
			return v1(TInt(under(u.Elem()).(*types.Array).Len())), st, pc
		case *types.Array:
			return v1(TInt(u.Len())), st, pc
		}
	case "append":
		return e.doAppend(f, c, args, pos, st, pc)
	case "copy":
		return e.doCopy(f, c, args, pos, st, pc)
	case "delete":
		mt := c.Args[0].Type()
		m := args[0].T[0]
		e.mapAccess(f, c.Args[0], args[0], under(mt).(*types.Map), true, pos, pc, st)
		e.frameOblig(f, &Addr{base: m, prefix: "map." + e.typeStr(mt), typ: types.Typ[types.Int]}, pos, pc, st)
		kk := args[1].T[0]
		kh := e.mapKeyHas(mt)
		kl := e.mapKeyLen(mt)
		has := e.read(kh, m, kk, st)
		n := e.read(kl, m, nil, st)
		e.assert(TImp(has, TLt(TInt(0), n)))
		st.heap = e.hStore(st.heap, kh.name, m, kk, TFalse())
		st.heap = e.hStore(st.heap, kl.name, m, nil, TIte(has, TSub(n, TInt(1)), n))
		return V{}, st, pc
	case "close":
		e.chanOblig(f, "close", args[0].T[0], pos, pc, st)
		return e.event(f, &EventSpec{name: "close", args: "v"}, args, nil, types.NewTuple(), st, pc)
	case "print", "println":
		return V{}, st, pc
	case "recover":
		return v1(TInt(0)), st, pc
	case "ssa:wrapnilchk":
		return args[0], st, pc
	case "min", "max":
		r := args[0].T[0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = TIte(TLt(a.T[0], r), a.T[0], r)
			} else {
				r = TIte(TLt(r, a.T[0]), a.T[0], r)
			}
		}
		return v1(r), st, pc
	}
	panic("builtin " + b.Name())
}

// ---- slices ------------------------------------------------------------------

func seqElem(et types.Type, e *Env) bool {
	l := e.leaves(et)
	return len(l) == 1 && l[0].sort == SInt
}

func (e *Env) elemKey(et types.Type) *KeyInfo {
	return e.keyFor(&Addr{base: TInt(0), idx: TInt(0), prefix: "elem." + e.typeStr(et), typ: et}, e.leaves(et)[0])
}

func (e *Env) inner(base *Term, et types.Type, st State) *Term {
	k := e.elemKey(et)
	e.instFrame(st.heap, k, base, nil)
	return TSelect(e.arr(st.heap, k), base)
}

func TSeqEmpty() *Term       { return tp.mk("(as seq.empty (Seq Int))", SSeq) }
func TSeqUnit(x *Term) *Term { return tp.mk("seq.unit", SSeq, x) }
func TSeqCat(as ...*Term) *Term {
	// empties dropped, nested to the right
	var out []*Term
	var add func(a *Term)
	add = func(a *Term) {
		if a == TSeqEmpty() {
			return
		}
		if a.op == "seq.++" {
			add(a.args[0])
			add(a.args[1])
			return
		}
		out = append(out, a)
	}
	for _, a := range as {
		add(a)
	}
	if len(out) == 0 {
		return TSeqEmpty()
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = tp.mk("seq.++", SSeq, out[i], r)
	}
	return r
}
func TSeqLen(s *Term) *Term { return tp.mk("seq.len", SInt, s) }

// elemOf is an element as it appears in a sequence: list values that are empty count as nil.
func (e *Env) elemOf(et types.Type, x *Term) *Term {
	if e.typeStr(et) == "*Data" {
		return e.nz(x)
	}
	return x
}

func (e *Env) nz(x *Term) *Term {
	if x.isIntLit() {
		return x
	}
	return TIte(e.emp(x), TInt(0), x)
}

// slSeq is the sequence of the n elements of inner from off.
func (e *Env) slSeq(et types.Type, inner, off, n *Term) *Term {
	if n.op == "0" {
		return TSeqEmpty()
	}
	t := TApp("sl.seq."+e.typeStr(et), SSeq, inner, off, n)
	if !e.seqDone[t.id] {
		e.seqDone[t.id] = true
		e.assert(TImp(TLe(n, TInt(0)), TEq(t, TSeqEmpty())))
		e.assert(TImp(TLe(TInt(0), n), TEq(TSeqLen(t), n)))
		if n.op == "1" {
			e.assert(TEq(t, TSeqUnit(e.elemOf(et, TSelect(inner, off)))))
		}
	}
	return t
}

func (e *Env) sliceSeq(s V, et types.Type, st State) *Term {
	return e.slSeq(et, e.inner(s.T[0], et, st), s.T[1], s.T[2])
}

// idxFacts: the element at i splits the sequence of the slice.
func (e *Env) idxFacts(s V, i *Term, et types.Type, st State) {
	if !e.useSeq || !seqElem(et, e) {
		return
	}
	in := e.inner(s.T[0], et, st)
	off, n := s.T[1], s.T[2]
	ok := TAnd(TLe(TInt(0), i), TLt(i, n))
	e.split(et, in, off, n, i, ok)
	i1 := TAdd(i, TInt(1))
	e.split(et, in, off, n, i1, ok)
	x := TSeqUnit(e.elemOf(et, TSelect(in, TAdd(off, i))))
	e.assert(TImp(ok, TEq(e.slSeq(et, in, off, i1), TSeqCat(e.slSeq(et, in, off, i), x))))
	e.assert(TImp(ok, TEq(e.slSeq(et, in, TAdd(off, i), TSub(n, i)), TSeqCat(x, e.slSeq(et, in, TAdd(off, i1), TSub(n, i1))))))
}

// split: the sequence of n elements from off, cut at i.
func (e *Env) split(et types.Type, in, off, n, i, ok *Term) {
	if i.op == "0" || i == n {
		return
	}
	e.assert(TImp(ok, TEq(e.slSeq(et, in, off, n), TSeqCat(e.slSeq(et, in, off, i), e.slSeq(et, in, TAdd(off, i), TSub(n, i))))))
}

// setFacts: storing element i changes nothing before it and nothing after it.
func (e *Env) setFacts(s V, i *Term, et types.Type, old, st State) {
	if !e.useSeq || !seqElem(et, e) {
		return
	}
	in0, in1 := e.inner(s.T[0], et, old), e.inner(s.T[0], et, st)
	off, n := s.T[1], s.T[2]
	e.idxFacts(s, i, et, old)
	e.idxFacts(s, i, et, st)
	ok := TAnd(TLe(TInt(0), i), TLt(i, n))
	i1 := TAdd(i, TInt(1))
	e.assert(TImp(ok, TEq(e.slSeq(et, in0, off, i), e.slSeq(et, in1, off, i))))
	e.assert(TImp(ok, TEq(e.slSeq(et, in0, TAdd(off, i1), TSub(n, i1)), e.slSeq(et, in1, TAdd(off, i1), TSub(n, i1)))))
}

func (e *Env) doAppend(f *Frame, c *ssa.CallCommon, args []V, pos token.Pos, st State, pc *Term) (V, State, *Term) {
	s := args[0]
	et := under(c.Args[0].Type()).(*types.Slice).Elem()
	var n *Term
	var srcInner func(l Leaf, k *KeyInfo) (*Term, *Term)
	if isStringT(c.Args[1].Type()) {
		n = e.slen(args[1].T[0])
		e.strFacts(args[1].T[0])
		srcInner = func(l Leaf, k *KeyInfo) (*Term, *Term) {
			return TApp("str.elems.uint8", arrSort(SInt, l.sort), args[1].T[0]), TInt(0)
		}
	} else {
		n = args[1].T[2]
		x := args[1]
		srcInner = func(l Leaf, k *KeyInfo) (*Term, *Term) {
			e.instFrame(st.heap, k, x.T[0], nil)
			return TSelect(e.arr(st.heap, k), x.T[0]), x.T[1]
		}
	}
	total := TAdd(s.T[2], n)
	inplace := TLe(total, s.T[3])
	if n.op == "0" {
		return s, st, pc
	}
	st1, r := e.newRef(st)
	base := TIte(inplace, s.T[0], r)
	off := TIte(inplace, s.T[1], TInt(0))
	cp := TFresh("cap", SInt)
	e.assert(TAnd(TImp(inplace, TEq(cp, s.T[3])), TLe(total, cp), TLe(TAdd(off, cp), TIntS("9223372036854775807"))))
	// in-place growth writes into the backing array
	e.oblig(f, "frame", "append into backing array", pos, pc, TOr(TNot(inplace), TLe(e.entry.alloc, s.T[0]), TEq(n, TInt(0))))
	h := st.heap
	for _, l := range e.leaves(et) {
		k := e.keyFor(&Addr{base: r, idx: TInt(0), prefix: "elem." + e.typeStr(et), typ: et}, l)
		e.instFrame(st.heap, k, s.T[0], nil)
		old := TSelect(e.arr(st.heap, k), s.T[0])
		si, so := srcInner(l, k)
		var ni *Term
		if n.op == "1" {
			v := TSelect(si, so)
			grown := TFresh("grown", old.sort)
			ni = TIte(inplace, TStore(old, TAdd(s.T[1], s.T[2]), v), TStore(grown, s.T[2], v))
			nn := TFresh("ninner", old.sort)
			e.assert(TEq(nn, ni))
			ni = nn
		} else {
			ni = TFresh("ninner", old.sort)
		}
		if l.sort == SInt && len(e.leaves(et)) == 1 && e.useSeq {
			e.assert(TEq(e.slSeq(et, ni, off, total), TSeqCat(e.slSeq(et, old, s.T[1], s.T[2]), e.slSeq(et, si, so, n))))
			e.assert(TEq(e.slSeq(et, ni, off, s.T[2]), e.slSeq(et, old, s.T[1], s.T[2])))
			// elements before the old backing slice are untouched in place
		}
		h = e.hStore(h, k.name, base, nil, ni)
	}
	st1.heap = h
	return V{T: []*Term{base, off, total, cp}}, st1, pc
}

func (e *Env) doCopy(f *Frame, c *ssa.CallCommon, args []V, pos token.Pos, st State, pc *Term) (V, State, *Term) {
	d := args[0]
	et := under(c.Args[0].Type()).(*types.Slice).Elem()
	var n2 *Term
	var src, soff *Term
	k := e.elemKey(et)
	if isStringT(c.Args[1].Type()) {
		n2 = e.slen(args[1].T[0])
		src, soff = TApp("str.elems.uint8", arrSort(SInt, SInt), args[1].T[0]), TInt(0)
	} else {
		n2 = args[1].T[2]
		src, soff = e.inner(args[1].T[0], et, st), args[1].T[1]
	}
	n := TIte(TLt(d.T[2], n2), d.T[2], n2)
	old := e.inner(d.T[0], et, st)
	e.frameOblig(f, &Addr{base: d.T[0], idx: TInt(0), prefix: "elem." + e.typeStr(et), typ: et}, pos, TAnd(pc, TLt(TInt(0), n)), st)
	ni := TFresh("copied", old.sort)
	if e.useSeq {
		e.assert(TEq(e.slSeq(et, ni, d.T[1], n), e.slSeq(et, src, soff, n)))
		e.assert(TEq(e.slSeq(et, ni, TAdd(d.T[1], n), TSub(d.T[2], n)), e.slSeq(et, old, TAdd(d.T[1], n), TSub(d.T[2], n))))
		e.assert(TEq(e.slSeq(et, ni, d.T[1], d.T[2]), TSeqCat(e.slSeq(et, ni, d.T[1], n), e.slSeq(et, ni, TAdd(d.T[1], n), TSub(d.T[2], n)))))
		if !isStringT(c.Args[1].Type()) {
			s := args[1]
			e.assert(TEq(e.slSeq(et, src, soff, s.T[2]), TSeqCat(e.slSeq(et, src, soff, n), e.slSeq(et, src, TAdd(soff, n), TSub(s.T[2], n)))))
		}
	}
	st.heap = e.hStore(st.heap, k.name, d.T[0], nil, ni)
	return v1(n), st, pc
}

// ---- maps --------------------------------------------------------------------

func (e *Env) mapKeyName(t types.Type) string { return "map." + e.typeStr(t) }

func (e *Env) keyReg(name string, level int, idx, val Sort, isRef bool) *KeyInfo {
	if k, ok := e.keys[name]; ok {
		return k
	}
	k := &KeyInfo{name: name, level: level, idx: idx, val: val, isRef: isRef}
	e.keys[name] = k
	return k
}

func (e *Env) mapKeySort(t types.Type) Sort {
	kt := under(t).(*types.Map).Key()
	l := e.leaves(kt)
	if len(l) != 1 {
		panic("composite map key")
	}
	return l[0].sort
}

func (e *Env) mapKeyHas(t types.Type) *KeyInfo {
	return e.keyReg(e.mapKeyName(t)+".has", 2, e.mapKeySort(t), SBool, false)
}
func (e *Env) mapKeyLen(t types.Type) *KeyInfo {
	k := e.keyReg(e.mapKeyName(t)+".len", 1, "", SInt, false)
	k.min, k.max = "0", "1099511627776"
	return k
}
func (e *Env) mapKeyVals(t types.Type) []*KeyInfo {
	var out []*KeyInfo
	for _, l := range e.leaves(under(t).(*types.Map).Elem()) {
		out = append(out, e.keyReg(e.mapKeyName(t)+".val"+l.suffix, 2, e.mapKeySort(t), l.sort, l.isRef))
	}
	return out
}
func (e *Env) mapKeys(t types.Type) []*KeyInfo {
	return append([]*KeyInfo{e.mapKeyHas(t), e.mapKeyLen(t)}, e.mapKeyVals(t)...)
}

func (e *Env) initMap(r *Term, t types.Type, st State) State {
	ks := e.mapKeySort(t)
	h := st.heap
	kh := e.mapKeyHas(t)
	h = e.hStore(h, kh.name, r, nil, TConstArr(arrSort(ks, SBool), TFalse()))
	h = e.hStore(h, e.mapKeyLen(t).name, r, nil, TInt(0))
	st.heap = h
	return st
}

func (e *Env) mapLookup(f *Frame, in *ssa.Lookup, st State, pc *Term) V {
	x := f.get(e, in.X)
	i := f.get(e, in.Index)
	if isStringT(in.X.Type()) {
		e.oblig(f, "bounds", "string index", in.Pos(), pc, TAnd(TLe(TInt(0), i.T[0]), TLt(i.T[0], e.slen(x.T[0]))))
		return e.strAt(in.Type(), st, x.T[0], i.T[0])
	}
	mt := in.X.Type()
	e.mapAccess(f, in.X, x, under(mt).(*types.Map), false, in.Pos(), pc, st)
	return e.mapGet(mt, x.T[0], i.T[0], in.CommaOk, st)
}

func (e *Env) mapGet(mt types.Type, m, key *Term, commaOk bool, st State) V {
	has := TAnd(TNot(TEq(m, TInt(0))), e.read(e.mapKeyHas(mt), m, key, st))
	et := under(mt).(*types.Map).Elem()
	var out []*Term
	ls := e.leaves(et)
	for j, k := range e.mapKeyVals(mt) {
		v := e.read(k, m, key, st)
		out = append(out, TIte(has, v, e.zeroLeaf(ls[j])))
		if e.nonNilVals[k.name] {
			e.assert(TImp(has, TNot(TEq(v, TInt(0)))))
		}
	}
	if commaOk {
		out = append(out, has)
	}
	return V{T: out}
}

func (e *Env) mapUpdate(f *Frame, in *ssa.MapUpdate, st State, pc *Term) State {
	m := f.get(e, in.Map)
	mt := in.Map.Type()
	key := f.get(e, in.Key).T[0]
	v := e.terms(f.get(e, in.Value))
	e.oblig(f, "nil", "assignment to entry in nil map", in.Pos(), pc, TNot(TEq(m.T[0], TInt(0))))
	e.mapAccess(f, in.Map, m, under(mt).(*types.Map), true, in.Pos(), pc, st)
	e.frameOblig(f, &Addr{base: m.T[0], prefix: "map." + e.typeStr(mt), typ: types.Typ[types.Int]}, in.Pos(), pc, st)
	e.bindOblig(f, mt, m.T[0], key, in.Pos(), pc, st)
	return e.mapSet(f, mt, m.T[0], key, v, st, pc, in.Pos())
}

func (e *Env) mapSet(f *Frame, mt types.Type, m, key *Term, v []*Term, st State, pc *Term, pos token.Pos) State {
	kh, kl := e.mapKeyHas(mt), e.mapKeyLen(mt)
	has := e.read(kh, m, key, st)
	n := e.read(kl, m, nil, st)
	h := st.heap
	for j, k := range e.mapKeyVals(mt) {
		if e.nonNilVals[k.name] {
			e.oblig(f, "wf", "nil stored in "+k.name, pos, pc, TNot(TEq(v[j], TInt(0))))
		}
		h = e.hStore(h, k.name, m, key, v[j])
	}
	h = e.hStore(h, kh.name, m, key, TTrue())
	h = e.hStore(h, kl.name, m, nil, TIte(has, n, TAdd(n, TInt(1))))
	st.heap = h
	return st
}

func (e *Env) execNext(f *Frame, in *ssa.Next, st State, pc *Term) State {
	rg := in.Iter.(*ssa.Range)
	x := f.get(e, rg.X)
	ok := TFresh("next.ok", SBool)
	if in.IsString {
		idx := e.freshV("next.i", types.Typ[types.Int], st)
		r := e.freshV("next.r", types.Typ[types.Rune], st)
		n := e.slen(x.T[0])
		e.assert(TImp(ok, TAnd(TLe(TInt(0), idx.T[0]), TLt(idx.T[0], n))))
		f.vals[in] = V{T: []*Term{ok, idx.T[0], r.T[0]}}
		return st
	}
	mt := rg.X.Type()
	e.mapAccess(f, rg.X, x, under(mt).(*types.Map), false, in.Pos(), pc, st)
	tt := in.Type().(*types.Tuple)
	out := []*Term{ok}
	kt := under(mt).(*types.Map).Key()
	kk := e.freshV("next.k", kt, st)
	g := e.mapGet(mt, x.T[0], kk.T[0], true, st)
	e.assert(TImp(ok, g.T[len(g.T)-1]))
	if bt, isB := tt.At(1).Type().(*types.Basic); isB && bt.Kind() == types.Invalid {
		out = append(out, e.zeroTuple(tt.At(1).Type())...)
	} else {
		out = append(out, kk.T...)
	}
	if bt, isB := tt.At(2).Type().(*types.Basic); isB && bt.Kind() == types.Invalid {
		out = append(out, e.zeroTuple(tt.At(2).Type())...)
	} else {
		out = append(out, g.T[:len(g.T)-1]...)
	}
	f.vals[in] = V{T: out}
	return st
}

func (e *Env) zeroTuple(t types.Type) []*Term {
	var out []*Term
	for _, l := range e.leaves(t) {
		out = append(out, e.zeroLeaf(l))
	}
	return out
}

// ---- external functions --------------------------------------------------------

func (e *Env) external(f *Frame, fn *ssa.Function, args []V, rt types.Type, pos token.Pos, st State, pc *Term) (V, State, *Term) {
	full := fn.String()
	e.trusted[full] = true
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	pure := map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "errors": true, "regexp": true, "bytes": true, "path": true, "path/filepath": true}[pkg] ||
		full == "fmt.Sprintf" || full == "fmt.Errorf" || full == "fmt.Sprint" || full == "fmt.Sprintln"
	if full == "fmt.Sprintf" {
		if t := e.sprintf(args, under(sigParams(fn)[1]).(*types.Slice).Elem(), st); t != nil {
			return v1(t), st, pc
		}
	}
	if pure {
		var ts []*Term
		for i, pty := range sigParams(fn) {
			if i >= len(args) {
				break
			}
			if sl, ok := under(pty).(*types.Slice); ok {
				for _, l := range e.leaves(sl.Elem()) {
					k := e.keyFor(&Addr{base: args[i].T[0], idx: TInt(0), prefix: "elem." + e.typeStr(sl.Elem()), typ: sl.Elem()}, l)
					e.instFrame(st.heap, k, args[i].T[0], nil)
					ts = append(ts, TSelect(e.arr(st.heap, k), args[i].T[0]))
				}
				ts = append(ts, args[i].T[1], args[i].T[2])
				continue
			}
			ts = append(ts, e.terms(args[i])...)
		}
		if len(ts) == 0 {
			ts = append(ts, TInt(0))
		}
		name := "ext." + full
		var out []*Term
		n := 0
		res := fn.Signature.Results()
		for j := 0; j < res.Len(); j++ {
			t := res.At(j).Type()
			if sl, ok := under(t).(*types.Slice); ok {
				var r *Term
				st, r = e.newRef(st)
				ln := TApp(fmt.Sprintf("%s#%d.len", name, j), SInt, ts...)
				e.assert(TAnd(TLe(TInt(0), ln), TLe(ln, TInt(1<<40))))
				for _, l := range e.leaves(sl.Elem()) {
					k := e.keyFor(&Addr{base: r, idx: TInt(0), prefix: "elem." + e.typeStr(sl.Elem()), typ: sl.Elem()}, l)
					st.heap = e.hStore(st.heap, k.name, r, nil, TApp(fmt.Sprintf("%s#%d.elems%s", name, j, l.suffix), arrSort(SInt, l.sort), ts...))
				}
				out = append(out, r, TInt(0), ln, ln)
				continue
			}
			if isErrorT(t) {
				var er *Term
				if full == "errors.New" || full == "fmt.Errorf" {
					st, er = e.newRef(st)
					e.assert(TLt(TInt(0), er))
				} else {
					er = TApp(fmt.Sprintf("%s#%d", name, j), SInt, ts...)
					e.assert(TLe(TInt(0), er))
				}
				out = append(out, er)
				continue
			}
			if _, ok := under(t).(*types.Pointer); ok {
				v := e.freshV("ret."+fn.Name(), t, st)
				out = append(out, v.T...)
				continue
			}
			for _, l := range e.leaves(t) {
				c := TApp(fmt.Sprintf("%s#%d", name, n), l.sort, ts...)
				n++
				out = append(out, c)
			}
			m := len(e.leaves(t))
			e.typeFacts(V{T: out[len(out)-m:]}, t, st.alloc)
		}
		e.externalFacts(full, args, out)
		return V{T: out}, st, pc
	}
	// impure external: fresh result, does not touch interpreter data (assumption A-EXT)
	al := TFresh("alloc.x", SInt)
	e.assert(TLe(st.alloc, al))
	st.alloc = al
	v := e.freshV("ret."+fn.Name(), rt, st)
	i := 0
	res := fn.Signature.Results()
	for j := 0; j < res.Len(); j++ {
		t := res.At(j).Type()
		if pt, ok := under(t).(*types.Pointer); ok {
			if e.nonNilExt[full] {
				e.assert(TLt(TInt(0), v.T[i]))
			}
			e.assert(TImp(TNot(TEq(v.T[i], TInt(0))), TEq(e.rtype(v.T[i]), e.rtypeConst(pt.Elem()))))
			// a pointer returned beside a nil error is not nil
			if j+1 == res.Len()-1 && isErrorT(res.At(j+1).Type()) {
				e.assert(TOr(TNot(TEq(v.T[i], TInt(0))), TNot(TEq(v.T[i+1], TInt(0)))))
			}
		}
		i += len(e.leaves(t))
	}
	return v, st, pc
}

// externalFacts: contracts assumed of library functions.
// sprintf: formatting with a literal format is the concatenation of its pieces.
func (e *Env) sprintf(args []V, et types.Type, st State) *Term {
	fs, ok := e.litVal[args[0].T[0].op]
	sl := args[1].T
	if !ok || !sl[2].isIntLit() {
		return nil
	}
	var n int
	fmt.Sscan(sl[2].op, &n)
	in := e.inner(sl[0], et, st)
	r := e.strLit("")
	k := 0
	lit := ""
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += fs[i : i+1]
			continue
		}
		if i+1 >= len(fs) || !strings.ContainsRune("sdgftvxc", rune(fs[i+1])) || k >= n {
			return nil
		}
		i++
		x := TSelect(in, TAdd(sl[1], TInt(int64(k))))
		k++
		p := TApp("fmt."+fs[i:i+1], SStr, x)
		if x.op == "mkiface.string" && (fs[i] == 's' || fs[i] == 'v') {
			p = x.args[0]
		}
		if lit != "" {
			r = e.strCat(r, e.strLit(lit))
			lit = ""
		}
		r = e.strCat(r, p)
	}
	if k != n {
		return nil
	}
	if lit != "" {
		r = e.strCat(r, e.strLit(lit))
	}
	e.strFacts(r)
	return r
}

func (e *Env) externalFacts(full string, args []V, out []*Term) {
	slen := e.slen
	switch full {
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.IndexAny":
		n := slen(args[0].T[0])
		e.assert(TAnd(TLe(TInt(-1), out[0]), TLe(out[0], n)))
		if full != "strings.IndexAny" && full != "strings.IndexByte" {
			m := slen(args[1].T[0])
			e.assert(TImp(TLe(TInt(0), out[0]), TLe(TAdd(out[0], m), n)))
		}
	case "strings.HasSuffix", "strings.HasPrefix", "strings.Contains":
		e.assert(TImp(out[0], TLe(slen(args[1].T[0]), slen(args[0].T[0]))))
	case "strings.Split":
		e.assert(TImp(TLt(TInt(0), slen(args[1].T[0])), TLe(TInt(1), out[2])))
	case "unicode/utf8.RuneCountInString":
		e.assert(TAnd(TLe(TInt(0), out[0]), TLe(out[0], slen(args[0].T[0])), TImp(TLt(TInt(0), slen(args[0].T[0])), TLt(TInt(0), out[0]))))
	}
}

// intrinsic: library functions with a built-in contract.
func (e *Env) intrinsic(f *Frame, fn *ssa.Function, args []V, rt types.Type, pos token.Pos, stp *State, pcp **Term) (V, State, bool) {
	st := *stp
	full := fn.String()
	if e.rootC != nil && e.functional() {
		if ev, ok := e.rootC.events[full]; ok {
			v, st2, _ := e.event(f, ev, args, fn, rt, st, *pcp)
			return v, st2, true
		}
	}
	switch full {
	case "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		if f.spec {
			return V{}, st, true
		}
		return V{}, e.lockOp(f, fn.Name(), args[0], pos, *pcp, st), true
	case "sync/atomic.LoadInt32", "sync/atomic.LoadInt64":
		a := e.addrOf(args[0], under(sigParams(fn)[0]).(*types.Pointer).Elem())
		e.nilCheck(f, a, pos, *pcp)
		return e.load(a, st), st, true
	case "sync/atomic.StoreInt32", "sync/atomic.StoreInt64":
		a := e.addrOf(args[0], under(sigParams(fn)[0]).(*types.Pointer).Elem())
		e.nilCheck(f, a, pos, *pcp)
		e.frameOblig(f, a, pos, *pcp, st)
		return V{}, e.store(a, args[1], st), true
	case "sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.SwapInt64":
		a := e.addrOf(args[0], under(sigParams(fn)[0]).(*types.Pointer).Elem())
		e.nilCheck(f, a, pos, *pcp)
		if a.global == nil || !strings.HasPrefix(a.prefix, "g.Profile") {
			e.frameOblig(f, a, pos, *pcp, st)
		}
		old := e.load(a, st)
		nv := args[1]
		if strings.HasPrefix(fn.Name(), "Add") {
			nv = v1(e.wrap(TAdd(old.T[0], args[1].T[0]), a.typ))
			return nv, e.store(a, nv, st), true
		}
		return old, e.store(a, nv, st), true
	case "sync/atomic.CompareAndSwapInt64", "sync/atomic.CompareAndSwapInt32":
		a := e.addrOf(args[0], under(sigParams(fn)[0]).(*types.Pointer).Elem())
		e.nilCheck(f, a, pos, *pcp)
		e.frameOblig(f, a, pos, *pcp, st)
		old := e.load(a, st)
		sw := TEq(old.T[0], args[1].T[0])
		return v1(sw), e.store(a, v1(TIte(sw, args[2].T[0], old.T[0])), st), true
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		e.trusted[full] = true
		v := e.freshV("ret."+fn.Name(), rt, st)
		return v, st, true
	}
	return V{}, st, false
}

// ---- channels, goroutines, defers ------------------------------------------------

func (e *Env) chanOblig(f *Frame, op string, ch *Term, pos token.Pos, pc *Term, st State) {
	e.oblig(f, "chan", op+" of nil channel", pos, pc, TNot(TEq(ch, TInt(0))))
	// closing or sending on a closed channel panics
	closed := TApp("chan.closed", SBool, st.w, ch)
	if f.recovers() {
		return
	}
	e.oblig(f, "chan", op+" on a closed channel", pos, pc, TNot(closed))
}

func (f *Frame) recovers() bool {
	for fr := f; fr != nil; fr = fr.parent {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.Defer); ok {
					if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
						for _, bb := range mc.Fn.(*ssa.Function).Blocks {
							for _, ii := range bb.Instrs {
								if c, ok := ii.(*ssa.Call); ok {
									if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
										return true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (e *Env) execSend(f *Frame, in *ssa.Send, st State, pc *Term) (State, *Term) {
	ch := f.get(e, in.Chan)
	e.chanOblig(f, "send", ch.T[0], in.Pos(), pc, st)
	_, st2, pc2 := e.event(f, &EventSpec{name: "chan.send", args: "vv"}, []V{ch, f.get(e, in.X)}, nil, types.NewTuple(), st, pc)
	return st2, pc2
}

func (e *Env) execRecv(f *Frame, in *ssa.UnOp, x V, st State, pc *Term) (State, *Term) {
	v, st2, pc2 := e.event(f, &EventSpec{name: "chan.recv", args: "v"}, []V{x}, nil, in.Type(), st, pc)
	if !in.CommaOk {
		v = V{T: v.T[:len(e.leaves(in.Type()))]}
	}
	f.vals[in] = v
	return st2, pc2
}

func (e *Env) execSelect(f *Frame, in *ssa.Select, st State, pc *Term) (State, *Term) {
	var args []V
	name := "select"
	if !in.Blocking {
		name += ".nb"
	}
	for _, s := range in.States {
		args = append(args, f.get(e, s.Chan))
		if s.Dir == types.SendOnly {
			name += ".send"
			e.chanOblig(f, "select send", f.get(e, s.Chan).T[0], in.Pos(), pc, st)
			args = append(args, f.get(e, s.Send))
		} else {
			name += ".recv"
		}
	}
	v, st2, pc2 := e.event(f, &EventSpec{name: name}, args, nil, in.Type(), st, pc)
	lo := int64(0)
	if !in.Blocking {
		lo = -1
	}
	e.assert(TAnd(TLe(TInt(lo), v.T[0]), TLt(v.T[0], TInt(int64(len(in.States))))))
	f.vals[in] = v
	return st2, pc2
}

func (e *Env) execGo(f *Frame, in *ssa.Go, st State, pc *Term) (State, *Term) {
	// the goroutine runs concurrently: its effects are those of an opaque step
	e.notes["goroutine body verified separately"] = true
	_, st2, pc2 := e.event(f, &EventSpec{name: "go", args: ""}, nil, nil, types.NewTuple(), st, pc)
	return st2, pc2
}

func (e *Env) runDefers(f *Frame, st State, pc *Term) (State, *Term) {
	for i := len(f.defers) - 1; i >= 0; i-- {
		d := f.defers[i]
		_, st2, pc2 := e.doCall(f, &d.instr.Call, d.instr.Pos(), st, TAnd(pc, d.pc), nil)
		if d.instr.Block().Dominates(d.instr.Block()) && implies(pc, d.pc) {
			st, pc = st2, pc2
		} else {
			c1 := TAnd(pc, d.pc)
			c2 := TAnd(pc, TNot(d.pc))
			st = e.mergeStates([]*Term{c1, c2}, []State{st2, st})
		}
	}
	return st, pc
}

// implies: syntactic check that pc implies q (q's conjuncts are among pc's).
func implies(pc, q *Term) bool {
	if pc == q || q.isTrue() {
		return true
	}
	set := map[*Term]bool{}
	if pc.op == "and" {
		for _, a := range pc.args {
			set[a] = true
		}
	} else {
		set[pc] = true
	}
	if set[q] {
		return true
	}
	if q.op == "and" {
		for _, a := range q.args {
			if !set[a] {
				return false
			}
		}
		return true
	}
	return false
}

func sigParams(fn *ssa.Function) []types.Type {
	var out []types.Type
	if r := fn.Signature.Recv(); r != nil {
		out = append(out, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		out = append(out, fn.Signature.Params().At(i).Type())
	}
	return out
}
