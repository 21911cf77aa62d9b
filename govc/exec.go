package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Addr struct {
	base   *Term // nil for globals
	idx    *Term // element index, if level 2
	prefix string
	typ    types.Type // type of the object at this address
	global *ssa.Global
}

type Clo struct {
	fn   *ssa.Function
	free []V
}

// V is a symbolic Go value, flattened.
type V struct {
	T    []*Term
	addr *Addr
	clo  *Clo
}

func v1(t *Term) V { return V{T: []*Term{t}} }

type State struct {
	heap  *Heap
	alloc *Term
	w     *Term
	mark  *Mark
	dirty []*dirtyObj
	loc   *Heap // where slices of the caller are read, if not in heap
}

// Mark is a program point whose heap is closed below alloc.
type Mark struct {
	heap  *Heap
	alloc *Term
	prev  []*Mark
}

type Exit struct {
	pc  *Term
	res V
	st  State
	pos token.Pos
}

type ItemKind int

const (
	IAssert ItemKind = iota
	IOblig
	ICover
)

type Item struct {
	kind ItemKind
	term *Term // assert: fact; oblig: pc => cond
	ob   *Oblig
	def  *Term
}

type Oblig struct {
	Name string
	Key  string
	Kind string
	Func string
	Pos  string
	cand *Cand
	pc   *Term
	cond *Term
}

type Cand struct {
	lit  *Term
	desc string
}

// Env is the verification environment of one root function.
type Env struct {
	*World
	script                     []*Item
	heapN                      int
	instDone                   map[instKey]bool
	wfDone                     map[string]bool
	root                       *ssa.Function
	rootC                      *Contract
	rootArgs                   []V
	entry                      State
	strlits                    map[string]*Term
	loopWr                     map[string]map[string]bool // loop id -> keys written (from earlier passes)
	loopWrN                    map[string]map[string]bool
	loopW                      map[string]bool
	loopWN                     map[string]bool
	cands                      []*Cand
	usedCtr                    map[string]bool // contracts relied on
	trusted                    map[string]bool // assumed externals
	obCount                    map[string]int
	apps                       map[string]*App
	specMemo                   map[string]V
	fuel                       int
	inlined                    map[string]bool
	specDepth                  int
	rootLoops                  []string
	allocSites                 int
	entrySpec                  *specRes
	loopN                      int
	covers                     []*Oblig
	mutexSeen                  bool
	fnTerms                    map[string]*ssa.Function
	notes                      map[string]bool
	known                      map[int][]*Term
	keys                       map[string]*KeyInfo
	prevKeys                   map[string]bool
	leafCache                  map[types.Type][]Leaf
	recMemo, evMemo            map[*ssa.Function]bool
	fpMemo                     map[*ssa.Function][]*KeyInfo
	worldHeaps                 map[int]State
	seqDone                    map[int]bool
	siteIdx                    map[string]map[token.Pos]int
	litVal                     map[string]string
	mapOrig                    map[int]*Addr
	useSeq, seqTouched, useEmp bool
	eventsUsed                 map[string]bool
	lockSites                  []lockSite
	freshBound                 *Term
	kinds                      map[string]bool
	exits                      []*Term
}

type App struct {
	fn   *ssa.Function
	fuel int
}

func (e *Env) assert(t *Term) {
	if t.isTrue() {
		return
	}
	e.script = append(e.script, &Item{kind: IAssert, term: t})
}

func (e *Env) assume(pc, t *Term) { e.assert(TImp(pc, t)) }

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]V
	spec   bool
	depth  int
	stack  string // call path, for loop ids and recursion checks
	fuel   int
	exits  []Exit
	free   []V
	defers []deferred
	args   []V
	parent *Frame
	loops  []*loopCtx
	cur    ssa.Instruction
}

type deferred struct {
	pc    *Term
	instr *ssa.Defer
}

type loopCtx struct {
	id        string
	header    *ssa.BasicBlock
	blocks    map[*ssa.BasicBlock]bool
	phis      []*ssa.Phi
	hstate    State
	entry     State
	litEq     map[string]*Cand
	litL1     map[string]*Cand
	litL2     map[string]*Cand
	litW      *Cand
	litHk     map[string]*Cand
	invs      []*loopInv
	entryVals []V
	pc        *Term
}

type loopInv struct {
	desc string
	cand *Cand
	eval func(get func(ssa.Value) V, st State) *Term
}

func (e *Env) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// kinds whose failure stops the execution: what follows may assume they hold
var stopKinds = map[string]bool{"nil": true, "bounds": true, "div0": true, "shift": true, "makelen": true, "panic": true, "typeassert": true, "chan": true, "pre": true}

func (e *Env) oblig(f *Frame, kind, desc string, pos token.Pos, pc, cond *Term) {
	if f != nil && f.spec {
		return
	}
	if cond.isTrue() || pc.isFalse() {
		return
	}
	for _, p := range e.known[cond.id] {
		if implies(pc, p) {
			return
		}
	}
	if e.wantKind(kind) && !(e.rootC != nil && e.rootC.nokinds[kind]) {
		root := e.shortFn(e.root.String())
		fn := root
		if f != nil {
			fn = e.shortFn(f.fn.String())
		}
		name := root + "/" + kind
		if fn != root {
			name += " in " + fn
		}
		if desc != "" {
			name += ": " + desc
		}
		e.obCount[name]++
		n := e.obCount[name]
		e.script = append(e.script, &Item{kind: IOblig, ob: &Oblig{Name: fmt.Sprintf("%s #%d", name, n), Key: name, Kind: kind, Func: root, Pos: e.pos(pos), pc: pc, cond: cond}})
	}
	if (stopKinds[kind] || e.wantKind(kind)) && (stopKinds[kind] || !cond.isFalse()) {
		e.assume(pc, cond)
		e.known[cond.id] = append(e.known[cond.id], pc)
	}
}

func (e *Env) shortFn(s string) string {
	return strings.ReplaceAll(s, e.pkgPath+".", "")
}

// ---- values ----------------------------------------------------------------

func (e *Env) zero(t types.Type) V {
	var out []*Term
	for _, l := range e.leaves(t) {
		out = append(out, e.zeroLeaf(l))
	}
	return V{T: out}
}

func (e *Env) zeroLeaf(l Leaf) *Term {
	switch l.sort {
	case SBool:
		return TFalse()
	case SInt:
		return TInt(0)
	case SStr:
		return e.strLit("")
	case SF32, SF64:
		return e.floatLit(0, l.sort)
	case SSeq:
		return tp.mk("(as seq.empty (Seq Int))", SSeq)
	}
	panic("zeroLeaf " + string(l.sort))
}

func (e *Env) strLit(s string) *Term {
	if t, ok := e.strlits[s]; ok {
		return t
	}
	t := TConst(fmt.Sprintf("strlit%d_%s", len(e.strlits), trunc(s, 20)), SStr)
	e.strlits[s] = t
	e.assert(TEq(TApp("str.code", SInt, t), TInt(int64(len(e.strlits)))))
	e.assert(TEq(e.slen(t), TInt(int64(len(s)))))
	e.litVal[t.op] = s
	if len(s) <= 8 {
		for i := 0; i < len(s); i++ {
			e.assert(TEq(TApp("str.at_", SInt, t, TInt(int64(i))), TInt(int64(s[i]))))
		}
	}
	return t
}

// slen: length of a string.
func (e *Env) slen(t *Term) *Term {
	if s, ok := e.litVal[t.op]; ok {
		return TInt(int64(len(s)))
	}
	return TApp("str.len_", SInt, t)
}

func (e *Env) strAt(t types.Type, st State, s, i *Term) V {
	if l, ok := e.litVal[s.op]; ok && i.isIntLit() {
		if n, ok := parseInt(i.op); ok && n >= 0 && n < int64(len(l)) {
			return v1(TInt(int64(l[n])))
		}
	}
	return e.uf("str.at_", t, st, s, i)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (e *Env) floatLit(f float64, s Sort) *Term {
	return TConst(fmt.Sprintf("flit_%s_%x", s, math.Float64bits(f)), s)
}

func (e *Env) freshV(name string, t types.Type, st State) V {
	var out []*Term
	for _, l := range e.leaves(t) {
		c := TFresh(name+l.suffix, l.sort)
		out = append(out, c)
	}
	v := V{T: out}
	e.typeFacts(v, t, st.alloc)
	return v
}

// typeFacts asserts the range facts every Go value of type t satisfies.
func (e *Env) typeFacts(v V, t types.Type, alloc *Term) {
	for i, l := range e.leaves(t) {
		c := v.T[i]
		if l.isRef {
			e.assert(TAnd(TLe(TInt(0), c), TLt(c, alloc)))
		} else if l.sort == SInt {
			if mn, mx, ok := intRange(l.typ); ok {
				e.assert(TAnd(TLe(TIntS(mn), c), TLe(c, TIntS(mx))))
			}
		} else if l.sort == SStr {
			e.strFacts(c)
		}
		if strings.HasSuffix(l.suffix, ".cap") && i >= 3 {
			b, o, n := v.T[i-3], v.T[i-2], v.T[i-1]
			e.assert(TAnd(TLe(TInt(0), o), TLe(TInt(0), n), TLe(n, c), TImp(TEq(b, TInt(0)), TEq(c, TInt(0))), TLe(TAdd(o, c), TInt(1<<40))))
		}
	}
}

func (e *Env) strFacts(s *Term) {
	e.assert(TAnd(TLe(TInt(0), e.slen(s)), TLe(e.slen(s), TInt(1<<40))))
	e.assert(TImp(TEq(e.slen(s), TInt(0)), TEq(s, e.strLit(""))))
}

func (e *Env) addrOf(v V, elem types.Type) *Addr {
	if v.addr != nil {
		return v.addr
	}
	return &Addr{base: v.T[0], prefix: e.typeKey(elem), typ: elem}
}

func (e *Env) ptrTerm(v V) *Term {
	if v.addr == nil {
		return v.T[0]
	}
	return e.addrTerm(v.addr)
}

func (e *Env) addrTerm(a *Addr) *Term {
	if a.global != nil {
		t := TConst("ga."+a.prefix, SInt)
		e.assert(TLt(TInt(0), t))
		e.assert(TLt(t, e.entry.alloc))
		return t
	}
	if a.idx == nil && a.prefix == e.typeKey(a.typ) {
		return a.base
	}
	var t *Term
	if a.idx != nil {
		t = TApp("ea."+a.prefix, SInt, a.base, a.idx)
	} else {
		t = TApp("fa."+a.prefix, SInt, a.base)
	}
	e.assert(TLt(TInt(0), t))
	return t
}

func (e *Env) keyFor(a *Addr, l Leaf) *KeyInfo {
	name := a.prefix + l.suffix
	if k, ok := e.keys[name]; ok {
		return k
	}
	k := &KeyInfo{name: name, val: l.sort, isRef: l.isRef}
	if l.sort == SInt && !l.isRef {
		if mn, mx, ok := intRange(l.typ); ok {
			k.min, k.max = mn, mx
		}
		if strings.HasSuffix(l.suffix, ".len") || strings.HasSuffix(l.suffix, ".off") || strings.HasSuffix(l.suffix, ".cap") {
			k.min = "0"
		}
	}
	switch {
	case a.global != nil:
		k.level = 0
	case a.idx != nil || strings.HasPrefix(name, "elem."):
		k.level = 2
		k.idx = SInt
	default:
		k.level = 1
	}
	e.keys[name] = k
	return k
}

func (e *Env) load(a *Addr, st State) V {
	if _, ok := under(a.typ).(*types.Array); ok {
		return V{T: []*Term{TFresh("arrval", SInt)}}
	}
	var out []*Term
	lv := e.leaves(a.typ)
	if a.global != nil && a.global.Pkg == e.pkg && configGlobals[strings.TrimPrefix(a.prefix, "g.")] {
		e.notes["configuration: "+a.prefix[2:]+" is off"] = true
		return e.zero(a.typ)
	}
	for _, l := range lv {
		k := e.keyFor(a, l)
		out = append(out, e.read(k, a.base, a.idx, st))
	}
	v := V{T: out}
	for i, l := range lv {
		if strings.HasSuffix(l.suffix, ".cap") && i >= 3 {
			b, o, n, c := out[i-3], out[i-2], out[i-1], out[i]
			e.assert(TAnd(TLe(TInt(0), o), TLe(TInt(0), n), TLe(n, c), TImp(TEq(b, TInt(0)), TEq(c, TInt(0))), TLe(TAdd(o, c), TInt(1<<40))))
		}
		if l.sort == SStr {
			e.strFacts(out[i])
		}
	}
	return v
}

func (e *Env) read(k *KeyInfo, ref, idx *Term, st State) *Term {
	a := e.arr(st.heap, k)
	e.instFrame(st.heap, k, ref, idx)
	switch k.level {
	case 0:
		return a
	case 1:
		return TSelect(a, ref)
	}
	return TSelect(TSelect(a, ref), idx)
}

func (e *Env) store(a *Addr, v V, st State) State {
	if _, ok := under(a.typ).(*types.Array); ok {
		return st
	}
	ls := e.leaves(a.typ)
	vt := v.T
	if v.addr != nil {
		vt = []*Term{e.ptrTerm(v)}
	}
	for i, l := range ls {
		k := e.keyFor(a, l)
		st.heap = e.hStore(st.heap, k.name, a.base, a.idx, vt[i])
	}
	return st
}

func (e *Env) terms(v V) []*Term {
	if v.addr != nil {
		return []*Term{e.ptrTerm(v)}
	}
	return v.T
}

func (e *Env) iteV(c *Term, a, b V) V {
	if a.addr != nil && b.addr != nil && *a.addr == *b.addr {
		return a
	}
	ta, tb := e.terms(a), e.terms(b)
	var out []*Term
	if len(ta) != len(tb) {
		panic(fmt.Sprintf("iteV: arity mismatch %d %d", len(ta), len(tb)))
	}
	for i := range ta {
		out = append(out, TIte(c, ta[i], tb[i]))
	}
	r := V{T: out}
	if a.clo != nil && a.clo == b.clo {
		r.clo = a.clo
	}
	return r
}

func (f *Frame) get(e *Env, v ssa.Value) V {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constV(v)
	case *ssa.Global:
		return V{addr: &Addr{global: v, prefix: "g." + v.Name(), typ: v.Type().(*types.Pointer).Elem()}}
	case *ssa.Function:
		t := TConst("fnref."+v.String(), SInt)
		e.assert(TLt(TInt(0), t))
		e.assert(TLt(t, e.entry.alloc))
		e.fnTerms[t.op] = v
		return V{T: []*Term{t}, clo: &Clo{fn: v}}
	case *ssa.Builtin:
		return V{T: []*Term{TInt(1)}}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v && i < len(f.free) {
				return f.free[i]
			}
		}
	}
	r, ok := f.vals[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn))
	}
	return r
}

func (e *Env) constV(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return v1(TBool(constant.BoolVal(c.Value)))
		case u.Info()&types.IsInteger != 0:
			s := constant.ToInt(c.Value).ExactString()
			return v1(TIntS(s))
		case u.Kind() == types.Float32:
			fl, _ := constant.Float32Val(c.Value)
			return v1(e.floatLit(float64(fl), SF32))
		case u.Info()&types.IsFloat != 0:
			fl, _ := constant.Float64Val(c.Value)
			return v1(e.floatLit(fl, SF64))
		case u.Info()&types.IsString != 0:
			return v1(e.strLit(constant.StringVal(c.Value)))
		}
	}
	return e.zero(t)
}

// ---- control flow ----------------------------------------------------------

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := res[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					res[s] = set
				}
				var stack []*ssa.BasicBlock
				if !set[b] {
					set[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !set[p] {
							set[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return res
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] && !s.Dominates(b) {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

type edge struct {
	cond *Term
	st   State
}

func (e *Env) mergeStates(conds []*Term, sts []State) State {
	if len(sts) == 1 {
		return sts[0]
	}
	var hs []*Heap
	for _, s := range sts {
		hs = append(hs, s.heap)
	}
	out := State{heap: e.hMerge(conds, hs)}
	n := len(sts)
	out.alloc = sts[n-1].alloc
	out.w = sts[n-1].w
	same := true
	for i := n - 2; i >= 0; i-- {
		out.alloc = TIte(conds[i], sts[i].alloc, out.alloc)
		out.w = TIte(conds[i], sts[i].w, out.w)
		if sts[i].mark != sts[n-1].mark {
			same = false
		}
	}
	for i, s := range sts {
		for _, d := range s.dirty {
			all := true
			for _, s2 := range sts {
				has := false
				for _, d2 := range s2.dirty {
					if d2 == d {
						has = true
					}
				}
				if !has {
					all = false
				}
			}
			if all {
				if i == 0 {
					out.dirty = append(out.dirty, d)
				}
				continue
			}
			nd := *d
			nd.guard = TAnd(d.guard, conds[i])
			dup := false
			for _, d2 := range out.dirty {
				if d2.ref == nd.ref && d2.typ == nd.typ && d2.isNew == nd.isNew && d2.guard == nd.guard {
					dup = true
				}
			}
			if !dup {
				out.dirty = append(out.dirty, &nd)
			}
		}
	}
	if same {
		out.mark = sts[0].mark
	} else {
		m := &Mark{heap: out.heap, alloc: out.alloc}
		seen := map[*Mark]bool{}
		for _, s := range sts {
			if !seen[s.mark] {
				seen[s.mark] = true
				m.prev = append(m.prev, s.mark)
			}
		}
		out.mark = m
	}
	return out
}

// exec runs fn symbolically and returns its merged result, state and path condition.
func (e *Env) exec(f *Frame, st State, pc *Term) (V, State, *Term) {
	fn := f.fn
	if len(fn.Blocks) == 0 {
		panic("no body: " + fn.String())
	}
	order := rpo(fn)
	loops := loopsOf(fn)
	edges := map[*ssa.BasicBlock]map[int]edge{} // block -> pred index -> edge
	for _, b := range order {
		edges[b] = map[int]edge{}
	}
	active := map[*ssa.BasicBlock]*loopCtx{}
	for _, b := range order {
		var bpc *Term
		var bst State
		var conds []*Term
		var sts []State
		var preds []int
		if b.Index == 0 {
			bpc, bst = pc, st
			conds = []*Term{pc}
			sts = []State{st}
			preds = []int{-1}
		} else {
			for i := range b.Preds {
				if ed, ok := edges[b][i]; ok && !ed.cond.isFalse() {
					conds = append(conds, ed.cond)
					sts = append(sts, ed.st)
					preds = append(preds, i)
				}
			}
			if len(conds) == 0 {
				continue // unreachable
			}
			bpc = TOr(conds...)
			bst = e.mergeStates(conds, sts)
		}
		// phis
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				phis = append(phis, ph)
			} else {
				break
			}
		}
		entryVals := make([]V, len(phis))
		for pi, ph := range phis {
			n := len(preds)
			v := f.get(e, ph.Edges[preds[n-1]])
			for i := n - 2; i >= 0; i-- {
				v = e.iteV(conds[i], f.get(e, ph.Edges[preds[i]]), v)
			}
			entryVals[pi] = v
		}
		if blocks, isLoop := loops[b]; isLoop {
			if f.spec {
				panic("loop in spec function " + fn.String())
			}
			bst = e.flushAll(f, bst, bpc)
			lc := e.enterLoop(f, b, blocks, phis, entryVals, bst, bpc)
			active[b] = lc
			f.loops = append(f.loops, lc)
			bst = lc.hstate
		} else {
			for pi, ph := range phis {
				f.vals[ph] = entryVals[pi]
			}
		}
		e.execBlock(f, b, len(phis), bst, bpc, edges, active)
	}
	if len(f.exits) == 0 {
		return e.zero(fn.Signature.Results()), st, TFalse()
	}
	var conds []*Term
	var sts []State
	for _, x := range f.exits {
		conds = append(conds, x.pc)
		sts = append(sts, x.st)
	}
	res := f.exits[len(f.exits)-1].res
	for i := len(f.exits) - 2; i >= 0; i-- {
		res = e.iteV(conds[i], f.exits[i].res, res)
	}
	return res, e.mergeStates(conds, sts), TOr(conds...)
}

func (e *Env) setEdge(f *Frame, from, to *ssa.BasicBlock, succIdx int, cond *Term, st State, edges map[*ssa.BasicBlock]map[int]edge, active map[*ssa.BasicBlock]*loopCtx) {
	// which pred index of 'to' is this edge? (a block may appear twice)
	cnt := 0
	for i := 0; i < succIdx; i++ {
		if from.Succs[i] == to {
			cnt++
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if cnt == 0 {
				pi = i
				break
			}
			cnt--
		}
	}
	if to.Dominates(from) {
		lc := active[to]
		if lc == nil {
			return
		}
		st = e.flushAll(f, st, cond)
		e.backEdge(f, lc, pi, cond, st)
		return
	}
	edges[to][pi] = edge{cond, st}
}

func (e *Env) execBlock(f *Frame, b *ssa.BasicBlock, skip int, st State, pc *Term, edges map[*ssa.BasicBlock]map[int]edge, active map[*ssa.BasicBlock]*loopCtx) {
	for _, in := range b.Instrs[skip:] {
		f.cur = in
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			e.setEdge(f, b, b.Succs[0], 0, pc, st, edges, active)
		case *ssa.If:
			c := f.get(e, in.Cond).T[0]
			e.setEdge(f, b, b.Succs[0], 0, TAnd(pc, c), st, edges, active)
			e.setEdge(f, b, b.Succs[1], 1, TAnd(pc, TNot(c)), st, edges, active)
		case *ssa.Return:
			var res V
			for _, r := range in.Results {
				res.T = append(res.T, e.terms(f.get(e, r))...)
			}
			if len(in.Results) == 1 {
				res = f.get(e, in.Results[0])
			}
			f.exits = append(f.exits, Exit{pc: pc, res: res, st: st, pos: in.Pos()})
		case *ssa.Panic:
			e.oblig(f, "panic", "explicit panic unreachable", in.Pos(), pc, TFalse())
		case *ssa.RunDefers:
			st, pc = e.runDefers(f, st, pc)
		case *ssa.Defer:
			f.defers = append(f.defers, deferred{pc, in})
		case *ssa.Go:
			st, pc = e.execGo(f, in, st, pc)
		case *ssa.Store:
			p := f.get(e, in.Addr)
			a := e.addrOf(p, in.Addr.Type().Underlying().(*types.Pointer).Elem())
			e.nilCheck(f, a, in.Pos(), pc)
			e.frameOblig(f, a, in.Pos(), pc, st)
			e.lockOblig(f, a, true, in.Pos(), pc, st)
			e.guardOblig(f, a, f.get(e, in.Val), in.Pos(), pc, st)
			st0 := st
			st = e.store(a, f.get(e, in.Val), st)
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				if xt, ok := ia.X.Type().Underlying().(*types.Slice); ok {
					e.setFacts(f.get(e, ia.X), f.get(e, ia.Index).T[0], xt.Elem(), st0, st)
				}
			}
			st = e.storeDirty(f, a, st, pc, in.Pos())
			e.ownMap(a, in, f.get(e, in.Val), pc)
		case *ssa.MapUpdate:
			st = e.mapUpdate(f, in, st, pc)
		case *ssa.Send:
			st, pc = e.execSend(f, in, st, pc)
		case ssa.Value:
			st, pc = e.execValue(f, in, st, pc)
		default:
			panic(fmt.Sprintf("unsupported instruction %T in %s", in, f.fn))
		}
		if pc.isFalse() {
			return
		}
	}
}

// comm applies a commutative uninterpreted operation.
func (e *Env) comm(name string, s Sort, a, b *Term) *Term {
	t := TApp(name, s, a, b)
	if a != b {
		e.assert(TEq(t, TApp(name, s, b, a)))
	}
	return t
}

func (e *Env) nilCheck(f *Frame, a *Addr, pos token.Pos, pc *Term) {
	if a.global != nil || a.base == nil {
		return
	}
	if a.base.sort != SInt {
		return
	}
	e.oblig(f, "nil", "dereference of "+a.prefix, pos, pc, TNot(TEq(a.base, TInt(0))))
}

// frameOblig: writes must hit objects allocated by this call, unless the contract lists the target.
func (e *Env) frameOblig(f *Frame, a *Addr, pos token.Pos, pc *Term, st State) {
	if f.spec || e.rootC != nil && e.rootC.noFrame {
		return
	}
	// callers of this function assume the frame of list structure only, unless it has a contract
	if !stableKey(a.prefix) && !stableKey(a.prefix+".") && !strings.HasPrefix(a.prefix, "elem.") && (e.rootC == nil || e.eventOf(e.root) != nil || e.isPrimBody(e.root.Signature)) {
		return
	}
	if a.global != nil {
		if e.rootC != nil && (e.rootC.modifiesKey(a.prefix) || e.rootC.modifiesKeyAny(a.prefix)) {
			return
		}
		e.oblig(f, "frame", "write to global "+a.prefix, pos, pc, TFalse())
		return
	}
	c := TLe(e.entry.alloc, a.base)
	var ors []*Term
	ors = append(ors, c)
	if e.rootC != nil {
		if e.rootC.modifiesKeyAny(a.prefix) {
			return
		}
		for _, m := range e.modTerms(a) {
			ors = append(ors, TEq(a.base, m))
		}
	}
	e.oblig(f, "frame", "write to "+a.prefix, pos, pc, TOr(ors...))
}

func (e *Env) execValue(f *Frame, in ssa.Value, st State, pc *Term) (State, *Term) {
	set := func(v V) { f.vals[in] = v }
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		var r *Term
		st, r = e.newRef(st)
		st = e.initObj(r, et, st)
		e.assume(pc, TEq(e.rtype(r), e.rtypeConst(et)))
		if n, ok := et.(*types.Named); ok && dirtyTypes[n.Obj().Name()] && n.Obj().Pkg() == e.pkg.Pkg {
			st = e.addDirty(st, &dirtyObj{ref: r, typ: n.Obj().Name(), isNew: true, guard: pc, pos: in.Pos(), owner: f, al: in})
		}
		set(v1(r))
	case *ssa.FieldAddr:
		p := f.get(e, in.X)
		stt := in.X.Type().Underlying().(*types.Pointer).Elem()
		a := e.addrOf(p, stt)
		e.nilCheck(f, a, pos, pc)
		fl := under(stt).(*types.Struct).Field(in.Field)
		set(V{addr: &Addr{base: a.base, idx: a.idx, prefix: a.prefix + "." + fl.Name(), typ: fl.Type(), global: a.global}})
	case *ssa.Field:
		x := f.get(e, in.X)
		stt := under(in.X.Type()).(*types.Struct)
		off := 0
		if named, ok := in.X.Type().(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() != e.pkgPath {
			set(e.freshV("ffield", in.Type(), st))
			break
		}
		for i := 0; i < in.Field; i++ {
			off += len(e.leaves(stt.Field(i).Type()))
		}
		n := len(e.leaves(stt.Field(in.Field).Type()))
		set(V{T: x.T[off : off+n]})
	case *ssa.IndexAddr:
		x := f.get(e, in.X)
		i := f.get(e, in.Index).T[0]
		switch xt := in.X.Type().Underlying().(type) {
		case *types.Slice:
			e.oblig(f, "bounds", "slice index", pos, pc, TAnd(TLe(TInt(0), i), TLt(i, x.T[2])))
			e.idxFacts(x, i, xt.Elem(), st)
			set(V{addr: &Addr{base: x.T[0], idx: TAdd(x.T[1], i), prefix: "elem." + e.typeStr(xt.Elem()), typ: xt.Elem()}})
		case *types.Pointer:
			at := under(xt.Elem()).(*types.Array)
			e.oblig(f, "bounds", "array index", pos, pc, TAnd(TLe(TInt(0), i), TLt(i, TInt(at.Len()))))
			base := e.ptrTerm(x)
			set(V{addr: &Addr{base: base, idx: i, prefix: "elem." + e.typeStr(at.Elem()), typ: at.Elem()}})
		}
	case *ssa.Index:
		x := f.get(e, in.X)
		i := f.get(e, in.Index).T[0]
		if b, ok := under(in.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			e.oblig(f, "bounds", "string index", pos, pc, TAnd(TLe(TInt(0), i), TLt(i, e.slen(x.T[0]))))
			set(e.strAt(in.Type(), st, x.T[0], i))
		} else {
			set(e.freshV("aindex", in.Type(), st))
		}
	case *ssa.UnOp:
		return e.unop(f, in, st, pc)
	case *ssa.BinOp:
		x, y := f.get(e, in.X), f.get(e, in.Y)
		set(e.binop(f, in.Op, x, y, in.X.Type(), in.Y.Type(), in.Type(), pos, pc, st))
	case *ssa.Call:
		return e.execCall(f, in, st, pc)
	case *ssa.Extract:
		x := f.get(e, in.Tuple)
		tt := in.Tuple.Type().(*types.Tuple)
		off := 0
		for i := 0; i < in.Index; i++ {
			off += len(e.leaves(tt.At(i).Type()))
		}
		n := len(e.leaves(tt.At(in.Index).Type()))
		set(V{T: x.T[off : off+n]})
	case *ssa.Convert:
		set(e.convert(f, f.get(e, in.X), in.X.Type(), in.Type(), pos, pc, &st))
	case *ssa.ChangeType:
		v := f.get(e, in.X)
		set(v)
	case *ssa.ChangeInterface:
		set(f.get(e, in.X))
	case *ssa.MakeInterface:
		x := f.get(e, in.X)
		set(e.makeIface(x, in.X.Type(), st))
	case *ssa.TypeAssert:
		set(e.typeAssert(f, in, st, pc))
	case *ssa.MakeSlice:
		n := f.get(e, in.Len).T[0]
		c := f.get(e, in.Cap).T[0]
		et := under(in.Type()).(*types.Slice).Elem()
		e.oblig(f, "makelen", "make length in range", pos, pc, TAnd(TLe(TInt(0), n), TLe(n, c), TLe(c, e.maxMake(et))))
		var r *Term
		st, r = e.newRef(st)
		st = e.initElems(r, et, st)
		set(V{T: []*Term{r, TInt(0), n, c}})
	case *ssa.Slice:
		set(e.sliceOp(f, in, st, pc))
	case *ssa.MakeMap:
		var r *Term
		st, r = e.newRef(st)
		st = e.initMap(r, in.Type(), st)
		set(v1(r))
	case *ssa.MakeChan:
		n := f.get(e, in.Size).T[0]
		e.oblig(f, "makelen", "make(chan) size in range", pos, pc, TAnd(TLe(TInt(0), n), TLe(n, TInt(1<<32))))
		var r *Term
		st, r = e.newRef(st)
		e.assume(pc, TEq(TApp("chan.cap", SInt, r), n))
		set(v1(r))
	case *ssa.MakeClosure:
		var r *Term
		st, r = e.newRef(st)
		var fr []V
		for _, b := range in.Bindings {
			fr = append(fr, f.get(e, b))
		}
		set(V{T: []*Term{r}, clo: &Clo{fn: in.Fn.(*ssa.Function), free: fr}})
	case *ssa.Lookup:
		set(e.mapLookup(f, in, st, pc))
	case *ssa.Range:
		x := f.get(e, in.X)
		set(V{T: []*Term{TFresh("iter", SInt)}, addr: nil})
		_ = x
		if mt, ok := under(in.X.Type()).(*types.Map); ok {
			e.mapAccess(f, in.X, x, mt, false, pos, pc, st)
		}
	case *ssa.Next:
		st = e.execNext(f, in, st, pc)
	case *ssa.Select:
		return e.execSelect(f, in, st, pc)
	default:
		panic(fmt.Sprintf("unsupported value %T in %s", in, f.fn))
	}
	return st, pc
}

func (e *Env) newRef(st State) (State, *Term) {
	r := st.alloc
	st.alloc = TAdd(st.alloc, TInt(1))
	return st, r
}

func (e *Env) maxMake(et types.Type) *Term {
	sz := e.sizes.Sizeof(et)
	if sz < 1 {
		sz = 1
	}
	// the Go runtime panics beyond its 48-bit address space
	return TInt((1 << 47) / sz)
}

func (e *Env) initObj(r *Term, t types.Type, st State) State {
	if at, ok := under(t).(*types.Array); ok {
		return e.initElems(r, at.Elem(), st)
	}
	a := &Addr{base: r, prefix: e.typeKey(t), typ: t}
	return e.store(a, e.zero(t), st)
}

func (e *Env) initElems(r *Term, et types.Type, st State) State {
	a := &Addr{base: r, idx: TInt(0), prefix: "elem." + e.typeStr(et), typ: et}
	for _, l := range e.leaves(et) {
		k := e.keyFor(a, l)
		st.heap = e.hStore(st.heap, k.name, r, nil, TConstArr(arrSort(SInt, l.sort), e.zeroLeaf(l)))
	}
	return st
}

func (e *Env) uf(name string, t types.Type, st State, args ...*Term) V {
	var out []*Term
	for i, l := range e.leaves(t) {
		n := name
		if i > 0 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		out = append(out, TApp(n, l.sort, args...))
	}
	v := V{T: out}
	e.typeFacts(v, t, st.alloc)
	return v
}

func (e *Env) unop(f *Frame, in *ssa.UnOp, st State, pc *Term) (State, *Term) {
	x := f.get(e, in.X)
	switch in.Op {
	case token.MUL:
		et := in.X.Type().Underlying().(*types.Pointer).Elem()
		a := e.addrOf(x, et)
		e.nilCheck(f, a, in.Pos(), pc)
		e.lockOblig(f, a, false, in.Pos(), pc, st)
		v := e.load(a, st)
		if a.global != nil && len(v.T) == 1 {
			e.globalFacts(a, v, st)
		}
		f.vals[in] = v
		if f.fn != nil {
			f.vals[in] = V{T: v.T}
			e.mapOrigin(in, a, v)
		}
	case token.NOT:
		f.vals[in] = v1(TNot(x.T[0]))
	case token.SUB:
		t := in.Type()
		if e.leaves(t)[0].sort == SInt {
			mn, mx, _ := intRange(t)
			if x.T[0].isIntLit() {
				f.vals[in] = v1(TSub(TInt(0), x.T[0]))
			} else if mn == "0" {
				f.vals[in] = v1(TIte(TEq(x.T[0], TInt(0)), TInt(0), TSub(TAdd(TIntS(mx), TInt(1)), x.T[0])))
			} else {
				f.vals[in] = v1(TIte(TEq(x.T[0], TIntS(mn)), TIntS(mn), TSub(TInt(0), x.T[0])))
			}
		} else {
			f.vals[in] = e.uf("fneg."+string(e.leaves(t)[0].sort), t, st, x.T[0])
		}
	case token.XOR:
		f.vals[in] = e.uf("bnot."+e.typeStr(under(in.Type())), in.Type(), st, x.T[0])
	case token.ARROW:
		return e.execRecv(f, in, x, st, pc)
	}
	return st, pc
}

func (e *Env) wrap(r *Term, t types.Type) *Term {
	mn, mx, ok := intRange(t)
	if !ok || r.isIntLit() {
		return r
	}
	span := map[string]string{"127": "256", "32767": "65536", "2147483647": "4294967296", "9223372036854775807": "18446744073709551616", "255": "256", "65535": "65536", "4294967295": "4294967296", "18446744073709551615": "18446744073709551616"}[mx]
	S := TIntS(span)
	return TIte(TLt(TIntS(mx), r), tp.mk("-", SInt, r, S), TIte(TLt(r, TIntS(mn)), tp.mk("+", SInt, r, S), r))
}

// wrapOp names the wrap-around sum of two unknown integers, so that equal
// operands give equal sums by congruence; its value is still exact.
func (e *Env) wrapOp(name string, r, a, b *Term, t types.Type) *Term {
	if a.isIntLit() || b.isIntLit() || r.isIntLit() {
		return e.wrap(r, t)
	}
	name += "." + e.typeStr(under(t))
	var n *Term
	if strings.HasPrefix(name, "iadd") {
		n = e.comm(name, SInt, a, b)
	} else {
		n = TApp(name, SInt, a, b)
	}
	e.assert(TEq(n, e.wrap(r, t)))
	return n
}

func (e *Env) binop(f *Frame, op token.Token, x, y V, xt, yt, rt types.Type, pos token.Pos, pc *Term, st State) V {
	tx, ty := e.terms(x), e.terms(y)
	switch op {
	case token.EQL, token.NEQ:
		var t *Term
		if isFloat(xt) {
			a, b := tx[0], ty[0]
			t = e.comm("feq."+string(a.sort), SBool, a, b)
		} else {
			n := len(tx)
			if _, ok := under(xt).(*types.Slice); ok {
				n = 1 // comparison with nil: base
			}
			if _, isIface := under(xt).(*types.Interface); isIface {
				n = 1
			}
			var cs []*Term
			for i := 0; i < n; i++ {
				cs = append(cs, TEq(tx[i], ty[i]))
			}
			t = TAnd(cs...)
		}
		if op == token.NEQ {
			t = TNot(t)
		}
		return v1(t)
	}
	a, b := tx[0], ty[0]
	tn := e.typeStr(under(xt))
	if isStringT(xt) {
		switch op {
		case token.ADD:
			return v1(e.strCat(a, b))
		case token.LSS:
			return v1(TApp("str.lt_", SBool, a, b))
		case token.GTR:
			return v1(TApp("str.lt_", SBool, b, a))
		case token.LEQ:
			return v1(TNot(TApp("str.lt_", SBool, b, a)))
		case token.GEQ:
			return v1(TNot(TApp("str.lt_", SBool, a, b)))
		}
	}
	if isFloat(xt) {
		s := string(a.sort)
		switch op {
		case token.LSS:
			return v1(TApp("flt."+s, SBool, a, b))
		case token.GTR:
			return v1(TApp("flt."+s, SBool, b, a))
		case token.LEQ:
			return v1(TApp("fle."+s, SBool, a, b))
		case token.GEQ:
			return v1(TApp("fle."+s, SBool, b, a))
		}
		if op == token.ADD || op == token.MUL {
			return v1(e.comm("f"+opName(op)+"."+s, a.sort, a, b))
		}
		return v1(TApp("f"+opName(op)+"."+s, a.sort, a, b))
	}
	switch op {
	case token.LSS:
		return v1(TLt(a, b))
	case token.GTR:
		return v1(TLt(b, a))
	case token.LEQ:
		return v1(TLe(a, b))
	case token.GEQ:
		return v1(TLe(b, a))
	case token.ADD:
		return v1(e.wrapOp("iadd", TAdd(a, b), a, b, rt))
	case token.SUB:
		return v1(e.wrapOp("isub", TSub(a, b), a, b, rt))
	case token.MUL:
		if a.isIntLit() && b.isIntLit() {
			p, ok1 := parseInt(a.op)
			q, ok2 := parseInt(b.op)
			if ok1 && ok2 && p < 1<<30 && q < 1<<30 && p > -(1<<30) && q > -(1<<30) {
				return v1(TInt(p * q))
			}
		}
		if a.op == "1" {
			return v1(b)
		}
		if b.op == "1" {
			return v1(a)
		}
		if a.op == "0" || b.op == "0" {
			return v1(TInt(0))
		}
		if a.op == "-1" || b.op == "-1" {
			z := a
			if a.op == "-1" {
				z = b
			}
			mn, _, _ := intRange(rt)
			if mn != "0" {
				return v1(TIte(TEq(z, TIntS(mn)), TIntS(mn), TSub(TInt(0), z)))
			}
		}
		e.comm("mul."+tn, SInt, a, b)
		return e.uf("mul."+tn, rt, st, a, b)
	case token.QUO, token.REM:
		e.oblig(f, "div0", "division by zero", pos, pc, TNot(TEq(b, TInt(0))))
		if b.isIntLit() {
			if n, ok := parseInt(b.op); ok && n > 0 {
				na := TSub(TInt(0), a)
				if op == token.QUO {
					return v1(TIte(TLe(TInt(0), a), tp.mk("div", SInt, a, b), TSub(TInt(0), tp.mk("div", SInt, na, b))))
				}
				return v1(TIte(TLe(TInt(0), a), tp.mk("mod", SInt, a, b), TSub(TInt(0), tp.mk("mod", SInt, na, b))))
			}
		}
		return e.uf(opName(op)+"."+tn, rt, st, a, b)
	case token.AND, token.OR, token.XOR:
		if rt != nil && isBool(rt) {
			if op == token.AND {
				return v1(TAnd(a, b))
			}
			return v1(TOr(a, b))
		}
		e.comm("b"+opName(op)+"."+tn, SInt, a, b)
		return e.uf("b"+opName(op)+"."+tn, rt, st, a, b)
	case token.SHL, token.SHR, token.AND_NOT:
		if mn, _, _ := intRange(yt); mn != "0" && op != token.AND_NOT {
			e.oblig(f, "shift", "negative shift count", pos, pc, TLe(TInt(0), b))
		}
		return e.uf("b"+opName(op)+"."+tn, rt, st, a, b)
	}
	panic("binop " + op.String())
}

func opName(op token.Token) string {
	switch op {
	case token.ADD:
		return "add"
	case token.SUB:
		return "sub"
	case token.MUL:
		return "mul"
	case token.QUO:
		return "quo"
	case token.REM:
		return "rem"
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.AND_NOT:
		return "andnot"
	}
	return op.String()
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Env) strCat(a, b *Term) *Term {
	if a == e.strLit("") {
		return b
	}
	if b == e.strLit("") {
		return a
	}
	t := TApp("str.cat_", SStr, a, b)
	e.strFacts(t)
	e.assert(TEq(e.slen(t), TAdd(e.slen(a), e.slen(b))))
	return t
}

func (e *Env) convert(f *Frame, x V, from, to types.Type, pos token.Pos, pc *Term, st *State) V {
	fu, tu := under(from), under(to)
	// pointer <-> unsafe.Pointer
	if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		if pt, ok := fu.(*types.Pointer); ok {
			t := e.ptrTerm(x)
			a := e.addrOf(x, pt.Elem())
			_ = a
			e.assume(pc, TImp(TNot(TEq(t, TInt(0))), TEq(e.rtype(t), e.rtypeConst(pt.Elem()))))
			return v1(t)
		}
		return e.freshV("uptr", to, *st)
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		if pt, ok := tu.(*types.Pointer); ok {
			t := e.ptrTerm(x)
			e.oblig(f, "cast", "payload reinterpreted as *"+e.typeStr(pt.Elem()), pos, pc, TOr(TEq(t, TInt(0)), TEq(e.rtype(t), e.rtypeConst(pt.Elem()))))
			return v1(t)
		}
		return e.freshV("upint", to, *st)
	}
	switch {
	case isInteger(from) && isInteger(to):
		fmn, fmx, _ := intRange(from)
		tmn, tmx, _ := intRange(to)
		if fmn == tmn && fmx == tmx {
			return x
		}
		t := x.T[0]
		if rangeWithin(fmn, fmx, tmn, tmx) || t.isIntLit() {
			return x
		}
		span := map[string]string{"127": "256", "32767": "65536", "2147483647": "4294967296", "9223372036854775807": "18446744073709551616", "255": "256", "65535": "65536", "4294967295": "4294967296", "18446744073709551615": "18446744073709551616"}[tmx]
		S := TIntS(span)
		if fmx == "9223372036854775807" && tmx == "18446744073709551615" {
			return v1(TIte(TLt(t, TInt(0)), tp.mk("+", SInt, t, S), t))
		}
		if tmx == "9223372036854775807" && fmx == "18446744073709551615" {
			return v1(TIte(TLt(TIntS(tmx), t), tp.mk("-", SInt, t, S), t))
		}
		m := tp.mk("mod", SInt, t, S)
		in := TAnd(TLe(TIntS(tmn), t), TLe(t, TIntS(tmx)))
		if tmn == "0" {
			return v1(TIte(in, t, m))
		}
		return v1(TIte(in, t, TIte(TLt(TIntS(tmx), m), tp.mk("-", SInt, m, S), m)))
	case isInteger(from) && isFloat(to):
		r := e.uf("i2f."+e.typeStr(tu), to, *st, x.T[0])
		// conversion to float keeps the sign
		s := e.leaves(to)[0].sort
		z, n := e.floatLit(0, s), x.T[0]
		e.assert(TEq(TApp("flt."+string(s), SBool, r.T[0], z), TLt(n, TInt(0))))
		e.assert(TEq(TApp("flt."+string(s), SBool, z, r.T[0]), TLt(TInt(0), n)))
		e.assert(TEq(TApp("fle."+string(s), SBool, r.T[0], z), TLe(n, TInt(0))))
		e.assert(TEq(TApp("fle."+string(s), SBool, z, r.T[0]), TLe(TInt(0), n)))
		e.assert(TEq(e.comm("feq."+string(s), SBool, r.T[0], z), TEq(n, TInt(0))))
		return r
	case isFloat(from) && isInteger(to):
		return e.uf("f2i."+e.typeStr(fu)+"."+e.typeStr(tu), to, *st, x.T[0])
	case isFloat(from) && isFloat(to):
		if x.T[0].sort == e.leaves(to)[0].sort {
			return x
		}
		// float32 -> float64 -> float32 is exact
		if e.leaves(to)[0].sort == SF32 && strings.HasPrefix(x.T[0].op, "f2f.float32.float64") {
			return v1(x.T[0].args[0])
		}
		return e.uf("f2f."+e.typeStr(fu)+"."+e.typeStr(tu), to, *st, x.T[0])
	case isStringT(from) && isStringT(to):
		return x
	case isInteger(from) && isStringT(to):
		return e.uf("str.ofrune", to, *st, x.T[0])
	case isStringT(from): // to []byte / []rune
		var r *Term
		*st, r = e.newRef(*st)
		et := tu.(*types.Slice).Elem()
		n := TApp("str.nelem."+e.typeStr(et), SInt, x.T[0])
		if e.typeStr(et) == "uint8" || e.typeStr(et) == "byte" {
			n = e.slen(x.T[0])
		}
		e.strFacts(x.T[0])
		e.assert(TAnd(TLe(TInt(0), n), TLe(n, e.slen(x.T[0])), TImp(TLt(TInt(0), e.slen(x.T[0])), TLt(TInt(0), n))))
		for _, l := range e.leaves(et) {
			k := e.keyFor(&Addr{base: r, idx: TInt(0), prefix: "elem." + e.typeStr(et), typ: et}, l)
			st.heap = e.hStore(st.heap, k.name, r, nil, TApp("str.elems."+e.typeStr(et), arrSort(SInt, l.sort), x.T[0]))
		}
		return V{T: []*Term{r, TInt(0), n, n}}
	case isStringT(to): // from []byte / []rune
		et := fu.(*types.Slice).Elem()
		k := e.keyFor(&Addr{base: x.T[0], idx: TInt(0), prefix: "elem." + e.typeStr(et), typ: et}, e.leaves(et)[0])
		e.instFrame(st.heap, k, x.T[0], nil)
		inner := TSelect(e.arr(st.heap, k), x.T[0])
		return e.uf("str.ofelems."+e.typeStr(et), to, *st, inner, x.T[1], x.T[2])
	}
	if len(e.leaves(from)) == len(e.leaves(to)) {
		return x
	}
	return e.freshV("conv", to, *st)
}

func rangeWithin(a, b, c, d string) bool {
	less := func(x, y string) bool { // x <= y as big ints
		nx, ny := strings.HasPrefix(x, "-"), strings.HasPrefix(y, "-")
		if nx != ny {
			return nx
		}
		x, y = strings.TrimPrefix(x, "-"), strings.TrimPrefix(y, "-")
		r := len(x) < len(y) || len(x) == len(y) && x <= y
		if nx {
			return len(y) < len(x) || len(x) == len(y) && y <= x
		}
		return r
	}
	return less(c, a) && less(b, d)
}

func (e *Env) sliceOp(f *Frame, in *ssa.Slice, st State, pc *Term) V {
	x := f.get(e, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return f.get(e, v).T[0]
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = TInt(0)
	}
	if isStringT(in.X.Type()) {
		n := e.slen(x.T[0])
		if hi == nil {
			hi = n
		}
		e.oblig(f, "bounds", "substring", in.Pos(), pc, TAnd(TLe(TInt(0), lo), TLe(lo, hi), TLe(hi, n)))
		r := TApp("str.sub_", SStr, x.T[0], lo, hi)
		e.strFacts(r)
		e.assume(TAnd(TLe(TInt(0), lo), TLe(lo, hi), TLe(hi, n)), TEq(e.slen(r), TSub(hi, lo)))
		e.assume(TAnd(TEq(TInt(0), lo), TEq(hi, n)), TEq(r, x.T[0]))
		return v1(r)
	}
	var base, off, ln, cp *Term
	switch xt := in.X.Type().Underlying().(type) {
	case *types.Slice:
		base, off, ln, cp = x.T[0], x.T[1], x.T[2], x.T[3]
		_ = xt
	case *types.Pointer:
		at := under(xt.Elem()).(*types.Array)
		base, off, ln, cp = e.ptrTerm(x), TInt(0), TInt(at.Len()), TInt(at.Len())
	}
	if hi == nil {
		hi = ln
	}
	lim := cp
	if mx != nil {
		lim = mx
		e.oblig(f, "bounds", "slice max", in.Pos(), pc, TAnd(TLe(hi, mx), TLe(mx, cp)))
	}
	e.oblig(f, "bounds", "slice expression", in.Pos(), pc, TAnd(TLe(TInt(0), lo), TLe(lo, hi), TLe(hi, lim)))
	if xt, ok := in.X.Type().Underlying().(*types.Slice); ok && e.useSeq && seqElem(xt.Elem(), e) {
		m := e.inner(base, xt.Elem(), st)
		ok := TAnd(TLe(TInt(0), lo), TLe(lo, hi), TLe(hi, ln))
		e.split(xt.Elem(), m, off, ln, hi, ok)
		e.split(xt.Elem(), m, off, hi, lo, ok)
		e.split(xt.Elem(), m, off, ln, lo, ok)
		e.split(xt.Elem(), m, TAdd(off, lo), TSub(ln, lo), TSub(hi, lo), ok)
	}
	return V{T: []*Term{base, TAdd(off, lo), TSub(hi, lo), TSub(lim, lo)}}
}

func (e *Env) makeIface(x V, t types.Type, st State) V {
	ts := e.terms(x)
	if _, ok := under(t).(*types.Interface); ok {
		return x
	}
	name := "mkiface." + e.typeStr(t)
	if len(ts) == 0 {
		c := TConst(name, SInt)
		e.assert(TLt(TInt(0), c))
		return v1(c)
	}
	r := TApp(name, SInt, ts...)
	e.assert(TLt(TInt(0), r))
	e.assert(TLt(r, TConst("iface.bound", SInt)))
	for i, x := range ts {
		e.assert(TEq(TApp(fmt.Sprintf("ifaceval.%s#%d", e.typeStr(t), i), x.sort, r), x))
	}
	e.assert(TEq(TApp("ifacetype", SInt, r), e.rtypeConst(t)))
	return v1(r)
}

func (e *Env) typeAssert(f *Frame, in *ssa.TypeAssert, st State, pc *Term) V {
	x := f.get(e, in.X).T[0]
	var ok *Term
	var val V
	if _, isI := under(in.AssertedType).(*types.Interface); isI {
		ok = TFresh("implements", SBool)
		val = v1(x)
	} else {
		ok = TAnd(TNot(TEq(x, TInt(0))), TEq(TApp("ifacetype", SInt, x), e.rtypeConst(in.AssertedType)))
		for i, l := range e.leaves(in.AssertedType) {
			val.T = append(val.T, TApp(fmt.Sprintf("ifaceval.%s#%d", e.typeStr(in.AssertedType), i), l.sort, x))
		}
		e.typeFacts(val, in.AssertedType, TFresh("ta.alloc", SInt))
	}
	if !in.CommaOk {
		e.oblig(f, "typeassert", "type assertion", in.Pos(), pc, ok)
		return val
	}
	z := e.zero(in.AssertedType)
	r := e.iteV(ok, val, z)
	return V{T: append(append([]*Term{}, r.T...), ok)}
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
