package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *World) newEnv(prev *Env, kinds map[string]bool) *Env {
	e := &Env{World: w, instDone: map[instKey]bool{}, wfDone: map[string]bool{}, strlits: map[string]*Term{},
		loopWr: map[string]map[string]bool{}, loopWrN: map[string]map[string]bool{}, loopW: map[string]bool{}, loopWN: map[string]bool{},
		usedCtr: map[string]bool{}, trusted: map[string]bool{}, obCount: map[string]int{}, apps: map[string]*App{}, specMemo: map[string]V{},
		fuel: 3, inlined: map[string]bool{}, fnTerms: map[string]*ssa.Function{}, notes: map[string]bool{}, known: map[int][]*Term{},
		keys: map[string]*KeyInfo{}, prevKeys: map[string]bool{}, leafCache: map[types.Type][]Leaf{}, recMemo: map[*ssa.Function]bool{}, evMemo: map[*ssa.Function]bool{},
		fpMemo: map[*ssa.Function][]*KeyInfo{}, worldHeaps: map[int]State{}, seqDone: map[int]bool{}, siteIdx: nil, litVal: map[string]string{},
		mapOrig: map[int]*Addr{}, eventsUsed: map[string]bool{}, kinds: kinds}
	e.siteIdx = map[string]map[tokenPos]int{}
	if prev != nil {
		e.loopWr, e.loopW = prev.loopWrN, prev.loopWN
		// written sets only grow, so that the passes converge
		for id, m := range prev.loopWr {
			if e.loopWr[id] == nil {
				e.loopWr[id] = map[string]bool{}
			}
			for k := range m {
				e.loopWr[id][k] = true
			}
		}
		for id := range prev.loopW {
			e.loopW[id] = true
		}
		for k, ki := range prev.keys {
			e.keys[k] = ki
			e.prevKeys[k] = true
		}
		e.useSeq = prev.seqTouched
		e.useEmp = prev.useEmp
	}
	return e
}

func (e *Env) wantKind(k string) bool { return e.kinds[k] }

// VC is the generated verification problem of one root function.
type VC struct {
	fn     *ssa.Function
	env    *Env
	pool   *TermPool
	script []*Item
	cands  []*Cand
	passes int
	err    string
	size   int
}

func (w *World) genRoot(fn *ssa.Function, kinds map[string]bool) (vc *VC) {
	vc = &VC{fn: fn}
	defer func() {
		if x := recover(); x != nil {
			vc.err = fmt.Sprint(x)
			if os.Getenv("GOVC_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", fn, x, debug.Stack())
			}
		}
	}()
	var prev *Env
	for pass := 0; ; pass++ {
		tp = NewPool()
		e := w.newEnv(prev, kinds)
		vc.env, vc.pool = e, tp
		e.runRoot(fn)
		vc.passes = pass + 1
		if len(tp.tab) > 600000 {
			panic("verification condition too large")
		}
		if prev != nil && sameKeys(prev, e) && sameWritten(e) && prev.seqTouched == e.seqTouched && prev.useSeq == e.useSeq {
			break
		}
		if pass == 0 && e.loopN == 0 && !e.seqTouched {
			break
		}
		if pass > 8 {
			panic("loop analysis does not converge")
		}
		prev = e
	}
	vc.script = vc.env.script
	vc.cands = vc.env.cands
	vc.size = len(tp.tab)
	return vc
}

func sameKeys(a, b *Env) bool {
	if len(a.keys) != len(b.keys) {
		return false
	}
	for k := range a.keys {
		if b.keys[k] == nil {
			return false
		}
	}
	return true
}

// sameWritten: everything this pass saw written in a loop was assumed written.
func sameWritten(e *Env) bool {
	for id, m := range e.loopWrN {
		for k := range m {
			if !e.loopWr[id][k] {
				return false
			}
		}
	}
	for id := range e.loopWN {
		if !e.loopW[id] {
			return false
		}
	}
	return true
}

func (e *Env) runRoot(fn *ssa.Function) {
	e.root = fn
	name := e.shortFn(fn.String())
	c := e.contracts[name]
	e.rootC = c
	if !e.functional() {
		e.fuel = 1
	} else if c != nil && c.fuel > 0 {
		e.fuel = c.fuel
	}
	a0 := TConst("alloc0", SInt)
	e.entry = State{alloc: a0, w: TConst("w0", SInt)}
	e.entry.heap = e.initHeap("H0")
	e.entry.mark = &Mark{heap: e.entry.heap, alloc: a0}
	e.freshBound = a0
	e.assert(TLt(TInt(1), a0))
	e.strLit("")
	f := &Frame{fn: fn, vals: map[ssa.Value]V{}, stack: ""}
	for i, p := range fn.Params {
		v := e.freshV("p."+p.Name(), p.Type(), e.entry)
		if e.nonNilParam(fn, c, i, p.Type()) && len(v.T) == 1 && e.leaves(p.Type())[0].isRef {
			e.assert(TNot(TEq(v.T[0], TInt(0))))
		}
		if pt, ok := under(p.Type()).(*types.Pointer); ok {
			e.assert(TImp(TNot(TEq(v.T[0], TInt(0))), TEq(e.rtype(v.T[0]), e.rtypeConst(pt.Elem()))))
		}
		f.vals[p] = v
		f.args = append(f.args, v)
	}
	for _, p := range fn.FreeVars {
		v := e.freshV("fv."+p.Name(), p.Type(), e.entry)
		if _, ok := under(p.Type()).(*types.Pointer); ok {
			e.assert(TNot(TEq(v.T[0], TInt(0))))
		}
		f.free = append(f.free, v)
	}
	e.rootArgs = f.args
	if c != nil {
		for _, p := range c.pre {
			e.assert(e.specCall(p, e.rootArgs, e.entry).T[0])
		}
		if c.spec != nil && e.functional() {
			e.entrySpec = e.runSpec(c.spec, e.rootArgs, e.entry)
		}
	}
	res, st, pc := e.exec(f, e.entry, TTrue())
	if pc.isFalse() {
		return
	}
	f.cur = nil
	st = e.flushAll(f, st, pc)
	// locks are balanced
	for _, k := range sortedKeysKI(e.keys) {
		if strings.HasPrefix(k, "lock.") {
			ki := e.keys[k]
			e.oblig(f, "lock", k[5:]+" released on return", fn.Pos(), pc, TEq(e.arr(st.heap, ki), e.arr(e.entry.heap, ki)))
		}
	}
	if c != nil && c.trusted == "" && (e.functional() || c.spec == nil) {
		if len(c.post) == 0 && e.entrySpec != nil {
			rr := &specRes{vals: e.terms(res), w: st.w, sig: fn.Signature.Results()}
			e.oblig(f, "post", "result is "+c.spec.Name(), fn.Pos(), pc, e.sameSpec(rr, e.entrySpec, c.spec))
		} else {
			if e.entrySpec != nil && e.eventSpec(c.spec) {
				e.oblig(f, "post", "same evaluation steps as "+c.spec.Name(), fn.Pos(), pc, TEq(st.w, e.entrySpec.w))
			}
			pargs := append([]V{}, e.rootArgs...)
			if e.entrySpec != nil {
				pargs = append(pargs, e.splitBy(e.entrySpec.vals, e.entrySpec.sig)...)
			}
			pargs = append(pargs, e.splitBy(e.terms(res), fn.Signature.Results())...)
			for _, p := range c.post {
				if len(pargs) != len(p.Params) {
					panic(fmt.Sprintf("%s takes %d parameters, %d expected", p.Name(), len(p.Params), len(pargs)))
				}
				r := e.specCall(p, pargs, st)
				e.oblig(f, "post", p.Name(), fn.Pos(), pc, r.T[0])
			}
		}
	}
	e.script = append(e.script, &Item{kind: ICover, ob: &Oblig{Name: name + "/reachable", Kind: "cover", Func: name, pc: pc, cond: TFalse()}})
}
