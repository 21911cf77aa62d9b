package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Env) newCand(desc string) *Cand {
	c := &Cand{lit: TFresh("cand", SBool), desc: desc}
	e.cands = append(e.cands, c)
	return c
}

func (e *Env) candOblig(f *Frame, c *Cand, what string, pc, cond *Term) {
	if cond.isTrue() {
		return
	}
	e.script = append(e.script, &Item{kind: IOblig, ob: &Oblig{Name: e.shortFn(e.root.String()) + "/inv " + c.desc + " " + what, Kind: "inv", Func: e.shortFn(e.root.String()), cand: c, pc: pc, cond: cond}})
}

func (e *Env) enterLoop(f *Frame, b *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool, phis []*ssa.Phi, entryVals []V, st State, pc *Term) *loopCtx {
	e.loopN++
	lc := &loopCtx{id: fmt.Sprintf("%s/%s.%d", f.stack, f.fn.Name(), b.Index), header: b, blocks: blocks, phis: phis, entry: st, entryVals: entryVals, pc: pc,
		litEq: map[string]*Cand{}, litL1: map[string]*Cand{}, litL2: map[string]*Cand{}, litHk: map[string]*Cand{}}
	written, known := e.loopWr[lc.id]
	prevKeys := e.prevKeys
	affects := func(k string) bool {
		return !known || written[k] || !prevKeys[k]
	}
	ah := TFresh("alloc.h", SInt)
	e.assert(TLe(st.alloc, ah))
	mkl := func(m map[string]*Cand, k, what string) *Cand {
		if c, ok := m[k]; ok {
			return c
		}
		c := e.newCand(fmt.Sprintf("loop %s: %s %s", lc.id, k, what))
		m[k] = c
		return c
	}
	h := e.newHeap(&Heap{kind: hHavoc, parent: st.heap, name: "L", alloc: ah, affects: affects, priv: st.dirty})
	h.newArr = func(k *KeyInfo) *Term {
		return TFresh("L."+k.name, k.arrSort())
	}
	h.frame = func(k *KeyInfo) []FrameOpt {
		if !known || !prevKeys[k.name] {
			return nil // discovery pass
		}
		var out []FrameOpt
		if k.level == 0 || strings.HasPrefix(k.name, "lock.") {
			out = append(out, FrameOpt{g: mkl(lc.litEq, k.name, "unchanged").lit})
		}
		if k.level > 0 {
			out = append(out, FrameOpt{g: mkl(lc.litL1, k.name, "writes only objects allocated in the loop").lit, bound: st.alloc})
			out = append(out, FrameOpt{g: mkl(lc.litL2, k.name, "writes only objects allocated in the call").lit, bound: e.entry.alloc})
		}
		return out
	}
	hs := State{heap: h, alloc: ah, w: st.w, dirty: st.dirty}
	if !known || e.loopW[lc.id] {
		hs.w = TFresh("w.h", SInt)
	}
	hs.mark = &Mark{heap: h, alloc: ah, prev: []*Mark{st.mark}}
	lc.hstate = hs
	if known {
		for _, k := range sortedKeysKI(e.keys) {
			if affects(k) && prevKeys[k] {
				h.frame(e.keys[k]) // create the literals now
			}
		}
	}
	for i, ph := range phis {
		name := ph.Comment
		if name == "" {
			name = ph.Name()
		}
		v := e.freshV("phi."+name, ph.Type(), hs)
		f.vals[ph] = v
		_ = i
	}
	if known {
		e.loopCandidates(f, lc)
		e.assumeInvs(f, lc)
	}
	return lc
}

func sortedKeysKI(m map[string]*KeyInfo) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (e *Env) addInv(f *Frame, lc *loopCtx, desc string, eval func(get func(ssa.Value) V, st State) *Term) {
	inv := &loopInv{desc: desc, cand: e.newCand("loop " + lc.id + ": " + desc), eval: eval}
	lc.invs = append(lc.invs, inv)
	getE := func(v ssa.Value) V {
		for i, ph := range lc.phis {
			if ph == v {
				return lc.entryVals[i]
			}
		}
		return f.get(e, v)
	}
	ent := eval(getE, lc.entry)
	e.candOblig(f, inv.cand, "on entry", lc.pc, ent)
}

// assumeInvs: the invariants hold at the header, if the loop is entered at all.
// This comes after all entry obligations, which must not depend on it.
func (e *Env) assumeInvs(f *Frame, lc *loopCtx) {
	getH := func(v ssa.Value) V { return f.get(e, v) }
	for _, inv := range lc.invs {
		e.assert(TImp(TAnd(lc.pc, inv.cand.lit), inv.eval(getH, lc.hstate)))
	}
}

func (e *Env) loopCandidates(f *Frame, lc *loopCtx) {
	for _, ph := range lc.phis {
		ph := ph
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		lv := e.leaves(ph.Type())
		ev := func() V {
			for i, p := range lc.phis {
				if p == ph {
					return lc.entryVals[i]
				}
			}
			panic("phi")
		}()
		et := e.terms(ev)
		for li, l := range lv {
			li := li
			if l.suffix == ".base" || l.suffix == ".off" {
				e.addInv(f, lc, nm+l.suffix+" constant", func(get func(ssa.Value) V, st State) *Term {
					return TEq(e.terms(get(ph))[li], et[li])
				})
			}
			switch {
			case l.isRef:
				e.addInv(f, lc, nm+l.suffix+" pre-existing", func(get func(ssa.Value) V, st State) *Term {
					return TLt(e.terms(get(ph))[li], e.entry.alloc)
				})
				e.addInv(f, lc, nm+l.suffix+" non-nil", func(get func(ssa.Value) V, st State) *Term {
					return TNot(TEq(e.terms(get(ph))[li], TInt(0)))
				})
				if e.typeStr(ph.Type()) == "*Data" {
					e.addInv(f, lc, nm+" is a non-empty list", func(get func(ssa.Value) V, st State) *Term {
						t := e.terms(get(ph))[li]
						return TAnd(TNot(TEq(t, TInt(0))), e.isConsTag(e.read(e.dataKey("Type"), t, nil, st)), TNot(e.emp(t)))
					})
					e.addInv(f, lc, nm+"'s payload is new", func(get func(ssa.Value) V, st State) *Term {
						t := e.terms(get(ph))[li]
						return TLe(e.entry.alloc, e.read(e.dataKey("Value"), t, nil, st))
					})
				}
				e.addInv(f, lc, nm+l.suffix+" fresh or nil", func(get func(ssa.Value) V, st State) *Term {
					t := e.terms(get(ph))[li]
					return TOr(TEq(t, TInt(0)), TLe(e.entry.alloc, t))
				})
			case l.sort == SInt && l.suffix == ".cap":
				// follows from the length
			case l.sort == SInt && len(lv) > 1:
				if l.suffix == ".len" {
					e.addInv(f, lc, nm+l.suffix+" <= initial", func(get func(ssa.Value) V, st State) *Term {
						return TLe(e.terms(get(ph))[li], et[li])
					})
				}
			case l.sort == SInt:
				up, down := stepDir(ph, lc)
				if up {
					e.addInv(f, lc, nm+l.suffix+" >= 0", func(get func(ssa.Value) V, st State) *Term {
						return TLe(TInt(0), e.terms(get(ph))[li])
					})
					e.addInv(f, lc, nm+l.suffix+" >= initial", func(get func(ssa.Value) V, st State) *Term {
						return TLe(et[li], e.terms(get(ph))[li])
					})
				}
				if down {
					e.addInv(f, lc, nm+l.suffix+" <= initial", func(get func(ssa.Value) V, st State) *Term {
						return TLe(e.terms(get(ph))[li], et[li])
					})
				}
				if !up {
					e.addInv(f, lc, nm+l.suffix+" >= 0", func(get func(ssa.Value) V, st State) *Term {
						return TLe(TInt(0), e.terms(get(ph))[li])
					})
				}
				if up {
					e.addInv(f, lc, nm+" >= 1", func(get func(ssa.Value) V, st State) *Term {
						return TLe(TInt(1), e.terms(get(ph))[li])
					})
				}
			}
		}
		if _, ok := under(ph.Type()).(*types.Slice); ok {
			// lengths are bounded by what memory can hold: handled by typeFacts
		}
	}
	// bounds suggested by comparisons in the loop
	seen := map[string]bool{}
	for b := range lc.blocks {
		_ = b
	}
	for _, b := range f.fn.Blocks {
		if !lc.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			if !isInteger(bo.X.Type()) {
				continue
			}
			for _, side := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				ph := phiBase(side[0], lc)
				lim := e.outsideTerm(f, side[1], lc)
				if ph == nil || lim == nil {
					continue
				}
				k := fmt.Sprintf("%s/%d", ph.Name(), lim.id)
				if seen[k] {
					continue
				}
				seen[k] = true
				ph2 := ph
				up, down := stepDir(ph, lc)
				if up {
					e.addInv(f, lc, ph.Comment+" <= limit", func(get func(ssa.Value) V, st State) *Term {
						return TLe(get(ph2).T[0], lim)
					})
					e.addInv(f, lc, ph.Comment+" < limit", func(get func(ssa.Value) V, st State) *Term {
						return TLt(get(ph2).T[0], lim)
					})
				}
				if down {
					e.addInv(f, lc, ph.Comment+" >= limit", func(get func(ssa.Value) V, st State) *Term {
						return TLe(lim, get(ph2).T[0])
					})
				}
			}
		}
	}
	// slices built in step
	for i, p1 := range lc.phis {
		for _, p2 := range lc.phis[i+1:] {
			_, s1 := under(p1.Type()).(*types.Slice)
			_, s2 := under(p2.Type()).(*types.Slice)
			if !s1 || !s2 {
				continue
			}
			p1, p2 := p1, p2
			e.addInv(f, lc, p1.Comment+" as long as "+p2.Comment, func(get func(ssa.Value) V, st State) *Term {
				return TEq(e.terms(get(p1))[2], e.terms(get(p2))[2])
			})
		}
	}
	// slice variables that live in memory because something takes their address
	for _, b := range f.fn.Blocks {
		if lc.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			pt := al.Type().Underlying().(*types.Pointer).Elem()
			if _, ok := under(pt).(*types.Slice); !ok {
				continue
			}
			av, ok := f.tryGet(e, al)
			if !ok {
				continue
			}
			e.addInv(f, lc, "*"+al.Comment+" fresh or nil", func(get func(ssa.Value) V, st State) *Term {
				t := e.terms(e.load(e.addrOf(av, pt), st))[0]
				return TOr(TEq(t, TInt(0)), TLe(e.entry.alloc, t))
			})
		}
	}
	e.userInvs(f, lc)
}

func phiBase(v ssa.Value, lc *loopCtx) *ssa.Phi {
	switch v := v.(type) {
	case *ssa.Phi:
		for _, p := range lc.phis {
			if p == v {
				return v
			}
		}
	case *ssa.BinOp:
		if v.Op == token.ADD || v.Op == token.SUB {
			if _, ok := v.Y.(*ssa.Const); ok {
				return phiBase(v.X, lc)
			}
		}
	case *ssa.Convert:
		return phiBase(v.X, lc)
	}
	return nil
}

// outsideTerm: the value of v if it does not change in the loop.
func (e *Env) outsideTerm(f *Frame, v ssa.Value, lc *loopCtx) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return f.get(e, v).T[0]
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if in, ok := x.Call.Args[0].(ssa.Instruction); ok && lc.blocks[in.Block()] {
				return nil
			}
			if _, isS := under(x.Call.Args[0].Type()).(*types.Slice); isS {
				if xv, ok := f.tryGet(e, x.Call.Args[0]); ok {
					return xv.T[2]
				}
			}
			if isStringT(x.Call.Args[0].Type()) {
				if xv, ok := f.tryGet(e, x.Call.Args[0]); ok {
					return e.slen(xv.T[0])
				}
			}
		}
	}
	if in, ok := v.(ssa.Instruction); ok && lc.blocks[in.Block()] {
		return nil
	}
	if xv, ok := f.tryGet(e, v); ok && len(xv.T) == 1 {
		return xv.T[0]
	}
	return nil
}

func (f *Frame) tryGet(e *Env, v ssa.Value) (r V, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			ok = false
		}
	}()
	return f.get(e, v), true
}

func (e *Env) backEdge(f *Frame, lc *loopCtx, pi int, pc *Term, st State) {
	wr := e.loopWrN[lc.id]
	if wr == nil {
		wr = map[string]bool{}
		e.loopWrN[lc.id] = wr
	}
	for _, k := range sortedKeysKI(e.keys) {
		ki := e.keys[k]
		ab, ah := e.arr(st.heap, ki), e.arr(lc.hstate.heap, ki)
		if ab != ah {
			wr[k] = true
		}
		if c, ok := lc.litEq[k]; ok {
			e.candOblig(f, c, "kept", pc, TEq(ab, e.arr(lc.entry.heap, ki)))
		}
		if c, ok := lc.litL1[k]; ok {
			e.candOblig(f, c, "kept", pc, e.onlyFresh(lc.hstate.heap, st.heap, lc.entry.alloc, map[string]bool{k: true}))
		}
		if c, ok := lc.litL2[k]; ok {
			e.candOblig(f, c, "kept", pc, e.onlyFresh(lc.hstate.heap, st.heap, e.entry.alloc, map[string]bool{k: true}))
		}
	}
	if st.w != lc.hstate.w {
		e.loopWN[lc.id] = true
	}
	getB := func(v ssa.Value) V {
		for _, ph := range lc.phis {
			if ph == v {
				return f.get(e, ph.Edges[pi])
			}
		}
		return f.get(e, v)
	}
	for _, inv := range lc.invs {
		e.candOblig(f, inv.cand, "kept", pc, inv.eval(getB, st))
	}
}

// userInvs instantiates the contract's loop templates over this loop.
func (e *Env) userInvs(f *Frame, lc *loopCtx) {
	if e.rootC == nil {
		return
	}
	if !e.functional() {
		return
	}
	for _, li := range e.rootC.loops {
		e.instTemplate(f, lc, li)
	}
}

type roleChoice struct {
	desc string
	get  func(get func(ssa.Value) V) V
}

func (e *Env) instTemplate(f *Frame, lc *loopCtx, li *ssa.Function) {
	isLoopSpec := strings.HasPrefix(li.Name(), "loop_")
	isKeep := strings.HasPrefix(li.Name(), "keep_")
	var choices [][]roleChoice
	for _, p := range li.Params {
		var cs []roleChoice
		// a parameter of the verified function, by name
		bound := false
		for i, rp := range e.root.Params {
			if p.Name() == fmt.Sprintf("a%d", i) {
				v := e.rootArgs[i]
				cs = append(cs, roleChoice{rp.Name(), func(func(ssa.Value) V) V { return v }})
				bound = true
			}
		}
		if !bound {
			addPhi := func(fr *Frame, l *loopCtx, own bool) {
				for _, ph := range l.phis {
					ph := ph
					if !types.Identical(ph.Type(), p.Type()) {
						continue
					}
					nm := ph.Comment
					mk := func(get func(ssa.Value) V) V {
						if own {
							return get(ph)
						}
						return fr.get(e, ph)
					}
					cs = append(cs, roleChoice{nm, mk})
					if isInteger(ph.Type()) && own {
						pt := ph.Type()
						cs = append(cs, roleChoice{nm + "+1", func(get func(ssa.Value) V) V {
							return v1(e.wrap(TAdd(mk(get).T[0], TInt(1)), pt))
						}})
					}
				}
			}
			// by name: pre.. ranges over values from before the loop, own.. over the
			// variables this loop changes, out.. over those an enclosing loop changes
			pre, own, outer := strings.HasPrefix(p.Name(), "pre"), strings.HasPrefix(p.Name(), "own"), strings.HasPrefix(p.Name(), "out")
			all := !pre && !own && !outer
			if own || all {
				addPhi(f, lc, true)
			}
			for fr := f; fr != nil && (outer || all); fr = fr.parent {
				for i := len(fr.loops) - 1; i >= 0; i-- {
					if fr.loops[i] != lc && fr.loops[i].activeIn(fr, lc, f) {
						addPhi(fr, fr.loops[i], false)
					}
				}
			}
			// loop-invariant values computed before the loop
			for fr := f; fr != nil && (pre || all); fr = fr.parent {
				var names []ssa.Value
				for v := range fr.vals {
					if _, isPhi := v.(*ssa.Phi); isPhi {
						continue
					}
					if !types.Identical(v.Type(), p.Type()) {
						continue
					}
					if in, ok := v.(ssa.Instruction); ok && fr == f && (lc.blocks[in.Block()] || !in.Block().Dominates(lc.header)) {
						continue
					}
					names = append(names, v)
				}
				sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
				for _, v := range names {
					val := fr.vals[v]
					cs = append(cs, roleChoice{v.Name(), func(func(ssa.Value) V) V { return val }})
				}
			}
		}
		if len(cs) == 0 {
			return
		}
		choices = append(choices, cs)
	}
	// enumerate combinations, at least one role must be a phi of this loop
	n := 1
	for _, c := range choices {
		n *= len(c)
		if n > 2000 {
			break
		}
	}
	limit := 96
	idx := make([]int, len(choices))
	count := 0
	seen := map[string]bool{}
	for {
		var desc []string
		var sel []roleChoice
		for i, c := range choices {
			desc = append(desc, c[idx[i]].desc)
			sel = append(sel, c[idx[i]])
		}
		var kept []*Term
		eval := func(get func(ssa.Value) V, st State) *Term {
			var args []V
			for _, s := range sel {
				args = append(args, s.get(get))
			}
			if isKeep { // a function of the state that the loop does not change
				ts := e.terms(e.specCall(li, args, st))
				if kept == nil {
					kept = ts
					return TTrue()
				}
				var cs []*Term
				for i := range ts {
					cs = append(cs, TEq(ts[i], kept[i]))
				}
				return TAnd(cs...)
			}
			if isLoopSpec {
				sr := e.runSpec(li, args, st)
				return e.sameSpec(sr, e.entrySpec, li)
			}
			r := e.specCall(li, args, st)
			return r.T[0]
		}
		// skip combos not depending on this loop's phis, and duplicates
		getH := func(v ssa.Value) V { return f.get(e, v) }
		var key strings.Builder
		dep := false
		for _, s := range sel {
			a := s.get(getH)
			for _, t := range e.terms(a) {
				fmt.Fprintf(&key, "%d,", t.id)
				for _, ph := range lc.phis {
					for _, pt := range e.terms(f.vals[ph]) {
						if pt == t || len(t.args) > 0 && mentions(t, pt, 3) {
							dep = true
						}
					}
				}
			}
		}
		if (dep || len(lc.phis) == 0) && !seen[key.String()] {
			seen[key.String()] = true
			e.addInv(f, lc, fmt.Sprintf("%s(%s)", li.Name(), strings.Join(desc, ",")), eval)
			count++
			if count >= limit {
				return
			}
		}
		// next
		i := len(idx) - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(choices[i]) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func mentions(t, x *Term, d int) bool {
	if t == x {
		return true
	}
	if d == 0 {
		return false
	}
	for _, a := range t.args {
		if mentions(a, x, d-1) {
			return true
		}
	}
	return false
}

// activeIn: is this loop (of frame fr) enclosing the inner loop / inlined call?
func (l *loopCtx) activeIn(fr *Frame, inner *loopCtx, innerF *Frame) bool {
	if fr == innerF {
		return l.blocks[inner.header]
	}
	return true
}

// stepDir: can the integer phi go up / down from one iteration to the next?
func stepDir(ph *ssa.Phi, lc *loopCtx) (up, down bool) {
	var dir func(v ssa.Value, depth int) (bool, bool)
	dir = func(v ssa.Value, depth int) (bool, bool) {
		if v == ph {
			return false, false
		}
		if depth < 6 {
			switch v := v.(type) {
			case *ssa.BinOp:
				if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil && (v.Op == token.ADD || v.Op == token.SUB) {
					u, d := dir(v.X, depth+1)
					neg := strings.HasPrefix(c.Value.ExactString(), "-")
					if (v.Op == token.ADD) != neg {
						return true, d
					}
					return u, true
				}
			case *ssa.Phi:
				if lc.blocks[v.Block()] {
					u, d := false, false
					for _, x := range v.Edges {
						u1, d1 := dir(x, depth+1)
						u, d = u || u1, d || d1
					}
					return u, d
				}
			}
		}
		return true, true
	}
	for i, p := range ph.Block().Preds {
		if lc.blocks[p] {
			u, d := dir(ph.Edges[i], 0)
			up, down = up || u, down || d
		}
	}
	return
}
