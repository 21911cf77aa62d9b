package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

var specBuiltins = map[string]bool{"sqNil": true, "sqOne": true, "sqOneI": true, "sqCat": true, "sqLen": true, "sqTake": true, "sqDrop": true, "sqAt": true,
	"sqEq": true, "sqOf": true, "sqOfBytes": true, "nzD": true, "sameF": true, "vFresh": true, "vHeldR": true, "vEmp": true, "vSym": true, "vSame": true, "vErr": true,
	"vAnyB": true, "vAnyE": true, "vAnyS": true, "vAnyD": true, "vAnyF": true}

// specBuiltin: specification primitives with a meaning of their own.
func (e *Env) specBuiltin(fn *ssa.Function, args []V, st State) (V, bool) {
	n := fn.Name()
	if !specBuiltins[n] || !e.isSpecFn(fn) {
		return V{}, false
	}
	t := func(i int) *Term { return e.terms(args[i])[0] }
	if n[:2] == "sq" {
		e.seqTouched = true
	}
	switch n {
	case "sqNil":
		return v1(TSeqEmpty()), true
	case "sqOne":
		return v1(TSeqUnit(e.nz(t(0)))), true
	case "sqOneI":
		return v1(TSeqUnit(t(0))), true
	case "sqCat":
		return v1(TSeqCat(t(0), t(1))), true
	case "sqLen":
		return v1(TSeqLen(t(0))), true
	case "sqTake":
		return v1(tp.mk("seq.extract", SSeq, t(0), TInt(0), t(1))), true
	case "sqDrop":
		return v1(tp.mk("seq.extract", SSeq, t(0), t(1), TSeqLen(t(0)))), true
	case "sqAt":
		return v1(tp.mk("seq.nth", SInt, t(0), t(1))), true
	case "sqEq":
		return v1(TEq(t(0), t(1))), true
	case "sqOf", "sqOfBytes":
		et := under(fn.Params[0].Type()).(*types.Slice).Elem()
		if st.loc != nil && localElems[e.elemKey(et).name] {
			st.heap = st.loc
		}
		return v1(e.sliceSeq(args[0], et, st)), true
	case "nzD":
		return v1(e.nz(t(0))), true
	case "vSame":
		return v1(TEq(e.nz(t(0)), e.nz(t(1)))), true
	case "vAnyB", "vAnyE", "vAnyS", "vAnyD", "vAnyF":
		// an arbitrary object that existed at entry
		v, ok := e.specMemo[n]
		if !ok {
			v = e.freshV(n, fn.Signature.Results().At(0).Type(), e.entry)
			if n != "vAnyS" {
				e.assert(TNot(TEq(v.T[0], TInt(0))))
				e.assert(TEq(e.rtype(v.T[0]), e.rtypeConst(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())))
			}
			e.specMemo[n] = v
		}
		return v, true
	case "vErr":
		return v1(TInt(1)), true
	case "vEmp":
		return v1(e.emp(t(0))), true
	case "vSym":
		s := t(0)
		r := TApp("vSym", SInt, s)
		k := fmt.Sprintf("vSym|%d", r.id)
		if !e.wfDone[k] {
			e.wfDone[k] = true
			e.assert(TAnd(TLt(TInt(0), r), TLt(r, e.entry.alloc)))
			e.assert(TEq(e.read(e.dataKey("Type"), r, nil, e.entry), e.tagConst("SymbolType")))
			v := e.read(e.dataKey("Value"), r, nil, e.entry)
			ck := e.keyFor(&Addr{base: v, prefix: "cell.string", typ: types.Typ[types.String]}, e.leaves(types.Typ[types.String])[0])
			e.assert(TEq(e.read(ck, v, nil, e.entry), s))
			e.assert(TEq(TApp("symname", SStr, r), s))
		}
		return v1(r), true
	case "sameF":
		return v1(TEq(t(0), t(1))), true
	case "vFresh":
		return v1(TLe(e.freshBound, t(0))), true
	case "vHeldR":
		a := &Addr{base: t(0), prefix: "FrameMap.Mutex", typ: types.Typ[types.Int]}
		return v1(TNot(TEq(e.lockVal(a, st), TInt(0)))), true
	}
	return V{}, false
}

func (e *Env) specBuiltinFootprint(fn *ssa.Function) []*KeyInfo {
	if !specBuiltins[fn.Name()] {
		return nil
	}
	switch fn.Name() {
	case "sqOf", "sqOfBytes":
		et := under(fn.Params[0].Type()).(*types.Slice).Elem()
		return []*KeyInfo{e.elemKey(et)}
	}
	return []*KeyInfo{}
}
