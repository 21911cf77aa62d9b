package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// ---- heap keys -------------------------------------------------------------

type KeyInfo struct {
	name     string
	level    int // 0 global scalar, 1 ref-indexed, 2 ref- and idx-indexed
	idx      Sort
	val      Sort
	isRef    bool   // value is a reference (pointer-like)
	min, max string // integer range, if any
}

func (k *KeyInfo) arrSort() Sort {
	switch k.level {
	case 0:
		return k.val
	case 1:
		return arrSort(SInt, k.val)
	}
	return arrSort(SInt, arrSort(k.idx, k.val))
}

type Leaf struct {
	suffix string
	sort   Sort
	isRef  bool
	typ    types.Type
}

func under(t types.Type) types.Type { return t.Underlying() }

func (e *Env) leaves(t types.Type) []Leaf {
	if l, ok := e.leafCache[t]; ok {
		return l
	}
	l := e.leaves1(t)
	e.leafCache[t] = l
	return l
}

func (e *Env) leaves1(t types.Type) []Leaf {
	if e.isSeqType(t) {
		return []Leaf{{"", SSeq, false, t}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, false, t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, false, t}}
		case u.Kind() == types.Float32:
			return []Leaf{{"", SF32, false, t}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SF64, false, t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, false, t}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", SInt, true, t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, true, t}}
		}
		return []Leaf{{"", SInt, false, t}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return []Leaf{{"", SInt, true, t}}
	case *types.Slice:
		return []Leaf{{".base", SInt, true, types.Typ[types.UnsafePointer]}, {".off", SInt, false, types.Typ[types.Int]}, {".len", SInt, false, types.Typ[types.Int]}, {".cap", SInt, false, types.Typ[types.Int]}}
	case *types.Struct:
		var out []Leaf
		if named, ok := t.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() != e.pkgPath {
			// foreign struct: opaque
			return []Leaf{{".opaque", SInt, false, t}}
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range e.leaves(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.suffix, l.sort, l.isRef, l.typ})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range e.leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("#%d%s", i, l.suffix), l.sort, l.isRef, l.typ})
			}
		}
		return out
	case *types.Array:
		return []Leaf{{".array", SInt, false, t}}
	}
	return []Leaf{{"", SInt, false, t}}
}

func (e *Env) isSeqType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == e.pkgPath && n.Obj().Name() == "sq"
}

// typeKey names the heap region of objects of type t.
func (e *Env) typeKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		p := n.Obj().Pkg()
		if p == nil || p.Path() == e.pkgPath {
			if _, isStruct := under(t).(*types.Struct); isStruct || true {
				return n.Obj().Name()
			}
		}
		return p.Name() + "." + n.Obj().Name()
	}
	return "cell." + e.typeStr(t)
}

func (e *Env) typeStr(t types.Type) string {
	return canonTypes(types.TypeString(t, func(p *types.Package) string {
		if p.Path() == e.pkgPath {
			return ""
		}
		return p.Name()
	}))
}

func intRange(t types.Type) (string, string, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return "", "", false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return "-9223372036854775808", "9223372036854775807", true
	case types.Int32, types.UntypedRune:
		return "-2147483648", "2147483647", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int8:
		return "-128", "127", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint8:
		return "0", "255", true
	}
	return "", "", false
}

// ---- heap states -----------------------------------------------------------

var byteRe = regexp.MustCompile(`\bbyte\b`)
var runeRe = regexp.MustCompile(`\brune\b`)

func canonTypes(s string) string {
	return runeRe.ReplaceAllString(byteRe.ReplaceAllString(s, "uint8"), "int32")
}

type hkind int

const (
	hInit hkind = iota
	hStore
	hHavoc
	hMerge
)

// FrameOpt: under guard g the havocked array agrees with its parent at refs < bound (bound nil: everywhere) except excl.
type FrameOpt struct {
	g, bound *Term
	excl     []*Term
}

type Heap struct {
	id     int
	kind   hkind
	parent *Heap
	// store
	key           string
	ref, idx, val *Term
	// merge
	conds   []*Term
	parents []*Heap
	// havoc
	name    string
	affects func(key string) bool
	frame   func(k *KeyInfo) []FrameOpt // agreement with parent
	alloc   *Term                       // allocation counter at this node (init, havoc)
	newArr  func(k *KeyInfo) *Term
	wtok    *Term
	depth   int
	priv    []*dirtyObj // objects not complete at this point

	arrs map[string]*Term
}

func (e *Env) newHeap(h *Heap) *Heap {
	e.heapN++
	h.id = e.heapN
	h.arrs = map[string]*Term{}
	if h.parent != nil {
		h.depth = h.parent.depth + 1
	}
	for _, p := range h.parents {
		if p.depth+1 > h.depth {
			h.depth = p.depth + 1
		}
	}
	return h
}

func (e *Env) initHeap(name string) *Heap {
	return e.newHeap(&Heap{kind: hInit, name: name, alloc: e.entry.alloc})
}

func (e *Env) hStore(h *Heap, key string, ref, idx, val *Term) *Heap {
	return e.newHeap(&Heap{kind: hStore, parent: h, key: key, ref: ref, idx: idx, val: val})
}

func (e *Env) hMerge(conds []*Term, hs []*Heap) *Heap {
	same := true
	for _, h := range hs {
		if h != hs[0] {
			same = false
		}
	}
	if same {
		return hs[0]
	}
	return e.newHeap(&Heap{kind: hMerge, conds: conds, parents: hs})
}

func (e *Env) arr(h *Heap, k *KeyInfo) *Term {
	if t, ok := h.arrs[k.name]; ok {
		return t
	}
	var t *Term
	switch h.kind {
	case hInit:
		if strings.HasPrefix(k.name, "lock.") && (e.rootC == nil || !e.rootC.underLock) {
			if k.level == 0 {
				t = TInt(0)
			} else {
				t = TConstArr(k.arrSort(), TInt(0))
			}
		} else {
			t = TConst(h.name+"."+k.name, k.arrSort())
		}
	case hStore:
		p := e.arr(h.parent, k)
		if h.key != k.name {
			t = p
		} else {
			switch k.level {
			case 0:
				t = h.val
			case 1:
				t = TStore(p, h.ref, h.val)
			case 2:
				if h.idx == nil {
					t = TStore(p, h.ref, h.val)
				} else {
					t = TStore(p, h.ref, TStore(TSelect(p, h.ref), h.idx, h.val))
				}
			}
		}
	case hMerge:
		n := len(h.parents)
		t = e.arr(h.parents[n-1], k)
		for i := n - 2; i >= 0; i-- {
			t = TIte(h.conds[i], e.arr(h.parents[i], k), t)
		}
	case hHavoc:
		if h.affects != nil && !h.affects(k.name) {
			t = e.arr(h.parent, k)
		} else {
			t = h.newArr(k)
		}
	}
	h.arrs[k.name] = t
	return t
}

type instKey struct {
	heap int
	key  string
	ref  int
	idx  int
}

// instFrame emits, for a read of key k at ref r (and idx), the facts about the
// uninterpreted arrays it may come from: frame agreement across havocs, integer
// ranges, closedness of references, well-formedness of tagged values.
func (e *Env) instFrame(h *Heap, k *KeyInfo, r, idx *Term) {
	for {
		switch h.kind {
		case hStore:
			h = h.parent
			continue
		case hMerge:
			ik := instKey{h.id, k.name, tid(r), tid(idx)}
			if e.instDone[ik] {
				return
			}
			e.instDone[ik] = true
			for _, p := range h.parents {
				e.instFrame(p, k, r, idx)
			}
			return
		case hInit, hHavoc:
			if h.kind == hHavoc && h.affects != nil && !h.affects(k.name) {
				// the same array, but more objects are known to be complete
				if k.level == 1 && !e.functional() && (k.isRef || strings.HasPrefix(k.name, "Data.") || strings.HasPrefix(k.name, "ConsCell.") || strings.HasPrefix(k.name, "BoxedObject.")) {
					ik := instKey{h.id, k.name, tid(r), tid(idx)}
					if !e.instDone[ik] {
						e.instDone[ik] = true
						e.baseFacts(h, k, r, idx)
					}
				}
				h = h.parent
				continue
			}
			ik := instKey{h.id, k.name, tid(r), tid(idx)}
			if e.instDone[ik] {
				return
			}
			e.instDone[ik] = true
			e.baseFacts(h, k, r, idx)
			if h.kind == hInit {
				return
			}
			for _, o := range h.frame(k) {
				conds := []*Term{o.g}
				if k.level > 0 {
					if o.bound != nil {
						conds = append(conds, TLt(r, o.bound))
					}
					for _, x := range o.excl {
						conds = append(conds, TNot(TEq(r, x)))
					}
				} else if o.bound != nil || len(o.excl) > 0 {
					continue
				}
				a1, a2 := e.arr(h, k), e.arr(h.parent, k)
				if k.level == 0 {
					e.assert(TImp(TAnd(conds...), TEq(a1, a2)))
				} else {
					e.assert(TImp(TAnd(conds...), TEq(TSelect(a1, r), TSelect(a2, r))))
				}
			}
			h = h.parent
			continue
		}
	}
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func (e *Env) baseFacts(h *Heap, k *KeyInfo, r, idx *Term) {
	a := e.arr(h, k)
	var v *Term
	inb := TTrue()
	switch k.level {
	case 0:
		v = a
	case 1:
		v = TSelect(a, r)
		inb = TLt(r, h.alloc)
	case 2:
		if idx == nil {
			return
		}
		v = TSelect(TSelect(a, r), idx)
		inb = TLt(r, h.alloc)
	}
	if k.isRef {
		e.assert(TLe(TInt(0), v))
		e.assert(TImp(inb, TLt(v, h.alloc)))
	} else if k.min != "" {
		e.assert(TAnd(TLe(TIntS(k.min), v), TLe(v, TIntS(k.max))))
	}
	if r != nil && len(h.priv) > 0 {
		cs := []*Term{inb}
		for _, d := range h.priv {
			cs = append(cs, TNot(TEq(r, d.ref)))
		}
		inb = TAnd(cs...)
	}
	if k.name == "Data.Type" || k.name == "Data.Value" {
		e.wfFacts(h, r, inb)
	}
	e.structInvFacts(h, k, r, v, inb)
}

// onlyFresh: all writes (to keys in fp) between heap q and heap s hit refs >= mark.
func (e *Env) onlyFresh(q, s *Heap, mark *Term, fp map[string]bool) *Term {
	memo := map[int]*Term{}
	keys := sortedKeys(fp)
	var rec func(s *Heap) *Term
	rec = func(s *Heap) *Term {
		if s == q {
			return TTrue()
		}
		if s.depth < q.depth {
			return TFalse()
		}
		if t, ok := memo[s.id]; ok {
			return t
		}
		var t *Term
		switch s.kind {
		case hInit:
			t = TFalse()
		case hStore:
			t = rec(s.parent)
			if fp[s.key] {
				if s.ref == nil {
					t = TFalse()
				} else {
					t = TAnd(t, TLe(mark, s.ref))
				}
			}
		case hMerge:
			var cs []*Term
			for i, p := range s.parents {
				cs = append(cs, TImp(s.conds[i], rec(p)))
			}
			t = TAnd(cs...)
		case hHavoc:
			t = rec(s.parent)
			for _, k := range keys {
				if s.affects != nil && !s.affects(k) {
					continue
				}
				ki := e.keys[k]
				if ki == nil {
					continue
				}
				var ors []*Term
				for _, o := range s.frame(ki) {
					c := []*Term{o.g}
					if o.bound != nil {
						c = append(c, TLe(mark, o.bound))
					}
					for _, x := range o.excl {
						c = append(c, TLe(mark, x))
					}
					ors = append(ors, TAnd(c...))
				}
				t = TAnd(t, TOr(ors...))
			}
		}
		memo[s.id] = t
		return t
	}
	return rec(s)
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// stable keys: list structure and scalar payloads, preserved by calls into evaluated code (assumption A-STABLE).
func stableKey(k string) bool {
	return strings.HasPrefix(k, "Data.") || strings.HasPrefix(k, "ConsCell.") || strings.HasPrefix(k, "BoxedObject.") ||
		k == "cell.int64" || k == "cell.float32" || k == "cell.string" || k == "cell.bool" || immutableKeys[k]
}

// fields never written after construction (checked package-wide by the "const-fields" obligation)
var immutableKeys = map[string]bool{}
