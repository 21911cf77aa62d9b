package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Representation invariants: payload matches tag, required fields are non-nil,
// an object's emptiness as a list does not change, shared tables are touched
// only under their lock.

// ---- runtime types ------------------------------------------------------------

func (e *Env) rtype(r *Term) *Term { return TApp("rtype", SInt, r) }

func (e *Env) rtypeConst(t types.Type) *Term { return e.rtypeOf(e.typeStr(t)) }

func (e *Env) rtypeOf(s string) *Term {
	n, ok := e.rtypes[s]
	if !ok {
		n = len(e.rtypes) + 1
		e.rtypes[s] = n
	}
	return TInt(int64(n))
}

type tagRule struct {
	tag    string
	typ    string
	nilOK  bool
	isCons bool
}

var tagRules = []tagRule{
	{"ConsCellType", "ConsCell", true, true},
	{"AlistType", "ConsCell", true, true},
	{"AlistCellType", "ConsCell", true, true},
	{"IntegerType", "int64", false, false},
	{"FloatType", "float32", false, false},
	{"BooleanType", "bool", false, false},
	{"StringType", "string", false, false},
	{"SymbolType", "string", false, false},
	{"FunctionType", "Function", false, false},
	{"MacroType", "Macro", false, false},
	{"PrimitiveType", "PrimitiveFunction", false, false},
	{"BoxedObjectType", "BoxedObject", false, false},
	{"FrameType", "FrameMap", false, false},
	{"EnvironmentType", "SymbolTableFrame", false, false},
	{"PortType", "os.File", false, false},
}

var boxRules = [][2]string{{"[]byte", "[]uint8"}, {"Channel", "Channel"}, {"Process", "Process"}, {"Atomic", "int64"}}

func (e *Env) tagConst(name string) *Term {
	c, ok := e.pkg.Members[name].(*ssa.NamedConst)
	if !ok {
		panic("no tag constant " + name)
	}
	return TIntS(constant.ToInt(c.Value.Value).ExactString())
}

func (e *Env) dataKey(field string) *KeyInfo {
	t := e.pkg.Type("Data").Type()
	u := under(t).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == field {
			a := &Addr{base: TInt(0), prefix: "Data." + field, typ: u.Field(i).Type()}
			return e.keyFor(a, e.leaves(u.Field(i).Type())[0])
		}
	}
	panic("Data." + field)
}

func (e *Env) structKey(typ, field string) *KeyInfo {
	t := e.pkg.Type(typ).Type()
	u := under(t).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == field {
			a := &Addr{base: TInt(0), prefix: typ + "." + field, typ: u.Field(i).Type()}
			return e.keyFor(a, e.leaves(u.Field(i).Type())[0])
		}
	}
	panic(typ + "." + field)
}

// tagTable: payload V of an object with tag T is of the type the tag announces.
func (e *Env) tagTable(T, V *Term) *Term {
	var cs []*Term
	for _, r := range tagRules {
		c := TEq(e.rtype(V), e.rtypeOf(r.typ))
		nz := TNot(TEq(V, TInt(0)))
		if r.nilOK {
			c = TImp(nz, c)
		} else {
			c = TAnd(nz, c)
		}
		cs = append(cs, TImp(TEq(T, e.tagConst(r.tag)), c))
	}
	return TAnd(cs...)
}

func (e *Env) isConsTag(T *Term) *Term {
	return TOr(TEq(T, e.tagConst("ConsCellType")), TEq(T, e.tagConst("AlistType")), TEq(T, e.tagConst("AlistCellType")))
}

func (e *Env) emp(r *Term) *Term   { return TApp("emp", SBool, r) }
func (e *Env) ecell(c *Term) *Term { return TApp("ecell", SBool, c) }

func (e *Env) empDef(T, V *Term) *Term {
	return TAnd(e.isConsTag(T), TOr(TEq(V, TInt(0)), e.ecell(V)))
}

func (e *Env) boxTable(ot, ob *Term) *Term {
	var cs []*Term
	for _, r := range boxRules {
		cs = append(cs, TImp(TEq(ot, e.strLit(r[0])), TAnd(TNot(TEq(ob, TInt(0))), TEq(e.rtype(ob), e.rtypeOf(r[1])))))
	}
	return TAnd(cs...)
}

// wfFacts: facts about the value at r in base state h.
func (e *Env) wfFacts(h *Heap, r, inb *Term) {
	k := fmt.Sprintf("wf|%d|%d", h.id, r.id)
	if e.wfDone[k] {
		return
	}
	e.wfDone[k] = true
	T := TSelect(e.arr(h, e.dataKey("Type")), r)
	V := TSelect(e.arr(h, e.dataKey("Value")), r)
	nz := TNot(TEq(r, TInt(0)))
	e.assert(TImp(TAnd(inb, nz), TAnd(e.tagTable(T, V), TEq(e.emp(r), e.empDef(T, V)), TLe(TInt(0), T), TLe(T, TInt(255)), TLe(TInt(0), V), TLt(V, h.alloc))))
}

var nonNilFields = map[string]bool{
	"FrameMap.Data": true, "SymbolTableFrame.Bindings": true, "SymbolTableFrame.CurrentCode": true,
	"Function.Env": true, "Macro.Env": true, "PrimitiveFunction.Body": true,
}

// tables that belong to one object
var ownedMaps = map[string]bool{"FrameMap.Data": true, "SymbolTableFrame.Bindings": true}

// ownMap: a table made here and put into one place belongs to that place.
func (e *Env) ownMap(a *Addr, in *ssa.Store, v V, pc *Term) {
	m, ok := in.Val.(*ssa.MakeMap)
	if !ok || !ownedMaps[a.prefix] || a.base == nil || m.Block() != in.Block() || len(v.T) != 1 {
		return
	}
	for _, r := range *m.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Val == ssa.Value(m) && s != in {
			return
		}
		switch r.(type) {
		case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.MakeClosure:
			return
		}
	}
	e.assume(pc, TEq(TApp("mapowner", SInt, v.T[0]), a.base))
}

// values of these maps are never nil
var nonNilMapVals = map[string]bool{"map.map[string]*Binding.val": true}

func (e *Env) structInvFacts(h *Heap, k *KeyInfo, r, v, inb *Term) {
	if nonNilFields[k.name] {
		e.assert(TImp(TAnd(inb, TNot(TEq(r, TInt(0)))), TNot(TEq(v, TInt(0)))))
	}
	if ownedMaps[k.name] {
		e.assert(TImp(TAnd(inb, TNot(TEq(r, TInt(0)))), TEq(TApp("mapowner", SInt, v), r)))
	}
	if k.name == "ConsCell.Car" || k.name == "ConsCell.Cdr" {
		wk := fmt.Sprintf("ec|%d|%d", h.id, r.id)
		if !e.wfDone[wk] {
			e.wfDone[wk] = true
			a := TSelect(e.arr(h, e.structKey("ConsCell", "Car")), r)
			d := TSelect(e.arr(h, e.structKey("ConsCell", "Cdr")), r)
			e.assert(TImp(TAnd(inb, TNot(TEq(r, TInt(0)))), TEq(e.ecell(r), TAnd(TEq(a, TInt(0)), TEq(d, TInt(0))))))
		}
	}
	if k.name == "BoxedObject.ObjType" || k.name == "BoxedObject.Obj" {
		wk := fmt.Sprintf("box|%d|%d", h.id, r.id)
		if !e.wfDone[wk] {
			e.wfDone[wk] = true
			ot := TSelect(e.arr(h, e.structKey("BoxedObject", "ObjType")), r)
			ob := TSelect(e.arr(h, e.structKey("BoxedObject", "Obj")), r)
			e.assert(TImp(TAnd(inb, TNot(TEq(r, TInt(0)))), e.boxTable(ot, ob)))
		}
	}
}

// ---- objects under construction -------------------------------------------------

type dirtyObj struct {
	ref   *Term
	typ   string
	isNew bool
	guard *Term
	pos   token.Pos
	owner *Frame
	al    *ssa.Alloc
}

// private: the object is a literal still being filled in, which nothing but the
// instructions that fill it in has seen.
func (d *dirtyObj) private() bool {
	if d.al == nil || d.owner == nil || d.owner.cur == nil || d.owner.cur.Block() != d.al.Block() {
		return false
	}
	idx := map[ssa.Instruction]int{}
	for i, in := range d.al.Block().Instrs {
		idx[in] = i
	}
	now := idx[d.owner.cur]
	for _, r := range *d.al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && onlyStores(fa) {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if i, ok := idx[r]; !ok || i <= now {
			return false
		}
	}
	return true
}

func onlyStores(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		if s, ok := r.(*ssa.Store); !ok || s.Addr != ssa.Value(fa) {
			return false
		}
	}
	return true
}

var dirtyTypes = map[string]bool{"Data": true, "ConsCell": true, "BoxedObject": true, "FrameMap": true, "SymbolTableFrame": true, "Function": true, "Macro": true, "PrimitiveFunction": true}

func (e *Env) addDirty(st State, d *dirtyObj) State {
	for _, x := range st.dirty {
		if x.ref == d.ref && x.typ == d.typ && x.guard == d.guard {
			return st
		}
		// an object allocated in this stretch is still under construction
		if x.ref == d.ref && x.typ == d.typ && x.isNew && implies(d.guard, x.guard) {
			return st
		}
	}
	st.dirty = append(append([]*dirtyObj{}, st.dirty...), d)
	return st
}

// storeDirty notes a write to a field of an object with a representation invariant.
func (e *Env) storeDirty(f *Frame, a *Addr, st State, pc *Term, pos token.Pos) State {
	if a.base == nil {
		return st
	}
	i := strings.Index(a.prefix, ".")
	if i < 0 {
		if dirtyTypes[a.prefix] { // whole-struct store
			return e.addDirty(st, &dirtyObj{ref: a.base, typ: a.prefix, guard: pc, pos: pos})
		}
		return st
	}
	t := a.prefix[:i]
	if !dirtyTypes[t] {
		return st
	}
	if t == "Data" || t == "ConsCell" || t == "BoxedObject" || nonNilFields[a.prefix] {
		return e.addDirty(st, &dirtyObj{ref: a.base, typ: t, guard: pc, pos: pos})
	}
	return st
}

// flushAll: every object written since the last flush satisfies its invariant now.
func (e *Env) flushAll(f *Frame, st State, pc *Term) State {
	if len(st.dirty) == 0 {
		return st
	}
	var ds, keep []*dirtyObj
	for _, d := range st.dirty {
		if d.private() {
			keep = append(keep, d)
		} else {
			ds = append(ds, d)
		}
	}
	st.dirty = keep
	// cells first: emptiness of values depends on emptiness of cells
	for _, d := range ds {
		if d.typ == "ConsCell" {
			e.flushOne(f, d, st, TAnd(pc, d.guard))
		}
	}
	for _, d := range ds {
		if d.typ != "ConsCell" {
			e.flushOne(f, d, st, TAnd(pc, d.guard))
		}
	}
	return st
}

func (e *Env) flushOne(f *Frame, d *dirtyObj, st State, g *Term) {
	rd := func(typ, field string) *Term { return e.read(e.structKey(typ, field), d.ref, nil, st) }
	switch d.typ {
	case "ConsCell":
		c := TEq(e.ecell(d.ref), TAnd(TEq(rd("ConsCell", "Car"), TInt(0)), TEq(rd("ConsCell", "Cdr"), TInt(0))))
		if d.isNew {
			e.assume(g, c)
		} else {
			e.oblig(f, "empty", "a list cell written keeps its emptiness", d.pos, g, c)
		}
	case "Data":
		T, V := rd("Data", "Type"), rd("Data", "Value")
		e.oblig(f, "wf", "payload matches tag", d.pos, g, e.tagTable(T, V))
		c := TEq(e.emp(d.ref), e.empDef(T, V))
		if d.isNew {
			e.assume(g, c)
		} else {
			e.oblig(f, "empty", "a value written keeps its emptiness", d.pos, g, c)
		}
	case "BoxedObject":
		e.oblig(f, "wf", "boxed payload matches its kind", d.pos, g, e.boxTable(rd("BoxedObject", "ObjType"), rd("BoxedObject", "Obj")))
	default:
		if d.typ == "SymbolTableFrame" && d.isNew && e.wantKind("restr") {
			par := rd(d.typ, "Parent")
			e.oblig(f, "restr", "an environment below a restricted one is restricted", d.pos, g, TOr(TEq(par, TInt(0)), TNot(e.read(e.structKey(d.typ, "IsRestricted"), par, nil, e.entry)), rd(d.typ, "IsRestricted")))
		}
		for _, k := range sortedKeys(nonNilFields) {
			if strings.HasPrefix(k, d.typ+".") {
				fl := k[len(d.typ)+1:]
				e.oblig(f, "inv", k+" is set", d.pos, g, TNot(TEq(rd(d.typ, fl), TInt(0))))
				if ownedMaps[k] {
					e.oblig(f, "inv", k+" belongs to this object only", d.pos, g, TEq(TApp("mapowner", SInt, rd(d.typ, fl)), d.ref))
				}
			}
		}
	}
}

// ---- locks ------------------------------------------------------------------------

func (e *Env) lockKey(a *Addr) *KeyInfo {
	lv := 1
	if a.global != nil {
		lv = 0
	}
	return e.keyReg("lock."+a.prefix, lv, "", SInt, false)
}

func (e *Env) lockVal(a *Addr, st State) *Term {
	k := e.lockKey(a)
	if k.level == 0 {
		return e.arr(st.heap, k)
	}
	return TSelect(e.arr(st.heap, k), a.base)
}

func (e *Env) lockOp(f *Frame, op string, m V, pos token.Pos, pc *Term, st State) State {
	if m.addr == nil {
		e.notes["lock operation on an untracked mutex in "+e.shortFn(f.fn.String())] = true
		return st
	}
	a := m.addr
	e.nilCheck(f, a, pos, pc)
	k := e.lockKey(a)
	v := e.read(k, a.base, nil, st)
	var nv *Term
	switch op {
	case "RLock":
		e.oblig(f, "lock", "RLock of "+a.prefix+": not write-locked by this call", pos, pc, TLe(TInt(0), v))
		nv = TAdd(v, TInt(1))
	case "RUnlock":
		e.oblig(f, "lock", "RUnlock of "+a.prefix+": read-locked by this call", pos, pc, TLe(TInt(1), v))
		nv = TSub(v, TInt(1))
	case "Lock":
		e.oblig(f, "lock", "Lock of "+a.prefix+": not locked by this call", pos, pc, TEq(v, TInt(0)))
		nv = TInt(-1)
	case "Unlock":
		e.oblig(f, "lock", "Unlock of "+a.prefix+": write-locked by this call", pos, pc, TEq(v, TInt(-1)))
		nv = TInt(0)
	}
	st.heap = e.hStore(st.heap, k.name, a.base, nil, nv)
	if op == "Lock" || op == "RLock" {
		e.lockSites = append(e.lockSites, lockSite{k, a.base})
	}
	return st
}

type lockSite struct {
	k    *KeyInfo
	base *Term
}

// guarded map fields -> sibling mutex
var guardedMaps = map[string]string{
	"FrameMap.Data":                       "FrameMap.Mutex",
	"SymbolTableFrame.Bindings":           "SymbolTableFrame.Mutex",
	"g.internedSymbols.Symbols":           "g.internedSymbols.Mutex",
	"g.TopLevelEnvironments.Environments": "g.TopLevelEnvironments.Mutex",
	"g.symbolCounts":                      "g.symbolCountsMutex",
}

func (e *Env) mapOrigin(in ssa.Value, a *Addr, v V) {
	if mu, ok := guardedMaps[a.prefix]; ok && len(v.T) == 1 {
		m := *a
		m.prefix = mu
		e.mapOrig[v.T[0].id] = &m
	}
}

func (e *Env) lockOblig(f *Frame, a *Addr, write bool, pos token.Pos, pc *Term, st State) {
	if f.spec || !write {
		return
	}
	// replacing a guarded map needs the write lock too, unless the owner is under construction
	if mu, ok := guardedMaps[a.prefix]; ok {
		m := *a
		m.prefix = mu
		var fresh *Term = TFalse()
		if a.base != nil {
			fresh = TLe(e.entry.alloc, a.base)
		}
		e.oblig(f, "lock", "write to "+a.prefix+" under its lock", pos, pc, TOr(fresh, TEq(e.lockVal(&m, st), TInt(-1))))
	}
}

func (e *Env) mapAccess(f *Frame, mv ssa.Value, m V, mt *types.Map, write bool, pos token.Pos, pc *Term, st State) {
	if f.spec {
		return
	}
	if len(m.T) == 0 {
		return
	}
	var find func(t *Term, depth int) *Addr
	find = func(t *Term, depth int) *Addr {
		if a, ok := e.mapOrig[t.id]; ok {
			return a
		}
		return nil
	}
	a := find(m.T[0], 0)
	if a == nil {
		// a map not reached through a guarded field: must be this call's own
		ts := e.typeStr(mv.Type())
		if ts == "FrameMapData" || ts == "map[string]*Binding" {
			e.oblig(f, "lock", "access to a shared table through an untracked path", pos, pc, TLe(e.entry.alloc, m.T[0]))
		}
		return
	}
	held := TNot(TEq(e.lockVal(a, st), TInt(0)))
	what := "read of the table guarded by " + a.prefix
	if write {
		held = TEq(e.lockVal(a, st), TInt(-1))
		what = "write to the table guarded by " + a.prefix
	}
	fresh := TFalse()
	if a.base != nil {
		fresh = TLe(e.entry.alloc, a.base)
	}
	e.oblig(f, "lock", what, pos, pc, TOr(fresh, held))
}

// ---- protection and restriction ------------------------------------------------------

// guardOblig: writes to the fields that protect bindings and restrict environments.
func (e *Env) guardOblig(f *Frame, a *Addr, v V, pos token.Pos, pc *Term, st State) {
	if f.spec || a.base == nil || a.global != nil || !e.wantKind("prot") && !e.wantKind("restr") {
		return
	}
	fresh := TLe(e.entry.alloc, a.base)
	rd := func(typ, field string) *Term { return e.read(e.structKey(typ, field), a.base, nil, st) }
	switch a.prefix {
	case "Binding.Val":
		e.oblig(f, "prot", "the binding written is not protected", pos, pc, TOr(fresh, TNot(rd("Binding", "Protected"))))
	case "Binding.Protected":
		e.oblig(f, "prot", "protection is not lifted", pos, pc, TOr(fresh, v.T[0], TNot(rd("Binding", "Protected"))))
	case "Binding":
		e.oblig(f, "prot", "the binding written is new", pos, pc, fresh)
	case "SymbolTableFrame.IsRestricted":
		e.oblig(f, "restr", "the restriction of an environment is not lifted", pos, pc, TOr(fresh, v.T[0], TNot(rd("SymbolTableFrame", "IsRestricted"))))
	case "SymbolTableFrame.Parent", "SymbolTableFrame":
		e.oblig(f, "restr", "an environment stays below its parent", pos, pc, fresh)
	case "PrimitiveFunction.IsRestricted", "PrimitiveFunction.Body", "PrimitiveFunction":
		e.oblig(f, "restr", "a builtin stays as registered", pos, pc, fresh)
	}
}

// bindOblig: a table of bindings gets a new entry, not another one for a protected name.
func (e *Env) bindOblig(f *Frame, mt types.Type, m, key *Term, pos token.Pos, pc *Term, st State) {
	if f.spec || !e.wantKind("prot") || e.typeStr(mt) != "map[string]*Binding" {
		return
	}
	g := e.mapGet(mt, m, key, true, st)
	prot := e.read(e.structKey("Binding", "Protected"), g.T[0], nil, st)
	e.oblig(f, "prot", "a protected name is not bound anew", pos, pc, TOr(TLe(e.entry.alloc, m), TNot(g.T[1]), TNot(prot)))
}

// bindCallOblig: calls of the operations that do not check protection themselves.
func (e *Env) bindCallOblig(f *Frame, short string, fn *ssa.Function, args []V, pos token.Pos, pc *Term, st State) {
	if f.spec || !e.wantKind("prot") {
		return
	}
	switch short {
	case "(*SymbolTableFrame).SetBindingAt":
		mt := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
		stt := under(mt).(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == "Bindings" {
				m := e.read(e.structKey("SymbolTableFrame", "Bindings"), args[0].T[0], nil, st)
				e.bindOblig(f, stt.Field(i).Type(), m, args[1].T[0], pos, pc, st)
			}
		}
	case "(*SymbolTableFrame).BindToProtected":
		if e.isPrimBody(e.root.Signature) {
			e.oblig(f, "prot", "a builtin does not define protected names", pos, pc, TFalse())
		}
	}
}

// bodyOblig: a builtin's code is entered only where it is allowed.
func (e *Env) bodyOblig(f *Frame, c *ssa.CallCommon, args []V, pos token.Pos, pc *Term) {
	if f.spec || !e.wantKind("restr") || !e.isPrimBody(c.Signature()) {
		return
	}
	ok := TFalse()
	if ld, isLd := c.Value.(*ssa.UnOp); isLd {
		if fa, isFA := ld.X.(*ssa.FieldAddr); isFA {
			if a := f.get(e, fa).addr; a != nil && a.prefix == "PrimitiveFunction.Body" && a.base != nil {
				ok = TNot(TAnd(e.read(e.structKey("PrimitiveFunction", "IsRestricted"), a.base, nil, e.entry),
					e.read(e.structKey("SymbolTableFrame", "IsRestricted"), args[1].T[0], nil, e.entry)))
			}
		}
	}
	e.oblig(f, "restr", "code of a restricted builtin is not entered in a restricted environment", pos, pc, ok)
}

// ---- frames -------------------------------------------------------------------------

func (e *Env) modTerms(a *Addr) []*Term {
	if e.rootC == nil || e.rootC.mods == nil {
		return nil
	}
	if !e.rootC.modifiesKey(a.prefix) {
		return nil
	}
	v := e.specCall(e.rootC.mods, e.rootArgs, e.entry)
	return v.T
}

func (e *Env) frameObligRef(f *Frame, key string, x *Term, pos token.Pos, pc *Term) {
	e.frameOblig(f, &Addr{base: x, prefix: key, typ: types.Typ[types.Int]}, pos, pc, State{})
}

func (e *Env) frameObligAny(f *Frame, key string, pos token.Pos, pc *Term) {
	if e.rootC != nil && (e.rootC.noFrame || e.rootC.modifiesKeyAny(key)) {
		return
	}
	e.oblig(f, "frame", "callee may write "+key, pos, pc, TFalse())
}

// ---- globals --------------------------------------------------------------------------

var configGlobals = map[string]bool{"IsInteractive": true, "DebugOnError": true, "DebugSingleStep": true, "LispTrace": true, "DebugCurrentFrame": true, "DebugReturnValue": true, "DebugEvalInDebugRepl": true}

func (e *Env) globalFacts(a *Addr, v V, st State) {
	g := a.global
	if g.Pkg != e.pkg {
		return
	}
	n := a.prefix[2:]
	t := v.T[0]
	switch {
	case configGlobals[n]:
		e.notes["configuration: "+n+" is off"] = true
		if t.sort == SBool {
			e.assert(TNot(t))
		} else {
			e.assert(TEq(t, TInt(0)))
		}
	case n == "LispTrue" || n == "LispFalse":
		k := fmt.Sprintf("lg|%d", t.id)
		if e.wfDone[k] {
			return
		}
		e.wfDone[k] = true
		e.assert(TAnd(TLt(TInt(0), t), TLt(t, e.entry.alloc)))
		T := e.read(e.dataKey("Type"), t, nil, e.entry)
		V := e.read(e.dataKey("Value"), t, nil, e.entry)
		e.assert(TEq(T, e.tagConst("BooleanType")))
		ck := e.keyFor(&Addr{base: V, prefix: "cell.bool", typ: types.Typ[types.Bool]}, e.leaves(types.Typ[types.Bool])[0])
		b := e.read(ck, V, nil, e.entry)
		if n == "LispTrue" {
			e.assert(b)
		} else {
			e.assert(TNot(b))
		}
	case n == "Global":
		e.assert(TLt(TInt(0), t))
	default:
		if e.nonNilGlobals[n] {
			e.assert(TNot(TEq(t, TInt(0))))
		}
	}
}

// ---- package scans -----------------------------------------------------------------------

// scanImmutable finds globals never assigned after initialisation and struct
// fields assigned only on objects the same function has just allocated.
func (w *World) scanImmutable(e *Env) {
	stored := map[string]bool{}
	var baseName func(v ssa.Value) (string, bool)
	baseName = func(v ssa.Value) (string, bool) { // key, local
		switch v := v.(type) {
		case *ssa.Global:
			return "g." + v.Name(), false
		case *ssa.FieldAddr:
			st := v.X.Type().Underlying().(*types.Pointer).Elem()
			fl := under(st).(*types.Struct).Field(v.Field)
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				n, l := baseName(fa)
				return n + "." + fl.Name(), l
			}
			if g, ok := v.X.(*ssa.Global); ok {
				return "g." + g.Name() + "." + fl.Name(), false
			}
			_, isAlloc := v.X.(*ssa.Alloc)
			return e.typeKey(st) + "." + fl.Name(), isAlloc
		}
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			_, isAlloc := v.(*ssa.Alloc)
			return e.typeKey(pt.Elem()), isAlloc
		}
		return "?", false
	}
	fields := map[string]bool{}
	for _, m := range w.pkg.Members {
		if t, ok := m.(*ssa.Type); ok {
			if st, ok := under(t.Type()).(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					fields[m.Name()+"."+st.Field(i).Name()] = true
				}
			}
		}
		if g, ok := m.(*ssa.Global); ok {
			fields["g."+g.Name()] = true
			if st, ok := under(g.Type().(*types.Pointer).Elem()).(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					fields["g."+g.Name()+"."+st.Field(i).Name()] = true
				}
			}
		}
	}
	nonNil := map[string]bool{}
	for _, fn := range w.allFns {
		if w.specFns[fn] {
			continue
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					k, local := baseName(in.Addr)
					if isInit {
						var gn string
						if g, ok := in.Addr.(*ssa.Global); ok {
							gn = g.Name()
						}
						if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
							if g, ok := fa.X.(*ssa.Global); ok {
								gn = g.Name() + "." + under(fa.X.Type().(*types.Pointer).Elem()).(*types.Struct).Field(fa.Field).Name()
							}
						}
						if gn != "" {
							switch in.Val.(type) {
							case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeChan:
								nonNil[gn] = true
							}
						}
						continue
					}
					if !local {
						stored[k] = true
						// a whole-struct store writes every field
						for f := range fields {
							if strings.HasPrefix(f, k+".") {
								stored[f] = true
							}
						}
					}
				case ssa.CallInstruction:
					// address passed to a call: may be written there
					for _, a := range in.Common().Args {
						switch a.(type) {
						case *ssa.FieldAddr, *ssa.Global:
							k, _ := baseName(a)
							stored[k] = true
						}
					}
				}
			}
		}
	}
	localElems = map[string]bool{}
	if w.scanLocal("*Data", e) {
		localElems["elem.*Data"] = true
		if os.Getenv("GOVC_V") != "" {
			fmt.Fprintln(os.Stderr, "slices of *Data are local")
		}
	}
	immutableKeys = map[string]bool{}
	w.nonNilGlobals = map[string]bool{}
	for f := range fields {
		if !stored[f] && !strings.HasSuffix(f, "Mutex") {
			immutableKeys[f] = true
			if strings.HasPrefix(f, "g.") && nonNil[f[2:]] {
				w.nonNilGlobals[f[2:]] = true
			}
		}
	}
}

// element arrays no structure, table or value of the program holds: only the
// function that made a slice of them (and what it passes it to) can reach them
var localElems = map[string]bool{}

// scanLocal: slices of the element type live in local variables, parameters and results only.
func (w *World) scanLocal(elem string, e *Env) bool {
	isSl := func(t types.Type) bool {
		if s, ok := under(t).(*types.Slice); ok {
			return e.typeStr(s.Elem()) == elem
		}
		if p, ok := under(t).(*types.Pointer); ok {
			switch x := under(p.Elem()).(type) {
			case *types.Slice:
				return e.typeStr(x.Elem()) == elem
			case *types.Array:
				return e.typeStr(x.Elem()) == elem
			}
			return e.typeStr(p.Elem()) == elem && elem != "*Data"
		}
		return false
	}
	for _, fn := range w.allFns {
		if w.specFns[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if !isSl(in.Val.Type()) {
						continue
					}
					if _, ok := in.Addr.(*ssa.Alloc); !ok {
						return false
					}
				case *ssa.MapUpdate:
					if isSl(in.Value.Type()) {
						return false
					}
				case *ssa.MakeInterface:
					if isSl(in.X.Type()) && !sortOnly(in) {
						return false
					}
				case *ssa.Convert:
					if isSl(in.X.Type()) && !isSl(in.Type()) {
						return false
					}
				case *ssa.Send:
					if isSl(in.X.Type()) {
						return false
					}
				case *ssa.MakeClosure:
					for _, v := range in.Bindings {
						if isSl(v.Type()) && !sortOnly(in) {
							return false
						}
					}
				case ssa.CallInstruction:
					c := in.Common()
					if s := c.StaticCallee(); s != nil && s.Pkg == w.pkg {
						continue
					}
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					for _, v := range c.Args {
						if isSl(v.Type()) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// sortOnly: the value is only handed to the sort package, which does not keep it.
func sortOnly(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			s := r.Call.StaticCallee()
			if s == nil || s.Pkg == nil || s.Pkg.Pkg.Path() != "sort" {
				return false
			}
		default:
			return false
		}
	}
	return true
}
