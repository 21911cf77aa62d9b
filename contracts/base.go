package golisp

//govc:pure
func spec_Intern(name string) *Data { return vSym(name) }

//govc:trusted ghost symbol table: see C24
func ctr_Intern() {}

// ---- registration (runs before any program) ----

//govc:opaque
func ctr_MakePrimitiveFunction() {}

//govc:opaque
func ctr_MakeRestrictedPrimitiveFunction() {}

//govc:opaque
func ctr_MakeSpecialForm() {}

//govc:opaque
func ctr_MakeRestrictedSpecialForm() {}

//govc:skiproot
//govc:opaque
func ctr_InitLisp() {}

//govc:skiproot
//govc:opaque
func ctr_InitBuiltins() {}

//govc:skiproot
//govc:opaque
func ctr_InitEnvironments() {}

// ---- values ----

//govc:event vv pure
//govc:underlock
func ctr_IsEqual() {}

//govc:pure
//govc:underlock
func ctr_String() {}

//govc:pure
//govc:underlock
func ctr_PrintString() {}

//govc:underlock
func ctr_Copy() {}

//govc:pure
func spec_Length(d *Data) int {
	if d == nil {
		return 0
	}
	if d.Type == ConsCellType || d.Type == AlistType {
		return vLen(d)
	}
	if vIsBytes(d) {
		return len(vBytes(d))
	}
	if d.Type == FrameType {
		return len((*FrameMap)(d.Value).Data)
	}
	return 0
}

func vIsBytes(d *Data) bool {
	return d != nil && d.Type == BoxedObjectType && (*BoxedObject)(d.Value).ObjType == "[]byte"
}

func vBytes(d *Data) []byte {
	return *(*[]byte)((*BoxedObject)(d.Value).Obj)
}

func loop_Length(c *Data, l int) int { return l + vLen(c) }

// ---- list building ----

//govc:trusted appending to the last cell of the list under construction is out of reach of single-state sequence specifications; executed on generated inputs instead
func post_ArrayToList(s []*Data, r *Data) bool {
	return r != nil && r.Type == ConsCellType && vFresh(r) && sqEq(listOf(r), sqOf(s))
}

//govc:trusted as ArrayToList
func post_ArrayToListWithTail(s []*Data, tail *Data, r *Data) bool {
	if len(s) == 0 {
		return vNil(tail) && vNil(r) || vSame(r, tail)
	}
	return vIsCons(r) && vFresh(r) && sqEq(listOf(r), sqCat(sqOf(s), listOf(tail)))
}

func ctr_ToArray() {}

func ctr_Reverse() {}

func pre_Append(l *Data, value *Data) bool { return vIsList(l) }

func pre_AppendList(l *Data, otherList *Data) bool { return vIsList(l) }

func ctr_Flatten() {}

func ctr_RecursiveFlatten() {}

func ctr_QuoteIt() {}

func ctr_QuoteAll() {}

func ctr_Alist() {}

func ctr_Dissoc() {}

func ctr_Assoc() {}

//govc:modifiesany ConsCell.Cdr
func pre_AppendBang(l *Data, value *Data) bool { return vIsList(l) }

//govc:modifiesany ConsCell.Cdr
func pre_AppendBangList(l *Data, otherList *Data) bool { return vIsList(l) }

//govc:modifiesany ConsCell.Cdr
func ctr_RemoveFromListBang() {}

//govc:modifiesany ConsCell.Cdr
func ctr_Acons() {}

//govc:event vvvvv
func ctr_Function_internalApply() {}

//govc:event vvvv
func ctr_Macro_internalApply() {}

func ctr_processQuasiquoted() {}

func ctr_internalAppendBytes() {}

// Constructors are judged where they are used.

//govc:skiproot
//govc:rootonly
func ctr_ObjectWithTypeAndValue() {}

//govc:skiproot
//govc:rootonly
func ctr_FrameWithValue() {}

//govc:skiproot
//govc:rootonly
func ctr_PortWithValue() {}

//govc:skiproot
//govc:rootonly
func ctr_PrimitiveWithNameAndFunc() {}

func pre_MakePrimitiveFunction(name string, argCount string, function func(*Data, *SymbolTableFrame) (*Data, error)) bool {
	return function != nil
}

func pre_MakeRestrictedPrimitiveFunction(name string, argCount string, function func(*Data, *SymbolTableFrame) (*Data, error)) bool {
	return function != nil
}

func pre_MakeSpecialForm(name string, argCount string, function func(*Data, *SymbolTableFrame) (*Data, error)) bool {
	return function != nil
}

func pre_MakeRestrictedSpecialForm(name string, argCount string, function func(*Data, *SymbolTableFrame) (*Data, error)) bool {
	return function != nil
}

func pre_SymbolTableFrame_SetBindingAt(env *SymbolTableFrame, name string, b *Binding) bool { return b != nil }
