package golisp

// What the destructive operations are documented to change.

//govc:modifiesany ConsCell.Cdr
func ctr_AconsImpl() {}

//govc:modifiesany ConsCell.Cdr
func ctr_AppendBangImpl() {}

//govc:modifiesany ConsCell.Car
func ctr_SetCarImpl() {}

//govc:modifiesany ConsCell.Cdr
func ctr_SetCdrImpl() {}

//govc:modifiesany ConsCell.Car
func ctr_SetNthImpl() {}

//govc:modifiesany ConsCell.Car
func ctr_SetNth() {}

func pre_SetNth(list *Data, index int, value *Data) bool { return vIsList(list) }

//govc:modifiesany cell.int64
func ctr_AtomicAddImpl() {}

//govc:modifiesany cell.int64
func ctr_AtomicStoreImpl() {}

//govc:modifiesany cell.int64
func ctr_AtomicSwapImpl() {}

//govc:modifiesany cell.int64
func ctr_AtomicCompareAndSwapImpl() {}

//govc:modifiesany elem.uint8
//govc:inline internalReplaceByte
func ctr_ReplaceByteBangImpl() {}

//govc:modifiesany BoxedObject.Obj
func ctr_AppendBytesBangImpl() {}

//govc:modifiesany Data.Value
func ctr_StringCapitalizeBangImpl() {}

//govc:modifiesany Data.Value
func ctr_StringUpcaseBangImpl() {}

//govc:modifiesany Data.Value
func ctr_StringDowncaseBangImpl() {}

//govc:modifiesany Data.Value
func ctr_SetStringValue() {}

func pre_sortCompare(a *Data, b *Data, proc *Data, env *SymbolTableFrame) bool { return vIsFn(proc) }

// internalReplaceByte changes the byte array when it is told not to copy: each
// caller is judged with its body in place.
//
//govc:skiproot
func ctr_internalReplaceByte() {}

//govc:inline internalReplaceByte
func ctr_ReplaceByteImpl() {}

//govc:noframe
func ctr_AddLog() {}

func ctr_rebindDoLocals() {}


// pairlis, like acons, updates the pair of a key that the given alist has.
//
//govc:modifiesany ConsCell.Cdr
func ctr_PairlisImpl() {}
