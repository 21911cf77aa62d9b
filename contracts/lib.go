package golisp

import "errors"

// Specification vocabulary. sq is a mathematical sequence of values.
type sq []interface{}

func sqNil() sq                    { return nil }
func sqOne(x *Data) sq             { return sq{nzD(x)} }
func sqOneI(x int64) sq            { return sq{x} }
func sqCat(a, b sq) sq             { return append(append(sq{}, a...), b...) }
func sqLen(a sq) int               { return len(a) }
func sqTake(a sq, n int) sq        { return a[:n] }
func sqDrop(a sq, n int) sq        { return a[n:] }

// sqAt: element i of a sequence of values.
func sqAt(a sq, i int) *Data {
	x, _ := a[i].(*Data)
	return x
}

func nzD(x *Data) *Data {
	if vNil(x) {
		return nil
	}
	return x
}

// vCons: the list cell of a value, nil if it has none.
func vCons(d *Data) *ConsCell {
	if d == nil {
		return nil
	}
	if d.Type == ConsCellType || d.Type == AlistType || d.Type == AlistCellType {
		return (*ConsCell)(d.Value)
	}
	return nil
}

func vIsCons(d *Data) bool {
	return d != nil && (d.Type == ConsCellType || d.Type == AlistType || d.Type == AlistCellType)
}

// vNil: the empty list, in any of its representations.
func vNil(d *Data) bool {
	if d == nil {
		return true
	}
	if vIsCons(d) {
		c := (*ConsCell)(d.Value)
		return c == nil || c.Car == nil && c.Cdr == nil
	}
	return false
}

func vCar(d *Data) *Data {
	c := vCons(d)
	if c == nil {
		return nil
	}
	return c.Car
}

func vCdr(d *Data) *Data {
	c := vCons(d)
	if c == nil {
		return nil
	}
	return c.Cdr
}

//govc:event vv
func ctr_Eval() {}

//govc:event vlv
func ctr_Apply() {}

//govc:event vlv
func ctr_ApplyWithoutEval() {}

//govc:event vvv
func ctr_evalHelper() {}

func vSym(name string) *Data { return Intern(name) }

// vLen: number of elements of a list (lists are shorter than 2^40 cells).
//govc:range 0 1099511627776
func vLen(d *Data) int {
	if vNil(d) {
		return 0
	}
	return 1 + vLen(vCdr(d))
}

// listOf: the contents of a list, empty-list values counted as nil.
func listOf(d *Data) sq {
	if vNil(d) {
		return sqNil()
	}
	return sqCat(sqOne(vCar(d)), listOf(vCdr(d)))
}

// vSame: the same value (empty-list values counted as nil).
func vSame(a, b *Data) bool {
	if vSameIs != nil {
		return vSameIs(a, b)
	}
	return nzD(a) == nzD(b)
}

var vSameIs func(a, b *Data) bool

// vErr: some error.
func vErr() error { return errors.New("specified error") }

// listFrom: a list with the given contents.
func listFrom(s sq) *Data {
	a := make([]*Data, len(s))
	for i := range s {
		a[i], _ = s[i].(*Data)
	}
	return ArrayToList(a)
}

// vFresh: allocated by the call (meaningful to the verifier only).
func vFresh(x *Data) bool { return true }

func sqOf(s []*Data) sq {
	r := sq{}
	for _, x := range s {
		r = append(r, nzD(x))
	}
	return r
}

func sqOfBytes(s []byte) sq {
	r := sq{}
	for _, x := range s {
		r = append(r, x)
	}
	return r
}

// vSqEq: comparison used when contracts are executed.
var vSqEq func(a, b sq) bool

func sqEq(a, b sq) bool {
	if vSqEq != nil {
		return vSqEq(a, b)
	}
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameF: the same float (NaN equals NaN).
func sameF(a, b float32) bool { return a == b || a != a && b != b }

// ---- scalars ----

func vIsInt(d *Data) bool   { return d != nil && d.Type == IntegerType }
func vIsFloat(d *Data) bool { return d != nil && d.Type == FloatType }
func vIsNum(d *Data) bool   { return d != nil && (d.Type == IntegerType || d.Type == FloatType) }
func vIsBool(d *Data) bool  { return d != nil && d.Type == BooleanType }
func vIsStr(d *Data) bool   { return d != nil && d.Type == StringType }
func vIsSym(d *Data) bool   { return d != nil && d.Type == SymbolType }
func vIsList(d *Data) bool  { return d == nil || d.Type == ConsCellType || d.Type == AlistType }
func vIsPair(d *Data) bool  { return d == nil || vIsCons(d) }
func vIsFn(d *Data) bool {
	return d != nil && (d.Type == FunctionType || d.Type == PrimitiveType)
}

// vI, vF: the number of a value as an integer, as a float (0 if it is no number).
func vI(d *Data) int64 {
	if vIsInt(d) {
		return *(*int64)(d.Value)
	}
	if vIsFloat(d) {
		return int64(*(*float32)(d.Value))
	}
	return 0
}

func vF(d *Data) float32 {
	if vIsFloat(d) {
		return *(*float32)(d.Value)
	}
	if vIsInt(d) {
		return float32(*(*int64)(d.Value))
	}
	return 0
}

func vStr(d *Data) string {
	if vIsStr(d) || vIsSym(d) {
		return *(*string)(d.Value)
	}
	return ""
}

// vTrue: every value except false and the empty list counts as true.
func vTrue(d *Data) bool {
	if vNil(d) {
		return false
	}
	if vIsBool(d) {
		return *(*bool)(d.Value)
	}
	return true
}

func vBoolOf(d *Data) bool { return *(*bool)(d.Value) }

// results
func rInt(r *Data, err error, n int64) bool     { return err == nil && vIsInt(r) && vI(r) == n }
func rFloat(r *Data, err error, x float32) bool { return err == nil && vIsFloat(r) && sameF(vF(r), x) }
func rBool(r *Data, err error, b bool) bool {
	return err == nil && vIsBool(r) && vBoolOf(r) == b
}
func rStr(r *Data, err error, s string) bool {
	return err == nil && vIsStr(r) && vStr(r) == s
}

// vNth: element i of a list, nil if there is none.
func vCadr(d *Data) *Data  { return vCar(vCdr(d)) }
func vCaddr(d *Data) *Data { return vCar(vCdr(vCdr(d))) }

// Arbitrary objects that exist at entry (what a contract says about them holds
// for all of them); executed contracts see one picked at random.
var vPick struct {
	b *Binding
	e *SymbolTableFrame
	s string
	d *Data
	f *FrameMap
}

func vAnyB() *Binding          { return vPick.b }
func vAnyE() *SymbolTableFrame { return vPick.e }
func vAnyS() string            { return vPick.s }
func vAnyD() *Data             { return vPick.d }
func vAnyF() *FrameMap         { return vPick.f }
