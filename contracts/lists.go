package golisp

// ---- C12: list operations agree with their sequence functions ----------------

// vNthOf: element n (from 0) of a list, nil if there is none.
func vNthOf(d *Data, n int) *Data {
	if vNil(d) || n < 0 {
		return nil
	}
	if n == 0 {
		return vCar(d)
	}
	return vNthOf(vCdr(d), n-1)
}

// vTake, vDrop: the first n elements, and the cell after them.
func vTake(d *Data, n int) sq {
	if n <= 0 || vNil(d) {
		return sqNil()
	}
	return sqCat(sqOne(vCar(d)), vTake(vCdr(d), n-1))
}

func vDrop(d *Data, n int) *Data {
	if n <= 0 || vNil(d) {
		return d
	}
	return vDrop(vCdr(d), n-1)
}

// vRevOnto: the elements of d in reverse, before acc.
func vRevOnto(d *Data, acc sq) sq {
	if vNil(d) {
		return acc
	}
	return vRevOnto(vCdr(d), sqCat(sqOne(vCar(d)), acc))
}

// vFlat: every element that is a list replaced by its elements.
func vFlat(d *Data) sq {
	if vNil(d) {
		return sqNil()
	}
	if vIsList(vCar(d)) {
		return sqCat(listOf(vCar(d)), vFlat(vCdr(d)))
	}
	return sqCat(sqOne(vCar(d)), vFlat(vCdr(d)))
}

// vDeep: the leaves of a tree of lists, left to right.
func vDeep(d *Data) sq {
	if vNil(d) {
		return sqNil()
	}
	if vIsList(vCar(d)) {
		return sqCat(vDeep(vCar(d)), vDeep(vCdr(d)))
	}
	return sqCat(sqOne(vCar(d)), vDeep(vCdr(d)))
}

// vRepeat: n times x.
func vRepeat(x *Data, n int) sq {
	if n <= 0 {
		return sqNil()
	}
	return sqCat(sqOne(x), vRepeat(x, n-1))
}

// vLastCell: the cell whose successor is not a non-empty list.
func vLastCell(d *Data) *Data {
	if vNil(vCdr(d)) || !vIsList(vCdr(d)) {
		return d
	}
	return vLastCell(vCdr(d))
}

func rList(r *Data, err error, s sq) bool {
	return err == nil && vIsList(r) && sqEq(listOf(r), s)
}

// ---- element access ----

//govc:pure
//govc:prop C12
func spec_Nth(d *Data, n int) *Data {
	if n < 1 || n > spec_Length(d) {
		return nil
	}
	return vNthOf(d, n-1)
}

func loop_Nth(a0 *Data, a1 int, c *Data, i int) *Data { return vNthOf(c, i-1) }

//govc:pure
//govc:fuel 3
//govc:prop C12
func spec_First(d *Data) *Data { return spec_Nth(d, 1) }

//govc:prop C12
func spec_FirstImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return spec_Nth(vCar(args), 1), nil }

//govc:pure
//govc:fuel 4
//govc:prop C12
func spec_Second(d *Data) *Data { return spec_Nth(d, 2) }

//govc:prop C12
func spec_SecondImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return spec_Nth(vCar(args), 2), nil }

//govc:pure
//govc:fuel 5
//govc:prop C12
func spec_Third(d *Data) *Data { return spec_Nth(d, 3) }

//govc:prop C12
func spec_ThirdImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return spec_Nth(vCar(args), 3), nil }

//govc:pure
//govc:fuel 6
//govc:prop C12
func spec_Fourth(d *Data) *Data { return spec_Nth(d, 4) }

//govc:prop C12
func spec_FourthImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return spec_Nth(vCar(args), 4), nil }

//govc:pure
//govc:fuel 7
//govc:prop C12
func spec_Fifth(d *Data) *Data { return spec_Nth(d, 5) }

//govc:prop C12
func spec_FifthImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return spec_Nth(vCar(args), 5), nil }

//govc:pure
//govc:fuel 8
//govc:prop C12
func spec_Sixth(d *Data) *Data { return spec_Nth(d, 6) }

//govc:prop C12
func spec_SixthImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return spec_Nth(vCar(args), 6), nil }

//govc:pure
//govc:fuel 9
//govc:prop C12
func spec_Seventh(d *Data) *Data { return spec_Nth(d, 7) }

//govc:prop C12
func spec_SeventhImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return spec_Nth(vCar(args), 7), nil }

//govc:pure
//govc:fuel 10
//govc:prop C12
func spec_Eighth(d *Data) *Data { return spec_Nth(d, 8) }

//govc:prop C12
func spec_EighthImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return spec_Nth(vCar(args), 8), nil }

//govc:pure
//govc:fuel 11
//govc:prop C12
func spec_Ninth(d *Data) *Data { return spec_Nth(d, 9) }

//govc:prop C12
func spec_NinthImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return spec_Nth(vCar(args), 9), nil }

//govc:pure
//govc:fuel 12
//govc:prop C12
func spec_Tenth(d *Data) *Data { return spec_Nth(d, 10) }

//govc:prop C12
func spec_TenthImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return spec_Nth(vCar(args), 10), nil }

//govc:fuel 6
//govc:prop C12
func spec_CarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCar(args)), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CdrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCar(args)), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CaarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCar(vCar(args))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CadrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCdr(vCar(args))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CdarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCar(vCar(args))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CddrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCdr(vCar(args))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CaaarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCar(vCar(vCar(args)))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CaadrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCar(vCdr(vCar(args)))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CadarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCdr(vCar(vCar(args)))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CaddrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCdr(vCdr(vCar(args)))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CdaarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCar(vCar(vCar(args)))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CdadrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCar(vCdr(vCar(args)))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CddarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCdr(vCar(vCar(args)))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CdddrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCdr(vCdr(vCar(args)))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CaaaarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCar(vCar(vCar(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CaaadrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCar(vCar(vCdr(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CaadarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCar(vCdr(vCar(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CaaddrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCar(vCdr(vCdr(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CadaarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCdr(vCar(vCar(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CadadrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCdr(vCar(vCdr(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CaddarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCdr(vCdr(vCar(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CadddrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCar(vCdr(vCdr(vCdr(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CdaaarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCar(vCar(vCar(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CdaadrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCar(vCar(vCdr(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CdadarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCar(vCdr(vCar(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CdaddrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCar(vCdr(vCdr(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CddaarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCdr(vCar(vCar(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CddadrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCdr(vCar(vCdr(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CdddarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCdr(vCdr(vCar(vCar(args))))), nil
}

//govc:fuel 6
//govc:prop C12
func spec_CddddrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vCdr(vCdr(vCdr(vCdr(vCar(args))))), nil
}

// vPath: follow the bits of path from the lowest, up to the leading one.
func vPath(d *Data, path int64) *Data {
	if path == 1 {
		return d
	}
	if path&1 == 0 {
		return vPath(vCdr(d), path>>1)
	}
	return vPath(vCar(d), path>>1)
}

func pre_GeneralCarCdrImpl(args *Data, env *SymbolTableFrame) bool {
	return vI(vCadr(args)) >= 0
}

//govc:prop C12
func spec_GeneralCarCdrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	if vI(vCadr(args)) == 0 {
		return nil, vErr()
	}
	return vPath(vCar(args), vI(vCadr(args))), nil
}

func loop_GeneralCarCdrImpl(c *Data, n int64) (*Data, error) { return vPath(c, n), nil }

//govc:prop C12
func spec_NthImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	l, n := vCar(args), vCadr(args)
	if !(l == nil || l.Type == ConsCellType) || !vIsInt(n) {
		return nil, vErr()
	}
	return spec_Nth(l, int(vI(n))), nil
}

//govc:prop C12
func spec_ListRefImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	l, n := vCar(args), vCadr(args)
	if !(l == nil || l.Type == ConsCellType) || !vIsInt(n) {
		return nil, vErr()
	}
	if vI(n) < 0 {
		return nil, nil
	}
	return spec_Nth(l, int(vI(n))+1), nil
}

//govc:prop C12
func post_TakeImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	n, l := vCar(args), vCadr(args)
	if vIsInt(n) && vIsList(l) {
		return rList(r, err, vTake(l, int(vI(n))))
	}
	return vIsInt(n) && vIsBytes(l) || err != nil
}

//govc:prop C12
//govc:prop C15
func post_TakeImpl__bytes(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	n, l := vCar(args), vCadr(args)
	if !(vIsInt(n) && vIsBytes(l)) {
		return true
	}
	return err == nil && vIsBytes(r) && vFresh(r) && sqEq(sqOfBytes(vBytes(r)), vTakeB(sqOfBytes(vBytes(l)), int(vI(n))))
}

func inv_TakeImpl(a0 *Data, done []*Data, c *Data, i int) bool {
	n := int(vI(vCar(a0)))
	if n < 0 {
		n = 0
	}
	return 0 <= i && i <= n && sqEq(sqCat(sqOf(done), vTake(c, n-i)), vTake(vCadr(a0), n))
}

//govc:prop C12
func post_DropImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	n, l := vCar(args), vCadr(args)
	if vIsInt(n) && vIsList(l) {
		return err == nil && vSame(r, vDrop(l, int(vI(n))))
	}
	return vIsInt(n) && vIsBytes(l) || err != nil
}

//govc:prop C12
//govc:prop C15
func post_DropImpl__bytes(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	n, l := vCar(args), vCadr(args)
	if !(vIsInt(n) && vIsBytes(l)) {
		return true
	}
	return err == nil && vIsBytes(r) && vFresh(r) && sqEq(sqOfBytes(vBytes(r)), vDropB(sqOfBytes(vBytes(l)), int(vI(n))))
}

func inv_DropImpl(a0 *Data, c *Data, i int) bool {
	n := int(vI(vCar(a0)))
	if n < 0 {
		n = 0
	}
	return 0 <= i && i <= n && vSame(vDrop(c, n-i), vDrop(vCadr(a0), n))
}

// vTakeB, vDropB: take and drop on sequences of bytes, counts clipped.
func vTakeB(s sq, n int) sq {
	if n <= 0 {
		return sqNil()
	}
	if n >= sqLen(s) {
		return s
	}
	return sqTake(s, n)
}

func vDropB(s sq, n int) sq {
	if n <= 0 {
		return s
	}
	if n >= sqLen(s) {
		return sqNil()
	}
	return sqDrop(s, n)
}

//govc:prop C12
func post_ListHeadImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	l, n := vCar(args), vCadr(args)
	if !vIsInt(n) || !vIsList(l) {
		return err != nil
	}
	return rList(r, err, vTake(l, int(vI(n))))
}

func inv_ListHeadImpl(a0 *Data, done []*Data, c *Data, i int) bool {
	n := int(vI(vCadr(a0)))
	if n < 0 {
		n = 0
	}
	return 0 <= i && i <= n && sqEq(sqCat(sqOf(done), vTake(c, n-i)), vTake(vCar(a0), n))
}

//govc:prop C12
func post_ListTailImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	l, n := vCar(args), vCadr(args)
	if !vIsInt(n) || !vIsList(l) {
		return err != nil
	}
	return err == nil && vSame(r, vDrop(l, int(vI(n))))
}

func inv_ListTailImpl(a0 *Data, c *Data, i int) bool {
	n := int(vI(vCadr(a0)))
	if n < 0 {
		n = 0
	}
	return 0 <= i && i <= n && vSame(vDrop(c, n-i), vDrop(vCar(a0), n))
}

//govc:prop C12
func spec_LastPairImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	l := vCar(args)
	if vNil(l) || !vIsList(l) {
		return nil, vErr()
	}
	return vLastCell(l), nil
}

func loop_LastPairImpl(c *Data) (*Data, error) { return vLastCell(c), nil }

//govc:prop C12
func post_SublistImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	l, a, b := vCar(args), vCadr(args), vCaddr(args)
	if !vIsList(l) || !vIsInt(a) || vI(a) <= 0 || !vIsInt(b) || vI(b) <= 0 {
		return err != nil
	}
	if vI(a) >= vI(b) {
		return err == nil && vNil(r)
	}
	return rList(r, err, vTake(vDrop(l, int(vI(a))-1), int(vI(b))-int(vI(a))))
}

func inv_SublistImpl__skip(a0 *Data, c *Data, i int) bool {
	n := int(vI(vCadr(a0)))
	return 1 <= i && i <= n && vSame(vDrop(c, n-i), vDrop(vCar(a0), n-1))
}

func inv_SublistImpl__take(a0 *Data, done []*Data, c *Data, i int) bool {
	a, b := int(vI(vCadr(a0))), int(vI(vCaddr(a0)))
	return 1 <= i && i <= b && (vNil(c) || a <= i) && sqEq(sqCat(sqOf(done), vTake(c, b-i)), vTake(vDrop(vCar(a0), a-1), b-a))
}

// ---- construction ----

//govc:prop C12
func post_ListImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	return err == nil && vSame(r, args)
}

//govc:prop C12
func post_ConsImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	return err == nil && vIsCons(r) && vFresh(r) && r.Type == ConsCellType && vSame(vCar(r), vCar(args)) && vSame(vCdr(r), vCadr(args))
}

//govc:prop C12
func post_ConsStarImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	all := listOf(args)
	n := sqLen(all)
	if n == 0 {
		return err == nil && vNil(r)
	}
	if n == 1 {
		return err == nil && vSame(r, sqAt(all, 0))
	}
	return err == nil && vIsCons(r) && sqEq(listOf(r), sqCat(sqTake(all, n-1), listOf(sqAt(all, n-1))))
}

//govc:prop C12
func post_ToArray(list *Data, r []*Data) bool { return sqEq(sqOf(r), listOf(list)) }

func inv_ToArray(a0 *Data, done []*Data, c *Data) bool {
	return sqEq(sqCat(sqOf(done), listOf(c)), listOf(a0))
}

//govc:prop C12
func post_ListLengthImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	return rInt(r, err, int64(spec_Length(vCar(args))))
}

//govc:prop C12
func post_MakeListImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	k := vCar(args)
	if !vIsInt(k) || vI(k) < 0 {
		return err != nil
	}
	x := vCadr(args)
	return rList(r, err, vRepeat(x, int(vI(k))))
}

func inv_MakeListImpl(a0 *Data, done []*Data, n int64) bool {
	return n >= 0 && sqEq(sqCat(sqOf(done), vRepeat(vCadr(a0), int(n))), vRepeat(vCadr(a0), int(vI(vCar(a0)))))
}

//govc:prop C12
func post_Reverse(d *Data, r *Data) bool {
	if !vIsList(d) {
		return vSame(r, d)
	}
	return vIsList(r) && sqEq(listOf(r), vRevOnto(d, sqNil()))
}

func inv_Reverse(a0 *Data, c *Data, l *Data) bool {
	return (l == nil || l.Type == ConsCellType) && sqEq(vRevOnto(c, listOf(l)), vRevOnto(a0, sqNil()))
}

//govc:prop C12
func post_ReverseImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	d := vCar(args)
	if !vIsList(d) {
		return err == nil && vSame(r, d)
	}
	return rList(r, err, vRevOnto(d, sqNil()))
}

//govc:prop C12
func post_Flatten(d *Data, r *Data, err error) bool {
	if !vIsList(d) {
		return err == nil && vSame(r, d)
	}
	return rList(r, err, vFlat(d))
}

func inv_Flatten__out(a0 *Data, done []*Data, c *Data) bool {
	return sqEq(sqCat(sqOf(done), vFlat(c)), vFlat(a0))
}

func inv_Flatten__in(a0 *Data, done []*Data, c *Data, i *Data) bool {
	return sqEq(sqCat(sqOf(done), sqCat(listOf(i), vFlat(vCdr(c)))), vFlat(a0))
}

//govc:prop C12
func post_FlattenImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	d := vCar(args)
	if !vIsList(d) {
		return err == nil && vSame(r, d)
	}
	return rList(r, err, vFlat(d))
}

//govc:trusted building the result cell by cell is out of reach of the sequence specifications; executed on generated inputs instead
//govc:prop C12
func post_RecursiveFlatten(d *Data, r *Data, err error) bool {
	if !vIsList(d) {
		return err == nil && vSame(r, d)
	}
	return rList(r, err, vDeep(d))
}

func inv_RecursiveFlatten__out(a0 *Data, done []*Data, c *Data) bool {
	return sqEq(sqCat(sqOf(done), vDeep(c)), vDeep(a0))
}

func inv_RecursiveFlatten__in(a0 *Data, done []*Data, c *Data, i *Data) bool {
	return sqEq(sqCat(sqOf(done), sqCat(listOf(i), vDeep(vCdr(c)))), vDeep(a0))
}

//govc:prop C12
func post_RecursiveFlattenImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	d := vCar(args)
	if !vIsList(d) {
		return err == nil && vSame(r, d)
	}
	return rList(r, err, vDeep(d))
}

//govc:trusted building the result cell by cell is out of reach of the sequence specifications; executed on generated inputs instead
//govc:prop C12
func post_AppendImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	return rList(r, err, vFlat(args))
}

func inv_AppendImpl__out(a0 *Data, done []*Data, c *Data) bool {
	return sqEq(sqCat(sqOf(done), vFlat(c)), vFlat(a0))
}

func inv_AppendImpl__in(a0 *Data, done []*Data, c *Data, i *Data) bool {
	return sqEq(sqCat(sqOf(done), sqCat(listOf(i), vFlat(vCdr(c)))), vFlat(a0))
}
