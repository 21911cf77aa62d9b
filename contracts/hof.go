package golisp

import "math"

// ---- C13: the function is called on exactly the prescribed elements ----------

// vCall: the function is applied to these values.
//
//govc:eventas ApplyWithoutEval
func vCall(f *Data, args sq, env *SymbolTableFrame) (*Data, error) {
	return ApplyWithoutEval(f, listFrom(args), env)
}

// vHeads, vTails: of each of some lists, the first element and the rest.
func vHeads(s sq) sq {
	if sqLen(s) == 0 {
		return sqNil()
	}
	return sqCat(sqOne(vCar(sqAt(s, 0))), vHeads(sqDrop(s, 1)))
}

func vTails(s sq) sq {
	if sqLen(s) == 0 {
		return sqNil()
	}
	return sqCat(sqOne(vCdr(sqAt(s, 0))), vTails(sqDrop(s, 1)))
}

// vCols: the list arguments and the length of the shortest.
func vCols(a *Data, acc sq, n int64, emptyStops bool) (cols sq, min int64, stop bool, err error) {
	if vNil(a) {
		return acc, n, false, nil
	}
	c := vCar(a)
	if !vIsList(c) {
		return acc, n, false, vErr()
	}
	if emptyStops && vNil(c) {
		return acc, n, true, nil
	}
	l := int64(spec_Length(c))
	if n < l {
		l = n
	}
	return vCols(vCdr(a), sqCat(acc, sqOne(c)), l, emptyStops)
}

// vMap: calls i..n over the lists, the results collected.
func vMap(f *Data, cols sq, i int, n int64, acc sq, env *SymbolTableFrame) (sq, error) {
	if i > int(n) {
		return acc, nil
	}
	v, err := vCall(f, vHeads(cols), env)
	if err != nil {
		return sqNil(), err
	}
	return vMap(f, vTails(cols), i+1, n, sqCat(acc, sqOne(v)), env)
}

//govc:fuel 1
func spec_MapImpl(args *Data, env *SymbolTableFrame) (s sq, err error) {
	f := spec_First(args)
	if !vIsFn(f) {
		return sqNil(), vErr()
	}
	cols, n, stop, err := vCols(vCdr(args), sqNil(), math.MaxInt64, true)
	if err != nil || stop || n == math.MaxInt64 {
		return sqNil(), err
	}
	return vMap(f, cols, 1, n, sqNil(), env)
}

//govc:prop C13
func post_MapImpl(args *Data, env *SymbolTableFrame, s sq, serr error, r *Data, err error) bool {
	return (err != nil) == (serr != nil) && (err != nil || vIsList(r) && sqEq(listOf(r), s))
}

func keep_MapImpl__cols(ownA *Data, ownDone []*Data, ownN int64) (sq, int64, bool, error) {
	return vCols(ownA, sqOf(ownDone), ownN, true)
}

func keep_MapImpl__heads(preCols []*Data, ownDone []*Data, ownK int) sq {
	return sqCat(sqOf(ownDone), vHeads(sqDrop(sqOf(preCols), ownK)))
}

func keep_MapImpl__tails(preCols []*Data, ownK int) sq {
	return sqCat(sqTake(sqOf(preCols), ownK), vTails(sqDrop(sqOf(preCols), ownK)))
}

func loop_MapImpl__calls(a1 *SymbolTableFrame, preF *Data, preCols []*Data, ownI int, preN int64, ownDone []*Data) (sq, error) {
	return vMap(preF, sqOf(preCols), ownI, preN, sqOf(ownDone), a1)
}

// vEach: calls i..n over the lists, the results ignored.
func vEach(f *Data, cols sq, i int, n int64, env *SymbolTableFrame) (*Data, error) {
	if i > int(n) {
		return nil, nil
	}
	_, err := vCall(f, vHeads(cols), env)
	if err != nil {
		return nil, err
	}
	return vEach(f, vTails(cols), i+1, n, env)
}

//govc:prop C13
//govc:fuel 1
func spec_ForEachImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	f := spec_First(args)
	if !vIsFn(f) {
		return nil, vErr()
	}
	cols, n, _, err := vCols(vCdr(args), sqNil(), math.MaxInt64, false)
	if err != nil || n == math.MaxInt64 {
		return nil, err
	}
	return vEach(f, cols, 1, n, env)
}

func keep_ForEachImpl__cols(ownA *Data, ownDone []*Data, ownN int64) (sq, int64, bool, error) {
	return vCols(ownA, sqOf(ownDone), ownN, false)
}

func keep_ForEachImpl__heads(preCols []*Data, ownDone []*Data, ownK int) sq {
	return sqCat(sqOf(ownDone), vHeads(sqDrop(sqOf(preCols), ownK)))
}

func keep_ForEachImpl__tails(preCols []*Data, ownK int) sq {
	return sqCat(sqTake(sqOf(preCols), ownK), vTails(sqDrop(sqOf(preCols), ownK)))
}

func loop_ForEachImpl__calls(a1 *SymbolTableFrame, preF *Data, preCols []*Data, ownI int, preN int64) (*Data, error) {
	return vEach(preF, sqOf(preCols), ownI, preN, a1)
}

// vUntil: calls i.. below n until a result is (or is not) true; 1: found, 0: not found.
func vUntil(f *Data, cols sq, i int, n int64, want bool, env *SymbolTableFrame) (int, error) {
	if i >= int(n) {
		return 0, nil
	}
	v, err := vCall(f, vHeads(cols), env)
	if err != nil {
		return 0, err
	}
	if vTrue(v) == want {
		return 1, nil
	}
	return vUntil(f, vTails(cols), i+1, n, want, env)
}

// vSearch: 2: no lists.
func vSearch(args *Data, want bool, env *SymbolTableFrame) (int, error) {
	f := spec_First(args)
	if !vIsFn(f) {
		return 0, vErr()
	}
	cols, n, _, err := vCols(vCdr(args), sqNil(), math.MaxInt64, false)
	if err != nil {
		return 0, err
	}
	if n == math.MaxInt64 {
		return 2, nil
	}
	return vUntil(f, cols, 0, n, want, env)
}

//govc:fuel 1
func spec_AnyImpl(args *Data, env *SymbolTableFrame) (int, error) { return vSearch(args, true, env) }

//govc:prop C13
func post_AnyImpl(args *Data, env *SymbolTableFrame, found int, serr error, r *Data, err error) bool {
	if serr != nil {
		return err != nil
	}
	if found == 2 {
		return err == nil && vNil(r)
	}
	return rBool(r, err, found == 1)
}

//govc:fuel 1
func spec_EveryImpl(args *Data, env *SymbolTableFrame) (int, error) { return vSearch(args, false, env) }

//govc:prop C13
func post_EveryImpl(args *Data, env *SymbolTableFrame, found int, serr error, r *Data, err error) bool {
	if serr != nil {
		return err != nil
	}
	if found == 2 {
		return err == nil && vNil(r)
	}
	return rBool(r, err, found == 0)
}

func keep_AnyImpl__cols(ownA *Data, ownDone []*Data, ownN int64) (sq, int64, bool, error) {
	return vCols(ownA, sqOf(ownDone), ownN, false)
}

func keep_AnyImpl__heads(preCols []*Data, ownDone []*Data, ownK int) sq {
	return sqCat(sqOf(ownDone), vHeads(sqDrop(sqOf(preCols), ownK)))
}

func keep_AnyImpl__tails(preCols []*Data, ownK int) sq {
	return sqCat(sqTake(sqOf(preCols), ownK), vTails(sqDrop(sqOf(preCols), ownK)))
}

func loop_AnyImpl__calls(a1 *SymbolTableFrame, preF *Data, preCols []*Data, ownI int, preN int64) (int, error) {
	return vUntil(preF, sqOf(preCols), ownI, preN, true, a1)
}

func keep_EveryImpl__cols(ownA *Data, ownDone []*Data, ownN int64) (sq, int64, bool, error) {
	return vCols(ownA, sqOf(ownDone), ownN, false)
}

func keep_EveryImpl__heads(preCols []*Data, ownDone []*Data, ownK int) sq {
	return sqCat(sqOf(ownDone), vHeads(sqDrop(sqOf(preCols), ownK)))
}

func keep_EveryImpl__tails(preCols []*Data, ownK int) sq {
	return sqCat(sqTake(sqOf(preCols), ownK), vTails(sqDrop(sqOf(preCols), ownK)))
}

func loop_EveryImpl__calls(a1 *SymbolTableFrame, preF *Data, preCols []*Data, ownI int, preN int64) (int, error) {
	return vUntil(preF, sqOf(preCols), ownI, preN, false, a1)
}

// ---- folding ----

func vSameOrErr(sr *Data, serr error, r *Data, err error) bool {
	return (err != nil) == (serr != nil) && (err != nil || vSame(r, sr))
}

// vFold: from the left the accumulator is the first argument, from the right the second.
func vFoldL(f *Data, acc *Data, s sq, env *SymbolTableFrame) (*Data, error) {
	if sqLen(s) == 0 {
		return acc, nil
	}
	v, err := vCall(f, sqCat(sqOne(acc), sqOne(sqAt(s, 0))), env)
	if err != nil {
		return nil, err
	}
	return vFoldL(f, nzD(v), sqDrop(s, 1), env)
}

func vFoldR(f *Data, acc *Data, s sq, env *SymbolTableFrame) (*Data, error) {
	if sqLen(s) == 0 {
		return acc, nil
	}
	n := sqLen(s) - 1
	v, err := vCall(f, sqCat(sqOne(sqAt(s, n)), sqOne(acc)), env)
	if err != nil {
		return nil, err
	}
	return vFoldR(f, nzD(v), sqTake(s, n), env)
}

//govc:fuel 1
func spec_reduceFoldProc(initial *Data, col []*Data, f *Data, env *SymbolTableFrame, rightToLeft bool) (*Data, error) {
	if rightToLeft {
		return vFoldR(f, nzD(initial), sqOf(col), env)
	}
	return vFoldL(f, nzD(initial), sqOf(col), env)
}

//govc:prop C13
func post_reduceFoldProc(initial *Data, col []*Data, f *Data, env *SymbolTableFrame, rightToLeft bool, sr *Data, serr error, r *Data, err error) bool {
	return vSameOrErr(sr, serr, r, err)
}

func loop_reduceFoldProc(a1 []*Data, a2 *Data, a3 *SymbolTableFrame, a4 bool, ownAcc *Data, ownI int) (*Data, error) {
	if a4 {
		return vFoldR(a2, nzD(ownAcc), sqTake(sqOf(a1), len(a1)-ownI), a3)
	}
	return vFoldL(a2, nzD(ownAcc), sqDrop(sqOf(a1), ownI), a3)
}

func spec_ReduceLeftImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	f, s := spec_First(args), listOf(spec_Third(args))
	if !vIsFn(f) || !vIsList(spec_Third(args)) {
		return nil, vErr()
	}
	if sqLen(s) == 0 {
		return spec_Second(args), nil
	}
	return vFoldL(f, nzD(sqAt(s, 0)), sqDrop(s, 1), env)
}

func spec_ReduceRightImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	f, s := spec_First(args), listOf(spec_Third(args))
	if !vIsFn(f) || !vIsList(spec_Third(args)) {
		return nil, vErr()
	}
	if sqLen(s) == 0 {
		return spec_Second(args), nil
	}
	return vFoldR(f, nzD(sqAt(s, sqLen(s)-1)), sqTake(s, sqLen(s)-1), env)
}

func spec_FoldLeftImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	f, s := spec_First(args), listOf(spec_Third(args))
	if !vIsFn(f) || !vIsList(spec_Third(args)) {
		return nil, vErr()
	}
	return vFoldL(f, nzD(spec_Second(args)), s, env)
}

func spec_FoldRightImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	f, s := spec_First(args), listOf(spec_Third(args))
	if !vIsFn(f) || !vIsList(spec_Third(args)) {
		return nil, vErr()
	}
	return vFoldR(f, nzD(spec_Second(args)), s, env)
}

//govc:prop C13
func post_ReduceLeftImpl(args *Data, env *SymbolTableFrame, sr *Data, serr error, r *Data, err error) bool {
	return vSameOrErr(sr, serr, r, err)
}

//govc:prop C13
func post_ReduceRightImpl(args *Data, env *SymbolTableFrame, sr *Data, serr error, r *Data, err error) bool {
	return vSameOrErr(sr, serr, r, err)
}

//govc:prop C13
func post_FoldLeftImpl(args *Data, env *SymbolTableFrame, sr *Data, serr error, r *Data, err error) bool {
	return vSameOrErr(sr, serr, r, err)
}

//govc:prop C13
func post_FoldRightImpl(args *Data, env *SymbolTableFrame, sr *Data, serr error, r *Data, err error) bool {
	return vSameOrErr(sr, serr, r, err)
}

// ---- selecting ----

// vArg: one argument (what follows the last cell of an improper list has none).
func vArg(x *Data) sq {
	if x == nil {
		return sqNil()
	}
	return sqOne(x)
}

// vSel: the elements for which the predicate says keep.
func vSel(f *Data, l *Data, keep bool, acc sq, env *SymbolTableFrame) (sq, error) {
	if vNil(l) {
		return acc, nil
	}
	v, err := vCall(f, vArg(vCar(l)), env)
	if err != nil {
		return sqNil(), err
	}
	if !vIsBool(v) {
		return sqNil(), vErr()
	}
	if vBoolOf(v) == keep {
		return vSel(f, vCdr(l), keep, sqCat(acc, sqOne(vCar(l))), env)
	}
	return vSel(f, vCdr(l), keep, acc, env)
}

//govc:fuel 1
func spec_FilterImpl(args *Data, env *SymbolTableFrame) (sq, error) {
	if !vIsFn(spec_First(args)) || !vIsList(spec_Second(args)) {
		return sqNil(), vErr()
	}
	return vSel(spec_First(args), spec_Second(args), true, sqNil(), env)
}

//govc:prop C13
func post_FilterImpl(args *Data, env *SymbolTableFrame, s sq, serr error, r *Data, err error) bool {
	return (err != nil) == (serr != nil) && (err != nil || vIsList(r) && sqEq(listOf(r), s))
}

func loop_FilterImpl(a1 *SymbolTableFrame, preF *Data, ownL *Data, ownDone []*Data) (sq, error) {
	return vSel(preF, ownL, true, sqOf(ownDone), a1)
}

//govc:fuel 1
func spec_RemoveImpl(args *Data, env *SymbolTableFrame) (sq, error) {
	if !vIsFn(spec_First(args)) || !vIsList(spec_Second(args)) {
		return sqNil(), vErr()
	}
	return vSel(spec_First(args), spec_Second(args), false, sqNil(), env)
}

//govc:prop C13
func post_RemoveImpl(args *Data, env *SymbolTableFrame, s sq, serr error, r *Data, err error) bool {
	return (err != nil) == (serr != nil) && (err != nil || vIsList(r) && sqEq(listOf(r), s))
}

func loop_RemoveImpl(a1 *SymbolTableFrame, preF *Data, ownL *Data, ownDone []*Data) (sq, error) {
	return vSel(preF, ownL, false, sqOf(ownDone), a1)
}

// vFind: the cell of the first element the predicate accepts.
func vFind(f *Data, l *Data, env *SymbolTableFrame) (*Data, bool, error) {
	if vNil(l) {
		return nil, false, nil
	}
	v, err := vCall(f, sqOne(vCar(l)), env)
	if err != nil {
		return nil, false, err
	}
	if !vIsBool(v) {
		return nil, false, vErr()
	}
	if vBoolOf(v) {
		return l, true, nil
	}
	return vFind(f, vCdr(l), env)
}

func vFindIn(args *Data, env *SymbolTableFrame) (*Data, bool, error) {
	if !vIsFn(spec_First(args)) || !vIsList(spec_Second(args)) {
		return nil, false, vErr()
	}
	return vFind(spec_First(args), spec_Second(args), env)
}

//govc:fuel 1
func spec_FindTailImpl(args *Data, env *SymbolTableFrame) (*Data, bool, error) {
	return vFindIn(args, env)
}

//govc:prop C13
func post_FindTailImpl(args *Data, env *SymbolTableFrame, c *Data, found bool, serr error, r *Data, err error) bool {
	if serr != nil {
		return err != nil
	}
	if !found {
		return rBool(r, err, false)
	}
	return err == nil && vSame(r, c)
}

func loop_FindTailImpl(a1 *SymbolTableFrame, preF *Data, ownL *Data) (*Data, bool, error) {
	return vFind(preF, ownL, a1)
}

//govc:fuel 1
func spec_FindImpl(args *Data, env *SymbolTableFrame) (*Data, bool, error) {
	return vFindIn(args, env)
}

//govc:prop C13
func post_FindImpl(args *Data, env *SymbolTableFrame, c *Data, found bool, serr error, r *Data, err error) bool {
	if serr != nil {
		return err != nil
	}
	if !found {
		return rBool(r, err, false)
	}
	return err == nil && vSame(r, vCar(c))
}

func loop_FindImpl(a1 *SymbolTableFrame, preF *Data, ownL *Data) (*Data, bool, error) {
	return vFind(preF, ownL, a1)
}

// vMem: the first cell whose element equals the key.
func vMem(key *Data, l *Data) *Data {
	if vNil(l) {
		return nil
	}
	if IsEqual(key, vCar(l)) {
		return l
	}
	return vMem(key, vCdr(l))
}

//govc:prop C13
//govc:fuel 1
func post_MemqImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	c := vMem(spec_First(args), spec_Second(args))
	if c == nil {
		return rBool(r, err, false)
	}
	return err == nil && vSame(r, c)
}

func keep_MemqImpl(preKey *Data, ownL *Data) *Data { return vMem(preKey, ownL) }
