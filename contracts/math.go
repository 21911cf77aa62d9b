package golisp

import "math"

// ---- C04: arithmetic is the exact left-to-right fold -------------------------

func vNums(l *Data) bool {
	if vNil(l) {
		return true
	}
	return vIsNum(vCar(l)) && vNums(vCdr(l))
}

func vHasFloat(l *Data) bool {
	if vNil(l) {
		return false
	}
	return vIsFloat(vCar(l)) || vHasFloat(vCdr(l))
}

func vAddI(acc int64, l *Data) int64 {
	if vNil(l) {
		return acc
	}
	return vAddI(acc+vI(vCar(l)), vCdr(l))
}

func vAddF(acc float32, l *Data) float32 {
	if vNil(l) {
		return acc
	}
	return vAddF(acc+vF(vCar(l)), vCdr(l))
}

func vSubI(acc int64, l *Data) int64 {
	if vNil(l) {
		return acc
	}
	return vSubI(acc-vI(vCar(l)), vCdr(l))
}

func vSubF(acc float32, l *Data) float32 {
	if vNil(l) {
		return acc
	}
	return vSubF(acc-vF(vCar(l)), vCdr(l))
}

func vMulI(acc int64, l *Data) int64 {
	if vNil(l) {
		return acc
	}
	return vMulI(acc*vI(vCar(l)), vCdr(l))
}

func vMulF(acc float32, l *Data) float32 {
	if vNil(l) {
		return acc
	}
	return vMulF(acc*vF(vCar(l)), vCdr(l))
}

func vQuoI(acc int64, l *Data) int64 {
	if vNil(l) {
		return acc
	}
	if vI(vCar(l)) == 0 {
		return 0
	}
	return vQuoI(acc/vI(vCar(l)), vCdr(l))
}

func vQuoF(acc float32, l *Data) float32 {
	if vNil(l) {
		return acc
	}
	return vQuoF(acc/vF(vCar(l)), vCdr(l))
}

func vZeroI(l *Data) bool {
	if vNil(l) {
		return false
	}
	return vI(vCar(l)) == 0 || vZeroI(vCdr(l))
}

func vZeroF(l *Data) bool {
	if vNil(l) {
		return false
	}
	return vF(vCar(l)) == 0 || vZeroF(vCdr(l))
}

// shared loop invariants: operands checked so far, accumulators
func inv_AddImpl__nums(a0 *Data, c *Data) bool         { return vNums(a0) == vNums(c) }
func inv_AddImpl__anyf(a0 *Data, c *Data, b bool) bool { return vHasFloat(a0) == (b || vHasFloat(c)) }
func inv_AddImpl__i(a0 *Data, c *Data, acc int64) bool { return vAddI(0, a0) == vAddI(acc, c) }
func inv_AddImpl__f(a0 *Data, c *Data, acc float32) bool {
	return sameF(vAddF(0, a0), vAddF(acc, c))
}

//govc:prop C04
func post_AddImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vNums(args) {
		return err != nil
	}
	if vHasFloat(args) {
		return rFloat(r, err, vAddF(0, args))
	}
	return rInt(r, err, vAddI(0, args))
}

func inv_SubtractImpl__nums(a0 *Data, c *Data) bool         { return vNums(a0) == vNums(c) }
func inv_SubtractImpl__anyf(a0 *Data, c *Data, b bool) bool { return vHasFloat(a0) == (b || vHasFloat(c)) }
func inv_SubtractImpl__i(a0 *Data, c *Data, acc int64) bool {
	return vSubI(vI(vCar(a0)), vCdr(a0)) == vSubI(acc, c)
}
func inv_SubtractImpl__f(a0 *Data, c *Data, acc float32) bool {
	return sameF(vSubF(vF(vCar(a0)), vCdr(a0)), vSubF(acc, c))
}

//govc:prop C04
func post_SubtractImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vNums(args) {
		return err != nil
	}
	if vHasFloat(args) {
		return rFloat(r, err, vSubF(vF(vCar(args)), vCdr(args)))
	}
	return rInt(r, err, vSubI(vI(vCar(args)), vCdr(args)))
}

func inv_MultiplyImpl__nums(a0 *Data, c *Data) bool         { return vNums(a0) == vNums(c) }
func inv_MultiplyImpl__anyf(a0 *Data, c *Data, b bool) bool { return vHasFloat(a0) == (b || vHasFloat(c)) }
func inv_MultiplyImpl__i(a0 *Data, c *Data, acc int64) bool { return vMulI(1, a0) == vMulI(acc, c) }
func inv_MultiplyImpl__f(a0 *Data, c *Data, acc float32) bool {
	return sameF(vMulF(1, a0), vMulF(acc, c))
}

//govc:prop C04
func post_MultiplyImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vNums(args) {
		return err != nil
	}
	if vHasFloat(args) {
		return rFloat(r, err, vMulF(1, args))
	}
	return rInt(r, err, vMulI(1, args))
}

func inv_QuotientImpl__nums(a0 *Data, c *Data) bool         { return vNums(a0) == vNums(c) }
func inv_QuotientImpl__anyf(a0 *Data, c *Data, b bool) bool { return vHasFloat(a0) == (b || vHasFloat(c)) }
func inv_QuotientImpl__i(a0 *Data, c *Data, acc int64) bool {
	return vZeroI(vCdr(a0)) == vZeroI(c) && vQuoI(vI(vCar(a0)), vCdr(a0)) == vQuoI(acc, c)
}
func inv_QuotientImpl__f(a0 *Data, c *Data, acc float32) bool {
	return vZeroF(vCdr(a0)) == vZeroF(c) && sameF(vQuoF(vF(vCar(a0)), vCdr(a0)), vQuoF(acc, c))
}

//govc:prop C04
func post_QuotientImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vNums(args) {
		return err != nil
	}
	if vHasFloat(args) {
		if vZeroF(vCdr(args)) {
			return err != nil
		}
		return rFloat(r, err, vQuoF(vF(vCar(args)), vCdr(args)))
	}
	if vZeroI(vCdr(args)) {
		return err != nil
	}
	return rInt(r, err, vQuoI(vI(vCar(args)), vCdr(args)))
}

//govc:prop C04
func post_RemainderImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vIsInt(vCar(args)) || !vIsInt(vCadr(args)) || vI(vCadr(args)) == 0 {
		return err != nil
	}
	return rInt(r, err, vI(vCar(args))%vI(vCadr(args)))
}

//govc:prop C04
func post_IncrementImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vIsInt(vCar(args)) {
		return err != nil
	}
	return rInt(r, err, vI(vCar(args))+1)
}

//govc:prop C04
func post_DecrementImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vIsInt(vCar(args)) {
		return err != nil
	}
	return rInt(r, err, vI(vCar(args))-1)
}

//govc:prop C04
func post_AbsImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsNum(x) {
		return err != nil
	}
	if vIsInt(x) {
		if vI(x) < 0 {
			return rInt(r, err, -vI(x))
		}
		return rInt(r, err, vI(x))
	}
	return rFloat(r, err, float32(math.Abs(float64(vF(x)))))
}

//govc:prop C04
func post_SignImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsNum(x) {
		return err != nil
	}
	if vIsInt(x) {
		if vI(x) < 0 {
			return rInt(r, err, -1)
		}
		if vI(x) > 0 {
			return rInt(r, err, 1)
		}
		return rInt(r, err, 0)
	}
	if vF(x) < 0 {
		return rInt(r, err, -1)
	}
	if vF(x) > 0 {
		return rInt(r, err, 1)
	}
	return rInt(r, err, 0)
}

func vMinI(acc int64, l *Data) int64 {
	if vNil(l) {
		return acc
	}
	if vI(vCar(l)) < acc {
		return vMinI(vI(vCar(l)), vCdr(l))
	}
	return vMinI(acc, vCdr(l))
}

func vMaxI(acc int64, l *Data) int64 {
	if vNil(l) {
		return acc
	}
	if vI(vCar(l)) > acc {
		return vMaxI(vI(vCar(l)), vCdr(l))
	}
	return vMaxI(acc, vCdr(l))
}

func vMinF(acc float32, l *Data) float32 {
	if vNil(l) {
		return acc
	}
	if vF(vCar(l)) < acc {
		return vMinF(vF(vCar(l)), vCdr(l))
	}
	return vMinF(acc, vCdr(l))
}

func vMaxF(acc float32, l *Data) float32 {
	if vNil(l) {
		return acc
	}
	if vF(vCar(l)) > acc {
		return vMaxF(vF(vCar(l)), vCdr(l))
	}
	return vMaxF(acc, vCdr(l))
}

func inv_MinImpl__nums(a0 *Data, c *Data) bool         { return vNums(vCar(a0)) == vNums(c) }
func inv_MinImpl__anyf(a0 *Data, c *Data, b bool) bool { return vHasFloat(vCar(a0)) == (b || vHasFloat(c)) }
func inv_MinImpl__ints(c *Data) bool                   { return vNums(c) && !vHasFloat(c) }
func inv_MinImpl__flts(c *Data) bool                   { return vNums(c) }
func inv_MinImpl__i(a0 *Data, c *Data, acc int64) bool {
	return vMinI(vI(vCar(vCar(a0))), vCdr(vCar(a0))) == vMinI(acc, c)
}
func inv_MinImpl__f(a0 *Data, c *Data, acc float32) bool {
	return sameF(vMinF(vF(vCar(vCar(a0))), vCdr(vCar(a0))), vMinF(acc, c))
}

//govc:prop C04
func post_MinImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	l := vCar(args)
	if !vIsList(l) {
		return err != nil
	}
	if vNil(l) {
		return rInt(r, err, 0)
	}
	if !vNums(l) {
		return err != nil
	}
	if vHasFloat(l) {
		return rFloat(r, err, vMinF(vF(vCar(l)), vCdr(l)))
	}
	return rInt(r, err, vMinI(vI(vCar(l)), vCdr(l)))
}

func inv_MaxImpl__nums(a0 *Data, c *Data) bool         { return vNums(vCar(a0)) == vNums(c) }
func inv_MaxImpl__anyf(a0 *Data, c *Data, b bool) bool { return vHasFloat(vCar(a0)) == (b || vHasFloat(c)) }
func inv_MaxImpl__ints(c *Data) bool                   { return vNums(c) && !vHasFloat(c) }
func inv_MaxImpl__flts(c *Data) bool                   { return vNums(c) }
func inv_MaxImpl__i(a0 *Data, c *Data, acc int64) bool {
	return vMaxI(vI(vCar(vCar(a0))), vCdr(vCar(a0))) == vMaxI(acc, c)
}
func inv_MaxImpl__f(a0 *Data, c *Data, acc float32) bool {
	return sameF(vMaxF(vF(vCar(vCar(a0))), vCdr(vCar(a0))), vMaxF(acc, c))
}

//govc:prop C04
func post_MaxImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	l := vCar(args)
	if !vIsList(l) {
		return err != nil
	}
	if vNil(l) {
		return rInt(r, err, 0)
	}
	if !vNums(l) {
		return err != nil
	}
	if vHasFloat(l) {
		return rFloat(r, err, vMaxF(vF(vCar(l)), vCdr(l)))
	}
	return rInt(r, err, vMaxI(vI(vCar(l)), vCdr(l)))
}

//govc:prop C04
func post_FloorImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsNum(x) {
		return err != nil
	}
	return rFloat(r, err, float32(math.Floor(float64(vF(x)))))
}

//govc:prop C04
func post_CeilingImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsNum(x) {
		return err != nil
	}
	return rFloat(r, err, float32(math.Ceil(float64(vF(x)))))
}

//govc:prop C04
func post_ToIntImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsNum(x) {
		return err != nil
	}
	return rInt(r, err, vI(x))
}

//govc:prop C04
func post_ToFloatImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsNum(x) {
		return err != nil
	}
	return rFloat(r, err, vF(x))
}

// vPow: exact integer power by repeated squaring (modulo 2^64).
func vPow(acc, b, e int64) int64 {
	if e <= 0 {
		return acc
	}
	if e&1 != 0 {
		return vPow(acc*b, b*b, e>>1)
	}
	return vPow(acc, b*b, e>>1)
}

func inv_PowImpl__nums(a0 *Data, c *Data) bool         { return vNums(a0) == vNums(c) }
func inv_PowImpl__anyf(a0 *Data, c *Data, b bool) bool { return vHasFloat(a0) == (b || vHasFloat(c)) }
func inv_PowImpl__pow(a0 *Data, acc, b, e int64) bool {
	return vPow(1, vI(vCar(a0)), vI(vCadr(a0))) == vPow(acc, b, e)
}

//govc:prop C04
func post_PowImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vNums(args) {
		return err != nil
	}
	if vHasFloat(args) {
		return rFloat(r, err, float32(math.Pow(float64(vF(vCar(args))), float64(vF(vCadr(args))))))
	}
	return rInt(r, err, vPow(1, vI(vCar(args)), vI(vCadr(args))))
}

// ---- C05: comparisons ----------------------------------------------------------

func vBadNums(args *Data) bool { return !vIsNum(vCar(args)) || !vIsNum(vCadr(args)) }
func vInts2(args *Data) bool   { return vIsInt(vCar(args)) && vIsInt(vCadr(args)) }

//govc:prop C05
func post_LessThanImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if vBadNums(args) {
		return err != nil
	}
	if vInts2(args) {
		return rBool(r, err, vI(vCar(args)) < vI(vCadr(args)))
	}
	return rBool(r, err, vF(vCar(args)) < vF(vCadr(args)))
}

//govc:prop C05
func post_GreaterThanImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if vBadNums(args) {
		return err != nil
	}
	if vInts2(args) {
		return rBool(r, err, vI(vCar(args)) > vI(vCadr(args)))
	}
	return rBool(r, err, vF(vCar(args)) > vF(vCadr(args)))
}

//govc:prop C05
func post_LessThanOrEqualToImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if vBadNums(args) {
		return err != nil
	}
	if vInts2(args) {
		return rBool(r, err, vI(vCar(args)) <= vI(vCadr(args)))
	}
	return rBool(r, err, vF(vCar(args)) <= vF(vCadr(args)))
}

//govc:prop C05
func post_GreaterThanOrEqualToImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if vBadNums(args) {
		return err != nil
	}
	if vInts2(args) {
		return rBool(r, err, vI(vCar(args)) >= vI(vCadr(args)))
	}
	return rBool(r, err, vF(vCar(args)) >= vF(vCadr(args)))
}

//govc:prop C05
func post_ZeroImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsNum(x) {
		return err != nil
	}
	if vIsInt(x) {
		return rBool(r, err, vI(x) == 0)
	}
	return rBool(r, err, vF(x) == 0)
}

//govc:prop C05
func post_PositiveImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsNum(x) {
		return err != nil
	}
	if vIsInt(x) {
		return rBool(r, err, vI(x) > 0)
	}
	return rBool(r, err, vF(x) > 0)
}

//govc:prop C05
func post_NegativeImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsNum(x) {
		return err != nil
	}
	if vIsInt(x) {
		return rBool(r, err, vI(x) < 0)
	}
	return rBool(r, err, vF(x) < 0)
}

//govc:prop C05
func post_EvenImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsInt(x) {
		return err != nil
	}
	return rBool(r, err, vI(x)%2 == 0)
}

//govc:prop C05
func post_OddImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	x := vCar(args)
	if !vIsInt(x) {
		return err != nil
	}
	return rBool(r, err, vI(x)%2 != 0)
}
