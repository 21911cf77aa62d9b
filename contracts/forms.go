package golisp

// ---- C11: special forms evaluate exactly the prescribed parts, in order ------

// vSeq: some expressions one after another; the value of the last.
func vSeq(l *Data, r *Data, env *SymbolTableFrame) (*Data, error) {
	if vNil(l) {
		return r, nil
	}
	v, err := Eval(vCar(l), env)
	if err != nil {
		return nil, err
	}
	return vSeq(vCdr(l), v, env)
}

//govc:prop C11
//govc:fuel 1
func spec_evaluateBody(sexprs *Data, env *SymbolTableFrame) (*Data, error) { return vSeq(sexprs, nil, env) }

func loop_evaluateBody(a1 *SymbolTableFrame, c, r *Data) (*Data, error) { return vSeq(c, r, a1) }

//govc:prop C11
//govc:fuel 1
func spec_BeginImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return vSeq(args, nil, env) }

func loop_BeginImpl(a1 *SymbolTableFrame, c, r *Data) (*Data, error) { return vSeq(c, r, a1) }

//govc:prop C11
func spec_IfImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	c, err := Eval(vCar(args), env)
	if err != nil {
		return nil, err
	}
	if vTrue(c) {
		return Eval(spec_Second(args), env)
	}
	return Eval(spec_Third(args), env)
}

//govc:prop C11
//govc:fuel 1
func spec_WhenImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	c, err := Eval(vCar(args), env)
	if err != nil {
		return nil, err
	}
	if vTrue(c) {
		return vSeq(vCdr(args), nil, env)
	}
	return nil, nil
}

func loop_WhenImpl(a1 *SymbolTableFrame, c, r *Data) (*Data, error) { return vSeq(c, r, a1) }

//govc:prop C11
//govc:fuel 1
func spec_UnlessImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	c, err := Eval(vCar(args), env)
	if err != nil {
		return nil, err
	}
	if !vTrue(c) {
		return vSeq(vCdr(args), nil, env)
	}
	return nil, nil
}

func loop_UnlessImpl(a1 *SymbolTableFrame, c, r *Data) (*Data, error) { return vSeq(c, r, a1) }

// vCond: the first clause whose test is true (or is else).
func vCond(l *Data, env *SymbolTableFrame) (*Data, error) {
	if vNil(l) {
		return nil, nil
	}
	c := vCar(l)
	if !vPairP(c) {
		return nil, vErr()
	}
	if IsEqual(vCar(c), vSym("else")) {
		return vSeq(vCdr(c), nil, env)
	}
	t, err := Eval(vCar(c), env)
	if err != nil {
		return nil, err
	}
	if vTrue(t) {
		return vSeq(vCdr(c), nil, env)
	}
	return vCond(vCdr(l), env)
}

//govc:prop C11
//govc:fuel 1
func spec_CondImpl(args *Data, env *SymbolTableFrame) (*Data, error) { return vCond(args, env) }

func loop_CondImpl(a1 *SymbolTableFrame, c *Data) (*Data, error) { return vCond(c, a1) }

// vOneOf: the key is one of the values.
func vOneOf(l *Data, key *Data) bool {
	if vNil(l) {
		return false
	}
	if IsEqual(vCar(l), key) {
		return true
	}
	return vOneOf(vCdr(l), key)
}

func vCase(l *Data, key *Data, env *SymbolTableFrame) (*Data, error) {
	if vNil(l) {
		return nil, nil
	}
	c := vCar(l)
	if !vPairP(c) {
		return nil, vErr()
	}
	if IsEqual(vCar(c), vSym("else")) {
		return vSeq(vCdr(c), nil, env)
	}
	if !vIsList(vCar(c)) {
		return nil, vErr()
	}
	if vOneOf(vCar(c), key) {
		return vSeq(vCdr(c), nil, env)
	}
	return vCase(vCdr(l), key, env)
}

//govc:prop C11
//govc:fuel 1
//govc:hard
func spec_CaseImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	k, err := Eval(vCar(args), env)
	if err != nil {
		return nil, err
	}
	return vCase(vCdr(args), k, env)
}

func loop_CaseImpl__out(a1 *SymbolTableFrame, preKey *Data, ownC *Data) (*Data, error) {
	return vCase(ownC, preKey, a1)
}

func loop_CaseImpl__in(a1 *SymbolTableFrame, preKey *Data, outC *Data, ownV *Data) (*Data, error) {
	if vOneOf(ownV, preKey) {
		return vSeq(vCdr(vCar(outC)), nil, a1)
	}
	return vCase(vCdr(outC), preKey, a1)
}

func vUntilT(l *Data, r *Data, stop bool, env *SymbolTableFrame) (*Data, error) {
	if vNil(l) {
		return r, nil
	}
	v, err := Eval(vCar(l), env)
	if err != nil || vTrue(v) == stop {
		return v, err
	}
	return vUntilT(vCdr(l), v, stop, env)
}

//govc:prop C11
//govc:fuel 1
func spec_BooleanAndImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vUntilT(args, nil, false, env)
}

//govc:prop C11
//govc:fuel 1
func spec_BooleanOrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vUntilT(args, nil, true, env)
}

func loop_BooleanAndImpl(a1 *SymbolTableFrame, c, r *Data) (*Data, error) { return vUntilT(c, r, false, a1) }

func loop_BooleanOrImpl(a1 *SymbolTableFrame, c, r *Data) (*Data, error) { return vUntilT(c, r, true, a1) }

// ---- functions and definitions ----

// vReq: how many parameters are required, and whether the rest is collected.
func vReq(p *Data, n int) (int, bool) {
	if vNil(p) {
		return n, false
	}
	if vIsSym(p) {
		return n, true
	}
	return vReq(vCdr(p), n+1)
}

//govc:prop C10
//govc:fuel 1
//govc:pure
func spec_computeRequiredArgumentCount(args *Data) (int, bool) { return vReq(args, 0) }

func loop_computeRequiredArgumentCount(c *Data, n int) (int, bool) { return vReq(c, n) }

//govc:prop C10
//govc:prop C11
func post_FunctionWithNameParamsBodyAndParent(name string, params *Data, body *Data, parentEnv *SymbolTableFrame, r *Data) bool {
	if r == nil || r.Type != FunctionType || r.Value == nil {
		return false
	}
	f := (*Function)(r.Value)
	n, v := vReq(params, 0)
	return f.Name == name && f.Params == params && f.Body == body && f.Env == parentEnv && f.RequiredArgCount == n && f.VarArgs == v
}

//govc:prop C10
//govc:prop C11
func post_MacroWithNameParamsBodyAndParent(name string, params *Data, body *Data, parentEnv *SymbolTableFrame, r *Data) bool {
	if r == nil || r.Type != MacroType || r.Value == nil {
		return false
	}
	f := (*Macro)(r.Value)
	n, v := vReq(params, 0)
	return f.Name == name && f.Params == params && f.Body == body && f.Env == parentEnv && f.RequiredArgCount == n && f.VarArgs == v
}

func vFnOf(d *Data) *Function {
	if d == nil || d.Type != FunctionType {
		return nil
	}
	return (*Function)(d.Value)
}

// rFn: a function value closed over env.
func rFn(r *Data, err error, name string, params, body *Data, env *SymbolTableFrame) bool {
	if err != nil || r == nil || r.Type != FunctionType || r.Value == nil {
		return false
	}
	f := (*Function)(r.Value)
	return f.Name == name && f.Params == params && f.Body == body && f.Env == env
}

//govc:prop C11
//govc:prop C10
func post_LambdaImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vPairP(vCar(args)) {
		return err != nil
	}
	return rFn(r, err, "unnamed", vCar(args), vCdr(args), env)
}

//govc:prop C11
//govc:prop C10
func post_NamedLambdaImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vPairP(vCar(args)) || !vIsSym(vCar(vCar(args))) {
		return err != nil
	}
	return rFn(r, err, vStr(vCar(vCar(args))), vCdr(vCar(args)), vCdr(args), env)
}

func vIsPrim(d *Data) bool { return d != nil && d.Type == PrimitiveType }

//govc:prop C11
//govc:prop C09
//govc:prop C08
//govc:eventin FunctionWithNameParamsBodyAndParent vvvv
func spec_DefineImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	t := vCar(args)
	if vIsSym(t) {
		v, err := Eval(vCadr(args), env)
		if err != nil {
			return nil, err
		}
		_, err = env.BindLocallyTo(t, v)
		return v, err
	}
	if !vPairP(t) || !vIsSym(vCar(t)) {
		return nil, vErr()
	}
	old := env.ValueOf(vCar(t))
	if vIsPrim(old) {
		return nil, vErr()
	}
	f := FunctionWithNameParamsBodyAndParent(vStr(vCar(t)), vCdr(t), vCdr(args), env)
	_, err := env.BindLocallyTo(vCar(t), f)
	return f, err
}

//govc:prop C11
//govc:prop C09
//govc:eventin MacroWithNameParamsBodyAndParent vvvv
func spec_DefmacroImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	t := vCar(args)
	if !vPairP(t) || !vIsSym(vCar(t)) {
		return nil, vErr()
	}
	f := MacroWithNameParamsBodyAndParent(vStr(vCar(t)), vCdr(t), vCadr(args), env)
	_, err := env.BindLocallyTo(vCar(t), f)
	return f, err
}

//govc:prop C11
//govc:prop C09
//govc:prop C08
func spec_SetVarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	if !vIsSym(vCar(args)) {
		return nil, vErr()
	}
	v, err := Eval(vCadr(args), env)
	if err != nil {
		return nil, err
	}
	return env.SetTo(vCar(args), v)
}

// ---- let ----

// vNames: the forms are pairs with symbols; letrec makes all names first.
func vNames(l *Data, rec bool, le *SymbolTableFrame) error {
	if vNil(l) {
		return nil
	}
	b := vCar(l)
	if !vPairP(b) || !vIsSym(vCar(b)) {
		return vErr()
	}
	if rec {
		_, err := le.BindLocallyTo(vCar(b), nil)
		if err != nil {
			return err
		}
	}
	return vNames(vCdr(l), rec, le)
}

// vValues: evaluate and bind, one after another.
func vValues(l *Data, le, ee *SymbolTableFrame) error {
	if vNil(l) {
		return nil
	}
	v, err := Eval(vCadr(vCar(l)), ee)
	if err != nil {
		return err
	}
	_, err = le.BindLocallyTo(vCar(vCar(l)), v)
	if err != nil {
		return err
	}
	return vValues(vCdr(l), le, ee)
}

//govc:prop C11
//govc:fuel 1
//govc:hard
func spec_bindLetLocals(bindingForms *Data, rec bool, localEnv *SymbolTableFrame, evalEnv *SymbolTableFrame) error {
	err := vNames(bindingForms, rec, localEnv)
	if err != nil {
		return err
	}
	return vValues(bindingForms, localEnv, evalEnv)
}

func loop_bindLetLocals__names(a0 *Data, a1 bool, a2 *SymbolTableFrame, a3 *SymbolTableFrame, c *Data) error {
	err := vNames(c, a1, a2)
	if err != nil {
		return err
	}
	return vValues(a0, a2, a3)
}

func loop_bindLetLocals__values(a2 *SymbolTableFrame, a3 *SymbolTableFrame, c *Data) error {
	return vValues(c, a2, a3)
}

func vLet(args *Data, env *SymbolTableFrame, star bool, rec bool) (*Data, error) {
	if !vPairP(vCar(args)) {
		return nil, vErr()
	}
	le := NewSymbolTableFrameBelow(env, "let")
	ee := env
	if star || rec {
		ee = le
	}
	err := spec_bindLetLocals(vCar(args), rec, le, ee)
	if err != nil {
		return nil, err
	}
	return vSeq(vCdr(args), nil, le)
}

//govc:prop C11
//govc:fuel 1
//govc:hard
func spec_LetCommon(args *Data, env *SymbolTableFrame, star bool, rec bool) (*Data, error) {
	return vLet(args, env, star, rec)
}

func loop_LetCommon(preLe *SymbolTableFrame, c, r *Data) (*Data, error) { return vSeq(c, r, preLe) }

//govc:prop C11
//govc:fuel 1
func spec_LetStarImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vLet(args, env, true, false)
}

//govc:prop C11
//govc:fuel 1
func spec_LetRecImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	return vLet(args, env, false, true)
}

// vBinds: the names (or the initial expressions) of a named let.
func vBinds(l *Data, names, inits sq) (sq, sq, bool) {
	if vNil(l) {
		return names, inits, true
	}
	b := vCar(l)
	if !vIsSym(vCar(b)) {
		return sqNil(), sqNil(), false
	}
	return vBinds(vCdr(l), sqCat(names, sqOne(vCar(b))), sqCat(inits, sqOne(vCadr(b))))
}

// vLoopFn, vApplyFn: making the loop function, applying it to expressions.
//
//govc:eventas FunctionWithNameParamsBodyAndParent
func vLoopFn(name string, params sq, body *Data, env *SymbolTableFrame) *Data {
	return FunctionWithNameParamsBodyAndParent(name, listFrom(params), body, env)
}

//govc:eventas (*Function).Apply
func vApplyFn(f *Function, args sq, env *SymbolTableFrame) (*Data, error) {
	return f.Apply(listFrom(args), env)
}

//govc:prop C11
//govc:fuel 1
//govc:eventin FunctionWithNameParamsBodyAndParent vlvv
//govc:eventin (*Function).Apply vlv
func spec_namedLetImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	name := vCar(args)
	if !vIsSym(name) {
		return nil, vErr()
	}
	if !vPairP(vCadr(args)) {
		return nil, vErr()
	}
	body := vCdr(vCdr(args))
	names, inits, ok := vBinds(vCadr(args), sqNil(), sqNil())
	if !ok {
		return nil, vErr()
	}
	return vLoop(vStr(name), name, names, inits, body, env)
}

func vLoop(ns string, name *Data, names, inits sq, body *Data, env *SymbolTableFrame) (*Data, error) {
	le := NewSymbolTableFrameBelow(env, ns)
	_, err := le.BindLocallyTo(name, nil)
	if err != nil {
		return nil, err
	}
	f := vLoopFn(ns, names, body, le)
	_, err = le.BindLocallyTo(name, f)
	if err != nil {
		return nil, err
	}
	return vApplyFn(vFnOf(f), inits, env)
}

func keep_namedLetImpl(ownL *Data, ownNames, ownInits []*Data) (sq, sq, bool) {
	return vBinds(ownL, sqOf(ownNames), sqOf(ownInits))
}

//govc:prop C11
//govc:fuel 1
func spec_LetImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	if vIsSym(vCar(args)) {
		return spec_namedLetImpl(args, env)
	}
	return vLet(args, env, false, false)
}

// ---- do ----

// vSteps: all step expressions are evaluated before any variable changes.
func vSteps(l *Data, names, vals sq, env *SymbolTableFrame) error {
	if vNil(l) {
		return vRebind(names, vals, env)
	}
	b := vCar(l)
	if vNil(spec_Third(b)) {
		return vSteps(vCdr(l), sqCat(names, sqOne(spec_First(b))), sqCat(vals, sqOne(env.ValueOf(spec_First(b)))), env)
	}
	v, err := Eval(spec_Third(b), env)
	if err != nil {
		return err
	}
	return vSteps(vCdr(l), sqCat(names, sqOne(spec_First(b))), sqCat(vals, sqOne(v)), env)
}

func vRebind(names, vals sq, env *SymbolTableFrame) error {
	if sqLen(names) == 0 {
		return nil
	}
	_, err := env.BindLocallyTo(sqAt(names, 0), sqAt(vals, 0))
	if err != nil {
		return err
	}
	return vRebind(sqDrop(names, 1), sqDrop(vals, 1), env)
}

//govc:prop C11
//govc:fuel 1
//govc:eventin (*SymbolTableFrame).BindLocallyTo vnn
func spec_rebindDoLocals(bindingForms *Data, env *SymbolTableFrame) error {
	return vSteps(bindingForms, sqNil(), sqNil(), env)
}

func loop_rebindDoLocals__eval(a1 *SymbolTableFrame, ownC *Data, ownN, ownV []*Data) error {
	return vSteps(ownC, sqOf(ownN), sqOf(ownV), a1)
}

func loop_rebindDoLocals__bind(a1 *SymbolTableFrame, preN, preV []*Data, ownI int) error {
	return vRebind(sqDrop(sqOf(preN), ownI), sqDrop(sqOf(preV), ownI), a1)
}

// vDo: r is the value so far (the result if there are no result expressions).
func vDo(bs, test, body, r *Data, le *SymbolTableFrame) (*Data, error) {
	t, err := Eval(vCar(test), le)
	if err != nil {
		return nil, err
	}
	if vTrue(t) {
		return vSeq(vCdr(test), r, le)
	}
	return vDoBody(body, bs, test, body, r, le)
}

func vDoBody(l *Data, bs, test, body, r *Data, le *SymbolTableFrame) (*Data, error) {
	if vNil(l) {
		err := vSteps(bs, sqNil(), sqNil(), le)
		if err != nil {
			return nil, err
		}
		return vDo(bs, test, body, r, le)
	}
	v, err := Eval(vCar(l), le)
	if err != nil {
		return nil, err
	}
	return vDoBody(vCdr(l), bs, test, body, v, le)
}

//govc:prop C11
//govc:fuel 1
//govc:eventin (*SymbolTableFrame).BindLocallyTo vnn
//govc:trusted three nested loops over evaluated code exceed the solver budget; executed on generated inputs instead
func spec_DoImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	if !vPairP(vCar(args)) || !vPairP(vCadr(args)) {
		return nil, vErr()
	}
	bs, test := vCar(args), vCadr(args)
	le := NewSymbolTableFrameBelow(env, "do")
	err := spec_bindLetLocals(bs, false, le, env)
	if err != nil {
		return nil, err
	}
	return vDo(bs, test, vCdr(vCdr(args)), nil, le)
}

func loop_DoImpl__do(preLe *SymbolTableFrame, preBs, preTest, preBody *Data, ownR *Data) (*Data, error) {
	return vDo(preBs, preTest, preBody, ownR, preLe)
}

func loop_DoImpl__exit(preLe *SymbolTableFrame, ownC, ownR *Data) (*Data, error) { return vSeq(ownC, ownR, preLe) }

func loop_DoImpl__body(preLe *SymbolTableFrame, preBs, preTest, preBody *Data, ownC, ownR *Data) (*Data, error) {
	return vDoBody(ownC, preBs, preTest, preBody, ownR, preLe)
}

// ---- apply, chaining ----

//govc:prop C11
func spec_ApplyImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	f := vCar(args)
	if !vIsFn(f) {
		return nil, vErr()
	}
	s := listOf(vCdr(args))
	n := sqLen(s)
	if n == 0 {
		return vCall(f, sqNil(), env)
	}
	l := sqAt(s, n-1)
	if !vIsList(l) {
		return nil, vErr()
	}
	return vCall(f, sqCat(sqTake(s, n-1), listOf(l)), env)
}

// vThread: each form is applied to a value as its first argument.
//
//govc:eventas Eval
func vEvalForm(f sq, env *SymbolTableFrame) (*Data, error) { return Eval(listFrom(f), env) }

func vWith(e *Data, v *Data) sq {
	if vIsList(e) {
		return sqCat(sqOne(vCar(e)), sqCat(sqOne(v), listOf(vCdr(e))))
	}
	return sqCat(sqOne(e), sqOne(v))
}

func vPairP(d *Data) bool { return d == nil || d.Type == ConsCellType }
