package golisp

// ---- applying builtins (C06, C07) ----

// vAccepts: the argument count n satisfies one of the restrictions from i on.
func vAccepts(rs []ArgRestriction, i int, n int) bool {
	if i >= len(rs) {
		return false
	}
	switch rs[i].Type {
	case ARGS_ANY:
		return true
	case ARGS_EQ:
		if n == rs[i].Restriction.(int) {
			return true
		}
	case ARGS_GTE:
		if n >= rs[i].Restriction.(int) {
			return true
		}
	case ARGS_RANGE:
		if rs[i].Restriction.(RangeRestriction).Lo <= n && n <= rs[i].Restriction.(RangeRestriction).Hi {
			return true
		}
	}
	return vAccepts(rs, i+1, n)
}

//govc:pure
//govc:prop C06
func spec_PrimitiveFunction_checkArgumentCount(self *PrimitiveFunction, argCount int) bool {
	return vAccepts(self.ArgRestrictions, 0, argCount)
}

func loop_PrimitiveFunction_checkArgumentCount(a0 *PrimitiveFunction, a1 int, i int) bool {
	return vAccepts(a0.ArgRestrictions, i, a1)
}

// vBody: entering the code of a builtin with a list of these arguments.
//
//govc:eventas primbody
func vBody(body func(d *Data, env *SymbolTableFrame) (*Data, error), args sq, env *SymbolTableFrame) (*Data, error) {
	return body(listFrom(args), env)
}

// vArgs: prepare the arguments left to right, then enter the code once.
func vArgs(p *PrimitiveFunction, args *Data, acc sq, env *SymbolTableFrame) (*Data, error) {
	if vNil(args) {
		return vBody(p.Body, acc, env)
	}
	if p.Special {
		return vArgs(p, vCdr(args), sqCat(acc, sqOne(vCar(args))), env)
	}
	v, err := Eval(vCar(args), env)
	if err != nil {
		return nil, err
	}
	return vArgs(p, vCdr(args), sqCat(acc, sqOne(v)), env)
}

//govc:prop C06
//govc:prop C07
func spec_PrimitiveFunction_Apply(self *PrimitiveFunction, args *Data, env *SymbolTableFrame) (*Data, error) {
	if self.IsRestricted && env.IsRestricted {
		return nil, vErr()
	}
	if !vAccepts(self.ArgRestrictions, 0, spec_Length(args)) {
		return nil, vErr()
	}
	return vArgs(self, args, sqNil(), env)
}

func loop_PrimitiveFunction_Apply(a0 *PrimitiveFunction, a2 *SymbolTableFrame, a *Data, done []*Data) (*Data, error) {
	return vArgs(a0, a, sqOf(done), a2)
}

//govc:pure
func ctr_PrimitiveFunction_argsString() {}

// given values: the same checks, and the code gets exactly these values.
//
//govc:prop C06
//govc:prop C07
//govc:trusted the values travel through Eval as quote forms, whose evaluation is an opaque step; executed on generated inputs instead
func spec_PrimitiveFunction_ApplyWithoutEval(self *PrimitiveFunction, args *Data, env *SymbolTableFrame) (*Data, error) {
	if self.IsRestricted && env.IsRestricted {
		return nil, vErr()
	}
	n := vLen(args)
	if self.Special {
		n = spec_Length(args)
	}
	if !vAccepts(self.ArgRestrictions, 0, n) {
		return nil, vErr()
	}
	return vBody(self.Body, listOf(args), env)
}

// ---- registration ----

// vRegistered: the builtin is bound, protected, as declared.
func vRegistered(name string, special, restricted bool) bool {
	b := vBind(Global, name)
	if b == nil || !b.Protected || b.Val == nil || b.Val.Type != PrimitiveType {
		return false
	}
	p := (*PrimitiveFunction)(b.Val.Value)
	return p.Name == name && p.Special == special && p.IsRestricted == restricted
}

//govc:prop C07
//govc:prop C08
//govc:inline (*SymbolTableFrame).BindToProtected
//govc:inline (*SymbolTableFrame).SetBindingAt
func post_MakePrimitiveFunction(name string, argCount string, function func(*Data, *SymbolTableFrame) (*Data, error)) bool {
	return vRegistered(name, false, false)
}

//govc:prop C07
//govc:prop C08
//govc:inline (*SymbolTableFrame).BindToProtected
//govc:inline (*SymbolTableFrame).SetBindingAt
func post_MakeRestrictedPrimitiveFunction(name string, argCount string, function func(*Data, *SymbolTableFrame) (*Data, error)) bool {
	return vRegistered(name, false, true)
}

//govc:prop C07
//govc:prop C08
//govc:inline (*SymbolTableFrame).BindToProtected
//govc:inline (*SymbolTableFrame).SetBindingAt
func post_MakeSpecialForm(name string, argCount string, function func(*Data, *SymbolTableFrame) (*Data, error)) bool {
	return vRegistered(name, true, false)
}

//govc:prop C07
//govc:prop C08
//govc:inline (*SymbolTableFrame).BindToProtected
//govc:inline (*SymbolTableFrame).SetBindingAt
func post_MakeRestrictedSpecialForm(name string, argCount string, function func(*Data, *SymbolTableFrame) (*Data, error)) bool {
	return vRegistered(name, true, true)
}
