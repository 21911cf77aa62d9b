package golisp

import "unsafe"

// ---- C10: applying user-defined functions and macros -------------------------

// vMkList: a list of these values.
//
//govc:eventas ArrayToList
func vMkList(s sq) *Data { return listFrom(s) }

// vParams: arguments are prepared left to right; a parameter receives its value
// before the next argument is looked at; what the last (symbol) tail collects is
// bound at the end.
func vParams(p, a *Data, rest sq, ae, le *SymbolTableFrame, eval bool) error {
	if vNil(a) {
		if vIsSym(p) {
			_, err := le.BindLocallyTo(p, vMkList(rest))
			return err
		}
		return nil
	}
	if eval {
		v, err := Eval(vCar(a), ae)
		if err != nil {
			return err
		}
		return vParam(p, a, v, rest, ae, le, eval)
	}
	return vParam(p, a, vCar(a), rest, ae, le, eval)
}

func vParam(p, a, v *Data, rest sq, ae, le *SymbolTableFrame, eval bool) error {
	if vIsSym(p) {
		return vParams(p, vCdr(a), sqCat(rest, sqOne(v)), ae, le, eval)
	}
	_, err := le.BindLocallyTo(vCar(p), v)
	if err != nil {
		return err
	}
	return vParams(vCdr(p), vCdr(a), rest, ae, le, eval)
}

func vArity(n, required int, rest bool) bool { return n == required || rest && n >= required }

//govc:prop C10
//govc:fuel 1
//govc:eventin ArrayToList s
func spec_Function_makeLocalBindings(self *Function, args *Data, argEnv *SymbolTableFrame, localEnv *SymbolTableFrame, eval bool) error {
	if !vArity(spec_Length(args), self.RequiredArgCount, self.VarArgs) {
		return vErr()
	}
	return vParams(self.Params, args, sqNil(), argEnv, localEnv, eval)
}

func inv_Function_makeLocalBindings(ownP, ownAcc *Data) bool {
	return vIsSym(ownP) && ownAcc == ownP || !vIsSym(ownP) && ownAcc == nil
}

func loop_Function_makeLocalBindings(a2, a3 *SymbolTableFrame, a4 bool, ownP, ownA *Data, ownRest []*Data) error {
	return vParams(ownP, ownA, sqOf(ownRest), a2, a3, a4)
}

//govc:prop C10
//govc:fuel 1
//govc:eventin ArrayToList s
func spec_Macro_makeLocalBindings(self *Macro, args *Data, argEnv *SymbolTableFrame, localEnv *SymbolTableFrame, eval bool) error {
	if !vArity(spec_Length(args), self.RequiredArgCount, self.VarArgs) {
		return vErr()
	}
	return vParams(self.Params, args, sqNil(), argEnv, localEnv, eval)
}

func inv_Macro_makeLocalBindings(ownP, ownAcc *Data) bool {
	return vIsSym(ownP) && ownAcc == ownP || !vIsSym(ownP) && ownAcc == nil
}

func loop_Macro_makeLocalBindings(a2, a3 *SymbolTableFrame, a4 bool, ownP, ownA *Data, ownRest []*Data) error {
	return vParams(ownP, ownA, sqOf(ownRest), a2, a3, a4)
}

// vProc: the process an environment runs in.
func vProc(p *Process) *Data { return ObjectWithTypeAndValue("Process", unsafe.Pointer(p)) }

func vSelf(f *Function, ae *SymbolTableFrame, frame *FrameMap, le *SymbolTableFrame) error {
	if frame != nil {
		_, err := le.BindLocallyTo(vSym("self"), FrameWithValue(frame))
		return err
	}
	if f.SlotFunction == 1 {
		if b, ok := vLocal(ae, "self"); ok {
			_, err := le.BindLocallyTo(vSym("self"), b.Val)
			return err
		}
	}
	return nil
}

// vInvoke: a new environment below the one the function was made in; the body
// is evaluated there.
func vInvoke(f *Function, args *Data, ae *SymbolTableFrame, frame *FrameMap, eval bool) (*Data, error) {
	le := NewSymbolTableFrameBelowWithFrame(f.Env, frame, f.Name)
	err := vSelf(f, ae, frame, le)
	if err != nil {
		return nil, err
	}
	if f.ParentProcess != nil {
		_, err = le.BindLocallyTo(vSym("parentProcess"), vProc(f.ParentProcess))
		if err != nil {
			return nil, err
		}
	}
	err = spec_Function_makeLocalBindings(f, args, ae, le, eval)
	if err != nil {
		return nil, err
	}
	return vSeq(f.Body, nil, le)
}

//govc:prop C10
//govc:fuel 1
//govc:eventin FrameWithValue v
//govc:eventin ObjectWithTypeAndValue vv
//govc:trusted the conditional bindings of self and parentProcess before the body loop exceed the solver budget; executed on generated inputs instead
func spec_Function_internalApply(self *Function, args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool) (*Data, error) {
	return vInvoke(self, args, argEnv, frame, eval)
}

func loop_Function_internalApply(preLe *SymbolTableFrame, c, r *Data) (*Data, error) { return vSeq(c, r, preLe) }

//govc:prop C10
//govc:fuel 1
func spec_Function_Apply(self *Function, args *Data, argEnv *SymbolTableFrame) (*Data, error) {
	return self.internalApply(args, argEnv, nil, true)
}

//govc:prop C10
//govc:fuel 1
func spec_Function_ApplyWithFrame(self *Function, args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (*Data, error) {
	return self.internalApply(args, argEnv, frame, true)
}

//govc:prop C10
//govc:fuel 1
func spec_Function_ApplyWithoutEval(self *Function, args *Data, argEnv *SymbolTableFrame) (*Data, error) {
	return self.internalApply(args, argEnv, nil, false)
}

//govc:prop C10
//govc:fuel 1
func spec_Function_ApplyWithoutEvalWithFrame(self *Function, args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (*Data, error) {
	return self.internalApply(args, argEnv, frame, false)
}

//govc:prop C10
//govc:fuel 1
func spec_Function_ApplyOveriddingEnvironment(self *Function, args *Data, argEnv *SymbolTableFrame) (*Data, error) {
	le := NewSymbolTableFrameBelow(argEnv, self.Name)
	err := spec_Function_makeLocalBindings(self, args, argEnv, le, true)
	if err != nil {
		return nil, err
	}
	return vSeq(self.Body, nil, le)
}

func loop_Function_ApplyOveriddingEnvironment(preLe *SymbolTableFrame, c, r *Data) (*Data, error) {
	return vSeq(c, r, preLe)
}

//govc:prop C10
//govc:fuel 1
func spec_Macro_Expand(self *Macro, args *Data, argEnv *SymbolTableFrame) (*Data, error) {
	le := NewSymbolTableFrameBelow(self.Env, self.Name)
	err := spec_Macro_makeLocalBindings(self, args, argEnv, le, false)
	if err != nil {
		return nil, err
	}
	return Eval(self.Body, le)
}

//govc:prop C10
func spec_Macro_internalApply(self *Macro, args *Data, argEnv *SymbolTableFrame, eval bool) (*Data, error) {
	x, err := self.Expand(args, argEnv)
	if err != nil {
		return nil, err
	}
	return Eval(x, argEnv)
}

//govc:prop C10
func spec_Macro_Apply(self *Macro, args *Data, argEnv *SymbolTableFrame) (*Data, error) {
	return self.internalApply(args, argEnv, false)
}

//govc:prop C10
func spec_Macro_ApplyWithoutEval(self *Macro, args *Data, argEnv *SymbolTableFrame) (*Data, error) {
	return self.internalApply(args, argEnv, false)
}

// vApply: by the kind of the operator.
//
//govc:prop C10
//govc:prop C06
func spec_Apply(function *Data, args *Data, env *SymbolTableFrame) (*Data, error) {
	if vNil(function) {
		return nil, vErr()
	}
	switch function.Type {
	case FunctionType:
		f := (*Function)(function.Value)
		if f.SlotFunction == 1 && env.Frame != nil {
			return f.ApplyWithFrame(args, env, env.Frame)
		}
		return f.Apply(args, env)
	case MacroType:
		return (*Macro)(function.Value).Apply(args, env)
	case PrimitiveType:
		return (*PrimitiveFunction)(function.Value).Apply(args, env)
	}
	return nil, vErr()
}

//govc:prop C10
//govc:prop C06
func spec_ApplyWithoutEval(function *Data, args *Data, env *SymbolTableFrame) (*Data, error) {
	if function == nil {
		return nil, vErr()
	}
	switch function.Type {
	case FunctionType:
		f := (*Function)(function.Value)
		if f.SlotFunction == 1 && env.Frame != nil {
			return f.ApplyWithoutEvalWithFrame(args, env, env.Frame)
		}
		return f.ApplyWithoutEval(args, env)
	case MacroType:
		return (*Macro)(function.Value).ApplyWithoutEval(args, env)
	case PrimitiveType:
		return (*PrimitiveFunction)(function.Value).ApplyWithoutEval(args, env)
	}
	return nil, vErr()
}
