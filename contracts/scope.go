package golisp

// ---- scoping (C09) ----

// vLocal: the binding of a name made in an environment itself.
func vLocal(env *SymbolTableFrame, name string) (*Binding, bool) {
	b, ok := env.Bindings[name]
	return b, ok
}

// vBind: the nearest binding of a name, nil if there is none.
func vBind(env *SymbolTableFrame, name string) *Binding {
	if env == nil {
		return nil
	}
	if b, ok := env.Bindings[name]; ok {
		return b
	}
	return vBind(env.Parent, name)
}

//govc:prop C09
func spec_SymbolTableFrame_BindingNamed(self *SymbolTableFrame, name string) (*Binding, bool) {
	b, ok := self.Bindings[name]
	return b, ok
}

//govc:prop C09
func spec_SymbolTableFrame_findBindingInLocalFrameFor(self *SymbolTableFrame, symbol *Data) (*Binding, bool) {
	b, ok := self.Bindings[vStr(symbol)]
	return b, ok
}

//govc:prop C09
func spec_SymbolTableFrame_FindBindingFor(self *SymbolTableFrame, symbol *Data) (*Binding, bool) {
	b := vBind(self, vStr(symbol))
	return b, b != nil
}

//govc:prop C09
func spec_SymbolTableFrame_findSymbol(self *SymbolTableFrame, name string) (*Data, bool) {
	b := vBind(self, name)
	if b == nil {
		return nil, false
	}
	return b.Sym, true
}

// ---- changing bindings: the entry state as the contracts need it ----

// old: the nearest binding, whether it is protected; an arbitrary binding and
// an arbitrary table entry, to say that nothing else changes.
func spec_SymbolTableFrame_BindTo(self *SymbolTableFrame, symbol, value *Data) (b *Binding, prot bool, ov *Data, op bool, tb *Binding, tok bool) {
	b = vBind(self, vStr(symbol))
	prot = b != nil && b.Protected
	ov, op = vAnyB().Val, vAnyB().Protected
	tb, tok = vAnyE().Bindings[vAnyS()]
	return
}

//govc:prop C09
//govc:prop C08
//govc:inline (*SymbolTableFrame).SetBindingAt
//govc:nokind prot
func post_SymbolTableFrame_BindTo(self *SymbolTableFrame, symbol, value *Data, b *Binding, prot bool, ov *Data, op bool, tb *Binding, tok bool, r *Data, err error) bool {
	return vAssigned(self, vStr(symbol), value, b, prot, b == nil, ov, op, tb, tok, r, err)
}

// vAssigned: exactly the binding b received the value (or a new one was made in
// env if it was to be defined), unless it is protected: then nothing changed.
func vAssigned(env *SymbolTableFrame, name string, value *Data, b *Binding, prot, define bool, ov *Data, op bool, tb *Binding, tok bool, r *Data, err error) bool {
	fails := prot || b == nil && !define
	if fails != (err != nil) {
		return false
	}
	if err == nil && r != value {
		return false
	}
	// the binding assigned to
	if !fails && b != nil && (b.Val != value || b.Protected) {
		return false
	}
	// any other binding
	o := vAnyB()
	if o.Protected != op || (fails || o != b) && o.Val != ov {
		return false
	}
	// any table entry
	nb, nok := vAnyE().Bindings[vAnyS()]
	if !fails && define && vAnyE() == env && vAnyS() == name {
		return nok && nb.Val == value && !nb.Protected
	}
	return nok == tok && (!tok || nb == tb)
}

func spec_SymbolTableFrame_BindLocallyTo(self *SymbolTableFrame, symbol, value *Data) (b *Binding, prot bool, ov *Data, op bool, tb *Binding, tok bool) {
	b, _ = self.Bindings[vStr(symbol)]
	prot = b != nil && b.Protected
	ov, op = vAnyB().Val, vAnyB().Protected
	tb, tok = vAnyE().Bindings[vAnyS()]
	return
}

//govc:prop C09
//govc:prop C08
//govc:inline (*SymbolTableFrame).SetBindingAt
//govc:nokind prot
func post_SymbolTableFrame_BindLocallyTo(self *SymbolTableFrame, symbol, value *Data, b *Binding, prot bool, ov *Data, op bool, tb *Binding, tok bool, r *Data, err error) bool {
	return vAssigned(self, vStr(symbol), value, b, prot, b == nil, ov, op, tb, tok, r, err)
}

func vNaked(symbol *Data) string { return vStr(symbol) + ":" }

// assignment: the innermost binding if it is local; then a slot of the object
// the environment runs in; then the nearest binding.
func spec_SymbolTableFrame_SetTo(self *SymbolTableFrame, symbol, value *Data) (b *Binding, slot, prot bool, ov *Data, op bool, tb *Binding, tok bool) {
	name := vStr(symbol)
	ov, op = vAnyB().Val, vAnyB().Protected
	tb, tok = vAnyE().Bindings[vAnyS()]
	b = vBind(self, name)
	prot = b != nil && b.Protected
	if _, ok := self.Bindings[name]; !ok && self.Frame != nil && self.Frame.HasSlot(vNaked(symbol)) {
		self.Frame.Set(vNaked(symbol), value)
		slot = true
	}
	return
}

//govc:prop C09
//govc:prop C08
//govc:sameargs
func post_SymbolTableFrame_SetTo(self *SymbolTableFrame, symbol, value *Data, b *Binding, slot, prot bool, ov *Data, op bool, tb *Binding, tok bool, r *Data, err error) bool {
	if slot {
		return err == nil && r == value
	}
	return vAssigned(self, vStr(symbol), value, b, prot, false, ov, op, tb, tok, r, err)
}

func spec_SymbolTableFrame_BindToProtected(self *SymbolTableFrame, symbol, value *Data) (b *Binding, ov *Data, op bool, tb *Binding, tok bool) {
	b = vBind(self, vStr(symbol))
	ov, op = vAnyB().Val, vAnyB().Protected
	tb, tok = vAnyE().Bindings[vAnyS()]
	return
}

//govc:prop C08
//govc:inline (*SymbolTableFrame).SetBindingAt
//govc:nokind prot
func post_SymbolTableFrame_BindToProtected(self *SymbolTableFrame, symbol, value *Data, b *Binding, ov *Data, op bool, tb *Binding, tok bool, r *Data) bool {
	if r != value {
		return false
	}
	if b != nil && (b.Val != value || !b.Protected) {
		return false
	}
	o := vAnyB()
	if o != b && (o.Val != ov || o.Protected != op) {
		return false
	}
	nb, nok := vAnyE().Bindings[vAnyS()]
	if b == nil && vAnyE() == self && vAnyS() == vStr(symbol) {
		return nok && nb.Val == value && nb.Protected
	}
	return nok == tok && (!tok || nb == tb)
}

// what a lookup yields
//govc:prop C09
func spec_SymbolTableFrame_ValueOfWithFunctionSlotCheck(self *SymbolTableFrame, symbol *Data, needFunction bool) *Data {
	name := vStr(symbol)
	b := vBind(self, name)
	if _, ok := self.Bindings[name]; !ok && self.Frame != nil && self.Frame.HasSlot(vNaked(symbol)) {
		v := self.Frame.Get(vNaked(symbol))
		if !needFunction || v != nil && v.Type == FunctionType {
			return v
		}
	}
	if b == nil {
		return nil
	}
	return b.Val
}

//govc:prop C09
func post_SymbolTableFrame_ValueOfWithFunctionSlotCheck(self *SymbolTableFrame, symbol *Data, needFunction bool, want, got *Data) bool {
	return vSame(want, got)
}

//govc:prop C09
func spec_SymbolTableFrame_SetBindingAt(self *SymbolTableFrame, name string, b *Binding) (tb *Binding, tok bool) {
	tb, tok = vAnyE().Bindings[vAnyS()]
	return
}

//govc:prop C09
//govc:nokind prot
func post_SymbolTableFrame_SetBindingAt(self *SymbolTableFrame, name string, b, tb *Binding, tok bool) bool {
	nb, nok := vAnyE().Bindings[vAnyS()]
	if vAnyE() == self && vAnyS() == name {
		return nok && nb == b
	}
	return nok == tok && (!tok || nb == tb)
}

func spec_SymbolTableFrame_DeleteBinding(self *SymbolTableFrame, name string) (tb *Binding, tok bool) {
	tb, tok = vAnyE().Bindings[vAnyS()]
	return
}

//govc:prop C09
func post_SymbolTableFrame_DeleteBinding(self *SymbolTableFrame, name string, tb *Binding, tok bool) bool {
	nb, nok := vAnyE().Bindings[vAnyS()]
	if vAnyE() == self && vAnyS() == name {
		return !nok
	}
	return nok == tok && (!tok || nb == tb)
}

// ---- environments as values ----

func vIsEnv(d *Data) bool { return d != nil && d.Type == EnvironmentType }

func vEnv(d *Data) *SymbolTableFrame { return (*SymbolTableFrame)(d.Value) }

func vEnvArgs(args *Data) bool { return vIsEnv(vCar(args)) && vIsSym(vCadr(args)) }

func vMacro(d *Data) bool { return d != nil && d.Type == MacroType }

//govc:prop C09
func spec_EnvironmentLookupImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	if !vEnvArgs(args) {
		return nil, vErr()
	}
	b := vBind(vEnv(vCar(args)), vStr(vCadr(args)))
	if b == nil || b.Val == nil || vMacro(b.Val) {
		return nil, vErr()
	}
	return b.Val, nil
}

//govc:prop C09
func spec_EnvironmentLookupMacroImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	if !vEnvArgs(args) {
		return nil, vErr()
	}
	b := vBind(vEnv(vCar(args)), vStr(vCadr(args)))
	if b == nil || !vMacro(b.Val) {
		return LispFalse, nil
	}
	return b.Val, nil
}

//govc:prop C09
func post_EnvironmentBoundPImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vEnvArgs(args) {
		return err != nil
	}
	return rBool(r, err, vBind(vEnv(vCar(args)), vStr(vCadr(args))) != nil)
}

//govc:prop C09
func post_EnvironmentAssignablePImpl(args *Data, env *SymbolTableFrame, r *Data, err error) bool {
	if !vEnvArgs(args) {
		return err != nil
	}
	return rBool(r, err, vBind(vEnv(vCar(args)), vStr(vCadr(args))) != nil)
}

//govc:prop C09
func spec_EnvironmentAssignedPImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	if !vEnvArgs(args) {
		return nil, vErr()
	}
	b := vBind(vEnv(vCar(args)), vStr(vCadr(args)))
	if b == nil || vMacro(b.Val) {
		return nil, vErr()
	}
	if b.Val == nil {
		return LispFalse, nil
	}
	return LispTrue, nil
}

//govc:prop C09
func spec_EnvironmentReferenceTypeImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	if !vEnvArgs(args) {
		return nil, vErr()
	}
	b := vBind(vEnv(vCar(args)), vStr(vCadr(args)))
	switch {
	case b == nil:
		return vSym("unbound"), nil
	case b.Val == nil:
		return vSym("unassigned"), nil
	case vMacro(b.Val):
		return vSym("macro"), nil
	}
	return vSym("normal"), nil
}

func spec_EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (b *Binding, prot bool, ov *Data, op bool, tb *Binding, tok bool) {
	if vEnvArgs(args) {
		b = vBind(vEnv(vCar(args)), vStr(vCadr(args)))
	}
	prot = b != nil && b.Protected
	ov, op = vAnyB().Val, vAnyB().Protected
	tb, tok = vAnyE().Bindings[vAnyS()]
	return
}

//govc:prop C09
//govc:prop C08
func post_EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame, b *Binding, prot bool, ov *Data, op bool, tb *Binding, tok bool, r *Data, err error) bool {
	if !vEnvArgs(args) {
		return err != nil && vAnyB().Val == ov
	}
	return vAssigned(vEnv(vCar(args)), vStr(vCadr(args)), vCaddr(args), b, prot, false, ov, op, tb, tok, r, err)
}

//govc:prop C09
//govc:prop C08
func spec_EnvironmentDefineImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	if !vEnvArgs(args) {
		return nil, vErr()
	}
	_, err := vEnv(vCar(args)).BindLocallyTo(vCadr(args), vCaddr(args))
	return vCaddr(args), err
}
