package golisp

// Steps of the interpreter that other functions are specified against: calls
// to these are opaque steps of the world; their bodies are verified on their own.

//govc:event vvv
func ctr_Function_Apply() {}

//govc:event vvvv
func ctr_Function_ApplyWithFrame() {}

//govc:event vvv
func ctr_Function_ApplyWithoutEval() {}

//govc:event vvvv
func ctr_Function_ApplyWithoutEvalWithFrame() {}

//govc:event vvv
func ctr_Function_ApplyOveriddingEnvironment() {}

//govc:event vvv
func ctr_Macro_Apply() {}

//govc:event vvv
func ctr_Macro_ApplyWithoutEval() {}

//govc:event vvv
func ctr_Macro_Expand() {}

//govc:event vvv
func ctr_PrimitiveFunction_Apply() {}

//govc:event vvv
func ctr_PrimitiveFunction_ApplyWithoutEval() {}

// ---- environments ----

//govc:event vv fresh
//govc:nilable
//govc:prop C07
//govc:prop C09
func post_NewSymbolTableFrameBelow(p *SymbolTableFrame, name string, r *SymbolTableFrame) bool {
	return vNewEnv(p, r)
}

// vNewEnv: an environment of its own below p, restricted if p is.
func vNewEnv(p, r *SymbolTableFrame) bool {
	return r != nil && r.Parent == p && r.IsRestricted == (p != nil && p.IsRestricted) && len(r.Bindings) == 0
}

//govc:event vvv fresh
//govc:nilable
//govc:prop C07
//govc:prop C09
func post_NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string, r *SymbolTableFrame) bool {
	return vNewEnv(p, r)
}

//govc:event vvv
func ctr_SymbolTableFrame_BindTo() {}

//govc:event vvv
func ctr_SymbolTableFrame_BindLocallyTo() {}

//govc:event vvv
func ctr_SymbolTableFrame_BindToProtected() {}

//govc:event vvv
func ctr_SymbolTableFrame_SetTo() {}

//govc:event vv
func ctr_SymbolTableFrame_ValueOf() {}

//govc:event vvv
func ctr_SymbolTableFrame_ValueOfWithFunctionSlotCheck() {}

//govc:event vv pure
func ctr_SymbolTableFrame_FindBindingFor() {}

//govc:event vv pure
func ctr_SymbolTableFrame_findBindingInLocalFrameFor() {}

//govc:event vv pure
func ctr_SymbolTableFrame_findSymbol() {}

//govc:event vv pure
func ctr_SymbolTableFrame_BindingNamed() {}

//govc:event vvv
func ctr_SymbolTableFrame_SetBindingAt() {}

//govc:event vv
func ctr_SymbolTableFrame_DeleteBinding() {}

// ---- frames ----

//govc:event vv pure
func ctr_FrameMap_HasSlot() {}

//govc:event vv pure
func ctr_FrameMap_Get() {}

//govc:event vvv
func ctr_FrameMap_Set() {}

//govc:event vv
func ctr_FrameMap_Remove() {}

//govc:event v fresh
func ctr_FrameMap_Clone() {}

//govc:event v
func ctr_FrameMap_Keys() {}

//govc:event v
func ctr_FrameMap_Values() {}

// ---- errors and debugging ----

//govc:pure
//govc:nilable
func ctr_ProcessError() {}

func post_ProcessError(msg string, env *SymbolTableFrame, err error) bool { return err != nil }

//govc:event v
//govc:skiproot
func ctr_DebugRepl() {}

//govc:event v
//govc:skiproot
func ctr_Repl() {}

//govc:event v
func ctr_postProcessShortcuts() {}

// ---- reading source text ----

//govc:modifies Tokenizer
//govc:skiproot
func ctr_Tokenizer_Advance() {}

func mods_Tokenizer_Advance(self *Tokenizer) *Tokenizer { return self }

//govc:modifies Tokenizer
func ctr_Tokenizer_ConsumeToken() {}

func mods_Tokenizer_ConsumeToken(self *Tokenizer) *Tokenizer { return self }

//govc:modifies Tokenizer
func ctr_Tokenizer_readNextToken() {}

func mods_Tokenizer_readNextToken(self *Tokenizer) *Tokenizer { return self }

//govc:modifies Tokenizer
func ctr_Tokenizer_readHexNumber() {}

func mods_Tokenizer_readHexNumber(self *Tokenizer) *Tokenizer { return self }

//govc:modifies Tokenizer
func ctr_Tokenizer_readBinaryNumber() {}

func mods_Tokenizer_readBinaryNumber(self *Tokenizer) *Tokenizer { return self }

//govc:modifies Tokenizer
func ctr_Tokenizer_readNumber() {}

func mods_Tokenizer_readNumber(self *Tokenizer) *Tokenizer { return self }

//govc:modifies Tokenizer
func ctr_Tokenizer_readString() {}

func mods_Tokenizer_readString(self *Tokenizer) *Tokenizer { return self }

//govc:modifies Tokenizer
func ctr_Tokenizer_readSymbol() {}

func mods_Tokenizer_readSymbol(self *Tokenizer) *Tokenizer { return self }

//govc:modifies Tokenizer
func ctr_parseExpression() {}

func mods_parseExpression(s *Tokenizer) *Tokenizer { return s }

//govc:modifies Tokenizer
func ctr_parseConsCell() {}

func mods_parseConsCell(s *Tokenizer) *Tokenizer { return s }

//govc:modifies Tokenizer
func ctr_parseBytearray() {}

func mods_parseBytearray(s *Tokenizer) *Tokenizer { return s }

//govc:modifies Tokenizer
func ctr_parseFrame() {}

func mods_parseFrame(s *Tokenizer) *Tokenizer { return s }

func ctr_Parse() {}

func ctr_ParseAll() {}

//govc:event v
func ctr_ParseAndEval() {}

//govc:event v
func ctr_ParseAndEvalAll() {}

//govc:event vv
func ctr_ParseAndEvalInEnvironment() {}

//govc:event vv
func ctr_ParseAndEvalAllInEnvironment() {}

//govc:event v
func ctr_ProcessFile() {}

//govc:event vv
func ctr_ProcessFileInEnvironment() {}

//govc:event vv
func ctr_ParseObjectFromFileInEnv() {}
