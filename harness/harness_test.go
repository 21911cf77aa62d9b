package golisp

// Concrete side of the verifier: looks for an input on which the real code
// breaks a contract (replay of a failed obligation), and stands in, bounded,
// for obligations outside the verifier's reach. Contracts are executable Go,
// so the oracle is the contract text itself.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"
)

type hRow struct {
	name   string
	fn     interface{}
	pre    []interface{}
	post   []interface{}
	spec   interface{}
	ints   []int64
	strs   []string
	mods   []string
	events bool
}

type hOut struct {
	Func     string `json:"func"`
	Kind     string `json:"kind"`
	Seed     int64  `json:"seed"`
	Case     int    `json:"case"`
	Input    string `json:"input"`
	What     string `json:"what"`
	Cases    int    `json:"cases"`
	Distinct int    `json:"distinct"`
	Sample   string `json:"sample"`
}

// ---- generation ---------------------------------------------------------------

type hGen struct {
	r    *rand.Rand
	row  *hRow
	env  *SymbolTableFrame
	prim *PrimitiveFunction
	log  []string
	pool []*Data
}

func (g *hGen) n(k int) int         { return g.r.Intn(k) }
func (g *hGen) p(num, den int) bool { return g.r.Intn(den) < num }

func (g *hGen) int64() int64 {
	switch g.n(10) {
	case 0:
		if len(g.row.ints) > 0 {
			return g.row.ints[g.n(len(g.row.ints))] + int64(g.n(3)) - 1
		}
		return int64(g.n(5))
	case 1:
		edge := []int64{0, 1, -1, 2, 7, 8, 31, 32, 63, 64, 100, 255, 256, 257, -255, 1000, 1 << 31, -1 << 31, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 24, 1<<24 + 1}
		return edge[g.n(len(edge))]
	case 2:
		return int64(g.n(600)) - 300
	default:
		return int64(g.n(8)) - 2
	}
}

func (g *hGen) float() float32 {
	switch g.n(8) {
	case 0:
		edge := []float32{0, -1, 1, 0.5, -0.5, 2.5, 3.7, -3.7, 1e10, -1e10, 16777216, 1e-3, float32(math.Copysign(0, -1)), 255, 256}
		return edge[g.n(len(edge))]
	default:
		return float32(g.n(17)-8) / 2
	}
}

func (g *hGen) str() string {
	if len(g.row.strs) > 0 && g.p(1, 4) {
		s := g.row.strs[g.n(len(g.row.strs))]
		if len(s) < 40 && !strings.ContainsAny(s, "/") {
			return s
		}
	}
	switch g.n(4) {
	case 0:
		fixed := []string{"", "a", "b", "ab", "abc", "hello", "A", "Hello World", " x ", "  ", "a,b,c", "0", "12", "aXbXc", "\n", "\"", "é", "日本", "a:", "z"}
		return fixed[g.n(len(fixed))]
	default:
		k := g.n(6)
		b := make([]byte, k)
		for i := range b {
			b[i] = "abcAB ,xX01"[g.n(11)]
		}
		return string(b)
	}
}

var hNames = []string{"a", "b", "c", "x", "y", "p", "m", "n", "foo", "a:", "b:", "foo:", "parent*:", "nil", "else", "=>"}

func (g *hGen) sym() *Data {
	if len(g.row.strs) > 0 && g.p(1, 5) {
		s := g.row.strs[g.n(len(g.row.strs))]
		if s != "" && len(s) < 30 && !strings.ContainsAny(s, " \n\t%/()") {
			return Intern(s)
		}
	}
	return Intern(hNames[g.n(len(hNames))])
}

func (g *hGen) list(k, depth, prof int) *Data {
	var l *Data
	if g.p(1, 12) {
		l = EmptyCons()
	}
	for i := 0; i < k; i++ {
		l = Cons(g.prof(prof, depth-1), l)
	}
	return l
}

const hProfs = 24

// prof makes a value of one kind.
func (g *hGen) prof(p, depth int) *Data {
	if depth < 0 {
		p = p % 8
	}
	switch p {
	case 0, 1:
		return IntegerWithValue(g.int64())
	case 2:
		return FloatWithValue(g.float())
	case 3:
		return StringWithValue(g.str())
	case 4:
		return g.sym()
	case 5:
		return BooleanWithValue(g.p(1, 2))
	case 6:
		return IntegerWithValue(int64(g.n(5)))
	case 7:
		if g.p(1, 3) {
			return EmptyCons()
		}
		return nil
	case 8:
		return g.list(g.n(5), depth, g.n(8))
	case 9:
		return g.list(g.n(6), depth, 0)
	case 10:
		return g.list(g.n(5), depth, 100)
	case 11: // association list
		var l *Data
		for i := g.n(5); i > 0; i-- {
			l = Acons(g.prof(g.n(7), depth-1), g.prof(g.n(10), depth-1), l)
		}
		return l
	case 12: // list of pairs
		var l *Data
		for i := g.n(5); i > 0; i-- {
			l = Cons(Cons(g.prof(g.n(7), depth-1), g.prof(7+g.n(5), depth-1)), l)
		}
		return l
	case 13: // byte array
		b := make([]byte, g.n(6))
		for i := range b {
			b[i] = byte(g.n(256))
		}
		return ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&b))
	case 14: // frame
		f := FrameMap{Data: FrameMapData{}}
		for i := g.n(4); i > 0; i-- {
			k := []string{"a:", "b:", "foo:", "c:"}[g.n(4)]
			f.Data[k] = g.prof(g.n(10), depth-1)
		}
		if g.p(1, 4) {
			f.Data["parent*:"] = g.prof(14, depth-1)
		}
		if g.p(1, 4) {
			f.Data["foo:"] = g.fun()
		}
		return FrameWithValue(&f)
	case 15, 16:
		return g.fun()
	case 17: // improper list
		l := g.prof(g.n(6), depth-1)
		for i := 1 + g.n(3); i > 0; i-- {
			l = Cons(g.prof(g.n(8), depth-1), l)
		}
		return l
	case 18:
		if g.p(1, 4) {
			return EnvironmentWithValue(g.env.Parent)
		}
		return EnvironmentWithValue(g.env)
	case 19:
		return ObjectWithTypeAndValue("thing", unsafe.Pointer(&hThing))
	case 20: // list of strings
		return g.list(g.n(5), depth, 3)
	case 21:
		return g.list(g.n(5), depth, 2)
	case 22:
		if len(g.pool) > 0 && len(g.row.mods) == 0 {
			return g.pool[g.n(len(g.pool))]
		}
		return g.list(g.n(5), depth, 4)
	case 23:
		return StringWithValue(g.str())
	}
	return g.prof(g.n(hProfs), depth)
}

var hThing int

func (g *hGen) fun() *Data {
	srcs := []string{"(lambda (x) (tr x))", "(lambda (x) (tr (begin x)))", "(lambda () (tr 1))", "(lambda (x y) (tr (list x y)))",
		"(lambda (x y) (tr x))", "(lambda (x y) (if (and (number? x) (number? y)) (tr (+ x y)) (tr y)))", "(lambda (x y z) (tr (list x y z)))",
		"(lambda x (tr x))", "(lambda (x . y) (tr (list x y)))", "(lambda (x) (if (number? x) (tr (> x 1)) (tr #t)))",
		"(lambda (x) (if (integer? x) (tr (even? x)) (tr #f)))", "(lambda (x y) (if (and (number? x) (number? y)) (tr (< x y)) (tr #f)))",
		"(lambda (x) (tr x) (if (equal? x 2) (error \"two\") x))", "car", "list", "+", "null?", "not", "quote", "(lambda (x) nil)", "(lambda (x y) (tr (equal? x y)))",
		"(lambda (x) (if (number? x) (tr (< x 100)) (tr x)))", "(lambda (x) (if (number? x) (tr (> x 100)) (tr x)))",
		"(lambda (x) (if (equal? x 3) (tr x) (tr #f)))", "(lambda (x) (if (equal? x 3) (tr x) (tr #t)))", "(lambda (x . y) (if (equal? x 3) (error \"three\") (tr (equal? x 1))))"}
	v, err := ParseAndEvalInEnvironment(srcs[g.n(len(srcs))], g.env)
	if err != nil {
		panic(err)
	}
	return v
}

// code makes an expression to evaluate.
func (g *hGen) code(depth int) *Data {
	if depth <= 0 || g.p(1, 5) {
		switch g.n(9) {
		case 0, 1:
			return Intern([]string{"a", "b", "x", "y", "l", "f", "nil"}[g.n(7)])
		case 2:
			return QuoteIt(g.prof(g.n(hProfs), 1))
		case 3:
			return Intern("nowhere")
		case 4:
			return InternalMakeList(Intern("quote"), g.prof(8+g.n(4), 2))
		default:
			return g.prof([]int{0, 0, 2, 3, 5, 5, 6}[g.n(7)], 0)
		}
	}
	mk := InternalMakeList
	s := Intern
	switch g.n(15) {
	case 0, 1, 2, 3:
		return mk(s("tr"), g.code(depth-1))
	case 4:
		return mk(s("+"), g.code(depth-1), g.code(depth-1))
	case 5:
		return mk(s("if"), g.code(depth-1), g.code(depth-1), g.code(depth-1))
	case 6:
		return mk(s("list"), g.code(depth-1), g.code(depth-1))
	case 7:
		return mk(mk(s("lambda"), mk(s("x")), g.code(depth-1)), g.code(depth-1))
	case 8:
		return mk(s("lambda"), mk(s("x")), g.code(depth-1))
	case 9:
		return mk(s("error"), StringWithValue("e"))
	case 10:
		return mk(s("<"), g.code(depth-1), g.code(depth-1))
	case 11:
		return mk(s("begin"), g.code(depth-1), g.code(depth-1))
	case 12:
		return mk(s("car"), g.code(depth-1))
	case 13:
		return mk(s("tr"), mk(s("not"), g.code(depth-1)))
	default:
		return mk(s("let"), mk(mk(g.sym(), g.code(depth-1))), g.code(depth-1))
	}
}

func (g *hGen) codeList(k, depth int) *Data {
	var l *Data
	for ; k > 0; k-- {
		l = Cons(g.code(depth), l)
	}
	return l
}

// shape makes an argument of a special form.
func (g *hGen) shape(i int) *Data {
	mk := InternalMakeList
	sym := func() *Data { return Intern([]string{"a", "b", "x", "y", "z", "f"}[g.n(6)]) }
	switch g.n(12) {
	case 0, 1, 2, 3:
		return g.code(3)
	case 4: // clause
		return Cons(g.code(2), g.codeList(g.n(3), 2))
	case 5:
		return Cons(Intern("else"), g.codeList(g.n(3), 2))
	case 6, 7: // bindings
		var l *Data
		for k := g.n(4); k > 0; k-- {
			b := mk(sym(), g.code(2))
			if g.p(1, 5) {
				b = mk(sym(), g.code(2), g.code(2))
			}
			if g.p(1, 15) {
				b = g.prof(g.n(hProfs), 1)
			}
			l = Cons(b, l)
		}
		return l
	case 8:
		return sym()
	case 9: // parameter list
		var l *Data
		if g.p(1, 4) {
			l = sym()
		}
		for k := g.n(4); k > 0; k-- {
			l = Cons(sym(), l)
		}
		return l
	case 10: // case clause
		return Cons(g.list(g.n(3), 1, g.n(8)), g.codeList(g.n(3), 2))
	default:
		return g.prof(g.n(hProfs), 2)
	}
}

func (g *hGen) arity() int {
	if g.prim == nil || len(g.prim.ArgRestrictions) == 0 {
		return g.n(5)
	}
	a := g.prim.ArgRestrictions[g.n(len(g.prim.ArgRestrictions))]
	switch a.Type {
	case ARGS_EQ:
		return a.Restriction.(int)
	case ARGS_GTE:
		k := g.n(4)
		if g.p(1, 8) {
			k = g.n(9)
		}
		return a.Restriction.(int) + k
	case ARGS_RANGE:
		rr := a.Restriction.(RangeRestriction)
		return rr.Lo + g.n(rr.Hi-rr.Lo+1)
	}
	if g.p(1, 8) {
		return g.n(9)
	}
	return g.n(5)
}

// bindings makes the binding list of let, do, ...
func (g *hGen) bindings(steps bool) *Data {
	mk := InternalMakeList
	sym := func() *Data { return Intern([]string{"a", "b", "x", "y", "z", "f"}[g.n(6)]) }
	var l *Data
	for k := g.n(4); k > 0; k-- {
		b := mk(sym(), g.code(2))
		if steps && g.p(1, 2) {
			b = mk(sym(), g.code(2), g.code(2))
		}
		if g.p(1, 25) {
			b = g.prof(g.n(hProfs), 1)
		}
		l = Cons(b, l)
	}
	return l
}

// args makes the argument list of a primitive.
func (g *hGen) args() *Data {
	switch g.row.name {
	case "DoImpl":
		if !g.p(1, 20) {
			return Cons(g.bindings(true), Cons(Cons(InternalMakeList(Intern("tick"), g.code(1)), g.codeList(g.n(3), 2)), g.codeList(g.n(3), 2)))
		}
		return InternalMakeList(g.prof(g.n(20), 1), g.prof(g.n(7), 1), g.code(1))
	case "LetImpl", "LetStarImpl", "LetRecImpl":
		if g.p(3, 5) {
			return Cons(g.bindings(false), g.codeList(1+g.n(3), 2))
		}
	}
	k := g.arity()
	out := make([]*Data, k)
	special := g.prim != nil && g.prim.Special
	same := -1
	if g.p(2, 5) {
		same = g.n(hProfs)
		if g.p(1, 2) {
			same = g.n(4)
		}
	}
	for i := range out {
		switch {
		case i == 0 && strings.HasPrefix(g.row.name, "Environment") && g.p(4, 5):
			out[i] = g.prof(18, 2)
		case i == 1 && strings.HasPrefix(g.row.name, "Environment") && g.p(4, 5):
			out[i] = g.sym()
		case special && !g.p(1, 10):
			out[i] = g.shape(i)
		case i == 0 && hHof[g.row.name] && g.p(3, 4):
			out[i] = g.fun()
		case i > 0 && hHof[g.row.name] && g.p(3, 4):
			out[i] = g.hofList()
		case same >= 0:
			out[i] = g.prof(same, 2)
		default:
			out[i] = g.prof(g.n(hProfs), 3)
		}
		g.pool = append(g.pool, out[i])
	}
	var l *Data
	if g.p(1, 10) {
		l = EmptyCons()
	}
	for i := k - 1; i >= 0; i-- {
		l = Cons(out[i], l)
	}
	return l
}

// primitive makes a builtin with a declared arity of its own.
func (g *hGen) primitive() *PrimitiveFunction {
	f := &PrimitiveFunction{Name: "gen", Special: g.p(1, 3), IsRestricted: g.p(1, 3)}
	f.Body = func(a *Data, e *SymbolTableFrame) (*Data, error) {
		g.log = append(g.log, "gen "+hShow(a, 6))
		return a, nil
	}
	for k := g.n(4); k > 0; k-- {
		lo := g.n(4)
		switch g.n(8) {
		case 0:
			f.ArgRestrictions = append(f.ArgRestrictions, ArgRestriction{Type: ARGS_ANY})
		case 1, 2, 3:
			f.ArgRestrictions = append(f.ArgRestrictions, ArgRestriction{Type: ARGS_EQ, Restriction: lo})
		case 4, 5:
			f.ArgRestrictions = append(f.ArgRestrictions, ArgRestriction{Type: ARGS_GTE, Restriction: lo})
		default:
			f.ArgRestrictions = append(f.ArgRestrictions, ArgRestriction{Type: ARGS_RANGE, Restriction: RangeRestriction{Lo: lo, Hi: lo + g.n(4)}})
		}
	}
	return f
}

// the builtins that apply a function to the elements of lists
var hHof = map[string]bool{"MapImpl": true, "ForEachImpl": true, "AnyImpl": true, "EveryImpl": true, "ReduceLeftImpl": true,
	"ReduceRightImpl": true, "FoldLeftImpl": true, "FoldRightImpl": true, "FilterImpl": true, "RemoveImpl": true, "FindTailImpl": true, "FindImpl": true}

// hofList makes a list whose elements functions treat differently.
func (g *hGen) hofList() *Data {
	var l *Data
	if g.p(1, 4) {
		l = EmptyCons()
	}
	for k := g.n(8); k > 0; k-- {
		switch g.n(6) {
		case 0:
			l = Cons(g.prof(g.n(8), 1), l)
		default:
			l = Cons(IntegerWithValue(int64(g.n(5))), l)
		}
	}
	return l
}

func (g *hGen) newEnv() *SymbolTableFrame {
	e := NewSymbolTableFrameBelow(Global, "h")
	bind := func(f *SymbolTableFrame, n string, d *Data) {
		f.Bindings[n] = &Binding{Sym: Intern(n), Val: d}
	}
	tr := &PrimitiveFunction{Name: "tr", ArgRestrictions: []ArgRestriction{{Type: ARGS_EQ, Restriction: 1}}}
	tr.Body = func(d *Data, env *SymbolTableFrame) (*Data, error) {
		g.log = append(g.log, hShow(Car(d), 6))
		return Car(d), nil
	}
	bind(e, "tr", PrimitiveWithNameAndFunc("tr", tr))
	ticks := 0
	limit := 1 + g.n(3)
	tick := &PrimitiveFunction{Name: "tick", ArgRestrictions: []ArgRestriction{{Type: ARGS_EQ, Restriction: 1}}}
	tick.Body = func(d *Data, env *SymbolTableFrame) (*Data, error) {
		ticks++
		g.log = append(g.log, hShow(Car(d), 6))
		return BooleanWithValue(ticks >= limit), nil
	}
	bind(e, "tick", PrimitiveWithNameAndFunc("tick", tick))
	bind(e, "a", IntegerWithValue(1))
	bind(e, "b", BooleanWithValue(false))
	bind(e, "l", InternalMakeList(IntegerWithValue(1), IntegerWithValue(2), IntegerWithValue(3)))
	e2 := NewSymbolTableFrameBelow(e, "h2")
	bind(e2, "x", IntegerWithValue(5))
	bind(e2, "m", MacroWithNameParamsBodyAndParent("m", nil, nil, e))
	bind(e2, "n", nil)
	bind(e, "p", IntegerWithValue(7))
	e.Bindings["p"].Protected = true
	if g.p(1, 3) {
		bind(e2, "p", IntegerWithValue(8))
		e2.Bindings["p"].Protected = g.p(1, 2)
	}
	if g.p(1, 4) {
		bind(e2, "b", IntegerWithValue(9))
		e2.Bindings["b"].Protected = true
	}
	bind(e2, "y", StringWithValue("why"))
	if g.p(1, 3) {
		bind(e2, "a", IntegerWithValue(10))
	}
	if g.p(1, 6) {
		e.Frame = FrameValue(g.prof(14, 1))
		e2.Frame = e.Frame
		if g.p(1, 2) {
			e2.Frame = FrameValue(g.prof(14, 1))
		}
	}
	g.env = e2
	f, err := ParseAndEvalInEnvironment("(lambda (x) (tr (list 'f x)))", e2)
	if err != nil {
		panic(err)
	}
	bind(e2, "f", f)
	if g.p(1, 6) {
		e2.IsRestricted = true
		e.IsRestricted = g.p(1, 2)
	}
	return e2
}

// pick chooses the arbitrary objects contracts speak about.
func (g *hGen) pick() {
	e := g.env
	if g.p(1, 2) {
		e = e.Parent
	}
	vPick.e = e
	vPick.s = append(append([]string{}, hNames...), "l", "f", "tr")[g.n(len(hNames)+3)]
	var names []string
	for n := range e.Bindings {
		names = append(names, n)
	}
	sort.Strings(names)
	vPick.b = e.Bindings[names[g.n(len(names))]]
	vPick.d = g.prof(g.n(8), 0)
	if len(g.pool) > 0 {
		vPick.d = g.pool[g.n(len(g.pool))]
	}
	vPick.f = FrameValue(g.prof(14, 1))
	for _, d := range g.pool {
		if FrameP(d) && g.p(1, 2) {
			vPick.f = FrameValue(d)
		}
	}
}

func (g *hGen) value(t reflect.Type, i int) reflect.Value {
	switch t {
	case reflect.TypeOf((*Data)(nil)):
		if i == 0 && g.prim != nil {
			return reflect.ValueOf(g.args())
		}
		var d *Data
		if i == 1 && g.p(1, 2) && reflect.TypeOf(g.row.fn).NumIn() > 1 && reflect.TypeOf(g.row.fn).In(0) == reflect.TypeOf((*SymbolTableFrame)(nil)) {
			d = g.sym()
		} else if g.p(1, 6) {
			d = g.code(3)
		} else if g.row.name == "bindLetLocals" || g.row.name == "rebindDoLocals" {
			d = g.bindings(g.row.name == "rebindDoLocals")
		} else if g.row.name == "LetCommon" {
			d = Cons(g.bindings(false), g.codeList(1+g.n(3), 2))
		} else if g.row.name == "namedLetImpl" {
			d = Cons(g.sym(), Cons(g.bindings(false), g.codeList(1+g.n(3), 2)))
		} else if g.row.name == "evaluateBody" {
			d = g.codeList(g.n(4), 2)
		} else if strings.HasPrefix(g.row.name, "Eval") {
			d = g.code(4)
		} else {
			d = g.prof(g.n(hProfs), 3)
		}
		g.pool = append(g.pool, d)
		return reflect.ValueOf(d)
	case reflect.TypeOf((*SymbolTableFrame)(nil)):
		if g.p(1, 3) && g.prim == nil && i > 0 {
			return reflect.ValueOf(g.env.Parent)
		}
		return reflect.ValueOf(g.env)
	case reflect.TypeOf((*FrameMap)(nil)):
		return reflect.ValueOf(FrameValue(g.prof(14, 3)))
	case reflect.TypeOf((*PrimitiveFunction)(nil)):
		if g.p(1, 2) {
			return reflect.ValueOf(g.primitive())
		}
		for {
			if f := g.fun(); PrimitiveP(f) {
				return reflect.ValueOf(PrimitiveValue(f))
			}
		}
	case reflect.TypeOf((*Macro)(nil)):
		ps := []string{"(x)", "(x y)", "x", "(x . y)", "()"}[g.n(5)]
		bs := []string{"x", "(list 'tr x)", "(list 'list (list 'quote x) 1)", "(tr 1)", "(list 'begin x 'a)"}[g.n(5)]
		v, err := ParseAndEvalInEnvironment("(defmacro (mm . "+ps+") "+bs+")", g.env)
		if err != nil {
			panic(err)
		}
		delete(g.env.Bindings, "mm")
		return reflect.ValueOf(MacroValue(v))
	case reflect.TypeOf((*Function)(nil)):
		for {
			if f := g.fun(); FunctionP(f) {
				return reflect.ValueOf(FunctionValue(f))
			}
		}
	}
	switch t.Kind() {
	case reflect.String:
		if g.p(1, 3) {
			return reflect.ValueOf(StringValue(g.sym())).Convert(t)
		}
		return reflect.ValueOf(g.str()).Convert(t)
	case reflect.Int:
		if g.p(1, 2) {
			return reflect.ValueOf(g.n(8))
		}
		return reflect.ValueOf(int(g.int64()))
	case reflect.Int64, reflect.Int32, reflect.Uint8, reflect.Uint32, reflect.Uint64, reflect.Int16, reflect.Uint16, reflect.Int8:
		return reflect.ValueOf(g.int64()).Convert(t)
	case reflect.Float32, reflect.Float64:
		return reflect.ValueOf(g.float()).Convert(t)
	case reflect.Bool:
		return reflect.ValueOf(g.p(1, 2))
	case reflect.Slice:
		s := reflect.MakeSlice(t, 0, 4)
		for k := g.n(5); k > 0; k-- {
			s = reflect.Append(s, g.value(t.Elem(), 9))
		}
		return s
	case reflect.Interface:
		if t.NumMethod() == 0 {
			return reflect.ValueOf(g.str())
		}
	}
	panic(hSkip("no generator for " + t.String()))
}

type hSkip string

// ---- comparison and display -----------------------------------------------------

func hShow(d *Data, depth int) string {
	if d == nil {
		return "()"
	}
	if depth <= 0 {
		return "..."
	}
	switch d.Type {
	case ConsCellType, AlistType, AlistCellType:
		var sb strings.Builder
		sb.WriteString(map[uint8]string{ConsCellType: "(", AlistType: "@(", AlistCellType: "<"}[d.Type])
		for i := 0; ; i++ {
			c := (*ConsCell)(d.Value)
			if c == nil || i > 30 {
				break
			}
			if c.Car == nil && c.Cdr == nil && i > 0 {
				break
			}
			if c.Car == nil && c.Cdr == nil {
				sb.WriteString("empty")
				break
			}
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(hShow(c.Car, depth-1))
			if c.Cdr == nil {
				break
			}
			if c.Cdr.Type != ConsCellType && c.Cdr.Type != AlistType {
				sb.WriteString(" . " + hShow(c.Cdr, depth-1))
				break
			}
			d = c.Cdr
		}
		sb.WriteByte(')')
		return sb.String()
	case IntegerType:
		return fmt.Sprintf("%d", *(*int64)(d.Value))
	case FloatType:
		return fmt.Sprintf("%vf", *(*float32)(d.Value))
	case BooleanType:
		return fmt.Sprintf("#%v", *(*bool)(d.Value))
	case StringType:
		return fmt.Sprintf("%q", *(*string)(d.Value))
	case SymbolType:
		return *(*string)(d.Value)
	case FunctionType:
		f := (*Function)(d.Value)
		return "<fn " + hShow(f.Params, 4) + " " + hShow(f.Body, 6) + ">"
	case PrimitiveType:
		return "<prim " + (*PrimitiveFunction)(d.Value).Name + ">"
	case MacroType:
		return "<macro " + (*Macro)(d.Value).Name + ">"
	case BoxedObjectType:
		b := (*BoxedObject)(d.Value)
		if b.ObjType == "[]byte" && b.Obj != nil {
			return fmt.Sprintf("#b%v", *(*[]byte)(b.Obj))
		}
		return "<obj " + b.ObjType + ">"
	case FrameType:
		f := (*FrameMap)(d.Value)
		if f == nil {
			return "{nil}"
		}
		keys := []string{}
		for k := range f.Data {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := "{"
		for _, k := range keys {
			s += k + " " + hShow(f.Data[k], depth-1) + " "
		}
		return s + "}"
	case EnvironmentType:
		return "<env>"
	}
	return fmt.Sprintf("<type %d>", d.Type)
}

func hShowV(v reflect.Value) string {
	if !v.IsValid() {
		return "-"
	}
	if !v.CanInterface() {
		return v.String()
	}
	switch x := v.Interface().(type) {
	case *Data:
		return hShow(x, 8)
	case *SymbolTableFrame:
		if x == nil {
			return "env nil"
		}
		return "env " + x.Name
	case *FrameMap:
		if x == nil {
			return "nil"
		}
		return hShow(FrameWithValue(x), 6)
	case error:
		return "error(" + strings.SplitN(x.Error(), "\n", 2)[0] + ")"
	case sq:
		s := "["
		for _, e := range x {
			s += hShowV(reflect.ValueOf(e)) + " "
		}
		return s + "]"
	case []*Data:
		s := "["
		for _, e := range x {
			s += hShow(e, 6) + " "
		}
		return s + "]"
	}
	return fmt.Sprintf("%v", v.Interface())
}

func hSame(a, b *Data, depth int) bool {
	if a == b {
		return true
	}
	if vNil(a) || vNil(b) {
		return vNil(a) && vNil(b)
	}
	if depth <= 0 {
		return true
	}
	if a.Type != b.Type {
		return false
	}
	switch a.Type {
	case ConsCellType, AlistType, AlistCellType:
		x, y := (*ConsCell)(a.Value), (*ConsCell)(b.Value)
		return hSame(x.Car, y.Car, depth-1) && hSame(x.Cdr, y.Cdr, depth-1)
	case IntegerType:
		return *(*int64)(a.Value) == *(*int64)(b.Value)
	case FloatType:
		return sameF(*(*float32)(a.Value), *(*float32)(b.Value))
	case BooleanType:
		return *(*bool)(a.Value) == *(*bool)(b.Value)
	case StringType, SymbolType:
		return *(*string)(a.Value) == *(*string)(b.Value)
	case FunctionType:
		x, y := (*Function)(a.Value), (*Function)(b.Value)
		return x == y || hSame(x.Params, y.Params, depth-1) && hSame(x.Body, y.Body, depth-1) && x.VarArgs == y.VarArgs && x.RequiredArgCount == y.RequiredArgCount
	case MacroType:
		x, y := (*Macro)(a.Value), (*Macro)(b.Value)
		return x == y || hSame(x.Params, y.Params, depth-1) && hSame(x.Body, y.Body, depth-1)
	case PrimitiveType:
		return a.Value == b.Value || (*PrimitiveFunction)(a.Value).Name == (*PrimitiveFunction)(b.Value).Name
	case BoxedObjectType:
		x, y := (*BoxedObject)(a.Value), (*BoxedObject)(b.Value)
		if x.ObjType != y.ObjType {
			return false
		}
		if x.ObjType == "[]byte" {
			return bytes.Equal(*(*[]byte)(x.Obj), *(*[]byte)(y.Obj))
		}
		return true
	case FrameType:
		x, y := (*FrameMap)(a.Value), (*FrameMap)(b.Value)
		if x == nil || y == nil {
			return x == y
		}
		if len(x.Data) != len(y.Data) {
			return false
		}
		for k, v := range x.Data {
			w, ok := y.Data[k]
			if !ok || !hSame(v, w, depth-1) {
				return false
			}
		}
		return true
	case EnvironmentType, PortType:
		return true
	}
	return a.Value == b.Value
}

func hSameV(a, b reflect.Value) bool {
	x, y := a.Interface(), b.Interface()
	switch p := x.(type) {
	case *Data:
		return hSame(p, y.(*Data), 40)
	case error:
		return y != nil
	case nil:
		return y == nil
	case sq:
		return hSqEq(p, y.(sq))
	case []*Data:
		q := y.([]*Data)
		if len(p) != len(q) {
			return false
		}
		for i := range p {
			if !hSame(p[i], q[i], 40) {
				return false
			}
		}
		return true
	case float32:
		return sameF(p, y.(float32))
	}
	return reflect.DeepEqual(x, y)
}

func hSqEq(a, b sq) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		p, ok1 := a[i].(*Data)
		q, ok2 := b[i].(*Data)
		if ok1 != ok2 || ok1 && !hSame(p, q, 40) || !ok1 && a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	vSqEq = hSqEq
	vSameIs = func(a, b *Data) bool { return hSame(a, b, 40) }
}

// ---- snapshots (frame conditions) -------------------------------------------------

type hSnap struct {
	data  map[*Data]Data
	cons  map[*ConsCell]ConsCell
	bytes map[*[]byte]string
	maps  map[*FrameMap]map[string]*Data
	locks []*sync.RWMutex
	ints  map[*int64]int64
	flts  map[*float32]float32
	strs  map[*string]string
	bools map[*bool]bool
	order []interface{}
}

func hNewSnap() *hSnap {
	return &hSnap{data: map[*Data]Data{}, cons: map[*ConsCell]ConsCell{}, bytes: map[*[]byte]string{}, maps: map[*FrameMap]map[string]*Data{},
		ints: map[*int64]int64{}, flts: map[*float32]float32{}, strs: map[*string]string{}, bools: map[*bool]bool{}}
}

func (s *hSnap) add(d *Data) {
	if d == nil {
		return
	}
	if _, ok := s.data[d]; ok {
		return
	}
	s.data[d] = *d
	switch d.Type {
	case ConsCellType, AlistType, AlistCellType:
		if c := (*ConsCell)(d.Value); c != nil {
			s.cons[c] = *c
			s.add(c.Car)
			s.add(c.Cdr)
		}
	case IntegerType:
		s.ints[(*int64)(d.Value)] = *(*int64)(d.Value)
	case FloatType:
		s.flts[(*float32)(d.Value)] = *(*float32)(d.Value)
	case StringType, SymbolType:
		s.strs[(*string)(d.Value)] = *(*string)(d.Value)
	case BooleanType:
		s.bools[(*bool)(d.Value)] = *(*bool)(d.Value)
	case BoxedObjectType:
		if b := (*BoxedObject)(d.Value); b != nil && b.ObjType == "[]byte" {
			p := (*[]byte)(b.Obj)
			s.bytes[p] = string(*p)
		}
	case FrameType:
		s.addFrame((*FrameMap)(d.Value))
	}
}

func (s *hSnap) addFrame(f *FrameMap) {
	if f == nil {
		return
	}
	if _, ok := s.maps[f]; ok {
		return
	}
	m := map[string]*Data{}
	s.maps[f] = m
	s.locks = append(s.locks, &f.Mutex)
	for k, v := range f.Data {
		m[k] = v
		s.add(v)
	}
}

func (s *hSnap) addV(v reflect.Value) {
	if !v.CanInterface() {
		return
	}
	switch x := v.Interface().(type) {
	case *Data:
		s.add(x)
	case *FrameMap:
		s.addFrame(x)
	case *SymbolTableFrame:
		for ; x != nil; x = x.Parent {
			s.locks = append(s.locks, &x.Mutex)
		}
	case []*Data:
		for _, d := range x {
			s.add(d)
		}
	}
}

func hMay(mods []string, key string) bool {
	for _, m := range mods {
		if m == "*" || m == key || strings.HasPrefix(key, m+".") {
			return true
		}
	}
	return false
}

func (s *hSnap) changed(mods []string) string {
	for d, old := range s.data {
		if d.Type != old.Type && !hMay(mods, "Data.Type") || d.Value != old.Value && !hMay(mods, "Data.Value") {
			return "a value cell of the arguments was overwritten"
		}
	}
	for c, old := range s.cons {
		if c.Car != old.Car && !hMay(mods, "ConsCell.Car") {
			return "the car of an argument's cell changed: " + hShow(old.Car, 5) + " -> " + hShow(c.Car, 5)
		}
		if c.Cdr != old.Cdr && !hMay(mods, "ConsCell.Cdr") {
			return "the cdr of an argument's cell changed: " + hShow(old.Cdr, 5) + " -> " + hShow(c.Cdr, 5)
		}
	}
	for p, old := range s.ints {
		if *p != old {
			return fmt.Sprintf("an integer of the arguments changed: %d -> %d", old, *p)
		}
	}
	for p, old := range s.flts {
		if !sameF(*p, old) {
			return fmt.Sprintf("a float of the arguments changed: %v -> %v", old, *p)
		}
	}
	for p, old := range s.strs {
		if *p != old && !hMay(mods, "cell.string") {
			return fmt.Sprintf("a string of the arguments changed: %q -> %q", old, *p)
		}
	}
	for p, old := range s.bools {
		if *p != old {
			return "a boolean of the arguments changed"
		}
	}
	for p, old := range s.bytes {
		if string(*p) != old && !hMay(mods, "elem.uint8") {
			return fmt.Sprintf("a byte array argument changed: %v -> %v", []byte(old), *p)
		}
	}
	for f, old := range s.maps {
		if hMay(mods, "map.FrameMap") {
			continue
		}
		same := len(f.Data) == len(old)
		for k, v := range old {
			if f.Data[k] != v {
				same = false
			}
		}
		if !same {
			return "a frame argument changed"
		}
	}
	return ""
}

func (s *hSnap) held() string {
	ls := append([]*sync.RWMutex{&internedSymbols.Mutex, &TopLevelEnvironments.Mutex}, s.locks...)
	for i, l := range ls {
		if !l.TryLock() {
			return fmt.Sprintf("lock %d is still held after the call", i)
		}
		l.Unlock()
	}
	return ""
}

// ---- running ------------------------------------------------------------------------

var hProgress = struct {
	sync.Mutex
	at    time.Time
	what  *hOut
	input func() string
}{}

func hPrim(fn interface{}) *PrimitiveFunction {
	v := reflect.ValueOf(fn)
	if v.Kind() != reflect.Func {
		return nil
	}
	p := v.Pointer()
	var names []string
	for n := range Global.Bindings {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		b := Global.Bindings[n]
		if b != nil && PrimitiveP(b.Val) {
			if pf := PrimitiveValue(b.Val); pf != nil && reflect.ValueOf(pf.Body).Pointer() == p {
				return pf
			}
		}
	}
	return nil
}

func hCall(fn interface{}, args []reflect.Value) (res []reflect.Value, pan interface{}) {
	defer func() { pan = recover() }()
	res = reflect.ValueOf(fn).Call(args)
	return
}

// hCase runs one case; a non-empty kind is a violation.
func hCase(row *hRow, prim *PrimitiveFunction, seed int64, i int, want map[string]bool) (kind, what, input string, skip bool) {
	g := &hGen{r: rand.New(rand.NewSource(seed*1000003 + int64(i))), row: row, prim: prim}
	g.newEnv()
	ft := reflect.TypeOf(row.fn)
	var args []reflect.Value
	for k := 0; k < ft.NumIn(); k++ {
		args = append(args, g.value(ft.In(k), k))
	}
	show := func() string {
		var s []string
		for _, a := range args {
			s = append(s, hShowV(a))
		}
		return row.name + " " + strings.Join(s, " | ")
	}
	input = show()
	hProgress.Lock()
	hProgress.at = time.Now()
	hProgress.what = &hOut{Func: row.name, Seed: seed, Case: i, Input: input}
	hProgress.Unlock()
	g.pick()
	for _, p := range row.pre {
		r, pan := hCall(p, args)
		if pan != nil || !r[0].Bool() {
			return "", "", input, true
		}
	}
	snap := hNewSnap()
	for _, a := range args {
		snap.addV(a)
	}
	var srs []reflect.Value
	var slog []string
	haveSpec := false
	g2 := g
	if row.spec != nil && want["post"] {
		sargs := args
		if row.events {
			// the specification evaluates things too: give it inputs of its own
			g2 = &hGen{r: rand.New(rand.NewSource(seed*1000003 + int64(i))), row: row, prim: prim}
			g2.newEnv()
			sargs = nil
			for k := 0; k < ft.NumIn(); k++ {
				sargs = append(sargs, g2.value(ft.In(k), k))
			}
		}
		if st := reflect.TypeOf(row.spec); st.NumIn() == len(args) {
			r, pan := hCall(row.spec, sargs)
			if pan != nil {
				return "", "", input, true
			}
			srs, haveSpec = r, true
			slog = g2.log
			if g2 == g {
				g.log = nil
			}
		}
	}
	res, pan := hCall(row.fn, args)
	if pan != nil {
		if _, ok := pan.(runtime.Error); ok || want["anypanic"] {
			if want["safety"] || want["post"] {
				return "panic", fmt.Sprintf("panics: %v", pan), input, false
			}
		}
		return "", "", input, true
	}
	if want["lock"] {
		if s := snap.held(); s != "" {
			return "lock", s, input, false
		}
	}
	if want["frame"] {
		if s := snap.changed(row.mods); s != "" {
			return "frame", s, input, false
		}
	}
	if want["post"] {
		if haveSpec && len(row.post) == 0 {
			failed := false
			for k := range res {
				if e, ok := res[k].Interface().(error); ok && e != nil {
					failed = true
				}
			}
			for k := range res {
				isErr := ft.Out(k) == reflect.TypeOf((*error)(nil)).Elem()
				if failed && !isErr {
					continue
				}
				if k < len(srs) && !hSameV(srs[k], res[k]) {
					return "post", "returns " + hShowV(res[k]) + ", specified " + hShowV(srs[k]), input, false
				}
			}
		}
		if haveSpec && row.events && !reflect.DeepEqual(slog, g.log) {
			return "post", fmt.Sprintf("evaluates %v, specified %v", g.log, slog), input, false
		}
		if haveSpec && row.events && len(row.post) == 0 {
			if a, b := hEnvDump(g.env), hEnvDump(g2.env); a != b {
				return "post", fmt.Sprintf("leaves the environment %s, specified %s", a, b), input, false
			}
		}
		pargs := append(append(append([]reflect.Value{}, args...), srs...), res...)
		for _, p := range row.post {
			if reflect.TypeOf(p).NumIn() != len(pargs) {
				return "", "", input, true
			}
			r, pp := hCall(p, pargs)
			if pp == nil && !r[0].Bool() {
				var rs []string
				for _, x := range res {
					rs = append(rs, hShowV(x))
				}
				w := "returns " + strings.Join(rs, ", ") + ", which breaks " + strings.TrimPrefix(runtime.FuncForPC(reflect.ValueOf(p).Pointer()).Name(), "github.com/steelseries/golisp.")
				if haveSpec {
					rs = nil
					for _, x := range srs {
						rs = append(rs, hShowV(x))
					}
					w += " (specification result " + strings.Join(rs, ", ") + ")"
				}
				return "post", w, input, false
			}
		}
	}
	return "", "", input, false
}

// hEnvDump shows the bindings of the generated environments.
func hEnvDump(e *SymbolTableFrame) string {
	s := ""
	for ; e != nil && e != Global; e = e.Parent {
		var names []string
		for n := range e.Bindings {
			names = append(names, n)
		}
		sort.Strings(names)
		s += "["
		for _, n := range names {
			b := e.Bindings[n]
			if b == nil {
				s += n + "=none "
			} else {
				s += fmt.Sprintf("%s=%s/%v ", n, hShow(nzD(b.Val), 6), b.Protected)
			}
		}
		s += "]"
	}
	return s
}

func TestGovcHarness(t *testing.T) {
	name := os.Getenv("GOVC_T")
	if name == "" {
		t.Skip()
	}
	out := os.Getenv("GOVC_OUT")
	var seed int64 = 1
	secs, max, only := 10, 1000000, -1
	fmt.Sscan(os.Getenv("GOVC_SEED"), &seed)
	fmt.Sscan(os.Getenv("GOVC_SECS"), &secs)
	fmt.Sscan(os.Getenv("GOVC_MAX"), &max)
	fmt.Sscan(os.Getenv("GOVC_CASE"), &only)
	want := map[string]bool{}
	for _, k := range strings.Split(os.Getenv("GOVC_KINDS"), ",") {
		want[k] = true
	}
	InitLisp()
	write := func(o *hOut) {
		b, _ := json.Marshal(o)
		ioutil.WriteFile(out, b, 0644)
	}
	if name == "registration" {
		write(&hOut{Func: name, What: hRegistration()})
		return
	}
	var row *hRow
	for i := range hTable {
		if hTable[i].name == name {
			row = &hTable[i]
		}
	}
	if row == nil {
		t.Fatal("no such target")
	}
	prim := hPrim(row.fn)
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			hProgress.Lock()
			if hProgress.what != nil && time.Since(hProgress.at) > 6*time.Second {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				o := hProgress.what
				o.What = "hangs"
				if bytes.Contains(buf, []byte("RWMutex")) && want["lock"] {
					o.Kind, o.What = "lock", "deadlocks: "+hLockFrame(buf)
				} else {
					o.Kind = ""
				}
				write(o)
				os.Exit(0)
			}
			hProgress.Unlock()
		}
	}()
	start := time.Now()
	n := 0
	distinct := map[string]bool{}
	sample := ""
	for i := 0; i < max; i++ {
		if only >= 0 {
			i = only
		} else if i%64 == 0 && time.Since(start) > time.Duration(secs)*time.Second {
			break
		}
		kind, what, input, skip := hTry(row, prim, seed, i, want)
		if !skip {
			n++
			if len(distinct) < 200000 {
				distinct[input] = true
			}
			if n == 17 {
				sample = input
			}
		}
		if kind != "" {
			write(&hOut{Func: name, Kind: kind, Seed: seed, Case: i, Input: input, What: what, Cases: n})
			return
		}
		if only >= 0 {
			break
		}
	}
	write(&hOut{Func: name, Cases: n, Distinct: len(distinct), Seed: seed, Sample: sample})
}

func hTry(row *hRow, prim *PrimitiveFunction, seed int64, i int, want map[string]bool) (kind, what, input string, skip bool) {
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(hSkip); ok {
				fmt.Println("skip:", s)
			}
			kind, skip = "", true
		}
	}()
	return hCase(row, prim, seed, i, want)
}

func hLockFrame(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "github.com/steelseries/golisp.") {
			return strings.SplitN(l, "(", 2)[0]
		}
	}
	return ""
}

// hRegistration lists the builtins the interpreter registers and what each does
// with 0, 1, ... arguments before its code is entered.
func hRegistration() string {
	var out []string
	for n, b := range Global.Bindings {
		if b == nil {
			continue
		}
		if !PrimitiveP(b.Val) {
			out = append(out, fmt.Sprintf("%s protected=%v", n, b.Protected))
			continue
		}
		p := PrimitiveValue(b.Val)
		acc := ""
		for k := 0; k < 14; k++ {
			entered := 0
			q := *p
			q.Body = func(d *Data, env *SymbolTableFrame) (*Data, error) {
				entered++
				return nil, nil
			}
			args := make([]*Data, k)
			for i := range args {
				args[i] = IntegerWithValue(int64(i))
			}
			_, err := q.Apply(ArrayToList(args), NewSymbolTableFrameBelow(nil, "reg"))
			switch {
			case entered == 1 && err == nil:
				acc += "y"
			case entered == 0 && err != nil:
				acc += "n"
			default:
				acc += "?"
			}
		}
		out = append(out, fmt.Sprintf("%s arity=%s special=%v restricted=%v protected=%v", n, acc, p.Special, p.IsRestricted, b.Protected))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}
