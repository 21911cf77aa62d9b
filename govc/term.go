package main

import (
	"fmt"
	"strings"
)

// Hash-consed SMT terms.
type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "Str"
	SF32  Sort = "F32"
	SF64  Sort = "F64"
	SSeq  Sort = "(Seq Int)"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// elemSort returns the value sort of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not array sort: " + str)
	}
	body := str[len("(Array ") : len(str)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

type Term struct {
	op   string
	args []*Term
	sort Sort
	id   int
}

type TermPool struct {
	tab      map[string]*Term
	n        int
	decls    []*Term           // declared constants, in order
	funs     map[string]string // uninterpreted function name -> declaration
	funOrder []string
	fresh    map[string]int
}

func NewPool() *TermPool {
	return &TermPool{tab: map[string]*Term{}, funs: map[string]string{}, fresh: map[string]int{}}
}

func (p *TermPool) mk(op string, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(sort))
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := p.tab[k]; ok {
		return t
	}
	p.n++
	t := &Term{op: op, args: args, sort: sort, id: p.n}
	p.tab[k] = t
	return t
}

var tp *TermPool // current pool (one function verification at a time per process)

func TTrue() *Term  { return tp.mk("true", SBool) }
func TFalse() *Term { return tp.mk("false", SBool) }
func TBool(b bool) *Term {
	if b {
		return TTrue()
	}
	return TFalse()
}
func TInt(n int64) *Term {
	return TIntS(fmt.Sprint(n))
}
func TIntS(s string) *Term {
	return tp.mk(s, SInt)
}
func (t *Term) isIntLit() bool {
	return t.sort == SInt && len(t.args) == 0 && (t.op[0] >= '0' && t.op[0] <= '9' || t.op[0] == '-' && len(t.op) > 1)
}
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '$', c == '!', c == '@':
			sb.WriteRune(c)
		case c == '*':
			sb.WriteString("ptr_")
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// TConst declares a fresh constant.
func TFresh(name string, s Sort) *Term {
	name = sanitize(name)
	n := tp.fresh[name]
	tp.fresh[name]++
	full := fmt.Sprintf("%s!%d", name, n)
	t := tp.mk(full, s)
	tp.decls = append(tp.decls, t)
	return t
}

// TConst is a named constant (declared once).
func TConst(name string, s Sort) *Term {
	name = sanitize(name)
	k := name + "|" + string(s)
	if t, ok := tp.tab[k]; ok {
		return t
	}
	t := tp.mk(name, s)
	tp.decls = append(tp.decls, t)
	return t
}

// TApp applies an uninterpreted function, declaring it.
func TApp(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return TConst(name, s)
	}
	name = sanitize(name)
	if _, ok := tp.funs[name]; !ok {
		var sb strings.Builder
		fmt.Fprintf(&sb, "(declare-fun %s (", name)
		for i, a := range args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a.sort))
		}
		fmt.Fprintf(&sb, ") %s)", s)
		tp.funs[name] = sb.String()
		tp.funOrder = append(tp.funOrder, name)
	}
	return tp.mk(name, s, args...)
}

func TNot(a *Term) *Term {
	switch {
	case a.isTrue():
		return TFalse()
	case a.isFalse():
		return TTrue()
	case a.op == "not":
		return a.args[0]
	}
	return tp.mk("not", SBool, a)
}

func TAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isTrue() || seen[a.id] {
			return true
		}
		if a.isFalse() {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a.op == "not" && seen[a.args[0].id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return TFalse()
		}
	}
	if len(out) == 0 {
		return TTrue()
	}
	if len(out) == 1 {
		return out[0]
	}
	return tp.mk("and", SBool, out...)
}

func TOr(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isTrue() {
			return TTrue()
		}
		if a.isFalse() || seen[a.id] {
			continue
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return TTrue()
		}
	}
	if len(out) == 0 {
		return TFalse()
	}
	if len(out) == 1 {
		return out[0]
	}
	return tp.mk("or", SBool, out...)
}

func TImp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return TTrue()
	}
	if b.isFalse() {
		return TNot(a)
	}
	if a == b {
		return TTrue()
	}
	return tp.mk("=>", SBool, a, b)
}

func isLit(t *Term) bool {
	return t.isIntLit() || t.isTrue() || t.isFalse() || (t.sort == SStr && strings.HasPrefix(t.op, "strlit")) || (t.sort == SInt && strings.HasPrefix(t.op, "fnref"))
}

func TEq(a, b *Term) *Term {
	if a == b {
		return TTrue()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("TEq sort mismatch %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if isLit(a) && isLit(b) {
		return TFalse()
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return TNot(b)
		}
		if b.isFalse() {
			return TNot(a)
		}
	}
	// ite with literal branches against literal
	if isLit(b) && a.op == "ite" && (isLit(a.args[1]) || isLit(a.args[2])) {
		return TIte(a.args[0], TEq(a.args[1], b), TEq(a.args[2], b))
	}
	if isLit(a) && b.op == "ite" && (isLit(b.args[1]) || isLit(b.args[2])) {
		return TIte(b.args[0], TEq(b.args[1], a), TEq(b.args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tp.mk("=", SBool, a, b)
}

func TIte(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a.isTrue() {
			return TOr(c, b)
		}
		if a.isFalse() {
			return TAnd(TNot(c), b)
		}
		if b.isTrue() {
			return TOr(TNot(c), a)
		}
		if b.isFalse() {
			return TAnd(c, a)
		}
	}
	if c.op == "not" {
		return TIte(c.args[0], b, a)
	}
	return tp.mk("ite", a.sort, c, a, b)
}

func TLe(a, b *Term) *Term { return tcmp("<=", a, b) }
func TLt(a, b *Term) *Term { return tcmp("<", a, b) }
func tcmp(op string, a, b *Term) *Term {
	if a == b {
		return TBool(op == "<=")
	}
	if a.isIntLit() && b.isIntLit() {
		x, ok1 := parseInt(a.op)
		y, ok2 := parseInt(b.op)
		if ok1 && ok2 {
			if op == "<=" {
				return TBool(x <= y)
			}
			return TBool(x < y)
		}
	}
	return tp.mk(op, SBool, a, b)
}

func parseInt(s string) (int64, bool) {
	var n int64
	_, err := fmt.Sscan(s, &n)
	if err != nil || fmt.Sprint(n) != s {
		return 0, false
	}
	return n, true
}

// linear normal form: (base, offset)
func linSplit(a *Term) (*Term, int64, bool) {
	if a.isIntLit() {
		n, ok := parseInt(a.op)
		return nil, n, ok
	}
	if a.op == "+" && len(a.args) == 2 && a.args[1].isIntLit() {
		n, ok := parseInt(a.args[1].op)
		return a.args[0], n, ok
	}
	return a, 0, true
}

func TAdd(a, b *Term) *Term {
	ba, na, ok1 := linSplit(a)
	bb, nb, ok2 := linSplit(b)
	if ok1 && ok2 && na < 1<<40 && na > -(1<<40) && nb < 1<<40 && nb > -(1<<40) {
		if ba == nil && bb == nil {
			return TInt(na + nb)
		}
		if bb == nil {
			if na+nb == 0 {
				return ba
			}
			return tp.mk("+", SInt, ba, TInt(na+nb))
		}
		if ba == nil {
			if na+nb == 0 {
				return bb
			}
			return tp.mk("+", SInt, bb, TInt(na+nb))
		}
	}
	return tp.mk("+", SInt, a, b)
}
func TSub(a, b *Term) *Term {
	if a == b {
		return TInt(0)
	}
	if _, nb, ok := linSplit(b); ok && b.isIntLit() && nb > -(1<<40) && nb < 1<<40 {
		return TAdd(a, TInt(-nb))
	}
	ba, na, ok1 := linSplit(a)
	bb, nb, ok2 := linSplit(b)
	if ok1 && ok2 && ba != nil && ba == bb {
		return TInt(na - nb)
	}
	return tp.mk("-", SInt, a, b)
}

func TSelect(a, i *Term) *Term {
	_, vs := splitArr(a.sort)
	// select over store
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctRefs(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		break
	}
	return tp.mk("select", vs, a, i)
}

// syntactically distinct integers
func distinctRefs(a, b *Term) bool {
	ba, na, ok1 := linSplit(a)
	bb, nb, ok2 := linSplit(b)
	return ok1 && ok2 && ba == bb && na != nb
}

func TStore(a, i, v *Term) *Term {
	ks, vs := splitArr(a.sort)
	if i.sort != ks || v.sort != vs {
		panic(fmt.Sprintf("store sorts %s [%s] := %s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return tp.mk("store", a.sort, a, i, v)
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	if len(t.args) == 0 {
		return smtAtom(t)
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}

func smtAtom(t *Term) string {
	if t.isIntLit() && t.op[0] == '-' {
		return "(- " + t.op[1:] + ")"
	}
	if t.op == "constarr" {
		return "?"
	}
	return t.op
}

// Printer emits define-funs so that the DAG is shared.
type Printer struct {
	sb    *strings.Builder
	done  map[int]string
	declN int
	funN  int
	pool  *TermPool
}

func NewPrinter(sb *strings.Builder) *Printer {
	return &Printer{sb: sb, done: map[int]string{}, pool: tp}
}

func (pr *Printer) flushDecls() {
	for ; pr.declN < len(pr.pool.decls); pr.declN++ {
		d := pr.pool.decls[pr.declN]
		fmt.Fprintf(pr.sb, "(declare-const %s %s)\n", d.op, d.sort)
	}
	for ; pr.funN < len(pr.pool.funOrder); pr.funN++ {
		pr.sb.WriteString(pr.pool.funs[pr.pool.funOrder[pr.funN]] + "\n")
	}
}

func (pr *Printer) ref(t *Term) string {
	pr.flushDecls()
	return pr.ref1(t)
}
func (pr *Printer) ref1(t *Term) string {
	if len(t.args) == 0 {
		return smtAtom(t)
	}
	if s, ok := pr.done[t.id]; ok {
		return s
	}
	var sb strings.Builder
	op := t.op
	if op == "constarr" {
		fmt.Fprintf(&sb, "((as const %s)", t.sort)
	} else {
		sb.WriteString("(" + op)
	}
	for _, a := range t.args {
		sb.WriteString(" " + pr.ref1(a))
	}
	sb.WriteString(")")
	name := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(pr.sb, "(define-fun %s () %s %s)\n", name, t.sort, sb.String())
	pr.done[t.id] = name
	return name
}

func TConstArr(s Sort, v *Term) *Term { return tp.mk("constarr", s, v) }
