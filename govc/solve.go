package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Verdict struct {
	Oblig  *Oblig
	Status string // proved, failed, unknown
	By     string
	Time   float64
	Model  string
	Detail string
}

type RootResult struct {
	Func     string
	Err      string
	Verdicts []*Verdict
	Live     int // invariants kept
	Dead     int
	Rounds   int
	Time     float64
	Covered  string
	Size     int
	Passes   int
	Invs     []string
	env      *Env
	vc       *VC
	r        *rendered
	live     []bool
}

type rendered struct {
	header string // sorts, declarations
	segs   []rseg
	lits   []string
	hard   int
	litIdx map[*Cand]int
	seq    *rendered // the same over the solver's own sequence theory
}

// Sequences as a free monoid: a set of true facts about finite sequences, matched
// on the concatenations that occur. Much more predictable than a sequence theory.
const seqAxioms = `(declare-sort Sq 0)
(declare-fun sq.nil () Sq)
(declare-fun sq.cat (Sq Sq) Sq)
(declare-fun sq.unit (Int) Sq)
(declare-fun sq.len (Sq) Int)
(declare-fun sq.ext (Sq Int Int) Sq)
(declare-fun sq.at (Sq Int) Int)
(assert (forall ((a Sq) (x Int) (n Int)) (! (=> (= n (sq.len a)) (= (sq.at (sq.cat a (sq.unit x)) n) x)) :pattern ((sq.at (sq.cat a (sq.unit x)) n)))))
(assert (forall ((x Int) (b Sq)) (! (= (sq.at (sq.cat (sq.unit x) b) 0) x) :pattern ((sq.at (sq.cat (sq.unit x) b) 0)))))
(assert (forall ((x Int)) (! (= (sq.at (sq.unit x) 0) x) :pattern ((sq.at (sq.unit x) 0)))))
(assert (forall ((a Sq) (b Sq) (c Sq)) (! (= (sq.cat (sq.cat a b) c) (sq.cat a (sq.cat b c))) :pattern ((sq.cat (sq.cat a b) c)))))
(assert (forall ((a Sq)) (! (= (sq.cat sq.nil a) a) :pattern ((sq.cat sq.nil a)))))
(assert (forall ((a Sq)) (! (= (sq.cat a sq.nil) a) :pattern ((sq.cat a sq.nil)))))
(assert (forall ((a Sq) (b Sq)) (! (= (sq.len (sq.cat a b)) (+ (sq.len a) (sq.len b))) :pattern ((sq.cat a b)))))
(assert (forall ((a Int)) (! (= (sq.len (sq.unit a)) 1) :pattern ((sq.unit a)))))
(assert (= (sq.len sq.nil) 0))
(assert (forall ((a Sq) (b Sq)) (! (and (=> (= (sq.cat a b) a) (= b sq.nil)) (=> (= (sq.cat a b) b) (= a sq.nil))) :pattern ((sq.cat a b)))))
(assert (forall ((a Sq)) (! (and (>= (sq.len a) 0) (= (= 0 (sq.len a)) (= a sq.nil))) :pattern ((sq.len a)))))
(assert (forall ((a Sq) (b Sq) (n Int)) (! (=> (= n (sq.len a)) (= (sq.ext (sq.cat a b) 0 n) a)) :pattern ((sq.ext (sq.cat a b) 0 n)))))
(assert (forall ((a Sq) (b Sq) (m Int) (n Int)) (! (=> (and (= m (sq.len a)) (>= n (sq.len b))) (= (sq.ext (sq.cat a b) m n) b)) :pattern ((sq.ext (sq.cat a b) m n)))))
(assert (forall ((a Sq) (n Int)) (! (and (=> (= n (sq.len a)) (= (sq.ext a 0 n) a)) (=> (and (<= 0 n) (<= n (sq.len a))) (and (= (sq.len (sq.ext a 0 n)) n) (= a (sq.cat (sq.ext a 0 n) (sq.ext a n (- (sq.len a) n))))))) :pattern ((sq.ext a 0 n)))))
(assert (forall ((a Sq) (m Int) (n Int)) (! (=> (and (<= 0 m) (<= m (sq.len a)) (>= (+ m n) (sq.len a))) (and (= (sq.len (sq.ext a m n)) (- (sq.len a) m)) (= a (sq.cat (sq.ext a 0 m) (sq.ext a m n))))) :pattern ((sq.ext a m n)))))
(assert (forall ((a Sq) (b Sq) (x Int) (n Int)) (! (=> (= n (sq.len a)) (= (sq.at (sq.cat a (sq.cat (sq.unit x) b)) n) x)) :pattern ((sq.at (sq.cat a (sq.cat (sq.unit x) b)) n)))))
(assert (forall ((a Sq) (n Int)) (! (=> (and (<= 0 n) (< n (sq.len a))) (= a (sq.cat (sq.ext a 0 n) (sq.cat (sq.unit (sq.at a n)) (sq.ext a (+ n 1) (- (sq.len a) (+ n 1))))))) :pattern ((sq.at a n)))))
(assert (forall ((a Sq) (m Int) (n Int)) (! (=> (<= n 0) (= (sq.ext a m n) sq.nil)) :pattern ((sq.ext a m n)))))
`

var monoid = strings.NewReplacer("(as seq.empty (Seq Int))", "sq.nil", "(Seq Int)", "Sq", "seq.++", "sq.cat", "seq.unit", "sq.unit", "seq.len", "sq.len", "seq.extract", "sq.ext", "seq.nth", "sq.at")

func (r *rendered) z3args() []string {
	if r.seq != nil {
		if o := os.Getenv("GOVC_Z3"); o != "" {
			return append([]string{"-in", "-smt2", "smt.mbqi=false"}, strings.Fields(o)...)
		}
		return []string{"-in", "-smt2", "smt.arith.solver=6", "smt.mbqi=false", "smt.qi.eager_threshold=4", "smt.qi.lazy_threshold=4"}
	}
	return []string{"-in", "-smt2", "smt.arith.solver=2"}
}

func (r *rendered) toMonoid() *rendered {
	uses := strings.Contains(r.header, "(Seq Int)")
	for i := range r.segs {
		uses = uses || strings.Contains(r.segs[i].text, "(Seq Int)")
	}
	if !uses {
		return r
	}
	m := &rendered{header: seqAxioms + monoid.Replace(r.header), lits: r.lits, litIdx: r.litIdx, seq: r}
	for _, s := range r.segs {
		s.text = monoid.Replace(s.text)
		m.segs = append(m.segs, s)
	}
	return m
}

type rseg struct {
	text string // definitions and assertions since the last obligation
	ob   *Oblig
	neg  string // name of the negated obligation
	cov  bool
}

func render(vc *VC) *rendered {
	tp = vc.pool
	r := &rendered{litIdx: map[*Cand]int{}}
	for i, c := range vc.cands {
		r.lits = append(r.lits, c.lit.op)
		r.litIdx[c] = i
	}
	var sb strings.Builder
	pr := NewPrinter(&sb)
	pr.declN = len(vc.pool.decls)
	pr.funN = len(vc.pool.funOrder)
	var segs []rseg
	asserted := map[int]bool{}
	for _, it := range vc.script {
		switch it.kind {
		case IAssert:
			if asserted[it.term.id] {
				continue
			}
			asserted[it.term.id] = true
			n := pr.ref1(it.term)
			fmt.Fprintf(&sb, "(assert %s)\n", n)
		case IOblig, ICover:
			neg := TAnd(it.ob.pc, TNot(it.ob.cond))
			n := pr.ref1(neg)
			segs = append(segs, rseg{text: sb.String(), ob: it.ob, neg: n, cov: it.kind == ICover})
			sb.Reset()
		}
	}
	r.segs = segs
	// declarations last: printing may have created terms
	var hb strings.Builder
	hb.WriteString("(declare-sort Str 0)\n(declare-sort F32 0)\n(declare-sort F64 0)\n")
	for _, d := range vc.pool.decls {
		fmt.Fprintf(&hb, "(declare-const %s %s)\n", d.op, d.sort)
	}
	for _, f := range vc.pool.funOrder {
		hb.WriteString(vc.pool.funs[f] + "\n")
	}
	r.header = hb.String()
	return r.toMonoid()
}

func (r *rendered) litText(live []bool) string {
	var sb strings.Builder
	for i, l := range r.lits {
		if live[i] {
			fmt.Fprintf(&sb, "(assert %s)\n", l)
		} else {
			fmt.Fprintf(&sb, "(assert (not %s))\n", l)
		}
	}
	return sb.String()
}

var solverSem = make(chan struct{}, 8)

func runSolver(bin string, args []string, input string, limit time.Duration) (string, error) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(input)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	return out.String(), err
}

// batch runs the checks of the selected segments in one incremental solver.
func (r *rendered) batch(live []bool, sel func(i int, s *rseg) bool, rlimit int, limit time.Duration) map[int]string {
	var sb strings.Builder
	sb.WriteString("(set-option :print-success false)\n")
	sb.WriteString("(set-option :timeout 60000)\n")
	sb.WriteString(r.header)
	sb.WriteString(r.litText(live))
	n := 0
	for i := range r.segs {
		s := &r.segs[i]
		sb.WriteString(s.text)
		if sel(i, s) {
			fmt.Fprintf(&sb, "(set-option :rlimit 0)\n(push 1)\n(assert %s)\n(echo \"@%d\")\n(set-option :rlimit %d)\n(check-sat)\n(set-option :rlimit 0)\n(pop 1)\n", s.neg, i, rlimit)
			n++
		}
	}
	res := map[int]string{}
	if n == 0 {
		return res
	}
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		os.WriteFile(d, []byte(sb.String()), 0644)
	}
	out, _ := runSolver("z3-new", r.z3args(), sb.String(), limit)
	cur := -1
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(strings.Trim(strings.TrimSpace(l), "\""))
		if strings.HasPrefix(l, "@") {
			fmt.Sscan(l[1:], &cur)
		} else if (l == "sat" || l == "unsat" || l == "unknown") && cur >= 0 {
			res[cur] = l
			cur = -1
		} else if strings.HasPrefix(l, "(error") {
			res[-1] += l + "\n"
		}
	}
	return res
}

func (r *rendered) single(live []bool, i int, model bool) string {
	var sb strings.Builder
	sb.WriteString(r.header)
	sb.WriteString(r.litText(live))
	for j := 0; j <= i; j++ {
		sb.WriteString(r.segs[j].text)
	}
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", r.segs[i].neg)
	if model {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

type solveCfg struct {
	rlimit    int
	retrySecs int
	cover     bool
}

func solveRoot(vc *VC, r *rendered, cfg solveCfg) *RootResult {
	t0 := time.Now()
	res := &RootResult{Func: vc.env.shortFn(vc.fn.String()), env: vc.env, vc: vc, Size: vc.size, Passes: vc.passes}
	live := make([]bool, len(r.lits))
	for i := range live {
		live[i] = true
	}
	// only candidates that some obligation could use
	need := false
	for i := range r.segs {
		if r.segs[i].ob.cand == nil && !r.segs[i].cov {
			need = true
		}
	}
	if !need {
		return res
	}
	budget := 600 * time.Second
	if len(r.lits) > 0 {
		if c := vc.env.rootC; c != nil {
			r.hard = c.hard
		}
		rounds, err := r.houdini(live, cfg.rlimit/2)
		res.Rounds = rounds
		if err != nil {
			res.Err = "solver: " + trunc(err.Error(), 300)
			return res
		}
	}
	for i, c := range vc.cands {
		if live[i] {
			res.Live++
			res.Invs = append(res.Invs, c.desc)
		} else {
			res.Dead++
		}
	}
	tb := time.Now()
	got := r.batch(live, func(i int, s *rseg) bool { return s.ob.cand == nil && !s.cov || s.cov && cfg.cover && r.seq == nil }, cfg.rlimit*8, budget)
	if r.seq != nil && cfg.cover {
		// reachability needs a model
		for i, a := range r.seq.batch(live, func(i int, s *rseg) bool { return s.cov }, cfg.rlimit*8, budget) {
			if i >= 0 {
				got[i] = a
			}
		}
	}
	if got[-1] != "" {
		res.Err = "solver: " + trunc(got[-1], 300)
		return res
	}
	dt := time.Since(tb).Seconds()
	n := 0
	for i := range r.segs {
		if r.segs[i].ob.cand == nil {
			n++
		}
	}
	for i := range r.segs {
		s := &r.segs[i]
		if s.ob.cand != nil {
			continue
		}
		if s.cov {
			res.Covered = got[i]
			continue
		}
		v := &Verdict{Oblig: s.ob, Time: dt / float64(n)}
		switch got[i] {
		case "unsat":
			v.Status, v.By = "proved", "z3-new"
		default:
			v.Status = got[i]
			if v.Status == "" {
				v.Status = "unknown"
			}
		}
		if v.Status != "proved" && cfg.retrySecs > 0 {
			t1 := time.Now()
			if st, by := r.portfolio(live, i, cfg.retrySecs, false); st != "" {
				v.Status, v.By = st, by
			}
			v.Time += time.Since(t1).Seconds()
		}
		res.Verdicts = append(res.Verdicts, v)
	}
	res.live = live
	res.Time = time.Since(t0).Seconds()
	sort.Strings(res.Invs)
	return res
}

// houdini drops the candidates that are not inductive. A candidate is checked
// again only when a candidate its proof used has been dropped.
func (r *rendered) houdini(live []bool, rlimit int) (int, error) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	litIx := map[string]int{}
	for i, l := range r.lits {
		litIx[l] = i
	}
	dirty := make([]bool, len(r.segs))
	deps := make([]map[int]bool, len(r.segs))
	last := -1
	for i := range r.segs {
		if r.segs[i].ob.cand != nil {
			dirty[i] = true
			last = i
		}
	}
	assume := func(neg string) string {
		var sb strings.Builder
		sb.WriteString("(check-sat-assuming (")
		for i, l := range r.lits {
			if live[i] {
				sb.WriteString(l)
				sb.WriteByte(' ')
			}
		}
		sb.WriteString("govc.neg))\n")
		return sb.String()
	}
	rounds := 0
	for {
		any := false
		for i := range dirty {
			if dirty[i] {
				any = true
			}
		}
		if !any || last < 0 {
			return rounds, nil
		}
		rounds++
		if err := r.houdiniPass(live, dirty, deps, last, litIx, rlimit, assume); err != nil {
			return rounds, err
		}
	}
}

func (r *rendered) houdiniPass(live, dirty []bool, deps []map[int]bool, last int, litIx map[string]int, rlimit int, assume func(string) string) error {
	ctx, cancel := context.WithTimeout(context.Background(), 800*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", r.z3args()...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	outp, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	defer func() { in.Close(); cmd.Process.Kill(); cmd.Wait() }()
	rd := bufio.NewReaderSize(outp, 1<<16)
	var sink io.Writer = in
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		if df, err := os.Create(d + ".houdini"); err == nil {
			defer df.Close()
			sink = io.MultiWriter(in, df)
		}
	}
	w := bufio.NewWriterSize(sink, 1<<20)
	fmt.Fprintf(w, "(set-option :print-success false)\n(set-option :produce-unsat-cores true)\n(set-option :timeout 60000)\n")
	w.WriteString(r.header)
	for i, l := range r.lits {
		if !live[i] {
			fmt.Fprintf(w, "(assert (not %s))\n", l)
		}
	}
	end := last
	for end >= 0 && !dirty[end] {
		end--
	}
	for i := 0; i <= end; i++ {
		s := &r.segs[i]
		w.WriteString(s.text)
		if s.ob.cand == nil || !dirty[i] {
			continue
		}
		li := r.litIdx[s.ob.cand]
		if !live[li] {
			dirty[i] = false
			continue
		}
		tq := time.Now()
		fmt.Fprintf(w, "(set-option :rlimit 0)\n(push 1)\n(declare-const govc.neg Bool)\n(assert (=> govc.neg %s))\n(set-option :rlimit %d)\n%s", s.neg, rlimit, assume(s.neg))
		if err := w.Flush(); err != nil {
			return err
		}
		ans, err := rd.ReadString('\n')
		if err != nil {
			return fmt.Errorf("no answer: %v", err)
		}
		ans = strings.TrimSpace(ans)
		if os.Getenv("GOVC_Q") != "" {
			fmt.Fprintf(os.Stderr, "q %d/%d %s %.3f %s\n", i, end, ans, time.Since(tq).Seconds(), s.ob.Name)
		}
		if x := os.Getenv("GOVC_STOP"); x != "" && ans != "unsat" && strings.Contains(s.ob.Name, x) {
			os.Exit(3)
		}
		dirty[i] = false
		if ans == "unknown" && r.hard > 0 && strings.Contains(s.ob.Name, "(") {
			<-solverSem
			st, _ := r.portfolio(live, i, r.hard, true)
			solverSem <- struct{}{}
			if os.Getenv("GOVC_Q") != "" {
				fmt.Fprintf(os.Stderr, "   hard: %s\n", st)
			}
			if st == "proved" {
				d := map[int]bool{}
				for k := range live {
					if live[k] {
						d[k] = true
					}
				}
				deps[i] = d
				w.WriteString("(set-option :rlimit 0)\n(pop 1)\n")
				continue
			}
		}
		if ans == "unsat" {
			w.WriteString("(get-unsat-core)\n")
			w.Flush()
			core := ""
			for {
				l, err := rd.ReadString('\n')
				if err != nil {
					return err
				}
				core += l
				if strings.Contains(l, ")") {
					break
				}
			}
			d := map[int]bool{}
			for _, x := range strings.Fields(strings.Trim(strings.TrimSpace(core), "()")) {
				if k, ok := litIx[x]; ok {
					d[k] = true
				}
			}
			deps[i] = d
			if os.Getenv("GOVC_Q") != "" {
				fmt.Fprintf(os.Stderr, "   core %s\n", strings.Join(strings.Fields(core), " "))
			}
		} else if ans == "sat" || ans == "unknown" || ans == "timeout" {
			live[li] = false
			for j := range deps {
				if deps[j] != nil && deps[j][li] {
					dirty[j] = true
				}
			}
		} else {
			return fmt.Errorf("%s", ans)
		}
		w.WriteString("(set-option :rlimit 0)\n(pop 1)\n")
	}
	return nil
}

// portfolio asks three solvers at once; the first proof wins.
func (r *rendered) portfolio(live []bool, i, secs int, firstSat bool) (string, string) {
	script := r.single(live, i, false)
	seq := script
	if r.seq != nil {
		seq = r.seq.single(live, i, false)
	}
	type ans struct{ by, out string }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	solvers := [][]string{{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs)}, {"z3-new", "-in", "-smt2", "smt.arith.solver=2", fmt.Sprintf("-T:%d", secs)},
		{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000), "--strings-exp"}, {"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", secs)}}
	ch := make(chan ans, len(solvers))
	for _, sv := range solvers {
		go func(sv []string) {
			in := script
			if sv[0] != "z3-new" {
				in = seq
			}
			if sv[0] == "cvc5" {
				in = "(set-logic ALL)\n" + script
			}
			cctx, c2 := context.WithTimeout(ctx, time.Duration(secs+5)*time.Second)
			defer c2()
			cmd := exec.CommandContext(cctx, sv[0], sv[1:]...)
			cmd.Stdin = strings.NewReader(in)
			b, _ := cmd.Output()
			ch <- ans{sv[0], strings.TrimSpace(strings.SplitN(strings.TrimSpace(string(b)), "\n", 2)[0])}
		}(sv)
	}
	st, by := "", ""
	for range solvers {
		a := <-ch
		if a.out == "unsat" {
			return "proved", a.by
		}
		if a.out == "sat" {
			st, by = "sat", a.by
			if firstSat {
				return st, by
			}
		}
	}
	return st, by
}
