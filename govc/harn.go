package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is the compiled test binary that executes contracts on real inputs.
type Harness struct {
	dir string
	bin string
	err error
}

type HOut struct {
	Func     string `json:"func"`
	Kind     string `json:"kind"`
	Seed     int64  `json:"seed"`
	Case     int    `json:"case"`
	Input    string `json:"input"`
	What     string `json:"what"`
	Cases    int    `json:"cases"`
	Distinct int    `json:"distinct"`
	Sample   string `json:"sample"`
}

// consts collects the literals of a function and of the package functions it calls.
func (w *World) consts(fn *ssa.Function) (ints []int64, strs []string) {
	seen := map[*ssa.Function]bool{}
	im, sm := map[int64]bool{}, map[string]bool{}
	var dfs func(f *ssa.Function, d int)
	dfs = func(f *ssa.Function, d int) {
		if seen[f] || d > 3 || w.specFns[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil {
						switch c.Value.Kind() {
						case constant.Int:
							if v, ok := constant.Int64Val(c.Value); ok && (v > 2 || v < -1) {
								im[v] = true
							}
						case constant.String:
							if s := constant.StringVal(c.Value); len(s) < 60 {
								sm[s] = true
							}
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && s.Pkg == w.pkg {
						dfs(s, d+1)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			dfs(a, d)
		}
	}
	dfs(fn, 0)
	for v := range im {
		ints = append(ints, v)
	}
	for s := range sm {
		strs = append(strs, s)
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	sort.Strings(strs)
	return
}

// native: a function the harness can name.
func (w *World) native(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Synthetic == "" && fn.Pkg == w.pkg && token.IsIdentifier(fn.Name()) && fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") && !strings.HasPrefix(fn.Name(), "_C") && fn.Name() != "_"
}

func (w *World) buildHarness() *Harness {
	h := &Harness{}
	dir, err := os.MkdirTemp("", "govch")
	if err != nil {
		h.err = err
		return h
	}
	h.dir = dir
	var sb strings.Builder
	sb.WriteString("package golisp\n\nvar hTable = []hRow{\n")
	for _, fn := range w.allFns {
		if w.specFns[fn] || !w.native(fn) || len(fn.Blocks) == 0 {
			continue
		}
		n := w.shortFn(fn.String())
		c := w.contracts[n]
		if c == nil && !w.isRoot(fn) {
			continue
		}
		ints, strs := w.consts(fn)
		fmt.Fprintf(&sb, "\t{name: %q, fn: %s, ints: %#v, strs: %#v", n, n, ints, strs)
		if c != nil {
			list := func(l []*ssa.Function) string {
				var s []string
				for _, f := range l {
					s = append(s, f.Name())
				}
				return strings.Join(s, ", ")
			}
			if len(c.pre) > 0 {
				fmt.Fprintf(&sb, ", pre: []interface{}{%s}", list(c.pre))
			}
			if len(c.post) > 0 {
				fmt.Fprintf(&sb, ", post: []interface{}{%s}", list(c.post))
			}
			if c.spec != nil {
				fmt.Fprintf(&sb, ", spec: %s", c.spec.Name())
				e := w.newEnv(nil, map[string]bool{})
				e.root, e.rootC = fn, c
				if e.eventSpec(c.spec) && !c.sameArgs {
					sb.WriteString(", events: true")
				}
			}
			mods := append(append([]string{}, c.modKeys...), c.modAny...)
			if c.noFrame || w.events[n] != nil {
				mods = append(mods, "*")
			}
			if len(mods) > 0 {
				fmt.Fprintf(&sb, ", mods: %#v", mods)
			}
		}
		sb.WriteString("},\n")
	}
	sb.WriteString("}\n")
	table := filepath.Join(dir, "table_test.go")
	os.WriteFile(table, []byte(sb.String()), 0644)
	repl := map[string]string{
		filepath.Join(w.repo, "zz_govc_table_test.go"):   table,
		filepath.Join(w.repo, "zz_govc_harness_test.go"): filepath.Join(verifDir, "harness", "harness_test.go"),
	}
	for f, b := range w.overlay {
		p := filepath.Join(dir, filepath.Base(f))
		os.WriteFile(p, b, 0644)
		repl[f] = p
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	h.bin = filepath.Join(dir, "h.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", h.bin, ".")
	cmd.Dir = w.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	if out, err := cmd.CombinedOutput(); err != nil {
		h.err = fmt.Errorf("harness: %v: %s", err, trunc(string(out), 2000))
	}
	return h
}

func (h *Harness) close() {
	if h != nil && h.dir != "" {
		os.RemoveAll(h.dir)
	}
}

// run executes one target; nil if the process died without an answer.
func (h *Harness) run(target, kinds string, seed int64, secs, only, max int) (*HOut, string) {
	if h.err != nil {
		return nil, h.err.Error()
	}
	scratch, err := os.MkdirTemp(h.dir, "run")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(scratch)
	out := filepath.Join(scratch, "out.json")
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+25)*time.Second)
	defer cancel()
	// an address space limit: a runaway case must not take the machine down
	cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 6000000; exec \"$@\"", "h", h.bin, "-test.run", "^TestGovcHarness$", "-test.timeout", "0")
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "GOVC_T="+target, "GOVC_OUT="+out, "GOVC_KINDS="+kinds, fmt.Sprintf("GOVC_SEED=%d", seed), fmt.Sprintf("GOVC_SECS=%d", secs), fmt.Sprintf("GOVC_CASE=%d", only), fmt.Sprintf("GOVC_MAX=%d", max), "GOGC=400", "GOMEMLIMIT=3GiB")
	b, _ := cmd.CombinedOutput()
	var o HOut
	if j, err := os.ReadFile(out); err == nil && json.Unmarshal(j, &o) == nil {
		return &o, trunc(string(b), 500)
	}
	s := string(b)
	if len(s) > 1500 {
		s = s[:700] + " ... " + s[len(s)-700:]
	}
	return nil, s
}

type hJob struct {
	target, kinds string
	secs          int
	out           *HOut
	note          string
}

func (h *Harness) runAll(jobs []*hJob, seed int64, max int) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 7)
	for _, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func(j *hJob) {
			defer wg.Done()
			j.out, j.note = h.run(j.target, j.kinds, seed, j.secs, -1, max)
			<-sem
		}(j)
	}
	wg.Wait()
}
