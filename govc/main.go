package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2], os.Args[3:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		os.Exit(runReplay(os.Args[2]))
	}
	if len(os.Args) > 1 && os.Args[1] == "try" {
		os.Exit(runTry(os.Args[2:]))
	}
	t0 := time.Now()
	w, err := LoadWorld(repoDir, verifDir+"/contracts")
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	kinds := map[string]bool{}
	for _, k := range strings.Split(os.Args[1], ",") {
		kinds[k] = true
	}
	retrySecs := 0
	fmt.Sscan(os.Getenv("GOVC_RETRY"), &retrySecs)
	var mu sync.Mutex
	var wg sync.WaitGroup
	var results []*RootResult
	sem := make(chan struct{}, 8)
	for _, fn := range w.roots() {
		n := w.shortFn(fn.String())
		if len(os.Args) > 2 {
			ok := false
			for _, a := range os.Args[2:] {
				if a == n || strings.HasSuffix(a, "*") && strings.HasPrefix(n, a[:len(a)-1]) {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		tg := time.Now()
		vc := w.genRoot(fn, kinds)
		if d := time.Since(tg); d > 500*time.Millisecond || os.Getenv("GOVC_GEN") != "" {
			fmt.Printf("gen %s %v size %d passes %d items %d %s\n", n, d, vc.size, vc.passes, len(vc.script), vc.err)
		}
		if os.Getenv("GOVC_GEN") != "" {
			continue
		}
		if vc.err != "" {
			results = append(results, &RootResult{Func: n, Err: vc.err})
			continue
		}
		r := render(vc)
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			res := solveRoot(vc, r, solveCfg{rlimit: 3000000, retrySecs: retrySecs, cover: true})
			mu.Lock()
			fmt.Fprintf(os.Stderr, "done %s %.1fs obl %d live %d dead %d rounds %d\n", n, res.Time, len(res.Verdicts), res.Live, res.Dead, res.Rounds)
			results = append(results, res)
			mu.Unlock()
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Func < results[j].Func })
	np, nf := 0, 0
	for _, r := range results {
		if r.Err != "" {
			fmt.Printf("ERR  %s: %s\n", r.Func, trunc(r.Err, 200))
			continue
		}
		if r.Time > 5 || os.Getenv("GOVC_V") != "" {
			fmt.Printf("     %s %.1fs size %d passes %d live %d dead %d rounds %d cover %s obl %d\n", r.Func, r.Time, r.Size, r.Passes, r.Live, r.Dead, r.Rounds, r.Covered, len(r.Verdicts))
		}
		if os.Getenv("GOVC_V") == "2" {
			for _, i := range r.Invs {
				fmt.Println("        inv", i)
			}
		}
		if r.Covered == "unsat" {
			fmt.Printf("VACUOUS %s\n", r.Func)
		}
		for _, v := range r.Verdicts {
			if v.Status == "proved" {
				np++
			} else {
				nf++
				fmt.Printf("FAIL %s %s %s\n", v.Status, v.Oblig.Name, v.Oblig.Pos)
			}
		}
	}
	fmt.Printf("roots %d proved %d failed %d in %s\n", len(results), np, nf, time.Since(t0))
}
