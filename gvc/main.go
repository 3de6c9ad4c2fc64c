package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Report struct {
	Prop      string
	Functions []*FuncResult
	Problems  []string
	Queries   int
	SolverMs  int64
	WallMs    int64
	Solver    string
	Models    []string
	Trusted   []string
	Assumed   []string
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property (empty: all contracts)")
	out := flag.String("out", "", "write the result as JSON")
	only := flag.String("func", "", "only contracts whose key contains this")
	verbose := flag.Bool("v", false, "print every obligation")
	tmo := flag.Int("timeout", 10000, "solver timeout per obligation in ms")
	shard := flag.Int("shard", 0, "which part of the contracts")
	shards := flag.Int("shards", 1, "in how many parts")
	flag.Parse()
	solverTimeout = *tmo
	t0 := time.Now()
	db, err := loadDB(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	w, err := loadWorld(*repo, db)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	rep := &Report{Prop: *prop, Solver: z3Bin}
	rep.Problems = w.resolve()
	w.findFixed()
	sol := newSolvers()
	sweep := *prop == "C23" || *prop == "C24"
	if sweep {
		sweepProp = *prop
		db.order = append(db.order, w.uncontracted()...)
	}
	models := map[string]bool{}
	for ci, c := range db.order {
		if *prop != "" && !sweep && !contractHas(c, *prop) {
			continue
		}
		if *only != "" && !strings.Contains(c.Key, *only) {
			continue
		}
		if c.Kind == "inline" {
			continue
		}
		if *shards > 1 && ci%*shards != *shard {
			continue
		}
		fr := verify(w, sol, c)
		if *prop != "" {
			filter(fr, c, *prop, sweep)
		}
		for _, m := range fr.Models {
			models[m] = true
		}
		if fr.Trusted {
			rep.Trusted = append(rep.Trusted, fr.Key+": "+fr.Why)
		}
		if c.AssumeEnsures {
			rep.Assumed = append(rep.Assumed, fr.Key)
		}
		rep.Functions = append(rep.Functions, fr)
	}
	for _, lm := range db.lemmas {
		if (*prop == "" || hasProp(lm.Prop, *prop)) && (*only == "" || strings.Contains("lemma "+lm.Name, *only)) {
			rep.Functions = append(rep.Functions, verifyLemma(w, sol, lm))
		}
	}
	rep.Assumed = append(rep.Assumed, db.assumes...)
	rep.Models = sortedKeys(models)
	rep.Queries, rep.SolverMs, rep.WallMs = sol.Queries, sol.Time.Milliseconds(), time.Since(t0).Milliseconds()
	sol.close()
	sort.Strings(rep.Trusted)
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*out, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	bad := 0
	for _, p := range rep.Problems {
		fmt.Println("problem:", p)
	}
	total, proved := 0, 0
	for _, fr := range rep.Functions {
		for _, o := range fr.Obligations {
			total++
			if o.Status == "proved" {
				proved++
			}
		}
		if fr.Status != "verified" && fr.Status != "trusted" {
			bad++
		}
		if *verbose || (fr.Status != "verified" && fr.Status != "trusted") {
			fmt.Printf("%-10s %s %s (%d obligations, %d ms)\n", fr.Status, fr.Key, fr.Why, len(fr.Obligations), fr.Millis)
			for _, o := range fr.Obligations {
				if *verbose || o.Status != "proved" {
					fmt.Printf("    %-16s %-28s %s %s\n", o.Status, o.Name, o.What, o.Pos)
					if o.Status != "proved" {
						for _, x := range o.Values {
							if len(x.Value) < 60 {
								fmt.Printf("        %s = %s\n", x.Name, x.Value)
							}
						}
						for _, n := range o.Notes {
							fmt.Printf("        note: %s\n", n)
						}
					}
				}
			}
		}
	}
	fmt.Printf("%d functions, %d obligations, %d discharged, %d functions not verified, %d solver calls, %d ms solver, %d ms wall\n",
		len(rep.Functions), total, proved, bad, rep.Queries, rep.SolverMs, rep.WallMs)
	if bad > 0 || len(rep.Problems) > 0 {
		os.Exit(1)
	}
}

func contractHas(c *FuncContract, p string) bool {
	if hasProp(c.Prop, p) {
		return true
	}
	for _, cl := range c.Ensures {
		if hasProp(cl.Prop, p) {
			return true
		}
	}
	for _, cc := range c.Closures {
		if contractHas(cc, p) {
			return true
		}
	}
	return false
}

// filter keeps the obligations that concern property p.
func filter(fr *FuncResult, c *FuncContract, p string, sweep bool) {
	var keep []*Obligation
	for _, o := range fr.Obligations {
		if sweep {
			if bookkeeping[o.Name] == p {
				keep = append(keep, o)
			}
			continue
		}
		if len(o.Prop) > 0 && !hasProp(o.Prop, p) {
			continue
		}
		keep = append(keep, o)
	}
	fr.Obligations = keep
	if fr.Status == "failed" {
		fr.Status = "verified"
		for _, o := range keep {
			if o.Status != "proved" {
				fr.Status = "failed"
			}
		}
	}
}

// uncontracted makes a contract that says nothing for every function of the
// repository that has none, so that its locking is examined too.
func (w *World) uncontracted() []*FuncContract {
	var keys []string
	for k := range w.byKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []*FuncContract
	for _, k := range keys {
		f := w.byKey[k]
		if w.db.byKey[k] != nil || !w.inRepo(f) || f.Parent() != nil || !token.IsExported(f.Name()) || f.Pkg == nil || f.Pkg.Pkg.Name() == "main" || f.Synthetic != "" || len(f.Blocks) == 0 || f.TypeParams().Len() > 0 || f.Origin() != nil || w.touchesNothing(f, map[*ssa.Function]bool{}) {
			continue
		}
		c := &FuncContract{Key: k, Pkg: shortQual(f.Pkg.Pkg), Kind: "sweep", AnyEvents: true, Prop: []string{"C23", "C24"}}
		for i := range f.Params {
			c.Params = append(c.Params, fmt.Sprintf("a%d", i))
		}
		out = append(out, c)
	}
	return out
}
