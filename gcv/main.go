package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "module to verify")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	unit := flag.String("unit", "", "verify only units whose name contains this")
	inl := flag.Bool("inline", false, "drop the contracts of helpers and inline them")
	saveHints := flag.Bool("hints", false, "update the hint file")
	nohints := flag.Bool("nohints", false, "ignore the hint file")
	check := flag.String("check", "", "run the check of this property")
	verif := flag.String("verif", "/verif", "directory with contracts, harnesses and evidence")
	flag.Parse()
	if *check != "" {
		os.Exit(runCheck(*repo, *verif, *check))
	}
	w, err := loadWorld(*repo, []string{"./..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := w.loadSpecs(*dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	hp := *dir + "/hints.json"
	hints := loadHints(hp)
	if *nohints {
		hints = Hints{}
	}
	if *inl {
		for n := range w.byFn {
			if w.fns[n] != nil && !strings.HasSuffix(n, *unit) {
				w.inlined[n] = true
			}
		}
	}
	if *unit == "LIST" {
		w.listFns()
	}
	bad := 0
	for _, sf := range w.specs {
		for _, c := range sf.Contracts {
			if c.Trusted || *unit != "" && !strings.Contains(c.Fn, *unit) {
				continue
			}
			r := w.verifyUnit(c.Fn, hints)
			n := 0
			for _, o := range r.Obs {
				if o.Result == "unsat" {
					n++
				}
			}
			fmt.Printf("%-11s %s: %d/%d obligations, %d of %d candidate invariants kept (%d needed), %.1fs %s\n", r.Status, c.Fn, n, len(r.Obs), r.CandsKept, r.Cands, len(r.Needed), r.Wall, r.Msg)
			for _, o := range r.Failed {
				fmt.Printf("    FAILED %s [%s] at %s: %s (%s)\n", o.Name, o.Label, o.Where, o.Result, o.Output)
			}
			if len(r.Truncated) > 0 {
				fmt.Printf("    truncated templates: %v\n", r.Truncated)
			}
			if len(r.Dead) > 0 {
				fmt.Printf("    returns shown unreachable: %v\n", r.Dead)
			}
			if r.Status != "proved" {
				bad++
			} else if *saveHints {
				hints[c.Fn] = r.Needed
			}
		}
	}
	if *saveHints {
		hints.save(hp)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
