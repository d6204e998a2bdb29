package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	only := flag.String("only", "", "verify contracts whose name contains this")
	full := flag.Int("t", 20, "seconds per obligation")
	quick := flag.Int("q", 3, "seconds for the first solver")
	dump := flag.String("dump", "", "directory for failing scripts")
	verbose := flag.Bool("v", false, "list every obligation")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	unit := flag.String("unit", "", "verify one unit and print JSON")
	share := flag.String("share", "0/1", "which share of the unit's cases")
	check := flag.String("check", "", "run the check of a property")
	harness := flag.String("harness", "", "run only the harness of a property")
	flag.Parse()
	if pf := os.Getenv("GOV_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *harness != "" {
		os.Exit(onlyHarness(*harness))
	}
	if *check != "" {
		os.Exit(runCheck(*check))
	}
	if *unit != "" {
		runWorker(*unit, *quick, *full, *share)
		return
	}
	p, err := loadProgram(nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	db, err := loadSpecs(verifDir + "/contracts")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	v := &Verifier{prog: p, spec: db, full: *full, quick: *quick}
	show := func(u *Unit) {
		n, ok := 0, 0
		var ms int64
		for _, o := range u.Obls {
			if o.Reach {
				continue
			}
			n++
			if o.Status == "proved" {
				ok++
			}
			ms += o.Ms
		}
		fmt.Printf("%-60s %d/%d  paths %d rounds %d splits %d  solver %dms wall %v\n", u.Name, ok, n, u.Paths, u.Rounds, u.Splits, ms, u.Wall.Round(time.Millisecond))
		if u.Absent {
			fmt.Println("   ABSENT")
		}
		if *verbose {
			for _, o := range u.Obls {
				fmt.Printf("   %s %s %s %s %s %dms\n", o.Status, o.Kind, o.Pos, o.Desc, o.Solver, o.Ms)
			}
			for _, i := range u.Invs {
				fmt.Println("   inv", i)
			}
			fmt.Println("   used", sortedKeys(u.Used))
			fmt.Println("   inlined", sortedKeys(u.Inlined))
		}
		if n, dead := u.exits(); n > 0 && n == dead {
			fmt.Println("   FAIL vacuous: no return is reachable")
		}
		for i, o := range u.failures() {
			fmt.Printf("   FAIL %s %s %s: %s\n", o.Status, o.Kind, o.Pos, o.Desc)
			if o.Model != "" && i < 6 {
				fmt.Println("      model", strings.Join(strings.Fields(o.Model), " "))
			}
			if *verbose {
				fmt.Println("      trail", strings.Join(o.Trail, " "))
			}
			if *dump != "" && o.Script != "" {
				dumpN++
				f := fmt.Sprintf("%s/obl%d.smt2", *dump, dumpN)
				os.WriteFile(f, []byte("; "+u.Name+" "+o.Kind+" "+o.Desc+"\n"+o.Script), 0644)
				fmt.Println("      script", f)
			}
		}
	}
	for _, n := range db.LemmaOrd {
		if *only != "" && !strings.Contains("lemma "+n, *only) {
			continue
		}
		show(v.verifyLemma(db.Lemmas[n]))
	}
	for _, n := range db.Order {
		if *only != "" && !strings.Contains(n, *only) {
			continue
		}
		if db.ByName[n].Trusted != "" {
			continue
		}
		show(v.verify(db.ByName[n]))
	}
}
