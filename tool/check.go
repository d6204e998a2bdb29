package main

// The checks: which units a property needs, running them, the harness, evidence and verdict.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type oblRes struct {
	Kind   string `json:"kind"`
	Desc   string `json:"desc"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Solver string `json:"solver,omitempty"`
	Model  string `json:"model,omitempty"`
	Script string `json:"script,omitempty"`
}

type unitRes struct {
	Name     string         `json:"name"`
	Absent   bool           `json:"absent,omitempty"`
	Total    int            `json:"obligations"`
	Proved   int            `json:"discharged"`
	BySolver map[string]int `json:"by_solver"`
	Kinds    map[string]int `json:"kinds"`
	SolverMs int64          `json:"solver_ms"`
	WallMs   int64          `json:"wall_ms"`
	Used     []string       `json:"used"`
	UsedLem  []string       `json:"used_lemmas"`
	Trusted  []string       `json:"trusted"`
	Inlined  []string       `json:"inlined"`
	Invs     int            `json:"loop_invariants"`
	Paths    int            `json:"paths"`
	Splits   int            `json:"cases"`
	Fails    []oblRes       `json:"failures"`
	Retried  bool           `json:"retried,omitempty"`
	Crash    string         `json:"crash,omitempty"`
	Exits    int            `json:"returns_checked"`
	Dead     int            `json:"returns_unreachable"`
}

func (u *Unit) result() *unitRes {
	r := &unitRes{Name: u.Name, Absent: u.Absent, BySolver: map[string]int{}, Kinds: map[string]int{}, WallMs: u.Wall.Milliseconds(), Paths: u.Paths, Splits: u.Splits, Invs: len(u.Invs)}
	for _, o := range u.Obls {
		if o.Reach {
			continue
		}
		r.Total++
		r.Kinds[o.Kind]++
		if o.Status == "proved" {
			r.Proved++
			s := o.Solver
			if s == "" {
				s = "simplifier"
			}
			r.BySolver[s]++
		}
		r.SolverMs += o.Ms
	}
	for _, o := range u.failures() {
		r.Fails = append(r.Fails, oblRes{o.Kind, o.Desc, o.Pos, o.Status, o.Solver, strings.Join(strings.Fields(o.Model), " "), o.Script})
	}
	r.Exits, r.Dead = u.exits()
	r.Used = sortedKeys(u.Used)
	r.Trusted = sortedKeys(u.Trusted)
	r.Inlined = sortedKeys(u.Inlined)
	if u.Ctr != nil {
		r.UsedLem = lemmasOf(u.Ctr.Use, u.Ctr.UseInst)
	}
	if u.Lemma != nil {
		r.UsedLem = lemmasOf(u.Lemma.Use, u.Lemma.UseInst)
	}
	return r
}

// worker: verify one unit and print the result as JSON.
func runWorker(name string, quick, full int, share string) {
	p, err := loadProgram(nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	db, err := loadSpecs(verifDir + "/contracts")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	v := &Verifier{prog: p, spec: db, full: full, quick: quick}
	fmt.Sscanf(share, "%d/%d", &v.chunk, &v.chunks)
	var u *Unit
	if strings.HasPrefix(name, "lemma ") {
		u = v.verifyLemma(db.Lemmas[strings.TrimPrefix(name, "lemma ")])
	} else {
		u = v.verify(db.ByName[name])
	}
	b, _ := json.Marshal(u.result())
	inflight.Wait()
	os.Stdout.Write(b)
}

func hasTag(ts []string, t string) bool {
	for _, s := range ts {
		if s == t {
			return true
		}
	}
	return false
}

type checker struct {
	id    string
	db    *SpecDB
	self  string
	jobR  *os.File
	jobW  *os.File
	mu    sync.Mutex
	res   map[string]*unitRes
	wg    sync.WaitGroup
	slots chan struct{}
	trust map[string]bool // contracts assumed, not proved
	end   time.Time       // no solver runs after this
	stop  string          // nor when this file exists
}

func (c *checker) enqueue(name string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.res[name]; ok {
		return
	}
	if !strings.HasPrefix(name, "lemma ") {
		ct := c.db.ByName[name]
		if ct == nil || ct.Trusted != "" {
			c.trust[name] = true
			return
		}
	}
	c.res[name] = nil
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		t0 := time.Now()
		shares := c.shares(name)
		parts := make([]*unitRes, shares)
		var wg sync.WaitGroup
		for i := range parts {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				c.slots <- struct{}{}
				defer func() { <-c.slots }()
				parts[i] = c.attempts(name, fmt.Sprintf("%d/%d", i, shares))
			}(i)
		}
		wg.Wait()
		r := parts[0]
		for _, p := range parts[1:] {
			r.add(p)
		}
		if r.Exits > 0 && r.Exits == r.Dead {
			r.Fails = append(r.Fails, oblRes{"vacuous", "no return is reachable", "", "failed", "", "", ""})
		}
		if os.Getenv("GOV_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "%8.1fs %s retried=%v\n", time.Since(t0).Seconds(), name, r.Retried)
		}
		c.mu.Lock()
		c.res[name] = r
		c.mu.Unlock()
		for _, u := range r.Used {
			c.enqueue(u)
		}
		for _, l := range r.UsedLem {
			c.enqueue("lemma " + l)
		}
	}()
}

// shares: how many workers verify a unit that is split into cases.
func (c *checker) shares(name string) int {
	ct := c.db.ByName[name]
	n := 1
	if ct != nil {
		for _, s := range ct.Splits {
			n *= len(s.Vals)
		}
	}
	if n <= 3 {
		return 1
	}
	return (n + 3) / 4
}

// add merges the result of another share of the same unit.
func (r *unitRes) add(o *unitRes) {
	r.Total += o.Total
	r.Proved += o.Proved
	for k, n := range o.BySolver {
		if r.BySolver == nil {
			r.BySolver = map[string]int{}
		}
		r.BySolver[k] += n
	}
	for k, n := range o.Kinds {
		if r.Kinds == nil {
			r.Kinds = map[string]int{}
		}
		r.Kinds[k] += n
	}
	r.SolverMs += o.SolverMs
	r.WallMs += o.WallMs
	r.Paths += o.Paths
	r.Splits += o.Splits
	r.Exits += o.Exits
	r.Dead += o.Dead
	r.Invs += o.Invs
	union := func(a, b []string) []string {
		m := map[string]bool{}
		for _, x := range append(append([]string{}, a...), b...) {
			m[x] = true
		}
		return sortedKeys(m)
	}
	r.Used, r.UsedLem = union(r.Used, o.Used), union(r.UsedLem, o.UsedLem)
	r.Trusted, r.Inlined = union(r.Trusted, o.Trusted), union(r.Inlined, o.Inlined)
	r.Fails = append(r.Fails, o.Fails...)
	r.Retried = r.Retried || o.Retried
	if r.Crash == "" {
		r.Crash = o.Crash
	}
}

func (c *checker) attempts(name, share string) *unitRes {
	r := c.unit(name, 4, 40, share)
	if len(r.Fails) > 0 || r.Crash != "" {
		// once more with more time before this counts
		first := r
		if !exists(c.stop) && time.Now().Before(c.end.Add(-20*time.Second)) {
			r = c.unit(name, 15, 90, share)
		}
		r.Retried = true
		if r.Crash != "" && first.Crash == "" {
			r = first
		}
	}
	return r
}

func (c *checker) unit(name string, quick, full int, share string) *unitRes {
	end := time.Now().Add(600 * time.Second)
	if end.After(c.end) {
		end = c.end
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Until(end)+60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.self, "-repo", repoDir, "-unit", name, "-q", strconv.Itoa(quick), "-t", strconv.Itoa(full), "-share", share)
	cmd.ExtraFiles = []*os.File{c.jobR, c.jobW}
	cmd.Env = append(os.Environ(), "GOV_JOBS=1", "GOGC=200", fmt.Sprintf("GOV_DEADLINE=%d", end.Unix()), "GOV_STOP="+c.stop)
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	err := cmd.Run()
	r := &unitRes{}
	if err != nil || json.Unmarshal(out.Bytes(), r) != nil {
		msg := strings.TrimSpace(er.String())
		if len(msg) > 2000 {
			msg = msg[:2000]
		}
		return &unitRes{Name: name, Crash: fmt.Sprintf("%v %s", err, msg), Fails: []oblRes{{Kind: "verifier", Desc: "the verifier did not finish: " + fmt.Sprint(err), Status: "unknown"}}}
	}
	return r
}

// ---- harness ----

type harnessRes struct {
	State  string // none, ok, fail, unavailable
	Output string
	Cmd    string
	Notes  []string // lines starting with "COVERED "
	Cases  int      // the last "CASES " line
	Dist   int
	Shown  []string
}

func harnessDir(id string) string { return verifDir + "/harness/" + strings.ToLower(id) }

func runHarness(id, tier, seed string) *harnessRes {
	dir := harnessDir(id)
	fs, _ := filepath.Glob(dir + "/*.go")
	if len(fs) == 0 {
		return &harnessRes{State: "none"}
	}
	repl := map[string]string{}
	target := ""
	for _, f := range fs {
		b, _ := ioutil.ReadFile(f)
		t := "internal/zzverif/" + strings.ToLower(id)
		if l := strings.SplitN(string(b), "\n", 2)[0]; strings.HasPrefix(l, "//verif:dir ") {
			t = strings.TrimSpace(strings.TrimPrefix(l, "//verif:dir "))
		}
		target = t
		repl[repoDir+"/"+t+"/zzverif_"+filepath.Base(f)] = f
	}
	for _, lib := range []string{"hutil", "cm"} {
		hs, _ := filepath.Glob(verifDir + "/harness/" + lib + "/*.go")
		for _, f := range hs {
			repl[repoDir+"/internal/zzverif/"+lib+"/"+filepath.Base(f)] = f
		}
	}
	tmp, err := ioutil.TempDir("", "gov-harness")
	if err != nil {
		return &harnessRes{State: "unavailable", Output: err.Error()}
	}
	defer os.RemoveAll(tmp)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ioutil.WriteFile(tmp+"/overlay.json", ov, 0644)
	to := "150s"
	if tier == "thorough" {
		to = "600s"
	}
	args := []string{"test", "-c", "-overlay", tmp + "/overlay.json", "-vet=off", "-o", tmp + "/harness.test", "./" + target}
	cmd := exec.Command("go", args...)
	if p := "/opt/veriftools/go1.24.13/bin/go"; exists(p) {
		cmd.Path = p
	}
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return &harnessRes{State: "unavailable", Output: string(b)}
	}
	cmd = exec.Command(tmp+"/harness.test", "-test.v", "-test.timeout", to)
	cmd.Dir = tmp
	cmd.Env = append(goEnv(), "VERIF_SEED="+seed, "VERIF_TIER="+tier, "VERIF_SCRATCH="+tmp)
	b, err = cmd.CombinedOutput()
	s := string(b)
	r := &harnessRes{Output: s, Cmd: "go " + strings.Join(args, " "), State: "ok"}
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "COVERED "); i >= 0 {
			r.Notes = append(r.Notes, strings.TrimSpace(l[i+8:]))
		}
		if i := strings.Index(l, "CASES "); i >= 0 {
			fmt.Sscanf(l[i:], "CASES %d %d", &r.Cases, &r.Dist)
		}
		if i := strings.Index(l, "SAMPLE "); i >= 0 {
			r.Shown = append(r.Shown, strings.TrimSpace(l[i+7:]))
		}
	}
	if err != nil {
		r.State = "fail"
	}
	return r
}

func onlyHarness(id string) int {
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	h := runHarness(id, os.Getenv("VERIF_TIER"), seed)
	fmt.Println(h.Output)
	fmt.Println(h.State)
	return 0
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

// ---- the check ----

func knownFindings(id string) []string {
	b, _ := ioutil.ReadFile(verifDir + "/known-findings.txt")
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" ") {
			out = append(out, strings.TrimPrefix(l, "known: property="+id+" "))
		}
	}
	return out
}

func runCheck(id string) int {
	t0 := time.Now()
	tier, seed := os.Getenv("VERIF_TIER"), os.Getenv("VERIF_SEED")
	if tier != "thorough" {
		tier = "quick"
	}
	if seed == "" {
		seed = "1"
	}
	db, err := loadSpecs(verifDir + "/contracts")
	if err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	self, _ := os.Executable()
	c := &checker{id: id, db: db, self: self, res: map[string]*unitRes{}, trust: map[string]bool{}, slots: make(chan struct{}, 7)}
	c.jobR, c.jobW, err = os.Pipe()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c.jobW.Write(bytes.Repeat([]byte{1}, 8))
	hch := make(chan *harnessRes, 1)
	c.end = t0.Add(740 * time.Second)
	tmp, err := ioutil.TempDir("", "gov-check")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	c.stop = tmp + "/stop"
	go func() {
		h := runHarness(id, tier, seed)
		hch <- h
		if h.State == "fail" { // the violation is established; a little longer for the obligation that shows it
			time.Sleep(20 * time.Second)
			ioutil.WriteFile(c.stop, nil, 0644)
		}
	}()
	var roots []string
	for _, n := range db.LemmaOrd {
		if hasTag(db.Lemmas[n].Props, id) {
			roots = append(roots, "lemma "+n)
		}
	}
	for _, n := range db.Order {
		if hasTag(db.ByName[n].Props, id) && db.ByName[n].Trusted == "" {
			roots = append(roots, n)
		}
	}
	for _, n := range roots {
		c.enqueue(n)
	}
	c.wg.Wait()
	h := <-hch
	names := []string{}
	for n := range c.res {
		names = append(names, n)
	}
	sort.Strings(names)
	total, proved := 0, 0
	var ms int64
	by := map[string]int{}
	kinds := map[string]int{}
	trusted := map[string]bool{}
	var units, absent []map[string]interface{}
	var fails []string
	var failTxt strings.Builder
	fn, lem, loops, paths := 0, 0, 0, 0
	for _, n := range names {
		r := c.res[n]
		if r.Absent {
			absent = append(absent, map[string]interface{}{"contract": n})
			if exportedFn(n) && hasTag(db.ByName[n].Props, id) {
				fails = append(fails, n+": the function this contract is about is not there")
			}
			continue
		}
		total += r.Total
		proved += r.Proved
		ms += r.SolverMs
		loops += r.Invs
		paths += r.Paths
		for k, v := range r.BySolver {
			by[k] += v
		}
		for k, v := range r.Kinds {
			kinds[k] += v
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		if strings.HasPrefix(n, "lemma ") {
			lem++
		} else {
			fn++
		}
		u := map[string]interface{}{"unit": n, "obligations": r.Total, "discharged": r.Proved, "cases": r.Splits, "solver_ms": r.SolverMs, "wall_ms": r.WallMs}
		if len(r.Inlined) > 0 {
			u["bodies_included"] = r.Inlined
		}
		if r.Retried {
			u["retried"] = true
		}
		units = append(units, u)
		for _, f := range r.Fails {
			fails = append(fails, fmt.Sprintf("%s: %s %s [%s %s]", n, f.Kind, f.Desc, f.Status, f.Pos))
			fmt.Fprintf(&failTxt, "--- %s\n    obligation: %s: %s\n    at: %s\n    verifier: %s %s\n    values: %s\n", n, f.Kind, f.Desc, f.Pos, f.Status, f.Solver, f.Model)
			if failTxt.Len() < 400000 && f.Script != "" {
				fmt.Fprintf(&failTxt, "    query:\n%s\n", f.Script)
			}
		}
		if r.Crash != "" {
			fmt.Fprintf(&failTxt, "--- %s crashed: %s\n", n, r.Crash)
		}
	}
	for n := range c.trust {
		why := "assumed contract"
		if ct := db.ByName[n]; ct != nil {
			why = ct.Trusted
		}
		trusted["assumed contract of "+n+": "+why] = true
	}
	viol := 0
	if len(fails) > 0 || h.State == "fail" {
		viol = 1
	}
	for _, a := range db.Assumes[id] {
		trusted["assumption: "+a] = true
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": proved, "checker_cmd": "/verif/check.sh " + id,
		"trusted_base":             append(sortedKeys(trusted), "the verifier itself (/verif/tool: Go SSA to SMT-LIB), go/ssa, z3 and cvc5"),
		"discharged_by":            by,
		"obligation_kinds":         kinds,
		"solver_ms":                ms,
		"functions_under_contract": fn, "lemmas": lem, "loop_invariants": loops, "paths": paths,
		"units": units, "contracts_without_function": absent,
	}
	if h.State != "none" {
		cov["bounded_complement"] = map[string]interface{}{"what": "test harness run against the real code (sampled, not part of the proof; searches for failing inputs)", "state": h.State, "covered": h.Notes}
	}
	if len(fails) > 0 {
		cov["failed_obligations"] = fails
	}
	sd, _ := strconv.Atoi(seed)
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": sd, "level": "proof", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": append([]string{}, sortedKeys(trusted)...)}
	bounded := total == 0 && len(fails) == 0 && h.Cases > 0
	if bounded {
		// no function of this property is within the verifier's reach: a bounded check stands in
		ev["level"] = "exploration"
		cov = map[string]interface{}{"evaluations": h.Cases, "distinct_nontrivial": h.Dist, "samples": h.Shown, "covered": h.Notes, "state": h.State,
			"rule": "bounded check standing in for contracts: pseudo-random cases from VERIF_SEED run against the real code and compared with an independent account of the property; a case counts as non-trivial if it reaches more than one part of what the property is about (see DESIGN.md), and as distinct by its description"}
		ev["coverage"] = cov
	} else if total == 0 {
		ev["level"] = "other"
		cov["explanation"] = "no unit of this property could be verified"
	}
	os.MkdirAll(verifDir+"/evidence", 0755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	ioutil.WriteFile(verifDir+"/evidence/"+id+".json", append(eb, '\n'), 0644)
	fmt.Printf("%s: %d functions and %d lemmas, %d/%d obligations discharged, solver %.1fs, wall %.1fs; harness %s\n", id, fn, lem, proved, total, float64(ms)/1000, time.Since(t0).Seconds(), h.State)
	for _, n := range h.Notes {
		fmt.Println("  harness covered", n)
	}
	for _, k := range knownFindings(id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if viol == 0 {
		if bounded && h.State == "ok" {
			fmt.Printf("%s: bounded check only, %d cases (%d distinct and non-trivial)\n", id, h.Cases, h.Dist)
			return 0
		}
		if fn == 0 {
			fmt.Println("nothing to verify for", id)
			return 2
		}
		return 0
	}
	for i, f := range fails {
		if i == 12 {
			fmt.Printf("  ... and %d more\n", len(fails)-i)
			break
		}
		fmt.Println("  failed:", f)
	}
	os.MkdirAll(verifDir+"/replay", 0755)
	rp := verifDir + "/replay/" + id + ".txt"
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s, seed %s, tier %s\n", id, seed, tier)
	if h.State == "fail" {
		fmt.Fprintf(&sb, "\nFAILING INPUT, run against the code in %s (replay: VERIF_SEED=%s /verif/check.sh %s):\n%s\n", repoDir, seed, id, h.Output)
		for _, l := range strings.Split(h.Output, "\n") {
			if strings.Contains(l, "FAILING INPUT") || strings.HasPrefix(l, "panic:") {
				fmt.Println("  " + strings.TrimSpace(l))
			}
		}
	}
	if len(fails) > 0 {
		fmt.Fprintf(&sb, "\nFAILED OBLIGATIONS (%d):\n%s\n\n%s\n", len(fails), strings.Join(fails, "\n"), failTxt.String())
	}
	if h.State != "fail" {
		fmt.Fprintf(&sb, "\nharness (%s) found no failing input:\n%s\n", h.State, h.Output)
	}
	ioutil.WriteFile(rp, []byte(sb.String()), 0644)
	if h.State == "fail" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
	}
	return 1
}

// exportedFn: the last name of the contract's function is exported.
func exportedFn(n string) bool {
	if strings.Contains(n, "$") {
		return false
	}
	i := strings.LastIndexAny(n, ".")
	s := n[i+1:]
	return s != "" && s[0] >= 'A' && s[0] <= 'Z'
}
