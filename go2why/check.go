package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type failRep struct{ Prop, Msg, Replay string }

type fzReport struct {
	Cases, Distinct, NonTriv int64
	Kinds                    map[string]int64
	Samples                  []string
	Fails                    []failRep
}

// closure adds the contracted callees of the given functions. The contract of
// a key which is written with a minus is taken over from the check which
// proves it.
func (g *Gen) closure(keys []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, k := range keys {
		if strings.HasPrefix(k, "-") {
			seen[k[1:]] = true
		}
	}
	var add func(k string)
	add = func(k string) {
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, k)
		name, inst := splitInst(k)
		fn := g.byKey[name]
		if fn == nil {
			return
		}
		fi := g.Info(fn, inst)
		var ks []string
		for c, ci := range fi.Calls {
			if ci.Contract != nil && !ci.Contract.Trusted {
				ks = append(ks, c)
			}
		}
		sort.Strings(ks)
		for _, c := range ks {
			add(c)
		}
	}
	for _, k := range keys {
		if !strings.HasPrefix(k, "-") {
			add(k)
		}
	}
	return out
}

// takenOver tells which other checks prove the contracts which the check of a
// property takes over.
func (g *Gen) takenOver(prop string, props map[string][]string) (l []string, err error) {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, k := range props[prop] {
		if !strings.HasPrefix(k, "-") || g.byKey[k[1:]] == nil {
			continue
		}
		by := ""
		for _, id := range ids {
			if by != "" {
				break
			}
			for _, x := range g.closure(props[id]) {
				if x == k[1:] {
					by = id
				}
			}
		}
		if by == "" {
			return nil, fmt.Errorf("%s is not proved by any check", k[1:])
		}
		l = append(l, "contract proved by the check of "+by+": "+k[1:])
	}
	return l, nil
}

func runFalsifier(bin, prop string, seed int64, secs int, dir string) (*fzReport, error) {
	out, err := run(time.Duration(secs+180)*time.Second, dir, bin, "-prop", prop, "-secs", fmt.Sprint(secs), "-seed", fmt.Sprint(seed), "-out", dir)
	i := strings.LastIndex(strings.TrimSpace(out), "\n")
	var r fzReport
	if e := json.Unmarshal([]byte(out[i+1:]), &r); e != nil {
		return nil, fmt.Errorf("%v %v: %s", err, e, out)
	}
	// An outcome of the machine rather than of the code (a worker which was
	// killed, or starved for long) has to happen again when replayed.
	var keep []failRep
	for _, f := range r.Fails {
		if strings.HasPrefix(f.Msg, "the process died") && !strings.Contains(f.Msg, "panic") && !strings.Contains(f.Msg, "data race") && !strings.Contains(f.Msg, "fatal error") {
			again := false
			for k := 0; k < 3 && !again; k++ {
				o, e := run(60*time.Second, dir, bin, "-mode", "replay", "-file", f.Replay, "-prop", prop)
				again = e != nil && !strings.Contains(o, "signal: killed")
			}
			if !again {
				continue
			}
		}
		keep = append(keep, f)
	}
	r.Fails = keep
	return &r, nil
}

func (r *fzReport) merge(o *fzReport) *fzReport {
	if r == nil {
		return o
	}
	if o == nil {
		return r
	}
	r.Cases += o.Cases
	r.Distinct += o.Distinct
	r.NonTriv += o.NonTriv
	for k, v := range o.Kinds {
		r.Kinds[k] += v
	}
	r.Fails = append(r.Fails, o.Fails...)
	return r
}

func check(prop, fz, evidence, replays string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	dir, err := os.MkdirTemp("", "g2w")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(replays, 0o777)

	var problems []string // what failed to be proved
	var outputs []string
	nObl, nOK, nFun := 0, 0, 0
	var units []*Unit
	var fis []*FuncInfo
	var missing []string
	byBack := map[string]int{}
	var p *Prover
	var g *Gen
	var cfg *Config
	var smokes []*Unit
	var lemmas, over []string
	prove := func() {
		defer func() {
			if e := recover(); e != nil {
				problems = append(problems, fmt.Sprintf("translation failed: %v", e))
			}
		}()
		g, cfg, err = setupErr()
		if err != nil {
			problems = append(problems, "the source could not be loaded: "+err.Error())
			return
		}
		p, err = NewProver(dir)
		if err != nil {
			fatal(err)
		}
		p.Hints = loadHints(filepath.Join(*flagCtr, "hints.json"))
		keys := g.closure(cfg.Props[prop])
		units, fis, missing = g.units(keys)
		if over, err = g.takenOver(prop, cfg.Props); err != nil {
			problems = append(problems, err.Error())
		}
		nFun = len(units)
		smokes = g.smokeUnits(fis)
		seen := map[string]bool{}
		for _, l := range append(append([]string{}, cfg.Lemmas[prop]...), cfg.specModules(units)...) {
			if !seen[l] {
				seen[l] = true
				lemmas = append(lemmas, l)
				units = append(units, g.lemmaUnit(l))
			}
		}
		deadline := time.Now().Add(540 * time.Second)
		long := 30
		if tier == "thorough" {
			deadline = time.Now().Add(40 * time.Minute)
			long = 120
		}
		var wg sync.WaitGroup
		for _, u := range smokes {
			wg.Add(1)
			go func(u *Unit) {
				defer wg.Done()
				p.SmokeTest(u, 2)
			}(u)
		}
		p.Prove(units, plan(long), deadline)
		wg.Wait()
		for _, u := range units {
			if u.Err != "" {
				nObl++
				problems = append(problems, u.Key+": not translated: "+u.Err)
				continue
			}
			if len(u.VCs) == 0 {
				nObl++
				problems = append(problems, u.Key+": no obligations generated")
			}
			for _, vc := range u.VCs {
				nObl++
				if vc.OK {
					nOK++
					byBack[vc.By]++
					continue
				}
				u.describe(vc)
				problems = append(problems, fmt.Sprintf("%s: %s %s: %s", u.Key, vc.Pos, vc.Name, vc.Expl))
				raw, _ := os.ReadFile(vc.File)
				if len(raw) > 200000 {
					raw = raw[:200000]
				}
				if len(outputs) < 5 {
					outputs = append(outputs, vc.Output+"\n"+string(raw))
				}
			}
		}
		for _, u := range smokes {
			if u.Smoke == "vacuous" {
				problems = append(problems, u.Key+": its contract and assumptions are contradictory")
			}
		}
		if 2*len(missing) > nFun+len(missing) {
			problems = append(problems, "most of the functions under contract are gone: "+strings.Join(missing, " "))
		}
	}
	prove()
	if len(cfg0(cfg).Props[prop]) == 0 && len(problems) == 0 {
		problems = append(problems, "no contracts for "+prop)
	}

	// The search for a failing input.
	secs := 10
	if len(problems) > 0 {
		secs = 40
	}
	if tier == "thorough" {
		secs = 300
	}
	var rep *fzReport
	var fzErr string
	bins := strings.Split(fz, ",")
	for i, b := range bins {
		r, err := runFalsifier(b, prop, seed+int64(1000*i), secs/len(bins)+1, replays)
		if err != nil {
			fzErr = err.Error()
			continue
		}
		rep = rep.merge(r)
	}
	if rep == nil {
		fmt.Println("the search for failing inputs did not run:", fzErr)
		problems = append(problems, "the search for failing inputs did not run: "+fzErr)
		rep = &fzReport{}
	}

	// Evidence
	tb := []string{
		"go2why: the translation of the Go source in /repo to WhyML, redone on every run (slices as values, pointers as values or regions; see DESIGN.md)",
		"Why3 1.6.0 verification conditions; Z3 4.8.12, Z3 (z3-new) and CVC5 1.1.2 as back ends",
		"axioms of contracts/00base.mlw on integers, bit operations and sequences",
	}
	var funs []string
	ext := map[string]bool{}
	for _, fi := range fis {
		funs = append(funs, fi.Key)
		for k := range fi.Externs {
			ext["assumed contract: "+k] = true
		}
		for k, c := range fi.Calls {
			if c.Contract != nil && c.Contract.Trusted {
				ext["assumed contract: "+k] = true
			}
		}
	}
	var exts []string
	for k := range ext {
		exts = append(exts, k)
	}
	sort.Strings(exts)
	tb = append(tb, exts...)
	tb = append(tb, over...)
	times := map[string]float64{}
	if p != nil {
		times = p.Time
	}
	nv := len(rep.Fails)
	if nv == 0 && len(problems) > 0 {
		nv = 1
	}
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nOK,
		"checker_cmd":                "bash /verif/check.sh " + prop,
		"trusted_base":               tb,
		"functions_under_contract":   funs,
		"functions_not_in_this_tree": missing,
		"lemma_modules":              lemmas,
		"vacuity_checks":             len(smokes),
		"discharged_by":              byBack,
		"solver_seconds":             times,
		"evaluations":                rep.Cases,
		"distinct_nontrivial":        rep.NonTriv,
		"rule":                       "bounded stand-in, never counted as proved: inputs generated from the seed, run against the real package and compared with an independent oracle; non-trivial: distinct and with a non-empty input or at least one operation",
		"samples":                    rep.Samples,
		"kinds":                      rep.Kinds,
		"unproved":                   problems,
	}
	level, note := manifestLevel(prop)
	if level == "other" {
		cov["explanation"] = note
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": nv,
		"assumptions": []string{
			"slices have value semantics in the proof: aliasing between a slice and its backing array is not modelled beyond what the contracts say",
			"machine integers wrap as in Go; the 64-bit byte counters are taken not to overflow",
			"the search with concrete inputs is bounded: it covers the goroutine hand-off, assembly and dependencies which the contracts assume",
		},
	}
	raw, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(evidence), 0o777)
	os.WriteFile(evidence, append(raw, '\n'), 0o666)

	fmt.Printf("%s: %d functions and %d lemma modules under contract, %d of %d obligations discharged; %d cases searched; %.0f s\n", prop, nFun, len(lemmas), nOK, nObl, rep.Cases, time.Since(start).Seconds())
	for _, x := range problems {
		fmt.Println("  unproved:", x)
	}
	for _, f := range rep.Fails {
		fmt.Println("  failing input:", strings.SplitN(f.Msg, "\n", 2)[0])
	}
	if len(rep.Fails) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rep.Fails[0].Replay)
		return 1
	}
	if len(problems) > 0 {
		f := filepath.Join(replays, prop+"-obligation.json")
		raw, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "failed_obligations": problems, "solver_output": outputs, "how_to_replay": "bash /verif/check.sh " + prop}, "", " ")
		os.WriteFile(f, raw, 0o666)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, f)
		return 1
	}
	return 0
}

func cfg0(c *Config) *Config {
	if c == nil {
		return &Config{}
	}
	return c
}

func loadHints(f string) map[string]string {
	h := map[string]string{}
	if raw, err := os.ReadFile(f); err == nil {
		_ = json.Unmarshal(raw, &h)
	}
	return h
}

// smokeUnits builds, for each function, a copy whose postcondition is false.
// It must not be provable.
func (g *Gen) smokeUnits(fis []*FuncInfo) []*Unit {
	var us []*Unit
	d := g.Decls()
	for _, fi := range fis {
		if fi.Err != nil {
			continue
		}
		ct := Contract{}
		if fi.Contract != nil {
			ct = *fi.Contract
		}
		ct.Ensures = []string{"false"}
		cp := *fi
		cp.Contract = &ct
		u := &Unit{Key: fi.Key, Mod: "Job"}
		j := g.tryJob(u, &cp)
		if u.Err == "" {
			u.Text = g.cfg.assemble(d, j)
			us = append(us, u)
		}
	}
	return us
}

// manifestLevel finds the level and the note which MANIFEST.json gives.
func manifestLevel(prop string) (string, string) {
	var m struct {
		Checks []struct {
			Property, Level string
			Note            string `json:"level_note"`
		}
	}
	if raw, err := os.ReadFile(filepath.Join(filepath.Dir(strings.TrimRight(*flagCtr, "/")), "MANIFEST.json")); err == nil {
		_ = json.Unmarshal(raw, &m)
	}
	for _, c := range m.Checks {
		if c.Property == prop {
			return c.Level, c.Note
		}
	}
	return "proof", ""
}
