package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

var (
	flagRepo = flag.String("repo", "/repo", "repository")
	flagCtr  = flag.String("contracts", "/verif/contracts", "contract directory")
	flagDir  = flag.String("dir", "", "scratch directory")
	flagProp = flag.String("prop", "", "property")
	flagSecs = flag.Int("secs", 10, "solver seconds")
	flagV    = flag.Bool("v", false, "verbose")
)

func setup() (*Gen, *Config) {
	g, cfg, err := setupErr()
	if err != nil {
		fatal(err)
	}
	return g, cfg
}

func setupErr() (*Gen, *Config, error) {
	cfg, err := LoadContracts(*flagCtr)
	if err != nil {
		return nil, nil, err
	}
	fset := token.NewFileSet()
	pkgs, err := Load(*flagRepo, fset)
	if err != nil {
		return nil, nil, err
	}
	g := NewGen(cfg, pkgs, fset)
	if raw, err := os.ReadFile(filepath.Join(*flagCtr, "locals.json")); err == nil {
		_ = json.Unmarshal(raw, &g.pins)
	}
	return g, cfg, nil
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(3)
}

// split of the prelude around the generated module
func (c *Config) assemble(decls, job string) string {
	return c.Prelude + decls + pruneModules(c.Spec, job) + job
}

var modRe = regexp.MustCompile(`(?m)^module (\w+)`)
var useRe = regexp.MustCompile(`(?m)^\s*(?:use|clone)\s+(?:import\s+|export\s+)?(\w+)`)

// pruneModules keeps the specification modules which the job needs.
func pruneModules(spec, job string) string {
	at := modRe.FindAllStringSubmatchIndex(spec, -1)
	type mod struct{ name, text string }
	var ms []mod
	for i, m := range at {
		end := len(spec)
		if i+1 < len(at) {
			end = at[i+1][0]
		}
		ms = append(ms, mod{spec[m[2]:m[3]], spec[m[0]:end]})
	}
	need := map[string]bool{}
	mark := func(s string) {
		for _, u := range useRe.FindAllStringSubmatch(s, -1) {
			need[u[1]] = true
		}
	}
	mark(job)
	keep := make([]bool, len(ms))
	for i := len(ms) - 1; i >= 0; i-- {
		if need[ms[i].name] {
			keep[i] = true
			mark(ms[i].text)
		}
	}
	var b strings.Builder
	for i, m := range ms {
		if keep[i] {
			b.WriteString(m.text)
		}
	}
	return b.String()
}

// specModules lists the specification modules in the texts of units which
// have obligations of their own: lemmas and ghost functions.
func (c *Config) specModules(us []*Unit) []string {
	in := map[string]bool{}
	for _, u := range us {
		for _, m := range modRe.FindAllStringSubmatch(u.Text, -1) {
			in[m[1]] = true
		}
	}
	at := modRe.FindAllStringSubmatchIndex(c.Spec, -1)
	var r []string
	for i, m := range at {
		end := len(c.Spec)
		if i+1 < len(at) {
			end = at[i+1][0]
		}
		if n := c.Spec[m[2]:m[3]]; in[n] && provesRe.MatchString(c.Spec[m[0]:end]) {
			r = append(r, n)
		}
	}
	return r
}

var provesRe = regexp.MustCompile(`(?m)^  (?:let|lemma)\b`)

func splitInst(key string) (string, string) {
	if i := strings.Index(key, "<"); i >= 0 {
		return key[:i], strings.TrimSuffix(key[i+1:], ">")
	}
	return key, ""
}

// unit builds the verification unit of a function; nil if there is no such
// function in the current tree.
func (g *Gen) unit(key string) (*Unit, *FuncInfo) {
	name, inst := splitInst(key)
	fn := g.byKey[name]
	if fn == nil {
		return nil, nil
	}
	fi := g.Info(fn, inst)
	u := &Unit{Key: key, Mod: "Job", Hide: map[string]bool{}}
	for _, x := range g.cfg.Opaque {
		u.Hide[x] = true
	}
	if ct := fi.Contract; ct != nil {
		for _, x := range ct.Hide {
			u.Hide[x] = true
		}
		for _, x := range ct.Reveal {
			delete(u.Hide, x)
		}
	}
	if fi.Err != nil {
		u.Err = fi.Err.Error()
	}
	return u, fi
}

// Everything is translated before anything is rendered: the declarations are
// generated on demand.
func (g *Gen) units(keys []string) (us []*Unit, fis []*FuncInfo, missing []string) {
	for _, k := range keys {
		u, fi := g.unit(k)
		if u == nil {
			missing = append(missing, k)
			continue
		}
		us = append(us, u)
		fis = append(fis, fi)
	}
	g.configured()
	var jobs []string
	for i, u := range us {
		j := ""
		if u.Err == "" {
			j = g.tryJob(u, fis[i])
		}
		jobs = append(jobs, j)
	}
	d := g.Decls()
	for i, u := range us {
		if u.Err == "" {
			u.Text = g.cfg.assemble(d, jobs[i])
		}
	}
	return
}

// configured emits the declarations of every configured structure, which the
// specification modules may mention.
func (g *Gen) configured() {
	var ks []string
	for k := range g.cfg.Structs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(unsupported); !ok {
						panic(e)
					}
				}
			}()
			g.needRegion(k)
		}()
	}
}

func (g *Gen) tryJob(u *Unit, fi *FuncInfo) (s string) {
	defer func() {
		if e := recover(); e != nil {
			x, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			u.Err = x.msg
		}
	}()
	for _, c := range fi.Calls {
		if c.Err != nil && len(c.Params) == 0 {
			u.Err = c.Err.Error()
		}
	}
	return g.Job(fi)
}

// plan is the order in which the back ends get another try.
func plan(long int) [][2]interface{} {
	if os.Getenv("G2W_FAST") != "" { // while writing contracts
		return [][2]interface{}{{"cvc5-z", 4}, {"z3-new", 4}, {"z3", 4}}
	}
	return [][2]interface{}{{"cvc5-z", 5}, {"z3-nomb", 3}, {"cvc5", 4}, {"z3-new", 5}, {"z3", 10}, {"z3-nomb", 15}, {"cvc5", long}, {"z3-new", long}, {"z3", long}}
}

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fatal(fmt.Errorf("usage: go2why dump|prove|list|check"))
	}
	switch args[0] {
	case "list":
		g, _ := setup()
		var ks []string
		for k := range g.byKey {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			st := "-"
			if g.cfg.Contracts[k] != nil {
				st = "contract"
			}
			fmt.Println(k, st)
		}
	case "try":
		// translate everything, report what is unsupported
		g, _ := setup()
		var ks []string
		for k := range g.byKey {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fi := g.Info(g.byKey[k], "")
			if fi.Err != nil {
				fmt.Println(k, ":", fi.Err)
			}
		}
	case "dump":
		g, _ := setup()
		us, _, miss := g.units(args[1:])
		for _, u := range us {
			fmt.Println(u.Text)
			fmt.Println("(* error:", u.Err, "*)")
		}
		fmt.Println("(* missing:", miss, "*)")
	case "locals":
		g, cfg := setup()
		out := map[string][][2]string{}
		for k, ct := range cfg.Contracts {
			if ct.Extern {
				continue
			}
			name, inst := splitInst(k)
			if fn := g.byKey[name]; fn != nil {
				fi := g.Info(fn, inst)
				if len(fi.Locals) > 0 {
					out[k] = fi.Locals
				}
			}
		}
		raw, _ := json.MarshalIndent(out, "", " ")
		os.WriteFile(filepath.Join(*flagCtr, "locals.json"), append(raw, '\n'), 0o644)
	case "check":
		if len(args) != 5 {
			fatal(fmt.Errorf("check PROPERTY FALSIFIERS EVIDENCE REPLAYDIR"))
		}
		os.Exit(check(args[1], args[2], args[3], args[4]))
	case "smoke", "deepsmoke":
		g, _ := setup()
		keys := args[1:]
		_, fis, _ := g.units(keys)
		dir := *flagDir
		if dir == "" {
			dir, _ = os.MkdirTemp("", "go2why")
			defer os.RemoveAll(dir)
		}
		p, err := NewProver(dir)
		if err != nil {
			fatal(err)
		}
		for _, u := range g.smokeUnits(fis) {
			if args[0] == "deepsmoke" {
				p.DeepSmoke(u, *flagSecs)
			} else {
				p.SmokeTest(u, *flagSecs)
			}
			fmt.Println(u.Key, u.Smoke, u.Err)
		}
	case "prove":
		g, cfg := setup()
		keys := args[1:]
		if *flagProp != "" {
			keys = append(keys, g.closure(cfg.Props[*flagProp])...)
		}
		if len(keys) == 0 {
			for _, k := range cfg.Order {
				if ct := cfg.Contracts[k]; !ct.Extern && !ct.Trusted {
					keys = append(keys, k)
				}
			}
		}
		dir := *flagDir
		if dir == "" {
			dir, _ = os.MkdirTemp("", "go2why")
			defer os.RemoveAll(dir)
		}
		os.MkdirAll(dir, 0o755)
		p, err := NewProver(dir)
		if err != nil {
			fatal(err)
		}
		us, _, miss := g.units(keys)
		for _, k := range miss {
			us = append(us, g.lemmaUnit(k))
		}
		t := time.Now()
		hf := filepath.Join(*flagCtr, "hints.json")
		p.Hints = loadHints(hf)
		p.Prove(us, plan(*flagSecs), time.Now().Add(time.Hour))
		defer func() {
			for _, u := range us {
				if len(u.VCs) > 0 {
					for k := range p.Hints {
						if strings.HasPrefix(k, u.Key+" ") {
							delete(p.Hints, k)
						}
					}
				}
				for _, vc := range u.VCs {
					if vc.OK {
						if vc.By != "identity" && (vc.By != "z3-nomb" || vc.Last > 1) {
							p.Hints[u.Key+" "+filepath.Base(vc.File)] = vc.By
						}
					}
				}
			}
			raw, _ := json.MarshalIndent(p.Hints, "", " ")
			os.WriteFile(hf, append(raw, '\n'), 0o644)
		}()
		n, ok := 0, 0
		for _, u := range us {
			bad := 0
			var slow *VC
			for _, vc := range u.VCs {
				n++
				if vc.OK {
					ok++
				} else {
					bad++
				}
				if slow == nil || vc.Secs > slow.Secs {
					slow = vc
				}
			}
			st := "ok"
			if bad > 0 || u.Err != "" {
				st = "FAIL"
			}
			s := 0.0
			if slow != nil {
				s = slow.Secs
			}
			fmt.Printf("%-4s %-45s %d/%d slowest %.1fs\n", st, u.Key, len(u.VCs)-bad, len(u.VCs), s)
			if u.Err != "" {
				fmt.Println("     ", u.Err)
			}
			for _, vc := range u.VCs {
				if !vc.OK {
					u.describe(vc)
					fmt.Printf("      %s [%s] %s  %s\n", vc.Pos, vc.Name, vc.Expl, filepath.Base(vc.File))
					if *flagV {
						fmt.Println(vc.Output)
					}
				} else if *flagV && vc.Secs > 2 {
					u.describe(vc)
					fmt.Printf("      (slow %.1fs %s) %s %s\n", vc.Secs, vc.By, filepath.Base(vc.File), vc.Expl)
				}
			}
		}
		fmt.Printf("%d of %d obligations in %.1fs\n", ok, n, time.Since(t).Seconds())
		if *flagV {
			fmt.Fprintln(os.Stderr, p.Time)
		}
	}
}

// lemmaUnit proves a module of the specification itself.
func (g *Gen) lemmaUnit(mod string) *Unit {
	return &Unit{Key: mod, Mod: mod, Text: g.cfg.assemble(g.Decls(), "module Job\n  use "+mod+"\nend\n")}
}
