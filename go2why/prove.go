package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// VC is one proof obligation.
type VC struct {
	Key    string // function or lemma module
	Name   string // stable name
	Expl   string
	Pos    string // Go position
	File   string // SMT-LIB file (z3 flavour)
	OK     bool
	By     string
	Secs   float64
	Last   float64 // the time of the successful attempt
	Output string
}

type Unit struct {
	Key   string
	Text  string // complete WhyML file
	Mod   string // module to prove
	Err   string
	VCs   []*VC
	Smoke string          // "", "ok", "vacuous"
	Hide  map[string]bool // definitions to leave out
	dir   string
	lines []string
}

type Prover struct {
	Dir  string
	Conf string
	mu   sync.Mutex
	Time map[string]float64
	sem  chan bool
	// Hints name the back end which discharged an obligation before: it is
	// only tried first.
	Hints map[string]string
}

const why3Conf = `[main]
magic = 14
memlimit = 4000
running_provers_max = 8
timelimit = 10.0

[partial_prover]
name = "CVC5"
path = "/usr/bin/cvc5"
version = "1.1.2"

[partial_prover]
name = "Z3"
path = "/usr/bin/z3"
version = "4.8.12"
`

func NewProver(dir string) (*Prover, error) {
	p := &Prover{Dir: dir, Conf: filepath.Join(dir, "why3.conf"), Time: map[string]float64{}}
	p.sem = make(chan bool, runtime.NumCPU())
	return p, os.WriteFile(p.Conf, []byte(why3Conf), 0o644)
}

func run(timeout time.Duration, dir string, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	return out.String(), err
}

var goalRe = regexp.MustCompile(`(?m)^;; Goal "(.*)"$`)
var fileRe = regexp.MustCompile(`(?m)^;; File "(.*)", line (\d+), characters`)
var atRe = regexp.MustCompile(`\(\* @(\S+) \*\)`)

func safeName(s string) string {
	return strings.NewReplacer("<", "_", ">", "", ".", "_", " ", "_", "*", "").Replace(s)
}

// Generate writes the obligations of a unit.
func (p *Prover) Generate(u *Unit, prover string, split bool) ([]string, error) {
	dir := filepath.Join(p.Dir, safeName(u.Key)+"."+prover)
	if !split {
		dir += ".smoke"
	}
	_ = os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	f := filepath.Join(dir, "u.mlw")
	if err := os.WriteFile(f, []byte(u.Text), 0o644); err != nil {
		return nil, err
	}
	args := []string{"prove", "-C", p.Conf, "-D", prover, "-o", dir}
	if split {
		args = append(args, "-a", "split_vc")
	}
	args = append(args, "u.mlw", "-T", u.Mod)
	p.sem <- true
	out, err := run(240*time.Second, dir, "why3", args...)
	<-p.sem
	if err != nil {
		return nil, fmt.Errorf("why3: %v\n%s", err, warnRe.ReplaceAllString(out, ""))
	}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.smt2"))
	sort.Slice(fs, func(i, j int) bool {
		if len(fs[i]) != len(fs[j]) {
			return len(fs[i]) < len(fs[j])
		}
		return fs[i] < fs[j]
	})
	pss, errs := make([][]string, len(fs)), make([]error, len(fs))
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func(i int, f string) {
			defer wg.Done()
			p.sem <- true
			defer func() { <-p.sem }()
			errs[i] = simplifyFile(f)
			if !split {
				pss[i] = []string{f} // kept whole: one part proved says nothing
				return
			}
			if errs[i] == nil {
				pss[i], errs[i] = reduceFile(f, u.Hide)
			}
		}(i, f)
	}
	wg.Wait()
	var parts []string // after reduction
	for i := range fs {
		if errs[i] != nil {
			return nil, errs[i]
		}
		parts = append(parts, pss[i]...)
	}
	u.dir = dir
	return parts, nil
}

var warnRe = regexp.MustCompile(`(?m)^Warning,.*\n`)

var exRe = regexp.MustCompile(`\[@expl:([^\]]*)\]`)

func startsWith(file, s string) bool {
	f, err := os.Open(file)
	if err != nil {
		return false
	}
	defer f.Close()
	b := make([]byte, len(s))
	n, _ := io.ReadFull(f, b)
	return n == len(s) && string(b) == s
}

// describe finds where an obligation comes from.
func (u *Unit) describe(vc *VC) {
	raw, _ := os.ReadFile(vc.File)
	if m := goalRe.FindSubmatch(raw); m != nil {
		vc.Name = string(m[1])
	}
	if u.lines == nil {
		u.lines = strings.Split(u.Text, "\n")
	}
	if ms := fileRe.FindAllSubmatch(raw, -1); ms != nil {
		m := ms[len(ms)-1]
		n, _ := strconv.Atoi(string(m[2]))
		if n >= 1 && n <= len(u.lines) {
			vc.Expl = strings.TrimSpace(u.lines[n-1])
			if x := exRe.FindStringSubmatch(vc.Expl); x != nil {
				vc.Expl = x[1] + ": " + vc.Expl
			}
			for i := n - 1; i >= 0; i-- {
				if strings.HasPrefix(u.lines[i], "module ") {
					break
				}
				if x := atRe.FindStringSubmatch(u.lines[i]); x != nil {
					vc.Pos = x[1]
					break
				}
			}
		}
	}

}

type solver struct {
	name  string
	args  func(secs int, file string) []string
	flav  string
	limit int
}

func solverCmd(name string, secs int, file string) []string {
	switch name {
	case "z3":
		return []string{"z3", "-T:" + strconv.Itoa(secs), "-memory:3000", file}
	case "z3-new":
		return []string{"z3-new", "-T:" + strconv.Itoa(secs), "-memory:3000", file}
	case "z3-nomb":
		return []string{"z3-new", "-T:" + strconv.Itoa(secs), "-memory:3000", "smt.auto_config=false", "smt.mbqi=false", file}
	case "cvc5":
		return []string{"cvc5", "--tlimit=" + strconv.Itoa(secs*1000), file}
	case "cvc5-z": // on the z3 file
		return []string{"cvc5", "--tlimit=" + strconv.Itoa(secs*1000), file}
	case "cvc5-e":
		return []string{"cvc5", "--tlimit=" + strconv.Itoa(secs*1000), "--enum-inst", file}
	}
	return nil
}

func (p *Prover) solve(vc *VC, name string, secs int, file string) bool {
	a := solverCmd(name, secs, file)
	p.sem <- true
	t := time.Now()
	out, _ := run(time.Duration(secs+5)*time.Second, p.Dir, a[0], a[1:]...)
	d := time.Since(t).Seconds()
	<-p.sem
	p.mu.Lock()
	p.Time[name] += d
	p.mu.Unlock()
	vc.Secs += d
	first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
	if first == "unsat" {
		vc.OK = true
		vc.Last = d
		vc.By = name
		return true
	}
	vc.Output += fmt.Sprintf("%s (%ds): %s\n", name, secs, first)
	return false
}

// Prove discharges the obligations of all units.
func (p *Prover) Prove(units []*Unit, plan [][2]interface{}, deadline time.Time) {
	var wg sync.WaitGroup
	for _, u := range units {
		if u.Err != "" {
			continue
		}
		wg.Add(1)
		go func(u *Unit) {
			defer wg.Done()
			fs, err := p.Generate(u, "z3", true)
			if err != nil {
				u.Err = err.Error()
				return
			}
			for _, f := range fs {
				u.VCs = append(u.VCs, &VC{Key: u.Key, File: f})
			}
			var w2 sync.WaitGroup
			for _, vc := range u.VCs {
				w2.Add(1)
				go func(vc *VC) {
					defer w2.Done()
					if startsWith(vc.File, isHyp) {
						vc.OK, vc.By = true, "identity"
						return
					}
					switch p.Hints[u.Key+" "+filepath.Base(vc.File)] {
					case "z3", "z3-new", "z3-nomb", "cvc5-z":
						p.solve(vc, p.Hints[u.Key+" "+filepath.Base(vc.File)], 20, vc.File)
					case "cvc5":
					default:
						p.solve(vc, "z3-nomb", 3, vc.File)
					}
				}(vc)
			}
			w2.Wait()
			p.harder(u, plan, deadline)
		}(u)
	}
	wg.Wait()
}

func (p *Prover) harder(u *Unit, plan [][2]interface{}, deadline time.Time) {
	left := func() (n int) {
		for _, vc := range u.VCs {
			if !vc.OK {
				n++
			}
		}
		return
	}
	if left() == 0 {
		return
	}
	cfs, err := p.Generate(u, "cvc5", true)
	if err != nil {
		cfs = nil
	}
	byName := map[string]string{}
	for _, f := range cfs {
		byName[filepath.Base(f)] = f
	}
	var wg sync.WaitGroup
	for _, vc := range u.VCs {
		if vc.OK {
			continue
		}
		wg.Add(1)
		go func(vc *VC) {
			defer wg.Done()
			pl := plan
			if p.Hints[u.Key+" "+filepath.Base(vc.File)] == "cvc5" {
				pl = append([][2]interface{}{{"cvc5", 20}, {"z3", 2}}, plan...)
			}
			for _, st := range pl {
				name, secs := st[0].(string), st[1].(int)
				if time.Now().After(deadline) {
					vc.Output += "out of time\n"
					return
				}
				f := vc.File
				if name == "cvc5" || name == "cvc5-e" {
					f = byName[filepath.Base(vc.File)]
					if f == "" {
						continue
					}
				}
				if p.solve(vc, name, secs, f) {
					return
				}
			}
		}(vc)
	}
	wg.Wait()
}

// SmokeTest tries to prove false at the end of a function: success means that
// the contracts are contradictory and everything proved is vacuous.
func (p *Prover) SmokeTest(u *Unit, secs int) {
	fs, err := p.Generate(u, "z3", false)
	if err != nil || len(fs) == 0 {
		u.Smoke = "error"
		if err != nil {
			u.Err = err.Error()
		}
		return
	}
	u.Smoke = "ok"
	for _, f := range fs {
		vc := &VC{Key: u.Key, File: f}
		if p.solve(vc, "z3", secs, f) {
			u.Smoke = "vacuous"
		}
	}
}

// DeepSmoke is SmokeTest path by path: it reports a function when false is
// proved at the end of every one of its paths.
func (p *Prover) DeepSmoke(u *Unit, secs int) {
	fs, err := p.Generate(u, "z3", true)
	if err != nil {
		u.Smoke, u.Err = "error", err.Error()
		return
	}
	n, bad := 0, 0
	for _, f := range fs {
		raw, _ := os.ReadFile(f)
		if !falseGoal(string(raw)) {
			continue
		}
		n++
		if p.solve(&VC{Key: u.Key, File: f}, "z3", secs, f) {
			bad++
		}
	}
	u.Smoke = fmt.Sprintf("%d of %d paths", bad, n)
	if n == bad {
		u.Smoke = "vacuous: " + u.Smoke
	}
}

func falseGoal(s string) bool {
	for _, g := range []string{"(assert (not false))", "(assert\n  (not false))", "(assert true)"} {
		if strings.Contains(s, g) {
			return true
		}
	}
	return false
}
