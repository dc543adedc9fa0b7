package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type LoopC struct {
	Inv     []string
	Variant string
}

// Contract is the specification of one function (or of a dependency).
type Contract struct {
	Key        string // "Reader.inputBitsFill", "writeStaticBlock<Writer>", "adler32.Update", ...
	Params     []string
	Sig        string // extern: full WhyML signature text after the name
	Extern     bool
	Diverges   bool
	SP         bool     // obligations by strongest postconditions
	Hide       []string // definitions which the obligations do not get
	Reveal     []string // those of cfg.Opaque which they get
	Trusted    bool
	Requires   []string
	Ensures    []string
	Writes     []string // trusted and extern only
	Loops      map[int]*LoopC
	Hooks      map[string][]string
	Uses       []string
	Returns    [][2]string
	GlobalVars [][3]string // Go global, WhyML name, initial value
	File       string
	Line       int
}

type GhostField struct{ Struct, Name, Type string }

type Config struct {
	Types     map[string][2]string // Go type -> WhyML type, zero value
	Structs   map[string][2]string // Go struct -> WhyML record, field prefix
	Regions   map[string]bool
	OptPtr    map[string]bool
	Drop      map[string]bool
	Ghost     []GhostField
	Contracts map[string]*Contract
	Props     map[string][]string // property -> function keys
	Lemmas    map[string][]string // property -> lemma modules
	Globals   map[string]string   // Go global -> WhyML term
	GhostFns  map[string][]string // ghost field -> ghost functions which write it
	Counters  map[string]bool     // fields whose arithmetic is taken not to wrap
	Opaque    []string            // definitions which are hidden unless revealed
	Prelude   string
	Spec      string
	Order     []string
}

var kw = regexp.MustCompile(`^\s*(requires|ensures|writes|loop|invariant|variant|hook|trusted|uses|globalvar|diverges|sp|hide|reveal|returns|end)\b\s*`)

func LoadContracts(dir string) (*Config, error) {
	c := &Config{Types: map[string][2]string{}, Structs: map[string][2]string{}, Regions: map[string]bool{}, OptPtr: map[string]bool{}, Drop: map[string]bool{},
		Contracts: map[string]*Contract{}, Props: map[string][]string{}, Lemmas: map[string][]string{}, Globals: map[string]string{}, Counters: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.ctr"))
	sort.Strings(files)
	for _, f := range files {
		raw, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := c.parse(f, string(raw)); err != nil {
			return nil, err
		}
	}
	files, _ = filepath.Glob(filepath.Join(dir, "*.mlw"))
	sort.Strings(files)
	for _, f := range files {
		raw, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if filepath.Base(f) < "10" {
			c.Prelude += string(raw) + "\n"
		} else {
			c.Spec += string(raw) + "\n"
		}
	}
	c.GhostFns = map[string][]string{}
	for _, m := range ghostFn.FindAllStringSubmatch(c.Spec, -1) {
		for _, f := range ghostField.FindAllStringSubmatch(m[2], -1) {
			c.GhostFns[f[1]] = append(c.GhostFns[f[1]], m[1])
		}
	}
	return c, nil
}

var (
	ghostFn    = regexp.MustCompile(`(?:val|let) ghost (\w+)[^{]*\n(?:\s+(?:requires|ensures|diverges)[^\n]*\n)*\s+writes \{([^}]*)\}`)
	ghostField = regexp.MustCompile(`\.(\w+)`)
)

func (c *Config) parse(file, text string) error {
	var cur *Contract
	var target *string
	var curLoop *LoopC
	var flush func()
	flush = func() {}
	set := func(p *string) { target = p }
	_ = set
	for n, line := range strings.Split(text, "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		w := strings.Fields(line)
		if cur == nil {
			switch w[0] {
			case "type":
				c.Types[w[1]] = [2]string{w[2], strings.Join(w[3:], " ")}
			case "struct":
				c.Structs[w[1]] = [2]string{w[2], w[3]}
			case "region":
				c.Structs[w[1]] = [2]string{w[2], w[3]}
				c.Regions[w[1]] = true
			case "optptr":
				c.OptPtr[w[1]] = true
			case "drop":
				c.Drop[w[1]] = true
			case "global":
				c.Globals[w[1]] = strings.Join(w[2:], " ")
			case "opaque":
				c.Opaque = append(c.Opaque, w[1:]...)
			case "counter":
				for _, x := range w[1:] {
					c.Counters[x] = true
				}
			case "ghostfield":
				c.Ghost = append(c.Ghost, GhostField{w[1], w[2], strings.Join(w[3:], " ")})
			case "property":
				id := strings.TrimSuffix(w[1], ":")
				for _, x := range w[2:] {
					c.Props[id] = append(c.Props[id], strings.TrimSuffix(x, ","))
				}
			case "lemmas":
				id := strings.TrimSuffix(w[1], ":")
				for _, x := range w[2:] {
					c.Lemmas[id] = append(c.Lemmas[id], strings.TrimSuffix(x, ","))
				}
			case "func", "extern":
				rest := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(line), w[0]))
				i := strings.Index(rest, "(")
				if i < 0 {
					return fmt.Errorf("%s:%d: bad header", file, n+1)
				}
				cur = &Contract{Key: strings.TrimSpace(rest[:i]), Loops: map[int]*LoopC{}, Hooks: map[string][]string{}, File: file, Line: n + 1}
				cur.Extern = w[0] == "extern"
				if cur.Extern {
					cur.Sig = rest[i:]
					cur.Trusted = true
				} else {
					j := strings.LastIndex(rest, ")")
					for _, p := range strings.Split(rest[i+1:j], ",") {
						if p = strings.TrimSpace(p); p != "" {
							cur.Params = append(cur.Params, p)
						}
					}
				}
				target = nil
			default:
				return fmt.Errorf("%s:%d: unknown directive %q", file, n+1, w[0])
			}
			continue
		}
		m := kw.FindStringSubmatch(line)
		if m == nil {
			if target == nil {
				return fmt.Errorf("%s:%d: continuation without clause", file, n+1)
			}
			*target += "\n" + line
			flush()
			continue
		}
		rest := line[len(m[0]):]
		flush = func() {}
		add := func(list *[]string) {
			*list = append(*list, rest)
			idx := len(*list) - 1
			s := rest
			target = &s
			flush = func() { (*list)[idx] = s }
		}
		switch m[1] {
		case "requires":
			add(&cur.Requires)
		case "ensures":
			add(&cur.Ensures)
		case "writes":
			for _, x := range strings.Split(rest, ",") {
				if x = strings.TrimSpace(x); x != "" {
					cur.Writes = append(cur.Writes, x)
				}
			}
			target = nil
		case "uses":
			cur.Uses = append(cur.Uses, strings.Fields(rest)...)
		case "globalvar":
			f := strings.Fields(rest)
			cur.GlobalVars = append(cur.GlobalVars, [3]string{f[0], f[1], strings.Join(f[2:], " ")})
		case "returns":
			for i, x := range strings.Split(rest, ",") {
				cur.Returns = append(cur.Returns, [2]string{strings.TrimSpace(x), fmt.Sprintf("result#%d", i)})
			}
			target = nil
		case "diverges":
			cur.Diverges = true
		case "hide":
			cur.Hide = append(cur.Hide, strings.Fields(rest)...)
			target = nil
		case "reveal":
			cur.Reveal = append(cur.Reveal, strings.Fields(rest)...)
			target = nil
		case "sp":
			cur.SP = true
			target = nil
		case "trusted":
			cur.Trusted = true
		case "loop":
			var k int
			fmt.Sscan(rest, &k)
			curLoop = &LoopC{}
			cur.Loops[k] = curLoop
			target = nil
		case "invariant":
			if curLoop == nil {
				return fmt.Errorf("%s:%d: invariant outside loop", file, n+1)
			}
			add(&curLoop.Inv)
		case "variant":
			if curLoop == nil {
				return fmt.Errorf("%s:%d: variant outside loop", file, n+1)
			}
			l := curLoop
			l.Variant = rest
			s := rest
			target = &s
			flush = func() { l.Variant = s }
		case "hook":
			i := strings.Index(rest, ":")
			if i < 0 {
				return fmt.Errorf("%s:%d: bad hook", file, n+1)
			}
			key := strings.Join(strings.Fields(rest[:i]), " ")
			body := strings.TrimSpace(rest[i+1:])
			cc := cur
			cc.Hooks[key] = append(cc.Hooks[key], body)
			idx := len(cc.Hooks[key]) - 1
			s := body
			target = &s
			flush = func() { cc.Hooks[key][idx] = s }
		case "end":
			for _, r := range cur.Returns {
				re := regexp.MustCompile(`(^|[^.\w])` + r[0] + `\b`)
				for i := range cur.Ensures {
					cur.Ensures[i] = re.ReplaceAllString(cur.Ensures[i], "${1}"+r[1])
				}
			}
			if _, dup := c.Contracts[cur.Key]; dup {
				return fmt.Errorf("%s:%d: duplicate contract %s", file, n+1, cur.Key)
			}
			c.Contracts[cur.Key] = cur
			c.Order = append(c.Order, cur.Key)
			cur, curLoop, target = nil, nil, nil
		}
	}
	if cur != nil {
		return fmt.Errorf("%s: %s has no end", file, cur.Key)
	}
	return nil
}
