package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"go/token"
)

// Finding is a decided violation of a property
type Finding struct {
	key   string // identifies the construct, independent of line numbers
	pos   string
	msg   string
	trace []string
	// bare findings are not about one execution: they hold only if nothing the analysis has no model of was called
	bare bool
}

// Ctx collects what a check decided
type Ctx struct {
	p         *Program
	id        string
	findings  map[string]*Finding
	order     []string
	held      int
	undecided map[string]int
	counts    map[string]int
	scope     map[string]bool
	samples   []string
	rule      string
	explain   string
	// blind: the analysis came across calls it has no model of
	blind bool
}

func newCtx(p *Program, id string) *Ctx {
	return &Ctx{p: p, id: id, findings: map[string]*Finding{}, undecided: map[string]int{}, counts: map[string]int{}, scope: map[string]bool{}}
}

// violation records a decided violation
func (c *Ctx) violation(key string, pos token.Pos, tr []string, format string, a ...interface{}) {
	if c.findings[key] != nil {
		return
	}
	c.findings[key] = &Finding{key: key, pos: c.p.pos(pos), msg: fmt.Sprintf(format, a...), trace: tr}
	c.order = append(c.order, key)
}

// decide records the answer to an obligation
func (c *Ctx) decide(t tri, key string, pos token.Pos, tr func() []string, format string, a ...interface{}) {
	c.counts["obligations"]++
	switch t {
	case yes:
		c.held++
	case no:
		var l []string
		if tr != nil {
			l = tr()
		}
		fresh := c.findings[key] == nil
		c.violation(key, pos, l, format, a...)
		if fresh && tr == nil {
			c.findings[key].bare = true
		}
	default:
		c.undecided[key+": "+short(fmt.Sprintf(format, a...))]++
	}
}

func (c *Ctx) sample(format string, a ...interface{}) {
	t := short(fmt.Sprintf(format, a...))
	for _, s := range c.samples {
		if s == t {
			return
		}
	}
	if len(c.samples) < 60 {
		c.samples = append(c.samples, t)
	}
}

// note what an interpreter covered
func (c *Ctx) covered(ip *Interp) {
	for fn := range ip.funcs {
		c.scope[c.p.relName(fn)] = true
	}
	c.counts["instructions_interpreted"] += ip.steps
	for k, n := range ip.trouble {
		c.undecided["analysis: "+k] += n
	}
	for k, n := range ip.unhandled {
		c.undecided["no model of "+k] += n
		c.blind = true
	}
}

type knownEnt struct{ prop, key, text string }

func readKnown(dir string) []knownEnt {
	b, _ := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	var out []knownEnt
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		var e knownEnt
		if i := strings.Index(l, " | "); i >= 0 {
			e.text = l[i+3:]
			l = l[:i]
		}
		for _, f := range strings.Fields(l) {
			if strings.HasPrefix(f, "property=") {
				e.prop = f[9:]
			}
			if strings.HasPrefix(f, "key=") {
				e.key = f[4:]
			}
		}
		out = append(out, e)
	}
	return out
}

func (e knownEnt) is(prop, key string) bool {
	return e.prop == prop && e.key == strings.ReplaceAll(key, " ", "_")
}

func (c *Ctx) isKnown(key string) bool {
	for _, e := range readKnown(verifDir()) {
		if e.is(c.id, key) {
			return true
		}
	}
	return false
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func (c *Ctx) finish(dir string, start time.Time) int {
	known := readKnown(dir)
	var real []*Finding
	matched := map[string]bool{}
	for _, k := range c.order {
		f := c.findings[k]
		if f.bare && c.blind {
			c.undecided[f.key+": "+short(f.msg)]++
			continue
		}
		hit := false
		for _, e := range known {
			if e.is(c.id, f.key) {
				hit = true
				if !matched[e.key] {
					matched[e.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, e.text, e.key)
				}
			}
		}
		if !hit {
			real = append(real, f)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	und := 0
	for _, n := range c.undecided {
		und += n
	}
	cov := map[string]interface{}{
		"explanation":       c.explain,
		"rule":              c.rule,
		"obligations":       c.counts["obligations"],
		"held":              c.held,
		"undecided":         und,
		"undecided_items":   c.undecided,
		"functions":         len(c.scope),
		"functions_list":    sortedKeys(c.scope),
		"known_findings":    sortedKeys(matched),
		"samples":           c.samples,
		"violations":        len(real),
		"abstract_counters": c.counts,
	}
	ev := map[string]interface{}{"property": c.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(start).Seconds()}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", c.id+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	replay := filepath.Join(dir, "evidence", c.id+".violation.txt")
	os.Remove(replay)
	fmt.Printf("%s: %d obligations, %d held, %d undecided, %d functions, %.1fs\n", c.id, c.counts["obligations"], c.held, und, len(c.scope), time.Since(start).Seconds())
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, k := range sortedKeys(c.undecided) {
			fmt.Println("  undecided", c.undecided[k], k)
		}
	}
	if len(real) == 0 {
		return 0
	}
	var s strings.Builder
	for _, f := range real {
		fmt.Fprintf(&s, "%s: %s\n  construct: %s\n", f.pos, f.msg, f.key)
		for _, l := range f.trace {
			fmt.Fprintf(&s, "    %s\n", l)
		}
	}
	os.WriteFile(replay, []byte(s.String()), 0o644)
	txt := s.String()
	if len(txt) > 6000 {
		txt = txt[:6000] + "...\n"
	}
	fmt.Print(txt)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return 1
}

var checks = map[string]func(c *Ctx){}

// guarded runs f; giving up or an internal error makes what was left undecided
func (c *Ctx) guarded(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetErr); ok {
				c.undecided["analysis: "+b.msg]++
				return
			}
			if os.Getenv("VERIF_PANIC") != "" {
				panic(r)
			}
			c.undecided["analysis: internal error: "+short(fmt.Sprint(r))]++
		}
	}()
	f()
}

// merge takes over what was found by a part of the check that ran on its own
func (c *Ctx) merge(s *Ctx) {
	for _, k := range s.order {
		if c.findings[k] == nil {
			c.findings[k] = s.findings[k]
			c.order = append(c.order, k)
		}
	}
	c.held += s.held
	c.blind = c.blind || s.blind
	for k, n := range s.undecided {
		c.undecided[k] += n
	}
	for k, n := range s.counts {
		c.counts[k] += n
	}
	for k := range s.scope {
		c.scope[k] = true
	}
	for _, x := range s.samples {
		c.sample("%s", x)
	}
}

// the analysis ends by itself before it is ended; what it did not get to is undecided
const (
	timeBudget = 720 * time.Second
	heapBudget = 16 << 30
)

var outOfBudget atomic.Bool

func checkBudget() {
	if outOfBudget.Load() {
		panic(budgetErr{"time or memory exhausted"})
	}
}

func runCheck(id, repo, dir string) (code int) {
	start := time.Now()
	f := checks[id]
	if f == nil {
		fmt.Println("no check", id)
		return 2
	}
	p, err := load(repo)
	if err != nil {
		fmt.Println("cannot load", repo, err)
		return 2
	}
	c := newCtx(p, id)
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if time.Since(start) > timeBudget || m.HeapAlloc > heapBudget {
				outOfBudget.Store(true)
			}
			// whatever does not look at the budget
			if time.Since(start) > timeBudget+90*time.Second {
				os.Exit(c.finish(dir, start))
			}
		}
	}()
	c.guarded(func() { f(c) })
	close(done)
	outOfBudget.Store(false)
	return c.finish(dir, start)
}

func keysOf(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
