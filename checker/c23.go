package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The library is silent, does not end the process and keeps secrets out of the log.

func init() {
	checks["C23"] = func(c *Ctx) {
		c.rule = "no function the exported API reaches refers to anything that ends the process or writes to the standard streams other than by the logger of the module; for each level that can be configured, and for none, each logging function is interpreted and writes only what that level asks for; a points-to and taint analysis of the whole module follows passwords and connection strings to the arguments of log calls"
		c.explain = "Reachability and points-to sets are found together, with functions and objects cloned per call string of length two; the dump of raw bytes is exempt."
		t := newTaint(c.p)
		k := &silence{c: c, t: t, p: c.p}
		k.levels()
		c.guarded(func() {
			t.run()
			k.complete = true
		})
		k.references()
		k.secrets()
		for _, f := range t.funs {
			c.scope[c.p.relName(f.fn)] = true
		}
		c.counts["functions_per_call_string"] = len(t.funs)
		c.counts["flow_nodes"] = len(t.nodes)
		c.counts["objects"] = len(t.order)
	}
}

type silence struct {
	c *Ctx
	t *taint
	p *Program
	// complete tells that every flow was followed
	complete bool
}

// what ends the process
func ends(name string) bool {
	switch name {
	case "os.Exit", "syscall.Exit", "syscall.Kill", "(*os.Process).Kill", "(*os.Process).Signal", "runtime.Goexit", "syscall.Exec", "runtime.Breakpoint", "syscall.Reboot":
		return true
	}
	return strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") || strings.HasPrefix(name, "(*log.Logger).Fatal") || strings.HasPrefix(name, "(*log.Logger).Panic")
}

// what writes to the standard streams
func writes(name string) bool {
	switch name {
	case "runtime/debug.PrintStack", "syscall.Write", "os.NewFile", "log.Output", "log.Default", "log.Writer", "log.SetOutput":
		return true
	}
	return strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "log.Print") || strings.HasPrefix(name, "log/slog.")
}

func isLoggerCall(name string) bool {
	return strings.HasPrefix(name, "(*log.Logger).") && isPrint(name)
}

// where is the place outside of the log package that a construct is reached from
func (k *silence) where(f *tfun, pos token.Pos) (string, token.Pos) {
	if k.t.inLog(f.fn) {
		for i := len(f.stack) - 1; i >= 0; i-- {
			s := k.t.sites[f.stack[i]]
			if !k.t.inLog(s.Parent()) {
				return k.p.relName(s.Parent()), s.Pos()
			}
		}
	}
	return k.p.relName(f.fn), pos
}

// recovers tells whether a function stops panics with a deferred function
func recovers(fn *ssa.Function) bool {
	if fn.Recover == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			g := d.Call.StaticCallee()
			if g == nil {
				return true
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (k *silence) references() {
	for _, key := range sortedKeys(k.t.funs) {
		f := k.t.funs[key]
		if !k.p.inModule(f.fn) {
			continue
		}
		inLog := k.t.inLog(f.fn)
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				k.c.counts["instructions_scanned"]++
				pos := in.Pos()
				say := func(kind, format string, a ...interface{}) {
					w, at := k.where(f, pos)
					k.c.decide(no, kind+" in "+w, at, nil, "%s", fmt.Sprintf(format, a...))
				}
				if p, ok := in.(*ssa.Panic); ok && p.Pos().IsValid() && !recovers(f.fn) {
					say("panic", "panics, which ends the process")
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := call.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
						say("output", "writes to the standard error with %s", bi.Name())
					}
				}
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						name := fnString(v)
						switch {
						case ends(name):
							say("termination", "%s ends the process", name)
						case writes(name):
							say("output", "%s writes to the standard streams", name)
						case !inLog && isLoggerCall(name):
							if !k.gated(in) {
								say("output", "%s writes whatever the level is", name)
							}
						case !inLog && name == k.p.mod+"/log.SetLevel", !inLog && strings.HasPrefix(name, "(*log.Logger).Set"):
							say("level", "%s changes what is logged", name)
						}
					case *ssa.Global:
						if v.Pkg == nil {
							continue
						}
						switch v.Pkg.Pkg.Path() {
						case "os":
							if (v.Name() == "Stdout" || v.Name() == "Stderr") && !(inLog && k.forLogger(in)) {
								say("output", "os.%s is used other than for the loggers", v.Name())
							}
						case "syscall":
							if v.Name() == "Stdout" || v.Name() == "Stderr" {
								say("output", "syscall.%s is used", v.Name())
							}
						case k.p.mod + "/log":
							if st, ok := in.(*ssa.Store); ok && st.Addr == v && !inLog {
								say("level", "%s is changed", v.Name())
							}
						}
					}
				}
			}
		}
		k.c.decide(yes, "references", f.fn.Pos(), nil, "")
	}
}

func (p *Program) inModule(fn *ssa.Function) bool {
	for fn.Pkg == nil && fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && p.isModule(fn.Pkg.Pkg)
}

// forLogger tells whether a stream that is loaded only goes to a logger
func (k *silence) forLogger(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MakeInterface, *ssa.ChangeInterface:
			if !k.forLogger(r) {
				return false
			}
		case *ssa.Call:
			if fn := x.Call.StaticCallee(); fn == nil || fnString(fn) != "log.New" && fnString(fn) != "(*log.Logger).SetOutput" && !(fn.Pkg != nil && fn.Pkg.Pkg.Path() == k.p.mod+"/log") {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// gated tells whether a call outside of the log package happens at its level only
func (k *silence) gated(in ssa.Instruction) bool {
	call, ok := in.(ssa.CallInstruction)
	if !ok || len(call.Common().Args) == 0 {
		return false
	}
	need := int64(-1)
	if u, ok := call.Common().Args[0].(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			need = k.level(strings.TrimSuffix(g.Name(), "Log") + "Level")
		}
	}
	if need < 0 {
		return false
	}
	for b := in.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 {
			continue
		}
		if low, ok := k.atLeast(br.Cond, d.Succs[0] == b); ok && low >= need {
			return true
		}
	}
	return false
}

// atLeast is the level a condition guarantees
func (k *silence) atLeast(cond ssa.Value, truth bool) (int64, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	op, x, y := b.Op, b.X, b.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL}[op]
	}
	if !truth {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.NEQ: token.EQL}[op]
	}
	n, ok := y.(*ssa.Const)
	call, isCall := x.(*ssa.Call)
	if !ok || !isCall || call.Call.StaticCallee() == nil || fnString(call.Call.StaticCallee()) != k.p.mod+"/log.GetLevel" {
		return 0, false
	}
	switch op {
	case token.GEQ, token.EQL:
		return n.Int64(), true
	case token.GTR:
		return n.Int64() + 1, true
	}
	return 0, false
}

func (k *silence) level(name string) int64 {
	pkg := k.p.pkg("log")
	if pkg == nil {
		return -1
	}
	n, ok := pkg.Members[name].(*ssa.NamedConst)
	if !ok {
		return -1
	}
	v, ok := constant.Int64Val(n.Value.Value)
	if !ok {
		return -1
	}
	return v
}

var levelNames = []string{"None", "Error", "Info", "Trace", "TraceBytes"}

// levels interprets each logging function at each level
func (k *silence) levels() {
	pkg := k.p.pkg("log")
	if pkg == nil || pkg.Func("SetLevel") == nil {
		k.c.decide(unknown, "log package", token.NoPos, nil, "there is no log package with SetLevel")
		return
	}
	for i := 1; i < len(levelNames); i++ {
		lo, hi := k.level(levelNames[i-1]+"Level"), k.level(levelNames[i]+"Level")
		if lo >= 0 && hi >= 0 {
			k.c.decide(triOf(lo < hi), "order of the levels", pkg.Func("SetLevel").Pos(), nil, "%sLevel is not below %sLevel", levelNames[i-1], levelNames[i])
		}
	}
	type setting struct {
		text  Value
		level int
	}
	settings := []setting{{nil, 0}}
	for i, n := range []string{"error", "info", "trace", "trace-bytes"} {
		settings = append(settings, setting{Str(n), i + 1}, setting{Str(strings.ToUpper(n)), i + 1})
	}
	settings = append(settings, setting{Str(""), 0}, setting{Str("none"), 0})
	for _, before := range []Value{nil, Str("trace-bytes"), Str("error")} {
		for _, s := range settings {
			if s.text == nil && before != nil {
				continue
			}
			before, s := before, s
			k.c.guarded(func() { k.atLevel(pkg, before, s.text, s.level) })
		}
	}
}

func (k *silence) atLevel(pkg *ssa.Package, before, text Value, level int) {
	var wrote func(c *Call)
	w := freshWorld(k.p, func(ip *Interp) {
		sink := func(ip *Interp, st *State, c *Call) []Outcome {
			if wrote != nil {
				wrote(c)
			}
			var vs []Value
			for i := 0; i < c.res.Len(); i++ {
				vs = append(vs, ip.zero(c.res.At(i).Type()))
			}
			if len(vs) == 0 {
				return one(st, nil)
			}
			return multi(st, vs...)
		}
		for _, n := range []string{"Print", "Printf", "Println", "Output"} {
			ip.hooks["(*log.Logger)."+n] = sink
			ip.hooks["log."+n] = sink
			ip.hooks["fmt."+n] = sink
			ip.hooks["fmt.F"+strings.ToLower(n)] = sink
		}
		for _, n := range []string{"Write", "WriteString"} {
			ip.hooks["(*os.File)."+n] = sink
		}
	})
	ip := w.ip
	states := []*State{w.st}
	for _, v := range []Value{before, text} {
		if v == nil {
			continue
		}
		var next []*State
		for _, st := range states {
			for _, o := range w.call(st, pkg.Func("SetLevel"), v) {
				if o.pan == nil {
					next = append(next, o.st)
				}
			}
		}
		states = next
	}
	what := "by default"
	if text != nil {
		what = fmt.Sprintf("with SetLevel(%s)", text.Key())
	}
	if before != nil {
		what += fmt.Sprintf(" after SetLevel(%s)", before.Key())
	}
	for _, name := range sortedKeys(pkg.Members) {
		fn, ok := pkg.Members[name].(*ssa.Function)
		if !ok || !token.IsExported(name) || strings.HasPrefix(name, "Fatal") || strings.HasPrefix(name, "Panic") || name == "SetLevel" || fn.Signature.Recv() != nil {
			continue
		}
		need, named := 1, false
		for i, l := range levelNames {
			if strings.HasPrefix(name, l) {
				need, named = i, true
			}
		}
		// functions that log, by their names and arguments
		logs := named && fn.Signature.Results().Len() == 0 && len(fn.Params) > 0
		written, surely := false, true
		for _, st := range states {
			st := st.clone()
			var args []Value
			for _, p := range fn.Params {
				args = append(args, ip.fresh(p.Name(), p.Type()))
			}
			bad := false
			var at token.Pos
			wrote = func(c *Call) {
				written = true
				if level < need {
					bad, at = true, c.pos
				}
			}
			for _, o := range w.call(st, fn, args...) {
				if o.pan == nil && len(o.st.notes) > 0 {
					surely = false
				}
			}
			wrote = nil
			k.c.decide(triOf(!bad), "log."+name+" writes above its level", at, nil, "%s, log.%s writes", what, name)
		}
		if logs && level >= need {
			t := triOf(written)
			if !written && !surely {
				t = unknown
			}
			k.c.decide(t, "log."+name+" is silent at its level", fn.Pos(), nil, "%s, log.%s writes nothing", what, name)
		}
	}
	k.c.covered(ip)
}

func (k *silence) secrets() {
	for _, key := range sortedKeys(k.t.sinks) {
		s := k.t.sinks[key]
		k.c.counts["log_calls"]++
		r := triOf(!s.sec)
		if r == yes && !k.complete {
			r = unknown
		}
		k.c.decide(r, "secret logged in "+s.where, s.pos, func() []string { return strings.Split(s.why, "\n") }, "a log call is passed a password, or text made from one")
		if !s.sec {
			k.c.sample("log call at %s in %s: no secret reaches it", k.p.pos(s.pos), s.where)
		}
	}
	if len(k.t.sinks) == 0 {
		k.c.sample("no log calls")
	}
}

var _ types.Type
