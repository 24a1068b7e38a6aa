package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// World is the module after its packages were initialised
type World struct {
	p  *Program
	ip *Interp
	st *State
}

func newWorld(p *Program) *World {
	w := freshWorld(p, func(ip *Interp) { quietLog(p, ip) })
	w.settle()
	return w
}

// quietLog makes log calls do nothing
func quietLog(p *Program, ip *Interp) {
	for _, n := range []string{"Trace", "Tracef", "Info", "Infof", "Error", "Errorf", "TraceBytes", "TraceBytesFromBuf"} {
		ip.hooks[p.mod+"/log."+n] = func(ip *Interp, st *State, c *Call) []Outcome { return one(st, nil) }
	}
}

// freshWorld is the module just after its packages were initialised
func freshWorld(p *Program, hooks func(ip *Interp)) *World {
	ip := newInterp(p)
	w := &World{p: p, ip: ip, st: newState()}
	hooks(ip)
	for _, k := range p.initOrder() {
		fn := k.Func("init")
		if fn == nil {
			continue
		}
		outs := ip.callFn(w.st, &Call{name: fnName(fn), fn: fn, res: types.NewTuple()}, nil)
		n := 0
		for _, o := range outs {
			if o.pan == nil {
				w.st = o.st
				n++
			}
		}
		if n != 1 {
			ip.trouble[fmt.Sprintf("init of %s ends in %d states", k.Pkg.Path(), n)]++
		}
	}
	return w
}

// settle makes variables that change at run time unknown
func (w *World) settle() {
	p, ip := w.p, w.ip
	// variables that change at run time are unknown
	for _, fn := range p.moduleFuncs() {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && p.isModule(g.Pkg.Pkg) {
						pt := ip.global(w.st, g)
						et := derefType(g.Type())
						ip.store(w.st, pt, wrapTyp(mkApp("var:"+g.String(), et)))
					}
				}
			}
		}
	}
	w.st.trace = nil
	ip.obls = map[string]*Obl{}
	ip.funcs = map[*ssa.Function]int{}
	ip.visited = map[ssa.Instruction]bool{}
}

// call interprets a call of a module function from state st
func (w *World) call(st *State, fn *ssa.Function, args ...Value) []Outcome {
	return w.ip.callFn(st, &Call{name: fnName(fn), fn: fn, args: args, pos: fn.Pos(), in: fn, res: fn.Signature.Results()}, nil)
}

// callMethodOf calls a method by name on a value of a concrete type
func (w *World) callMethodOf(st *State, t types.Type, recv Value, name string, args ...Value) []Outcome {
	fn := w.p.method(t, name)
	if fn == nil {
		w.ip.trouble["no method "+name+" on "+typeName(t)]++
		return nil
	}
	return w.call(st, fn, append([]Value{recv}, args...)...)
}

func trace(p *Program, st *State, max int) []string {
	var out []string
	for t := st.trace; t != nil && len(out) < max; t = t.prev {
		out = append([]string{fmt.Sprintf("%s: %s", p.pos(t.pos), strings.ReplaceAll(t.text, p.mod+"/", ""))}, out...)
	}
	return out
}
