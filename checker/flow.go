package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

// fnInfo holds the loop structure and liveness of a function
type fnInfo struct {
	body  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> natural loop
	exits map[*ssa.BasicBlock][]*ssa.BasicBlock        // block ending in an If that can leave these loops
	ctl   map[*ssa.BasicBlock]*ssa.BasicBlock          // header -> the header itself when it controls the loop
	live  map[*ssa.BasicBlock][]ssa.Value              // header -> values live after its phis
}

func (ip *Interp) fnInfo(fn *ssa.Function) *fnInfo {
	if i := ip.info[fn]; i != nil {
		return i
	}
	i := &fnInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, exits: map[*ssa.BasicBlock][]*ssa.BasicBlock{},
		ctl: map[*ssa.BasicBlock]*ssa.BasicBlock{}, live: map[*ssa.BasicBlock][]ssa.Value{}}
	ip.info[fn] = i
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m := i.body[s]
				if m == nil {
					m = map[*ssa.BasicBlock]bool{s: true}
					i.body[s] = m
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if m[x] {
						continue
					}
					m[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for h, m := range i.body {
		for b := range m {
			for _, s := range b.Succs {
				if !m[s] {
					i.exits[b] = append(i.exits[b], h)
					if b == h {
						i.ctl[h] = h
					}
					break
				}
			}
		}
	}
	// liveness
	n := len(fn.Blocks)
	use := make([]map[ssa.Value]bool, n)
	def := make([]map[ssa.Value]bool, n)
	phiUse := make([]map[ssa.Value]bool, n) // uses at the end of a block by phis of successors
	in := make([]map[ssa.Value]bool, n)     // live after phis
	out := make([]map[ssa.Value]bool, n)
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return true
		case ssa.Instruction:
			return true
		}
		return false
	}
	for k := range fn.Blocks {
		use[k], def[k], phiUse[k], in[k], out[k] = map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	for _, b := range fn.Blocks {
		for _, instr := range b.Instrs {
			if phi, ok := instr.(*ssa.Phi); ok {
				for j, e := range phi.Edges {
					if isReg(e) {
						phiUse[b.Preds[j].Index][e] = true
					}
				}
				continue
			}
			for _, op := range instr.Operands(nil) {
				if *op != nil && isReg(*op) && !def[b.Index][*op] {
					use[b.Index][*op] = true
				}
			}
			if v, ok := instr.(ssa.Value); ok {
				def[b.Index][v] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for k := n - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			for v := range phiUse[k] {
				if !out[k][v] {
					out[k][v] = true
					changed = true
				}
			}
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					// phis of s are defined on the edge
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					if !out[k][v] {
						out[k][v] = true
						changed = true
					}
				}
			}
			for v := range out[k] {
				if !def[k][v] && !in[k][v] {
					in[k][v] = true
					changed = true
				}
			}
			for v := range use[k] {
				if !in[k][v] {
					in[k][v] = true
					changed = true
				}
			}
		}
	}
	for h := range i.body {
		var vs []ssa.Value
		// in the order of definition, for determinism
		for _, p := range fn.Params {
			if in[h.Index][p] {
				vs = append(vs, p)
			}
		}
		for _, p := range fn.FreeVars {
			if in[h.Index][p] {
				vs = append(vs, p)
			}
		}
		for _, b := range fn.Blocks {
			for _, instr := range b.Instrs {
				if v, ok := instr.(ssa.Value); ok && in[h.Index][v] {
					vs = append(vs, v)
				}
			}
		}
		i.live[h] = vs
	}
	return i
}

type loopCtx struct {
	h        *ssa.BasicBlock
	baseObj  int
	baseSym  int
	heads    []*headState
	arrivals int
}

type headState struct {
	st    *State
	roots []Value
	gen   bool
}

type loopTrace struct {
	ctx                       *loopCtx
	iter                      int
	split, ctlSplit, envSplit bool
	head                      *headState
}

// goTo moves w to block to; nil when the trace is covered by what was explored already
func (ip *Interp) goTo(w *work, to *ssa.BasicBlock) *work {
	from := w.blk
	k := -1
	for j, p := range to.Preds {
		if p == from {
			k = j
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	n := 0
	for _, in := range to.Instrs {
		if _, ok := in.(*ssa.DebugRef); ok {
			n++
			continue
		}
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		phis = append(phis, p)
		vals = append(vals, ip.val(w.st, w.fr, p.Edges[k]))
	}
	for j, p := range phis {
		w.fr.regs[p] = vals[j]
		ip.visited[p] = true
	}
	w.blk, w.idx = to, n
	info := ip.fnInfo(w.fr.fn)
	body := info.body[to]
	if body == nil {
		return w
	}
	live := info.live[to]
	snap := func() *headState {
		roots := make([]Value, len(live))
		for j, v := range live {
			if _, ok := w.fr.regs[v]; ok {
				roots[j] = w.st.R(w.fr.regs[v])
			} else {
				roots[j] = Nil{}
			}
		}
		return &headState{st: w.st.clone(), roots: roots}
	}
	if !body[from] {
		ctx := &loopCtx{h: to, baseObj: ip.nextObj, baseSym: ip.nextSym}
		hs := snap()
		ctx.heads = append(ctx.heads, hs)
		w.fr.loops[to] = &loopTrace{ctx: ctx, head: hs}
		return w
	}
	lt := w.fr.loops[to]
	if lt == nil {
		ip.trouble["loop entered sideways in "+w.fr.fn.String()]++
		return nil
	}
	lt.iter++
	lt.ctx.arrivals++
	concrete := !lt.split
	if info.ctl[to] != nil {
		// the environment can take many turns: only a few are followed one by one
		concrete = !lt.ctlSplit && (!lt.envSplit || lt.iter < 4)
	}
	lt.split, lt.ctlSplit, lt.envSplit = false, false, false
	// inner loops start over
	for h := range w.fr.loops {
		if h != to && body[h] {
			delete(w.fr.loops, h)
		}
	}
	if concrete && lt.iter < 70 && !ip.noUnroll {
		lt.head = snap()
		return w
	}
	cur := snap()
	ctx := lt.ctx
	if debugLoops {
		fmt.Fprintf(os.Stderr, "LOOP %s b%d iter %d heads %d cons %d why %s\n", w.fr.fn.Name(), to.Index, lt.iter, len(ctx.heads), len(cur.st.cons), short(fmt.Sprint(coversWhy)))
		if os.Getenv("VERIF_LOOPS") == "2" {
			fmt.Fprintln(os.Stderr, cur.st.String())
			for j, v := range live {
				fmt.Fprintln(os.Stderr, "   reg", v.Name(), cur.roots[j].Key())
			}
		}
	}
	for _, h := range ctx.heads {
		if ip.covers(h, cur, ctx.baseSym, ctx.baseObj) {
			return nil
		}
	}
	if lt.iter == 1 {
		ctx.heads = append(ctx.heads, cur)
		lt.head = cur
		return w
	}
	strict := len(ctx.heads) < ip.maxLoop
	if len(ctx.heads) > 2*ip.maxLoop {
		ip.trouble["loop in "+w.fr.fn.String()+" does not stabilise"]++
		return nil
	}
	cands := []*headState{lt.head}
	for j := len(ctx.heads) - 1; j >= 0; j-- {
		if ctx.heads[j] != lt.head {
			cands = append(cands, ctx.heads[j])
		}
	}
	for _, prev := range cands {
		if !prev.gen {
			continue
		}
		if g := ip.relaxed(prev, cur, ctx.baseSym, ctx.baseObj, len(ctx.heads) < 12); g != nil {
			if debugLoops {
				fmt.Fprintln(os.Stderr, "   relaxed")
			}
			ctx.heads = append(ctx.heads, g)
			lt.head = g
			w.st = g.st.clone()
			for j, v := range live {
				w.fr.regs[v] = g.roots[j]
			}
			return w
		}
	}
	for _, prev := range cands {
		g := ip.generalise(prev, cur, ctx.baseSym, ctx.baseObj, strict)
		if g == nil {
			continue
		}
		// only useful when it really covers the new arrival
		covered := false
		for _, h := range ctx.heads {
			if ip.covers(h, g, ctx.baseSym, ctx.baseObj) {
				covered = true
			}
		}
		ctx.heads = append(ctx.heads, g)
		lt.head = g
		if covered {
			return nil
		}
		w.st = g.st.clone()
		for j, v := range live {
			w.fr.regs[v] = g.roots[j]
		}
		return w
	}
	ctx.heads = append(ctx.heads, cur)
	lt.head = cur
	return w
}

var debugLoops = os.Getenv("VERIF_LOOPS") != ""

// skippable finds the block a branch leads to either way when one of its sides does nothing on the way there
func (ip *Interp) skippable(b *ssa.BasicBlock) *ssa.BasicBlock {
	if ip.quietFn == nil {
		return nil
	}
	for i, t := range b.Succs {
		j := b.Succs[1-i]
		if len(t.Preds) != 1 || len(t.Succs) != 1 || t.Succs[0] != j || len(j.Instrs) == 0 {
			continue
		}
		if _, phi := j.Instrs[0].(*ssa.Phi); phi || !ip.effectFree(t) {
			continue
		}
		return j
	}
	return nil
}

func (ip *Interp) effectFree(b *ssa.BasicBlock) bool {
	local := map[ssa.Value]bool{}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.DebugRef, *ssa.Jump, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType:
		case *ssa.Alloc:
			local[x] = true
		case *ssa.IndexAddr:
			if !local[x.X] {
				return false
			}
			local[x] = true
		case *ssa.Slice:
			if !local[x.X] {
				return false
			}
			local[x] = true
		case *ssa.Store:
			if !local[x.Addr] {
				return false
			}
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.Global); !ok {
				return false
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || !ip.quietFn(f) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
