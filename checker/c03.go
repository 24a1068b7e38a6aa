package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C03"] = checkC03 }

// isWire: a value whose dynamic type the sender chooses
func isWire(v Value) bool {
	return contains(v, func(x Value) bool {
		a, ok := x.(*App)
		return ok && a.op == "decv"
	})
}

func checkC03(c *Ctx) {
	c.rule = "the value decoder is interpreted on every marker followed by unknown, possibly missing bytes; no run-time panic, no unchecked allocation and no unchecked nesting is reachable, and a value is only returned if all it consists of was there and had the type it is used as"
	c.explain = "Obligations: every nil dereference, index, slice, type assertion and allocation size reached (per site and abstract state), every successful outcome, and the nesting counter at every recursive call."
	w := newWorld(c.p)
	ip := w.ip
	for _, cd := range w.encoders() {
		site := func(st *State, kind string, pos token.Pos, fn *ssa.Function, ok tri, detail string) {
			if kind == "lock" || kind == "unlock" {
				return
			}
			where := cd.name
			if fn != nil {
				where = c.p.relName(fn)
			}
			c.decide(ok, where+" "+kind+" "+detailKey(detail), pos, func() []string { return trace(c.p, st, 30) }, "%s: %s can fail on received bytes: %s", where, kind, detail)
		}
		ip.onObl, ip.fromInput = site, isWire
		ents := framing(c, w, cd)
		if len(ents) == 0 {
			c.decide(unknown, cd.name+" entry", cdPos(w, cd), nil, "%s: no call of a value decoder found", cd.name)
			continue
		}
		ent := ents[0]
		if ent.buf == nil {
			c.decide(unknown, cd.name+" buffer", cdPos(w, cd), nil, "%s: no message buffer found", cd.name)
			continue
		}
		ip.sizeHook = func(ip *Interp, st *State, n *Lin, pos token.Pos, fn *ssa.Function) {
			if n == nil || !inRepoFn(c.p, fn) {
				return
			}
			n = st.rlin(n)
			_, q := bufferOf(st, ent.buf)
			if q == nil {
				return
			}
			// proportional to what is left of the message or to what was decoded already
			t := yes
			for _, x := range n.ts {
				if isWire(x.a) || x.n.Sign() < 0 {
					continue
				}
				left := st.rlin(q.length())
				e := addLin(subLin(n, mulLin(left, bi(16))), num(-70000))
				if st.prove(e) {
					break
				}
				t = unknown
				if refutable(st, addLin(negLin(e), num(1))) {
					t = no
				}
				break
			}
			if n.isConst() && n.c.Cmp(bi(70000)) > 0 {
				t = no
			}
			c.decide(t, c.p.relName(fn)+" allocation", pos, func() []string { return trace(c.p, st, 30) }, "%s allocates %s elements while %s bytes of the message are left", c.p.relName(fn), n.Key(), st.rlin(q.length()).Key())
		}
		for m := -1; m < 256; m++ {
			ip.steps = 0
			st := ent.st.clone()
			body, base := rawInput(st, "body", nil)
			segs := []Seg{item(num(int64(m))), body}
			key := fmt.Sprintf("%s marker %02X", cd.name, m)
			if m < 0 {
				segs, key = nil, cd.name+" empty message"
			}
			if skipRun(key) {
				continue
			}
			progress("%s", key)
			for _, o := range w.decodeValue(ent, st, segs...) {
				c.counts["outcomes"]++
				tr := func() []string { return trace(c.p, o.st, 30) }
				pos := posOf(o)
				sure := func(t tri) tri {
					if t == no && len(o.st.notes) > 0 {
						return unknown
					}
					return t
				}
				if o.pan != nil {
					c.decide(sure(no), key+" panic", pos, tr, "%s: panics: %s", key, o.pan.Key())
					continue
				}
				vs := tupleOf(o)
				if o.st.truth(o.st.isNil(o.st.R(vs[1]))) != yes {
					continue
				}
				if m < 0 {
					c.decide(sure(no), key, pos, tr, "%s: an empty message is decoded as %s", cd.name, vs[0].Key())
					continue
				}
				c.decide(sure(triOf(!hasSym(o.st, "element error"))), key+" nested error lost", pos, tr, "%s: a value is returned although a nested value could not be decoded", key)
				// fixed size fields have to be there
				if wd := fieldWidth(m); wd > 0 {
					t := decideLE(o.st, num(int64(wd)), lenVal(base))
					c.decide(sure(t), key+" truncated", pos, tr, "%s: decoded although the %d byte field after the marker may be missing", key, wd)
				}
				bad := mistyped(o.st, vs[0])
				c.decide(sure(triOf(bad == "")), key+" mistyped", pos, tr, "%s: a value is returned although %s has another type than the one it is used as", key, bad)
			}
		}
		nesting(c, w, cd, ent)
		ip.onObl, ip.fromInput, ip.sizeHook = nil, nil, nil
	}
	c.covered(ip)
}

func detailKey(d string) string {
	if len(d) > 0 {
		return ""
	}
	return ""
}

func inRepoFn(p *Program, fn *ssa.Function) bool {
	return fn != nil && fn.Pkg != nil && p.isModule(fn.Pkg.Pkg)
}

func bufferOf(st *State, p *Ptr) (*Ext, *SeqV) {
	o := st.heap[p.obj]
	if o == nil {
		return nil, nil
	}
	e, ok := st.R(o.val).(*Ext)
	if !ok || e.kind != "buffer" {
		return nil, nil
	}
	q, _ := st.R(e.vs[0]).(*SeqV)
	if q == nil {
		return e, nil
	}
	return e, st.normSeq(q)
}

// fieldWidth is the size of the value or size field after a marker
func fieldWidth(m int) int {
	switch m {
	case 0xc1, 0xcb:
		return 8
	case 0xc8, 0xcc, 0xd0, 0xd4, 0xd8, 0xdc:
		return 1
	case 0xc9, 0xcd, 0xd1, 0xd5, 0xd9, 0xdd:
		return 2
	case 0xca, 0xce, 0xd2, 0xd6, 0xda:
		return 4
	}
	return 0
}

// mistyped finds a received value that failed every type test but did not stop the decoding
func mistyped(st *State, result Value) string {
	for _, k := range sortedKeys(st.bind) {
		e := st.bind[k]
		a, ok := e.term.(*App)
		if !ok || !strings.HasPrefix(a.op, "is:") {
			continue
		}
		if b, ok := e.val.(Bool); !ok || bool(b) || !isWire(a.args[0]) {
			continue
		}
		v := a.args[0]
		typed := false
		for _, f := range st.bind {
			if x, ok := f.term.(*App); ok && strings.HasPrefix(x.op, "is:") && same(x.args[0], v) {
				if b, ok := f.val.(Bool); ok && bool(b) {
					typed = true
				}
			}
		}
		if _, ok := st.R(v).(*Iface); ok {
			typed = true
		}
		if typed || reaches(st, result, v) {
			continue
		}
		return v.Key()
	}
	return ""
}

// reaches tells whether a value is part of a result
func reaches(st *State, r, v Value) bool {
	seen := map[int]bool{}
	found := false
	var visit func(x Value)
	visit = func(x Value) {
		walkVal(st.R(x), func(y Value) {
			if y.Key() == v.Key() {
				found = true
			}
			id := -1
			switch z := y.(type) {
			case *Ptr:
				id = z.obj
			case *Slice:
				id = z.obj
			case *MapV:
				id = z.obj
			}
			if id > 0 && !seen[id] {
				seen[id] = true
				if o := st.heap[id]; o != nil {
					visit(o.val)
				}
			}
		})
	}
	visit(r)
	return found
}

// leaf is a place of an integer reachable from the arguments of a call
type leaf struct {
	arg  int
	path string
	val  *Lin
	set  func(st *State, args []Value, v Value)
}

func leaves(st *State, args []Value) []leaf {
	var out []leaf
	for k := range args {
		k := k
		var walk func(v Value, path string, d int, put func(st *State, args []Value, x Value))
		walk = func(v Value, path string, d int, put func(st *State, args []Value, x Value)) {
			v = st.R(v)
			if l, ok := v.(*Lin); ok {
				out = append(out, leaf{k, path, l, put})
				return
			}
			if d > 4 {
				return
			}
			switch x := v.(type) {
			case *Struct:
				for j, f := range x.f {
					j := j
					walk(f, fmt.Sprintf("%s.%d", path, j), d+1, func(st *State, args []Value, y Value) {
						n := &Struct{typ: x.typ, f: append([]Value(nil), x.f...)}
						n.f[j] = y
						put(st, args, n)
					})
				}
			case *Ptr:
				if len(x.path) == 0 && st.heap[x.obj] != nil {
					walk(st.heap[x.obj].val, path+"*", d+1, func(st *State, args []Value, y Value) {
						o := *st.heap[x.obj]
						o.val = y
						st.setObj(x.obj, &o)
					})
				}
			case *Iface:
				walk(x.v, path, d+1, func(st *State, args []Value, y Value) { put(st, args, &Iface{typ: x.typ, v: y}) })
			}
		}
		walk(args[k], fmt.Sprint(k), 0, func(st *State, args []Value, x Value) { args[k] = x })
	}
	return out
}

// nesting checks that a counter bounds the recursion of the value decoder
func nesting(c *Ctx, w *World, cd *codec, ent decEntry) {
	ip := w.ip
	key := cd.name + " nesting"
	type call struct {
		st   *State
		args []Value
		pos  token.Pos
		in   *ssa.Function
	}
	collect := func(st *State, args []Value, marker int) []call {
		var out []call
		hook := func(ip *Interp, s *State, cl *Call, outer stackEnt) []Outcome {
			if cl.fn == ent.fn {
				out = append(out, call{s.clone(), append([]Value(nil), cl.args...), cl.pos, cl.in})
			}
			return decRecursion(ip, s, cl, outer)
		}
		st.setG("dec.n", num(0))
		body, _ := rawInput(st, "body", nil)
		ip.bufSet(st, ent.buf, mkSeq(tByte, item(num(int64(marker))), body))
		ip.recursion = hook
		cl := *ent.call
		cl.args = args
		ip.steps = 0
		ip.callFn(st, &cl, nil)
		ip.recursion = nil
		return out
	}
	save := ip.onObl
	ip.onObl = nil
	defer func() { ip.onObl = save }()
	// which integers change from one level to the next
	base := leaves(ent.st, ent.args)
	calls := collect(ent.st.clone(), append([]Value(nil), ent.args...), 0x92)
	if len(calls) == 0 {
		c.decide(unknown, key, cdPos(w, cd), nil, "%s: no recursive call found", cd.name)
		return
	}
	counter := ""
	up := false
	var lf leaf
	for _, b := range base {
		for _, l := range leaves(calls[0].st, calls[0].args) {
			if l.path == b.path && l.val.isConst() && b.val.isConst() && l.val.c.Cmp(b.val.c) != 0 {
				counter, lf = b.path, b
				up = l.val.c.Cmp(b.val.c) > 0
			}
		}
	}
	if counter == "" {
		c.decide(no, key, calls[0].pos, func() []string { return trace(c.p, calls[0].st, 20) }, "%s: nothing counts how deep values are nested, so a message can exhaust the stack", cd.name)
		return
	}
	for _, m := range []int{0x91, 0x92, 0xa1, 0xb1, 0xb2, 0xb3, 0xb5, 0xb8, 0xd4, 0xd8, 0xdc, 0xb4} {
		st := ent.st.clone()
		args := append([]Value(nil), ent.args...)
		d := ip.fresh("depth", tInt)
		lf.set(st, args, d)
		for _, cl := range collect(st, args, m) {
			for _, l := range leaves(cl.st, cl.args) {
				if l.path != counter {
					continue
				}
				lo, hi := cl.st.rangeOf(cl.st.rlin(l.val))
				ok := hi != nil && hi.Cmp(bi(200000)) <= 0
				if !up {
					ok = lo != nil && lo.Cmp(bi(-200000)) >= 0
				}
				// and it moves
				moved := up && cl.st.proveLT(asLin(d), l.val) || !up && cl.st.proveLT(l.val, asLin(d))
				where := c.p.relName(cl.in)
				c.decide(triOf(ok && moved), key+" "+where, cl.pos, func() []string { return trace(c.p, cl.st, 20) }, "%s: the nesting of values decoded by %s is not bounded (counter %s in %v..%v)", cd.name, where, l.val.Key(), lo, hi)
			}
		}
	}
}
