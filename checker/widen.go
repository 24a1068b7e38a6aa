package main

import (
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// This file holds the two operations on loop heads and histories: anti-unification of two
// abstract states (the widening) and one way matching (the inclusion test).

type linPair struct{ p, c, r *Lin }

type auCtx struct {
	ip               *Interp
	p, c, out        *State
	baseSym, baseObj int
	strict           bool
	memo             map[string]Value
	lins             []linPair // pairs that got their own symbol
	all              []linPair
	t                *Lin // shared iteration counter
	objs             map[[2]int]int
	queue            [][2]int
	depth            int
	conflict         bool
	roots            []Value
}

// generalise computes a state above prev and cur; nil when they differ in kind
func (ip *Interp) generalise(prev, cur *headState, baseSym, baseObj int, strict bool) *headState {
	x := &auCtx{ip: ip, p: prev.st, c: cur.st, out: newState(), baseSym: baseSym, baseObj: baseObj, strict: strict, memo: map[string]Value{}, objs: map[[2]int]int{}, roots: cur.roots}
	out := &headState{st: x.out, gen: true}
	out.st.trace = cur.st.trace
	for n := range prev.st.notes {
		out.st.note("%s", n)
	}
	for n := range cur.st.notes {
		out.st.note("%s", n)
	}
	for i := range cur.roots {
		v, ok := x.au(prev.st.R(prev.roots[i]), cur.st.R(cur.roots[i]))
		if !ok {
			return nil
		}
		out.roots = append(out.roots, v)
	}
	// ghosts
	for _, k := range unionKeys(prev.st.ghost, cur.st.ghost) {
		a, b := prev.st.ghost[k], cur.st.ghost[k]
		if a == nil || b == nil {
			if a == nil && b == nil {
				continue
			}
			return nil
		}
		v, ok := x.au(prev.st.R(a), cur.st.R(b))
		if !ok {
			return nil
		}
		out.st.setG(k, v)
	}
	// objects from before the loop
	var ids []int
	for id := range cur.st.heap {
		if id <= baseObj && prev.st.heap[id] != nil {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		x.pairObj(id, id)
	}
	// globals may have been created lazily during the loop
	for _, id := range ip.globals {
		if id > baseObj {
			if prev.st.heap[id] != nil && cur.st.heap[id] != nil {
				x.objs[[2]int{id, id}] = id
				x.queue = append(x.queue, [2]int{id, id})
			} else if o := cur.st.heap[id]; o != nil {
				out.st.setObj(id, o)
			}
		}
	}
	// pointers to what unknown pointers refer to
	var mats []string
	for _, k := range sortedKeys(cur.st.bind) {
		e := cur.st.bind[k]
		f, ok := prev.st.bind[k]
		if !ok || !x.stable(e.term) {
			continue
		}
		switch e.val.(type) {
		case *Ptr, *Slice, *MapV:
			v, ok := x.au(f.val, e.val)
			if ok {
				x.out.setBind(e.term, v)
				mats = append(mats, k)
			}
		}
	}
	for len(x.queue) > 0 {
		q := x.queue[0]
		x.queue = x.queue[1:]
		po, co := prev.st.heap[q[0]], cur.st.heap[q[1]]
		if po == nil || co == nil {
			return nil
		}
		if po.typ != nil && co.typ != nil && !types.Identical(po.typ, co.typ) {
			return nil
		}
		v, ok := x.au(prev.st.R(po.val), cur.st.R(co.val))
		if !ok {
			return nil
		}
		x.out.setObj(x.objs[q], &Obj{typ: co.typ, val: v, site: co.site})
	}
	if x.conflict {
		return nil
	}
	x.facts()
	for i := range out.roots {
		out.roots[i] = out.st.R(out.roots[i])
	}
	return out
}

func unionKeys(a, b map[string]Value) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return sortedKeys(m)
}

// stable: a symbol or object that is the same on both sides keeps its name
func (x *auCtx) stable(v Value) bool { return true }

func (x *auCtx) pairObj(p, c int) int {
	k := [2]int{p, c}
	if id, ok := x.objs[k]; ok {
		return id
	}
	id := c
	if p != c {
		x.ip.nextObj++
		id = x.ip.nextObj
	}
	// two names on one side would hide an alias
	for q := range x.objs {
		if q[0] == p || q[1] == c {
			x.conflict = true
		}
	}
	x.objs[k] = id
	x.queue = append(x.queue, k)
	return id
}

// keepObj pairs an object that has the same name on both sides
func (x *auCtx) keepObj(id int) {
	if id > x.baseObj && x.p.heap[id] != nil && x.c.heap[id] != nil {
		x.pairObj(id, id)
	}
}

// bornIn reports a value that mentions a symbol made since the loop was entered
func (x *auCtx) bornIn(v Value) bool {
	return contains(v, func(y Value) bool {
		s, ok := y.(*Sym)
		return ok && s.id > x.baseSym
	})
}

func (x *auCtx) counter() *Lin {
	if x.t == nil {
		x.t = asLin(x.ip.fresh("~t", types.Typ[types.Int]))
		x.out.addCon(negLin(x.t))
	}
	return x.t
}

func (x *auCtx) auLin(a, b *Lin) *Lin {
	if a.Key() == b.Key() {
		return a
	}
	k := "L" + a.Key() + "|" + b.Key()
	if v, ok := x.memo[k]; ok {
		return v.(*Lin)
	}
	d := subLin(b, a)
	var r *Lin
	switch {
	case d.isConst() && x.stable(a):
		r = addLin(a, mulLin(x.counter(), d.c))
	default:
		for _, q := range x.lins {
			for _, kk := range []int64{1, -1} {
				if subLin(d, mulLin(subLin(q.c, q.p), bi(kk))).isZero() {
					rest := subLin(a, mulLin(q.p, bi(kk)))
					if x.stable(rest) {
						r = addLin(mulLin(q.r, bi(kk)), rest)
					}
				}
			}
		}
		if r == nil {
			r = x.freshLin(a, b)
		}
	}
	x.memo[k] = r
	x.all = append(x.all, linPair{a, b, r})
	return r
}

func (x *auCtx) freshLin(a, b *Lin) *Lin {
	var t types.Type = types.Typ[types.Int]
	if at := a.atom(); at != nil && valType(at) != nil {
		t = valType(at)
	}
	r := asLin(x.ip.fresh("~x", t))
	if r == nil {
		r = atomLin(&Sym{id: x.ip.nextSym, name: "x", typ: types.Typ[types.Int]})
	}
	x.lins = append(x.lins, linPair{a, b, r})
	pl, ph := x.p.rangeOf(a)
	cl, ch := x.c.rangeOf(b)
	var lo, hi *big.Int
	if pl != nil && cl != nil {
		lo = minBig(pl, cl)
		if cl.Cmp(pl) < 0 {
			// widen to a threshold
			lo = nil
			for _, th := range []int64{1, 0, -1} {
				if cl.Cmp(bi(th)) >= 0 {
					lo = bi(th)
					break
				}
			}
		}
	}
	if ph != nil && ch != nil {
		hi = ph
		if ch.Cmp(ph) > 0 {
			hi = nil
			for _, th := range []int64{-1, 0, 1, 255, 65535} {
				if ch.Cmp(bi(th)) <= 0 {
					hi = bi(th)
					break
				}
			}
			if hi == nil && ch.Cmp(maxLen) <= 0 {
				hi = maxLen
			}
		}
	}
	if lo != nil {
		x.out.addCon(subLin(numBig(lo), r))
	}
	if hi != nil {
		x.out.addCon(subLin(r, numBig(hi)))
	}
	return r
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func (x *auCtx) freshFor(a, b Value, t types.Type) Value {
	k := "V" + a.Key() + "|" + b.Key()
	if v, ok := x.memo[k]; ok {
		return v
	}
	if t == nil {
		t = valType(b)
	}
	v := x.ip.fresh("~g", t)
	x.memo[k] = v
	return v
}

// au is the anti-unification of a (in prev) and b (in cur)
func (x *auCtx) au(a, b Value) (Value, bool) {
	if a == nil || b == nil {
		return nil, a == nil && b == nil
	}
	if a.Key() == b.Key() && x.stable(a) {
		walkVal(b, func(v Value) {
			switch o := v.(type) {
			case *Ptr:
				x.keepObj(o.obj)
			case *Slice:
				x.keepObj(o.obj)
			case *MapV:
				x.keepObj(o.obj)
			}
		})
		return a, true
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 60 {
		return nil, false
	}
	mismatch := func() (Value, bool) {
		if x.strict {
			return nil, false
		}
		return x.freshFor(a, b, nil), true
	}
	switch c := b.(type) {
	case *Lin:
		if l := asLin(a); l != nil {
			return x.auLin(l, c), true
		}
	case Bool, Nil, Flt, *TypeV:
		return mismatch()
	case Str:
		return mismatch()
	case *Cat:
		if p, ok := a.(*Cat); ok && len(p.ps) == len(c.ps) {
			var ps []Value
			for i := range p.ps {
				v, ok := x.au(p.ps[i], c.ps[i])
				if !ok {
					return mismatch()
				}
				ps = append(ps, v)
			}
			return mkCat(ps...), true
		}
		return x.freshFor(a, b, types.Typ[types.String]), true
	case *Sym:
		switch p := a.(type) {
		case *Sym:
			if p.typ != nil && c.typ != nil && !types.Identical(p.typ, c.typ) {
				return mismatch()
			}
			return x.auOpaque(a, b, c.typ), true
		case *App:
			return x.auOpaque(a, b, c.typ), true
		}
		return mismatch()
	case *App:
		switch p := a.(type) {
		case *App:
			if p.op == c.op && len(p.args) == len(c.args) {
				args := make([]Value, len(p.args))
				for i := range args {
					v, ok := x.au(p.args[i], c.args[i])
					if !ok {
						return mismatch()
					}
					args[i] = v
				}
				r := &App{op: c.op, args: args, typ: c.typ}
				x.carry(a, b, r)
				return r, true
			}
			return x.auOpaque(a, b, c.typ), true
		case *Sym:
			return x.auOpaque(a, b, c.typ), true
		}
		return mismatch()
	case *Struct:
		if p, ok := a.(*Struct); ok && len(p.f) == len(c.f) && types.Identical(p.typ, c.typ) {
			f := make([]Value, len(c.f))
			for i := range f {
				v, ok := x.au(p.f[i], c.f[i])
				if !ok {
					return nil, false
				}
				f[i] = v
			}
			return &Struct{typ: c.typ, f: f}, true
		}
	case *Iface:
		if p, ok := a.(*Iface); ok && types.Identical(p.typ, c.typ) {
			v, ok := x.au(p.v, c.v)
			if !ok {
				return mismatch()
			}
			return &Iface{typ: c.typ, v: v}, true
		}
		return mismatch()
	case *Ptr:
		p, ok := a.(*Ptr)
		if !ok || len(p.path) != len(c.path) {
			return mismatch()
		}
		if p.obj != c.obj && (p.obj <= x.baseObj || c.obj <= x.baseObj) {
			return mismatch()
		}
		path := make([]pathElem, len(c.path))
		for i := range path {
			if p.path[i].field != c.path[i].field {
				return mismatch()
			}
			path[i] = c.path[i]
			if path[i].field < 0 {
				v, ok := x.au(p.path[i].idx, c.path[i].idx)
				if !ok {
					return mismatch()
				}
				path[i].idx = v
			}
		}
		return &Ptr{obj: x.pairObj(p.obj, c.obj), path: path}, true
	case *Slice:
		p, ok := a.(*Slice)
		if !ok {
			return mismatch()
		}
		if p.obj != c.obj && (p.obj <= x.baseObj || c.obj <= x.baseObj) {
			return mismatch()
		}
		var src Value
		if p.src != nil && c.src != nil {
			src, _ = x.au(p.src, c.src)
			if src == nil {
				src = x.ip.fresh("isnil", types.Typ[types.Bool])
			}
		} else if p.src != nil || c.src != nil {
			src = x.ip.fresh("isnil", types.Typ[types.Bool])
		}
		return &Slice{obj: x.pairObj(p.obj, c.obj), off: x.auLin(p.off, c.off), len: x.auLin(p.len, c.len), cap: x.auLin(p.cap, c.cap), src: src}, true
	case *MapV:
		p, ok := a.(*MapV)
		if !ok {
			return mismatch()
		}
		if p.obj != c.obj && (p.obj <= x.baseObj || c.obj <= x.baseObj) {
			return mismatch()
		}
		return &MapV{obj: x.pairObj(p.obj, c.obj), src: c.src}, true
	case *MapC:
		if p, ok := a.(*MapC); ok {
			return x.auMap(p, c)
		}
		return nil, false
	case *SeqV:
		if p, ok := a.(*SeqV); ok {
			segs, ok := x.auSegs(p.segs, c.segs)
			if !ok {
				return nil, false
			}
			return &SeqV{segs: segs, elem: c.elem}, true
		}
		return nil, false
	case *Ext:
		if p, ok := a.(*Ext); ok && p.kind == c.kind && len(p.vs) == len(c.vs) {
			vs := make([]Value, len(c.vs))
			for i := range vs {
				v, ok := x.au(p.vs[i], c.vs[i])
				if !ok {
					return nil, false
				}
				vs[i] = v
			}
			return &Ext{kind: c.kind, vs: vs}, true
		}
		return nil, false
	case *Tuple:
		if p, ok := a.(*Tuple); ok && len(p.vs) == len(c.vs) {
			vs := make([]Value, len(c.vs))
			for i := range vs {
				v, ok := x.au(p.vs[i], c.vs[i])
				if !ok {
					return nil, false
				}
				vs[i] = v
			}
			return &Tuple{vs}, true
		}
	case *Fn:
		if p, ok := a.(*Fn); ok && p.fn == c.fn && p.bi == c.bi && len(p.bind) == len(c.bind) {
			vs := make([]Value, len(c.bind))
			for i := range vs {
				v, ok := x.au(p.bind[i], c.bind[i])
				if !ok {
					return nil, false
				}
				vs[i] = v
			}
			return &Fn{fn: c.fn, bi: c.bi, bind: vs}, true
		}
		return mismatch()
	}
	return mismatch()
}

// auOpaque pairs two unknown values and keeps what is known of both
func (x *auCtx) auOpaque(a, b Value, t types.Type) Value {
	k := "V" + a.Key() + "|" + b.Key()
	if v, ok := x.memo[k]; ok {
		return v
	}
	v := x.freshFor(a, b, t)
	x.carry(a, b, v)
	return v
}

// carry copies facts about a and b alone to r when they agree
func (x *auCtx) carry(a, b, r Value) {
	if a.Key() == b.Key() && a.Key() == r.Key() {
		return
	}
	ak := a.Key()
	for _, e := range x.p.bind {
		f, ok := e.term.(*App)
		if !ok || len(f.args) == 0 {
			continue
		}
		at := -1
		for i, y := range f.args {
			if y.Key() == ak {
				at = i
			} else if !x.stable(y) {
				at = -1
				break
			}
		}
		if at < 0 {
			continue
		}
		switch e.val.(type) {
		case Bool, Nil, Str:
		default:
			continue
		}
		mk := func(v Value) *App {
			args := append([]Value{}, f.args...)
			args[at] = v
			if f.op == "eq" {
				return mkEq(args[0], args[1])
			}
			return &App{op: f.op, args: args, typ: f.typ}
		}
		if g, ok := x.c.bind[mk(b).Key()]; ok && g.val.Key() == e.val.Key() {
			x.out.setBind(mk(r), e.val)
		}
	}
}

func (x *auCtx) save() *auCtx {
	y := *x
	y.memo = map[string]Value{}
	for k, v := range x.memo {
		y.memo[k] = v
	}
	y.objs = map[[2]int]int{}
	for k, v := range x.objs {
		y.objs[k] = v
	}
	y.queue = append([][2]int{}, x.queue...)
	y.out = x.out.clone()
	return &y
}

func (x *auCtx) restore(y *auCtx) {
	o := x.out
	*x = *y
	*o = *y.out
	x.out = o
}

// auSegs pairs two sequences; growth at the end becomes a repetition
func (x *auCtx) auSegs(p, c []Seg) ([]Seg, bool) {
	if len(p) == len(c) {
		sv := x.save()
		if r, ok := x.auSegsEq(p, c); ok {
			return r, true
		}
		x.restore(sv)
		return nil, false
	}
	if len(c) < len(p) {
		return nil, false
	}
	// a part that is used up from its front while the sequence before it grows
	if k, l := len(p)-1, len(c)-1; k >= 0 && (p[k].kind == '*' || p[k].kind == 'r') && p[k].kind == c[l].kind && same(p[k].v, c[l].v) && same2(p[k].tmpl, c[l].tmpl) &&
		!(p[k].kind == '*' && k > 0 && same2(p[k].tmpl, c[k].tmpl) && c[k].kind == '*') {
		sv := x.save()
		if pre, ok := x.auSegs(p[:k], c[:l]); ok {
			if suf, ok := x.auSegsEq(p[k:], c[l:]); ok {
				return append(pre[:len(pre):len(pre)], suf...), true
			}
		}
		x.restore(sv)
	}
	n := len(c) - len(p)
	add := c[len(p):]
	// the last n segments of p were the previous round
	if len(p) >= n {
		sv := x.save()
		pre, ok := x.auSegsEq(p[:len(p)-n], c[:len(p)-n])
		if ok {
			{
				if t, ok := x.template(p[len(p)-n:], add, num(0)); ok {
					cnt := x.auLin(num(1), num(2))
					return append(pre, Seg{kind: '*', n: cnt, tmpl: t}), true
				}
			}
		}
		x.restore(sv)
	}
	// p ends in a repetition that c continues
	if k := len(p) - 1; k >= 0 && p[k].kind == '*' && c[k].kind == '*' && len(p[k].tmpl) == n {
		sv := x.save()
		pre, ok := x.auSegsEq(p[:k], c[:k])
		if ok {
			last, _ := mapSegs(p[k].tmpl, func(v Value) Value {
				if v == Value(kappa) {
					return subLin(p[k].n, num(1))
				}
				return nil
			})
			if same2(substAll(p[k].tmpl, c[k].n), add) {
				return append(pre, Seg{kind: '*', n: x.auLin(p[k].n, addLin(c[k].n, num(1))), tmpl: c[k].tmpl}), true
			}
			if t, ok := x.template(last, add, subLin(p[k].n, num(1))); ok {
				return append(pre, Seg{kind: '*', n: x.auLin(p[k].n, addLin(c[k].n, num(1))), tmpl: t}), true
			}
		}
		x.restore(sv)
	}
	// nothing yet in p
	sv := x.save()
	if pre, ok := x.auSegsEq(p, c[:len(p)]); ok {
		if t, ok := x.template(add, add, num(0)); ok {
			return append(pre, Seg{kind: '*', n: x.auLin(num(0), num(1)), tmpl: t}), true
		}
	}
	x.restore(sv)
	return nil, false
}

func substAll(segs []Seg, by Value) []Seg {
	out, _ := mapSegs(segs, func(v Value) Value {
		if v == Value(kappa) {
			return by
		}
		return nil
	})
	return out
}

func same2(a, b []Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key() != b[i].Key() {
			return false
		}
	}
	return true
}

func (x *auCtx) auSegsEq(p, c []Seg) ([]Seg, bool) {
	out := make([]Seg, len(c))
	for i := range c {
		g, h := p[i], c[i]
		if g.Key() == h.Key() && (g.v == nil || x.stable(g.v)) {
			ok := true
			for _, l := range []*Lin{g.n, g.from} {
				if l != nil && !x.stable(l) {
					ok = false
				}
			}
			if ok {
				out[i] = h
				continue
			}
		}
		if g.kind != h.kind || g.w != h.w {
			return nil, false
		}
		n := h
		if h.v != nil {
			v, ok := x.au(g.v, h.v)
			if !ok {
				return nil, false
			}
			n.v = v
		}
		if h.n != nil {
			n.n = x.auLin(g.n, h.n)
		}
		if h.from != nil {
			n.from = x.auLin(g.from, h.from)
		}
		if h.tmpl != nil {
			if !same2(g.tmpl, h.tmpl) {
				if len(g.tmpl) != len(h.tmpl) {
					return nil, false
				}
				t, ok := x.auSegsEq(g.tmpl, h.tmpl)
				if !ok {
					return nil, false
				}
				n.tmpl = t
			}
		}
		out[i] = n
	}
	return out, true
}

// template generalises the segments of two consecutive rounds; the first was round k0
func (x *auCtx) template(a, b []Seg, k0 *Lin) ([]Seg, bool) {
	out := make([]Seg, len(b))
	for i := range b {
		g, h := a[i], b[i]
		if g.kind != h.kind || g.w != h.w {
			return nil, false
		}
		n := h
		if h.v != nil {
			v, ok := x.tmplVal(g.v, h.v, k0)
			if !ok {
				return nil, false
			}
			n.v = v
		}
		if h.n != nil {
			v, ok := x.tmplVal(g.n, h.n, k0)
			if !ok {
				return nil, false
			}
			n.n = v.(*Lin)
		}
		if h.from != nil {
			v, ok := x.tmplVal(g.from, h.from, k0)
			if !ok {
				return nil, false
			}
			n.from = v.(*Lin)
		}
		if h.tmpl != nil && !same2(g.tmpl, h.tmpl) {
			return nil, false
		}
		out[i] = n
	}
	return out, true
}

func (x *auCtx) skolem(a, b Value, t types.Type) Value {
	k := "S" + a.Key() + "|" + b.Key()
	if v, ok := x.memo[k]; ok {
		return v
	}
	x.ip.nextSym++
	if t == nil {
		t = valType(b)
	}
	v := wrapTyp(mkApp("sk"+strconv.Itoa(x.ip.nextSym), t, atomLin(kappa)))
	x.memo[k] = v
	return v
}

func (x *auCtx) tmplVal(a, b Value, k0 *Lin) (Value, bool) {
	if a == nil || b == nil {
		return nil, a == nil && b == nil
	}
	if a.Key() == b.Key() && x.stable(a) {
		return a, true
	}
	parts := func(p, c []Value) ([]Value, bool) {
		if len(p) != len(c) {
			return nil, false
		}
		out := make([]Value, len(c))
		for i := range c {
			v, ok := x.tmplVal(p[i], c[i], k0)
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	}
	switch c := b.(type) {
	case *Lin:
		p := asLin(a)
		if p == nil {
			return nil, false
		}
		d := subLin(c, p)
		if d.isConst() && x.stable(p) {
			return addLin(p, mulLin(subLin(atomLin(kappa), k0), d.c)), true
		}
		if pa, ca := p.atom(), c.atom(); pa != nil && ca != nil {
			if pq, ok := pa.(*App); ok {
				if cq, ok := ca.(*App); ok && pq.op == cq.op {
					if as, ok := parts(pq.args, cq.args); ok {
						return wrapTyp(&App{op: cq.op, args: as, typ: cq.typ}), true
					}
				}
			}
			v := x.skolem(pa, ca, valType(ca))
			if asLin(v) != nil {
				return asLin(v), true
			}
		}
		v := x.skolem(p, c, types.Typ[types.Int])
		return asLin(v), true
	case *App:
		if p, ok := a.(*App); ok && p.op == c.op {
			if as, ok := parts(p.args, c.args); ok {
				return &App{op: c.op, args: as, typ: c.typ}, true
			}
		}
		return x.skolem(a, b, c.typ), true
	case *Sym:
		return x.skolem(a, b, c.typ), true
	case *Struct:
		if p, ok := a.(*Struct); ok && types.Identical(p.typ, c.typ) {
			if f, ok := parts(p.f, c.f); ok {
				return &Struct{typ: c.typ, f: f}, true
			}
		}
		return x.skolem(a, b, c.typ), true
	case *Iface:
		if p, ok := a.(*Iface); ok && types.Identical(p.typ, c.typ) {
			if v, ok := x.tmplVal(p.v, c.v, k0); ok {
				return &Iface{typ: c.typ, v: v}, true
			}
		}
		return x.skolem(a, b, nil), true
	case *Cat:
		if p, ok := a.(*Cat); ok {
			if ps, ok := parts(p.ps, c.ps); ok {
				return mkCat(ps...), true
			}
		}
		return x.skolem(a, b, types.Typ[types.String]), true
	}
	return x.skolem(a, b, nil), true
}

func (x *auCtx) auMap(p, c *MapC) (Value, bool) {
	if (p.base == nil) != (c.base == nil) || p.base != nil && p.base.Key() != c.base.Key() {
		return nil, false
	}
	eq := func(a, b []mapEnt) ([]mapEnt, bool) {
		var out []mapEnt
		for i := range a {
			if (a[i].val == nil) != (b[i].val == nil) || (a[i].rep == nil) != (b[i].rep == nil) {
				return nil, false
			}
			k, ok := x.au(a[i].key, b[i].key)
			if !ok {
				return nil, false
			}
			e := mapEnt{key: k}
			if a[i].val != nil {
				if e.val, ok = x.au(a[i].val, b[i].val); !ok {
					return nil, false
				}
			}
			if a[i].rep != nil {
				if a[i].key.Key() != b[i].key.Key() {
					return nil, false
				}
				e.key, e.val = b[i].key, b[i].val
				e.rep = x.auLin(a[i].rep, b[i].rep)
			}
			out = append(out, e)
		}
		return out, true
	}
	if len(p.ovr) == len(c.ovr) {
		o, ok := eq(p.ovr, c.ovr)
		if !ok {
			return nil, false
		}
		return &MapC{base: c.base, ovr: o}, true
	}
	if len(c.ovr) != len(p.ovr)+1 {
		return nil, false
	}
	last := c.ovr[len(c.ovr)-1]
	if last.val == nil || last.rep != nil {
		return nil, false
	}
	n := len(p.ovr)
	if n > 0 {
		pl := p.ovr[n-1]
		sv := x.save()
		pre, ok := eq(p.ovr[:n-1], c.ovr[:n-1])
		if ok && pl.val != nil {
			if pl.rep != nil {
				prevK, prevV := substKappa(pl.key, subLin(pl.rep, num(1))), substKappa(pl.val, subLin(pl.rep, num(1)))
				k0 := subLin(pl.rep, num(1))
				if k, ok := x.tmplVal(prevK, last.key, k0); ok {
					if v, ok := x.tmplVal(prevV, last.val, k0); ok {
						return &MapC{base: c.base, ovr: append(pre, mapEnt{key: k, val: v, rep: x.auLin(pl.rep, addLin(c.ovr[n-1].rep, num(1)))})}, true
					}
				}
			} else if k, ok := x.tmplVal(pl.key, last.key, num(0)); ok {
				if v, ok := x.tmplVal(pl.val, last.val, num(0)); ok {
					return &MapC{base: c.base, ovr: append(pre, mapEnt{key: k, val: v, rep: x.auLin(num(1), num(2))})}, true
				}
			}
		}
		x.restore(sv)
	}
	pre, ok := eq(p.ovr, c.ovr[:n])
	if !ok {
		return nil, false
	}
	k, ok1 := x.tmplVal(last.key, last.key, num(0))
	v, ok2 := x.tmplVal(last.val, last.val, num(0))
	if !ok1 || !ok2 {
		return nil, false
	}
	return &MapC{base: c.base, ovr: append(pre, mapEnt{key: k, val: v, rep: x.auLin(num(0), num(1))})}, true
}

// facts keeps what holds on both sides
func (x *auCtx) facts() {
	p, c, out := x.p, x.c, x.out
	for _, k := range sortedKeys(c.bind) {
		e := c.bind[k]
		f, ok := p.bind[k]
		if !ok || !x.stable(e.term) {
			continue
		}
		if _, done := out.bind[k]; done {
			continue
		}
		if f.val.Key() == e.val.Key() && x.stable(e.val) {
			out.setBind(e.term, e.val)
		}
	}
	for _, k := range sortedKeys(c.iv) {
		a := c.atoms[k]
		if !x.stable(a) {
			continue
		}
		pl, ph := p.atomRange(a)
		cl, ch := c.atomRange(a)
		if pl != nil && cl != nil && !(x.bornIn(a) && cl.Cmp(pl) < 0) {
			out.addCon(subLin(numBig(minBig(pl, cl)), atomLin(a)))
		}
		if ph != nil && ch != nil {
			h := ph
			if ch.Cmp(h) > 0 {
				if x.bornIn(a) {
					continue
				}
				h = ch
			}
			out.addCon(subLin(atomLin(a), numBig(h)))
		}
	}
	for _, e := range c.cons {
		if x.stable(e) && p.prove(e) {
			out.addCon(e)
		}
	}
	for _, e := range p.cons {
		if x.stable(e) && c.prove(e) {
			out.addCon(e)
		}
	}
	// bounds of what changed by what did not
	us := map[string]*Lin{}
	core, lenOf := map[string]bool{}, map[string]bool{}
	inObj := map[int]*Obj{}
	mark := func(v Value) {
		if v == nil {
			return
		}
		walkVal(v, func(y Value) {
			switch z := y.(type) {
			case *Sym:
				lenOf[z.Key()] = true
			case *App:
				lenOf[z.Key()] = true
			case *Lin:
				for _, t := range z.ts {
					core[t.a.Key()] = true
					us[t.a.Key()] = atomLin(t.a)
				}
			case *Slice:
				for _, l := range []*Lin{z.off, z.len} {
					if l != nil {
						for _, t := range l.ts {
							core[t.a.Key()] = true
							us[t.a.Key()] = atomLin(t.a)
						}
					}
				}
			}
		})
	}
	for _, q := range x.all {
		mark(q.p)
		mark(q.c)
	}
	for _, v := range x.roots {
		mark(c.R(v))
		walkVal(c.R(v), func(y Value) {
			if r, ok := y.(*Ptr); ok && r.obj > 0 {
				if o := c.heap[r.obj]; o != nil {
					inObj[r.obj] = o
				}
			}
		})
	}
	for _, o := range inObj {
		mark(c.R(o.val))
	}
	// lengths of what is looked at
	for _, s := range []*State{c, p} {
		for k, a := range s.atoms {
			if l, ok := a.(*App); ok && l.op == "len" && lenOf[l.args[0].Key()] {
				core[k] = true
				us[k] = atomLin(a)
			}
		}
	}
	// and what is related to them, other than the counters of other loops
	hop := func(s *State) {
		for _, e := range s.cons {
			rel := false
			for _, t := range e.ts {
				if core[t.a.Key()] {
					rel = true
				}
			}
			if !rel {
				continue
			}
			for _, t := range e.ts {
				if y, ok := t.a.(*Sym); ok && strings.HasPrefix(y.name, "~") && y.id <= x.baseSym {
					continue
				}
				us[t.a.Key()] = atomLin(t.a)
			}
		}
	}
	hop(c)
	hop(p)
	done := map[string]bool{}
	for _, q := range x.all {
		if q.r.isConst() || done[q.r.Key()] {
			continue
		}
		done[q.r.Key()] = true
		// constant bounds that did not move
		pl, ph := p.rangeOf(q.p)
		cl, ch := c.rangeOf(q.c)
		if pl != nil && cl != nil && cl.Cmp(pl) >= 0 {
			out.addCon(subLin(numBig(pl), q.r))
		}
		if ph != nil && ch != nil && ch.Cmp(ph) <= 0 {
			out.addCon(subLin(q.r, numBig(ph)))
		}
		for _, k := range sortedKeys(us) {
			u := us[k]
			for _, off := range []int64{-1, 0, 1} {
				v := addLin(u, num(off))
				if p.proveLE(q.p, v) && c.proveLE(q.c, v) {
					out.addCon(subLin(q.r, v))
					break
				}
			}
			for _, off := range []int64{1, 0, -1} {
				v := addLin(u, num(off))
				if p.proveLE(v, q.p) && c.proveLE(v, q.c) {
					out.addCon(subLin(v, q.r))
					break
				}
			}
		}
		for _, r := range x.all {
			if r.r.Key() == q.r.Key() {
				continue
			}
			if p.proveLE(q.p, r.p) && c.proveLE(q.c, r.c) {
				out.addCon(subLin(q.r, r.r))
			}
		}
	}
}

// ---- inclusion

type matcher struct {
	ip               *Interp
	g, a             *State
	baseSym, baseObj int
	sub              map[int]Value
	objs             map[int]int
	rev              map[int]int
	queue            [][2]int
	defer1           [][2]Value
	why              string
	relax            *State
	weaken           bool
}

func (m *matcher) no(format string, a ...interface{}) bool {
	if m.why == "" {
		m.why = format
		for _, x := range a {
			if v, ok := x.(Value); ok && v != nil {
				m.why += " " + v.Key()
			} else if s, ok := x.(string); ok {
				m.why += " " + s
			}
		}
	}
	return false
}

var coversWhy string

// covers tells whether every concrete state of cur is one of h
func (ip *Interp) covers(h, cur *headState, baseSym, baseObj int) bool {
	m := &matcher{ip: ip, g: h.st, a: cur.st, baseSym: baseSym, baseObj: baseObj, sub: map[int]Value{}, objs: map[int]int{}, rev: map[int]int{}}
	ok := m.run(h, cur)
	if !ok {
		if debugLoops {
			coversWhy = m.why
		}
	}
	return ok
}

func (m *matcher) run(h, cur *headState) bool {
	if len(h.roots) != len(cur.roots) {
		return m.no("roots")
	}
	for i := range h.roots {
		if !m.val(h.st.R(h.roots[i]), cur.st.R(cur.roots[i])) {
			return m.no("root", h.roots[i], cur.roots[i])
		}
	}
	for _, k := range unionKeys(h.st.ghost, cur.st.ghost) {
		a, b := h.st.ghost[k], cur.st.ghost[k]
		if a == nil || b == nil {
			return m.no("ghost " + k)
		}
		if !m.val(h.st.R(a), cur.st.R(b)) {
			return m.no("ghost "+k, a, b)
		}
	}
	for id := range h.st.heap {
		if id <= m.baseObj && cur.st.heap[id] != nil {
			if !m.obj(id, id) {
				return m.no("obj")
			}
		}
	}
	for len(m.queue) > 0 {
		q := m.queue[0]
		m.queue = m.queue[1:]
		go1, ao := m.g.heap[q[0]], m.a.heap[q[1]]
		if go1 == nil || ao == nil {
			return m.no("missing object")
		}
		if !m.val(m.g.R(go1.val), m.a.R(ao.val)) {
			return m.no("object", go1.val, ao.val)
		}
	}
	// deferred equations
	for round := 0; round < 4 && len(m.defer1) > 0; round++ {
		d := m.defer1
		m.defer1 = nil
		for _, e := range d {
			if !m.lin(e[0].(*Lin), e[1].(*Lin)) {
				return m.no("equation", e[0], e[1])
			}
		}
	}
	// any solution will do: counters that only occur in sums take their least value
	for tries := 0; tries < 6 && len(m.defer1) > 0; tries++ {
		picked := false
		walkVal(m.defer1[0][0], func(y Value) {
			s, ok := y.(*Sym)
			if !ok || picked || s.id <= m.baseSym {
				return
			}
			if _, ok := m.sub[s.id]; ok {
				return
			}
			if i := m.g.iv[s.Key()]; i.lo != nil {
				m.sub[s.id] = numBig(i.lo)
				picked = true
			}
		})
		if !picked {
			break
		}
		d := m.defer1
		m.defer1 = nil
		for _, e := range d {
			if !m.lin(e[0].(*Lin), e[1].(*Lin)) {
				return m.no("equation", e[0], e[1])
			}
		}
	}
	if len(m.defer1) > 0 {
		return m.no("unsolved equation", m.defer1[0][0])
	}
	return m.facts()
}

// relaxed is prev without the facts that do not hold in cur, when they agree on everything else
func (ip *Interp) relaxed(prev, cur *headState, baseSym, baseObj int, weaken bool) *headState {
	m := &matcher{ip: ip, g: prev.st, a: cur.st, baseSym: baseSym, baseObj: baseObj, sub: map[int]Value{}, objs: map[int]int{}, rev: map[int]int{}}
	m.relax = prev.st.clone()
	m.weaken = weaken
	if !m.run(prev, cur) {
		return nil
	}
	for n := range cur.st.notes {
		m.relax.note("%s", n)
	}
	m.relax.trace = cur.st.trace
	return &headState{st: m.relax, roots: prev.roots, gen: true}
}

func (m *matcher) obj(g, a int) bool {
	if x, ok := m.objs[g]; ok {
		return x == a
	}
	if g <= m.baseObj && a != g {
		return m.no("object identity")
	}
	if x, ok := m.rev[a]; ok && x != g {
		return m.no("aliasing")
	}
	m.objs[g], m.rev[a] = a, g
	m.queue = append(m.queue, [2]int{g, a})
	return true
}

// born tells whether v mentions a generalised symbol
func (m *matcher) born(v Value) bool {
	return contains(v, func(y Value) bool {
		s, ok := y.(*Sym)
		return ok && s.id > m.baseSym
	})
}

func (m *matcher) unassigned(v Value) bool {
	return contains(v, func(y Value) bool {
		switch s := y.(type) {
		case *Sym:
			if s.id > m.baseSym {
				_, ok := m.sub[s.id]
				return !ok
			}
		case *App:
			return strings.HasPrefix(s.op, "sk") && len(s.op) > 2 && s.op[2] >= '0' && s.op[2] <= '9'
		case *Ptr:
			if s.obj > m.baseObj {
				_, ok := m.objs[s.obj]
				return !ok
			}
		case *Slice:
			if s.obj > m.baseObj {
				_, ok := m.objs[s.obj]
				return !ok
			}
		case *MapV:
			if s.obj > m.baseObj {
				_, ok := m.objs[s.obj]
				return !ok
			}
		}
		return false
	})
}

func (m *matcher) inst(v Value) Value {
	return mapVal(v, func(y Value) Value {
		switch s := y.(type) {
		case *Sym:
			if s.id > m.baseSym {
				if r, ok := m.sub[s.id]; ok {
					return r
				}
			}
		case *Ptr:
			if s.obj > m.baseObj {
				if o, ok := m.objs[s.obj]; ok && o != s.obj {
					return m.inst(&Ptr{obj: -o, path: s.path}).(*Ptr).withObj(o)
				}
			}
		case *Slice:
			if o, ok := m.objs[s.obj]; ok && o != s.obj {
				return &Slice{obj: o, off: m.inst(s.off).(*Lin), len: m.inst(s.len).(*Lin), cap: m.inst(s.cap).(*Lin), src: s.src}
			}
		case *MapV:
			if o, ok := m.objs[s.obj]; ok && o != s.obj {
				return &MapV{obj: o, src: s.src}
			}
		}
		return nil
	})
}

func (p *Ptr) withObj(o int) *Ptr { return &Ptr{obj: o, path: p.path} }

func (m *matcher) bindSym(s *Sym, a Value) bool {
	if x, ok := m.sub[s.id]; ok {
		if x.Key() == a.Key() {
			return true
		}
		if l, ok := x.(*Lin); ok {
			if b, ok := a.(*Lin); ok {
				return m.a.proveEQ(l, b)
			}
		}
		return m.no("symbol bound twice", s, a)
	}
	if s.typ != nil {
		if at := valType(a); at != nil && !types.Identical(at, s.typ) && !types.IsInterface(s.typ) {
			return m.no("symbol type")
		}
	}
	m.sub[s.id] = a
	return true
}

func (m *matcher) val(g, a Value) bool {
	if g == nil || a == nil {
		return g == nil && a == nil
	}
	switch x := g.(type) {
	case Bool, Str, Flt, Nil, *TypeV:
		return g.Key() == a.Key() || m.no("const", g, a)
	case *Lin:
		l := asLin(a)
		if l == nil {
			return m.no("int", g, a)
		}
		return m.lin(x, l)
	case *Sym:
		if x.id > m.baseSym {
			return m.bindSym(x, a)
		}
		return g.Key() == a.Key() || m.no("sym", g, a)
	case *App:
		if g.Key() == a.Key() && !m.born(g) {
			return true
		}
		if isSkolem(x.op) {
			return true
		}
		if y, ok := a.(*App); ok && y.op == x.op && len(x.args) == len(y.args) {
			for i := range x.args {
				if !m.val(x.args[i], y.args[i]) {
					return false
				}
			}
			return true
		}
		return m.no("app", g, a)
	case *Struct:
		y, ok := a.(*Struct)
		if !ok || len(y.f) != len(x.f) || !types.Identical(x.typ, y.typ) {
			return m.no("struct", g, a)
		}
		for i := range x.f {
			if !m.val(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := a.(*Iface)
		if !ok || !types.Identical(x.typ, y.typ) {
			return m.no("iface", g, a)
		}
		return m.val(x.v, y.v)
	case *Ptr:
		y, ok := a.(*Ptr)
		if !ok || len(x.path) != len(y.path) {
			return m.no("ptr", g, a)
		}
		for i := range x.path {
			if x.path[i].field != y.path[i].field {
				return m.no("ptr path", g, a)
			}
			if x.path[i].field < 0 && !m.val(x.path[i].idx, y.path[i].idx) {
				return false
			}
		}
		return m.obj(x.obj, y.obj)
	case *Slice:
		y, ok := a.(*Slice)
		if !ok {
			return m.no("slice", g, a)
		}
		if x.src != nil && y.src != nil {
			if !m.val(x.src, y.src) {
				return false
			}
		} else if x.src == nil && y.src != nil {
			if b, ok := y.src.(Bool); !ok || bool(b) {
				return m.no("slice nil", g, a)
			}
		}
		return m.obj(x.obj, y.obj) && m.lin(x.off, y.off) && m.lin(x.len, y.len) && m.lin(x.cap, y.cap)
	case *MapV:
		y, ok := a.(*MapV)
		return ok && m.obj(x.obj, y.obj) || m.no("map", g, a)
	case *MapC:
		y, ok := a.(*MapC)
		if !ok || (x.base == nil) != (y.base == nil) {
			return m.no("mapc", g, a)
		}
		if x.base != nil && !m.val(x.base, y.base) {
			return false
		}
		return m.mapEnts(x.ovr, y.ovr) || m.no("map entries", g, a)
	case *SeqV:
		y, ok := a.(*SeqV)
		return ok && m.segs(x.segs, y.segs) || m.no("seq", g, a)
	case *Ext:
		y, ok := a.(*Ext)
		if !ok || x.kind != y.kind || len(x.vs) != len(y.vs) {
			return m.no("ext", g, a)
		}
		for i := range x.vs {
			if !m.val(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case *Tuple:
		y, ok := a.(*Tuple)
		if !ok || len(x.vs) != len(y.vs) {
			return m.no("tuple")
		}
		for i := range x.vs {
			if !m.val(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case *Fn:
		y, ok := a.(*Fn)
		if !ok || x.fn != y.fn || x.bi != y.bi || len(x.bind) != len(y.bind) {
			return m.no("fn", g, a)
		}
		for i := range x.bind {
			if !m.val(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *Cat:
		y, ok := a.(*Cat)
		if !ok || len(x.ps) != len(y.ps) {
			return m.no("cat", g, a)
		}
		for i := range x.ps {
			if !m.val(x.ps[i], y.ps[i]) {
				return false
			}
		}
		return true
	}
	return m.no("kind", g, a)
}

func isSkolem(op string) bool {
	return len(op) > 2 && op[:2] == "sk" && op[2] >= '0' && op[2] <= '9'
}

func (m *matcher) mapEnts(g, a []mapEnt) bool {
	// a run in g absorbs a run and single entries in a
	i, j := 0, 0
	for i < len(g) {
		e := g[i]
		if e.rep == nil {
			if j >= len(a) || a[j].rep != nil || (a[j].val == nil) != (e.val == nil) {
				return false
			}
			if !m.val(e.key, a[j].key) || e.val != nil && !m.val(e.val, a[j].val) {
				return false
			}
			i++
			j++
			continue
		}
		cnt := num(0)
		if j < len(a) && a[j].rep != nil {
			if !m.tmplMatch(e.key, a[j].key) || !m.tmplMatch(e.val, a[j].val) {
				return false
			}
			cnt = a[j].rep
			j++
		}
		rest := len(a) - j - (len(g) - i - 1)
		for k := 0; k < rest; k++ {
			if a[j].rep != nil || a[j].val == nil {
				return false
			}
			if !m.tmplAt(e.key, a[j].key, cnt) || !m.tmplAt(e.val, a[j].val, cnt) {
				return false
			}
			cnt = addLin(cnt, num(1))
			j++
		}
		if !m.lin(e.rep, cnt) {
			return false
		}
		i++
	}
	return j == len(a)
}

// tmplMatch compares two templates
func (m *matcher) tmplMatch(g, a Value) bool { return m.val(g, a) }

// tmplAt compares an instance with a template at index k
func (m *matcher) tmplAt(g, a Value, k *Lin) bool { return m.val(substKappa(g, k), a) }

func (m *matcher) segs(g, a []Seg) bool {
	i, j := 0, 0
	for i < len(g) {
		e := g[i]
		if e.kind != '*' || j < len(a) && a[j].kind == '*' && len(g) == len(a) {
			if j >= len(a) || a[j].kind != e.kind || a[j].w != e.w {
				return false
			}
			h := a[j]
			if e.v != nil && !m.val(e.v, h.v) {
				return false
			}
			if e.n != nil && !m.lin(e.n, h.n) {
				return false
			}
			if e.from != nil && !m.lin(e.from, h.from) {
				return false
			}
			if e.tmpl != nil && !(len(e.tmpl) == len(h.tmpl) && m.segs(e.tmpl, h.tmpl)) {
				return false
			}
			i++
			j++
			continue
		}
		cnt := num(0)
		if j < len(a) && a[j].kind == '*' {
			if len(a[j].tmpl) != len(e.tmpl) || !m.segs(e.tmpl, a[j].tmpl) {
				return false
			}
			cnt = a[j].n
			j++
		}
		k := len(e.tmpl)
		rest := len(a) - j - (len(g) - i - 1)
		for rest >= k && rest > 0 {
			inst := substAll(e.tmpl, cnt)
			if !m.segs(inst, a[j:j+k]) {
				return false
			}
			cnt = addLin(cnt, num(1))
			j += k
			rest -= k
		}
		if !m.lin(e.n, cnt) {
			return false
		}
		i++
	}
	return j == len(a)
}

func (m *matcher) lin(g, a *Lin) bool {
	rest := subLin(a, numBig(g.c))
	var open []lterm
	for _, t := range g.ts {
		if !m.born(t.a) && !hasSk(t.a) {
			rest = subLin(rest, mulLin(atomLin(t.a), t.n))
			continue
		}
		if hasSk(t.a) {
			if len(g.ts) == 1 {
				return true
			}
			return m.no("skolem in sum")
		}
		if !m.unassigned(t.a) {
			l := asLin(m.a.R(m.inst(t.a)))
			if l == nil {
				return m.no("int subst")
			}
			rest = subLin(rest, mulLin(l, t.n))
			continue
		}
		open = append(open, t)
	}
	rest = m.a.rlin(rest)
	switch len(open) {
	case 0:
		return m.a.proveEQ(rest, num(0)) || m.no("lin", g, a)
	case 1:
		t := open[0]
		s, ok := t.a.(*Sym)
		if ok {
			q := &Lin{c: new(big.Int), ts: nil}
			r := new(big.Int)
			if q.c.QuoRem(rest.c, t.n, r); r.Sign() != 0 {
				return m.no("not divisible", g, a)
			}
			for _, u := range rest.ts {
				n := new(big.Int)
				if n.QuoRem(u.n, t.n, r); r.Sign() != 0 {
					return m.no("not divisible", g, a)
				}
				q.ts = append(q.ts, lterm{u.a, n})
			}
			return m.bindSym(s, mkLin(q.c, q.ts))
		}
		// an application: match with the same application on the other side
		if t.n.IsInt64() && t.n.Int64() == 1 {
			if at := rest.atom(); at != nil {
				return m.val(t.a, at)
			}
		}
		for _, u := range rest.ts {
			if x, ok := u.a.(*App); ok && u.n.Cmp(t.n) == 0 && x.op == t.a.(*App).op {
				if m.val(t.a, x) && m.a.proveEQ(subLin(rest, mulLin(atomLin(x), u.n)), num(0)) {
					return true
				}
				return m.no("app in sum", g, a)
			}
		}
		return m.no("app in sum", g, a)
	}
	m.defer1 = append(m.defer1, [2]Value{g, a})
	return true
}

func hasSk(v Value) bool {
	return contains(v, func(y Value) bool {
		s, ok := y.(*App)
		return ok && isSkolem(s.op)
	})
}

func (m *matcher) facts() bool {
	for k, e := range m.g.bind {
		if f, ok := m.a.bind[k]; ok && f.val.Key() == e.val.Key() && !m.born(e.term) {
			continue
		}
		if m.unassigned(e.term) || m.unassigned(e.val) {
			continue
		}
		switch e.val.(type) {
		case *Ptr, *Slice, *MapV:
			// only a name for what the pointer refers to
			continue
		}
		t, v := m.a.R(m.inst(e.term)), m.a.R(m.inst(e.val))
		if t.Key() == v.Key() {
			continue
		}
		if b, ok := v.(Bool); ok {
			if m.a.truth(t) == triOf(bool(b)) {
				continue
			}
		}
		if tl, ok := t.(*Lin); ok {
			if vl, ok := v.(*Lin); ok && m.a.proveEQ(tl, vl) {
				continue
			}
		}
		if m.relax != nil {
			m.relax.wB()
			delete(m.relax.bind, k)
			continue
		}
		return m.no("fact", e.term, e.val)
	}
	for k, i := range m.g.iv {
		at := m.g.atoms[k]
		if m.unassigned(at) || hasSk(at) {
			continue
		}
		l := asLin(m.a.R(m.inst(at)))
		if l == nil {
			continue
		}
		if m.relax != nil {
			n := i
			if i.lo != nil && !m.a.proveLE(numBig(i.lo), l) {
				n.lo = nil
			}
			if i.hi != nil && !m.a.proveLE(l, numBig(i.hi)) {
				n.hi = nil
			}
			if n != i {
				m.relax.wI()
				m.relax.iv[k] = n
				for _, th := range []int64{1, 0, -1} {
					if n.lo == nil && m.a.proveLE(num(th), l) {
						n.lo = bi(th)
						m.relax.iv[k] = n
					}
				}
				for _, th := range []int64{0, 1, 255, 65535} {
					if n.hi == nil && m.a.proveLE(l, num(th)) && (i.lo == nil || i.lo.Cmp(bi(th)) < 0) {
						n.hi = bi(th)
						m.relax.iv[k] = n
					}
				}
			}
			continue
		}
		if i.lo != nil && !m.a.proveLE(numBig(i.lo), l) || i.hi != nil && !m.a.proveLE(l, numBig(i.hi)) {
			return m.no("interval", at)
		}
	}
	if m.relax != nil {
		m.relax.cons = nil
		for _, e := range m.g.cons {
			l, ok := m.a.R(m.inst(e)).(*Lin)
			if m.unassigned(e) || hasSk(e) || ok && m.a.prove(l) {
				m.relax.cons = append(m.relax.cons, e)
				continue
			}
			if w := addLin(e, num(-1)); ok && m.weaken && m.a.prove(addLin(l, num(-1))) {
				m.relax.cons = append(m.relax.cons, w)
			}
		}
		return true
	}
	for _, e := range m.g.cons {
		if m.unassigned(e) || hasSk(e) {
			continue
		}
		l, ok := m.a.R(m.inst(e)).(*Lin)
		if ok && !m.a.prove(l) {
			return m.no("constraint", e)
		}
	}
	return true
}
