package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where do secrets flow? An inclusion based points-to analysis of the whole module with strings as contents:
// a node has the objects it can point to and whether it can be (derived from) a secret. Functions and objects
// are cloned per call string, objects are field sensitive, the call graph is found on the way, functions
// of other modules are modelled.

const callDepth = 2

type tnode struct {
	objs map[*tobj]bool
	all  []*tobj
	sent int
	told bool // being secret has been passed on
	wait bool
	from int // where the secret came from
	desc func() string
	sec  bool
	why  string // what made it secret
	out  map[int]bool
	deps []*trule
}

// tobj is a location (with fields or elements below it), a boxed interface value or a function
type tobj struct {
	id      int
	typ     types.Type // of the location, or the dynamic type of a box
	box     bool
	fn      *ssa.Function
	lit     *string // a constant string; nil and isLit: some other string
	isLit   bool
	bind    []int
	varargs bool // what the arguments of a call are passed in
	ext     bool // belongs to another module
	val     int  // contents of a location, payload of a box, what an object of another module holds
	kids    map[string]*tobj
	deep    bool           // everything in it is secret
	subs    map[*tobj]bool // what gets a copy of the contents
	why     string
}

type trule struct {
	f     func()
	dirty bool
}

type tfun struct {
	fn    *ssa.Function
	stack []int
	nodes map[tkey]int
	cur   *ssa.BasicBlock
	rets  []int
}

type taint struct {
	p       *Program
	nodes   []*tnode
	objs    map[string]*tobj
	order   []*tobj
	funs    map[string]*tfun
	todo    []*tfun
	sites   []ssa.CallInstruction
	siteOf  map[ssa.CallInstruction]int
	globals map[*ssa.Global]*tobj
	rules   []*trule
	slow    []func()
	changed bool
	work    []int
	user    int // what the user holds
	lib     int // what other modules hold
	libErr  int
	sinks   map[string]*tsink
	entered map[string]bool
	epoch   int
	cleanAt int
	cleanN  map[int]bool
	cleanO  map[*tobj]bool
}

// tsink is a place where text leaves by a logger
type tsink struct {
	pos   token.Pos
	where string
	what  string
	raw   bool
	sec   bool
	why   string
}

func newTaint(p *Program) *taint {
	t := &taint{p: p, objs: map[string]*tobj{}, funs: map[string]*tfun{}, siteOf: map[ssa.CallInstruction]int{}, globals: map[*ssa.Global]*tobj{}, sinks: map[string]*tsink{}, entered: map[string]bool{}, cleanAt: -1}
	t.user, t.lib, t.libErr = t.node(), t.node(), t.node()
	return t
}

func (t *taint) node() int {
	t.nodes = append(t.nodes, &tnode{})
	return len(t.nodes) - 1
}

func (t *taint) edge(a, b int) {
	if a == b {
		return
	}
	n := t.nodes[a]
	if n.out[b] {
		return
	}
	if n.out == nil {
		n.out = map[int]bool{}
	}
	n.out[b] = true
	t.flow(a, b)
}

func (t *taint) flow(a, b int) {
	n := t.nodes[a]
	if n.sec {
		t.secretFrom(b, n.why, a)
	}
	for _, o := range n.all {
		t.add(b, o)
	}
}

func (t *taint) push(n int) {
	t.changed = true
	t.epoch++
	if !t.nodes[n].wait {
		t.nodes[n].wait = true
		t.work = append(t.work, n)
	}
	for _, r := range t.nodes[n].deps {
		t.dirt(r)
	}
}

func (t *taint) dirt(r *trule) {
	if !r.dirty {
		r.dirty = true
		t.rules = append(t.rules, r)
	}
}

func (t *taint) secret(n int, why string) { t.secretFrom(n, why, -1) }

func (t *taint) secretFrom(n int, why string, from int) {
	if m := t.nodes[n]; !m.sec {
		m.sec, m.why, m.from = true, why, from
		t.push(n)
	}
}

func (t *taint) add(n int, o *tobj) {
	m := t.nodes[n]
	if m.objs[o] {
		return
	}
	if m.objs == nil {
		m.objs = map[*tobj]bool{}
	}
	m.objs[o] = true
	m.all = append(m.all, o)
	t.push(n)
}

func (t *taint) drain() {
	for len(t.work) > 0 {
		checkBudget()
		w := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		n := t.nodes[w]
		n.wait = false
		news := n.all[n.sent:len(n.all):len(n.all)]
		n.sent = len(n.all)
		tell := n.sec && !n.told
		n.told = n.sec
		for b := range n.out {
			if tell {
				t.secretFrom(b, n.why, w)
			}
			for _, o := range news {
				t.add(b, o)
			}
		}
	}
}

// list is what a node can point to
func (t *taint) list(n int) []*tobj {
	l := t.nodes[n].all
	return l[:len(l):len(l)]
}

func (t *taint) obj(key string, typ types.Type) *tobj {
	if o := t.objs[key]; o != nil {
		return o
	}
	o := &tobj{id: len(t.order), typ: typ, val: t.node(), kids: map[string]*tobj{}}
	t.nodes[o.val].desc = func() string { return fmt.Sprintf("in %s %v", key, typ) }
	t.objs[key] = o
	t.order = append(t.order, o)
	t.changed = true
	return o
}

// kid is the location of a field or of the elements
func (t *taint) kid(o *tobj, key string, typ types.Type) *tobj {
	if k := o.kids[key]; k != nil {
		return k
	}
	k := &tobj{id: len(t.order), typ: typ, val: t.node(), kids: map[string]*tobj{}, ext: o.ext}
	t.nodes[k.val].desc = func() string { return fmt.Sprintf("%s of %v of %s", key, o.typ, t.nodes[o.val].desc()) }
	t.order = append(t.order, k)
	o.kids[key] = k
	t.changed = true
	if o.deep {
		t.soak(k, o.why)
	}
	for d := range o.subs {
		t.copyLoc(t.kid(d, key, typ), k)
	}
	return k
}

// soak makes everything in an object secret
func (t *taint) soak(o *tobj, why string) {
	if o.deep {
		return
	}
	o.deep, o.why = true, why
	t.epoch++
	t.changed = true
	t.secret(o.val, why)
	for _, k := range o.kids {
		t.soak(k, why)
	}
	for d := range o.subs {
		t.soak(d, why)
	}
}

func (t *taint) global(g *ssa.Global) *tobj {
	if o := t.globals[g]; o != nil {
		return o
	}
	o := t.obj("global "+g.String(), pointee(g.Type()))
	o.ext = g.Pkg == nil || !t.p.isModule(g.Pkg.Pkg)
	t.globals[g] = o
	return o
}

func (t *taint) fun(fn *ssa.Function, stack []int) *tfun {
	if len(stack) > callDepth {
		stack = stack[len(stack)-callDepth:]
	}
	key := fmt.Sprintf("%s %p %v", fnString(fn), fn, stack)
	if f := t.funs[key]; f != nil {
		return f
	}
	f := &tfun{fn: fn, stack: append([]int{}, stack...), nodes: map[tkey]int{}}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		f.rets = append(f.rets, t.node())
	}
	t.funs[key] = f
	t.todo = append(t.todo, f)
	t.changed = true
	return f
}

type tkey struct {
	v ssa.Value
	i int
}

// n is the node of a value
func (t *taint) n(f *tfun, v ssa.Value) int {
	if f.cur != nil && types.IsInterface(v.Type()) {
		if not := t.excluded(f.cur, v); len(not) > 0 {
			return t.without(f, v, not)
		}
	}
	return t.def(f, v)
}

// excluded are the types a value is known not to have in a block
func (t *taint) excluded(b *ssa.BasicBlock, v ssa.Value) []types.Type {
	refs := v.Referrers()
	if refs == nil {
		return nil
	}
	var not []types.Type
	for _, r := range *refs {
		ta, ok := r.(*ssa.TypeAssert)
		if !ok || !ta.CommaOk {
			continue
		}
		for _, r := range *ta.Referrers() {
			ex, ok := r.(*ssa.Extract)
			if !ok || ex.Index != 1 {
				continue
			}
			for _, r := range *ex.Referrers() {
				br, ok := r.(*ssa.If)
				if !ok {
					continue
				}
				if other := br.Block().Succs[1]; len(other.Preds) == 1 && other.Dominates(b) {
					not = append(not, ta.AssertedType)
				}
			}
		}
	}
	return not
}

// without is a value that does not have some types
func (t *taint) without(f *tfun, v ssa.Value, not []types.Type) int {
	k := tkey{v, 1000 + f.cur.Index}
	if n, ok := f.nodes[k]; ok {
		return n
	}
	n := t.node()
	t.nodes[n].desc = func() string { return fmt.Sprintf("%s %s of other types %v", t.p.relName(f.fn), v.Name(), f.stack) }
	f.nodes[k] = n
	from := t.def(f, v)
	t.rule(func() {
		if t.nodes[from].sec {
			t.secretFrom(n, t.nodes[from].why, from)
		}
	next:
		for _, o := range t.list(from) {
			if o.box && o.typ != nil {
				for _, ty := range not {
					if it, ok := ty.Underlying().(*types.Interface); ok && types.AssertableTo(it, o.typ) && types.Implements(o.typ, it) || !ok && types.Identical(ty, o.typ) {
						continue next
					}
				}
			}
			t.add(n, o)
		}
	}, from)
	return n
}

func (t *taint) def(f *tfun, v ssa.Value) int {
	k := tkey{v, -1}
	if n, ok := f.nodes[k]; ok {
		return n
	}
	n := t.node()
	f.nodes[k] = n
	t.nodes[n].desc = func() string { return fmt.Sprintf("%s %s %v", t.p.relName(f.fn), v.Name(), f.stack) }
	switch x := v.(type) {
	case *ssa.Global:
		t.add(n, t.global(x))
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			t.add(n, t.literal(constant.StringVal(x.Value)))
		}
	case *ssa.BinOp:
		if textual(x.Type()) {
			t.add(n, t.computed())
		}
	case *ssa.Convert:
		if textual(x.Type()) {
			t.add(n, t.computed())
		}
	case *ssa.Function:
		o := t.obj(fmt.Sprintf("func %p", x), x.Type())
		o.fn = x
		t.add(n, o)
	}
	return n
}

func (t *taint) literal(s string) *tobj {
	o := t.obj("literal "+s, nil)
	o.lit, o.isLit = &s, true
	return o
}

// computed is a string that is not constant
func (t *taint) computed() *tobj {
	o := t.obj("computed", nil)
	o.isLit = true
	return o
}

// part is a component of a tuple
func (t *taint) part(f *tfun, v ssa.Value, i int) int {
	k := tkey{v, i}
	if n, ok := f.nodes[k]; ok {
		return n
	}
	n := t.node()
	f.nodes[k] = n
	t.nodes[n].desc = func() string { return fmt.Sprintf("%s %s.%d %v", t.p.relName(f.fn), v.Name(), i, f.stack) }
	return n
}

func (t *taint) alloc(f *tfun, v ssa.Instruction, what string, typ types.Type) *tobj {
	return t.obj(fmt.Sprintf("%s %p %v", what, v, f.stack), typ)
}

// rule is evaluated whenever one of the nodes changes
func (t *taint) rule(f func(), nodes ...int) {
	r := &trule{f: f}
	for _, n := range nodes {
		t.nodes[n].deps = append(t.nodes[n].deps, r)
	}
	t.dirt(r)
}

// slowly is a rule that looks at more than a few nodes
func (t *taint) slowly(f func()) {
	t.slow = append(t.slow, f)
}

func isStruct(ty types.Type) bool {
	_, ok := ty.Underlying().(*types.Struct)
	return ok
}

func arrType(ty types.Type) bool {
	_, ok := ty.Underlying().(*types.Array)
	return ok
}

func aggregate(ty types.Type) bool { return isStruct(ty) || arrType(ty) }

// copyLoc copies the contents of a location
func (t *taint) copyLoc(dst, src *tobj) {
	if dst == src || !sameShape(dst.typ, src.typ) {
		return
	}
	if src.subs[dst] {
		return
	}
	if src.subs == nil {
		src.subs = map[*tobj]bool{}
	}
	src.subs[dst] = true
	t.edge(src.val, dst.val)
	for _, k := range sortedKeys(src.kids) {
		s := src.kids[k]
		t.copyLoc(t.kid(dst, k, s.typ), s)
	}
	if src.deep {
		t.soak(dst, src.why)
	}
}

// sameShape tells whether two locations can have the same contents
func sameShape(a, b types.Type) bool {
	return a == nil || b == nil || types.Identical(a.Underlying(), b.Underlying())
}

// value of a location: aggregates are represented by the location
func (t *taint) load(o *tobj, n int) {
	if aggregate(o.typ) {
		t.add(n, o)
		return
	}
	t.edge(o.val, n)
}

func (t *taint) store(o *tobj, n int) {
	if aggregate(o.typ) {
		for _, s := range t.list(n) {
			t.copyLoc(o, s)
		}
		if t.nodes[n].sec {
			t.soak(o, t.nodes[n].why)
		}
		return
	}
	t.edge(n, o.val)
}

func eltType(ty types.Type) types.Type {
	switch x := ty.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Array:
		return x.Elem()
	case *types.Pointer:
		return eltType(x.Elem())
	case *types.Map:
		return x.Elem()
	case *types.Chan:
		return x.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return types.NewInterfaceType(nil, nil)
}

func textual(ty types.Type) bool {
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (t *taint) why(in ssa.Instruction, what string) string {
	return fmt.Sprintf("%s: %s", t.p.pos(in.Pos()), what)
}

// enter analyses the body of a function for a call string
func (t *taint) enter(f *tfun) {
	fn := f.fn
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f.cur = b
			if _, ok := in.(*ssa.Phi); ok {
				f.cur = nil
			}
			t.instr(f, in)
		}
	}
	f.cur = nil
}

func (t *taint) instr(f *tfun, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		o := t.alloc(f, x, "alloc", pointee(x.Type()))
		o.varargs = x.Comment == "varargs"
		t.add(t.n(f, x), o)
	case *ssa.MakeSlice:
		t.add(t.n(f, x), t.alloc(f, x, "slice", types.NewArray(eltType(x.Type()), 0)))
	case *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		t.add(t.n(f, v), t.alloc(f, in, "map", v.Type()))
	case *ssa.MakeClosure:
		o := t.alloc(f, x, "closure", x.Type())
		o.fn = x.Fn.(*ssa.Function)
		if o.bind == nil {
			for _, b := range x.Bindings {
				o.bind = append(o.bind, t.n(f, b))
			}
		}
		t.add(t.n(f, x), o)
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.edge(t.n(f, e), t.n(f, x))
		}
	case *ssa.ChangeType:
		t.edge(t.n(f, x.X), t.n(f, x))
	case *ssa.ChangeInterface:
		t.edge(t.n(f, x.X), t.n(f, x))
	case *ssa.MakeInterface:
		o := t.alloc(f, x, "box", x.X.Type())
		o.box = true
		t.edge(t.n(f, x.X), o.val)
		t.add(t.n(f, x), o)
	case *ssa.Convert:
		from, to := t.n(f, x.X), t.n(f, x)
		switch {
		case textual(x.X.Type()) && !textual(x.Type()): // []byte(s), []rune(s)
			o := t.alloc(f, x, "bytes", types.NewArray(eltType(x.Type()), 0))
			t.edge(from, t.kid(o, "[]", eltType(x.Type())).val)
			t.add(to, o)
		case textual(x.Type()) && !textual(x.X.Type()):
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				t.rule(func() {
					for _, o := range t.list(from) {
						t.edge(t.kid(o, "[]", eltType(x.X.Type())).val, to)
					}
				}, from)
			} else {
				t.edge(from, to)
			}
		default:
			t.edge(from, to)
		}
	case *ssa.SliceToArrayPointer:
		t.edge(t.n(f, x.X), t.n(f, x))
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			t.edge(t.n(f, x.X), t.n(f, x))
			t.edge(t.n(f, x.Y), t.n(f, x))
		}
	case *ssa.UnOp:
		from, to := t.n(f, x.X), t.n(f, x)
		switch x.Op {
		case token.MUL:
			t.rule(func() {
				for _, o := range t.list(from) {
					t.load(o, to)
				}
				if t.nodes[from].sec {
					t.secret(to, t.nodes[from].why)
				}
			}, from)
		case token.ARROW:
			val := to
			if x.CommaOk {
				val = t.part(f, x, 0)
			}
			t.rule(func() {
				for _, o := range t.list(from) {
					t.load(t.kid(o, "[]", eltType(x.X.Type())), val)
				}
			}, from)
		case token.NOT:
		default:
			t.edge(from, to)
		}
	case *ssa.FieldAddr:
		from, to := t.n(f, x.X), t.n(f, x)
		st := pointee(x.X.Type())
		ft := st.Underlying().(*types.Struct).Field(x.Field)
		t.rule(func() {
			for _, o := range t.list(from) {
				if sameShape(o.typ, st) {
					t.add(to, t.kid(o, ft.Name(), ft.Type()))
				}
			}
			if t.nodes[from].sec {
				t.secret(to, t.nodes[from].why)
			}
		}, from)
	case *ssa.Field:
		from, to := t.n(f, x.X), t.n(f, x)
		ft := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		t.rule(func() {
			for _, o := range t.list(from) {
				if sameShape(o.typ, x.X.Type()) {
					t.load(t.kid(o, ft.Name(), ft.Type()), to)
				}
			}
		}, from)
	case *ssa.IndexAddr:
		index := int64(-1)
		if k, ok := x.Index.(*ssa.Const); ok && k.Value != nil {
			index = k.Int64()
		}
		from, to := t.n(f, x.X), t.n(f, x)
		t.rule(func() {
			for _, o := range t.list(from) {
				t.add(to, t.kid(o, "[]", eltType(x.X.Type())))
				if index >= 0 && o.varargs {
					t.add(to, t.kid(o, fmt.Sprintf("[%d]", index), eltType(x.X.Type())))
				}
			}
			if t.nodes[from].sec {
				t.secret(to, t.nodes[from].why)
			}
		}, from)
	case *ssa.Index:
		from, to := t.n(f, x.X), t.n(f, x)
		if textual(x.X.Type()) {
			t.edge(from, to)
			break
		}
		t.rule(func() {
			for _, o := range t.list(from) {
				t.load(t.kid(o, "[]", eltType(x.X.Type())), to)
			}
		}, from)
	case *ssa.Slice:
		// of an array pointer, a slice or a string
		t.edge(t.n(f, x.X), t.n(f, x))
	case *ssa.Store:
		addr, val := t.n(f, x.Addr), t.n(f, x.Val)
		t.rule(func() {
			for _, o := range t.list(addr) {
				t.store(o, val)
			}
		}, addr, val)
	case *ssa.MapUpdate:
		m, k, v := t.n(f, x.Map), t.n(f, x.Key), t.n(f, x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		t.rule(func() {
			for _, o := range t.list(m) {
				t.store(t.kid(o, "key", mt.Key()), k)
				t.store(t.kid(o, "[]", mt.Elem()), v)
			}
		}, m, k, v)
	case *ssa.Lookup:
		from, to := t.n(f, x.X), t.n(f, x)
		if textual(x.X.Type()) {
			t.edge(from, to)
			break
		}
		if x.CommaOk {
			to = t.part(f, x, 0)
		}
		t.rule(func() {
			for _, o := range t.list(from) {
				t.load(t.kid(o, "[]", eltType(x.X.Type())), to)
			}
		}, from)
	case *ssa.Range:
		t.edge(t.n(f, x.X), t.n(f, x))
	case *ssa.Next:
		it := x.Iter.(*ssa.Range)
		from, k, v := t.n(f, x.Iter), t.part(f, x, 1), t.part(f, x, 2)
		if x.IsString {
			t.edge(from, v)
			break
		}
		mt, ok := it.X.Type().Underlying().(*types.Map)
		if !ok {
			break
		}
		t.rule(func() {
			for _, o := range t.list(from) {
				t.load(t.kid(o, "key", mt.Key()), k)
				t.load(t.kid(o, "[]", mt.Elem()), v)
			}
		}, from)
	case *ssa.Extract:
		t.edge(t.part(f, x.Tuple, x.Index), t.n(f, x))
	case *ssa.TypeAssert:
		from, to := t.n(f, x.X), t.n(f, x)
		if x.CommaOk {
			to = t.part(f, x, 0)
		}
		t.rule(func() {
			for _, o := range t.list(from) {
				if !o.box {
					continue
				}
				if types.IsInterface(x.AssertedType) {
					if o.ext || o.typ == nil || types.AssertableTo(x.AssertedType.Underlying().(*types.Interface), o.typ) {
						t.add(to, o)
					}
				} else if o.typ == nil || types.Identical(o.typ, x.AssertedType) {
					t.edge(o.val, to)
				}
			}
		}, from)
	case *ssa.Send:
		ch, v := t.n(f, x.Chan), t.n(f, x.X)
		t.rule(func() {
			for _, o := range t.list(ch) {
				t.store(t.kid(o, "[]", eltType(x.Chan.Type())), v)
			}
		}, ch, v)
	case *ssa.Select:
		i := 2
		for _, s := range x.States {
			s := s
			ch := t.n(f, s.Chan)
			if s.Dir == types.SendOnly {
				v := t.n(f, s.Send)
				t.rule(func() {
					for _, o := range t.list(ch) {
						t.store(t.kid(o, "[]", eltType(s.Chan.Type())), v)
					}
				}, ch, v)
				continue
			}
			to := t.part(f, x, i)
			i++
			t.rule(func() {
				for _, o := range t.list(ch) {
					t.load(t.kid(o, "[]", eltType(s.Chan.Type())), to)
				}
			}, ch)
		}
	case *ssa.Return:
		for i, r := range x.Results {
			t.edge(t.n(f, r), f.rets[i])
		}
	case ssa.CallInstruction:
		t.call(f, x)
	}
}

func (t *taint) site(in ssa.CallInstruction) int {
	if i, ok := t.siteOf[in]; ok {
		return i
	}
	t.sites = append(t.sites, in)
	t.siteOf[in] = len(t.sites) - 1
	return len(t.sites) - 1
}

// result is the node of a component of what a call returns
func (t *taint) result(f *tfun, in ssa.CallInstruction, i int) int {
	v := in.Value()
	if v == nil {
		return -1
	}
	if in.Common().Signature().Results().Len() > 1 {
		return t.part(f, v, i)
	}
	return t.n(f, v)
}

func (t *taint) hasBody(fn *ssa.Function) bool { return len(fn.Blocks) > 0 }

func (t *taint) call(f *tfun, in ssa.CallInstruction) {
	c := in.Common()
	site := t.site(in)
	var args []int
	for _, a := range c.Args {
		args = append(args, t.n(f, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		t.builtin(f, in, b, args)
		return
	}
	if c.IsInvoke() {
		recv := t.n(f, c.Value)
		done := map[*tobj]bool{}
		ext := -1
		t.rule(func() {
			for _, o := range t.list(recv) {
				if !o.box || done[o] {
					continue
				}
				done[o] = true
				var fn *ssa.Function
				if !o.ext && o.typ != nil {
					fn = t.p.prog.LookupMethod(o.typ, c.Method.Pkg(), c.Method.Name())
				}
				if fn != nil && t.hasBody(fn) {
					t.bindCall(f, in, site, fn, append([]int{o.val}, args...), nil)
				} else {
					if ext < 0 {
						ext = t.node()
						t.extCall(f, in, site, c.Method.FullName(), append([]int{ext}, args...))
					}
					t.add(ext, o)
				}
			}
		}, recv)
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		if mk, ok := c.Value.(*ssa.MakeClosure); ok {
			var bind []int
			for _, b := range mk.Bindings {
				bind = append(bind, t.n(f, b))
			}
			t.bindCall(f, in, site, fn, args, bind)
			return
		}
		if t.hasBody(fn) {
			t.bindCall(f, in, site, fn, args, nil)
		} else {
			t.extCall(f, in, site, fnString(fn), args)
		}
		return
	}
	fv := t.n(f, c.Value)
	done := map[*tobj]bool{}
	t.rule(func() {
		for _, o := range t.list(fv) {
			if o.fn == nil || done[o] {
				continue
			}
			done[o] = true
			if t.hasBody(o.fn) {
				t.bindCall(f, in, site, o.fn, args, o.bind)
			} else {
				t.extCall(f, in, site, fnString(o.fn), args)
			}
		}
	}, fv)
}

func (t *taint) bindCall(f *tfun, in ssa.CallInstruction, site int, fn *ssa.Function, args, bind []int) {
	g := t.fun(fn, append(append([]int{}, f.stack...), site))
	for i, p := range fn.Params {
		if i < len(args) {
			t.edge(args[i], t.n(g, p))
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			t.edge(bind[i], t.n(g, p))
		}
	}
	t.sources(fn, g)
	for i, r := range g.rets {
		if n := t.result(f, in, i); n >= 0 {
			t.edge(r, n)
		}
	}
}

func (t *taint) builtin(f *tfun, in ssa.CallInstruction, b *ssa.Builtin, args []int) {
	c := in.Common()
	switch b.Name() {
	case "append":
		to := t.n(f, in.Value())
		et := eltType(in.Value().Type())
		fresh := t.alloc(f, in.(ssa.Instruction), "append", types.NewArray(et, 0))
		t.add(to, fresh)
		t.edge(args[0], to)
		if len(args) < 2 {
			return
		}
		text := textual(c.Args[1].Type())
		t.rule(func() {
			for _, d := range t.list(to) {
				dk := t.kid(d, "[]", et)
				for _, a := range []int{args[0], args[1]} {
					if text && a == args[1] {
						t.edge(a, dk.val)
						continue
					}
					for _, s := range t.list(a) {
						if s != d {
							t.copyLoc(dk, t.kid(s, "[]", et))
						}
					}
				}
			}
		}, args[0], args[1], to)
	case "copy":
		et := eltType(c.Args[0].Type())
		text := textual(c.Args[1].Type())
		t.rule(func() {
			for _, d := range t.list(args[0]) {
				dk := t.kid(d, "[]", et)
				if text {
					t.edge(args[1], dk.val)
					continue
				}
				for _, s := range t.list(args[1]) {
					if s != d {
						t.copyLoc(dk, t.kid(s, "[]", et))
					}
				}
			}
		}, args[0], args[1])
	case "print", "println":
		t.sink(f, in, "", args, c.Args, nil)
	case "min", "max":
		for _, a := range args {
			t.edge(a, t.n(f, in.Value()))
		}
	}
}

// sources are the parameters that secrets come in by
func (t *taint) sources(fn *ssa.Function, g *tfun) {
	k := fnString(fn)
	mark := func(i int, what string) {
		if i < len(fn.Params) && textual(fn.Params[i].Type()) {
			t.secret(t.n(g, fn.Params[i]), fmt.Sprintf("%s: %s", t.p.pos(fn.Pos()), what))
		}
	}
	switch k {
	case t.p.mod + ".WithBasicAuth":
		mark(1, "the password given to WithBasicAuth")
	case t.p.mod + ".WithConnectionString":
		mark(0, "the connection string given to WithConnectionString")
	case t.p.mod + "/connection.CreateBoltConn":
		mark(0, "the connection string given to CreateBoltConn")
	}
}

// deepSec tells whether a value has a secret in it
func (t *taint) deepSec(n int) (bool, string) {
	if t.cleanAt != t.epoch {
		t.cleanAt = t.epoch
		t.cleanN, t.cleanO = map[int]bool{}, map[*tobj]bool{}
	}
	return t.deepNode(n)
}

// what has been visited without finding anything is clean for as long as nothing changes
func (t *taint) deepNode(n int) (bool, string) {
	m := t.nodes[n]
	if m.sec {
		return true, m.why
	}
	if len(m.objs) == 0 || t.cleanN[n] {
		return false, ""
	}
	t.cleanN[n] = true
	for o := range m.objs {
		if s, w := t.deepObj(o); s {
			delete(t.cleanN, n)
			return true, w
		}
	}
	return false, ""
}

func (t *taint) deepTop(o *tobj) (bool, string) {
	if t.cleanAt != t.epoch {
		t.cleanAt = t.epoch
		t.cleanN, t.cleanO = map[int]bool{}, map[*tobj]bool{}
	}
	return t.deepObj(o)
}

// other modules use what belongs to this one by its methods only
func (t *taint) deepObj(o *tobj) (bool, string) {
	if o.deep {
		return true, o.why
	}
	if p, ok := o.typ.(*types.Pointer); ok && o.box && t.moduleType(p) {
		return false, ""
	}
	if t.cleanO[o] {
		return false, ""
	}
	t.cleanO[o] = true
	s, w := t.deepNode(o.val)
	for _, k := range o.kids {
		if !s {
			s, w = t.deepObj(k)
		}
	}
	for _, b := range o.bind {
		if !s {
			s, w = t.deepNode(b)
		}
	}
	if s {
		t.cleanO = map[*tobj]bool{}
		t.cleanN = map[int]bool{}
	}
	return s, w
}

// printed tells whether printing a value of a type shows a secret: pointers are followed at the top only
func (t *taint) printed(f *tfun, site int, n int, ty types.Type, depth int, seen map[interface{}]bool) (bool, string) {
	k := fmt.Sprintf("%d %d", n, depth)
	if seen[k] {
		return false, ""
	}
	seen[k] = true
	m := t.nodes[n]
	if m.sec {
		return true, m.why
	}
	for _, o := range t.list(n) {
		if s, w := t.printedObj(f, site, o, ty, depth, seen); s {
			return true, w
		}
	}
	return false, ""
}

func (t *taint) printedObj(f *tfun, site int, o *tobj, ty types.Type, depth int, seen map[interface{}]bool) (bool, string) {
	if o.deep {
		return true, o.why
	}
	if o.box {
		if o.ext || o.typ == nil {
			return t.deepTop(o)
		}
		for _, name := range []string{"Error", "String", "GoString"} {
			fn := t.p.method(o.typ, name)
			if fn == nil || fn.Signature.Params().Len() != 0 {
				continue
			}
			if !t.hasBody(fn) {
				return t.deepTop(o)
			}
			g := t.fun(fn, append(append([]int{}, f.stack...), site))
			if len(fn.Params) > 0 {
				t.edge(o.val, t.n(g, fn.Params[0]))
			}
			if len(g.rets) == 1 {
				if s := t.nodes[g.rets[0]]; s.sec {
					return true, s.why
				}
			}
			if name != "GoString" {
				return false, ""
			}
		}
		return t.printed(f, site, o.val, o.typ, depth, seen)
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		if depth > 0 {
			return false, ""
		}
		return t.printedLoc(f, site, o, u.Elem(), 1, seen)
	case *types.Signature, *types.Chan:
		return false, ""
	}
	return t.printedLoc(f, site, o, ty, 1, seen)
}

func (t *taint) printedLoc(f *tfun, site int, o *tobj, ty types.Type, depth int, seen map[interface{}]bool) (bool, string) {
	k := fmt.Sprintf("loc %d %d", o.id, depth)
	if seen[k] {
		return false, ""
	}
	seen[k] = true
	if o.deep {
		return true, o.why
	}
	for _, kn := range sortedKeys(o.kids) {
		k := o.kids[kn]
		if aggregate(k.typ) {
			if s, w := t.printedLoc(f, site, k, k.typ, depth, seen); s {
				return true, w
			}
		} else if s, w := t.printed(f, site, k.val, k.typ, depth, seen); s {
			return true, w
		}
	}
	return t.printed(f, site, o.val, o.typ, depth, seen)
}

// shown tells whether an argument of a printing function shows a secret
func (t *taint) shown(f *tfun, site int, name string, args []int, vals []ssa.Value, i int) (bool, string) {
	all := func() (bool, string) {
		sl, ok := vals[i].Type().Underlying().(*types.Slice)
		if !ok || i != len(args)-1 || !types.IsInterface(sl.Elem()) {
			return t.printed(f, site, args[i], vals[i].Type(), 0, map[interface{}]bool{})
		}
		// the operands themselves
		if m := t.nodes[args[i]]; m.sec {
			return true, m.why
		}
		for _, o := range t.list(args[i]) {
			if o.deep {
				return true, o.why
			}
			for _, k := range sortedKeys(o.kids) {
				if s, w := t.printed(f, site, o.kids[k].val, sl.Elem(), 0, map[interface{}]bool{}); s {
					return true, w
				}
			}
			if s, w := t.printed(f, site, o.val, sl.Elem(), 0, map[interface{}]bool{}); s {
				return true, w
			}
		}
		return false, ""
	}
	if i == 0 || i != len(args)-1 || !strings.HasSuffix(name, "f") || !textual(vals[i-1].Type()) {
		return all()
	}
	if _, ok := vals[i].Type().Underlying().(*types.Slice); !ok {
		return all()
	}
	hidden := map[int]bool{}
	for j, o := range t.list(args[i-1]) {
		h, ok := map[int]bool{}, false
		if o.lit != nil {
			h, ok = hiddenVerbs(*o.lit)
		}
		if !ok {
			return all()
		}
		if j == 0 {
			hidden = h
		}
		for k := range hidden {
			if !h[k] {
				delete(hidden, k)
			}
		}
	}
	if len(hidden) == 0 {
		return all()
	}
	for _, o := range t.list(args[i]) {
		if !o.varargs || o.deep {
			return all()
		}
		for _, k := range sortedKeys(o.kids) {
			n := -1
			if k == "[]" {
				continue
			}
			if fmt.Sscanf(k, "[%d]", &n); n >= 0 && hidden[n] {
				continue
			}
			if s, w := t.printed(f, site, o.kids[k].val, o.kids[k].typ, 0, map[interface{}]bool{}); s {
				return true, w
			}
		}
	}
	return false, ""
}

// hiddenVerbs are the operands of a format that show nothing but their type or address
func hiddenVerbs(format string) (map[int]bool, bool) {
	h := map[int]bool{}
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			return nil, false
		}
		switch format[i] {
		case '%':
			continue
		case '[', '*':
			return nil, false
		case 'T', 'p':
			h[n] = true
		}
		n++
	}
	return h, true
}

// sink notes what is printed
func (t *taint) sink(f *tfun, in ssa.CallInstruction, name string, args []int, vals []ssa.Value, raw func() bool) {
	pos, where := in.Pos(), t.p.relName(f.fn)
	// the call outside of the log package
	if t.inLog(f.fn) {
		for i := len(f.stack) - 1; i >= 0; i-- {
			s := t.sites[f.stack[i]]
			if !t.inLog(s.Parent()) {
				pos, where = s.Pos(), t.p.relName(s.Parent())
				break
			}
		}
	}
	key := fmt.Sprintf("%d %s", pos, where)
	s := t.sinks[key]
	if s == nil {
		s = &tsink{pos: pos, where: where}
		t.sinks[key] = s
	}
	site := t.site(in)
	t.slowly(func() {
		if s.sec || raw != nil && raw() {
			return
		}
		for i := range args {
			if ok, w := t.shown(f, site, name, args, vals, i); ok {
				s.sec, s.why = true, w
				t.changed = true
			}
		}
	})
}

// from is where a function is called
func (t *taint) from(f *tfun) string {
	if n := len(f.stack); n > 0 {
		return ", called at " + t.p.pos(t.sites[f.stack[n-1]].Pos())
	}
	return ""
}

func (t *taint) inLog(fn *ssa.Function) bool {
	for fn != nil && fn.Pkg == nil && fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == t.p.mod+"/log"
}

var cleanMethods = map[string]bool{
	"Hostname": true, "Port": true, "Query": true, "Redacted": true, "IsAbs": true, "EscapedPath": true, "EscapedFragment": true, "RequestURI": true, "Username": true,
}

// extCall models a function of another module
func (t *taint) extCall(f *tfun, in ssa.CallInstruction, site int, name string, args []int) {
	c := in.Common()
	res := c.Signature().Results()
	vals := append([]ssa.Value{}, c.Args...)
	if c.IsInvoke() {
		vals = append([]ssa.Value{c.Value}, vals...)
	}
	short := name[strings.LastIndex(name, ".")+1:]
	recv := strings.HasPrefix(name, "(") || c.IsInvoke()
	if isPrint(name) {
		var raw func() bool
		if recv && len(args) > 0 {
			lg := args[0]
			args, vals = args[1:], vals[1:]
			raw = func() bool { return t.rawLogger(lg) }
		}
		t.sink(f, in, name, args, vals, raw)
		return
	}
	network := strings.HasPrefix(name, "(net.Conn)") || strings.HasPrefix(name, "(*net.") || strings.HasPrefix(name, "(*crypto/tls.Conn)")
	std := !strings.Contains(strings.SplitN(strings.TrimLeft(name, "(*"), "/", 2)[0], ".") || !strings.Contains(name, "/")
	inURL := strings.HasPrefix(name, "(*net/url.") || strings.HasPrefix(name, "(net/url.")
	instr := in.(ssa.Instruction)
	formats := strings.HasPrefix(name, "fmt.")
	// what the receiver and the results hold, they keep what they were given
	key := fmt.Sprintf("ext %p %v", in, f.stack)
	var results []*tobj
	for i := 0; i < res.Len(); i++ {
		ty := res.At(i).Type()
		var o *tobj
		switch u := ty.Underlying().(type) {
		case *types.Pointer:
			o = t.obj(fmt.Sprintf("%s res %d", key, i), u.Elem())
		case *types.Slice:
			o = t.obj(fmt.Sprintf("%s res %d", key, i), types.NewArray(u.Elem(), 0))
		case *types.Struct, *types.Array, *types.Map, *types.Chan:
			o = t.obj(fmt.Sprintf("%s res %d", key, i), ty)
		case *types.Interface:
			o = t.obj(fmt.Sprintf("%s res %d", key, i), nil)
			o.box = true
		}
		if o != nil {
			o.ext = true
			if n := t.result(f, in, i); n >= 0 {
				t.add(n, o)
			}
		}
		if textual(ty) {
			if n := t.result(f, in, i); n >= 0 {
				t.add(n, t.computed())
			}
		}
		results = append(results, o)
	}
	_ = instr
	// callbacks
	called := map[*tobj]bool{}
	if !formats {
		for i, a := range args {
			if recv && i == 0 {
				continue
			}
			t.escape(f, site, a, std, called)
		}
	}
	t.slowly(func() {
		sec, why, inErr := false, "", false
		if !network {
			for i, a := range args {
				if inURL && i == 0 && cleanMethods[short] {
					continue
				}
				var s bool
				var w string
				if formats {
					s, w = t.shown(f, site, name, args, vals, i)
				} else {
					s, w = t.deepSec(a)
				}
				if s && (formats || textual(vals[i].Type()) || isError(vals[i].Type())) {
					inErr = true
				}
				if s {
					sec, why = true, w+"\n via "+t.p.pos(in.Pos())+" "+name+t.from(f)
				}
			}
		}
		// an object of another module keeps what it is given
		if recv && !network && !inURL && len(args) > 1 {
			for _, o := range t.list(args[0]) {
				for _, a := range args[1:] {
					if o.ext || !o.box {
						t.edge(a, o.val)
					}
				}
				if o.ext || o.typ != nil && !t.moduleType(o.typ) {
					for _, a := range args[1:] {
						if s, w := t.deepSec(a); s {
							t.soak(o, w+"\n into "+t.p.pos(in.Pos())+" "+name)
						}
					}
				}
			}
		}
		for i := 0; i < res.Len(); i++ {
			n := t.result(f, in, i)
			if n < 0 {
				continue
			}
			ty := res.At(i).Type()
			o := results[i]
			if name == "net/url.Parse" || name == "net/url.ParseRequestURI" {
				if sec && i == 0 {
					u := t.obj(key+" user", nil)
					u.ext = true
					t.soak(u, why)
					t.add(t.kid(o, "User", types.NewPointer(types.NewStruct(nil, nil))).val, u)
					continue
				}
			}
			if !sec || !carries(ty) || isError(ty) && !inErr {
				// the results can be what went in
				for j, a := range args {
					t.passOn(a, n, ty, recv && j == 0)
				}
				if types.IsInterface(ty) && !std {
					t.fromLib(n, ty)
				}
				continue
			}
			if o != nil {
				t.soak(o, why)
			} else {
				t.secret(n, why)
			}
			for j, a := range args {
				t.passOn(a, n, ty, recv && j == 0)
			}
		}
		// buffers that are filled
		if sec && !strings.HasPrefix(short, "Write") && !formats {
			for i, a := range args {
				sl, ok := vals[i].Type().Underlying().(*types.Slice)
				if !ok || recv && i == 0 {
					continue
				}
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && fills(short) {
					for _, o := range t.list(a) {
						t.secret(t.kid(o, "[]", sl.Elem()).val, why)
					}
				}
			}
		}
	})
}

func fills(name string) bool {
	for _, s := range []string{"Read", "Copy", "Put", "Encode", "Decode", "Append", "Fill"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

// carries tells whether a value of a type can have text in it
func carries(ty types.Type) bool {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return true
}

func isError(ty types.Type) bool {
	return types.Identical(ty, types.Universe.Lookup("error").Type())
}

func (t *taint) moduleType(ty types.Type) bool {
	for {
		p, ok := ty.(*types.Pointer)
		if !ok {
			break
		}
		ty = p.Elem()
	}
	n, ok := ty.(*types.Named)
	return ok && n.Obj().Pkg() != nil && t.p.isModule(n.Obj().Pkg())
}

// passOn lets the results of a function of another module be (parts of) its arguments
func (t *taint) passOn(a, n int, ty types.Type, recv bool) {
	for _, o := range t.list(a) {
		t.passObj(o, n, ty, recv, 0)
	}
}

func (t *taint) passObj(o *tobj, n int, ty types.Type, recv bool, depth int) {
	if depth > 2 {
		return
	}
	switch {
	case o.box && types.IsInterface(ty):
		if o.typ == nil || types.AssertableTo(ty.Underlying().(*types.Interface), o.typ) {
			t.add(n, o)
		}
	case !o.box && o.fn == nil && o.typ != nil && !types.IsInterface(ty):
		if pt, ok := ty.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), o.typ) {
			t.add(n, o)
		} else if st, ok := ty.Underlying().(*types.Slice); ok {
			if at, ok := o.typ.Underlying().(*types.Array); ok && types.Identical(at.Elem(), st.Elem()) {
				t.add(n, o)
			}
		} else if types.Identical(ty, o.typ) {
			t.add(n, o)
		}
	}
	if o.ext || recv || depth == 0 {
		for _, x := range t.list(o.val) {
			t.passObj(x, n, ty, recv, depth+1)
		}
		if k := o.kids["[]"]; k != nil {
			for _, x := range t.list(k.val) {
				t.passObj(x, n, ty, recv, depth+1)
			}
		}
	}
}

// escape lets another module call back into what it is given
func (t *taint) escape(f *tfun, site int, n int, std bool, called map[*tobj]bool) {
	stack := append(append([]int{}, f.stack...), site)
	t.slowly(func() {
		var visit func(o *tobj, depth int)
		visit = func(o *tobj, depth int) {
			if called[o] || depth > 3 {
				return
			}
			called[o] = true
			if o.fn != nil && t.hasBody(o.fn) {
				g := t.fun(o.fn, stack)
				for i, p := range o.fn.FreeVars {
					if i < len(o.bind) {
						t.edge(o.bind[i], t.n(g, p))
					}
				}
				t.fromWorld(g, 0)
				return
			}
			if o.box && !o.ext && o.typ != nil && t.moduleType(o.typ) {
				if !std {
					t.add(t.lib, o)
				}
				t.methods(o.typ, o.val, stack, !std)
				return
			}
			for _, x := range t.list(o.val) {
				visit(x, depth+1)
			}
			if k := o.kids["[]"]; k != nil {
				for _, x := range t.list(k.val) {
					visit(x, depth+1)
				}
			}
		}
		for _, o := range t.list(n) {
			visit(o, 0)
		}
	})
}

// fromLib lets another module return what it was given, or what it was returned
func (t *taint) fromLib(n int, ty types.Type) {
	it := ty.Underlying().(*types.Interface)
	isErr := isError(ty)
	src := t.lib
	if isErr {
		src = t.libErr
	}
	for _, o := range t.list(src) {
		if o.box && o.typ != nil && types.AssertableTo(it, o.typ) && (isErr || it.NumMethods() == 0) {
			t.add(n, o)
		}
	}
}

// methods makes the user or another module call every method of a type
func (t *taint) methods(ty types.Type, recv int, stack []int, lib bool) {
	ms := t.p.prog.MethodSets.MethodSet(ty)
	for i := 0; i < ms.Len(); i++ {
		if !ms.At(i).Obj().Exported() {
			continue
		}
		fn := t.p.prog.MethodValue(ms.At(i))
		if fn == nil || !t.hasBody(fn) {
			continue
		}
		key := fmt.Sprintf("method %p %d %v %v", fn, recv, stack, lib)
		if t.entered[key] {
			continue
		}
		t.entered[key] = true
		g := t.fun(fn, stack)
		if len(fn.Params) > 0 {
			t.edge(recv, t.n(g, fn.Params[0]))
		}
		t.fromWorld(g, 1)
		t.sources(fn, g)
		t.returned(g, lib)
	}
}

// fromWorld gives a function arguments the user (or another module) can have
func (t *taint) fromWorld(g *tfun, from int) {
	for i := from; i < len(g.fn.Params); i++ {
		p := g.fn.Params[i]
		n := t.n(g, p)
		ty := p.Type()
		if textual(ty) {
			t.add(n, t.computed())
		}
		switch u := ty.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Struct, *types.Array:
			lt := ty
			if pt, ok := u.(*types.Pointer); ok {
				lt = pt.Elem()
			}
			if st, ok := u.(*types.Slice); ok {
				lt = types.NewArray(st.Elem(), 0)
			}
			t.add(n, t.obj(fmt.Sprintf("arg %p %v", p, g.stack), lt))
		}
		t.rule(func() {
			for _, w := range []int{t.user, t.lib} {
				t.passWorld(w, n, ty)
			}
			if sl, ok := ty.Underlying().(*types.Slice); ok {
				for _, o := range t.list(n) {
					k := t.kid(o, "[]", sl.Elem())
					for _, w := range []int{t.user, t.lib} {
						t.passWorld(w, k.val, sl.Elem())
					}
				}
			}
		}, t.user, t.lib, n)
	}
}

func (t *taint) passWorld(w, n int, ty types.Type) {
	for _, o := range t.list(w) {
		switch {
		case o.fn != nil:
			if types.Identical(o.typ.Underlying(), ty.Underlying()) {
				t.add(n, o)
			}
		case o.box:
			if o.typ == nil {
				continue
			}
			if it, ok := ty.Underlying().(*types.Interface); ok && it.NumMethods() > 0 && types.AssertableTo(it, o.typ) {
				t.add(n, o)
			}
		case o.typ != nil:
			if pt, ok := ty.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), o.typ) {
				t.add(n, o)
			}
		}
	}
}

// returned hands what an exported function returns to its caller
func (t *taint) returned(g *tfun, lib bool) {
	res := g.fn.Signature.Results()
	for i, r := range g.rets {
		ty := res.At(i).Type()
		r := r
		isErr := isError(ty)
		if isErr {
			if lib {
				t.edge(r, t.libErr)
			}
			continue
		}
		w := t.user
		if lib {
			w = t.lib
		}
		t.slowly(func() {
			for _, o := range t.list(r) {
				if o.ext {
					// a wrapper of another module holds what was put in
					for _, x := range t.list(o.val) {
						t.add(w, x)
					}
					continue
				}
				if o.fn != nil || o.box && o.typ != nil && t.moduleType(o.typ) || !o.box && o.typ != nil && t.moduleType(o.typ) {
					t.add(w, o)
				}
			}
		})
	}
}

// rawLogger tells whether a logger is the one of the raw bytes only
func (t *taint) rawLogger(n int) bool {
	k := t.p.pkg("log")
	if k == nil {
		return false
	}
	g, ok := k.Members["TraceBytesLog"].(*ssa.Global)
	if !ok {
		return false
	}
	raw := t.nodes[t.global(g).val].objs
	objs := t.nodes[n].objs
	if len(objs) == 0 {
		return false
	}
	for o := range objs {
		if !raw[o] {
			return false
		}
	}
	return true
}

func isPrint(name string) bool {
	switch {
	case strings.HasPrefix(name, "(*log.Logger)."):
		m := name[len("(*log.Logger)."):]
		return strings.HasPrefix(m, "Print") || strings.HasPrefix(m, "Fatal") || strings.HasPrefix(m, "Panic") || m == "Output"
	case strings.HasPrefix(name, "log.Print"), strings.HasPrefix(name, "log.Fatal"), strings.HasPrefix(name, "log.Panic"), name == "log.Output", strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "log/slog."):
		return true
	}
	return false
}

// run finds the least solution
func (t *taint) run() {
	p := t.p
	for _, k := range p.initOrder() {
		if fn := k.Func("init"); fn != nil {
			t.fun(fn, nil)
		}
		path := k.Pkg.Path()
		if path == p.mod+"/log" || path == p.mod+"/errors" {
			continue
		}
		for _, n := range sortedKeys(k.Members) {
			fn, ok := k.Members[n].(*ssa.Function)
			if !ok || !token.IsExported(n) || !t.hasBody(fn) {
				continue
			}
			g := t.fun(fn, nil)
			t.sources(fn, g)
			t.fromWorld(g, 0)
			t.returned(g, false)
		}
	}
	t.rule(func() {
		for _, o := range t.list(t.user) {
			switch {
			case o.box:
				if o.typ != nil && t.moduleType(o.typ) {
					t.methods(o.typ, o.val, nil, false)
				}
			case o.fn != nil:
			case o.typ != nil:
				key := fmt.Sprintf("held %d", o.id)
				n := t.node()
				if old, ok := t.heldNode(key); ok {
					n = old
				} else {
					t.setHeld(key, n)
					t.add(n, o)
				}
				t.methods(types.NewPointer(o.typ), n, nil, false)
			}
		}
	}, t.user)
	for {
		t.changed = false
		for len(t.todo) > 0 {
			f := t.todo[0]
			t.todo = t.todo[1:]
			t.enter(f)
			t.drain()
		}
		for len(t.rules) > 0 {
			r := t.rules[0]
			t.rules = t.rules[1:]
			r.dirty = false
			r.f()
			t.drain()
		}
		if len(t.todo) > 0 {
			continue
		}
		for i := 0; i < len(t.slow); i++ {
			checkBudget()
			t.slow[i]()
			t.drain()
		}
		if os.Getenv("VERIF_PROGRESS") != "" {
			fmt.Println("round: functions", len(t.funs), "nodes", len(t.nodes), "objects", len(t.order), "rules", len(t.slow))
		}
		if !t.changed && len(t.todo) == 0 {
			break
		}
		if len(t.nodes) > 5000000 {
			panic(budgetErr{msg: "too many flows"})
		}
	}
}

func (t *taint) heldNode(key string) (int, bool) {
	o := t.objs[key]
	if o == nil {
		return 0, false
	}
	return o.val, true
}

func (t *taint) setHeld(key string, n int) {
	t.objs[key] = &tobj{id: -1, val: n}
}

func pointee(ty types.Type) types.Type {
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return ty
}
