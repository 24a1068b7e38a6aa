package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Value is an element of the abstract domain.  Values are immutable terms; two values
// with the same key denote the same concrete value in the same state.
type Value interface{ Key() string }

type (
	// Bool, Str and Flt are constants
	Bool bool
	Str  string
	Flt  string
	// Nil is the nil pointer, interface, slice, map, func or chan
	Nil struct{}
	// Sym is an unknown value
	Sym struct {
		id   int
		typ  types.Type
		name string
	}
	// App is a pure function of other values
	App struct {
		op   string
		args []Value
		typ  types.Type
		k    keyCache
	}
	// Lin is a linear integer expression over Sym and App atoms
	Lin struct {
		c  *big.Int
		ts []lterm
		k  keyCache
	}
	lterm struct {
		a Value
		n *big.Int
	}
	// Ptr points into a heap object
	Ptr struct {
		obj  int
		path []pathElem
		k    keyCache
	}
	pathElem struct {
		field int // -1 for an index
		idx   Value
	}
	// Struct is a struct value
	Struct struct {
		typ types.Type
		f   []Value
		k   keyCache
	}
	// Slice is a window on a heap object holding a *SeqV
	Slice struct {
		obj           int
		off, len, cap *Lin
		src           Value // condition under which the slice is nil, if it can be
	}
	// Iface is an interface holding a value of a known dynamic type
	Iface struct {
		typ types.Type
		v   Value
	}
	// MapV refers to a heap object holding a *MapC
	MapV struct {
		obj int
		src Value
	}
	// MapC is the content of a map: overrides (latest last) over a base
	MapC struct {
		base Value // nil for an empty map
		ovr  []mapEnt
		k    keyCache
	}
	mapEnt struct {
		key, val Value // val nil for a deleted key
		rep      *Lin  // for a summarised run of entries
	}
	// Fn is a function value
	Fn struct {
		fn   *ssa.Function
		bind []Value
		bi   string
	}
	// Tuple is a multi value
	Tuple struct{ vs []Value }
	// Ext is the state of an opaque library object
	Ext struct {
		kind string
		vs   []Value
	}
	// TypeV is a reflect.Type
	TypeV struct{ t types.Type }
	// SeqV is a sequence of elements
	SeqV struct {
		segs []Seg
		elem types.Type
		k    keyCache
	}
	// Cat is the concatenation of strings
	Cat struct {
		ps []Value
		k  keyCache
	}
)

// Seg is a part of a sequence
type Seg struct {
	kind byte // i item, n number field, r raw run of base, e encoding of v, * repetition, j junk
	v    Value
	n    *Lin // number of elements (r), repetitions (*)
	from *Lin // r
	w    int  // n
	tmpl []Seg
}

func (b Bool) Key() string { return strconv.FormatBool(bool(b)) }
func (s Str) Key() string  { return strconv.Quote(string(s)) }

// keyCache holds a key once it was asked for; values are shared between workers
type keyCache struct{ p atomic.Pointer[string] }

func (k *keyCache) none() bool   { return k.p.Load() == nil }
func (k *keyCache) get() string  { return *k.p.Load() }
func (k *keyCache) set(s string) { k.p.Store(&s) }

func (f Flt) Key() string  { return "f" + string(f) }
func (Nil) Key() string    { return "nil" }
func (s *Sym) Key() string { return "$" + strconv.Itoa(s.id) + ":" + s.name }
func (a *App) Key() string {
	if a.k.none() {
		var b strings.Builder
		b.WriteString(a.op)
		b.WriteByte('(')
		for i, x := range a.args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(x.Key())
		}
		b.WriteByte(')')
		a.k.set(b.String())
	}
	return a.k.get()
}
func (l *Lin) Key() string {
	if l.k.none() {
		var b strings.Builder
		b.WriteString(l.c.String())
		for _, t := range l.ts {
			b.WriteByte('+')
			b.WriteString(t.n.String())
			b.WriteByte('*')
			b.WriteString(t.a.Key())
		}
		l.k.set(b.String())
	}
	return l.k.get()
}
func (p *Ptr) Key() string {
	if p.k.none() {
		var b strings.Builder
		fmt.Fprintf(&b, "&%d", p.obj)
		for _, e := range p.path {
			if e.field >= 0 {
				fmt.Fprintf(&b, ".%d", e.field)
			} else {
				fmt.Fprintf(&b, "[%s]", e.idx.Key())
			}
		}
		p.k.set(b.String())
	}
	return p.k.get()
}
func (s *Struct) Key() string {
	if s.k.none() {
		var b strings.Builder
		b.WriteString(typeName(s.typ))
		b.WriteByte('{')
		for i, x := range s.f {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(x.Key())
		}
		b.WriteByte('}')
		s.k.set(b.String())
	}
	return s.k.get()
}
func (s *Slice) Key() string {
	return "sl" + strconv.Itoa(s.obj) + "[" + s.off.Key() + ":" + s.len.Key() + ":" + s.cap.Key() + "]"
}
func (i *Iface) Key() string { return "i<" + typeName(i.typ) + ">" + i.v.Key() }
func (m *MapV) Key() string  { return fmt.Sprintf("map%d", m.obj) }
func (m *MapC) Key() string {
	if m.k.none() {
		var b strings.Builder
		b.WriteString("mapc{")
		if m.base != nil {
			b.WriteString(m.base.Key())
		}
		for _, e := range m.ovr {
			b.WriteByte(';')
			b.WriteString(e.key.Key())
			b.WriteByte('=')
			if e.val == nil {
				b.WriteString("DEL")
			} else {
				b.WriteString(e.val.Key())
			}
			if e.rep != nil {
				b.WriteString(" x" + e.rep.Key())
			}
		}
		b.WriteByte('}')
		m.k.set(b.String())
	}
	return m.k.get()
}
func (f *Fn) Key() string {
	s := "fn:" + f.bi
	if f.fn != nil {
		s += fnString(f.fn)
	}
	for _, b := range f.bind {
		s += "|" + b.Key()
	}
	return s
}
func (t *Tuple) Key() string {
	s := "("
	for _, v := range t.vs {
		s += v.Key() + ","
	}
	return s + ")"
}
func (e *Ext) Key() string {
	s := "ext:" + e.kind + "("
	for _, v := range e.vs {
		s += v.Key() + ","
	}
	return s + ")"
}
func (t *TypeV) Key() string { return "type:" + typeName(t.t) }
func (g Seg) Key() string {
	switch g.kind {
	case 'i':
		return g.v.Key()
	case 'n':
		return fmt.Sprintf("int%d(%s)", 8*g.w, g.v.Key())
	case 'r':
		return fmt.Sprintf("%s[%s+:%s]", g.v.Key(), g.from.Key(), g.n.Key())
	case 'e':
		return "ENC(" + g.v.Key() + ")"
	case 'j':
		return "JUNK"
	case '*':
		s := "rep(" + g.n.Key() + "){"
		for _, t := range g.tmpl {
			s += t.Key() + " "
		}
		return s + "}"
	}
	return "?"
}
func (s *SeqV) Key() string {
	if s.k.none() {
		var b strings.Builder
		b.WriteString("<")
		for _, g := range s.segs {
			b.WriteString(g.Key())
			b.WriteByte(' ')
		}
		b.WriteString(">")
		s.k.set(b.String())
	}
	return s.k.get()
}
func (c *Cat) Key() string {
	if c.k.none() {
		var b strings.Builder
		b.WriteString("cat(")
		for i, p := range c.ps {
			if i > 0 {
				b.WriteByte('+')
			}
			b.WriteString(p.Key())
		}
		b.WriteByte(')')
		c.k.set(b.String())
	}
	return c.k.get()
}

var qual = func(p *types.Package) string { return p.Path() }

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, qual)
}

// ---- linear expressions

func bi(n int64) *big.Int { return big.NewInt(n) }

func mkLin(c *big.Int, ts []lterm) *Lin {
	sort.Slice(ts, func(i, j int) bool { return ts[i].a.Key() < ts[j].a.Key() })
	out := ts[:0:0]
	for _, t := range ts {
		if len(out) > 0 && out[len(out)-1].a.Key() == t.a.Key() {
			out[len(out)-1].n = new(big.Int).Add(out[len(out)-1].n, t.n)
		} else {
			out = append(out, t)
		}
	}
	fin := out[:0]
	for _, t := range out {
		if t.n.Sign() != 0 {
			fin = append(fin, t)
		}
	}
	return &Lin{c: c, ts: fin}
}

func num(n int64) *Lin         { return &Lin{c: bi(n)} }
func numBig(n *big.Int) *Lin   { return &Lin{c: n} }
func atomLin(a Value) *Lin     { return &Lin{c: bi(0), ts: []lterm{{a, bi(1)}}} }
func (l *Lin) isConst() bool   { return len(l.ts) == 0 }
func (l *Lin) int() int        { return int(l.c.Int64()) }
func (l *Lin) isZero() bool    { return len(l.ts) == 0 && l.c.Sign() == 0 }
func (l *Lin) is(n int64) bool { return len(l.ts) == 0 && l.c.Cmp(bi(n)) == 0 }

func (l *Lin) atom() Value {
	if len(l.ts) == 1 && l.c.Sign() == 0 && l.ts[0].n.Cmp(bi(1)) == 0 {
		return l.ts[0].a
	}
	return nil
}

func addLin(a, b *Lin) *Lin {
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	ts := append(append([]lterm{}, a.ts...), b.ts...)
	return mkLin(new(big.Int).Add(a.c, b.c), ts)
}

func mulLin(a *Lin, k *big.Int) *Lin {
	if k.Sign() == 0 {
		return num(0)
	}
	ts := make([]lterm, len(a.ts))
	for i, t := range a.ts {
		ts[i] = lterm{t.a, new(big.Int).Mul(t.n, k)}
	}
	return &Lin{c: new(big.Int).Mul(a.c, k), ts: ts}
}

func negLin(a *Lin) *Lin    { return mulLin(a, bi(-1)) }
func subLin(a, b *Lin) *Lin { return addLin(a, negLin(b)) }

// asLin views an integer value as a linear expression
func asLin(v Value) *Lin {
	switch x := v.(type) {
	case *Lin:
		return x
	case *Sym, *App:
		return atomLin(x)
	}
	return nil
}

// normInt turns a linear expression that is a lone atom into a Lin anyway: integers are
// always kept as *Lin so that keys agree
func mkApp(op string, typ types.Type, args ...Value) *App {
	return &App{op: op, args: args, typ: typ}
}

func valType(v Value) types.Type {
	switch x := v.(type) {
	case *Sym:
		return x.typ
	case *App:
		return x.typ
	case *Struct:
		return x.typ
	}
	return nil
}

// mapVal rebuilds v bottom up: f may replace a value (returning non nil) before its parts are visited
func mapVal(v Value, f func(Value) Value) Value {
	if v == nil {
		return nil
	}
	if r := f(v); r != nil {
		return r
	}
	mapAll := func(vs []Value) ([]Value, bool) {
		var out []Value
		for i, x := range vs {
			y := mapVal(x, f)
			if out == nil && !same(x, y) {
				out = append([]Value{}, vs[:i]...)
			}
			if out != nil {
				out = append(out, y)
			}
		}
		if out == nil {
			return vs, false
		}
		return out, true
	}
	switch x := v.(type) {
	case *App:
		if a, ch := mapAll(x.args); ch {
			return simplifyApp(&App{op: x.op, args: a, typ: x.typ})
		}
	case *Lin:
		return mapLin(x, f)
	case *Ptr:
		var np []pathElem
		for i, e := range x.path {
			if e.field < 0 {
				if n := mapVal(e.idx, f); !same(n, e.idx) {
					if np == nil {
						np = append(np, x.path...)
					}
					np[i].idx = n
				}
			}
		}
		if np != nil {
			return &Ptr{obj: x.obj, path: np}
		}
	case *Struct:
		if a, ch := mapAll(x.f); ch {
			return &Struct{typ: x.typ, f: a}
		}
	case *Slice:
		n := &Slice{obj: x.obj, off: mapLin(x.off, f), len: mapLin(x.len, f), cap: mapLin(x.cap, f), src: mapVal(x.src, f)}
		if n.off != x.off || n.len != x.len || n.cap != x.cap || !same(n.src, x.src) {
			return n
		}
	case *Iface:
		if n := mapVal(x.v, f); !same(n, x.v) {
			return &Iface{typ: x.typ, v: n}
		}
	case *Fn:
		if a, ch := mapAll(x.bind); ch {
			return &Fn{fn: x.fn, bind: a, bi: x.bi}
		}
	case *Tuple:
		if a, ch := mapAll(x.vs); ch {
			return &Tuple{a}
		}
	case *Ext:
		if a, ch := mapAll(x.vs); ch {
			return &Ext{kind: x.kind, vs: a}
		}
	case *Cat:
		if a, ch := mapAll(x.ps); ch {
			return mkCat(a...)
		}
	case *SeqV:
		segs, ch := mapSegs(x.segs, f)
		if ch {
			return &SeqV{segs: segs, elem: x.elem}
		}
	case *MapC:
		n := &MapC{base: mapBase(x.base, f)}
		ch := !same(n.base, x.base)
		for _, e := range x.ovr {
			ne := mapEnt{key: mapVal(e.key, f), val: mapVal(e.val, f)}
			if e.rep != nil {
				ne.rep = mapLin(e.rep, f)
			}
			ch = ch || ne.rep != e.rep || !same(ne.key, e.key) || !same(ne.val, e.val)
			n.ovr = append(n.ovr, ne)
		}
		if ch {
			return n
		}
	case *MapV:
		if n := mapVal(x.src, f); !same(n, x.src) {
			return &MapV{obj: x.obj, src: n}
		}
	}
	return v
}

// atBase marks a term used for its identity: what it was expanded into is not substituted for it
type atBase struct{ v Value }

func (b *atBase) Key() string { return "base:" + b.v.Key() }

func mapBase(v Value, f func(Value) Value) Value {
	switch v.(type) {
	case *Sym, *App:
		if r := f(&atBase{v}); r != nil {
			return r
		}
	}
	return mapVal(v, f)
}

func same(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a == b || a.Key() == b.Key()
}

func mapLin(x *Lin, f func(Value) Value) *Lin {
	ch := false
	ns := make([]Value, 0, 4)
	for _, t := range x.ts {
		n := mapVal(t.a, f)
		if !same(n, t.a) {
			ch = true
		}
		ns = append(ns, n)
	}
	if !ch {
		return x
	}
	acc := &Lin{c: x.c}
	for i, t := range x.ts {
		n := ns[i]
		nl := asLin(n)
		if nl == nil {
			nl = atomLin(mkApp("notint", nil, n))
		}
		acc = addLin(acc, mulLin(nl, t.n))
	}
	return acc
}

func mapSegs(segs []Seg, f func(Value) Value) ([]Seg, bool) {
	var out []Seg
	for i, g := range segs {
		n := g
		sameTmpl := true
		if g.kind == 'r' {
			n.v = mapBase(g.v, f)
		} else {
			n.v = mapVal(g.v, f)
		}
		if g.n != nil {
			n.n = mapLin(g.n, f)
		}
		if g.from != nil {
			n.from = mapLin(g.from, f)
		}
		if g.tmpl != nil {
			var tch bool
			n.tmpl, tch = mapSegs(g.tmpl, f)
			sameTmpl = !tch
		}
		if n.n != g.n || n.from != g.from || !sameTmpl || !same(n.v, g.v) {
			if out == nil {
				out = append(out, segs...)
			}
			out[i] = n
		}
	}
	if out == nil {
		return segs, false
	}
	return out, true
}

// walkVal visits v and its parts
func walkVal(v Value, f func(Value)) {
	mapVal(v, func(x Value) Value {
		f(x)
		return nil
	})
}

func contains(v Value, pred func(Value) bool) bool {
	found := false
	walkVal(v, func(x Value) {
		if pred(x) {
			found = true
		}
	})
	return found
}

// simplifyApp re-evaluates pure functions whose arguments became known
func simplifyApp(a *App) Value {
	switch a.op {
	case "le0":
		l := asLin(a.args[0])
		if l != nil && l.isConst() {
			return Bool(l.c.Sign() <= 0)
		}
	case "eq0":
		l := asLin(a.args[0])
		if l != nil && l.isConst() {
			return Bool(l.c.Sign() == 0)
		}
	case "len":
		switch x := a.args[0].(type) {
		case Str:
			return num(int64(len(x)))
		case Nil:
			return num(0)
		case *Slice:
			return x.len
		}
	case "not":
		if b, ok := a.args[0].(Bool); ok {
			return Bool(!b)
		}
	case "at":
		// an element of a sequence constant
	}
	if strings.HasPrefix(a.op, "conv:") {
		if l, ok := a.args[0].(*Lin); ok && l.isConst() {
			lo, hi, okr := rangeOfName(a.op[5:])
			if okr && l.c.Cmp(lo) >= 0 && l.c.Cmp(hi) <= 0 {
				return l
			}
			if okr {
				return numBig(wrapBig(l.c, lo, hi))
			}
		}
	}
	return a
}

func wrapBig(c, lo, hi *big.Int) *big.Int {
	n := new(big.Int).Sub(hi, lo)
	n.Add(n, bi(1))
	r := new(big.Int).Sub(c, lo)
	r.Mod(r, n)
	return r.Add(r, lo)
}

var intRanges = map[string][2]*big.Int{}

func init() {
	two := bi(2)
	pw := func(n int64) *big.Int { return new(big.Int).Exp(two, bi(n), nil) }
	for _, b := range []int64{8, 16, 32, 64} {
		intRanges[fmt.Sprintf("int%d", b)] = [2]*big.Int{new(big.Int).Neg(pw(b - 1)), new(big.Int).Sub(pw(b-1), bi(1))}
		intRanges[fmt.Sprintf("uint%d", b)] = [2]*big.Int{bi(0), new(big.Int).Sub(pw(b), bi(1))}
	}
	intRanges["int"] = intRanges["int64"]
	intRanges["uint"] = intRanges["uint64"]
	intRanges["uintptr"] = intRanges["uint64"]
	intRanges["byte"] = intRanges["uint8"]
	intRanges["rune"] = intRanges["int32"]
}

func rangeOfName(n string) (*big.Int, *big.Int, bool) {
	r, ok := intRanges[n]
	if !ok {
		return nil, nil, false
	}
	return r[0], r[1], true
}

func basicName(t types.Type) string {
	if t == nil {
		return ""
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.UntypedInt:
		return "int"
	case types.UntypedRune:
		return "int32"
	case types.Byte:
		return "uint8"
	}
	return b.Name()
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func typeRange(t types.Type) (*big.Int, *big.Int) {
	lo, hi, ok := rangeOfName(basicName(t))
	if !ok {
		return nil, nil
	}
	return lo, hi
}

// mkCat concatenates strings, merging constants
func mkCat(ps ...Value) Value {
	var out []Value
	var add func(p Value)
	add = func(p Value) {
		switch x := p.(type) {
		case *Cat:
			for _, q := range x.ps {
				add(q)
			}
		case Str:
			if x == "" {
				return
			}
			if n := len(out); n > 0 {
				if y, ok := out[n-1].(Str); ok {
					out[n-1] = y + x
					return
				}
			}
			out = append(out, x)
		default:
			out = append(out, p)
		}
	}
	for _, p := range ps {
		add(p)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Cat{ps: out}
}

func catParts(v Value) []Value {
	if c, ok := v.(*Cat); ok {
		return c.ps
	}
	return []Value{v}
}
