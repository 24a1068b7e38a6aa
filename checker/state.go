package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Obj struct {
	typ types.Type
	val Value
	// site names where the object was allocated
	site string
}

type ival struct{ lo, hi *big.Int }

type bindEnt struct {
	term Value
	val  Value
}

// TraceNode is the list of decisions and events on the way to a state
type TraceNode struct {
	prev *TraceNode
	pos  token.Pos
	text string
}

// State is one partition element of the abstract state
type State struct {
	heap  map[int]*Obj
	bind  map[string]bindEnt
	iv    map[string]ival
	atoms map[string]Value
	cons  []*Lin // each <= 0
	ghost map[string]Value
	trace *TraceNode
	// imprecise notes give up exactness
	notes map[string]bool
	// shared reports which maps are shared with another state (copy on write)
	shH, shB, shI, shG, shN bool
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, bind: map[string]bindEnt{}, iv: map[string]ival{}, atoms: map[string]Value{}, ghost: map[string]Value{}, notes: map[string]bool{}}
}

func (s *State) clone() *State {
	s.shH, s.shB, s.shI, s.shG, s.shN = true, true, true, true, true
	n := *s
	n.cons = s.cons[:len(s.cons):len(s.cons)]
	return &n
}

func (s *State) wH() {
	if s.shH {
		m := make(map[int]*Obj, len(s.heap)+4)
		for k, v := range s.heap {
			m[k] = v
		}
		s.heap, s.shH = m, false
	}
}
func (s *State) wB() {
	if s.shB {
		m := make(map[string]bindEnt, len(s.bind)+4)
		for k, v := range s.bind {
			m[k] = v
		}
		s.bind, s.shB = m, false
	}
}
func (s *State) wI() {
	if s.shI {
		m := make(map[string]ival, len(s.iv)+4)
		for k, v := range s.iv {
			m[k] = v
		}
		a := make(map[string]Value, len(s.atoms)+4)
		for k, v := range s.atoms {
			a[k] = v
		}
		s.iv, s.atoms, s.shI = m, a, false
	}
}
func (s *State) wG() {
	if s.shG {
		m := make(map[string]Value, len(s.ghost)+4)
		for k, v := range s.ghost {
			m[k] = v
		}
		s.ghost, s.shG = m, false
	}
}
func (s *State) note(format string, a ...interface{}) {
	if s.shN {
		m := make(map[string]bool, len(s.notes)+1)
		for k, v := range s.notes {
			m[k] = v
		}
		s.notes, s.shN = m, false
	}
	s.notes[fmt.Sprintf(format, a...)] = true
}

func (s *State) setObj(id int, o *Obj) { s.wH(); s.heap[id] = o }
func (s *State) g(name string) Value   { return s.ghost[name] }
func (s *State) setG(name string, v Value) {
	s.wG()
	if v == nil {
		delete(s.ghost, name)
	} else {
		s.ghost[name] = v
	}
}
func (s *State) gBool(name string) bool {
	b, ok := s.ghost[name].(Bool)
	return ok && bool(b)
}
func (s *State) event(pos token.Pos, format string, a ...interface{}) {
	s.trace = &TraceNode{prev: s.trace, pos: pos, text: fmt.Sprintf(format, a...)}
}

func (s *State) setBind(term, val Value) {
	s.wB()
	s.bind[term.Key()] = bindEnt{term, val}
}

// R resolves a value under what is known in the state
func (s *State) R(v Value) Value {
	switch x := v.(type) {
	case Bool, Str, Flt, Nil, *TypeV, nil:
		return v
	case *Lin:
		if x.isConst() {
			return v
		}
	case *Ptr:
		if len(x.path) == 0 {
			return v
		}
	}
	return mapVal(v, s.res1)
}

func (s *State) res1(x Value) Value {
	switch t := x.(type) {
	case *atBase:
		return s.base(t.v)
	case *Sym, *App:
		if e, ok := s.bind[t.Key()]; ok {
			r := s.R(e.val)
			return r
		}
		if i, ok := s.iv[t.Key()]; ok && i.lo != nil && i.hi != nil && i.lo.Cmp(i.hi) == 0 {
			return numBig(i.lo)
		}
		if a, ok := t.(*App); ok {
			// resolve below first
			n := mapArgs(a, s, false)
			if n != nil {
				return n
			}
			return a
		}
		return t
	}
	return nil
}

// base resolves a term used for its identity: what it was expanded into is not substituted for it
func (s *State) base(v Value) Value {
	switch x := v.(type) {
	case *Sym, *App:
		if e, ok := s.bind[v.Key()]; ok {
			switch e.val.(type) {
			case *Ptr, *Slice, *MapV, *Iface:
				return v
			}
			return s.base(e.val)
		}
		if i, ok := s.iv[v.Key()]; ok && i.lo != nil && i.hi != nil && i.lo.Cmp(i.hi) == 0 {
			return numBig(i.lo)
		}
		if a, ok := x.(*App); ok {
			if n := mapArgs(a, s, true); n != nil {
				return n
			}
		}
		return v
	}
	return s.R(v)
}

// mapArgs resolves the arguments of a; nil when unchanged
func mapArgs(a *App, s *State, base bool) Value {
	var out []Value
	for i, x := range a.args {
		y := s.base(x)
		if out == nil && !same(x, y) {
			out = append([]Value{}, a.args[:i]...)
		}
		if out != nil {
			out = append(out, y)
		}
	}
	if out == nil {
		return nil
	}
	r := simplifyApp(&App{op: a.op, args: out, typ: a.typ})
	if b, ok := r.(*App); ok {
		if e, ok := s.bind[b.Key()]; ok {
			if base {
				switch e.val.(type) {
				case *Ptr, *Slice, *MapV, *Iface:
					return b
				}
			}
			return s.R(e.val)
		}
		if i, ok := s.iv[b.Key()]; ok && i.lo != nil && i.hi != nil && i.lo.Cmp(i.hi) == 0 {
			return numBig(i.lo)
		}
	}
	return r
}

// ---- integer reasoning

var maxLen = new(big.Int).Exp(bi(2), bi(62), nil)

func (s *State) atomRange(a Value) (*big.Int, *big.Int) {
	var lo, hi *big.Int
	if t := valType(a); t != nil {
		lo, hi = typeRange(t)
	}
	meet := func(l, h *big.Int) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	if x, ok := a.(*App); ok {
		switch x.op {
		case "len", "cap", "replen", "junklen":
			meet(bi(0), maxLen)
		case "enclen":
			meet(bi(1), maxLen)
		case "&":
			if l, ok := x.args[1].(*Lin); ok && l.isConst() && l.c.Sign() >= 0 {
				meet(bi(0), l.c)
			}
		case "%":
			if l, ok := x.args[1].(*Lin); ok && l.isConst() && l.c.Sign() > 0 {
				m := new(big.Int).Sub(l.c, bi(1))
				al, _ := s.rangeOf(asLin(x.args[0]))
				if al != nil && al.Sign() >= 0 {
					meet(bi(0), m)
				} else {
					meet(new(big.Int).Neg(m), m)
				}
			}
		case "shr":
			if l, ok := x.args[1].(*Lin); ok && l.isConst() {
				al, ah := s.rangeOf(asLin(x.args[0]))
				if al != nil && ah != nil {
					meet(new(big.Int).Rsh(al, uint(l.int())), new(big.Int).Rsh(ah, uint(l.int())))
				}
			}
		case "/":
			if l, ok := x.args[1].(*Lin); ok && l.isConst() && l.c.Sign() > 0 {
				al, ah := s.rangeOf(asLin(x.args[0]))
				if al != nil && ah != nil {
					meet(new(big.Int).Quo(al, l.c), new(big.Int).Quo(ah, l.c))
				}
			}
		case "min":
			for _, y := range x.args {
				_, h := s.rangeOf(asLin(y))
				meet(nil, h)
			}
			l0, _ := s.rangeOf(asLin(x.args[0]))
			l1, _ := s.rangeOf(asLin(x.args[1]))
			if l0 != nil && l1 != nil {
				if l0.Cmp(l1) > 0 {
					l0 = l1
				}
				meet(l0, nil)
			}
		}
	}
	if i, ok := s.iv[a.Key()]; ok {
		meet(i.lo, i.hi)
	}
	return lo, hi
}

// rangeOf bounds a linear expression by intervals
func (s *State) rangeOf(l *Lin) (*big.Int, *big.Int) {
	if l == nil {
		return nil, nil
	}
	lo, hi := l.c, l.c
	for _, t := range l.ts {
		al, ah := s.atomRange(t.a)
		if t.n.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(t.n, al))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(t.n, ah))
			}
		}
	}
	return lo, hi
}

func (s *State) rlin(l *Lin) *Lin {
	if l.isConst() {
		return l
	}
	r, _ := s.R(l).(*Lin)
	if r == nil {
		return l
	}
	return r
}

// implied constraints of an atom, such as min(a,b) <= a
func (s *State) atomCons(a Value) []*Lin {
	x, ok := a.(*App)
	if !ok {
		return nil
	}
	me := atomLin(a)
	switch x.op {
	case "min":
		return []*Lin{subLin(me, asLin(x.args[0])), subLin(me, asLin(x.args[1]))}
	}
	return nil
}

// prove shows e <= 0
func (s *State) prove(e *Lin) bool {
	return s.proveN(s.rlin(e), 4)
}

func (s *State) proveN(e *Lin, depth int) bool {
	p := prover{s: s, budget: 150}
	return p.prove(e, depth)
}

// prover searches for a combination of known constraints that implies the goal
type prover struct {
	s      *State
	budget int
	seen   map[string]int
}

func (p *prover) prove(e *Lin, depth int) bool {
	s := p.s
	_, hi := s.rangeOf(e)
	if hi != nil && hi.Sign() <= 0 {
		return true
	}
	if depth == 0 || e.isConst() || len(s.cons) == 0 && !hasMin(e) {
		return false
	}
	for _, c := range s.cons {
		if len(c.ts) == len(e.ts) {
			if d := subLin(e, c); d.isConst() && d.c.Sign() <= 0 {
				return true
			}
		}
	}
	if p.seen == nil {
		p.seen = map[string]int{}
	}
	if d, ok := p.seen[e.Key()]; ok && d >= depth {
		return false
	}
	p.seen[e.Key()] = depth
	try := func(c *Lin) bool {
		// use c <= 0 to eliminate an atom with the same sign
		for _, t := range e.ts {
			for _, u := range c.ts {
				if u.n.Sign() == t.n.Sign() && u.a.Key() == t.a.Key() {
					if p.budget--; p.budget < 0 {
						return false
					}
					// e - (t.n/u.n) c, scaled by |u.n|
					un := new(big.Int).Abs(u.n)
					tn := new(big.Int).Abs(t.n)
					e2 := subLin(mulLin(e, un), mulLin(c, tn))
					if p.prove(e2, depth-1) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, c := range s.cons {
		if try(c) {
			return true
		}
	}
	for _, t := range e.ts {
		for _, c := range s.atomCons(t.a) {
			if try(c) {
				return true
			}
		}
	}
	return false
}

func hasMin(e *Lin) bool {
	for _, t := range e.ts {
		if a, ok := t.a.(*App); ok && a.op == "min" {
			return true
		}
	}
	return false
}

func (s *State) proveLE(a, b *Lin) bool { return s.prove(subLin(a, b)) }
func (s *State) proveLT(a, b *Lin) bool { return s.prove(addLin(subLin(a, b), num(1))) }
func (s *State) proveEQ(a, b *Lin) bool {
	d := s.rlin(subLin(a, b))
	if d.isZero() {
		return true
	}
	if d.isConst() {
		return false
	}
	return s.proveN(d, 3) && s.proveN(negLin(d), 3)
}

// addCon assumes e <= 0; false when contradictory
func (s *State) addCon(e *Lin) bool {
	e = s.rlin(e)
	if e.isConst() {
		return e.c.Sign() <= 0
	}
	if s.proveN(e, 2) {
		return true
	}
	if s.proveN(addLin(negLin(e), num(1)), 3) {
		return false
	}
	if len(e.ts) == 1 {
		t := e.ts[0]
		// n*a + c <= 0
		s.wI()
		k := t.a.Key()
		i := s.iv[k]
		if t.n.Sign() > 0 {
			q := floorDiv(new(big.Int).Neg(e.c), t.n)
			if i.hi == nil || q.Cmp(i.hi) < 0 {
				i.hi = q
			}
		} else {
			// a >= c/|n|
			q := ceilDiv(e.c, new(big.Int).Neg(t.n))
			if i.lo == nil || q.Cmp(i.lo) > 0 {
				i.lo = q
			}
		}
		s.iv[k] = i
		s.atoms[k] = t.a
		lo, hi := s.atomRange(t.a)
		if lo != nil && hi != nil {
			if lo.Cmp(hi) > 0 {
				return false
			}
			if lo.Cmp(hi) == 0 {
				s.iv[k] = ival{lo, hi}
			}
		}
		return s.checkDiseq()
	}
	s.cons = append(s.cons, e)
	return s.checkDiseq()
}

// checkDiseq refines intervals by disequalities that now touch an end point
func (s *State) checkDiseq() bool {
	return true
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}
func ceilDiv(a, b *big.Int) *big.Int {
	return new(big.Int).Neg(floorDiv(new(big.Int).Neg(a), b))
}

// ---- truth of conditions

func mkLE0(l *Lin) Value {
	if l.isConst() {
		return Bool(l.c.Sign() <= 0)
	}
	return mkApp("le0", types.Typ[types.Bool], l)
}
func mkEQ0(l *Lin) Value {
	if l.isConst() {
		return Bool(l.c.Sign() == 0)
	}
	if l.ts[0].n.Sign() < 0 {
		l = negLin(l)
	}
	return mkApp("eq0", types.Typ[types.Bool], l)
}
func mkNot(v Value) Value {
	switch x := v.(type) {
	case Bool:
		return !x
	case *App:
		if x.op == "not" {
			return x.args[0]
		}
	}
	return mkApp("not", types.Typ[types.Bool], v)
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (s *State) truth(v Value) tri {
	v = s.R(v)
	switch x := v.(type) {
	case Bool:
		return triOf(bool(x))
	case *App:
		switch x.op {
		case "not":
			switch s.truth(x.args[0]) {
			case yes:
				return no
			case no:
				return yes
			}
			return unknown
		case "le0":
			l := asLin(x.args[0])
			if s.proveN(l, 3) {
				return yes
			}
			if s.proveN(addLin(negLin(l), num(1)), 3) {
				return no
			}
			return unknown
		case "eq0":
			l := asLin(x.args[0])
			if s.proveN(addLin(l, num(1)), 3) || s.proveN(addLin(negLin(l), num(1)), 3) {
				return no
			}
			if s.proveN(l, 3) && s.proveN(negLin(l), 3) {
				return yes
			}
			return unknown
		case "eq":
			return s.eqTri(x.args[0], x.args[1])
		case "and":
			a, b := s.truth(x.args[0]), s.truth(x.args[1])
			if a == no || b == no {
				return no
			}
			if a == yes && b == yes {
				return yes
			}
		case "or":
			a, b := s.truth(x.args[0]), s.truth(x.args[1])
			if a == yes || b == yes {
				return yes
			}
			if a == no && b == no {
				return no
			}
		}
	}
	return unknown
}

// eqTri decides equality of strings and other opaque comparable values
func (s *State) eqTri(a, b Value) tri {
	if same(a, b) {
		return yes
	}
	if differ(a, b) || differ(b, a) {
		return no
	}
	as, aok := a.(Str)
	bs, bok := b.(Str)
	if aok && bok {
		return triOf(as == bs)
	}
	if aok {
		a, b, bs, bok = b, a, as, true
	}
	if bok {
		if c, ok := a.(*Cat); ok {
			if p, ok := c.ps[0].(Str); ok && !strings.HasPrefix(string(bs), string(p)) {
				return no
			}
			if p, ok := c.ps[len(c.ps)-1].(Str); ok && !strings.HasSuffix(string(bs), string(p)) {
				return no
			}
			n := 0
			for _, p := range c.ps {
				if q, ok := p.(Str); ok {
					n += len(q)
				}
			}
			if n > len(bs) {
				return no
			}
		}
		if s.nonEmpty(a) && bs == "" {
			return no
		}
		if bs == "" {
			n := lenOf(a)
			if s.prove(subLin(num(1), n)) {
				return no
			}
			if s.prove(n) {
				return yes
			}
		}
	}
	if e, ok := s.bind[mkEq(a, b).Key()]; ok {
		if v, ok := e.val.(Bool); ok {
			return triOf(bool(v))
		}
	}
	return unknown
}

func (s *State) nonEmpty(v Value) bool {
	switch x := v.(type) {
	case Str:
		return x != ""
	case *Cat:
		for _, p := range x.ps {
			if s.nonEmpty(p) {
				return true
			}
		}
		return false
	case *Sym, *App:
		if e, ok := s.bind[mkEq(v, Str("")).Key()]; ok {
			b, ok := e.val.(Bool)
			return ok && !bool(b)
		}
		if a, ok := v.(*App); ok && (a.op == "itoa" || a.op == "durstr") {
			return true
		}
	}
	return false
}

func mkEq(a, b Value) *App {
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return mkApp("eq", types.Typ[types.Bool], a, b)
}

// assume refines the state with cond == want; false when contradictory
func (s *State) assume(cond Value, want bool) bool {
	cond = s.R(cond)
	switch x := cond.(type) {
	case Bool:
		return bool(x) == want
	case *Sym:
		s.setBind(x, Bool(want))
		return true
	case *App:
		switch x.op {
		case "not":
			return s.assume(x.args[0], !want)
		case "and":
			if want {
				return s.assume(x.args[0], true) && s.assume(x.args[1], true)
			}
		case "or":
			if !want {
				return s.assume(x.args[0], false) && s.assume(x.args[1], false)
			}
		case "le0":
			l := asLin(x.args[0])
			if want {
				return s.addCon(l)
			}
			return s.addCon(addLin(negLin(l), num(1)))
		case "eq0":
			l := asLin(x.args[0])
			if want {
				return s.addCon(l) && s.addCon(negLin(l))
			}
			// a boundary value is cut off
			if s.proveN(l, 3) {
				return s.addCon(addLin(l, num(1)))
			}
			if s.proveN(negLin(l), 3) {
				return s.addCon(addLin(negLin(l), num(1)))
			}
			s.setBind(x, Bool(false))
			return true
		case "eq":
			if want {
				a, b := x.args[0], x.args[1]
				if isConstVal(a) {
					a, b = b, a
				}
				switch a.(type) {
				case *Sym, *App:
					s.setBind(a, b)
				default:
					switch b.(type) {
					case *Sym, *App:
						s.setBind(b, a)
					default:
						s.setBind(x, Bool(true))
					}
				}
				return true
			}
			if c, ok := x.args[0].(*Cat); ok && same(x.args[1], Str("")) && len(c.ps) == 1 {
				return s.assume(mkEq(c.ps[0], Str("")), false)
			}
			s.setBind(x, Bool(false))
			return true
		case "isnil":
			if want {
				s.setBind(x.args[0], Nil{})
				return true
			}
			s.setBind(x, Bool(false))
			return true
		}
		s.setBind(x, Bool(want))
		return true
	}
	return true
}

func isConstVal(v Value) bool {
	switch x := v.(type) {
	case Bool, Str, Flt, Nil:
		return true
	case *Lin:
		return x.isConst()
	}
	return false
}

// isNil builds the condition v == nil
func (s *State) isNil(v Value) Value {
	v = s.R(v)
	switch x := v.(type) {
	case Nil:
		return Bool(true)
	case *Ptr, *Iface, *Fn:
		return Bool(false)
	case *Slice:
		if x.src != nil {
			return s.R(x.src)
		}
		return Bool(false)
	case *MapV:
		if x.src != nil {
			return s.R(x.src)
		}
		return Bool(false)
	}
	return s.R(mkApp("isnil", types.Typ[types.Bool], v))
}

// dump for debugging
func (s *State) String() string {
	var b strings.Builder
	var ks []int
	for k := range s.heap {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "  o%d %s = %s\n", k, typeName(s.heap[k].typ), s.heap[k].val.Key())
	}
	var gs []string
	for k, v := range s.ghost {
		gs = append(gs, "  ghost "+k+" = "+s.R(v).Key()+"\n")
	}
	sort.Strings(gs)
	b.WriteString(strings.Join(gs, ""))
	for _, k := range sortedKeys(s.bind) {
		fmt.Fprintf(&b, "  bind %s := %s\n", k, s.bind[k].val.Key())
	}
	for _, k := range sortedKeys(s.iv) {
		fmt.Fprintf(&b, "  iv %s in [%v,%v]\n", k, s.iv[k].lo, s.iv[k].hi)
	}
	for _, c := range s.cons {
		fmt.Fprintf(&b, "  con %s <= 0\n", c.Key())
	}
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// unique tells whether a symbol stands for a value that nothing else has
func unique(v Value) bool {
	s, ok := v.(*Sym)
	return ok && strings.HasPrefix(s.name, "unique ")
}

func hasUnique(v Value) bool {
	if unique(v) {
		return true
	}
	if c, ok := v.(*Cat); ok {
		for _, p := range c.ps {
			if unique(p) {
				return true
			}
		}
	}
	return false
}

// differ tells whether b lacks a unique part of a
func differ(a, b Value) bool {
	bs := catParts(b)
	for _, p := range catParts(a) {
		if !unique(p) {
			continue
		}
		has := false
		for _, q := range bs {
			if _, ok := q.(Str); !ok && (!unique(q) || same(p, q)) {
				has = true
			}
		}
		if !has {
			return true
		}
	}
	return false
}
