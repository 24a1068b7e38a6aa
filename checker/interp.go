package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way a call can end
type Outcome struct {
	st  *State
	ret Value // nil, a value or a *Tuple
	pan Value // non nil when panicking
}

// Call describes a call to a hook
type Call struct {
	name  string
	fn    *ssa.Function
	args  []Value
	pos   token.Pos
	in    *ssa.Function // caller
	res   *types.Tuple
	recv  types.Type // static interface type for an invoke on an unknown dynamic type
	instr ssa.CallInstruction
}

// Hook models a call; nil means not handled
type Hook func(ip *Interp, st *State, c *Call) []Outcome

type stackEnt struct {
	fn   *ssa.Function
	args []Value
	pos  token.Pos
}

// Obl is a proof obligation at an instruction, aggregated over all abstract states reaching it
type Obl struct {
	kind    string
	pos     token.Pos
	fn      *ssa.Function
	seen    int
	unknown int
	failed  int
	example *State
	detail  string
}

type Interp struct {
	p       *Program
	globals map[*ssa.Global]int
	nextObj int
	nextSym int
	hooks   map[string]Hook
	stack   []stackEnt
	obls    map[string]*Obl
	steps   int
	max     int
	visited map[ssa.Instruction]bool
	funcs   map[*ssa.Function]int
	// recursion is consulted when fn is already on the stack
	onElement func(st *State, o Outcome, c *Call)
	recSeen   map[*ssa.Function]bool
	smallEls  bool // elements are encoded in less than 1000 bytes
	recursion func(ip *Interp, st *State, c *Call, outer stackEnt) []Outcome
	// text is how a value formats itself
	text func(st *State, v Value) Value
	// changed sees writes to objects handed out to a caller
	changed func(ip *Interp, st *State, ok tri, pos token.Pos, fn *ssa.Function)
	// access observes loads and stores
	access func(ip *Interp, st *State, p *Ptr, write bool, pos token.Pos, fn *ssa.Function)
	// unhandled counts calls without a model
	unhandled map[string]int
	trouble   map[string]int
	goHook    func(ip *Interp, st *State, c *Call)
	info      map[*ssa.Function]*fnInfo
	onReturn  func(ip *Interp, fn *ssa.Function, args []Value, o Outcome)
	loopDepth int
	maxLoop   int
	noUnroll  bool
	maxRec    int
	// nondet counts the choices of the environment
	nondet int
	// quietFn tells which functions do nothing that matters
	quietFn func(fn *ssa.Function) bool
	// sizeHook sees the sizes of allocations
	// onObl sees every obligation
	onObl func(st *State, kind string, pos token.Pos, fn *ssa.Function, ok tri, detail string)
	// fromInput tells whether the environment chooses the dynamic type of a value
	fromInput func(v Value) bool
	sizeHook  func(ip *Interp, st *State, n *Lin, pos token.Pos, fn *ssa.Function)
	// possible restricts the dynamic types of unknown interface values
	possible  func(st *State, v Value, t types.Type) bool
	blockHook func(ip *Interp, st *State, what string, pos token.Pos, fn *ssa.Function)
	lockHook  func(ip *Interp, st *State, k string, p *Ptr, c *Call)
	// waitHook sees a goroutine wait for time or a message; the path ends there when it says so
	waitHook func(st *State, pos token.Pos, fn *ssa.Function) bool
	// goFn is the function a goroutine starts with
	goFn *Fn
	// uniqueIds makes long random texts different from each other
	uniqueIds bool
	// atomicHook sees atomic accesses, externHook calls on shared library objects
	atomicHook func(ip *Interp, st *State, p *Ptr, c *Call)
	externHook func(ip *Interp, st *State, c *Call)
	trouble2   map[string]int
	deadline   time.Time
}

func newInterp(p *Program) *Interp {
	ip := &Interp{p: p, globals: map[*ssa.Global]int{}, nextObj: 1, nextSym: 1, hooks: map[string]Hook{}, obls: map[string]*Obl{}, max: 8000000,
		visited: map[ssa.Instruction]bool{}, funcs: map[*ssa.Function]int{}, unhandled: map[string]int{}, trouble: map[string]int{}, info: map[*ssa.Function]*fnInfo{}, maxLoop: 40, trouble2: map[string]int{}}
	for k, h := range baseModels {
		ip.hooks[k] = h
	}
	// every variable has the same number in every interpreter
	if p != nil {
		for _, g := range p.globals() {
			ip.nextObj++
			ip.globals[g] = ip.nextObj
		}
	}
	return ip
}

type budgetErr struct{ msg string }

func (ip *Interp) fresh(name string, t types.Type) Value {
	ip.nextSym++
	return wrapTyp(&Sym{id: ip.nextSym, typ: t, name: name})
}

func (ip *Interp) alloc(st *State, t types.Type, v Value, site string) int {
	ip.nextObj++
	st.setObj(ip.nextObj, &Obj{typ: t, val: v, site: site})
	return ip.nextObj
}

func (ip *Interp) newObj(st *State, t types.Type, v Value) *Ptr {
	return &Ptr{obj: ip.alloc(st, t, v, "")}
}

var extTypes = map[string]string{
	"sync.Mutex": "mutex", "sync.RWMutex": "mutex", "sync.Once": "once", "sync.WaitGroup": "wg",
	"bytes.Buffer": "buffer", "bytes.Reader": "buffer", "strings.Builder": "buffer", "strings.Reader": "buffer",
	"bufio.Writer": "bufw", "bufio.Reader": "bufr",
	"sync/atomic.Int32": "atomic", "sync/atomic.Int64": "atomic", "sync/atomic.Bool": "atomicb", "sync/atomic.Uint32": "atomic", "sync/atomic.Uint64": "atomic",
}

func extKind(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return extTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	}
	return ""
}

func (ip *Interp) zero(t types.Type) Value {
	switch extKind(t) {
	case "mutex":
		return &Ext{kind: "mutex", vs: []Value{Str("")}}
	case "buffer":
		return &Ext{kind: "buffer", vs: []Value{mkSeq(types.Typ[types.Uint8])}}
	case "once":
		return &Ext{kind: "once", vs: []Value{Bool(false)}}
	case "wg":
		return &Ext{kind: "wg"}
	case "bufw":
		return &Ext{kind: "bufw", vs: []Value{Nil{}, mkSeq(types.Typ[types.Uint8]), num(4096)}}
	case "bufr":
		return &Ext{kind: "bufr", vs: []Value{Nil{}}}
	case "atomic":
		return &Ext{kind: "atomic", vs: []Value{num(0)}}
	case "atomicb":
		return &Ext{kind: "atomicb", vs: []Value{Bool(false)}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsInteger != 0:
			return num(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return Flt("0")
		}
		return Nil{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = ip.zero(u.Field(i).Type())
		}
		return &Struct{typ: t, f: f}
	case *types.Array:
		n := u.Len()
		z := ip.zero(u.Elem())
		if n <= 64 {
			segs := make([]Seg, n)
			for i := range segs {
				segs[i] = item(z)
			}
			return mkSeq(u.Elem(), segs...)
		}
		return mkSeq(u.Elem(), Seg{kind: '*', n: num(n), tmpl: []Seg{item(z)}})
	case *types.Tuple:
		vs := make([]Value, u.Len())
		for i := range vs {
			vs[i] = ip.zero(u.At(i).Type())
		}
		return &Tuple{vs}
	}
	return Nil{}
}

// fieldOf reads a field of a possibly unknown struct
func (ip *Interp) fieldOf(v Value, i int, t types.Type) Value {
	if s, ok := v.(*Struct); ok {
		return s.f[i]
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ip.fresh("field", nil)
	}
	f := st.Field(i)
	if k := extKind(f.Type()); k != "" {
		return ip.zero(f.Type())
	}
	return wrapTyp(mkApp("f:"+f.Name(), f.Type(), v))
}

func (ip *Interp) expand(v Value, t types.Type) *Struct {
	if s, ok := v.(*Struct); ok {
		return s
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	f := make([]Value, st.NumFields())
	for i := range f {
		f[i] = ip.fieldOf(v, i, t)
	}
	return &Struct{typ: t, f: f}
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

// deref turns a pointer value into a *Ptr, materialising unknown ones; nil if it is nil
func (ip *Interp) deref(st *State, v Value, pt types.Type) *Ptr {
	v = st.R(v)
	switch x := v.(type) {
	case *Ptr:
		return x
	case *Sym, *App:
		et := elemType(pt)
		if et == nil {
			return nil
		}
		if st.truth(st.isNil(x)) == yes {
			return nil
		}
		var val Value
		if k := extKind(et); k != "" {
			val = ip.zero(et)
			if k == "buffer" {
				d := mkApp("content", types.Typ[types.String], x)
				val = &Ext{kind: "buffer", vs: []Value{mkSeq(types.Typ[types.Uint8], rawSeg(d, num(0), atomLin(mkApp("len", types.Typ[types.Int], d))))}}
			}
		} else {
			val = wrapTyp(mkApp("*", et, x))
			if isArray(et) {
				val = mkSeq(elemType(et), rawSeg(x, num(0), num(et.Underlying().(*types.Array).Len())))
			}
		}
		id := ip.alloc(st, et, val, "unknown "+x.Key())
		p := &Ptr{obj: id}
		st.setBind(x, p)
		return p
	}
	return nil
}

func isArray(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// slice materialises a slice value
func (ip *Interp) slice(st *State, v Value, t types.Type) *Slice {
	v = st.R(v)
	switch x := v.(type) {
	case *Slice:
		return x
	case Nil:
		return nil
	case *Sym, *App:
		et := types.Type(types.Typ[types.Uint8])
		if t != nil {
			et = elemType(t)
		}
		n := st.rlin(atomLin(mkApp("len", types.Typ[types.Int], x)))
		var nilc Value
		switch st.truth(st.isNil(x)) {
		case yes:
			return nil
		case no:
			nilc = Bool(false)
		default:
			nilc = mkApp("isnil", types.Typ[types.Bool], x)
		}
		id := ip.alloc(st, t, mkSeq(et, rawSeg(x, num(0), n)), "unknown "+x.Key())
		sl := &Slice{obj: id, off: num(0), len: n, cap: n, src: nilc}
		st.setBind(x, sl)
		return sl
	}
	return nil
}

func (ip *Interp) seqOf(st *State, sl *Slice) *SeqV {
	if sl == nil {
		return mkSeq(nil)
	}
	o := st.heap[sl.obj]
	q, ok := st.R(o.val).(*SeqV)
	if !ok {
		return mkSeq(nil, rawSeg(o.val, sl.off, sl.len))
	}
	return st.window(q, sl.off, sl.len)
}

func (ip *Interp) newSlice(st *State, q *SeqV, t types.Type) *Slice {
	n := st.rlin(q.length())
	id := ip.alloc(st, t, q, "")
	return &Slice{obj: id, off: num(0), len: n, cap: n}
}

// bytesOf is the content of a byte slice or string value
func (ip *Interp) bytesOf(st *State, v Value) *SeqV {
	v = st.R(v)
	u8 := types.Typ[types.Uint8]
	switch x := v.(type) {
	case Str:
		segs := make([]Seg, len(x))
		for i := 0; i < len(x); i++ {
			segs[i] = item(num(int64(x[i])))
		}
		return mkSeq(u8, segs...)
	case *Slice:
		return ip.seqOf(st, x)
	case Nil:
		return mkSeq(u8)
	case *SeqV:
		return x
	case *App:
		if x.op == "string" {
			if q, ok := x.args[0].(*SeqV); ok {
				return q
			}
		}
		return mkSeq(u8, rawSeg(x, num(0), st.rlin(lenOf(x))))
	case *Cat:
		q := mkSeq(u8)
		for _, p := range x.ps {
			q = st.concat(q, ip.bytesOf(st, p))
		}
		return q
	case *Sym:
		return mkSeq(u8, rawSeg(x, num(0), st.rlin(lenOf(x))))
	}
	return mkSeq(u8, rawSeg(v, num(0), st.rlin(lenOf(v))))
}

func lenOf(v Value) *Lin {
	switch x := v.(type) {
	case Str:
		return num(int64(len(x)))
	case Nil:
		return num(0)
	case *Slice:
		return x.len
	case *SeqV:
		return x.length()
	case *Cat:
		n := num(0)
		for _, p := range x.ps {
			n = addLin(n, lenOf(p))
		}
		return n
	case *App:
		if x.op == "string" {
			if q, ok := x.args[0].(*SeqV); ok {
				return q.length()
			}
		}
	}
	return atomLin(mkApp("len", types.Typ[types.Int], v))
}

// strOf is the string made of a byte sequence
func (ip *Interp) strOf(st *State, q *SeqV) Value {
	q = st.normSeq(q)
	if len(q.segs) == 0 {
		return Str("")
	}
	if ip.uniqueIds {
		n := 0
		for _, g := range q.segs {
			if g.v != nil && contains(st.R(g.v), func(x Value) bool { s, ok := x.(*Sym); return ok && s.name == "rand" }) {
				n++
			}
		}
		if n >= 8 {
			return nonNil(st, ip.fresh("unique random", types.Typ[types.String]))
		}
	}
	var ps []Value
	for _, g := range q.segs {
		switch g.kind {
		case 'i':
			l, ok := st.R(g.v).(*Lin)
			if !ok || !l.isConst() {
				return mkApp("string", types.Typ[types.String], q)
			}
			ps = append(ps, Str(string([]byte{byte(l.int())})))
		case 'r':
			if isStringType(valType(g.v)) && st.rlin(g.from).is(0) && st.proveEQ(g.n, lenOf(g.v)) {
				ps = append(ps, g.v)
				continue
			}
			return mkApp("string", types.Typ[types.String], q)
		default:
			return mkApp("string", types.Typ[types.String], q)
		}
	}
	return mkCat(ps...)
}

// ---- memory

func (ip *Interp) load(st *State, p *Ptr, t types.Type) Value {
	o := st.heap[p.obj]
	if o == nil {
		ip.trouble["dangling object"]++
		return ip.fresh("dangling", t)
	}
	v := st.R(o.val)
	ct := o.typ
	for _, e := range p.path {
		if e.field >= 0 {
			v = st.R(ip.fieldOf(v, e.field, ct))
			if s, ok := ct.Underlying().(*types.Struct); ok {
				ct = s.Field(e.field).Type()
			}
		} else {
			et := elemType(ct)
			q, ok := v.(*SeqV)
			if !ok {
				return ip.fresh("elem", t)
			}
			v = st.R(st.seqGet(q, asLin(st.R(e.idx)), et))
			ct = et
		}
	}
	return v
}

func (ip *Interp) store(st *State, p *Ptr, v Value) {
	o := st.heap[p.obj]
	if o == nil {
		ip.trouble["dangling object"]++
		return
	}
	nv := ip.update(st, st.R(o.val), o.typ, p.path, v)
	st.setObj(p.obj, &Obj{typ: o.typ, val: nv, site: o.site})
}

func (ip *Interp) update(st *State, cur Value, ct types.Type, path []pathElem, v Value) Value {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.field >= 0 {
		s := ip.expand(cur, ct)
		if s == nil {
			return cur
		}
		f := append([]Value{}, s.f...)
		f[e.field] = ip.update(st, st.R(s.f[e.field]), ct.Underlying().(*types.Struct).Field(e.field).Type(), path[1:], v)
		return &Struct{typ: s.typ, f: f}
	}
	q, ok := cur.(*SeqV)
	if !ok {
		st.note("store into unknown sequence")
		return cur
	}
	i := asLin(st.R(e.idx))
	if len(path) > 1 {
		v = ip.update(st, st.R(st.seqGet(q, i, elemType(ct))), elemType(ct), path[1:], v)
	}
	return st.seqSet(q, i, v)
}

func (ip *Interp) global(st *State, g *ssa.Global) *Ptr {
	id, ok := ip.globals[g]
	if !ok {
		ip.nextObj++
		id = ip.nextObj
		ip.globals[g] = id
	}
	if st.heap[id] == nil {
		et := g.Type().Underlying().(*types.Pointer).Elem()
		var v Value
		if ip.p.isModule(g.Pkg.Pkg) {
			v = ip.zero(et)
		} else {
			name := "global:" + g.Pkg.Pkg.Path() + "." + g.Name()
			a := mkApp(name, et)
			v = wrapTyp(a)
			if types.IsInterface(et) || isPointer(et) {
				st.setBind(mkApp("isnil", types.Typ[types.Bool], a), Bool(false))
			}
		}
		st.setObj(id, &Obj{typ: et, val: v, site: "global " + g.String()})
	}
	return &Ptr{obj: id}
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// ---- frames

type deferRec struct {
	call ssa.CallCommon
	fn   Value
	args []Value
	in   ssa.CallInstruction
}

type frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	defers []deferRec
	loops  map[*ssa.BasicBlock]*loopTrace
	pan    Value
	visits map[*ssa.BasicBlock]int
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, regs: make(map[ssa.Value]Value, len(f.regs)+8), defers: f.defers[:len(f.defers):len(f.defers)], pan: f.pan}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopTrace, len(f.loops))
	for k, v := range f.loops {
		c := *v
		n.loops[k] = &c
	}
	return n
}

type work struct {
	st  *State
	fr  *frame
	blk *ssa.BasicBlock
	idx int
}

func (ip *Interp) val(st *State, fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ip.constVal(x)
	case *ssa.Global:
		return ip.global(st, x)
	case *ssa.Function:
		return &Fn{fn: x}
	case *ssa.Builtin:
		return &Fn{bi: x.Name()}
	}
	r, ok := fr.regs[v]
	if !ok {
		ip.trouble["unset register "+v.Name()+" in "+fr.fn.String()]++
		return ip.fresh("unset", v.Type())
	}
	return st.R(r)
}

func (ip *Interp) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return ip.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Flt(c.Value.ExactString())
		}
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return numBig(n)
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if ok {
			return numBig(n)
		}
	}
	return Flt(c.Value.ExactString())
}

// callFn interprets a call of fn
func (ip *Interp) callFn(st *State, c *Call, bind []Value) []Outcome {
	fn := c.fn
	name := c.name
	if h := ip.hooks[name]; h != nil {
		if out := h(ip, st, c); out != nil {
			return out
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return ip.unknownCall(st, c)
	}
	n := 0
	var outer stackEnt
	for i := len(ip.stack) - 1; i >= 0; i-- {
		if ip.stack[i].fn == fn {
			if n == 0 {
				outer = ip.stack[i]
			}
			n++
		}
	}
	if n > 0 {
		if ip.recursion != nil {
			if out := ip.recursion(ip, st, c, outer); out != nil {
				return out
			}
		}
		if n >= 3 && n >= ip.maxRec {
			ip.trouble["recursion cut at "+fn.String()]++
			st.note("recursion cut at %s", fn.String())
			return ip.havocCall(st, c)
		}
	}
	if len(ip.stack) > 60 {
		ip.trouble["call depth"]++
		st.note("call depth")
		return ip.havocCall(st, c)
	}
	ip.funcs[fn]++
	ip.stack = append(ip.stack, stackEnt{fn, c.args, c.pos})
	outs := ip.execFunc(st, fn, c.args, bind)
	ip.stack = ip.stack[:len(ip.stack)-1]
	if len(outs) > 1 {
		outs = ip.dedupe(outs)
	}
	if ip.onReturn != nil {
		for _, o := range outs {
			ip.onReturn(ip, fn, c.args, o)
		}
	}
	return outs
}

func (ip *Interp) dedupe(outs []Outcome) []Outcome { return outs }

// unknownCall is a call into a library without a model
func (ip *Interp) unknownCall(st *State, c *Call) []Outcome {
	if isPure(c.name) {
		return one(st, pureResult(st, c))
	}
	if strings.HasSuffix(c.name, ".init") && len(c.args) == 0 {
		return one(st, nil) // a library's initialiser
	}
	ip.unhandled[c.name]++
	st.note("call of %s without a model", c.name)
	return ip.havocCall(st, c)
}

// havocCall returns unknown results and forgets what the arguments point to, when the callee may change it
func (ip *Interp) havocCall(st *State, c *Call) []Outcome {
	st = st.clone()
	return []Outcome{{st: st, ret: ip.freshResult(st, c.name, c.res)}}
}

func (ip *Interp) freshResult(st *State, name string, res *types.Tuple) Value {
	if res == nil || res.Len() == 0 {
		return nil
	}
	if res.Len() == 1 {
		return ip.fresh(name, res.At(0).Type())
	}
	vs := make([]Value, res.Len())
	for i := range vs {
		vs[i] = ip.fresh(fmt.Sprintf("%s#%d", name, i), res.At(i).Type())
	}
	return &Tuple{vs}
}

func (ip *Interp) execFunc(st *State, fn *ssa.Function, args []Value, bind []Value) []Outcome {
	fr := &frame{fn: fn, regs: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*loopTrace{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			fr.regs[f] = bind[i]
		}
	}
	var outs []Outcome
	queue := []*work{{st: st, fr: fr, blk: fn.Blocks[0]}}
	for len(queue) > 0 {
		w := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		next, done := ip.run(w)
		outs = append(outs, done...)
		// keep source order: first successor is explored first
		for i := len(next) - 1; i >= 0; i-- {
			queue = append(queue, next[i])
		}
	}
	return outs
}

// run interprets from w until the trace forks or ends
func (ip *Interp) run(w *work) ([]*work, []Outcome) {
	for {
		if w.blk == panicBlock {
			return nil, []Outcome{{st: w.st, pan: w.fr.pan}}
		}
		if w.idx >= len(w.blk.Instrs) {
			return nil, nil
		}
		ip.steps++
		if ip.steps&255 == 0 && !ip.deadline.IsZero() && time.Now().After(ip.deadline) {
			panic(budgetErr{"time budget exhausted"})
		}
		checkBudget()
		if ip.steps > ip.max {
			panic(budgetErr{"step budget exhausted"})
		}
		in := w.blk.Instrs[w.idx]
		ip.visited[in] = true
		w.idx++
		switch x := in.(type) {
		case *ssa.Return:
			var r Value
			switch len(x.Results) {
			case 0:
			case 1:
				r = ip.val(w.st, w.fr, x.Results[0])
			default:
				vs := make([]Value, len(x.Results))
				for i, v := range x.Results {
					vs[i] = ip.val(w.st, w.fr, v)
				}
				r = &Tuple{vs}
			}
			return nil, []Outcome{{st: w.st, ret: r}}
		case *ssa.Jump:
			nw := ip.goTo(w, w.blk.Succs[0])
			if nw == nil {
				return nil, nil
			}
			w = nw
		case *ssa.If:
			c := ip.val(w.st, w.fr, x.Cond)
			exits := ip.fnInfo(w.fr.fn).exits[w.blk]
			if _, lit := c.(Bool); !lit {
				// a continuation that rests on bounds is not unrolled
				for _, h := range exits {
					if lt := w.fr.loops[h]; lt != nil {
						lt.split = true
						if h == w.blk || ip.fnInfo(w.fr.fn).ctl[h] == w.blk {
							lt.ctlSplit = true
						}
					}
				}
			}
			switch w.st.truth(c) {
			case yes:
				w = ip.goTo(w, w.blk.Succs[0])
			case no:
				w = ip.goTo(w, w.blk.Succs[1])
			default:
				if j := ip.skippable(w.blk); j != nil {
					if w = ip.goTo(w, j); w == nil {
						return nil, nil
					}
					break
				}
				for _, h := range exits {
					if lt := w.fr.loops[h]; lt != nil {
						lt.split = true
						if h == w.blk || ip.fnInfo(w.fr.fn).ctl[h] == w.blk {
							lt.ctlSplit = true
						}
					}
				}
				var next []*work
				s1 := w.st.clone()
				s2 := w.st.clone()
				f2 := w.fr.clone()
				if s1.assume(c, true) {
					s1.event(condPos(x), "%s", condText(c, true))
					if n := ip.goTo(&work{st: s1, fr: w.fr, blk: w.blk}, w.blk.Succs[0]); n != nil {
						next = append(next, n)
					}
				}
				if s2.assume(c, false) {
					s2.event(condPos(x), "%s", condText(c, false))
					if n := ip.goTo(&work{st: s2, fr: f2, blk: w.blk}, w.blk.Succs[1]); n != nil {
						next = append(next, n)
					}
				}
				return next, nil
			}
			if w == nil {
				return nil, nil
			}
		case *ssa.Panic:
			v := ip.val(w.st, w.fr, x.X)
			ip.oblige(w.st, "panic", x.Pos(), w.fr.fn, no, "explicit panic")
			return ip.doPanic(w, v)
		case *ssa.RunDefers:
			return ip.runDefers(w)
		default:
			next, pan := ip.instr(w, in)
			if pan != nil {
				return ip.doPanic(w, pan)
			}
			if next == nil {
				continue
			}
			return next, nil
		}
	}
}

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	return x.Pos()
}

func condText(c Value, b bool) string {
	s := c.Key()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return fmt.Sprintf("%s is %v", s, b)
}

// runDefers executes the deferred calls, last first
func (ip *Interp) runDefers(w *work) ([]*work, []Outcome) {
	if len(w.fr.defers) == 0 {
		return []*work{w}, nil
	}
	d := w.fr.defers[len(w.fr.defers)-1]
	w.fr.defers = w.fr.defers[: len(w.fr.defers)-1 : len(w.fr.defers)-1]
	outs := ip.callValue(w.st, w.fr.fn, d.in, &d.call, d.fn, d.args)
	var next []*work
	for i, o := range outs {
		fr := w.fr
		if i < len(outs)-1 {
			fr = w.fr.clone()
		}
		next = append(next, &work{st: o.st, fr: fr, blk: w.blk, idx: w.idx - 1})
	}
	return next, nil
}

func (ip *Interp) doPanic(w *work, v Value) ([]*work, []Outcome) {
	// run the deferred calls, then unwind
	states := []*State{w.st}
	for len(w.fr.defers) > 0 {
		d := w.fr.defers[len(w.fr.defers)-1]
		w.fr.defers = w.fr.defers[:len(w.fr.defers)-1]
		var ns []*State
		for _, s := range states {
			for _, o := range ip.callValue(s, w.fr.fn, d.in, &d.call, d.fn, d.args) {
				ns = append(ns, o.st)
			}
		}
		states = ns
	}
	var outs []Outcome
	for _, s := range states {
		outs = append(outs, Outcome{st: s, pan: v})
	}
	return nil, outs
}

func (ip *Interp) oblige(st *State, kind string, pos token.Pos, fn *ssa.Function, ok tri, detail string) {
	if ip.onObl != nil {
		ip.onObl(st, kind, pos, fn, ok, detail)
	}
	k := kind + "@" + fnString(fn) + "@" + strconv.Itoa(int(pos))
	o := ip.obls[k]
	if o == nil {
		o = &Obl{kind: kind, pos: pos, fn: fn}
		ip.obls[k] = o
	}
	o.seen++
	switch ok {
	case unknown:
		o.unknown++
	case no:
		o.failed++
	}
	if ok != yes && o.example == nil {
		o.example = st
		o.detail = detail
	}
}

// set stores the result of an instruction
func (w *work) set(v ssa.Value, x Value) { w.fr.regs[v] = x }

// fork makes one work per alternative; the first reuses the frame
func (w *work) fork(sts []*State, set func(i int, fr *frame)) []*work {
	var out []*work
	for i, s := range sts {
		fr := w.fr
		if i < len(sts)-1 {
			fr = w.fr.clone()
		}
		set(i, fr)
		out = append(out, &work{st: s, fr: fr, blk: w.blk, idx: w.idx})
	}
	return out
}

// instr interprets one instruction; next is nil to continue in w
func (ip *Interp) instr(w *work, in ssa.Instruction) (next []*work, pan Value) {
	st, fr := w.st, w.fr
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		ip.trouble["stray phi"]++
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		w.set(x, &Ptr{obj: ip.alloc(st, et, ip.zero(et), x.Comment)})
	case *ssa.BinOp:
		w.set(x, ip.binop(st, fr, x))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := ip.val(st, fr, x.X)
			p := ip.deref(st, a, x.X.Type())
			if p == nil {
				ip.oblige(st, "nilderef", x.Pos(), fr.fn, no, "load through nil pointer")
				return nil, Str("nil dereference")
			}
			if ip.access != nil {
				ip.access(ip, st, p, false, x.Pos(), fr.fn)
			}
			w.set(x, ip.load(st, p, x.Type()))
		case token.NOT:
			w.set(x, mkNot(ip.val(st, fr, x.X)))
		case token.SUB:
			v := ip.val(st, fr, x.X)
			if l := asLin(v); l != nil && isIntType(x.Type()) {
				w.set(x, ip.wrap(st, negLin(l), x.Type()))
			} else {
				w.set(x, mkApp("neg", x.Type(), v))
			}
		case token.XOR:
			w.set(x, wrapTyp(mkApp("^", x.Type(), ip.val(st, fr, x.X))))
		case token.ARROW:
			return ip.recv(w, x), nil
		}
	case *ssa.ChangeInterface:
		w.set(x, ip.val(st, fr, x.X))
	case *ssa.ChangeType:
		v := ip.val(st, fr, x.X)
		if s, ok := v.(*Struct); ok {
			v = &Struct{typ: x.Type(), f: s.f}
		}
		w.set(x, v)
	case *ssa.Convert:
		w.set(x, ip.convert(st, ip.val(st, fr, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		w.set(x, ip.convert(st, ip.val(st, fr, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		v := ip.val(st, fr, x.X)
		w.set(x, &Iface{typ: x.X.Type(), v: v})
	case *ssa.Extract:
		t := ip.val(st, fr, x.Tuple)
		if tu, ok := t.(*Tuple); ok && x.Index < len(tu.vs) {
			w.set(x, tu.vs[x.Index])
		} else {
			w.set(x, ip.fresh("extract", x.Type()))
		}
	case *ssa.Field:
		w.set(x, ip.fieldOf(ip.val(st, fr, x.X), x.Field, x.X.Type()))
	case *ssa.FieldAddr:
		p := ip.deref(st, ip.val(st, fr, x.X), x.X.Type())
		if p == nil {
			ip.oblige(st, "nilderef", x.Pos(), fr.fn, no, "field of nil pointer")
			return nil, Str("nil dereference")
		}
		w.set(x, &Ptr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], pathElem{field: x.Field})})
	case *ssa.Index:
		v := ip.val(st, fr, x.X)
		i := asLin(ip.val(st, fr, x.Index))
		if q, ok := v.(*SeqV); ok {
			ip.checkIndex(st, fr, x.Pos(), i, q.length(), x)
			w.set(x, st.seqGet(q, i, x.Type()))
		} else {
			ip.checkIndex(st, fr, x.Pos(), i, lenOf(v), x)
			w.set(x, st.seqGet(ip.bytesOf(st, v), i, types.Typ[types.Uint8]))
		}
	case *ssa.IndexAddr:
		return ip.indexAddr(w, x)
	case *ssa.Slice:
		return ip.sliceOp(w, x)
	case *ssa.SliceToArrayPointer:
		sl := ip.slice(st, ip.val(st, fr, x.X), x.X.Type())
		w.set(x, ip.newObj(st, elemType(x.Type()), ip.seqOf(st, sl)))
	case *ssa.MakeSlice:
		n := asLin(ip.val(st, fr, x.Len))
		cp := asLin(ip.val(st, fr, x.Cap))
		et := elemType(x.Type())
		ip.makeSize(st, fr, x.Pos(), n, cp)
		z := ip.zero(et)
		var q *SeqV
		if st.rlin(n).isConst() && st.rlin(n).c.IsInt64() && st.rlin(n).int() <= 64 && st.rlin(n).int() >= 0 {
			segs := make([]Seg, st.rlin(n).int())
			for i := range segs {
				segs[i] = item(z)
			}
			q = mkSeq(et, segs...)
		} else {
			q = mkSeq(et, Seg{kind: '*', n: n, tmpl: []Seg{item(z)}})
		}
		w.set(x, &Slice{obj: ip.alloc(st, x.Type(), q, "make"), off: num(0), len: st.rlin(n), cap: st.rlin(cp)})
	case *ssa.MakeMap:
		if x.Reserve != nil {
			n := asLin(ip.val(st, fr, x.Reserve))
			if ip.sizeHook != nil {
				ip.sizeHook(ip, st, n, x.Pos(), fr.fn)
			}
		}
		w.set(x, &MapV{obj: ip.alloc(st, x.Type(), &MapC{}, "make")})
	case *ssa.MakeChan:
		w.set(x, ip.newObj(st, x.Type(), ip.fresh("chan", x.Type())))
	case *ssa.MakeClosure:
		b := make([]Value, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = ip.val(st, fr, v)
		}
		w.set(x, &Fn{fn: x.Fn.(*ssa.Function), bind: b})
	case *ssa.Store:
		p := ip.deref(st, ip.val(st, fr, x.Addr), x.Addr.Type())
		if p == nil {
			ip.oblige(st, "nilderef", x.Pos(), fr.fn, no, "store through nil pointer")
			return nil, Str("nil dereference")
		}
		if ip.access != nil {
			ip.access(ip, st, p, true, x.Pos(), fr.fn)
		}
		if len(p.path) > 0 && ip.handed(st, p.obj) {
			ip.changed(ip, st, no, x.Pos(), fr.fn)
		}
		ip.store(st, p, ip.val(st, fr, x.Val))
	case *ssa.MapUpdate:
		m := ip.mapOf(st, ip.val(st, fr, x.Map), x.Map.Type())
		if m == nil {
			ip.oblige(st, "nilmap", x.Pos(), fr.fn, no, "store into nil map")
			return nil, Str("assignment to nil map")
		}
		if ip.access != nil {
			ip.access(ip, st, &Ptr{obj: m.obj}, true, x.Pos(), fr.fn)
		}
		if ip.handed(st, m.obj) {
			ip.changed(ip, st, no, x.Pos(), fr.fn)
		}
		ip.mapSet(st, m, ip.val(st, fr, x.Key), ip.val(st, fr, x.Value))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return ip.lookup(w, x), nil
		}
		v := ip.val(st, fr, x.X)
		i := asLin(ip.val(st, fr, x.Index))
		ip.checkIndex(st, fr, x.Pos(), i, lenOf(v), x)
		w.set(x, st.seqGet(ip.bytesOf(st, v), i, types.Typ[types.Uint8]))
	case *ssa.Range:
		v := ip.val(st, fr, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := ip.mapOf(st, v, x.X.Type())
			var snap Value = &MapC{}
			if m != nil {
				if ip.access != nil {
					ip.access(ip, st, &Ptr{obj: m.obj}, false, x.Pos(), fr.fn)
				}
				snap = st.R(st.heap[m.obj].val)
			}
			w.set(x, ip.newObj(st, x.X.Type(), &Ext{kind: "mapiter", vs: []Value{snap, num(0)}}))
		} else {
			w.set(x, ip.newObj(st, x.X.Type(), &Ext{kind: "striter", vs: []Value{v, num(0)}}))
		}
	case *ssa.Next:
		return ip.next(w, x), nil
	case *ssa.TypeAssert:
		return ip.typeAssert(w, x)
	case *ssa.Call:
		n := ip.nondet
		outs := ip.doCall(st, fr, x)
		ip.markLoopSplit(w, ip.nondet != n)
		return ip.after(w, x, outs)
	case *ssa.Defer:
		f, args := ip.callee(st, fr, &x.Call)
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferRec{x.Call, f, args, x})
	case *ssa.Go:
		f, args := ip.callee(st, fr, &x.Call)
		if ip.goHook != nil {
			name := ""
			var fn *ssa.Function
			if fv, ok := f.(*Fn); ok && fv.fn != nil {
				fn = fv.fn
				name = fnString(fn)
				ip.goFn = fv
			}
			ip.goHook(ip, st, &Call{name: name, fn: fn, args: args, pos: x.Pos(), in: fr.fn, instr: x})
		}
	case *ssa.Send:
	case *ssa.Select:
		return ip.selectOp(w, x), nil
	default:
		ip.trouble[fmt.Sprintf("instruction %T", in)]++
		if v, ok := in.(ssa.Value); ok {
			w.set(v, ip.fresh("unsupported", v.Type()))
		}
	}
	return nil, nil
}

// after distributes the outcomes of a call
func (ip *Interp) after(w *work, x ssa.Value, outs []Outcome) ([]*work, Value) {
	var next []*work
	norm := 0
	for _, o := range outs {
		if o.pan == nil {
			norm++
		}
	}
	k := 0
	for _, o := range outs {
		if o.pan != nil {
			// unwinds through this frame
			nx, res := ip.doPanic(&work{st: o.st, fr: w.fr.clone(), blk: w.blk, idx: w.idx}, o.pan)
			_ = nx
			for _, r := range res {
				next = append(next, &work{st: r.st, fr: &frame{fn: w.fr.fn, pan: r.pan}, blk: panicBlock, idx: 0})
			}
			continue
		}
		k++
		fr := w.fr
		if k < norm {
			fr = w.fr.clone()
		}
		if o.ret != nil {
			fr.regs[x] = o.ret
		}
		next = append(next, &work{st: o.st, fr: fr, blk: w.blk, idx: w.idx})
	}
	if next == nil {
		next = []*work{}
	}
	return next, nil
}

// panicBlock marks a work that only unwinds
var panicBlock = &ssa.BasicBlock{}

func (ip *Interp) callee(st *State, fr *frame, c *ssa.CallCommon) (Value, []Value) {
	f := ip.val(st, fr, c.Value)
	var args []Value
	for _, a := range c.Args {
		args = append(args, ip.val(st, fr, a))
	}
	return f, args
}

func (ip *Interp) doCall(st *State, fr *frame, x *ssa.Call) []Outcome {
	f, args := ip.callee(st, fr, &x.Call)
	return ip.callValue(st, fr.fn, x, &x.Call, f, args)
}

// callValue calls f (or the method of f for an invoke)
func (ip *Interp) callValue(st *State, in *ssa.Function, instr ssa.CallInstruction, c *ssa.CallCommon, f Value, args []Value) []Outcome {
	f = st.R(f)
	for i := range args {
		args[i] = st.R(args[i])
	}
	pos := instr.Pos()
	res := c.Signature().Results()
	if c.IsInvoke() {
		return ip.invoke(st, in, instr, pos, res, c.Value.Type(), c.Method, f, args)
	}
	fv, ok := f.(*Fn)
	if !ok {
		if _, isNil := f.(Nil); isNil {
			ip.oblige(st, "nilcall", pos, in, no, "call of nil function")
			return []Outcome{{st: st, pan: Str("nil func")}}
		}
		return ip.callFn(st, &Call{name: "dynamic", args: append([]Value{f}, args...), pos: pos, in: in, res: res, instr: instr}, nil)
	}
	if fv.bi != "" {
		return ip.builtin(st, in, instr, fv.bi, args, c)
	}
	return ip.callFn(st, &Call{name: fnName(fv.fn), fn: fv.fn, args: args, pos: pos, in: in, res: res, instr: instr}, fv.bind)
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return fnString(o)
	}
	return fnString(f)
}

func (ip *Interp) invoke(st *State, in *ssa.Function, instr ssa.CallInstruction, pos token.Pos, res *types.Tuple, it types.Type, m *types.Func, recv Value, args []Value) []Outcome {
	switch x := recv.(type) {
	case *Iface:
		ms := ip.p.prog.MethodSets.MethodSet(x.typ)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			ip.trouble["no method "+m.Name()+" on "+typeName(x.typ)]++
			st.note("no method")
			return ip.havocCall(st, &Call{name: m.Name(), res: res})
		}
		fn := ip.p.prog.MethodValue(sel)
		if fn == nil {
			ip.trouble["no method value"]++
			st.note("no method")
			return ip.havocCall(st, &Call{name: m.Name(), res: res})
		}
		// interface level hooks come first
		all := append([]Value{x}, args...)
		if h := ip.hooks[ifaceMethodName(it, m)]; h != nil {
			if out := h(ip, st, &Call{name: ifaceMethodName(it, m), args: all, pos: pos, in: in, res: res, recv: it, instr: instr}); out != nil {
				return out
			}
		}
		return ip.callFn(st, &Call{name: fnName(fn), fn: fn, args: append([]Value{x.v}, args...), pos: pos, in: in, res: res, instr: instr}, nil)
	case Nil:
		ip.oblige(st, "nilcall", pos, in, no, "method call on nil interface")
		return []Outcome{{st: st, pan: Str("nil interface")}}
	}
	name := ifaceMethodName(it, m)
	return ip.callFn(st, &Call{name: name, args: append([]Value{recv}, args...), pos: pos, in: in, res: res, recv: it, instr: instr}, nil)
}

func ifaceMethodName(it types.Type, m *types.Func) string {
	return "(" + typeName(it) + ")." + m.Name()
}

// ---- operations

func (ip *Interp) wrap(st *State, l *Lin, t types.Type) Value {
	lo, hi := typeRange(t)
	if lo == nil {
		return l
	}
	l = st.rlin(l)
	if l.isConst() {
		if l.c.Cmp(lo) < 0 || l.c.Cmp(hi) > 0 {
			return numBig(wrapBig(l.c, lo, hi))
		}
		return l
	}
	a, b := st.rangeOf(l)
	if a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return l
	}
	if basicName(t) == "int" || basicName(t) == "int64" {
		// sums of lengths and counters stay far below the limit; anything unbounded is assumed not to overflow only
		// when both bounds are provable from the constraints
		if st.proveLE(l, numBig(hi)) && st.proveLE(numBig(lo), l) {
			return l
		}
		return l
	}
	if st.proveLE(l, numBig(hi)) && st.proveLE(numBig(lo), l) {
		return l
	}
	return wrapTyp(mkApp("conv:"+basicName(t), t, l))
}

func (ip *Interp) convert(st *State, v Value, from, to types.Type) Value {
	switch {
	case isIntType(from) && isIntType(to):
		l := asLin(v)
		if l == nil {
			return ip.fresh("conv", to)
		}
		lo, hi := typeRange(to)
		l = st.rlin(l)
		if l.isConst() {
			return numBig(wrapBig(l.c, lo, hi))
		}
		if st.proveLE(l, numBig(hi)) && st.proveLE(numBig(lo), l) {
			return l
		}
		// converting twice to types that both cut is converting once
		if a, ok := l.atom().(*App); ok && strings.HasPrefix(a.op, "conv:") {
			if w1, w2 := intWidth(a.op[5:]), intWidth(basicName(to)); w2 <= w1 {
				return ip.convert(st, a.args[0], from, to)
			}
		}
		return wrapTyp(mkApp("conv:"+basicName(to), to, l))
	case isStringType(to) && isStringType(from):
		return v
	case isStringType(to) && isIntType(from):
		return mkApp("chr", to, v)
	case isStringType(to):
		// from []byte
		if a, ok := v.(*App); ok {
			return mkApp("string", to, a)
		}
		if a, ok := v.(*Sym); ok {
			return mkApp("string", to, a)
		}
		return ip.strOf(st, ip.bytesOf(st, v))
	case isStringType(from):
		return ip.newSlice(st, ip.bytesOf(st, v), to)
	}
	if isIntType(from) || isIntType(to) {
		if fl, ok := v.(Flt); ok && isIntType(to) {
			if n, ok := new(big.Int).SetString(string(fl), 10); ok {
				return numBig(n)
			}
		}
		return wrapTyp(mkApp("fconv:"+basicName(to), to, v))
	}
	fb, tb := basicName(from), basicName(to)
	if fb == "float32" && tb == "float64" {
		return v
	}
	if fb == tb {
		return v
	}
	if fb == "float64" && tb == "float32" {
		return mkApp("f32", to, v)
	}
	return v
}

func intWidth(n string) int {
	switch n {
	case "int8", "uint8", "byte":
		return 8
	case "int16", "uint16":
		return 16
	case "int32", "uint32", "rune":
		return 32
	}
	return 64
}

func (ip *Interp) binop(st *State, fr *frame, x *ssa.BinOp) Value {
	a, b := ip.val(st, fr, x.X), ip.val(st, fr, x.Y)
	r := ip.bin(st, x.Op, a, b, x.X.Type(), x.Type())
	if l, ok := r.(*Lin); ok && len(l.ts) > 1 && (x.Op == token.ADD || x.Op == token.OR || x.Op == token.XOR) {
		return ip.joinBytes(st, l)
	}
	return r
}

// joinBytes recognises a sum of all bytes of a number, each in its place
func (ip *Interp) joinBytes(st *State, l *Lin) *Lin {
	type part struct{ coef [8]*big.Int }
	groups := map[string]*part{}
	base := map[string]*App{}
	for _, t := range l.ts {
		a, ok := t.a.(*App)
		if !ok || a.op != "byteof" {
			continue
		}
		w, k := asLin(a.args[1]), asLin(a.args[2])
		if !w.isConst() || !k.isConst() || w.int() > 8 || k.int() < 0 || k.int() >= w.int() {
			continue
		}
		key := fmt.Sprint(w.int(), " ", a.args[0].Key())
		if groups[key] == nil {
			groups[key], base[key] = &part{}, a
		}
		groups[key].coef[k.int()] = t.n
	}
	for _, key := range sortedKeys(groups) {
		a := base[key]
		w := asLin(a.args[1]).int()
		c := groups[key].coef
		whole := c[w-1] != nil
		for k := 0; whole && k < w; k++ {
			whole = c[k] != nil && c[k].Cmp(new(big.Int).Lsh(c[w-1], uint(8*(w-1-k)))) == 0
		}
		v := asLin(a.args[0])
		ut := map[int]types.BasicKind{1: types.Uint8, 2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[w]
		if !whole || v == nil || ut == 0 {
			continue
		}
		n := asLin(ip.convert(st, v, tInt64, types.Typ[ut]))
		if n == nil {
			continue
		}
		for k := 0; k < w; k++ {
			x := mkApp("byteof", a.typ, a.args[0], a.args[1], num(int64(k)))
			l = subLin(l, mulLin(atomLin(x), c[k]))
		}
		l = addLin(l, mulLin(n, c[w-1]))
	}
	return l
}

func (ip *Interp) bin(st *State, op token.Token, a, b Value, t, rt types.Type) Value {
	if isIntType(t) {
		la, lb := asLin(a), asLin(b)
		if la == nil || lb == nil {
			return ip.fresh("binop", rt)
		}
		switch op {
		case token.ADD:
			return ip.wrap(st, addLin(la, lb), rt)
		case token.SUB:
			return ip.wrap(st, subLin(la, lb), rt)
		case token.MUL:
			if lb.isConst() {
				return ip.wrap(st, mulLin(la, lb.c), rt)
			}
			if la.isConst() {
				return ip.wrap(st, mulLin(lb, la.c), rt)
			}
			if la.Key() > lb.Key() {
				la, lb = lb, la
			}
			return wrapTyp(mkApp("mul", rt, la, lb))
		case token.QUO:
			if lb.isConst() && lb.c.Sign() != 0 {
				if la.isConst() {
					return numBig(new(big.Int).Quo(la.c, lb.c))
				}
				if lb.is(1) {
					return la
				}
			}
			return wrapTyp(mkApp("/", rt, la, lb))
		case token.REM:
			if lb.isConst() && la.isConst() && lb.c.Sign() != 0 {
				return numBig(new(big.Int).Rem(la.c, lb.c))
			}
			return wrapTyp(mkApp("%", rt, la, lb))
		case token.SHL:
			if lb.isConst() && lb.c.Sign() >= 0 && lb.c.Cmp(bi(64)) < 0 {
				return ip.wrap(st, mulLin(la, new(big.Int).Lsh(bi(1), uint(lb.int()))), rt)
			}
			return wrapTyp(mkApp("shl", rt, la, lb))
		case token.SHR:
			if lb.isConst() {
				if lb.is(0) {
					return la
				}
				if la.isConst() {
					return numBig(new(big.Int).Rsh(la.c, uint(lb.int())))
				}
				// (be bytes) >> ...
				if s, ok := la.atom().(*App); ok && s.op == "shr" && asLin(s.args[1]).isConst() {
					return wrapTyp(mkApp("shr", rt, s.args[0], addLin(asLin(s.args[1]), lb)))
				}
			}
			return wrapTyp(mkApp("shr", rt, la, lb))
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return ip.bitop(st, op, la, lb, rt)
		case token.EQL:
			return mkEQ0(subLin(la, lb))
		case token.NEQ:
			return mkNot(mkEQ0(subLin(la, lb)))
		case token.LSS:
			return mkLE0(addLin(subLin(la, lb), num(1)))
		case token.LEQ:
			return mkLE0(subLin(la, lb))
		case token.GTR:
			return mkLE0(addLin(subLin(lb, la), num(1)))
		case token.GEQ:
			return mkLE0(subLin(lb, la))
		}
		return ip.fresh("binop", rt)
	}
	switch op {
	case token.EQL:
		return ip.equal(st, a, b, t)
	case token.NEQ:
		return mkNot(ip.equal(st, a, b, t))
	}
	if isStringType(t) {
		switch op {
		case token.ADD:
			return mkCat(a, b)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if as, ok := a.(Str); ok {
				if bs, ok := b.(Str); ok {
					switch op {
					case token.LSS:
						return Bool(as < bs)
					case token.GTR:
						return Bool(as > bs)
					case token.LEQ:
						return Bool(as <= bs)
					default:
						return Bool(as >= bs)
					}
				}
			}
		}
	}
	if isBoolType(rt) && isBoolType(t) {
		switch op {
		case token.AND, token.LAND:
			return mkApp("and", rt, a, b)
		case token.OR, token.LOR:
			return mkApp("or", rt, a, b)
		}
	}
	return wrapTyp(mkApp(op.String(), rt, a, b))
}

func (ip *Interp) bitop(st *State, op token.Token, la, lb *Lin, rt types.Type) Value {
	if la.isConst() && lb.isConst() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(la.c, lb.c)
		case token.OR:
			r.Or(la.c, lb.c)
		case token.XOR:
			r.Xor(la.c, lb.c)
		case token.AND_NOT:
			r.AndNot(la.c, lb.c)
		}
		return ip.wrap(st, numBig(r), rt)
	}
	if la.isConst() && op != token.AND_NOT {
		la, lb = lb, la
	}
	if lb.isConst() {
		_, hi := st.rangeOf(la)
		lo, _ := st.rangeOf(la)
		nonneg := lo != nil && lo.Sign() >= 0
		switch op {
		case token.AND:
			// all low bits
			m := new(big.Int).Add(lb.c, bi(1))
			if m.Sign() > 0 && new(big.Int).And(m, lb.c).Sign() == 0 {
				if nonneg && hi != nil && hi.Cmp(lb.c) <= 0 {
					return la
				}
			}
			return wrapTyp(mkApp("&", rt, la, lb))
		case token.OR, token.XOR:
			if lb.isZero() {
				return la
			}
			// disjoint bits add up
			if nonneg && hi != nil && lb.c.Sign() > 0 {
				tz := uint(0)
				for lb.c.Bit(int(tz)) == 0 {
					tz++
				}
				if hi.Cmp(new(big.Int).Lsh(bi(1), tz)) < 0 {
					return addLin(la, lb)
				}
			}
		}
	}
	if op == token.OR {
		// disjoint fields, such as byte(a)<<8 | byte(b)
		for k := 0; k < 2; k++ {
			lo1, _ := st.rangeOf(la)
			lo2, hi2 := st.rangeOf(lb)
			if lo1 != nil && lo2 != nil && hi2 != nil && lo1.Sign() >= 0 && lo2.Sign() >= 0 {
				n := uint(hi2.BitLen())
				m := new(big.Int).Lsh(bi(1), n)
				ok := true
				for _, t := range la.ts {
					if new(big.Int).Mod(t.n, m).Sign() != 0 {
						ok = false
					}
				}
				if new(big.Int).Mod(la.c, m).Sign() != 0 {
					ok = false
				}
				if ok {
					return ip.wrap(st, addLin(la, lb), rt)
				}
			}
			la, lb = lb, la
		}
	}
	return wrapTyp(mkApp(op.String(), rt, la, lb))
}

// equal builds the condition a == b
func (ip *Interp) equal(st *State, a, b Value, t types.Type) Value {
	if same(a, b) {
		if _, isF := a.(Flt); isF || t == nil || !isFloat(t) {
			return Bool(true)
		}
	}
	if isBoolType(t) {
		if x, ok := b.(Bool); ok {
			if bool(x) {
				return a
			}
			return mkNot(a)
		}
		if x, ok := a.(Bool); ok {
			if bool(x) {
				return b
			}
			return mkNot(b)
		}
		return mkEq(a, b)
	}
	if _, ok := a.(Nil); ok {
		return st.isNil(b)
	}
	if _, ok := b.(Nil); ok {
		return st.isNil(a)
	}
	switch x := a.(type) {
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			return Bool(x.Key() == y.Key())
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if !types.Identical(x.typ, y.typ) {
				return Bool(false)
			}
			if isIntType(x.typ) {
				return mkEQ0(subLin(asLin(x.v), asLin(y.v)))
			}
			return ip.equal(st, x.v, y.v, x.typ)
		}
		if y, ok := b.(*App); ok && strings.HasPrefix(y.op, "global:") {
			return Bool(false)
		}
	case *App:
		if y, ok := b.(*App); ok && strings.HasPrefix(x.op, "global:") && strings.HasPrefix(y.op, "global:") {
			return Bool(x.Key() == y.Key())
		}
		if y, ok := b.(*Iface); ok && strings.HasPrefix(x.op, "global:") {
			_ = y
			return Bool(false)
		}
	case *Struct:
		if y, ok := b.(*Struct); ok {
			su := x.typ.Underlying().(*types.Struct)
			var r Value = Bool(true)
			for i := range x.f {
				e := ip.equal(st, x.f[i], y.f[i], su.Field(i).Type())
				if be, ok := e.(Bool); ok {
					if !bool(be) {
						return Bool(false)
					}
					continue
				}
				if rb, ok := r.(Bool); ok && bool(rb) {
					r = e
				} else {
					r = mkApp("and", types.Typ[types.Bool], r, e)
				}
			}
			return r
		}
	}
	if isIntType(t) {
		return mkEQ0(subLin(asLin(a), asLin(b)))
	}
	e := mkEq(a, b)
	switch st.eqTri(a, b) {
	case yes:
		return Bool(true)
	case no:
		return Bool(false)
	}
	return e
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (ip *Interp) checkIndex(st *State, fr *frame, pos token.Pos, i, n *Lin, in ssa.Instruction) tri {
	r := unknown
	if i != nil && n != nil {
		okLo := st.proveLE(num(0), i)
		okHi := st.proveLT(i, n)
		switch {
		case okLo && okHi:
			r = yes
		case st.proveLT(i, num(0)) || st.proveLE(n, i):
			r = no
		case ip.onObl != nil && (refutable(st, addLin(i, num(1))) || refutable(st, subLin(n, i))):
			r = no
		}
	}
	d := ""
	if r != yes && i != nil && n != nil {
		d = fmt.Sprintf("index %s of %s", st.rlin(i).Key(), st.rlin(n).Key())
	}
	ip.oblige(st, "index", pos, fr.fn, r, d)
	if r == no && !(st.proveLT(i, num(0)) || st.proveLE(n, i)) {
		return unknown
	}
	return r
}

// refutable tells whether the state admits e <= 0
func refutable(st *State, e *Lin) bool {
	e = st.rlin(e)
	return !impreciseLin(st, e) && len(st.notes) == 0 && witness(st, []*Lin{e}, nil)
}

func (ip *Interp) makeSize(st *State, fr *frame, pos token.Pos, n, cp *Lin) {
	r := unknown
	if n != nil {
		if st.proveLE(num(0), n) {
			r = yes
		} else if st.proveLT(n, num(0)) {
			r = no
		} else if ip.onObl != nil && refutable(st, addLin(n, num(1))) {
			r = no
		}
	}
	ip.oblige(st, "makeslice", pos, fr.fn, r, "negative size")
	if ip.sizeHook != nil {
		ip.sizeHook(ip, st, cp, pos, fr.fn)
	}
}

func (ip *Interp) indexAddr(w *work, x *ssa.IndexAddr) ([]*work, Value) {
	st, fr := w.st, w.fr
	base := ip.val(st, fr, x.X)
	i := asLin(ip.val(st, fr, x.Index))
	if i == nil {
		i = asLin(ip.fresh("idx", types.Typ[types.Int]))
	}
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		p := ip.deref(st, base, x.X.Type())
		if p == nil {
			ip.oblige(st, "nilderef", x.Pos(), fr.fn, no, "index through nil pointer")
			return nil, Str("nil dereference")
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if ip.checkIndex(st, fr, x.Pos(), i, num(at.Len()), x) == no {
			return nil, Str("index out of range")
		}
		w.set(x, &Ptr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], pathElem{field: -1, idx: i})})
		return nil, nil
	}
	sl := ip.slice(st, base, x.X.Type())
	if sl == nil {
		ip.oblige(st, "index", x.Pos(), fr.fn, no, "index of empty slice")
		return nil, Str("index out of range")
	}
	if ip.checkIndex(st, fr, x.Pos(), i, sl.len, x) == no {
		return nil, Str("index out of range")
	}
	// continuing means the index was in range
	if !st.addCon(addLin(subLin(i, sl.len), num(1))) || !st.addCon(negLin(i)) {
		return []*work{}, nil
	}
	w.set(x, &Ptr{obj: sl.obj, path: []pathElem{{field: -1, idx: st.rlin(addLin(sl.off, i))}}})
	return nil, nil
}

func (ip *Interp) sliceOp(w *work, x *ssa.Slice) ([]*work, Value) {
	st, fr := w.st, w.fr
	v := ip.val(st, fr, x.X)
	var lo, hi *Lin = num(0), nil
	if x.Low != nil {
		lo = asLin(ip.val(st, fr, x.Low))
	}
	if x.High != nil {
		hi = asLin(ip.val(st, fr, x.High))
	}
	check := func(lim *Lin) bool {
		ok := st.proveLE(num(0), lo) && st.proveLE(lo, hi) && st.proveLE(hi, lim)
		bad := st.proveLT(lo, num(0)) || st.proveLT(hi, lo) || st.proveLT(lim, hi)
		r := unknown
		if ok {
			r = yes
		} else if bad || ip.onObl != nil && (refutable(st, addLin(lo, num(1))) || refutable(st, addLin(subLin(hi, lo), num(1))) || refutable(st, addLin(subLin(lim, hi), num(1)))) {
			r = no
		}
		ip.oblige(st, "slice", x.Pos(), fr.fn, r, fmt.Sprintf("[%s:%s] of %s", st.rlin(lo).Key(), st.rlin(hi).Key(), st.rlin(lim).Key()))
		return !bad
	}
	if isStringType(x.X.Type()) {
		n := lenOf(v)
		if hi == nil {
			hi = n
		}
		if !check(n) {
			return nil, Str("slice bounds out of range")
		}
		if s, ok := v.(Str); ok && lo.isConst() && hi.isConst() {
			w.set(x, s[lo.int():hi.int()])
			return nil, nil
		}
		if st.rlin(lo).is(0) && st.proveEQ(hi, n) {
			w.set(x, v)
			return nil, nil
		}
		q := ip.bytesOf(st, v)
		sub := st.window(q, lo, subLin(hi, lo))
		// strings.Index based cuts
		if r := cutString(st, v, lo, hi, n); r != nil {
			w.set(x, r)
			return nil, nil
		}
		w.set(x, ip.strOf(st, sub))
		return nil, nil
	}
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		p := ip.deref(st, v, x.X.Type())
		if p == nil {
			return nil, Str("nil dereference")
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := num(at.Len())
		if hi == nil {
			hi = n
		}
		if !check(n) {
			return nil, Str("slice bounds out of range")
		}
		if len(p.path) > 0 {
			// an array inside another object: slice a copy
			q, _ := ip.load(st, p, nil).(*SeqV)
			if q == nil {
				q = mkSeq(at.Elem())
			}
			w.set(x, ip.newSlice(st, st.window(q, lo, subLin(hi, lo)), x.Type()))
			return nil, nil
		}
		w.set(x, &Slice{obj: p.obj, off: lo, len: st.rlin(subLin(hi, lo)), cap: st.rlin(subLin(n, lo))})
		return nil, nil
	}
	sl := ip.slice(st, v, x.X.Type())
	if sl == nil {
		if hi == nil {
			hi = num(0)
		}
		if !check(num(0)) {
			return nil, Str("slice bounds out of range")
		}
		w.set(x, Nil{})
		return nil, nil
	}
	if hi == nil {
		hi = sl.len
	}
	if !check(sl.cap) {
		return nil, Str("slice bounds out of range")
	}
	st.addCon(subLin(lo, hi))
	st.addCon(subLin(hi, sl.cap))
	w.set(x, &Slice{obj: sl.obj, off: st.rlin(addLin(sl.off, lo)), len: st.rlin(subLin(hi, lo)), cap: st.rlin(subLin(sl.cap, lo)), src: sl.src})
	return nil, nil
}

// cutString recognises s[:i], s[i:] and s[i+k:] for i = strings.Index(s, sep)
func cutString(st *State, v Value, lo, hi, n *Lin) Value {
	return nil
}

// ---- maps

func (ip *Interp) mapOf(st *State, v Value, t types.Type) *MapV {
	v = st.R(v)
	switch x := v.(type) {
	case *MapV:
		return x
	case Nil:
		return nil
	case *Sym, *App:
		var nilc Value
		switch st.truth(st.isNil(x)) {
		case yes:
			return nil
		case no:
			nilc = Bool(false)
		default:
			nilc = mkApp("isnil", types.Typ[types.Bool], x)
		}
		m := &MapV{obj: ip.alloc(st, t, &MapC{base: x}, "unknown "+x.Key()), src: nilc}
		st.setBind(x, m)
		return m
	}
	return nil
}

func (ip *Interp) mapC(st *State, m *MapV) *MapC {
	c, ok := st.R(st.heap[m.obj].val).(*MapC)
	if !ok {
		return &MapC{base: ip.fresh("map", nil)}
	}
	return c
}

// wholeCopy recognises a map into which all entries of another were copied one by one
func (ip *Interp) wholeCopy(st *State, c *MapC) *MapC {
	if c.base != nil || len(c.ovr) == 0 {
		return c
	}
	var of Value
	at := num(0)
	n := 0
	for _, e := range c.ovr {
		k, ok := st.R(e.key).(*App)
		if !ok || k.op != "mapkey" || len(k.args) != 2 || of != nil && !same(of, k.args[0]) {
			break
		}
		v, ok := st.R(orNil(e.val)).(*App)
		if !ok || v.op != "mapval" || len(v.args) != 2 || !same(v.args[0], k.args[0]) || !same(v.args[1], k.args[1]) {
			break
		}
		want := at
		if e.rep != nil {
			want = addLin(at, atomLin(kappa))
		}
		if i := asLin(k.args[1]); i == nil || !same(st.rlin(i), st.rlin(want)) {
			break
		}
		of = k.args[0]
		if e.rep != nil {
			at = addLin(at, e.rep)
		} else {
			at = addLin(at, num(1))
		}
		n++
	}
	if of == nil || !st.proveEQ(at, lenVal(of)) {
		return c
	}
	return &MapC{base: of, ovr: c.ovr[n:]}
}

func (ip *Interp) mapSet(st *State, m *MapV, k, v Value) {
	o := st.heap[m.obj]
	c := ip.mapC(st, m)
	n := &MapC{base: c.base}
	for _, e := range c.ovr {
		if e.rep == nil && (same(e.key, k) || hasUnique(k) && st.truth(ip.equal(st, e.key, k, keyTypeOf(k))) == yes) {
			continue
		}
		n.ovr = append(n.ovr, e)
	}
	if !(v == nil && n.base == nil && len(n.ovr) == 0) {
		n.ovr = append(n.ovr, mapEnt{key: k, val: v})
	}
	if v == nil && n.base == nil {
		// a deletion only matters when an earlier entry may have the same key
		keep := false
		for _, e := range n.ovr[:max(0, len(n.ovr)-1)] {
			if e.val != nil && !(isConstVal(e.key) && isConstVal(k) && !same(e.key, k)) && st.truth(ip.equal(st, e.key, k, keyTypeOf(k))) != no {
				keep = true
			}
		}
		if !keep && len(n.ovr) > 0 {
			n.ovr = n.ovr[:len(n.ovr)-1]
		}
	}
	st.setObj(m.obj, &Obj{typ: o.typ, val: n, site: o.site})
}

type lookupRes struct {
	st *State
	v  Value // nil when absent
}

// mapGet enumerates the possible results of looking up k
func (ip *Interp) mapGet(st *State, c *MapC, k Value, et types.Type) []lookupRes {
	var out []lookupRes
	k = st.R(k)
	kt := keyTypeOf(k)
	for i := len(c.ovr) - 1; i >= 0; i-- {
		e := c.ovr[i]
		if e.rep != nil {
			// a summarised run: the entry may or may not be in it
			s1 := st.clone()
			v := ip.fresh("mapelem", et)
			if s1.addCon(subLin(num(1), e.rep)) {
				if !contains(e.val, func(x Value) bool { return x == Value(kappa) }) {
					out = append(out, lookupRes{s1, s1.R(e.val)})
				} else {
					// instantiate the template with an unknown index
					idx := ip.fresh("repidx", types.Typ[types.Int])
					s1.addCon(negLin(asLin(idx)))
					s1.addCon(addLin(subLin(asLin(idx), e.rep), num(1)))
					kk := substKappa(e.key, idx)
					if s1.assume(ip.equal(s1, k, kk, kt), true) {
						_ = v
						out = append(out, lookupRes{s1, s1.R(substKappa(e.val, idx))})
					}
				}
			}
			continue
		}
		eq := ip.equal(st, k, e.key, kt)
		switch st.truth(eq) {
		case yes:
			return append(out, lookupRes{st, e.val})
		case no:
			continue
		}
		s1 := st.clone()
		if s1.assume(eq, true) {
			out = append(out, lookupRes{s1, e.val})
		}
		s2 := st.clone()
		if !s2.assume(eq, false) {
			return out
		}
		st = s2
	}
	if c.base == nil {
		return append(out, lookupRes{st, nil})
	}
	// a key the map was found to have when its entries were listed
	if a, ok := k.(*App); ok && a.op == "mapkey" && len(a.args) == 2 && a.args[0].Key() == c.base.Key() {
		return append(out, lookupRes{st, wrapTyp(mkApp("mapval", et, a.args[0], a.args[1]))})
	}
	has := mkApp("has", types.Typ[types.Bool], c.base, k)
	switch st.truth(has) {
	case yes:
		return append(out, lookupRes{st, wrapTyp(mkApp("lookup", et, c.base, k))})
	case no:
		return append(out, lookupRes{st, nil})
	}
	s1, s2 := st.clone(), st.clone()
	s1.assume(has, true)
	s2.assume(has, false)
	return append(out, lookupRes{s1, wrapTyp(mkApp("lookup", et, c.base, k))}, lookupRes{s2, nil})
}

func keyTypeOf(k Value) types.Type {
	switch k.(type) {
	case *Lin:
		return types.Typ[types.Int]
	case Str, *Cat:
		return types.Typ[types.String]
	}
	return valType(k)
}

func (ip *Interp) lookup(w *work, x *ssa.Lookup) []*work {
	st := w.st
	mt := x.X.Type().Underlying().(*types.Map)
	m := ip.mapOf(st, ip.val(st, w.fr, x.X), x.X.Type())
	var rs []lookupRes
	if m == nil {
		rs = []lookupRes{{st, nil}}
	} else {
		if ip.access != nil {
			ip.access(ip, st, &Ptr{obj: m.obj}, false, x.Pos(), w.fr.fn)
		}
		rs = ip.mapGet(st, ip.mapC(st, m), ip.val(st, w.fr, x.Index), mt.Elem())
	}
	sts := make([]*State, len(rs))
	for i := range rs {
		sts[i] = rs[i].st
	}
	return w.fork(sts, func(i int, fr *frame) {
		v := rs[i].v
		ok := v != nil
		if !ok {
			v = ip.zero(mt.Elem())
		}
		if x.CommaOk {
			fr.regs[x] = &Tuple{[]Value{v, Bool(ok)}}
		} else {
			fr.regs[x] = v
		}
	})
}

// next advances an iterator
func (ip *Interp) next(w *work, x *ssa.Next) []*work {
	st := w.st
	p, ok := ip.val(st, w.fr, x.Iter).(*Ptr)
	var it *Ext
	if ok {
		it, ok = st.R(st.heap[p.obj].val).(*Ext)
	}
	if !ok {
		t := x.Type().(*types.Tuple)
		w.set(x, &Tuple{[]Value{ip.fresh("next", types.Typ[types.Bool]), ip.fresh("k", t.At(1).Type()), ip.fresh("v", t.At(2).Type())}})
		return nil
	}
	o := st.heap[p.obj]
	i := asLin(st.R(it.vs[1]))
	tt := x.Type().(*types.Tuple)
	adv := func(s *State, by *Lin) {
		s.setObj(p.obj, &Obj{typ: o.typ, val: &Ext{kind: it.kind, vs: []Value{it.vs[0], addLin(i, by)}}, site: o.site})
	}
	if it.kind == "striter" {
		s := st.R(it.vs[0])
		n := lenOf(s)
		if c, ok := s.(Str); ok && i.isConst() {
			if i.int() >= len(c) {
				w.set(x, &Tuple{[]Value{Bool(false), num(0), num(0)}})
				return nil
			}
			for k, r := range string(c[i.int():]) {
				_ = k
				adv(st, num(int64(len(string(r)))))
				w.set(x, &Tuple{[]Value{Bool(true), i, num(int64(r))}})
				return nil
			}
		}
		s1, s2 := st.clone(), st.clone()
		var sts []*State
		var vals []Value
		if s1.addCon(addLin(subLin(i, n), num(1))) {
			adv(s1, num(1))
			sts = append(sts, s1)
			vals = append(vals, &Tuple{[]Value{Bool(true), i, ip.fresh("rune", types.Typ[types.Int32])}})
		}
		if s2.addCon(subLin(n, i)) {
			sts = append(sts, s2)
			vals = append(vals, &Tuple{[]Value{Bool(false), num(0), num(0)}})
		}
		ip.markLoopSplit(w, len(sts) > 1)
		return w.fork(sts, func(k int, fr *frame) { fr.regs[x] = vals[k] })
	}
	c := it.vs[0].(*MapC)
	mt := o.typ.Underlying().(*types.Map)
	// the entries are visited in some order: overrides first, then the base
	pos := num(0)
	decided := false
	for _, e := range c.ovr {
		if e.val == nil {
			continue
		}
		n := num(1)
		if e.rep != nil {
			n = e.rep
		}
		end := addLin(pos, n)
		if st.proveLT(i, end) {
			adv(st, num(1))
			off := subLin(i, pos)
			w.set(x, &Tuple{[]Value{Bool(true), substKappa(e.key, off), st.R(substKappa(e.val, off))}})
			return nil
		}
		if !st.proveLE(end, i) {
			if c.base == nil {
				// undecided inside a run
				s1, s2 := st.clone(), st.clone()
				var next []*work
				if s1.addCon(addLin(subLin(i, end), num(1))) {
					f := w.fr.clone()
					next = append(next, &work{st: s1, fr: f, blk: w.blk, idx: w.idx - 1})
				}
				if s2.addCon(subLin(end, i)) {
					next = append(next, &work{st: s2, fr: w.fr, blk: w.blk, idx: w.idx - 1})
				}
				ip.markLoopSplit(w, true)
				return next
			}
		}
		pos = end
	}
	_ = decided
	if c.base == nil {
		w.set(x, &Tuple{[]Value{Bool(false), ip.zero(orInvalid(tt.At(1).Type(), mt.Key())), ip.zero(orInvalid(tt.At(2).Type(), mt.Elem()))}})
		return nil
	}
	n := addLin(pos, st.rlin(mapLen(c.base)))
	s1, s2 := st.clone(), st.clone()
	var sts []*State
	var vals []Value
	if s1.addCon(addLin(subLin(i, n), num(1))) {
		adv(s1, num(1))
		k := wrapTyp(mkApp("mapkey", mt.Key(), c.base, subLin(i, pos)))
		v := wrapTyp(mkApp("mapval", mt.Elem(), c.base, subLin(i, pos)))
		sts = append(sts, s1)
		vals = append(vals, &Tuple{[]Value{Bool(true), k, v}})
	}
	if s2.addCon(subLin(n, i)) {
		sts = append(sts, s2)
		vals = append(vals, &Tuple{[]Value{Bool(false), ip.zero(mt.Key()), ip.zero(mt.Elem())}})
	}
	ip.markLoopSplit(w, true)
	return w.fork(sts, func(k int, fr *frame) { fr.regs[x] = vals[k] })
}

func orInvalid(t, d types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return d
	}
	return t
}

func mapLen(base Value) *Lin { return atomLin(mkApp("len", types.Typ[types.Int], base)) }

// markLoopSplit notes that a loop's continuation was not decided
func (ip *Interp) markLoopSplit(w *work, split bool) {
	if !split {
		return
	}
	for h, lt := range w.fr.loops {
		if h == w.blk || ip.fnInfo(w.fr.fn).body[h][w.blk] {
			lt.split = true
			lt.envSplit = true
		}
	}
}

// ---- type assertions

func (ip *Interp) implements(t types.Type, it types.Type) bool {
	i, ok := it.Underlying().(*types.Interface)
	return ok && types.Implements(t, i)
}

func (ip *Interp) typeAssert(w *work, x *ssa.TypeAssert) ([]*work, Value) {
	st := w.st
	v := ip.val(st, w.fr, x.X)
	toIface := types.IsInterface(x.AssertedType)
	good := func(fr *frame, r Value) {
		if x.CommaOk {
			fr.regs[x] = &Tuple{[]Value{r, Bool(true)}}
		} else {
			fr.regs[x] = r
		}
	}
	bad := func(fr *frame) {
		fr.regs[x] = &Tuple{[]Value{ip.zero(x.AssertedType), Bool(false)}}
	}
	decide := func(ok bool, r Value) ([]*work, Value) {
		if ok {
			if !x.CommaOk {
				ip.oblige(st, "assert", x.Pos(), w.fr.fn, yes, "")
			}
			good(w.fr, r)
			return nil, nil
		}
		if x.CommaOk {
			bad(w.fr)
			return nil, nil
		}
		ip.oblige(st, "assert", x.Pos(), w.fr.fn, no, fmt.Sprintf("%s is not %s", v.Key(), typeName(x.AssertedType)))
		return nil, Str("interface conversion")
	}
	switch i := v.(type) {
	case Nil:
		return decide(false, nil)
	case *Iface:
		if toIface {
			return decide(ip.implements(i.typ, x.AssertedType), i)
		}
		return decide(types.Identical(i.typ, x.AssertedType), i.v)
	}
	// unknown dynamic type
	is := mkApp("is:"+typeName(x.AssertedType), types.Typ[types.Bool], v)
	switch st.truth(is) {
	case yes:
		if toIface {
			return decide(true, v)
		}
	case no:
		return decide(false, nil)
	}
	if vt := valType(v); toIface && vt != nil && types.IsInterface(vt) && types.Implements(vt, x.AssertedType.Underlying().(*types.Interface)) && st.truth(st.isNil(v)) == no {
		return decide(true, v)
	}
	if ip.possible != nil && !ip.possible(st, v, x.AssertedType) {
		return decide(false, nil)
	}
	if !x.CommaOk {
		r := unknown
		if ip.fromInput != nil && ip.fromInput(v) && len(st.notes) == 0 && !contains(v, isMadeUp) {
			r = no
		}
		ip.oblige(st, "assert", x.Pos(), w.fr.fn, r, fmt.Sprintf("%s may not be %s", v.Key(), typeName(x.AssertedType)))
	}
	s1, s2 := st.clone(), st.clone()
	var r Value
	s1.assume(s1.isNil(v), false)
	if toIface {
		s1.assume(is, true)
		r = v
	} else {
		s1.setBind(is, Bool(true))
		c := ip.castVal(s1, v, x.AssertedType)
		s1.setBind(v, &Iface{typ: x.AssertedType, v: c})
		r = c
	}
	s2.setBind(is, Bool(false))
	s1.event(x.Pos(), "%s is a %s", short(v.Key()), typeName(x.AssertedType))
	s2.event(x.Pos(), "%s is not a %s", short(v.Key()), typeName(x.AssertedType))
	if x.CommaOk {
		return w.fork([]*State{s1, s2}, func(k int, fr *frame) {
			if k == 0 {
				good(fr, r)
			} else {
				bad(fr)
			}
		}), nil
	}
	_, res := ip.doPanic(&work{st: s2, fr: w.fr.clone(), blk: w.blk}, Str("interface conversion"))
	good(w.fr, r)
	next := []*work{{st: s1, fr: w.fr, blk: w.blk, idx: w.idx}}
	for _, o := range res {
		next = append(next, &work{st: o.st, fr: &frame{fn: w.fr.fn, pan: o.pan}, blk: panicBlock})
	}
	return next, nil
}

// castVal is the concrete value inside an unknown interface once its type is known
func (ip *Interp) castVal(st *State, v Value, t types.Type) Value {
	if s, ok := t.Underlying().(*types.Struct); ok {
		f := make([]Value, s.NumFields())
		base := mkApp("as:"+typeName(t), t, v)
		for i := range f {
			f[i] = ip.fieldOf(base, i, t)
		}
		return &Struct{typ: t, f: f}
	}
	return wrapTyp(mkApp("as:"+typeName(t), t, v))
}

func short(s string) string {
	if len(s) > 120 {
		return s[:120] + "…"
	}
	return s
}

// ---- channels

func (ip *Interp) recv(w *work, x *ssa.UnOp) []*work {
	et := elemType(x.X.Type())
	v := ip.fresh("recv", et)
	if x.CommaOk {
		w.set(x, &Tuple{[]Value{v, ip.fresh("recvok", types.Typ[types.Bool])}})
	} else {
		w.set(x, v)
	}
	if ip.blockHook != nil {
		ip.blockHook(ip, w.st, "channel receive", x.Pos(), w.fr.fn)
	}
	if ip.waitHook != nil && ip.waitHook(w.st, x.Pos(), w.fr.fn) {
		return []*work{}
	}
	return nil
}

func (ip *Interp) selectOp(w *work, x *ssa.Select) []*work {
	if x.Blocking && ip.waitHook != nil && ip.waitHook(w.st, x.Pos(), w.fr.fn) {
		return []*work{}
	}
	n := len(x.States)
	first := 0
	if !x.Blocking {
		first = -1
	}
	var sts []*State
	for i := first; i < n; i++ {
		sts = append(sts, w.st.clone())
	}
	tt := x.Type().(*types.Tuple)
	return w.fork(sts, func(k int, fr *frame) {
		vs := []Value{num(int64(k + first)), ip.fresh("recvok", types.Typ[types.Bool])}
		for j := 2; j < tt.Len(); j++ {
			vs = append(vs, ip.fresh("recv", tt.At(j).Type()))
		}
		fr.regs[x] = &Tuple{vs}
	})
}

// ---- builtins

func (ip *Interp) builtin(st *State, in *ssa.Function, instr ssa.CallInstruction, name string, args []Value, c *ssa.CallCommon) []Outcome {
	one := func(v Value) []Outcome { return []Outcome{{st: st, ret: v}} }
	at := func(i int) types.Type { return c.Args[i].Type() }
	switch name {
	case "len":
		return one(ip.length(st, args[0], at(0)))
	case "cap":
		if sl, ok := args[0].(*Slice); ok {
			return one(sl.cap)
		}
		if _, ok := at(0).Underlying().(*types.Slice); ok {
			if sl := ip.slice(st, args[0], at(0)); sl != nil {
				return one(sl.cap)
			}
			return one(num(0))
		}
		return one(ip.length(st, args[0], at(0)))
	case "append":
		var a *SeqV
		et := elemType(at(0))
		sl := ip.slice(st, args[0], at(0))
		if sl == nil {
			a = mkSeq(et)
		} else {
			a = ip.seqOf(st, sl)
		}
		if len(args) < 2 {
			return one(args[0])
		}
		var b *SeqV
		if isStringType(at(1)) {
			b = ip.bytesOf(st, args[1])
		} else {
			b = ip.seqOf(st, ip.slice(st, args[1], at(1)))
		}
		if len(b.segs) == 0 {
			return one(args[0])
		}
		q := st.concat(mkSeq(et, a.segs...), b)
		if sl != nil && ip.handed(st, sl.obj) {
			// there may be room behind the window: what the caller holds there changes
			ip.changed(ip, st, decideEQ(st, sl.cap, sl.len), instr.Pos(), in)
		}
		return one(ip.newSlice(st, q, at(0)))
	case "copy":
		dst := ip.slice(st, args[0], at(0))
		var b *SeqV
		if isStringType(at(1)) {
			b = ip.bytesOf(st, args[1])
		} else {
			b = ip.seqOf(st, ip.slice(st, args[1], at(1)))
		}
		if dst == nil {
			return one(num(0))
		}
		n := st.rlin(b.length())
		m := n
		if !st.proveLE(n, dst.len) {
			if st.proveLE(dst.len, n) {
				m = dst.len
			} else {
				m = asLin(ip.minOf(st, n, dst.len))
			}
		}
		if ip.handed(st, dst.obj) {
			ip.changed(ip, st, decideEQ(st, m, num(0)), instr.Pos(), in)
		}
		ip.overwrite(st, dst, num(0), st.window(b, num(0), m), m)
		return one(m)
	case "delete":
		m := ip.mapOf(st, args[0], at(0))
		if m != nil {
			if ip.access != nil {
				ip.access(ip, st, &Ptr{obj: m.obj}, true, instr.Pos(), in)
			}
			ip.mapSet(st, m, args[1], nil)
		}
		return one(nil)
	case "clear":
		if m := ip.mapOf(st, args[0], at(0)); m != nil {
			o := st.heap[m.obj]
			st.setObj(m.obj, &Obj{typ: o.typ, val: &MapC{}, site: o.site})
		}
		return one(nil)
	case "min", "max":
		v := args[0]
		for _, b := range args[1:] {
			if name == "min" {
				v = ip.minOf(st, asLin(v), asLin(b))
			} else {
				a, bb := asLin(v), asLin(b)
				switch {
				case st.proveLE(a, bb):
					v = bb
				case st.proveLE(bb, a):
					v = a
				default:
					v = ip.fresh("max", c.Signature().Results().At(0).Type())
					st.addCon(subLin(a, asLin(v)))
					st.addCon(subLin(bb, asLin(v)))
				}
			}
		}
		return one(v)
	case "recover":
		return one(Nil{})
	case "print", "println":
		if h := ip.hooks["builtin."+name]; h != nil {
			return h(ip, st, &Call{name: name, args: args, pos: instr.Pos(), in: in, instr: instr})
		}
		return one(nil)
	case "close":
		return one(nil)
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	ip.trouble["builtin "+name]++
	return []Outcome{{st: st, ret: ip.freshResult(st, name, c.Signature().Results())}}
}

func (ip *Interp) minOf(st *State, a, b *Lin) Value {
	if st.proveLE(a, b) {
		return a
	}
	if st.proveLE(b, a) {
		return b
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return atomLin(mkApp("min", types.Typ[types.Int], a, b))
}

// overwrite stores the sequence b (of length n) at off in the window sl
// handed tells whether a result given to a caller lies in the object
func (ip *Interp) handed(st *State, obj int) bool {
	o := st.heap[obj]
	return ip.changed != nil && o != nil && strings.HasSuffix(o.site, handedOut)
}

const handedOut = " (handed out)"

func (ip *Interp) overwrite(st *State, sl *Slice, off *Lin, b *SeqV, n *Lin) {
	o := st.heap[sl.obj]
	q, ok := st.R(o.val).(*SeqV)
	if !ok {
		st.note("overwrite of unknown sequence")
		return
	}
	at := addLin(sl.off, off)
	pre, rest, ok1 := st.split(q, at)
	var post *SeqV
	ok2 := false
	if ok1 {
		_, post, ok2 = st.split(rest, n)
	}
	if !ok1 || !ok2 {
		st.note("overwrite at unknown position")
		st.setObj(sl.obj, &Obj{typ: o.typ, val: mkSeq(q.elem, rawSeg(ip.fresh("overwritten", nil), num(0), q.length())), site: o.site})
		return
	}
	st.setObj(sl.obj, &Obj{typ: o.typ, val: st.concat(st.concat(pre, b), post), site: o.site})
}

func (ip *Interp) length(st *State, v Value, t types.Type) Value {
	v = st.R(v)
	switch x := v.(type) {
	case *MapV:
		c := ip.mapC(st, x)
		if c.base == nil {
			n := num(0)
			for _, e := range c.ovr {
				if e.val == nil {
					continue
				}
				if e.rep != nil {
					n = addLin(n, e.rep)
				} else {
					n = addLin(n, num(1))
				}
			}
			dup := false
			for i, e := range c.ovr {
				for _, f := range c.ovr[:i] {
					if !(isConstVal(e.key) && isConstVal(f.key)) {
						dup = true
					}
				}
			}
			if !dup {
				return n
			}
			return wrapTyp(mkApp("maplen", types.Typ[types.Int], c))
		}
		if len(c.ovr) == 0 {
			return st.rlin(mapLen(c.base))
		}
		return wrapTyp(mkApp("maplen", types.Typ[types.Int], c))
	}
	if isStringType(t) {
		switch st.eqTri(v, Str("")) {
		case yes:
			return num(0)
		case no:
			if n := st.rlin(lenOf(v)); !n.isConst() {
				st.addCon(subLin(num(1), n))
			}
		}
	}
	return st.rlin(lenOf(v))
}

// sortedObls lists the obligations in source order
func (ip *Interp) sortedObls() []*Obl {
	var out []*Obl
	for _, o := range ip.obls {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].pos != out[j].pos {
			return out[i].pos < out[j].pos
		}
		return out[i].kind < out[j].kind
	})
	return out
}
