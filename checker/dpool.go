package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The pool of connections without routing is built on go-commons-pool.  The library is modelled after its source:
// an object is borrowed by taking an idle one or making one, activating and (as configured) validating it; it is
// returned by validating (as configured) and passivating it; objects that fail are destroyed, and objects are found
// by the value they were made with.

const poolLibPath = "github.com/jolestar/go-commons-pool"

type lib struct {
	pw           *poolWorld
	opT, poT, fT types.Type
	cfgT         types.Type
}

// entry is an object of the pool: idle or allocated, with the value it is found by
type entry struct {
	obj, key Value
	idle     bool
}

type objPool struct {
	ptr     *Ptr
	factory Value
	config  Value
	ents    []entry
	closed  bool
}

func (pw *poolWorld) library() {
	p := pw.c.p
	l := &lib{pw: pw, opT: p.extType(poolLibPath, "ObjectPool"), poT: p.extType(poolLibPath, "PooledObject"), fT: p.extType(poolLibPath, "PooledObjectFactory"), cfgT: p.extType(poolLibPath, "ObjectPoolConfig")}
	if l.opT == nil || l.poT == nil || l.fT == nil || l.cfgT == nil {
		return
	}
	ip := pw.ip
	ip.hooks[poolLibPath+".NewObjectPool"] = func(ip *Interp, st *State, c *Call) []Outcome {
		v := ip.newObj(st, l.opT, Nil{})
		d := ip.deref(st, v, types.NewPointer(l.opT))
		l.save(st, &objPool{ptr: d, factory: st.R(c.args[1]), config: st.R(c.args[2])})
		return one(st, v)
	}
	ip.hooks[poolLibPath+".NewPooledObject"] = func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, ip.newObj(st, l.poT, (&texts{ip: ip}).structOf(l.poT, map[string]Value{"Object": st.R(c.args[0])})))
	}
	m := func(name string, f func(st *State, o *objPool, c *Call) []Outcome) {
		ip.hooks["(*"+poolLibPath+".ObjectPool)."+name] = func(ip *Interp, st *State, c *Call) []Outcome {
			o := l.load(st, c.args[0])
			if o == nil {
				return nil
			}
			return f(st, o, c)
		}
	}
	m("BorrowObject", l.borrow)
	m("ReturnObject", l.giveBack)
	m("InvalidateObject", l.invalidate)
	m("Close", l.close)
	m("Clear", func(st *State, o *objPool, c *Call) []Outcome { return l.clear(st, o, c) })
	m("IsClosed", func(st *State, o *objPool, c *Call) []Outcome { return one(st, Bool(o.closed)) })
	m("GetNumIdle", func(st *State, o *objPool, c *Call) []Outcome { return one(st, num(int64(o.idle()))) })
	m("GetNumActive", func(st *State, o *objPool, c *Call) []Outcome {
		return one(st, num(int64(len(o.ents)-o.idle())))
	})
}

func (o *objPool) idle() int {
	n := 0
	for _, e := range o.ents {
		if e.idle {
			n++
		}
	}
	return n
}

func (l *lib) load(st *State, v Value) *objPool {
	d := l.pw.ip.deref(st, v, types.NewPointer(l.opT))
	if d == nil {
		return nil
	}
	return l.read(st, d)
}

func (l *lib) read(st *State, d *Ptr) *objPool {
	e, _ := st.R(l.pw.ip.load(st, d, l.opT)).(*Ext)
	if e == nil || e.kind != "objpool" {
		return nil
	}
	return readPool(e, d)
}

func readPool(e *Ext, d *Ptr) *objPool {
	o := &objPool{ptr: d, factory: e.vs[0], config: e.vs[1], closed: bool(e.vs[2].(Bool))}
	for _, x := range e.vs[3:] {
		v := x.(*Ext).vs
		o.ents = append(o.ents, entry{v[0], v[1], bool(v[2].(Bool))})
	}
	return o
}

func (l *lib) save(st *State, o *objPool) {
	vs := []Value{o.factory, o.config, Bool(o.closed)}
	for _, e := range o.ents {
		vs = append(vs, &Ext{kind: "entry", vs: []Value{e.obj, e.key, Bool(e.idle)}})
	}
	l.pw.ip.store(st, o.ptr, &Ext{kind: "objpool", vs: vs})
}

// flag reads a setting of the pool
func (l *lib) flag(st *State, o *objPool, name string) Value {
	d := l.pw.ip.deref(st, o.config, types.NewPointer(l.cfgT))
	if d == nil {
		return nil
	}
	return st.R(orNil(fieldNamed(l.pw.ip.expand(st.R(l.pw.ip.load(st, d, l.cfgT)), l.cfgT), l.cfgT, name)))
}

func (l *lib) on(st *State, o *objPool, name string) bool {
	b, ok := l.flag(st, o, name).(Bool)
	if !ok {
		st.note("the setting %s of the object pool is not known", name)
	}
	return bool(b)
}

func (l *lib) limit(st *State, o *objPool, name string) int {
	x := asLin(l.flag(st, o, name))
	if x == nil || !x.isConst() {
		st.note("the setting %s of the object pool is not known", name)
		return -1
	}
	return x.int()
}

// ask calls the factory; f sees every outcome that does not panic
func (l *lib) ask(st *State, o *objPool, name string, args []Value, c *Call, f func(st *State, v Value) []Outcome) []Outcome {
	var outs []Outcome
	for _, r := range l.pw.ip.callMethod(st, o.factory, l.fT, name, args, c) {
		if r.pan != nil {
			outs = append(outs, r)
			continue
		}
		outs = append(outs, f(r.st, r.ret)...)
	}
	return outs
}

func (l *lib) askBool(st *State, o *objPool, name string, args []Value, c *Call, f func(st *State, ok bool) []Outcome) []Outcome {
	return l.ask(st, o, name, args, c, func(st *State, v Value) []Outcome {
		switch st.truth(v) {
		case yes:
			return f(st, true)
		case no:
			return f(st, false)
		}
		var outs []Outcome
		for _, b := range []bool{true, false} {
			if t := st.clone(); t.assume(v, b) {
				outs = append(outs, f(t, b)...)
			}
		}
		return outs
	})
}

func (l *lib) askErr(st *State, o *objPool, name string, args []Value, c *Call, f func(st *State, ok bool) []Outcome) []Outcome {
	return l.ask(st, o, name, args, c, func(st *State, v Value) []Outcome {
		var outs []Outcome
		for _, a := range splitNil(st, st.R(v)) {
			outs = append(outs, f(a.st, a.isNil)...)
		}
		return outs
	})
}

func (l *lib) object(st *State, po Value) Value {
	d := l.pw.ip.deref(st, po, types.NewPointer(l.poT))
	if d == nil {
		return Nil{}
	}
	return bare(st, orNil(fieldNamed(l.pw.ip.expand(st.R(l.pw.ip.load(st, d, l.poT)), l.poT), l.poT, "Object")))
}

// bare is a value without the interface it is in
func bare(st *State, v Value) Value {
	v = st.R(v)
	for {
		i, ok := v.(*Iface)
		if !ok {
			return v
		}
		v = st.R(i.v)
	}
}

// destroy forgets an object and lets the factory get rid of it
func (l *lib) destroy(st *State, o *objPool, i int, c *Call, f func(st *State) []Outcome) []Outcome {
	e := o.ents[i]
	now := l.object(st, e.obj)
	var rest []entry
	for k, x := range o.ents {
		// it leaves the table only when it is still found by its value
		if k == i || same(x.key, now) {
			continue
		}
		rest = append(rest, x)
	}
	o.ents = rest
	l.save(st, o)
	return l.ask(st, o, "DestroyObject", []Value{c.args[1], e.obj}, c, func(st *State, v Value) []Outcome { return f(st) })
}

func (l *lib) fail(st *State, what string) []Outcome {
	return multi(st, Nil{}, l.pw.ip.newErr(st, "net "+what))
}

func (l *lib) borrow(st *State, o *objPool, c *Call) []Outcome {
	if o.closed {
		return l.fail(st, "pool not open")
	}
	ctx := c.args[1]
	try := func(st *State, o *objPool, i int, made bool) []Outcome {
		e := o.ents[i]
		o.ents[i].idle = false
		l.save(st, o)
		at := func(st *State) (*objPool, int) {
			n := l.read(st, o.ptr)
			for k, x := range n.ents {
				if same(x.obj, e.obj) {
					return n, k
				}
			}
			return n, -1
		}
		bad := func(st *State) []Outcome {
			n, k := at(st)
			if k < 0 {
				return l.fail(st, "pool object lost")
			}
			return l.destroy(st, n, k, c, func(st *State) []Outcome {
				if made {
					return l.fail(st, "pool object not usable")
				}
				n, _ := at(st)
				return l.borrow(st, n, c)
			})
		}
		done := func(st *State) []Outcome {
			return multi(st, l.object(st, e.obj), Nil{})
		}
		return l.askErr(st, o, "ActivateObject", []Value{ctx, e.obj}, c, func(st *State, ok bool) []Outcome {
			if !ok {
				return bad(st)
			}
			if l.on(st, o, "TestOnBorrow") || made && l.on(st, o, "TestOnCreate") {
				return l.askBool(st, o, "ValidateObject", []Value{ctx, e.obj}, c, func(st *State, ok bool) []Outcome {
					if !ok {
						return bad(st)
					}
					return done(st)
				})
			}
			return done(st)
		})
	}
	for i, e := range o.ents {
		if e.idle {
			return try(st, o, i, false)
		}
	}
	if max := l.limit(st, o, "MaxTotal"); max >= 0 && len(o.ents) >= max {
		if !l.on(st, o, "BlockWhenExhausted") {
			l.pw.say("C22", no, st, "does not wait", c.pos, "fails instead of waiting when every connection is in use")
			return l.fail(st, "pool exhausted")
		}
		l.pw.c.counts["waits for a free connection"]++
		for k := range l.pw.held(st, false) {
			l.pw.mark("wait: "+k, c)
		}
		return []Outcome{}
	}
	return l.ask(st, o, "MakeObject", []Value{ctx}, c, func(st *State, v Value) []Outcome {
		t, ok := v.(*Tuple)
		if !ok || len(t.vs) != 2 {
			return nil
		}
		var outs []Outcome
		for _, a := range splitNil(st, st.R(t.vs[1])) {
			if !a.isNil {
				outs = append(outs, multi(a.st, Nil{}, a.st.R(t.vs[1]))...)
				continue
			}
			po := a.st.R(t.vs[0])
			if d := l.pw.ip.deref(a.st, po, types.NewPointer(l.poT)); d == nil && a.st.truth(a.st.isNil(po)) == yes {
				// the library uses what it is given
				outs = append(outs, Outcome{st: a.st, pan: Str("the factory returned neither an object nor an error")})
				continue
			}
			n := l.read(a.st, o.ptr)
			n.ents = append([]entry{{obj: po, key: l.object(a.st, po), idle: true}}, n.ents...)
			outs = append(outs, try(a.st, n, 0, true)...)
		}
		return outs
	})
}

// mark notes that a lock is held or taken at a place
func (pw *poolWorld) mark(k string, c *Call) {
	if pw.sets[k] == nil {
		pw.sets[k] = &lockset{reads: map[string]bool{}, writes: map[string]bool{}, held: map[string]bool{"-": true}, pos: c.pos}
	}
}

func (l *lib) find(st *State, o *objPool, v Value) int {
	v = bare(st, v)
	for i, e := range o.ents {
		if same(st.R(e.key), v) {
			return i
		}
	}
	return -1
}

func (l *lib) giveBack(st *State, o *objPool, c *Call) []Outcome {
	refuse := func(st *State, what string) []Outcome { return one(st, l.pw.ip.newErr(st, "net "+what)) }
	i := l.find(st, o, c.args[2])
	if i < 0 {
		return refuse(st, "returned object not part of the pool")
	}
	if o.ents[i].idle {
		return refuse(st, "object has already been returned")
	}
	e := o.ents[i]
	ok := func(st *State) []Outcome { return one(st, Nil{}) }
	again := func(st *State) (*objPool, int) {
		n := l.read(st, o.ptr)
		return n, l.find(st, n, e.key)
	}
	drop := func(st *State) []Outcome {
		n, k := again(st)
		if k < 0 {
			return ok(st)
		}
		return l.destroy(st, n, k, c, ok)
	}
	keep := func(st *State) []Outcome {
		return l.askErr(st, o, "PassivateObject", []Value{c.args[1], e.obj}, c, func(st *State, fine bool) []Outcome {
			n, k := again(st)
			if k < 0 {
				return ok(st)
			}
			if max := l.limit(st, n, "MaxIdle"); !fine || n.closed || max >= 0 && max <= n.idle() {
				return drop(st)
			}
			x := n.ents[k]
			x.idle = true
			rest := append(append([]entry{}, n.ents[:k]...), n.ents[k+1:]...)
			if l.on(st, n, "LIFO") {
				n.ents = append([]entry{x}, rest...)
			} else {
				n.ents = append(rest, x)
			}
			l.save(st, n)
			return ok(st)
		})
	}
	if l.on(st, o, "TestOnReturn") {
		return l.askBool(st, o, "ValidateObject", []Value{c.args[1], e.obj}, c, func(st *State, fine bool) []Outcome {
			if !fine {
				return drop(st)
			}
			return keep(st)
		})
	}
	return keep(st)
}

func (l *lib) invalidate(st *State, o *objPool, c *Call) []Outcome {
	i := l.find(st, o, c.args[2])
	if i < 0 {
		return one(st, l.pw.ip.newErr(st, "net invalidated object not part of the pool"))
	}
	return l.destroy(st, o, i, c, func(st *State) []Outcome { return one(st, Nil{}) })
}

func (l *lib) close(st *State, o *objPool, c *Call) []Outcome {
	if o.closed {
		return one(st, nil)
	}
	o.closed = true
	l.save(st, o)
	return l.clear(st, o, c)
}

func (l *lib) clear(st *State, o *objPool, c *Call) []Outcome {
	o = l.read(st, o.ptr)
	for i, e := range o.ents {
		if e.idle {
			return l.destroy(st, o, i, c, func(st *State) []Outcome { return l.clear(st, o, c) })
		}
	}
	return one(st, nil)
}

// slots decides whether every borrowed slot belongs to a connection a user has
func (pw *poolWorld) slots(st *State, objs map[int]bool, fn *ssa.Function) {
	for id := range objs {
		e, ok := st.heap[id].val.(*Ext)
		if !ok || e.kind != "objpool" {
			continue
		}
		for _, x := range readPool(e, nil).ents {
			if x.idle {
				continue
			}
			r := pw.rec(st, x.key)
			pw.say("C22", triOf(r != nil && r.out != ""), st, "slot lost", fn.Pos(), "a slot stays borrowed although no user has its connection")
		}
	}
}

// waits decides whether a lock that closing takes is held while waiting for a free connection
func (pw *poolWorld) waits() {
	n := 0
	for _, k := range sortedKeys(pw.sets) {
		if !strings.HasPrefix(k, "wait: ") {
			continue
		}
		n++
		lock := k[len("wait: "):]
		if pw.sets["close: "+lock] != nil {
			pw.c.decide(no, "waits with "+lock, pw.sets[k].pos, nil, "waits for a free connection while holding %s, which closing needs", lock)
		}
	}
	if n == 0 {
		pw.c.decide(yes, "waits without locks", 0, nil, "")
	}
}
