package main

import (
	"fmt"
	"go/token"
	"go/types"
	"net/url"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The pool world: a routing pool is explored as histories of calls.  Connections are opaque; the cluster answers
// with any assignment of roles to two members, or not at all; every validation, roll back, close and dial can fail.
// States are compared up to the names of connections, so histories are closed when no new state is found.

func init() {
	const how = "the routing pool is interpreted over every history of open, reclaim, refresh, start and close calls, with refreshes answered by any assignment of roles to two members and every dial, validation, roll back and close failing or not, until no new state is found; "
	checks["C19"] = checkRouting("C19", how+"every load and store of an object reachable from the pool is recorded with the locks held, and locks are followed along every path",
		"One obligation per field that is written after the pool is shared, for a lock held at all its accesses, one per lock operation, and one per path that ends.")
	checks["C20"] = checkRouting("C20", how+"at every return the connections handed out, kept and dropped are judged",
		"One obligation per connection handed out, reclaimed or dropped and path.")
	checks["C22"] = checkRouting("C22", "the pooled driver without routing is interpreted over every history of open, reclaim and close calls on an object pool that behaves as the library does, with every dial, check, roll back and close failing or not, until no new state is found, and the routed one likewise; at every return the connections handed out, kept and dropped and the slots of the object pool are judged",
		"One obligation per connection handed out, kept or dropped, per borrowed slot and path, and per lock held while waiting.")
	checks["C21"] = checkRouting("C21", how+"every address dialed and every connection handed out is compared with the members and roles reported last, and after every refresh the targets are enumerated by making connections die",
		"One obligation per dial, connection handed out and refresh.")
}

type lockset struct {
	held          map[string]bool // locks held at all accesses, nil before the first
	reads, writes map[string]bool // where
	write         bool
	pos           token.Pos
	fn            *ssa.Function
	desc          string
}

type poolWorld struct {
	c       *Ctx
	w       *World
	ip      *Interp
	cw      *connWorld
	iconn   types.Type
	facade  bool
	plain   bool // without routing
	version int
	user    string
	pw      string
	op      string
	inOp    bool
	pool    Value // the pool of the running operation
	pre     map[int]bool
	force   force
	cuts    []*State
	between func(st *State) bool
	made    []string // addresses dialed by the running operation
	sets    map[string]*lockset
	cutting bool
	ends    time.Time
	limit   bool
	panics  bool
}

// force makes the environment behave: 0 any, 1 well, 2 badly
type force struct{ dial, valid, idle, close int }

const seedHost = "seed.example:7687"

var poolMembers = []string{"core1.example:7687", "core2.example:7687"}

func checkRouting(id, rule, explain string) func(c *Ctx) {
	return func(c *Ctx) {
		c.rule, c.explain = rule, explain
		sets := map[string]*lockset{}
		budget := 300 * time.Second
		if os.Getenv("VERIF_TIER") == "thorough" {
			budget = 600 * time.Second
		}
		type conf struct {
			name    string
			facade  bool
			version int
			size    int64
			share   int
		}
		confs := []conf{{"driver pool of 2, protocol 3", true, 3, 2, 25}, {"routing pool of 2, protocol 4", false, 4, 2, 65}, {"driver pool of 3, protocol 4", true, 4, 3, 100}}
		if id == "C22" {
			confs = []conf{{"plain pool of 1", true, 3, 1, 20}, {"plain pool of 2", true, 4, 2, 40}, {"plain pool of 3", true, 3, 3, 60}, {"driver pool of 2, protocol 3", true, 3, 2, 100}}
		}
		if id == "C20" || id == "C22" {
			// what the pool relies on when it asks a connection whether it is open and makes it idle
			checkConn(id, rule, explain)(c)
		}
		start := time.Now()
		for _, k := range confs {
			if skipRun(k.name) {
				continue
			}
			pw := newPoolWorld(c)
			if strings.HasPrefix(k.name, "plain") {
				pw.plain = true
				pw.library()
			}
			pw.sets = sets
			pw.facade, pw.version = k.facade, k.version
			pw.ends = start.Add(budget * time.Duration(k.share) / 100)
			pw.ip.deadline = pw.ends.Add(60 * time.Second)
			pw.explore(k.name, k.size)
			c.covered(pw.ip)
			if pw.plain {
				pw.waits()
			}
		}
		if id == "C19" || id == "C22" {
			for _, k := range sortedKeys(sets) {
				s := sets[k]
				if !s.write || strings.HasPrefix(k, "wait: ") || strings.HasPrefix(k, "close: ") {
					continue
				}
				c.counts["shared fields written"]++
				r := yes
				if len(s.held) == 0 {
					r = no
				} else {
					c.sample("%s is guarded by %s", k, strings.Join(sortedKeys(s.held), " and "))
				}
				c.decide(r, "race on "+k, s.pos, nil, "%s is written by %s and no lock is held at all its accesses (%s)", k, strings.Join(sortedKeys(s.writes), ", "), s.desc)
			}
		}
	}
}

func newPoolWorld(c *Ctx) *poolWorld {
	w := newWorld(c.p)
	pw := &poolWorld{c: c, w: w, ip: w.ip}
	pw.cw = &connWorld{c: c, w: w, ip: w.ip, config: map[string]bool{}, touched: map[string]*touch{}}
	ip := w.ip
	ip.maxRec = 20
	ip.uniqueIds = true
	pw.iconn = c.p.typ("connection", "IConnection")
	pw.cw.quiet()
	ip.quietFn = nil
	tx := &texts{ip: ip, cls: map[string]cset{}}
	tx.urlHooks()
	pw.hooks()
	return pw
}

var alike = map[string]bool{"closed": true, "not validated": true, "in use": true, "no connection": true, "kept without roll back": true, "kept without validation": true, "dropped": true, "left open": true, "panic": true}

func (pw *poolWorld) say(prop string, t tri, st *State, key string, pos token.Pos, format string, a ...interface{}) {
	// what the pools promise alike
	if pw.c.id == "C22" && prop == "C20" && (pw.plain || alike[key]) {
		prop = "C22"
	}
	if pw.c.id != prop {
		return
	}
	if t == no && len(st.notes) > 0 {
		t = unknown
	}
	pw.c.decide(t, pw.op+": "+key, pos, func() []string { return append(history(st), trace(pw.c.p, st, 60)...) }, "%s: %s", pw.op, fmt.Sprintf(format, a...))
}

// history of the operations that led to a state
func history(st *State) []string {
	if s := gs(st, "history"); s != "" {
		return []string{"after " + s}
	}
	return nil
}

// ---- connections

type prec struct {
	sym                Value
	host, out, born    string
	closed, old, valid bool
	idle               bool
	id                 Value
	pos                int
}

func (pw *poolWorld) recs(st *State) []*prec {
	e, _ := st.g("recs").(*Ext)
	if e == nil {
		return nil
	}
	var out []*prec
	for _, x := range e.vs {
		v := x.(*Ext).vs
		s := func(i int) string { return string(v[i].(Str)) }
		b := func(i int) bool { return bool(v[i].(Bool)) }
		out = append(out, &prec{sym: v[0], host: s(1), out: s(2), born: s(3), closed: b(4), old: b(5), valid: b(6), idle: b(7), id: v[8]})
	}
	return out
}

func (pw *poolWorld) setRecs(st *State, rs []*prec) {
	var vs []Value
	for _, r := range rs {
		vs = append(vs, &Ext{kind: "rec", vs: []Value{r.sym, Str(r.host), Str(r.out), Str(r.born), Bool(r.closed), Bool(r.old), Bool(r.valid), Bool(r.idle), r.id}})
	}
	st.setG("recs", &Ext{kind: "recs", vs: vs})
}

func (pw *poolWorld) rec(st *State, v Value) *prec {
	v = st.R(v)
	for _, r := range pw.recs(st) {
		if same(st.R(r.sym), v) {
			return r
		}
	}
	return nil
}

// update changes what is known of a connection
func (pw *poolWorld) update(st *State, v Value, f func(r *prec)) {
	rs := pw.recs(st)
	v = st.R(v)
	for _, r := range rs {
		if same(st.R(r.sym), v) {
			f(r)
		}
	}
	pw.setRecs(st, rs)
}

func (pw *poolWorld) newConn(st *State, host, born string) Value {
	v := nonNil(st, pw.ip.fresh("unique connection", pw.iconn))
	pw.setRecs(st, append(pw.recs(st), &prec{sym: v, host: host, born: born, id: Str("")}))
	return v
}

// role of a member in the last overview: L, F, R, - or nothing
func role(st *State, host string) string {
	roles := gs(st, "roles")
	for i, m := range poolMembers {
		if m == host && i < len(roles) {
			return roles[i : i+1]
		}
	}
	return ""
}

func fits(role, mode string) bool {
	if mode == "W" {
		return role == "L"
	}
	return role == "F" || role == "R"
}

// options lists the outcomes of a choice of the environment
func options(f int) []bool {
	switch f {
	case 1:
		return []bool{true}
	case 2:
		return []bool{false}
	}
	return []bool{true, false}
}

func (pw *poolWorld) choose(st *State, f int, do func(st *State, ok bool) Outcome) []Outcome {
	var outs []Outcome
	os := options(f)
	for i, ok := range os {
		s := st
		if i < len(os)-1 {
			s = st.clone()
		}
		outs = append(outs, do(s, ok))
	}
	return outs
}

func (pw *poolWorld) hooks() {
	ip := pw.ip
	p := pw.c.p
	if k := p.pkg("connection"); k != nil && pw.iconn != nil {
		for _, m := range k.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !token.IsExported(f.Name()) || f.Signature.Recv() != nil {
				continue
			}
			r, a := f.Signature.Results(), f.Signature.Params()
			if r.Len() == 2 && a.Len() > 0 && isStringType(a.At(0).Type()) && types.Identical(r.At(0).Type(), pw.iconn) {
				ip.hooks[fnName(f)] = pw.dial
			}
		}
	}
	set := func(m string, h Hook) {
		for _, n := range pw.cw.implNames(p.mod+"/connection.IConnection", m) {
			ip.hooks[n] = h
		}
	}
	set("ValidateOpen", func(ip *Interp, st *State, c *Call) []Outcome {
		r := pw.rec(st, c.args[0])
		if r == nil {
			return nil
		}
		if r.closed {
			return one(st, Bool(false))
		}
		return pw.choose(st, pw.force.valid, func(st *State, ok bool) Outcome {
			st.event(c.pos, "the connection to %s is %s", r.host, map[bool]string{true: "alive", false: "dead"}[ok])
			pw.update(st, c.args[0], func(r *prec) { r.valid = ok })
			return Outcome{st: st, ret: Bool(ok)}
		})
	})
	set("MakeIdle", func(ip *Interp, st *State, c *Call) []Outcome {
		r := pw.rec(st, c.args[0])
		if r == nil {
			return nil
		}
		f := pw.force.idle
		if r.closed {
			f = 2
		}
		return pw.choose(st, f, func(st *State, ok bool) Outcome {
			pw.update(st, c.args[0], func(r *prec) { r.idle = ok })
			if ok {
				return Outcome{st: st, ret: Nil{}}
			}
			st.event(c.pos, "rolling back the connection to %s fails", r.host)
			return Outcome{st: st, ret: ip.newErr(st, "net rollback error")}
		})
	})
	errClosed := Value(Nil{})
	if k := p.pkg("errors"); k != nil {
		if g, ok := k.Members["ErrClosed"].(*ssa.Global); ok {
			errClosed = &Ext{kind: "global", vs: []Value{ip.global(pw.w.st, g)}}
		}
	}
	set("Close", func(ip *Interp, st *State, c *Call) []Outcome {
		r := pw.rec(st, c.args[0])
		if r == nil {
			return nil
		}
		if r.closed {
			if e, ok := errClosed.(*Ext); ok {
				return one(st, st.R(ip.load(st, e.vs[0].(*Ptr), tError)))
			}
			return one(st, ip.newErr(st, "net closed"))
		}
		return pw.choose(st, pw.force.close, func(st *State, ok bool) Outcome {
			st.event(c.pos, "closes the connection to %s", r.host)
			if _, lit := c.instr.(*ssa.Defer); !lit && r.host != seedHost {
				// the answer is only interesting where it is used
			}
			pw.update(st, c.args[0], func(r *prec) { r.closed, r.valid = true, false })
			if ok {
				return Outcome{st: st, ret: Nil{}}
			}
			return Outcome{st: st, ret: ip.newErr(st, "net close error")}
		})
	})
	set("SetConnectionId", func(ip *Interp, st *State, c *Call) []Outcome {
		pw.update(st, c.args[0], func(r *prec) { r.id = st.R(c.args[1]) })
		return []Outcome{{st: st, ret: Nil{}}}
	})
	set("GetConnectionId", func(ip *Interp, st *State, c *Call) []Outcome {
		if r := pw.rec(st, c.args[0]); r != nil {
			return one(st, r.id)
		}
		return nil
	})
	set("GetProtocolVersionNumber", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, num(int64(pw.version)))
	})
	for _, q := range []string{"Query", "QueryWithDb"} {
		set(q, pw.query)
	}
	// a function that makes random texts is interpreted once
	for _, f := range p.moduleFuncs() {
		s := f.Signature
		if s.Recv() != nil || s.Results().Len() != 1 || !isStringType(s.Results().At(0).Type()) || len(f.FreeVars) > 0 {
			continue
		}
		simple := true
		for i := 0; i < s.Params().Len(); i++ {
			if _, ok := s.Params().At(i).Type().Underlying().(*types.Basic); !ok {
				simple = false
			}
		}
		if !simple {
			continue
		}
		name := fnName(f)
		busy, known := false, map[string]bool{}
		ip.hooks[name] = func(ip *Interp, st *State, c *Call) []Outcome {
			if busy || !pw.inOp {
				return nil
			}
			k := ""
			for _, a := range c.args {
				a = st.R(a)
				if !isConstVal(a) {
					return nil
				}
				k += a.Key() + ","
			}
			if known[k] {
				return one(st, nonNil(st, ip.fresh("unique random", tString)))
			}
			busy = true
			outs := ip.callFn(st, c, nil)
			busy = false
			if len(outs) == 1 && outs[0].pan == nil && unique(outs[0].st.R(orNil(outs[0].ret))) {
				known[k] = true
			}
			return outs
		}
	}
	ip.waitHook = pw.wait
	ip.hooks["time.Sleep"] = func(ip *Interp, st *State, c *Call) []Outcome {
		if pw.wait(st, c.pos, c.in) {
			return []Outcome{}
		}
		return one(st, nil)
	}
	ip.goHook = func(ip *Interp, st *State, c *Call) {
		if !pw.inOp || c.fn == nil {
			if c.fn == nil {
				pw.c.undecided["a goroutine of unknown code"]++
			}
			return
		}
		var vs []Value
		if e, ok := st.g("gos").(*Ext); ok {
			vs = e.vs
		}
		f := ip.goFn
		n := &Ext{kind: "go", vs: append([]Value{f}, c.args...)}
		for _, v := range vs {
			if same(v, n) {
				return
			}
		}
		st.setG("gos", &Ext{kind: "gos", vs: append(append([]Value{}, vs...), n)})
	}
	ip.onObl = func(st *State, kind string, pos token.Pos, fn *ssa.Function, ok tri, detail string) {
		if !pw.inOp || pw.cutting {
			return
		}
		switch kind {
		case "lock", "unlock":
			pw.say("C19", ok, st, kind+" in "+pw.c.p.relName(fn), pos, "%s in %s", detail, pw.c.p.relName(fn))
			if pw.plain {
				pw.say("C22", ok, st, kind+" in "+pw.c.p.relName(fn), pos, "%s in %s", detail, pw.c.p.relName(fn))
			}
		case "index", "bounds", "slice":
			pw.say("C21", ok, st, kind+" in "+pw.c.p.relName(fn), pos, "%s in %s", detail, pw.c.p.relName(fn))
		}
	}
	if pw.c.id == "C19" || pw.c.id == "C22" {
		ip.access = pw.access
		ip.atomicHook = func(ip *Interp, st *State, p *Ptr, c *Call) {
			pw.touch(st, p, !strings.Contains(c.name, "Load"), c.pos, c.in, true)
		}
	}
}

// dial is a call that creates a connection
func (pw *poolWorld) dial(ip *Interp, st *State, c *Call) []Outcome {
	a := st.R(c.args[0])
	s, ok := a.(Str)
	if !ok {
		pw.say("C21", unknown, st, "address", c.pos, "dials %s", short(a.Key()))
		pw.say("C20", unknown, st, "address", c.pos, "dials %s", short(a.Key()))
		return pw.dialed(st, c, "?")
	}
	host, cred := "", "none"
	if u, err := url.Parse(string(s)); err == nil {
		host = u.Host
		if u.User != nil {
			p, _ := u.User.Password()
			cred = u.User.Username() + ":" + p
		}
	}
	st.event(c.pos, "dials %s", host)
	want := "none"
	if pw.user != "" {
		want = pw.user + ":" + pw.pw
	}
	if host != seedHost {
		pw.made = append(pw.made, host)
		r := role(st, host)
		pw.say("C21", triOf(r != "" && r != "-"), st, "dials no member", c.pos, "dials %s, which is no member of the cluster according to the last overview (%s)", s, pw.roles(st))
	}
	pw.say("C21", triOf(cred == want), st, "credentials", c.pos, "dials %s without the configured credentials", s)
	return pw.dialed(st, c, host)
}

func (pw *poolWorld) dialed(st *State, c *Call, host string) []Outcome {
	return pw.choose(st, pw.force.dial, func(st *State, ok bool) Outcome {
		if ok {
			return Outcome{st: st, ret: &Tuple{[]Value{pw.newConn(st, host, role(st, host)), Nil{}}}}
		}
		st.event(c.pos, "can not connect to %s", host)
		return Outcome{st: st, ret: &Tuple{[]Value{Nil{}, pw.ip.newErr(st, "net dial error")}}}
	})
}

func (pw *poolWorld) roles(st *State) string {
	r := gs(st, "roles")
	if r == "" {
		return "there was none"
	}
	return fmt.Sprintf("core1 %c, core2 %c", r[0], r[1])
}

// overviews are the answers of the cluster: the roles of the members, then what is wrong with the answer
var overviews = []string{"LF", "FL", "LL", "FR", "L-", "-F", "--", "RL", "Lw", "!error", "!short", "!role", "!addr", "!id"}

// query answers the question for the members
func (pw *poolWorld) query(ip *Interp, st *State, c *Call) []Outcome {
	anys := types.NewSlice(tAny)
	str := func(s string) Value { return &Iface{typ: tString, v: Str(s)} }
	var outs []Outcome
	if r := pw.rec(st, c.args[0]); r != nil && r.closed {
		return multi(st, Nil{}, Nil{}, ip.newErr(st, "net closed"))
	}
	for _, o := range overviews {
		s := st.clone()
		list := func(vs ...Value) Value {
			var segs []Seg
			for _, v := range vs {
				segs = append(segs, item(v))
			}
			return ip.newSlice(s, mkSeq(tAny, segs...), anys)
		}
		ilist := func(vs ...Value) Value { return &Iface{typ: anys, v: list(vs...)} }
		if o == "!error" {
			s.event(c.pos, "the overview fails")
			outs = append(outs, multi(s, Nil{}, Nil{}, ip.newErr(s, "net query error"))...)
			continue
		}
		var rows []Seg
		row := func(i int, role string, web bool, bad string) {
			bolt := str("bolt://" + poolMembers[i])
			http := str("http://bolt" + fmt.Sprint(i) + ".example:7474")
			addrs := ilist(bolt, http)
			if i == 1 {
				addrs = ilist(http, bolt)
			}
			if web {
				addrs = ilist(http)
			}
			id := str(fmt.Sprintf("id%d", i))
			r := str(role)
			switch bad {
			case "!role":
				r = str("OBSERVER")
			case "!addr":
				addrs = Value(str("bolt://" + poolMembers[i]))
			case "!id":
				id = &Iface{typ: tInt64, v: num(7)}
			}
			var vs []Value
			if pw.version >= 4 {
				mt := types.NewMap(tString, tAny)
				dbs := &MapV{obj: ip.alloc(s, mt, &MapC{ovr: []mapEnt{{key: Str("neo4j"), val: str("FOLLOWER")}, {key: Str("system"), val: r}}}, "databases")}
				vs = []Value{id, addrs, &Iface{typ: mt, v: dbs}, ilist()}
			} else {
				vs = []Value{id, addrs, r, ilist(), str("neo4j")}
			}
			if bad == "!short" {
				vs = vs[:2]
			}
			rows = append(rows, item(list(vs...)))
		}
		names := map[byte]string{'L': "LEADER", 'F': "FOLLOWER", 'R': "READ_REPLICA", 'w': "FOLLOWER"}
		if o[0] == '!' {
			// a change that must not be taken over, then the row that can not be understood
			was := gs(st, "roles")
			if was == "LF" {
				row(0, "FOLLOWER", false, "")
			} else {
				row(0, "LEADER", false, "")
			}
			row(1, "FOLLOWER", false, o)
			s.event(c.pos, "the overview has a row that is not understood (%s)", o[1:])
		} else {
			roles := ""
			for i := range poolMembers {
				if n := names[o[i]]; n != "" {
					row(i, n, o[i] == 'w', "")
				}
				if o[i] == 'w' {
					roles += "-"
				} else {
					roles += o[i : i+1]
				}
			}
			setS(s, "roles", roles)
			s.event(c.pos, "the overview says %s", pw.roles(s))
		}
		setS(s, "refreshed", o)
		q := ip.newSlice(s, mkSeq(anys, rows...), types.NewSlice(anys))
		outs = append(outs, multi(s, q, Nil{}, Nil{})...)
	}
	return outs
}

// wait is where a goroutine waits; the second time is where its turn ends
func (pw *poolWorld) wait(st *State, pos token.Pos, fn *ssa.Function) bool {
	if !pw.inOp {
		return false
	}
	n := lg(st, "waits")
	if n == nil {
		return false // no goroutine of the pool
	}
	if n.is(0) {
		st.setG("waits", num(1))
		if pw.between != nil && !pw.between(st) {
			return true
		}
		return false
	}
	pw.cuts = append(pw.cuts, st.clone())
	return true
}

// ---- reachability

// reach lists the objects and connections reachable from some values
func (pw *poolWorld) reach(st *State, vs ...Value) (objs map[int]bool, syms map[string]bool) {
	objs, syms = map[int]bool{}, map[string]bool{}
	var obj func(id int)
	var walk func(v Value)
	walk = func(v Value) {
		if v == nil {
			return
		}
		v = st.R(v)
		switch x := v.(type) {
		case *Ptr:
			obj(x.obj)
		case *Slice:
			obj(x.obj)
		case *MapV:
			obj(x.obj)
		case *Iface:
			walk(x.v)
		case *Struct:
			for _, f := range x.f {
				walk(f)
			}
		case *Fn:
			for _, b := range x.bind {
				walk(b)
			}
		case *Ext:
			for _, b := range x.vs {
				walk(b)
			}
		case *Tuple:
			for _, b := range x.vs {
				walk(b)
			}
		case *MapC:
			for _, e := range x.ovr {
				if e.val != nil {
					walk(e.key)
					walk(e.val)
				}
			}
		case *SeqV:
			for _, g := range x.segs {
				if g.v != nil {
					walk(g.v)
				}
			}
		case *Sym:
			syms[x.Key()] = true
		}
	}
	obj = func(id int) {
		if objs[id] || st.heap[id] == nil {
			return
		}
		objs[id] = true
		walk(st.heap[id].val)
	}
	for _, v := range vs {
		walk(v)
	}
	// what globals hold
	for id, o := range pw.w.st.heap {
		if n := st.heap[id]; n != nil && n != o && !same(n.val, o.val) {
			obj(id)
		}
	}
	return
}

// held lists the locks that are held; exclusive only for writes
func (pw *poolWorld) held(st *State, write bool) map[string]bool {
	out := map[string]bool{}
	e, _ := st.g("locks").(*Ext)
	if e == nil {
		return out
	}
	for _, v := range e.vs {
		l := v.(*Ext)
		k := string(l.vs[0].(Str))
		if write && string(l.vs[1].(Str)) == "R" {
			continue
		}
		out[k] = true
	}
	return out
}

// place names a location independent of the object
func (pw *poolWorld) place(st *State, p *Ptr) string {
	o := st.heap[p.obj]
	if o == nil {
		return ""
	}
	t := o.typ
	n := ""
	if t != nil {
		n = typeName(t)
	}
	if _, ok := t.(*types.Named); !ok {
		n = o.site
		if n == "" {
			n = typeName(t)
		}
	}
	for _, e := range p.path {
		if e.field < 0 {
			n += "[]"
			break
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok || e.field >= u.NumFields() {
			break
		}
		n += "." + u.Field(e.field).Name()
		t = u.Field(e.field).Type()
	}
	return strings.ReplaceAll(n, pw.c.p.mod+"/", "")
}

func (pw *poolWorld) lockHook(ip *Interp, st *State, k string, p *Ptr, c *Call) {
	if !pw.inOp {
		return
	}
	n := pw.place(st, p)
	var vs []Value
	if e, ok := st.g("locks").(*Ext); ok {
		vs = append(vs, e.vs...)
	}
	id := num(int64(p.obj))
	switch k {
	case "L", "R":
		if pw.plain && pw.op == "Close" {
			pw.mark("close: "+n, c)
		}
		vs = append(vs, &Ext{kind: "lock", vs: []Value{Str(n), Str(k), id, Str(p.Key())}})
	default:
		for i := len(vs) - 1; i >= 0; i-- {
			l := vs[i].(*Ext)
			if same(l.vs[3], Str(p.Key())) {
				vs = append(vs[:i:i], vs[i+1:]...)
				break
			}
		}
	}
	st.setG("locks", &Ext{kind: "locks", vs: vs})
}

func (pw *poolWorld) access(ip *Interp, st *State, p *Ptr, write bool, pos token.Pos, fn *ssa.Function) {
	pw.touch(st, p, write, pos, fn, false)
}

func (pw *poolWorld) touch(st *State, p *Ptr, write bool, pos token.Pos, fn *ssa.Function, atomically bool) {
	if !pw.inOp || pw.cutting || pw.c.id != "C19" && !(pw.plain && pw.c.id == "C22") || pw.w.st.heap[p.obj] != nil {
		return
	}
	o := st.heap[p.obj]
	if o == nil || extKind(o.typ) == "mutex" {
		return
	}
	if n, ok := o.typ.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), poolLibPath) {
		// the library guards its own objects
		return
	}
	held := pw.held(st, write)
	if atomically {
		held["an atomic access"] = true
	}
	if !pw.pre[p.obj] {
		if len(held) > 0 {
			return
		}
		objs, _ := pw.reach(st, pw.pool)
		if !objs[p.obj] {
			return
		}
	}
	k := pw.place(st, p)
	s := pw.sets[k]
	if s == nil {
		s = &lockset{reads: map[string]bool{}, writes: map[string]bool{}}
		pw.sets[k] = s
	}
	name := pw.c.p.relName(fn)
	if s.held == nil {
		s.held = held
		s.pos, s.fn = pos, fn
		if len(held) == 0 {
			s.desc = "none in " + name
		} else {
			s.desc = strings.Join(sortedKeys(held), " and ") + " in " + name
		}
	} else {
		before := len(s.held)
		for l := range s.held {
			if !held[l] {
				delete(s.held, l)
			}
		}
		if before > 0 && len(s.held) == 0 {
			s.pos, s.fn = pos, fn
			d := "none"
			if len(held) > 0 {
				d = strings.Join(sortedKeys(held), " and ")
			}
			s.desc += ", " + d + " in " + name
		}
	}
	if write {
		s.write = true
		s.writes[name] = true
	} else {
		s.reads[name] = true
	}
	pw.c.counts["accesses of shared objects"]++
}

// ---- exploration

type poolState struct {
	st   *State
	pool Value
	key  string
	path string
	n    int
	// numbers up to these are in use
	lastObj, lastSym int
}

func (pw *poolWorld) explore(name string, size int64) {
	c := pw.c
	ip := pw.ip
	progress("%s", name)
	ip.lockHook = pw.lockHook
	st := pw.w.st.clone()
	st.trace = nil
	pw.user, pw.pw = "neo", "s3cret/"
	var starts []*poolState
	c.guarded(func() {
		if pw.facade {
			starts = pw.driver(st, size)
		} else {
			starts = pw.direct(st, size)
		}
	})
	if len(starts) == 0 {
		c.decide(unknown, name+": pool", 0, nil, "%s: no pool is ever made", name)
		return
	}
	seen := map[string]bool{}
	var queue []*poolState
	add := func(s *poolState) {
		if seen[s.key] {
			return
		}
		seen[s.key] = true
		queue = append(queue, s)
		if os.Getenv("VERIF_KEYS") != "" {
			fmt.Println("KEY", len(seen), s.path, "\n   ", strings.ReplaceAll(s.key, pw.c.p.mod, ""))
		}
	}
	for _, s := range starts {
		add(s)
	}
	var workers []*poolWorld
	for i := 0; i < runtime.NumCPU() && i < 16; i++ {
		workers = append(workers, pw.twin())
	}
	done := 0
	for len(queue) > 0 {
		bad := false
		for _, k := range c.order {
			bad = bad || !c.isKnown(k)
		}
		if bad {
			c.sample("%s: not explored further after a violation", name)
			break
		}
		if time.Now().After(pw.ends) {
			c.counts["states not expanded"] += len(queue)
			c.sample("%s: %d states were left when the time was up", name, len(queue))
			break
		}
		n := len(queue)
		if n > 32*len(workers) {
			n = 32 * len(workers)
		}
		batch := queue[:n]
		queue = queue[n:]
		type result struct {
			c   *Ctx
			out []*poolState
		}
		results := make([]result, n)
		var next int32 = -1
		var wg sync.WaitGroup
		for _, k := range workers {
			wg.Add(1)
			go func(k *poolWorld) {
				defer wg.Done()
				for {
					i := int(atomic.AddInt32(&next, 1))
					if i >= n {
						return
					}
					k.c = newCtx(c.p, c.id)
					k.cw.c = k.c
					k.ip.steps = 0
					if s := batch[i]; s.lastObj > k.ip.nextObj {
						k.ip.nextObj = s.lastObj
					}
					if s := batch[i]; s.lastSym > k.ip.nextSym {
						k.ip.nextSym = s.lastSym
					}
					k.c.guarded(func() { results[i].out = k.step(batch[i]) })
					results[i].c = k.c
				}
			}(k)
		}
		wg.Wait()
		for _, r := range results {
			c.merge(r.c)
			for _, s := range r.out {
				add(s)
			}
		}
		c.counts["states"] += n
		done += n
		progress("%d states, %d waiting, depth %d", done, len(queue), batch[n-1].n)
	}
	for _, k := range workers {
		c.covered(k.ip)
		mergeSets(pw.sets, k.sets)
	}
	c.sample("%s: %d states", name, len(seen))
}

// twin is a world with the same variables for another worker
func (pw *poolWorld) twin() *poolWorld {
	n := newPoolWorld(newCtx(pw.c.p, pw.c.id))
	n.w.st = pw.w.st
	if pw.plain {
		n.plain = true
		n.library()
	}
	n.sets = map[string]*lockset{}
	n.facade, n.version, n.user, n.pw = pw.facade, pw.version, pw.user, pw.pw
	n.ends = pw.ends
	n.ip.deadline = pw.ip.deadline
	n.ip.lockHook = n.lockHook
	if n.ip.nextObj < pw.ip.nextObj {
		n.ip.nextObj = pw.ip.nextObj
	}
	if n.ip.nextSym < pw.ip.nextSym {
		n.ip.nextSym = pw.ip.nextSym
	}
	return n
}

func mergeSets(to, from map[string]*lockset) {
	for k, s := range from {
		t := to[k]
		if t == nil {
			to[k] = s
			continue
		}
		if s.held != nil {
			if t.held == nil {
				t.held = s.held
			}
			for l := range t.held {
				if !s.held[l] {
					delete(t.held, l)
				}
			}
			if len(t.held) == 0 {
				t.desc += ", " + s.desc
			}
		}
		if s.write && !t.write {
			t.pos, t.fn = s.pos, s.fn
		}
		t.write = t.write || s.write
		for f := range s.reads {
			t.reads[f] = true
		}
		for f := range s.writes {
			t.writes[f] = true
		}
	}
}

// begin prepares a call
func (pw *poolWorld) begin(s *poolState, op string) *State {
	st := s.st.clone()
	st.trace = nil
	setS(st, "history", s.path)
	pw.op = op
	pw.pool = s.pool
	pw.made = nil
	pw.pre, _ = pw.reach(st, s.pool)
	rs := pw.recs(st)
	for _, r := range rs {
		r.valid, r.idle = false, false
	}
	pw.setRecs(st, rs)
	setS(st, "refreshed", "")
	return st
}

// call interprets a call of a method of the pool; f sees the normal results with the error decided
func (pw *poolWorld) call(st *State, recv Value, name string, f func(st *State, fn *ssa.Function, v Value, err bool), args ...Value) {
	i, ok := st.R(recv).(*Iface)
	if !ok {
		pw.c.undecided["no receiver for "+name]++
		return
	}
	fn := pw.c.p.method(i.typ, name)
	if fn == nil {
		pw.c.undecided["no method "+name]++
		return
	}
	pw.callFn(st, fn, f, append([]Value{st.R(i.v)}, args...)...)
}

func (pw *poolWorld) callFn(st *State, fn *ssa.Function, f func(st *State, fn *ssa.Function, v Value, err bool), args ...Value) {
	pw.inOp = true
	defer func() { pw.inOp = false }()
	outs := pw.w.call(st, fn, args...)
	for _, o := range outs {
		if o.pan != nil {
			for _, id := range []string{"C20", "C21"} {
				pw.say(id, no, o.st, "panic", fn.Pos(), "panics: %s", o.pan.Key())
			}
			continue
		}
		vs := tupleOf(o)
		for _, a := range splitNil(o.st, o.st.R(vs[len(vs)-1])) {
			f(a.st, fn, a.st.R(vs[0]), !a.isNil)
		}
	}
}

// driver makes a routed driver pool
func (pw *poolWorld) driver(st *State, size int64) []*poolState {
	optT, newClient := pw.c.p.typ("", "Opt"), pw.c.p.fn("", "NewClient")
	conStr := pw.c.p.fn("", "WithConnectionString")
	if optT == nil || newClient == nil || conStr == nil {
		return nil
	}
	var out []*poolState
	pw.op = "NewDriverPool"
	pw.inOp = true
	scheme := "bolt+routing"
	if pw.plain {
		scheme = "bolt"
	}
	for _, o := range pw.w.call(st, conStr, Str(scheme+"://neo:s3cret%2F@"+seedHost+"?timeout=10")) {
		if o.pan != nil {
			continue
		}
		opts := pw.ip.newSlice(o.st, mkSeq(optT, item(o.st.R(o.ret))), types.NewSlice(optT))
		pw.callFn(o.st, newClient, func(st *State, fn *ssa.Function, client Value, err bool) {
			if err {
				return
			}
			pw.op = "NewDriverPool"
			pw.call(st, client, "NewDriverPool", func(st *State, fn *ssa.Function, v Value, err bool) {
				if err {
					setS(st, "running", "no")
					pw.finish(st, Nil{}, fn)
					return
				}
				setS(st, "running", "yes")
				pw.finish(st, v, fn)
				out = append(out, pw.canon(&poolState{path: "NewDriverPool", n: 1}, st, v))
			}, num(size))
		}, opts)
	}
	return pw.dedupe(out)
}

// direct makes a routing pool
func (pw *poolWorld) direct(st *State, size int64) []*poolState {
	fn := pw.c.p.fn("routing", "NewRoutingPool")
	if fn == nil {
		return nil
	}
	var out []*poolState
	pw.op = "NewRoutingPool"
	// without options, the pooled driver has some
	a := []Value{Str("bolt+routing://neo:s3cret%2F@" + seedHost), num(size), num(int64(time.Minute)), Str("neo:s3cret%2F"), Str("")}
	pw.callFn(st, fn, func(st *State, fn *ssa.Function, v Value, err bool) {
		if err {
			return
		}
		setS(st, "running", "no")
		out = append(out, pw.canon(&poolState{path: "NewRoutingPool", n: 1}, st, v))
	}, a...)
	return pw.dedupe(out)
}

func (pw *poolWorld) dedupe(ss []*poolState) []*poolState {
	seen := map[string]bool{}
	var out []*poolState
	for _, s := range ss {
		if !seen[s.key] {
			seen[s.key] = true
			out = append(out, s)
		}
	}
	return out
}

// finish judges the state in which a call returns
func (pw *poolWorld) finish(st *State, pool Value, fn *ssa.Function) {
	objs, syms := pw.reach(st, pool, orNil(st.g("gos")))
	if pw.plain {
		pw.slots(st, objs, fn)
	}
	if e, ok := st.g("locks").(*Ext); ok && (pw.c.id == "C19" || pw.plain) {
		free := yes
		d := ""
		for _, v := range e.vs {
			l := v.(*Ext)
			if objs[asLin(l.vs[2]).int()] {
				free = no
				d = string(l.vs[0].(Str))
			}
		}
		for _, id := range []string{"C19", "C22"} {
			pw.say(id, free, st, "lock not released", fn.Pos(), "returns without releasing %s", d)
		}
	}
	for _, r := range pw.recs(st) {
		if r.out != "" {
			continue
		}
		if gs(st, "running") == "no" {
			pw.say("C20", triOf(r.closed), st, "left open", fn.Pos(), "a connection to %s is left open by a pool that is not running", r.host)
			continue
		}
		pw.say("C20", triOf(r.closed || syms[r.sym.Key()]), st, "dropped", fn.Pos(), "the connection to %s is dropped without being closed", r.host)
	}
	st.setG("locks", nil)
}

func (pw *poolWorld) borrow(st *State, pool Value, mode string, f func(st *State, fn *ssa.Function, v Value, err bool)) {
	if pw.facade {
		n := num(0)
		if k := pw.c.p.pkg("bolt_mode"); k != nil {
			name := map[string]string{"W": "WriteMode", "R": "ReadMode"}[mode]
			if c, ok := k.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if i, ok := constInt(c); ok {
					n = num(i)
				}
			}
		}
		pw.call(st, pool, "Open", f, n)
		return
	}
	pw.call(st, pool, map[string]string{"W": "BorrowRWConnection", "R": "BorrowRConnection"}[mode], f)
}

func (pw *poolWorld) opName(mode string) string {
	if pw.facade {
		return map[string]string{"W": "Open(WriteMode)", "R": "Open(ReadMode)"}[mode]
	}
	return map[string]string{"W": "BorrowRWConnection", "R": "BorrowRConnection"}[mode]
}

// borrowed judges a connection that was handed out, and notes that it was
func (pw *poolWorld) borrowed(st *State, fn *ssa.Function, v Value, mode string) *prec {
	r := pw.rec(st, v)
	if r == nil {
		pw.say("C20", triOf(st.truth(st.isNil(v)) == unknown), st, "no connection", fn.Pos(), "returns neither a connection nor an error")
		return nil
	}
	now := role(st, r.host)
	pw.say("C20", triOf(!r.closed), st, "closed", fn.Pos(), "hands out a connection that is closed")
	if !r.closed {
		pw.say("C20", triOf(r.valid), st, "not validated", fn.Pos(), "hands out a connection without having found it alive")
	}
	pw.say("C20", triOf(r.out == ""), st, "in use", fn.Pos(), "hands out a connection to %s that is in use", r.host)
	pw.say("C21", triOf(fits(r.born, mode)), st, "role", fn.Pos(), "hands out a connection to %s, whose role was %q when it was opened", r.host, r.born)
	if fits(r.born, mode) && !pw.plain {
		for _, id := range []string{"C20", "C21"} {
			pw.say(id, triOf(fits(now, mode)), st, "condemned", fn.Pos(), "hands out a connection to %s, which the last overview does not list for that (%s)", r.host, pw.roles(st))
		}
	}
	pw.update(st, v, func(r *prec) { r.out, r.old = mode, false })
	return r
}

// step makes every call that is possible in a state
func (pw *poolWorld) step(s *poolState) []*poolState {
	var out []*poolState
	done := map[string]bool{}
	add := func(st *State, op string) {
		n := pw.canon(&poolState{path: s.path + ", " + op, n: s.n + 1}, st, s.pool)
		if !done[n.key] {
			done[n.key] = true
			out = append(out, n)
		}
	}
	running := gs(s.st, "running") == "yes"
	recs := pw.recs(s.st)
	users := 0
	for _, r := range recs {
		if r.out != "" {
			users++
		}
	}
	if !pw.facade && !running && users <= 1 {
		st := pw.begin(s, "Start")
		pw.call(st, s.pool, "Start", func(st *State, fn *ssa.Function, v Value, err bool) {
			if err {
				setS(st, "running", "no")
			} else {
				setS(st, "running", "yes")
			}
			pw.finish(st, s.pool, fn)
			add(st, "Start")
		})
	}
	if users <= 2 {
		for _, mode := range []string{"W", "R"} {
			op := pw.opName(mode)
			st := pw.begin(s, op)
			mode := mode
			pw.borrow(st, s.pool, mode, func(st *State, fn *ssa.Function, v Value, err bool) {
				if !err {
					if pw.facade && !running {
						pw.say("C22", no, st, "opens after close", fn.Pos(), "hands out a connection although the pool was closed")
					}
					pw.borrowed(st, fn, v, mode)
				}
				pw.finish(st, s.pool, fn)
				add(st, op)
			})
		}
	}
	for _, r := range recs {
		if r.out == "" {
			continue
		}
		st := pw.begin(s, "Reclaim")
		pw.reclaim(st, s.pool, r, running, func(st *State) { add(st, fmt.Sprintf("Reclaim(%s %s)", r.out, r.host)) })
	}
	// a connection that is idle already
	for _, r := range recs {
		if r.out != "" || r.closed {
			continue
		}
		st := pw.begin(s, "Reclaim of an idle connection")
		pw.call(st, s.pool, "Reclaim", func(st *State, fn *ssa.Function, v Value, err bool) {
			pw.finish(st, s.pool, fn)
			add(st, "Reclaim of the idle connection to "+r.host)
		}, r.sym)
	}
	for _, named := range []bool{true, false} {
		st := pw.begin(s, "Reclaim of a foreign connection")
		v := pw.newConn(st, "elsewhere", "")
		pw.update(st, v, func(r *prec) {
			r.out = "F"
			if named {
				r.id = pw.ip.fresh("unique random", tString)
			}
		})
		pw.call(st, s.pool, "Reclaim", func(st *State, fn *ssa.Function, _ Value, err bool) {
			r := pw.rec(st, v)
			if r == nil {
				return
			}
			if !pw.plain {
				pw.say("C20", triOf(r.closed), st, "kept", fn.Pos(), "a connection that was not borrowed from the pool is not closed")
			}
			pw.update(st, v, func(r *prec) {
				r.out = ""
				// what happens to it is not said for a pool without routing
				r.closed = r.closed || pw.plain
			})
			pw.finish(st, s.pool, fn)
			add(st, "Reclaim of a foreign connection")
		}, v)
	}
	{
		st := pw.begin(s, "Reclaim(nil)")
		pw.call(st, s.pool, "Reclaim", func(st *State, fn *ssa.Function, v Value, err bool) {
			pw.finish(st, s.pool, fn)
		}, Nil{})
	}
	stop := "Stop"
	if pw.facade {
		stop = "Close"
	}
	{
		st := pw.begin(s, stop)
		pw.call(st, s.pool, stop, func(st *State, fn *ssa.Function, v Value, err bool) {
			if pw.facade && !running {
				pw.say("C22", triOf(err), st, "closes twice", fn.Pos(), "closes a pool that was closed")
			}
			pw.stopped(st)
			pw.finish(st, s.pool, fn)
			add(st, stop)
		})
	}
	if e, ok := s.st.g("gos").(*Ext); ok {
		for i := range e.vs {
			pw.turn(s, e, i, add, false, stop)
			if running {
				pw.turn(s, e, i, add, true, stop)
			}
		}
	}
	if running && strings.HasSuffix(s.path, "refresh") || s.n <= 2 && running {
		pw.probe(s)
	}
	return out
}

func (pw *poolWorld) stopped(st *State) {
	setS(st, "running", "no")
	rs := pw.recs(st)
	for _, r := range rs {
		r.old = true
	}
	pw.setRecs(st, rs)
}

// reclaim gives back a connection and judges what becomes of it
func (pw *poolWorld) reclaim(st *State, pool Value, r *prec, running bool, f func(st *State)) {
	pw.call(st, pool, "Reclaim", func(st *State, fn *ssa.Function, _ Value, err bool) {
		n := pw.rec(st, r.sym)
		if n == nil {
			return
		}
		fresh := pw.plain || fits(role(st, n.host), r.out)
		_, syms := pw.reach(st, pool)
		if !n.closed && syms[n.sym.Key()] {
			pw.say("C20", triOf(running), st, "kept after stop", fn.Pos(), "keeps a connection although the pool is not running")
			if running {
				pw.say("C20", triOf(n.idle), st, "kept without roll back", fn.Pos(), "keeps a connection although its transaction was not rolled back")
				pw.say("C20", triOf(n.valid), st, "kept without validation", fn.Pos(), "keeps a connection without having found it alive")
				for _, id := range []string{"C20", "C21"} {
					pw.say(id, triOf(fresh), st, "kept though condemned", fn.Pos(), "keeps a connection to %s, which the last overview does not list for that (%s)", n.host, pw.roles(st))
				}
			}
		}
		if running && fresh && !pw.plain && n.idle && (n.valid || n.closed && pw.force.valid == 1) && !r.old {
			pw.say("C20", triOf(!n.closed), st, "not recorded", fn.Pos(), "closes a connection that was borrowed, is alive, idle and not condemned")
		}
		pw.update(st, n.sym, func(r *prec) { r.out = "" })
		pw.finish(st, pool, fn)
		f(st)
	}, r.sym)
}

// turn lets a goroutine of the pool run up to where it waits again
func (pw *poolWorld) turn(s *poolState, e *Ext, i int, add func(st *State, op string), stop bool, stopName string) {
	g := e.vs[i].(*Ext)
	fv, ok := g.vs[0].(*Fn)
	if !ok || fv.fn == nil {
		return
	}
	var rest []Value
	for j, v := range e.vs {
		if j != i {
			rest = append(rest, v)
		}
	}
	op := "refresh"
	if stop {
		op = stopName + " during refresh"
	}
	// the outcomes of the call made in between are taken one after the other
	for k := 0; ; k++ {
		st := pw.begin(s, "background refresh")
		if stop {
			pw.op = stopName + " before background refresh"
		}
		st.setG("waits", num(0))
		st.setG("gos", &Ext{kind: "gos", vs: rest})
		more := false
		if stop {
			pw.between = func(st *State) bool {
				pw.between = nil
				n := 0
				found := false
				i, ok := st.R(s.pool).(*Iface)
				if !ok {
					return false
				}
				fn := pw.c.p.method(i.typ, stopName)
				if fn == nil {
					return false
				}
				for _, o := range pw.w.call(st.clone(), fn, st.R(i.v)) {
					if o.pan != nil {
						continue
					}
					if n == k {
						found = true
						*st = *o.st
						pw.stopped(st)
					}
					if n > k {
						more = true
					}
					n++
				}
				return found
			}
		}
		pw.cuts = nil
		pw.inOp = true
		outs := pw.ip.callFn(st, &Call{name: fv.fn.String(), fn: fv.fn, args: g.vs[1:], pos: fv.fn.Pos(), in: fv.fn, res: fv.fn.Signature.Results()}, fv.bind)
		pw.inOp = false
		pw.between = nil
		end := func(st *State, again bool) {
			st.setG("waits", nil)
			if again {
				st.setG("gos", &Ext{kind: "gos", vs: append(append([]Value{}, rest...), g)})
			}
			if r := gs(st, "refreshed"); r != "" && pw.c.id == "C21" {
				for _, n := range pw.recs(st) {
					if r[0] == '!' && n.closed && n.host != seedHost && n.out == "" && !pw.wasClosed(s.st, n) {
						mode := "W"
						if n.born != "L" {
							mode = "R"
						}
						pw.say("C21", triOf(!fits(role(st, n.host), mode)), st, "closed by a failed refresh", fv.fn.Pos(), "a refresh that failed closes the connection to %s", n.host)
					}
				}
			}
			pw.finish(st, s.pool, fv.fn)
			add(st, op)
		}
		for _, o := range outs {
			if o.pan != nil {
				pw.say("C20", no, o.st, "panic", fv.fn.Pos(), "panics: %s", o.pan.Key())
				pw.say("C21", no, o.st, "panic", fv.fn.Pos(), "panics: %s", o.pan.Key())
				continue
			}
			end(o.st, false)
		}
		for _, c := range pw.cuts {
			end(c, true)
		}
		if !more || k > 12 {
			break
		}
	}
}

func (pw *poolWorld) wasClosed(st *State, n *prec) bool {
	r := pw.rec(st, n.sym)
	return r == nil || r.closed
}

// probe makes connections die one after the other and looks at where their replacements go
func (pw *poolWorld) probe(s *poolState) {
	if pw.c.id != "C21" {
		return
	}
	roles := gs(s.st, "roles")
	if roles == "" {
		return
	}
	for _, mode := range []string{"W", "R"} {
		want := map[string]bool{}
		for i, m := range poolMembers {
			if fits(roles[i:i+1], mode) {
				want[m] = true
			}
		}
		if len(want) == 0 {
			continue
		}
		got := map[string]bool{}
		cur := s.st
		n, idle := 0, false
		var fn0 *ssa.Function
		for n <= 2*len(want)+1 {
			t := &poolState{st: cur, pool: s.pool, path: s.path}
			// obtain a connection
			var conn *prec
			var next *State
			st := pw.begin(t, "probe "+pw.opName(mode))
			pw.force = force{1, 1, 1, 1}
			pw.borrow(st, s.pool, mode, func(st *State, fn *ssa.Function, v Value, err bool) {
				if !err && next == nil {
					pw.borrowed(st, fn, v, mode)
					conn, next = pw.rec(st, v), st
				}
			})
			pw.force = force{}
			if conn == nil {
				for _, r := range pw.recs(cur) {
					if r.out == mode {
						conn, next = r, cur
					}
				}
			}
			if conn == nil {
				break
			}
			// it dies and is given back
			st = pw.begin(&poolState{st: next, pool: s.pool, path: s.path}, "probe Reclaim")
			pw.force = force{1, 2, 2, 1}
			next = nil
			failed := false
			pw.call(st, s.pool, "Reclaim", func(st *State, fn *ssa.Function, v Value, err bool) {
				fn0 = fn
				if next == nil {
					next, failed = st, err
					pw.update(st, conn.sym, func(r *prec) { r.out = "" })
				}
			}, conn.sym)
			pw.force = force{}
			if next == nil {
				break
			}
			if len(pw.made) == 0 {
				idle = true
				if failed && !conn.old {
					pw.op = "replacing a connection"
					pw.say("C21", no, next, "no target", fn0.Pos(), "no connection for mode %s is opened although the last overview lists %s for it", mode, strings.Join(sortedKeys(want), ", "))
				}
				break
			}
			for _, m := range pw.made {
				got[m] = true
			}
			next.setG("locks", nil)
			cur = next
			n++
		}
		if idle || n <= 2*len(want)+1 || fn0 == nil {
			continue
		}
		pw.op = "replacing connections"
		for _, m := range sortedKeys(want) {
			pw.say("C21", triOf(got[m]), cur, "member never used", fn0.Pos(), "no connection for mode %s is ever opened to %s, which the last overview lists for it (%s)", mode, m, pw.roles(cur))
		}
	}
}

// ---- canonical states

func (pw *poolWorld) canon(r *poolState, st *State, pool Value) *poolState {
	ip := pw.ip
	out := pw.w.st.clone()
	objs, index := map[int]int{}, map[int]int{}
	syms := map[string]Value{}
	var key strings.Builder
	nsym := 0
	shape := map[string]string{}
	for _, x := range pw.recs(st) {
		shape[x.sym.Key()] = fmt.Sprintf("<%s %s %v %v %s>", x.host, x.out, x.closed, x.old, x.born)
	}
	var conv func(v Value, t types.Type) Value
	sym := func(v Value, t types.Type) Value {
		if n, ok := syms[v.Key()]; ok {
			fmt.Fprintf(&key, "=%s", n.Key()[1:])
			return n
		}
		if shape[v.Key()] != "" {
			t = pw.iconn
		}
		if t == nil {
			t = valType(v)
		}
		nsym++
		name := "value"
		if s, ok := v.(*Sym); ok {
			name = s.name
		}
		// named by the order of appearance
		n := Value(&Sym{id: 1000000 + nsym, typ: t, name: name})
		if !unique(n) {
			n = ip.fresh(name, t)
			syms[v.Key()] = n
			fmt.Fprintf(&key, "?%d%s", nsym, name)
		} else {
			syms[v.Key()] = n
			fmt.Fprintf(&key, "?%d%s", nsym, shape[v.Key()])
		}
		if st.truth(st.isNil(v)) == no {
			nonNil(out, n)
			key.WriteString("!")
		}
		return n
	}
	// anon renders an entry of a map without names
	var anon func(v Value, depth int) string
	anon = func(v Value, depth int) string {
		if v == nil || depth > 6 {
			return "_"
		}
		v = st.R(v)
		switch x := v.(type) {
		case *Ptr:
			if o := st.heap[x.obj]; o != nil {
				if n, ok := index[x.obj]; ok {
					return fmt.Sprintf("@%d", n)
				}
				return "&" + anon(o.val, depth+1)
			}
		case *Struct:
			s := "{"
			for _, f := range x.f {
				s += anon(f, depth+1) + ","
			}
			return s + "}"
		case *Iface:
			return "i" + anon(x.v, depth+1)
		case *Cat:
			s := ""
			for _, p := range x.ps {
				s += anon(p, depth+1)
			}
			return s
		case *Sym:
			if n, ok := syms[x.Key()]; ok {
				return n.Key()
			}
			return "?" + shape[x.Key()]
		case Bool, Str, Flt, Nil, *Lin:
			return v.Key()
		}
		return "*"
	}
	object := func(id int, f func(o *Obj) Value) int {
		if n, ok := objs[id]; ok {
			fmt.Fprintf(&key, "@%d", index[id])
			return n
		}
		o := st.heap[id]
		n := id
		if pw.w.st.heap[id] == nil {
			ip.nextObj++
			n = ip.nextObj
		}
		objs[id] = n
		index[id] = len(objs)
		fmt.Fprintf(&key, "&%d:", len(objs))
		out.setObj(n, &Obj{typ: o.typ, val: f(o), site: o.site})
		return n
	}
	base := func(id int) bool {
		o := pw.w.st.heap[id]
		return o != nil && (st.heap[id] == o || same(st.heap[id].val, o.val))
	}
	conv = func(v Value, t types.Type) Value {
		if v == nil {
			return nil
		}
		v = st.R(v)
		switch x := v.(type) {
		case Bool, Str, Flt, Nil, *TypeV:
			key.WriteString(v.Key())
			return v
		case *Lin:
			if x.isConst() {
				key.WriteString(x.Key())
				return x
			}
			return sym(v, t)
		case *Fn:
			n := &Fn{fn: x.fn, bi: x.bi}
			if x.fn != nil {
				key.WriteString(fnString(x.fn))
			}
			for i, b := range x.bind {
				var bt types.Type
				if x.fn != nil && i < len(x.fn.FreeVars) {
					bt = x.fn.FreeVars[i].Type()
				}
				n.bind = append(n.bind, conv(b, bt))
			}
			return n
		case *Iface:
			fmt.Fprintf(&key, "i(%s ", typeName(x.typ))
			n := &Iface{typ: x.typ, v: conv(x.v, x.typ)}
			key.WriteString(")")
			return n
		case *Struct:
			n := &Struct{typ: x.typ}
			u, _ := x.typ.Underlying().(*types.Struct)
			key.WriteString("{")
			for i, f := range x.f {
				var ft types.Type
				if u != nil && i < u.NumFields() {
					ft = u.Field(i).Type()
				}
				n.f = append(n.f, conv(f, ft))
				key.WriteString(",")
			}
			key.WriteString("}")
			return n
		case *Cat:
			var ps []Value
			for _, p := range x.ps {
				ps = append(ps, conv(p, tString))
			}
			return mkCat(ps...)
		case *Ext:
			n := &Ext{kind: x.kind}
			fmt.Fprintf(&key, "%s[", x.kind)
			for _, e := range x.vs {
				n.vs = append(n.vs, conv(e, nil))
				key.WriteString(";")
			}
			key.WriteString("]")
			return n
		case *Ptr:
			if base(x.obj) || st.heap[x.obj] == nil {
				fmt.Fprintf(&key, "g%d", x.obj)
				return x
			}
			for _, e := range x.path {
				fmt.Fprintf(&key, ".%d", e.field)
			}
			id := object(x.obj, func(o *Obj) Value { return conv(o.val, o.typ) })
			return &Ptr{obj: id, path: x.path}
		case *MapV:
			if base(x.obj) {
				fmt.Fprintf(&key, "g%d", x.obj)
				return x
			}
			id := object(x.obj, func(o *Obj) Value {
				c, ok := st.R(o.val).(*MapC)
				if !ok {
					return conv(o.val, o.typ)
				}
				n := &MapC{}
				if c.base != nil {
					n.base = sym(c.base, o.typ)
				}
				mt, _ := o.typ.Underlying().(*types.Map)
				ents := append([]mapEnt{}, c.ovr...)
				sort.SliceStable(ents, func(i, j int) bool {
					return anon(ents[i].key, 0)+anon(ents[i].val, 0) < anon(ents[j].key, 0)+anon(ents[j].val, 0)
				})
				key.WriteString("map{")
				for _, e := range ents {
					var kt, et types.Type
					if mt != nil {
						kt, et = mt.Key(), mt.Elem()
					}
					k := conv(e.key, kt)
					key.WriteString(":")
					n.ovr = append(n.ovr, mapEnt{key: k, val: conv(e.val, et), rep: e.rep})
					key.WriteString(",")
				}
				key.WriteString("}")
				return n
			})
			return &MapV{obj: id, src: x.src}
		case *Slice:
			if base(x.obj) || !x.len.isConst() || x.src != nil {
				if !base(x.obj) {
					st.note("a slice of unknown length in a pool")
				}
				fmt.Fprintf(&key, "s%d", x.obj)
				return x
			}
			q := ip.seqOf(st, x)
			et := elemType(t)
			if et == nil && q != nil {
				et = q.elem
			}
			n := x.len.int()
			var segs []Seg
			key.WriteString("[")
			for i := 0; i < n && q != nil; i++ {
				segs = append(segs, item(conv(st.seqGet(q, num(int64(i)), et), et)))
				key.WriteString(",")
			}
			key.WriteString("]")
			o := st.heap[x.obj]
			ip.nextObj++
			out.setObj(ip.nextObj, &Obj{typ: o.typ, val: mkSeq(et, segs...), site: o.site})
			return &Slice{obj: ip.nextObj, off: num(0), len: num(int64(n)), cap: num(int64(n))}
		case *SeqV:
			n := st.normSeq(x)
			ln := n.length()
			if !ln.isConst() {
				return sym(v, t)
			}
			var segs []Seg
			for i := 0; i < ln.int(); i++ {
				segs = append(segs, item(conv(st.seqGet(n, num(int64(i)), n.elem), n.elem)))
			}
			return mkSeq(n.elem, segs...)
		case *App:
			if strings.HasPrefix(x.op, "global:") {
				key.WriteString(x.Key())
				return x
			}
		}
		return sym(v, t)
	}
	r.pool = conv(pool, nil)
	key.WriteString(";gos:")
	if e, ok := st.g("gos").(*Ext); ok {
		out.setG("gos", conv(e, nil))
	}
	// globals that changed
	var ids []int
	for id := range pw.w.st.heap {
		if st.heap[id] != nil && !base(id) {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&key, ";g%d:", id)
		object(id, func(o *Obj) Value { return conv(o.val, o.typ) })
	}
	rs := pw.recs(st)
	var keep []*prec
	pos := func(x *prec) int {
		if n, ok := syms[x.sym.Key()]; ok {
			return n.(*Sym).id
		}
		return 2000000
	}
	for _, x := range rs {
		if pos(x) < 2000000 || !x.closed || x.out != "" {
			keep = append(keep, x)
		}
	}
	sort.SliceStable(keep, func(i, j int) bool {
		if a, b := pos(keep[i]), pos(keep[j]); a != b {
			return a < b
		}
		return shape[keep[i].sym.Key()] < shape[keep[j].sym.Key()]
	})
	var next []*prec
	for _, x := range keep {
		key.WriteString(";")
		n := *x
		n.sym = conv(x.sym, pw.iconn)
		key.WriteString(shape[x.sym.Key()])
		n.id = conv(x.id, tString)
		n.valid, n.idle = false, false
		next = append(next, &n)
	}
	pw.setRecs(out, next)
	for _, g := range []string{"roles", "running"} {
		fmt.Fprintf(&key, ";%s=%s", g, gs(st, g))
		setS(out, g, gs(st, g))
	}
	for n := range st.notes {
		out.note("%s", n)
	}
	r.st = out
	r.key = key.String()
	r.lastObj, r.lastSym = ip.nextObj, ip.nextSym
	return r
}
