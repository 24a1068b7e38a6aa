package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// handle is a transaction a caller holds
type handle struct{ v Value }

// connState is a connection between two calls
type connState struct {
	st   *State
	conn Value
	hs   []Value
	key  string
	path []string
}

type connOp struct {
	name string
	on   int // -1 for the connection, else index of the handle
	args []Value
	kind string // query, exec, begin, close, idle, valid, set, commit, rollback, isclosed
	q    Value
	par  Value
	db   Value
	pre  func(st *State) bool
}

func checkConn(id, rule, explain string) func(c *Ctx) {
	return func(c *Ctx) {
		c.rule, c.explain = rule, explain
		w := newWorld(c.p)
		vs := protoVersions(w)
		subs := make([]*Ctx, len(vs))
		var wg sync.WaitGroup
		for i := range vs {
			subs[i] = newCtx(c.p, id)
			wg.Add(1)
			go func(c *Ctx, n int) {
				defer wg.Done()
				c.guarded(func() {
					cw := newConnWorld(c)
					if !cw.ok() {
						c.decide(unknown, "messages", 0, nil, "the reply messages were not found")
						return
					}
					for _, pv := range protoVersions(cw.w) {
						if pv.n == n {
							cw.pv = pv
							cw.explore()
						}
					}
					if id == "C13" {
						cw.lockset()
					}
					c.covered(cw.ip)
				})
			}(subs[i], vs[i].n)
		}
		wg.Wait()
		for _, s := range subs {
			c.merge(s)
		}
	}
}

// pooled: only what a pool does with a connection matters
func (cw *connWorld) pooled() bool { return cw.c.id == "C20" || cw.c.id == "C22" }

func (cw *connWorld) budget() {
	cw.ip.steps = 0
}

// begin prepares the ghosts of an operation
func (cw *connWorld) begin(st *State) {
	for _, g := range []string{"fault", "sfail", "rdl", "wdl", "did", "run", "begin", "lastmeta", "lastok", "probe", "readfull"} {
		st.setG(g, Nil{})
	}
	for _, g := range []string{"nsent", "nrun", "nrec"} {
		st.setG(g, num(0))
	}
	st.setG("sending", Bool(false))
	st.setG("receiving", Bool(false))
	st.trace = nil
	cw.objMax = cw.ip.nextObj
}

func (cw *connWorld) explore() {
	starts := cw.createConn()
	if len(starts) == 0 {
		cw.op = "CreateBoltConn"
		cw.c.decide(unknown, "CreateBoltConn", 0, nil, "no connection is ever established")
		return
	}
	if cw.c.id == "C07" {
		return
	}
	var queue []*connState
	seen := map[string]bool{}
	push := func(s *connState) {
		if s != nil && !seen[s.key] {
			seen[s.key] = true
			queue = append(queue, s)
			progress("v%d state %d via %v: %s", cw.pv.n, len(seen), s.path, s.key)
		}
	}
	first := cw.join(starts)
	cw.settings(first)
	push(cw.join(starts))
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		if len(seen) > 60 {
			cw.c.undecided["analysis: too many connection states"]++
			break
		}
		for _, n := range cw.ops(s) {
			if cw.pooled() && n.kind != "begin" && n.kind != "close" && n.kind != "idle" && n.kind != "valid" {
				continue
			}
			if !skipRun(n.name) {
				progress("   %s %v", n.name, time.Since(t0))
				var next []*connState
				cw.c.guarded(func() { next = cw.runOp(s, n) })
				for _, t := range next {
					push(t)
				}
			}
		}
	}
	cw.c.counts["states"] += len(seen)
}

// settings finds the fields that are set by the caller at any time
func (cw *connWorld) settings(s *connState) {
	i, ok := s.st.R(s.conn).(*Iface)
	if !ok {
		return
	}
	p, ok := s.st.R(i.v).(*Ptr)
	if !ok {
		return
	}
	before, ok := s.st.R(s.st.heap[p.obj].val).(*Struct)
	if !ok {
		return
	}
	for _, op := range cw.ops(s) {
		if op.kind != "set" {
			continue
		}
		f := cw.c.p.method(i.typ, op.name)
		if f == nil {
			continue
		}
		st := s.st.clone()
		cw.conn, cw.op = s.conn, op.name
		cw.begin(st)
		for _, o := range cw.w.call(st, f, append([]Value{i.v}, op.args...)...) {
			after, ok := o.st.R(o.st.heap[p.obj].val).(*Struct)
			if !ok || o.pan != nil {
				continue
			}
			for k := range after.f {
				if after.f[k] != nil && before.f[k] != nil && !same(o.st.R(after.f[k]), s.st.R(before.f[k])) {
					if _, ok := o.st.R(after.f[k]).(*Ext); !ok {
						cw.config[typeName(after.typ)+"."+fmt.Sprint(k)] = true
					}
				}
			}
		}
	}
}

// createConn opens connections
func (cw *connWorld) createConn() []*connState {
	ip := cw.ip
	var out []*connState
	f := cw.c.p.fn("connection", "CreateBoltConn")
	if f == nil {
		cw.c.decide(unknown, "CreateBoltConn", 0, nil, "no constructor of connections")
		return nil
	}
	cw.op, cw.create = "CreateBoltConn", true
	defer func() { cw.create = false }()
	answers := []string{"version"}
	if cw.pv.n == 4 {
		answers = append(answers, "none", "other")
	}
	for _, a := range answers {
		cw.answer = a
		cw.budget()
		st := cw.w.st.clone()
		cw.conn = Nil{}
		setS(st, "sock", "none")
		setS(st, "stage", "none")
		setS(st, "q", "")
		setS(st, "tx", "none")
		st.setG("own", Nil{})
		st.setG("txdb", Str(""))
		st.setG("failed", Bool(false))
		st.setG("taint", Bool(false))
		cw.begin(st)
		str := ip.fresh("connstr", tString)
		save := ip.hooks[cw.c.p.mod+"/protocol.GetProtocol"]
		ip.hooks[cw.c.p.mod+"/protocol.GetProtocol"] = func(ip *Interp, st *State, c *Call) []Outcome {
			setS(st, "stage", "msg")
			return nil
		}
		for _, o := range cw.w.call(st, f, str) {
			st := o.st
			if o.pan != nil {
				cw.decide("C12", no, st, "panic", f.Pos(), "panics: %s", o.pan.Key())
				continue
			}
			vs := tupleOf(o)
			conn, err := st.R(vs[0]), st.R(vs[1])
			good := st.truth(st.isNil(err))
			cw.c.counts["paths"]++
			cw.atEnd(st, &connOp{name: "CreateBoltConn", kind: "create", on: -1}, f.Pos(), good, err)
			sock := gs(st, "sock")
			fault := gs(st, "fault")
			switch good {
			case no:
				cw.decide("C14", triOf(sock != "open"), st, "socket left open", f.Pos(), "fails after %s with the socket open", or(fault, "an error"))
				cw.decide("C14", st.truth(st.isNil(conn)), st, "connection returned with an error", f.Pos(), "returns a connection along with the error")
				if sock != "none" && fault == "" {
					// everything went well but the version
					cw.decide("C07", triOf(a != "version"), st, "complete answer refused", f.Pos(), "the server selects version %d and every message arrives, but the attempt fails", cw.pv.n)
				}
			case yes:
				cw.decide("C07", cw.selected(st), st, "unsupported answer accepted", f.Pos(), "a connection is returned although the server answered %s", map[string]string{"none": "that no version is supported", "other": "a version that is not supported"}[a])
				cw.decide("C08", triOf(strings.Contains(gs(st, "did"), "i")), st, "initialised", f.Pos(), "a connection is returned before the server accepted the initialisation")
				cw.decide("C14", triOf(sock == "open"), st, "closed connection returned", f.Pos(), "a connection without an open socket is returned")
				if a == "version" {
					cw.handshakeBytes(st, f.Pos())
				}
				if a == "version" {
					out = append(out, &connState{st: st, conn: conn, path: []string{"create"}})
				}
			default:
				cw.decide(cw.c.id, unknown, st, "error", f.Pos(), "error %s", err.Key())
			}
		}
		ip.hooks[cw.c.p.mod+"/protocol.GetProtocol"] = save
	}
	return out
}

// selected tells whether the answer of the server is a supported version
func (cw *connWorld) selected(st *State) tri {
	if cw.answer != "other" {
		return triOf(cw.answer == "version")
	}
	t := yes
	for i := 0; i < 4; i++ {
		b := asLin(st.R(mkApp("answer", tByte, num(int64(i)))))
		if i < 3 {
			t = and3(t, decideEQ(st, b, num(0)))
		} else if b = st.rlin(b); !b.isConst() || b.int() < 1 || b.int() > 4 {
			t = no
		}
	}
	return t
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func (cw *connWorld) handshakeBytes(st *State, pos token.Pos) {
	if cw.c.id != "C07" {
		return
	}
	want := []int64{0x60, 0x60, 0xb0, 0x17, 0, 0, 0, 4, 0, 0, 0, 3, 0, 0, 0, 2, 0, 0, 0, 1}
	q, ok := st.R(orNil(st.g("hs.sent"))).(*SeqV)
	if !ok {
		cw.decide("C07", unknown, st, "handshake", pos, "no handshake seen")
		return
	}
	q = st.normSeq(q)
	cw.decide("C07", decideEQ(st, q.length(), num(20)), st, "handshake length", pos, "the handshake is %s bytes long", q.length().Key())
	for i, b := range want {
		if l := asLin(st.R(st.seqGet(q, num(int64(i)), tByte))); l != nil {
			cw.decide("C07", decideEQ(st, l, num(b)), st, fmt.Sprintf("handshake byte %d", i), pos, "byte %d of the handshake is %s instead of %#x", i, l.Key(), b)
		} else {
			cw.decide("C07", unknown, st, fmt.Sprintf("handshake byte %d", i), pos, "unknown byte")
		}
	}
	// the version the connection claims
	s := st.clone()
	if i, ok := s.R(orNil(cw.conn)).(*Iface); ok {
		for _, o := range cw.w.callMethodOf(s, i.typ, s.R(i.v), "GetProtocolVersionNumber") {
			if l := asLin(o.st.R(orNil(o.ret))); l != nil && o.pan == nil {
				cw.decide("C07", decideEQ(o.st, l, num(int64(cw.pv.n))), o.st, "version number", pos, "the connection reports version %s after the server selected %d", l.Key(), cw.pv.n)
			}
		}
	}
}

// join is a state that stands for all the states a connection can be in after it was created
func (cw *connWorld) join(starts []*connState) *connState {
	s := starts[0]
	st := s.st.clone()
	obj := func(x *connState) (*Obj, *Struct, int) {
		i, ok := x.st.R(x.conn).(*Iface)
		if !ok {
			return nil, nil, 0
		}
		p, ok := x.st.R(i.v).(*Ptr)
		if !ok || x.st.heap[p.obj] == nil {
			return nil, nil, 0
		}
		o := x.st.heap[p.obj]
		v, _ := x.st.R(o.val).(*Struct)
		return o, v, p.obj
	}
	o, v, id := obj(s)
	if v == nil {
		st.note("connection of unknown shape")
		return cw.canon(&connState{st: st, conn: s.conn, path: s.path})
	}
	u := o.typ.Underlying().(*types.Struct)
	n := &Struct{typ: v.typ, f: append([]Value(nil), v.f...)}
	joined := map[int]bool{}
	for _, x := range starts[1:] {
		_, w, _ := obj(x)
		if w == nil {
			continue
		}
		for i := range n.f {
			a, b := n.f[i], w.f[i]
			if a == nil || b == nil {
				continue
			}
			a, b = st.R(a), x.st.R(b)
			if same(a, b) {
				continue
			}
			if _, ok := a.(*Ptr); ok {
				continue
			}
			if _, ok := a.(*Ext); ok {
				continue
			}
			t := u.Field(i).Type()
			if types.IsInterface(t) {
				if _, ok := a.(*Sym); ok {
					continue
				}
				ia, ok1 := a.(*Iface)
				ib, ok2 := b.(*Iface)
				if ok1 && ok2 && types.Identical(ia.typ, ib.typ) {
					if p, ok := ia.typ.(*types.Pointer); ok && cw.ofModule(p) {
						continue
					}
				}
			}
			if joined[i] {
				continue
			}
			joined[i] = true
			name := "any "
			if cw.isSocket(st, a) {
				name = "socket "
			}
			n.f[i] = nonNil(st, cw.ip.fresh(name+u.Field(i).Name(), t))
		}
	}
	st.setObj(id, &Obj{typ: o.typ, val: n, site: o.site})
	return cw.canon(&connState{st: st, conn: s.conn, path: s.path})
}

// canon is a connection state without history: what is reachable, with unknown values renamed
func (cw *connWorld) canon(s *connState) *connState {
	ip := cw.ip
	st := s.st
	out := cw.w.st.clone()
	for k, v := range cw.w.st.ghost {
		out.setG(k, v)
	}
	objs := map[int]int{}
	index := map[int]int{}
	syms := map[string]Value{}
	var key strings.Builder
	nsym := 0
	var conv func(v Value, t types.Type, depth int) Value
	sym := func(v Value, t types.Type) Value {
		if n, ok := syms[v.Key()]; ok {
			fmt.Fprintf(&key, "=%s", n.(*Sym).name)
			return n
		}
		if t == nil {
			t = valType(v)
		}
		nsym++
		name := fmt.Sprintf("h%d", nsym)
		if cw.isSocket(st, v) {
			name = "socket " + name
		}
		n := ip.fresh(name, t)
		syms[v.Key()] = n
		fmt.Fprintf(&key, "?%s", name)
		if st.truth(st.isNil(v)) == no {
			nonNil(out, n)
			key.WriteString("!")
		}
		if t != nil && isStringType(t) {
			if e := st.truth(ip.equal(st, v, Str(""), tString)); e == no {
				out.assume(ip.equal(out, n, Str(""), tString), false)
				out.addCon(addLin(negLin(lenVal(n)), num(1)))
				key.WriteString("+")
			}
		}
		if _, ok := n.(*Sym); !ok {
			// a number: known to be positive?
			syms[v.Key()] = n
		}
		return n
	}
	conv = func(v Value, t types.Type, depth int) Value {
		if v == nil {
			return nil
		}
		v = st.R(v)
		if depth > 12 {
			return sym(v, t)
		}
		switch x := v.(type) {
		case Bool, Str, Flt, Nil, *TypeV:
			fmt.Fprintf(&key, "%s", v.Key())
			return v
		case *Lin:
			if x.isConst() {
				key.WriteString(x.Key())
				return x
			}
			k := x.Key()
			if n, ok := syms[k]; ok {
				key.WriteString("=n")
				return n
			}
			n := ip.fresh("h", t)
			syms[k] = n
			key.WriteString("?n")
			if st.proveLT(num(0), x) {
				out.addCon(addLin(negLin(asLin(n)), num(1)))
				key.WriteString("+")
			}
			return n
		case *Fn:
			if len(x.bind) == 0 {
				key.WriteString(x.Key())
				return x
			}
			return sym(v, t)
		case *Iface:
			fmt.Fprintf(&key, "i(%s ", typeName(x.typ))
			n := &Iface{typ: x.typ, v: conv(x.v, x.typ, depth+1)}
			key.WriteString(")")
			return n
		case *Struct:
			n := &Struct{typ: x.typ}
			u, _ := x.typ.Underlying().(*types.Struct)
			key.WriteString("{")
			for i, f := range x.f {
				var ft types.Type
				if u != nil && i < u.NumFields() {
					ft = u.Field(i).Type()
				}
				if f == nil && ft != nil {
					n.f = append(n.f, nil)
					key.WriteString("_,")
					continue
				}
				if cw.config[typeName(x.typ)+"."+fmt.Sprint(i)] {
					// a setting that any call may have changed
					h := ip.fresh("setting", ft)
					if l := asLin(h); l != nil {
						out.addCon(addLin(negLin(l), num(1)))
					}
					n.f = append(n.f, h)
					key.WriteString("*,")
					continue
				}
				n.f = append(n.f, conv(f, ft, depth+1))
				key.WriteString(",")
			}
			key.WriteString("}")
			return n
		case *Slice:
			n := sym(v, t)
			if o := st.heap[x.obj]; o != nil && strings.HasSuffix(o.site, handedOut) {
				// a part of an earlier result is still held
				nonNil(out, n)
				if sl := ip.slice(out, n, t); sl != nil {
					h := out.heap[sl.obj]
					out.setObj(sl.obj, &Obj{typ: h.typ, val: h.val, site: h.site + handedOut})
					key.WriteString("handed")
				}
			}
			return n
		case *Ext:
			n := &Ext{kind: x.kind}
			fmt.Fprintf(&key, "%s[", x.kind)
			for _, e := range x.vs {
				n.vs = append(n.vs, conv(e, nil, depth+1))
			}
			key.WriteString("]")
			return n
		case *Ptr:
			if len(x.path) > 0 {
				return sym(v, t)
			}
			o := st.heap[x.obj]
			if o == nil || cw.w.st.heap[x.obj] != nil {
				fmt.Fprintf(&key, "g%d", x.obj)
				return x
			}
			if n, ok := objs[x.obj]; ok {
				fmt.Fprintf(&key, "@%d", index[x.obj])
				return &Ptr{obj: n}
			}
			ip.nextObj++
			id := ip.nextObj
			objs[x.obj] = id
			index[x.obj] = len(objs)
			fmt.Fprintf(&key, "&%d:", len(objs))
			val := conv(o.val, o.typ, depth+1)
			out.setObj(id, &Obj{typ: o.typ, val: val, site: o.site})
			return &Ptr{obj: id}
		}
		return sym(v, t)
	}
	r := &connState{st: out, path: s.path}
	r.conn = conv(s.conn, nil, 0)
	var hs []Value
	for _, h := range s.hs {
		key.WriteString(";h:")
		hs = append(hs, conv(h, nil, 0))
	}
	r.hs = hs
	for _, g := range []string{"sock", "q", "tx", "txdb", "own", "failed", "taint"} {
		fmt.Fprintf(&key, ";%s:", g)
		t := tString
		if g == "own" {
			t = nil
		}
		out.setG(g, conv(orNil(st.g(g)), t, 0))
	}
	setS(out, "stage", "msg")
	for n := range st.notes {
		out.note("%s", n)
	}
	r.key = key.String()
	return r
}

// ops lists the calls that can be made in a state
func (cw *connWorld) ops(s *connState) []*connOp {
	ip := cw.ip
	var out []*connOp
	qp := types.Type(types.NewMap(tString, tAny))
	if t := cw.c.p.typ("connection", "QueryParams"); t != nil {
		qp = t
	}
	stmts := func(on int, who string) {
		for _, m := range []string{"Exec", "Query"} {
			q, p := ip.fresh("query", tString), ip.fresh("params", qp)
			out = append(out, &connOp{name: who + m, on: on, args: []Value{q, p}, kind: strings.ToLower(m), q: q, par: p, db: Str("")})
			var dbs []Value
			named := ip.fresh("db", tString)
			dbs = append(dbs, Str(""), named)
			if on >= 0 {
				if d := s.st.R(orNil(s.st.g("txdb"))); gs(s.st, "tx") == "open" && !same(d, Str("")) {
					dbs = append(dbs, d)
				}
			}
			for _, d := range dbs {
				d := d
				out = append(out, &connOp{name: who + m + "WithDb", on: on, args: []Value{q, p, d}, kind: strings.ToLower(m), q: q, par: p, db: d,
					pre: func(st *State) bool {
						if same(d, named) {
							return st.assume(ip.equal(st, d, Str(""), tString), false) && st.addCon(addLin(negLin(lenVal(d)), num(1)))
						}
						return true
					}})
			}
		}
	}
	stmts(-1, "")
	named := ip.fresh("db", tString)
	out = append(out,
		&connOp{name: "Begin", on: -1, kind: "begin", db: Str("")},
		&connOp{name: "BeginWithDatabase", on: -1, args: []Value{Str("")}, kind: "begin", db: Str("")},
		&connOp{name: "BeginWithDatabase", on: -1, args: []Value{named}, kind: "begin", db: named, pre: func(st *State) bool {
			return st.assume(ip.equal(st, named, Str(""), tString), false) && st.addCon(addLin(negLin(lenVal(named)), num(1)))
		}},
		&connOp{name: "Close", on: -1, kind: "close"},
		&connOp{name: "MakeIdle", on: -1, kind: "idle"},
		&connOp{name: "ValidateOpen", on: -1, kind: "valid"},
		&connOp{name: "SetTimeout", on: -1, kind: "set", args: []Value{ip.fresh("timeout", cw.c.p.extType("time", "Duration"))}},
		&connOp{name: "SetChunkSize", on: -1, kind: "set", args: []Value{ip.fresh("chunksize", types.Typ[types.Uint16])}})
	for i := range s.hs {
		stmts(i, "transaction.")
		out = append(out,
			&connOp{name: "transaction.Commit", on: i, kind: "commit"},
			&connOp{name: "transaction.Rollback", on: i, kind: "rollback"},
			&connOp{name: "transaction.IsClosed", on: i, kind: "isclosed"})
	}
	return out
}

// runOp interprets one call and checks what it left behind
func (cw *connWorld) runOp(s *connState, op *connOp) []*connState {
	ip := cw.ip
	st := s.st.clone()
	recv := s.conn
	if op.on >= 0 {
		recv = s.hs[op.on]
	}
	cw.conn, cw.op = s.conn, op.name
	cw.begin(st)
	cw.budget()
	if op.pre != nil && !op.pre(st) {
		return nil
	}
	i, ok := st.R(recv).(*Iface)
	if !ok {
		cw.decide(cw.c.id, unknown, st, "receiver", 0, "unknown receiver %s", recv.Key())
		return nil
	}
	m := op.name[strings.LastIndex(op.name, ".")+1:]
	f := cw.c.p.method(i.typ, m)
	if f == nil {
		cw.decide(cw.c.id, unknown, st, "method", 0, "no method %s", m)
		return nil
	}
	// what the call starts from
	pre := struct {
		sock, tx string
		own      Value
		clean    bool
	}{gs(st, "sock"), gs(st, "tx"), orNil(st.g("own")), gs(st, "q") == "" && !flag(st, "taint") && !flag(st, "failed")}
	live := op.on < 0 && pre.sock == "open" || op.on >= 0 && pre.sock == "open" && pre.tx == "open" && same(pre.own, st.R(recv))
	var out []*connState
	multi := cw.multiDB(s)
	outcomes := cw.w.call(st, f, append([]Value{i.v}, op.args...)...)
	if os.Getenv("VERIF_PROGRESS") != "" {
		kinds := map[string]int{}
		for _, o := range outcomes {
			s := gs(o.st, "fault")
			if s == "" {
				s = "fine"
			}
			kinds[s]++
			if s == os.Getenv("VERIF_SHOW") {
				fmt.Fprintln(os.Stderr, strings.Join(trace(cw.c.p, o.st, 100), "\n"), "\n----")
			}
		}
		progress("   %d outcomes %v, %d steps", len(outcomes), kinds, ip.steps)
	}
	for _, o := range outcomes {
		st := o.st
		cw.c.counts["paths"]++
		pos := f.Pos()
		if o.pan != nil {
			cw.decide("C12", no, st, "panic", pos, "panics: %s", o.pan.Key())
			continue
		}
		good := yes
		var err Value = Nil{}
		vs := tupleOf(o)
		res := f.Signature.Results()
		if n := res.Len(); n > 0 && types.Identical(res.At(n-1).Type(), tError) {
			err = st.R(vs[n-1])
			good = st.truth(st.isNil(err))
		}
		cw.atEnd(st, op, pos, good, err)
		sent := !lg(st, "nsent").is(0)
		fault := gs(st, "fault")
		did := gs(st, "did")
		openAfter := gs(st, "sock") == "open"
		if good == unknown {
			cw.decide(cw.c.id, unknown, st, "error", pos, "undetermined error %s", err.Key())
			continue
		}
		refusedOp := func(why string) {
			cw.decide("C10", triOf(!sent), st, "sends "+why, pos, "sends a request %s", why)
			cw.decide("C10", triOf(good == no), st, "succeeds "+why, pos, "returns no error %s", why)
		}
		hs := s.hs
		nodb := op.db != nil && !same(op.db, Str("")) && !multi
		if nodb {
			cw.decide("C11", triOf(good == no), st, "database not refused", pos, "names a database on protocol %d and succeeds", cw.pv.n)
			cw.decide("C11", triOf(!sent), st, "database refused late", pos, "sends requests although a database is named on protocol %d", cw.pv.n)
		}
		wrongdb := op.on >= 0 && op.db != nil && !same(op.db, Str("")) && !same(st.R(op.db), st.R(orNil(st.g("txdb"))))
		// a transaction can be had again, a statement runs
		usable := func() {
			if !nodb && !wrongdb && pre.clean && fault == "" && good == no {
				cw.decide("C10", triOf(sent), st, "refused", pos, "is refused on a usable connection")
			}
		}
		switch op.kind {
		case "query", "exec":
			switch {
			case op.on < 0 && !live:
				refusedOp("on a closed connection")
			case op.on >= 0 && !live:
				refusedOp("through a transaction that ended")
			default:
				usable()
			}
			if run := st.R(orNil(st.g("run"))); !same(run, Nil{}) {
				cw.statement(st, op, run, pos, live)
			} else if good == yes {
				cw.decide("C09", no, st, "nothing run", pos, "succeeds without running the statement")
			}
			cw.result(st, op, vs, good, pos)
		case "begin":
			switch {
			case pre.sock != "open":
				refusedOp("on a closed connection")
			case pre.tx == "open":
				refusedOp("although a transaction is open")
			default:
				usable()
			}
			if b := st.R(orNil(st.g("begin"))); !same(b, Nil{}) && op.db != nil {
				cw.database(st, b, op.db, pos, "C11")
			}
			if good == yes {
				cw.decide("C10", triOf(strings.Contains(did, "b") && gs(st, "tx") == "open"), st, "begin not confirmed", pos, "returns a transaction the server did not confirm")
				h := st.R(vs[0])
				if _, ok := h.(*Iface); !ok {
					cw.decide("C10", st.truth(not2(st.isNil(h))), st, "no transaction", pos, "returns neither a transaction nor an error")
				}
				st.setG("own", h)
				st.setG("txdb", st.R(op.db))
				hs = append([]Value{h}, hs...)
			} else if op.kind == "begin" && len(vs) > 1 {
				cw.decide("C10", st.truth(st.isNil(st.R(vs[0]))), st, "transaction returned with an error", pos, "returns a transaction along with an error")
			}
		case "commit", "rollback":
			k := map[string]string{"commit": "c", "rollback": "z"}[op.kind]
			if !live {
				refusedOp("through a transaction that ended")
			} else {
				usable()
				if good == yes {
					cw.decide("C10", triOf(strings.Contains(did, k) && gs(st, "q") == ""), st, "not confirmed", pos, "reports success before the server confirmed it")
				}
			}
			for _, x := range []string{"c", "z"} {
				if x != k {
					cw.decide("C10", triOf(!strings.Contains(did, x)), st, "opposite", pos, "does the opposite")
				}
			}
		case "idle":
			if pre.sock == "open" && good == yes && openAfter {
				cw.decide("C10", triOf(gs(st, "tx") == "none"), st, "transaction left open", pos, "succeeds with the transaction still open")
				cw.decide("C22", triOf(gs(st, "tx") == "none"), st, "transaction left open", pos, "succeeds with the transaction still open")
			}
			cw.decide("C10", triOf(!strings.Contains(did, "c")), st, "commits", pos, "commits the transaction")
		case "close":
			cw.decide("C10", triOf(!strings.Contains(did, "c")), st, "commits", pos, "commits the transaction")
			cw.decide("C14", triOf(!openAfter), st, "socket left open", pos, "returns with the socket open")
			if pre.sock != "open" {
				cw.decide("C14", triOf(good == no), st, "closed twice", pos, "closing a closed connection succeeds")
				cw.decide("C14", triOf(!sent), st, "goodbye on a closed connection", pos, "sends a request on a closed connection")
				if good == no {
					cw.decide("C14", cw.isErr(st, err, "ErrClosed"), st, "closed twice", pos, "closing a closed connection reports %s", short(err.Key()))
				}
			}
		case "isclosed":
			r := st.R(orNil(o.ret))
			if live {
				cw.decide("C10", not(st.truth(r)), st, "open transaction", pos, "reports an open transaction as closed")
			} else {
				cw.decide("C10", st.truth(r), st, "ended transaction", pos, "reports a transaction that ended as open")
			}
			cw.decide("C10", triOf(!sent), st, "sends", pos, "sends a request")
		case "set":
			if op.name == "SetTimeout" {
				// the deadlines of later operations are judged by what the connection keeps
				ts := cw.timeouts(st)
				t := unknown
				for _, v := range ts {
					if same(v, st.R(op.args[0])) {
						t = yes
					} else if t == unknown {
						t = no
					}
				}
				cw.decide("C17", t, st, "timeout not kept", pos, "forgets the timeout it is given")
			}
		case "valid":
			r := st.R(orNil(o.ret))
			probe := gs(st, "probe")
			isOpen := st.truth(r)
			dead := pre.sock != "open" || fault != "" || probe == "error" || probe == "eof" || probe == "data"
			for _, p := range []string{"C20", "C22"} {
				if dead {
					cw.decide(p, not(isOpen), st, "dead connection", pos, "reports a connection as open although %s", or(fault, or(probe, "it is closed")))
				} else if probe == "timeout" {
					cw.decide(p, isOpen, st, "open connection", pos, "reports an open connection as dead")
				} else {
					cw.decide(p, not(isOpen), st, "no probe", pos, "reports a connection as open without looking")
				}
			}
			cw.decide("C08", triOf(!sent), st, "sends", pos, "sends a request")
		}
		if len(hs) > 2 {
			hs = hs[:2]
		}
		// where it goes from here: only what can go on
		if gs(st, "sock") == "open" && (flag(st, "taint") || gs(st, "q") != "" || flag(st, "failed")) {
			continue
		}
		if gs(st, "sock") != "open" {
			setS(st, "tx", "none")
			setS(st, "q", "")
			st.setG("taint", Bool(false))
			st.setG("failed", Bool(false))
		}
		if gs(st, "tx") != "open" {
			st.setG("own", Nil{})
			st.setG("txdb", Str(""))
		}
		out = append(out, cw.canon(&connState{st: st, conn: s.conn, hs: hs, path: append(append([]string{}, s.path...), op.name)}))
	}
	_ = ip
	return out
}

func not2(v Value) Value { return mkApp("not", tBool, v) }

// atEnd checks what holds whenever a call returns
func (cw *connWorld) atEnd(st *State, op *connOp, pos token.Pos, good tri, err Value) {
	sock := gs(st, "sock")
	fault := gs(st, "fault")
	if sock == "open" && op.kind != "valid" && op.kind != "set" && op.kind != "isclosed" {
		q := gs(st, "q")
		switch {
		case op.kind == "create" && good != yes:
		default:
			cw.decide("C08", triOf(q == ""), st, "reply not consumed", pos, "returns with the reply to %s outstanding and the connection open", cw.names(q))
			cw.decide("C08", triOf(!flag(st, "taint")), st, "out of step", pos, "returns with the connection open after %s", or(fault, "it got out of step"))
			cw.decide("C08", triOf(!flag(st, "failed")), st, "not reset", pos, "returns with the connection open while the server ignores requests until a reset")
		}
	}
	if op.kind != "create" {
		held, n := cw.locks(st)
		if n > 0 {
			cw.decide("C13", triOf(len(held) == 0), st, "lock not released", pos, "returns with the lock held")
		}
	}
	if fault != "" && op.kind != "valid" && op.kind != "set" && op.kind != "isclosed" {
		cw.decide("C12", not(good), st, "failure lost", pos, "succeeds although there was a failure: %s", fault)
	}
	if f := orNil(st.g("sfail")); good == no && !same(f, Nil{}) {
		cw.innermost(st, err, f, pos)
	}
	if good == no && same(orNil(st.g("sfail")), Nil{}) {
		switch fault {
		case "write", "read fails", "the server closes the connection", "deadline":
			cw.decide("C17", cw.isErr(st, err, "ErrBadConn"), st, "transport error", pos, "reports %s as %s instead of a bad connection", fault, short(err.Key()))
		}
	}
}

// isErr tells whether an error is or wraps an exported one
func (cw *connWorld) isErr(st *State, err Value, name string) tri {
	seen := map[int]bool{}
	found, made := false, false
	var walk func(v Value, d int)
	walk = func(v Value, d int) {
		if d > 30 || found {
			return
		}
		v = st.R(v)
		if strings.Contains(v.Key(), name) {
			found = true
			return
		}
		if contains(v, isMadeUp) {
			made = true
		}
		walkVal(v, func(x Value) {
			if p, ok := x.(*Ptr); ok && !seen[p.obj] && st.heap[p.obj] != nil {
				seen[p.obj] = true
				if g := cw.w.globalName(p.obj); g != "" && strings.HasSuffix(g, "."+name) {
					found = true
				}
				walk(st.heap[p.obj].val, d+1)
			}
		})
	}
	// a package level error is a pointer to an object made by the initialiser
	if g := cw.globalErr(st, name); g != nil && contains(st.R(err), func(x Value) bool { return same(x, g) }) {
		return yes
	}
	walk(err, 0)
	switch {
	case found:
		return yes
	case made:
		return unknown
	}
	return no
}

func (w *World) globalName(obj int) string {
	for g, id := range w.ip.globals {
		if id == obj {
			return g.String()
		}
	}
	return ""
}

func (cw *connWorld) globalErr(st *State, name string) Value {
	for g := range cw.ip.globals {
		if g.Name() == name && cw.c.p.isModule(g.Pkg.Pkg) {
			v := st.R(cw.ip.load(st, cw.ip.global(st, g), derefType(g.Type())))
			if p, ok := v.(*Ptr); ok {
				return p
			}
		}
	}
	return nil
}

func (cw *connWorld) innermost(st *State, err, meta Value, pos token.Pos) {
	if cw.c.id != "C12" {
		return
	}
	i, ok := st.R(err).(*Iface)
	key := "failure details"
	if !ok {
		cw.decide("C12", unknown, st, key, pos, "error %s", short(err.Key()))
		return
	}
	if types.Identical(i.typ, cw.fail) {
		cw.decide("C12", triOf(contains(st.R(i.v), func(x Value) bool { return same(x, meta) })), st, key, pos, "the error is not the server's failure")
		return
	}
	if cw.c.p.method(i.typ, "InnerMost") == nil {
		cw.decide("C12", no, st, key, pos, "a server failure is reported as a %s without its cause", typeName(i.typ))
		return
	}
	s := st.clone()
	for _, o := range cw.w.callMethodOf(s, i.typ, s.R(i.v), "InnerMost") {
		if o.pan != nil {
			continue
		}
		r, ok := o.st.R(orNil(o.ret)).(*Iface)
		t := triOf(ok && types.Identical(r.typ, cw.fail) && contains(o.st.R(r.v), func(x Value) bool { return same(x, meta) }))
		cw.decide("C12", t, o.st, key, pos, "the innermost cause of the error is %s instead of the server's failure", short(orNil(o.ret).Key()))
	}
}

// multiDB asks the protocol whether it has databases
func (cw *connWorld) multiDB(s *connState) bool {
	st := cw.w.st.clone()
	for _, o := range cw.w.callMethodOf(st, cw.pv.typ, cw.w.protoValue(st, cw.pv.typ), "SupportsMultiDatabase") {
		if o.pan == nil {
			return o.st.truth(o.st.R(orNil(o.ret))) == yes
		}
	}
	return cw.pv.n >= 4
}

// entry looks up a key of the map in a field of a message
func (cw *connWorld) entry(st *State, f Value, k string) (v Value, has, known tri) {
	i, ok := st.R(f).(*Iface)
	if !ok {
		return nil, unknown, no
	}
	switch x := st.R(i.v).(type) {
	case Nil:
		return nil, no, yes
	case *MapV:
		mc := cw.ip.mapC(st, x)
		rs := cw.ip.mapGet(st.clone(), mc, Str(k), tAny)
		if len(rs) == 1 {
			if rs[0].v == nil {
				return nil, no, yes
			}
			return rs[0].v, yes, yes
		}
	}
	return nil, unknown, no
}

// database checks the database a request names
func (cw *connWorld) database(st *State, msg, db Value, pos token.Pos, prop string) {
	if cw.c.id != prop || cw.pv.n < 4 {
		return
	}
	i, ok := msg.(*Iface)
	if !ok {
		return
	}
	fs := cw.fields(st, i)
	if len(fs) == 0 {
		return
	}
	v, has, known := cw.entry(st, fs[len(fs)-1], "db")
	named := triOf(!same(st.R(db), Str("")))
	key := "database"
	switch {
	case known != yes:
		cw.decide(prop, unknown, st, key, pos, "unknown metadata")
	case named == yes && has == no:
		cw.decide(prop, no, st, key, pos, "the database is not passed to the server")
	case named == no && has == yes:
		cw.decide(prop, no, st, key, pos, "a database is passed although none was named: %s", v.Key())
	case named == yes:
		cw.decide(prop, hasVal(db)(st, v), st, key, pos, "the database passed is %s", v.Key())
	default:
		cw.decide(prop, yes, st, key, pos, "")
	}
}

// statement checks the RUN a statement was sent with
func (cw *connWorld) statement(st *State, op *connOp, run Value, pos token.Pos, live bool) {
	i, ok := run.(*Iface)
	if !ok {
		return
	}
	fs := cw.fields(st, i)
	if len(fs) < 2 {
		cw.decide("C09", unknown, st, "statement", pos, "unknown RUN message")
		return
	}
	val := func(f Value) Value {
		if x, ok := st.R(f).(*Iface); ok {
			return st.R(x.v)
		}
		return st.R(f)
	}
	q, p := val(fs[0]), val(fs[1])
	cw.decide("C09", sameTri(st, q, op.q), st, "statement", pos, "sends the statement %s instead of the caller's", q.Key())
	cw.decide("C09", sameTri(st, p, op.par), st, "parameters", pos, "sends the parameters %s instead of the caller's", p.Key())
	cw.decide("C09", triOf(lg(st, "nrun").is(1)), st, "run more than once", pos, "runs the statement %s times", lg(st, "nrun").Key())
	if cw.pv.n < 3 || len(fs) < 3 {
		return
	}
	if op.on < 0 {
		cw.database(st, run, op.db, pos, "C11")
		return
	}
	// inside of a transaction a statement carries none of the settings of an auto-commit one
	for _, k := range []string{"db", "mode", "tx_timeout", "tx_metadata", "bookmarks"} {
		v, has, known := cw.entry(st, fs[2], k)
		if known != yes {
			cw.decide("C11", unknown, st, "auto-commit", pos, "unknown metadata")
			continue
		}
		d := ""
		if v != nil {
			d = v.Key()
		}
		cw.decide("C11", not(has), st, "auto-commit", pos, "sends a statement of a transaction with the setting %s %s of an auto-commit one", k, d)
	}
	if live && !same(op.db, Str("")) {
		d := st.R(orNil(st.g("txdb")))
		t := unknown
		if gs(st, "tx") == "open" || true {
			t = sameTri(st, st.R(op.db), d)
			if t == unknown && st.truth(cw.ip.equal(st, op.db, d, tString)) == yes {
				t = yes
			} else if t == unknown {
				t = no
			}
		}
		cw.decide("C11", t, st, "other database", pos, "sends a statement for database %s in a transaction on %s", op.db.Key(), d.Key())
	}
}

func sameTri(st *State, a, b Value) tri {
	if same(a, b) || same(st.R(a), st.R(b)) {
		return yes
	}
	if _, ok := a.(Nil); ok && st.truth(st.isNil(b)) == yes {
		return yes
	}
	return refuteVal(st, a, b)
}

// result checks what a statement returns
func (cw *connWorld) result(st *State, op *connOp, vs []Value, good tri, pos token.Pos) {
	if cw.c.id != "C09" {
		return
	}
	if good == no {
		for _, v := range vs[:len(vs)-1] {
			cw.decide("C09", st.truth(st.isNil(st.R(v))), st, "result along with an error", pos, "returns %s along with an error", short(st.R(v).Key()))
		}
		return
	}
	cw.decide("C09", triOf(gs(st, "lastok") == "P" && gs(st, "q") == ""), st, "not finished", pos, "succeeds before the final success message")
	if op.kind == "query" {
		n := lg(st, "nrec")
		rows, ok := st.R(vs[0]).(*Slice)
		switch {
		case !ok && n.is(0):
			cw.decide("C09", yes, st, "rows", pos, "")
		case !ok:
			cw.decide("C09", unknown, st, "rows", pos, "rows %s", st.R(vs[0]).Key())
		default:
			cw.decide("C09", decideEQ(st, rows.len, n), st, "number of rows", pos, "returns %s rows for %s records", rows.len.Key(), n.Key())
			q := st.normSeq(cw.ip.seqOf(st, rows))
			t, d := cw.rowsAre(st, q, n)
			cw.decide("C09", t, st, "rows", pos, "%s", d)
			cw.handOut(st, rows.obj)
		}
	}
	res := st.R(vs[len(vs)-2])
	i, ok := res.(*Iface)
	if !ok {
		cw.decide("C09", unknown, st, "metadata", pos, "result %s", res.Key())
		return
	}
	s := st.clone()
	for _, o := range cw.w.callMethodOf(s, i.typ, s.R(i.v), "Metadata") {
		if o.pan == nil {
			m := o.st.R(orNil(o.ret))
			cw.decide("C09", sameTri(o.st, m, orNil(st.g("lastmeta"))), o.st, "metadata", pos, "the metadata is %s instead of that of the final success message", m.Key())
		}
	}
}

// handOut marks an object that belongs to the caller from now on
func (cw *connWorld) handOut(st *State, obj int) {
	if o := st.heap[obj]; o != nil && !strings.HasSuffix(o.site, handedOut) {
		st.setObj(obj, &Obj{typ: o.typ, val: o.val, site: o.site + handedOut})
	}
}

// rowsAre tells whether row i is made of the fields of record i
func (cw *connWorld) rowsAre(st *State, q *SeqV, n *Lin) (tri, string) {
	pos := num(0)
	for _, g := range q.segs {
		switch g.kind {
		case 'i':
			v := st.R(g.v)
			w := wrapTyp(mkApp("recfields", valType(g.v), pos))
			if !same(v, w) && !strings.HasPrefix(v.Key(), "recfields(") {
				return refuteVal(st, v, w), "row " + pos.Key() + " is " + v.Key()
			}
			if !same(v, w) {
				if a, ok := v.(*App); ok && len(a.args) == 1 {
					if t := decideEQ(st, asLin(a.args[0]), pos); t != yes {
						return t, "row " + pos.Key() + " is record " + a.args[0].Key()
					}
				} else {
					return unknown, "row " + v.Key()
				}
			}
			pos = st.rlin(addLin(pos, num(1)))
		case '*':
			if len(g.tmpl) != 1 || g.tmpl[0].kind != 'i' {
				return unknown, "rows " + q.Key()
			}
			a, ok := st.R(g.tmpl[0].v).(*App)
			if !ok || a.op != "recfields" {
				if contains(g.tmpl[0].v, isMadeUp) {
					return unknown, "rows " + q.Key()
				}
				return no, "rows are " + g.tmpl[0].v.Key()
			}
			want := addLin(pos, atomLin(kappa))
			l := asLin(a.args[0])
			if l == nil || l.Key() != want.Key() {
				if l == nil {
					return unknown, "rows " + q.Key()
				}
				return decideEQ(st, l, want), "row i is record " + l.Key()
			}
			pos = st.rlin(addLin(pos, g.n))
		default:
			return unknown, "rows " + q.Key()
		}
	}
	return yes, ""
}

// lockset reports shared fields that are written under the lock and touched without it
func (cw *connWorld) lockset() {
	var ks []string
	for k := range cw.touched {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := cw.touched[k]
		cw.c.counts["shared fields"]++
		if !t.locked {
			continue
		}
		if t.fn != nil {
			cw.c.decide(no, "field "+k, t.unlocked, nil, "%s is written under the lock of the connection but accessed without it in %s", k, cw.c.p.relName(t.fn))
		} else {
			cw.c.decide(yes, "field "+k, 0, nil, "")
			cw.c.sample("%s is only accessed under the lock", k)
		}
	}
}

var _ *ssa.Function

var t0 = time.Now()
