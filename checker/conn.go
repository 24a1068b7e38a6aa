package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The connection world: a connection of the module talks to an abstract server through an abstract socket.
// Messages are exchanged whole (the codec properties justify that); the server answers every request with any
// reply the protocol allows, with an unexpected or undecodable one, or the transport fails.  What is on the wire
// is kept in ghosts of the state, and the histories of calls are closed under all operations.
//
// Ghosts: sock (none/open/closed), stage (hs/msg), q (requests not answered yet, one letter each), failed (the
// server ignores requests until a reset), taint (requests and replies are out of step), tx (none/open), own (the
// handle of the open transaction), txdb, nrec (records streamed for the last pull), ...

type connWorld struct {
	c    *Ctx
	w    *World
	ip   *Interp
	pv   protoVersion
	succ types.Type
	rec  types.Type
	ign  types.Type
	fail types.Type
	op   string
	// conn of the running operation
	conn    Value
	objMax  int // objects above were made by the running operation
	create  bool
	answer  string // what the server says in the handshake
	config  map[string]bool
	done    bool
	touched map[string]*touch
}

// touch is how a field of a shared object was accessed
type touch struct {
	write, locked bool
	unlocked      token.Pos
	fn            *ssa.Function
}

func newConnWorld(c *Ctx) *connWorld {
	w := newWorld(c.p)
	cw := &connWorld{c: c, w: w, ip: w.ip, config: map[string]bool{}, touched: map[string]*touch{}}
	ip := w.ip
	ip.smallEls = true
	k := c.p.pkg("structures/messages")
	if k != nil {
		for _, n := range k.Pkg.Scope().Names() {
			tn, ok := k.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) || c.p.method(tn.Type(), "Signature") == nil {
				continue
			}
			switch cw.signature(w.st.clone(), tn.Type(), ip.zero(tn.Type())) {
			case 0x70:
				cw.succ = tn.Type()
			case 0x71:
				cw.rec = tn.Type()
			case 0x7e:
				cw.ign = tn.Type()
			case 0x7f:
				cw.fail = tn.Type()
			}
		}
	}
	ip.possible = func(st *State, v Value, t types.Type) bool {
		switch x := v.(type) {
		case *App:
			if strings.HasPrefix(x.op, "global:") || x.op == "errorf" {
				return !cw.ofModule(t)
			}
		case *Sym:
			if strings.HasPrefix(x.name, "net ") {
				return !cw.ofModule(t)
			}
		}
		return true
	}
	cw.hooks()
	return cw
}

func (cw *connWorld) ofModule(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && cw.c.p.isModule(n.Obj().Pkg())
}

func (cw *connWorld) ok() bool {
	return cw.succ != nil && cw.rec != nil && cw.ign != nil && cw.fail != nil
}

func (cw *connWorld) signature(st *State, t types.Type, v Value) int {
	for _, o := range cw.w.callMethodOf(st, t, v, "Signature") {
		if l := asLin(o.st.R(orNil(o.ret))); o.pan == nil && l != nil && l.isConst() {
			return l.int()
		}
	}
	return -1
}

// decide records an obligation of property prop when it is the one being checked
func (cw *connWorld) decide(prop string, t tri, st *State, key string, pos token.Pos, format string, a ...interface{}) {
	if cw.c.id != prop {
		return
	}
	if t == no && len(st.notes) > 0 {
		t = unknown
	}
	cw.c.decide(t, cw.op+": "+key, pos, func() []string { return trace(cw.c.p, st, 40) }, "%s (protocol %d): %s", cw.op, cw.pv.n, fmt.Sprintf(format, a...))
}

func gs(st *State, k string) string {
	if s, ok := st.R(orNil(st.g(k))).(Str); ok {
		return string(s)
	}
	return ""
}

func setS(st *State, k, v string) { st.setG(k, Str(v)) }

func flag(st *State, k string) bool { return st.gBool(k) }

func (cw *connWorld) fault(st *State, what string) {
	if gs(st, "fault") == "" {
		setS(st, "fault", what)
	}
}

// ---- hooks

func (cw *connWorld) hooks() {
	if cw.c.id == "C09" {
		cw.ip.changed = func(ip *Interp, st *State, ok tri, pos token.Pos, fn *ssa.Function) {
			cw.decide("C09", ok, st, "rows of an earlier query", pos, "%s writes to the rows an earlier query returned", fn)
		}
	}
	ip := cw.ip
	enc, dec := cw.c.p.mod+"/encoding.IEncoder", cw.c.p.mod+"/encoding.IDecoder"
	set := func(names []string, h Hook) {
		for _, n := range names {
			ip.hooks[n] = h
		}
	}
	set(cw.implNames(enc, "Encode"), cw.send)
	set(cw.implNames(dec, "Decode"), cw.recv)
	conns := []string{"(net.Conn).", "(*crypto/tls.Conn).", "(*net.TCPConn)."}
	meth := func(m string, h Hook) {
		for _, c := range conns {
			ip.hooks[c+m] = h
		}
	}
	meth("Write", cw.netWrite)
	meth("Read", cw.netRead)
	ip.hooks["(io.Writer).Write"] = cw.netWrite
	ip.hooks["(io.Reader).Read"] = cw.netRead
	meth("Close", func(ip *Interp, st *State, c *Call) []Outcome {
		setS(st, "sock", "closed")
		st.event(c.pos, "socket closed")
		if unused(c) {
			return []Outcome{{st: st, ret: Nil{}}}
		}
		bad := st.clone()
		return []Outcome{{st: st, ret: Nil{}}, {st: bad, ret: ip.newErr(bad, "net close error")}}
	})
	deadline := func(ghosts ...string) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			bad := st.clone()
			for _, g := range ghosts {
				st.setG(g, st.R(c.args[1]))
			}
			cw.fault(bad, "deadline")
			for _, g := range ghosts {
				bad.setG(g, Str("refused"))
			}
			bad.event(c.pos, "setting the deadline fails")
			return []Outcome{{st: st, ret: Nil{}}, {st: bad, ret: ip.newErr(bad, "net deadline error")}}
		}
	}
	meth("SetDeadline", deadline("rdl", "wdl"))
	meth("SetReadDeadline", deadline("rdl"))
	meth("SetWriteDeadline", deadline("wdl"))
	meth("Handshake", func(ip *Interp, st *State, c *Call) []Outcome {
		cw.bounded(st, c, "rdl", "TLS handshake")
		bad := st.clone()
		cw.fault(bad, "tls")
		return []Outcome{{st: st, ret: Nil{}}, {st: bad, ret: ip.newErr(bad, "net tls error")}}
	})
	dial := func(tmo func(st *State, c *Call) Value, isTLS bool) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			v := tmo(st, c)
			cw.decide("C17", cw.fromTimeout(st, v), st, "dial without the timeout", c.pos, "the dial is bounded by %s instead of the timeout of the connection", orNil(v).Key())
			bad := st.clone()
			cw.fault(bad, "dial")
			bad.event(c.pos, "dialing fails")
			st.event(c.pos, "dialed")
			cw.decide("C14", triOf(gs(st, "sock") != "open"), st, "second dial", c.pos, "dials again while a socket is open")
			setS(st, "sock", "open")
			setS(st, "stage", "hs")
			st.setG("hs.sent", mkSeq(tByte))
			st.setG("hs.pos", num(0))
			t := c.res.At(0).Type()
			conn := nonNil(st, ip.fresh("socket", t))
			if isTLS {
				st.setG("istls", Bool(true))
			}
			return []Outcome{{st: st, ret: &Tuple{[]Value{conn, Nil{}}}}, {st: bad, ret: &Tuple{[]Value{ip.zero(t), ip.newErr(bad, "net dial error")}}}}
		}
	}
	none := func(st *State, c *Call) Value { return nil }
	dialer := func(i int) func(st *State, c *Call) Value {
		return func(st *State, c *Call) Value {
			t := ip.p.extType("net", "Dialer")
			if t == nil || i >= len(c.args) {
				return nil
			}
			p := ip.deref(st, c.args[i], types.NewPointer(t))
			if p == nil {
				return nil
			}
			s := ip.expand(st.R(ip.load(st, p, t)), t)
			if s == nil {
				return nil
			}
			u := t.Underlying().(*types.Struct)
			for k := 0; k < u.NumFields(); k++ {
				if u.Field(k).Name() == "Timeout" {
					return st.R(s.f[k])
				}
			}
			return nil
		}
	}
	ip.hooks["net.DialTimeout"] = dial(func(st *State, c *Call) Value { return st.R(c.args[2]) }, false)
	ip.hooks["net.Dial"] = dial(none, false)
	ip.hooks["(*net.Dialer).Dial"] = dial(dialer(0), false)
	ip.hooks["(*net.Dialer).DialContext"] = dial(dialer(0), false)
	ip.hooks["crypto/tls.Dial"] = dial(none, true)
	ip.hooks["crypto/tls.DialWithDialer"] = dial(dialer(0), true)
	ip.hooks["crypto/tls.Client"] = func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, nonNil(st, ip.fresh("tls socket", c.res.At(0).Type())))
	}
	isTimeout := func(ip *Interp, st *State, c *Call) []Outcome {
		v := st.R(c.args[0])
		if i, ok := v.(*Iface); ok {
			v = st.R(i.v)
		}
		return one(st, st.R(mkApp("isTimeout", tBool, v)))
	}
	ip.hooks["(net.Error).Timeout"] = isTimeout
	ip.hooks["(*net.OpError).Timeout"] = isTimeout
	ip.hooks["(*net.OpError).Error"] = func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, mkApp("text", tString, st.R(c.args[0])))
	}
	file := func(ip *Interp, st *State, c *Call) []Outcome {
		bad := st.clone()
		cw.fault(bad, "tls file")
		vs := []Value{pureAt(st, c, 0), Nil{}}
		return []Outcome{{st: st, ret: &Tuple{vs}}, {st: bad, ret: &Tuple{[]Value{ip.zero(c.res.At(0).Type()), ip.newErr(bad, "net file error")}}}}
	}
	for _, n := range []string{"io/ioutil.ReadFile", "os.ReadFile", "crypto/tls.LoadX509KeyPair", "crypto/tls.X509KeyPair"} {
		ip.hooks[n] = file
	}
	ip.lockHook = func(ip *Interp, st *State, k string, p *Ptr, c *Call) {
		if k == "U" && !cw.create {
			cw.decide("C13", triOf(gs(st, "q") == "" || gs(st, "sock") == "closed"), st, "lock released within an exchange", c.pos, "the lock is released while replies to %s are outstanding", cw.names(gs(st, "q")))
		}
	}
	ip.onObl = func(st *State, kind string, pos token.Pos, fn *ssa.Function, ok tri, detail string) {
		if (kind == "lock" || kind == "unlock") && ok == no {
			cw.decide("C13", no, st, kind, pos, "%s", detail)
		}
	}
	ip.access = cw.access
	cw.quiet()
}

func pureAt(st *State, c *Call, i int) Value {
	v := pureResult(st, c)
	if t, ok := v.(*Tuple); ok {
		return nonNil(st, t.vs[i])
	}
	return nonNil(st, v)
}

// unused tells whether the result of a call is dropped
func unused(c *Call) bool {
	v, ok := c.instr.(*ssa.Call)
	if !ok {
		return c.instr != nil
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return false
		}
	}
	return true
}

// quiet drops calls of the log that return nothing: what it prints is judged elsewhere
func (cw *connWorld) quiet() {
	k := cw.c.p.pkg("log")
	if k == nil {
		return
	}
	quiet := map[*ssa.Function]bool{}
	cw.ip.quietFn = func(f *ssa.Function) bool { return quiet[f] }
	for _, m := range k.Members {
		if f, ok := m.(*ssa.Function); ok && f.Signature.Results().Len() == 0 && f.Name() != "init" {
			quiet[f] = true
			cw.ip.hooks[fnName(f)] = func(ip *Interp, st *State, c *Call) []Outcome {
				return []Outcome{{st: st, ret: Nil{}}}
			}
		}
	}
}

// implNames lists the names a call of a method of an interface can have
func (cw *connWorld) implNames(iface, m string) []string {
	out := []string{"(" + iface + ")." + m}
	i := strings.LastIndex(iface, ".")
	var it *types.Interface
	if t := cw.c.p.typ(strings.TrimPrefix(iface[:i], cw.c.p.mod+"/"), iface[i+1:]); t != nil {
		it, _ = t.Underlying().(*types.Interface)
	}
	if it == nil {
		return out
	}
	for _, k := range cw.c.p.pkgs {
		for _, n := range k.Types.Scope().Names() {
			tn, ok := k.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, it) {
					if f := cw.c.p.method(t, m); f != nil {
						out = append(out, fnName(f))
					}
				}
			}
		}
	}
	return out
}

// ---- locks

func (cw *connWorld) connObj(st *State) int {
	v := st.R(orNil(cw.conn))
	if i, ok := v.(*Iface); ok {
		v = st.R(i.v)
	}
	if p, ok := v.(*Ptr); ok {
		return p.obj
	}
	return -1
}

// locks lists the states of the mutexes of the connection
func (cw *connWorld) locks(st *State) (held []string, n int) {
	var walk func(v Value, depth int)
	seen := map[int]bool{}
	walk = func(v Value, depth int) {
		if depth > 6 {
			return
		}
		switch x := st.R(v).(type) {
		case *Ext:
			if x.kind == "mutex" {
				n++
				if len(x.vs) > 0 {
					if s, ok := x.vs[0].(Str); ok && s != "" {
						held = append(held, string(s))
					}
				}
			}
		case *Struct:
			for _, f := range x.f {
				if f != nil {
					walk(f, depth+1)
				}
			}
		case *Ptr:
			if !seen[x.obj] && st.heap[x.obj] != nil {
				seen[x.obj] = true
				walk(st.heap[x.obj].val, depth+1)
			}
		case *Iface:
			walk(x.v, depth+1)
		}
	}
	v := orNil(cw.conn)
	walk(v, 0)
	return
}

func (cw *connWorld) holds(st *State) bool {
	h, _ := cw.locks(st)
	for _, s := range h {
		if s == "L" {
			return true
		}
	}
	return false
}

// access sees every load and store
func (cw *connWorld) access(ip *Interp, st *State, p *Ptr, write bool, pos token.Pos, fn *ssa.Function) {
	if cw.c.id != "C13" || cw.create || p.obj > cw.objMax || len(p.path) == 0 {
		return
	}
	o := st.heap[p.obj]
	if o == nil || o.typ == nil || !cw.ofModule(o.typ) {
		return
	}
	u, ok := o.typ.Underlying().(*types.Struct)
	i := p.path[0].field
	if !ok || i < 0 || i >= u.NumFields() {
		return
	}
	if extKind(u.Field(i).Type()) == "mutex" {
		return
	}
	k := typeName(o.typ) + "." + u.Field(i).Name()
	t := cw.touched[k]
	if t == nil {
		t = &touch{}
		cw.touched[k] = t
	}
	if cw.holds(st) {
		if write {
			t.locked = true
		}
	} else {
		if write {
			t.write = true
		}
		if t.fn == nil {
			t.unlocked, t.fn = pos, fn
		}
	}
}

// ---- the socket

// values of the duration fields of the connection
func (cw *connWorld) timeouts(st *State) []Value {
	var out []Value
	o := st.heap[cw.connObj(st)]
	if o == nil || o.typ == nil {
		return nil
	}
	s, _ := st.R(o.val).(*Struct)
	u, ok := o.typ.Underlying().(*types.Struct)
	if s == nil || !ok {
		return nil
	}
	for i := 0; i < u.NumFields() && i < len(s.f); i++ {
		if typeName(u.Field(i).Type()) == "time.Duration" {
			out = append(out, st.R(s.f[i]))
		}
	}
	return out
}

func (cw *connWorld) fromTimeout(st *State, v Value) tri {
	if v == nil {
		return no
	}
	v = st.R(v)
	if s, ok := v.(Str); ok && s == "refused" {
		return no
	}
	ts := cw.timeouts(st)
	if len(ts) == 0 {
		// the connection is not known yet: any bound that is not constant or is positive
		if l := asLin(v); l != nil && l.isConst() && l.c.Sign() <= 0 {
			return no
		}
		return yes
	}
	for _, t := range ts {
		if contains(v, func(x Value) bool { return same(x, t) }) {
			return yes
		}
	}
	if cw.op == "ValidateOpen" {
		if a, ok := v.(*App); ok && strings.HasSuffix(a.op, ".Add") && len(a.args) == 2 {
			if l := asLin(a.args[1]); l != nil && l.isConst() && l.c.Sign() > 0 {
				return yes
			}
		}
		return no
	}
	return no
}

func (cw *connWorld) bounded(st *State, c *Call, g, what string) {
	v := st.g(g)
	if v == nil {
		v = Nil{}
	}
	if _, isNil := v.(Nil); isNil {
		v = nil
	}
	t := cw.fromTimeout(st, v)
	d := "no deadline"
	if v != nil {
		d = "the deadline " + v.Key()
		if s, ok := v.(Str); ok && s == "refused" {
			d = "a deadline that could not be set"
		}
	}
	cw.decide("C17", t, st, what+" without a deadline", c.pos, "%s with %s", what, d)
}

func (cw *connWorld) isSocket(st *State, v Value) bool {
	v = st.R(v)
	if i, ok := v.(*Iface); ok {
		v = st.R(i.v)
	}
	if s, ok := v.(*Sym); ok {
		return strings.Contains(s.name, "socket")
	}
	return false
}

func (cw *connWorld) netWrite(ip *Interp, st *State, c *Call) []Outcome {
	if !cw.isSocket(st, c.args[0]) {
		return nil
	}
	cw.bounded(st, c, "wdl", "write")
	bad := st.clone()
	cw.fault(bad, "write")
	bad.setG("taint", Bool(true))
	bad.event(c.pos, "write fails")
	outs := []Outcome{{st: bad, ret: &Tuple{[]Value{ip.fresh("written", tInt), ip.newErr(bad, "net write error")}}}}
	if gs(st, "sock") != "open" {
		return outs
	}
	q := st.normSeq(ip.bytesOf(st, c.args[1]))
	switch {
	case gs(st, "stage") == "hs":
		if s, ok := st.R(orNil(st.g("hs.sent"))).(*SeqV); ok {
			st.setG("hs.sent", st.concat(s, q))
		}
		st.event(c.pos, "handshake bytes %s written", short(q.Key()))
	case !flag(st, "sending"):
		st.note("bytes are written that are not a message")
	}
	return append(outs, Outcome{st: st, ret: &Tuple{[]Value{q.length(), Nil{}}}})
}

func (cw *connWorld) netRead(ip *Interp, st *State, c *Call) []Outcome {
	if !cw.isSocket(st, c.args[0]) {
		return nil
	}
	cw.bounded(st, c, "rdl", "read")
	var outs []Outcome
	fails := func(e Value, what string) {
		bad := st.clone()
		cw.fault(bad, what)
		bad.setG("taint", Bool(true))
		bad.event(c.pos, "%s", what)
		if e == nil {
			e = ip.newErr(bad, "net read error")
		} else {
			nonNil(bad, e)
		}
		outs = append(outs, Outcome{st: bad, ret: &Tuple{[]Value{num(0), e}}})
	}
	n := num(0)
	var sl *Slice
	if s, ok := st.R(c.args[1]).(*Slice); ok {
		sl, n = s, s.len
	}
	if gs(st, "stage") == "hs" {
		fails(nil, "read fails")
		pos := lg(st, "hs.pos")
		if gs(st, "sock") != "open" || !n.isConst() || !pos.isConst() {
			if !n.isConst() {
				st.note("handshake answer read into a buffer of unknown size")
			}
			return outs
		}
		var bytes []Value
		switch cw.answer {
		case "other":
			for i := 0; i < 4; i++ {
				bytes = append(bytes, mkApp("answer", tByte, num(int64(i))))
			}
		case "none":
			bytes = []Value{num(0), num(0), num(0), num(0)}
		default:
			bytes = []Value{num(0), num(0), num(0), num(int64(cw.pv.n))}
		}
		left := 4 - pos.int()
		max := n.int()
		if max > left {
			max = left
		}
		if max == 0 {
			fails(extErrRaw("io.EOF"), "the server closes the connection")
			return outs
		}
		from := 1
		if flag(st, "readfull") {
			from = max
			if max < n.int() {
				return outs
			}
		}
		for k := from; k <= max; k++ {
			s := st.clone()
			var segs []Seg
			for i := 0; i < k; i++ {
				segs = append(segs, item(wrapTyp(bytes[pos.int()+i])))
			}
			ip.overwrite(s, sl, num(0), mkSeq(tByte, segs...), num(int64(k)))
			s.setG("hs.pos", num(int64(pos.int()+k)))
			s.event(c.pos, "%d bytes of the answer arrive", k)
			outs = append(outs, Outcome{st: s, ret: &Tuple{[]Value{num(int64(k)), Nil{}}}})
		}
		return outs
	}
	if flag(st, "receiving") {
		fails(nil, "read fails")
		fails(extErrRaw("io.EOF"), "the server closes the connection")
		if gs(st, "sock") == "open" {
			outs = append(outs, Outcome{st: st, ret: &Tuple{[]Value{n, Nil{}}}})
		}
		return outs
	}
	// a read outside of an exchange finds the connection silent, dead or broken
	opErr := types.NewPointer(cw.c.p.extType("net", "OpError"))
	for _, k := range []string{"timeout", "error", "eof", "data"} {
		s := st.clone()
		s.event(c.pos, "reading ends in %s", k)
		setS(s, "probe", k)
		var r []Value
		switch k {
		case "timeout", "error":
			e := nonNil(s, ip.fresh("net operror", opErr))
			s.setBind(mkApp("isTimeout", tBool, e), Bool(k == "timeout"))
			r = []Value{num(0), &Iface{typ: opErr, v: e}}
		case "eof":
			r = []Value{num(0), nonNil(s, extErrRaw("io.EOF"))}
			s.setBind(mkApp("isTimeout", tBool, r[1]), Bool(false))
		case "data":
			s.setG("taint", Bool(true))
			r = []Value{n, Nil{}}
		}
		if gs(st, "sock") != "open" && k != "error" {
			continue
		}
		outs = append(outs, Outcome{st: s, ret: &Tuple{r}})
	}
	return outs
}

func extErrRaw(name string) Value { return mkApp("global:"+name, tError) }

// ---- messages

// endpoint finds the transport inside an encoder or decoder
func (cw *connWorld) endpoint(st *State, v Value, m string) Value {
	v = st.R(v)
	if i, ok := v.(*Iface); ok {
		v = st.R(i.v)
	}
	if p, ok := v.(*Ptr); ok && st.heap[p.obj] != nil {
		v = st.R(cw.ip.load(st, p, nil))
	}
	s, ok := v.(*Struct)
	if !ok {
		return nil
	}
	for _, f := range s.f {
		x, ok := st.R(orNil(f)).(*Iface)
		if ok && cw.c.p.method(x.typ, m) != nil {
			return x
		}
	}
	return nil
}

var kinds = map[string]string{"I": "INIT", "R": "RUN", "P": "PULL", "D": "DISCARD", "B": "BEGIN", "C": "COMMIT", "Z": "ROLLBACK", "X": "RESET", "G": "GOODBYE",
	"b": "RUN BEGIN", "c": "RUN COMMIT", "z": "RUN ROLLBACK", "?": "an unknown request"}

func (cw *connWorld) names(q string) string {
	var l []string
	for _, r := range q {
		l = append(l, kinds[string(r)])
	}
	return strings.Join(l, ", ")
}

func (cw *connWorld) kindOf(st *State, msg Value) string {
	i, ok := st.R(msg).(*Iface)
	if !ok {
		return "?"
	}
	switch cw.signature(st.clone(), i.typ, st.R(i.v)) {
	case 0x01:
		return "I"
	case 0x10:
		if f := cw.fields(st, i); len(f) > 0 {
			if s, ok := f[0].(*Iface); ok {
				if t, ok := st.R(s.v).(Str); ok {
					switch strings.ToUpper(strings.TrimSpace(string(t))) {
					case "BEGIN":
						return "b"
					case "COMMIT":
						return "c"
					case "ROLLBACK":
						return "z"
					}
				}
			}
		}
		return "R"
	case 0x2f:
		return "D"
	case 0x3f:
		return "P"
	case 0x11:
		return "B"
	case 0x12:
		return "C"
	case 0x13:
		return "Z"
	case 0x0f:
		return "X"
	case 0x02:
		return "G"
	}
	return "?"
}

// fields of a message
func (cw *connWorld) fields(st *State, i *Iface) []Value {
	s := st.clone()
	for _, o := range cw.w.callMethodOf(s, i.typ, s.R(i.v), "AllFields") {
		sl, ok := o.st.R(orNil(o.ret)).(*Slice)
		if o.pan != nil || !ok || !sl.len.isConst() {
			continue
		}
		q := o.st.normSeq(cw.ip.seqOf(o.st, sl))
		var out []Value
		for k := 0; k < sl.len.int(); k++ {
			out = append(out, o.st.R(o.st.seqGet(q, num(int64(k)), tAny)))
		}
		return out
	}
	return nil
}

func (cw *connWorld) send(ip *Interp, st *State, c *Call) []Outcome {
	msg := c.args[1]
	wr := cw.endpoint(st, c.args[0], "Write")
	if wr == nil {
		return nil
	}
	k := cw.kindOf(st, msg)
	if k == "?" {
		st.note("unknown request %s", st.R(msg).Key())
	}
	if !cw.create {
		cw.decide("C13", triOf(cw.holds(st)), st, "send without the lock", c.pos, "%s is sent without holding the lock of the connection", kinds[k])
	}
	var outs []Outcome
	if m, ok := st.R(msg).(*Iface); ok {
		user := false
		for _, f := range cw.fields(st, m) {
			if i, ok := f.(*Iface); ok {
				if _, isMap := i.typ.Underlying().(*types.Map); isMap {
					if mv, ok := st.R(i.v).(*MapV); ok {
						for _, e := range ip.mapC(st, mv).ovr {
							if e.val != nil && contains(e.val, isSymVal) {
								user = true
							}
						}
						if ip.mapC(st, mv).base != nil {
							user = true
						}
					} else if contains(i.v, isSymVal) {
						user = true
					}
				}
			}
		}
		if user {
			bad := st.clone()
			cw.fault(bad, "encode")
			bad.event(c.pos, "%s can not be encoded", kinds[k])
			outs = append(outs, Outcome{st: bad, ret: cw.wrapErr(bad, ip.newErr(bad, "net encode error"))})
		}
	}
	st.setG("sending", Bool(true))
	wt := ip.p.extType("io", "Writer")
	buf := ip.newSlice(st, mkSeq(tByte, Seg{kind: 'r', v: mkApp("message", tString, Str(k)), from: num(0), n: asLin(mustLen(st, mkApp("message", tString, Str(k))))}), tBytes)
	for _, o := range ip.callMethod(st, wr, wt, "Write", []Value{buf}, c) {
		o.st.setG("sending", Bool(false))
		if o.pan != nil {
			outs = append(outs, o)
			continue
		}
		err := o.st.R(tupleOf(o)[1])
		for _, a := range splitNil(o.st, err) {
			if !a.isNil {
				a.st.setG("taint", Bool(true))
				outs = append(outs, Outcome{st: a.st, ret: cw.wrapErr(a.st, a.st.R(err))})
				continue
			}
			cw.sent(a.st, k, msg, c)
			outs = append(outs, Outcome{st: a.st, ret: Nil{}})
		}
	}
	return outs
}

func mustLen(st *State, v Value) Value {
	l := lenVal(v)
	st.addCon(addLin(negLin(l), num(1)))
	return l
}

func isSymVal(v Value) bool {
	switch v.(type) {
	case *Sym, *App:
		return true
	}
	return false
}

// wrapErr wraps an error the way the encoders do
func (cw *connWorld) wrapErr(st *State, err Value) Value {
	f := cw.c.p.fn("errors", "Wrap")
	if f == nil {
		return err
	}
	for _, o := range cw.w.call(st, f, err, Str("codec"), Nil{}) {
		if p, ok := o.st.R(orNil(o.ret)).(*Ptr); ok && o.pan == nil {
			*st = *o.st
			return &Iface{typ: f.Signature.Results().At(0).Type(), v: p}
		}
	}
	return err
}

// sent updates the server for a request that left completely
func (cw *connWorld) sent(st *State, k string, msg Value, c *Call) {
	st.event(c.pos, "sends %s", kinds[k])
	st.setG("nsent", addLin(lg(st, "nsent"), num(1)))
	if k == "G" {
		st.setG("taint", Bool(true)) // the server hangs up
		return
	}
	if k == "P" || k == "D" {
		st.setG("nrec", num(0))
	}
	if k == "R" {
		st.setG("nrun", addLin(lg(st, "nrun"), num(1)))
		st.setG("run", st.R(msg))
	}
	if k == "B" || k == "b" {
		st.setG("begin", st.R(msg))
	}
	if strings.ContainsAny(k, "RBbI") && gs(st, "q") != "" {
		// nothing may be pipelined behind what has not been answered, except the pull of a run
		cw.decide("C08", no, st, "request behind unanswered ones", c.pos, "%s is sent while %s has not been answered", kinds[k], cw.names(gs(st, "q")))
	}
	setS(st, "q", gs(st, "q")+k)
}

func (cw *connWorld) recv(ip *Interp, st *State, c *Call) []Outcome {
	rd := cw.endpoint(st, c.args[0], "Read")
	if rd == nil {
		return nil
	}
	if !cw.create {
		cw.decide("C13", triOf(cw.holds(st)), st, "receive without the lock", c.pos, "a reply is received without holding the lock of the connection")
	}
	rt := ip.p.extType("io", "Reader")
	st.setG("receiving", Bool(true))
	st.setG("readfull", Bool(true))
	buf := ip.newSlice(st, mkSeq(tByte, item(num(0)), item(num(0))), tBytes)
	var outs []Outcome
	for _, o := range ip.callMethod(st, rd, rt, "Read", []Value{buf}, c) {
		o.st.setG("receiving", Bool(false))
		o.st.setG("readfull", Nil{})
		if o.pan != nil {
			outs = append(outs, o)
			continue
		}
		err := o.st.R(tupleOf(o)[1])
		for _, a := range splitNil(o.st, err) {
			if !a.isNil {
				a.st.setG("taint", Bool(true))
				outs = append(outs, Outcome{st: a.st, ret: &Tuple{[]Value{Nil{}, cw.wrapErr(a.st, a.st.R(err))}}})
				continue
			}
			outs = append(outs, cw.reply(a.st, c)...)
		}
	}
	return outs
}

func (cw *connWorld) message(st *State, t types.Type, name string) (*Iface, Value) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		st.note("message of unknown shape")
		return &Iface{typ: t, v: cw.ip.fresh(name, t)}, nil
	}
	s := &Struct{typ: t}
	var meta Value
	for i := 0; i < u.NumFields(); i++ {
		v := cw.ip.fresh(name, u.Field(i).Type())
		meta = v
		s.f = append(s.f, v)
	}
	return &Iface{typ: t, v: s}, meta
}

// reply lets the server answer
func (cw *connWorld) reply(st *State, c *Call) []Outcome {
	ip := cw.ip
	ip.nondet++
	var outs []Outcome
	add := func(s *State, v Value, what string) {
		s.event(c.pos, "receives %s", what)
		outs = append(outs, Outcome{st: s, ret: &Tuple{[]Value{v, Nil{}}}})
	}
	q := gs(st, "q")
	{ // undecodable
		s := st.clone()
		cw.fault(s, "decode")
		s.setG("taint", Bool(true))
		s.event(c.pos, "the reply can not be decoded")
		outs = append(outs, Outcome{st: s, ret: &Tuple{[]Value{Nil{}, ip.newErr(s, "net decode error")}}})
	}
	unexpected := func(t types.Type, what string) {
		s := st.clone()
		cw.fault(s, "unexpected reply")
		s.setG("taint", Bool(true))
		if len(q) > 0 {
			setS(s, "q", q[1:])
		}
		if t == nil {
			add(s, &Iface{typ: tInt64, v: ip.fresh("stray", tInt64)}, "a value that is no message")
			return
		}
		m, _ := cw.message(s, t, "stray")
		add(s, m, "an unexpected "+what)
	}
	if q == "" || flag(st, "taint") {
		// nothing is owed or what comes is the reply to something else
		s := st.clone()
		cw.decide("C08", triOf(q != "" || cw.op == ""), s, "receive without a request", c.pos, "waits for a reply although every request was answered")
		unexpected(cw.succ, "success")
		unexpected(nil, "")
		return outs
	}
	k := q[:1]
	pop := func(s *State) { setS(s, "q", q[1:]) }
	failure := func() {
		s := st.clone()
		cw.fault(s, "failure")
		pop(s)
		s.setG("failed", Bool(true))
		if gs(s, "tx") == "open" {
			setS(s, "tx", "none")
		}
		m, meta := cw.message(s, cw.fail, "failure")
		if _, isNil := orNil(s.g("sfail")).(Nil); isNil && meta != nil {
			s.setG("sfail", meta)
		}
		add(s, m, "FAILURE for "+kinds[k])
	}
	success := func(then func(s *State)) {
		s := st.clone()
		pop(s)
		m, meta := cw.message(s, cw.succ, "meta of "+kinds[k])
		s.setG("lastmeta", orNil(meta))
		s.setG("lastok", Str(k))
		if then != nil {
			then(s)
		}
		add(s, m, "SUCCESS for "+kinds[k])
	}
	if flag(st, "failed") && k != "X" {
		s := st.clone()
		pop(s)
		m, _ := cw.message(s, cw.ign, "ignored")
		add(s, m, "IGNORED for "+kinds[k])
		unexpected(cw.fail, "failure")
		unexpected(nil, "")
		return outs
	}
	switch k {
	case "X":
		success(func(s *State) { s.setG("failed", Bool(false)); setS(s, "tx", "none") })
		s := st.clone()
		pop(s)
		s.setG("taint", Bool(true))
		cw.fault(s, "failure")
		m, _ := cw.message(s, cw.fail, "failure")
		add(s, m, "FAILURE for RESET")
		unexpected(nil, "")
		return outs
	case "P", "D":
		success(func(s *State) {
			setS(s, "did", gs(s, "did")+"p")
		})
		s := st.clone()
		n := lg(s, "nrec")
		if u, ok := cw.rec.Underlying().(*types.Struct); ok && u.NumFields() == 1 {
			s.setG("nrec", s.rlin(addLin(n, num(1))))
			f := mkApp("recfields", u.Field(0).Type(), n)
			add(s, &Iface{typ: cw.rec, v: &Struct{typ: cw.rec, f: []Value{wrapTyp(f)}}}, "a record")
		} else {
			s.note("record of unknown shape")
		}
		failure()
		unexpected(cw.ign, "ignored")
		unexpected(nil, "")
		return outs
	}
	success(func(s *State) {
		switch k {
		case "B", "b":
			setS(s, "tx", "open")
			s.setG("own", Nil{})
			setS(s, "did", gs(s, "did")+"b")
		case "C", "c":
			setS(s, "tx", "none")
			setS(s, "did", gs(s, "did")+"c")
		case "Z", "z":
			setS(s, "tx", "none")
			setS(s, "did", gs(s, "did")+"z")
		case "I":
			setS(s, "did", gs(s, "did")+"i")
		case "R":
			setS(s, "did", gs(s, "did")+"r")
		}
	})
	failure()
	unexpected(cw.rec, "record")
	unexpected(cw.ign, "ignored")
	unexpected(nil, "")
	return outs
}

var _ = sort.Strings
