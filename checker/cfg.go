package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The configuration world: a client is made with options, its driver opens a connection against a network
// where everything succeeds, and every setting is followed to the place where it has to arrive.

func init() {
	checks["C15"] = checkCfg("C15", "every combination of TLS settings, given by option or by connection string, is interpreted symbolically up to the dial for direct, pooled and routed drivers: TLS is used, the certificates are verified unless that was disabled, the files given are the ones loaded and used, and not being able to load one fails the connection",
		"File names, host, port and credentials are unknown strings of any content.")
	checks["C16"] = checkCfg("C16", "the address dialed and the credentials sent are compared with what the caller supplied, for direct, pooled and routed drivers, by option and by connection string; configurations that are invalid never reach a dial",
		"Strings are templates of constants and unknown parts; every escaping and unescaping function is modelled on them, so an unknown part arrives unchanged or not.")
	checks["C24"] = checkCfg("C24", "each option is passed an unknown value that is followed to the dial, the deadlines, the encoder, the handshake or the messages sent; conflicting and out-of-range settings never reach a dial",
		"One obligation per option, kind of driver and path.")
}

type cfgWorld struct {
	*connWorld
	tx *texts
	sc *scenario
	// what a scenario does on every run
	opened, tried int
	arrived       map[string]bool
}

// scenario is one configuration
type scenario struct {
	name string
	kind string // direct, pooled, routed
	opts []func(st *State) Value
	// what has to arrive
	host, port, user, pw Value
	tls, nv              bool
	ca, cert, key        Value
	timeout              Value // nil when not set
	track                map[string]Value
	refuse               string          // reason why nothing may be dialed
	fails                string          // reason why no connection may be returned
	allowed              func(v int) tri // protocol versions
	versions             bool            // the server picks any version on offer
	when                 func(st *State) tri
	assume               []func(st *State)
	op                   string
}

func checkCfg(id, rule, explain string) func(c *Ctx) {
	return func(c *Ctx) {
		c.rule, c.explain = rule, explain
		cf := newCfgWorld(c)
		if !cf.ok() {
			c.decide(unknown, "messages", 0, nil, "the replies of the server are not recognised")
			return
		}
		for _, s := range cf.scenarios() {
			if skipRun(s.kind + " " + s.name) {
				continue
			}
			cf.run(s)
		}
		c.covered(cf.ip)
	}
}

func newCfgWorld(c *Ctx) *cfgWorld {
	cf := &cfgWorld{connWorld: newConnWorld(c)}
	ip := cf.ip
	ip.lockHook, ip.onObl, ip.access, ip.changed = nil, nil, nil, nil
	cf.tx = &texts{ip: ip, cls: map[string]cset{}}
	cf.tx.urlHooks()
	cf.calm()
	ip.goHook = func(ip *Interp, st *State, c *Call) {}
	return cf
}

func (cf *cfgWorld) say(prop string, t tri, st *State, key string, pos token.Pos, format string, a ...interface{}) {
	if cf.c.id != prop {
		return
	}
	if t == no && len(st.notes) > 0 {
		t = unknown
	}
	s := cf.sc
	cf.c.decide(t, s.op+": "+key, pos, func() []string { return trace(cf.c.p, st, 40) }, "%s, %s driver: %s", s.name, s.kind, fmt.Sprintf(format, a...))
}

// see notes which symbols arrive somewhere
func (cf *cfgWorld) see(st *State, vs ...Value) {
	for _, v := range vs {
		if v == nil {
			continue
		}
		for n, s := range cf.sc.track {
			if contains(st.R(v), func(x Value) bool { return same(x, s) || same(st.R(x), st.R(s)) }) {
				st.setG("seen:"+n, Bool(true))
			}
		}
	}
}

// calm makes the network do what it is asked
func (cf *cfgWorld) calm() {
	ip := cf.ip
	p := cf.c.p
	set := func(names []string, h Hook) {
		for _, n := range names {
			ip.hooks[n] = h
		}
	}
	enc, dec := p.mod+"/encoding.IEncoder", p.mod+"/encoding.IDecoder"
	set(cf.implNames(enc, "Encode"), cf.encode)
	set(cf.implNames(dec, "Decode"), cf.decode)
	set(cf.implNames(p.mod+"/protocol.IBoltProtocol", "NewEncoder"), func(ip *Interp, st *State, c *Call) []Outcome {
		if n := len(c.args); n > 1 {
			cf.see(st, c.args[n-1])
		}
		return nil
	})
	ic := p.mod + "/connection.IConnection"
	set(cf.implNames(ic, "ValidateOpen"), func(ip *Interp, st *State, c *Call) []Outcome { return one(st, Bool(true)) })
	for _, q := range []string{"Query", "QueryWithDb"} {
		set(cf.implNames(ic, q), cf.overview)
	}
	conns := []string{"(net.Conn).", "(*crypto/tls.Conn).", "(*net.TCPConn)."}
	meth := func(m string, h Hook) {
		for _, c := range conns {
			ip.hooks[c+m] = h
		}
	}
	good := func(ip *Interp, st *State, c *Call) []Outcome { return []Outcome{{st: st, ret: Nil{}}} }
	meth("Write", cf.write)
	meth("Read", cf.read)
	ip.hooks["(io.Writer).Write"] = cf.write
	ip.hooks["(io.Reader).Read"] = cf.read
	meth("Close", good)
	meth("Handshake", good)
	for _, m := range []string{"SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
		meth(m, func(ip *Interp, st *State, c *Call) []Outcome {
			cf.see(st, c.args[1])
			return []Outcome{{st: st, ret: Nil{}}}
		})
	}
	arg := func(i int) func(st *State, c *Call) Value {
		return func(st *State, c *Call) Value { return st.R(c.args[i]) }
	}
	none := func(st *State, c *Call) Value { return nil }
	dialer := func(st *State, c *Call) Value {
		t := ip.p.extType("net", "Dialer")
		d := ip.deref(st, c.args[0], types.NewPointer(t))
		if t == nil || d == nil {
			return nil
		}
		return st.R(orNil(fieldNamed(ip.expand(st.R(ip.load(st, d, t)), t), t, "Timeout")))
	}
	ip.hooks["net.DialTimeout"] = cf.dial(1, -1, arg(2))
	ip.hooks["net.Dial"] = cf.dial(1, -1, none)
	ip.hooks["(*net.Dialer).Dial"] = cf.dial(2, -1, dialer)
	ip.hooks["(*net.Dialer).DialContext"] = cf.dial(3, -1, dialer)
	ip.hooks["crypto/tls.Dial"] = cf.dial(1, 2, none)
	ip.hooks["crypto/tls.DialWithDialer"] = cf.dial(2, 3, dialer)
	ip.hooks["crypto/tls.Client"] = func(ip *Interp, st *State, c *Call) []Outcome {
		cf.tlsConfig(st, c.args[1], c.pos, true)
		s := nonNil(st, ip.fresh("tls socket", c.res.At(0).Type()))
		setS(st, "sock:"+s.Key(), "tls")
		return one(st, s)
	}
	ip.hooks["(*crypto/tls.Config).Clone"] = func(ip *Interp, st *State, c *Call) []Outcome {
		t := p.extType("crypto/tls", "Config")
		d := ip.deref(st, c.args[0], types.NewPointer(t))
		if d == nil {
			return one(st, Nil{})
		}
		return one(st, ip.newObj(st, t, st.R(ip.load(st, d, t))))
	}
	loads := func(op string) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			var vs []Value
			for _, a := range c.args {
				a = st.R(a)
				if _, isSl := a.(*Slice); isSl {
					a = ip.bytesOf(st, a)
				}
				vs = append(vs, a)
			}
			v := wrapTyp(mkApp(op, c.res.At(0).Type(), vs...))
			ok, bad := branch(st, mkApp("loads", tBool, v))
			var outs []Outcome
			if ok != nil {
				outs = append(outs, multi(ok, nonNil(ok, v), Nil{})...)
			}
			if bad != nil {
				bad.event(c.pos, "%s fails for %s", c.name, short(v.Key()))
				bad.setG("loadfail", Str(c.name))
				outs = append(outs, multi(bad, ip.zero(c.res.At(0).Type()), ip.newErr(bad, "net file error"))...)
			}
			return outs
		}
	}
	ip.hooks["io/ioutil.ReadFile"] = loads("file")
	ip.hooks["os.ReadFile"] = loads("file")
	ip.hooks["crypto/tls.LoadX509KeyPair"] = loads("keypair")
	ip.hooks["crypto/tls.X509KeyPair"] = loads("keypair")
	pool := p.extType("crypto/x509", "CertPool")
	if pool != nil {
		ip.hooks["crypto/x509.NewCertPool"] = func(ip *Interp, st *State, c *Call) []Outcome {
			return one(st, ip.newObj(st, pool, &Ext{kind: "certpool"}))
		}
		ip.hooks["crypto/x509.SystemCertPool"] = func(ip *Interp, st *State, c *Call) []Outcome {
			return multi(st, ip.newObj(st, pool, &Ext{kind: "certpool", vs: []Value{Str("system")}}), Nil{})
		}
		ip.hooks["(*crypto/x509.CertPool).AppendCertsFromPEM"] = func(ip *Interp, st *State, c *Call) []Outcome {
			d := ip.deref(st, c.args[0], types.NewPointer(pool))
			if d == nil {
				return nil
			}
			e, _ := st.R(ip.load(st, d, pool)).(*Ext)
			if e == nil {
				return nil
			}
			b := Value(ip.bytesOf(st, c.args[1]))
			if q := st.normSeq(b.(*SeqV)); len(q.segs) == 1 && q.segs[0].kind == 'r' && st.proveEQ(q.segs[0].n, lenOf(q.segs[0].v)) {
				b = q.segs[0].v
			}
			ok, bad := branch(st, mkApp("pem", tBool, b))
			var outs []Outcome
			if ok != nil {
				ip.store(ok, d, &Ext{kind: "certpool", vs: append(append([]Value{}, e.vs...), b)})
				outs = append(outs, one(ok, Bool(true))...)
			}
			if bad != nil {
				bad.event(c.pos, "the CA file has no certificates")
				bad.setG("loadfail", Str("no certificates in the CA file"))
				outs = append(outs, one(bad, Bool(false))...)
			}
			return outs
		}
	}
	// the pool library makes a new object for whoever borrows first
	cf.poolLib()
}

// poolLib models the object pool library: an empty pool
func (cf *cfgWorld) poolLib() {
	ip := cf.ip
	p := cf.c.p
	const lib = "github.com/jolestar/go-commons-pool"
	opT, poT := p.extType(lib, "ObjectPool"), p.extType(lib, "PooledObject")
	fT := p.extType(lib, "PooledObjectFactory")
	if opT == nil || poT == nil || fT == nil {
		return
	}
	mk := func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, ip.newObj(st, opT, &Ext{kind: "objpool", vs: []Value{st.R(c.args[1])}}))
	}
	ip.hooks[lib+".NewObjectPool"] = mk
	ip.hooks[lib+".NewObjectPoolWithDefaultConfig"] = mk
	ip.hooks[lib+".NewPooledObject"] = func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, ip.newObj(st, poT, cf.tx.structOf(poT, map[string]Value{"Object": st.R(c.args[0])})))
	}
	ip.hooks["(*"+lib+".ObjectPool).BorrowObject"] = func(ip *Interp, st *State, c *Call) []Outcome {
		d := ip.deref(st, c.args[0], types.NewPointer(opT))
		if d == nil {
			return nil
		}
		e, _ := st.R(ip.load(st, d, opT)).(*Ext)
		if e == nil {
			return nil
		}
		var outs []Outcome
		for _, o := range ip.callMethod(st, e.vs[0], fT, "MakeObject", []Value{c.args[1]}, c) {
			if o.pan != nil {
				outs = append(outs, o)
				continue
			}
			vs := tupleOf(o)
			for _, a := range splitNil(o.st, o.st.R(vs[1])) {
				if !a.isNil {
					outs = append(outs, multi(a.st, Nil{}, a.st.R(vs[1]))...)
					continue
				}
				d := ip.deref(a.st, vs[0], types.NewPointer(poT))
				if d == nil {
					continue
				}
				obj := a.st.R(orNil(fieldNamed(ip.expand(a.st.R(ip.load(a.st, d, poT)), poT), poT, "Object")))
				outs = append(outs, multi(a.st, obj, Nil{})...)
			}
		}
		return outs
	}
}

// address decides whether an address is one that may be dialed
func (cf *cfgWorld) address(st *State, a Value) tri {
	s := cf.sc
	if s.host == nil {
		return unknown
	}
	t := cf.tx.compare(st, a, hostPort(s.host, s.port))
	if s.kind == "routed" {
		for _, m := range cf.members(st) {
			switch cf.tx.compare(st, a, m) {
			case yes:
				return yes
			case unknown:
				t = or3(t, unknown)
			}
		}
	}
	return t
}

func or3(a, b tri) tri {
	if a == yes || b == yes {
		return yes
	}
	if a == unknown || b == unknown {
		return unknown
	}
	return no
}

func hostPort(h, p Value) Value {
	l := asLin(p)
	if l == nil {
		return h
	}
	if l.isConst() {
		return mkCat(h, Str(":"), Str(l.c.String()))
	}
	return mkCat(h, Str(":"), mkApp("itoa", tString, l))
}

func (cf *cfgWorld) members(st *State) []Value {
	var out []Value
	for _, r := range memberRoles {
		out = append(out, hostPort(st.g("member.host."+r), st.g("member.port."+r)))
	}
	return out
}

var memberRoles = []string{"LEADER", "FOLLOWER", "READ_REPLICA"}

func (cf *cfgWorld) dial(addr, conf int, tmo func(st *State, c *Call) Value) Hook {
	return func(ip *Interp, st *State, c *Call) []Outcome {
		s := cf.sc
		a, t := st.R(c.args[addr]), tmo(st, c)
		st.event(c.pos, "dials %s", short(a.Key()))
		st.setG("dials", addLin(lg(st, "dials"), num(1)))
		for _, p := range []string{"C16", "C24"} {
			if s.refuse != "" {
				ok := no
				if s.when != nil {
					ok = s.when(st)
				}
				cf.say(p, ok, st, "dialed", c.pos, "a connection is attempted although %s", s.refuse)
			}
		}
		if s.refuse == "" {
			cf.say("C16", cf.address(st, a), st, "address", c.pos, "dials %s, which is not the host and port configured", short(a.Key()))
		}
		cf.see(st, a)
		for _, m := range cf.members(st) {
			if s.kind == "routed" && s.track["routing"] != nil && cf.tx.compare(st, a, m) == yes {
				st.setG("seen:routing", Bool(true))
			}
		}
		if t != nil {
			cf.see(st, t)
			if s.timeout != nil {
				r := decideEQ(st, asLin(t), asLin(s.timeout))
				cf.say("C24", r, st, "timeout", c.pos, "the timeout of the connection is %s instead of the one configured", t.Key())
			}
		}
		isTLS := conf >= 0
		if isTLS {
			cf.tlsConfig(st, c.args[conf], c.pos, false)
		}
		sock := nonNil(st, ip.fresh("socket", c.res.At(0).Type()))
		setS(st, "sock:"+sock.Key(), map[bool]string{true: "tls", false: "plain"}[isTLS])
		st.setG("hs.sent", mkSeq(tByte))
		setS(st, "stage", "hs")
		return multi(st, sock, Nil{})
	}
}

// tlsConfig judges the configuration of a TLS connection
func (cf *cfgWorld) tlsConfig(st *State, v Value, pos token.Pos, bare bool) {
	ip, s := cf.ip, cf.sc
	t := cf.c.p.extType("crypto/tls", "Config")
	if t == nil || s.refuse != "" {
		return
	}
	say := func(r tri, key, format string, a ...interface{}) { cf.say("C15", r, st, key, pos, format, a...) }
	d := ip.deref(st, v, types.NewPointer(t))
	get := func(n string) Value { return Nil{} }
	if d != nil {
		conf := ip.expand(st.R(ip.load(st, d, t)), t)
		get = func(n string) Value { return st.R(orNil(fieldNamed(conf, t, n))) }
		cf.see(st, get("ServerName"))
	} else {
		z := ip.zero(t)
		get = func(n string) Value { return st.R(orNil(fieldNamed(z, t, n))) }
	}
	_, noPeer := get("VerifyPeerCertificate").(Nil)
	_, noConn := get("VerifyConnection").(Nil)
	insecure := st.truth(get("InsecureSkipVerify"))
	if !s.nv {
		r := not(insecure)
		if r == no && !(noPeer && noConn) {
			r = unknown
		}
		say(r, "verification disabled", "the certificate of the server is not verified although that was not disabled")
	} else {
		cf.say("C24", insecure, st, "verification not disabled", pos, "the certificate of the server is verified although that was disabled")
	}
	// authorities
	root := get("RootCAs")
	if _, isNil := root.(Nil); isNil || st.truth(st.isNil(root)) == yes {
		say(triOf(s.ca == nil), "CA file not used", "the CA file configured is not used")
	} else if p := ip.deref(st, root, types.NewPointer(cf.c.p.extType("crypto/x509", "CertPool"))); p != nil {
		e, ok := st.R(ip.load(st, p, nil)).(*Ext)
		switch {
		case !ok:
			say(unknown, "CA file", "unknown certificates are trusted")
		case s.ca == nil:
			r := yes
			for _, x := range e.vs {
				if !same(x, Str("system")) {
					r = no
				}
			}
			say(and3(r, triOf(len(e.vs) > 0)), "CA not configured", "other certificates than those of the system are trusted although no CA file is configured")
		default:
			r, extra := no, no
			cf.see(st, e.vs...)
			for _, x := range e.vs {
				a, isFile := x.(*App)
				if isFile && a.op == "file" {
					k := cf.tx.compare(st, a.args[0], s.ca)
					r = or3(r, k)
					if k != yes {
						extra = or3(extra, not(k))
					}
				} else if same(x, Str("system")) {
					extra = yes
				} else {
					r, extra = or3(r, unknown), or3(extra, unknown)
				}
			}
			if len(e.vs) == 0 && gs(st, "loadfail") != "" {
				r = unknown // judged at the end
			}
			say(r, "CA file not used", "the certificates trusted are not those of the CA file configured")
			say(not(extra), "more than the CA file trusted", "other certificates are trusted than those of the CA file configured")
		}
	}
	// client certificate
	certs := ip.slice(st, get("Certificates"), types.NewSlice(tAny))
	n := num(0)
	if certs != nil {
		n = certs.len
	}
	if s.cert == nil && s.key == nil {
		say(decideEQ(st, n, num(0)), "certificate without being configured", "a client certificate is used although none is configured")
	} else if s.cert != nil && s.key != nil {
		_, noGet := get("GetClientCertificate").(Nil)
		switch r := decideEQ(st, n, num(0)); {
		case r == yes && noGet:
			say(no, "client certificate not used", "the client certificate configured is not used")
		case r == no && certs != nil:
			x := st.R(st.seqGet(ip.seqOf(st, certs), num(0), nil))
			cf.see(st, x)
			a, ok := x.(*App)
			if !ok || a.op != "keypair" {
				say(unknown, "client certificate", "unknown certificate")
				break
			}
			say(and3(cf.fromFile(st, a.args[0], s.cert), cf.fromFile(st, a.args[1], s.key)), "other client certificate", "the client certificate is made of %s and %s instead of the files configured", short(a.args[0].Key()), short(a.args[1].Key()))
		default:
			say(unknown, "client certificate", "unknown certificates")
		}
	}
	// protocol versions and names
	version := func(name string, min int64) tri {
		l := asLin(get(name))
		if l == nil {
			return unknown
		}
		if z := decideEQ(st, l, num(0)); z == yes {
			return yes
		}
		return decideLE(st, num(min), l)
	}
	say(version("MaxVersion", 0x303), "TLS version", "the TLS version is limited to %s", get("MaxVersion").Key())
	say(version("MinVersion", 0x301), "TLS version", "TLS version %s is accepted", get("MinVersion").Key())
	if n, ok := get("ServerName").(Str); !ok || n != "" {
		r := cf.tx.compare(st, get("ServerName"), s.host)
		if s.kind == "routed" {
			for _, m := range memberRoles {
				r = or3(r, cf.tx.compare(st, get("ServerName"), st.g("member.host."+m)))
			}
		}
		say(r, "server name", "the certificate is verified for %s instead of the host configured", short(get("ServerName").Key()))
	}
}

// fromFile tells whether a key or certificate is that of a file
func (cf *cfgWorld) fromFile(st *State, v, name Value) tri {
	if q, ok := v.(*SeqV); ok {
		q = st.normSeq(q)
		if len(q.segs) == 1 && q.segs[0].kind == 'r' {
			v = q.segs[0].v
		}
	}
	if a, ok := v.(*App); ok && a.op == "file" {
		v = a.args[0]
	}
	return cf.tx.compare(st, v, name)
}

func (cf *cfgWorld) socketKind(st *State, v Value) string {
	v = st.R(v)
	if i, ok := v.(*Iface); ok {
		v = st.R(i.v)
	}
	return gs(st, "sock:"+v.Key())
}

func (cf *cfgWorld) plainText(st *State, k string, pos token.Pos) {
	if cf.sc.tls {
		cf.say("C15", triOf(k == "tls"), st, "plain text", pos, "the connection is used without TLS although TLS was requested")
	}
}

func (cf *cfgWorld) write(ip *Interp, st *State, c *Call) []Outcome {
	k := cf.socketKind(st, c.args[0])
	if k == "" {
		return nil
	}
	cf.plainText(st, k, c.pos)
	q := st.normSeq(ip.bytesOf(st, c.args[1]))
	if s, ok := st.R(orNil(st.g("hs.sent"))).(*SeqV); ok && gs(st, "stage") == "hs" {
		st.setG("hs.sent", st.concat(s, q))
		cf.see(st, q)
	}
	return multi(st, st.rlin(q.length()), Nil{})
}

func (cf *cfgWorld) read(ip *Interp, st *State, c *Call) []Outcome {
	k := cf.socketKind(st, c.args[0])
	if k == "" {
		return nil
	}
	cf.plainText(st, k, c.pos)
	sl, ok := st.R(c.args[1]).(*Slice)
	if !ok || gs(st, "stage") != "hs" || !sl.len.isConst() || sl.len.int() != 4 {
		st.note("read outside of the handshake")
		return multi(st, num(0), ip.newErr(st, "net read error"))
	}
	setS(st, "stage", "msg")
	// the server takes one of the versions on offer
	var offers []int64
	if q, ok := st.R(orNil(st.g("hs.sent"))).(*SeqV); ok {
		q = st.normSeq(q)
		for i := int64(7); i < 20; i += 4 {
			if l := asLin(st.R(st.seqGet(q, num(i), tByte))); l != nil && l.isConst() && l.int() > 0 {
				offers = append(offers, int64(l.int()))
			}
		}
	}
	if len(offers) == 0 {
		st.note("no versions on offer")
		offers = []int64{4}
	}
	st.setG("offers", num(int64(len(offers))))
	if !cf.sc.versions {
		offers = offers[:1]
	} else if l, ok := st.g("version").(*Lin); ok && l.isConst() {
		// the members of a cluster run the same version
		for _, v := range offers {
			if v == int64(l.int()) {
				offers = []int64{v}
				break
			}
		}
	}
	var outs []Outcome
	for i, v := range offers {
		s := st
		if i < len(offers)-1 {
			s = st.clone()
		}
		s.setG("version", num(v))
		s.event(c.pos, "the server selects version %d", v)
		ip.overwrite(s, sl, num(0), mkSeq(tByte, item(num(0)), item(num(0)), item(num(0)), item(num(v))), num(4))
		outs = append(outs, multi(s, num(4), Nil{})...)
	}
	return outs
}

// encode sees every message sent
func (cf *cfgWorld) encode(ip *Interp, st *State, c *Call) []Outcome {
	s := cf.sc
	m, ok := st.R(c.args[1]).(*Iface)
	if !ok {
		st.note("unknown message")
		return []Outcome{{st: st, ret: Nil{}}}
	}
	if wr := cf.endpoint(st, c.args[0], "Write"); wr != nil && s.tls {
		// the transport the encoder writes to
		if k := cf.transport(st, wr, 4); k != "" {
			cf.plainText(st, k, c.pos)
		}
	}
	if cf.kindOf(st, m) != "I" || s.refuse != "" {
		return []Outcome{{st: st, ret: Nil{}}}
	}
	found := map[string]Value{}
	for _, f := range cf.fields(st, m) {
		cf.see(st, f)
		i, ok := f.(*Iface)
		if !ok {
			continue
		}
		mv, ok := st.R(i.v).(*MapV)
		if !ok {
			continue
		}
		for _, e := range ip.mapC(st, mv).ovr {
			if k, ok := st.R(e.key).(Str); ok && e.val != nil {
				v := st.R(e.val)
				if x, ok := v.(*Iface); ok {
					v = st.R(x.v)
				}
				found[string(k)] = v
				cf.see(st, v)
			}
		}
	}
	for _, k := range []struct {
		key, name string
		want      Value
	}{{"principal", "user name", s.user}, {"credentials", "password", s.pw}} {
		if k.want == nil {
			continue
		}
		v := found[k.key]
		if v == nil {
			cf.say("C16", no, st, k.name+" missing", c.pos, "the connection is initialised without the %s", k.name)
			continue
		}
		cf.say("C16", cf.tx.compare(st, v, k.want), st, k.name, c.pos, "the %s sent is %s instead of the one configured", k.name, short(v.Key()))
	}
	st.setG("inits", addLin(lg(st, "inits"), num(1)))
	return []Outcome{{st: st, ret: Nil{}}}
}

// transport finds the kind of socket something writes to
func (cf *cfgWorld) transport(st *State, v Value, depth int) string {
	if depth == 0 {
		return ""
	}
	v = st.R(v)
	if i, ok := v.(*Iface); ok {
		v = st.R(i.v)
	}
	if k := gs(st, "sock:"+v.Key()); k != "" {
		return k
	}
	if p, ok := v.(*Ptr); ok && st.heap[p.obj] != nil {
		if s, ok := st.R(cf.ip.load(st, p, nil)).(*Struct); ok {
			for _, f := range s.f {
				if k := cf.transport(st, orNil(f), depth-1); k != "" {
					return k
				}
			}
		}
	}
	return ""
}

func (cf *cfgWorld) decode(ip *Interp, st *State, c *Call) []Outcome {
	m, _ := cf.message(st, cf.succ, "meta")
	return multi(st, m, Nil{})
}

// overview answers the question for the members of the cluster
func (cf *cfgWorld) overview(ip *Interp, st *State, c *Call) []Outcome {
	anys := types.NewSlice(tAny)
	str := func(v Value) Value { return &Iface{typ: tString, v: v} }
	list := func(vs ...Value) Value {
		var segs []Seg
		for _, v := range vs {
			segs = append(segs, item(v))
		}
		return ip.newSlice(st, mkSeq(tAny, segs...), anys)
	}
	ilist := func(vs ...Value) Value { return &Iface{typ: anys, v: list(vs...)} }
	v4 := true
	if l := asLin(st.R(orNil(st.g("version")))); l != nil && l.isConst() {
		v4 = l.int() >= 4
	}
	var rows []Seg
	for i, r := range memberRoles {
		h, p := st.g("member.host."+r), st.g("member.port."+r)
		bolt := str(mkCat(Str("bolt://"), hostPort(h, p)))
		web := str(mkCat(Str("http://"), h, Str(":7474")))
		addrs := ilist(bolt, web)
		if i == 1 {
			addrs = ilist(web, bolt)
		}
		id := str(ip.fresh("member id", tString))
		if v4 {
			mt := types.NewMap(tString, tAny)
			dbs := &MapV{obj: ip.alloc(st, mt, &MapC{ovr: []mapEnt{{key: Str("neo4j"), val: str(Str("FOLLOWER"))}, {key: Str("system"), val: str(Str(r))}}}, "databases")}
			rows = append(rows, item(list(id, addrs, &Iface{typ: mt, v: dbs}, ilist())))
		} else {
			rows = append(rows, item(list(id, addrs, str(Str(r)), ilist(), str(Str("neo4j")))))
		}
	}
	q := ip.newSlice(st, mkSeq(anys, rows...), types.NewSlice(anys))
	return multi(st, q, Nil{}, Nil{})
}

// ---- running a scenario

type optRun struct {
	st *State
	v  Value
}

func (cf *cfgWorld) run(s *scenario) {
	cf.sc = s
	cf.op = s.op
	ip := cf.ip
	cf.budget()
	progress("%s %s", s.kind, s.name)
	st := cf.w.st.clone()
	st.trace = nil
	st.setG("dials", num(0))
	st.setG("inits", num(0))
	setS(st, "stage", "")
	for _, r := range memberRoles {
		h, p := cf.hostSym(st, "host of "+strings.ToLower(r)), cf.portSym(st)
		st.setG("member.host."+r, h)
		st.setG("member.port."+r, p)
	}
	for _, f := range s.assume {
		f(st)
	}
	optT := cf.c.p.typ("", "Opt")
	newClient := cf.c.p.fn("", "NewClient")
	if optT == nil || newClient == nil {
		cf.c.decide(unknown, "client", 0, nil, "no client")
		return
	}
	for n := range s.track {
		st.setG("seen:"+n, Bool(false))
	}
	// the symbols of the scenario are restricted by its options
	var segs []Seg
	for _, o := range s.opts {
		v := o(st)
		if v == nil {
			cf.c.decide(unknown, s.name, 0, nil, "no such option")
			return
		}
		segs = append(segs, item(v))
	}
	cf.c.counts["configurations"]++
	okRuns, seen := 0, map[string]bool{}
	ends := func(st *State, fn *ssa.Function, err Value) {
		// refused
		cf.c.counts["paths"]++
		if s.refuse != "" || s.fails != "" {
			for _, p := range []string{"C15", "C16", "C24"} {
				cf.say(p, yes, st, "refused", fn.Pos(), "")
			}
			return
		}
		if gs(st, "loadfail") == "" && st.truth(orBool(s.when, st)) != no {
			cf.say("C16", no, st, "valid configuration refused", fn.Pos(), "fails with %s although nothing went wrong", short(err.Key()))
		}
	}
	done := func(st *State, fn *ssa.Function) {
		cf.c.counts["paths"]++
		okRuns++
		if s.refuse != "" || s.fails != "" {
			r := no
			if s.when != nil {
				r = s.when(st)
			}
			why := s.refuse + s.fails
			for _, p := range []string{"C15", "C16", "C24"} {
				if p == "C15" && s.fails == "" || p == "C24" && s.refuse == "" {
					continue
				}
				cf.say(p, r, st, "not refused", fn.Pos(), "a connection is returned although %s", why)
			}
			return
		}
		if f := gs(st, "loadfail"); f != "" {
			cf.say("C15", no, st, "load failure ignored", fn.Pos(), "a connection is returned although %s failed", f)
		} else {
			cf.say("C15", yes, st, "loaded", fn.Pos(), "")
		}
		if l := lg(st, "inits"); l != nil {
			cf.say("C16", decideLE(st, num(1), l), st, "not initialised", fn.Pos(), "a connection is returned without the credentials having been sent")
		}
		if s.allowed != nil {
			if l := asLin(st.R(orNil(st.g("version")))); l != nil && l.isConst() {
				cf.say("C24", s.allowed(l.int()), st, "protocol version", fn.Pos(), "a connection with protocol version %d is returned", l.int())
			}
		}
		if l := asLin(st.R(orNil(st.g("offers")))); l != nil && s.track["negotiation"] != nil && l.isConst() && l.int() > 1 {
			st.setG("seen:negotiation", Bool(true))
		}
		for n := range s.track {
			if flag(st, "seen:"+n) {
				seen[n] = true
			}
		}
	}
	panics := func(o Outcome, fn *ssa.Function) bool {
		if o.pan == nil {
			return false
		}
		cf.say("C16", no, o.st, "panic", fn.Pos(), "panics: %s", o.pan.Key())
		return true
	}
	opts := ip.newSlice(st, mkSeq(optT, segs...), types.NewSlice(optT))
	cf.c.guarded(func() {
		for _, o := range cf.w.call(st, newClient, opts) {
			if panics(o, newClient) {
				continue
			}
			vs := tupleOf(o)
			for _, a := range splitNil(o.st, o.st.R(vs[1])) {
				if !a.isNil {
					ends(a.st, newClient, a.st.R(vs[1]))
					continue
				}
				cf.open(a.st, a.st.R(vs[0]), panics, ends, done)
			}
		}
	})
	if s.refuse != "" || s.fails != "" {
		return
	}
	cf.sc = s
	for n := range s.track {
		if cf.c.id != "C24" {
			break
		}
		r := triOf(seen[n])
		if okRuns == 0 {
			r = unknown
		}
		cf.c.decide(r, s.op+": "+n+" has no effect", newClient.Pos(), nil, "%s, %s driver: the %s given never reaches the connection", s.name, s.kind, n)
	}
	if okRuns == 0 {
		cf.c.decide(unknown, s.op+": no connection", 0, nil, "%s, %s driver: no connection is ever opened", s.name, s.kind)
	}
}

func orBool(f func(st *State) tri, st *State) Value {
	if f == nil {
		return Bool(true)
	}
	switch f(st) {
	case yes:
		return Bool(true)
	case no:
		return Bool(false)
	}
	return mkApp("unknown", tBool)
}

func (cf *cfgWorld) open(st *State, client Value, panics func(Outcome, *ssa.Function) bool, ends func(*State, *ssa.Function, Value), done func(*State, *ssa.Function)) {
	call := func(st *State, recv Value, name string, f func(st *State, fn *ssa.Function, v Value), args ...Value) {
		i, ok := st.R(recv).(*Iface)
		if !ok {
			cf.c.undecided["no receiver for "+name]++
			return
		}
		fn := cf.c.p.method(i.typ, name)
		if fn == nil {
			cf.c.undecided["no method "+name]++
			return
		}
		for _, o := range cf.w.call(st, fn, append([]Value{st.R(i.v)}, args...)...) {
			if panics(o, fn) {
				continue
			}
			vs := tupleOf(o)
			for _, a := range splitNil(o.st, o.st.R(vs[1])) {
				if !a.isNil {
					ends(a.st, fn, a.st.R(vs[1]))
					continue
				}
				f(a.st, fn, a.st.R(vs[0]))
			}
		}
	}
	opened := func(st *State, fn *ssa.Function, v Value) { done(st, fn) }
	if cf.sc.kind == "direct" {
		call(st, client, "NewDriver", func(st *State, fn *ssa.Function, d Value) {
			call(st, d, "Open", opened, num(0))
		})
		return
	}
	call(st, client, "NewDriverPool", func(st *State, fn *ssa.Function, d Value) {
		if cf.sc.kind == "pooled" {
			call(st, d, "Open", opened, num(0))
			return
		}
		call(st.clone(), d, "Open", opened, num(0))
		call(st, d, "Open", opened, num(1))
	}, num(2))
}

// ---- what callers can supply

func (cf *cfgWorld) hostSym(st *State, name string) Value {
	v := cf.ip.fresh(name, tString)
	cf.tx.cls[v.Key()] = hostChars
	if st != nil {
		st.assume(mkEq(v, Str("")), false)
	}
	return v
}

func (cf *cfgWorld) portSym(st *State) Value {
	v := cf.ip.fresh("port", tInt)
	if st != nil {
		st.addCon(subLin(num(1), asLin(v)))
		st.addCon(subLin(asLin(v), num(65535)))
	}
	return v
}

// option calls one of the functions that make options
func (cf *cfgWorld) option(name string, args ...Value) func(st *State) Value {
	return func(st *State) Value {
		fn := cf.c.p.fn("", name)
		if fn == nil {
			return nil
		}
		for _, o := range cf.w.call(st, fn, args...) {
			if o.pan == nil {
				*st = *o.st
				return st.R(o.ret)
			}
		}
		return nil
	}
}

// tlsSetting is a combination of TLS settings
type tlsSetting struct {
	ca, cert, key, nv bool
}

func (t tlsSetting) String() string {
	var l []string
	for _, x := range []struct {
		b bool
		n string
	}{{t.ca, "CA file"}, {t.cert, "certificate"}, {t.key, "key"}, {t.nv, "no verification"}} {
		if x.b {
			l = append(l, x.n)
		}
	}
	if len(l) == 0 {
		return "TLS"
	}
	return "TLS with " + strings.Join(l, ", ")
}

func (cf *cfgWorld) scenarios() []*scenario {
	ip, tx, p := cf.ip, cf.tx, cf.c.p
	id := cf.c.id
	var out []*scenario
	// what the caller supplies: any text
	text := func(name string, filled bool) (Value, func(st *State)) {
		v := ip.fresh(name, tString)
		return v, func(st *State) {
			if filled {
				st.assume(mkEq(v, Str("")), false)
			}
		}
	}
	base := func(kind, name, op string) *scenario {
		s := &scenario{kind: kind, name: name, op: op, track: map[string]Value{}}
		s.host, s.port = cf.hostSym(nil, "host"), cf.portSym(nil)
		h, p := s.host, s.port
		var f, g func(st *State)
		s.user, f = text("user", true)
		s.pw, g = text("password", false)
		s.assume = append(s.assume, f, g, func(st *State) {
			st.assume(mkEq(h, Str("")), false)
			st.addCon(subLin(num(1), asLin(p)))
			st.addCon(subLin(asLin(p), num(65535)))
		})
		return s
	}
	add := func(ids string, s *scenario) {
		if strings.Contains(ids, id) {
			out = append(out, s)
		}
	}
	files := func(s *scenario, t tlsSetting) (ca, cert, key Value) {
		s.tls, s.nv = true, t.nv
		mk := func(b bool, name string) Value {
			if !b {
				return Str("")
			}
			v, f := text(name, true)
			s.assume = append(s.assume, f)
			return v
		}
		ca, cert, key = mk(t.ca, "CA file"), mk(t.cert, "certificate file"), mk(t.key, "key file")
		if t.ca {
			s.ca = ca
		}
		if t.cert {
			s.cert = cert
		}
		if t.key {
			s.key = key
		}
		if t.cert != t.key {
			s.fails = "a client certificate needs both a certificate and a key file"
		}
		return
	}
	withTLS := func(s *scenario, t tlsSetting) func(st *State) Value {
		ca, cert, key := files(s, t)
		return cf.option("WithTLS", ca, cert, key, Bool(t.nv))
	}
	// connection strings
	connStr := func(s *scenario, scheme string, user bool, params ...Value) Value {
		ps := []Value{Str(scheme + "://")}
		if user {
			ps = append(ps, tx.escape(newState(), s.user, "user"), Str(":"), tx.escape(newState(), s.pw, "user"), Str("@"))
		}
		ps = append(ps, hostPort(s.host, s.port))
		for i, x := range params {
			if i == 0 {
				ps = append(ps, Str("?"))
			} else if i%2 == 0 {
				ps = append(ps, Str("&"))
			} else {
				ps = append(ps, Str("="))
				if _, ok := x.(Str); !ok {
					if a, ok := x.(*App); !ok || a.op != "itoa" {
						x = tx.escape(newState(), x, "query")
					}
				}
			}
			ps = append(ps, x)
		}
		return mkCat(ps...)
	}
	params := func(s *scenario, t tlsSetting, spelled string) []Value {
		ca, cert, key := files(s, t)
		ps := []Value{Str("tls"), Str(spelled)}
		if t.ca {
			ps = append(ps, Str("tls_ca_cert_file"), ca)
		}
		if t.cert {
			ps = append(ps, Str("tls_cert_file"), cert)
		}
		if t.key {
			ps = append(ps, Str("tls_key_file"), key)
		}
		if t.nv {
			ps = append(ps, Str("tls_no_verify"), Str(spelled))
		}
		return ps
	}
	var tlsSettings []tlsSetting
	for i := 0; i < 16; i++ {
		tlsSettings = append(tlsSettings, tlsSetting{i&1 != 0, i&2 != 0, i&4 != 0, i&8 != 0})
	}
	plain := func(s *scenario, more ...func(st *State) Value) {
		s.opts = append(s.opts, cf.option("WithHostPort", s.host, s.port), cf.option("WithBasicAuth", s.user, s.pw))
		if s.kind == "routed" {
			s.opts = append(s.opts, cf.option("WithRouting"))
		}
		s.opts = append(s.opts, more...)
	}
	scheme := func(kind string) string {
		if kind == "routed" {
			return "bolt+routing"
		}
		return "bolt"
	}
	for _, kind := range []string{"direct", "pooled", "routed"} {
		s := base(kind, "options", "options")
		s.track = map[string]Value{"host": s.host, "port": s.port, "user name": s.user, "password": s.pw}
		if kind == "routed" {
			s.track["routing"] = Bool(true)
		}
		s.versions = true
		plain(s)
		add("C16 C24", s)
		s = base(kind, "options in another order", "options")
		plain(s)
		for i, j := 0, len(s.opts)-1; i < j; i, j = i+1, j-1 {
			s.opts[i], s.opts[j] = s.opts[j], s.opts[i]
		}
		add("C16", s)
		for _, t := range tlsSettings {
			s := base(kind, "options, "+t.String(), "WithTLS")
			o := withTLS(s, t)
			plain(s, o)
			if s.ca != nil && s.fails == "" {
				s.track["CA file"] = s.ca
			}
			if s.cert != nil && s.fails == "" {
				s.track["certificate file"], s.track["key file"] = s.cert, s.key
			}
			add("C15 C16 C24", s)
			for _, sp := range []string{"true", "1", "True"} {
				if sp != "true" && t != (tlsSetting{true, true, true, false}) && t != (tlsSetting{false, false, false, true}) {
					continue
				}
				s = base(kind, "connection string, "+t.String()+" ("+sp+")", "connection string")
				s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, scheme(kind), true, params(s, t, sp)...)))
				add("C15 C16", s)
			}
			s = base(kind, "connection string and options, "+t.String(), "WithTLS and connection string")
			s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, scheme(kind), true)), withTLS(s, t))
			add("C15 C24", s)
		}
		s = base(kind, "connection string", "connection string")
		s.track = map[string]Value{"connection string": s.host}
		s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, scheme(kind), true)))
		add("C16 C24", s)
		s = base(kind, "connection string in capitals", "connection string")
		s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, strings.ToUpper(scheme(kind)), true)))
		add("C16", s)
		s = base(kind, "connection string without user", "connection string")
		s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, scheme(kind), false)))
		s.user, s.pw = Str(""), Str("")
		add("C16", s)
		s = base(kind, "connection string and basic authentication", "WithBasicAuth and connection string")
		s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, scheme(kind), false)), cf.option("WithBasicAuth", s.user, s.pw))
		s.track = map[string]Value{"user name": s.user, "password": s.pw}
		add("C16 C24", s)
		s = base(kind, "basic authentication, TLS and connection string", "WithBasicAuth, WithTLS and connection string")
		o := withTLS(s, tlsSetting{true, true, true, false})
		s.opts = append(s.opts, o, cf.option("WithBasicAuth", s.user, s.pw), cf.option("WithConnectionString", connStr(s, scheme(kind), false)))
		add("C15 C16", s)
		s = base(kind, "connection string with a timeout", "timeout parameter")
		n := ip.fresh("timeout", tInt)
		s.assume = append(s.assume, func(st *State) {
			st.addCon(subLin(num(1), asLin(n)))
			st.addCon(subLin(asLin(n), num(1<<30)))
		})
		s.timeout = mulLin(asLin(n), bi(1000000000))
		s.track = map[string]Value{"timeout": asLin(n).atom()}
		s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, scheme(kind), true, Str("timeout"), mkApp("itoa", tString, asLin(n)))))
		add("C24", s)
		s = base(kind, "connection string with a timeout and TLS", "timeout parameter")
		s.timeout = mulLin(asLin(n), bi(1000000000))
		n2 := n
		s.assume = append(s.assume, func(st *State) {
			st.addCon(subLin(num(1), asLin(n2)))
			st.addCon(subLin(asLin(n2), num(1<<30)))
		})
		ps := append([]Value{Str("timeout"), mkApp("itoa", tString, asLin(n))}, params(s, tlsSetting{true, false, false, false}, "true")...)
		s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, scheme(kind), true, ps...)))
		add("C24", s)

		// the other options
		d := ip.fresh("timeout", types.Typ[types.Int64])
		s = base(kind, "a timeout", "WithTimeout")
		s.assume = append(s.assume, func(st *State) {
			st.addCon(subLin(num(1), asLin(d)))
		})
		s.track = map[string]Value{"timeout": asLin(d).atom()}
		plain(s, cf.option("WithTimeout", d))
		add("C24", s)
		cs := ip.fresh("chunk size", types.Typ[types.Uint16])
		s = base(kind, "a chunk size", "WithChunkSize")
		s.assume = append(s.assume, func(st *State) { st.addCon(subLin(num(1), asLin(cs))) })
		s.track = map[string]Value{"chunk size": asLin(cs).atom()}
		plain(s, cf.option("WithChunkSize", cs))
		add("C24", s)
		s = base(kind, "version negotiation", "WithProtocolVersionNegotiation")
		s.track = map[string]Value{"negotiation": Bool(true)}
		plain(s, cf.option("WithProtocolVersionNegotiation"))
		add("C24", s)
		for _, x := range []struct {
			name   string
			lo, hi int
			ok     func(v, x int) bool
		}{
			{"WithProtocolVersionGreaterThan", 1, 3, func(v, x int) bool { return v > x }},
			{"WithProtocolVersionLessThan", 2, 4, func(v, x int) bool { return v < x }},
			{"WithStrictProtocolVersion", 1, 4, func(v, x int) bool { return v == x }},
		} {
			for v := x.lo; v <= x.hi; v++ {
				v, x := v, x
				s := base(kind, fmt.Sprintf("%s(%d)", x.name, v), x.name)
				s.versions = true
				s.allowed = func(got int) tri { return triOf(x.ok(got, v)) }
				plain(s, cf.option(x.name, num(int64(v))))
				add("C24", s)
			}
			if kind != "direct" {
				continue
			}
			for _, out := range []string{"below", "above"} {
				v := ip.fresh("version", tInt)
				s := base(kind, x.name+" "+out+" its range", x.name)
				lo, hi := x.lo, x.hi
				if out == "below" {
					s.assume = append(s.assume, func(st *State) { st.addCon(subLin(asLin(v), num(int64(lo-1)))) })
				} else {
					s.assume = append(s.assume, func(st *State) { st.addCon(subLin(num(int64(hi+1)), asLin(v))) })
				}
				s.refuse = "the version is out of range"
				plain(s, cf.option(x.name, v))
				add("C24", s)
			}
		}

		// invalid configurations
		refuse := func(ids, name, why string, f func(s *scenario)) {
			s := base(kind, name, name)
			s.refuse = why
			f(s)
			add(ids, s)
		}
		routed := func(s *scenario, o ...func(st *State) Value) {
			if s.kind == "routed" {
				s.opts = append(s.opts, cf.option("WithRouting"))
			}
			s.opts = append(s.opts, o...)
		}
		refuse("C16", "no host", "the host is missing", func(s *scenario) {
			routed(s, cf.option("WithHostPort", Str(""), s.port), cf.option("WithBasicAuth", s.user, s.pw))
		})
		refuse("C16", "no host and port", "host and port are missing", func(s *scenario) {
			routed(s, cf.option("WithBasicAuth", s.user, s.pw))
		})
		refuse("C16", "port that is not positive", "the port is not positive", func(s *scenario) {
			p := ip.fresh("bad port", tInt)
			s.assume = append(s.assume, func(st *State) { st.addCon(asLin(p)) })
			routed(s, cf.option("WithHostPort", s.host, p), cf.option("WithBasicAuth", s.user, s.pw))
		})
		refuse("C16", "no user", "the user is missing", func(s *scenario) {
			routed(s, cf.option("WithHostPort", s.host, s.port), cf.option("WithBasicAuth", Str(""), s.pw))
		})
		refuse("C16", "no authentication", "the user is missing", func(s *scenario) {
			routed(s, cf.option("WithHostPort", s.host, s.port))
		})
		for _, sch := range []string{"http", "bolts", "neo4j", "bolt+routing2", "boltrouting"} {
			sch := sch
			refuse("C16", "unsupported scheme", "the scheme "+sch+" is not supported", func(s *scenario) {
				s.name += " " + sch
				s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, sch, true)))
			})
		}
		refuse("C16", "user without password", "the password is missing", func(s *scenario) {
			s.opts = append(s.opts, cf.option("WithConnectionString", mkCat(Str(scheme(kind)+"://"), tx.escape(newState(), s.user, "user"), Str("@"), hostPort(s.host, s.port))))
		})
		refuse("C16", "connection string without host", "the host is missing", func(s *scenario) {
			s.opts = append(s.opts, cf.option("WithConnectionString", mkCat(Str(scheme(kind)+"://"), tx.escape(newState(), s.user, "user"), Str(":"), tx.escape(newState(), s.pw, "user"), Str("@:"), mkApp("itoa", tString, asLin(s.port)))))
		})
		for _, t := range []string{"abc", "-1", "0", "1.5", "-10s"} {
			t := t
			refuse("C16", "malformed timeout", "the timeout "+t+" is malformed", func(s *scenario) {
				s.name += " " + t
				s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, scheme(kind), true, Str("timeout"), Str(t))))
			})
		}
		refuse("C16", "any timeout", "the timeout is malformed", func(s *scenario) {
			t, f := text("timeout", true)
			s.assume = append(s.assume, f)
			s.when = func(st *State) tri {
				// a positive number of seconds or a positive duration
				res := no
				for _, x := range []struct {
					parse, op string
					ty        types.Type
				}{{"Atoi", "parseint", tInt}, {"ParseInt", "parseint", tInt64}, {"ParseDuration", "parsedur", p.extType("time", "Duration")}} {
					r := st.truth(mkApp("parses:"+x.parse, tBool, t))
					if r != no && x.ty != nil {
						if r == unknown && x.parse != "ParseDuration" {
							continue
						}
						r = and3(r, decideLE(st, num(1), asLin(st.R(wrapTyp(mkApp(x.op, x.ty, t))))))
					}
					res = or3(res, r)
				}
				return res
			}
			s.opts = append(s.opts, cf.option("WithConnectionString", connStr(s, scheme(kind), true, Str("timeout"), t)))
		})
		both := func(ids, name, why string, mk func(s *scenario) []func(st *State) Value) {
			for _, flip := range []bool{false, true} {
				flip := flip
				refuse(ids, name, why, func(s *scenario) {
					o := mk(s)
					if flip {
						o[0], o[1] = o[1], o[0]
						s.name += ", the other way round"
					}
					s.opts = append(s.opts, o...)
				})
			}
		}
		type optList = []func(st *State) Value
		both("C24", "connection string and host", "host and connection string are both given", func(s *scenario) []func(st *State) Value {
			return optList{cf.option("WithConnectionString", connStr(s, scheme(kind), true)), cf.option("WithHostPort", cf.hostSym(nil, "other host"), s.port)}
		})
		both("C24", "connection string and routing", "routing conflicts with the connection string", func(s *scenario) []func(st *State) Value {
			return optList{cf.option("WithConnectionString", connStr(s, "bolt", true)), cf.option("WithRouting")}
		})
		both("C24", "TLS twice", "TLS is given twice", func(s *scenario) []func(st *State) Value {
			cs := connStr(s, scheme(kind), true, params(s, tlsSetting{}, "true")...)
			return optList{cf.option("WithConnectionString", cs), withTLS(s, tlsSetting{true, false, false, false})}
		})
		both("C24", "user twice", "the user is given twice", func(s *scenario) []func(st *State) Value {
			u, f := text("other user", true)
			s.assume = append(s.assume, f)
			return optList{cf.option("WithConnectionString", connStr(s, scheme(kind), true)), cf.option("WithBasicAuth", u, s.pw)}
		})
		refuse("C24", "negative timeout", "the timeout is negative", func(s *scenario) {
			d := ip.fresh("negative timeout", tInt64)
			s.assume = append(s.assume, func(st *State) { st.addCon(addLin(asLin(d), num(1))) })
			plain(s, cf.option("WithTimeout", d))
		})
		if kind == "direct" {
			refuse("C24", "no options", "there are no options", func(s *scenario) {})
			refuse("C24", "nil option", "an option is nil", func(s *scenario) {
				plain(s, func(st *State) Value { return Nil{} })
			})
		}
	}
	return out
}
