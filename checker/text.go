package main

import (
	"go/types"
	"net/url"
	"sort"
	"strings"
)

// Strings as templates: constants and unknown parts of which only the characters they can have are known.

type cset [4]uint64

func (c *cset) add(b byte)     { c[b>>6] |= 1 << (b & 63) }
func (c cset) has(b byte) bool { return c[b>>6]&(1<<(b&63)) != 0 }
func (c cset) within(d cset) bool {
	for i := range c {
		if c[i]&^d[i] != 0 {
			return false
		}
	}
	return true
}

func csetOf(s string) cset {
	var c cset
	for i := 0; i < len(s); i++ {
		c.add(s[i])
	}
	return c
}

const (
	alnum   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	csDigit = "0123456789"
)

var (
	anyChar   = cset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	encChars  = map[string]cset{"enc:user": csetOf(alnum + "-_.~$&+,;=%"), "enc:query": csetOf(alnum + "-_.~+%"), "enc:path": csetOf(alnum + "-_.~$&+=:@%")}
	userChars = csetOf(alnum + "-._:~!$&'()*+,;=%@")
	hostChars = csetOf(alnum + "-.")
)

// texts is what is known about unknown strings
type texts struct {
	ip  *Interp
	cls map[string]cset // of symbols
}

func (t *texts) class(st *State, v Value) cset {
	switch x := v.(type) {
	case Str:
		return csetOf(string(x))
	case *Cat:
		var c cset
		for _, p := range x.ps {
			k := t.class(st, p)
			for i := range c {
				c[i] |= k[i]
			}
		}
		return c
	case *App:
		switch x.op {
		case "itoa":
			c := csetOf(csDigit)
			if l := asLin(x.args[0]); l == nil || !st.proveLE(num(0), l) {
				c.add('-')
			}
			return c
		case "durstr":
			return csetOf(csDigit + ".-hmnsu\xc2\xb5")
		case "fmtbool":
			return csetOf("truefals")
		case "enc:user", "enc:query", "enc:path":
			return encChars[x.op]
		}
	case *Sym:
		if c, ok := t.cls[x.Key()]; ok {
			return c
		}
	}
	return anyChar
}

// mangled is a string that depends on the characters of an unknown part
func mangled(op string, vs ...Value) Value {
	return wrapTyp(mkApp("mangled:"+op, tString, vs...))
}

type tpos struct{ piece, off int }

// mayMatch tells whether sub can occur at a position
func (t *texts) mayMatch(st *State, ps []Value, at tpos, sub string) bool {
	cur := map[tpos]bool{at: true}
	closure := func(m map[tpos]bool) map[tpos]bool {
		out := map[tpos]bool{}
		var add func(p tpos)
		add = func(p tpos) {
			if p.piece >= len(ps) || out[p] {
				return
			}
			if s, ok := ps[p.piece].(Str); ok {
				if p.off >= len(s) {
					add(tpos{p.piece + 1, 0})
					return
				}
				out[p] = true
				return
			}
			out[p] = true
			add(tpos{p.piece + 1, 0})
		}
		for p := range m {
			add(p)
		}
		return out
	}
	for i := 0; i < len(sub); i++ {
		next := map[tpos]bool{}
		for p := range closure(cur) {
			if s, ok := ps[p.piece].(Str); ok {
				if s[p.off] == sub[i] {
					next[tpos{p.piece, p.off + 1}] = true
				}
			} else if t.class(st, ps[p.piece]).has(sub[i]) {
				next[p] = true
			}
		}
		if len(next) == 0 {
			return false
		}
		cur = next
	}
	return true
}

// find locates the first or last occurrence of a constant
func (t *texts) find(st *State, ps []Value, sub string, last bool) (tpos, tri) {
	var starts []tpos
	for i, p := range ps {
		if s, ok := p.(Str); ok {
			for k := range []byte(s) {
				starts = append(starts, tpos{i, k})
			}
		} else {
			starts = append(starts, tpos{i, 0})
		}
	}
	if last {
		for i, j := 0, len(starts)-1; i < j; i, j = i+1, j-1 {
			starts[i], starts[j] = starts[j], starts[i]
		}
	}
	for _, p := range starts {
		if s, ok := ps[p.piece].(Str); ok && strings.HasPrefix(string(s)[p.off:], sub) {
			return p, yes
		}
		if t.mayMatch(st, ps, p, sub) {
			// an opaque part in which nothing of the match lies does not count
			if _, ok := ps[p.piece].(Str); !ok && !t.class(st, ps[p.piece]).has(sub[0]) {
				continue
			}
			return p, unknown
		}
	}
	return tpos{}, no
}

func (t *texts) parts(st *State, v Value) []Value {
	v = st.R(v)
	var out []Value
	for _, p := range catParts(v) {
		p = st.R(p)
		out = append(out, catParts(p)...)
	}
	return catParts(mkCat(out...))
}

func cutParts(ps []Value, at tpos, n int) (Value, Value) {
	var a, b []Value
	a = append(a, ps[:at.piece]...)
	if at.piece < len(ps) {
		s := ps[at.piece].(Str)
		a = append(a, s[:at.off])
		b = append(b, s[at.off+n:])
		b = append(b, ps[at.piece+1:]...)
	}
	return mkCat(a...), mkCat(b...)
}

// cut splits at the first (or last) occurrence
func (t *texts) cut(st *State, v Value, sep string, last bool) (Value, Value, tri) {
	ps := t.parts(st, v)
	p, ok := t.find(st, ps, sep, last)
	if ok != yes {
		return v, Str(""), ok
	}
	a, b := cutParts(ps, p, len(sep))
	return a, b, yes
}

func (t *texts) has(st *State, v Value, sub string) tri {
	_, ok := t.find(st, t.parts(st, v), sub, false)
	return ok
}

// starts tells whether v begins with a constant
func (t *texts) starts(st *State, v Value, s string) tri {
	ps := t.parts(st, v)
	if s == "" {
		return yes
	}
	if p, ok := ps[0].(Str); ok && strings.HasPrefix(string(p), s) {
		return yes
	}
	if !t.mayMatch(st, ps, tpos{0, 0}, s) {
		return no
	}
	return unknown
}

// unescape undoes an encoding
func (t *texts) unescape(st *State, v Value, mode string) (Value, tri) {
	var out []Value
	for _, p := range t.parts(st, v) {
		switch x := p.(type) {
		case Str:
			var s string
			var err error
			switch mode {
			case "query":
				s, err = url.QueryUnescape(string(x))
			default:
				s, err = url.PathUnescape(string(x))
			}
			if err != nil {
				if strings.Contains(string(x), "%") && len(t.parts(st, v)) > 1 {
					return mangled("unescape", v), unknown
				}
				return Str(""), no
			}
			out = append(out, Str(s))
			continue
		case *App:
			if x.op == "enc:query" && mode == "query" || (x.op == "enc:user" || x.op == "enc:path") && mode != "query" {
				out = append(out, x.args[0])
				continue
			}
		}
		c := t.class(st, p)
		if !c.has('%') && (mode != "query" || !c.has('+')) {
			out = append(out, p)
			continue
		}
		if a, ok := p.(*App); ok && strings.HasPrefix(a.op, "enc:") {
			// well formed, but something else
			out = append(out, mangled("unescape "+mode, p))
			continue
		}
		return mangled("unescape "+mode, v), unknown
	}
	return mkCat(out...), yes
}

func (t *texts) escape(st *State, v Value, mode string) Value {
	v = st.R(v)
	if s, ok := v.(Str); ok {
		switch mode {
		case "query":
			return Str(url.QueryEscape(string(s)))
		case "path":
			return Str(url.PathEscape(string(s)))
		}
		return Str(url.User(string(s)).String())
	}
	c := t.class(st, v)
	if c.within(csetOf(alnum + "-_.~")) {
		return v
	}
	return mkApp("enc:"+mode, tString, v)
}

// ---- net/url

func (t *texts) structOf(typ types.Type, f map[string]Value) Value {
	s := t.ip.zero(typ).(*Struct)
	u := typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if v, ok := f[u.Field(i).Name()]; ok {
			s.f[i] = v
		}
	}
	return s
}

func fieldNamed(v Value, typ types.Type, name string) Value {
	s, ok := v.(*Struct)
	u, ok2 := typ.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return nil
	}
	for i := 0; i < u.NumFields() && i < len(s.f); i++ {
		if u.Field(i).Name() == name {
			return s.f[i]
		}
	}
	return nil
}

// urlParse gives the ways parsing can end; with a nil value it fails
type parsed struct {
	f    map[string]Value
	user Value // nil, or a Struct
	err  bool
}

func (t *texts) userinfo(user, pw Value, set bool) Value {
	typ := t.ip.p.extType("net/url", "Userinfo")
	return t.structOf(typ, map[string]Value{"username": user, "password": pw, "passwordSet": Bool(set)})
}

func (t *texts) urlParse(st *State, v Value) []parsed {
	bad := func(what string) []parsed {
		// the outcome depends on what the caller supplied
		m := func(n string) Value { return mangled("url "+n, v) }
		f := map[string]Value{"Scheme": Str("bolt"), "Host": m("host"), "Path": m("path"), "RawQuery": m("query")}
		return []parsed{{err: true}, {f: f, user: t.userinfo(m("user"), m("password"), true)}}
	}
	fail := []parsed{{err: true}}
	v = st.R(v)
	ps := t.parts(st, v)
	for _, p := range ps {
		c := t.class(st, p)
		for b := byte(0); b < 0x20; b++ {
			if c.has(b) {
				if _, ok := p.(Str); ok {
					return fail
				}
				return bad("control characters")
			}
		}
	}
	rest, frag, ok := t.cut(st, v, "#", false)
	if ok == unknown {
		return bad("fragment")
	}
	f := map[string]Value{}
	if ok == yes {
		x, ok := t.unescape(st, frag, "fragment")
		if ok == no {
			return fail
		}
		f["Fragment"] = x
	}
	// scheme
	first, _ := t.parts(st, rest)[0].(Str)
	i := strings.IndexByte(string(first), ':')
	if i < 0 && len(t.parts(st, rest)) > 1 {
		return bad("scheme")
	}
	scheme := ""
	if i >= 0 {
		scheme = string(first)[:i]
		for k, b := range []byte(scheme) {
			letter := b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
			if !letter && !(k > 0 && (b >= '0' && b <= '9' || b == '+' || b == '-' || b == '.')) {
				return fail
			}
		}
		if scheme == "" {
			return fail
		}
		_, rest = cutParts(t.parts(st, rest), tpos{0, i}, 1)
	}
	f["Scheme"] = Str(strings.ToLower(scheme))
	r, q, ok := t.cut(st, rest, "?", false)
	if ok == unknown {
		return bad("query")
	}
	if ok == yes {
		rest = r
		f["RawQuery"] = q
		if s, ok := q.(Str); ok && s == "" {
			f["ForceQuery"] = Bool(true)
		}
	}
	if t.starts(st, rest, "/") != yes && scheme != "" {
		f["Opaque"] = rest
		return []parsed{{f: f}}
	}
	if t.starts(st, rest, "//") != yes {
		f["Path"] = rest
		return []parsed{{f: f}}
	}
	_, auth := cutParts(t.parts(st, rest), tpos{0, 0}, 2)
	a, path, ok := t.cut(st, auth, "/", false)
	if ok == unknown {
		return bad("authority")
	}
	if ok == yes {
		auth = a
		x, ok := t.unescape(st, mkCat(Str("/"), path), "path")
		if ok == no {
			return fail
		}
		f["Path"] = x
	}
	res := parsed{f: f}
	ui, host, ok := t.cut(st, auth, "@", true)
	switch ok {
	case unknown:
		return bad("user")
	case no:
		host = auth
	case yes:
		for _, p := range t.parts(st, ui) {
			if !t.class(st, p).within(userChars) {
				if _, ok := p.(Str); ok {
					return fail
				}
				return bad("user characters")
			}
		}
		u, p, ok := t.cut(st, ui, ":", false)
		if ok == unknown {
			return bad("password")
		}
		uu, ok1 := t.unescape(st, u, "user")
		pp, ok2 := t.unescape(st, p, "user")
		if ok1 == no || ok2 == no {
			return fail
		}
		if ok1 == unknown || ok2 == unknown {
			return bad("user encoding")
		}
		res.user = t.userinfo(uu, pp, ok == yes)
	}
	// host and port
	if t.starts(st, host, "[") == no {
		_, port, ok := t.cut(st, host, ":", true)
		if ok == unknown {
			return bad("port")
		}
		if ok == yes {
			for _, p := range t.parts(st, port) {
				if !t.class(st, p).within(csetOf(csDigit)) {
					if _, ok := p.(Str); ok {
						return fail
					}
					return bad("port digits")
				}
			}
		}
		for _, p := range t.parts(st, host) {
			if _, ok := p.(Str); !ok && !t.class(st, p).within(csetOf(alnum+"-.:_~")) {
				return bad("host characters")
			}
		}
	}
	f["Host"] = host
	return []parsed{res}
}

// queryPairs splits a query string
func (t *texts) queryPairs(st *State, q Value) (keys, vals []Value, ok bool) {
	q = st.R(q)
	for {
		if s, isS := q.(Str); isS && s == "" {
			return keys, vals, true
		}
		p, rest, more := t.cut(st, q, "&", false)
		if more == unknown || t.has(st, p, ";") != no {
			return keys, vals, false
		}
		if s, isS := p.(Str); !isS || s != "" {
			k, v, eq := t.cut(st, p, "=", false)
			if eq == unknown {
				return keys, vals, false
			}
			kk, ok1 := t.unescape(st, k, "query")
			vv, ok2 := t.unescape(st, v, "query")
			if ok1 == unknown || ok2 == unknown {
				return keys, vals, false
			}
			if _, isS := kk.(Str); !isS {
				return keys, vals, false
			}
			if ok1 == yes && ok2 == yes {
				keys, vals = append(keys, kk), append(vals, vv)
			}
		}
		if more != yes {
			return keys, vals, true
		}
		q = rest
	}
}

func (t *texts) urlHooks() {
	ip := t.ip
	urlT, userT, valuesT := ip.p.extType("net/url", "URL"), ip.p.extType("net/url", "Userinfo"), ip.p.extType("net/url", "Values")
	if urlT == nil || userT == nil || valuesT == nil {
		return
	}
	urlP, userP := types.NewPointer(urlT), types.NewPointer(userT)
	strs := types.NewSlice(tString)
	ip.hooks["net/url.Parse"] = func(ip *Interp, st *State, c *Call) []Outcome {
		var outs []Outcome
		rs := t.urlParse(st, c.args[0])
		for i, r := range rs {
			s := st
			if i < len(rs)-1 {
				s = st.clone()
			}
			if r.err {
				s.event(c.pos, "the connection string can not be parsed")
				outs = append(outs, Outcome{st: s, ret: &Tuple{[]Value{Nil{}, nonNil(s, mkApp("url error", tError, s.R(c.args[0])))}}})
				continue
			}
			if r.user != nil {
				r.f["User"] = ip.newObj(s, userT, r.user)
			}
			outs = append(outs, Outcome{st: s, ret: &Tuple{[]Value{ip.newObj(s, urlT, t.structOf(urlT, r.f)), Nil{}}}})
		}
		return outs
	}
	ip.hooks["net/url.ParseRequestURI"] = ip.hooks["net/url.Parse"]
	user := func(set bool) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			pw := Value(Str(""))
			if set {
				pw = st.R(c.args[1])
			}
			return one(st, ip.newObj(st, userT, t.userinfo(st.R(c.args[0]), pw, set)))
		}
	}
	ip.hooks["net/url.User"] = user(false)
	ip.hooks["net/url.UserPassword"] = user(true)
	load := func(st *State, v Value, pt, typ types.Type) *Struct {
		p := ip.deref(st, v, pt)
		if p == nil {
			return nil
		}
		return ip.expand(st.R(ip.load(st, p, typ)), typ)
	}
	fld := func(st *State, s *Struct, typ types.Type, n string) Value { return st.R(orNil(fieldNamed(s, typ, n))) }
	ui := func(st *State, v Value) Value {
		s := load(st, v, userP, userT)
		if s == nil {
			return Str("")
		}
		out := t.escape(st, fld(st, s, userT, "username"), "user")
		if st.truth(fld(st, s, userT, "passwordSet")) != no {
			out = mkCat(out, Str(":"), t.escape(st, fld(st, s, userT, "password"), "user"))
		}
		return out
	}
	ip.hooks["(*net/url.Userinfo).Username"] = func(ip *Interp, st *State, c *Call) []Outcome {
		s := load(st, c.args[0], userP, userT)
		if s == nil {
			return one(st, Str(""))
		}
		return one(st, fld(st, s, userT, "username"))
	}
	ip.hooks["(*net/url.Userinfo).Password"] = func(ip *Interp, st *State, c *Call) []Outcome {
		s := load(st, c.args[0], userP, userT)
		if s == nil {
			return multi(st, Str(""), Bool(false))
		}
		return multi(st, fld(st, s, userT, "password"), fld(st, s, userT, "passwordSet"))
	}
	ip.hooks["(*net/url.Userinfo).String"] = func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, ui(st, c.args[0]))
	}
	str := func(st *State, v Value) Value {
		s := load(st, v, urlP, urlT)
		if s == nil {
			return nil
		}
		g := func(n string) Value { return fld(st, s, urlT, n) }
		is := func(n string) bool { x, ok := g(n).(Str); return ok && x == "" }
		var ps []Value
		if !is("Scheme") {
			ps = append(ps, g("Scheme"), Str(":"))
		}
		if !is("Opaque") {
			ps = append(ps, g("Opaque"))
		} else {
			_, noUser := g("User").(Nil)
			if !is("Scheme") || !is("Host") || !noUser {
				if !is("Host") || !is("Path") || !noUser {
					ps = append(ps, Str("//"))
				}
				if !noUser {
					ps = append(ps, ui(st, g("User")), Str("@"))
				}
				ps = append(ps, g("Host"))
			}
			path := g("Path")
			if !is("Path") {
				if p, ok := path.(Str); ok {
					path = Str((&url.URL{Path: string(p)}).EscapedPath())
					if !strings.HasPrefix(string(p), "/") && !is("Host") {
						ps = append(ps, Str("/"))
					}
				} else {
					path = mangled("path", path)
				}
				ps = append(ps, path)
			}
		}
		if !is("RawQuery") || st.truth(g("ForceQuery")) == yes {
			ps = append(ps, Str("?"), g("RawQuery"))
		}
		if !is("Fragment") {
			ps = append(ps, Str("#"), mangled("fragment", g("Fragment")))
		}
		return mkCat(ps...)
	}
	ip.hooks["(*net/url.URL).String"] = func(ip *Interp, st *State, c *Call) []Outcome {
		v := str(st, c.args[0])
		if v == nil {
			return nil
		}
		return one(st, v)
	}
	// a formatted URL or user prints itself
	ip.text = func(st *State, v Value) Value {
		i, ok := v.(*Iface)
		if !ok {
			return nil
		}
		switch {
		case types.Identical(i.typ, urlP):
			return str(st, i.v)
		case types.Identical(i.typ, userP):
			return ui(st, i.v)
		}
		return nil
	}
	hostPart := func(port bool) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			s := load(st, c.args[0], urlP, urlT)
			if s == nil {
				return nil
			}
			h, p, ok := t.cut(st, fld(st, s, urlT, "Host"), ":", true)
			if ok == unknown {
				h, p = mangled("host", h), mangled("port", h)
			}
			if port {
				return one(st, p)
			}
			return one(st, h)
		}
	}
	ip.hooks["(*net/url.URL).Hostname"] = hostPart(false)
	ip.hooks["(*net/url.URL).Port"] = hostPart(true)
	values := func(st *State, q Value) Value {
		mc := &MapC{}
		keys, vals, ok := t.queryPairs(st, q)
		byKey := map[string][]Seg{}
		var order []Value
		for i, k := range keys {
			if byKey[k.Key()] == nil {
				order = append(order, k)
			}
			byKey[k.Key()] = append(byKey[k.Key()], item(vals[i]))
		}
		for _, k := range order {
			mc.ovr = append(mc.ovr, mapEnt{key: k, val: ip.newSlice(st, mkSeq(tString, byKey[k.Key()]...), strs)})
		}
		if !ok {
			// what follows depends on the text
			mc.base = mangled("query", q)
		}
		return &MapV{obj: ip.alloc(st, valuesT, mc, "query")}
	}
	ip.hooks["(*net/url.URL).Query"] = func(ip *Interp, st *State, c *Call) []Outcome {
		s := load(st, c.args[0], urlP, urlT)
		if s == nil {
			return nil
		}
		return one(st, values(st, fld(st, s, urlT, "RawQuery")))
	}
	ip.hooks["net/url.ParseQuery"] = func(ip *Interp, st *State, c *Call) []Outcome {
		_, _, ok := t.queryPairs(st, c.args[0])
		good := multi(st, values(st, c.args[0]), Nil{})
		if !ok {
			b := st.clone()
			good = append(good, multi(b, Nil{}, ip.newErr(b, "query error"))...)
		}
		return good
	}
	get := func(st *State, m Value, k Value) (Value, *SeqV) {
		mv := ip.mapOf(st, m, valuesT)
		if mv == nil {
			return Str(""), nil
		}
		mc := ip.mapC(st, mv)
		for i := len(mc.ovr) - 1; i >= 0; i-- {
			e := mc.ovr[i]
			if same(st.R(e.key), st.R(k)) {
				if e.val == nil {
					return Str(""), nil
				}
				sl := ip.slice(st, e.val, strs)
				if sl == nil {
					return Str(""), nil
				}
				q := st.normSeq(ip.seqOf(st, sl))
				if len(q.segs) == 0 {
					return Str(""), q
				}
				return st.R(st.seqGet(q, num(0), tString)), q
			}
			if !isConstVal(e.key) || !isConstVal(st.R(k)) {
				return mangled("query value", e.key, k), nil
			}
		}
		if mc.base != nil {
			return mangled("query value", mc.base, k), nil
		}
		return Str(""), nil
	}
	ip.hooks["(net/url.Values).Get"] = func(ip *Interp, st *State, c *Call) []Outcome {
		v, _ := get(st, c.args[0], st.R(c.args[1]))
		return one(st, v)
	}
	ip.hooks["(net/url.Values).Has"] = func(ip *Interp, st *State, c *Call) []Outcome {
		v, q := get(st, c.args[0], st.R(c.args[1]))
		if a, ok := v.(*App); ok && strings.HasPrefix(a.op, "mangled") && q == nil {
			return one(st, ip.fresh("has", tBool))
		}
		return one(st, Bool(q != nil))
	}
	put := func(add bool) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			mv := ip.mapOf(st, c.args[0], valuesT)
			if mv == nil {
				return []Outcome{{st: st, pan: Str("assignment to nil map")}}
			}
			q := mkSeq(tString)
			if add {
				if _, old := get(st, c.args[0], st.R(c.args[1])); old != nil {
					q = old
				}
			}
			q = st.concat(q, mkSeq(tString, item(st.R(c.args[2]))))
			ip.mapSet(st, mv, st.R(c.args[1]), ip.newSlice(st, q, strs))
			return one(st, nil)
		}
	}
	ip.hooks["(net/url.Values).Set"] = put(false)
	ip.hooks["(net/url.Values).Add"] = put(true)
	ip.hooks["(net/url.Values).Del"] = func(ip *Interp, st *State, c *Call) []Outcome {
		if mv := ip.mapOf(st, c.args[0], valuesT); mv != nil {
			ip.mapSet(st, mv, st.R(c.args[1]), nil)
		}
		return one(st, nil)
	}
	ip.hooks["(net/url.Values).Encode"] = func(ip *Interp, st *State, c *Call) []Outcome {
		mv := ip.mapOf(st, c.args[0], valuesT)
		if mv == nil {
			return one(st, Str(""))
		}
		mc := ip.mapC(st, mv)
		var keys []string
		seen := map[string]bool{}
		for i := len(mc.ovr) - 1; i >= 0; i-- {
			k, ok := st.R(mc.ovr[i].key).(Str)
			if !ok {
				return one(st, mangled("query", mc.ovr[i].key))
			}
			if !seen[string(k)] {
				seen[string(k)] = true
				keys = append(keys, string(k))
			}
		}
		sort.Strings(keys)
		var ps []Value
		for _, k := range keys {
			_, q := get(st, mv, Str(k))
			if q == nil {
				continue
			}
			for _, g := range q.segs {
				if len(ps) > 0 {
					ps = append(ps, Str("&"))
				}
				v := Value(mangled("query", q))
				if g.kind == 'i' {
					v = st.R(g.v)
				}
				ps = append(ps, Str(url.QueryEscape(k)+"="), t.escape(st, v, "query"))
			}
		}
		if mc.base != nil {
			ps = append(ps, Str("&"), mc.base)
		}
		return one(st, mkCat(ps...))
	}
	esc := func(mode string) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			return one(st, t.escape(st, st.R(c.args[0]), mode))
		}
	}
	ip.hooks["net/url.QueryEscape"] = esc("query")
	ip.hooks["net/url.PathEscape"] = esc("path")
	unesc := func(mode string) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			v, ok := t.unescape(st, st.R(c.args[0]), mode)
			var outs []Outcome
			if ok != no {
				outs = append(outs, multi(st.clone(), v, Nil{})...)
			}
			if ok != yes {
				outs = append(outs, multi(st, Str(""), ip.newErr(st, "escape error"))...)
			}
			return outs
		}
	}
	ip.hooks["net/url.QueryUnescape"] = unesc("query")
	ip.hooks["net/url.PathUnescape"] = unesc("path")
	t.stringHooks()
}

// stringHooks models the functions of strings on templates
func (t *texts) stringHooks() {
	ip := t.ip
	konst := func(st *State, v Value) (string, bool) {
		s, ok := st.R(v).(Str)
		return string(s), ok
	}
	wrapHook := func(name string, f func(st *State, c *Call, v Value) []Outcome) {
		old := ip.hooks["strings."+name]
		ip.hooks["strings."+name] = func(ip *Interp, st *State, c *Call) []Outcome {
			v := st.R(c.args[0])
			if _, ok := v.(Str); !ok {
				if outs := f(st, c, v); outs != nil {
					return outs
				}
			}
			if old != nil {
				return old(ip, st, c)
			}
			return nil
		}
	}
	lenTo := func(st *State, ps []Value, p tpos) *Lin {
		n := num(int64(p.off))
		for _, x := range ps[:p.piece] {
			n = addLin(n, lenOf(x))
		}
		return n
	}
	index := func(last bool) func(st *State, c *Call, v Value) []Outcome {
		return func(st *State, c *Call, v Value) []Outcome {
			sub, ok := konst(st, c.args[1])
			if !ok {
				if l := asLin(st.R(c.args[1])); l != nil && l.isConst() && l.int() >= 0 && l.int() < 128 {
					sub, ok = string([]byte{byte(l.int())}), true
				}
			}
			if !ok || sub == "" {
				return nil
			}
			ps := t.parts(st, v)
			p, r := t.find(st, ps, sub, last)
			switch r {
			case yes:
				return one(st, st.rlin(lenTo(st, ps, p)))
			case no:
				return one(st, num(-1))
			}
			// it depends on the text
			n := asLin(ip.fresh("index", tInt))
			st.addCon(subLin(num(-1), n))
			st.addCon(addLin(subLin(n, lenOf(v)), num(1)))
			return one(st, n)
		}
	}
	wrapHook("Index", index(false))
	wrapHook("IndexByte", index(false))
	wrapHook("LastIndex", index(true))
	wrapHook("LastIndexByte", index(true))
	wrapHook("Contains", func(st *State, c *Call, v Value) []Outcome {
		sub, ok := konst(st, c.args[1])
		if !ok {
			return nil
		}
		if sub == "" {
			return one(st, Bool(true))
		}
		// any match will do
		for _, p := range t.parts(st, v) {
			if s, ok := p.(Str); ok && strings.Contains(string(s), sub) {
				return one(st, Bool(true))
			}
		}
		if t.has(st, v, sub) == no {
			return one(st, Bool(false))
		}
		return one(st, mkApp("strings.Contains", tBool, v, Str(sub)))
	})
	wrapHook("HasPrefix", func(st *State, c *Call, v Value) []Outcome {
		if sub, ok := konst(st, c.args[1]); ok {
			if r := t.starts(st, v, sub); r != unknown {
				return one(st, Bool(r == yes))
			}
		}
		return nil
	})
	wrapHook("Cut", func(st *State, c *Call, v Value) []Outcome {
		sub, ok := konst(st, c.args[1])
		if !ok || sub == "" {
			return nil
		}
		a, b, r := t.cut(st, v, sub, false)
		if r == unknown {
			s2 := st.clone()
			return append(multi(st, mangled("cut", v), mangled("cut rest", v), Bool(true)), multi(s2, v, Str(""), Bool(false))...)
		}
		return multi(st, a, b, Bool(r == yes))
	})
	split := func(st *State, c *Call, v Value) []Outcome {
		sub, ok := konst(st, c.args[1])
		if !ok || sub == "" {
			return nil
		}
		n := -1
		if len(c.args) > 2 {
			l := asLin(st.R(c.args[2]))
			if l == nil || !l.isConst() || l.int() == 0 {
				return nil
			}
			n = l.int()
		}
		var segs []Seg
		for n < 0 || len(segs) < n-1 {
			a, b, r := t.cut(st, v, sub, false)
			if r == unknown {
				segs = append(segs, item(mangled("split", v)))
				return one(st, ip.newSlice(st, mkSeq(tString, segs...), types.NewSlice(tString)))
			}
			if r == no {
				break
			}
			segs = append(segs, item(a))
			v = b
		}
		segs = append(segs, item(v))
		return one(st, ip.newSlice(st, mkSeq(tString, segs...), types.NewSlice(tString)))
	}
	wrapHook("Split", split)
	wrapHook("SplitN", split)
	wrapHook("TrimPrefix", func(st *State, c *Call, v Value) []Outcome {
		sub, ok := konst(st, c.args[1])
		if !ok {
			return nil
		}
		switch t.starts(st, v, sub) {
		case yes:
			_, r := cutParts(t.parts(st, v), tpos{0, 0}, len(sub))
			return one(st, r)
		case no:
			return one(st, v)
		}
		return one(st, mangled("trim", v))
	})
	replace := func(st *State, c *Call, v Value) []Outcome {
		sub, ok := konst(st, c.args[1])
		if !ok || sub == "" {
			return nil
		}
		n := -1
		if len(c.args) > 3 {
			l := asLin(st.R(c.args[3]))
			if l == nil || !l.isConst() {
				return nil
			}
			n = l.int()
		}
		var out []Value
		for k := 0; n < 0 || k < n; k++ {
			a, b, r := t.cut(st, v, sub, false)
			if r == unknown {
				return one(st, mkCat(append(out, mangled("replace", v))...))
			}
			if r == no {
				break
			}
			out = append(out, a, st.R(c.args[2]))
			v = b
		}
		return one(st, mkCat(append(out, v)...))
	}
	wrapHook("Replace", replace)
	wrapHook("ReplaceAll", replace)
	change := func(st *State, c *Call, v Value) []Outcome {
		// each part on its own
		lower := c.name == "strings.ToLower"
		var out []Value
		for _, p := range t.parts(st, v) {
			if s, ok := p.(Str); ok {
				if lower {
					out = append(out, Str(strings.ToLower(string(s))))
				} else {
					out = append(out, Str(strings.ToUpper(string(s))))
				}
				continue
			}
			if t.class(st, p).within(csetOf(csDigit + "-")) {
				out = append(out, p)
				continue
			}
			out = append(out, mangled(c.name, p))
		}
		return one(st, mkCat(out...))
	}
	wrapHook("ToLower", change)
	wrapHook("ToUpper", change)
	wrapHook("TrimSpace", func(st *State, c *Call, v Value) []Outcome {
		ps := t.parts(st, v)
		open := func(p Value) bool {
			c := t.class(st, p)
			return c.has(' ') || c.has('\t') || c.has('\n')
		}
		if !open(ps[0]) && !open(ps[len(ps)-1]) {
			return one(st, v)
		}
		return one(st, mangled("trim", v))
	})
	wrapHook("EqualFold", func(st *State, c *Call, v Value) []Outcome {
		s, ok := konst(st, c.args[1])
		if !ok {
			return nil
		}
		ps := t.parts(st, v)
		if len(s) < 1 {
			return nil
		}
		if p, ok := ps[0].(Str); ok && (len(p) > len(s) || !strings.EqualFold(string(p), s[:len(p)])) {
			return one(st, Bool(false))
		}
		if p, ok := ps[len(ps)-1].(Str); ok && (len(p) > len(s) || !strings.EqualFold(string(p), s[len(s)-len(p):])) {
			return one(st, Bool(false))
		}
		return nil
	})
}

// differs tells whether two texts differ for some content of the unknown parts
func (t *texts) compare(st *State, got, want Value) tri {
	g, w := mkCat(t.parts(st, got)...), mkCat(t.parts(st, want)...)
	if same(g, w) {
		return yes
	}
	if st.eqTri(g, w) == no {
		return no
	}
	// known functions of what was supplied that are not the identity
	var plain func(v Value) bool
	plain = func(v Value) bool {
		switch x := v.(type) {
		case Str, *Sym:
			return true
		case *Cat:
			for _, p := range x.ps {
				if !plain(p) {
					return false
				}
			}
			return true
		case *App:
			switch {
			case x.op == "itoa" || x.op == "durstr" || x.op == "fmtbool" || strings.HasPrefix(x.op, "enc:") || strings.HasPrefix(x.op, "mangled:"):
				return true
			}
		case *Lin:
			return true
		}
		return false
	}
	if plain(g) && plain(w) {
		return no
	}
	return unknown
}
