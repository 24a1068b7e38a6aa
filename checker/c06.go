package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func init() { checks["C06"] = checkC06 }

// protoVersion is a protocol implementation with the version it is selected for
type protoVersion struct {
	typ types.Type
	n   int
}

// protoVersions asks GetProtocol which implementation belongs to each version
func protoVersions(w *World) []protoVersion {
	var out []protoVersion
	get := w.p.fn("protocol", "GetProtocol")
	if get == nil {
		return nil
	}
	for n := 1; n <= 4; n++ {
		st := w.st.clone()
		v := w.ip.newSlice(st, mkSeq(tByte, item(num(0)), item(num(0)), item(num(0)), item(num(int64(n)))), tBytes)
		for _, o := range w.call(st, get, v) {
			if o.pan != nil {
				continue
			}
			vs := tupleOf(o)
			if i, ok := o.st.R(vs[0]).(*Iface); ok {
				out = append(out, protoVersion{i.typ, n})
			}
		}
	}
	return out
}

// a wanted field of a request
type reqField func(c *reqCase, st *State, f *PS) (tri, string)

type reqCase struct {
	w    *World
	name string
	n    int
}

// cellOf is the Go value a field was encoded from
func cellOf(st *State, f *PS) (types.Type, Value) {
	if f.kind == "enc" {
		if i, ok := st.R(f.v).(*Iface); ok {
			return i.typ, st.R(i.v)
		}
		return nil, st.R(f.v)
	}
	return nil, nil
}

func strField(want Value) reqField {
	return func(c *reqCase, st *State, f *PS) (tri, string) {
		t, v := cellOf(st, f)
		if t == nil {
			return unknown, "value " + f.Key()
		}
		if kindOfType(t) != "string" {
			return no, "a " + typeName(t) + " instead of a string"
		}
		if same(v, want) {
			return yes, ""
		}
		return refuteVal(st, v, want), v.Key() + " instead of " + want.Key()
	}
}

func (p *PS) Key() string { return p.kind + " " + orNil(p.v).Key() }

type mapWant struct {
	when func(st *State) tri
	val  func(st *State, v Value) tri
	d    string
}

func always(st *State) tri { return yes }

func hasVal(want Value) func(st *State, v Value) tri {
	return func(st *State, v Value) tri {
		v = st.R(v)
		if i, ok := v.(*Iface); ok {
			v = st.R(i.v)
		}
		if same(v, st.R(want)) || same(v, want) {
			return yes
		}
		if a, b := asLin(v), asLin(want); a != nil && b != nil {
			return decideEQ(st, a, b)
		}
		return refuteVal(st, v, want)
	}
}

// mapField checks a map: entries that have to be there or not, depending on the path, and what it was made of
func mapField(base Value, want map[string]mapWant, may ...string) reqField {
	return func(c *reqCase, st *State, f *PS) (tri, string) {
		t, v := cellOf(st, f)
		if t == nil {
			if _, isNil := v.(Nil); f.kind == "enc" && isNil {
				return no, "null instead of a map"
			}
			return unknown, "value " + f.Key()
		}
		if kindOfType(t) != "map" {
			return no, "a " + typeName(t) + " instead of a map"
		}
		return c.mapIs(st, v, t, base, want, may...)
	}
}

func (c *reqCase) mapIs(st *State, v Value, t types.Type, base Value, want map[string]mapWant, may ...string) (tri, string) {
	ip := c.w.ip
	if base != nil && len(want) == 0 {
		if same(v, base) {
			return yes, ""
		}
		if st.truth(st.isNil(base)) == yes {
			if _, ok := v.(Nil); ok {
				return yes, ""
			}
		}
	}
	var mc *MapC
	switch x := v.(type) {
	case Nil:
		mc = &MapC{}
	case *MapV:
		mc = ip.mapC(st, x)
	case *Sym, *App:
		mc = &MapC{base: x}
	default:
		return unknown, "map " + v.Key()
	}
	mc = ip.wholeCopy(st, mc)
	res := yes
	det := ""
	set := func(t tri, d string) {
		if t == no || t == unknown && res == yes {
			res, det = t, d
		}
	}
	var et types.Type = tAny
	if m, ok := t.Underlying().(*types.Map); ok {
		et = m.Elem()
	}
	switch {
	case base != nil && mc.base == nil:
		if st.truth(st.isNil(base)) != yes && !st.prove(lenVal(base)) {
			partly := false
			for _, e := range mc.ovr {
				partly = partly || contains(e.key, func(v Value) bool { a, ok := v.(*App); return ok && a.op == "mapkey" })
			}
			if partly {
				set(unknown, "some of the caller's entries")
			} else {
				set(no, "the caller's entries are missing")
			}
		}
	case base != nil && !same(mc.base, base):
		set(unknown, "made of "+mc.base.Key())
	case base == nil && mc.base != nil:
		set(unknown, "made of "+mc.base.Key())
	}
	for _, k := range sortedKeys(want) {
		x := want[k]
		w := x.when(st)
		for _, r := range ip.mapGet(st.clone(), mc, Str(k), et) {
			if base != nil && same(mc.base, base) && r.v != nil && w != yes {
				continue // the caller's
			}
			switch {
			case r.v == nil && w == yes:
				set(no, "no entry "+k)
			case r.v != nil && w == no:
				set(no, "an entry "+k+" without a reason")
			case w == unknown:
				// this path does not tell: with or without, it is wrong for some input
				set(no, "the entry "+k+" does not depend on "+x.d)
			case r.v != nil:
				q := x.val(r.st, r.v)
				set(q, "entry "+k+" is "+r.v.Key())
			}
		}
	}
	for _, e := range mc.ovr {
		if e.val == nil {
			continue
		}
		k, ok := st.R(e.key).(Str)
		if !ok {
			set(unknown, "key "+e.key.Key())
			continue
		}
		if _, ok := want[string(k)]; !ok && !contains_(may, string(k)) {
			set(no, "an entry "+string(k)+" the protocol does not define")
		}
	}
	return res, det
}

func contains_(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// reqWant is a request as a protocol version defines it
type reqWant struct {
	sig    int
	fields []reqField
}

func checkC06(c *Ctx) {
	c.rule = "every request builder of every protocol version is interpreted for unknown arguments, its result is encoded abstractly, and the structure emitted is compared with the Bolt specification of the version"
	c.explain = "One obligation per (version, request, outcome) for the signature, the number, the kind and the content of the fields; metadata entries are compared with the condition of the path."
	w := newWorld(c.p)
	ip := w.ip
	ip.smallEls = true
	pvs := protoVersions(w)
	c.decide(triOf(len(pvs) >= 1), "versions", 0, nil, "no protocol version is implemented")
	mapT := types.NewMap(tString, tAny)
	modeT := w.p.typ("bolt_mode", "AccessMode")
	readMode := constOf(w.p, "bolt_mode", "ReadMode")
	if modeT == nil || readMode == nil {
		c.decide(unknown, "access mode", 0, nil, "no access mode found")
		c.covered(ip)
		return
	}
	for _, pv := range pvs {
		client, query, db := ip.fresh("client", tString), ip.fresh("query", tString), ip.fresh("db", tString)
		auth, params := ip.fresh("auth", mapT), ip.fresh("params", mapT)
		mode, auto, qid := ip.fresh("mode", modeT), ip.fresh("auto", tBool), ip.fresh("qid", tInt64)
		ml := atomOr(mode)
		reads := func(st *State) tri {
			if t := st.truth(mkEQ0(subLin(ml, readMode))); t != unknown {
				return t
			}
			return unknown
		}
		named := func(st *State) tri {
			n := st.truth(mkEQ0(lenVal(db)))
			if n == unknown {
				if n = st.truth(ip.equal(st, db, Str(""), tString)); n == unknown {
					return unknown
				}
			}
			return not(n)
		}
		isAuto := func(st *State) tri { return st.truth(st.R(auto)) }
		and := func(f ...func(st *State) tri) func(st *State) tri {
			return func(st *State) tri {
				r := yes
				for _, g := range f {
					switch g(st) {
					case no:
						return no
					case unknown:
						r = unknown
					}
				}
				return r
			}
		}
		extra := func(when func(st *State) tri) map[string]mapWant {
			m := map[string]mapWant{"mode": {and(when, reads), hasVal(Str("r")), "the access mode"}}
			if pv.n >= 4 {
				m["db"] = mapWant{and(when, named), hasVal(db), "the database name"}
			}
			return m
		}
		unlimited := map[string]mapWant{"n": {always, hasVal(num(-1)), ""}}
		empty := mapField(nil, nil)
		text := func(s string) *reqWant { return &reqWant{0x10, []reqField{strField(Str(s)), empty}} }
		old := pv.n < 3
		pick := func(a, b *reqWant) *reqWant {
			if old {
				return a
			}
			return b
		}
		v4 := func(a, b *reqWant) *reqWant {
			if pv.n < 4 {
				return a
			}
			return b
		}
		reqs := []struct {
			m    string
			args []Value
			want *reqWant
		}{
			{"GetInitMessage", []Value{client, auth}, pick(
				&reqWant{0x01, []reqField{strField(client), mapField(auth, nil)}},
				&reqWant{0x01, []reqField{mapField(auth, map[string]mapWant{"user_agent": {always, hasVal(client), ""}})}})},
			{"GetRunMessage", []Value{query, params, db, mode, auto}, pick(
				&reqWant{0x10, []reqField{strField(query), mapField(params, nil)}},
				&reqWant{0x10, []reqField{strField(query), mapField(params, nil), mapField(nil, extra(isAuto), "db", "bookmarks", "tx_timeout", "tx_metadata")}})},
			{"GetTxBeginMessage", []Value{db, mode}, pick(text("BEGIN"),
				&reqWant{0x11, []reqField{mapField(nil, extra(always), "db", "bookmarks", "tx_timeout", "tx_metadata")}})},
			{"GetTxCommitMessage", nil, pick(text("COMMIT"), &reqWant{0x12, nil})},
			{"GetTxRollbackMessage", nil, pick(text("ROLLBACK"), &reqWant{0x13, nil})},
			{"GetCloseMessage", nil, pick(nil, &reqWant{0x02, nil})},
			{"GetPullAllMessage", nil, v4(&reqWant{0x3f, nil}, &reqWant{0x3f, []reqField{mapField(nil, unlimited)}})},
			{"GetDiscardAllMessage", nil, v4(&reqWant{0x2f, nil}, &reqWant{0x2f, []reqField{mapField(nil, unlimited)}})},
			{"GetDiscardMessage", []Value{qid}, v4(&reqWant{0x2f, nil}, &reqWant{0x2f, []reqField{mapField(nil, map[string]mapWant{
				"n":   {always, hasVal(num(-1)), ""},
				"qid": {func(st *State) tri { return not(st.truth(mkEQ0(addLin(atomOr(qid), num(1))))) }, hasVal(qid), "the query id"}})}})},
		}
		for _, r := range reqs {
			ip.steps = 0
			st := w.st.clone()
			for _, o := range w.callMethodOf(st, pv.typ, w.protoValue(st, pv.typ), r.m, r.args...) {
				if o.pan != nil {
					c.decide(no, fmt.Sprintf("v%d %s panics", pv.n, r.m), posOf(o), func() []string { return trace(c.p, o.st, 20) }, "version %d: %s panics", pv.n, r.m)
					continue
				}
				v := orNil(o.ret)
				if r.m == "GetCloseMessage" {
					vs := tupleOf(o)
					v = o.st.R(vs[0])
					c.decide(triOf(o.st.truth(o.st.R(vs[1])) == triOf(r.want != nil)), fmt.Sprintf("v%d %s", pv.n, r.m), posOf(o), nil, "version %d: %s says there is a goodbye message: %s", pv.n, r.m, vs[1].Key())
					if r.want == nil {
						continue
					}
				}
				c.request(w, &codec{proto: pv.typ}, o.st, &reqCase{w, fmt.Sprintf("v%d %s", pv.n, r.m), pv.n}, v, r.want)
			}
		}
		// reset is the same in all versions
		if f := w.p.fn("structures/messages", "NewResetMessage"); f != nil {
			st := w.st.clone()
			for _, o := range w.call(st, f) {
				v := orNil(o.ret)
				if _, ok := v.(*Iface); !ok && f.Signature.Results().Len() == 1 {
					v = &Iface{typ: f.Signature.Results().At(0).Type(), v: v}
				}
				c.request(w, &codec{proto: pv.typ}, o.st, &reqCase{w, fmt.Sprintf("v%d reset", pv.n), pv.n}, v, &reqWant{0x0f, nil})
			}
		}
		st := w.st.clone()
		for _, o := range w.callMethodOf(st, pv.typ, w.protoValue(st, pv.typ), "SupportsMultiDatabase") {
			c.decide(triOf(o.st.truth(orNil(o.ret)) == triOf(pv.n >= 4)), fmt.Sprintf("v%d SupportsMultiDatabase", pv.n), posOf(o), nil, "version %d: SupportsMultiDatabase says %s", pv.n, orNil(o.ret).Key())
		}
	}
	c.builders(w, mapT, modeT, readMode)
	c.constructors(w, pvs, mapT, modeT, readMode)
	c.covered(ip)
}

// constructors checks the exported constructors of requests with arguments the protocols leave at their defaults
func (c *Ctx) constructors(w *World, pvs []protoVersion, mapT types.Type, modeT types.Type, readMode *Lin) {
	ip := w.ip
	var cd *codec
	for _, pv := range pvs {
		if pv.n == 4 {
			cd = &codec{proto: pv.typ}
		}
	}
	dur := w.p.extType("time", "Duration")
	if cd == nil || dur == nil {
		return
	}
	n, qid := ip.fresh("n", tInt64), ip.fresh("qid", tInt64)
	query, db := ip.fresh("query", tString), ip.fresh("db", tString)
	params, meta := ip.fresh("params", mapT), ip.fresh("txmeta", mapT)
	mode, to := ip.fresh("mode", modeT), ip.fresh("timeout", dur)
	count := map[string]mapWant{
		"n":   {always, hasVal(n), ""},
		"qid": {func(st *State) tri { return not(st.truth(mkEQ0(addLin(atomOr(qid), num(1))))) }, hasVal(qid), "the query id"}}
	extra := map[string]mapWant{
		"mode": {func(st *State) tri { return st.truth(mkEQ0(subLin(atomOr(mode), readMode))) }, hasVal(Str("r")), "the access mode"},
		"db":   {func(st *State) tri { return not(st.truth(ip.equal(st, db, Str(""), tString))) }, hasVal(db), "the database name"}}
	for k, x := range txWants(ip, to, true, meta) {
		extra[k] = x
	}
	for _, b := range []struct {
		name string
		args []Value
		want *reqWant
	}{
		{"NewPullMessage", []Value{n, qid}, &reqWant{0x3f, []reqField{mapField(nil, count)}}},
		{"NewDiscardMessage", []Value{n, qid}, &reqWant{0x2f, []reqField{mapField(nil, count)}}},
		{"NewAutoCommitTxRunMessage", []Value{query, params, to, meta, db, mode}, &reqWant{0x10, []reqField{strField(query), mapField(params, nil), mapField(nil, extra, "bookmarks")}}},
		{"NewUnmanagedTxRunMessage", []Value{query, params}, &reqWant{0x10, []reqField{strField(query), mapField(params, nil), mapField(nil, nil)}}},
		{"NewBeginMessage", []Value{meta}, &reqWant{0x11, []reqField{mapField(meta, nil)}}},
		{"NewRunMessage", []Value{query, params}, &reqWant{0x10, []reqField{strField(query), mapField(params, nil)}}},
		{"NewInitMessage", []Value{query, meta}, &reqWant{0x01, []reqField{strField(query), mapField(meta, nil)}}},
		{"NewHelloMessage", []Value{meta}, &reqWant{0x01, []reqField{mapField(meta, nil)}}},
		{"NewCommitMessage", nil, &reqWant{0x12, nil}},
		{"NewRollbackMessage", nil, &reqWant{0x13, nil}},
		{"NewGoodbyeMessage", nil, &reqWant{0x02, nil}},
		{"NewPullAllMessage", nil, &reqWant{0x3f, nil}},
		{"NewDiscardAllMessage", nil, &reqWant{0x2f, nil}},
	} {
		f := w.p.fn("structures/messages", b.name)
		if f == nil || len(f.Params) != len(b.args) || f.Signature.Results().Len() != 1 {
			continue
		}
		same := true
		for i, a := range b.args {
			if s, ok := a.(*Sym); ok && !types.AssignableTo(s.typ, f.Params[i].Type()) {
				same = false
			}
		}
		if !same {
			continue
		}
		ip.steps = 0
		for _, o := range w.call(w.st.clone(), f, b.args...) {
			if o.pan != nil {
				c.decide(no, b.name+" panics", posOf(o), func() []string { return trace(c.p, o.st, 20) }, "%s panics", b.name)
				continue
			}
			v := orNil(o.ret)
			if _, ok := v.(*Iface); !ok {
				v = &Iface{typ: f.Signature.Results().At(0).Type(), v: v}
			}
			c.request(w, cd, o.st, &reqCase{w, b.name, 4}, v, b.want)
		}
	}
}

// builders checks the exported functions that build metadata and authentication tokens
func (c *Ctx) builders(w *World, mapT types.Type, modeT types.Type, readMode *Lin) {
	ip := w.ip
	mode, db := ip.fresh("mode", modeT), ip.fresh("db", tString)
	meta := ip.fresh("txmeta", mapT)
	reads := func(st *State) tri { return st.truth(mkEQ0(subLin(atomOr(mode), readMode))) }
	dur := w.p.extType("time", "Duration")
	for _, name := range []string{"BuildTxMetadataWithDatabase", "BuildTxMetadata"} {
		f := w.p.fn("structures/messages", name)
		if f == nil || dur == nil {
			continue
		}
		for _, given := range []bool{false, true} {
			ip.steps = 0
			st := w.st.clone()
			var tp Value = Nil{}
			to := ip.fresh("timeout", dur)
			if given {
				tp = ip.newObj(st, dur, to)
			}
			args := []Value{tp, meta, mode, Nil{}}
			if name == "BuildTxMetadataWithDatabase" {
				args = []Value{tp, meta, db, mode, Nil{}}
			}
			if len(f.Params) != len(args) {
				continue
			}
			want := map[string]mapWant{
				"mode": {reads, hasVal(Str("r")), "the access mode"},
			}
			for k, x := range txWants(ip, to, given, meta) {
				want[k] = x
			}
			if name == "BuildTxMetadataWithDatabase" {
				want["db"] = mapWant{func(st *State) tri { return not(st.truth(ip.equal(st, db, Str(""), tString))) }, hasVal(db), "the database name"}
			}
			for _, o := range w.call(st, f, args...) {
				if o.pan != nil {
					c.decide(no, name+" panics", posOf(o), func() []string { return trace(c.p, o.st, 20) }, "%s panics", name)
					continue
				}
				t, d := (&reqCase{w, name, 4}).mapIs(o.st, o.st.R(orNil(o.ret)), mapT, nil, want, "bookmarks")
				if t == no && len(o.st.notes) > 0 {
					t = unknown
				}
				c.decide(t, name+" "+firstWords(d), posOf(o), func() []string { return trace(c.p, o.st, 20) }, "%s: %s", name, d)
			}
		}
	}
	user, pass, realm := ip.fresh("user", tString), ip.fresh("password", tString), ip.fresh("realm", tString)
	is := func(v Value) mapWant { return mapWant{always, hasVal(v), ""} }
	for _, b := range []struct {
		name string
		args []Value
		want map[string]mapWant
	}{
		{"BuildAuthTokenBasicWithRealm", []Value{user, pass, realm}, map[string]mapWant{"scheme": is(Str("basic")), "principal": is(user), "credentials": is(pass),
			"realm": {func(st *State) tri { return not(st.truth(ip.equal(st, realm, Str(""), tString))) }, hasVal(realm), "the realm"}}},
		{"BuildAuthTokenBasic", []Value{user, pass}, map[string]mapWant{"scheme": is(Str("basic")), "principal": is(user), "credentials": is(pass)}},
		{"BuildAuthTokenKerberos", []Value{pass}, map[string]mapWant{"scheme": is(Str("kerberos")), "principal": is(Str("")), "credentials": is(pass)}},
	} {
		f := w.p.fn("structures/messages", b.name)
		if f == nil || len(f.Params) != len(b.args) {
			continue
		}
		ip.steps = 0
		for _, o := range w.call(w.st.clone(), f, b.args...) {
			if o.pan != nil {
				c.decide(no, b.name+" panics", posOf(o), func() []string { return trace(c.p, o.st, 20) }, "%s panics", b.name)
				continue
			}
			t, d := (&reqCase{w, b.name, 4}).mapIs(o.st, o.st.R(orNil(o.ret)), mapT, nil, b.want)
			if t == no && len(o.st.notes) > 0 {
				t = unknown
			}
			c.decide(t, b.name+" "+firstWords(d), posOf(o), func() []string { return trace(c.p, o.st, 20) }, "%s: %s", b.name, d)
		}
	}
}

// txWants are the entries for the timeout and the metadata of a transaction
func txWants(ip *Interp, to Value, given bool, meta Value) map[string]mapWant {
	return map[string]mapWant{
		"tx_timeout": {func(st *State) tri {
			if !given {
				return no
			}
			return not(st.truth(mkEQ0(atomOr(to))))
		}, func(st *State, v Value) tri {
			if i, ok := v.(*Iface); ok {
				v = i.v
			}
			if ms := ip.bin(st, token.QUO, to, num(1000000), types.Typ[types.Int64], types.Typ[types.Int64]); same(v, ms) {
				return yes
			}
			for _, ns := range []int64{1000000, 1500000000, 60000000000, 3723004000000} {
				r, ok := evalAt(v, map[string]*big.Rat{to.Key(): new(big.Rat).SetInt64(ns)})
				if !ok {
					return unknown
				}
				if r.Cmp(new(big.Rat).SetInt64(ns/1000000)) != 0 {
					return no
				}
			}
			return unknown
		}, "the timeout"},
		"tx_metadata": {func(st *State) tri {
			if st.truth(st.isNil(meta)) == yes {
				return no
			}
			return not(st.truth(mkEQ0(lenVal(meta))))
		}, func(st *State, v Value) tri {
			if i, ok := st.R(v).(*Iface); ok {
				v = st.R(i.v)
			}
			if same(v, meta) {
				return yes
			}
			if m, ok := v.(*MapV); ok {
				if mc := ip.mapC(st, m); same(orNil(mc.base), meta) && len(mc.ovr) == 0 {
					return yes
				}
			}
			return unknown
		}, "the metadata"},
	}
}

func firstWords(d string) string {
	w := strings.Fields(d)
	if len(w) > 3 {
		w = w[:3]
	}
	return strings.Join(w, " ")
}

func not(t tri) tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

func atomOr(v Value) *Lin {
	if l := asLin(v); l != nil {
		return l
	}
	return atomLin(v)
}

// constOf reads an integer constant of a package
func constOf(p *Program, rel, name string) *Lin {
	k := p.pkg(rel)
	if k == nil {
		return nil
	}
	if o, ok := k.Pkg.Scope().Lookup(name).(*types.Const); ok {
		if n, ok := constInt(o); ok {
			return num(n)
		}
	}
	return nil
}

// request encodes a request and compares it with its definition
func (c *Ctx) request(w *World, cd *codec, st *State, rc *reqCase, v Value, want *reqWant) {
	ip := w.ip
	s := &Stream{ob: quietStream}
	key := rc.name
	for _, o := range w.encodeWith(cd, st.clone(), s, num(65535), v) {
		if o.pan != nil || o.st.gBool("w.fail") || hasSym(o.st, "element error") {
			continue
		}
		c.counts["outcomes"]++
		tr := func() []string { return trace(c.p, o.st, 30) }
		sure := func(t tri) tri {
			if t == no && len(o.st.notes) > 0 {
				return unknown
			}
			return t
		}
		ok := o.st.truth(o.st.isNil(o.st.R(orNil(o.ret))))
		c.decide(sure(ok), key+" encoded", posOf(o), tr, "%s: the request can not be encoded", key)
		if ok != yes {
			continue
		}
		for _, p := range packParse(ip, o.st, unwindow(o.st, payload(o.st)).segs) {
			if p.kind != "struct" || p.err != "" {
				t := no
				if p.err != "" && !p.bad {
					t = unknown
				}
				c.decide(sure(t), key+" structure", posOf(o), tr, "%s is sent as %s %s", key, p.kind, p.err)
				continue
			}
			sg := asLin(orNil(p.sig))
			if sg == nil {
				c.decide(unknown, key+" signature", posOf(o), tr, "%s: signature %s", key, orNil(p.sig).Key())
				continue
			}
			c.decide(sure(decideEQ(p.st, sg, num(int64(want.sig)))), key+" signature", posOf(o), tr, "%s is sent with signature %s instead of %02X", key, p.st.rlin(sg).Key(), want.sig)
			if !p.size.isConst() {
				c.decide(unknown, key+" size", posOf(o), tr, "%s: size %s", key, p.size.Key())
				continue
			}
			c.decide(sure(triOf(p.size.int() == len(want.fields))), key+" size", posOf(o), tr, "%s announces %d fields instead of %d", key, p.size.int(), len(want.fields))
			fs, _, _, all := p.fields(ip)
			if !all || len(fs) != len(want.fields) {
				if all {
					c.decide(sure(no), key+" fields", posOf(o), tr, "%s has %d fields instead of %d", key, len(fs), len(want.fields))
				} else if len(fs) > 0 && fs[len(fs)-1].bad {
					c.decide(sure(no), key+" fields", posOf(o), tr, "%s: field %d is missing", key, len(fs)-1)
				} else {
					c.decide(unknown, key+" fields", posOf(o), tr, "%s: fields not readable", key)
				}
				continue
			}
			for k, f := range fs {
				t, d := want.fields[k](rc, p.st, f)
				c.decide(sure(t), fmt.Sprintf("%s field %d %s", key, k, firstWords(d)), posOf(o), tr, "%s field %d: %s", key, k, d)
				if t == yes {
					c.sample("%s field %d ok: %s", key, k, clip(f.Key(), 100))
				}
			}
		}
	}
}
