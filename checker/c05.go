package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkC05 }

func kindOfType(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsFloat != 0:
			return "float"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsString != 0:
			return "string"
		}
	case *types.Slice:
		return "list"
	case *types.Map:
		return "map"
	case *types.Struct, *types.Pointer:
		return "struct"
	}
	return "?"
}

func decvTerm(i int) Value { return wrapTyp(mkApp("decv", tAny, num(int64(i)))) }

// isTests lists the dynamic types values were found to have on a path, by the key of the value
func isTests(st *State) map[string]string {
	m := map[string]string{}
	for _, k := range sortedKeys(st.bind) {
		e := st.bind[k]
		if a, ok := e.term.(*App); ok && strings.HasPrefix(a.op, "is:") {
			if b, ok := e.val.(Bool); ok && bool(b) {
				m[a.args[0].Key()] = a.op[3:]
			}
		}
	}
	return m
}

func kindOfName(n string) string {
	switch {
	case n == "int64" || n == "int":
		return "int"
	case n == "float64":
		return "float"
	case strings.HasPrefix(n, "[]"):
		return "list"
	case strings.HasPrefix(n, "map["):
		return "map"
	case n == "bool" || n == "string":
		return n
	}
	return "struct"
}

// decShape is what a decoder reads for a structure signature
type decShape struct {
	sig   int
	typ   types.Type
	n     int
	kinds []string
	st    *State
	v     *Iface
}

// structShapes decodes structures with every signature
func structShapes(w *World, ent decEntry) []decShape {
	ip := w.ip
	var out []decShape
	for sig := 0; sig < 256; sig++ {
		for n := 0; n <= 15; n++ {
			ip.steps = 0
			st := ent.st.clone()
			body, _ := rawInput(st, "body", nil)
			ok := false
			for _, o := range w.decodeValue(ent, st, item(num(int64(0xb0+n))), item(num(int64(sig))), body) {
				if o.pan != nil {
					continue
				}
				vs := tupleOf(o)
				if o.st.truth(o.st.isNil(o.st.R(vs[1]))) != yes {
					continue
				}
				ok = true
				i, isI := o.st.R(vs[0]).(*Iface)
				if !isI || !lg(o.st, "dec.n").is(int64(n)) {
					continue
				}
				sh := decShape{sig: sig, typ: i.typ, n: n, st: o.st, v: i}
				tests := isTests(o.st)
				for k := 0; k < n; k++ {
					kd := "any"
					if t, ok := tests[decvTerm(k).Key()]; ok {
						kd = kindOfName(t)
					}
					sh.kinds = append(sh.kinds, kd)
				}
				out = append(out, sh)
			}
			if !ok && n == 0 {
				// most signatures are not defined at all
				st := ent.st.clone()
				body, _ := rawInput(st, "body", nil)
				some := false
				for _, o := range w.decodeValue(ent, st, item(num(0xb3)), item(num(int64(sig))), body) {
					if lg(o.st, "dec.n").c.Sign() > 0 || len(o.st.notes) > 0 {
						some = true
					}
				}
				if !some {
					break
				}
			}
		}
	}
	return out
}

func isMessage(t types.Type) bool {
	n, ok := derefType(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/structures/messages")
}

func checkC05(c *Ctx) {
	c.rule = "every value the decoder of a protocol version can return is handed, as the abstract value it was decoded to, to the encoder of the same version; the structure emitted is compared with what the decoder reads"
	c.explain = "One obligation per (codec, structure signature, outcome) for acceptance, signature, number, order and kind of the fields, and per dynamic type occurring in a field for its acceptance."
	w := newWorld(c.p)
	ip := w.ip
	ip.smallEls = true // one chunk is enough; cutting into chunks is C04
	for _, cd := range w.encoders() {
		ents := framing(newCtx(c.p, c.id), w, cd)
		if len(ents) == 0 || ents[0].buf == nil {
			c.decide(unknown, cd.name+" entry", cdPos(w, cd), nil, "%s: no call of a value decoder found", cd.name)
			continue
		}
		ent := ents[0]
		shapes := structShapes(w, ent)
		sigs := map[string]map[int]bool{}
		for _, sh := range shapes {
			k := typeFull(sh.typ)
			if sigs[k] == nil {
				sigs[k] = map[int]bool{}
			}
			sigs[k][sh.sig] = true
		}
		seen := map[string]types.Type{}
		for _, sh := range shapes {
			c.counts["structures"]++
			if isMessage(sh.typ) {
				continue
			}
			c.reencode(w, cd, sh, shapes, sigs[typeFull(sh.typ)], seen)
		}
		// scalars, lists and maps, and what occurs inside of structures
		for _, t := range []types.Type{tBool, tInt64, types.Typ[types.Float64], tString, types.NewSlice(tAny), types.NewMap(tString, tAny)} {
			seen[typeFull(t)] = t
		}
		for _, k := range sortedKeys(seen) {
			ip.steps = 0
			st := w.st.clone()
			v := ip.fresh("v", seen[k])
			c.accepted(w, cd, st, &Iface{typ: seen[k], v: v}, k)
		}
	}
	c.covered(ip)
}

// accepted checks that a value of a type can be encoded
func (c *Ctx) accepted(w *World, cd *codec, st *State, v *Iface, name string) {
	s := &Stream{ob: quietStream}
	key := cd.name + " " + name + " accepted"
	some := tri(unknown)
	for _, o := range w.encodeWith(cd, st, s, num(65535), v) {
		if o.pan != nil || o.st.gBool("w.fail") || hasSym(o.st, "element error") {
			continue
		}
		if o.st.truth(o.st.isNil(o.st.R(orNil(o.ret)))) == yes {
			some = yes
		} else if some != yes && len(o.st.notes) == 0 {
			some = no
		}
	}
	c.decide(some, key, cdPos(w, cd), nil, "%s: a %s, which the decoder can return, is not accepted by the encoder", cd.name, name)
}

var quietStream = func(st *State, t tri, rule string, pos tokenPos, fn *ssa.Function, detail string) {}

func (c *Ctx) reencode(w *World, cd *codec, sh decShape, shapes []decShape, sigs map[int]bool, seen map[string]types.Type) {
	ip := w.ip
	ip.steps = 0
	name := fmt.Sprintf("%s signature %02X", cd.name, sh.sig)
	s := &Stream{ob: quietStream}
	st := sh.st.clone()
	for _, o := range w.encodeWith(cd, st, s, num(65535), sh.v) {
		if o.pan != nil || o.st.gBool("w.fail") || hasSym(o.st, "element error") {
			continue
		}
		c.counts["outcomes"]++
		tr := func() []string { return trace(c.p, o.st, 30) }
		sure := func(t tri) tri {
			if t == no && len(o.st.notes) > 0 {
				return unknown
			}
			return t
		}
		err := o.st.R(orNil(o.ret))
		ok := o.st.truth(o.st.isNil(err))
		c.decide(sure(ok), name+" accepted", posOf(o), tr, "%s: the %s the decoder returns is refused by the encoder", name, typeName(sh.typ))
		if ok != yes {
			continue
		}
		q := unwindow(o.st, payload(o.st))
		ps := packParse(ip, o.st, q.segs)
		for _, p := range ps {
			if p.kind != "struct" || p.err != "" {
				t := no
				if !p.bad && (p.err != "" || p.kind == "?") {
					t = unknown
				}
				c.decide(sure(t), name+" shape", posOf(o), tr, "%s: the %s the decoder returns is sent as %s %s", name, typeName(sh.typ), p.kind, p.err)
				continue
			}
			sg := asLin(orNil(p.sig))
			if sg == nil || !p.st.rlin(sg).isConst() {
				c.decide(unknown, name+" signature", posOf(o), tr, "%s: signature %s", name, orNil(p.sig).Key())
				continue
			}
			to := p.st.rlin(sg).int()
			c.decide(sure(triOf(sigs[to])), name+" signature", posOf(o), tr, "%s: the %s the decoder returns is sent with signature %02X, which does not decode to this type", name, typeName(sh.typ), to)
			// what the decoder reads for the signature that is sent
			var want *decShape
			for k := range shapes {
				if shapes[k].sig == to && types.Identical(shapes[k].typ, sh.typ) {
					want = &shapes[k]
				}
			}
			if want == nil {
				continue
			}
			if !p.size.isConst() {
				c.decide(unknown, name+" size", posOf(o), tr, "%s: size %s", name, p.size.Key())
				continue
			}
			c.decide(sure(triOf(p.size.int() == want.n)), name+" size", posOf(o), tr, "%s: %d fields are announced, the decoder reads %d", name, p.size.int(), want.n)
			fs, _, rest, all := p.fields(ip)
			t := triOf(all && len(fs) == want.n && len(rest) == 0)
			if !all {
				t = unknown
				if len(fs) > 0 && fs[len(fs)-1].bad || len(fs) == 0 && want.n > 0 {
					t = no
				}
			}
			c.decide(sure(t), name+" fields", posOf(o), tr, "%s: %d fields are sent, the decoder reads %d", name, len(fs), want.n)
			if t != yes {
				continue
			}
			for k, f := range fs {
				c.field(o, p.st, name, sh, want, k, f, sure, seen)
			}
		}
	}
}

// field compares one field of the emitted structure with what the decoder reads there
func (c *Ctx) field(o Outcome, st *State, name string, sh decShape, want *decShape, k int, f *PS, sure func(tri) tri, seen map[string]types.Type) {
	tr := func() []string { return trace(c.p, o.st, 30) }
	kind := f.kind
	var v Value = orNil(f.v)
	if f.kind == "enc" {
		i, ok := st.R(f.v).(*Iface)
		if ok {
			kind, v = kindOfType(i.typ), i.v
			if kind == "list" || kind == "struct" || kind == "map" {
				seen[typeFull(i.typ)] = i.typ
			}
		} else if _, isNil := st.R(f.v).(Nil); isNil {
			kind = "nil"
		} else if tt, ok := isTests(st)[f.v.Key()]; ok {
			kind, v = kindOfName(tt), f.v
		} else {
			kind = "?"
		}
	}
	if kind != "list" {
		c.sample("%s field %d: %s (%s expected) = %s", name, k, kind, want.kinds[k], clip(v.Key(), 160))
	}
	t := triOf(kind == want.kinds[k] || want.kinds[k] == "any")
	if kind == "?" {
		t = unknown
	}
	c.decide(sure(t), fmt.Sprintf("%s field %d kind", name, k), posOf(o), tr, "%s: field %d is sent as %s, the decoder reads %s", name, k, kind, want.kinds[k])
	if roles := temporalRoles[want.sig]; k < len(roles) && !inModule(c.p, sh.typ) {
		if got := roleOf(v); got != "" && roles[k] != "" {
			c.decide(sure(triOf(got == roles[k])), fmt.Sprintf("%s field %d meaning", name, k), posOf(o), tr, "%s: field %d is the %s, it should be the %s", name, k, got, roles[k])
		}
	}
	if want.sig != sh.sig || contains(v, isMadeUp) {
		return
	}
	own := reaches(st, v, decvTerm(k))
	if sl, ok := v.(*Slice); ok && own {
		if n := receivedLen(st, k); n != nil {
			c.decide(sure(decideEQ(st, sl.len, n)), fmt.Sprintf("%s field %d length", name, k), posOf(o), tr, "%s: %s elements of field %d are sent back, %s were received", name, st.rlin(sl.len).Key(), k, st.rlin(n).Key())
		}
	}
	other := -1
	for j := 0; j < sh.n; j++ {
		if j != k && reaches(st, v, decvTerm(j)) {
			other = j
		}
	}
	if !inModule(c.p, sh.typ) && !own && other < 0 {
		return // a library value may spread over its fields in another way
	}
	if !own && other < 0 && (kind == "list" || kind == "map") {
		// nothing of an empty container is left
		if n := receivedLen(st, k); n != nil && st.prove(st.rlin(n)) {
			return
		}
	}
	d := "a constant"
	if other >= 0 {
		d = fmt.Sprintf("field %d", other)
	}
	c.decide(sure(triOf(own)), fmt.Sprintf("%s field %d value", name, k), posOf(o), tr, "%s: field %d is sent back as %s of what was received (%s)", name, k, d, clip(v.Key(), 200))
}

// what the fields of temporal structures mean, and which library functions compute it
var temporalRoles = map[int][]string{
	0x44: {"day"},
	0x45: {"", "", "second", "nanosecond"},
	0x46: {"second", "nanosecond", "offset"},
	0x54: {"nanosecond of the day", "offset"},
	0x64: {"second", "nanosecond"},
	0x74: {"nanosecond of the day"},
}

func roleOf(v Value) string {
	l := asLin(v)
	if l == nil {
		return ""
	}
	a, ok := l.atom().(*App)
	if !ok {
		return ""
	}
	switch op := a.op; {
	case strings.HasSuffix(op, ".ToEpochDays"):
		return "day"
	case strings.HasSuffix(op, ".Unix"), strings.HasSuffix(op, ".Seconds"), op == "/" && len(a.args) == 2 && a.args[1].Key() == num(1000000000).Key():
		return "second"
	case strings.HasSuffix(op, ".Nanosecond"), op == "%" && len(a.args) == 2 && a.args[1].Key() == num(1000000000).Key():
		return "nanosecond"
	case strings.HasSuffix(op, ".ToDayNano"), strings.HasSuffix(op, ".ToDayNanoSecond"):
		return "nanosecond of the day"
	case strings.HasSuffix(op, ".Zone#1"):
		return "offset"
	}
	return ""
}

// receivedLen is the length of the list or map received as field k
func receivedLen(st *State, k int) *Lin {
	if t, ok := isTests(st)[decvTerm(k).Key()]; ok {
		return lenVal(mkApp("as:"+t, nil, decvTerm(k)))
	}
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func inModule(p *Program, t types.Type) bool {
	n, ok := derefType(t).(*types.Named)
	return ok && p.isModule(n.Obj().Pkg())
}
