package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// buffers lists the byte buffers of a state
func buffers(st *State) map[int]*SeqV {
	m := map[int]*SeqV{}
	for id, o := range st.heap {
		if e, ok := st.R(o.val).(*Ext); ok && e.kind == "buffer" {
			if q, ok := st.R(e.vs[0]).(*SeqV); ok {
				m[id] = st.normSeq(q)
			}
		}
	}
	return m
}

// encRecursion summarises the recursive encoding of an element: it either appends the encoding of its
// argument to the buffer the encoder appends to, or fails. Which buffer that is, is found by interpreting
// the call for a nil element.
func encRecursion(ip *Interp, st *State, c *Call, outer stackEnt) []Outcome {
	k := anyArg(c.fn)
	if k < 0 || k >= len(c.args) {
		return nil
	}
	probe := st.clone()
	args := append([]Value(nil), c.args...)
	args[k] = Nil{}
	save := ip.recursion
	ip.recursion = nil
	outs := ip.callFn(probe, &Call{name: c.name, fn: c.fn, args: args, pos: c.pos, in: c.in, res: c.res}, nil)
	ip.recursion = save
	grown := -1
	before := buffers(st)
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		for id, q := range buffers(o.st) {
			if b := before[id]; b != nil && b.Key() != q.Key() {
				if grown >= 0 && grown != id {
					return nil
				}
				grown = id
			}
		}
	}
	if grown < 0 {
		return nil
	}
	bp := &Ptr{obj: grown}
	q := before[grown]
	if ip.onElement != nil && !ip.recSeen[c.fn] {
		if ip.recSeen == nil {
			ip.recSeen = map[*ssa.Function]bool{}
		}
		ip.recSeen[c.fn] = true
		// the summary holds only if an element goes nowhere else, whatever is buffered already
		ps := st.clone()
		n := ip.fresh("buffered", tInt)
		ps.addCon(negLin(asLin(n)))
		sv := ip.fresh("v", tString)
		ip.bufSet(ps, bp, mkSeq(tByte, Seg{kind: 'r', v: ip.fresh("prefix", tString), from: num(0), n: asLin(n)}))
		args[k] = &Iface{typ: tString, v: sv}
		ip.recursion = nil
		outs := ip.callFn(ps, &Call{name: c.name, fn: c.fn, args: args, pos: c.pos, in: c.in, res: c.res}, nil)
		ip.recursion = save
		for _, o := range outs {
			if o.pan == nil {
				ip.onElement(st, o, c)
			}
		}
	}
	good, bad := st.clone(), st.clone()
	if ip.smallEls {
		good.addCon(addLin(atomLin(mkApp("enclen", tInt, st.R(c.args[k]))), num(-1000)))
	}
	ip.bufSet(good, bp, good.concat(q, mkSeq(tByte, Seg{kind: 'e', v: st.R(c.args[k])})))
	ip.bufSet(bad, bp, bad.concat(q, mkSeq(tByte, Seg{kind: 'j'})))
	bad.setG("err:element error", Bool(true))
	return []Outcome{{st: good, ret: Nil{}}, {st: bad, ret: ip.newErr(bad, "element error")}}
}

// anyArg is the index of the empty interface parameter of a function that only returns an error
func anyArg(fn *ssa.Function) int {
	if fn == nil {
		return -1
	}
	k := -1
	for i, p := range fn.Params {
		if isAny(p.Type()) {
			if k >= 0 {
				return -1
			}
			k = i
		}
	}
	if fn.Signature.Results().Len() != 1 {
		return -1
	}
	return k
}

// ---- the stream of chunks

// Stream follows what is written to a transport: chunk headers, payload and end markers
type Stream struct {
	chunk Value // the configured chunk size, nil for any
	ob    func(st *State, t tri, rule string, pos token.Pos, fn *ssa.Function, detail string)
}

func lg(st *State, name string) *Lin {
	if l := asLin(st.g(name)); l != nil {
		return st.rlin(l)
	}
	return num(0)
}

func payload(st *State) *SeqV {
	if q, ok := st.R(st.g("w.sent")).(*SeqV); ok {
		return st.normSeq(q)
	}
	return mkSeq(tByte)
}

func (s *Stream) reset(st *State) {
	st.setG("w.pend", num(0))
	st.setG("w.sent", mkSeq(tByte))
	st.setG("w.ends", num(0))
	st.setG("w.fail", Bool(false))
	st.setG("w.any", Bool(false))
}

// hook models Write on the transport
func (s *Stream) hook(ip *Interp, st *State, c *Call) []Outcome {
	if a, ok := st.R(c.args[0]).(*App); !ok || a.op != "global:writer" {
		return nil
	}
	q := st.normSeq(ip.bytesOf(st, c.args[1]))
	bad := st.clone()
	bad.setG("w.fail", Bool(true))
	n := ip.fresh("n", tInt)
	err := ip.newErr(bad, "write error")
	outs := []Outcome{{st: bad, ret: &Tuple{[]Value{n, err}}}}
	good := st
	if bool(good.gBool("w.fail")) {
		s.ob(good, no, "write after a failed write", c.pos, c.in, "bytes follow a chunk that may be incomplete")
	}
	good.setG("w.any", Bool(true))
	for _, g := range s.consume(ip, good, q, c, 0) {
		outs = append(outs, Outcome{st: g, ret: &Tuple{[]Value{q.length(), Nil{}}}})
	}
	return outs
}

func (s *Stream) consume(ip *Interp, st *State, q *SeqV, c *Call, depth int) []*State {
	q = st.normSeq(q)
	if len(q.segs) == 0 || depth > 8 {
		return []*State{st}
	}
	pend := lg(st, "w.pend")
	zero, some := branch(st, mkEQ0(pend))
	var out []*State
	if zero != nil {
		head, rest, ok := zero.split(q, num(2))
		if !ok && zero.proveEQ(q.length(), num(2)) {
			head, rest, ok = q, mkSeq(tByte), true
		}
		if !ok {
			s.ob(zero, unknown, "chunk header", c.pos, c.in, "written bytes "+q.Key())
			zero.note("stream lost")
			return append(out, zero)
		}
		v := ip.numOf(zero, head, 2, false)
		z, nz := branch(zero, mkEQ0(v))
		if z != nil {
			z.setG("w.ends", addLin(lg(z, "w.ends"), num(1)))
			// an end marker closes a message that has begun
			out = append(out, s.consume(ip, z, rest, c, depth+1)...)
		}
		if nz != nil {
			s.ob(nz, yes, "chunk header", c.pos, c.in, "")
			if cs := asLin(nz.R(orNil(s.chunk))); cs != nil {
				le := decideLE(nz, v, cs)
				if nz.truth(mkEQ0(cs)) == yes {
					le = yes
				} else if le == no && nz.truth(mkEQ0(cs)) != no {
					le = unknown
				}
				s.ob(nz, le, "chunk size", c.pos, c.in, "chunk of "+v.Key()+" bytes with a configured size of "+cs.Key())
			}
			s.ob(nz, triOf(lg(nz, "w.ends").is(0)), "end marker", c.pos, c.in, "a chunk follows the end marker of the message")
			nz.setG("w.pend", v)
			out = append(out, s.consume(ip, nz, rest, c, depth+1)...)
		}
	}
	if some != nil {
		n := q.length()
		pend = some.rlin(pend)
		switch {
		case some.proveLE(n, pend):
			some.setG("w.sent", some.concat(payload(some), q))
			some.setG("w.pend", some.rlin(subLin(pend, n)))
			out = append(out, some)
		case some.proveLT(pend, n):
			a, b, ok := some.split(q, pend)
			if !ok {
				s.ob(some, unknown, "chunk payload", c.pos, c.in, "written bytes "+q.Key())
				return append(out, some)
			}
			some.setG("w.sent", some.concat(payload(some), a))
			some.setG("w.pend", num(0))
			out = append(out, s.consume(ip, some, b, c, depth+1)...)
		default:
			s.ob(some, unknown, "chunk payload", c.pos, c.in, "announced "+pend.Key()+" wrote "+n.Key())
			some.note("stream lost")
			out = append(out, some)
		}
	}
	return out
}

func orNil(v Value) Value {
	if v == nil {
		return Nil{}
	}
	return v
}

// decideEQ answers whether a = b in every concretisation of the state (yes), differs in one (no)
func decideEQ(st *State, a, b *Lin) tri {
	if st.proveEQ(a, b) {
		return yes
	}
	return refuteLin(st, st.rlin(subLin(a, b)), func(lo, hi int) bool { return lo > 0 || hi < 0 })
}

func decideLE(st *State, a, b *Lin) tri {
	if st.proveLE(a, b) {
		return yes
	}
	if st.proveLT(b, a) {
		return no
	}
	d := st.rlin(subLin(a, b))
	if impreciseLin(st, d) || len(st.notes) > 0 {
		return unknown
	}
	if witness(st, []*Lin{addLin(negLin(d), num(1))}, nil) {
		return no
	}
	return unknown
}

func atomConsOf(st *State, d *Lin) []*Lin {
	var out []*Lin
	for _, t := range d.ts {
		for _, c := range st.cons {
			for _, u := range c.ts {
				if same(u.a, t.a) {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// impreciseLin tells whether a term stands for something the analysis made up
func impreciseLin(st *State, d *Lin) bool {
	return contains(d, func(v Value) bool {
		s, ok := v.(*Sym)
		return ok && strings.HasPrefix(s.name, "~")
	})
}

func refuteLin(st *State, d *Lin, off func(lo, hi int) bool) tri {
	lo, hi := st.rangeOf(d)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return no
	}
	if impreciseLin(st, d) || len(st.notes) > 0 {
		return unknown
	}
	// not equal for some values of its terms
	if witness(st, nil, []*Lin{d}) {
		return no
	}
	return unknown
}

// unwindow replaces complete windows on a message by the message
func unwindow(st *State, q *SeqV) *SeqV {
	q = st.normSeq(q)
	var out []Seg
	ch := false
	for _, g := range q.segs {
		if g.kind == 'r' {
			if b, ok := g.v.(*SeqV); ok && st.rlin(g.from).is(0) && st.proveEQ(g.n, b.length()) {
				out = append(out, unwindow(st, b).segs...)
				ch = true
				continue
			}
		}
		out = append(out, g)
	}
	if !ch {
		return q
	}
	return st.normSeq(mkSeq(q.elem, out...))
}

// ---- PackStream values

// PS is a PackStream value in a sequence of abstract bytes
type PS struct {
	kind   string // nil bool int float string bytes list map struct enc
	v      Value  // bool, int, float: the value; enc: the Go value
	size   *Lin
	sig    Value
	body   []Seg // string: the text; list, map, struct: the elements
	marker int
	width  int
	st     *State // the case this reading belongs to
	rest   []Seg
	err    string
	bad    bool // certainly not the encoding of a value
}

// packParse reads one value from the front of segs; several readings when the marker is not determined
func packParse(ip *Interp, st *State, segs []Seg) []*PS {
	segs = st.normSeq(mkSeq(tByte, segs...)).segs
	if len(segs) == 0 {
		return []*PS{{kind: "none", st: st, err: "no value", bad: true}}
	}
	g := segs[0]
	if g.kind == 'e' {
		return []*PS{{kind: "enc", v: st.R(g.v), st: st, rest: segs[1:]}}
	}
	if g.kind != 'i' {
		return []*PS{{kind: "?", st: st, err: "value starts with " + g.Key(), rest: segs}}
	}
	l := asLin(st.R(g.v))
	if l == nil {
		return []*PS{{kind: "?", st: st, err: "marker " + g.v.Key()}}
	}
	if a, ok := l.atom().(*App); ok && a.op == "conv:uint8" && asLin(a.args[0]) != nil {
		// the low byte of a number
		x := asLin(a.args[0])
		lo, hi := st.rangeOf(st.rlin(x))
		if lo != nil && hi != nil && lo.Cmp(bi(-16)) >= 0 && hi.Cmp(bi(127)) <= 0 {
			return []*PS{{kind: "int", st: st, v: st.rlin(x), rest: segs[1:]}}
		}
	}
	if !l.isConst() {
		// which class of marker
		var out []*PS
		for _, r := range markerClasses {
			s := st.clone()
			if !s.addCon(subLin(num(int64(r.lo)), l)) || !s.addCon(subLin(l, num(int64(r.hi)))) {
				continue
			}
			if r.kind == "" {
				m := s.rlin(l)
				if m.isConst() {
					out = append(out, packFixed(ip, s, m.int(), segs[1:])...)
				} else {
					lo, hi := s.rangeOf(m)
					out = append(out, &PS{kind: "?", st: s, err: fmt.Sprintf("marker in %v..%v", lo, hi)})
				}
				continue
			}
			n := subLin(l, num(int64(r.lo)))
			p := &PS{kind: r.kind, st: s, marker: r.lo, size: s.rlin(n), rest: segs[1:]}
			if r.kind == "int" {
				p.width = 0
				p.v = s.rlin(l)
				if r.lo == 0xf0 {
					p.v = s.rlin(subLin(l, num(256)))
				}
			} else {
				packBody(s, p)
			}
			out = append(out, p)
		}
		return out
	}
	return packFixed(ip, st, l.int(), segs[1:])
}

var markerClasses = []struct {
	lo, hi int
	kind   string
}{{0, 0x7f, "int"}, {0x80, 0x8f, "string"}, {0x90, 0x9f, "list"}, {0xa0, 0xaf, "map"}, {0xb0, 0xbf, "struct"}, {0xc0, 0xef, ""}, {0xf0, 0xff, "int"}}

func packFixed(ip *Interp, st *State, m int, rest []Seg) []*PS {
	p := &PS{st: st, marker: m, rest: rest}
	num_ := func(w int, signed bool) *Lin {
		a, b, ok := st.split(mkSeq(tByte, p.rest...), num(int64(w)))
		if !ok {
			q := mkSeq(tByte, p.rest...)
			p.err = "field of marker " + fmt.Sprintf("%02X", m) + " is " + q.Key()
			p.bad = q.length() != nil && st.prove(st.rlin(subLin(q.length(), num(int64(w-1)))))
			return num(0)
		}
		p.rest = b.segs
		p.width = w
		a = st.normSeq(a)
		a = mkSeq(tByte, st.canonBytes(a.segs)...)
		if len(a.segs) == 1 && (a.segs[0].kind == 'n' && a.segs[0].w == w || a.segs[0].kind == 'i' && w == 1) {
			v := st.R(a.segs[0].v)
			p.v = v
			if l := asLin(v); l != nil {
				return l
			}
		}
		l := ip.numOf(st, a, w, false)
		p.v = l
		return l
	}
	switch {
	case m <= 0x7f:
		p.kind, p.v = "int", num(int64(m))
	case m >= 0xf0:
		p.kind, p.v = "int", num(int64(m-256))
	case m <= 0x8f:
		p.kind, p.size = "string", num(int64(m-0x80))
	case m <= 0x9f:
		p.kind, p.size = "list", num(int64(m-0x90))
	case m <= 0xaf:
		p.kind, p.size = "map", num(int64(m-0xa0))
	case m <= 0xbf:
		p.kind, p.size = "struct", num(int64(m-0xb0))
	case m == 0xc0:
		p.kind = "nil"
	case m == 0xc1:
		p.kind = "float"
		num_(8, false)
	case m == 0xc2, m == 0xc3:
		p.kind, p.v = "bool", Bool(m == 0xc3)
	case m >= 0xc8 && m <= 0xcb:
		p.kind = "int"
		num_(1<<uint(m-0xc8), true)
	case m >= 0xcc && m <= 0xce:
		p.kind = "bytes"
		p.size = num_(1<<uint(m-0xcc), false)
	case m >= 0xd0 && m <= 0xd2:
		p.kind = "string"
		p.size = num_(1<<uint(m-0xd0), false)
	case m >= 0xd4 && m <= 0xd6:
		p.kind = "list"
		p.size = num_(1<<uint(m-0xd4), false)
	case m >= 0xd8 && m <= 0xda:
		p.kind = "map"
		p.size = num_(1<<uint(m-0xd8), false)
	case m == 0xdc || m == 0xdd:
		p.kind = "struct"
		p.size = num_(1<<uint(m-0xdc), false)
	default:
		p.kind, p.err, p.bad = "?", fmt.Sprintf("marker %02X is not defined", m), true
	}
	packBody(st, p)
	return []*PS{p}
}

// packBody separates the content of a container from what follows it
func packBody(st *State, p *PS) {
	if p.err != "" || p.size == nil {
		return
	}
	switch p.kind {
	case "struct":
		if len(p.rest) == 0 || p.rest[0].kind != 'i' {
			p.err = "structure without a signature"
			p.bad = len(p.rest) == 0
			return
		}
		p.sig = st.R(p.rest[0].v)
		p.rest = p.rest[1:]
		p.body, p.rest = p.rest, nil
	case "string", "bytes":
		if a, b, ok := st.split(mkSeq(tByte, p.rest...), p.size); ok {
			p.body, p.rest = a.segs, b.segs
		} else {
			p.body, p.rest = p.rest, nil
		}
	default:
		p.body, p.rest = p.rest, nil
	}
}

// fields reads the elements of a container; nil when their number is not fixed
func (p *PS) fields(ip *Interp) ([]*PS, *State, []Seg, bool) {
	if !p.size.isConst() {
		return nil, p.st, nil, false
	}
	n := p.size.int()
	if p.kind == "map" {
		n *= 2
	}
	var out []*PS
	segs, st := p.body, p.st
	for k := 0; k < n; k++ {
		r := packParse(ip, st, segs)
		if len(r) != 1 {
			return out, st, segs, false
		}
		f := r[0]
		if f.err == "" && (f.kind == "list" || f.kind == "map" || f.kind == "struct") {
			// the extent of the container
			sub, s2, rest, ok := f.fields(ip)
			_ = sub
			if !ok {
				f.rest = nil
				out = append(out, f)
				return out, s2, rest, k == n-1
			}
			f.rest = rest
			st = s2
		}
		out = append(out, f)
		if f.err != "" {
			return out, st, f.rest, false
		}
		segs = f.rest
		st = f.st
	}
	return out, st, segs, true
}

// ---- encoders and decoders of the protocol versions

type codec struct {
	name     string
	proto    types.Type
	enc      types.Type
	dec      types.Type
	newEnc   func(st *State, w Value, chunk Value) (Value, *State)
	versions []string
}

// protocolTypes lists the types of the module that implement the protocol interface
func protocolTypes(p *Program) []types.Type {
	it := p.typ("protocol", "IBoltProtocol")
	if it == nil {
		return nil
	}
	i := it.Underlying().(*types.Interface)
	var out []types.Type
	for _, k := range p.pkgs {
		sc := k.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || !p.isModule(k.Types) {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if pt := types.NewPointer(tn.Type()); types.Implements(pt, i) {
				out = append(out, pt)
			}
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].String() < out[b].String() })
	return out
}

// protoValue is a pointer to a zero protocol value
func (w *World) protoValue(st *State, t types.Type) Value {
	return w.ip.newObj(st, derefType(t), w.ip.zero(derefType(t)))
}

// encoders finds the encoder implementations the protocol versions use
func (w *World) encoders() []*codec {
	var out []*codec
	for _, t := range protocolTypes(w.p) {
		st := w.st.clone()
		pv := w.protoValue(st, t)
		wv := nonNil(st, mkApp("global:writer", w.p.extType("io", "Writer")))
		var et types.Type
		for _, o := range w.callMethodOf(st, t, pv, "NewEncoder", wv, num(65535)) {
			if i, ok := o.st.R(orNil(o.ret)).(*Iface); ok {
				et = i.typ
			}
		}
		var dt types.Type
		rv := nonNil(st, mkApp("global:reader", w.p.extType("io", "Reader")))
		for _, o := range w.callMethodOf(st, t, pv, "NewDecoder", rv) {
			if i, ok := o.st.R(orNil(o.ret)).(*Iface); ok {
				dt = i.typ
			}
		}
		if et == nil || dt == nil {
			w.ip.trouble["no encoder for "+typeName(t)]++
			continue
		}
		found := false
		for _, c := range out {
			if types.Identical(c.enc, et) && types.Identical(c.dec, dt) {
				c.versions = append(c.versions, typeName(t))
				found = true
			}
		}
		if !found {
			out = append(out, &codec{name: pkgOfType(et), proto: t, enc: et, dec: dt, versions: []string{typeName(t)}})
		}
	}
	return out
}

func pkgOfType(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		s := n.Obj().Pkg().Path()
		return s[strings.LastIndex(s, "/")+1:]
	}
	return typeName(t)
}

// encodeWith creates an encoder and encodes v; the stream ghosts tell what was sent
func (w *World) encodeWith(c *codec, st *State, s *Stream, chunk Value, v Value) []Outcome {
	return w.encodeSeq(c, st, s, chunk, v)
}

type encRun struct {
	o   Outcome
	enc *Iface
}

func (w *World) encodeSeq(c *codec, st *State, s *Stream, chunk Value, v Value) []Outcome {
	var outs []Outcome
	for _, r := range w.encodeRuns(c, st, s, chunk, v) {
		outs = append(outs, r.o)
	}
	return outs
}

func (w *World) encodeRuns(c *codec, st *State, s *Stream, chunk Value, v Value) []encRun {
	ip := w.ip
	ip.hooks["(io.Writer).Write"] = s.hook
	ip.recursion = encRecursion
	s.reset(st)
	wv := nonNil(st, mkApp("global:writer", w.p.extType("io", "Writer")))
	pv := w.protoValue(st, c.proto)
	var outs []encRun
	for _, o := range w.callMethodOf(st, c.proto, pv, "NewEncoder", wv, chunk) {
		i, ok := o.st.R(orNil(o.ret)).(*Iface)
		if !ok || o.pan != nil {
			continue
		}
		for _, e := range w.callMethodOf(o.st, i.typ, i.v, "Encode", v) {
			outs = append(outs, encRun{e, i})
		}
	}
	return outs
}
