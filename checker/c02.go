package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C02"] = checkC02 }

// isDecodeFn: a function that yields a decoded value or an error
func isDecodeFn(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	r := fn.Signature.Results()
	return r.Len() == 2 && isAny(r.At(0).Type()) && types.Identical(r.At(1).Type(), tError)
}

// decBuffer finds the buffer a decoding function reads from
func decBuffer(ip *Interp, st *State, args []Value) (*Ptr, *SeqV) {
	get := func(p *Ptr) *SeqV {
		if len(p.path) > 0 {
			return nil
		}
		o := st.heap[p.obj]
		if o == nil {
			return nil
		}
		e, ok := st.R(o.val).(*Ext)
		if !ok || e.kind != "buffer" {
			return nil
		}
		q, _ := st.R(e.vs[0]).(*SeqV)
		return q
	}
	for _, a := range args {
		v := st.R(a)
		if i, ok := v.(*Iface); ok {
			v = st.R(i.v)
		}
		if p, ok := v.(*Ptr); ok {
			if q := get(p); q != nil {
				return p, q
			}
		}
	}
	var fp *Ptr
	var fq *SeqV
	n := 0
	seen := map[int]bool{}
	var walk func(v Value, d int)
	walk = func(v Value, d int) {
		walkVal(st.R(v), func(x Value) {
			if p, ok := x.(*Ptr); ok && !seen[p.obj] && d < 4 {
				seen[p.obj] = true
				if q := get(&Ptr{obj: p.obj}); q != nil {
					if len(st.normSeq(q).segs) > 0 {
						fp, fq = &Ptr{obj: p.obj}, q
						n++
					}
				} else if o := st.heap[p.obj]; o != nil {
					walk(o.val, d+1)
				}
			}
		})
	}
	for _, a := range args {
		walk(a, 0)
	}
	if n != 1 {
		return nil, nil
	}
	return fp, fq
}

func restBase(n *Lin) Value { return mkApp("rest", tString, n) }

// decRecursion summarises the decoding of a nested value: it consumes at least one byte and yields the next value, or fails
func decRecursion(ip *Interp, st *State, c *Call, outer stackEnt) []Outcome {
	if !isDecodeFn(c.fn) {
		return nil
	}
	p, q := decBuffer(ip, st, c.args)
	if p == nil {
		return nil
	}
	n := lg(st, "dec.n")
	good, bad := st.clone(), st.clone()
	bad.setG("err:element error", Bool(true))
	outs := []Outcome{}
	have := st.normSeq(q).length()
	if good.addCon(subLin(num(1), have)) {
		next := addLin(n, num(1))
		good.setG("dec.n", next)
		b := restBase(next)
		ln := atomLin(mkApp("len", tInt, b))
		good.addCon(addLin(subLin(ln, good.rlin(have)), num(1)))
		ip.bufSet(good, p, mkSeq(tByte, rawSeg(b, num(0), ln)))
		outs = append(outs, multi(good, wrapTyp(mkApp("decv", tAny, n)), Nil{})...)
	}
	outs = append(outs, multi(bad, Nil{}, ip.newErr(bad, "element error"))...)
	return outs
}

// recursiveFn finds the function that decodes a nested value: the first member of a call cycle of decoding
// functions that is reached from the decoder's entry
func recursiveFn(p *Program, entry *ssa.Function) *ssa.Function {
	callees := func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && p.isModule(g.Pkg.Pkg) {
						out = append(out, g)
					}
				}
				for _, op := range i.Operands(nil) {
					if m, ok := (*op).(*ssa.MakeClosure); ok {
						out = append(out, m.Fn.(*ssa.Function))
					}
				}
			}
		}
		return out
	}
	reach := func(f *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		work := callees(f)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[g] {
				continue
			}
			seen[g] = true
			work = append(work, callees(g)...)
		}
		return seen
	}
	queue := []*ssa.Function{entry}
	seen := map[*ssa.Function]bool{entry: true}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if isDecodeFn(f) && reach(f)[f] {
			return f
		}
		for _, g := range callees(f) {
			if !seen[g] {
				seen[g] = true
				queue = append(queue, g)
			}
		}
	}
	return nil
}

// decEntry is a call of the function that decodes a value
type decEntry struct {
	fn   *ssa.Function
	st   *State
	args []Value
	call *Call
	buf  *Ptr
}

// splitSeg separates what a stream delivers at once from what it delivers later
const splitSeg = '|'

// decodeEntries interprets Decode on a stream and stops where the assembled message is handed to the value decoder
func (w *World) decodeEntries(cd *codec, st *State, segs ...Seg) (ents []decEntry, outs []Outcome) {
	ip := w.ip
	m := w.p.method(cd.dec, "Decode")
	if m == nil {
		return
	}
	rec := recursiveFn(w.p, m)
	if rec == nil {
		return
	}
	name := fnName(rec)
	ip.hooks[name] = func(ip *Interp, st *State, c *Call) []Outcome {
		p, _ := decBuffer(ip, st, c.args)
		ents = append(ents, decEntry{rec, st.clone(), append([]Value(nil), c.args...), c, p})
		return multi(st, wrapTyp(mkApp("decoded", tAny)), Nil{})
	}
	defer delete(ip.hooks, name)
	ip.recursion = nil
	bt := w.p.extType("bytes", "Buffer")
	var later []Seg
	for k, s := range segs {
		if s.kind == splitSeg {
			segs, later = segs[:k], segs[k+1:]
			break
		}
	}
	buf := ip.newObj(st, bt, &Ext{kind: "buffer", vs: []Value{mkSeq(tByte, segs...)}})
	if later != nil {
		st.setG(laterKey(buf), mkSeq(tByte, later...))
	}
	r := &Iface{typ: types.NewPointer(bt), v: buf}
	pv := w.protoValue(st, cd.proto)
	for _, o := range w.callMethodOf(st, cd.proto, pv, "NewDecoder", r) {
		i, ok := o.st.R(orNil(o.ret)).(*Iface)
		if !ok || o.pan != nil {
			continue
		}
		outs = append(outs, w.callMethodOf(o.st, i.typ, i.v, "Decode")...)
	}
	return
}

// decodeValue interprets the value decoder on a message with the given content
func (w *World) decodeValue(e decEntry, st *State, segs ...Seg) []Outcome {
	ip := w.ip
	st.setG("dec.n", num(0))
	q := mkSeq(tByte, segs...)
	ip.bufSet(st, e.buf, q)
	ip.recursion = decRecursion
	defer func() { ip.recursion = nil }()
	c := *e.call
	c.args = append([]Value(nil), e.args...)
	return ip.callFn(st, &c, nil)
}

type decSpec struct {
	kind  string // nil bool int float string list map struct undefined bytes
	size  *Lin
	val   Value
	width int
	pre   []Seg // size or value field
}

func specMarker(ip *Interp, m int) decSpec {
	szs := func(kind string, w int) decSpec {
		t := types.Typ[map[int]types.BasicKind{1: types.Uint8, 2: types.Uint16, 4: types.Uint32}[w]]
		v := asLin(ip.fresh("size", t))
		g := Seg{kind: 'n', v: v, w: w}
		if w == 1 {
			g = item(v)
		}
		return decSpec{kind: kind, size: v, width: w, pre: []Seg{g}}
	}
	switch {
	case m <= 0x7f:
		return decSpec{kind: "int", val: num(int64(m))}
	case m >= 0xf0:
		return decSpec{kind: "int", val: num(int64(m - 256))}
	case m <= 0x8f:
		return decSpec{kind: "string", size: num(int64(m - 0x80))}
	case m <= 0x9f:
		return decSpec{kind: "list", size: num(int64(m - 0x90))}
	case m <= 0xaf:
		return decSpec{kind: "map", size: num(int64(m - 0xa0))}
	case m <= 0xbf:
		return decSpec{kind: "struct", size: num(int64(m - 0xb0))}
	case m == 0xc0:
		return decSpec{kind: "nil"}
	case m == 0xc1:
		f := ip.fresh("f", types.Typ[types.Float64])
		return decSpec{kind: "float", val: f, width: 8, pre: []Seg{{kind: 'n', v: mkApp("fbits", types.Typ[types.Uint64], f), w: 8}}}
	case m == 0xc2, m == 0xc3:
		return decSpec{kind: "bool", val: Bool(m == 0xc3)}
	case m >= 0xc8 && m <= 0xcb:
		w := 1 << uint(m-0xc8)
		t := types.Typ[map[int]types.BasicKind{1: types.Int8, 2: types.Int16, 4: types.Int32, 8: types.Int64}[w]]
		v := asLin(ip.fresh("i", t))
		g := Seg{kind: 'n', v: v, w: w}
		if w == 1 {
			// the byte of a signed number
			b := asLin(ip.fresh("byte", tByte))
			return decSpec{kind: "int8", val: b, width: 1, pre: []Seg{item(b)}}
		}
		return decSpec{kind: "int", val: v, width: w, pre: []Seg{g}}
	case m >= 0xcc && m <= 0xce:
		return szs("bytes", 1<<uint(m-0xcc))
	case m >= 0xd0 && m <= 0xd2:
		return szs("string", 1<<uint(m-0xd0))
	case m >= 0xd4 && m <= 0xd6:
		return szs("list", 1<<uint(m-0xd4))
	case m >= 0xd8 && m <= 0xda:
		return szs("map", 1<<uint(m-0xd8))
	case m == 0xdc || m == 0xdd:
		return szs("struct", 1<<uint(m-0xdc))
	}
	return decSpec{kind: "undefined"}
}

func rawInput(st *State, name string, n *Lin) (Seg, Value) {
	d := mkApp("global:"+name, tString)
	ln := atomLin(mkApp("len", tInt, d))
	if n != nil {
		st.setBind(ln.atom(), n)
		return rawSeg(d, num(0), n), d
	}
	return rawSeg(d, num(0), ln), d
}

func checkC02(c *Ctx) {
	c.rule = "for each of the 256 marker bytes, Decode is interpreted abstractly on a message of that marker, an unknown size or value field and unknown further bytes; every outcome is compared with the PackStream table"
	c.explain = "One obligation per (decoder, marker, outcome). Nested values are summarised by 'the next value of the message'; the order and number in which they appear in lists and maps is compared."
	w := newWorld(c.p)
	ip := w.ip
	for _, cd := range w.encoders() {
		ents := framing(c, w, cd)
		if len(ents) == 0 {
			c.decide(unknown, cd.name+" entry", cdPos(w, cd), nil, "%s: no call of a value decoder found", cd.name)
			continue
		}
		ent := ents[0]
		for m := 0; m < 256; m++ {
			ip.steps = 0
			st := ent.st.clone()
			sp := specMarker(ip, m)
			segs := append([]Seg{item(num(int64(m)))}, sp.pre...)
			body, base := rawInput(st, "body", nil)
			segs = append(segs, body)
			key := fmt.Sprintf("%s marker %02X", cd.name, m)
			if skipRun(key) {
				continue
			}
			progress("%s", key)
			good := 0
			for _, o := range w.decodeValue(ent, st, segs...) {
				c.counts["outcomes"]++
				if o.pan != nil {
					continue // C03
				}
				tr := func() []string { return trace(c.p, o.st, 30) }
				pos := posOf(o)
				vs := tupleOf(o)
				err := o.st.R(vs[1])
				switch o.st.truth(o.st.isNil(err)) {
				case no:
					// an error is right for undefined markers and when bytes are missing or nested values are bad
					if sp.kind == "undefined" || sp.kind == "bytes" || sp.kind == "struct" || hasSym(o.st, "element error") {
						c.decide(yes, key, pos, tr, "")
						continue
					}
					have := lenVal(base)
					need := num(0)
					switch sp.kind {
					case "string", "list":
						need = sp.size
					case "map":
						need = sp.size // the check may ask for one or two bytes per entry
						if o.st.proveLT(have, mulLin(sp.size, bi(2))) {
							c.decide(yes, key, pos, tr, "")
							continue
						}
						if hasDecv(o.st) {
							continue // bad key
						}
					}
					t := unknown
					if o.st.proveLT(have, need) {
						t = yes
					} else if len(o.st.notes) == 0 {
						t = no
					}
					c.decide(t, key+" refused", pos, tr, "marker %02X (%s) is refused although its bytes are there", m, sp.kind)
				case yes:
					good++
					t, d := decodedRight(ip, o.st, vs[0], sp, base)
					if t == no && len(o.st.notes) > 0 {
						t = unknown
					}
					c.decide(t, key, pos, tr, "marker %02X (%s): %s", m, sp.kind, d)
					if m%16 == 0 || m > 0xbf && m < 0xf0 {
						c.sample("%s: %s %s", key, sp.kind, map[tri]string{yes: "ok", no: "VIOLATION", unknown: "?"}[t])
					}
				default:
					c.decide(unknown, key, pos, tr, "undetermined error")
				}
			}
			if sp.kind != "undefined" && sp.kind != "bytes" && sp.kind != "struct" {
				c.decide(triOf(good > 0), key+" accepted", cdPos(w, cd), nil, "marker %02X (%s) is never decoded", m, sp.kind)
			}
		}
		c.signatures(w, cd, ent)
	}
	c.covered(ip)
}

// boltStructs are the structures a server sends, by signature
var boltStructs = map[int]struct {
	n        int
	typ      string
	extended bool
}{
	0x4E: {3, "graph.Node", false}, 0x52: {5, "graph.Relationship", false}, 0x72: {3, "graph.UnboundRelationship", false}, 0x50: {3, "graph.Path", false},
	0x70: {1, "messages.SuccessMessage", false}, 0x71: {1, "messages.RecordMessage", false}, 0x7E: {0, "messages.IgnoredMessage", false}, 0x7F: {1, "messages.FailureMessage", false},
	0x58: {3, "types.Point2D", true}, 0x59: {4, "types.Point3D", true},
	0x44: {1, "gotime.Date", true}, 0x54: {2, "gotime.Clock", true}, 0x74: {1, "gotime.LocalClock", true}, 0x64: {2, "gotime.LocalTime", true},
	0x46: {3, "time.Time", true}, 0x66: {3, "time.Time", true}, 0x45: {4, "time.Duration", true},
}

// signatures checks that structures become the type Bolt assigns to their signature
func (c *Ctx) signatures(w *World, cd *codec, ent decEntry) {
	shapes := structShapes(w, ent)
	by := map[int][]decShape{}
	extended := 0
	for _, s := range shapes {
		if len(by[s.sig]) == 0 && boltStructs[s.sig].extended {
			extended++
		}
		by[s.sig] = append(by[s.sig], s)
	}
	for sig := 0; sig < 256; sig++ {
		key := fmt.Sprintf("%s signature %02X", cd.name, sig)
		sp, ok := boltStructs[sig]
		if ok && sp.extended && extended < 3 {
			continue // the first version of the protocol has no such types
		}
		if ok && len(by[sig]) == 0 {
			// nothing comes out: decided if every outcome is an error
			ip := w.ip
			ip.steps = 0
			st := ent.st.clone()
			body, _ := rawInput(st, "body", nil)
			t := no
			var at Outcome
			for _, o := range w.decodeValue(ent, st, item(num(int64(0xb0+sp.n))), item(num(int64(sig))), body) {
				at = o
				if len(o.st.notes) > 0 || o.pan == nil && o.st.truth(o.st.isNil(o.st.R(tupleOf(o)[1]))) != no {
					t = unknown
				}
			}
			c.decide(t, key+" accepted", cdPos(w, cd), func() []string { return trace(c.p, at.st, 30) }, "a structure with signature %02X and %d fields never becomes a %s", sig, sp.n, sp.typ)
		}
		for _, s := range by[sig] {
			t := yes
			switch {
			case ok:
				t = triOf(strings.HasSuffix(typeFull(s.typ), "/"+sp.typ) || typeFull(s.typ) == sp.typ)
				if t == yes && s.n != sp.n {
					t = no
				}
			case !isMessage(s.typ):
				t = no
			}
			if t == no && len(s.st.notes) > 0 {
				t = unknown
			}
			c.decide(t, key, cdPos(w, cd), func() []string { return trace(c.p, s.st, 30) }, "a structure with signature %02X and %d fields becomes a %s", sig, s.n, typeName(s.typ))
		}
	}
}

// framing checks that the value decoder gets exactly the payload of the chunks, and returns calls of it
func framing(c *Ctx, w *World, cd *codec) []decEntry {
	var ents []decEntry
	for chunks := 1; chunks <= 2; chunks++ {
		st := w.st.clone()
		var segs, want []Seg
		for k := 0; k < chunks; k++ {
			d, _ := rawInput(st, fmt.Sprintf("chunk%d", k), nil)
			st.addCon(subLin(num(1), d.n))
			st.addCon(subLin(d.n, num(65535)))
			segs = append(segs, Seg{kind: 'n', v: d.n, w: 2}, d)
			want = append(want, d)
		}
		segs = append(segs, item(num(0)), item(num(0)))
		w.ip.steps = 0
		es, outs := w.decodeEntries(cd, st, segs...)
		for _, o := range outs {
			if vs := tupleOf(o); o.pan == nil && len(vs) == 2 {
				t := o.st.truth(o.st.isNil(o.st.R(vs[1])))
				if t == no && len(o.st.notes) > 0 {
					t = unknown
				}
				c.decide(t, fmt.Sprintf("%s message of %d chunks refused", cd.name, chunks), posOf(o), func() []string { return trace(c.p, o.st, 30) }, "a complete message of %d chunks is refused", chunks)
			}
		}
		for _, e := range es {
			c.counts["outcomes"]++
			key := fmt.Sprintf("%s message of %d chunks", cd.name, chunks)
			if e.buf == nil {
				c.decide(unknown, key, e.call.pos, nil, "no buffer")
				continue
			}
			tr := func() []string { return trace(c.p, e.st, 30) }
			_, got := decBuffer(w.ip, e.st, e.args)
			q := e.st.normSeq(got)
			t, d := sameBytes(e.st, q, e.st.normSeq(mkSeq(tByte, want...)))
			c.decide(t, key, e.call.pos, tr, "the value decoder gets %s: %s", q.Key(), d)
			ents = append(ents, e)
		}
		if len(es) == 0 {
			return nil
		}
	}
	// one chunk that arrives in two pieces, split in its length or somewhere in its content
	for _, in := range []string{"header", "content"} {
		st := w.st.clone()
		d, _ := rawInput(st, "chunk0", nil)
		st.addCon(subLin(num(2), d.n))
		st.addCon(subLin(d.n, num(65535)))
		segs, want := []Seg(nil), []Seg{d}
		if in == "header" {
			hi, lo := w.ip.fresh("high byte", tByte), w.ip.fresh("low byte", tByte)
			sum := subLin(d.n, addLin(mulLin(asLin(hi), bi(256)), asLin(lo)))
			st.addCon(sum)
			st.addCon(negLin(sum))
			segs = []Seg{item(hi), {kind: splitSeg}, item(lo), d}
		} else {
			// the same bytes one by one: the copying is followed exactly
			want = nil
			for j := 0; j < 5; j++ {
				want = append(want, item(w.ip.fresh(fmt.Sprintf("byte%d", j), tByte)))
			}
			segs = []Seg{{kind: 'n', v: num(5), w: 2}, want[0], want[1], {kind: splitSeg}, want[2], want[3], want[4]}
		}
		segs = append(segs, item(num(0)), item(num(0)))
		key := fmt.Sprintf("%s message split in its %s", cd.name, in)
		w.ip.steps = 0
		es, outs := w.decodeEntries(cd, st, segs...)
		for _, e := range es {
			c.counts["outcomes"]++
			if e.buf == nil {
				c.decide(unknown, key, e.call.pos, nil, "no buffer")
				continue
			}
			_, got := decBuffer(w.ip, e.st, e.args)
			q := e.st.normSeq(got)
			t, dt := sameBytes(e.st, q, e.st.normSeq(mkSeq(tByte, want...)))
			c.decide(t, key, e.call.pos, func() []string { return trace(c.p, e.st, 30) }, "the value decoder gets %s: %s", q.Key(), dt)
		}
		for _, o := range outs {
			if o.pan != nil {
				continue
			}
			if vs := tupleOf(o); len(vs) == 2 {
				t := triOf(o.st.truth(o.st.isNil(o.st.R(vs[1]))) == yes)
				if t == no && len(o.st.notes) > 0 {
					t = unknown
				}
				c.decide(t, key+" refused", posOf(o), func() []string { return trace(c.p, o.st, 30) }, "a complete message that arrives in two pieces is refused")
			}
		}
	}
	return ents
}

// sameBytes compares two byte sequences
func sameBytes(st *State, a, b *SeqV) (tri, string) {
	a, b = st.normSeq(rawRuns(a)), st.normSeq(rawRuns(b))
	if same(a, b) {
		return yes, ""
	}
	if t := decideEQ(st, a.length(), b.length()); t != yes {
		return t, "length " + st.rlin(a.length()).Key() + " instead of " + st.rlin(b.length()).Key()
	}
	k := 0
	for ; k < len(a.segs) && k < len(b.segs) && sameSeg(st, a.segs[k], b.segs[k]); k++ {
	}
	if k == len(a.segs) && k == len(b.segs) {
		return yes, ""
	}
	if k < len(a.segs) && k < len(b.segs) {
		x, y := a.segs[k], b.segs[k]
		if x.kind == 'i' && y.kind == 'i' {
			return refuteVal(st, x.v, y.v), "byte " + x.v.Key()
		}
		if x.kind == 'r' && y.kind == 'r' && len(st.notes) == 0 && !contains(x.v, isMadeUp) && !same(x.v, y.v) {
			return no, "part " + x.Key() + " instead of " + y.Key()
		}
	}
	return unknown, "content " + a.Key()
}

func hasDecv(st *State) bool { n := lg(st, "dec.n"); return !n.is(0) }

func cdPos(w *World, cd *codec) (p tokenPos) {
	if fn := w.p.method(cd.dec, "Decode"); fn != nil {
		return fn.Pos()
	}
	return 0
}

func decodedRight(ip *Interp, st *State, v Value, sp decSpec, base Value) (tri, string) {
	v = st.R(v)
	typed := func(want types.Type) (Value, tri) {
		i, ok := v.(*Iface)
		if !ok {
			if _, isNil := v.(Nil); isNil {
				return nil, no
			}
			return nil, unknown
		}
		if !types.Identical(i.typ, want) {
			return nil, no
		}
		return st.R(i.v), yes
	}
	switch sp.kind {
	case "undefined":
		return no, "decoded as " + short(v.Key()) + " although PackStream does not define it"
	case "nil":
		_, ok := v.(Nil)
		return triOf(ok), "decoded as " + short(v.Key())
	case "bool":
		x, t := typed(tBool)
		if t != yes {
			return t, "decoded as " + short(v.Key())
		}
		return st.eqTri(x, sp.val), "decoded as " + x.Key()
	case "int", "int8":
		x, t := typed(tInt64)
		if t != yes {
			return t, "decoded as " + short(v.Key())
		}
		l := asLin(x)
		if l == nil {
			return unknown, "decoded as " + x.Key()
		}
		if sp.kind == "int8" {
			b := asLin(sp.val)
			// bytes 0..127 and 128..255
			for _, hi := range []bool{false, true} {
				s := st.clone()
				want := b
				ok := true
				if hi {
					ok = s.addCon(subLin(num(128), b))
					want = subLin(b, num(256))
				} else {
					ok = s.addCon(subLin(b, num(127)))
				}
				if !ok {
					continue
				}
				got := l
				if a, ok := l.atom().(*App); ok && a.op == "conv:int8" && same(asLin(a.args[0]), b) {
					got = want
				}
				if t := decideEQ(s, s.rlin(got), want); t != yes {
					return t, "decoded as " + got.Key()
				}
			}
			return yes, ""
		}
		return decideEQ(st, l, asLin(sp.val)), "decoded as " + l.Key()
	case "float":
		x, t := typed(types.Typ[types.Float64])
		if t != yes {
			return t, "decoded as " + short(v.Key())
		}
		if same(x, sp.val) {
			return yes, ""
		}
		return refuteVal(st, x, sp.val), "decoded as " + x.Key()
	case "string":
		x, t := typed(tString)
		if t != yes {
			return t, "decoded as " + short(v.Key())
		}
		q := st.normSeq(ip.bytesOf(st, x))
		if t := decideEQ(st, q.length(), sp.size); t != yes {
			return t, "text of " + st.rlin(q.length()).Key() + " bytes for a size of " + sp.size.Key()
		}
		if len(q.segs) == 0 {
			return yes, ""
		}
		if len(q.segs) == 1 && q.segs[0].kind == 'r' && same(st.R(q.segs[0].v), st.R(base)) {
			return decideEQ(st, q.segs[0].from, num(0)), "text from byte " + q.segs[0].from.Key()
		}
		return unknown, "text " + q.Key()
	case "list":
		x, t := typed(types.NewSlice(tAny))
		if t != yes {
			return t, "decoded as " + short(v.Key())
		}
		sl := ip.slice(st, x, types.NewSlice(tAny))
		q := st.normSeq(ip.seqOf(st, sl))
		if t := decideEQ(st, q.length(), sp.size); t != yes {
			return t, "list of " + st.rlin(q.length()).Key() + " elements for a size of " + sp.size.Key()
		}
		return inOrder(st, q.segs, func(i *Lin) Value { return wrapTyp(mkApp("decv", tAny, i)) })
	case "map":
		x, t := typed(types.NewMap(tString, tAny))
		if t != yes {
			return t, "decoded as " + short(v.Key())
		}
		m, ok := x.(*MapV)
		if !ok {
			return unknown, "map " + x.Key()
		}
		mc := ip.mapC(st, m)
		if mc == nil || mc.base != nil {
			return unknown, "map " + x.Key()
		}
		if t := decideEQ(st, lg(st, "dec.n"), mulLin(sp.size, bi(2))); t != yes {
			return t, "reads " + lg(st, "dec.n").Key() + " values for " + sp.size.Key() + " entries"
		}
		for _, e := range mc.ovr {
			k, v := decvOf(st, e.key), decvOf(st, e.val)
			if k == nil || v == nil {
				return unknown, "entry " + e.key.Key() + ": " + orNil(e.val).Key()
			}
			if t := decideEQ(st, v, addLin(k, num(1))); t != yes {
				return t, "value " + v.Key() + " is stored under key " + k.Key()
			}
			if e.rep == nil && k.isConst() && k.c.Bit(0) != 0 {
				return no, "value " + k.Key() + " is used as a key"
			}
		}
		if sp.size.isConst() && sp.size.int() == 0 && len(mc.ovr) > 0 {
			return no, "entries in an empty map"
		}
		return yes, ""
	}
	return yes, ""
}

// decvOf gives the index of the nested value a term stands for
func decvOf(st *State, v Value) *Lin {
	var out *Lin
	if v == nil {
		return nil
	}
	walkVal(st.R(v), func(x Value) {
		if a, ok := x.(*App); ok && a.op == "decv" && out == nil {
			out = asLin(a.args[0])
		}
	})
	if out == nil {
		// an element expanded to a typed value keeps the term in its operand
		if i, ok := st.R(v).(*Iface); ok {
			return decvOf(st, i.v)
		}
	}
	return out
}

func inOrder(st *State, segs []Seg, want func(i *Lin) Value) (tri, string) {
	pos := num(0)
	for _, g := range segs {
		switch g.kind {
		case 'i':
			w := want(st.rlin(pos))
			if !same(st.R(g.v), st.R(w)) {
				if a, ok := g.v.(*App); ok && a.op == "decv" {
					return decideEQ(st, asLin(a.args[0]), pos), "element " + pos.Key() + " is " + g.v.Key()
				}
				return refuteVal(st, g.v, w), "element " + pos.Key() + " is " + g.v.Key()
			}
			pos = addLin(pos, num(1))
		case '*':
			if len(g.tmpl) != 1 || g.tmpl[0].kind != 'i' {
				return unknown, g.Key()
			}
			w := want(st.rlin(addLin(pos, atomLin(kappa))))
			if !same(st.R(g.tmpl[0].v), st.R(w)) {
				return refuteVal(st, g.tmpl[0].v, w), "elements " + g.Key()
			}
			pos = addLin(pos, g.n)
		default:
			return unknown, g.Key()
		}
	}
	return yes, ""
}

var _ = big.NewInt
var _ = strings.Contains

// rawRuns writes runs of consecutive elements of a sequence as a part of it
func rawRuns(q *SeqV) *SeqV {
	out := make([]Seg, 0, len(q.segs))
	for _, g := range q.segs {
		if g.kind == '*' && len(g.tmpl) == 1 && g.tmpl[0].kind == 'i' {
			if l := asLin(g.tmpl[0].v); l != nil {
				if a, ok := l.atom().(*App); ok && a.op == "elem" {
					if i := asLin(a.args[1]); i != nil && !contains(a.args[0], func(v Value) bool { return v == Value(kappa) }) {
						from := subLin(i, atomLin(kappa))
						if !contains(from, func(v Value) bool { return v == Value(kappa) }) {
							out = append(out, rawSeg(a.args[0], from, g.n))
							continue
						}
					}
				}
			}
		}
		out = append(out, g)
	}
	return mkSeq(q.elem, out...)
}

func sameSeg(st *State, a, b Seg) bool {
	if a.Key() == b.Key() {
		return true
	}
	return a.kind == 'r' && b.kind == 'r' && same(st.R(a.v), st.R(b.v)) && st.proveEQ(a.from, b.from) && st.proveEQ(a.n, b.n)
}
