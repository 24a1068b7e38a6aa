package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
	checks["C04"] = checkC04
}

// peel removes conversions that keep the low 8*w bits
func peel(v Value, w int) Value {
	for {
		l := asLin(v)
		if l == nil {
			return v
		}
		a, ok := l.atom().(*App)
		if ok && strings.HasPrefix(a.op, "conv:") && intWidth(a.op[5:]) >= 8*w && asLin(a.args[0]) != nil {
			v = a.args[0]
			continue
		}
		return v
	}
}

// sizeIs decides whether a size field of a container holds exactly n
func (p *PS) sizeIs(n *Lin) (tri, string) {
	st := p.st
	if p.width == 0 {
		return decideEQ(st, p.size, n), "size in the marker is " + st.rlin(p.size).Key()
	}
	raw := asLin(peel(orNil(p.v), p.width))
	if raw == nil {
		raw = p.size
	}
	max := new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(8*p.width)), bi(1))
	if t := decideEQ(st, raw, n); t != yes {
		return t, fmt.Sprintf("%d byte size field holds %s", p.width, st.rlin(raw).Key())
	}
	t := decideLE(st, n, numBig(max))
	return t, fmt.Sprintf("%d byte size field for %s up to %s", p.width, n.Key(), upper(st, n))
}

func upper(st *State, n *Lin) string {
	if _, hi := st.rangeOf(n); hi != nil {
		return hi.String()
	}
	return "any number"
}

// intIs decides whether an integer encoding denotes v
func (p *PS) intIs(v *Lin) (tri, string) {
	st := p.st
	if p.kind != "int" {
		return no, "emitted as " + p.kind
	}
	got := asLin(orNil(p.v))
	if got == nil {
		return unknown, "value " + p.v.Key()
	}
	if p.width == 0 {
		return decideEQ(st, got, v), "tiny integer " + st.rlin(got).Key()
	}
	raw := asLin(peel(got, p.width))
	if t := decideEQ(st, raw, v); t != yes {
		return t, fmt.Sprintf("%d byte integer field holds %s", p.width, st.rlin(raw).Key())
	}
	lo := new(big.Int).Neg(new(big.Int).Lsh(bi(1), uint(8*p.width-1)))
	hi := new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(8*p.width-1)), bi(1))
	t := decideLE(st, v, numBig(hi))
	if t == yes {
		t = decideLE(st, numBig(lo), v)
	}
	l, h := st.rangeOf(st.rlin(v))
	return t, fmt.Sprintf("%d byte signed field for a value in %v..%v", p.width, l, h)
}

// elements checks that the body is n elements, the k-th being want(k); per is the number of values per element
func (p *PS) elements(n *Lin, want func(st *State, i *Lin) []Value) (tri, string) {
	st := p.st
	pos := num(0)
	segs := p.body
	for k := 0; k < len(segs); {
		g := segs[k]
		switch {
		case g.kind == 'e':
			w := want(st, st.rlin(pos))
			for j := range w {
				if k+j >= len(segs) || segs[k+j].kind != 'e' {
					return unknown, "element " + mkSeq(tByte, segs[k:]...).Key()
				}
				if !same(st.R(segs[k+j].v), st.R(w[j])) {
					return refuteVal(st, segs[k+j].v, w[j]), "element " + pos.Key() + " is " + segs[k+j].v.Key() + " expected " + w[j].Key()
				}
			}
			k += len(w)
			pos = st.rlin(addLin(pos, num(1)))
		case g.kind == '*':
			w := want(st, addLin(pos, atomLin(kappa)))
			if len(w) != len(g.tmpl) {
				return unknown, "elements " + g.Key()
			}
			for j, x := range g.tmpl {
				if x.kind != 'e' || !same(st.R(x.v), st.R(w[j])) {
					if x.kind != 'e' {
						return unknown, "elements " + g.Key()
					}
					return refuteVal(st, x.v, w[j]), "elements are " + x.v.Key() + " expected " + w[j].Key()
				}
			}
			pos = st.rlin(addLin(pos, g.n))
			k++
		default:
			return unknown, "elements " + g.Key()
		}
	}
	return decideEQ(st, pos, n), "emits " + pos.Key() + " of " + n.Key() + " elements"
}

// refuteVal: two element values that differ as terms
func refuteVal(st *State, a, b Value) tri {
	if contains(a, isMadeUp) || contains(b, isMadeUp) || len(st.notes) > 0 {
		return unknown
	}
	if la, lb := asLin(a), asLin(b); la != nil && lb != nil {
		return decideEQ(st, la, lb)
	}
	return st.eqTri(a, b)
}

func isMadeUp(v Value) bool {
	switch x := v.(type) {
	case *Sym:
		return strings.HasPrefix(x.name, "~")
	case *App:
		return isSk(x.op)
	}
	return false
}

func isSk(op string) bool { return len(op) > 2 && op[:2] == "sk" && op[2] >= '0' && op[2] <= '9' }

type encCase struct {
	name string
	mk   func(w *World, st *State) (Value, func(p *PS) (tri, string))
	// refuse tells whether an error is acceptable in st
	refuse func(st *State) bool
}

func never(st *State) bool { return false }

func encCases(w *World) []encCase {
	ip := w.ip
	var out []encCase
	add := func(name string, refuse func(st *State) bool, mk func(w *World, st *State) (Value, func(p *PS) (tri, string))) {
		out = append(out, encCase{name, mk, refuse})
	}
	kindIs := func(p *PS, k string) tri { return triOf(p.kind == k) }
	add("nil", never, func(w *World, st *State) (Value, func(p *PS) (tri, string)) {
		return Nil{}, func(p *PS) (tri, string) { return kindIs(p, "nil"), "emitted as " + p.kind }
	})
	add("bool", never, func(w *World, st *State) (Value, func(p *PS) (tri, string)) {
		v := ip.fresh("v", tBool)
		return &Iface{typ: tBool, v: v}, func(p *PS) (tri, string) {
			if p.kind != "bool" {
				return no, "emitted as " + p.kind
			}
			t := p.st.truth(p.st.R(v))
			if t == unknown {
				return no, "one byte for both truth values"
			}
			return triOf((t == yes) == bool(p.v.(Bool))), "emitted as " + p.v.Key()
		}
	})
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64} {
		t := types.Typ[k]
		v := ip.fresh("v", t)
		add(t.Name(), never, func(w *World, st *State) (Value, func(p *PS) (tri, string)) {
			if k == types.Uint || k == types.Uint64 {
				st.addCon(addLin(asLin(v), numBig(new(big.Int).Neg(new(big.Int).SetUint64(1<<63-1)))))
			}
			return &Iface{typ: t, v: v}, func(p *PS) (tri, string) { return p.intIs(asLin(v)) }
		})
		if k == types.Uint || k == types.Uint64 {
			v := ip.fresh("v", t)
			add(t.Name()+" above MaxInt64", func(*State) bool { return true }, func(w *World, st *State) (Value, func(p *PS) (tri, string)) {
				st.addCon(subLin(numBig(new(big.Int).Lsh(bi(1), 63)), asLin(v)))
				return &Iface{typ: t, v: v}, nil
			})
		}
	}
	for _, k := range []types.BasicKind{types.Float32, types.Float64} {
		t := types.Typ[k]
		add(t.Name(), never, func(w *World, st *State) (Value, func(p *PS) (tri, string)) {
			v := ip.fresh("v", t)
			return &Iface{typ: t, v: v}, func(p *PS) (tri, string) {
				if p.kind != "float" {
					return no, "emitted as " + p.kind
				}
				a, ok := orNil(p.v).(*App)
				if l := asLin(orNil(p.v)); !ok && l != nil {
					a, ok = l.atom().(*App)
				}
				if !ok || a.op != "fbits" {
					return unknown, "value " + orNil(p.v).Key()
				}
				x := a.args[0]
				if c, ok := x.(*App); ok && strings.HasPrefix(c.op, "conv:float64") {
					x = c.args[0]
				}
				if same(x, v) {
					return yes, ""
				}
				return refuteVal(p.st, x, v), "value " + a.Key()
			}
		})
	}
	max32 := numBig(new(big.Int).SetUint64(1<<32 - 1))
	tooLong := func(v Value) func(st *State) bool {
		return func(st *State) bool { return st.proveLT(max32, lenVal(v)) }
	}
	sv := ip.fresh("v", tString)
	add("string", tooLong(sv), func(w *World, st *State) (Value, func(p *PS) (tri, string)) {
		return &Iface{typ: tString, v: sv}, func(p *PS) (tri, string) {
			if p.kind != "string" {
				return no, "emitted as " + p.kind
			}
			n := lenVal(sv)
			if t, d := p.sizeIs(n); t != yes {
				return t, d
			}
			got := mkSeq(tByte, p.body...)
			want := ip.bytesOf(p.st, sv)
			if same(p.st.normSeq(got), p.st.normSeq(want)) {
				return yes, ""
			}
			if c := p.st.normSeq(got); len(c.segs) == 0 {
				return decideEQ(p.st, n, num(0)), "no text"
			}
			return unknown, "text " + got.Key()
		}
	})
	for _, et := range []types.Type{tAny, tString, types.Typ[types.Int]} {
		et := et
		lt := types.NewSlice(et)
		lv := ip.fresh("v", lt)
		add("[]"+typeName(et), tooLong(lv), func(w *World, st *State) (Value, func(p *PS) (tri, string)) {
			return &Iface{typ: lt, v: lv}, func(p *PS) (tri, string) {
				if p.kind != "list" {
					return no, "emitted as " + p.kind
				}
				n := lenVal(lv)
				if t, d := p.sizeIs(n); t != yes {
					return t, d
				}
				return p.elements(n, func(st *State, i *Lin) []Value {
					e := st.elemOf(lv, i, et)
					if !isAny(et) {
						e = &Iface{typ: et, v: wrapTyp(e)}
					}
					return []Value{e}
				})
			}
		})
	}
	mt := types.NewMap(tString, tAny)
	mv := ip.fresh("v", mt)
	add("map[string]interface{}", tooLong(mv), func(w *World, st *State) (Value, func(p *PS) (tri, string)) {
		return &Iface{typ: mt, v: mv}, func(p *PS) (tri, string) {
			if p.kind != "map" {
				return no, "emitted as " + p.kind
			}
			n := lenVal(mv)
			if t, d := p.sizeIs(n); t != yes {
				return t, d
			}
			return p.elements(n, func(st *State, i *Lin) []Value {
				return []Value{&Iface{typ: tString, v: wrapTyp(mkApp("mapkey", tString, mv, i))}, wrapTyp(mkApp("mapval", tAny, mv, i))}
			})
		}
	})
	if sT := w.p.typ("structures", "Structure"); sT != nil {
		v := ip.fresh("v", sT)
		sig := wrapTyp(mkApp("signature", tInt, v))
		fl := mkApp("fields", types.NewSlice(tAny), v)
		add("structures.Structure", func(st *State) bool { return st.proveLT(num(65535), lenVal(fl)) }, func(w *World, st *State) (Value, func(p *PS) (tri, string)) {
			nonNil(st, v)
			ip.possible = func(s *State, x Value, t types.Type) bool {
				if !same(x, v) {
					return true
				}
				i, ok := t.Underlying().(*types.Interface)
				return ok && types.Implements(sT, i)
			}
			ip.hooks["("+typeFull(sT)+").Signature"] = func(ip *Interp, st *State, c *Call) []Outcome {
				return one(st, sig)
			}
			ip.hooks["("+typeFull(sT)+").AllFields"] = func(ip *Interp, st *State, c *Call) []Outcome { return one(st, fl) }
			return v, func(p *PS) (tri, string) {
				if p.kind != "struct" {
					return no, "emitted as " + p.kind
				}
				n := lenVal(fl)
				if t, d := p.sizeIs(n); t != yes {
					return t, d
				}
				if !same(peel(p.sig, 1), sig) {
					return refuteVal(p.st, peel(p.sig, 1), sig), "signature " + p.sig.Key()
				}
				return p.elements(n, func(st *State, i *Lin) []Value { return []Value{st.elemOf(fl, i, tAny)} })
			}
		})
	}
	return out
}

func typeFull(t types.Type) string { return types.TypeString(t, nil) }

func lenVal(v Value) *Lin { return atomLin(mkApp("len", tInt, v)) }

func checkC01(c *Ctx) {
	c.rule = "abstract interpretation of NewEncoder+Encode for an unknown value of each accepted Go type; the abstract bytes of every successful outcome are read back as PackStream and marker kind, size field, value field and elements are compared with the value"
	c.explain = "Each (encoder, Go type, outcome class) is one obligation. Recursive encodings of elements are summarised (the summary is what the obligation for the element's type establishes)."
	w := newWorld(c.p)
	codecs := w.encoders()
	if len(codecs) == 0 {
		c.undecided["no encoder found"]++
	}
	for _, cd := range codecs {
		for _, ec := range encCases(w) {
			w.ip.steps = 0
			st := w.st.clone()
			v, want := ec.mk(w, st)
			s := &Stream{ob: func(st *State, t tri, rule string, pos token.Pos, fn *ssa.Function, detail string) {}}
			outs := w.encodeWith(cd, st, s, num(65535), v)
			n := 0
			for _, o := range outs {
				key := cd.name + " " + ec.name
				tr := func() []string { return trace(c.p, o.st, 30) }
				if o.pan != nil {
					continue // C03/C04 concern
				}
				err := o.st.R(orNil(o.ret))
				if o.st.gBool("w.fail") {
					continue
				}
				switch o.st.truth(o.st.isNil(err)) {
				case no:
					if contains(err, func(v Value) bool { s, ok := v.(*Sym); return ok && s.name == "element error" }) {
						continue
					}
					if hasSym(o.st, "element error") {
						continue
					}
					t := triOf(ec.refuse(o.st))
					if t == no && len(o.st.notes) > 0 {
						t = unknown
					}
					c.decide(t, key+" refused", posOf(o), tr, "%s: a %s value is refused although PackStream can represent it", cd.name, ec.name)
				case yes:
					q := unwindow(o.st, payload(o.st))
					if want == nil {
						c.decide(triOf(false), key, posOf(o), tr, "%s: a %s value, which PackStream can not represent, is emitted as another number", cd.name, ec.name)
						continue
					}
					for _, p := range packParse(w.ip, o.st, q.segs) {
						n++
						if p.err != "" {
							t := unknown
							if p.bad && len(o.st.notes) == 0 {
								t = no
							}
							c.decide(t, key+" value", posOf(o), tr, "%s: encoding of %s: %s", cd.name, ec.name, p.err)
							continue
						}
						t, d := want(p)
						c.decide(t, key+fmt.Sprintf(" marker %02X", p.marker), posOf(o), tr, "%s: encoding of %s with marker %02X: %s", cd.name, ec.name, p.marker, d)
						if p.marker == 0 || p.marker > 0 {
							c.sample("%s %s -> %s marker %02X %s", cd.name, ec.name, p.kind, p.marker, map[tri]string{yes: "ok", no: "VIOLATION", unknown: "?"}[t])
						}
					}
				default:
					c.decide(unknown, key, posOf(o), tr, "undetermined error")
				}
			}
			c.counts["outcomes"] += len(outs)
			if want != nil {
				c.decide(triOf(n > 0), cd.name+" "+ec.name+" accepted", token.NoPos, nil, "%s: no %s value is ever encoded", cd.name, ec.name)
			}
			w.ip.possible = nil
		}
	}
	c.covered(w.ip)
}

func posOf(o Outcome) token.Pos {
	if o.st != nil && o.st.trace != nil {
		return o.st.trace.pos
	}
	return token.NoPos
}

// hasSym: an error made by a model with this name occurred on the path
func hasSym(st *State, name string) bool {
	return st.gBool("err:" + name)
}

func checkC04(c *Ctx) {
	c.rule = "typestate of the transport (header expected / n payload bytes expected / message ended) followed through every abstract outcome of Encode"
	c.explain = "Obligations: each write to the transport in each abstract state, and the transport state at every return, for messages of every length, every chunk size and every failure point."
	w := newWorld(c.p)
	ip := w.ip
	for _, cd := range w.encoders() {
		for _, ec := range encCases(w) {
			if !map[string]bool{"nil": true, "string": true, "[]interface{}": true, "structures.Structure": true, "map[string]interface{}": true}[ec.name] {
				continue
			}
			for _, cs := range chunkCases() {
				if cs == "symbolic" && ec.name != "string" && ec.name != "nil" {
					continue
				}
				ip.steps = 0
				st := w.st.clone()
				v, _ := ec.mk(w, st)
				var chunk Value = num(65535)
				if cs == "symbolic" {
					chunk = ip.fresh("chunkSize", types.Typ[types.Uint16])
				}
				s := &Stream{chunk: chunk, ob: func(st *State, t tri, rule string, pos token.Pos, fn *ssa.Function, detail string) {
					where := cd.name
					if fn != nil {
						where = c.p.relName(fn)
					}
					if t == no && len(st.notes) > 0 {
						t = unknown
					}
					c.decide(t, where+" "+rule, pos, func() []string { return trace(c.p, st, 30) }, "%s: %s", rule, detail)
				}}
				ip.recSeen = nil
				ip.onElement = func(st *State, o Outcome, cl *Call) {
					t := triOf(!o.st.gBool("w.any"))
					if t == no && (st.gBool("w.any") || len(o.st.notes) > 0) {
						t = unknown
					}
					c.decide(t, cd.name+" element written early", cl.pos, func() []string { return trace(c.p, o.st, 30) }, "%s: bytes of an element reach the transport before the encoding of its message is complete", cd.name)
				}
				for _, r := range w.encodeRuns(cd, st, s, chunk, v) {
					o := r.o
					if o.pan != nil {
						continue
					}
					c.counts["outcomes"]++
					pos := posOf(o)
					tr := func() []string { return trace(c.p, o.st, 30) }
					key := cd.name + " " + ec.name + " "
					tri_ := func(b bool) tri {
						if !b && len(o.st.notes) > 0 {
							return unknown
						}
						return triOf(b)
					}
					failed := o.st.gBool("w.fail")
					switch o.st.truth(o.st.isNil(o.st.R(orNil(o.ret)))) {
					case yes:
						c.decide(tri_(!failed), key+"write error lost", pos, tr, "Encode succeeds although a write failed")
						if failed {
							break
						}
						ends := lg(o.st, "w.ends")
						c.decide(decideEQ(o.st, ends, num(1)), key+"end marker", pos, tr, "message of a %s value closed by %s end markers", ec.name, ends.Key())
						pend := lg(o.st, "w.pend")
						c.decide(decideEQ(o.st, pend, num(0)), key+"chunk length", pos, tr, "%s announced bytes of a chunk are never written", pend.Key())
						q := unwindow(o.st, payload(o.st))
						full := yes
						d := q.Key()
						if len(q.segs) == 0 {
							full, d = no, "nothing"
						} else if len(q.segs) == 1 && q.segs[0].kind == 'r' {
							if b, ok := q.segs[0].v.(*SeqV); ok {
								g := q.segs[0]
								full = decideEQ(o.st, g.n, b.length())
								if full == yes {
									full = decideEQ(o.st, g.from, num(0))
								}
								d = "bytes " + g.from.Key() + " + " + g.n.Key() + " of a message of " + b.length().Key()
							}
						} else {
							for _, g := range q.segs {
								if g.kind == 'r' {
									if _, ok := g.v.(*SeqV); ok {
										full = unknown
									}
								}
								if g.kind == 'j' {
									full = tri_(false)
								}
							}
						}
						c.decide(full, key+"payload", pos, tr, "payload of a %s message is %s", ec.name, d)
						if full == yes {
							c.sample("%s %s chunk size %s: payload complete, one end marker", cd.name, ec.name, cs)
						}
					case no:
						if !failed {
							c.decide(tri_(!o.st.gBool("w.any")), key+"partial message", pos, tr, "a %s value that can not be encoded leaves bytes of it on the transport", ec.name)
							// the next message is not affected
							if cs == "max" {
								ns := o.st.clone()
								s.reset(ns)
								for _, o2 := range w.callMethodOf(ns, r.enc.typ, r.enc.v, "Encode", Nil{}) {
									if o2.pan != nil || o2.st.gBool("w.fail") || o2.st.truth(o2.st.isNil(o2.st.R(orNil(o2.ret)))) != yes {
										continue
									}
									q := unwindow(o2.st, payload(o2.st))
									ok := len(q.segs) == 1 && q.segs[0].kind == 'i' && q.segs[0].v.Key() == num(0xc0).Key()
									c.decide(tri_(ok), key+"leftover", pos, tr, "after a failed %s value the next message is %s", ec.name, q.Key())
								}
							}
						}
					default:
						c.decide(unknown, key+"error", pos, tr, "undetermined error")
					}
				}
				ip.possible, ip.onElement = nil, nil
			}
		}
	}
	c.covered(ip)
}

func chunkCases() []string {
	if s := os.Getenv("VERIF_CHUNK"); s != "" {
		return []string{s}
	}
	return []string{"symbolic", "max"}
}
