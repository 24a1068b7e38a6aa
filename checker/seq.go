package main

import (
	"go/types"
	"math/big"
)

// kappa is the bound variable of repetition templates
var kappa = &Sym{id: -1, name: "κ", typ: types.Typ[types.Int]}

func item(v Value) Seg                    { return Seg{kind: 'i', v: v} }
func rawSeg(base Value, from, n *Lin) Seg { return Seg{kind: 'r', v: base, from: from, n: n} }

func mkSeq(elem types.Type, segs ...Seg) *SeqV { return &SeqV{segs: segs, elem: elem} }

func (g Seg) length() *Lin {
	switch g.kind {
	case 'i':
		return num(1)
	case 'n':
		return num(int64(g.w))
	case 'r':
		return g.n
	case 'e':
		return atomLin(mkApp("enclen", types.Typ[types.Int], g.v))
	case 'j':
		return atomLin(mkApp("junklen", types.Typ[types.Int]))
	case '*':
		l := num(0)
		for _, t := range g.tmpl {
			l = addLin(l, t.length())
		}
		if l.isConst() {
			return mulLin(g.n, l.c)
		}
		return atomLin(mkApp("replen", types.Typ[types.Int], mkSeq(nil, g)))
	}
	return num(0)
}

func (q *SeqV) length() *Lin {
	l := num(0)
	for _, g := range q.segs {
		l = addLin(l, g.length())
	}
	return l
}

func substKappa(v Value, by Value) Value {
	return mapVal(v, func(x Value) Value {
		if x == Value(kappa) {
			return by
		}
		return nil
	})
}

func substKappaSeg(g Seg, by Value) Seg {
	out, _ := mapSegs([]Seg{g}, func(x Value) Value {
		if x == Value(kappa) {
			return by
		}
		return nil
	})
	return out[0]
}

// elemOf is the element i of an opaque base
func elemOf(base Value, i *Lin, typ types.Type) Value {
	if s, ok := base.(Str); ok && i.isConst() && i.c.IsInt64() && i.int() >= 0 && i.int() < len(s) {
		return num(int64(s[i.int()]))
	}
	return wrapTyp(mkApp("elem", typ, base, i))
}

// wrapTyp keeps the convention that integers are linear expressions
func wrapTyp(v Value) Value {
	switch x := v.(type) {
	case *Sym:
		if isIntType(x.typ) {
			return atomLin(x)
		}
	case *App:
		if isIntType(x.typ) {
			return atomLin(x)
		}
	}
	return v
}

func (s *State) normSeq(q *SeqV) *SeqV {
	var out []Seg
	ch := false
	for _, g := range q.segs {
		if g.kind == 'r' || g.kind == '*' {
			n := s.rlin(g.n)
			if n.is(0) {
				ch = true
				continue
			}
			if k := len(out); k > 0 && g.kind == 'r' && out[k-1].kind == 'r' && same(out[k-1].v, g.v) && s.proveEQ(addLin(out[k-1].from, out[k-1].n), g.from) {
				out[k-1].n = addLin(out[k-1].n, g.n)
				ch = true
				continue
			}
		}
		out = append(out, g)
	}
	if !ch {
		return q
	}
	return &SeqV{segs: out, elem: q.elem}
}

// locate finds the segment holding position i: its index and the offset in it; ok false when undecided
func (s *State) locate(q *SeqV, i *Lin) (seg int, off *Lin, ok bool) {
	pos := num(0)
	for k, g := range q.segs {
		n := g.length()
		end := addLin(pos, n)
		if s.proveLT(i, end) {
			return k, subLin(i, pos), true
		}
		if !s.proveLE(end, i) {
			return k, nil, false
		}
		pos = end
	}
	return len(q.segs), subLin(i, pos), true
}

func (s *State) segElem(g Seg, off *Lin, elem types.Type) Value {
	switch g.kind {
	case 'i':
		return g.v
	case 'n':
		if s.rlin(off).isConst() {
			return wrapTyp(mkApp("byteof", elem, g.v, num(int64(g.w)), s.rlin(off)))
		}
	case 'r':
		return s.elemOf(g.v, addLin(g.from, off), elem)
	case '*':
		if len(g.tmpl) == 1 && g.tmpl[0].kind == 'i' {
			return substKappa(g.tmpl[0].v, off)
		}
	}
	return nil
}

func (s *State) elemOf(base Value, i *Lin, typ types.Type) Value {
	if q, ok := base.(*SeqV); ok {
		return s.seqGet(q, i, typ)
	}
	return elemOf(base, i, typ)
}

func (s *State) seqGet(q *SeqV, i *Lin, typ types.Type) Value {
	i = s.rlin(i)
	k, off, ok := s.locate(q, i)
	if ok && k < len(q.segs) {
		if v := s.segElem(q.segs[k], off, typ); v != nil {
			return v
		}
	}
	return wrapTyp(mkApp("at", typ, q, i))
}

// split cuts the sequence at position i; ok false when the position can not be located
func (s *State) split(q *SeqV, i *Lin) (a, b *SeqV, ok bool) {
	i = s.rlin(i)
	pos := num(0)
	for k, g := range q.segs {
		if s.proveEQ(i, pos) {
			return mkSeq(q.elem, q.segs[:k:k]...), mkSeq(q.elem, q.segs[k:]...), true
		}
		n := g.length()
		end := addLin(pos, n)
		if s.proveLE(i, end) && s.proveLE(pos, i) {
			off := subLin(i, pos)
			if s.proveEQ(i, end) {
				pos = end
				continue
			}
			var g1, g2 []Seg
			switch g.kind {
			case 'r':
				g1 = []Seg{rawSeg(g.v, g.from, off)}
				g2 = []Seg{rawSeg(g.v, addLin(g.from, off), subLin(g.n, off))}
			case 'n':
				o := s.rlin(off)
				if !o.isConst() {
					return nil, nil, false
				}
				for b := 0; b < g.w; b++ {
					it := item(wrapTyp(mkApp("byteof", types.Typ[types.Uint8], g.v, num(int64(g.w)), num(int64(b)))))
					if b < o.int() {
						g1 = append(g1, it)
					} else {
						g2 = append(g2, it)
					}
				}
			case '*':
				if len(g.tmpl) != 1 || g.tmpl[0].kind != 'i' {
					return nil, nil, false
				}
				g1 = []Seg{{kind: '*', n: off, tmpl: g.tmpl}}
				sh, _ := mapSegs(g.tmpl, func(x Value) Value {
					if x == Value(kappa) {
						return addLin(atomLin(kappa), off)
					}
					return nil
				})
				g2 = []Seg{{kind: '*', n: subLin(g.n, off), tmpl: sh}}
			default:
				return nil, nil, false
			}
			x := append(append([]Seg{}, q.segs[:k]...), g1...)
			y := append(g2, q.segs[k+1:]...)
			return s.normSeq(mkSeq(q.elem, x...)), s.normSeq(mkSeq(q.elem, y...)), true
		}
		pos = end
	}
	if s.proveEQ(i, pos) {
		return q, mkSeq(q.elem), true
	}
	return nil, nil, false
}

// window takes n elements from off
func (s *State) window(q *SeqV, off, n *Lin) *SeqV {
	if s.rlin(n).is(0) {
		return mkSeq(q.elem)
	}
	if _, b, ok := s.split(q, off); ok {
		if a, _, ok := s.split(b, n); ok {
			return a
		}
	}
	if len(q.segs) == 1 && q.segs[0].kind == 'r' {
		g := q.segs[0]
		return mkSeq(q.elem, rawSeg(g.v, addLin(g.from, off), n))
	}
	return mkSeq(q.elem, rawSeg(q, s.rlin(off), s.rlin(n)))
}

// tail drops the first off elements
func (s *State) tail(q *SeqV, off *Lin) *SeqV {
	if s.rlin(off).is(0) {
		return q
	}
	if _, b, ok := s.split(q, off); ok {
		return b
	}
	if len(q.segs) == 1 && q.segs[0].kind == 'r' {
		g := q.segs[0]
		return mkSeq(q.elem, rawSeg(g.v, addLin(g.from, off), subLin(g.n, off)))
	}
	return mkSeq(q.elem, rawSeg(q, s.rlin(off), s.rlin(subLin(q.length(), off))))
}

// seqSet stores v at position i
func (s *State) seqSet(q *SeqV, i *Lin, v Value) *SeqV {
	i = s.rlin(i)
	if a, b, ok := s.split(q, i); ok {
		if _, d, ok := s.split(b, num(1)); ok {
			segs := append(append([]Seg{}, a.segs...), item(v))
			return s.normSeq(mkSeq(q.elem, append(segs, d.segs...)...))
		}
	}
	s.note("store at unknown position")
	return mkSeq(q.elem, rawSeg(mkApp("stored", nil, q, i, v), num(0), q.length()))
}

func (s *State) concat(a, b *SeqV) *SeqV {
	segs := append(append([]Seg{}, a.segs...), b.segs...)
	return s.normSeq(mkSeq(a.elem, segs...))
}

// canonBytes merges items that are the bytes of one number in big endian order
func (s *State) canonBytes(segs []Seg) []Seg {
	var out []Seg
	for i := 0; i < len(segs); i++ {
		g := segs[i]
		if g.kind == 'i' {
			done := false
			for _, w := range []int{8, 4, 2} {
				if i+w > len(segs) {
					continue
				}
				if v := s.bigEndian(segs[i : i+w]); v != nil {
					out = append(out, Seg{kind: 'n', v: v, w: w})
					i += w - 1
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		out = append(out, g)
	}
	return out
}

// bigEndian recognises the bytes byte(v>>8(w-1)) .. byte(v)
func (s *State) bigEndian(segs []Seg) Value {
	w := len(segs)
	var base Value
	for k, g := range segs {
		if g.kind != 'i' {
			return nil
		}
		v := s.R(g.v)
		l, ok := v.(*Lin)
		if !ok {
			return nil
		}
		if l.isConst() {
			return nil
		}
		a := l.atom()
		shift := 8 * (w - 1 - k)
		var b Value
		ap, ok := a.(*App)
		if ok && ap.op == "byteof" {
			if ap.args[1].(*Lin).int() != w || ap.args[2].(*Lin).int() != k {
				return nil
			}
			b = ap.args[0]
		} else {
			x := Value(l)
			if ok && (ap.op == "conv:uint8" || (ap.op == "&" && asLin(ap.args[1]).is(255))) {
				x = ap.args[0]
			}
			if shift > 0 {
				xl, ok := x.(*Lin)
				if !ok {
					return nil
				}
				sa, ok := xl.atom().(*App)
				if !ok || sa.op != "shr" || !asLin(sa.args[1]).is(int64(shift)) {
					return nil
				}
				x = sa.args[0]
			}
			b = x
		}
		if base == nil {
			base = b
		} else if !same(base, b) {
			return nil
		}
	}
	return base
}

var _ = big.NewInt
