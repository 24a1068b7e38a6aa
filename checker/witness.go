package main

import (
	"math/big"
	"sort"
	"strings"
)

// A refutation needs an assignment of the terms a claim speaks about that satisfies everything the state
// knows about them.  witness searches for one that also satisfies goals (each <= 0 or, in ne, != 0).

var (
	wMin = new(big.Int).Neg(new(big.Int).Lsh(bi(1), 80))
	wMax = new(big.Int).Lsh(bi(1), 80)
)

type wit struct {
	st    *State
	cons  []*Lin
	ne    []*Lin
	atoms []Value
	lo    map[string]*big.Int
	hi    map[string]*big.Int
	steps int
}

// assignable tells whether any value in range is a possible value of the term
func assignable(a Value) bool {
	switch x := a.(type) {
	case *Sym:
		return !strings.HasPrefix(x.name, "~") || strings.HasPrefix(x.name, "~t")
	case *App:
		switch x.op {
		case "len", "cap", "enclen", "elem":
			return !contains(x, isMadeUp)
		}
	}
	return false
}

func witness(st *State, goals, ne []*Lin) bool {
	w := &wit{st: st, lo: map[string]*big.Int{}, hi: map[string]*big.Int{}}
	in := map[string]bool{}
	all := append([]*Lin{}, st.cons...)
	var neq []*Lin
	for _, b := range st.bind {
		if a, ok := b.term.(*App); ok && a.op == "eq0" {
			if v, ok := b.val.(Bool); ok && !bool(v) {
				neq = append(neq, a.args[0].(*Lin))
			}
		}
	}
	okAll := true
	add := func(l *Lin) {
		for _, t := range l.ts {
			k := t.a.Key()
			if in[k] {
				continue
			}
			in[k] = true
			if !assignable(t.a) {
				okAll = false
				return
			}
			w.atoms = append(w.atoms, t.a)
			lo, hi := st.atomRange(t.a)
			if lo == nil {
				lo = wMin
			}
			if hi == nil {
				hi = wMax
			}
			w.lo[k], w.hi[k] = lo, hi
		}
	}
	for i := range goals {
		goals[i] = st.rlin(goals[i])
		add(goals[i])
		w.cons = append(w.cons, goals[i])
	}
	for i := range ne {
		ne[i] = st.rlin(ne[i])
		add(ne[i])
		w.ne = append(w.ne, ne[i])
	}
	used := map[int]bool{}
	for ch := true; ch && okAll; {
		ch = false
		for i, c := range all {
			if used[i] || !touches(c, in) {
				continue
			}
			used[i] = true
			ch = true
			add(c)
			w.cons = append(w.cons, c)
		}
	}
	for _, c := range neq {
		if touches(c, in) {
			add(c)
			w.ne = append(w.ne, c)
		}
	}
	if !okAll || len(w.atoms) > 12 {
		return false
	}
	return w.search(w.lo, w.hi)
}

func touches(c *Lin, in map[string]bool) bool {
	for _, t := range c.ts {
		if in[t.a.Key()] {
			return true
		}
	}
	return false
}

func (w *wit) search(lo0, hi0 map[string]*big.Int) bool {
	if w.steps++; w.steps > 400 {
		return false
	}
	lo, hi := map[string]*big.Int{}, map[string]*big.Int{}
	for k := range lo0 {
		lo[k], hi[k] = lo0[k], hi0[k]
	}
	for round := 0; round < 60; round++ {
		ch := false
		for _, c := range w.cons {
			// sum <= 0: bound every term by the minimum of the others
			min := new(big.Int).Set(c.c)
			for _, t := range c.ts {
				k := t.a.Key()
				if t.n.Sign() > 0 {
					min.Add(min, new(big.Int).Mul(t.n, lo[k]))
				} else {
					min.Add(min, new(big.Int).Mul(t.n, hi[k]))
				}
			}
			if min.Sign() > 0 {
				return false
			}
			for _, t := range c.ts {
				k := t.a.Key()
				if t.n.Sign() > 0 {
					rest := new(big.Int).Sub(min, new(big.Int).Mul(t.n, lo[k]))
					h := floorDiv(new(big.Int).Neg(rest), t.n)
					if h.Cmp(hi[k]) < 0 {
						hi[k], ch = h, true
					}
				} else {
					rest := new(big.Int).Sub(min, new(big.Int).Mul(t.n, hi[k]))
					l := ceilDiv(rest, new(big.Int).Neg(t.n))
					if l.Cmp(lo[k]) > 0 {
						lo[k], ch = l, true
					}
				}
				if lo[k].Cmp(hi[k]) > 0 {
					return false
				}
			}
		}
		if !ch {
			break
		}
	}
	var free []Value
	for _, a := range w.atoms {
		if lo[a.Key()].Cmp(hi[a.Key()]) < 0 {
			free = append(free, a)
		}
	}
	if len(free) == 0 {
		for _, c := range w.cons {
			if evalLin(c, lo).Sign() > 0 {
				return false
			}
		}
		for _, c := range w.ne {
			if evalLin(c, lo).Sign() == 0 {
				return false
			}
		}
		return true
	}
	sort.SliceStable(free, func(i, j int) bool {
		a, b := free[i].Key(), free[j].Key()
		return new(big.Int).Sub(hi[a], lo[a]).Cmp(new(big.Int).Sub(hi[b], lo[b])) < 0
	})
	k := free[0].Key()
	l, h := lo[k], hi[k]
	cands := []*big.Int{}
	put := func(v *big.Int) {
		if v.Cmp(l) < 0 || v.Cmp(h) > 0 {
			return
		}
		for _, c := range cands {
			if c.Cmp(v) == 0 {
				return
			}
		}
		cands = append(cands, v)
	}
	if l.Cmp(wMin) > 0 {
		put(l)
		put(new(big.Int).Add(l, bi(1)))
	}
	if h.Cmp(wMax) < 0 {
		put(h)
		put(new(big.Int).Sub(h, bi(1)))
	}
	put(bi(0))
	put(bi(1))
	put(new(big.Int).Rsh(new(big.Int).Add(l, h), 1))
	for _, v := range cands {
		lo[k], hi[k] = v, v
		if w.search(lo, hi) {
			return true
		}
	}
	return false
}

func evalLin(c *Lin, v map[string]*big.Int) *big.Int {
	s := new(big.Int).Set(c.c)
	for _, t := range c.ts {
		s.Add(s, new(big.Int).Mul(t.n, v[t.a.Key()]))
	}
	return s
}
