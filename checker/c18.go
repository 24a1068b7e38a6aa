package main

import (
	"go/types"
	"sort"
	"strings"
	"unicode"
)

func init() { checks["C18"] = checkC18 }

// checkC18: every accessor of a query result, interpreted for every shape of metadata
func checkC18(c *Ctx) {
	c.rule = "every method of a query result is interpreted for every shape the metadata can have (nothing, no statistics, statistics of every type, the statistic missing or of every type), all else unknown"
	c.explain = "One obligation per accessor, shape and path."
	w := newWorld(c.p)
	ip := w.ip
	mapT := types.NewMap(tString, tAny)
	made := 0
	// the constructors of results
	var it *types.Interface
	if t := c.p.typ("connection", "IResult"); t != nil {
		it, _ = t.Underlying().(*types.Interface)
	}
	if it == nil {
		c.decide(unknown, "results", 0, nil, "no interface of results")
		return
	}
	type shape struct {
		name string
		make func(st *State, key string) (meta Value, want Value)
	}
	newMap := func(st *State, base Value, ent ...mapEnt) Value {
		mc := &MapC{base: base}
		for _, e := range ent {
			mc.ovr = append(mc.ovr, e)
		}
		return &MapV{obj: ip.alloc(st, mapT, mc, "metadata")}
	}
	someMap := func() Value { return ip.fresh("anything", mapT) }
	iface := func(t types.Type, v Value) Value { return &Iface{typ: t, v: v} }
	strPtr := types.NewPointer(tString)
	// values that are no integers
	odd := func(st *State) map[string]Value {
		return map[string]Value{
			"nil":         Nil{},
			"a string":    iface(tString, ip.fresh("s", tString)),
			"a float":     iface(types.Typ[types.Float64], ip.fresh("f", types.Typ[types.Float64])),
			"a bool":      iface(tBool, ip.fresh("b", tBool)),
			"a list":      iface(types.NewSlice(tAny), ip.fresh("l", types.NewSlice(tAny))),
			"a nil list":  iface(types.NewSlice(tAny), Nil{}),
			"a pointer":   iface(strPtr, Nil{}),
			"some string": iface(tString, Str("12")),
		}
	}
	var shapes []shape
	add := func(name string, f func(st *State, key string) (Value, Value)) {
		shapes = append(shapes, shape{name, f})
	}
	add("no metadata", func(st *State, key string) (Value, Value) { return Nil{}, nil })
	add("empty metadata", func(st *State, key string) (Value, Value) { return newMap(st, nil), nil })
	add("metadata without statistics", func(st *State, key string) (Value, Value) {
		return newMap(st, someMap(), mapEnt{key: Str("stats")}), nil
	})
	var names []string
	for n := range odd(w.st.clone()) {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		add("statistics that are "+n, func(st *State, key string) (Value, Value) {
			return newMap(st, someMap(), mapEnt{key: Str("stats"), val: odd(st)[n]}), nil
		})
		add("a statistic that is "+n, func(st *State, key string) (Value, Value) {
			stats := newMap(st, someMap(), mapEnt{key: Str(key), val: odd(st)[n]})
			return newMap(st, someMap(), mapEnt{key: Str("stats"), val: iface(mapT, stats)}), nil
		})
	}
	add("statistics that are an integer", func(st *State, key string) (Value, Value) {
		return newMap(st, someMap(), mapEnt{key: Str("stats"), val: iface(tInt64, ip.fresh("n", tInt64))}), nil
	})
	add("statistics that are a nil map", func(st *State, key string) (Value, Value) {
		return newMap(st, someMap(), mapEnt{key: Str("stats"), val: iface(mapT, Nil{})}), nil
	})
	add("empty statistics", func(st *State, key string) (Value, Value) {
		return newMap(st, someMap(), mapEnt{key: Str("stats"), val: iface(mapT, newMap(st, nil))}), nil
	})
	add("statistics without it", func(st *State, key string) (Value, Value) {
		stats := newMap(st, someMap(), mapEnt{key: Str(key)})
		return newMap(st, someMap(), mapEnt{key: Str("stats"), val: iface(mapT, stats)}), nil
	})
	add("its statistic", func(st *State, key string) (Value, Value) {
		x := ip.fresh("value", tInt64)
		stats := newMap(st, someMap(), mapEnt{key: Str(key), val: iface(tInt64, x)})
		return newMap(st, someMap(), mapEnt{key: Str("stats"), val: iface(mapT, stats)}), x
	})
	add("only its statistic", func(st *State, key string) (Value, Value) {
		x := ip.fresh("value", tInt64)
		stats := newMap(st, nil, mapEnt{key: Str(key), val: iface(tInt64, x)})
		return newMap(st, nil, mapEnt{key: Str("stats"), val: iface(mapT, stats)}), x
	})
	for _, f := range c.p.moduleFuncs() {
		sig := f.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || f.Parent() != nil {
			continue
		}
		if !types.Identical(sig.Params().At(0).Type().Underlying(), mapT) || !types.Implements(sig.Results().At(0).Type(), it) {
			continue
		}
		made++
		ms := types.NewMethodSet(sig.Results().At(0).Type())
		_ = ms
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			ms, _ := m.Type().(*types.Signature)
			if ms == nil || ms.Params().Len() != 0 {
				continue
			}
			counter := ms.Results().Len() == 2 && types.Identical(ms.Results().At(0).Type(), tInt64) && types.Identical(ms.Results().At(1).Type(), tBool)
			key := statKey(m.Name())
			for _, s := range shapes {
				st := w.st.clone()
				meta, want := s.make(st, key)
				name := m.Name() + ", " + s.name
				for _, o := range w.call(st, f, meta) {
					if o.pan != nil {
						c.decide(no, name+": panic", f.Pos(), nil, "%s panics: %s", f.Name(), o.pan.Key())
						continue
					}
					st := o.st
					rt, rv := sig.Results().At(0).Type(), st.R(orNil(o.ret))
					if x, ok := rv.(*Iface); ok {
						rt, rv = x.typ, st.R(x.v)
					}
					g := c.p.method(rt, m.Name())
					if g == nil {
						c.decide(unknown, name, f.Pos(), nil, "no method")
						continue
					}
					for _, o := range w.call(st, g, rv) {
						st := o.st
						tr := func() []string { return trace(c.p, st, 20) }
						if o.pan != nil {
							c.decide(no, name+": panic", g.Pos(), tr, "%s panics with %s: %s", m.Name(), s.name, o.pan.Key())
							continue
						}
						c.decide(yes, name, 0, nil, "")
						vs := tupleOf(o)
						switch m.Name() {
						case "Metadata":
							if _, isMap := st.R(meta).(*MapV); isMap && len(vs) == 1 {
								c.decide(sameMap(st, vs[0], meta), name+": metadata", g.Pos(), tr, "%s returns %s instead of what the server sent", m.Name(), short(st.R(vs[0]).Key()))
							}
						case "GetStats":
							if len(vs) != 2 || strings.Contains(s.name, "nil map") {
								break
							}
							stats := statsOf(st, meta)
							ok := st.truth(st.R(vs[1]))
							if stats == nil {
								c.decide(not(ok), name+": found", g.Pos(), tr, "%s reports true with %s", m.Name(), s.name)
							} else {
								c.decide(ok, name+": found", g.Pos(), tr, "%s reports false with %s", m.Name(), s.name)
								c.decide(sameMap(st, vs[0], stats), name+": value", g.Pos(), tr, "%s returns %s instead of the statistics", m.Name(), short(st.R(vs[0]).Key()))
							}
						}
						if !counter {
							continue
						}
						n, ok := asLin(st.R(vs[0])), st.truth(st.R(vs[1]))
						if n == nil {
							c.decide(unknown, name, g.Pos(), tr, "value %s", vs[0].Key())
							continue
						}
						if want != nil {
							c.decide(ok, name+": found", g.Pos(), tr, "%s reports false with %s", m.Name(), s.name)
							c.decide(decideEQ(st, n, asLin(want)), name+": value", g.Pos(), tr, "%s returns %s instead of the value of %q", m.Name(), n.Key(), key)
						} else {
							c.decide(not(ok), name+": found", g.Pos(), tr, "%s reports true with %s", m.Name(), s.name)
							c.decide(decideEQ(st, n, num(-1)), name+": value", g.Pos(), tr, "%s returns %s instead of -1 with %s", m.Name(), n.Key(), s.name)
						}
					}
				}
			}
		}
	}
	if made == 0 {
		c.decide(unknown, "results", 0, nil, "no constructor of results")
	}
	c.covered(ip)
}

// statsOf returns the statistics in the metadata, nil if they are no map
func statsOf(st *State, meta Value) Value {
	m, ok := st.R(meta).(*MapV)
	if !ok {
		return nil
	}
	mc, ok := st.R(st.heap[m.obj].val).(*MapC)
	if !ok {
		return nil
	}
	for _, e := range mc.ovr {
		if e.val != nil && same(e.key, Str("stats")) {
			if i, ok := e.val.(*Iface); ok {
				if mv, ok := i.v.(*MapV); ok {
					return mv
				}
			}
		}
	}
	return nil
}

// sameMap: v is the map or a copy of it
func sameMap(st *State, v, want Value) tri {
	v = st.R(v)
	if same(v, want) {
		return yes
	}
	m, ok := v.(*MapV)
	if !ok {
		if st.truth(st.isNil(v)) == yes {
			return no
		}
		return unknown
	}
	a, _ := st.R(st.heap[m.obj].val).(*MapC)
	b, _ := st.R(st.heap[want.(*MapV).obj].val).(*MapC)
	switch {
	case a == nil || b == nil:
		return unknown
	case same(a, b):
		return yes
	case a.base == nil && len(a.ovr) == 0, len(b.ovr) > 0 && a.base == nil && len(a.ovr) == len(b.ovr) && b.base != nil:
		return no
	}
	// another map of the metadata
	if m.obj != want.(*MapV).obj && !contains(a, isMadeUp) {
		for k := range a.ovr {
			for j := range b.ovr {
				if same(a.ovr[k].key, b.ovr[j].key) && a.ovr[k].val != nil && b.ovr[j].val != nil && !same(a.ovr[k].val, b.ovr[j].val) {
					return no
				}
			}
		}
	}
	return unknown
}

// statKey is the name the server gives a statistic
func statKey(m string) string {
	var b strings.Builder
	for i, r := range strings.TrimPrefix(m, "Get") {
		if unicode.IsUpper(r) && i > 0 {
			b.WriteByte('-')
		}
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}
