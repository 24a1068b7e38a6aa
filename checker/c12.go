package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	for _, id := range []string{"C12", "C17"} {
		conn := checks[id]
		checks[id] = func(c *Ctx) {
			conn(c)
			w := newWorld(c.p)
			w.ip.maxRec = 10
			fromBelow(c, w)
			if c.id == "C12" {
				wrapping(c, w)
				failureTexts(c, w)
			}
			codecErrors(c, w)
			c.covered(w.ip)
		}
	}
}

// errorOf tells whether the error an outcome reports has want as its innermost cause
func errorOf(c *Ctx, w *World, st *State, err, want Value) (tri, string) {
	err = st.R(err)
	if st.truth(st.isNil(err)) == yes {
		return no, "no error"
	}
	if same(err, want) {
		return yes, ""
	}
	i, ok := err.(*Iface)
	if !ok {
		if st.truth(st.isNil(err)) == no && !contains(err, isMadeUp) && !contains(err, func(x Value) bool { return same(x, want) }) {
			return no, short(err.Key())
		}
		return unknown, short(err.Key())
	}
	if c.p.method(i.typ, "InnerMost") == nil {
		return no, "a " + typeName(i.typ)
	}
	t := yes
	d := ""
	for _, o := range w.callMethodOf(st.clone(), i.typ, st.R(i.v), "InnerMost") {
		if o.pan != nil {
			return no, "a panic"
		}
		r := o.st.R(orNil(o.ret))
		if !same(r, want) {
			d = short(r.Key())
			if contains(r, isMadeUp) {
				t = and3(t, unknown)
			} else {
				t = no
			}
		}
	}
	return t, d
}

// fromBelow makes errors of the transport none of the driver's own
func fromBelow(c *Ctx, w *World) {
	prev := w.ip.possible
	w.ip.possible = func(st *State, v Value, t types.Type) bool {
		if s, ok := v.(*Sym); ok && (s.name == "cause" || s.name == "transport error" || s.name == "write error") {
			p, ok := t.(*types.Pointer)
			if !ok {
				return true
			}
			n, ok := types.Unalias(p.Elem()).(*types.Named)
			return !ok || !c.p.isModule(n.Obj().Pkg())
		}
		return prev == nil || prev(st, v, t)
	}
}

// wrapping checks that wrapping keeps the innermost cause
func wrapping(c *Ctx, w *World) {
	f := c.p.fn("errors", "Wrap")
	if f == nil {
		return
	}
	if neu := c.p.fn("errors", "New"); neu != nil {
		// an error that wraps nothing is its own innermost cause
		for _, o := range w.call(w.st.clone(), neu, Str("the root of it"), Nil{}) {
			if o.pan != nil {
				continue
			}
			e, ok := o.st.R(orNil(o.ret)).(*Iface)
			if !ok {
				e = &Iface{typ: neu.Signature.Results().At(0).Type(), v: o.st.R(orNil(o.ret))}
			}
			t, d := unknown, "undetermined"
			for _, r := range w.callMethodOf(o.st, e.typ, e.v, "InnerMost") {
				v := r.st.R(orNil(r.ret))
				if i, ok := v.(*Iface); ok {
					v = i.v
				}
				t, d = triOf(r.pan == nil && same(v, e.v)), short(v.Key())
				if t == no && contains(v, isMadeUp) {
					t = unknown
				}
			}
			c.decide(t, "errors.New: innermost cause", neu.Pos(), nil, "the innermost cause of an error that wraps nothing is %s", d)
		}
	}
	st := w.st.clone()
	cause := w.ip.newErr(st, "cause")
	cur := []Outcome{{st: st, ret: cause}}
	for depth := 1; depth <= 3; depth++ {
		var next []Outcome
		for _, o := range cur {
			for _, r := range w.call(o.st, f, o.ret, Str("wrapped"), Nil{}) {
				if r.pan != nil {
					c.decide(no, "Wrap: panic", f.Pos(), nil, "wrapping an error panics")
					continue
				}
				e := r.ret
				if _, ok := r.st.R(e).(*Iface); !ok {
					e = &Iface{typ: f.Signature.Results().At(0).Type(), v: r.st.R(e)}
				}
				t, d := errorOf(c, w, r.st, e, cause)
				c.decide(t, fmt.Sprintf("errors.Wrap %d times", depth), f.Pos(), func() []string { return trace(c.p, r.st, 20) }, "the innermost cause of an error wrapped %d times is %s", depth, d)
				next = append(next, Outcome{st: r.st, ret: e})
			}
		}
		cur = next
	}
}

// hasText: the text s is part of the value
func hasText(v Value, s Value) bool {
	return contains(v, func(x Value) bool {
		if a, ok := x.(Str); ok {
			if b, ok := s.(Str); ok {
				return strings.Contains(string(a), string(b))
			}
		}
		if q, ok := x.(*SeqV); ok {
			if b, ok := s.(Str); ok {
				// the constant runs of a sequence of bytes
				var run []byte
				for _, g := range q.segs {
					if l := asLin(g.v); g.kind == 'i' && l != nil && l.isConst() {
						run = append(run, byte(l.int()))
						continue
					}
					run = append(run, 0)
				}
				return strings.Contains(string(run), string(b))
			}
		}
		return same(x, s)
	})
}

// the operations whose part in a text is known
var textOps = map[string]bool{"cat": true, "stack": true, "string": true, "bytes": true, "concat": true, "fmt:%s": true, "fmt:%v": true, "fmt:%T": true}

// failureTexts checks what a server failure and the errors that wrap it say
func failureTexts(c *Ctx, w *World) {
	ip := w.ip
	ft := c.p.typ("structures/messages", "FailureMessage")
	wrap, neu, mk := c.p.fn("errors", "Wrap"), c.p.fn("errors", "New"), c.p.fn("structures/messages", "NewFailureMessage")
	if ft == nil || wrap == nil || neu == nil || mk == nil {
		c.decide(unknown, "texts", 0, nil, "no server failures or wrapped errors")
		return
	}
	mapT := types.NewMap(tString, tAny)
	says := func(st *State, o Outcome, key, what string, pos token.Pos, want Value) {
		tr := func() []string { return trace(c.p, o.st, 20) }
		if o.pan != nil {
			c.decide(no, key+": panic", pos, tr, "%s panics: %s", key, o.pan.Key())
			return
		}
		v := o.st.R(orNil(o.ret))
		t := yes
		if !hasText(v, want) {
			t = no
			if contains(v, isMadeUp) || len(o.st.notes) > 0 || contains(v, func(x Value) bool {
				a, ok := x.(*App)
				return ok && !textOps[a.op]
			}) {
				t = unknown
			}
		}
		c.decide(t, key+": "+what, pos, tr, "%s does not contain %s: %s", key, what, clip(v.Key(), 200))
	}
	// the failure message
	made := func(st *State, meta Value) []Outcome {
		var out []Outcome
		for _, o := range w.call(st, mk, meta) {
			if o.pan == nil {
				out = append(out, Outcome{st: o.st, ret: o.st.R(orNil(o.ret))})
			}
		}
		return out
	}
	call := func(os []Outcome, m string) (out []Outcome) {
		for _, o := range os {
			out = append(out, w.callMethodOf(o.st, ft, o.ret, m)...)
		}
		return
	}
	failure := func(st *State, ents ...mapEnt) []Outcome {
		mv := &MapV{obj: ip.alloc(st, mapT, &MapC{ovr: ents, base: ip.fresh("anything", mapT)}, "metadata")}
		return made(st, mv)
	}
	text := func(v Value) Value { return &Iface{typ: tString, v: v} }
	odd := []struct {
		name string
		v    Value
	}{{"missing", nil}, {"nil", Nil{}}, {"an integer", &Iface{typ: tInt64, v: ip.fresh("n", tInt64)}}, {"a list", &Iface{typ: types.NewSlice(tAny), v: ip.fresh("l", types.NewSlice(tAny))}}}
	for _, m := range []string{"GetCode", "GetMessage", "Error"} {
		f := c.p.method(ft, m)
		if f == nil {
			continue
		}
		st := w.st.clone()
		code, msg := ip.fresh("server code", tString), ip.fresh("server message", tString)
		for _, o := range call(failure(st, mapEnt{key: Str("code"), val: text(code)}, mapEnt{key: Str("message"), val: text(msg)}), m) {
			if m != "GetMessage" {
				says(st, o, "FailureMessage."+m, "the server's code", f.Pos(), code)
			}
			if m != "GetCode" {
				says(st, o, "FailureMessage."+m, "the server's message", f.Pos(), msg)
			}
		}
		for _, x := range odd {
			st := w.st.clone()
			for _, o := range call(failure(st, mapEnt{key: Str("code"), val: x.v}, mapEnt{key: Str("message"), val: x.v}), m) {
				t := yes
				if o.pan != nil {
					t = no
				}
				c.decide(t, "FailureMessage."+m+", "+x.name, f.Pos(), func() []string { return trace(c.p, o.st, 20) }, "%s panics when the server's details are %s", m, x.name)
			}
		}
		for _, o := range call(made(w.st.clone(), Nil{}), m) {
			c.decide(triOf(o.pan == nil), "FailureMessage."+m+", no metadata", f.Pos(), nil, "%s panics without metadata", m)
		}
	}
	// errors that wrap it, and errors that wrap nothing
	for _, root := range []string{"server failure", "plain error"} {
		st := w.st.clone()
		code := ip.fresh("server code", tString)
		msg := ip.fresh("server message", tString)
		var cur []Outcome
		var want []Value
		if root == "server failure" {
			for _, o := range failure(st, mapEnt{key: Str("code"), val: text(code)}, mapEnt{key: Str("message"), val: text(msg)}) {
				cur = append(cur, Outcome{st: o.st, ret: &Iface{typ: ft, v: o.ret}})
			}
			want = []Value{code, msg}
		} else {
			cur = w.call(st, neu, Str("the root of it"), Nil{})
			want = []Value{Str("the root of it")}
		}
		for depth := 0; depth <= 3; depth++ {
			var next []Outcome
			for _, o := range cur {
				if o.pan != nil {
					c.decide(no, root+": panic", neu.Pos(), nil, "making an error panics")
					continue
				}
				e := o.ret
				i, ok := o.st.R(e).(*Iface)
				if !ok {
					i = &Iface{typ: wrap.Signature.Results().At(0).Type(), v: o.st.R(e)}
				}
				for _, r := range w.callMethodOf(o.st.clone(), i.typ, o.st.R(i.v), "Error") {
					for k, x := range want {
						says(o.st, r, fmt.Sprintf("the text of a %s wrapped %d times", root, depth), fmt.Sprintf("part %d", k), wrap.Pos(), x)
					}
				}
				if depth < 3 {
					for _, r := range w.call(o.st, wrap, i, Str(fmt.Sprintf("wrapper %d", depth)), Nil{}) {
						next = append(next, r)
					}
				}
			}
			want = append(want, Str(fmt.Sprintf("wrapper %d", depth)))
			cur = next
		}
	}
}

// codecErrors checks that encoders and decoders hand on the error of the transport
func codecErrors(c *Ctx, w *World) {
	ip := w.ip
	ob := func(st *State, t tri, rule string, pos token.Pos, fn *ssa.Function, detail string) {}
	for _, cd := range w.encoders() {
		for _, ec := range encCases(w) {
			if ec.name != "nil" && ec.name != "string" && ec.name != "structures.Structure" {
				continue
			}
			ip.steps = 0
			ip.possible = nil
			st := w.st.clone()
			v, _ := ec.mk(w, st)
			fromBelow(c, w)
			s := &Stream{chunk: num(65535), ob: ob}
			st.setG("cause", Nil{})
			pv := w.protoValue(st, cd.proto)
			wv := nonNil(st, mkApp("global:writer", w.p.extType("io", "Writer")))
			ip.recursion = encRecursion
			ip.recSeen = nil
			s.reset(st)
			ip.hooks["(io.Writer).Write"] = func(ip *Interp, st *State, c *Call) []Outcome {
				outs := s.hook(ip, st, c)
				for _, o := range outs {
					if t, ok := o.ret.(*Tuple); ok && o.st.gBool("w.fail") && o.st.truth(o.st.isNil(t.vs[1])) == no {
						if _, isNil := orNil(o.st.g("cause")).(Nil); isNil {
							o.st.setG("cause", t.vs[1])
						}
					}
				}
				return outs
			}
			c.guarded(func() {
				for _, o := range w.callMethodOf(st, cd.proto, pv, "NewEncoder", wv, num(65535)) {
					i, ok := o.st.R(orNil(o.ret)).(*Iface)
					if !ok || o.pan != nil {
						continue
					}
					for _, e := range w.callMethodOf(o.st, i.typ, i.v, "Encode", v) {
						if e.pan != nil || !e.st.gBool("w.fail") {
							continue
						}
						t, d := errorOf(c, w, e.st, orNil(e.ret), e.st.R(orNil(e.st.g("cause"))))
						if t == no && len(e.st.notes) > 0 {
							t = unknown
						}
						c.decide(t, cd.name+" Encode "+ec.name+": transport error", posOf(e), func() []string { return trace(c.p, e.st, 20) }, "Encode reports a failed write as %s", d)
					}
				}
			})
			ip.recursion = nil
		}
		for reads := 0; reads <= 2; reads++ {
			ip.steps = 0
			st := w.st.clone()
			st.setG("reads", num(0))
			st.setG("cause", Nil{})
			ip.hooks["(io.Reader).Read"] = func(ip *Interp, st *State, c *Call) []Outcome {
				k := lg(st, "reads")
				if !k.isConst() {
					return nil
				}
				sl, ok := st.R(c.args[1]).(*Slice)
				if k.int() >= reads || !ok {
					e := ip.newErr(st, "transport error")
					if _, isNil := orNil(st.g("cause")).(Nil); isNil {
						st.setG("cause", e)
					}
					return multi(st, num(0), e)
				}
				st.setG("reads", num(int64(k.int()+1)))
				// a header that announces content, then a part of the content
				n := sl.len
				if k.int() == 0 {
					if n.is(2) {
						ip.overwrite(st, sl, num(0), mkSeq(tByte, item(num(0)), item(num(9))), n)
					} else {
						n = num(1)
						ip.overwrite(st, sl, num(0), mkSeq(tByte, item(num(0))), n)
					}
				} else {
					n = num(1)
					ip.overwrite(st, sl, num(0), mkSeq(tByte, item(ip.fresh("byte", tByte))), n)
				}
				return multi(st, n, Nil{})
			}
			pv := w.protoValue(st, cd.proto)
			rv := nonNil(st, mkApp("global:reader", w.p.extType("io", "Reader")))
			c.guarded(func() {
				for _, o := range w.callMethodOf(st, cd.proto, pv, "NewDecoder", rv) {
					i, ok := o.st.R(orNil(o.ret)).(*Iface)
					if !ok || o.pan != nil {
						continue
					}
					for _, e := range w.callMethodOf(o.st, i.typ, i.v, "Decode") {
						cause := e.st.R(orNil(e.st.g("cause")))
						if _, isNil := cause.(Nil); isNil || e.pan != nil {
							continue
						}
						vs := tupleOf(e)
						t, d := errorOf(c, w, e.st, vs[len(vs)-1], cause)
						if t == no && len(e.st.notes) > 0 {
							t = unknown
						}
						c.decide(t, fmt.Sprintf("%s Decode: transport error after %d reads", cd.name, reads), posOf(e), func() []string { return trace(c.p, e.st, 20) }, "Decode reports a failed read as %s", d)
					}
				}
			})
		}
	}
}
