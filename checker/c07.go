package main

import (
	"fmt"
	"go/constant"
	"go/types"
)

func init() {
	conn := checkConn("C07", "the opening of a connection is interpreted against a server that answers the handshake in every possible way and in every possible split; GetProtocol is interpreted for an unknown answer of unknown length", "One obligation per byte of the handshake, per path of an attempt for the answer it was given, and per path of GetProtocol for the bytes it accepts.")
	checks["C07"] = func(c *Ctx) {
		conn(c)
		w := newWorld(c.p)
		getProtocol(c, w)
		c.covered(w.ip)
	}
}

// getProtocol checks which answers are accepted and what they select
func getProtocol(c *Ctx, w *World) {
	f := c.p.fn("protocol", "GetProtocol")
	if f == nil {
		c.decide(unknown, "GetProtocol", 0, nil, "not found")
		return
	}
	for n := 0; n <= 8; n++ {
		st := w.st.clone()
		var segs []Seg
		var bs []*Lin
		for i := 0; i < n && n < 8; i++ {
			b := w.ip.fresh("answer", tByte)
			bs = append(bs, asLin(b))
			segs = append(segs, item(wrapTyp(b)))
		}
		var arg Value = w.ip.newSlice(st, mkSeq(tByte, segs...), tBytes)
		if n == 8 {
			// of any greater length
			arg = w.ip.fresh("answer", tBytes)
			st.addCon(addLin(negLin(lenVal(arg)), num(8)))
		}
		key := fmt.Sprintf("GetProtocol of %d bytes", n)
		if n == 8 {
			key = "GetProtocol of more bytes"
		}
		for _, o := range w.call(st, f, arg) {
			st := o.st
			if o.pan != nil {
				c.decide(no, key+": panic", f.Pos(), nil, "GetProtocol panics: %s", o.pan.Key())
				continue
			}
			vs := tupleOf(o)
			good := st.truth(st.isNil(st.R(vs[len(vs)-1])))
			if good == unknown {
				c.decide(unknown, key, f.Pos(), nil, "error %s", vs[len(vs)-1].Key())
				continue
			}
			if good == no {
				c.decide(yes, key, 0, nil, "")
				// refused: then it was none of the supported versions (opening a connection decides that)
				continue
			}
			if n != 4 {
				c.decide(no, key, f.Pos(), func() []string { return trace(c.p, st, 20) }, "%s succeeds", key)
				continue
			}
			ok := yes
			for _, b := range bs[:3] {
				ok = and3(ok, decideEQ(st, b, num(0)))
			}
			v := st.rlin(bs[3])
			if !v.isConst() {
				if !st.proveLT(num(0), v) || !st.proveLT(v, num(5)) {
					ok = and3(ok, unknown)
					if s := st.clone(); s.addCon(addLin(num(5), negLin(v))) {
						ok = no
					}
				}
			} else if v.int() < 1 || v.int() > 4 {
				ok = no
			}
			c.decide(ok, key+": accepted", f.Pos(), func() []string { return trace(c.p, st, 20) }, "GetProtocol accepts an answer that is no supported version")
			if l := asLin(st.R(vs[1])); l != nil {
				c.decide(decideEQ(st, l, v), key+": number", f.Pos(), func() []string { return trace(c.p, st, 20) }, "GetProtocol reports version %s for the answer %s", l.Key(), v.Key())
			}
			if i, isI := st.R(vs[0]).(*Iface); isI && v.isConst() {
				c.implVersion(w, i.typ, v.int())
			} else {
				c.decide(unknown, key+": implementation", f.Pos(), nil, "implementation %s", st.R(vs[0]).Key())
			}
		}
	}
}

func and3(a, b tri) tri {
	switch {
	case a == no || b == no:
		return no
	case a == yes && b == yes:
		return yes
	}
	return unknown
}

// implVersion checks that an implementation belongs to a version
func (c *Ctx) implVersion(w *World, t types.Type, n int) {
	key := fmt.Sprintf("implementation of version %d", n)
	p, ok := t.(*types.Pointer)
	var named *types.Named
	if ok {
		named, _ = types.Unalias(p.Elem()).(*types.Named)
	} else {
		named, _ = types.Unalias(t).(*types.Named)
	}
	pos := tokenPos(0)
	if named != nil {
		pos = named.Obj().Pos()
		if k, ok := named.Obj().Pkg().Scope().Lookup("ProtocolVersion").(*types.Const); ok {
			v, _ := constant.Int64Val(constant.ToInt(k.Val()))
			c.decide(triOf(v == int64(n)), key, pos, nil, "version %d is served by the implementation of version %d", n, v)
		}
	}
	// what sets the versions apart on the wire
	sig := func(m string, args ...Value) (int, int) {
		st := w.st.clone()
		for _, o := range w.callMethodOf(st, t, w.protoValue(st, t), m, args...) {
			if i, ok := o.st.R(orNil(tupleOf(o)[0])).(*Iface); ok && o.pan == nil {
				s, l := -1, -1
				for _, x := range w.callMethodOf(o.st, i.typ, o.st.R(i.v), "Signature") {
					if k := asLin(x.st.R(orNil(x.ret))); k != nil && k.isConst() {
						s = k.int()
					}
				}
				for _, x := range w.callMethodOf(o.st, i.typ, o.st.R(i.v), "AllFields") {
					if k, ok := x.st.R(orNil(x.ret)).(*Slice); ok && k.len.isConst() {
						l = k.len.int()
					}
				}
				return s, l
			}
		}
		return -1, -1
	}
	want := func(m string, ws, wl int, args ...Value) {
		s, l := sig(m, args...)
		if s < 0 || l < 0 {
			c.decide(unknown, key+": "+m, pos, nil, "unknown message")
			return
		}
		c.decide(triOf(s == ws && l == wl), key+": "+m, pos, nil, "version %d is served by an implementation whose %s gives a message %#x with %d fields instead of %#x with %d", n, m, s, l, ws, wl)
	}
	ip := w.ip
	if n >= 3 {
		want("GetInitMessage", 0x01, 1, ip.fresh("client", tString), ip.fresh("token", types.NewMap(tString, tAny)))
		want("GetTxCommitMessage", 0x12, 0)
	} else {
		want("GetInitMessage", 0x01, 2, ip.fresh("client", tString), ip.fresh("token", types.NewMap(tString, tAny)))
		want("GetTxCommitMessage", 0x10, 2)
	}
	if n >= 4 {
		want("GetPullAllMessage", 0x3f, 1)
	} else {
		want("GetPullAllMessage", 0x3f, 0)
	}
}
