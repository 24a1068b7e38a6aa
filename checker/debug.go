package main

import (
	"fmt"
	"go/types"
	"os"
)

func debugEnc(w *World) {
	ip := w.ip
	fn := w.p.fn(os.Args[1], os.Args[2])
	st := w.st.clone()
	var t types.Type = types.Typ[types.Int64]
	if len(os.Args) > 3 {
		switch os.Args[3] {
		case "string":
			t = types.Typ[types.String]
		case "slice":
			t = types.NewSlice(tAny)
		case "strs":
			t = types.NewSlice(tString)
		case "map":
			t = types.NewMap(tString, tAny)
		}
	}
	v := ip.fresh("v", t)
	ip.recursion = encRecursion
	for i, o := range w.call(st, fn, &Iface{typ: t, v: v}) {
		fmt.Println("---- outcome", i)
		if o.pan != nil {
			fmt.Println("panic", o.pan.Key())
			continue
		}
		vs := tupleOf(o)
		fmt.Println("err", o.st.R(vs[1]).Key())
		if sl, ok := o.st.R(vs[0]).(*Slice); ok {
			fmt.Println("bytes", o.st.normSeq(ip.seqOf(o.st, sl)).Key())
		} else {
			fmt.Println("bytes", o.st.R(vs[0]).Key())
		}
		for _, l := range trace(w.p, o.st, 30) {
			fmt.Println("   ", l)
		}
	}
	fmt.Println("trouble", ip.trouble, ip.unhandled, "steps", ip.steps, coversWhy)
}
