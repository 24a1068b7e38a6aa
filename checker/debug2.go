package main

import (
	"fmt"
	"os"
)

// debugFn interprets a function with unknown arguments
func debugFn(w *World) {
	ip := w.ip
	fn := w.p.fn(os.Args[2], os.Args[3])
	st := w.st.clone()
	var args []Value
	for _, p := range fn.Params {
		args = append(args, ip.fresh(p.Name(), p.Type()))
	}
	for i, o := range w.call(st, fn, args...) {
		fmt.Println("---- outcome", i)
		if o.pan != nil {
			fmt.Println("panic", o.pan.Key())
			continue
		}
		for _, v := range tupleOf(o) {
			fmt.Println("  ret", o.st.R(v).Key())
			if sl, ok := o.st.R(v).(*Slice); ok {
				fmt.Println("    =", o.st.normSeq(ip.seqOf(o.st, sl)).Key())
			}
		}
		for _, l := range trace(w.p, o.st, 30) {
			fmt.Println("   ", l)
		}
	}
	fmt.Println("trouble", ip.trouble, ip.unhandled, "steps", ip.steps, coversWhy)
}
