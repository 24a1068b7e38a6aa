package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Models of the library functions the module uses.

var baseModels = map[string]Hook{}

var (
	tInt    = types.Typ[types.Int]
	tInt64  = types.Typ[types.Int64]
	tByte   = types.Typ[types.Uint8]
	tString = types.Typ[types.String]
	tBool   = types.Typ[types.Bool]
	tError  = types.Universe.Lookup("error").Type()
	tAny    = types.NewInterfaceType(nil, nil)
	tBytes  = types.NewSlice(tByte)
)

func one(st *State, v Value) []Outcome { return []Outcome{{st: st, ret: v}} }
func multi(st *State, vs ...Value) []Outcome {
	return []Outcome{{st: st, ret: &Tuple{vs}}}
}

// nonNil marks a value as not nil
func nonNil(st *State, v Value) Value {
	switch v.(type) {
	case *Sym, *App:
		st.setBind(mkApp("isnil", tBool, v), Bool(false))
	}
	return v
}

// extErr is an error value exported by a library
func extErr(st *State, name string) Value {
	return nonNil(st, mkApp("global:"+name, tError))
}

// newErr is a fresh non nil error
func (ip *Interp) newErr(st *State, name string) Value {
	return nonNil(st, ip.fresh(name, tError))
}

// branch splits on a condition; either may be nil
func branch(st *State, c Value) (t, f *State) {
	switch st.truth(c) {
	case yes:
		return st, nil
	case no:
		return nil, st
	}
	t, f = st.clone(), st.clone()
	if !t.assume(c, true) {
		t = nil
	}
	if !f.assume(c, false) {
		f = nil
	}
	return
}

// variadic lists the values passed as ...interface{}; ok false when their number is unknown
func (ip *Interp) variadic(st *State, v Value, t types.Type) ([]Value, bool) {
	sl := ip.slice(st, v, t)
	if sl == nil {
		return nil, true
	}
	q := st.normSeq(ip.seqOf(st, sl))
	var out []Value
	for _, g := range q.segs {
		if g.kind != 'i' {
			return []Value{v}, false
		}
		out = append(out, st.R(g.v))
	}
	return out, true
}

// fmtVal is the text of one formatted value
func (ip *Interp) fmtVal(st *State, verb string, v Value) Value {
	raw := v
	var t types.Type
	if i, ok := v.(*Iface); ok {
		raw, t = st.R(i.v), i.typ
	}
	if ip.text != nil && (verb == "%s" || verb == "%v") {
		if s := ip.text(st, v); s != nil {
			return s
		}
	}
	plain := t != nil && types.NewMethodSet(t).Lookup(nil, "String") == nil && types.NewMethodSet(t).Lookup(nil, "Error") == nil
	switch verb {
	case "%s", "%v", "%+v":
		if isStringType(t) && plain {
			return raw
		}
	}
	switch verb {
	case "%d", "%v", "%+v":
		if isIntType(t) && (plain || verb == "%d") {
			if l := asLin(raw); l != nil {
				if l.isConst() {
					return Str(l.c.String())
				}
				return mkApp("itoa", tString, l)
			}
		}
	case "%t":
		if isBoolType(t) {
			return fmtBool(raw)
		}
	}
	if verb == "%v" && isBoolType(t) && plain {
		return fmtBool(raw)
	}
	return mkApp("fmt:"+verb, tString, v)
}

func fmtBool(v Value) Value {
	if b, ok := v.(Bool); ok {
		return Str(strconv.FormatBool(bool(b)))
	}
	return mkApp("fmtbool", tString, v)
}

func (ip *Interp) sprintf(st *State, format Value, args []Value, ok bool) Value {
	f, isStr := format.(Str)
	if !isStr || !ok {
		return mkApp("sprintf", tString, append([]Value{format}, args...)...)
	}
	var ps []Value
	s := string(f)
	k := 0
	for {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			ps = append(ps, Str(s))
			break
		}
		ps = append(ps, Str(s[:i]))
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			ps = append(ps, Str("%!(NOVERB)"))
			break
		}
		if s[j] == '%' {
			ps = append(ps, Str("%"))
		} else if k < len(args) {
			ps = append(ps, ip.fmtVal(st, s[i:j+1], args[k]))
			k++
		} else {
			ps = append(ps, Str("%!"+s[j:j+1]+"(MISSING)"))
		}
		s = s[j+1:]
	}
	for ; k < len(args); k++ {
		ps = append(ps, mkApp("fmt:extra", tString, args[k]))
	}
	return mkCat(ps...)
}

func model(names string, h Hook) {
	for _, n := range strings.Fields(names) {
		baseModels[n] = h
	}
}

// ---- buffers

func (ip *Interp) bufOf(st *State, v Value, c *Call) (*Ptr, *SeqV) {
	var pt types.Type
	if c.fn != nil && len(c.fn.Params) > 0 {
		pt = c.fn.Params[0].Type()
	} else if c.fn != nil && c.fn.Signature.Recv() != nil {
		pt = c.fn.Signature.Recv().Type()
	}
	if pt == nil {
		pt = types.NewPointer(ip.p.extType("bytes", "Buffer"))
	}
	p := ip.deref(st, v, pt)
	if p == nil {
		return nil, nil
	}
	e, ok := st.R(ip.load(st, p, nil)).(*Ext)
	if !ok || e.kind != "buffer" {
		return nil, nil
	}
	q, ok := st.R(e.vs[0]).(*SeqV)
	if !ok {
		return nil, nil
	}
	return p, q
}

func (ip *Interp) bufSet(st *State, p *Ptr, q *SeqV) {
	ip.store(st, p, &Ext{kind: "buffer", vs: []Value{st.normSeq(q)}})
}

// extType finds a type of an imported package
func (p *Program) extType(pkg, name string) types.Type {
	if k := p.prog.ImportedPackage(pkg); k != nil {
		if o := k.Pkg.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	var found types.Type
	seen := map[*types.Package]bool{}
	var walk func(k *types.Package)
	walk = func(k *types.Package) {
		if seen[k] || found != nil {
			return
		}
		seen[k] = true
		if k.Path() == pkg {
			if o := k.Scope().Lookup(name); o != nil {
				found = o.Type()
			}
			return
		}
		for _, i := range k.Imports() {
			walk(i)
		}
	}
	for _, k := range p.pkgs {
		walk(k.Types)
	}
	return found
}

func bufHook(f func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome) Hook {
	return func(ip *Interp, st *State, c *Call) []Outcome {
		p, q := ip.bufOf(st, c.args[0], c)
		if p == nil {
			if _, ok := st.R(c.args[0]).(Nil); ok {
				ip.oblige(st, "nilderef", c.pos, c.in, no, "method of nil buffer")
				return []Outcome{{st: st, pan: Str("nil buffer")}}
			}
			return nil
		}
		return f(ip, st, c, p, q)
	}
}

// take removes up to n bytes from the front; calls f for each alternative
func (ip *Interp) takeUpTo(st *State, q *SeqV, n *Lin, f func(st *State, got *SeqV, rest *SeqV, n *Lin)) {
	have := st.rlin(q.length())
	full, short := branch(st, mkLE0(subLin(n, have)))
	if full != nil {
		f(full, full.window(q, num(0), n), full.tail(q, n), n)
	}
	if short != nil {
		f(short, q, mkSeq(q.elem), have)
	}
}

// laterKey names the ghost with what a stream delivers only at a further read
func laterKey(p *Ptr) string { return fmt.Sprintf("later:%d", p.obj) }

// bufRead models r.Read(p) for a buffer
func (ip *Interp) bufRead(st *State, bp *Ptr, q *SeqV, dst *Slice) []Outcome {
	if rest, ok := st.g(laterKey(bp)).(*SeqV); ok {
		// a stream that has not delivered everything yet: the rest comes with the next read
		if empty, some := branch(st.clone(), mkEQ0(q.length())); some == nil && empty != nil {
			st = empty
			st.setG(laterKey(bp), Nil{})
			q = rest
			ip.bufSet(st, bp, rest)
		}
	}
	var outs []Outcome
	want := num(0)
	if dst != nil {
		want = dst.len
	}
	empty, some := branch(st, mkEQ0(q.length()))
	if empty != nil {
		z, nz := branch(empty, mkEQ0(want))
		if z != nil {
			outs = append(outs, multi(z, num(0), Nil{})...)
		}
		if nz != nil {
			outs = append(outs, multi(nz, num(0), extErr(nz, "io.EOF"))...)
		}
	}
	if some != nil {
		ip.takeUpTo(some, q, want, func(s *State, got, rest *SeqV, n *Lin) {
			if dst != nil {
				ip.overwrite(s, dst, num(0), got, n)
			}
			ip.bufSet(s, bp, rest)
			outs = append(outs, multi(s, n, Nil{})...)
		})
	}
	return outs
}

// bigEndianOf reads the bytes of got as one unsigned number
func (ip *Interp) numOf(st *State, q *SeqV, w int, little bool) *Lin {
	q = st.normSeq(q)
	if len(q.segs) == 1 && q.segs[0].kind == 'n' && q.segs[0].w == w && !little {
		return asLin(ip.convert(st, q.segs[0].v, tInt64, types.Typ[map[int]types.BasicKind{1: types.Uint8, 2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[w]]))
	}
	sum := num(0)
	for k := 0; k < w; k++ {
		b := asLin(st.R(st.seqGet(q, num(int64(k)), tByte)))
		if b == nil {
			return asLin(ip.fresh("num", tInt64))
		}
		sh := uint(8 * (w - 1 - k))
		if little {
			sh = uint(8 * k)
		}
		sum = addLin(sum, mulLin(b, new(big.Int).Lsh(bi(1), sh)))
	}
	return sum
}

func fixedWidth(t types.Type) int {
	switch basicName(t) {
	case "int8", "uint8", "bool":
		return 1
	case "int16", "uint16":
		return 2
	case "int32", "uint32", "float32":
		return 4
	case "int64", "uint64", "float64":
		return 8
	}
	return 0
}

// numSeg is the big endian form of v
func (ip *Interp) numSeg(st *State, v Value, t types.Type) (Seg, bool) {
	w := fixedWidth(t)
	if w == 0 {
		return Seg{}, false
	}
	switch basicName(t) {
	case "float64", "float32":
		return Seg{kind: 'n', v: mkApp("fbits", types.Typ[types.Uint64], v), w: w}, true
	case "bool":
		if b, ok := v.(Bool); ok {
			if bool(b) {
				return item(num(1)), true
			}
			return item(num(0)), true
		}
		return item(wrapTyp(mkApp("b2i", tByte, v))), true
	}
	if w == 1 {
		return item(ip.convert(st, v, t, tByte)), true
	}
	// conversions that keep the low bytes do not matter
	l := asLin(v)
	for {
		a, ok := l.atom().(*App)
		if ok && strings.HasPrefix(a.op, "conv:") && intWidth(a.op[5:]) >= 8*w && asLin(a.args[0]) != nil {
			l = asLin(a.args[0])
			continue
		}
		break
	}
	if l.isConst() {
		m := new(big.Int).And(wrapBig(l.c, bi(0), new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(8*w)), bi(1))), new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(8*w)), bi(1)))
		_ = m
	}
	return Seg{kind: 'n', v: l, w: w}, true
}

func (ip *Interp) callMethod(st *State, recv Value, it types.Type, name string, args []Value, c *Call) []Outcome {
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for k := 0; k < i.NumMethods(); k++ {
		m := i.Method(k)
		if m.Name() == name {
			return ip.invoke(st, c.in, c.instr, c.pos, m.Type().(*types.Signature).Results(), it, m, st.R(recv), args)
		}
	}
	return nil
}

func tupleOf(o Outcome) []Value {
	if t, ok := o.ret.(*Tuple); ok {
		return t.vs
	}
	return []Value{o.ret}
}

// pure is a library function without effects
func pure(name string) Hook {
	return func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, pureResult(st, c))
	}
}

func pureResult(st *State, c *Call) Value {
	args := make([]Value, len(c.args))
	for i, a := range c.args {
		args[i] = st.R(a)
	}
	if c.res == nil || c.res.Len() == 0 {
		return nil
	}
	mk := func(i int, suffix string) Value {
		t := c.res.At(i).Type()
		return wrapTyp(mkApp(c.name+suffix, t, args...))
	}
	if c.res.Len() == 1 {
		return mk(0, "")
	}
	vs := make([]Value, c.res.Len())
	for i := range vs {
		vs[i] = mk(i, "#"+strconv.Itoa(i))
	}
	return &Tuple{vs}
}

// purePkgs are interpreted as uninterpreted pure functions unless modelled below
var purePkgs = []string{"strings.", "strconv.", "math.", "math/bits.", "unicode.", "unicode/utf8.", "time.", "(time.", "(*time.", "github.com/mindstand/gotime.", "(github.com/mindstand/gotime.",
	"(*github.com/mindstand/gotime.", "net/url.", "(*net/url.", "(net/url.", "runtime/debug.", "context.", "fmt.", "crypto/", "(*crypto/", "math/rand.New", "bytes.", "encoding/binary.", "os.", "io/ioutil.", "path", "net.", "sort.", "slices.", "maps.", "errors.", "(reflect.", "reflect."}

// mutators change what their arguments point to
var mutators = map[string]bool{"errors.As": true, "sort.": true, "slices.Sort": true, "slices.Reverse": true, "slices.Insert": true, "slices.Delete": true, "slices.Compact": true, "slices.Replace": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "fmt.Fprint": true, "fmt.Sscan": true, "fmt.Fscan": true, "fmt.Scan": true}

func isPure(name string) bool {
	for m := range mutators {
		if strings.HasPrefix(name, m) {
			return false
		}
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func init() {
	model("fmt.Sprintf", func(ip *Interp, st *State, c *Call) []Outcome {
		a, ok := ip.variadic(st, c.args[1], nil)
		return one(st, ip.sprintf(st, st.R(c.args[0]), a, ok))
	})
	model("fmt.Errorf", func(ip *Interp, st *State, c *Call) []Outcome {
		a, ok := ip.variadic(st, c.args[1], nil)
		return one(st, nonNil(st, mkApp("errorf", tError, ip.sprintf(st, st.R(c.args[0]), a, ok))))
	})
	model("fmt.Sprint fmt.Sprintln", func(ip *Interp, st *State, c *Call) []Outcome {
		a, _ := ip.variadic(st, c.args[0], nil)
		var ps []Value
		for _, v := range a {
			ps = append(ps, ip.fmtVal(st, "%v", v))
		}
		if c.name == "fmt.Sprintln" {
			ps = append(ps, Str("\n"))
		}
		return one(st, mkCat(ps...))
	})
	model("errors.New", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, nonNil(st, mkApp("errorf", tError, st.R(c.args[0]))))
	})
	model("errors.Is", func(ip *Interp, st *State, c *Call) []Outcome {
		if same(st.R(c.args[0]), st.R(c.args[1])) {
			return one(st, Bool(true))
		}
		return one(st, mkApp("errors.Is", tBool, st.R(c.args[0]), st.R(c.args[1])))
	})
	model("runtime/debug.Stack", func(ip *Interp, st *State, c *Call) []Outcome { return one(st, mkApp("stack", tBytes)) })
	model("strings.Repeat", func(ip *Interp, st *State, c *Call) []Outcome {
		s, ok := st.R(c.args[0]).(Str)
		n := asLin(st.R(c.args[1]))
		if ok && n != nil && n.isConst() && n.int() >= 0 && n.int() < 1000 {
			return one(st, Str(strings.Repeat(string(s), n.int())))
		}
		if n != nil && n.isConst() && n.int() < 0 {
			return []Outcome{{st: st, pan: Str("strings: negative Repeat count")}}
		}
		return nil
	})

	// strings
	fold := func(name string, f func(a []string) (Value, bool)) {
		model("strings."+name, func(ip *Interp, st *State, c *Call) []Outcome {
			var ss []string
			for _, a := range c.args {
				s, ok := st.R(a).(Str)
				if !ok {
					return one(st, pureResult(st, c))
				}
				ss = append(ss, string(s))
			}
			v, ok := f(ss)
			if !ok {
				return one(st, pureResult(st, c))
			}
			return one(st, v)
		})
	}
	fold("ToLower", func(a []string) (Value, bool) { return Str(strings.ToLower(a[0])), true })
	fold("ToUpper", func(a []string) (Value, bool) { return Str(strings.ToUpper(a[0])), true })
	fold("TrimSpace", func(a []string) (Value, bool) { return Str(strings.TrimSpace(a[0])), true })
	fold("EqualFold", func(a []string) (Value, bool) { return Bool(strings.EqualFold(a[0], a[1])), true })
	fold("Index", func(a []string) (Value, bool) { return num(int64(strings.Index(a[0], a[1]))), true })
	fold("LastIndex", func(a []string) (Value, bool) { return num(int64(strings.LastIndex(a[0], a[1]))), true })
	fold("TrimPrefix", func(a []string) (Value, bool) { return Str(strings.TrimPrefix(a[0], a[1])), true })
	fold("TrimSuffix", func(a []string) (Value, bool) { return Str(strings.TrimSuffix(a[0], a[1])), true })
	fold("Trim", func(a []string) (Value, bool) { return Str(strings.Trim(a[0], a[1])), true })
	fold("TrimLeft", func(a []string) (Value, bool) { return Str(strings.TrimLeft(a[0], a[1])), true })
	fold("TrimRight", func(a []string) (Value, bool) { return Str(strings.TrimRight(a[0], a[1])), true })
	fold("ReplaceAll", func(a []string) (Value, bool) { return Str(strings.ReplaceAll(a[0], a[1], a[2])), true })
	fold("Count", func(a []string) (Value, bool) { return num(int64(strings.Count(a[0], a[1]))), true })
	fold("Compare", func(a []string) (Value, bool) { return num(int64(strings.Compare(a[0], a[1]))), true })
	fold("ContainsAny", func(a []string) (Value, bool) { return Bool(strings.ContainsAny(a[0], a[1])), true })
	fold("IndexAny", func(a []string) (Value, bool) { return num(int64(strings.IndexAny(a[0], a[1]))), true })
	fold("Cut", func(a []string) (Value, bool) {
		x, y, ok := strings.Cut(a[0], a[1])
		return &Tuple{[]Value{Str(x), Str(y), Bool(ok)}}, true
	})
	fold("CutPrefix", func(a []string) (Value, bool) {
		x, ok := strings.CutPrefix(a[0], a[1])
		return &Tuple{[]Value{Str(x), Bool(ok)}}, true
	})
	fold("CutSuffix", func(a []string) (Value, bool) {
		x, ok := strings.CutSuffix(a[0], a[1])
		return &Tuple{[]Value{Str(x), Bool(ok)}}, true
	})
	model("strings.Replace", func(ip *Interp, st *State, c *Call) []Outcome {
		var ss []string
		for _, a := range c.args[:3] {
			if s, ok := st.R(a).(Str); ok {
				ss = append(ss, string(s))
			}
		}
		if n := asLin(st.R(c.args[3])); len(ss) == 3 && n != nil && n.isConst() {
			return one(st, Str(strings.Replace(ss[0], ss[1], ss[2], n.int())))
		}
		return one(st, pureResult(st, c))
	})
	model("strings.IndexByte strings.LastIndexByte", func(ip *Interp, st *State, c *Call) []Outcome {
		s, ok := st.R(c.args[0]).(Str)
		if b := asLin(st.R(c.args[1])); ok && b != nil && b.isConst() {
			if c.name == "strings.IndexByte" {
				return one(st, num(int64(strings.IndexByte(string(s), byte(b.int())))))
			}
			return one(st, num(int64(strings.LastIndexByte(string(s), byte(b.int())))))
		}
		return one(st, pureResult(st, c))
	})
	model("strings.HasPrefix strings.HasSuffix strings.Contains", func(ip *Interp, st *State, c *Call) []Outcome {
		a, b := st.R(c.args[0]), st.R(c.args[1])
		bs, ok := b.(Str)
		if ok {
			if as, ok := a.(Str); ok {
				switch c.name {
				case "strings.HasPrefix":
					return one(st, Bool(strings.HasPrefix(string(as), string(bs))))
				case "strings.HasSuffix":
					return one(st, Bool(strings.HasSuffix(string(as), string(bs))))
				}
				return one(st, Bool(strings.Contains(string(as), string(bs))))
			}
			if cat, ok := a.(*Cat); ok {
				switch c.name {
				case "strings.HasPrefix":
					if p, ok := cat.ps[0].(Str); ok {
						if len(p) >= len(bs) {
							return one(st, Bool(strings.HasPrefix(string(p), string(bs))))
						}
						if !strings.HasPrefix(string(bs), string(p)) {
							return one(st, Bool(false))
						}
					}
				case "strings.Contains":
					for _, p := range cat.ps {
						if p, ok := p.(Str); ok && strings.Contains(string(p), string(bs)) {
							return one(st, Bool(true))
						}
					}
				}
			}
		}
		return one(st, mkApp(c.name, tBool, a, b))
	})
	model("strings.Join", func(ip *Interp, st *State, c *Call) []Outcome {
		vs, ok := ip.variadic(st, c.args[0], nil)
		if !ok {
			return one(st, pureResult(st, c))
		}
		var ps []Value
		for i, v := range vs {
			if i > 0 {
				ps = append(ps, st.R(c.args[1]))
			}
			ps = append(ps, v)
		}
		return one(st, mkCat(ps...))
	})
	model("strings.Split", func(ip *Interp, st *State, c *Call) []Outcome {
		if a, ok := st.R(c.args[0]).(Str); ok {
			if b, ok := st.R(c.args[1]).(Str); ok {
				var segs []Seg
				for _, s := range strings.Split(string(a), string(b)) {
					segs = append(segs, item(Str(s)))
				}
				return one(st, ip.newSlice(st, mkSeq(tString, segs...), types.NewSlice(tString)))
			}
		}
		r := mkApp("strings.Split", types.NewSlice(tString), st.R(c.args[0]), st.R(c.args[1]))
		nonNil(st, r)
		st.addCon(subLin(num(1), atomLin(mkApp("len", tInt, r))))
		return one(st, r)
	})

	// strconv
	model("strconv.FormatBool", func(ip *Interp, st *State, c *Call) []Outcome { return one(st, fmtBool(st.R(c.args[0]))) })
	model("strconv.Itoa strconv.FormatInt strconv.FormatUint", func(ip *Interp, st *State, c *Call) []Outcome {
		l := asLin(st.R(c.args[0]))
		if l == nil {
			return nil
		}
		if len(c.args) > 1 {
			if b := asLin(st.R(c.args[1])); b == nil || !b.is(10) {
				return one(st, pureResult(st, c))
			}
		}
		if l.isConst() {
			return one(st, Str(l.c.String()))
		}
		return one(st, mkApp("itoa", tString, l))
	})
	model("strconv.Atoi strconv.ParseInt strconv.ParseUint strconv.ParseBool", func(ip *Interp, st *State, c *Call) []Outcome {
		v := st.R(c.args[0])
		kind := c.name[8:]
		if s, ok := v.(Str); ok {
			switch kind {
			case "Atoi", "ParseInt":
				n, err := strconv.ParseInt(string(s), 10, 64)
				if err != nil {
					return multi(st, num(0), ip.newErr(st, "parse error"))
				}
				return multi(st, num(n), Nil{})
			case "ParseBool":
				b, err := strconv.ParseBool(string(s))
				if err != nil {
					return multi(st, Bool(false), ip.newErr(st, "parse error"))
				}
				return multi(st, Bool(b), Nil{})
			}
		}
		if a, ok := v.(*App); ok && a.op == "itoa" && kind != "ParseBool" {
			return multi(st, a.args[0], Nil{})
		}
		if a, ok := v.(*App); ok && a.op == "durstr" {
			return multi(st, ip.zero(c.res.At(0).Type()), ip.newErr(st, "parse error"))
		}
		if a, ok := v.(*App); ok && a.op == "fmtbool" && kind == "ParseBool" {
			return multi(st, a.args[0], Nil{})
		}
		ok := mkApp("parses:"+kind, tBool, v)
		g, b := branch(st, ok)
		var outs []Outcome
		if g != nil {
			op := "parseint"
			if kind == "ParseBool" {
				op = "parsebool"
			}
			outs = append(outs, multi(g, wrapTyp(mkApp(op, c.res.At(0).Type(), v)), Nil{})...)
		}
		if b != nil {
			outs = append(outs, multi(b, ip.zero(c.res.At(0).Type()), ip.newErr(b, "parse error"))...)
		}
		return outs
	})

	model("(time.Duration).String", func(ip *Interp, st *State, c *Call) []Outcome {
		l := asLin(st.R(c.args[0]))
		if l == nil {
			return nil
		}
		if l.isConst() && l.c.IsInt64() {
			return one(st, Str(time.Duration(l.c.Int64()).String()))
		}
		return one(st, mkApp("durstr", tString, l))
	})
	model("time.ParseDuration", func(ip *Interp, st *State, c *Call) []Outcome {
		v := st.R(c.args[0])
		if s, ok := v.(Str); ok {
			d, err := time.ParseDuration(string(s))
			if err != nil {
				return multi(st, num(0), ip.newErr(st, "parse error"))
			}
			return multi(st, num(int64(d)), Nil{})
		}
		if a, ok := v.(*App); ok && a.op == "durstr" {
			return multi(st, a.args[0], Nil{})
		}
		if a, ok := v.(*App); ok && a.op == "itoa" {
			if l := asLin(a.args[0]); l != nil && (st.proveLE(num(1), l) || st.proveLE(l, num(-1))) {
				return multi(st, num(0), ip.newErr(st, "parse error"))
			}
		}
		g, b := branch(st, mkApp("parses:ParseDuration", tBool, v))
		var outs []Outcome
		if g != nil {
			outs = append(outs, multi(g, wrapTyp(mkApp("parsedur", c.res.At(0).Type(), v)), Nil{})...)
		}
		if b != nil {
			outs = append(outs, multi(b, num(0), ip.newErr(b, "parse error"))...)
		}
		return outs
	})

	// bytes
	model("bytes.NewBuffer bytes.NewReader", func(ip *Interp, st *State, c *Call) []Outcome {
		q := ip.bytesOf(st, c.args[0])
		bt := ip.p.extType("bytes", strings.TrimPrefix(c.name, "bytes.New"))
		return one(st, ip.newObj(st, bt, &Ext{kind: "buffer", vs: []Value{q}}))
	})
	model("bytes.NewBufferString strings.NewReader", func(ip *Interp, st *State, c *Call) []Outcome {
		q := ip.bytesOf(st, c.args[0])
		bt := ip.p.extType("bytes", "Buffer")
		return one(st, ip.newObj(st, bt, &Ext{kind: "buffer", vs: []Value{q}}))
	})
	model("bytes.Equal", func(ip *Interp, st *State, c *Call) []Outcome {
		a, b := ip.bytesOf(st, c.args[0]), ip.bytesOf(st, c.args[1])
		return one(st, ip.bytesEqual(st, a, b))
	})
	model("(*bytes.Buffer).Write (*bytes.Buffer).WriteString (*strings.Builder).Write (*strings.Builder).WriteString", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		b := ip.bytesOf(st, c.args[1])
		ip.bufSet(st, p, st.concat(q, b))
		return multi(st, st.rlin(b.length()), Nil{})
	}))
	model("(*bytes.Buffer).WriteByte (*strings.Builder).WriteByte", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		ip.bufSet(st, p, st.concat(q, mkSeq(tByte, item(st.R(c.args[1])))))
		return one(st, Nil{})
	}))
	model("(*bytes.Buffer).Bytes", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		return one(st, ip.newSlice(st, q, tBytes))
	}))
	model("(*bytes.Buffer).String (*strings.Builder).String", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		return one(st, ip.strOf(st, q))
	}))
	model("(*bytes.Buffer).Len (*bytes.Reader).Len (*strings.Builder).Len", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		return one(st, st.rlin(q.length()))
	}))
	model("(*bytes.Buffer).Reset (*strings.Builder).Reset", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		ip.bufSet(st, p, mkSeq(tByte))
		return one(st, nil)
	}))
	model("(*bytes.Buffer).Grow (*strings.Builder).Grow", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		return one(st, nil)
	}))
	model("(*bytes.Buffer).Truncate", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		ip.bufSet(st, p, st.window(q, num(0), asLin(st.R(c.args[1]))))
		return one(st, nil)
	}))
	model("(*bytes.Buffer).Next", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		n := asLin(st.R(c.args[1]))
		var outs []Outcome
		neg, pos := branch(st, mkLE0(addLin(n, num(1))))
		if neg != nil {
			ip.oblige(neg, "slice", c.pos, c.in, no, "Next with negative count "+n.Key())
			outs = append(outs, Outcome{st: neg, pan: Str("slice bounds out of range")})
		}
		if pos != nil {
			ip.takeUpTo(pos, q, n, func(s *State, got, rest *SeqV, n *Lin) {
				ip.bufSet(s, p, rest)
				outs = append(outs, one(s, ip.newSlice(s, got, tBytes))...)
			})
		}
		return outs
	}))
	model("(*bytes.Buffer).ReadByte (*bytes.Reader).ReadByte", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		var outs []Outcome
		empty, some := branch(st, mkEQ0(q.length()))
		if empty != nil {
			outs = append(outs, multi(empty, num(0), extErr(empty, "io.EOF"))...)
		}
		if some != nil {
			v := some.seqGet(q, num(0), tByte)
			ip.bufSet(some, p, some.tail(q, num(1)))
			outs = append(outs, multi(some, some.R(v), Nil{})...)
		}
		return outs
	}))
	model("(*bytes.Buffer).Read (*bytes.Reader).Read", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		return ip.bufRead(st, p, q, ip.slice(st, c.args[1], tBytes))
	}))
	model("(*bytes.Buffer).WriteTo", bufHook(func(ip *Interp, st *State, c *Call, p *Ptr, q *SeqV) []Outcome {
		var outs []Outcome
		for _, o := range ip.callMethod(st, c.args[1], ip.p.extType("io", "Writer"), "Write", []Value{ip.newSlice(st, q, tBytes)}, c) {
			if o.pan == nil {
				// what was written leaves the buffer
				if n := asLin(tupleOf(o)[0]); n != nil {
					ip.bufSet(o.st, p, o.st.tail(q, n))
				}
			}
			outs = append(outs, o)
		}
		return outs
	}))
	model("io.CopyN", func(ip *Interp, st *State, c *Call) []Outcome {
		n := asLin(st.R(c.args[2]))
		if n == nil {
			return nil
		}
		n = st.rlin(n)
		some, none := branch(st, mkLE0(subLin(num(1), n)))
		var outs []Outcome
		if none != nil {
			outs = append(outs, multi(none, num(0), Nil{})...)
		}
		if some == nil {
			return outs
		}
		var q *SeqV
		if n.isConst() && n.c.IsInt64() && n.int() <= 64 {
			segs := make([]Seg, n.int())
			for i := range segs {
				segs[i] = item(num(0))
			}
			q = mkSeq(tByte, segs...)
		} else {
			q = mkSeq(tByte, Seg{kind: '*', n: n, tmpl: []Seg{item(num(0))}})
		}
		tmp := &Slice{obj: ip.alloc(some, tBytes, q, "copyn"), off: num(0), len: n, cap: n}
		read := ip.readFull(some, c.args[1], tmp, c)
		if read == nil {
			return nil
		}
		for _, o := range read {
			if o.pan != nil {
				outs = append(outs, o)
				continue
			}
			got, err := asLin(o.st.R(tupleOf(o)[0])), o.st.R(tupleOf(o)[1])
			if got == nil {
				return nil
			}
			part := o.st.window(ip.seqOf(o.st, tmp), num(0), got)
			for _, w := range ip.callMethod(o.st, c.args[0], ip.p.extType("io", "Writer"), "Write", []Value{ip.newSlice(o.st, part, tBytes)}, c) {
				if w.pan != nil {
					outs = append(outs, w)
					continue
				}
				vs := tupleOf(w)
				for _, a := range splitNil(w.st, vs[1]) {
					if !a.isNil {
						outs = append(outs, multi(a.st, a.st.R(vs[0]), a.st.R(vs[1]))...)
						continue
					}
					e := a.st.R(err)
					if same(e, extErr(a.st, "io.ErrUnexpectedEOF")) {
						e = extErr(a.st, "io.EOF")
					}
					outs = append(outs, multi(a.st, got, e)...)
				}
			}
		}
		return outs
	})
	model("fmt.Fprintf fmt.Fprint fmt.Fprintln", func(ip *Interp, st *State, c *Call) []Outcome {
		var text Value
		if c.name == "fmt.Fprintf" {
			a, ok := ip.variadic(st, c.args[2], nil)
			text = ip.sprintf(st, st.R(c.args[1]), a, ok)
		} else {
			a, _ := ip.variadic(st, c.args[1], nil)
			var ps []Value
			for _, v := range a {
				ps = append(ps, ip.fmtVal(st, "%v", v))
			}
			if c.name == "fmt.Fprintln" {
				ps = append(ps, Str("\n"))
			}
			text = mkCat(ps...)
		}
		return ip.callMethod(st, c.args[0], ip.p.extType("io", "Writer"), "Write", []Value{ip.newSlice(st, ip.bytesOf(st, text), tBytes)}, c)
	})
	model("errors.As", func(ip *Interp, st *State, c *Call) []Outcome {
		i, ok := st.R(c.args[1]).(*Iface)
		if !ok {
			return nil
		}
		pt, ok := i.typ.Underlying().(*types.Pointer)
		dst := ip.deref(st, i.v, i.typ)
		if !ok || dst == nil {
			return nil
		}
		err := st.R(c.args[0])
		if _, ok := err.(Nil); ok {
			return one(st, Bool(false))
		}
		if e, ok := err.(*Iface); ok && types.Identical(e.typ, pt.Elem()) {
			ip.store(st, dst, e.v)
			return one(st, Bool(true))
		}
		if e, ok := err.(*Iface); ok && types.IsInterface(pt.Elem()) && ip.implements(e.typ, pt.Elem()) {
			ip.store(st, dst, e)
			return one(st, Bool(true))
		}
		hit := st.clone()
		v := ip.fresh("as", pt.Elem())
		hit.assume(hit.isNil(v), false)
		ip.store(hit, dst, v)
		return append(one(hit, Bool(true)), one(st, Bool(false))...)
	})
	model("io.WriteString", func(ip *Interp, st *State, c *Call) []Outcome {
		return ip.callMethod(st, c.args[0], ip.p.extType("io", "Writer"), "Write", []Value{ip.newSlice(st, ip.bytesOf(st, c.args[1]), tBytes)}, c)
	})
	model("io.ReadFull", func(ip *Interp, st *State, c *Call) []Outcome {
		return ip.readFull(st, c.args[0], ip.slice(st, c.args[1], tBytes), c)
	})
	model("io.ReadAtLeast", func(ip *Interp, st *State, c *Call) []Outcome {
		sl := ip.slice(st, c.args[1], tBytes)
		n := asLin(st.R(c.args[2]))
		if sl != nil && st.proveEQ(n, sl.len) {
			return ip.readFull(st, c.args[0], sl, c)
		}
		return nil
	})

	// encoding/binary
	model("encoding/binary.Write", func(ip *Interp, st *State, c *Call) []Outcome {
		i, ok := st.R(c.args[2]).(*Iface)
		if !ok {
			return nil
		}
		little := strings.Contains(c.args[1].Key(), "ittle")
		seg, ok := ip.numSeg(st, st.R(i.v), i.typ)
		var q *SeqV
		if ok {
			q = mkSeq(tByte, seg)
			if little && fixedWidth(i.typ) > 1 {
				q = mkSeq(tByte, Seg{kind: 'n', v: mkApp("swapped", tInt64, seg.v), w: seg.w})
			}
		} else if s, ok := i.typ.Underlying().(*types.Slice); ok && fixedWidth(s.Elem()) == 1 {
			q = ip.bytesOf(st, i.v)
		} else {
			return nil
		}
		var outs []Outcome
		for _, o := range ip.callMethod(st, c.args[0], ip.p.extType("io", "Writer"), "Write", []Value{ip.newSlice(st, q, tBytes)}, c) {
			if o.pan == nil {
				o.ret = tupleOf(o)[1]
			}
			outs = append(outs, o)
		}
		return outs
	})
	model("encoding/binary.Read", func(ip *Interp, st *State, c *Call) []Outcome {
		i, ok := st.R(c.args[2]).(*Iface)
		if !ok {
			return nil
		}
		pt, ok := i.typ.Underlying().(*types.Pointer)
		if !ok || fixedWidth(pt.Elem()) == 0 {
			return nil
		}
		dst := ip.deref(st, i.v, i.typ)
		if dst == nil {
			return nil
		}
		little := strings.Contains(c.args[1].Key(), "ittle")
		w := fixedWidth(pt.Elem())
		segs := make([]Seg, w)
		for k := range segs {
			segs[k] = item(num(0))
		}
		tmp := ip.newSlice(st, mkSeq(tByte, segs...), tBytes)
		var outs []Outcome
		for _, o := range ip.readFull(st, c.args[0], tmp, c) {
			if o.pan != nil {
				outs = append(outs, o)
				continue
			}
			err := tupleOf(o)[1]
			for _, alt := range splitNil(o.st, err) {
				s := alt.st
				if alt.isNil {
					ip.store(s, dst, ip.fromBytes(s, ip.seqOf(s, tmp), pt.Elem(), little))
				}
				outs = append(outs, one(s, s.R(err))...)
			}
		}
		return outs
	})
	for _, order := range []string{"bigEndian", "littleEndian"} {
		little := order == "littleEndian"
		for bits := 16; bits <= 64; bits *= 2 {
			w := bits / 8
			ut := types.Typ[map[int]types.BasicKind{2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[w]]
			model(fmt.Sprintf("(encoding/binary.%s).Uint%d", order, bits), func(ip *Interp, st *State, c *Call) []Outcome {
				sl := ip.slice(st, c.args[1], tBytes)
				q := ip.bytesOf(st, c.args[1])
				r := unknown
				if st.proveLE(num(int64(w)), q.length()) {
					r = yes
				} else if st.proveLT(q.length(), num(int64(w))) {
					r = no
				}
				ip.oblige(st, "index", c.pos, c.in, r, fmt.Sprintf("%d bytes of %s", w, st.rlin(q.length()).Key()))
				if r == no {
					return []Outcome{{st: st, pan: Str("index out of range")}}
				}
				_ = sl
				st.addCon(subLin(num(int64(w)), q.length()))
				return one(st, ip.numOf(st, st.window(q, num(0), num(int64(w))), w, little))
			})
			model(fmt.Sprintf("(encoding/binary.%s).PutUint%d", order, bits), func(ip *Interp, st *State, c *Call) []Outcome {
				sl := ip.slice(st, c.args[1], tBytes)
				if sl == nil || !st.proveLE(num(int64(w)), sl.len) {
					r := unknown
					if sl == nil || st.proveLT(sl.len, num(int64(w))) {
						r = no
					}
					ip.oblige(st, "index", c.pos, c.in, r, "PutUint into a short slice")
					if r == no {
						return []Outcome{{st: st, pan: Str("index out of range")}}
					}
				}
				g, _ := ip.numSeg(st, st.R(c.args[2]), ut)
				if little {
					g = Seg{kind: 'n', v: mkApp("swapped", tInt64, g.v), w: w}
				}
				ip.overwrite(st, sl, num(0), mkSeq(tByte, g), num(int64(w)))
				return one(st, nil)
			})
			model(fmt.Sprintf("(encoding/binary.%s).AppendUint%d", order, bits), func(ip *Interp, st *State, c *Call) []Outcome {
				g, _ := ip.numSeg(st, st.R(c.args[2]), ut)
				if little {
					g = Seg{kind: 'n', v: mkApp("swapped", tInt64, g.v), w: w}
				}
				return one(st, ip.newSlice(st, st.concat(ip.bytesOf(st, c.args[1]), mkSeq(tByte, g)), tBytes))
			})
		}
	}
	model("math.Float64bits math.Float32bits", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, wrapTyp(mkApp("fbits", c.res.At(0).Type(), st.R(c.args[0]))))
	})
	model("math.Float64frombits math.Float32frombits", func(ip *Interp, st *State, c *Call) []Outcome {
		v := st.R(c.args[0])
		if l, ok := v.(*Lin); ok {
			if a, ok := l.atom().(*App); ok && a.op == "fbits" {
				return one(st, a.args[0])
			}
		}
		return one(st, mkApp("frombits", c.res.At(0).Type(), v))
	})

	// locks
	lock := func(k string) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			p := ip.deref(st, c.args[0], types.NewPointer(ip.p.extType("sync", "Mutex")))
			if p == nil {
				return nil
			}
			cur, ok := st.R(ip.load(st, p, nil)).(*Ext)
			if !ok {
				return one(st, nil)
			}
			s, _ := cur.vs[0].(Str)
			switch k {
			case "L", "R":
				r := yes
				if s == "L" || s != "" && k == "L" {
					r = no
				}
				ip.oblige(st, "lock", c.pos, c.in, r, "locking a mutex this goroutine holds")
				if r == no {
					// blocks for ever
					ip.note("deadlock", c)
					return []Outcome{}
				}
				if k == "L" {
					s = "L"
				} else {
					s += "R"
				}
			case "U":
				r := triOf(s == "L")
				ip.oblige(st, "unlock", c.pos, c.in, r, "unlock of an unlocked mutex")
				s = ""
			case "V":
				r := triOf(strings.HasPrefix(string(s), "R"))
				ip.oblige(st, "unlock", c.pos, c.in, r, "unlock of an unlocked mutex")
				if len(s) > 0 {
					s = s[1:]
				}
			}
			ip.store(st, p, &Ext{kind: "mutex", vs: []Value{s}})
			if ip.lockHook != nil {
				ip.lockHook(ip, st, k, p, c)
			}
			return one(st, nil)
		}
	}
	model("(*sync.Mutex).Lock (*sync.RWMutex).Lock", lock("L"))
	model("(*sync.RWMutex).RLock", lock("R"))
	model("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", lock("U"))
	model("(*sync.RWMutex).RUnlock", lock("V"))
	model("(*sync.Once).Do", func(ip *Interp, st *State, c *Call) []Outcome {
		p := ip.deref(st, c.args[0], types.NewPointer(ip.p.extType("sync", "Once")))
		if p == nil {
			return nil
		}
		cur, ok := st.R(ip.load(st, p, nil)).(*Ext)
		if ok && len(cur.vs) > 0 && same(cur.vs[0], Bool(true)) {
			return one(st, nil)
		}
		ip.store(st, p, &Ext{kind: "once", vs: []Value{Bool(true)}})
		if f, ok := st.R(c.args[1]).(*Fn); ok && f.fn != nil {
			var outs []Outcome
			for _, o := range ip.callFn(st, &Call{name: fnName(f.fn), fn: f.fn, pos: c.pos, in: c.in, instr: c.instr}, f.bind) {
				o.ret = nil
				outs = append(outs, o)
			}
			return outs
		}
		return one(st, nil)
	})
	model("(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait", func(ip *Interp, st *State, c *Call) []Outcome { return one(st, nil) })

	// atomics
	atom := func(f func(ip *Interp, st *State, p *Ptr, c *Call) []Outcome) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			p := ip.deref(st, c.args[0], c.argType(0))
			if p == nil {
				return nil
			}
			if ip.atomicHook != nil {
				ip.atomicHook(ip, st, p, c)
			}
			return f(ip, st, p, c)
		}
	}
	get := func(ip *Interp, st *State, p *Ptr) Value {
		v := st.R(ip.load(st, p, nil))
		if e, ok := v.(*Ext); ok {
			return e.vs[0]
		}
		return v
	}
	put := func(ip *Interp, st *State, p *Ptr, v Value) {
		if e, ok := st.R(ip.load(st, p, nil)).(*Ext); ok {
			ip.store(st, p, &Ext{kind: e.kind, vs: []Value{v}})
			return
		}
		ip.store(st, p, v)
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool", "Pointer"} {
		model("sync/atomic.Load"+t+" (*sync/atomic."+t+").Load", atom(func(ip *Interp, st *State, p *Ptr, c *Call) []Outcome {
			return one(st, get(ip, st, p))
		}))
		model("sync/atomic.Store"+t+" (*sync/atomic."+t+").Store", atom(func(ip *Interp, st *State, p *Ptr, c *Call) []Outcome {
			put(ip, st, p, st.R(c.args[1]))
			return one(st, nil)
		}))
		model("sync/atomic.Add"+t+" (*sync/atomic."+t+").Add", atom(func(ip *Interp, st *State, p *Ptr, c *Call) []Outcome {
			v := addLin(asLin(get(ip, st, p)), asLin(st.R(c.args[1])))
			put(ip, st, p, v)
			return one(st, v)
		}))
		model("sync/atomic.Swap"+t+" (*sync/atomic."+t+").Swap", atom(func(ip *Interp, st *State, p *Ptr, c *Call) []Outcome {
			v := get(ip, st, p)
			put(ip, st, p, st.R(c.args[1]))
			return one(st, v)
		}))
		model("sync/atomic.CompareAndSwap"+t+" (*sync/atomic."+t+").CompareAndSwap", atom(func(ip *Interp, st *State, p *Ptr, c *Call) []Outcome {
			v := get(ip, st, p)
			t, f := branch(st, ip.equal(st, v, st.R(c.args[1]), c.argType(1)))
			var outs []Outcome
			if t != nil {
				put(ip, t, p, t.R(c.args[2]))
				outs = append(outs, one(t, Bool(true))...)
			}
			if f != nil {
				outs = append(outs, one(f, Bool(false))...)
			}
			return outs
		}))
	}

	// time
	model("time.Now", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, ip.fresh("now", c.res.At(0).Type()))
	})
	for name, unit := range map[string]int64{"Nanoseconds": 1, "Microseconds": 1000, "Milliseconds": 1000000} {
		unit := unit
		model("(time.Duration)."+name, func(ip *Interp, st *State, c *Call) []Outcome {
			return one(st, ip.bin(st, token.QUO, st.R(c.args[0]), num(unit), types.Typ[types.Int64], types.Typ[types.Int64]))
		})
	}
	model("time.After", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, nonNil(st, mkApp("time.After", c.res.At(0).Type(), st.R(c.args[0]))))
	})
	model("time.Sleep", func(ip *Interp, st *State, c *Call) []Outcome { return one(st, nil) })
	model("time.LoadLocation", func(ip *Interp, st *State, c *Call) []Outcome {
		v := st.R(c.args[0])
		g, b := branch(st, mkApp("isLocation", tBool, v))
		var outs []Outcome
		if g != nil {
			outs = append(outs, multi(g, nonNil(g, mkApp("location", c.res.At(0).Type(), v)), Nil{})...)
		}
		if b != nil {
			outs = append(outs, multi(b, Nil{}, ip.newErr(b, "unknown location"))...)
		}
		return outs
	})
	model("time.FixedZone", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, nonNil(st, mkApp("fixedzone", c.res.At(0).Type(), st.R(c.args[1]))))
	})
	model("math/rand.NewSource", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, nonNil(st, mkApp("randsource", c.res.At(0).Type())))
	})
	model("math/rand.New", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, nonNil(st, mkApp("rand", c.res.At(0).Type())))
	})
	model("(*math/rand.Rand).Intn math/rand.Intn", func(ip *Interp, st *State, c *Call) []Outcome {
		n := asLin(st.R(c.args[len(c.args)-1]))
		if n == nil {
			return nil
		}
		var outs []Outcome
		if bad := st.clone(); (!contains(n, isMadeUp) || st.prove(st.rlin(n))) && bad.addCon(n) {
			outs = append(outs, Outcome{st: bad, pan: Str("invalid argument to Intn")})
		}
		if !st.addCon(subLin(num(1), n)) {
			return outs
		}
		r := asLin(ip.fresh("rand", tInt))
		st.addCon(negLin(r))
		st.addCon(addLin(subLin(r, n), num(1)))
		if ip.externHook != nil {
			ip.externHook(ip, st, c)
		}
		return append(outs, one(st, r)...)
	})
	model("log.New", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, nonNil(st, mkApp("logger", c.res.At(0).Type(), st.R(c.args[0]), st.R(c.args[1]))))
	})
	model("context.Background context.TODO", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, nonNil(st, mkApp("context", c.res.At(0).Type())))
	})

	// reflect
	model("reflect.TypeOf", func(ip *Interp, st *State, c *Call) []Outcome {
		v := st.R(c.args[0])
		switch i := v.(type) {
		case *Iface:
			return one(st, &TypeV{i.typ})
		case Nil:
			return one(st, Nil{})
		}
		return one(st, mkApp("typeof", c.res.At(0).Type(), v))
	})
	model("reflect.ValueOf", func(ip *Interp, st *State, c *Call) []Outcome {
		v := st.R(c.args[0])
		switch i := v.(type) {
		case *Iface:
			return one(st, &Ext{kind: "rval", vs: []Value{&TypeV{i.typ}, i.v}})
		}
		return one(st, &Ext{kind: "rval", vs: []Value{mkApp("typeof", nil, v), mkApp("rvalue", nil, v)}})
	})
	kindOf := func(ip *Interp, st *State, t Value) Value {
		if tv, ok := t.(*TypeV); ok {
			return num(int64(kindNum(tv.t)))
		}
		l := asLin(wrapTyp(mkApp("kind", types.Typ[types.Uint], t)))
		st.addCon(negLin(l))
		st.addCon(addLin(l, num(-26)))
		return l
	}
	model("(reflect.Type).Kind", func(ip *Interp, st *State, c *Call) []Outcome {
		return one(st, kindOf(ip, st, st.R(c.args[0])))
	})
	model("(reflect.Type).Elem", func(ip *Interp, st *State, c *Call) []Outcome {
		if tv, ok := st.R(c.args[0]).(*TypeV); ok {
			if e := elemType(tv.t); e != nil {
				return one(st, &TypeV{e})
			}
		}
		return one(st, nonNil(st, mkApp("typeelem", c.res.At(0).Type(), st.R(c.args[0]))))
	})
	rv := func(f func(ip *Interp, st *State, e *Ext, c *Call) []Outcome) Hook {
		return func(ip *Interp, st *State, c *Call) []Outcome {
			e, ok := st.R(c.args[0]).(*Ext)
			if !ok || e.kind != "rval" {
				return nil
			}
			return f(ip, st, e, c)
		}
	}
	model("(reflect.Value).Kind", rv(func(ip *Interp, st *State, e *Ext, c *Call) []Outcome { return one(st, kindOf(ip, st, e.vs[0])) }))
	model("(reflect.Value).Type", rv(func(ip *Interp, st *State, e *Ext, c *Call) []Outcome { return one(st, e.vs[0]) }))
	model("(reflect.Value).Len", rv(func(ip *Interp, st *State, e *Ext, c *Call) []Outcome {
		if tv, ok := e.vs[0].(*TypeV); ok {
			return one(st, ip.length(st, ip.materialise(st, e.vs[1], tv.t), tv.t))
		}
		return one(st, st.rlin(atomLin(mkApp("len", tInt, e.vs[1]))))
	}))
	model("(reflect.Value).Index", rv(func(ip *Interp, st *State, e *Ext, c *Call) []Outcome {
		tv, ok := e.vs[0].(*TypeV)
		i := asLin(st.R(c.args[1]))
		if !ok {
			return one(st, &Ext{kind: "rval", vs: []Value{mkApp("typeelem", nil, e.vs[0]), mkApp("elem", nil, e.vs[1], i)}})
		}
		et := elemType(tv.t)
		q := ip.seqOf(st, ip.slice(st, e.vs[1], tv.t))
		r := unknown
		if st.proveLE(num(0), i) && st.proveLT(i, q.length()) {
			r = yes
		}
		ip.oblige(st, "index", c.pos, c.in, r, "reflect index")
		return one(st, &Ext{kind: "rval", vs: []Value{&TypeV{et}, st.R(st.seqGet(q, i, et))}})
	}))
	model("(reflect.Value).Interface", rv(func(ip *Interp, st *State, e *Ext, c *Call) []Outcome {
		if tv, ok := e.vs[0].(*TypeV); ok {
			if types.IsInterface(tv.t) {
				return one(st, e.vs[1])
			}
			return one(st, &Iface{typ: tv.t, v: e.vs[1]})
		}
		return one(st, mkApp("rinterface", tAny, e.vs[1]))
	}))
	model("(error).Error", func(ip *Interp, st *State, c *Call) []Outcome {
		if _, ok := st.R(c.args[0]).(*Iface); ok {
			return nil
		}
		return one(st, mkApp("errmsg", tString, st.R(c.args[0])))
	})
}

func kindNum(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// materialise gives unknown containers their heap object
func (ip *Interp) materialise(st *State, v Value, t types.Type) Value {
	switch t.Underlying().(type) {
	case *types.Slice:
		if sl := ip.slice(st, v, t); sl != nil {
			return sl
		}
		return Nil{}
	case *types.Map:
		if m := ip.mapOf(st, v, t); m != nil {
			return m
		}
		return Nil{}
	}
	return v
}

type nilAlt struct {
	st    *State
	isNil bool
}

func splitNil(st *State, v Value) []nilAlt {
	var out []nilAlt
	t, f := branch(st, st.isNil(v))
	if t != nil {
		out = append(out, nilAlt{t, true})
	}
	if f != nil {
		out = append(out, nilAlt{f, false})
	}
	return out
}

// fromBytes is the number or float of type t in the big endian bytes q
func (ip *Interp) fromBytes(st *State, q *SeqV, t types.Type, little bool) Value {
	w := fixedWidth(t)
	l := ip.numOf(st, q, w, little)
	switch basicName(t) {
	case "float64", "float32":
		if a, ok := l.atom().(*App); ok && a.op == "fbits" {
			return a.args[0]
		}
		return mkApp("frombits", t, l)
	case "bool":
		return mkNot(mkEQ0(l))
	}
	ut := types.Typ[map[int]types.BasicKind{1: types.Uint8, 2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[w]]
	return ip.convert(st, l, ut, t)
}

// readFull models io.ReadFull(r, buf)
func (ip *Interp) readFull(st *State, r Value, dst *Slice, c *Call) []Outcome {
	r = st.R(r)
	want := num(0)
	if dst != nil {
		want = dst.len
	}
	rt := ip.p.extType("io", "Reader")
	if i, ok := r.(*Iface); ok {
		if extKind(derefType(i.typ)) == "buffer" {
			bp, q := ip.bufOf(st, i.v, &Call{})
			if bp == nil {
				return nil
			}
			if rest, ok := st.g(laterKey(bp)).(*SeqV); ok && !st.prove(subLin(want, st.rlin(q.length()))) {
				st.setG(laterKey(bp), Nil{})
				q = st.normSeq(mkSeq(q.elem, append(append([]Seg(nil), q.segs...), rest.segs...)...))
				ip.bufSet(st, bp, q)
			}
			var outs []Outcome
			full, short := branch(st, mkLE0(subLin(want, q.length())))
			if full != nil {
				if dst != nil {
					ip.overwrite(full, dst, num(0), full.window(q, num(0), want), want)
				}
				ip.bufSet(full, bp, full.tail(q, want))
				outs = append(outs, multi(full, want, Nil{})...)
			}
			if short != nil {
				empty, some := branch(short, mkEQ0(q.length()))
				if empty != nil {
					outs = append(outs, multi(empty, num(0), extErr(empty, "io.EOF"))...)
				}
				if some != nil {
					ip.overwrite(some, dst, num(0), q, some.rlin(q.length()))
					ip.bufSet(some, bp, mkSeq(q.elem))
					outs = append(outs, multi(some, some.rlin(q.length()), extErr(some, "io.ErrUnexpectedEOF"))...)
				}
			}
			return outs
		}
	}
	// other readers deliver everything or fail: the pieces in between do not matter
	old := st.g("readfull")
	st.setG("readfull", Bool(true))
	var sv Value = Nil{}
	if dst != nil {
		sv = dst
	}
	var outs []Outcome
	for _, o := range ip.callMethod(st, r, rt, "Read", []Value{sv}, c) {
		o.st.setG("readfull", old)
		if o.pan != nil {
			outs = append(outs, o)
			continue
		}
		vs := tupleOf(o)
		n, err := asLin(o.st.R(vs[0])), o.st.R(vs[1])
		full, short := branch(o.st, mkLE0(subLin(want, n)))
		if full != nil {
			outs = append(outs, multi(full, want, Nil{})...)
		}
		if short != nil {
			for _, a := range splitNil(short, err) {
				if a.isNil {
					// a reader that gives up without an error would be read again: it ends in an error at last
					outs = append(outs, multi(a.st, n, extErr(a.st, "io.ErrUnexpectedEOF"))...)
				} else {
					outs = append(outs, multi(a.st, n, a.st.R(err))...)
				}
			}
		}
	}
	return outs
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (ip *Interp) bytesEqual(st *State, a, b *SeqV) Value {
	a, b = st.normSeq(a), st.normSeq(b)
	if a.Key() == b.Key() {
		return Bool(true)
	}
	la, lb := st.rlin(a.length()), st.rlin(b.length())
	if st.proveLT(la, lb) || st.proveLT(lb, la) {
		return Bool(false)
	}
	if !lb.isConst() {
		a, b, la, lb = b, a, lb, la
	}
	if lb.isConst() && lb.int() <= 64 {
		var r Value = Bool(true)
		if !la.isConst() {
			r = mkEQ0(subLin(la, lb))
		}
		for k := 0; k < lb.int(); k++ {
			x, y := asLin(st.R(st.seqGet(a, num(int64(k)), tByte))), asLin(st.R(st.seqGet(b, num(int64(k)), tByte)))
			e := mkEQ0(subLin(x, y))
			if eb, ok := e.(Bool); ok {
				if !bool(eb) {
					return Bool(false)
				}
				continue
			}
			if rb, ok := r.(Bool); ok && bool(rb) {
				r = e
			} else {
				r = mkApp("and", tBool, r, e)
			}
		}
		return r
	}
	return mkApp("bytesEqual", tBool, a, b)
}

func (ip *Interp) note(what string, c *Call) {
	ip.trouble2[what+" at "+ip.p.pos(c.pos)]++
}

func (c *Call) argType(i int) types.Type {
	if c.instr != nil {
		cc := c.instr.Common()
		if i < len(cc.Args) {
			return cc.Args[i].Type()
		}
	}
	return nil
}

var _ = token.NoPos
var _ *ssa.Function
