package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
)

type tokenPos = token.Pos

func progress(f string, a ...interface{}) {
	if os.Getenv("VERIF_PROGRESS") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

var onlyRun = os.Getenv("VERIF_ONLY")

func skipRun(name string) bool { return onlyRun != "" && !strings.Contains(name, onlyRun) }

func constInt(c *types.Const) (int64, bool) {
	return constant.Int64Val(constant.ToInt(c.Val()))
}

// evalAt gives the value of a numeric term where env gives the values of its unknowns
func evalAt(v Value, env map[string]*big.Rat) (*big.Rat, bool) {
	if r, ok := env[v.Key()]; ok {
		return r, true
	}
	trunc := func(r *big.Rat) *big.Rat {
		return new(big.Rat).SetInt(new(big.Int).Quo(r.Num(), r.Denom()))
	}
	switch x := v.(type) {
	case *Lin:
		sum := new(big.Rat).SetInt(x.c)
		for _, t := range x.ts {
			r, ok := evalAt(t.a, env)
			if !ok {
				return nil, false
			}
			sum.Add(sum, new(big.Rat).Mul(r, new(big.Rat).SetInt(t.n)))
		}
		return sum, true
	case Flt:
		r, ok := new(big.Rat).SetString(string(x))
		return r, ok
	case *App:
		var as []*big.Rat
		for _, a := range x.args {
			r, ok := evalAt(a, env)
			if !ok {
				return nil, false
			}
			as = append(as, r)
		}
		unit := func(n int64) (*big.Rat, bool) {
			return new(big.Rat).Quo(as[0], new(big.Rat).SetInt64(n)), true
		}
		switch {
		case len(as) == 2 && x.op == "/" && as[1].Sign() != 0 && isIntType(x.typ):
			return trunc(new(big.Rat).Quo(as[0], as[1])), true
		case len(as) == 2 && x.op == "%" && as[1].Sign() != 0:
			q := trunc(new(big.Rat).Quo(as[0], as[1]))
			return new(big.Rat).Sub(as[0], q.Mul(q, as[1])), true
		case len(as) == 2 && x.op == "mul":
			return new(big.Rat).Mul(as[0], as[1]), true
		case len(as) == 1 && strings.HasPrefix(x.op, "fconv:"):
			if isIntType(x.typ) {
				return trunc(as[0]), true
			}
			return as[0], true
		case len(as) == 1 && x.op == "(time.Duration).Seconds":
			return unit(1e9)
		case len(as) == 1 && x.op == "(time.Duration).Minutes":
			return unit(60e9)
		case len(as) == 1 && x.op == "(time.Duration).Hours":
			return unit(3600e9)
		}
	}
	return nil, false
}
