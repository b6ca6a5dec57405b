package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// P14: exact integer-set analysis of the checked conversions.
//
// The argument is an integer interval; comparisons and conversions split it so that on every piece
// each value is either exactly argument+k or known only by its range.  Every piece ends in a return
// or a panic and both outcomes are compared with representability in the result type.

type zval struct {
	exact  bool
	k      *big.Int // exact: value = x+k
	lo, hi *big.Int // otherwise (or constants): range
	bln    int      // booleans: 0 false, 1 true, -1 unknown, -2 not a boolean
	str    bool
}

type zint struct{ lo, hi *big.Int }

type zrun struct {
	c      *Check
	word   uint
	steps  int
	undec  string
	x      zint
	report func(kind string, in ssa.Instruction, x zint, r []zval)
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func (z *zrun) rng(t types.Type) (zint, uint, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return zint{}, 0, false
	}
	var n uint
	switch b.Kind() {
	case types.Int8, types.Uint8:
		n = 8
	case types.Int16, types.Uint16:
		n = 16
	case types.Int32, types.Uint32:
		n = 32
	case types.Int64, types.Uint64, types.UntypedInt:
		n = 64
	default:
		n = z.word
	}
	if b.Info()&types.IsUnsigned != 0 {
		return zint{big.NewInt(0), new(big.Int).Sub(pow2(n), big.NewInt(1))}, n, true
	}
	h := pow2(n - 1)
	return zint{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}, n, true
}

func (v zval) rangeOn(x zint) zint {
	if v.exact {
		return zint{new(big.Int).Add(x.lo, v.k), new(big.Int).Add(x.hi, v.k)}
	}
	return zint{v.lo, v.hi}
}

type zenv map[ssa.Value]zval

func (e zenv) with(v ssa.Value, z zval) zenv {
	n := zenv{}
	for a, b := range e {
		n[a] = b
	}
	n[v] = z
	return n
}

func (z *zrun) val(e zenv, v ssa.Value) (zval, bool) {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return zval{bln: -2, str: true}, true
		}
		switch c.Value.Kind() {
		case constant.Bool:
			b := 0
			if constant.BoolVal(c.Value) {
				b = 1
			}
			return zval{bln: b}, true
		case constant.Int:
			n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
			return zval{lo: n, hi: n, bln: -2}, ok
		}
		return zval{bln: -2, str: true}, true
	}
	r, ok := e[v]
	return r, ok
}

// split runs f on the pieces of x below, inside and above the values for which v lies in [lo,hi].
func splitAt(x zint, pts ...*big.Int) []zint {
	// pts: piece boundaries; a boundary p starts a new piece at p
	out := []zint{x}
	for _, p := range pts {
		var n []zint
		for _, i := range out {
			if p.Cmp(i.lo) > 0 && p.Cmp(i.hi) <= 0 {
				n = append(n, zint{i.lo, new(big.Int).Sub(p, big.NewInt(1))}, zint{p, i.hi})
			} else {
				n = append(n, i)
			}
		}
		out = n
	}
	return out
}

func (z *zrun) exec(fn *ssa.Function, b *ssa.BasicBlock, prev *ssa.BasicBlock, pc int, e zenv, x zint, depth int, cont func(r []zval, x zint)) {
	for {
		z.steps++
		if z.steps > 200000 {
			z.undec = "too many steps"
			return
		}
		if pc >= len(b.Instrs) {
			return
		}
		in := b.Instrs[pc]
		switch in := in.(type) {
		case *ssa.DebugRef:
			pc++
			continue
		case *ssa.Phi:
			for i, p := range b.Preds {
				if p == prev {
					v, ok := z.val(e, in.Edges[i])
					if !ok {
						z.undec = "phi"
						return
					}
					e = e.with(in, v)
				}
			}
			pc++
			continue
		case *ssa.MakeInterface:
			e = e.with(in, zval{bln: -2, str: true})
			pc++
			continue
		case *ssa.ChangeType:
			if v, ok := z.val(e, in.X); ok {
				e = e.with(in, v)
				pc++
				continue
			}
		case *ssa.Convert:
			v, ok := z.val(e, in.X)
			t, n, ok2 := z.rng(in.Type())
			if !ok || !ok2 {
				z.undec = "conversion " + in.String()
				return
			}
			if !v.exact {
				if v.lo == nil {
					z.undec = "conversion " + in.String()
					return
				}
				if v.lo.Cmp(v.hi) == 0 { // constant
					m := wrap(v.lo, t, n)
					e = e.with(in, zval{lo: m, hi: m, bln: -2})
				} else if v.lo.Cmp(t.lo) >= 0 && v.hi.Cmp(t.hi) <= 0 {
					e = e.with(in, v)
				} else {
					e = e.with(in, zval{lo: t.lo, hi: t.hi, bln: -2})
				}
				pc++
				continue
			}
			p1 := new(big.Int).Sub(t.lo, v.k)
			p2 := new(big.Int).Add(new(big.Int).Sub(t.hi, v.k), big.NewInt(1))
			for _, px := range splitAt(x, p1, p2) {
				r := v.rangeOn(px)
				var nv zval
				wl, wh := wrapIdx(r.lo, t, n), wrapIdx(r.hi, t, n)
				if wl.Cmp(wh) == 0 {
					nv = zval{exact: true, k: new(big.Int).Sub(v.k, new(big.Int).Mul(wl, pow2(n))), bln: -2}
				} else {
					nv = zval{lo: t.lo, hi: t.hi, bln: -2}
				}
				z.exec(fn, b, prev, pc+1, e.with(in, nv), px, depth, cont)
			}
			return
		case *ssa.BinOp:
			a, ok1 := z.val(e, in.X)
			c, ok2 := z.val(e, in.Y)
			if !ok1 || !ok2 {
				z.undec = in.String()
				return
			}
			switch in.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				if a.bln != -2 || c.bln != -2 {
					z.undec = in.String()
					return
				}
				z.compare(fn, b, prev, pc, e, x, depth, cont, in, a, c)
				return
			case token.ADD, token.SUB:
				t, _, okt := z.rng(in.Type())
				if okt && a.exact && !c.exact && c.lo != nil && c.lo.Cmp(c.hi) == 0 {
					k := new(big.Int).Add(a.k, c.lo)
					if in.Op == token.SUB {
						k = new(big.Int).Sub(a.k, c.lo)
					}
					nv := zval{exact: true, k: k, bln: -2}
					r := nv.rangeOn(x)
					if r.lo.Cmp(t.lo) >= 0 && r.hi.Cmp(t.hi) <= 0 {
						e = e.with(in, nv)
						pc++
						continue
					}
				}
			}
			if t, _, okt := z.rng(in.Type()); okt {
				e = e.with(in, zval{lo: t.lo, hi: t.hi, bln: -2})
				pc++
				continue
			}
			z.undec = in.String()
			return
		case *ssa.UnOp:
			if in.Op == token.NOT {
				v, ok := z.val(e, in.X)
				if ok && v.bln >= 0 {
					e = e.with(in, zval{bln: 1 - v.bln})
					pc++
					continue
				}
			}
			z.undec = in.String()
			return
		case *ssa.Call:
			cal := in.Call.StaticCallee()
			if cal == nil || len(cal.Blocks) == 0 || depth > 6 || cal.Pkg != fn.Pkg {
				z.undec = "call " + in.String()
				return
			}
			ne := zenv{}
			for i, a := range in.Call.Args {
				v, ok := z.val(e, a)
				if !ok {
					z.undec = "argument " + in.String()
					return
				}
				ne[cal.Params[i]] = v
			}
			pcn := pc + 1
			ee, bb, pp := e, b, prev
			z.exec(cal, cal.Blocks[0], nil, 0, ne, x, depth+1, func(r []zval, px zint) {
				e2 := ee
				if len(r) == 1 {
					e2 = ee.with(in, r[0])
				}
				z.exec(fn, bb, pp, pcn, e2, px, depth, cont)
			})
			return
		case *ssa.If:
			v, ok := z.val(e, in.Cond)
			if !ok || v.bln < 0 {
				z.undec = "condition " + in.String()
				return
			}
			i := 0
			if v.bln == 0 {
				i = 1
			}
			prev, b, pc = b, b.Succs[i], 0
			continue
		case *ssa.Jump:
			prev, b, pc = b, b.Succs[0], 0
			continue
		case *ssa.Panic:
			z.report("panic", in, x, nil)
			return
		case *ssa.Return:
			var rs []zval
			for _, r := range in.Results {
				v, ok := z.val(e, r)
				if !ok {
					z.undec = "result"
					return
				}
				rs = append(rs, v)
			}
			if depth == 0 {
				z.report("return", in, x, rs)
				return
			}
			cont(rs, x)
			return
		}
		z.undec = fmt.Sprintf("unsupported %T", in)
		return
	}
}

func wrapIdx(v *big.Int, t zint, n uint) *big.Int {
	d := new(big.Int).Sub(v, t.lo)
	return new(big.Int).Div(d, pow2(n)) // Euclidean, floor for positive divisor
}

func wrap(v *big.Int, t zint, n uint) *big.Int {
	return new(big.Int).Sub(v, new(big.Int).Mul(wrapIdx(v, t, n), pow2(n)))
}

func (z *zrun) compare(fn *ssa.Function, b, prev *ssa.BasicBlock, pc int, e zenv, x zint, depth int, cont func([]zval, zint), in *ssa.BinOp, a, c zval) {
	next := func(px zint, res int, e2 zenv) {
		z.exec(fn, b, prev, pc+1, e2.with(in, zval{bln: res}), px, depth, cont)
	}
	one := big.NewInt(1)
	// split x where an exact value meets a constant
	var pts []*big.Int
	add := func(v, w zval) {
		if v.exact && !w.exact {
			for _, p := range []*big.Int{w.lo, w.hi} {
				q := new(big.Int).Sub(p, v.k)
				pts = append(pts, q, new(big.Int).Add(q, one))
			}
		}
	}
	add(a, c)
	add(c, a)
	for _, px := range splitAt(x, pts...) {
		if a.exact && c.exact {
			d := a.k.Cmp(c.k)
			next(px, cmpRes(in.Op, d), e)
			continue
		}
		ra, rc := a.rangeOn(px), c.rangeOn(px)
		// decide by ranges
		poss := map[int]bool{}
		if ra.lo.Cmp(rc.hi) < 0 {
			poss[-1] = true
		}
		if ra.hi.Cmp(rc.lo) > 0 {
			poss[1] = true
		}
		if ra.lo.Cmp(rc.hi) <= 0 && ra.hi.Cmp(rc.lo) >= 0 {
			poss[0] = true
		}
		outs := map[int]bool{}
		for d := range poss {
			outs[cmpRes(in.Op, d)] = true
		}
		for o := range outs {
			e2 := e
			// refine a ranged value compared with a constant
			refine := func(v ssa.Value, zv zval, k *big.Int, op token.Token) {
				if zv.exact || zv.lo.Cmp(zv.hi) == 0 {
					return
				}
				if o == 0 {
					op = negOp(op)
				}
				nz := zv
				switch op {
				case token.LSS:
					nz.hi = minBig(nz.hi, new(big.Int).Sub(k, one))
				case token.LEQ:
					nz.hi = minBig(nz.hi, k)
				case token.GTR:
					nz.lo = maxBig(nz.lo, new(big.Int).Add(k, one))
				case token.GEQ:
					nz.lo = maxBig(nz.lo, k)
				case token.EQL:
					nz.lo, nz.hi = k, k
				}
				e2 = e2.with(v, nz)
			}
			if rc.lo.Cmp(rc.hi) == 0 {
				refine(in.X, a, rc.lo, in.Op)
			} else if ra.lo.Cmp(ra.hi) == 0 {
				refine(in.Y, c, ra.lo, swapOp(in.Op))
			}
			next(px, o, e2)
		}
	}
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	}
	return token.EQL
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func cmpRes(op token.Token, d int) int {
	ok := false
	switch op {
	case token.LSS:
		ok = d < 0
	case token.LEQ:
		ok = d <= 0
	case token.GTR:
		ok = d > 0
	case token.GEQ:
		ok = d >= 0
	case token.EQL:
		ok = d == 0
	case token.NEQ:
		ok = d != 0
	}
	if ok {
		return 1
	}
	return 0
}

func runP14(c *Check) {
	c.Rule("conversion-exact", "for every argument (all 2^n values, as intervals) the conversion returns exactly the argument if it is representable in the result type", 100)
	c.Rule("conversion-panics", "for every argument that is not representable in the result type the conversion panics", 100)
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != "pkg/safecast" || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		sg := fn.Signature
		if sg.Params().Len() != 1 || sg.Results().Len() != 1 {
			continue
		}
		z0 := &zrun{word: 64}
		if _, _, ok := z0.rng(sg.Params().At(0).Type()); !ok {
			continue
		}
		if _, _, ok := z0.rng(sg.Results().At(0).Type()); !ok {
			continue
		}
		c.Fns[fn] = true
		for _, w := range []uint{64, 32} {
			z := &zrun{c: c, word: w}
			x, _, _ := z.rng(sg.Params().At(0).Type())
			t, _, _ := z.rng(sg.Results().At(0).Type())
			key := fmt.Sprintf("%s (int is %d bits)", fn.Name(), w)
			c.Ob("conversion-exact", key, c.P.Pos(fn.Pos()))
			c.Ob("conversion-panics", key, c.P.Pos(fn.Pos()))
			covered := []zint{}
			z.report = func(kind string, in ssa.Instruction, px zint, r []zval) {
				c.Paths++
				covered = append(covered, px)
				for _, q := range splitAt(px, t.lo, new(big.Int).Add(t.hi, big.NewInt(1))) {
					rep := q.lo.Cmp(t.lo) >= 0 && q.hi.Cmp(t.hi) <= 0
					where := fmt.Sprintf("for arguments %s..%s", q.lo, q.hi)
					switch {
					case kind == "panic" && rep:
						c.Bad("conversion-exact", key, c.P.InstrPos(in), where+" the value fits the result type but the function panics", nil)
					case kind == "return" && !rep:
						c.Bad("conversion-panics", key, c.P.InstrPos(in), where+" the value does not fit the result type but the function returns", nil)
					case kind == "return" && (!r[0].exact || r[0].k.Sign() != 0):
						if r[0].exact || r[0].lo.Cmp(r[0].hi) != 0 || r[0].lo.Cmp(q.lo) != 0 || r[0].hi.Cmp(q.hi) != 0 {
							c.Bad("conversion-exact", key, c.P.InstrPos(in), where+" the result is not exactly the argument", nil)
						}
					}
				}
			}
			z.exec(fn, fn.Blocks[0], nil, 0, zenv{fn.Params[0]: {exact: true, k: big.NewInt(0), bln: -2}}, x, 0, nil)
			c.Steps += z.steps
			c.States += z.steps
			if z.undec != "" {
				c.Bad("undecided", key, c.P.Pos(fn.Pos()), "not decided: "+z.undec, nil)
			}
		}
	}
}

func init() { checks["P14"] = runP14 }
