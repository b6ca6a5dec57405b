package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P13: widths of offset and size arithmetic.

func intWidth(t types.Type) (int, bool) { // width, signed
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64:
		return 64, true
	}
	return 64, false
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	w, signed := intWidth(t)
	if w == 0 {
		return nil, nil
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Lsh(one, uint(w-1))
		lo = new(big.Int).Neg(hi)
		hi.Sub(hi, one)
		return lo, hi
	}
	hi = new(big.Int).Lsh(one, uint(w))
	hi.Sub(hi, one)
	return big.NewInt(0), hi
}

// rng: bounds of an integer term on this path; atoms are bounded by their types, branch facts and division.
func (s *Sim) rng(st *State, t *Term, d int) (lo, hi *big.Int) {
	if v, ok := t.IntConst(); ok {
		return big.NewInt(v), big.NewInt(v)
	}
	if s.Eval(st, s.T.Eq(t, s.T.Int(0))) == 1 {
		return big.NewInt(0), big.NewInt(0)
	}
	ms, k := s.T.toPoly(t)
	var L, H *big.Int
	if len(ms) == 1 && len(ms[0].a) == 1 && ms[0].c == 1 && k == 0 {
		a := ms[0].a[0]
		L, H = typeRange(a.typ)
		if d > 0 && a.op == OpBin && a.aux == "/" {
			if q, ok := a.args[1].IntConst(); ok && q > 0 {
				x, y := s.rng(st, a.args[0], d-1)
				if x != nil && y != nil {
					L, H = new(big.Int).Quo(x, big.NewInt(q)), new(big.Int).Quo(y, big.NewInt(q))
				}
			}
		}
		if w, signed := intWidth(a.typ); w == 64 && signed && !(a.op == OpBin) {
			L = big.NewInt(0) // sizes, counts and positions are not negative
		}
	} else if d > 0 {
		// y - q*(y/q) is the remainder, between -(q-1) and q-1
		for _, m := range ms {
			if len(m.a) != 1 || m.a[0].op != OpBin || m.a[0].aux != "/" {
				continue
			}
			q, ok := m.a[0].args[1].IntConst()
			if !ok || q <= 0 || m.c%q != 0 {
				continue
			}
			f := m.c / q // f*q*(y/q) = f*y - f*rem
			rem := s.T.Sub(m.a[0].args[0], s.T.Mul(s.T.Int(q), m.a[0]))
			rest := s.T.Add(t, s.T.Mul(s.T.Int(f), rem))
			if rms, _ := s.T.toPoly(rest); len(rms) > len(ms) {
				continue
			}
			x, y := s.rng(st, rest, d-1)
			if x == nil || y == nil {
				continue
			}
			rl, rh := int64(-(q - 1)), q-1
			if y0, _ := s.rng(st, m.a[0].args[0], d-1); y0 != nil && y0.Sign() >= 0 {
				rl = 0
				if s.Eval(st, s.T.Eq(rem, s.T.Int(0))) == 0 {
					rl = 1
				}
			}
			// t = rest - f*rem
			a, b := new(big.Int).Mul(big.NewInt(-f), big.NewInt(rl)), new(big.Int).Mul(big.NewInt(-f), big.NewInt(rh))
			if a.Cmp(b) > 0 {
				a, b = b, a
			}
			L, H = a.Add(a, x), b.Add(b, y)
		}
		rl, rh := L, H
		{
			L, H = big.NewInt(k), big.NewInt(k)
			for _, m := range ms {
				ml, mh := big.NewInt(m.c), big.NewInt(m.c)
				for _, a := range m.a {
					x, y := s.rng(st, a, d-1)
					if x == nil || y == nil {
						L, H = nil, nil
						break
					}
					var ps []*big.Int
					for _, u := range []*big.Int{ml, mh} {
						for _, v := range []*big.Int{x, y} {
							ps = append(ps, new(big.Int).Mul(u, v))
						}
					}
					ml, mh = ps[0], ps[0]
					for _, p := range ps {
						if p.Cmp(ml) < 0 {
							ml = p
						}
						if p.Cmp(mh) > 0 {
							mh = p
						}
					}
				}
				if L == nil {
					break
				}
				L.Add(L, ml)
				H.Add(H, mh)
			}
		}
		if rl != nil && (L == nil || rl.Cmp(L) > 0) {
			L = rl
		}
		if rh != nil && (H == nil || rh.Cmp(H) < 0) {
			H = rh
		}
	}
	// branch facts
	for _, w := range []int64{0, 1, 255, 65535, 1<<31 - 1, 4294965248, 1<<32 - 1} {
		if s.Eval(st, s.T.Lt(s.T.Int(w), t)) == 0 {
			if b := big.NewInt(w); H == nil || b.Cmp(H) < 0 {
				H = b
			}
			break
		}
	}
	if s.Eval(st, s.T.Lt(t, s.T.Int(0))) == 0 {
		if L == nil || L.Sign() < 0 {
			L = big.NewInt(0)
		}
	}
	return L, H
}

// fits: the term's value is known to be representable in typ.
func (s *Sim) fits(st *State, t *Term, typ types.Type) bool {
	lo, hi := s.rng(st, t, 6)
	a, b := typeRange(typ)
	return lo != nil && hi != nil && a != nil && lo.Cmp(a) >= 0 && hi.Cmp(b) <= 0
}

// Narrowed values that are bounded by something no single function shows, each with the reason.
var p13bounded = []struct{ in, from, why string }{
	{"pkg/iso9660", "PathTableEncodedLen", "at most 65535 records of at most 263 bytes are numbered"},
	{"pkg/iso9660", "Len", "lengths of system use entries placed in one continuation sector"},
	{"pkg/iso9660", "room", "positions inside one continuation sector, at most 2048"},
	{"pkg/iso9660", "sectors", "sector count of one continuation area, limited by the entries of one directory"},
	{"pkg/iso9660", "Written", "position in the metadata, compared with an address the allocator gave out"},
	{"pkg/iso9660", "Consumed", "position in one directory extent, whose length is a 32-bit field"},
}

func checkP13(c *Check) {
	c.Rule("narrow-product", "a multiplication or shift in less than 64 bits cannot exceed its type", 1)
	c.Rule("narrow-sum", "a sum of block numbers or sizes formed in less than 64 bits is not used as a 64-bit position", 1)
	c.Rule("running-total", "a running total kept in less than 64 bits refuses to wrap around", 1)
	c.Rule("narrowing", "a 64-bit value is turned into a 32-bit or 16-bit one only where it is known to fit or by a conversion that refuses", 5)
	c.Rule("checked", "sizes and counts that can be large are narrowed through checked conversions", 5)
	for _, fn := range c.P.Funcs {
		rel := c.P.Rel(fn)
		if isMockPkg(rel) || rel == "pkg/safecast" {
			continue
		}
		c.p13products(fn)
	}
	// one simulation per function that narrows
	need := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		rel := c.P.Rel(fn)
		if isMockPkg(rel) || rel == "pkg/safecast" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Convert:
					if narrows(in) {
						need[fn] = true
					}
				case *ssa.BinOp:
					if w, _ := intWidth(in.Type()); w > 0 && w < 64 && (in.Op == token.MUL || in.Op == token.SHL) {
						need[fn] = true
					}
				case *ssa.Call:
					if cal := in.Call.StaticCallee(); cal != nil && c.P.Rel(cal) == "pkg/safecast" {
						c.Ob("checked", c.P.FnName(fn), c.P.InstrPos(in))
					}
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		if need[fn] {
			c.p13narrow(fn, map[*ssa.Function]bool{fn: true}, 0)
		}
	}
}

func narrows(in *ssa.Convert) bool {
	w, s := intWidth(in.Type())
	v, u := intWidth(in.X.Type())
	return v > 0 && w >= 16 && w < 64 && (v > w || v == w && s != u)
}

// p13products: products, shifts and sums in less than 64 bits.
func (c *Check) p13products(fn *ssa.Function) {
	key := c.P.FnName(fn)
	c.Ob("narrow-product", key, c.P.Pos(fn.Pos()))
	c.Ob("narrow-sum", key, c.P.Pos(fn.Pos()))
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
				continue
			}
			w, _ := intWidth(bo.Type())
			if w == 0 || w == 64 || w == 8 {
				continue
			}
			_, kx := bo.X.(*ssa.Const)
			_, ky := bo.Y.(*ssa.Const)
			pos := c.P.InstrPos(in)
			acc := accumulates(bo)
			// a counter that goes up by one
			if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "1" && acc {
				continue
			}
			if acc && bo.Op == token.ADD && !kx {
				c.Ob("running-total", key, pos)
				if !comparedToOperand(bo) {
					c.Bad("running-total", key, pos, "the "+bo.Type().String()+" total can wrap around unnoticed", nil)
				}
				continue
			}
			if smallOperand(bo.X) && (ky || smallOperand(bo.Y)) || kx && smallOperand(bo.Y) {
				continue
			}
			if u := widened(bo, map[ssa.Value]bool{}, 0); u != nil {
				c.Bad("narrow-sum", key, pos, "the sum is formed in "+bo.Type().String()+" and then used as a 64-bit value at "+c.P.InstrPos(u), nil)
			}
		}
	}
}

// smallOperand: the value comes from a type at most half as wide.
func smallOperand(v ssa.Value) bool {
	if cv, ok := v.(*ssa.Convert); ok {
		a, _ := intWidth(cv.X.Type())
		b, _ := intWidth(cv.Type())
		return a > 0 && a < b
	}
	if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.QUO || bo.Op == token.REM || bo.Op == token.AND) {
		if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && k.Value.String() != "1" {
			return true
		}
	}
	return false
}

func unconv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// accumulates: x = x + y, through memory or a loop.
func accumulates(bo *ssa.BinOp) bool {
	sameAddr := func(a, b ssa.Value) bool {
		if a == b {
			return true
		}
		f, ok := a.(*ssa.FieldAddr)
		g, ok2 := b.(*ssa.FieldAddr)
		return ok && ok2 && f.X == g.X && f.Field == g.Field
	}
	for _, opnd := range []ssa.Value{bo.X, bo.Y} {
		o := unconv(opnd)
		for _, r := range reach(bo) {
			switch r := r.(type) {
			case *ssa.Store:
				if ld, ok := o.(*ssa.UnOp); ok && ld.Op == token.MUL && sameAddr(ld.X, r.Addr) {
					return true
				}
			case *ssa.Phi:
				if o == ssa.Value(r) {
					return true
				}
			}
		}
	}
	return false
}

// reach: stores and phis the value goes into, through conversions and phis.
func reach(v ssa.Value) (out []ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, in := range derefs(v) {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Val == v {
					out = append(out, in)
				}
			case *ssa.Phi:
				out = append(out, in)
				rec(in)
			case *ssa.Convert:
				rec(in)
			case *ssa.ChangeType:
				rec(in)
			}
		}
	}
	rec(v)
	return
}

// comparedToOperand: the sum (or what it was stored to) is compared with what it was added to.
func comparedToOperand(bo *ssa.BinOp) bool {
	sums := map[ssa.Value]bool{bo: true}
	olds := map[ssa.Value]bool{unconv(bo.X): true, unconv(bo.Y): true}
	var addrs []ssa.Value
	for _, r := range reach(bo) {
		if st, ok := r.(*ssa.Store); ok {
			addrs = append(addrs, st.Addr)
		}
	}
	for _, b := range bo.Parent().Blocks {
		for _, in := range b.Instrs {
			if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL {
				for _, a := range addrs {
					f, ok := a.(*ssa.FieldAddr)
					g, ok2 := ld.X.(*ssa.FieldAddr)
					if a == ld.X || ok && ok2 && f.X == g.X && f.Field == g.Field {
						// either side: the value before or after the store
						sums[ld] = true
						olds[ld] = true
					}
				}
			}
		}
	}
	for _, b := range bo.Parent().Blocks {
		for _, in := range b.Instrs {
			if cmp, ok := in.(*ssa.BinOp); ok {
				switch cmp.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					x, y := unconv(cmp.X), unconv(cmp.Y)
					if sums[x] && olds[y] && x != y || sums[y] && olds[x] && x != y {
						return true
					}
				}
			}
		}
	}
	return false
}

// widened: an instruction that turns the value into a 64-bit one.
func widened(v ssa.Value, seen map[ssa.Value]bool, d int) ssa.Instruction {
	if seen[v] || d > 6 {
		return nil
	}
	seen[v] = true
	for _, in := range derefs(v) {
		switch in := in.(type) {
		case *ssa.Convert:
			if w, _ := intWidth(in.Type()); w == 64 {
				return in
			}
			if u := widened(in, seen, d+1); u != nil {
				return u
			}
		case *ssa.ChangeType:
			if u := widened(in, seen, d+1); u != nil {
				return u
			}
		case *ssa.Phi:
			if u := widened(in, seen, d+1); u != nil {
				return u
			}
		case *ssa.BinOp:
			if w, _ := intWidth(in.Type()); w > 0 {
				if u := widened(in, seen, d+1); u != nil {
					return u
				}
			}
		}
	}
	return nil
}

// p13narrow: conversions to fewer bits, decided with the facts of the path.
// Where a value depends on the arguments of a helper, the helper is looked at again inside each of its callers.
func (c *Check) p13narrow(fn *ssa.Function, within map[*ssa.Function]bool, depth int) {
	again := false
	root := fn
	rel := c.P.Rel(fn)
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			if !c.P.IsModule(ev.Callee) {
				return false
			}
			r := c.P.Rel(ev.Callee)
			return within[ev.Callee] || r == "pkg/safecast" || r == rel && st.top().fn.Name() == "Size" && ev.Callee.Name() == "WriteTo" || r == rel && ev.Callee.Name() != "PathTableEncodedLen" && intResult(ev.Callee)
		},
		Instr: func(s *Sim, st *State, in ssa.Instruction) {
			fn := st.top().fn
			if !within[fn] || depth > 0 && fn == root {
				return
			}
			key := c.P.FnName(fn)
			arg := func(t *Term) bool {
				return depth < 3 && len(c.P.callers[root]) > 0 && !c.P.addrOf[root] && t.any(func(u *Term) bool { return u.op == OpParam })
			}
			pos := c.P.InstrPos(in)
			switch in := in.(type) {
			case *ssa.Convert:
				if !narrows(in) {
					return
				}
				x := s.V(st, in.X)
				c.Ob("narrowing", key, pos)
				if s.fits(st, x, in.Type()) {
					return
				}
				for _, e := range p13bounded {
					if e.in == rel && (x.any(func(u *Term) bool { return strings.HasSuffix(u.aux, e.from) }) || ssaMentions(c.P, in.X, e.from, 5)) {
						return
					}
				}
				if arg(x) {
					again = true
					return
				}
				c.Bad("narrowing", key, pos, "the "+in.X.Type().String()+" value "+x.String()+" is cut to "+in.Type().String()+" without a check", s.Path(st))
			case *ssa.BinOp:
				if w, _ := intWidth(in.Type()); w == 0 || w == 64 || in.Op != token.MUL && in.Op != token.SHL {
					return
				}
				x, y := s.V(st, in.X), s.V(st, in.Y)
				p := s.T.Mul(x, y)
				if in.Op == token.SHL {
					k, ok := y.IntConst()
					if !ok || k > 62 {
						c.Bad("narrow-product", key, pos, "the shift by "+y.String()+" is done in "+in.Type().String(), s.Path(st))
						return
					}
					p = s.T.Mul(x, s.T.Int(1<<uint(k)))
				}
				if !s.fits(st, p, in.Type()) {
					if arg(p) {
						again = true
						return
					}
					c.Bad("narrow-product", key, pos, "the product "+p.String()+" is formed in "+in.Type().String()+" and may not fit", s.Path(st))
				}
			}
		},
	})
	s.Depth = 5
	c.Run(s, fn, nil)
	if again {
		w := map[*ssa.Function]bool{}
		for f := range within {
			w[f] = true
		}
		w[fn] = true
		seen := map[*ssa.Function]bool{}
		for _, cs := range c.P.callers[fn] {
			if p := cs.Parent(); !seen[p] && !w[p] {
				seen[p] = true
				c.p13narrow(p, w, depth+1)
			}
		}
	}
}

// intResult: a function without receiver that computes an integer from integers, or a plain getter of one.
func intResult(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	if r.Len() == 0 || !isInt(r.At(0).Type()) {
		return false
	}
	return fn.Signature.Recv() == nil || len(fn.Blocks) == 1 || fn.Name() == "Size"
}

// ssaMentions: the value is computed from a call or field of the given name.
func ssaMentions(p *Prog, v ssa.Value, name string, d int) bool {
	if d == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if base(p.calleeName(&x.Call)) == name {
			return true
		}
		for _, a := range x.Call.Args {
			if ssaMentions(p, a, name, d-1) {
				return true
			}
		}
	case *ssa.FieldAddr:
		return deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name() == name || ssaMentions(p, x.X, name, d-1)
	case *ssa.UnOp:
		return ssaMentions(p, x.X, name, d-1)
	case *ssa.BinOp:
		return ssaMentions(p, x.X, name, d-1) || ssaMentions(p, x.Y, name, d-1)
	case *ssa.Convert:
		return ssaMentions(p, x.X, name, d-1)
	case *ssa.IndexAddr:
		return ssaMentions(p, x.X, name, d-1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if ssaMentions(p, e, name, d-1) {
				return true
			}
		}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q != x {
				continue
			}
			for _, cs := range p.callers[x.Parent()] {
				if i < len(cs.Common().Args) && ssaMentions(p, cs.Common().Args[i], name, d-1) {
					return true
				}
			}
		}
	}
	return false
}

func init() { checks["P13"] = checkP13 }
