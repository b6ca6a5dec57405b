package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P12: composed readers.

// isReadAt: a method ReadAt([]byte, int64) (int, error).
func isReadAt(fn *ssa.Function) bool {
	sg := fn.Signature
	return fn.Name() == "ReadAt" && sg.Recv() != nil && sg.Params().Len() == 2 && isBytes(sg.Params().At(0).Type()) && isInt(sg.Params().At(1).Type()) && sg.Results().Len() == 2
}

func isMockPkg(rel string) bool { return strings.Contains(rel, "mock") }

func checkP12(c *Check) {
	c.Rule("position", "every byte asked of a source is the one at the requested position of the composed object and goes to its place in the caller's buffer", 11)
	c.Rule("range", "a source is asked only for bytes inside its own range", 2)
	c.Rule("count", "the count reported is the number of bytes the source delivered, or success needs all of the clamped request", 8)
	c.Rule("end", "a read that reaches no source reports end of data unless nothing was asked for", 3)
	c.Rule("blocks", "a cached read covers its range with consecutive blocks in order", 1)
	c.Rule("layout", "parts are laid out one after the other, and a slice covers exactly the given range", 2)
	c.Rule("visited", "a read of a concatenation visits every part it overlaps", 1)
	c.Rule("sequential", "a sequential read is a positional read at the current position, which advances by what was read", 5)
	c.Rule("interval", "the intersection of two intervals is from the larger start to the smaller end", 1)
	for _, fn := range c.P.Funcs {
		rel := c.P.Rel(fn)
		if isMockPkg(rel) || fn.Parent() != nil {
			continue
		}
		if isReadAt(fn) && rel != "pkg/storage/http" {
			c.p12read(fn)
		}
		if fn.Name() == "Read" && fn.Signature.Recv() != nil && touches(c.P, fn, func(cc *ssa.CallCommon) bool { return base(c.P.calleeName(cc)) == "ReadAt" }) && rel != "pkg/countio" {
			c.p12seq(fn)
		}
	}
	c.Rule("section", "a window of the image starts at block number times block size and the position and length of one file are used together", 4)
	c.p12layout()
	c.p12interval()
	c.p12section()
	c.p12pairs()
	c.p12fuse()
}

// evalGetter evaluates a straight-line method on given arguments.
func (s *Sim) evalGetter(st *State, fn *ssa.Function, args []*Term) *Term {
	if fn == nil || len(fn.Blocks) != 1 {
		return nil
	}
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	val := func(v ssa.Value) *Term {
		if t, ok := env[v]; ok {
			return t
		}
		if c, ok := v.(*ssa.Const); ok {
			return s.T.Const(c.Value, c.Type())
		}
		return nil
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			b := val(in.X)
			if b == nil {
				return nil
			}
			stt := deref(in.X.Type()).Underlying().(*types.Struct)
			env[in] = s.T.FieldAddr(b, in.Field, stt.Field(in.Field).Name(), in.Type())
		case *ssa.UnOp:
			x := val(in.X)
			if x == nil {
				return nil
			}
			env[in] = s.LoadAddr(st, x, in.Type())
		case *ssa.BinOp:
			x, y := val(in.X), val(in.Y)
			if x == nil || y == nil {
				return nil
			}
			env[in] = s.binop(in.Op, x, y, in.Type(), in.X.Type())
		case *ssa.Call:
			if in.Call.IsInvoke() && len(in.Call.Args) == 0 && pureGetters[in.Call.Method.Name()] {
				x := val(in.Call.Value)
				if x == nil {
					return nil
				}
				env[in] = s.T.Pure(s.P.calleeName(&in.Call), in.Type(), x)
			}
		case *ssa.Return:
			if len(in.Results) == 1 {
				return val(in.Results[0])
			}
			return nil
		}
	}
	return nil
}

func (s *Sim) evalGetterOr0(st *State, fn *ssa.Function, recv *Term) *Term {
	if t := s.evalGetter(st, fn, []*Term{recv}); t != nil && isInt(t.typ) {
		return t
	}
	return s.T.Int(0)
}

// stableField: t is the value of a field of recv that is set only when the object is made.
func (c *Check) stableField(t, recv *Term) bool {
	if t.op != OpLoad || t.args[0].op != OpFieldAddr || t.args[0].args[0] != recv {
		return false
	}
	return c.P.immutableRegion(region(t.args[0]))
}

func (c *Check) p12read(fn *ssa.Function) {
	key := c.P.FnName(fn)
	var recv, p, off *Term
	rn := namedOf(fn.Signature.Recv().Type())
	sizeM := c.P.Method(rn, "Size")
	inl := func(s *Sim, st *State, ev *CallEv) bool {
		if !c.P.IsModule(ev.Callee) {
			return false
		}
		r := c.P.Rel(ev.Callee)
		return r == c.P.Rel(fn) && ev.Callee.Name() != "URL" && ev.Callee.Name() != "IsDir" && !strings.HasPrefix(ev.Callee.Name(), "Concurrent") && !strings.HasPrefix(ev.Callee.Name(), "Concat") || r == "pkg/interval"
	}
	// dest: the part [a,b) of the caller's buffer the term denotes
	dest := func(s *Sim, t *Term) (a, b *Term, ok bool) {
		t = strip(t)
		if t == p {
			return s.T.Int(0), s.Len(p), true
		}
		if t.op == OpSlice && t.args[0] == p {
			return t.args[1], t.args[2], true
		}
		return nil, nil, false
	}
	zero := func(s *Sim, t *Term) bool { v, ok := t.IntConst(); return ok && v == 0 }
	ge0 := func(s *Sim, st *State, t *Term) bool { // known t >= 0
		if v, ok := t.IntConst(); ok {
			return v >= 0
		}
		return s.Eval(st, s.T.Lt(t, s.T.Int(0))) == 0
	}
	caching := c.P.Iface("pkg/caching", "Slicer")
	isSlicer := func(cc *ssa.CallCommon) bool {
		return cc.IsInvoke() && cc.Method.Name() == "Slice" && caching != nil && types.Identical(cc.Value.Type().Underlying(), caching)
	}
	hasSlicer := fieldBy(rn, func(t types.Type) bool { return caching != nil && types.Identical(t.Underlying(), caching) }) != ""
	sinks, clamped, parts := 0, 0, 0
	sink := func(s *Sim, st *State, pos string, src, dst, o2, cnt *Term) {
		a, b, ok := dest(s, dst)
		if !ok {
			return
		}
		sinks++
		c.Ob("position", key, pos)
		off := off
		if s.Eval(st, s.T.Lt(off, s.T.Int(0))) == 0 && s.Eval(st, s.T.Lt(s.T.Int(0), off)) == 0 {
			off = s.T.Int(0)
		}
		n := s.T.Sub(b, a)
		d := s.T.Sub(s.T.Sub(o2, a), off) // where the composed object starts in the source
		src = strip(src)
		if hasSlicer {
			if _, ok := st.marks["first"]; !ok {
				st.dead = true // no block was fetched: there is nothing to read, and indexing the first block fails
				return
			}
		}
		st.marks["sink"] = Mark{T: cnt}
		// a block cache: the blocks fetched start at the recorded offset
		if fm, ok := st.marks["first"]; ok {
			if !zero(s, s.T.Add(d, fm.T)) {
				c.Bad("position", key, pos, "the read starts at another position of the joined blocks than the one asked for ("+s.T.Add(d, fm.T).String()+" off)", s.Path(st))
			}
			c.Ob("blocks", key, pos)
			if _, ok := st.marks["part"]; ok {
				c.Bad("blocks", key, pos, "a block was fetched but not joined", s.Path(st))
			}
			if !c.p12covered(s, st, s.T.Add(off, n)) {
				c.Bad("blocks", key, pos, "the loop may end before the block holding the last byte asked for", s.Path(st))
			}
			if src.op == OpOpaque && strings.Contains(src.aux, "Concat") || src.op == OpLoad && src.args[0].op == OpIndexAddr && zero(s, src.args[0].args[1]) {
			} else if ip := indexOf(src); ip == nil || !zero(s, ip) {
				c.Bad("blocks", key, pos, "what is read is not the blocks fetched ("+src.String()+")", s.Path(st))
			}
			c.Ob("range", key, pos)
			if sz := s.evalGetter(st, sizeM, []*Term{recv}); sz == nil || !ge0(s, st, s.T.Sub(sz, s.T.Add(off, n))) {
				c.Bad("range", key, pos, "the read is not limited to the size of the object", s.Path(st))
			}
			return
		}
		// a part of a concatenation
		if pt, offF := partOf(src); pt != nil {
			st.marks["sink"] = Mark{T: cnt, S: "part"}
			po := s.valField(pt, offF, types.Typ[types.Int64])
			if !zero(s, s.T.Add(d, po)) {
				c.Bad("position", key, pos, "the part is asked for another position than the one that belongs in this place of the buffer (off by "+s.T.Add(d, po).String()+")", s.Path(st))
			}
			c.Ob("range", key, pos)
			size := s.T.Pure(sizeName(c.P, src), types.Typ[types.Int64], src)
			if !ge0(s, st, o2) || !ge0(s, st, a) {
				c.Bad("range", key, pos, "the part is asked for bytes before its start", s.Path(st))
			}
			// all of the overlap: it starts where the request or the part does and ends where the request, the part or the object does
			sz := s.evalGetter(st, sizeM, []*Term{recv})
			if !(zero(s, o2) || zero(s, a)) || !(zero(s, s.T.Sub(size, s.T.Add(o2, n))) || zero(s, s.T.Sub(b, s.Len(p))) || sz != nil && zero(s, s.T.Sub(s.T.Add(off, b), sz))) {
				c.Bad("position", key, pos, "the part is not asked for everything that overlaps the request", s.Path(st))
			}
			if !ge0(s, st, s.T.Sub(size, s.T.Add(o2, n))) {
				c.Bad("range", key, pos, "the part is asked for bytes after its end", s.Path(st))
			}
			return
		}
		if zero(s, d) {
			// the same position: the whole request has to be passed on, or the clamped one
			if dst != p && !zero(s, s.T.Sub(n, s.Len(p))) {
				sz := s.evalGetter(st, sizeM, []*Term{recv})
				if !zero(s, a) || sz == nil || !zero(s, s.T.Sub(s.T.Add(off, n), sz)) {
					c.Bad("position", key, pos, "only part of the caller's buffer is filled", s.Path(st))
				}
			}
			return
		}
		// a window of the source starting at a fixed position
		if !c.stableField(d, recv) {
			c.Bad("position", key, pos, "the source is read at "+o2.String()+" for position "+off.String()+" of the composed object", s.Path(st))
			return
		}
		c.Ob("range", key, pos)
		if !ge0(s, st, off) {
			c.Bad("range", key, pos, "a negative position reads bytes before the window", s.Path(st))
		}
		sz := s.evalGetter(st, sizeM, []*Term{recv})
		if sz != nil && s.Eval(st, s.T.Lt(off, sz)) != 1 {
			c.Bad("end", key, pos, "a read at or past the end of the window is not turned away", s.Path(st))
		}
		if sz == nil || !ge0(s, st, s.T.Sub(s.T.Add(sz, d), s.T.Add(o2, n))) {
			c.Bad("range", key, pos, "the read may go past the end of the window", s.Path(st))
		}
	}
	s := c.Sim(Hooks{
		Inline:  inl,
		Go:      func(s *Sim, st *State, ev *CallEv) bool { return true },
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return strings.Contains(ev.Name, "btree") },
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			pos := c.P.InstrPos(ev.Site)
			if strings.Contains(ev.Name, "btree") && len(ev.Args) > 1 {
				c.Ob("visited", key, pos)
				c.p12visit(s, st, key, pos, ev, off, s.Len(p), s.evalGetter(st, sizeM, []*Term{recv}))
			}
			if ev.Name == "append" && len(ev.VArgs) == 2 {
				if mk, ok := st.marks["part"]; ok && strip(ev.VArgs[1]) == mk.T && !ev.VArgs[0].has(mk.T) {
					delete(st.marks, "part")
				}
			}
			if _, read := st.marks["sink"]; !read && isSlicer(ev.Common) && len(ev.Args) == 3 {
				if fieldOfRecv(ev.Args[0], recv) == "" || fieldOfRecv(ev.Args[1], recv) == "" {
					c.Bad("blocks", key, pos, "the blocks fetched are not those of the cached object", s.Path(st))
				}
				if _, ok := st.marks["first"]; !ok {
					st.marks["first"] = Mark{T: ev.Args[2]}
				}
				st.marks["blk"] = Mark{T: ev.Args[2], S: ""}
				st.marks["slicer"] = Mark{T: ev.Args[0]}
				delete(st.marks, "exit")
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			pos := c.P.InstrPos(ev.Site)
			if isSlicer(ev.Common) {
				if _, read := st.marks["sink"]; read {
					return nil
				}
				st.marks["part"] = Mark{T: strip(ev.Result)}
				return nil
			}
			if ev.Inlined {
				return nil
			}
			switch {
			case base(ev.Name) == "ReadAt" && len(ev.Args) == 3:
				sink(s, st, pos, ev.Args[0], ev.Args[1], ev.Args[2], s.Res(ev, 0))
			case ev.Name == "copy" && len(ev.Args) == 2:
				if src := strip(ev.Args[1]); src.op == OpSlice {
					sink(s, st, pos, src.args[0], ev.Args[0], src.args[1], ev.Result)
				} else if _, _, ok := dest(s, ev.Args[0]); ok {
					sink(s, st, pos, src, ev.Args[0], s.T.Int(0), ev.Result)
				}
			case base(ev.Name) == "Read" || ev.Name == "io.ReadFull" || ev.Name == "io.ReadAtLeast":
				for _, a := range ev.Args {
					if _, _, ok := dest(s, a); ok {
						c.Bad("position", key, pos, "the caller's buffer is filled by a sequential read", s.Path(st))
					}
				}
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			if _, ok := st.marks["blk"]; ok {
				if _, ok := st.marks["exit"]; !ok {
					st.marks["exit"] = Mark{T: cond, S: fmt.Sprint(taken)}
				}
			}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			mk, ok := st.marks["blk"]
			if _, read := st.marks["sink"]; !ok || read {
				return
			}
			c.p12step(s, st, key, header, mk.T, st.marks["slicer"].T)
			if _, ok := st.marks["part"]; ok {
				c.Bad("blocks", key, c.P.InstrPos(header.Instrs[0]), "a block was fetched but not joined", s.Path(st))
			}
			delete(st.marks, "blk")
			st.marks["blk"] = Mark{T: st.marks["first"].T, S: "next"}
			delete(st.marks, "exit")
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			ok := s.Eval(st, s.T.IsNil(res[1])) // 1: success
			mk, read := st.marks["sink"]
			if read {
				c.Ob("count", key, pos)
				if mk.S != "part" {
					if strip(res[0]) != mk.T && ok != 0 && s.Eval(st, s.T.Eq(strip(res[0]), mk.T)) != 1 {
						c.Bad("count", key, pos, "the count reported ("+res[0].String()+") is not the number of bytes the source delivered", s.Path(st))
					}
					return
				}
			}
			if ok == 0 {
				return
			}
			if s.Eval(st, s.T.Eq(s.Len(p), s.T.Int(0))) == 1 {
				return
			}
			c.Ob("end", key, pos)
			// success without a source's own count: everything that was asked for has to have been delivered
			sz := s.evalGetter(st, sizeM, []*Term{recv})
			n := strip(res[0])
			full := n == s.Len(p) || s.Eval(st, s.T.Eq(n, s.Len(p))) == 1
			if sz != nil {
				cl := s.Eval(st, s.T.Eq(n, s.T.Sub(sz, off))) == 1
				if cl && !full {
					clamped++
				}
				full = full || cl
			}
			if mk.S == "part" {
				parts++
			}
			if !full && !c.p12zeroFill(fn) {
				c.Bad("count", key, pos, "success is reported with a count ("+n.String()+") that is not known to be all that was asked for", s.Path(st))
			}
		},
	})
	s.Depth = 8
	c.Run(s, fn, func(st *State, ps, fs []*Term) {
		recv, p, off = ps[0], ps[1], ps[2]
		st.marks["recv"] = Mark{T: recv}
		st.marks["p"] = Mark{T: p}
		st.marks["off"] = Mark{T: off}
		if sz := s.evalGetter(st, sizeM, []*Term{recv}); sz != nil {
			st.marks["size"] = Mark{T: sz}
		}
		if c.P.Rel(fn) == "pkg/caching" { // a valid request (readers with a window have to check)
			s.Assume(st, s.T.Lt(off, s.T.Int(0)), false)
		}
	})
	if parts > 0 && clamped == 0 {
		c.Bad("end", key, c.P.Pos(fn.Pos()), "no read that reaches past the end is cut off at the end and succeeds", nil)
	}
	if sinks > 0 || c.p12zeroFill(fn) {
		c.Ob("position", key, c.P.Pos(fn.Pos()))
		c.p12end(fn, sizeM)
	} else {
		c.Bad("position", key, c.P.Pos(fn.Pos()), "no read of a source was recognised in this reader", nil)
	}
}

// p12zeroFill: the reader has no source: it stores a constant at every index below a bound.
func (c *Check) p12zeroFill(fn *ssa.Function) bool {
	n, bad := 0, 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
					if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "0" {
						n++
						_ = ia
					} else {
						bad++
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok && base(c.P.calleeName(ci.Common())) == "ReadAt" {
				bad++
			}
		}
	}
	return n > 0 && bad == 0
}

// p12end: requests at or past the end, decided on the paths on which no source is read.
func (c *Check) p12end(fn *ssa.Function, sizeM *ssa.Function) {
	key := c.P.FnName(fn)
	var recv, p, off *Term
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return c.P.IsModule(ev.Callee) && (c.P.Rel(ev.Callee) == "pkg/interval" || c.P.Rel(ev.Callee) == c.P.Rel(fn) && len(ev.Callee.Blocks) > 1)
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if n := base(ev.Name); n == "ReadAt" || strings.Contains(ev.Name, "btree") || ev.Name == "copy" || n == "Slice" {
				st.dead = true // a source is reached
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			if s.Eval(st, s.T.Eq(s.Len(p), s.T.Int(0))) == 1 {
				return
			}
			e := res[1]
			sz := s.evalGetter(st, sizeM, []*Term{recv})
			if sz == nil {
				return
			}
			// is the request known to be at or past the end here?
			past := s.Eval(st, s.T.Lt(off, sz)) == 0
			c.Ob("end", key, pos)
			if s.Eval(st, s.T.IsNil(e)) == 1 && !c.p12zeroFill(fn) {
				c.Bad("end", key, pos, "a read that reaches no source reports success", s.Path(st))
				return
			}
			if past && !(e.op == OpLoad && e.args[0].op == OpGlobal && strings.HasSuffix(e.args[0].aux, "io.EOF")) {
				c.Bad("end", key, pos, "a read past the end reports "+e.String()+" instead of end of data", s.Path(st))
			}
		},
	})
	c.Run(s, fn, func(st *State, ps, fs []*Term) {
		recv, p, off = ps[0], ps[1], ps[2]
		st.marks["recv"] = Mark{T: recv}
		st.marks["p"] = Mark{T: p}
		st.marks["off"] = Mark{T: off}
		if sz := s.evalGetter(st, sizeM, []*Term{recv}); sz != nil {
			st.marks["size"] = Mark{T: sz}
		}
	})
}

func indexOf(t *Term) *Term {
	if t.op == OpPure && t.aux == "index" && len(t.args) == 2 {
		return t.args[1]
	}
	return nil
}

func fieldOfRecv(t, recv *Term) string {
	t = strip(t)
	if t.op == OpLoad && t.args[0].op == OpFieldAddr && t.args[0].args[0] == recv {
		return t.args[0].aux
	}
	return ""
}

// partOf: the source is the object field of a part value; returns the part and the name of its offset field.
func partOf(src *Term) (*Term, string) {
	if src.op != OpField && src.op != OpLoad {
		return nil, ""
	}
	var v *Term
	if src.op == OpField {
		v = src.args[0]
	} else if src.args[0].op == OpFieldAddr {
		v = src.args[0].args[0]
	}
	if v == nil || v.typ == nil {
		return nil, ""
	}
	n := namedOf(v.typ)
	if n == nil || v.op == OpParam {
		return nil, ""
	}
	f := fieldBy(n, isBasic(types.Int64))
	if f == "" {
		return nil, ""
	}
	return v, f
}

func sizeName(p *Prog, src *Term) string {
	t := strings.ReplaceAll(types.TypeString(src.typ, nil), p.Mod+"/", "")
	return "(" + t + ").Size"
}

// p12covered: the loop over blocks ended only when its counter was past the block of the last byte.
func (c *Check) p12covered(s *Sim, st *State, end *Term) bool {
	ex, ok := st.marks["exit"]
	if !ok {
		return false
	}
	sl := st.marks["slicer"].T
	B := s.T.Pure("(pkg/caching.Slicer).Bsize", types.Typ[types.Int64], sl)
	i64 := types.Typ[types.Int64]
	cands := []*Term{
		s.T.Add(s.T.Quo(end, B, i64), s.T.Int(1)),
		s.T.Add(s.T.Quo(s.T.Sub(end, s.T.Int(1)), B, i64), s.T.Int(1)),
		s.T.Quo(s.T.Sub(s.T.Add(end, B), s.T.Int(1)), B, i64),
		end,
	}
	cond, val := ex.T, ex.S == "true"
	for cond.op == OpNot {
		cond, val = cond.args[0], !val
	}
	var phis []*Term
	ex.T.any(func(u *Term) bool {
		if u.op == OpPhi {
			phis = append(phis, u)
		}
		return false
	})
	for _, x := range phis {
		for _, cd := range cands {
			t := s.T.Lt(x, cd)
			v := false
			for t.op == OpNot {
				t, v = t.args[0], !v
			}
			if t == cond && v == val {
				return true
			}
		}
	}
	return false
}

// p12step: the next block fetched is the one after this one.
func (c *Check) p12step(s *Sim, st *State, key string, header *ssa.BasicBlock, off, slicer *Term) {
	f := st.top()
	B := s.T.Pure("(pkg/caching.Slicer).Bsize", types.Typ[types.Int64], slicer)
	if st.marks["blk"].S == "next" {
		return
	}
	i := 0
	for _, in := range header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		cur, next := f.env[ph], s.loopVals[i]
		i++
		if !isInt(ph.Type()) || cur == nil {
			continue
		}
		for _, k := range []*Term{s.T.Int(1), B} {
			if s.T.Mul(cur, k) == off {
				if s.T.Mul(s.T.Sub(next, cur), k) == B {
					return
				}
			}
		}
	}
	c.Bad("blocks", key, c.P.InstrPos(header.Instrs[0]), "the loop does not go from one block to the next", s.Path(st))
}

// p12visit: the iteration over the parts starts at the part holding the last byte and stops only at a part that does not overlap.
func (c *Check) p12visit(s *Sim, st *State, key, pos string, ev *CallEv, off, n, size *Term) {
	nm := base(ev.Name)
	cl := ev.Args[len(ev.Args)-1]
	if cl.op != OpClosure && cl.op != OpFunc || cl.fn == nil {
		c.Bad("visited", key, pos, "the visitor is not known", s.Path(st))
		return
	}
	switch nm {
	case "Descend", "Ascend":
		c.p12visitor(key, cl.fn, false)
		return
	case "DescendLessOrEqual":
	default:
		c.Bad("visited", key, pos, "the parts are visited with "+nm+", which can miss the part the read starts in", s.Path(st))
		return
	}
	pv := strip(ev.Args[1])
	f := ""
	if pn := namedOf(pv.typ); pn != nil {
		f = fieldBy(pn, isBasic(types.Int64))
	}
	if f == "" {
		c.Bad("visited", key, pos, "the starting part is not known", s.Path(st))
		return
	}
	po := s.valField(pv, f, types.Typ[types.Int64])
	end := s.T.Add(off, n)
	pivot := func(e *Term, want int64) bool {
		d, ok := s.T.Sub(e, po).IntConst()
		return ok && d == want
	}
	// past the end of the object there can still be an empty part
	exact := pivot(end, 1) && (size == nil || s.Eval(st, s.T.Lt(size, end)) == 0) || size != nil && pivot(size, 1)
	if !exact && !pivot(end, 1) && !pivot(end, 0) && !(size != nil && pivot(size, 0)) {
		c.Bad("visited", key, pos, "the visit does not start at the part holding the last byte asked for", s.Path(st))
	}
	c.p12visitor(key, cl.fn, exact)
}

// p12visitor: the visitor returns false only where the intersection is empty, and never
// if the first part visited may lie behind the bytes asked for.
func (c *Check) p12visitor(key string, fn *ssa.Function, exact bool) {
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return c.P.IsModule(ev.Callee) && c.P.Rel(ev.Callee) == c.P.Rel(fn)
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Name == "pkg/interval.Intersection" {
				st.marks["ok"] = Mark{T: s.Res(ev, 1)}
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if mk, ok := st.marks["ok"]; ok && mk.T == cond {
				st.marks["known"] = Mark{S: fmt.Sprint(taken)}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if len(res) != 1 || s.Eval(st, res[0]) == 1 {
				return
			}
			if !exact {
				c.Bad("visited", key, c.P.InstrPos(in), "the visit can stop at a part behind the bytes asked for", s.Path(st))
				return
			}
			if mk, ok := st.marks["ok"]; ok && res[0] == mk.T {
				return
			}
			if st.marks["known"].S != "false" {
				c.Bad("visited", key, c.P.InstrPos(in), "the visit of the parts can stop at a part the read overlaps", s.Path(st))
			}
		},
	})
	c.Run(s, fn, nil)
}

// p12seq: Read is ReadAt at the position kept in the receiver.
func (c *Check) p12seq(fn *ssa.Function) {
	key := c.P.FnName(fn)
	var recv, p *Term
	sizeM := c.P.Method(namedOf(fn.Signature.Recv().Type()), "Size")
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return c.P.IsModule(ev.Callee) && c.P.Rel(ev.Callee) == c.P.Rel(fn) && ev.Callee.Name() != "ReadAt" && ev.Callee.Name() != "Size"
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "ReadAt" && len(ev.Args) == 3 {
				pos := c.P.InstrPos(ev.Site)
				c.Ob("sequential", key, pos)
				f := fieldOfRecv(ev.Args[2], recv)
				b := strip(ev.Args[1])
				if f == "" || c.stableField(strip(ev.Args[2]), recv) {
					c.Bad("sequential", key, pos, "the sequential read does not read at the current position", s.Path(st))
				}
				if b != p && !(b.op == OpSlice && b.args[0] == p && b.args[1] == s.T.Int(0)) {
					c.Bad("sequential", key, pos, "the sequential read does not fill the caller's buffer from its start", s.Path(st))
				}
				// a window: the read stays below its end
				ms, k := s.T.toPoly(s.evalGetterOr0(st, sizeM, recv))
				if len(ms) == 2 && k == 0 {
					for _, m := range ms {
						if m.c == 1 && len(m.a) == 1 && c.stableField(m.a[0], recv) {
							c.Ob("range", key, pos)
							if d := s.T.Sub(m.a[0], s.T.Add(strip(ev.Args[2]), s.Len(b))); s.Eval(st, s.T.Lt(d, s.T.Int(0))) != 0 {
								if v, ok := d.IntConst(); !ok || v < 0 {
									c.Bad("range", key, pos, "the read may go past the end of the window", s.Path(st))
								}
							}
						}
					}
				}
				st.marks["pos"] = Mark{S: f, T: strip(ev.Args[2])}
				st.marks["n"] = Mark{T: s.Res(ev, 0)}
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			mk, ok := st.marks["pos"]
			if !ok || addr.op != OpFieldAddr || addr.args[0] != recv || addr.aux != mk.S {
				return
			}
			st.marks["adv"] = Mark{T: s.T.Sub(val, mk.T)}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			mk, ok := st.marks["n"]
			if !ok {
				return
			}
			adv, ok := st.marks["adv"]
			if !ok || strip(adv.T) != mk.T {
				c.Bad("sequential", key, c.P.InstrPos(in), "the position is not advanced by the number of bytes read", s.Path(st))
			}
			if len(res) == 2 && strip(res[0]) != mk.T {
				c.Bad("sequential", key, c.P.InstrPos(in), "the count reported is not the number of bytes read", s.Path(st))
			}
		},
	})
	c.Run(s, fn, func(st *State, ps, fs []*Term) {
		recv, p = ps[0], ps[1]
		st.marks["recv"] = Mark{T: recv}
		st.marks["p"] = Mark{T: p}
	})
}

// p12layout: constructors of concatenations and slices.
func (c *Check) p12layout() {
	// slices
	if fn := c.P.Lookup("pkg/storage", "Slice"); fn != nil && len(fn.Params) == 3 {
		key := c.P.FnName(fn)
		var o, off, n *Term
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				sl := strip(res[0])
				pos := c.P.InstrPos(in)
				c.Ob("layout", key, pos)
				rn := namedOf(deref(sl.typ))
				if rn == nil {
					c.Bad("layout", key, pos, "what is returned is not known", s.Path(st))
					return
				}
				size := s.evalGetter(st, c.P.Method(rn, "Size"), []*Term{sl})
				if size == nil || s.T.Sub(size, n) != s.T.Int(0) {
					c.Bad("layout", key, pos, "a slice of n bytes does not report the size n", s.Path(st))
				}
				// the fields: object, and integers equal to the start or the end
				stt := rn.Underlying().(*types.Struct)
				ob, lim := false, false
				for i := 0; i < stt.NumFields(); i++ {
					v := structField(s, st, sl, rn, stt.Field(i).Name())
					if strip(v) == o {
						ob = true
						continue
					}
					if !isInt(stt.Field(i).Type()) {
						continue
					}
					if v == s.T.Add(off, n) || v == n {
						lim = true
					} else if v != off {
						c.Bad("layout", key, pos, "the slice's "+stt.Field(i).Name()+" is neither the start nor the end of the range given", s.Path(st))
					}
				}
				if !ob || !lim {
					c.Bad("layout", key, pos, "the slice does not hold the object or the end of the range given", s.Path(st))
				}
			},
		})
		c.Run(s, fn, func(st *State, ps, fs []*Term) {
			o, off, n = ps[0], ps[1], ps[2]
			for i, p := range ps {
				st.marks[fmt.Sprint("p", i)] = Mark{T: p}
			}
		})
	}
	// concatenations: every function of the storage package that inserts parts
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != "pkg/storage" || fn.Parent() != nil || !c.P.IsTop(fn) || !touches(c.P, fn, func(cc *ssa.CallCommon) bool { return base(c.P.calleeName(cc)) == "ReplaceOrInsert" }) {
			continue
		}
		c.p12concat(fn)
	}
}

func (c *Check) p12concat(fn *ssa.Function) {
	key := c.P.FnName(fn)
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if base(ev.Name) != "ReplaceOrInsert" {
				return
			}
			pos := c.P.InstrPos(ev.Site)
			c.Ob("layout", key, pos)
			pv := strip(ev.Args[1])
			pn := namedOf(pv.typ)
			if pn == nil {
				c.Bad("layout", key, pos, "the part inserted is not known", s.Path(st))
				return
			}
			of := fieldBy(pn, isBasic(types.Int64))
			bf := fieldBy(pn, func(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok })
			if of == "" || bf == "" {
				c.Bad("layout", key, pos, "the part inserted has no offset or object", s.Path(st))
				return
			}
			o := s.valField(pv, of, types.Typ[types.Int64])
			var ot types.Type
			stt := pn.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == bf {
					ot = stt.Field(i).Type()
				}
			}
			ob := strip(s.valField(pv, bf, ot))
			st.marks["at"] = Mark{T: o}
			st.marks["obj"] = Mark{T: ob}
			if _, ok := st.marks["started"]; !ok {
				if v, ok := o.IntConst(); !ok || v != 0 {
					c.Bad("layout", key, pos, "the first part does not start at zero", s.Path(st))
				}
				st.marks["started"] = Mark{S: "y"}
			} else if mk, ok := st.marks["run"]; !ok || mk.T != o {
				c.Bad("layout", key, pos, "a part does not start where the previous one ended ("+o.String()+")", s.Path(st))
			}
			// where the next part has to start
			st.marks["end"] = Mark{T: s.T.Add(o, s.T.Pure("(pkg/storage.AnonymousObject).Size", types.Typ[types.Int64], ob))}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			mk, ok := st.marks["end"]
			if !ok {
				return
			}
			// the running offset after this part
			i, hit := 0, false
			for _, in := range header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := s.loopVals[i]
				i++
				if isInt(ph.Type()) && v == mk.T {
					hit = true
					st.marks["run"] = Mark{T: s.T.intern(&Term{op: OpPhi, ctx: st.top().ctx, instr: ph, typ: ph.Type(), aux: ph.Comment})}
				}
			}
			if !hit {
				c.Bad("layout", key, c.P.InstrPos(header.Instrs[0]), "the offset of the next part is not the end of this one", s.Path(st))
			}
			for _, k := range []string{"end", "at", "obj"} {
				delete(st.marks, k)
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			run, ok := st.marks["run"]
			if !ok {
				return
			}
			pos := c.P.InstrPos(in)
			r := strip(res[0])
			rn := namedOf(deref(r.typ))
			size := s.evalGetter(st, c.P.Method(rn, "Size"), []*Term{r})
			if size != run.T {
				c.Bad("layout", key, pos, "the size of the concatenation is not the end of its last part", s.Path(st))
			}
		},
	})
	c.Run(s, fn, nil)
}

// p12interval: Intersection by cases.
func (c *Check) p12interval() {
	fn := c.P.Lookup("pkg/interval", "Intersection")
	if fn == nil || len(fn.Params) != 2 {
		c.Bad("undecided", "Intersection", "?", "the interval intersection was not found", nil)
		return
	}
	key := c.P.FnName(fn)
	var a, b *Term
	f := func(s *Sim, st *State, v *Term, i int) *Term {
		n := namedOf(v.typ)
		stt := n.Underlying().(*types.Struct)
		if _, ok := v.typ.Underlying().(*types.Pointer); ok {
			return structField(s, st, v, n, stt.Field(i).Name())
		}
		return s.valField(v, stt.Field(i).Name(), stt.Field(i).Type())
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			c.Ob("interval", key, pos)
			as, ae, bs, be := f(s, st, a, 0), f(s, st, a, 1), f(s, st, b, 0), f(s, st, b, 1)
			le := func(x, y *Term) bool { return x == y || s.Eval(st, s.T.Lt(y, x)) == 0 } // x <= y known
			switch s.Eval(st, res[1]) {
			case 1:
				r := strip(res[0])
				x, y := f(s, st, r, 0), f(s, st, r, 1)
				if !(x == as && le(bs, as) || x == bs && le(as, bs)) {
					c.Bad("interval", key, pos, "the start is not the larger of the two starts", s.Path(st))
				}
				if !(y == ae && le(ae, be) || y == be && le(be, ae)) {
					c.Bad("interval", key, pos, "the end is not the smaller of the two ends", s.Path(st))
				}
				if s.Eval(st, s.T.Lt(x, y)) != 1 {
					c.Bad("interval", key, pos, "an empty intersection is reported", s.Path(st))
				}
			case 0:
				// no overlap: some start is at or past some end
				ok := false
				for _, p := range [][2]*Term{{as, ae}, {as, be}, {bs, ae}, {bs, be}} {
					if s.Eval(st, s.T.Lt(p[0], p[1])) == 0 {
						ok = true
					}
				}
				if !ok {
					c.Bad("interval", key, pos, "an overlap is not reported", s.Path(st))
				}
			default:
				c.Bad("interval", key, pos, "whether the intervals overlap is not decided", s.Path(st))
			}
		},
	})
	c.Run(s, fn, func(st *State, ps, fs []*Term) {
		a, b = ps[0], ps[1]
		st.marks["a"] = Mark{T: a}
		st.marks["b"] = Mark{T: b}
	})
}

// p12section: windows of an image.
func (c *Check) p12section() {
	pkgs := map[string]bool{"pkg/iso9660": true, "pkg/isofuse": true, "pkg/vdisc/cli": true}
	wrappers := map[*ssa.Function]bool{} // functions that are given the start of the window
	var work []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if !seen[fn] {
			seen[fn] = true
			work = append(work, fn)
		}
	}
	for _, fn := range c.P.Funcs {
		if !pkgs[c.P.Rel(fn)] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && c.P.calleeName(ci.Common()) == "io.NewSectionReader" {
					add(fn)
				}
			}
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		{
			key := c.P.FnName(fn)
			s := c.Sim(Hooks{
				Inline: func(s *Sim, st *State, ev *CallEv) bool {
					r := ev.Callee.Signature.Results()
					return c.P.IsModule(ev.Callee) && (wrappers[ev.Callee] || ev.Callee.Signature.Recv() == nil && r.Len() == 1 && isInt(r.At(0).Type()) && len(ev.Callee.Blocks) == 1)
				},
				PreCall: func(s *Sim, st *State, ev *CallEv) {
					if ev.Name != "io.NewSectionReader" {
						return
					}
					pos := c.P.InstrPos(ev.Site)
					ms, k := s.T.toPoly(ev.Args[1])
					if len(ms) == 0 {
						if k == 0 {
							return
						}
						n, ok := ev.Args[2].IntConst()
						c.Ob("section", key, pos)
						if k != 16*2048 || !ok || n != 2048 {
							c.Bad("section", key, pos, "the volume descriptor is not read from sector 16", s.Path(st))
						}
						return
					}
					if a := ev.Args[1]; a.op == OpParam && types.Identical(a.typ, types.Typ[types.Int64]) && len(c.P.callers[fn]) > 0 {
						wrappers[fn] = true
						for _, cs := range c.P.callers[fn] {
							add(cs.Parent())
						}
						return
					}
					c.Ob("section", key, pos)
					blocks := 0
					for _, m := range ms {
						if len(m.a) != 1 {
							c.Bad("section", key, pos, "the start of the window is not a block position", s.Path(st))
							return
						}
						switch {
						case m.c == 2048:
							blocks++
						case m.c == 1 && strings.Contains(m.a[0].String(), "Offset"):
						default:
							c.Bad("section", key, pos, "the start of the window is not block number times block size ("+ev.Args[1].String()+")", s.Path(st))
						}
					}
					if blocks != 1 || k != 0 {
						c.Bad("section", key, pos, "the start of the window is not block number times block size ("+ev.Args[1].String()+")", s.Path(st))
					}
				},
			})
			s.Depth = 4
			c.Run(s, fn, nil)
		}
	}
}

// p12pairs: a call given a position and a size taken from file information is given those of the same file.
func (c *Check) p12pairs() {
	src := func(v ssa.Value, name string) ssa.Value {
		for i := 0; i < 6; i++ {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.BinOp:
				v = x.X
				continue
			case *ssa.Call:
				if base(c.P.calleeName(&x.Call)) == name && x.Call.StaticCallee() != nil && len(x.Call.Args) == 1 {
					return x.Call.Args[0]
				}
			}
			break
		}
		return nil
	}
	same := func(a, b ssa.Value) bool {
		for {
			if a == b {
				return true
			}
			x, ok := a.(*ssa.UnOp)
			y, ok2 := b.(*ssa.UnOp)
			if ok && ok2 {
				a, b = x.X, y.X
				continue
			}
			f, ok := a.(*ssa.FieldAddr)
			g, ok2 := b.(*ssa.FieldAddr)
			if ok && ok2 && f.Field == g.Field {
				a, b = f.X, g.X
				continue
			}
			return false
		}
	}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var e, z ssa.Value
				for _, a := range ci.Common().Args {
					if v := src(a, "Extent"); v != nil {
						e = v
					}
					if v := src(a, "Size"); v != nil {
						z = v
					}
				}
				if e == nil || z == nil {
					continue
				}
				key := c.P.FnName(fn)
				c.Ob("section", key, c.P.InstrPos(in))
				if !same(e, z) {
					c.Bad("section", key, c.P.InstrPos(in), "the position of one file is used with the size of another", nil)
				}
			}
		}
	}
}

// p12fuse: a file read of the mounted filesystem asks for the request's own range.
func (c *Check) p12fuse() {
	c.Rule("request", "a read request of the mounted filesystem is served from the offset it names, into its own buffer, and reports what was read", 1)
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != "pkg/isofuse" || fn.Parent() != nil || !c.P.IsTop(fn) || !touches(c.P, fn, func(cc *ssa.CallCommon) bool { return base(c.P.calleeName(cc)) == "ReadAt" }) {
			continue
		}
		key := c.P.FnName(fn)
		var op *Term
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if ev.Inlined || base(ev.Name) != "ReadAt" || len(ev.Args) != 3 || op == nil {
					return nil
				}
				pos := c.P.InstrPos(ev.Site)
				c.Ob("request", key, pos)
				if fieldOfRecv(ev.Args[1], op) != "Dst" {
					c.Bad("request", key, pos, "the data does not go into the request's buffer", s.Path(st))
				}
				if fieldOfRecv(ev.Args[2], op) != "Offset" {
					c.Bad("request", key, pos, "the data is not read at the offset of the request", s.Path(st))
				}
				st.marks["n"] = Mark{T: s.Res(ev, 0)}
				return nil
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				mk, ok := st.marks["n"]
				if !ok || s.Eval(st, s.T.IsNil(res[0])) == 0 {
					return
				}
				n := namedOf(op.typ)
				if v := structField(s, st, op, n, "BytesRead"); strip(v) != mk.T {
					c.Bad("request", key, c.P.InstrPos(in), "the request does not report the number of bytes read", s.Path(st))
				}
			},
		})
		c.Run(s, fn, func(st *State, ps, fs []*Term) {
			op = nil
			for _, p := range ps {
				if n := namedOf(p.typ); n != nil && n.Obj().Name() == "ReadFileOp" {
					op = p
					st.marks["op"] = Mark{T: p}
				}
			}
		})
	}
}

func init() { checks["P12"] = checkP12 }
