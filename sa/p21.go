package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P21"] = checkP21 }

// P21: announced lengths are the bytes written; records and areas keep to sectors.

const sectorSize = 2048

func checkP21(c *Check) {
	c.Rule("announced", "the length field holds the structure's length method's value or the number of bytes this path writes", 9)
	c.Rule("length", "on every path of the encoder the length method returns the sum of the widths written", 9)
	c.Rule("fits", "no entry can be made whose length does not fit its length byte", 6)
	c.Rule("boundary", "a directory record is only written where it fits the rest of the sector", 1)
	c.Rule("sector", "every area of the image starts and ends at a sector boundary", 3)
	c.Rule("rounding", "sizes are rounded up to whole sectors", 2)
	c.Rule("continuation", "a continuation entry announces exactly the room its entries took, where they were put", 1)
	c.Rule("spill", "the room entries take is the sum of their lengths, less those moved on, plus the entry pointing to them", 2)
	c.Rule("tablesize", "the size of the path table is the number of bytes its encoder produces", 1)
	for i := range structSpecs {
		sp := &structSpecs[i]
		has := false
		for _, it := range sp.items {
			if it.k == "len" && it.n == 0 {
				has = true
			}
		}
		if has {
			c.p21struct(sp)
		}
	}
	c.pathTableRecords("announced")
	c.p21fits()
	c.p21directory()
	c.p21sectors()
	c.p21rounding()
	c.p21continuation()
	c.p21tableSize()
	c.p21spill(c.named(isoRel, "ContinuationArea"), "Append")
	c.p21spill(c.named(isoRel, "DirectoryInode"), "toDirectory")
}

func (c *Check) p21struct(sp *structSpec) {
	named := c.named(sp.rel, sp.typ)
	if named == nil {
		c.Bad("announced", sp.typ, "", "type not found", nil)
		return
	}
	fn, lenFn := c.P.Method(named, "WriteTo"), c.P.Method(named, "Len")
	if fn == nil || lenFn == nil {
		c.Bad("announced", sp.typ, "", "WriteTo or Len not found", nil)
		return
	}
	c.Ob("announced", sp.typ, c.P.Pos(fn.Pos()))
	c.Ob("length", sp.typ, c.P.Pos(lenFn.Pos()))
	l := &lay{c: c, rule: "announced", key: sp.typ, pos: c.P.Pos(fn.Pos())}
	at := 0 // bytes before the length field
	for _, it := range sp.items {
		if it.k == "len" {
			break
		}
		at += it.n
	}
	n := 0
	h := l.writeHooks(Hooks{
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) { l.nextElem(s, st, header) },
		Branch:   l.listEnd,
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			n++
			total := s.T.Int(0)
			var field *Term
			for _, e := range seqOf(s, st) {
				if k, ok := total.IntConst(); ok && int(k) == at && e.kind == "byte" && field == nil {
					field = e.val
				}
				if e.kind != "sub" {
					total = s.T.Add(total, e.w)
				}
			}
			l.rule, l.pos = "announced", c.P.Pos(fn.Pos())
			if field == nil {
				l.fail(s, st, "no length field found")
				return
			}
			own := (field.op == OpOpaque || field.op == OpPure) && base(field.aux) == "Len" && len(field.args) == 1 && field.args[0] == l.recv
			if !own && (s.Eval(st, s.T.Eq(field, total)) != 1 || st.marks["elembase"].T != nil) {
				l.fail(s, st, fmt.Sprintf("announces %s but writes %s bytes", field.String(), total.String()))
			}
			if sp.typ == "DirectoryRecord" && s.Eval(st, s.T.Lt(s.T.Int(255), field)) != 0 {
				l.fail(s, st, "a record longer than its length field can hold is written")
			}
			c.p21len(sp, lenFn, l.recv, st, total)
		},
	})
	inl := h.Inline
	h.Inline = func(s *Sim, st *State, ev *CallEv) bool {
		return !(base(ev.Name) == "Len" && len(ev.Args) == 1 && ev.Args[0] == l.recv) && inl(s, st, ev)
	}
	s := l.sim(h)
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		l.recv = params[0]
		st.marks["obj"] = Mark{T: params[0]}
	})
	if n == 0 {
		l.fail(s, &State{}, "no successful path found")
	}
}

// p21len follows the length method under what is known on one of the encoder's paths.
func (c *Check) p21len(sp *structSpec, fn *ssa.Function, recv *Term, from *State, total *Term) {
	l := &lay{c: c, rule: "length", key: sp.typ, pos: c.P.Pos(fn.Pos()), recv: recv}
	check := func(s *Sim, st *State, v *Term, in ssa.Instruction) {
		if s.Eval(st, s.T.Eq(v, total)) != 1 {
			c.Bad("length", sp.typ, c.P.Pos(fn.Pos()), fmt.Sprintf("%s bytes are written where the length is given as %s", total.String(), v.String()), append(s.Path(from), s.Path(st)...))
		}
	}
	n := 0
	sum := map[*ssa.Phi]bool{} // sums of the entries' lengths
	s := l.sim(Hooks{
		Inline: pkgInline(c),
		Branch: keepFacts(l.listEnd),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "Len" && !ev.Inlined && ev.Common.IsInvoke() {
				l.elem(s, st, ev)
				if b := st.marks["elembase"].T; b != nil && from.marks["elembase"].T != nil && l.path(addrOf(b)) != l.path(addrOf(from.marks["elembase"].T)) {
					l.fail(s, st, "the lengths added are not those of the entries written")
				}
				st.marks["lenres"] = Mark{T: ev.Result}
			}
			return nil
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			mk := st.marks["elem"]
			if mk.S == "" && s.loopTurn {
				return
			}
			if mk.S == "" {
				l.fail(s, st, "an entry's length is left out")
				return
			}
			res := st.marks["lenres"].T
			first, _ := mk.T.IntConst()
			_, isFirst := mk.T.IntConst()
			l.nextElem(s, st, header)
			ok := false
			i := 0
			for _, in := range header.Instrs {
				ph, isPhi := in.(*ssa.Phi)
				if !isPhi {
					break
				}
				if isInt(ph.Type()) {
					d := s.T.Sub(s.loopVals[i], res)
					if isFirst && first == 0 {
						if sum[ph] || !inLoop(d) && d != s.loopVals[i] && !has(s, d, res) {
							ok = true
							sum[ph] = true
							st.marks["init"] = Mark{T: d}
						}
					} else if d.op == OpPhi || d.op == OpOpaque || d.op == OpNew {
						ok = true
					} else if ms, k := s.T.toPoly(d); len(ms) == 1 && ms[0].c == 1 && k == 0 {
						ok = true
					}
				}
				i++
			}
			if !ok {
				l.fail(s, st, "the length does not grow by each entry's own length")
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			n++
			if st.marks["seen"].S != "" {
				ms, _ := s.T.toPoly(res[0])
				for _, m := range ms {
					if ph, ok := m.a[0].instr.(*ssa.Phi); ok && len(m.a) == 1 && m.c == 1 && m.a[0].op == OpPhi && sum[ph] && st.marks["end"].S != "" && st.marks["init"].T != nil {
						check(s, st, s.T.Add(s.T.Sub(res[0], m.a[0]), st.marks["init"].T), in)
						return
					}
				}
				l.fail(s, st, "the length returned is not the sum of the entries' lengths")
				return
			}
			check(s, st, res[0], in)
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		f := st.top()
		f.env[fn.Params[0]] = recv
		src := from.clone()
		st.facts, st.ivals, st.eqc, st.cells, st.vers, st.fresh = src.facts, src.ivals, src.eqc, src.cells, src.vers, src.fresh
		for k, m := range src.marks {
			if strings.HasPrefix(k, "br:") || k == "obj" {
				st.marks[k] = m
			}
		}
		for _, in := range []*Term{total} {
			st.marks["total"] = Mark{T: in}
		}
	})
	if n == 0 {
		l.fail(s, from, "the length method does not return on this path")
	}
}

func has(s *Sim, t, x *Term) bool {
	ms, _ := s.T.toPoly(t)
	for _, m := range ms {
		for _, a := range m.a {
			if a == x {
				return true
			}
		}
	}
	return false
}

func addrOf(t *Term) *Term {
	if t.op == OpLoad {
		return t.args[0]
	}
	return t
}

// p21fits: constructors of entries of variable length.
func (c *Check) p21fits() {
	type lim struct {
		typ, rel, ctor string
		params         []string
		max            int64
	}
	for _, lm := range []lim{{"Name", isoRel + "/rrip", "NewNamePart", []string{"p0"}, 250}, {"Symlink", isoRel + "/rrip", "NewSymlinkPart", []string{"p1"}, 248},
		{"ExtensionsReferenceEntry", isoRel + "/susp", "NewExtensionsReferenceEntry", []string{"p1", "p2", "p3"}, 247}} {
		lm := lm
		named := c.named(lm.rel, lm.typ)
		if named == nil {
			c.Bad("fits", lm.typ, "", "type not found", nil)
			continue
		}
		sp := c.p20specOf(named)
		ctor := c.ctorMap(sp)
		paths := map[string]string{}
		for f, p := range ctor {
			paths[p] = f
		}
		// component types nested in the entry are built separately
		var comp *types.Named
		compField := ""
		if f := paths[lm.params[0]]; strings.Contains(f, ".") {
			stt := named.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == f[:strings.Index(f, ".")] {
					comp = namedOf(stt.Field(i).Type())
					compField = f[strings.Index(f, ".")+1:]
				}
			}
		}
		for _, fn := range c.P.Funcs {
			if c.P.Rel(fn) != lm.rel || !c.P.IsTop(fn) || !c.makes(fn, named, comp) {
				continue
			}
			c.p21ctor(fn, named, comp, compField, lm.params, paths, lm.max)
		}
	}
}

// makes: the function (or one it contains) allocates or builds the type.
func (c *Check) makes(fn *ssa.Function, ts ...*types.Named) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function, d int) bool
	rec = func(fn *ssa.Function, d int) bool {
		if fn == nil || seen[fn] || d > 3 {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					for _, r := range *fa.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
							for _, t := range ts {
								if t != nil && namedOf(fa.X.Type()) == t {
									return true
								}
							}
						}
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if cal := call.Common().StaticCallee(); cal != nil && c.P.Rel(cal) == c.P.Rel(fn) && !c.P.IsTop(cal) && rec(cal, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn, 0)
}

func (c *Check) p21ctor(fn *ssa.Function, named, comp *types.Named, compField string, params []string, paths map[string]string, max int64) {
	key := c.P.FnName(fn)
	c.Ob("fits", key, c.P.Pos(fn.Pos()))
	c.Ob("fits", key+" "+named.Obj().Name(), c.P.Pos(fn.Pos()))
	appended := map[*ssa.Function]bool{}
	fits := func(s *Sim, st *State, v *Term) bool {
		if k, ok := v.StrConst(); ok {
			return int64(len(k)) <= max
		}
		if s.Eval(st, s.T.Lt(s.T.Int(max), s.Len(v))) == 0 {
			return true
		}
		// an element of a list whose elements were checked when added
		if v.op == OpLoad && v.args[0].op == OpIndexAddr && len(appended) > 0 {
			ok := true
			walkTerm(v.args[0].args[0], func(t *Term) {
				if t.op == OpOpaque && t.aux != "append" && t.aux != "append1" && t.instr != nil {
					if _, isCall := t.instr.(*ssa.Call); isCall {
						if b, isB := t.instr.(*ssa.Call).Call.Value.(*ssa.Builtin); !isB || b.Name() != "append" {
							ok = false
						}
					}
				}
			})
			return ok
		}
		return false
	}
	entry := func(s *Sim, st *State, in ssa.Instruction, v *Term) {
		for v.op == OpMkIface || v.op == OpConv {
			v = v.args[0]
		}
		if _, ptr := v.typ.Underlying().(*types.Pointer); ptr && v.op == OpLoad {
			return // made before, and checked there
		}
		nm := namedOf(v.typ)
		if nm == nil || nm != named && nm != comp {
			return
		}
		sum := s.T.Int(0)
		for _, p := range params {
			path := paths[p]
			if nm == comp {
				path = compField
			}
			var f *Term
			if _, ptr := v.typ.Underlying().(*types.Pointer); ptr {
				f, _ = fieldTerm(s, st, v, nm, path)
			} else {
				f = v
				var t types.Type = nm
				for _, n := range strings.Split(path, ".") {
					stt := t.Underlying().(*types.Struct)
					for i := 0; i < stt.NumFields(); i++ {
						if stt.Field(i).Name() == n {
							t = stt.Field(i).Type()
						}
					}
					f = s.valField(f, n, t)
				}
			}
			if f == nil {
				return
			}
			if comp != nil && nm == named && structElem(f, comp) {
				continue // a component checked where it was made
			}
			if len(params) == 1 && !fits(s, st, f) {
				c.Bad("fits", key, c.P.InstrPos(in), fmt.Sprintf("an entry is made of text that may be longer than %d bytes", max), s.Path(st))
			}
			sum = s.T.Add(sum, s.Len(f))
		}
		if len(params) > 1 && s.Eval(st, s.T.Lt(s.T.Int(max), sum)) != 0 {
			c.Bad("fits", key, c.P.InstrPos(in), fmt.Sprintf("an entry is made of texts that may together be longer than %d bytes", max), s.Path(st))
		}
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && !c.P.validates(ev.Callee) && (!c.P.IsTop(ev.Callee) || !c.makes(ev.Callee, named, comp))
		},
		Branch: keepFacts(nil),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Name != "append" {
				return
			}
			for _, v := range ev.VArgs[1:] {
				if v.typ != nil && isBasic(types.String)(v.typ) {
					appended[fn] = true
					if !fits(s, st, v) {
						c.Bad("fits", key, c.P.InstrPos(ev.Site), fmt.Sprintf("a piece of text that may be longer than %d bytes is kept for an entry", max), s.Path(st))
					}
					continue
				}
				entry(s, st, ev.Site, v)
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			for _, r := range res {
				entry(s, st, in, r)
			}
		},
	})
	c.Run(s, fn, nil)
}

// structElem: part of a component taken from a list of components.
func structElem(f *Term, comp *types.Named) bool {
	hit := false
	walkTerm(f, func(t *Term) {
		if t.op == OpIndexAddr && namedOf(t.typ) == comp {
			hit = true
		}
	})
	return hit
}

// written: the number of bytes a counting writer has passed on.
func (c *Check) written(s *Sim, st *State, w *Term) *Term {
	for w.op == OpMkIface || w.op == OpConv {
		w = w.args[0]
	}
	n := namedOf(w.typ)
	if n == nil {
		return nil
	}
	fn := c.P.Method(n, "Written")
	if fn == nil {
		return nil
	}
	return s.evalGetter(st, fn, []*Term{w})
}

func rem2048(s *Sim, w *Term) *Term {
	return s.T.Sub(w, s.T.Mul(s.T.Int(sectorSize), s.T.Quo(w, s.T.Int(sectorSize), w.typ)))
}

// p21directory: Directory.WriteTo.
func (c *Check) p21directory() {
	named, recT := c.named(isoRel, "Directory"), c.named(isoRel, "DirectoryRecord")
	var fn *ssa.Function
	if named != nil {
		fn = c.P.Method(named, "WriteTo")
	}
	if fn == nil || recT == nil {
		c.Bad("boundary", "Directory.WriteTo", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("boundary", key, c.P.Pos(fn.Pos()))
	l := &lay{c: c, rule: "boundary", key: key, pos: c.P.Pos(fn.Pos())}
	isRec := func(ev *CallEv, name string) bool {
		return base(ev.Name) == name && len(ev.Args) > 0 && namedOf(ev.Args[0].typ) == recT
	}
	n := 0
	h := Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && !c.isPad(ev.Callee) && !isRec(ev, "Len") && !isRec(ev, "WriteTo")
		},
		Branch: keepFacts(l.listEnd),
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if namedOf(addr.typ) != recT {
				return
			}
			delete(st.marks, "rec")
			if e := elemOf(val); e != nil && addr.op == OpAlloc {
				st.marks["rec"] = Mark{T: addr}
				st.marks["recval"] = Mark{T: e}
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			switch {
			case ev.Callee != nil && c.isPad(ev.Callee):
				w := c.written(s, st, ev.Args[0])
				ok := "0"
				if w != nil {
					if k, isc := s.T.Sub(s.T.Add(ev.Args[1], rem2048(s, w)), s.T.Int(sectorSize)).IntConst(); isc && k == 0 {
						ok = "1"
					}
				}
				if ok == "0" {
					c.Bad("boundary", key+" padding", c.P.InstrPos(ev.Site), "pads by something else than the rest of the sector: "+ev.Args[1].String(), s.Path(st))
				}
				st.marks["padded"] = Mark{S: ok}
			case isRec(ev, "WriteTo"):
				n++
				idx := elemOf(ev.Args[0])
				if m := st.marks["rec"]; idx == nil && m.T == ev.Args[0] {
					idx = st.marks["recval"].T
				}
				if idx == nil {
					l.fail(s, st, "the record written is not one of the directory's")
				} else {
					st.marks["elem"] = Mark{S: st.marks["elem"].S + "x", T: idx.args[1]}
				}
				if st.marks["padded"].S == "1" {
					return
				}
				w := c.written(s, st, ev.Args[1])
				ln := st.marks["len"].T
				if w == nil || ln == nil || st.marks["lenof"].T != ev.Args[0] {
					l.fail(s, st, "a record is written without comparing its length with the rest of the sector")
					return
				}
				room := s.T.Sub(s.T.Int(sectorSize), rem2048(s, w))
				if s.Eval(st, s.T.Lt(room, ln)) != 0 {
					l.fail(s, st, "a record is written although it may not fit the rest of the sector")
				}
			case base(ev.Name) == "Write" && len(ev.Args) == 2 && !isWriteMethod(fn):
				l.fail(s, st, "bytes other than records and padding are written")
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if isRec(ev, "Len") {
				st.marks["len"] = Mark{T: ev.Result}
				st.marks["lenof"] = Mark{T: ev.Args[0]}
			}
			if e := s.ErrRes(ev); e != nil && !ev.Inlined && (isRec(ev, "WriteTo") || ev.Callee != nil && c.isPad(ev.Callee)) {
				s.Assume(st, s.T.IsNil(e), true)
			}
			if isRec(ev, "WriteTo") {
				delete(st.marks, "padded")
				delete(st.marks, "len")
			}
			return nil
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			if st.marks["elem"].S == "" {
				l.fail(s, st, "a record is left out")
			}
			l.nextElem(s, st, header)
			delete(st.marks, "padded")
			delete(st.marks, "len")
			for k := range st.marks {
				if strings.HasPrefix(k, "br:") {
					delete(st.marks, k)
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if s.succeeds(st, in, res) && st.marks["end"].S == "" {
				l.fail(s, st, "may return before all records are written")
			}
		},
	}
	s := l.sim(h)
	c.Run(s, fn, nil)
	if n == 0 {
		l.fail(s, &State{}, "no record is written")
	}
}

func elemOf(t *Term) *Term {
	var e *Term
	walkTerm(t, func(t *Term) {
		if t.op == OpIndexAddr {
			e = t
		}
	})
	return e
}

// p21sectors: areas of the image.
func (c *Check) p21sectors() {
	for _, w := range []struct{ typ, method string }{{"Volume", "WriteMetadataTo"}, {"Volume", "WriteTo"}, {"ContinuationArea", "WriteTo"}} {
		named := c.named(isoRel, w.typ)
		var fn *ssa.Function
		if named != nil {
			fn = c.P.Method(named, w.method)
		}
		if fn == nil {
			c.Bad("sector", w.typ+"."+w.method, "", "not found", nil)
			continue
		}
		c.p21sector(fn, w.typ == "ContinuationArea")
	}
}

func (c *Check) p21sector(fn *ssa.Function, entries bool) {
	key := c.P.FnName(fn)
	c.Ob("sector", key, c.P.Pos(fn.Pos()))
	whole := map[string]bool{"PrimaryVolumeDescriptor": true, "Terminator": true, "ContinuationArea": true}
	n := 0
	aligned := func(s *Sim, st *State) bool {
		if st.marks["al"].S != "0" {
			return true
		}
		w := c.written(s, st, st.marks["cw"].T)
		if w == nil {
			return false
		}
		r := rem2048(s, w)
		return s.Eval(st, s.T.Eq(r, s.T.Int(0))) == 1 || s.Eval(st, s.T.Lt(s.T.Int(0), r)) == 0
	}
	isArea := func(ev *CallEv) string {
		b := base(ev.Name)
		if b != "WriteTo" && b != "Encode" && b != "WriteMetadataTo" || len(ev.Args) < 2 {
			return ""
		}
		if t := namedOf(ev.Args[0].typ); t != nil {
			return t.Obj().Name()
		}
		return ""
	}
	bad := func(s *Sim, st *State, in ssa.Instruction, sub, msg string) {
		c.Bad("sector", key+" "+sub, c.P.InstrPos(in), msg, s.Path(st))
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && !c.isPad(ev.Callee) && isArea(ev) == "" && !c.P.callsBack(ev.Callee) && (!c.P.IsTop(ev.Callee) || ev.Callee.Signature.Recv() != nil && base(ev.Name) == "Written" || base(ev.Name) == "newCountingWriter")
		},
		Branch:  keepFacts(nil),
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return base(ev.Name) != "Encode" },
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if st.marks["al"].S == "0" && !ev.Inlined && aligned(s, st) {
				st.marks["al"] = Mark{S: "1"}
			}
			if ev.Callee != nil && c.isPad(ev.Callee) {
				w := c.written(s, st, ev.Args[0])
				st.marks["cw"] = Mark{T: strip(ev.Args[0])}
				if k, ok := ev.Args[1].IntConst(); ok {
					if k%sectorSize != 0 {
						st.marks["al"] = Mark{S: "0"}
					}
					return
				}
				if w != nil {
					if k, isc := s.T.Sub(s.T.Add(ev.Args[1], rem2048(s, w)), s.T.Int(sectorSize)).IntConst(); isc && k == 0 {
						st.marks["al"] = Mark{S: "1"}
						return
					}
				}
				bad(s, st, ev.Site, "padding", "pads by something else than the rest of the sector: "+ev.Args[1].String())
				return
			}
			if a := isArea(ev); a != "" && !ev.Inlined {
				n++
				if entries {
					st.marks["al"] = Mark{S: "0"}
					st.marks["cw"] = Mark{T: strip(ev.Args[1])}
					return
				}
				if !aligned(s, st) {
					bad(s, st, ev.Site, a, "an area is written that may not start at a sector boundary")
				}
				if base(ev.Name) != "Encode" {
					st.marks["cw"] = Mark{T: strip(ev.Args[1])}
				}
				if base(ev.Name) == "WriteMetadataTo" || whole[a] {
					st.marks["al"] = Mark{S: "1"}
				} else {
					st.marks["al"] = Mark{S: "0"}
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if e := s.ErrRes(ev); e != nil && !ev.Inlined && (isArea(ev) != "" || ev.Callee != nil && c.isPad(ev.Callee)) {
				s.Assume(st, s.T.IsNil(e), true)
			}
			return nil
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			if !entries {
				return
			}
			// the loop over sectors pads each of them
			if outerLoop(header) && !aligned(s, st) {
				c.Bad("sector", key+" padding", c.P.Pos(fn.Pos()), "a sector's entries are not padded to its end", s.Path(st))
			}
			if outerLoop(header) {
				st.marks["al"] = Mark{S: "1"}
			}
		},
		Panic: func(s *Sim, st *State, in ssa.Instruction) {
			if st.marks["al"].S == "0" && !aligned(s, st) {
				bad(s, st, in, "panic", "an area is due where the one before may end inside a sector")
			}
		},
		RetAny: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if st.top().kind == kCB && len(res) == 1 && s.Eval(st, s.T.IsNil(res[0])) != 0 && !aligned(s, st) {
				bad(s, st, in, "end", "an area may end inside a sector")
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if s.succeeds(st, in, res) && !aligned(s, st) {
				bad(s, st, in, "end", "the image may end inside a sector")
			}
		},
	})
	s.Depth = 10
	c.Run(s, fn, nil)
	if n == 0 {
		c.Bad("sector", key, c.P.Pos(fn.Pos()), "nothing is written", nil)
	}
}

// outerLoop: another loop header is reachable inside this loop.
func outerLoop(h *ssa.BasicBlock) bool {
	return loopDepth(h) == 1
}

func loopDepth(h *ssa.BasicBlock) int {
	d := 0
	for _, b := range h.Parent().Blocks {
		// b is a loop header dominating h with a back edge from a block h reaches
		if !b.Dominates(h) {
			continue
		}
		for _, p := range b.Preds {
			if b.Dominates(p) && (b == h || reachesWithout(h, p, b)) {
				d++
				break
			}
		}
	}
	return d
}

func reachesWithout(from, to, without *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{without: true}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, x := range b.Succs {
			if rec(x) {
				return true
			}
		}
		return false
	}
	return rec(from)
}

// p21rounding: bytes to sectors and back, and what is derived from them.
func (c *Check) p21rounding() {
	fn := c.P.Lookup(isoRel, "bytesToSectors")
	if fn == nil || len(fn.Params) != 1 {
		c.Bad("rounding", "bytesToSectors", "", "not found", nil)
	} else {
		key := c.P.FnName(fn)
		c.Ob("rounding", key, c.P.Pos(fn.Pos()))
		var b *Term
		s := c.Sim(Hooks{Inline: pkgInline(c), Branch: keepFacts(nil), Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			q := s.T.Quo(b, s.T.Int(sectorSize), b.typ)
			rem, empty := s.Eval(st, s.T.Eq(rem2048(s, b), s.T.Int(0))), s.Eval(st, s.T.Eq(q, s.T.Int(0)))
			none := s.Eval(st, s.T.Eq(b, s.T.Int(0)))
			k, ok := s.T.Sub(res[0], q).IntConst()
			switch {
			case ok && k == 0 && rem == 1 && (empty == 0 || none == 0):
			case ok && k == 1 && (rem == 0 || empty == 1):
			case res[0] == s.T.Int(1) && (empty == 1 || none == 1):
			default:
				c.Bad("rounding", key, c.P.InstrPos(in), "the number of sectors is not rounded up, at least one: "+res[0].String(), s.Path(st))
			}
		}})
		c.Run(s, fn, func(st *State, params, frees []*Term) { b = params[0] })
	}
	// a directory's size is what it writes, in whole sectors
	named := c.named(isoRel, "Directory")
	var size *ssa.Function
	if named != nil {
		size = c.P.Method(named, "Size")
	}
	if size == nil {
		c.Bad("rounding", "Directory.Size", "", "not found", nil)
		return
	}
	key := c.P.FnName(size)
	c.Ob("rounding", key, c.P.Pos(size.Pos()))
	var recv *Term
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && base(ev.Name) != "bytesToSectors" && base(ev.Name) != "WriteTo"
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "WriteTo" && ev.Args[0] == recv {
				st.marks["n"] = Mark{T: s.Res(ev, 0)}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			ok := false
			ms, k := s.T.toPoly(res[0])
			if len(ms) == 1 && ms[0].c == sectorSize && k == 0 && len(ms[0].a) == 1 {
				q := ms[0].a[0]
				if (q.op == OpOpaque || q.op == OpPure) && base(q.aux) == "bytesToSectors" && q.args[0] == st.marks["n"].T {
					ok = true
				}
			}
			if !ok {
				c.Bad("rounding", key, c.P.InstrPos(in), "the size is not the bytes written rounded up to sectors: "+res[0].String(), s.Path(st))
			}
		},
	})
	c.Run(s, size, func(st *State, params, frees []*Term) { recv = params[0] })
	// a continuation area takes its sectors
	if ca := c.named(isoRel, "ContinuationArea"); ca != nil {
		if fn := c.P.Method(ca, "Len"); fn != nil {
			key := c.P.FnName(fn)
			c.Ob("rounding", key, c.P.Pos(fn.Pos()))
			s := c.Sim(Hooks{Inline: pkgInline(c), Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				ms, k := s.T.toPoly(res[0])
				if len(ms) != 1 || ms[0].c != sectorSize || k != 0 || len(ms[0].a) != 1 || ms[0].a[0].op != OpLen {
					if s.Eval(st, s.T.Eq(res[0], s.T.Int(0))) != 1 {
						c.Bad("rounding", key, c.P.InstrPos(in), "the length is not that of the area's sectors: "+res[0].String(), s.Path(st))
					}
				}
			}})
			c.Run(s, fn, nil)
		}
	}
}

// p21tableSize: PathTableEncodedLen encodes the table it is given.
func (c *Check) p21tableSize() {
	fn := c.P.Lookup(isoRel, "PathTableEncodedLen")
	if fn == nil || len(fn.Params) != 1 {
		c.Bad("tablesize", "PathTableEncodedLen", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("tablesize", key, c.P.Pos(fn.Pos()))
	var par *Term
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool { return pkgInline(c)(s, st, ev) && base(ev.Name) != "Encode" },
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "Encode" && len(ev.Args) == 2 && ev.Args[1] == par {
				st.marks["n"] = Mark{T: s.Res(ev, 0)}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if res[0] != st.marks["n"].T {
				c.Bad("tablesize", key, c.P.InstrPos(in), "returns something else than the bytes encoded: "+res[0].String(), s.Path(st))
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) { par = params[0] })
	// what the volume announces
	n := 0
	for _, f := range c.P.Funcs {
		if c.P.Rel(f) != isoRel {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() != "PathTableSize" || hasIfaceParam(f, "Reader") {
					continue
				}
				n++
				v := st.Val
				if cv, ok := v.(*ssa.Convert); ok {
					v = cv.X
				}
				call, ok := v.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != fn {
					c.Bad("tablesize", c.P.FnName(f)+" PathTableSize", c.P.InstrPos(in), "the announced size of the path table is not the number of bytes its encoder produces", nil)
				}
			}
		}
	}
	if n == 0 {
		c.Bad("tablesize", "PathTableSize", "", "the size of the path table is never announced", nil)
	}
}

// atMost: a <= b, perhaps because a plus something known not to be negative is.
func (s *Sim) atMost(st *State, a, b *Term) bool {
	if s.Eval(st, s.T.Lt(b, a)) == 0 {
		return true
	}
	for k, m := range st.marks {
		if !strings.HasPrefix(k, "br:") || m.T.op != OpLt0 {
			continue
		}
		ms, _ := s.T.toPoly(m.T.args[0])
		for _, x := range ms {
			if len(x.a) == 1 && nonNegPhi(x.a[0]) && s.Eval(st, s.T.Lt(b, s.T.Add(a, x.a[0]))) == 0 {
				return true
			}
		}
	}
	return false
}

func nonNegPhi(t *Term) bool {
	ph, ok := t.instr.(*ssa.Phi)
	if t.op != OpPhi || !ok {
		return false
	}
	for _, e := range ph.Edges {
		if e == ssa.Value(ph) {
			continue
		}
		if k, ok := e.(*ssa.Const); !ok || k.Value == nil || k.Int64() < 0 {
			return false
		}
	}
	return true
}

// p21continuation: ContinuationArea.Append.
func (c *Check) p21continuation() {
	named := c.named(isoRel, "ContinuationArea")
	var fn *ssa.Function
	if named != nil {
		fn = c.P.Method(named, "Append")
	}
	ctor := c.P.Lookup(isoRel+"/susp", "NewContinuationAreaEntry")
	if fn == nil || ctor == nil {
		c.Bad("continuation", "Append", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("continuation", key, c.P.Pos(fn.Pos()))
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("continuation", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	n := 0
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: keepFacts(nil),
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OpFieldAddr || !isInt(deref(addr.typ)) || addr.args[0].op != OpIndexAddr {
				return
			}
			old := s.LoadAddr(st, addr, val.typ)
			st.marks["took"] = Mark{T: s.T.Sub(old, val)}
			st.marks["room"] = Mark{T: old}
			st.marks["at"] = Mark{T: addr.args[0].args[1]}
			if !s.atMost(st, s.T.Sub(old, val), old) {
				bad(s, st, in, "a sector may be given more than it has room for")
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Callee != ctor {
				return
			}
			n++
			took, room, at := st.marks["took"].T, st.marks["room"].T, st.marks["at"].T
			if took == nil {
				bad(s, st, ev.Site, "an area is announced without reserving room for it")
				return
			}
			if ev.Args[2] != took {
				bad(s, st, ev.Site, fmt.Sprintf("announces %s bytes where %s were reserved", ev.Args[2].String(), took.String()))
			}
			if ev.Args[1] != s.T.Sub(s.T.Int(sectorSize), room) {
				bad(s, st, ev.Site, "the announced offset is not where the sector's free room began: "+ev.Args[1].String())
			}
			start := s.T.Sub(ev.Args[0], at)
			if loadedField(start) == "" || namedOf(start.args[0].args[0].typ) != named {
				bad(s, st, ev.Site, "the announced block is not the sector the entries were put in: "+ev.Args[0].String())
			}
		},
	})
	c.Run(s, fn, nil)
	if n == 0 {
		c.Bad("continuation", key, c.P.Pos(fn.Pos()), "no continuation entry is made", nil)
	}
}

// p21spill: which entries stay and which move to a continuation area.
func (c *Check) p21spill(named *types.Named, method string) {
	var fn *ssa.Function
	if named != nil {
		fn = c.P.Method(named, method)
	}
	if fn == nil {
		c.Bad("spill", method, "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("spill", key, c.P.Pos(fn.Pos()))
	isEntry := func(t *Term) bool {
		n := namedOf(t.typ)
		return n != nil && n.Obj().Name() == "SystemUseEntry"
	}
	list := func(t *Term) bool {
		sl, ok := t.typ.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		n := namedOf(sl.Elem())
		return n != nil && n.Obj().Name() == "SystemUseEntry"
	}
	pops, recs := 0, 0
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && !c.P.IsTop(ev.Callee) && base(ev.Name) != "Len"
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "Len" && len(ev.Args) == 1 && isEntry(ev.Args[0]) {
				st.marks["len"] = Mark{T: ev.Result}
				st.marks["lenof"] = Mark{T: ev.Args[0]}
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			t := cond
			for t.op == OpNot {
				t, taken = t.args[0], !taken
			}
			if t.op != OpLt0 {
				return
			}
			sum := t.args[0]
			if !taken { // not(x < 0): -x-1 < 0
				sum = s.T.Sub(s.T.Int(-1), sum)
			}
			ms, k := s.T.toPoly(sum)
			pos := 0
			for _, m := range ms {
				if m.c == 1 && len(m.a) == 1 && (m.a[0].op == OpPhi || base(m.a[0].aux) == "Len") {
					pos++
				}
			}
			if pos > 0 && pos == len(ms) && k >= -256 && k < 0 {
				st.marks["fit"] = Mark{S: fmt.Sprint(pos)}
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Name != "append" || named.Obj().Name() == "ContinuationArea" {
				return
			}
			for _, v := range ev.VArgs[1:] {
				if n := namedOf(v.typ); n == nil || n.Obj().Name() != "DirectoryRecord" {
					continue
				}
				recs++
				f := st.marks["fit"].S
				if f == "" || f == "1" && st.marks["popped"].S != "" {
					c.Bad("spill", key+" record", c.P.InstrPos(ev.Site), "a record may be longer than its length field can hold", s.Path(st))
				}
				delete(st.marks, "fit")
				delete(st.marks, "popped")
			}
		},
		SliceEv: func(s *Sim, st *State, in *ssa.Slice, b, lo, hi *Term) {
			if !list(b) || hi == nil {
				return
			}
			if k, ok := s.T.Sub(s.Len(b), hi).IntConst(); !ok || k != 1 {
				return
			}
			st.marks["pop"] = Mark{S: st.marks["pop"].S + "x"}
			st.marks["poplist"] = Mark{T: b}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			ln := st.marks["len"].T
			pop := st.marks["pop"].S
			of := st.marks["lenof"].T
			plist := st.marks["poplist"].T
			for _, k := range []string{"len", "lenof", "pop", "poplist"} {
				delete(st.marks, k)
			}
			if pop == "" && ln == nil {
				return
			}
			pos := c.P.InstrPos(header.Instrs[len(header.Instrs)-1])
			if ln == nil {
				c.Bad("spill", key, pos, "an entry is moved on without giving up its length", s.Path(st))
				return
			}
			want := int64(1)
			if pop != "" {
				want = -1
				pops++
				st.marks["popped"] = Mark{S: "1"}
				if e := elemOf(of); e == nil || e.args[0] != plist || s.T.Sub(s.T.Add(e.args[1], s.T.Int(1)), s.Len(plist)) != s.T.Int(0) || pop != "x" {
					c.Bad("spill", key, pos, "the length given up is not that of the entry moved on", s.Path(st))
				}
			}
			ok, ce := false, false
			i := 0
			for _, in := range header.Instrs {
				ph, isPhi := in.(*ssa.Phi)
				if !isPhi {
					break
				}
				if isInt(ph.Type()) {
					ms, k0 := s.T.toPoly(s.loopVals[i])
					for _, m := range ms {
						if len(m.a) == 1 && m.a[0] == ln {
							ok = m.c == want && k0 == 0
						}
					}
					if k, isc := s.loopVals[i].IntConst(); isc && k == ceLen {
						ce = true
					}
				}
				i++
			}
			if !ok {
				c.Bad("spill", key, pos, "the room counted does not follow the entries' lengths", s.Path(st))
			}
			if pop != "" && !ce {
				c.Bad("spill", key, pos, "no room is kept for the entry pointing to the continuation", s.Path(st))
			}
		},
	})
	s.Depth = 8
	c.Run(s, fn, nil)
	if recs == 0 && named.Obj().Name() != "ContinuationArea" {
		c.Bad("spill", key, c.P.Pos(fn.Pos()), "no record is kept", nil)
	}
	if pops == 0 {
		c.Bad("spill", key, c.P.Pos(fn.Pos()), "no entry is ever moved on", nil)
	}
}

// ceLen: bytes of a continuation area entry, fixed by SUSP.
const ceLen = 28
