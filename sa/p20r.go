package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Decoders: reads are numbered in order; a value read is a term rd(k), so where it ends up is seen in the result.

const andTok = token.AND

type readEv struct {
	w     *Term // width; nil: the rest
	order string
	term  *Term // the value (rd(k)), or the buffer filled
	sub   bool
}

func readsOf(s *Sim, st *State) []readEv {
	var out []readEv
	for i := 0; i < seqLen(st); i++ {
		mk := st.marks[wkey(i)]
		out = append(out, readEv{order: mk.S, term: mk.T, w: st.marks["v"+wkey(i)].T, sub: mk.S == "sub"})
	}
	return out
}

func (l *lay) addRead(s *Sim, st *State, order string, w, t *Term) {
	n := seqLen(st)
	if n > 200 {
		l.fail(s, st, "reads an unbounded number of fields")
		st.dead = true
		return
	}
	st.marks[wkey(n)] = Mark{S: order, T: t}
	if w != nil {
		st.marks["v"+wkey(n)] = Mark{T: w}
	}
	st.marks["wn"] = Mark{S: fmt.Sprint(n + 1)}
}

func isEntryList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := namedOf(sl.Elem())
	return n != nil && n.Obj().Name() == "SystemUseEntry"
}

func decodesList(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && isEntryList(r.At(0).Type()) && hasIfaceParam(fn, "Reader")
}

func (l *lay) readHooks(h Hooks) Hooks {
	c := l.c
	h.Inline = func(s *Sim, st *State, ev *CallEv) bool {
		return c.P.IsModule(ev.Callee) && strings.HasPrefix(c.P.Rel(ev.Callee), isoRel) && c.P.Rel(ev.Callee) != isoRel+"/datetime" && !decodesList(ev.Callee) && !c.P.validates(ev.Callee) && !decodesRecord(ev.Callee)
	}
	post := h.PostCall
	h.Branch = keepFacts(h.Branch)
	h.PostCall = func(s *Sim, st *State, ev *CallEv) []*State {
		if ev.Inlined {
			if post != nil {
				return post(s, st, ev)
			}
			return nil
		}
		l.pos = c.P.InstrPos(ev.Site)
		ok := func() bool {
			if e := s.ErrRes(ev); e != nil {
				return s.Assume(st, s.T.IsNil(e), true)
			}
			return true
		}
		switch {
		case ev.Name == "encoding/binary.Read":
			ok()
			p := strip(ev.Args[2])
			w := fieldBits(deref(p.typ))
			if w == 0 {
				l.fail(s, st, "reads a value of unknown width")
				return nil
			}
			v := s.T.Pure("rd", deref(p.typ), s.T.Int(int64(seqLen(st))))
			s.StoreAddr(st, ev.Site, p, v)
			l.addRead(s, st, orderOf(ev.Args[1]), s.T.Int(int64(w/8)), v)
		case ev.Name == "io.ReadFull":
			ok()
			p := ev.Args[1]
			w := s.Len(p)
			v := p
			if p.op == OpSlice {
				lo, _ := p.args[1].IntConst()
				if at, isa := deref(p.args[0].typ).Underlying().(*types.Array); isa {
					if k, isc := p.args[2].IntConst(); !isc || k != at.Len() || lo != 0 {
						l.fail(s, st, "fills part of a buffer")
					}
					v = s.T.Pure("rda", deref(p.args[0].typ), s.T.Int(int64(seqLen(st))))
					s.StoreAddr(st, ev.Site, p.args[0], v)
				} else {
					v = p.args[0]
				}
			}
			l.addRead(s, st, "", w, v)
		case ev.Name == "io.CopyN":
			ok()
			l.addRead(s, st, "skip", ev.Args[2], nil)
		case ev.Name == "io/ioutil.ReadAll", ev.Name == "io.ReadAll":
			ok()
			l.addRead(s, st, "rest", nil, s.Res(ev, 0))
		case ev.Callee != nil && decodesList(ev.Callee):
			ok()
			l.addRead(s, st, "sub", nil, s.Res(ev, 0))
		case ev.Callee != nil && decodesRecord(ev.Callee):
			ok()
			r := strip(ev.Args[0])
			k := int64(-1)
			if (r.op == OpOpaque || r.op == OpPure) && r.aux == "io.LimitReader" {
				if v, isc := r.args[1].IntConst(); isc {
					k = v
				}
			}
			rec := ev.Args[1]
			if stt, isStruct := deref(rec.typ).Underlying().(*types.Struct); isStruct {
				for i := 0; i < stt.NumFields(); i++ {
					f := stt.Field(i)
					s.StoreAddr(st, ev.Site, s.T.FieldAddr(rec, i, f.Name(), types.NewPointer(f.Type())), s.T.Pure("rd", f.Type(), s.T.Int(int64(seqLen(st))), s.T.Const(constant.MakeString(f.Name()), types.Typ[types.String])))
				}
			}
			l.addRead(s, st, "record", s.T.Int(k), rec)
		case base(ev.Name) == "Read" && len(ev.Args) == 2:
			l.fail(s, st, "reads through "+ev.Name+", whose layout is unknown")
		}
		if post != nil {
			return post(s, st, ev)
		}
		return nil
	}
	return h
}

// decodesRecord: reads a directory record.
func decodesRecord(fn *ssa.Function) bool {
	ps := fn.Params
	if len(ps) != 2 || !hasIfaceParam(fn, "Reader") {
		return false
	}
	n := namedOf(ps[1].Type())
	return n != nil && n.Obj().Name() == "DirectoryRecord"
}

// validates: a predicate on a string.
func (p *Prog) validates(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() == 1 && isBool(r.At(0).Type()) && len(fn.Params) >= 1 && isBasic(types.String)(fn.Params[len(fn.Params)-1].Type())
}

// leaves: the reads a value is made of.
func leaves(s *Sim, st *State, reads []readEv, v *Term) map[int]bool {
	out := map[int]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpPure && (t.aux == "rd" || t.aux == "rda") {
			k, _ := t.args[0].IntConst()
			out[int(k)] = true
			return
		}
		for i, r := range reads {
			if r.term == t && (r.term.op != OpPure || r.term.aux != "rd" && r.term.aux != "rda") {
				out[i] = true
				return
			}
		}
		if t.op == OpAlloc {
			rec(st.cells[t])
			return
		}
		if t.op == OpMake {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, a := range m {
				rec(a)
			}
		}
	}
	rec(v)
	return out
}

// fieldTerm: the value at a dotted field path.
func fieldTerm(s *Sim, st *State, a *Term, t types.Type, path string) (*Term, types.Type) {
	for _, n := range strings.Split(path, ".") {
		stt, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		found := false
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == n {
				t = stt.Field(i).Type()
				a = s.T.FieldAddr(a, i, n, types.NewPointer(t))
				found = true
				break
			}
		}
		if !found {
			return nil, nil
		}
	}
	return s.LoadAddr(st, a, t), t
}

// matchReads compares the reads of a path with the prescribed fields.
func (l *lay) matchReads(s *Sim, st *State, sp *structSpec, obj *Term, named *types.Named) string {
	reads := readsOf(s, st)
	pos := 0
	consts := 0 // bytes of fixed contents still to be consumed
	lens := map[string]int{}
	flags := -1
	where := map[string][]int{}
	skip := sp.skip
	paths := map[string]string{}
	for f, p := range l.ctor {
		paths[p] = f
	}
	settle := func() string { // fixed contents may be read in pieces of any size
		for consts > 0 {
			if pos >= len(reads) {
				return fmt.Sprintf("%d bytes of fixed contents are not read", consts)
			}
			k, ok := int64(0), false
			if reads[pos].w != nil {
				k, ok = reads[pos].w.IntConst()
			}
			if !ok || int(k) > consts {
				return fmt.Sprintf("read %d takes %s bytes where %d of fixed contents are left", pos, show(reads[pos].w), consts)
			}
			consts -= int(k)
			pos++
		}
		return ""
	}
	take := func(w int64, order string, name string) string {
		if m := settle(); m != "" {
			return m
		}
		if pos >= len(reads) {
			return "not read"
		}
		r := reads[pos]
		k, ok := int64(0), false
		if r.w != nil {
			k, ok = r.w.IntConst()
		}
		if !ok || k != w {
			return fmt.Sprintf("%s bytes are read instead of %d", show(r.w), w)
		}
		if order != "" && r.order != order {
			return fmt.Sprintf("read in byte order %q instead of %q", r.order, order)
		}
		where[name] = append(where[name], pos)
		pos++
		return ""
	}
	flagOn := func(bit int64) int {
		if flags < 0 {
			return -1
		}
		f := reads[flags].term
		v := s.T.Pure("elem", types.Typ[types.Uint8], f, s.T.Int(0))
		if f.op == OpPure && f.aux == "rd" {
			v = f
		}
		m := s.binop(andTok, v, s.T.Int(bit), types.Typ[types.Uint8], types.Typ[types.Uint8])
		r := s.Eval(st, s.T.Eq(m, s.T.Int(0)))
		if r < 0 {
			return r
		}
		return 1 - r
	}
	items := sp.items
	if sp.ditems != nil {
		items = sp.ditems
	}
	for i, it := range items {
		msg := ""
		if skip > 0 {
			switch it.k {
			case "c":
				skip -= len(it.s)
			case "len":
				skip--
			}
			continue
		}
		switch it.k {
		case "c":
			consts += len(it.s)
		case "z", "sp":
			consts += it.n
		case "len":
			consts++
		case "M":
			consts += 17
		case "rec":
			if msg = take(33, "record", "record"); msg == "" {
				for f, from := range map[string]string{"RootStart": "Start", "RootLength": "Length", "RootModified": "Recorded"} {
					v, _ := fieldTerm(s, st, obj, named, f)
					for v != nil && v.op == OpConv {
						v = v.args[0]
					}
					if v == nil || v.op != OpPure || v.aux != "rd" || len(v.args) != 2 {
						msg = f + " is not taken from the root's record"
					} else if n, _ := v.args[1].StrConst(); n != from {
						msg = f + " is taken from the record's " + n
					}
				}
			}
		case "A", "D":
			msg = take(int64(it.n), "", it.v)
		case "by":
			msg = take(1, "", it.v)
		case "E":
			msg = take(7, "", it.v)
		case "X":
			msg = take(17, "", it.v)
		case "b16", "b32":
			w, _ := strconv.Atoi(it.k[1:])
			if msg = take(int64(w/8), "le", it.v); msg == "" {
				msg = take(int64(w/8), "be", it.v)
			}
		case "le32", "be32":
			msg = take(4, it.k[:2], it.v)
		case "ln":
			msg = take(1, "", "len "+it.v)
			lens[it.v] = pos - 1
		case "st":
			if msg = settle(); msg != "" {
				break
			}
			if pos >= len(reads) {
				msg = "not read"
				break
			}
			r := reads[pos]
			k, has := lens[it.v]
			switch {
			case r.order == "rest":
			case has && r.w != nil:
				lv := leaves(s, st, reads, r.w)
				if len(lv) != 1 || !lv[k] || len(termConsts(r.w)) > 0 {
					msg = fmt.Sprintf("%s bytes are read instead of as many as announced", show(r.w))
				}
			default:
				msg = "the number of bytes read is not the one announced"
			}
			where[it.v] = append(where[it.v], pos)
			pos++
		case "pad0":
			if msg = settle(); msg != "" {
				break
			}
			k, has := lens[it.v]
			if !has {
				break
			}
			f := reads[k].term
			v := s.T.Pure("elem", types.Typ[types.Uint8], f, s.T.Int(0))
			rem := s.T.Sub(v, s.T.Mul(s.T.Int(2), s.T.Quo(v, s.T.Int(2), v.typ)))
			want := s.Eval(st, s.T.Eq(rem, s.T.Int(0)))
			got := pos < len(reads) && !reads[pos].sub
			if want < 0 {
				msg = "whether a padding byte is read does not depend on the name's length being even"
			} else if want == 1 {
				msg = take(1, "", "padding")
			} else if got {
				msg = "a padding byte is read after a name that needs none"
			}
		case "fl":
			msg = take(1, "", "flags")
			flags = pos - 1
			for _, b := range it.bits {
				where[b.v] = append(where[b.v], flags)
			}
		case "ts":
			bit := int64(0)
			for _, b := range tfBits {
				if b.v == it.v {
					bit = b.bit
				}
			}
			on, long := flagOn(bit), flagOn(0x80)
			delete(where, it.v)
			switch {
			case on < 0:
				msg = fmt.Sprintf("read whether flag %#x is set or not", bit)
			case on == 0:
				v, _ := fieldTerm(s, st, obj, named, it.v)
				if v == nil || s.Eval(st, s.T.IsNil(v)) != 1 {
					msg = "set although not present"
				}
			case long < 0:
				msg = "the form read does not depend on flag 0x80"
			default:
				msg = take(map[int]int64{0: 7, 1: 17}[long], "", it.v)
			}
		case "subs":
			if m := settle(); m != "" {
				msg = m
				break
			}
			if pos >= len(reads) || !reads[pos].sub {
				msg = "the entries are not read"
				break
			}
			where[it.v] = append(where[it.v], pos)
			pos++
		}
		if msg != "" {
			return fmt.Sprintf("field %d (%s %s): %s", i, it.k, it.v, msg)
		}
	}
	if m := settle(); m != "" {
		return m
	}
	// entries after the root's record are none of the descriptor's fields
	rest := 0
	for _, r := range reads[pos:] {
		if !r.sub {
			rest++
		}
	}
	if rest > 0 {
		return fmt.Sprintf("%d fields more are read than the structure holds", rest)
	}
	for _, name := range sortedKeys(where) {
		at := where[name]
		if strings.HasPrefix(name, "len ") || name == "flags" || name == "padding" || name == "record" {
			continue
		}
		path := name
		if p, ok := paths[name]; ok {
			path = p
		}
		v, t := fieldTerm(s, st, obj, named, path)
		if v == nil {
			return "the structure has no field " + name
		}
		lv := leaves(s, st, reads, v)
		okk := len(lv) > 0
		for k := range lv {
			in := false
			for _, a := range at {
				if a == k {
					in = true
				}
			}
			if !in {
				okk = false
			}
		}
		if isBool(t) && !okk { // decided on this path
			for _, it := range sp.items {
				for _, b := range it.bits {
					if b.v != name {
						continue
					}
					if on := flagOn(b.bit); on >= 0 && s.Eval(st, v) == on {
						okk = true
					}
				}
			}
		}
		if isBool(t) && okk && len(lv) > 0 {
			for _, it := range sp.items {
				for _, b := range it.bits {
					if b.v == name {
						on := s.T.Not(s.T.Eq(s.binop(andTok, s.T.Pure("elem", types.Typ[types.Uint8], reads[flags].term, s.T.Int(0)), s.T.Int(b.bit), types.Typ[types.Uint8], types.Typ[types.Uint8]), s.T.Int(0)))
						if v != on && v != s.T.Eq(s.binop(andTok, s.T.Pure("elem", types.Typ[types.Uint8], reads[flags].term, s.T.Int(0)), s.T.Int(b.bit), types.Typ[types.Uint8], types.Typ[types.Uint8]), s.T.Int(b.bit)) {
							return fmt.Sprintf("%s is not taken from flag %#x: %s", name, b.bit, v.String())
						}
					}
				}
			}
		}
		if !okk {
			return fmt.Sprintf("%s does not get the value read for it (%s)", name, v.String())
		}
	}
	return ""
}

func show(t *Term) string {
	if t == nil {
		return "all"
	}
	return t.String()
}

// termConsts: non-zero constants added in a width.
func termConsts(t *Term) []int64 {
	if t.op == OpPoly || t.op == OpConst {
		return []int64{1}
	}
	return nil
}

func (c *Check) p20decoders() {
	type dec struct {
		name string
		typ  string
	}
	for _, d := range []dec{{"DecodePrimaryVolumeDescriptor", "PrimaryVolumeDescriptor"}, {"DecodeDirectoryRecord", "DirectoryRecord"}} {
		fn := c.P.Lookup(isoRel, d.name)
		named := c.named(isoRel, d.typ)
		if fn == nil || named == nil || len(fn.Params) != 2 {
			c.Bad("decoder", d.name, "", "decoder not found", nil)
			continue
		}
		c.p20decoder(fn, named)
	}
	c.p20dispatch()
}

// p20decoder follows one decoder; it returns the type decoded.
func (c *Check) p20decoder(fn *ssa.Function, named *types.Named) *types.Named {
	key := c.P.FnName(fn)
	c.Ob("decoder", key, c.P.Pos(fn.Pos()))
	l := &lay{c: c, rule: "decoder", key: key, pos: c.P.Pos(fn.Pos())}
	ctors := map[*types.Named]map[string]string{}
	var obj *Term
	n := 0
	s := l.sim(l.readHooks(Hooks{Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
		if !s.succeeds(st, in, res) {
			return
		}
		l.pos = c.P.InstrPos(in)
		n++
		o, nm := obj, named
		if o == nil {
			o = res[0]
			for o.op == OpMkIface || o.op == OpConv {
				o = o.args[0]
			}
			nm = namedOf(deref(o.typ))
			if named == nil {
				named = nm
			}
			if nm != named {
				l.fail(s, st, "returns entries of different types")
				return
			}
		}
		sp := c.p20specOf(nm)
		if sp == nil {
			l.fail(s, st, "returns "+o.String()+", which is not a known structure")
			return
		}
		if ctors[nm] == nil {
			ctors[nm] = c.ctorMap(sp)
		}
		l.ctor = ctors[nm]
		if msg := l.matchReads(s, st, sp, o, nm); msg != "" {
			l.fail(s, st, msg)
		}
	}}))
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		if len(params) == 2 {
			obj = params[1]
			st.marks["obj"] = Mark{T: obj}
		}
	})
	if n == 0 {
		l.fail(s, &State{}, "no successful path found")
	}
	return named
}

// p20dispatch: DecodeSystemUseEntries.
func (c *Check) p20dispatch() {
	var fns []*ssa.Function
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) == isoRel && decodesList(fn) && c.P.IsTop(fn) {
			fns = append(fns, fn)
		}
	}
	if len(fns) == 0 {
		c.Bad("dispatch", "DecodeSystemUseEntries", "", "no decoder of entry lists found", nil)
		return
	}
	type found struct {
		sig string
		fn  *ssa.Function
	}
	got := map[found]string{}
	isDec := func(fn *ssa.Function) bool {
		if fn == nil || !c.P.IsModule(fn) || !hasIfaceParam(fn, "Reader") {
			return false
		}
		r := fn.Signature.Results()
		if r.Len() == 0 {
			return false
		}
		n := namedOf(deref(r.At(0).Type()))
		return n != nil && (n.Obj().Name() == "SystemUseEntry" || c.p20specOf(n) != nil)
	}
	for _, fn := range fns {
		key := c.P.FnName(fn)
		l := &lay{c: c, rule: "dispatch", key: key, pos: c.P.Pos(fn.Pos())}
		h := Hooks{
			Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
				t := cond
				for t.op == OpNot {
					t = t.args[0]
					taken = !taken
				}
				if t.op == OpEq && taken {
					for _, a := range t.args {
						if k, ok := a.StrConst(); ok && len(k) == 2 {
							st.marks["sig"] = Mark{S: k}
						}
					}
				}
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Name == "io.LimitReader" {
					reads := readsOf(s, st)
					lim := ev.Args[1]
					d := s.T.Add(lim, s.T.Int(3))
					lv := leaves(s, st, reads, d)
					if len(reads) < 3 || len(lv) != 1 || !lv[2] || d.op == OpPoly {
						c.Bad("dispatch", key+" limit", c.P.InstrPos(ev.Site), "an entry's body is not limited to its announced length less the three bytes before it: "+lim.String(), s.Path(st))
					}
					st.marks["limited"] = Mark{S: "1"}
				}
				if isDec(ev.Callee) {
					sig := st.marks["sig"].S
					if sig == "" {
						c.Bad("dispatch", c.P.FnName(ev.Callee), c.P.InstrPos(ev.Site), "called whatever the signature is", s.Path(st))
					}
					if st.marks["limited"].S == "" {
						c.Bad("dispatch", key+" limit", c.P.InstrPos(ev.Site), "an entry is decoded without limiting it to its announced length", s.Path(st))
					}
					got[found{sig, ev.Callee}] = c.P.InstrPos(ev.Site)
				}
				if ev.Name == "append" {
					if e := st.marks["entry"].T; e != nil {
						for _, v := range ev.VArgs[1:] {
							if strip(v) == strip(e) {
								delete(st.marks, "entry")
							}
						}
					}
				}
			},
			BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
				if e := st.marks["entry"].T; e != nil && s.Eval(st, s.T.IsNil(e)) != 1 {
					c.Bad("dispatch", key+" kept", c.P.Pos(fn.Pos()), "a decoded entry is dropped", s.Path(st))
				}
				clearSeq(st)
				delete(st.marks, "sig")
				delete(st.marks, "entry")
				delete(st.marks, "limited")
			},
		}
		h.PostCall = func(s *Sim, st *State, ev *CallEv) []*State {
			if isDec(ev.Callee) && !ev.Inlined {
				s.Assume(st, s.T.IsNil(s.ErrRes(ev)), true)
				st.marks["entry"] = Mark{T: s.Res(ev, 0)}
			}
			return nil
		}
		h = l.readHooks(h)
		inl := h.Inline
		h.Inline = func(s *Sim, st *State, ev *CallEv) bool { return !isDec(ev.Callee) && inl(s, st, ev) }
		s := l.sim(h)
		c.Run(s, fn, nil)
	}
	decoded := map[*ssa.Function]*types.Named{}
	sigs := map[string]bool{}
	for f, pos := range got {
		nm, ok := decoded[f.fn]
		if !ok {
			nm = c.p20decoder(f.fn, nil)
			decoded[f.fn] = nm
		}
		c.Ob("dispatch", f.sig, pos)
		sp := c.p20specOf(nm)
		if sp == nil || sp.items[0].s != f.sig {
			c.Bad("dispatch", f.sig, pos, fmt.Sprintf("signature %q is decoded by %s, which is for another entry", f.sig, c.P.FnName(f.fn)), nil)
		}
		sigs[f.sig] = true
	}
	for i := range structSpecs {
		if sp := &structSpecs[i]; sp.skip == 3 && !sigs[sp.items[0].s] {
			c.Bad("dispatch", sp.items[0].s, "", "entries with this signature are written but not decoded", nil)
		}
	}
}

func sortedKeys(m map[string][]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
