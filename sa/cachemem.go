package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P07: the memory cache.

// fieldBy: the name of the only field of the struct whose type satisfies f.
func fieldBy(n *types.Named, f func(t types.Type) bool) string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	name := ""
	for i := 0; i < st.NumFields(); i++ {
		if f(st.Field(i).Type()) {
			if name != "" {
				return ""
			}
			name = st.Field(i).Name()
		}
	}
	return name
}

func isBytes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte])
}

func isBasic(k types.BasicKind) func(t types.Type) bool {
	return func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
}

func isFuncType(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

// fieldLoad: t is the value of field name of the object base (nil: any base); returns the base.
func fieldLoad(t *Term, name string) *Term {
	if t != nil && t.op == OpLoad && t.args[0].op == OpFieldAddr && t.args[0].aux == name {
		return t.args[0].args[0]
	}
	return nil
}

// pkgNamed: the named struct types of a package.
func (p *Prog) pkgNamed(rel string) []*types.Named {
	var out []*types.Named
	for _, n := range p.named {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == p.Mod+"/"+rel {
			if _, ok := n.Underlying().(*types.Struct); ok {
				out = append(out, n)
			}
		}
	}
	return out
}

var verbRE = regexp.MustCompile(`%[#+]?[a-zA-Z%]`)

// keyFormat checks that a format renders its arguments unambiguously: one plain verb per argument, separated by text.
func keyFormat(f string, nargs int) string {
	idx := verbRE.FindAllStringIndex(f, -1)
	n, last := 0, -1
	for _, i := range idx {
		if f[i[1]-1] == '%' {
			continue
		}
		if last == i[0] {
			return "two values are rendered without text between them"
		}
		n, last = n+1, i[1]
	}
	if n != nargs || strings.Count(strings.ReplaceAll(f, "%%", ""), "%") != nargs {
		return fmt.Sprintf("the format %q does not render its %d arguments with plain verbs", f, nargs)
	}
	return ""
}

type memShape struct{ buf, mu, data, key, n string }

func checkP07(c *Check) {
	c.Rule("valid", "bytes are copied out of a cache buffer only under its lock and after its key was found equal to the requested one or it was just filled for it", 1)
	c.Rule("length", "the bytes copied out end at the number of bytes really read", 1)
	c.Rule("filled", "a buffer is released recording a key only if that key's data was read into it, with the count the fill returned", 2)
	c.Rule("failed-fill", "a buffer whose fill failed is released marked as holding nothing", 2)
	c.Rule("block-key", "the key of a block is made of the object's URL and the block's position and length", 1)
	c.Rule("block-fill", "the fill function reads exactly the block named by the key, completely, and reports failure otherwise", 1)
	const rel = "pkg/caching"
	var bufs []*types.Named
	var shape memShape
	for _, n := range c.P.pkgNamed(rel) {
		sh := memShape{n.Obj().Name(), fieldBy(n, isMutexType), fieldBy(n, isBytes), fieldBy(n, isBasic(types.String)), fieldBy(n, isBasic(types.Int))}
		if sh.mu != "" && sh.data != "" && sh.key != "" && sh.n != "" {
			bufs = append(bufs, n)
			shape = sh
		}
	}
	if len(bufs) != 1 {
		c.Bad("undecided", "cache buffer", "?", fmt.Sprintf("%d types with a lock, data, a key and a length were found in %s, one is expected", len(bufs), rel), nil)
		return
	}
	bufT := bufs[0]
	si := c.P.Iface(rel, "Slice")
	sli := c.P.Iface(rel, "Slicer")
	if si == nil || sli == nil {
		c.Bad("undecided", "Slice", "?", "the slice interfaces were not found", nil)
		return
	}
	p7 := &p07{c: c, sh: shape, bufT: bufT}
	usesBuf := func(fn *ssa.Function) bool { return c.P.mentions(fn, bufT, rel) }
	n := 0
	for _, sl := range c.P.Implementers(si) {
		if strings.HasSuffix(c.P.relPkg(sl), "/mock") || !strings.HasPrefix(c.P.relPkg(sl), rel) {
			continue
		}
		for _, m := range c.P.methods(sl) {
			if usesBuf(m) {
				p7.slice(sl, m)
				n++
			}
		}
	}
	for _, sl := range c.P.Implementers(sli) {
		m := c.P.Method(sl, "Slice")
		if m == nil || !c.P.IsModule(m) || c.P.Rel(m) != rel {
			continue
		}
		p7.slicer(m)
	}
	// every method of the buffer itself is analysed through the slices; anything else reading it is not
	p7.rest(usesBuf)
	c.Ob("valid", "methods of slices that use a buffer: "+fmt.Sprint(n), "?")
}

// methods: the declared methods of a named type.
func (p *Prog) methods(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.SSA.FuncValue(n.Method(i)); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

func (p *Prog) relPkg(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return strings.TrimPrefix(n.Obj().Pkg().Path(), p.Mod+"/")
}

// mentions: fn or what it calls in the package (closures included) accesses a field of the type.
func (p *Prog) mentions(fn *ssa.Function, n *types.Named, rel string) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !p.IsModule(f) || p.Rel(f) != rel {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && namedOf(deref(fa.X.Type())) == n {
					return true
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

type p07 struct {
	c       *Check
	sh      memShape
	bufT    *types.Named
	keyOf   map[*types.Named]string
	covered map[*ssa.Function]bool
}

func (x *p07) slice(sl *types.Named, m *ssa.Function) {
	c, sh := x.c, x.sh
	keyF, fillF := fieldBy(sl, isBasic(types.String)), fieldBy(sl, isFuncType)
	key := c.P.FnName(m)
	if keyF == "" || fillF == "" {
		c.Bad("undecided", key, c.P.Pos(m.Pos()), "the slice type does not have one key and one fill function", nil)
		return
	}
	var K *Term // requested key
	var recv *Term
	isBuf := func(t *Term) bool { return t != nil && namedOf(deref(t.typ)) == x.bufT }
	id := func(pre string, b *Term) string { return fmt.Sprintf("%s:%d", pre, b.id) }
	// bufOf: the buffer whose bytes the term gives access to
	bufOf := func(t *Term) *Term {
		t = strip(t)
		if t.op == OpSlice {
			t = t.args[0]
		}
		if b := fieldLoad(t, sh.data); b != nil && isBuf(b) {
			return b
		}
		return nil
	}
	load := func(s *Sim, st *State, b *Term, f string) *Term {
		stt := x.bufT.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == f {
				return s.LoadAddr(st, s.T.FieldAddr(b, i, f, types.NewPointer(stt.Field(i).Type())), stt.Field(i).Type())
			}
		}
		return nil
	}
	released := func(s *Sim, st *State, b *Term, pos string) {
		mk, ok := st.marks[id("S", b)]
		if !ok {
			return
		}
		k, n := load(s, st, b, sh.key), load(s, st, b, sh.n)
		switch mk.S {
		case "pending":
			c.Ob("filled", key, pos)
			if v, ok := k.StrConst(); !ok || v != "" {
				c.Bad("filled", key, pos, "the buffer is released recording a key although nothing was read into it for that key", s.Path(st))
			}
		case "failed":
			c.Ob("failed-fill", key, pos)
			if v, ok := k.StrConst(); !ok || v != "" {
				c.Bad("failed-fill", key, pos, "the buffer is released still recording a key after its fill failed: the next reader is served bytes that were never read", s.Path(st))
			}
		case "filled":
			c.Ob("filled", key, pos)
			if k != K && s.Eval(st, s.T.Eq(k, K)) != 1 {
				c.Bad("filled", key, pos, "the buffer was filled for the requested block but does not record its key", s.Path(st))
			}
			if n != mk.T && s.Eval(st, s.T.Eq(n, mk.T)) != 1 {
				c.Bad("filled", key, pos, "the number of valid bytes recorded is not the one the fill returned", s.Path(st))
			}
		}
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			pos := c.P.InstrPos(ev.Site)
			if lockOps[ev.Name] == "uw" && len(ev.Args) > 0 && ev.Args[0].op == OpFieldAddr && isBuf(ev.Args[0].args[0]) {
				b := ev.Args[0].args[0]
				released(s, st, b, pos)
				delete(st.marks, id("L", b))
				delete(st.marks, id("S", b))
				return
			}
			if ev.Callee != nil && c.P.IsModule(ev.Callee) && c.P.Rel(ev.Callee) == c.P.Rel(m) {
				return
			}
			for i, a := range ev.Args {
				b := bufOf(a)
				if b == nil {
					continue
				}
				if ev.Name == "copy" {
					if i == 0 {
						c.Bad("filled", key, pos, "bytes are copied into the buffer outside its fill function", s.Path(st))
						continue
					}
					c.Ob("valid", key, pos)
					c.Ob("length", key, pos)
					if _, ok := st.marks[id("L", b)]; !ok {
						c.Bad("valid", key, pos, "bytes are copied out of the buffer without holding its lock", s.Path(st))
						continue
					}
					k := load(s, st, b, sh.key)
					if k != K && s.Eval(st, s.T.Eq(k, K)) != 1 {
						c.Bad("valid", key, pos, "bytes are copied out of the buffer without knowing that it holds the requested block", s.Path(st))
					}
					if mk, ok := st.marks[id("S", b)]; ok && mk.S != "filled" {
						c.Bad("valid", key, pos, "bytes are copied out of the buffer although its fill "+map[string]string{"pending": "did not happen", "failed": "failed"}[mk.S], s.Path(st))
					}
					n := load(s, st, b, sh.n)
					if !(a.op == OpSlice && (a.args[2] == n || s.Eval(st, s.T.Eq(a.args[2], n)) == 1)) {
						c.Bad("length", key, pos, "the copy is not limited to the bytes that were read into the buffer", s.Path(st))
					}
					continue
				}
				if ev.Fun != nil && ev.Callee == nil && fieldLoad(ev.Fun, fillF) == recv {
					continue // handled after the call
				}
				if ev.Name == "len" || ev.Name == "cap" {
					continue
				}
				c.Bad("valid", key, pos, "the buffer's bytes are handed to "+ev.Name, s.Path(st))
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if lockOps[ev.Name] == "w" && len(ev.Args) > 0 && ev.Args[0].op == OpFieldAddr && isBuf(ev.Args[0].args[0]) {
				b := ev.Args[0].args[0]
				st.marks[id("L", b)] = Mark{T: b}
				return nil
			}
			if ev.Fun != nil && ev.Callee == nil && len(ev.Args) == 1 {
				b := bufOf(ev.Args[0])
				if b == nil {
					return nil
				}
				pos := c.P.InstrPos(ev.Site)
				if _, ok := st.marks[id("L", b)]; !ok {
					c.Bad("valid", key, pos, "the buffer is filled without holding its lock", s.Path(st))
				}
				if fieldLoad(ev.Fun, fillF) != recv {
					c.Bad("filled", key, pos, "the buffer is filled by something other than the slice's fill function", s.Path(st))
				}
				if !(ev.Args[0].op == OpLoad || ev.Args[0].op == OpSlice && ev.Args[0].args[1] == s.T.Int(0)) {
					c.Bad("filled", key, pos, "the fill does not start at the beginning of the buffer", s.Path(st))
				}
				out := s.fork(st, ev, func(o *State) { o.marks[id("S", b)] = Mark{S: "failed"} })
				st.marks[id("S", b)] = Mark{S: "filled", T: s.Res(ev, 0)}
				return out
			}
			return nil
		},
		Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
			if addr.op == OpFieldAddr && addr.aux == sh.key && isBuf(addr.args[0]) {
				st.marks[id("k", addr.args[0])] = Mark{T: val}
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OpFieldAddr || !isBuf(addr.args[0]) || addr.args[0].op == OpAlloc {
				return
			}
			b := addr.args[0]
			pos := c.P.InstrPos(in)
			switch addr.aux {
			case sh.key:
				if v, ok := val.StrConst(); ok && v == "" {
					if _, ok := st.marks[id("S", b)]; !ok {
						st.marks[id("S", b)] = Mark{S: "pending"}
					}
					return
				}
				if mk := st.marks[id("S", b)]; mk.S != "filled" && mk.S != "failed" {
					st.marks[id("S", b)] = Mark{S: "pending"}
				}
			case sh.data:
				c.Bad("filled", key, pos, "the buffer's memory is replaced", s.Path(st))
			}
			if _, ok := st.marks[id("L", b)]; !ok {
				c.Bad("valid", key, pos, "the buffer's state is changed without holding its lock", s.Path(st))
			}
		},
		Index: func(s *Sim, st *State, in ssa.Instruction, base, idx *Term) {
			if b := bufOf(base); b != nil {
				c.Bad("valid", key, c.P.InstrPos(in), "single bytes of the buffer are accessed", s.Path(st))
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			for _, r := range res {
				if bufOf(r) != nil {
					c.Bad("valid", key, c.P.InstrPos(in), "the buffer's bytes are handed to the caller without a copy", s.Path(st))
				}
			}
			for k, mk := range st.marks {
				if strings.HasPrefix(k, "L:") {
					released(s, st, mk.T, c.P.InstrPos(in))
				}
			}
		},
	})
	s.Depth = 8
	c.Run(s, m, func(st *State, ps, fs []*Term) {
		recv = ps[0]
		st.marks["recv"] = Mark{T: recv}
		stt := sl.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == keyF {
				K = s.LoadAddr(st, s.T.FieldAddr(recv, i, keyF, types.NewPointer(stt.Field(i).Type())), stt.Field(i).Type())
			}
		}
		st.marks["K"] = Mark{T: K}
	})
}

// rest: functions outside the slices' methods that touch a buffer must be reached only through them.
func (x *p07) rest(uses func(*ssa.Function) bool) {
	c := x.c
	c.Rule("own-memory", "every buffer is made with memory of its own", 1)
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != "pkg/caching" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || namedOf(deref(fa.X.Type())) != x.bufT {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					x.ownData(fn, fa)
					continue
				}
				if c.Fns[fn] {
					continue
				}
				c.Bad("valid", c.P.FnName(fn), c.P.InstrPos(in), "a cache buffer is accessed by a function that is not part of reading a slice", nil)
			}
		}
	}
}

// ownData: the memory given to a new buffer is made for it.
func (x *p07) ownData(fn *ssa.Function, fa *ssa.FieldAddr) {
	if x.bufT.Underlying().(*types.Struct).Field(fa.Field).Name() != x.sh.data {
		return
	}
	c := x.c
	for _, r := range derefs(fa) {
		st, ok := r.(*ssa.Store)
		if !ok || st.Addr != fa {
			continue
		}
		c.Ob("own-memory", c.P.FnName(fn), c.P.InstrPos(st))
		if !freshBytes(c.P, st.Val, 0) {
			c.Bad("own-memory", c.P.FnName(fn), c.P.InstrPos(st), "a buffer's memory is not made for it alone: filling one buffer changes what another serves", nil)
		}
	}
}

// freshBytes: the value is a slice made here (or by a helper for each call).
func freshBytes(p *Prog, v ssa.Value, d int) bool {
	switch v := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok {
			return a != nil
		}
		return freshBytes(p, v.X, d)
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !freshBytes(p, e, d+1) {
				return false
			}
		}
		return d < 5
	case *ssa.Parameter:
		// each caller makes it
		if d > 3 || len(p.callers[v.Parent()]) == 0 || p.addrOf[v.Parent()] {
			return false
		}
		for i, pa := range v.Parent().Params {
			if pa != v {
				continue
			}
			for _, cs := range p.callers[v.Parent()] {
				if !freshBytes(p, cs.Common().Args[i], d+1) {
					return false
				}
			}
		}
		return true
	case *ssa.Call:
		sc := v.Common().StaticCallee()
		if sc == nil || !p.IsModule(sc) || d > 3 {
			return false
		}
		for _, b := range sc.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && !freshBytes(p, r.Results[0], d+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// slicer: the slicer builds a slice whose key and fill function name the same block.
func (x *p07) slicer(m *ssa.Function) {
	c := x.c
	key := c.P.FnName(m)
	type made struct {
		key, fill *Term
		st        *State
		in        *ssa.Return
		s         *Sim
	}
	found := false
	var obj, off *Term
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			sl := strip(res[0])
			n := namedOf(deref(sl.typ))
			if n == nil || fieldBy(n, isFuncType) == "" {
				return
			}
			found = true
			pos := c.P.InstrPos(in)
			get := func(f string) *Term {
				stt := n.Underlying().(*types.Struct)
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() == f {
						return s.LoadAddr(st, s.T.FieldAddr(sl, i, f, types.NewPointer(stt.Field(i).Type())), stt.Field(i).Type())
					}
				}
				return nil
			}
			k, fill := get(fieldBy(n, isBasic(types.String))), get(fieldBy(n, isFuncType))
			c.Ob("block-key", key, pos)
			size := x.key(s, st, key, pos, k, obj, off)
			if size == nil {
				return
			}
			c.Ob("block-fill", key, pos)
			if fill.op != OpClosure {
				c.Bad("block-fill", key, pos, "the fill function is not known", s.Path(st))
				return
			}
			// values the closure captured
			var vals []*Term
			for i, a := range fill.args {
				t := fill.fn.FreeVars[i].Type()
				if pt, ok := t.Underlying().(*types.Pointer); ok && (a.op == OpAlloc || a.op == OpNew) {
					vals = append(vals, s.LoadAddr(st, a, pt.Elem()))
				} else {
					vals = append(vals, a)
				}
			}
			x.fill(key, fill.fn, vals, obj, off, size)
		},
	})
	c.Run(s, m, func(st *State, ps, fs []*Term) {
		obj, off = ps[1], ps[2]
		st.marks["obj"] = Mark{T: obj}
		st.marks["off"] = Mark{T: off}
	})
	_ = found
}

// key checks that the key term is made of URL, offset and length (or end) of the block, and returns the length.
func (x *p07) key(s *Sim, st *State, key, pos string, k, obj, off *Term) []*Term {
	return blockKey(x.c, "block-key", s, st, key, pos, k, obj, off)
}

func blockKey(c *Check, rule string, s *Sim, st *State, key, pos string, k, obj, off *Term) []*Term {
	if (k.op != OpPure && k.op != OpOpaque) || k.aux != "fmt.Sprintf" || len(k.args) < 1 {
		c.Bad(rule, key, pos, "the block's key is not built in a way the analysis understands ("+k.String()+")", s.Path(st))
		return nil
	}
	f, ok := k.args[0].StrConst()
	if !ok {
		c.Bad(rule, key, pos, "the block's key has no constant format", s.Path(st))
		return nil
	}
	if msg := keyFormat(f, len(k.args)-1); msg != "" {
		c.Bad(rule, key, pos, "two blocks can have one key: "+msg, s.Path(st))
	}
	return blockParts(c, rule, s, st, key, pos, k.args[1:], obj, off)
}

// blockParts: the values making up a key are the URL of obj, the offset and a length or end that depends on the object's size.
func blockParts(c *Check, rule string, s *Sim, st *State, key, pos string, parts []*Term, obj, off *Term) []*Term {
	url, o, size := false, false, []*Term(nil)
	for _, a := range parts {
		a = strip(a)
		switch {
		case a.op == OpPure && strings.HasSuffix(a.aux, ").URL") && strip(a.args[0]) == obj:
			url = true
		case a == off:
			o = true
		case isInt(a.typ):
			// the block's length, or its end
			size = []*Term{a, s.T.Sub(a, off)}
		}
	}
	var miss []string
	if !url {
		miss = append(miss, "the object's URL")
	}
	if !o {
		miss = append(miss, "the block's offset")
	}
	if size == nil {
		miss = append(miss, "the block's length")
	}
	if miss != nil {
		c.Bad(rule, key, pos, "two blocks can have one key: it does not contain "+strings.Join(miss, " and "), s.Path(st))
		return nil
	}
	return size
}

func oneOf(t *Term, l []*Term) bool {
	for _, x := range l {
		if t == x {
			return true
		}
	}
	return false
}

// fill: the fill function reads [off, off+size) of obj.
func (x *p07) fill(key string, fn *ssa.Function, vals []*Term, obj, off *Term, size []*Term) {
	c := x.c
	var frees []*Term
	var buf *Term
	val := func(t *Term) *Term { // value of a captured variable, in the slicer's terms
		t = strip(t)
		for i, f := range frees {
			if t == f || t.op == OpLoad && t.args[0] == f {
				return strip(vals[i])
			}
		}
		return nil
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return c.P.IsModule(ev.Callee) && c.P.Rel(ev.Callee) == c.P.Rel(fn)
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			pos := c.P.InstrPos(ev.Site)
			if ev.Inlined {
				return nil
			}
			switch {
			case ev.Name == "io.NewSectionReader":
				st.marks[fmt.Sprintf("R:%d", strip(ev.Result).id)] = Mark{S: "src", T: strip(ev.Result)}
				if val(ev.Args[0]) != obj || val(ev.Args[1]) != off || !oneOf(val(ev.Args[2]), size) {
					c.Bad("block-fill", key, pos, "the fill function reads another range than the one in the key", s.Path(st))
				}
			case ev.Name == "io.ReadFull" || ev.Name == "io.ReadAtLeast":
				if _, ok := st.marks[fmt.Sprintf("R:%d", strip(ev.Args[0]).id)]; !ok {
					return nil
				}
				x.into(s, st, key, pos, ev.Args[1], buf, val, size)
				if ev.Name == "io.ReadAtLeast" && !oneOf(val(ev.Args[2]), size) {
					c.Bad("block-fill", key, pos, "the fill accepts fewer bytes than the block has", s.Path(st))
				}
				out := s.fork(st, ev, nil)
				st.marks["full"] = Mark{T: s.Res(ev, 0)}
				return out
			case strings.HasSuffix(ev.Name, ").ReadAt") && len(ev.Args) == 3:
				if val(ev.Args[0]) != obj || val(ev.Args[2]) != off {
					c.Bad("block-fill", key, pos, "the fill function reads another range than the one in the key", s.Path(st))
				}
				x.into(s, st, key, pos, ev.Args[1], buf, val, size)
				out := s.fork(st, ev, nil)
				st.marks["full"] = Mark{T: s.Res(ev, 0)}
				return out
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			pos := c.P.InstrPos(in)
			mk, ok := st.marks["full"]
			if !ok {
				c.Bad("block-fill", key, pos, "the fill reports success although the block was not read completely", s.Path(st))
				return
			}
			if strip(res[0]) != mk.T && !oneOf(val(res[0]), size) {
				c.Bad("block-fill", key, pos, "the fill reports another number of bytes than it read", s.Path(st))
			}
		},
	})
	c.Run(s, fn, func(st *State, ps, fs []*Term) {
		frees = fs
		for i, f := range fs {
			st.marks[fmt.Sprintf("f%d", i)] = Mark{T: f}
		}
		for _, p := range ps {
			if isBytes(p.typ) {
				buf = p
			}
		}
	})
}

func (x *p07) into(s *Sim, st *State, key, pos string, dst, buf *Term, val func(*Term) *Term, size []*Term) {
	if !(dst.op == OpSlice && dst.args[0] == buf && dst.args[1] == s.T.Int(0) && oneOf(val(dst.args[2]), size)) {
		x.c.Bad("block-fill", key, pos, "the block is not read to the start of the buffer with its exact length", s.Path(st))
	}
}

func init() { checks["P07"] = checkP07 }
