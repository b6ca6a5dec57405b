package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P22"] = checkP22 }

// P22: names in a directory.

func checkP22(c *Check) {
	c.Rule("insert", "a directory is only changed once the name is known to be non-empty, not reserved, valid and not present; then the entry is kept under that name", 1)
	c.Rule("only", "entries are added nowhere else and never removed", 1)
	c.Rule("lookup", "an entry is found by the name it was added with, and nothing else is", 1)
	c.Rule("identifier", "every identifier handed out is a different one", 1)
	c.Rule("validator", "a name is valid only if every character of it was tested against the character table", 2)
	c.Rule("table", "the character tables hold the documented characters", 2)
	c.Rule("kept", "a directory validates with the validator it was made with", 3)
	c.Rule("path", "each part of a path names a directory found or made in the one before; the last names the new entry", 2)
	c.Rule("listing", "each entry is written with its own identifier and name, once", 2)
	c.Rule("name", "a name is split into parts and put together again without loss", 2)
	c.Rule("writable", "a name that passed validation is not refused when written", 1)
	dir := c.named(isoRel, "DirectoryInode")
	if dir == nil {
		c.Bad("insert", "DirectoryInode", "", "type not found", nil)
		return
	}
	c.p22insert(dir)
	c.p22lookup(dir)
	c.p22identifier()
	c.p22validators()
	c.p22kept(dir)
	c.p22path(dir)
	c.p22listing(dir)
	c.p22names()
	c.p22writable()
}

func (c *Check) p22insert(dir *types.Named) {
	fn := c.P.Method(dir, "AddChild")
	if fn == nil || len(fn.Params) != 3 {
		c.Bad("insert", "AddChild", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("insert", key, c.P.Pos(fn.Pos()))
	var recv, name, child *Term
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("insert", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	mutate := func(s *Sim, st *State, in ssa.Instruction, what string) {
		st.marks["mutated"] = Mark{S: what}
		var missing []string
		if s.Eval(st, s.T.Lt(s.Len(name), s.T.Int(1))) != 0 && s.Eval(st, s.T.Eq(name, s.str(""))) != 0 {
			missing = append(missing, "not empty")
		}
		for _, d := range []string{".", ".."} {
			if s.Eval(st, s.T.Eq(name, s.str(d))) != 0 {
				missing = append(missing, "not "+d)
			}
		}
		if v := st.marks["valid"].T; v == nil || s.Eval(st, s.T.IsNil(v)) != 1 {
			missing = append(missing, "valid")
		}
		absent := false
		for f, v := range st.facts {
			if !v && f.op == OpPure && f.aux == "lookupok" && f.args[1] == name && recvField(f.args[0], recv) != "" {
				absent = true
			}
		}
		if !absent && st.marks["named"].S == "" {
			missing = append(missing, "not present")
		}
		if missing != nil {
			bad(s, st, in, what+" although the name is not known to be "+strings.Join(missing, ", "))
		}
	}
	n := 0
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && !strings.Contains(ev.Name, "IdentifierAllocator")
		},
		Branch: keepFacts(nil),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			b := base(ev.Name)
			switch {
			case b == "Put" && len(ev.Args) == 3 && recvField(ev.Args[0], recv) != "":
				mutate(s, st, ev.Site, "an entry is added")
				k := strip(ev.Args[1])
				st.marks["put"] = Mark{T: k}
				e := strip(ev.Args[2])
				nm := namedOf(e.typ)
				okName, okChild := false, false
				if nm != nil {
					if stt, ok := nm.Underlying().(*types.Struct); ok {
						for i := 0; i < stt.NumFields(); i++ {
							f := stt.Field(i)
							v := s.LoadAddr(st, s.T.FieldAddr(e, i, f.Name(), types.NewPointer(f.Type())), f.Type())
							okName = okName || v == name
							okChild = okChild || v == child
						}
					}
				}
				if !okName || !okChild {
					bad(s, st, ev.Site, "the entry added does not hold the name and what is added under it")
				}
			case b == "Remove" || b == "Clear" || b == "delete":
				if len(ev.Args) > 0 && recvField(ev.Args[0], recv) != "" {
					bad(s, st, ev.Site, "an entry is removed")
				}
			case b == "AddParent" && len(ev.Args) == 2:
				mutate(s, st, ev.Site, "the parent is set")
				if strip(ev.Args[0]) == child && ev.Args[1] == recv {
					st.marks["parent"] = Mark{S: "1"}
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "IsValid" && len(ev.Args) == 2 && ev.Args[1] == name && recvField(ev.Args[0], recv) != "" {
				st.marks["valid"] = Mark{T: ev.Result}
			}
			if strings.Contains(ev.Name, "IdentifierAllocator") && base(ev.Name) == "Next" {
				st.marks["ident"] = Mark{T: ev.Result}
			}
			return nil
		},
		MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
			if recvField(m, recv) == "" {
				return
			}
			mutate(s, st, in, "a name is taken")
			if k != name {
				bad(s, st, in, "another name is taken than the one given")
			}
			id := st.marks["ident"].T
			ok := false
			if id != nil {
				if v == id {
					ok = true
				}
				if v.op == OpBin && v.aux == "+" && v.args[0] == id {
					if _, isc := v.args[1].StrConst(); isc {
						ok = true
					}
				}
			}
			if !ok {
				bad(s, st, in, "the name does not get an identifier of its own: "+v.String())
			}
			st.marks["named"] = Mark{S: "1", T: v}
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if rootOf(addr) == recv {
				mutate(s, st, in, "the directory is changed")
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			ok := s.Eval(st, s.T.IsNil(res[0]))
			if ok != 1 && st.marks["mutated"].S != "" {
				bad(s, st, in, "an error is returned although "+st.marks["mutated"].S)
			}
			if ok != 0 {
				n++
				if st.marks["named"].T == nil || st.marks["put"].T != st.marks["named"].T {
					bad(s, st, in, "success is returned although the entry is not kept under its name's identifier")
				}
				if st.marks["parent"].S == "" {
					bad(s, st, in, "success is returned although the entry does not know its directory")
				}
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		recv, name, child = params[0], params[1], params[2]
		st.marks["p0"], st.marks["p1"], st.marks["p2"] = Mark{T: recv}, Mark{T: name}, Mark{T: child}
	})
	if n == 0 {
		c.Bad("insert", key, c.P.Pos(fn.Pos()), "no successful path", nil)
	}
	// nowhere else
	c.Ob("only", key, c.P.Pos(fn.Pos()))
	allowed := map[*ssa.Function]bool{fn: true}
	for again := true; again; {
		again = false
		for _, f := range c.P.Funcs {
			if allowed[f] || c.P.Rel(f) != isoRel {
				continue
			}
			if f.Parent() != nil && allowed[f.Parent()] {
				allowed[f], again = true, true
				continue
			}
			if len(c.P.callers[f]) == 0 || c.P.addrOf[f] {
				continue
			}
			all := true
			for _, k := range c.P.callers[f] {
				if !allowed[k.Parent()] {
					all = false
				}
			}
			if all {
				allowed[f], again = true, true
			}
		}
	}
	for _, f := range c.P.Funcs {
		if c.P.Rel(f) != isoRel || allowed[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var x ssa.Value
				switch in := in.(type) {
				case *ssa.MapUpdate:
					x = in.Map
				case *ssa.Call:
					cn := base(c.P.calleeName(in.Common()))
					if cn != "Put" && cn != "Remove" && cn != "Clear" && cn != "delete" || len(in.Call.Args) == 0 {
						continue
					}
					x = in.Call.Args[0]
				default:
					continue
				}
				if u, ok := x.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == dir {
						c.Bad("only", c.P.FnName(f), c.P.InstrPos(in), "the entries of a directory are changed outside of adding an entry", nil)
					}
				}
			}
		}
	}
}

func (s *Sim) str(x string) *Term {
	return s.T.Const(constant.MakeString(x), types.Typ[types.String])
}

func (c *Check) p22lookup(dir *types.Named) {
	fn := c.P.Method(dir, "GetChild")
	if fn == nil || len(fn.Params) != 2 {
		c.Bad("lookup", "GetChild", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("lookup", key, c.P.Pos(fn.Pos()))
	var recv, name *Term
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("lookup", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	n := 0
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: keepFacts(nil),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "Get" && len(ev.Args) == 2 && recvField(ev.Args[0], recv) != "" {
				st.marks["got"] = Mark{T: s.Res(ev, 0)}
				st.marks["gotok"] = Mark{T: s.Res(ev, 1)}
				k := strip(ev.Args[1])
				if k.op != OpPure || k.aux != "lookup" || k.args[1] != name || recvField(k.args[0], recv) == "" {
					bad(s, st, ev.Site, "the entry looked up is not the one of the name given: "+k.String())
				}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			known := -1 // whether the name is present
			for f, v := range st.facts {
				if f.op == OpPure && f.aux == "lookupok" && f.args[1] == name && recvField(f.args[0], recv) != "" {
					known = b2i(v)
				}
			}
			gotok := -1
			if t := st.marks["gotok"].T; t != nil {
				gotok = s.Eval(st, t)
			}
			switch s.Eval(st, res[1]) {
			case 1:
				n++
				hit := false
				if loadedField(res[0]) != "" && st.marks["got"].T != nil {
					walkTerm(res[0], func(t *Term) {
						if t == st.marks["got"].T {
							hit = true
						}
					})
				}
				if known != 1 || gotok != 1 || !hit {
					bad(s, st, in, "an entry is returned that was not found under the name")
				}
			case 0:
				if known != 0 && gotok != 0 {
					bad(s, st, in, "an entry may be present but is not returned")
				}
			default:
				if hitAll := res[1] == st.marks["gotok"].T && known == 1; !hitAll {
					bad(s, st, in, "whether an entry is found is not what the lookup said")
				} else {
					n++
				}
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		recv, name = params[0], params[1]
		st.marks["p0"], st.marks["p1"] = Mark{T: recv}, Mark{T: name}
	})
	if n == 0 {
		c.Bad("lookup", key, c.P.Pos(fn.Pos()), "no entry is ever found", nil)
	}
}

func (c *Check) p22identifier() {
	named := c.named(isoRel, "IdentifierAllocator")
	var fn *ssa.Function
	if named != nil {
		fn = c.P.Method(named, "Next")
	}
	if fn == nil {
		c.Bad("identifier", "Next", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("identifier", key, c.P.Pos(fn.Pos()))
	var recv *Term
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("identifier", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: keepFacts(nil),
		Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
			if rootOf(addr) == recv && isInt(val.typ) && st.marks["count"].T == nil {
				st.marks["count"] = Mark{T: val}
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if rootOf(addr) != recv {
				return
			}
			if st.marks["stored"].S != "" {
				bad(s, st, in, "the count is changed more than once")
			}
			st.marks["stored"] = Mark{S: "1"}
			cnt := st.marks["count"].T
			if cnt == nil || s.T.Sub(val, cnt) != s.T.Int(1) {
				bad(s, st, in, "the count does not grow by one")
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			switch {
			case base(ev.Name) == "PutUvarint" || base(ev.Name) == "PutVarint":
				if ev.Args[1] == st.marks["count"].T {
					st.marks["enc"] = Mark{T: ev.Args[0]}
					st.marks["n"] = Mark{T: ev.Result}
				}
			case base(ev.Name) == "Encode" && len(ev.Args) == 3:
				src := ev.Args[2]
				if st.marks["enc"].T != nil && src.op == OpSlice && rootOf2(src) == rootOf2(st.marks["enc"].T) && src.args[1] == s.T.Int(0) && src.args[2] == st.marks["n"].T {
					st.marks["dst"] = Mark{T: ev.Args[1]}
				}
			case base(ev.Name) == "EncodeToString" && len(ev.Args) == 2:
				src := ev.Args[1]
				if st.marks["enc"].T != nil && src.op == OpSlice && rootOf2(src) == rootOf2(st.marks["enc"].T) && src.args[1] == s.T.Int(0) && src.args[2] == st.marks["n"].T {
					st.marks["dststr"] = Mark{T: ev.Result}
				}
			case base(ev.Name) == "EncodedLen":
				if len(ev.Args) == 2 && ev.Args[1] == st.marks["n"].T {
					st.marks["dstlen"] = Mark{T: ev.Result}
				}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if st.marks["stored"].S == "" {
				bad(s, st, in, "an identifier is handed out without counting it")
			}
			r := res[0]
			ok := r == st.marks["dststr"].T
			if d := st.marks["dst"].T; d != nil && r.op == OpConv && rootOf2(r.args[0]) == rootOf2(d) {
				ok = s.Len(r.args[0]) == st.marks["dstlen"].T
			}
			if !ok && st.marks["count"].T != nil {
				// formatted directly
				if r.op == OpPure && strings.HasPrefix(r.aux, "strconv.Format") && r.args[0] == st.marks["count"].T {
					ok = true
				}
			}
			if !ok {
				bad(s, st, in, "the identifier does not spell the whole count: "+r.String())
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		recv = params[0]
		st.marks["p0"] = Mark{T: recv}
	})
	for f := range c.P.reach([]*ssa.Function{fn}, func(f *ssa.Function) bool { return c.P.Rel(f) == isoRel }) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cv, ok := in.(*ssa.Convert); ok && isInt(cv.Type()) && isInt(cv.X.Type()) && amd64.Sizeof(cv.Type()) < amd64.Sizeof(cv.X.Type()) {
					c.Bad("identifier", key, c.P.InstrPos(cv), "the count is cut short", nil)
				}
			}
		}
	}
}

// rootOf2: what a slice is cut from.
func rootOf2(t *Term) *Term {
	for t.op == OpSlice {
		t = t.args[0]
	}
	return rootOf(t)
}

// nextRune: the rune of a turn of a loop over a string, and the loop's state.
func nextRune(t *Term, over *Term) *Term {
	var r *Term
	walkTerm(t, func(t *Term) {
		if t.op == OpExtract && t.args[0].op == OpOpaque && t.args[0].aux == "next" && t.aux == "2" {
			it := t.args[0].args[0]
			if it.op == OpOpaque && it.aux == "range" && it.args[0] == over {
				r = t
			}
		}
	})
	return r
}

func (c *Check) p22validators() {
	ifc := c.P.Iface(isoRel, "NameValidator")
	if ifc == nil {
		c.Bad("validator", "NameValidator", "", "not found", nil)
		return
	}
	portable := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._-"
	extended := "/\\?%*:|\"<> \n\t$!"
	for _, n := range c.P.Implementers(ifc) {
		if c.P.relPkg(n) != isoRel {
			continue
		}
		fn := c.P.Method(n, "IsValid")
		if fn == nil {
			continue
		}
		key := n.Obj().Name()
		c.Ob("validator", key, c.P.Pos(fn.Pos()))
		kind := c.p22valid(fn, key)
		// its table
		want := portable
		if kind == "deny" {
			want = extended
		}
		c.p22table(n, want)
	}
}

// p22valid returns whether the validator's table lists what is allowed or what is not.
func (c *Check) p22valid(fn *ssa.Function, key string) string {
	var recv, name *Term
	kinds := map[string]bool{}
	bad := func(s *Sim, st *State, pos, msg string) { c.Bad("validator", key, pos, msg, s.Path(st)) }
	turns := 0
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: keepFacts(func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			t := cond
			for t.op == OpNot {
				t, taken = t.args[0], !taken
			}
			if t.op == OpExtract && t.args[0].op == OpOpaque && t.args[0].aux == "next" && t.aux == "0" {
				it := t.args[0].args[0]
				if it.op == OpOpaque && it.aux == "range" && it.args[0] == name {
					st.marks["more"] = Mark{S: fmt.Sprint(taken)}
				}
			}
		}),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Name == "unicode.IsPrint" && nextRune(ev.Args[0], name) == ev.Args[0] {
				st.marks["print"] = Mark{T: ev.Result}
			}
			return nil
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			turns++
			pos := c.P.InstrPos(header.Instrs[len(header.Instrs)-1])
			ok := false
			for f, v := range st.facts {
				if f.op != OpPure || f.aux != "lookupok" || nextRune(f.args[1], name) != f.args[1] || recvField(f.args[0], recv) == "" {
					continue
				}
				if v {
					ok = true
					kinds["allow"] = true
				} else if p := st.marks["print"].T; p != nil && s.Eval(st, p) == 1 {
					ok = true
					kinds["deny"] = true
				}
			}
			if !ok {
				bad(s, st, pos, "a character is accepted without being known to be allowed")
			}
			delete(st.marks, "print")
			for k := range st.marks {
				if strings.HasPrefix(k, "br:") {
					delete(st.marks, k)
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if s.Eval(st, s.T.IsNil(res[0])) == 0 {
				return
			}
			if st.marks["more"].S != "false" {
				bad(s, st, c.P.InstrPos(in), "a name is accepted before all its characters are tested")
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		recv, name = params[0], params[1]
		st.marks["p0"], st.marks["p1"] = Mark{T: recv}, Mark{T: name}
	})
	if turns == 0 {
		c.Bad("validator", key, c.P.Pos(fn.Pos()), "no loop over the characters of the name", nil)
	}
	if kinds["allow"] && kinds["deny"] {
		c.Bad("validator", key, c.P.Pos(fn.Pos()), "characters are accepted whether in the table or not", nil)
	}
	if kinds["deny"] {
		return "deny"
	}
	return "allow"
}

// p22table: the runes a constructor puts in the table.
func (c *Check) p22table(n *types.Named, want string) {
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != isoRel || !c.P.IsTop(fn) || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 || namedOf(fn.Signature.Results().At(0).Type()) != n {
			continue
		}
		key := n.Obj().Name()
		c.Ob("table", key, c.P.Pos(fn.Pos()))
		got := map[rune]bool{}
		fill := false
		for f := range c.P.reach([]*ssa.Function{fn}, func(f *ssa.Function) bool { return c.P.IsModule(f) }) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
							if _, isArr := deref(ia.X.Type()).Underlying().(*types.Array); isArr {
								if k, ok := in.Val.(*ssa.Const); ok && isInt(k.Type()) {
									got[rune(k.Int64())] = true
								}
							}
						}
					case *ssa.MapUpdate:
						if k, ok := in.Key.(*ssa.Const); ok && isInt(k.Type()) {
							got[rune(k.Int64())] = true
						}
						fill = true
					case *ssa.Range:
						if k, ok := in.X.(*ssa.Const); ok && k.Value != nil {
							for _, r := range constant.StringVal(k.Value) {
								got[r] = true
							}
						}
					}
				}
			}
		}
		var miss, extra []string
		for _, r := range want {
			if !got[r] {
				miss = append(miss, fmt.Sprintf("%q", r))
			}
			delete(got, r)
		}
		for r := range got {
			extra = append(extra, fmt.Sprintf("%q", r))
		}
		sort.Strings(extra)
		if !fill || miss != nil || extra != nil {
			c.Bad("table", key, c.P.Pos(fn.Pos()), fmt.Sprintf("the table of characters is not the documented one: missing %v, extra %v", miss, extra), nil)
		}
	}
}

// p22kept: where validators come from.
func (c *Check) p22kept(dir *types.Named) {
	ctor := c.P.Lookup(isoRel, "NewDirectoryInode")
	ifc := c.P.TypeOf(isoRel, "NameValidator")
	if ctor == nil || ifc == nil {
		c.Bad("kept", "NewDirectoryInode", "", "not found", nil)
		return
	}
	key := c.P.FnName(ctor)
	c.Ob("kept", key, c.P.Pos(ctor.Pos()))
	var par *Term
	s := c.Sim(Hooks{Inline: pkgInline(c), Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
		if !s.succeeds(st, in, res) {
			return
		}
		ok := false
		stt := dir.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			if types.Identical(f.Type(), ifc) && s.LoadAddr(st, s.T.FieldAddr(res[0], i, f.Name(), types.NewPointer(f.Type())), f.Type()) == par {
				ok = true
			}
		}
		if !ok {
			c.Bad("kept", key, c.P.InstrPos(in), "a directory does not keep the validator it is given", s.Path(st))
		}
	}})
	c.Run(s, ctor, func(st *State, params, frees []*Term) {
		for i, p := range ctor.Params {
			if types.Identical(p.Type(), ifc) {
				par = params[i]
			}
		}
	})
	// the volume's directories all get the volume's validator
	vol := c.named(isoRel, "Volume")
	for _, f := range c.P.Funcs {
		if c.P.Rel(f) != isoRel || !c.P.IsTop(f) {
			continue
		}
		calls := false
		for g := range c.P.reach([]*ssa.Function{f}, func(g *ssa.Function) bool { return c.P.Rel(g) == isoRel && !c.P.IsTop(g) || g == f }) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == ctor {
						calls = true
					}
				}
			}
		}
		if !calls {
			continue
		}
		f := f
		key := c.P.FnName(f)
		c.Ob("kept", key, c.P.Pos(f.Pos()))
		s := c.Sim(Hooks{
			Inline: func(s *Sim, st *State, ev *CallEv) bool {
				return pkgInline(c)(s, st, ev) && ev.Callee != ctor && !c.P.IsTop(ev.Callee)
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Callee != ctor {
					return
				}
				v := ev.Args[len(ev.Args)-1]
				if f.Signature.Recv() != nil {
					if !types.Identical(v.typ, ifc) || loadedField(v) == "" || namedOf(v.args[0].args[0].typ) != vol {
						c.Bad("kept", key, c.P.InstrPos(ev.Site), "a directory is made with another validator than the volume's: "+v.String(), s.Path(st))
					}
				} else if s.Eval(st, s.T.IsNil(v)) != 0 {
					c.Bad("kept", key, c.P.InstrPos(ev.Site), "a directory is made without a validator", s.Path(st))
				}
				st.marks["v"] = Mark{T: v}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if f.Signature.Recv() != nil || len(res) != 1 || namedOf(res[0].typ) != vol {
					return
				}
				stt := vol.Underlying().(*types.Struct)
				for i := 0; i < stt.NumFields(); i++ {
					fl := stt.Field(i)
					if types.Identical(fl.Type(), ifc) {
						if v := s.LoadAddr(st, s.T.FieldAddr(res[0], i, fl.Name(), types.NewPointer(fl.Type())), fl.Type()); v != st.marks["v"].T {
							c.Bad("kept", key, c.P.InstrPos(in), "the volume's validator is not its root directory's", s.Path(st))
						}
					}
				}
			},
		})
		c.Run(s, f, nil)
	}
}

// p22path: adding under a path.
func (c *Check) p22path(dir *types.Named) {
	vol := c.named(isoRel, "Volume")
	if vol == nil {
		c.Bad("path", "Volume", "", "not found", nil)
		return
	}
	for _, m := range []string{"AddFile", "AddSymlink"} {
		fn := c.P.Method(vol, m)
		if fn == nil {
			c.Bad("path", m, "", "not found", nil)
			continue
		}
		key := c.P.FnName(fn)
		c.Ob("path", key, c.P.Pos(fn.Pos()))
		var recv, pth *Term
		bad := func(s *Sim, st *State, pos, msg string) { c.Bad("path", key, pos, msg, s.Path(st)) }
		leaves := 0
		part := func(s *Sim, st *State, t *Term) (*Term, *Term) { // list and index of a part of the path
			if t.op != OpLoad || t.args[0].op != OpIndexAddr {
				return nil, nil
			}
			l, idx := t.args[0].args[0], t.args[0].args[1]
			for l.op == OpSlice {
				l, idx = l.args[0], s.T.Add(l.args[1], idx)
			}
			if l.aux != "strings.Split" && l.aux != "strings.SplitN" || len(l.args) < 2 {
				return nil, nil
			}
			if sep, ok := l.args[1].StrConst(); !ok || sep != "/" {
				return nil, nil
			}
			clean := false
			walkTerm(l.args[0], func(t *Term) {
				if t.aux == "path.Clean" && t.args[0] == pth {
					clean = true
				}
			})
			if !clean {
				return nil, nil
			}
			return l, idx
		}
		isDir := func(t *Term) bool { return namedOf(t.typ) == dir }
		s := c.Sim(Hooks{
			Inline: func(s *Sim, st *State, ev *CallEv) bool {
				b := base(ev.Name)
				return pkgInline(c)(s, st, ev) && b != "AddChild" && b != "GetChild" && !strings.HasPrefix(b, "New") && !strings.HasPrefix(b, "Set")
			},
			Branch: keepFacts(nil),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if base(ev.Name) != "AddChild" || len(ev.Args) != 3 {
					return
				}
				pos := c.P.InstrPos(ev.Site)
				l, idx := part(s, st, ev.Args[1])
				if l == nil {
					bad(s, st, pos, "an entry is added under something else than a part of the path: "+ev.Args[1].String())
					return
				}
				if p := st.marks["parent"].T; ev.Args[0] != p && ev.Args[0].op != OpPhi && (p != nil || recvField(ev.Args[0], recv) == "") {
					bad(s, st, pos, "an entry is added to another directory than the one the path leads to: "+ev.Args[0].String())
				}
				last := s.Eval(st, s.T.Eq(s.T.Add(idx, s.T.Int(1)), s.Len(l)))
				child := strip(ev.Args[2])
				if isDir(child) {
					if last != 0 {
						bad(s, st, pos, "a directory is made for the last part of the path")
					}
					if g := st.marks["found"].T; g == nil || s.Eval(st, g) != 0 || st.marks["fname"].T != ev.Args[1] || st.marks["fdir"].T != ev.Args[0] {
						bad(s, st, pos, "a directory is made without looking for it first")
					}
				} else {
					leaves++
					if last != 1 {
						bad(s, st, pos, "the entry may be added for another part of the path than the last")
					}
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if base(ev.Name) == "GetChild" && len(ev.Args) == 2 {
					st.marks["found"] = Mark{T: s.Res(ev, 1)}
					st.marks["child"] = Mark{T: s.Res(ev, 0)}
					st.marks["fname"] = Mark{T: ev.Args[1]}
					st.marks["fdir"] = Mark{T: ev.Args[0]}
				}
				if base(ev.Name) == "AddChild" && len(ev.Args) == 3 {
					if isDir(strip(ev.Args[2])) {
						st.marks["made"] = Mark{T: strip(ev.Args[2])}
						st.marks["madeerr"] = Mark{T: ev.Result}
					} else {
						st.marks["leaf"] = Mark{S: "1"}
					}
				}
				return nil
			},
			BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
				i := 0
				pos := c.P.InstrPos(header.Instrs[len(header.Instrs)-1])
				for _, in := range header.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					v := s.loopVals[i]
					i++
					if namedOf(ph.Type()) != dir {
						continue
					}
					st.marks["parent"] = Mark{T: v}
					switch {
					case st.marks["made"].T != nil && v == st.marks["made"].T && s.Eval(st, s.T.IsNil(st.marks["madeerr"].T)) == 1:
					case st.marks["child"].T != nil && v != st.marks["made"].T && madeOf(v, st.marks["child"].T) && s.Eval(st, st.marks["found"].T) == 1:
					default:
						bad(s, st, pos, "the path is continued in a directory that was neither found nor added: "+v.String())
					}
				}
				for _, k := range []string{"found", "child", "fname", "fdir", "made", "madeerr"} {
					delete(st.marks, k)
				}
				for k := range st.marks {
					if strings.HasPrefix(k, "br:") {
						delete(st.marks, k)
					}
				}
			},
		})
		s.Depth = 8
		c.Run(s, fn, func(st *State, params, frees []*Term) {
			recv, pth = params[0], params[1]
			st.marks["p0"], st.marks["p1"] = Mark{T: recv}, Mark{T: pth}
		})
		if leaves == 0 {
			c.Bad("path", key, c.P.Pos(fn.Pos()), "the entry is never added", nil)
		}
	}
}

// madeOf: x is part of t.
func madeOf(t, x *Term) bool {
	hit := false
	walkTerm(t, func(u *Term) {
		if u == x {
			hit = true
		}
	})
	return hit
}

// p22listing: what a directory writes for its entries.
func (c *Check) p22listing(dir *types.Named) {
	fn := c.P.Method(dir, "toDirectory")
	use := c.P.Lookup(isoRel, "InodeSystemUseEntries")
	if fn == nil || use == nil {
		c.Bad("listing", "toDirectory", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("listing", key, c.P.Pos(fn.Pos()))
	var recv *Term
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("listing", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	seen := map[string]bool{}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && !c.P.IsTop(ev.Callee)
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Callee == use {
				id, nm, ino := ev.Args[0], ev.Args[1], strip(ev.Args[2])
				st.marks["id"] = Mark{T: id}
				k, isc := id.StrConst()
				n, _ := nm.StrConst()
				switch {
				case isc && k == "\x00":
					if n != "." || ino != recv {
						bad(s, st, ev.Site, "the directory itself is not listed as a dot entry")
					}
					seen["."] = true
				case isc && k == "\x01":
					if n != ".." || ino != recv && recvField(ino, recv) == "" {
						bad(s, st, ev.Site, "the parent is not listed as a dot-dot entry")
					}
					seen[".."] = true
				case isc:
					bad(s, st, ev.Site, fmt.Sprintf("an entry is listed under the fixed identifier %q", k))
				default:
					seen["x"] = true
					fn1, fn2 := loadedField(nm), loadedField(ino)
					ok := fn1 != "" && fn2 != "" && fn1 != fn2 && nm.args[0].args[0] == ino.args[0].args[0]
					it1, it2 := iterOf(id, "Key"), (*Term)(nil)
					if ok {
						it2 = iterOf(nm.args[0].args[0], "Value")
					}
					if !ok || it1 == nil || it1 != it2 {
						bad(s, st, ev.Site, "an entry is not listed with its own identifier, name and inode: "+id.String()+", "+nm.String()+", "+ino.String())
					}
					st.marks["listed"] = Mark{S: st.marks["listed"].S + "x"}
				}
			}
			if ev.Name == "append" {
				for _, v := range ev.VArgs[1:] {
					if n := namedOf(v.typ); n == nil || n.Obj().Name() != "DirectoryRecord" {
						continue
					}
					if st.marks["rid"].S == "" {
						bad(s, st, ev.Site, "a record does not carry the identifier of its entry")
					}
					delete(st.marks, "rid")
				}
			}
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OpFieldAddr && addr.aux == "Identifier" {
				if n := namedOf(addr.args[0].typ); n == nil || n.Obj().Name() != "DirectoryRecord" {
					return
				}
				st.marks["rid"] = Mark{S: "1"}
				if val != st.marks["id"].T {
					bad(s, st, in, "a record carries another identifier than its entry: "+val.String())
				}
			}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			m := st.marks["more"]
			if m.T == nil || !inLoop(m.T) {
				return
			}
			if st.marks["listed"].S != "x" {
				bad(s, st, header.Instrs[len(header.Instrs)-1], "an entry is not listed exactly once")
			}
			delete(st.marks, "listed")
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "Next" && strings.Contains(ev.Name, "Iterator") {
				st.marks["more"] = Mark{T: ev.Result}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			if m := st.marks["more"]; m.T == nil || s.Eval(st, m.T) != 0 {
				bad(s, st, in, "may return before all entries are listed")
			}
		},
	})
	s.Depth = 8
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		recv = params[0]
		st.marks["p0"] = Mark{T: recv}
	})
	for _, k := range []string{".", "..", "x"} {
		if !seen[k] {
			c.Bad("listing", key, c.P.Pos(fn.Pos()), "no record is made for "+map[string]string{".": "the directory itself", "..": "its parent", "x": "its entries"}[k], nil)
		}
	}
	// the name becomes the entry's name
	c.Ob("listing", c.P.FnName(use), c.P.Pos(use.Pos()))
	var name *Term
	n := 0
	s = c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && !c.P.IsTop(ev.Callee)
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Name == "append" {
				for _, v := range ev.Args[1:] {
					if r := st.marks["nm"].T; r != nil && v == r {
						st.marks["kept"] = Mark{S: st.marks["kept"].S + "x"}
					}
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "NewName" {
				if ev.Args[0] != name {
					c.Bad("listing", c.P.FnName(use), c.P.InstrPos(ev.Site), "another name is written than the entry's", s.Path(st))
				}
				st.marks["nm"] = Mark{T: s.Res(ev, 0)}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if s.succeeds(st, in, res) {
				n++
				if st.marks["kept"].S != "x" {
					c.Bad("listing", c.P.FnName(use), c.P.InstrPos(in), "the name is not part of what is written for the entry", s.Path(st))
				}
			}
		},
	})
	c.Run(s, use, func(st *State, params, frees []*Term) {
		for i, p := range use.Params {
			if p.Name() == "name" || i == 1 {
				name = params[i]
			}
		}
	})
	if n == 0 {
		c.Bad("listing", c.P.FnName(use), c.P.Pos(use.Pos()), "no successful path", nil)
	}
}

// iterOf: the iterator whose current key or value a term was taken from.
func iterOf(t *Term, what string) *Term {
	var it *Term
	walkTerm(t, func(t *Term) {
		if (t.op == OpOpaque || t.op == OpPure) && base(t.aux) == what && strings.Contains(t.aux, "Iterator") {
			it = t.args[0]
		}
	})
	return it
}

// p22names: splitting a name into entries and joining them.
func (c *Check) p22names() {
	rel := isoRel + "/rrip"
	fn, dec := c.P.Lookup(rel, "NewName"), c.P.Lookup(rel, "DecodeName")
	named := c.named(rel, "Name")
	if fn == nil || dec == nil || named == nil {
		c.Bad("name", "NewName", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("name", key, c.P.Pos(fn.Pos()))
	sp := c.p20specOf(named)
	paths := map[string]string{}
	for f, p := range c.ctorMap(sp) {
		paths[p] = f
	}
	var name *Term
	turns := 0
	type piece struct{ data, cont *Term }
	get := func(s *Sim, st *State, e *Term) (piece, bool) {
		e = strip(e)
		if namedOf(e.typ) != named || e.op != OpAlloc {
			return piece{}, false
		}
		d, _ := fieldTerm(s, st, e, named, paths["p0"])
		k, _ := fieldTerm(s, st, e, named, paths["p1"])
		return piece{d, k}, d != nil && k != nil
	}
	// cut: the part of a string up to k and what remains
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && !c.P.validates(ev.Callee)
		},
		Branch: keepFacts(nil),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Name != "append" {
				return
			}
			for _, v := range ev.VArgs[1:] {
				if pc, ok := get(s, st, v); ok {
					st.marks["pieces"] = Mark{S: st.marks["pieces"].S + "x"}
					st.marks["data"] = Mark{T: pc.data}
					st.marks["cont"] = Mark{T: pc.cont}
				}
			}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			turns++
			pos := c.P.InstrPos(header.Instrs[len(header.Instrs)-1])
			bad := func(msg string) { c.Bad("name", key, pos, msg, s.Path(st)) }
			if st.marks["pieces"].S != "x" {
				bad("not one entry is made per part of the name")
				return
			}
			d, ct := st.marks["data"].T, st.marks["cont"].T
			i := 0
			for _, in := range header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := s.loopVals[i]
				i++
				if !isBasic(types.String)(ph.Type()) {
					continue
				}
				cur := st.top().env[ph]
				if !s.cutInTwo(st, ph, cur, name, d, v) {
					bad("the parts of the name do not make up the whole: " + d.String() + " and " + v.String())
				}
				want := s.T.Lt(s.T.Int(0), s.Len(v))
				if !(ct == want || s.Eval(st, ct) >= 0 && s.Eval(st, ct) == s.Eval(st, want)) {
					bad("whether the name continues is not said")
				}
			}
			for _, k := range []string{"pieces", "data", "cont"} {
				delete(st.marks, k)
			}
			for k := range st.marks {
				if strings.HasPrefix(k, "br:") {
					delete(st.marks, k)
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) || st.marks["pieces"].S == "" {
				return
			}
			// left in the middle: the last part
			if st.marks["cont"].T != nil && s.Eval(st, st.marks["cont"].T) != 0 {
				c.Bad("name", key, c.P.InstrPos(in), "the last part is said to be continued", s.Path(st))
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		name = params[0]
		st.marks["p0"] = Mark{T: name}
	})
	if turns == 0 {
		c.Bad("name", key, c.P.Pos(fn.Pos()), "no loop over the parts of the name", nil)
	}
	c.p22join(dec, named)
}

// cutInTwo: a followed by b is the whole.
func (s *Sim) cutInTwo(st *State, ph *ssa.Phi, whole, init, a, b *Term) bool {
	is := func(t *Term) bool {
		return t == whole || t == init || t.op == OpPhi && t.instr == ssa.Instruction(ph)
	}
	if k, ok := b.StrConst(); ok && k == "" {
		return is(a)
	}
	full := func(t *Term) bool { return t.args[2] == nil || t.args[2] == s.Len(t.args[0]) }
	if b.op != OpSlice || !full(b) {
		return false
	}
	w, k := b.args[0], b.args[1]
	if a.op == OpSlice && a.args[0] == w && a.args[2] == k {
		lo, ok := a.args[1].IntConst()
		return ok && lo == 0 && is(w)
	}
	return a == w && is(w) && k == s.Len(w)
}

func (c *Check) p22join(fn *ssa.Function, named *types.Named) {
	key := c.P.FnName(fn)
	c.Ob("name", key, c.P.Pos(fn.Pos()))
	dataFn, contFn := c.P.Method(named, "Data"), c.P.Method(named, "Continue")
	if dataFn == nil || contFn == nil {
		c.Bad("name", key, "", "accessors not found", nil)
		return
	}
	l := &lay{c: c, rule: "name", key: key, pos: c.P.Pos(fn.Pos())}
	found := 0
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && ev.Callee != dataFn && ev.Callee != contFn
		},
		Branch: keepFacts(l.listEnd),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			switch ev.Callee {
			case dataFn:
				st.marks["data"] = Mark{T: ev.Result}
				if e := elemOf(ev.Args[0]); e != nil {
					st.marks["at"] = Mark{T: e.args[1]}
				}
			case contFn:
				st.marks["cont"] = Mark{T: ev.Result}
			}
			return nil
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			d, ct := st.marks["data"].T, st.marks["cont"].T
			i := 0
			for _, in := range header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := s.loopVals[i]
				i++
				if !isBasic(types.String)(ph.Type()) {
					continue
				}
				if d == nil {
					if v.op == OpBin {
						l.fail(s, st, "the name grows by something that is no part of it")
					}
					continue
				}
				first := v == d && st.marks["some"].S == ""
				if !(first || v.op == OpBin && v.aux == "+" && v.args[1] == d && v.args[0] != d && !madeOf(v.args[0], d)) {
					l.fail(s, st, "a part is not put at the end of the name: "+v.String())
				}
				if ct == nil || s.Eval(st, ct) != 1 {
					l.fail(s, st, "the name goes on although its last part was seen")
				}
			}
			if d != nil {
				st.marks["some"] = Mark{S: "1"}
			}
			if d != nil && st.marks["at"].T != nil {
				st.marks["elem"] = Mark{S: "x", T: st.marks["at"].T}
				l.nextElem(s, st, header)
			}
			for k := range st.marks {
				if strings.HasPrefix(k, "br:") || k == "data" || k == "cont" || k == "at" {
					delete(st.marks, k)
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			d, ct := st.marks["data"].T, st.marks["cont"].T
			if s.Eval(st, res[1]) == 0 {
				if d != nil && (ct == nil || s.Eval(st, ct) != 1) {
					c.Bad("name", key, c.P.InstrPos(in), "a complete name is not returned", s.Path(st))
				}
				return
			}
			found++
			v := res[0]
			if d == nil || ct == nil || s.Eval(st, ct) != 0 || (v != d || st.marks["some"].S != "") && !(v.op == OpBin && v.aux == "+" && v.args[1] == d) {
				c.Bad("name", key, c.P.InstrPos(in), "a name is returned that does not end with its last part", s.Path(st))
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) { st.marks["p0"] = Mark{T: params[0]} })
	if found == 0 {
		c.Bad("name", key, c.P.Pos(fn.Pos()), "no name is ever returned", nil)
	}
}

// p22writable: what the entries refuse is refused by every validator already.
func (c *Check) p22writable() {
	n := 0
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != isoRel+"/rrip" || !c.P.validates(fn) {
			continue
		}
		key := c.P.FnName(fn)
		n++
		c.Ob("writable", key, c.P.Pos(fn.Pos()))
		var par *Term
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			Branch: keepFacts(nil),
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if ev.Name == "unicode.IsPrint" && nextRune(ev.Args[0], par) == ev.Args[0] {
					st.marks["print"] = Mark{T: ev.Result}
					st.marks["rune"] = Mark{T: ev.Args[0]}
				}
				return nil
			},
			BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
				delete(st.marks, "print")
				delete(st.marks, "rune")
				for k := range st.marks {
					if strings.HasPrefix(k, "br:") {
						delete(st.marks, k)
					}
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if s.Eval(st, res[0]) == 1 {
					return
				}
				if p := st.marks["print"].T; p != nil && s.Eval(st, p) == 0 {
					return
				}
				slash := false
				for k, m := range st.marks {
					if strings.HasPrefix(k, "br:") && m.T.op == OpEq0 && s.Eval(st, m.T) == 1 {
						ms, k0 := s.T.toPoly(m.T.args[0])
						if len(ms) == 1 && len(ms[0].a) == 1 && nextRune(ms[0].a[0], par) == ms[0].a[0] && k0*ms[0].c == -'/' {
							slash = true
						}
					}
				}
				if !slash {
					c.Bad("writable", key, c.P.InstrPos(in), "a name is refused for another reason than a slash or an unprintable character", s.Path(st))
				}
			},
		})
		c.Run(s, fn, func(st *State, params, frees []*Term) {
			par = params[0]
			st.marks["p0"] = Mark{T: par}
		})
	}
	if n == 0 {
		c.Bad("writable", "isValid", "", "not found", nil)
	}
}

var amd64 = types.SizesFor("gc", "amd64")
