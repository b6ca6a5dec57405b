package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P24: inode references and file handles of the mounted filesystem.

type fusefs struct {
	T       *types.Named
	inodes  string // map of inodes
	refs    string // reference count of an inode's entry
	entry   *types.Named
	handles string // map of open files
	next    string // next handle
}

func mapOf(t types.Type) (*types.Map, string) {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return nil, ""
	}
	n, ok := types.Unalias(m.Key()).(*types.Named)
	if !ok {
		return m, ""
	}
	return m, n.Obj().Name()
}

func (c *Check) fuseFS() *fusefs {
	for _, n := range c.P.named {
		m := c.P.Method(n, "LookUpInode")
		if m == nil || !c.P.IsModule(m) || m.Signature.Recv() == nil {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		f := &fusefs{T: n}
		f.inodes = fieldBy(n, func(t types.Type) bool { _, k := mapOf(t); return k == "InodeID" })
		f.handles = fieldBy(n, func(t types.Type) bool { _, k := mapOf(t); return k == "HandleID" })
		f.next = fieldBy(n, func(t types.Type) bool {
			k, ok := types.Unalias(t).(*types.Named)
			return ok && k.Obj().Name() == "HandleID"
		})
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f.inodes {
				mt, _ := mapOf(st.Field(i).Type())
				f.entry = namedOf(mt.Elem())
			}
		}
		if f.entry != nil {
			f.refs = fieldBy(f.entry, isBasic(types.Uint64))
		}
		if f.inodes != "" && f.handles != "" && f.next != "" && f.refs != "" {
			return f
		}
	}
	return nil
}

func checkP24(c *Check) {
	c.Rule("lookup", "a successful lookup adds exactly one reference to the inode it returns, a failed one none", 1)
	c.Rule("forget", "a forget removes exactly the references it names and deletes the inode only when none remain", 1)
	c.Rule("root", "the root inode is never deleted", 1)
	c.Rule("unknown", "what was not found is not used, and using it is refused", 3)
	c.Rule("handle", "an opened file gets a handle that was never given out before", 1)
	c.Rule("release", "releasing a handle removes it and closes its file", 1)
	c.Rule("owner", "only lookups and forgets change inodes, only open and release change handles", 2)
	fs := c.fuseFS()
	if fs == nil {
		c.Bad("lookup", "isofuse", c.P.Mod, "the filesystem with its inode and handle tables was not found", nil)
		return
	}
	rel := c.P.relPkg(fs.T)
	ops := map[string]bool{}
	for _, m := range c.P.methods(fs.T) {
		if m.Object() == nil || !m.Object().Exported() {
			continue
		}
		ops[m.Name()] = true
		c.p24op(fs, rel, m)
	}
	for _, o := range []string{"LookUpInode", "ForgetInode", "OpenFile", "ReadFile", "ReleaseFileHandle"} {
		if !ops[o] {
			c.Bad("owner", o, c.P.Pos(fs.T.Obj().Pos()), "the operation is not implemented", nil)
		}
	}
	// the constructor: root present, first handle not zero
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != rel || fn.Parent() != nil || fn.Signature.Recv() != nil && namedOf(fn.Signature.Recv().Type()) == fs.T {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || namedOf(res.At(0).Type()) != fs.T {
			continue
		}
		key := c.P.FnName(fn)
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
				if _, n := mapOf(m.typ); n == "InodeID" {
					if i, ok := k.IntConst(); ok && i == 1 {
						st.marks["root"] = Mark{T: m}
					}
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if len(res) > 1 && s.Eval(st, s.T.IsNil(res[1])) == 0 {
					return
				}
				c.Ob("root", key, c.P.InstrPos(in))
				if st.marks["root"].T == nil {
					c.Bad("root", key, c.P.InstrPos(in), "the filesystem starts without its root inode", s.Path(st))
				}
			},
		})
		c.Run(s, fn, nil)
	}
}

// tableOf: the table (inodes or handles) a map term is.
func (fs *fusefs) tableOf(m, recv *Term) string {
	if f := fieldOfRecv(m, recv); f == fs.inodes || f == fs.handles {
		return f
	}
	return ""
}

func (c *Check) p24op(fs *fusefs, rel string, fn *ssa.Function) {
	key := c.P.FnName(fn)
	name := fn.Name()
	if len(fn.Params) != 3 {
		return
	}
	var recv, op *Term
	opField := func(s *Sim, st *State, f string) *Term {
		n := namedOf(op.typ)
		if n == nil || !structHas(n, f) {
			return nil
		}
		return structField(s, st, op, n, f)
	}
	// entryOf: the inode table entry a pointer is, with its key
	refsOf := func(addr *Term) *Term {
		if addr.op == OpFieldAddr && addr.aux == fs.refs && namedOf(addr.args[0].typ) == fs.entry {
			return addr.args[0]
		}
		return nil
	}
	num := func(st *State, k string) int { return len(st.marks[k].S) }
	used := func(s *Sim, st *State, in ssa.Instruction, v *Term) {
		v = strip(v)
		if v.op != OpPure || v.aux != "lookup" || len(v.args) < 2 {
			return
		}
		tab := fs.tableOf(v.args[0], recv)
		if tab == "" {
			return
		}
		c.Ob("unknown", key+" "+tab, c.P.InstrPos(in))
		known := s.Eval(st, s.T.IsNil(v)) == 0
		for k, mk := range st.marks {
			if strings.HasPrefix(k, "ok:") && mk.T != nil && sameArgs(mk.T, v) && s.Eval(st, mk.T) == 1 {
				known = true
			}
		}
		if !known {
			c.Bad("unknown", key+" "+tab, c.P.InstrPos(in), "uses an entry that may not exist", s.Path(st))
		}
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return c.P.IsModule(ev.Callee) && c.P.Rel(ev.Callee) == rel
		},
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
		Instr: func(s *Sim, st *State, in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && lk.CommaOk {
				m := s.V(st, lk.X)
				if tab := fs.tableOf(m, recv); tab != "" {
					k := s.V(st, lk.Index)
					st.marks["looked:"+tab] = Mark{T: k}
				}
			}
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if cond.op == OpPure && cond.aux == "lookupok" {
				if tab := fs.tableOf(cond.args[0], recv); tab != "" {
					st.marks[fmt.Sprint("ok:", cond.id)] = Mark{T: cond}
					if !taken {
						st.marks["missing"] = Mark{T: cond.args[1], S: tab}
						if _, locked := st.marks["looked:"+tab]; locked {
							st.marks["fresh"] = Mark{T: cond.args[1], S: tab}
						}
					} else if tab == fs.inodes {
						st.marks["entry"] = Mark{T: s.T.intern(&Term{op: OpPure, aux: "lookup", typ: types.NewPointer(fs.entry), args: cond.args})}
					}
				}
			}
		},
		Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
			if addr.op == OpFieldAddr {
				used(s, st, in, addr.args[0])
			}
			if e := refsOf(addr); e != nil && e.op == OpPure && e.aux == "lookup" && fs.tableOf(e.args[0], recv) == fs.inodes {
				st.marks["entry"] = Mark{T: e}
			}
			if addr.op == OpFieldAddr && addr.aux == fs.next && addr.args[0] == recv {
				if st.marks["next"].T == nil {
					st.marks["next"] = Mark{T: val}
					st.marks["first"] = Mark{T: val}
				}
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			pos := c.P.InstrPos(in)
			if addr.op == OpFieldAddr {
				used(s, st, in, addr.args[0])
			}
			if e := refsOf(addr); e != nil {
				if e.op == OpAlloc && st.marks[fmt.Sprint("in:", e.id)].T == nil {
					return // an entry that is still being built
				}
				old := s.LoadAddr(st, addr, val.typ)
				d := s.T.Sub(val, old)
				if e.op == OpPure && st.marks["looked:"+fs.inodes].T != e.args[1] {
					c.Bad("owner", key+" lock", pos, "the inode's references change after the lock it was found under was given back", s.Path(st))
				}
				switch name {
				case "LookUpInode":
					if k, ok := d.IntConst(); !ok || k != 1 {
						c.Bad("lookup", key, pos, "the reference count changes by "+d.String(), s.Path(st))
					}
					st.marks["inc"] = Mark{T: e, S: st.marks["inc"].S + "+"}
				case "ForgetInode":
					n := opField(s, st, "N")
					if d != s.T.Sub(s.T.Int(0), n) {
						c.Bad("forget", key, pos, "the reference count changes by "+d.String()+", not by the number forgotten", s.Path(st))
					}
					if s.Eval(st, s.T.Lt(old, n)) != 0 {
						c.Bad("forget", key, pos, "the reference count may drop below zero", s.Path(st))
					}
					if s.Eval(st, s.T.Lt(n, old)) != 1 {
						c.Bad("forget", key, pos, "an inode without references is kept", s.Path(st))
					}
					st.marks["sub"] = Mark{T: e, S: st.marks["sub"].S + "-"}
				default:
					c.Bad("owner", key, pos, "changes a reference count", s.Path(st))
				}
			}
			if addr.op == OpFieldAddr && addr.aux == fs.next && addr.args[0] == recv {
				old := s.LoadAddr(st, addr, val.typ)
				if st.marks["next"].T == nil {
					c.Bad("handle", key, pos, "the next handle is computed before the lock is taken", s.Path(st))
				}
				if k, ok := s.T.Sub(val, old).IntConst(); !ok || k < 1 {
					c.Bad("handle", key, pos, "the next handle does not grow", s.Path(st))
				}
			}
		},
		MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
			pos := c.P.InstrPos(in)
			switch fs.tableOf(m, recv) {
			case fs.inodes:
				c.Ob("owner", key, pos)
				if name != "LookUpInode" {
					c.Bad("owner", key, pos, "inserts an inode", s.Path(st))
				}
				missing := false
				if mk := st.marks["fresh"]; mk.S == fs.inodes && mk.T == k {
					missing = true
				}
				if !missing {
					c.Bad("lookup", key, pos, "replaces an inode that may be present (or was added since it was looked for), losing its references", s.Path(st))
				}
				st.marks[fmt.Sprint("in:", v.id)] = Mark{T: k}
				if n, ok := structField(s, st, v, fs.entry, fs.refs).IntConst(); !ok || n < 0 || n > 9 {
					c.Bad("lookup", key, pos, "a new inode starts with an unknown number of references", s.Path(st))
				} else if n > 0 {
					st.marks["inc"] = Mark{T: v, S: st.marks["inc"].S + strings.Repeat("+", int(n))}
				}
			case fs.handles:
				c.Ob("owner", key, pos)
				if name != "OpenFile" {
					c.Bad("owner", key, pos, "inserts a file handle", s.Path(st))
				}
				if first := st.marks["next"].T; first == nil {
					c.Bad("handle", key, pos, "the handle was chosen before the lock was taken", s.Path(st))
				} else if _, ok := s.T.Sub(k, first).IntConst(); !ok {
					c.Bad("handle", key, pos, "the handle used is not the next unused one", s.Path(st))
				}
				st.marks["opened"] = Mark{T: k, S: st.marks["opened"].S + "+"}
				st.marks["openedv"] = Mark{T: strip(v)}
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			pos := c.P.InstrPos(ev.Site)
			if b := base(ev.Name); b == "Unlock" || b == "RUnlock" {
				for _, k := range []string{"fresh", "entry", "next", "looked:" + fs.inodes, "looked:" + fs.handles} {
					if mk, ok := st.marks[k]; ok && strings.HasPrefix(k, "looked:") {
						st.marks["was"+k] = mk
					}
					delete(st.marks, k)
				}
			}
			if ev.Name == "delete" && len(ev.Args) == 2 {
				switch fs.tableOf(ev.Args[0], recv) {
				case fs.inodes:
					c.Ob("forget", key, pos)
					c.Ob("root", key, pos)
					k := ev.Args[1]
					if name != "ForgetInode" {
						c.Bad("owner", key, pos, "deletes an inode", s.Path(st))
						return
					}
					if k != opField(s, st, "Inode") {
						c.Bad("forget", key, pos, "deletes another inode than the one forgotten", s.Path(st))
					}
					if s.Eval(st, s.T.Eq(k, s.T.Int(1))) != 0 {
						c.Bad("root", key, pos, "the root inode may be deleted", s.Path(st))
					}
					e, n := st.marks["entry"].T, opField(s, st, "N")
					if e == nil || e.args[1] != k {
						c.Bad("forget", key, pos, "an inode is deleted without looking at its references", s.Path(st))
						return
					}
					old := structField(s, st, e, fs.entry, fs.refs)
					if s.Eval(st, s.T.Lt(n, old)) != 0 && s.Eval(st, s.T.Eq(old, s.T.Int(0))) != 1 {
						c.Bad("forget", key, pos, "an inode that still has references is deleted", s.Path(st))
					}
					st.marks["del"] = Mark{S: st.marks["del"].S + "x"}
				case fs.handles:
					c.Ob("owner", key, pos)
					if name != "ReleaseFileHandle" {
						c.Bad("owner", key, pos, "removes a file handle", s.Path(st))
						return
					}
					if st.marks["looked:"+fs.handles].T != ev.Args[1] {
						c.Bad("release", key, pos, "the handle is removed after the lock it was found under was given back", s.Path(st))
					}
					if ev.Args[1] != opField(s, st, "Handle") {
						c.Bad("release", key, pos, "removes another handle than the one released", s.Path(st))
					}
					st.marks["del"] = Mark{S: st.marks["del"].S + "x"}
				}
				return
			}
			if len(ev.Args) > 0 && ev.Common.IsInvoke() {
				used(s, st, ev.Site, ev.Args[0])
				r := strip(ev.Args[0])
				if base(ev.Name) == "Close" && r.op == OpPure && r.aux == "lookup" && fs.tableOf(r.args[0], recv) == fs.handles {
					st.marks["closed"] = Mark{T: r.args[1], S: st.marks["closed"].S + "x"}
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "OpenExtent" {
				st.marks["obj"] = Mark{T: s.Res(ev, 0)}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			okv := s.Eval(st, s.T.IsNil(res[0]))
			miss, missing := st.marks["missing"]
			// an entry not found and then inserted is not missing any more
			if missing && st.marks["openedv"].T == nil {
				for k, mk := range st.marks {
					if strings.HasPrefix(k, "in:") && mk.T == miss.T {
						missing = false
					}
				}
			}
			if missing && okv != 0 && !strings.HasPrefix(name, "Release") {
				c.Bad("unknown", key+" "+miss.S, pos, "reports success for an unknown inode or handle", s.Path(st))
			}
			switch name {
			case "LookUpInode":
				c.Ob("lookup", key, pos)
				n := num(st, "inc")
				if okv == 0 && n > 0 {
					c.Bad("lookup", key, pos, "a failed lookup adds a reference", s.Path(st))
				}
				if okv != 0 {
					if n != 1 {
						c.Bad("lookup", key, pos, fmt.Sprintf("a successful lookup adds %d references", n), s.Path(st))
						return
					}
					e := st.marks["inc"].T
					var k *Term
					if e.op == OpPure && e.aux == "lookup" && fs.tableOf(e.args[0], recv) == fs.inodes {
						k = e.args[1]
					} else if mk := st.marks[fmt.Sprint("in:", e.id)]; mk.T != nil {
						k = mk.T
						v := structField(s, st, e, fs.entry, fs.refs)
						if i, ok := v.IntConst(); !ok || i != 1 {
							c.Bad("lookup", key, pos, "a new inode starts with "+v.String()+" references", s.Path(st))
						}
					}
					if k == nil {
						c.Bad("lookup", key, pos, "the reference is added to an entry that is not in the inode table", s.Path(st))
						return
					}
					child := s.p24child(st, op)
					if child == nil || child != k {
						c.Bad("lookup", key, pos, fmt.Sprintf("the inode returned (%v) is not the one referenced (%s)", child, k), s.Path(st))
					}
				}
			case "ForgetInode":
				c.Ob("forget", key, pos)
				n := num(st, "sub") + num(st, "del")
				ino := opField(s, st, "Inode")
				if okv != 0 && n != 1 && s.Eval(st, s.T.Eq(ino, s.T.Int(1))) != 1 {
					c.Bad("forget", key, pos, fmt.Sprintf("a forget is applied %d times", n), s.Path(st))
				}
			case "OpenFile":
				c.Ob("handle", key, pos)
				n := num(st, "opened")
				if okv == 0 && n > 0 {
					c.Bad("handle", key, pos, "a failed open keeps a handle", s.Path(st))
				}
				if okv != 0 {
					if n != 1 {
						c.Bad("handle", key, pos, "a file is opened without a handle", s.Path(st))
						return
					}
					h := st.marks["opened"].T
					if st.marks["obj"].T == nil || st.marks["openedv"].T != st.marks["obj"].T {
						c.Bad("handle", key, pos, "the handle does not refer to the opened object", s.Path(st))
					}
					if opField(s, st, "Handle") != h {
						c.Bad("handle", key, pos, "the handle returned is not the one that was registered", s.Path(st))
					}
					next := structField(s, st, recv, fs.T, fs.next)
					if k, ok := s.T.Sub(next, st.marks["first"].T).IntConst(); !ok || k < 1 {
						c.Bad("handle", key, pos, "the same handle is given out again", s.Path(st))
					}
				}
			case "ReleaseFileHandle":
				c.Ob("release", key, pos)
				if !missing {
					if num(st, "del") != 1 || num(st, "closed") != 1 {
						c.Bad("release", key, pos, fmt.Sprintf("a known handle is removed %d times and closed %d times", num(st, "del"), num(st, "closed")), s.Path(st))
					}
				}
				if k := st.marks["closed"].T; k != nil && k != opField(s, st, "Handle") {
					c.Bad("release", key, pos, "another file is closed than the one released", s.Path(st))
				}
			case "ReadFile":
				k := st.marks["waslooked:"+fs.handles].T
				if k == nil {
					k = st.marks["looked:"+fs.handles].T
				}
				if okv != 0 && (k == nil || k != opField(s, st, "Handle")) {
					c.Bad("unknown", key+" "+fs.handles, pos, "a read succeeds without looking up its handle", s.Path(st))
				}
			}
		},
	})
	s.Depth = 5
	c.Run(s, fn, func(st *State, ps, _ []*Term) {
		recv, op = ps[0], ps[2]
		for _, f := range []string{"Inode", "Handle", "N"} {
			if v := opField(s, st, f); v != nil {
				st.marks["op:"+f] = Mark{T: v} // keeps what is known about it
			}
		}
	})
}

func sameArgs(a, b *Term) bool {
	if len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	return true
}

// p24child: the inode number a lookup returns.
func (s *Sim) p24child(st *State, op *Term) *Term {
	n := namedOf(op.typ)
	e := structField(s, st, op, n, "Entry")
	if e == nil {
		return nil
	}
	if e.op == OpStruct || e.op == OpField || e.op == OpLoad {
		return s.valField(e, "Child", types.Typ[types.Uint64])
	}
	return nil
}

func init() { checks["P24"] = checkP24 }
