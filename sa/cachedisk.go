package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P08 and P25: the disk cache.

func structField(s *Sim, st *State, b *Term, n *types.Named, name string) *Term {
	stt, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == name {
			return s.LoadAddr(st, s.T.FieldAddr(b, i, name, types.NewPointer(stt.Field(i).Type())), stt.Field(i).Type())
		}
	}
	return nil
}

// diskTypes: slice implementers of the caching package that keep their blocks in storage.
func diskTypes(c *Check) []*types.Named {
	si := c.P.Iface("pkg/caching", "Slice")
	if si == nil {
		return nil
	}
	var out []*types.Named
	for _, n := range c.P.Implementers(si) {
		if c.P.relPkg(n) != "pkg/caching" {
			continue
		}
		for _, m := range c.P.methods(n) {
			if touches(c.P, m, func(cc *ssa.CallCommon) bool { return isStorageOp(c.P, cc, "Create") }) {
				out = append(out, n)
				break
			}
		}
	}
	return out
}

func isStorageOp(p *Prog, cc *ssa.CallCommon, ops ...string) bool {
	return storageOp(p.calleeName(cc), ops...)
}

func storageOp(n string, ops ...string) bool {
	if !strings.HasPrefix(n, "pkg/storage.") {
		return false
	}
	b := strings.TrimSuffix(base(n), "Context")
	for _, o := range ops {
		if b == o {
			return true
		}
	}
	return false
}

// pathArg: the first string argument.
func pathArg(args []*Term) *Term {
	for _, a := range args {
		if a.typ != nil && isBasic(types.String)(a.typ) {
			return a
		}
	}
	return nil
}

func checkP08(c *Check) {
	c.Rule("keyed-read", "a cached file is read only after the key recorded with it was found equal to the key of the block", 1)
	c.Rule("lock", "a cache file is committed only while the lock of that file is held", 1)
	c.Rule("source", "a cache file is committed, and block data served, only after the whole block was read from the source", 1)
	c.Rule("written", "a cache file is committed only after the whole block was written to it", 1)
	c.Rule("recorded", "a cache file is committed only after the block's key and the checksum of the written data were recorded with it", 1)
	c.Rule("buffer", "a pooled buffer is not used after it was given back or handed to the background write", 1)
	c.Rule("served", "once the block was read from the source the read succeeds, whatever becomes of the cache file", 1)
	c.Rule("block-key", "the key of a block is made of the object's URL and the block's position and length, and the slice holds the block the key names", 1)
	c.Rule("verify", "the integrity check recomputes what the writer recorded", 1)
	ts := diskTypes(c)
	if len(ts) != 1 {
		c.Bad("undecided", "disk slice", "?", fmt.Sprintf("%d slice types writing cache files were found, one is expected", len(ts)), nil)
		return
	}
	x := &p08{c: c, n: ts[0]}
	if !x.slicers() {
		return
	}
	for _, m := range c.P.methods(ts[0]) {
		if touches(c.P, m, func(cc *ssa.CallCommon) bool { return isStorageOp(c.P, cc, "Open", "Create") }) && c.P.IsTop(m) {
			x.run(m)
		}
	}
	x.verify()
}

type p08 struct {
	c                       *Check
	n                       *types.Named
	fKey, fObj, fOff, fSize string
	keyName, sumName        string // attribute names
	sumNew, sumSum, sumPut  string // hash constructor, digest, encoder
}

// slicers: the slice's fields that hold key, object, offset and length, as the slicer sets them.
func (x *p08) slicers() bool {
	c := x.c
	sli := c.P.Iface("pkg/caching", "Slicer")
	ok := false
	for _, n := range c.P.Implementers(sli) {
		m := c.P.Method(n, "Slice")
		if m == nil || c.P.Rel(m) != "pkg/caching" {
			continue
		}
		key := c.P.FnName(m)
		var obj, off *Term
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Name == "encoding/json.Marshal" {
					a := strip(ev.Args[0])
					n := namedOf(deref(a.typ))
					if n == nil {
						return
					}
					stt, _ := n.Underlying().(*types.Struct)
					if stt == nil {
						return
					}
					var parts []string
					for i := 0; i < stt.NumFields(); i++ {
						var v *Term
						if a.op == OpAlloc {
							v = structField(s, st, a, n, stt.Field(i).Name())
						} else if a.op == OpStruct && i < len(a.args) {
							v = a.args[i]
						}
						tag := stt.Tag(i)
						if v == nil || !stt.Field(i).Exported() || strings.Contains(tag, `json:"-`) || strings.Contains(tag, "omitempty") {
							continue
						}
						k := fmt.Sprintf("part%d", len(parts))
						st.marks[k] = Mark{T: v}
						parts = append(parts, k)
					}
					st.marks["nparts"] = Mark{S: fmt.Sprint(len(parts))}
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if mk, ok := st.marks["nparts"]; ok && ev.Name == "encoding/json.Marshal" {
					out := s.fork(st, ev, nil)
					st.marks["key"] = Mark{T: s.Res(ev, 0), S: mk.S}
					return out
				}
				return nil
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				sl := strip(res[0])
				if namedOf(deref(sl.typ)) != x.n {
					return
				}
				pos := c.P.InstrPos(in)
				c.Ob("block-key", key, pos)
				stt := x.n.Underlying().(*types.Struct)
				get := func(f string) *Term { return structField(s, st, sl, x.n, f) }
				kf := fieldBy(x.n, isBytes)
				if kf == "" {
					c.Bad("undecided", key, pos, "the slice does not have one key field", nil)
					return
				}
				k := strip(get(kf))
				var size []*Term
				if mk, ok2 := st.marks["key"]; ok2 && mk.T == k {
					var parts []*Term
					n := 0
					fmt.Sscan(mk.S, &n)
					for i := 0; i < n; i++ {
						parts = append(parts, st.marks[fmt.Sprintf("part%d", i)].T)
					}
					size = blockParts(c, "block-key", s, st, key, pos, parts, obj, off)
				} else {
					size = blockKey(c, "block-key", s, st, key, pos, k, obj, off)
				}
				if size == nil {
					return
				}
				x.fKey = kf
				var ints []string
				for i := 0; i < stt.NumFields(); i++ {
					f := stt.Field(i).Name()
					v := strip(get(f))
					switch {
					case v == obj:
						x.fObj = f
					case v == off && isInt(stt.Field(i).Type()):
						x.fOff = f
					case oneOf(v, size) && isInt(stt.Field(i).Type()):
						ints = append(ints, f)
					}
				}
				// on one path the block's length is the cache's block size: the length field is the one right on all
				if x.fSize == "" && len(ints) == 1 {
					x.fSize = ints[0]
				}
				hit := false
				for _, f := range ints {
					if f == x.fSize || x.fSize == "" {
						hit = true
					}
				}
				if x.fObj == "" || x.fOff == "" || !hit {
					c.Bad("block-key", key, pos, "the slice does not hold the object, offset and length its key names", s.Path(st))
					return
				}
				ok = true
			},
		})
		c.Run(s, m, func(st *State, ps, fs []*Term) {
			obj, off = ps[1], ps[2]
			st.marks["obj"] = Mark{T: obj}
			st.marks["off"] = Mark{T: off}
		})
	}
	if ok && x.fSize == "" {
		c.Bad("undecided", "disk slice", "?", "the field holding the block's length was not identified", nil)
		return false
	}
	return ok
}

func (x *p08) run(m *ssa.Function) {
	c := x.c
	key := c.P.FnName(m)
	var recv *Term
	is := func(t *Term, f string) bool { return t != nil && fieldLoad(strip(t), f) == recv }
	id := func(pre string, t *Term) string { return fmt.Sprintf("%s:%d", pre, strip(t).id) }
	get := func(st *State, pre string, t *Term) (Mark, bool) {
		mk, ok := st.marks[id(pre, t)]
		return mk, ok
	}
	sliceBase := func(t *Term) *Term {
		t = strip(t)
		if t.op == OpSlice {
			return strip(t.args[0])
		}
		return t
	}
	wholeBlock := func(s *Sim, t *Term) bool {
		t = strip(t)
		return t.op == OpSlice && t.args[1] == s.T.Int(0) && is(t.args[2], x.fSize)
	}
	// equalKeys: the attribute value v is known to equal the slice's key
	equalKeys := func(s *Sim, st *State, v *Term) bool {
		for k, mk := range st.marks {
			if !strings.HasPrefix(k, "eq:") || mk.S != "true" {
				continue
			}
			t := mk.T
			if len(t.args) == 2 {
				a, b := strip(t.args[0]), strip(t.args[1])
				if a == v && is(b, x.fKey) || b == v && is(a, x.fKey) {
					return true
				}
			}
		}
		return false
	}
	used := func(s *Sim, st *State, t *Term, pos string) {
		b := sliceBase(t)
		if _, ok := get(st, "B", b); !ok {
			return
		}
		c.Ob("buffer", key, pos)
		if _, ok := get(st, "put", b); ok {
			c.Bad("buffer", key, pos, "the buffer is used after it was given back to the pool: another block's data may be in it", s.Path(st))
		}
		if mk, ok := st.marks["spawn"]; ok && goID(st) == 0 && mk.S == "go" {
			c.Bad("buffer", key, pos, "the buffer is used after the background write took it over, which may already have given it back", s.Path(st))
		}
	}
	s := c.Sim(Hooks{
		Inline:  pkgInline(c),
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return false },
		Go:      func(s *Sim, st *State, ev *CallEv) bool { st.marks["spawn"] = Mark{S: "go"}; return true },
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if cond.op == OpPure && cond.aux == "bytes.Equal" || cond.op == OpEq {
				st.marks[fmt.Sprintf("eq:%d", cond.id)] = Mark{S: fmt.Sprint(taken), T: cond}
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			pos := c.P.InstrPos(ev.Site)
			if ev.Callee != nil && c.P.IsModule(ev.Callee) && c.P.Rel(ev.Callee) == c.P.Rel(m) {
				return
			}
			nm := base(ev.Name)
			if nm != "Put" && nm != "len" && nm != "cap" {
				for _, a := range ev.Args {
					used(s, st, a, pos)
				}
			}
			if ev.Common.IsInvoke() {
				if h, ok := get(st, "H", ev.Args[0]); ok && (nm == "ReadAt" || nm == "Read" || nm == "WriteTo") {
					c.Ob("keyed-read", key, pos)
					ok := false
					for k, mk := range st.marks {
						if strings.HasPrefix(k, "A:") && mk.T == h.T && equalKeys(s, st, x.attrVal(st, k)) {
							ok = true
						}
					}
					if !ok {
						c.Bad("keyed-read", key, pos, "a cached file is read without having found that the key recorded with it is the block's key", s.Path(st))
					}
				}
			}
			for i, a := range ev.Args {
				if i == 0 && ev.Common.IsInvoke() {
					continue
				}
				if _, ok := get(st, "H", a); ok && strings.HasPrefix(ev.Name, "io.") {
					c.Bad("keyed-read", key, pos, "a cached file is handed to "+ev.Name, s.Path(st))
				}
			}
			if nm == "copy" {
				b := sliceBase(ev.Args[1])
				if _, ok := get(st, "B", b); ok {
					c.Ob("source", key+" copy", pos)
					if _, ok := get(st, "src", b); !ok {
						c.Bad("source", key+" copy", pos, "bytes are served from a buffer the block was not completely read into", s.Path(st))
					}
					if t := strip(ev.Args[1]); t.op != OpSlice || !is(t.args[2], x.fSize) {
						c.Bad("source", key+" copy", pos, "the bytes served are not limited to the block", s.Path(st))
					}
					st.marks["copied"] = Mark{S: "y"}
				}
			}
			if strings.HasSuffix(ev.Name, ").Commit") && ev.Common.IsInvoke() {
				w, ok := get(st, "W", ev.Args[0])
				if !ok {
					return
				}
				for _, r := range []string{"lock", "source", "written", "recorded"} {
					c.Ob(r, key, pos)
				}
				held := false
				for k, mk := range st.marks {
					if strings.HasPrefix(k, "lock:") && mk.T != nil && x.lockFor(mk.T, st.marks["path"+id("W", ev.Args[0])].T) {
						held = true
					}
				}
				if !held {
					c.Bad("lock", key, pos, "the cache file is committed without holding the lock of that file", s.Path(st))
				}
				wr, ok := st.marks["wrote"+id("W", ev.Args[0])]
				if !ok {
					c.Bad("written", key, pos, "the cache file is committed without the whole block having been written to it successfully", s.Path(st))
				} else if _, ok := get(st, "src", wr.T); !ok {
					c.Bad("source", key, pos, "the cache file is committed although the block was not completely read from the source", s.Path(st))
				}
				if _, ok := st.marks["key"+id("W", ev.Args[0])]; !ok {
					c.Bad("recorded", key, pos, "the cache file is committed without its key having been recorded", s.Path(st))
				}
				if _, ok := st.marks["sum"+id("W", ev.Args[0])]; !ok {
					c.Bad("recorded", key, pos, "the cache file is committed without the checksum of its data having been recorded", s.Path(st))
				}
				_ = w
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Inlined {
				return nil
			}
			pos := c.P.InstrPos(ev.Site)
			nm := base(ev.Name)
			switch {
			case storageOp(ev.Name, "Open"):
				out := s.fork(st, ev, nil)
				h := strip(s.Res(ev, 0))
				s.Assume(st, s.T.IsNil(h), false)
				st.marks[id("H", h)] = Mark{T: h}
				return out
			case storageOp(ev.Name, "Lock"):
				out := s.fork(st, ev, nil)
				l := strip(s.Res(ev, 0))
				st.marks[id("lock", l)] = Mark{T: pathArg(ev.Args)}
				return out
			case storageOp(ev.Name, "Create"):
				out := s.fork(st, ev, nil)
				w := strip(s.Res(ev, 0))
				s.Assume(st, s.T.IsNil(w), false)
				st.marks[id("W", w)] = Mark{T: w}
				st.marks["path"+id("W", w)] = Mark{T: pathArg(ev.Args)}
				return out
			case nm == "Close" && len(ev.Args) == 1:
				delete(st.marks, id("lock", ev.Args[0]))
			case strings.HasSuffix(ev.Name, ").GetXattr"):
				if h, ok := get(st, "H", ev.Args[0]); ok {
					out := s.fork(st, ev, nil)
					if n, ok := ev.Args[1].StrConst(); ok {
						v := strip(s.Res(ev, 0))
						x.attrName("key", n, pos)
						st.marks[fmt.Sprintf("A:%d", v.id)] = Mark{T: h.T}
						st.marks[fmt.Sprintf("AV:%d", v.id)] = Mark{T: v}
					}
					return out
				}
			case ev.Name == "(*sync.Pool).Get":
				b := strip(ev.Result)
				st.marks[id("B", b)] = Mark{T: b}
			case ev.Name == "(*sync.Pool).Put" && len(ev.Args) == 2:
				st.marks[id("put", sliceBase(ev.Args[1]))] = Mark{S: "put"}
			case ev.Name == "io.NewSectionReader":
				r := strip(ev.Result)
				if is(ev.Args[0], x.fObj) && is(ev.Args[1], x.fOff) {
					st.marks[id("R", r)] = Mark{T: r}
				}
			case ev.Name == "io.ReadFull" || nm == "ReadAt" && len(ev.Args) == 3 && is(ev.Args[0], x.fObj):
				b := sliceBase(ev.Args[1])
				if _, ok := get(st, "B", b); !ok && b.op == OpMake {
					st.marks[id("B", b)] = Mark{T: b}
				}
				if _, ok := get(st, "B", b); !ok {
					return nil
				}
				ok := nm == "ReadAt" && is(ev.Args[2], x.fOff)
				if ev.Name == "io.ReadFull" {
					_, ok = get(st, "R", ev.Args[0])
				}
				out := s.fork(st, ev, func(o *State) { delete(o.marks, id("src", b)) })
				if !s.Assume(st, s.T.Eq(s.Res(ev, 0), s.Len(ev.Args[1])), true) {
					st.dead = true
				}
				if ok && wholeBlock(s, ev.Args[1]) {
					st.marks[id("src", b)] = Mark{T: b}
					st.marks["served"] = Mark{S: "y"}
				} else {
					c.Bad("source", key, pos, "what is read from the source is not the block the slice stands for", s.Path(st))
				}
				return out
			case ev.Name == "io.MultiWriter" || ev.Name == "io.TeeReader":
				t := strip(ev.Result)
				for i, a := range ev.VArgs {
					st.marks[fmt.Sprintf("M:%d:%d", t.id, i)] = Mark{T: strip(a)}
				}
			case nm == "Write" && len(ev.Args) == 2:
				d := sliceBase(ev.Args[1])
				targets := []*Term{strip(ev.Args[0])}
				for k, mk := range st.marks {
					if strings.HasPrefix(k, fmt.Sprintf("M:%d:", strip(ev.Args[0]).id)) {
						targets = append(targets, mk.T)
					}
				}
				if E := s.ErrRes(ev); E == nil {
					return nil
				}
				out := s.fork(st, ev, nil)
				if wholeBlock(s, ev.Args[1]) {
					for _, t := range targets {
						if _, ok := get(st, "W", t); ok {
							st.marks["wrote"+id("W", t)] = Mark{T: d}
						} else {
							st.marks[id("hashed", t)] = Mark{T: d}
						}
					}
				}
				return out
			case strings.HasPrefix(ev.Name, "(encoding/binary.") && strings.HasPrefix(nm, "Put"):
				st.marks[id("enc", sliceBase(ev.Args[1]))] = Mark{S: ev.Name, T: strip(ev.Args[2])}
			case strings.HasSuffix(ev.Name, ").SetXattr") && len(ev.Args) == 3:
				if _, ok := get(st, "W", ev.Args[0]); !ok {
					return nil
				}
				n, ok := ev.Args[1].StrConst()
				if !ok {
					return nil
				}
				out := s.fork(st, ev, nil)
				if is(ev.Args[2], x.fKey) {
					x.attrName("key", n, pos)
					st.marks["key"+id("W", ev.Args[0])] = Mark{S: n}
				} else if e, ok := get(st, "enc", sliceBase(ev.Args[2])); ok && len(e.T.args) > 0 {
					// the checksum: digest of a hash that was given the whole block
					h := strip(e.T.args[0])
					if d, ok := get(st, "hashed", h); ok {
						if wr, ok := st.marks["wrote"+id("W", ev.Args[0])]; ok && wr.T == d.T {
							x.attrName("sum", n, pos)
							x.sumPut, x.sumSum, x.sumNew = e.S, e.T.aux, h.aux
							st.marks["sum"+id("W", ev.Args[0])] = Mark{S: n}
						}
					}
				}
				return out
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			if _, ok := st.marks["served"]; !ok {
				return
			}
			c.Ob("served", key, pos)
			if n := len(res); n > 0 && isErrorType(in.Parent().Signature.Results().At(n-1).Type()) {
				if s.Eval(st, s.T.IsNil(res[n-1])) != 1 {
					c.Bad("served", key, pos, "the read fails although the block was read from the source", s.Path(st))
				} else if _, ok := st.marks["copied"]; !ok {
					c.Bad("served", key, pos, "the read succeeds without the block's data having been copied to the caller", s.Path(st))
				}
			}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			// a new attempt starts from nothing
			for k := range st.marks {
				if k != "recv" && !strings.HasPrefix(k, "lock:") {
					delete(st.marks, k)
				}
			}
		},
	})
	s.Depth = 8
	c.Run(s, m, func(st *State, ps, fs []*Term) {
		recv = ps[0]
		st.marks["recv"] = Mark{T: recv}
	})
}

func (x *p08) attrVal(st *State, k string) *Term {
	return st.marks["AV:"+strings.TrimPrefix(k, "A:")].T
}

func (x *p08) attrName(kind, n, pos string) {
	p := &x.keyName
	if kind == "sum" {
		p = &x.sumName
	}
	if *p == "" {
		*p = n
	}
	if *p != n {
		x.c.Bad("recorded", "attribute "+kind, pos, "the "+kind+" is recorded under "+*p+" in one place and "+n+" in another", nil)
	}
	if x.keyName != "" && x.keyName == x.sumName {
		x.c.Bad("recorded", "attribute names", pos, "key and checksum are recorded under one name", nil)
	}
}

// lockFor: the lock path is derived from the whole file name.
func (x *p08) lockFor(lock, file *Term) bool {
	if file == nil {
		return false
	}
	if lock.op != OpPure && lock.op != OpBin && lock.op != OpOpaque {
		return false
	}
	if !lock.has(file) {
		return false
	}
	// both the directory and the name have to be in it
	dir := lock.any(func(u *Term) bool { return u.op == OpPure && base(u.aux) == "Dir" && u.args[0] == file })
	nm := lock.any(func(u *Term) bool { return u.op == OpPure && base(u.aux) == "Base" && u.args[0] == file })
	direct := false
	for _, a := range append([]*Term{}, lock.args...) {
		if a == file {
			direct = true
		}
	}
	return dir && nm || direct
}

// verify: the integrity check reads the recorded checksum and compares it with that of the whole file.
func (x *p08) verify() {
	c := x.c
	done := false
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != "pkg/caching" || !c.P.IsTop(fn) {
			continue
		}
		if !touches(c.P, fn, func(cc *ssa.CallCommon) bool { return base(c.P.calleeName(cc)) == "GetXattr" }) ||
			touches(c.P, fn, func(cc *ssa.CallCommon) bool { return isStorageOp(c.P, cc, "Create") }) {
			continue
		}
		done = true
		x.verifyFn(fn)
	}
	if !done {
		c.Bad("verify", "integrity check", "?", "no integrity check was found", nil)
	}
}

func (x *p08) verifyFn(fn *ssa.Function) {
	c := x.c
	key := c.P.FnName(fn)
	id := func(pre string, t *Term) string { return fmt.Sprintf("%s:%d", pre, strip(t).id) }
	clear := func(st *State) {
		for k := range st.marks {
			if k != "recv" {
				delete(st.marks, k)
			}
		}
	}
	// checked: on this path the opened file was compared and found equal
	checked := func(s *Sim, st *State) (bool, string) {
		if _, ok := st.marks["opened"]; !ok {
			return true, ""
		}
		if _, ok := st.marks["same"]; !ok {
			return false, "a cached file passes the integrity check without its checksum having been found right"
		}
		return true, ""
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Inlined {
				return nil
			}
			pos := c.P.InstrPos(ev.Site)
			nm := base(ev.Name)
			switch {
			case storageOp(ev.Name, "Open"):
				out := s.fork(st, ev, nil)
				h := strip(s.Res(ev, 0))
				s.Assume(st, s.T.IsNil(h), false)
				st.marks["opened"] = Mark{T: h}
				c.Ob("verify", key, pos)
				return out
			case nm == "GetXattr":
				out := s.fork(st, ev, nil)
				if n, ok := ev.Args[1].StrConst(); ok && strip(ev.Args[0]) == st.marks["opened"].T {
					if n != x.sumName {
						c.Bad("verify", key, pos, "the integrity check looks at attribute "+n+", the checksum is recorded as "+x.sumName, s.Path(st))
					}
					st.marks[id("A", s.Res(ev, 0))] = Mark{T: s.Res(ev, 0)}
				}
				return out
			case ev.Name == "io.Copy":
				if strip(ev.Args[1]) == st.marks["opened"].T {
					out := s.fork(st, ev, nil)
					st.marks[id("hashed", ev.Args[0])] = Mark{T: strip(ev.Args[0])}
					return out
				}
			case strings.HasPrefix(ev.Name, "(encoding/binary.") && !strings.HasPrefix(nm, "Put"):
				if _, ok := st.marks[id("A", ev.Args[1])]; ok {
					st.marks[id("want", ev.Result)] = Mark{S: ev.Name, T: ev.Result}
				}
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if !taken {
				return
			}
			var l, r *Term
			switch {
			case cond.op == OpEq:
				l, r = cond.args[0], cond.args[1]
			case cond.op == OpEq0:
				ms, k := s.T.toPoly(cond.args[0])
				if len(ms) == 2 && k == 0 && ms[0].c == -ms[1].c && len(ms[0].a) == 1 && len(ms[1].a) == 1 {
					l, r = ms[0].a[0], ms[1].a[0]
				}
			}
			if l == nil {
				return
			}
			for i := 0; i < 2; i++ {
				if w, ok := st.marks[id("want", l)]; ok && len(r.args) > 0 {
					h := strip(r.args[0])
					if _, ok := st.marks[id("hashed", h)]; ok {
						pos := c.P.InstrPos(in)
						if x.sumNew != "" && (h.aux != x.sumNew || r.aux != x.sumSum) {
							c.Bad("verify", key, pos, "the integrity check computes another checksum than the one recorded", s.Path(st))
						}
						if x.sumPut != "" && strings.Replace(x.sumPut, ").Put", ").", 1) != w.S {
							c.Bad("verify", key, pos, "the recorded checksum is decoded differently from how it was encoded", s.Path(st))
						}
						st.marks["same"] = Mark{S: "y"}
					}
				}
				l, r = r, l
			}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			if ok, msg := checked(s, st); !ok {
				c.Bad("verify", key, c.P.Pos(fn.Pos()), msg, s.Path(st))
			}
			clear(st)
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			if ok, msg := checked(s, st); !ok {
				c.Bad("verify", key, c.P.InstrPos(in), msg, s.Path(st))
			}
		},
	})
	c.Run(s, fn, nil)
	_ = token.NoPos
}

func init() { checks["P08"] = checkP08 }

// ---- P25 ----

// deletes: calls that remove something from storage or the file system.
func isRemoval(n string) bool {
	switch n {
	case "os.Remove", "os.RemoveAll", "syscall.Unlink", "syscall.Rmdir", "golang.org/x/sys/unix.Unlink", "golang.org/x/sys/unix.Unlinkat", "golang.org/x/sys/unix.Rmdir", "os.Truncate", "os.Rename":
		return true
	}
	return storageOp(n, "Remove") || strings.HasSuffix(n, ".Remover).Remove")
}

func checkP25(c *Check) {
	c.Rule("needed", "an entry is removed only after the threshold demanded it for file system statistics taken since the previous removal", 1)
	c.Rule("victim", "what is removed is a path handed out by the iterator over the cache's blocks", 1)
	c.Rule("block-file", "the iterator hands out only regular files of block directories that are neither lock files nor temporary files", 1)
	c.Rule("block-dir", "block directories are two-letter directories below the cache root", 1)
	c.Rule("only-gc", "nothing else in the cache removes anything", 1)
	c.Rule("threshold", "the threshold asks for space only when less is available than was asked for", 1)
	const rel = "pkg/caching"
	ti := c.P.Iface(rel, "GcThreshold")
	if ti == nil {
		c.Bad("undecided", "GcThreshold", "?", "the threshold interface was not found", nil)
		return
	}
	removes := func(cc *ssa.CallCommon) bool { return isRemoval(c.P.calleeName(cc)) }
	asks := func(cc *ssa.CallCommon) bool {
		return cc.IsInvoke() && types.Identical(cc.Value.Type().Underlying(), ti) || cc.IsInvoke() && cc.Method.Name() == ti.Method(0).Name()
	}
	covered := map[*ssa.Function]bool{}
	iters := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != rel || !c.P.IsTop(fn) || !touches(c.P, fn, removes) {
			continue
		}
		if !touches(c.P, fn, asks) {
			c.Ob("only-gc", c.P.FnName(fn), c.P.Pos(fn.Pos()))
			c.Bad("only-gc", c.P.FnName(fn), c.P.Pos(fn.Pos()), "this operation of the cache can remove stored objects although it is not the garbage collection", nil)
			continue
		}
		c.p25gc(fn, ti, covered, iters)
	}
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) == rel && c.P.IsTop(fn) {
			c.Ob("only-gc", c.P.FnName(fn), c.P.Pos(fn.Pos()))
		}
	}
	if len(iters) == 0 {
		c.Bad("undecided", "iterator", "?", "no iterator over cache blocks was found", nil)
	}
	for it := range iters {
		c.p25iter(it)
	}
	for _, n := range c.P.Implementers(ti) {
		if m := c.P.Method(n, ti.Method(0).Name()); m != nil && c.P.IsModule(m) {
			c.p25threshold(m)
		}
	}
}

func (c *Check) p25gc(fn *ssa.Function, ti *types.Interface, covered, iters map[*ssa.Function]bool) {
	key := c.P.FnName(fn)
	id := func(pre string, t *Term) string { return fmt.Sprintf("%s:%d", pre, strip(t).id) }
	ask := ti.Method(0).Name()
	isIter := func(f *ssa.Function) bool {
		r := f.Signature.Results()
		return f.Signature.Recv() != nil && r.Len() == 2 && isBasic(types.String)(r.At(0).Type()) && isBool(r.At(1).Type()) &&
			touches(c.P, f, func(cc *ssa.CallCommon) bool { return isStorageOp(c.P, cc, "Readdir") })
	}
	var recv *Term
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && !isIter(ev.Callee)
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if mk, ok := st.marks[id("ask", cond)]; ok && mk.T == cond {
				if taken {
					st.marks["need"] = Mark{S: "y"}
				} else {
					st.marks["need"] = Mark{S: "n"}
				}
			}
			if mk, ok := st.marks[id("more", cond)]; ok {
				if taken {
					st.marks[id("victim", mk.T)] = Mark{T: mk.T}
				}
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if !isRemoval(ev.Name) {
				return
			}
			pos := c.P.InstrPos(ev.Site)
			c.Ob("needed", key, pos)
			c.Ob("victim", key, pos)
			switch {
			case st.marks["need"].S == "n":
				c.Bad("needed", key, pos, "an entry is removed although the threshold did not ask for space", s.Path(st))
			case st.marks["need"].S == "":
				c.Bad("needed", key, pos, "an entry is removed without the threshold having asked for space since the last removal", s.Path(st))
			}
			p := pathArg(ev.Args)
			if p == nil || !storageOp(ev.Name, "Remove") {
				c.Bad("victim", key, pos, "something is removed with "+ev.Name, s.Path(st))
			} else if _, ok := st.marks[id("victim", p)]; !ok {
				c.Bad("victim", key, pos, "what is removed was not handed out by the iterator over cache blocks", s.Path(st))
			}
			for k := range st.marks {
				if k != "recv" {
					delete(st.marks, k)
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			nm := base(ev.Name)
			switch {
			case nm == "Statfs":
				out := s.fork(st, ev, func(o *State) { delete(o.marks, "stat") })
				root := false
				if p := pathArg(ev.Args); p != nil && p.op == OpLoad && p.args[0].op == OpFieldAddr && p.args[0].args[0] == recv {
					root = true
				}
				if !root {
					c.Bad("needed", key, c.P.InstrPos(ev.Site), "the statistics are not those of the cache's file system", s.Path(st))
				}
				if len(ev.Args) > 1 {
					st.marks["stat"] = Mark{T: strip(ev.Args[1])}
				}
				return out
			case ev.Common.IsInvoke() && nm == ask && len(ev.Args) == 2:
				if mk, ok := st.marks["stat"]; ok && mk.T == strip(ev.Args[1]) {
					st.marks[id("ask", ev.Result)] = Mark{T: ev.Result}
				} else {
					c.Bad("needed", key, c.P.InstrPos(ev.Site), "the threshold is asked without current file system statistics", s.Path(st))
				}
			case ev.Callee != nil && !ev.Inlined && c.P.IsModule(ev.Callee) && c.P.Rel(ev.Callee) == c.P.Rel(fn) && isIter(ev.Callee):
				iters[ev.Callee] = true
				st.marks[id("more", s.Res(ev, 1))] = Mark{T: s.Res(ev, 0)}
			}
			return nil
		},
	})
	c.Run(s, fn, func(st *State, ps, fs []*Term) {
		if len(ps) > 0 {
			recv = ps[0]
			st.marks["recv"] = Mark{T: recv}
		}
	})
}

// p25iter: what the iterator returns was queued as a victim, and only block files are queued.
func (c *Check) p25iter(fn *ssa.Function) {
	key := c.P.FnName(fn)
	var recv *Term
	// queueOf: the receiver field a slice value was taken from
	from := map[*Term]string{}
	var queueOf func(t *Term) string
	queueOf = func(t *Term) string {
		t = strip(t)
		if f := from[t]; f != "" {
			return f
		}
		switch {
		case t.op == OpLoad && t.args[0].op == OpFieldAddr:
			return t.args[0].aux
		case t.op == OpLoad && t.args[0].op == OpIndexAddr:
			return queueOf(t.args[0].args[0])
		case t.op == OpSlice:
			return queueOf(t.args[0])
		case t.op == OpOpaque && t.aux == "append":
			return queueOf(t.args[0])
		}
		return ""
	}
	victims, dirs := map[string]bool{}, map[string]bool{}
	type push struct {
		st   *State
		s    *Sim
		f    string
		v    *Term
		in   ssa.Instruction
		path []string
		bad  []string
		kind string
	}
	var pushes []*push
	// classify judges one queued path under the facts of its path
	classify := func(s *Sim, st *State, v *Term) (bad []string, dir bool) {
		v = strip(v)
		if v.op != OpPure || base(v.aux) != "Join" || len(v.args) < 2 {
			return []string{"it is not a directory joined with the name of one of its entries"}, false
		}
		nm := v.args[len(v.args)-1]
		if nm.op != OpPure || base(nm.aux) != "Name" {
			return []string{"it does not end in the name of a listed entry"}, false
		}
		fi := nm.args[0]
		isdir, lock, tmp := -1, -1, -1
		for k, mk := range st.marks {
			if !strings.HasPrefix(k, "cond:") {
				continue
			}
			t := mk.T
			switch {
			case t.op == OpPure && base(t.aux) == "IsDir" && len(t.args) == 1 && (t.args[0] == fi || t.args[0].has(fi)):
				isdir = b2i(mk.S == "true")
			case t.op == OpPure && base(t.aux) == "IsRegular" && t.args[0].has(fi) && mk.S == "true":
				isdir = 0
			case t.op == OpPure && t.aux == "strings.HasPrefix" && t.args[0] == nm:
				p, _ := t.args[1].StrConst()
				if mk.S == "false" {
					if strings.HasPrefix(".lock", p) && p != "" {
						lock = 0
					}
					if strings.HasPrefix(".tmp", p) && p != "" {
						tmp = 0
					}
				}
			}
		}
		if isdir == 1 {
			// a directory: its name has two letters
			if s.Eval(st, s.T.Eq(s.Len(nm), s.T.Int(2))) != 1 {
				bad = append(bad, "its name is not known to have two letters")
			}
			if lk, ok := v.args[0].StrConst(); ok || lk != "" {
				bad = append(bad, "it does not lie below the cache root")
			}
			ok := v.args[0].any(func(u *Term) bool { return u.op == OpLoad && u.args[0].op == OpFieldAddr && u.args[0].args[0] == recv })
			if !ok {
				bad = append(bad, "it does not lie below the cache root")
			}
			return bad, true
		}
		if queueOf(v.args[0]) == "" && !v.args[0].any(func(u *Term) bool { return u.op == OpLoad && u.args[0].op == OpFieldAddr && u.args[0].args[0] == recv }) {
			bad = append(bad, "it does not lie in a block directory")
		}
		if isdir != 0 {
			bad = append(bad, "it may be a directory")
		}
		if lock != 0 {
			bad = append(bad, "it may be a lock file")
		}
		if tmp != 0 {
			bad = append(bad, "it may be a temporary file")
		}
		return bad, false
	}
	s := c.Sim(Hooks{
		Inline:  pkgInline(c),
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return ev.Name == "(*sync.Once).Do" },
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			st.marks[fmt.Sprintf("cond:%d", cond.id)] = Mark{S: fmt.Sprint(taken), T: cond}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			for k := range st.marks {
				if strings.HasPrefix(k, "cond:") {
					delete(st.marks, k)
				}
			}
		},
		Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
			if addr.op == OpFieldAddr && addr.args[0] == recv && isStringSlice(val.typ) {
				from[val] = addr.aux
			}
			return nil
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if storageOp(ev.Name, "Readdir") {
				if f := queueOf(pathArg(ev.Args)); f != "" && pathArg(ev.Args).op == OpLoad && pathArg(ev.Args).args[0].op == OpIndexAddr {
					dirs[f] = true
				}
			}
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OpFieldAddr || !strings.HasPrefix(addr.typ.String(), "*[]string") && !isStringSlice(deref(addr.typ)) {
				return
			}
			v := strip(val)
			if v.op == OpOpaque && v.aux == "append" {
				for _, e := range v.args[1:] {
					p := &push{f: addr.aux, v: e, in: in, path: s.Path(st)}
					var d bool
					if p.bad, d = classify(s, st, e); d {
						p.kind = "dir"
					}
					pushes = append(pushes, p)
				}
			} else if v.op != OpSlice && !v.IsNilConst() && queueOf(v) == "" {
				pushes = append(pushes, &push{f: addr.aux, v: v, in: in, path: s.Path(st), bad: []string{"it was queued in a way the analysis does not understand"}})
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if b, ok := res[1].BoolConst(); ok && !b {
				return
			}
			pos := c.P.InstrPos(in)
			f := queueOf(res[0])
			if f == "" || f == "root" {
				c.Bad("block-file", key, pos, "a path is handed out that was not queued as a victim", s.Path(st))
				return
			}
			victims[f] = true
		},
	})
	c.Run(s, fn, func(st *State, ps, fs []*Term) {
		recv = ps[0]
		st.marks["recv"] = Mark{T: recv}
	})
	if len(victims) != 1 {
		c.Bad("undecided", key, c.P.Pos(fn.Pos()), "the queue of victims was not identified", nil)
		return
	}
	for _, p := range pushes {
		pos := c.P.InstrPos(p.in)
		rule := "block-file"
		if !victims[p.f] {
			rule = "block-dir"
			if !dirs[p.f] {
				continue
			}
		}
		c.Ob(rule, key, pos)
		if rule == "block-file" && p.kind == "dir" {
			p.bad = append(p.bad, "it is a directory")
		}
		if rule == "block-dir" && p.kind != "dir" && len(p.bad) == 0 {
			p.bad = append(p.bad, "it is not known to be a directory")
		}
		if len(p.bad) > 0 {
			what := map[string]string{"block-file": "a path is queued for removal although ", "block-dir": "a directory is queued for listing although "}[rule]
			c.Bad(rule, key, pos, what+strings.Join(p.bad, " and "), p.path)
		}
	}
}

func isStringSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isBasic(types.String)(sl.Elem())
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// p25threshold: the answer is "available < wanted", with available computed from the statistics it was given.
func (c *Check) p25threshold(m *ssa.Function) {
	key := c.P.FnName(m)
	var recv, stat *Term
	from := func(t, root *Term) bool {
		return t.any(func(u *Term) bool { return u.op == OpFieldAddr && rootOf(u) == root })
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return c.P.IsModule(ev.Callee) && (c.P.Rel(ev.Callee) == c.P.Rel(m) || c.P.Rel(ev.Callee) == "pkg/safecast")
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			c.Ob("threshold", key, pos)
			t := res[0]
			neg := false
			for t.op == OpNot {
				t, neg = t.args[0], !neg
			}
			var less, more *Term // less < more is the answer
			switch {
			case t.op == OpLt0:
				// sum of terms < 0: what counts positive is on the left
				ms, _ := s.T.toPoly(t.args[0])
				for _, mo := range ms {
					for _, a := range mo.a {
						if from(a, stat) {
							if (mo.c > 0) != neg {
								less = a
							} else {
								more = a
							}
						}
						if from(a, recv) {
							if (mo.c > 0) != neg {
								less = a
							} else {
								more = a
							}
						}
					}
				}
			case t.op == OpBin && (t.aux == "<" || t.aux == "<="):
				less, more = t.args[0], t.args[1]
				if neg {
					less, more = more, less
				}
			case t.op == OpBin && (t.aux == ">" || t.aux == ">="):
				less, more = t.args[1], t.args[0]
				if neg {
					less, more = more, less
				}
			}
			if b, ok := t.BoolConst(); ok && !b {
				return
			}
			if less == nil || more == nil || !from(less, stat) || !from(more, recv) || from(more, stat) || from(less, recv) {
				c.Bad("threshold", key, pos, "the answer is not whether the space available in the given statistics is below the wanted space ("+res[0].String()+")", s.Path(st))
				return
			}
			// available means free blocks, relative to or multiplied with what one block or all blocks are
			free := less.any(func(u *Term) bool { return u.op == OpFieldAddr && (u.aux == "Bavail" || u.aux == "Bfree") })
			if !free {
				c.Bad("threshold", key, pos, "the available space is not computed from the free blocks", s.Path(st))
			}
		},
	})
	c.Run(s, m, func(st *State, ps, fs []*Term) {
		recv, stat = ps[0], ps[1]
	})
}

func init() { checks["P25"] = checkP25 }
