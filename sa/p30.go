package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P30"] = checkP30 }

// P30: the attributes of an entry are the ones its records carry.

// p30getters: the accessors of an entry and what a mounted filesystem calls them.
var p30getters = []string{"Name", "Size", "Mode", "ModTime", "IsDir", "Extent", "Target", "Nlink", "Uid", "Gid", "Ino"}

func checkP30(c *Check) {
	c.Rule("accessor", "an accessor of an entry returns the attribute it is named after", 11)
	c.Rule("entry", "an entry is built from the fields of its own record and system use entries", 11)
	c.Rule("merged", "records are taken together only if they carry the same identifier, and then their lengths add up", 1)
	c.Rule("answer", "the mounted filesystem answers with the attributes of the entry asked for", 11)
	c.Rule("answered", "a request that succeeds has been answered", 3)
	c.Rule("target", "the target of a link consists of the recorded parts in their order", 1)
	c.Rule("type", "the type of a listed entry is the one the entry has", 1)
	fi := c.named("pkg/iso9660", "FileInfo")
	it := c.named("pkg/iso9660", "ReadDirIterator")
	var next *ssa.Function
	if it != nil {
		next = c.P.Method(it, "Next")
	}
	if fi == nil || next == nil {
		c.Bad("undecided", "entries", "?", "the entries of a directory or their iterator were not found", nil)
		return
	}
	p := &p30{c: c, fi: fi, field: map[string]string{}}
	p.getters()
	p.next(next)
	p.fuse()
	p.target()
}

type p30 struct {
	c     *Check
	fi    *types.Named
	field map[string]string // accessor -> field
}

func (p *p30) getters() {
	c := p.c
	used := map[string]string{}
	for _, g := range p30getters {
		m := c.P.Method(p.fi, g)
		if m == nil || len(m.Blocks) == 0 {
			c.Bad("undecided", "FileInfo."+g, "?", "the accessor was not found", nil)
			continue
		}
		key := c.P.FnName(m)
		c.Ob("accessor", key, c.P.Pos(m.Pos()))
		var recv *Term
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				f := recvField(strip(res[0]), recv)
				switch {
				case f == "":
					c.Bad("accessor", key, c.P.InstrPos(in), "returns something else than a field of the entry: "+res[0].String(), s.Path(st))
				case used[f] != "" && used[f] != g:
					c.Bad("accessor", key, c.P.InstrPos(in), "returns the same field as "+used[f], s.Path(st))
				default:
					used[f] = g
					p.field[g] = f
				}
			},
		})
		c.Run(s, m, func(st *State, params, _ []*Term) { recv = params[0] })
	}
}

// bytesOf: the string a constant expression gives.
func bytesOf(v ssa.Value) (string, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value), true
	}
	cv, ok := v.(*ssa.Convert)
	if !ok {
		return "", false
	}
	sl, ok := cv.X.(*ssa.Slice)
	if !ok {
		return "", false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return "", false
	}
	ar, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || ar.Len() > 16 {
		return "", false
	}
	out := make([]byte, ar.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return "", false
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok {
				k, ok := st.Val.(*ssa.Const)
				if !ok {
					return "", false
				}
				out[i.Int64()] = byte(k.Int64())
			}
		}
	}
	return string(out), true
}

func (p *p30) next(fn *ssa.Function) {
	c := p.c
	key := c.P.FnName(fn)
	rec := c.named("pkg/iso9660", "DirectoryRecord")
	var recv *Term
	isRec := func(t *Term) bool { return t != nil && namedOf(t.typ) == rec }
	for _, g := range p30getters {
		c.Ob("entry", key+" "+g, c.P.Pos(fn.Pos()))
	}
	c.Ob("merged", key, c.P.Pos(fn.Pos()))
	wrongPhi, goodPhi := map[*Term]bool{}, map[*Term]bool{}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			if !pkgInline(c)(s, st, ev) || base(ev.Name) == "RecordAndLen" {
				return false
			}
			return makes(c.P, ev.Callee, p.fi, map[*ssa.Function]bool{}) || touches(c.P, ev.Callee, func(cc *ssa.CallCommon) bool {
				n := c.P.calleeName(cc)
				return strings.HasPrefix(n, "pkg/iso9660/rrip.Decode") || base(n) == "RecordAndLen"
			}) || noCalls(ev.Callee)
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Inlined || ev.Result == nil {
				return nil
			}
			res := ev.Common.Signature().Results()
			for i := 0; i < res.Len(); i++ {
				if isRec(&Term{typ: res.At(i).Type()}) {
					if st.marks["first"].T == nil {
						st.marks["first"] = Mark{T: s.Res(ev, i)}
					}
					st.marks["last"] = Mark{T: s.Res(ev, i)}
				}
			}
			if strings.HasPrefix(ev.Name, "pkg/iso9660/rrip.Decode") && res.Len() == 2 {
				n := strings.TrimPrefix(base(ev.Name), "Decode")
				st.marks["d:"+n] = Mark{T: s.Res(ev, 0)}
				st.marks["ok:"+n] = Mark{T: s.Res(ev, 1)}
				st.marks["in:"+n] = Mark{T: strip(ev.Args[0])}
				return nil
			}
			if res.Len() > 0 {
				if sl, ok := res.At(0).Type().Underlying().(*types.Slice); ok && strings.HasSuffix(typeStr(sl.Elem()), "SystemUseEntry") {
					for _, a := range ev.Args {
						if isRec(a) {
							st.marks["su"] = Mark{T: s.Res(ev, 0)}
							st.marks["surec"] = Mark{T: a}
						}
					}
				}
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			yes := "0"
			if taken {
				yes = "1"
			}
			if x, neg := bitTest(cond, 2, 2); x != nil {
				if r := fieldLoadOf(x, "Flags"); r != nil {
					st.marks["flag"] = Mark{T: r, S: map[bool]string{true: "1", false: "0"}[taken != neg]}
				}
			}
			if m := st.marks["d:PosixEntry"].T; m != nil {
				for n, k := range map[string]int64{"dir": 0x4000, "lnk": 0xa000} {
					if x, neg := bitTest(cond, k, 0xf000); x != nil && fieldLoadOf(x, "Mode") == m {
						st.marks["bit:"+n] = Mark{S: map[bool]string{true: "1", false: "0"}[taken != neg]}
					}
				}
			}
			if b, ok := in.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				for _, o := range []ssa.Value{b.X, b.Y} {
					if str, ok := bytesOf(o); ok && cond.any(func(t *Term) bool { return fieldLoadOf(t, "Identifier") != nil }) {
						st.marks["id:"+str] = Mark{S: yes}
					}
				}
			}
		},
		BackEdge: func(s *Sim, st *State, h *ssa.BasicBlock, inLoop func(*Term) bool) {
			last := st.marks["last"].T
			if last == nil {
				return
			}
			// a continuation of the record
			same := false
			for f, v := range st.facts {
				if v && f.op != OpNot && len(f.args) == 2 {
					a, b := fieldLoadOf(f.args[0], "Identifier"), fieldLoadOf(f.args[1], "Identifier")
					if a != nil && b != nil && (a == last) != (b == last) {
						same = true
					}
				}
			}
			if !same {
				c.Bad("merged", key, c.P.InstrPos(h.Instrs[0]), "a record is taken for a part of the one before it without having the same identifier", s.Path(st))
			}
			isLen := func(t *Term) bool { return fieldLoadOf(t, "Length") == last }
			added := false
			i := 0
			for _, in := range h.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				cur, nw := st.top().env[ph], s.loopVals[i]
				i++
				if cur == nil || nw == nil || !isInt(ph.Type()) {
					continue
				}
				if isLen(strip(s.T.Sub(nw, cur))) {
					added = true
					goodPhi[cur] = true
				} else {
					wrongPhi[cur] = true
				}
			}
			for _, v := range st.cells {
				if v.any(isLen) {
					added = true
				}
			}
			if !added {
				c.Bad("merged", key, c.P.InstrPos(h.Instrs[0]), "the length of a continuation record is not added to that of the entry", s.Path(st))
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if len(res) != 1 || s.Eval(st, res[0]) == 0 {
				return
			}
			pos := c.P.InstrPos(in)
			var w *Term
			for a, v := range st.cells {
				if a.op == OpFieldAddr && a.args[0] == recv && namedOf(v.typ) == p.fi {
					w = strip(v)
				}
			}
			if w == nil || w.op != OpAlloc && w.op != OpNew {
				c.Bad("entry", key, pos, "reports an entry without having built one", s.Path(st))
				return
			}
			bad := func(attr, msg string, v *Term) {
				c.Bad("entry", key+" "+attr, pos, msg+": "+v.String(), s.Path(st))
			}
			val := func(g string) *Term {
				for a, v := range st.cells {
					if a.op == OpFieldAddr && a.args[0] == w && a.aux == p.field[g] {
						return strip(v)
					}
				}
				if m := c.P.Method(p.fi, g); m != nil {
					return s.T.Zero(m.Signature.Results().At(0).Type())
				}
				return s.T.Int(-1)
			}
			// the record
			start := val("Extent")
			X := fieldLoadOf(start, "Start")
			if !isRec(X) {
				bad("Extent", "the address is not that of the record", start)
				return
			}
			if recvField(X, recv) != "" {
				if s.Eval(st, s.T.IsNil(X)) == 1 {
					bad("Extent", "the address is that of a record that is not there", start)
				}
			} else if X != st.marks["first"].T {
				bad("Extent", "the address is not that of the entry's first record", start)
			}
			// the system use entries
			for _, n := range []string{"Name", "Symlink", "PosixEntry", "Timestamps"} {
				if st.marks["d:"+n].T == nil {
					c.Bad("entry", key, pos, "reports an entry without having looked for its "+n, s.Path(st))
					return
				}
				if st.marks["su"].T == nil || st.marks["in:"+n].T != strip(st.marks["su"].T) || st.marks["surec"].T != X {
					c.Bad("entry", key, pos, "the "+n+" is not looked for in all system use entries of the record", s.Path(st))
				}
			}
			is := func(n string) int { return s.Eval(st, st.marks["ok:"+n].T) }
			d := func(n string) *Term { return st.marks["d:"+n].T }
			// name
			name := val("Name")
			switch is("Name") {
			case 1:
				if name != strip(d("Name")) {
					bad("Name", "the name recorded is not the one reported", name)
				}
			case 0:
				want := ""
				if st.marks["id:\x00"].S == "1" {
					want = "."
				} else if st.marks["id:\x01"].S == "1" {
					want = ".."
				}
				if want == "" && fieldLoadOf(name, "Identifier") != X || want != "" && !(name.cv != nil && name.cv.Kind() == constant.String && constant.StringVal(name.cv) == want) {
					bad("Name", "the name is not the record's identifier", name)
				}
			default:
				bad("Name", "the name does not depend on whether one is recorded", name)
			}
			if t := val("Target"); t != strip(d("Symlink")) {
				bad("Target", "the target recorded is not the one reported", t)
			}
			// size
			size := val("Size")
			switch is("Symlink") {
			case 1:
				if !(size.op == OpLen && strip(size.args[0]) == strip(d("Symlink")) || size.has(d("Symlink")) && size.op != OpPhi && size.op != OpPoly) {
					bad("Size", "the size of a symbolic link is not the length of its target", size)
				}
			default:
				if is("Symlink") < 0 {
					bad("Size", "the size does not depend on whether the entry is a link", size)
				}
				if size.op == OpPhi {
					if wrongPhi[size] && !goodPhi[size] {
						bad("Size", "the size is not the sum of the lengths of the entry's records", size)
					}
				} else if fieldLoadOf(size, "Length") != X && !(size.op == OpPoly && size.any(func(t *Term) bool { return fieldLoadOf(t, "Length") == X })) {
					bad("Size", "the size is not the sum of the lengths of the entry's records", size)
				}
			}
			// directory
			isDir := val("IsDir")
			flag := func(t *Term) (is, neg bool) {
				if t.op == OpNot {
					x, n := bitTest(t.args[0], 2, 2)
					return x != nil && fieldLoadOf(x, "Flags") == X, !n
				}
				x, n := bitTest(t, 2, 2)
				return x != nil && fieldLoadOf(x, "Flags") == X, n
			}
			is2, neg := flag(isDir)
			switch {
			case is2 && !neg:
			case s.Eval(st, isDir) >= 0 && isDir.cv != nil:
				if m := st.marks["flag"]; m.T != X || (m.S == "1") != (s.Eval(st, isDir) == 1) {
					bad("IsDir", "an entry is a directory without its record saying so", isDir)
				}
			default:
				bad("IsDir", "an entry is a directory without its record saying so", isDir)
			}
			// POSIX attributes
			mode := val("Mode")
			bit := func(b uint) bool {
				if k, ok := mode.IntConst(); ok {
					return k&(1<<b) != 0
				}
				return mode.any(func(t *Term) bool { k, ok := t.IntConst(); return ok && k&(1<<b) != 0 })
			}
			wantDir, wantLnk := false, false
			switch is("PosixEntry") {
			case 1:
				pe := d("PosixEntry")
				for g, f := range map[string]string{"Nlink": "Nlink", "Uid": "Uid", "Gid": "Gid", "Ino": "Ino"} {
					if v := val(g); fieldLoadOf(v, f) != pe {
						bad(g, "the value recorded is not the one reported", v)
					}
				}
				if !mode.any(func(t *Term) bool { return fieldLoadOf(t, "Mode") == pe }) || !mode.any(func(t *Term) bool { k, ok := t.IntConst(); return ok && k == 0777 }) {
					bad("Mode", "the permissions are not the recorded ones", mode)
				}
				wantDir = st.marks["bit:dir"].S == "1"
				wantLnk = !wantDir && st.marks["bit:lnk"].S == "1"
				if st.marks["bit:dir"].S == "" || !wantDir && st.marks["bit:lnk"].S == "" {
					bad("Mode", "the type of the entry is not looked at", mode)
					return
				}
			case 0:
				for g, k := range map[string]int64{"Nlink": 1, "Uid": 0, "Gid": 0} {
					if v, ok := val(g).IntConst(); !ok || v != k {
						bad(g, "an entry without POSIX attributes gets another default", val(g))
					}
				}
				if v := val("Ino"); fieldLoadOf(v, "Start") != X {
					bad("Ino", "an entry without POSIX attributes gets another default", v)
				}
				dir := s.Eval(st, isDir)
				if dir < 0 {
					bad("Mode", "the type of the entry is not looked at", mode)
					return
				}
				wantDir = dir == 1
				wantLnk = !wantDir && is("Symlink") == 1
			default:
				bad("Mode", "the attributes do not depend on whether they are recorded", mode)
				return
			}
			if bit(31) != wantDir || bit(27) != wantLnk {
				bad("Mode", "the mode does not give the type of the entry", mode)
			}
			// time
			mt, ts := val("ModTime"), d("Timestamps")
			has := mt.any(func(t *Term) bool {
				return t.op == OpLoad && t.args[0].op == OpFieldAddr && t.args[0].aux == "Modified" && t.args[0].args[0] == ts
			})
			other := mt.any(func(t *Term) bool {
				return t.op == OpLoad && t.args[0].op == OpFieldAddr && t.args[0].args[0] == ts && t.args[0].aux != "Modified"
			})
			if is("Timestamps") == 1 {
				var mod *Term
				for f, v := range st.facts {
					if f.op == OpNil && fieldLoadOf(f.args[0], "Modified") == ts && !v {
						mod = f
					}
				}
				if mod != nil && !has || other {
					bad("ModTime", "the time recorded is not the one reported", mt)
				}
			} else if is("Timestamps") < 0 {
				bad("ModTime", "the time does not depend on whether one is recorded", mt)
			}
		},
	})
	c.Run(s, fn, func(st *State, params, _ []*Term) { recv = params[0] })
}

// bitTest: what cond tests for the bits k among those of mask (or of no more
// than mask); neg tells that it is true if they are not set.
func bitTest(cond *Term, k, mask int64) (x *Term, neg bool) {
	if cond.op != OpEq0 {
		return nil, false
	}
	a, want := cond.args[0], int64(0)
	if a.op == OpPoly {
		if len(a.monos) != 1 || len(a.monos[0]) != 1 || a.coefs[0] != 1 {
			return nil, false
		}
		a, want = a.monos[0][0], -a.c0
	}
	if len(a.args) != 2 || a.aux != "&" {
		return nil, false
	}
	for i := range a.args {
		m, ok := a.args[i].IntConst()
		if !ok {
			continue
		}
		x = strip(a.args[1-i])
		switch {
		case want == k && (m == k || m&k == k && m&^mask == 0):
			return x, false
		case want == 0 && m == k && k&(k-1) == 0:
			return x, true
		}
	}
	return nil, false
}

// noCalls: a small pure helper.
func noCalls(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		n++
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok {
				return false
			}
		}
	}
	return n > 0 && n < 12
}

// fuse: what the mounted filesystem tells about an entry.
func (p *p30) fuse() {
	c := p.c
	want := map[string]map[string]string{
		"InodeAttributes": {"Size": "Size", "Nlink": "Nlink", "Mode": "Mode", "Atime": "ModTime", "Mtime": "ModTime", "Ctime": "ModTime", "Crtime": "ModTime", "Uid": "Uid", "Gid": "Gid"},
		"Dirent":          {"Inode": "Ino", "Name": "Name"},
		"ReadSymlinkOp":   {"Target": "Target"},
		"ChildInodeEntry": {"Child": "Ino"},
	}
	need := map[string][]string{"InodeAttributes": {"Size", "Nlink", "Mode", "Mtime", "Ctime", "Uid", "Gid"}}
	type set struct {
		fields map[string]bool
		recv   ssa.Value
		pos    string
	}
	dirents := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != "pkg/isofuse" {
			continue
		}
		key := c.P.FnName(fn)
		sets := map[string]*set{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && base(c.P.calleeName(ci.Common())) == "WriteDirent" {
					dirents[outer(fn)] = true
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(fa.X.Type())
				if n == nil || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "fuse") || want[n.Obj().Name()] == nil {
					continue
				}
				g := want[n.Obj().Name()][faName(fa)]
				if g == "" {
					continue
				}
				tn := n.Obj().Name()
				k := key + " " + tn + "." + faName(fa)
				c.Ob("answer", k, c.P.InstrPos(in))
				r, msg := p.origin(st.Val, g, 0)
				if msg != "" {
					c.Bad("answer", k, c.P.InstrPos(in), msg, nil)
					continue
				}
				sk := tn
				if sets[sk] == nil {
					sets[sk] = &set{fields: map[string]bool{}, recv: r, pos: c.P.InstrPos(in)}
				}
				sets[sk].fields[faName(fa)] = true
				if r != nil && sets[sk].recv != nil && !sameVal(r, sets[sk].recv, 0) {
					c.Bad("answer", k, c.P.InstrPos(in), "the attributes of different entries are mixed", nil)
				}
			}
		}
		var ks []string
		for k := range sets {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, f := range need[k] {
				if !sets[k].fields[f] {
					c.Bad("answer", key+" "+k+"."+f, sets[k].pos, "the answer leaves out "+f, nil)
				}
			}
		}
	}
	for _, q := range [][2]string{{"GetInodeAttributesOp", "Attributes"}, {"LookUpInodeOp", "Entry"}, {"ReadSymlinkOp", "Target"}} {
		for _, fn := range c.P.Funcs {
			if c.P.Rel(fn) != "pkg/isofuse" || fn.Signature.Recv() == nil || len(fn.Params) != 3 || fn.Signature.Results().Len() != 1 {
				continue
			}
			if n := namedOf(fn.Params[2].Type()); n == nil || n.Obj().Name() != q[0] {
				continue
			}
			p.answered(fn, q[1])
		}
	}
	for fn := range dirents {
		p.direntType(fn)
	}
}

// answered: success is not reported without the answer having been set.
func (p *p30) answered(fn *ssa.Function, field string) {
	c := p.c
	key := c.P.FnName(fn)
	c.Ob("answered", key, c.P.Pos(fn.Pos()))
	var op *Term
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			for a := addr; a != nil && a.op == OpFieldAddr; a = a.args[0] {
				if a.args[0] == op && a.aux == field {
					st.marks["answered"] = Mark{S: "1"}
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if s.succeeds(st, in, res) && st.marks["answered"].S == "" {
				c.Bad("answered", key, c.P.InstrPos(in), "succeeds without having set "+field, s.Path(st))
			}
		},
	})
	c.Run(s, fn, func(st *State, params, _ []*Term) { op = params[2] })
}

// origin: v is what the accessor g gives of some entry.
func (p *p30) origin(v ssa.Value, g string, depth int) (ssa.Value, string) {
	c := p.c
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			// a captured or local variable set once
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					var src ssa.Value
					n := 0
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == al {
							src = st.Val
							n++
						}
					}
					if n == 1 {
						v = src
						continue
					}
				}
			}
		case *ssa.Parameter:
			fn := x.Parent()
			if depth < 4 && len(c.P.callers[fn]) > 0 {
				for i, pr := range fn.Params {
					if pr != x {
						continue
					}
					for _, site := range c.P.callers[fn] {
						if _, msg := p.origin(site.Common().Args[i], g, depth+1); msg != "" {
							return nil, msg
						}
					}
					return nil, ""
				}
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				break
			}
			if c.P.Rel(f) == "pkg/safecast" && len(x.Call.Args) == 1 {
				v = x.Call.Args[0]
				continue
			}
			if f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) == p.fi {
				if f.Name() == g || g == "ModTime" && f.Name() == "ModTime" {
					return x.Call.Args[0], ""
				}
				return nil, "it is answered with what " + f.Name() + " gives instead of " + g
			}
		}
		return nil, "it is not answered with what " + g + " of the entry gives"
	}
}

// sameVal: two values read the same way from the same place.
func sameVal(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameVal(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameVal(x.X, y.X, d+1)
	}
	return false
}

// direntType: directories, links and files are listed as such.
func (p *p30) direntType(fn *ssa.Function) {
	c := p.c
	key := c.P.FnName(fn)
	for !c.P.IsTop(fn) && len(c.P.callers[fn]) > 0 {
		up := outer(c.P.callers[fn][0].Parent())
		if up == fn {
			break
		}
		fn = up
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev)
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Callee != nil && ev.Callee.Signature.Recv() != nil && namedOf(ev.Callee.Signature.Recv().Type()) == p.fi && (st.marks["cur"].T == nil || strip(ev.Args[0]) == st.marks["cur"].T) {
				st.marks["g:"+ev.Callee.Name()] = Mark{T: ev.Result}
			}
			if base(ev.Name) == "FileInfoAndLen" {
				st.marks["cur"] = Mark{T: strip(s.Res(ev, 0))}
				for k := range st.marks {
					if strings.HasPrefix(k, "g:") || k == "lnk" {
						delete(st.marks, k)
					}
				}
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			m := st.marks["g:Mode"].T
			if x, neg := bitTest(cond, 1<<27, -1); m != nil && x == strip(m) {
				st.marks["lnk"] = Mark{S: map[bool]string{true: "1", false: "0"}[taken != neg]}
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if base(ev.Name) != "WriteDirent" {
				return
			}
			pos := c.P.InstrPos(ev.Site)
			c.Ob("type", key, pos)
			t := s.valField(ev.Args[1], "Type", types.Typ[types.Uint32])
			k, ok := t.IntConst()
			if !ok {
				c.Bad("type", key, pos, "the type of the listed entry is not known: "+t.String(), s.Path(st))
				return
			}
			dir := -1
			if d := st.marks["g:IsDir"].T; d != nil {
				dir = s.Eval(st, d)
			}
			l := st.marks["lnk"].S
			good := false
			switch k {
			case 4:
				good = dir == 1
			case 10:
				good = l == "1" && dir != 1
			case 8:
				good = dir == 0 && l == "0"
			}
			if !good {
				c.Bad("type", key, pos, "an entry is listed as another type than it has", s.Path(st))
			}
		},
	})
	c.Run(s, fn, nil)
}
