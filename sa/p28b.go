package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// p28readdirs: lists of the entries of a directory on a disc.
func (c *Check) p28readdirs() {
	n := 0
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != isoRel || fn.Name() != "ReadDir" || fn.Parent() != nil {
			continue
		}
		n++
		t := &trav{c: c, key: c.P.FnName(fn)}
		c.Ob("every", t.key, c.P.Pos(fn.Pos()))
		t.want = func(st *State) (int, int) { return 1, -1 }
		hit := false
		s := c.Sim(Hooks{
			Inline: func(s *Sim, st *State, ev *CallEv) bool {
				if !pkgInline(c)(s, st, ev) {
					return false
				}
				switch ev.Callee.Name() {
				case "Next", "FileInfoAndLen", "NewReadDirIterator", "Err", "lstat", "Lstat", "pathParts":
					return false
				}
				return true
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				switch {
				case ev.Name == "append":
					for _, v := range ev.VArgs[1:] {
						if el := st.marks["el"].T; el != nil && strip(v) == el {
							t.count(st, "did")
							hit = true
						}
					}
				case base(ev.Name) == "NewReadDirIterator" && len(ev.Args) == 4:
					if z, ok := ev.Args[3].IntConst(); !ok || z != 0 {
						t.bad(s, st, ev.Site, "every", "the directory is not listed from its start")
					}
				case base(ev.Name) == "Next":
					t.end(s, st, ev.Site)
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				switch base(ev.Name) {
				case "FileInfoAndLen":
					t.begin(s, st, ev.Site, s.Res(ev, 0))
				case "Next":
					st.marks["more"] = Mark{T: ev.Result}
				case "Err":
					if strings.Contains(ev.Name, "Iterator") {
						E := ev.Result
						return s.fork(st, ev, func(o *State) { o.marks["failed"] = Mark{T: E} })
					}
				}
				return nil
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if !t.reported(s, st, in, res) {
					return
				}
				t.end(s, st, in)
				if m := st.marks["more"].T; m == nil || s.Eval(st, m) != 0 {
					t.bad(s, st, in, "every", "may return before all entries were read")
				}
				if res[0].op == OpSlice {
					t.bad(s, st, in, "every", "only a part of the list is returned")
				}
			},
		})
		s.Depth = 8
		c.Run(s, fn, nil)
		if !hit {
			c.Bad("every", t.key, c.P.Pos(fn.Pos()), "no entry is added to the list", nil)
		}
	}
	if n < 2 {
		c.Bad("every", "ReadDir", "", "fewer directory listings found than known", nil)
	}
}

// p28tree: visits of the tree a disc is made from.
func (c *Check) p28tree() {
	dir := c.named(isoRel, "DirectoryInode")
	rel := c.named(isoRel, "Relationship")
	if dir == nil || rel == nil {
		c.Bad("every", "DirectoryInode", "", "not found", nil)
		return
	}
	kinds := map[string]string{}
	if pk := dir.Obj().Pkg(); pk != nil {
		for k, n := range map[string]string{"dir": "InodeTypeDirectory", "file": "InodeTypeFile"} {
			if o, ok := pk.Scope().Lookup(n).(*types.Const); ok {
				kinds[o.Val().ExactString()] = k
			}
		}
	}
	for _, name := range []string{"VisitFiles", "VisitDirectories"} {
		fn := c.P.Method(dir, name)
		if fn == nil {
			c.Bad("every", name, "", "not found", nil)
			continue
		}
		files := name == "VisitFiles"
		t := &trav{c: c, key: c.P.FnName(fn)}
		for _, r := range []string{"every", "path", "subdirectories", "stop"} {
			c.Ob(r, t.key, c.P.Pos(fn.Pos()))
		}
		t.cond = func(s *Sim, st *State, cond *Term) string {
			el := st.marks["el"].T
			if el == nil || !mentions(cond, el) {
				return ""
			}
			if cond.op == OpTypeIs {
				switch {
				case strings.Contains(cond.aux, "DirectoryInode"):
					return "dir"
				case strings.Contains(cond.aux, "FileInode"):
					return "file"
				}
			}
			if cond.op == OpEq || cond.op == OpEq0 {
				var k string
				for _, a := range cond.args {
					if i, ok := a.IntConst(); ok {
						k = fmt.Sprint(i)
					}
				}
				if cond.op == OpEq0 {
					for v := range kinds {
						var i int64
						fmt.Sscan(v, &i)
						x := s.T.Add(cond.args[0], s.T.Int(i))
						if isTypeCall(x) {
							k = v
						}
						if y := s.T.Sub(s.T.Int(i), cond.args[0]); isTypeCall(y) {
							k = v
						}
					}
				}
				return kinds[k]
			}
			return ""
		}
		isDir := func(st *State) int {
			switch {
			case st.marks["k:dir"].S == "yes":
				return 1
			case st.marks["k:dir"].S == "no" || st.marks["k:file"].S == "yes":
				return 0
			}
			return -2
		}
		isFile := func(st *State) int {
			switch {
			case st.marks["k:file"].S == "yes":
				return 1
			case st.marks["k:file"].S == "no" || st.marks["k:dir"].S == "yes":
				return 0
			}
			return -2
		}
		t.want = func(st *State) (int, int) {
			d, f := isDir(st), isFile(st)
			if d == -2 {
				d = 1 // not looked at: as if it were one
			}
			if f == -2 {
				f = 1
			}
			if !files {
				f = -1
			}
			return f, d
		}
		var cb, recv *Term
		hit := map[string]bool{}
		// the four values of a relationship
		check := func(s *Sim, st *State, in ssa.Instruction, get func(f string) *Term) {
			el, item := st.marks["el"].T, st.marks["item"].T
			p, id, nm, ch := get("Parent"), get("Identifier"), get("Name"), get("Child")
			ok := p != nil && id != nil && nm != nil && ch != nil && mentions(nm, el) && mentions(ch, el) && loadedField(nm) != "" && loadedField(strip(ch)) != "" && loadedField(nm) != loadedField(strip(ch))
			it1, it2 := (*Term)(nil), iterOf(el, "Value")
			if id != nil {
				it1 = iterOf(id, "Key")
			}
			if !ok || it1 == nil || it1 != it2 {
				t.bad(s, st, in, "path", "an entry is handed out under other values than its own")
				return
			}
			if !files {
				child := false
				walkTerm(p, func(u *Term) { child = child || (u.op == OpField || u.op == OpFieldAddr) && u.aux == "Child" })
				if !child {
					t.bad(s, st, in, "path", "looks into something else than the directory taken up")
				}
			}
			if item == nil || !mentions(p, item) || !mentions(st.marks["from"].T, strip(p)) {
				t.bad(s, st, in, "path", "an entry is handed out with another parent than the directory it is in")
			}
		}
		getter := func(s *Sim, st *State, v *Term) func(string) *Term {
			return func(f string) *Term {
				stt := rel.Underlying().(*types.Struct)
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() != f {
						continue
					}
					if v.op == OpStruct && i < len(v.args) {
						return v.args[i]
					}
					return s.T.Field(v, i, f, stt.Field(i).Type(), nil)
				}
				return nil
			}
		}
		s := c.Sim(Hooks{
			Inline: func(s *Sim, st *State, ev *CallEv) bool {
				return pkgInline(c)(s, st, ev) && ev.Callee.Name() != "Type"
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				switch {
				case ev.Fun == cb:
					t.stopped(s, st, ev.Site)
					hit["visit"] = true
					v := ev.Args[0]
					if files {
						if st.marks["el"].T == nil {
							t.bad(s, st, ev.Site, "every", "hands out something that is no entry")
							return
						}
						check(s, st, ev.Site, getter(s, st, v))
						t.count(st, "did")
					} else {
						if strip(v) != strip(st.marks["item"].T) {
							t.bad(s, st, ev.Site, "every", "hands out another directory than the one taken up: "+v.String())
						}
						t.count(st, "vis")
					}
				case base(ev.Name) == "Enqueue":
					t.stopped(s, st, ev.Site)
					v := ev.Args[1]
					for v.op == OpMkIface || v.op == OpConv {
						v = v.args[0]
					}
					el := st.marks["el"].T
					if el == nil {
						if files && v != recv || !files && strip(getter(s, st, v)("Child")) != recv {
							t.bad(s, st, ev.Site, "subdirectories", "the visit does not start at the directory given")
						}
						hit["root"] = true
						return
					}
					hit["sub"] = true
					if files {
						if !mentions(v, el) || loadedField(strip(v)) == "" {
							t.bad(s, st, ev.Site, "subdirectories", "something else than the entry's directory is kept for later")
						}
					} else {
						check(s, st, ev.Site, getter(s, st, v))
					}
					t.count(st, "q")
				case base(ev.Name) == "Iterator":
					st.marks["from"] = Mark{T: ev.Args[0]}
				case base(ev.Name) == "Next", base(ev.Name) == "Dequeue":
					t.stopped(s, st, ev.Site)
					t.end(s, st, ev.Site)
					if base(ev.Name) == "Dequeue" {
						t.dirEnd(s, st, ev.Site, files)
					}
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				switch {
				case ev.Fun == cb:
					return t.fails(s, st, ev)
				case base(ev.Name) == "Dequeue":
					st.marks["item"] = Mark{T: ev.Result}
					delete(st.marks, "vis")
				case base(ev.Name) == "Value" && strings.Contains(ev.Name, "Iterator"):
					t.begin(s, st, ev.Site, ev.Result)
				case base(ev.Name) == "Next":
					o := st.clone()
					var out []*State
					if s.Assume(o, ev.Result, false) {
						o.marks["listed"] = Mark{S: "1"}
						out = append(out, o)
					}
					if s.Assume(st, ev.Result, true) {
						delete(st.marks, "listed")
						st.marks["turn"] = Mark{S: "1"}
					} else {
						st.dead = true
					}
					return out
				case base(ev.Name) == "Len" && strings.Contains(ev.Name, "ueue"):
					st.marks["len"] = Mark{T: ev.Result}
				}
				return nil
			},
			Branch: t.branch,
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if !t.reported(s, st, in, res) {
					return
				}
				t.end(s, st, in)
				t.dirEnd(s, st, in, files)
				l := st.marks["len"].T
				if l == nil || s.Eval(st, s.T.Lt(s.T.Int(0), l)) != 0 {
					t.bad(s, st, in, "subdirectories", "may return while directories are still to be visited")
				}
			},
		})
		s.Depth = 8
		c.Run(s, fn, func(st *State, params, frees []*Term) {
			recv, cb = params[0], params[1]
			st.marks["p0"], st.marks["p1"] = Mark{T: recv}, Mark{T: cb}
		})
		for _, k := range []string{"visit", "root", "sub"} {
			if !hit[k] {
				c.Bad("every", t.key, c.P.Pos(fn.Pos()), "no call found that takes up or hands out ("+k+")", nil)
			}
		}
	}
	// the volume's visits pass the callback's outcome on
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != isoRel || fn.Parent() == nil || outer(fn).Signature.Recv() == nil {
			continue
		}
		sg := fn.Signature
		if sg.Params().Len() != 1 || namedOf(sg.Params().At(0).Type()) != rel || sg.Results().Len() != 1 || !isErrorType(sg.Results().At(0).Type()) {
			continue
		}
		if n := namedOf(outer(fn).Signature.Recv().Type()); n == nil || n.Obj().Name() != "Volume" || !strings.HasPrefix(outer(fn).Name(), "Visit") {
			continue
		}
		t := &trav{c: c, key: c.P.FnName(outer(fn))}
		c.Ob("stop", t.key, c.P.Pos(fn.Pos()))
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if ev.Fun != nil && ev.Callee == nil && !ev.Common.IsInvoke() && s.ErrRes(ev) != nil {
					t.count(st, "did")
					return t.fails(s, st, ev)
				}
				return nil
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if t.num(st, "did") != 1 {
					t.bad(s, st, in, "every", fmt.Sprintf("a file is handed out %d times", t.num(st, "did")))
				}
				if !t.reported(s, st, in, res) {
					return
				}
				if s.Eval(st, s.T.IsNil(res[0])) != 1 {
					t.bad(s, st, in, "stop", "ends the visit although the callback did not fail")
				}
			},
		})
		c.Run(s, fn, nil)
	}
}

func isTypeCall(t *Term) bool {
	return (t.op == OpOpaque || t.op == OpPure) && base(t.aux) == "Type"
}

// dirEnd: the directory taken up before is done with.
func (t *trav) dirEnd(s *Sim, st *State, in ssa.Instruction, files bool) {
	if st.marks["item"].T == nil {
		return
	}
	if st.marks["listed"].S == "" {
		t.bad(s, st, in, "every", "goes on before all entries of a directory were seen")
	}
	if !files && t.num(st, "vis") != 1 {
		t.bad(s, st, in, "every", fmt.Sprintf("a directory is handed out %d times", t.num(st, "vis")))
	}
	delete(st.marks, "listed")
	delete(st.marks, "vis")
}

// p28pages: listings that come in pages.
func (c *Check) p28pages() {
	fn := c.P.Lookup("pkg/s3util", "ListBucket")
	page := c.named("pkg/s3util", "ListBucketPage")
	if fn == nil || page == nil {
		c.Bad("pages", "ListBucket", "", "not found", nil)
		return
	}
	t := &trav{c: c, key: c.P.FnName(fn)}
	c.Ob("pages", t.key, c.P.Pos(fn.Pos()))
	c.Ob("stop", t.key, c.P.Pos(fn.Pos()))
	var cb *Term
	hit := map[string]bool{}
	isPage := func(x *Term) bool { return namedOf(x.typ) == page }
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: t.branch,
		Subst:  t.subst,
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			switch {
			case ev.Fun == cb && cb != nil:
				t.stopped(s, st, ev.Site)
				hit["cb"] = true
				if !isPage(ev.Args[0]) || strip(ev.Args[0]) != st.marks["page"].T {
					t.bad(s, st, ev.Site, "pages", "hands out something else than the page read")
				}
				t.count(st, "did")
				// the markers must be those of this page, taken before the callback may change it, or after
			case strings.HasSuffix(ev.Name, "Unmarshal"):
				var b *Term
				for _, a := range ev.Args {
					if x := strip(a); x.op == OpAlloc && isPage(x) {
						b = x
					}
				}
				if b == nil {
					t.bad(s, st, ev.Site, "pages", "the answer is not read into a page")
					return
				}
				if r := st.marks["body"].T; r == nil || !mentions(ev.Args[0], r) {
					t.bad(s, st, ev.Site, "pages", "the page is not read from the answer to this request")
				}
				if st.marks["status"].S != "ok" {
					t.bad(s, st, ev.Site, "pages", "an answer is taken for a page although it may report a failure")
				}
				st.marks["page"] = Mark{T: b}
				delete(st.marks, "did")
			case strings.HasSuffix(ev.Name, "QueryEscape"):
			case base(ev.Name) == "Get" && strings.Contains(ev.Name, "http.Client"), base(ev.Name) == "Do" && strings.Contains(ev.Name, "http.Client"):
				t.stopped(s, st, ev.Site)
				hit["get"] = true
				t.pageEnd(s, st, ev.Site, true)
				url := ev.Args[1]
				if st.marks["again"].S != "" {
					hit["next"] = true
					for _, f := range []string{"NextKeyMarker", "NextVersionIdMarker"} {
						if st.marks["nil:"+f].S != "yes" && !carries(url, f) {
							t.bad(s, st, ev.Site, "pages", "the next page is asked for without its "+f)
						}
					}
					if msg := markerURL(url); msg != "" {
						t.bad(s, st, ev.Site, "pages", msg)
					}
				}
				clearMarks(st, "nil:")
				delete(st.marks, "status")
				delete(st.marks, "page")
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			switch {
			case ev.Fun == cb && cb != nil:
				return t.fails(s, st, ev)
			case base(ev.Name) == "ReadAll":
				st.marks["body"] = Mark{T: s.Res(ev, 0)}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !t.reported(s, st, in, res) {
				return
			}
			t.pageEnd(s, st, in, false)
		},
	})
	next := s.H.Branch
	s.H.Branch = func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
		next(s, st, in, cond, taken)
		for cond.op == OpNot {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == OpNil {
			if f := marker(cond.args[0]); f != "" {
				st.marks["nil:"+f] = Mark{S: map[bool]string{true: "yes", false: "no"}[taken]}
			}
		}
		walkTerm(cond, func(u *Term) {
			switch loadedField(u) {
			case "StatusCode":
				if taken && cond.op == OpEq0 && s.Eval(st, s.T.Eq(u, s.T.Int(200))) == 1 {
					st.marks["status"] = Mark{S: "ok"}
				}
			case "IsTruncated":
				if cond == u && st.marks["page"].T != nil && mentions(u, st.marks["page"].T) {
					st.marks["more"] = Mark{S: map[bool]string{true: "yes", false: "no"}[taken]}
				}
			}
		})
	}
	s.Depth = 6
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		cb = params[2]
		st.marks["p2"] = Mark{T: cb}
	})
	for _, k := range []string{"cb", "get", "next"} {
		if !hit[k] {
			c.Bad("pages", t.key, c.P.Pos(fn.Pos()), "no request or callback found ("+k+")", nil)
		}
	}
}

func (t *trav) pageEnd(s *Sim, st *State, in ssa.Instruction, again bool) {
	if st.marks["page"].T == nil {
		if !again {
			t.bad(s, st, in, "pages", "may succeed without having read a page")
		}
		return
	}
	if t.num(st, "did") != 1 {
		t.bad(s, st, in, "pages", fmt.Sprintf("a page is handed out %d times", t.num(st, "did")))
	}
	m := st.marks["more"].S
	if again && m != "yes" {
		t.bad(s, st, in, "pages", "asks for another page although this may be the last one")
	}
	if !again && m != "no" {
		t.bad(s, st, in, "pages", "may end although there are more pages")
	}
	st.marks["again"] = Mark{S: "1"}
	delete(st.marks, "more")
	delete(st.marks, "did")
}

// marker: the field of a page a pointer was taken from, maybe one page before.
func marker(x *Term) string {
	if f := loadedField(x); f != "" {
		return f
	}
	if ph, ok := x.instr.(*ssa.Phi); ok && x.op == OpPhi {
		if fs := phiFields(ph); len(fs) == 1 {
			for f := range fs {
				return f
			}
		}
	}
	return ""
}

func carries(x *Term, f string) bool {
	ok := false
	walkTerm(x, func(u *Term) { ok = ok || marker(u) == f })
	return ok
}

// phiFields: the struct fields whose values a loop variable takes.
func phiFields(ph *ssa.Phi) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				rec(e)
			}
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				out[faName(fa)] = true
			}
		}
	}
	rec(ph)
	return out
}

// markerURL: each marker goes into the query under its own name.
func markerURL(url *Term) string {
	var pieces []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		t = strip(t)
		switch {
		case t.op == OpBin && t.aux == "+":
			flat(t.args[0])
			flat(t.args[1])
		case (t.op == OpPure || t.op == OpOpaque) && strings.HasSuffix(t.aux, "fmt.Sprintf"):
			f, ok := t.args[0].StrConst()
			if !ok {
				pieces = append(pieces, t)
				return
			}
			parts := strings.Split(f, "%s")
			for i, p := range parts {
				pieces = append(pieces, &Term{op: OpConst, aux: p})
				if i < len(parts)-1 && i+1 < len(t.args) {
					flat(t.args[i+1])
				}
			}
		default:
			pieces = append(pieces, t)
		}
	}
	flat(url)
	names := map[string]string{"key-marker": "NextKeyMarker", "version-id-marker": "NextVersionIdMarker"}
	for i, p := range pieces {
		k := constText(p)
		if k == "" || i+1 >= len(pieces) {
			continue
		}
		j := strings.LastIndexAny(k, "&?")
		if j < 0 || !strings.HasSuffix(k, "=") {
			continue
		}
		name := k[j+1 : len(k)-1]
		f, ok := names[name]
		if !ok {
			continue
		}
		v := pieces[i+1]
		if !strings.HasSuffix(v.aux, "QueryEscape") {
			return "a marker is not escaped in the query"
		}
		for _, g := range names {
			if has := carries(v, g); has != (g == f) {
				return "the query parameter " + name + " does not carry " + f
			}
		}
		delete(names, name)
	}
	for n, f := range names {
		if carries(url, f) {
			return "the query parameter " + n + " is missing"
		}
	}
	return ""
}

func constText(t *Term) string {
	if k, ok := t.StrConst(); ok {
		return k
	}
	if t.op == OpConst && t.typ == nil {
		return t.aux
	}
	return ""
}

// p28buckets: what a page contains is listed.
func (c *Check) p28buckets() {
	page := c.named("pkg/s3util", "ListBucketPage")
	if page == nil {
		return
	}
	n := 0
	for _, fn := range c.P.Funcs {
		rel := c.P.Rel(fn)
		if isMockPkg(rel) || !strings.HasPrefix(rel, "pkg/storage/") {
			continue
		}
		sg := fn.Signature
		if sg.Params().Len() == 0 || sg.Results().Len() != 1 || !isErrorType(sg.Results().At(0).Type()) || namedOf(sg.Params().At(sg.Params().Len()-1).Type()) != page {
			continue
		}
		n++
		t := &trav{c: c, key: c.P.FnName(outer(fn))}
		for _, r := range []string{"every", "path"} {
			c.Ob(r, t.key, c.P.Pos(fn.Pos()))
		}
		isEl := func(x *Term, el *Term) bool { return mentions(x, el) }
		t.cond = func(s *Sim, st *State, cond *Term) string {
			el := st.marks["el"].T
			if el == nil {
				return ""
			}
			if loadedField(cond) == "IsLatest" {
				return "latest"
			}
			if k := dotOf(cond, func(x *Term) bool { return isString(x) && isEl(x, el) }); k != "" {
				return k
			}
			if cond.op == OpEq0 {
				ms, _ := s.T.toPoly(cond.args[0])
				if len(ms) == 1 && len(ms[0].a) == 1 && ms[0].a[0].op == OpLen && isString(ms[0].a[0].args[0]) {
					return "empty"
				}
			}
			return ""
		}
		t.want = func(st *State) (int, int) {
			if st.marks["list"].S == "Version" && (st.marks["k:latest"].S != "yes" || st.marks["k:empty"].S == "yes") {
				if st.marks["k:latest"].S == "" {
					return 0, -1
				}
				return 0, -1
			}
			return 1, -1
		}
		hit := map[string]bool{}
		s := c.Sim(Hooks{
			Inline: func(s *Sim, st *State, ev *CallEv) bool {
				return pkgInline(c)(s, st, ev) || ev.Callee != nil && c.P.Rel(ev.Callee) == "pkg/s3util"
			},
			Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
				e := elemOf(addr)
				if e == nil || len(e.args) < 2 {
					return nil
				}
				f := loadedField(e.args[0])
				if f != "Version" && f != "CommonPrefixes" {
					return nil
				}
				if st.marks["el"].T == e {
					return nil
				}
				t.begin(s, st, in, e)
				st.marks["list"] = Mark{S: f}
				return nil
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Name != "append" || st.marks["el"].T == nil {
					return
				}
				for _, v := range ev.VArgs[1:] {
					x := strip(v)
					n := namedOf(x.typ)
					if n == nil || x.op != OpAlloc {
						continue
					}
					if _, ok := n.Underlying().(*types.Struct); !ok || fieldBy(n, func(t types.Type) bool { return t.String() == "time.Time" }) == "" {
						continue
					}
					t.count(st, "did")
					list := st.marks["list"].S
					hit[list] = true
					name, _ := fieldTerm(s, st, x, n, "name")
					isd, _ := fieldTerm(s, st, x, n, "isDir")
					el := st.marks["el"].T
					if name == nil || !isEl(name, el) {
						t.bad(s, st, ev.Site, "path", "an entry is listed under a name that is not its own")
					} else if e := strip(name); e.op == OpLoad && e.args[0].op == OpIndexAddr {
						e = e.args[0]
						back := map[string]int64{"Version": 1, "CommonPrefixes": 2}[list]
						ln := s.T.intern(&Term{op: OpLen, args: []*Term{e.args[0]}, typ: types.Typ[types.Int]})
						if k, ok := s.T.Sub(ln, e.args[1]).IntConst(); !ok || k != back {
							t.bad(s, st, ev.Site, "path", "an entry is not listed under the last component of its name")
						}
					}
					if want := list == "CommonPrefixes"; isd == nil || s.Eval(st, isd) != b2i(want) {
						t.bad(s, st, ev.Site, "subdirectories", "an entry is not listed as what it is (file or directory)")
					}
					if sz, _ := fieldTerm(s, st, x, n, "size"); list == "Version" && (sz == nil || loadedField(sz) != "Size" || !isEl(sz, el)) {
						t.bad(s, st, ev.Site, "every", "a file is not listed with its own size")
					}
				}
			},
			Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
				sto, ok := in.(*ssa.Store)
				if !ok || addr.op != OpFree {
					return
				}
				typ := sto.Val.Type()
				if _, ok := typ.Underlying().(*types.Slice); !ok {
					return
				}
				if old := s.LoadAddr(st, addr, typ); val.op != OpOpaque || val.aux != "append" || val.args[0] != old {
					t.bad(s, st, in, "every", "what was collected from earlier pages is dropped")
				}
			},
			BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
				if el := st.marks["el"].T; el != nil && inLoop(el) {
					t.end(s, st, header.Instrs[len(header.Instrs)-1])
					clearMarks(st, "br:")
				}
			},
			Branch: t.branch,
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if !s.succeeds(st, in, res) {
					return
				}
				t.end(s, st, in)
				for _, f := range []string{"Version", "CommonPrefixes"} {
					if st.marks["end:"+f].S == "" {
						t.bad(s, st, in, "every", "may return before all of "+f+" is listed")
					}
				}
			},
		})
		s.Depth = 6
		c.Run(s, fn, nil)
		for _, k := range []string{"Version", "CommonPrefixes"} {
			if !hit[k] {
				c.Bad("every", t.key, c.P.Pos(fn.Pos()), "nothing of "+k+" is listed", nil)
			}
		}
	}
	if n < 2 {
		c.Bad("every", "bucket listings", "", "fewer bucket listings found than known", nil)
	}
	// what was collected is what is returned
	for _, rel := range []string{"pkg/storage/s3", "pkg/storage/swift"} {
		d := c.named(rel, "Driver")
		var fn *ssa.Function
		if d != nil {
			fn = c.P.Method(d, "Readdir")
		}
		if fn == nil {
			c.Bad("every", rel+" Readdir", "", "not found", nil)
			continue
		}
		t := &trav{c: c, key: c.P.FnName(fn)}
		var url *Term
		s := c.Sim(Hooks{
			Inline: func(s *Sim, st *State, ev *CallEv) bool { return false },
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if base(ev.Name) == "parseURL" && ev.Args[1] != url {
					t.bad(s, st, ev.Site, "path", "another location is listed than the one given")
				}
				if base(ev.Name) == "ListBucket" {
					t.count(st, "did")
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if !s.succeeds(st, in, res) {
					return
				}
				if t.num(st, "did") != 1 {
					t.bad(s, st, in, "every", "may return without listing")
				}
				if res[0].op == OpConst || res[0].op == OpSlice {
					t.bad(s, st, in, "every", "the entries collected are not what is returned")
				}
			},
		})
		c.Run(s, fn, func(st *State, params, frees []*Term) {
			url = params[2]
			st.marks["p"] = Mark{T: url}
		})
	}
}

// p28local: listings of local and in-memory directories.
func (c *Check) p28local() {
	if d := c.named("pkg/storage/file", "Driver"); d != nil {
		fn := c.P.Method(d, "Readdir")
		if fn == nil {
			c.Bad("every", "file Readdir", "", "not found", nil)
		} else {
			t := &trav{c: c, key: c.P.FnName(fn)}
			c.Ob("every", t.key, c.P.Pos(fn.Pos()))
			s := c.Sim(Hooks{
				Inline: pkgInline(c),
				PreCall: func(s *Sim, st *State, ev *CallEv) {
					if ev.Name == "(*os.File).Readdir" {
						if k, ok := ev.Args[1].IntConst(); !ok || k > 0 {
							t.bad(s, st, ev.Site, "every", "only some entries are listed")
						}
					}
				},
				PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
					switch ev.Name {
					case "(*os.File).Readdir", "io/ioutil.ReadDir":
						st.marks["list"] = Mark{T: ev.Result}
					}
					return nil
				},
				Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
					if !s.succeeds(st, in, res) {
						return
					}
					l := st.marks["list"].T
					if l == nil || !fromResult(res[0], l, 0) || !fromResult(res[1], l, 1) && s.Eval(st, s.T.IsNil(s.T.Extract(l, 1, res[1].typ))) != 1 {
						t.bad(s, st, in, "every", "the entries listed are not what is returned")
					}
				},
			})
			c.Run(s, fn, nil)
		}
	}
	d := c.named("pkg/storage/ram", "Driver")
	if d == nil {
		return
	}
	fn := c.P.Method(d, "Readdir")
	if fn == nil {
		c.Bad("every", "ram Readdir", "", "not found", nil)
		return
	}
	t := &trav{c: c, key: c.P.FnName(fn)}
	c.Ob("every", t.key, c.P.Pos(fn.Pos()))
	t.want = func(st *State) (int, int) { return 1, -1 }
	isNext := func(x *Term) *Term {
		var e *Term
		walkTerm(x, func(u *Term) {
			if u.op == OpExtract && u.aux == "1" && u.args[0].typ == nil || u.op == OpExtract && u.aux == "1" && strings.Contains(u.args[0].aux, "next") {
				e = u
			}
		})
		return e
	}
	hit := false
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && ev.Callee.Name() != "traverse" && ev.Callee.Name() != "urlToPath"
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Name == "append" {
				for _, v := range ev.VArgs[1:] {
					x := strip(v)
					n := namedOf(x.typ)
					if n == nil || x.op != OpAlloc || fieldBy(n, func(t types.Type) bool { return t.String() == "os.FileMode" || t.String() == "io/fs.FileMode" }) == "" {
						continue
					}
					hit = true
					t.count(st, "did")
					name, _ := fieldTerm(s, st, x, n, "name")
					mode, _ := fieldTerm(s, st, x, n, "mode")
					size, _ := fieldTerm(s, st, x, n, "size")
					if name == nil || isNext(name) == nil || isNext(name) != strip(name) {
						t.bad(s, st, ev.Site, "path", "an entry is not listed under its own name")
					}
					if mode == nil || isNext(mode) == nil && !strings.Contains(mode.String(), "next") || size == nil || !strings.Contains(size.String(), "next") {
						t.bad(s, st, ev.Site, "every", "an entry is not listed with its own type and size")
					}
				}
			}
		},
		Instr: func(s *Sim, st *State, in ssa.Instruction) {
			if _, ok := in.(*ssa.Next); ok {
				if st.marks["turn"].S != "" && t.num(st, "did") != 1 {
					t.bad(s, st, in, "every", fmt.Sprintf("an entry is listed %d times", t.num(st, "did")))
				}
				delete(st.marks, "did")
				st.marks["turn"] = Mark{S: "1"}
			}
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if cond.op == OpExtract && cond.aux == "0" && strings.Contains(cond.args[0].aux, "next") {
				if taken {
					delete(st.marks, "ended")
				} else {
					st.marks["ended"] = Mark{S: "1"}
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if s.succeeds(st, in, res) && st.marks["ended"].S == "" {
				t.bad(s, st, in, "every", "may return before all entries are listed")
			}
		},
	})
	c.Run(s, fn, nil)
	if !hit {
		c.Bad("every", t.key, c.P.Pos(fn.Pos()), "no entry is listed", nil)
	}
}
