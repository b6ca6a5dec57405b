package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P28"] = checkP28 }

// P28: walks, visits and listings.

// trav follows one element after the other through a traversal.
//
//	el      the current element
//	did     how often it was handed out
//	q       how often it was kept for later
//	k:…     what branches established about it
//	failed  the failure of the callback
type trav struct {
	c         *Check
	key       string
	rule      string
	dirs      bool                                       // elements that are directories are kept for later
	cond      func(s *Sim, st *State, cond *Term) string // what a branch asks about the element
	want      func(st *State) (did, q int)               // -1: any
	undecided string
}

func (t *trav) bad(s *Sim, st *State, in ssa.Instruction, rule, msg string) {
	t.c.Bad(rule, t.key, t.c.P.InstrPos(in), msg, s.Path(st))
}

func (t *trav) count(st *State, k string) {
	m := st.marks[k]
	if len(m.S) < 3 {
		m.S += "x"
	}
	st.marks[k] = m
}

func (t *trav) num(st *State, k string) int { return len(st.marks[k].S) }

func (t *trav) begin(s *Sim, st *State, in ssa.Instruction, el *Term) {
	t.end(s, st, in)
	st.marks["el"] = Mark{T: el}
}

// end: the traversal is done with the element.
func (t *trav) end(s *Sim, st *State, in ssa.Instruction) {
	if st.marks["el"].T == nil {
		return
	}
	did, q := t.want(st)
	if did >= 0 && t.num(st, "did") != did {
		t.bad(s, st, in, "every", fmt.Sprintf("an entry is handed out %d times instead of %d", t.num(st, "did"), did))
	}
	if q >= 0 && t.num(st, "q") != q {
		t.bad(s, st, in, "subdirectories", fmt.Sprintf("an entry is taken up for its own entries %d times instead of %d", t.num(st, "q"), q))
	}
	delete(st.marks, "el")
	delete(st.marks, "did")
	delete(st.marks, "q")
	clearMarks(st, "k:")
}

func (t *trav) branch(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
	for cond.op == OpNot {
		cond, taken = cond.args[0], !taken
	}
	if cond.op == OpLt0 {
		ms, _ := s.T.toPoly(cond.args[0])
		for _, m := range ms {
			if len(m.a) == 1 && m.a[0].op == OpLen {
				k := "end:" + lenOf(m.a[0])
				if (m.c < 0) == taken {
					delete(st.marks, k)
				} else {
					st.marks[k] = Mark{S: "1"}
				}
			}
		}
	}
	if cond.op == OpEq0 {
		ms, _ := s.T.toPoly(cond.args[0])
		if len(ms) == 1 && len(ms[0].a) == 1 && ms[0].a[0].op == OpLen {
			if k := "end:" + lenOf(ms[0].a[0]); taken {
				st.marks[k] = Mark{S: "1"}
			} else {
				delete(st.marks, k)
			}
		}
	}
	if t.cond == nil {
		return
	}
	if k := t.cond(s, st, cond); k != "" {
		st.marks["k:"+k] = Mark{S: map[bool]string{true: "yes", false: "no"}[taken]}
	}
}

// lenOf: a name for the list a length is of.
func lenOf(l *Term) string {
	x := l.args[0]
	if f := loadedField(x); f != "" {
		return f
	}
	if x.typ != nil {
		return typeStr(x.typ)
	}
	return "?"
}

// subst: a value goes on under another name after a turn of a loop.
func (t *trav) subst(s *Sim, st *State, old, new *Term) {
	if m := st.marks["failed"]; m.T == old {
		m.T = new
		st.marks["failed"] = m
	}
}

// fails: the callback was called; what happens next depends on its outcome.
func (t *trav) fails(s *Sim, st *State, ev *CallEv) []*State {
	E := s.ErrRes(ev)
	return s.fork(st, ev, func(o *State) { o.marks["failed"] = Mark{T: E} })
}

// stopped: nothing more is done after a failure.
func (t *trav) stopped(s *Sim, st *State, in ssa.Instruction) {
	if st.marks["failed"].T != nil {
		t.bad(s, st, in, "stop", "goes on after a failure")
	}
}

// reported: a failure is what is returned.  Tells whether the traversal may have succeeded.
func (t *trav) reported(s *Sim, st *State, in *ssa.Return, res []*Term) bool {
	if E := st.marks["failed"].T; E != nil {
		ok := false
		for _, r := range res {
			walkTerm(r, func(x *Term) { ok = ok || x == E })
		}
		if !ok {
			t.bad(s, st, in, "stop", "a failure is not returned")
		}
		return false
	}
	return s.succeeds(st, in, res)
}

func checkP28(c *Check) {
	c.Rule("failure", "a traversal reports every failure of what it calls", 25)
	c.Rule("every", "every entry is handed out once", 9)
	c.Rule("path", "an entry is handed out under its own path, made of the path of its directory and its name", 6)
	c.Rule("alias", "a path kept for later shares no memory that a later entry writes", 2)
	c.Rule("subdirectories", "every directory met is taken up for its own entries once, and the traversal ends only when none is left", 5)
	c.Rule("stop", "a failing callback ends the traversal, which returns that failure", 6)
	c.Rule("pages", "every page of a listing is handed out and the next one is asked for where it ended", 1)
	c.p28errors()
	c.p28walk()
	c.p28readdirs()
	c.p28tree()
	c.p28worker()
	c.p28visit()
	c.p28pages()
	c.p28buckets()
	c.p28local()
	c.p28alias()
}

// isTraversal: by name and shape.
func (c *Check) isTraversal(fn *ssa.Function) bool {
	if fn.Parent() != nil || isMockPkg(c.P.Rel(fn)) || fn.Synthetic != "" {
		return false
	}
	switch fn.Name() {
	case "Walk", "ReadDir", "Readdir", "ReaddirContext", "Visit", "VisitContext", "VisitFiles", "VisitFileInodes", "VisitDirectories", "ListBucket":
		return true
	}
	// calls a function it was given or a visitor
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if p, ok := cl.Call.Value.(*ssa.Parameter); ok && !cl.Call.IsInvoke() && isFuncType(p.Type()) && strings.HasPrefix(c.P.Rel(fn), "pkg/iso9660") {
				return true
			}
			if cl.Call.IsInvoke() && cl.Call.Method.Name() == "VisitDir" {
				return true
			}
		}
	}
	return false
}

func (c *Check) p28errors() {
	e := &errRule{c: c, rule: "failure", tol: errTols, used: map[int]map[string]string{}}
	for _, fn := range c.P.Funcs {
		if c.isTraversal(fn) || fn.Name() == "Next" && c.P.Rel(fn) == isoRel {
			e.runFn(fn)
		}
	}
	e.finish()
}

// isCall: the result of a method of that name on x.
func isCall(t *Term, name string, x *Term) bool {
	return t != nil && (t.op == OpOpaque || t.op == OpPure) && base(t.aux) == name && len(t.args) > 0 && strip(t.args[0]) == x
}

// dotOf: a branch compares the name with "." or "..".
func dotOf(cond *Term, isName func(*Term) bool) string {
	if cond.op != OpEq || len(cond.args) != 2 {
		return ""
	}
	a, b := cond.args[0], cond.args[1]
	if _, ok := a.StrConst(); ok {
		a, b = b, a
	}
	k, ok := b.StrConst()
	if !ok || !isName(a) {
		return ""
	}
	switch k {
	case ".":
		return "dot"
	case "..":
		return "dotdot"
	case "":
		return "empty"
	}
	return ""
}

// dots: the entries for the directory itself and its parent are not taken up again.
func (t *trav) dots(s *Sim, st *State, in ssa.Instruction) {
	if st.marks["k:dot"].S != "no" || st.marks["k:dotdot"].S != "no" {
		t.bad(s, st, in, "subdirectories", "the entry of the directory itself or of its parent may be taken up as a directory")
	}
}

// wantDir: directories other than the dot entries are taken up.
func wantDir(st *State) int {
	if st.marks["k:dir"].S == "no" || st.marks["k:dot"].S == "yes" || st.marks["k:dotdot"].S == "yes" {
		return 0
	}
	return 1
}

func (c *Check) p28walk() {
	w := c.named(isoRel, "Walker")
	var fn *ssa.Function
	if w != nil {
		fn = c.P.Method(w, "Walk")
	}
	if fn == nil {
		c.Bad("every", "Walk", "", "not found", nil)
		return
	}
	t := &trav{c: c, key: c.P.FnName(fn)}
	pos := c.P.Pos(fn.Pos())
	for _, r := range []string{"every", "path", "subdirectories", "stop"} {
		c.Ob(r, t.key, pos)
	}
	var cb, root *Term
	field := func(x *Term, name string, el *Term) bool {
		return isCall(x, name, el) || x.op == OpLoad && x.args[0].op == OpFieldAddr && x.args[0].args[0] == el && strings.EqualFold(x.args[0].aux, name)
	}
	t.cond = func(s *Sim, st *State, cond *Term) string {
		el := st.marks["el"].T
		if el == nil {
			return ""
		}
		if field(cond, "IsDir", el) {
			return "dir"
		}
		return dotOf(cond, func(x *Term) bool { return field(x, "Name", el) })
	}
	t.want = func(st *State) (int, int) { return 1, wantDir(st) }
	handed := map[string]bool{}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			if !pkgInline(c)(s, st, ev) {
				return false
			}
			switch ev.Callee.Name() {
			case "Next", "FileInfoAndLen", "NewReadDirIterator", "Err", "lstat", "pathParts":
				return false
			}
			return true
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			switch {
			case ev.Fun == cb:
				t.stopped(s, st, ev.Site)
				path, fi, e := ev.Args[0], strip(ev.Args[1]), ev.Args[2]
				if st.marks["el"].T == nil {
					if st.marks["root"].S != "" {
						t.bad(s, st, ev.Site, "every", "calls the callback with something that is no entry")
					}
					st.marks["root"] = Mark{S: "1"}
					ls := st.marks["lstat"].T
					if path != root || ls == nil || !fromResult(fi, ls, 0) || !fromResult(e, ls, 1) {
						t.bad(s, st, ev.Site, "path", "the root is not handed out under the path given, with the outcome of looking it up")
					}
					handed["root"] = true
					return
				}
				handed["entry"] = true
				if st.marks["root"].S == "" {
					t.bad(s, st, ev.Site, "every", "the root is not handed out first")
				}
				if fi != st.marks["el"].T {
					t.bad(s, st, ev.Site, "every", "another entry is handed out than the one read")
				}
				if s.Eval(st, s.T.IsNil(e)) != 1 {
					t.bad(s, st, ev.Site, "every", "an entry that was read is handed out with an error")
				}
				if msg := c.itemPath(path, st.marks["item"].T); msg != "" {
					t.bad(s, st, ev.Site, "path", msg)
				}
				t.count(st, "did")
			case base(ev.Name) == "Enqueue":
				t.stopped(s, st, ev.Site)
				it := strip(ev.Args[1])
				n := namedOf(it.typ)
				if n == nil {
					t.bad(s, st, ev.Site, "subdirectories", "what is kept for later is not understood")
					return
				}
				info, parts := c.itemFields(s, st, it, n)
				if el := st.marks["el"].T; el != nil {
					if info != el {
						t.bad(s, st, ev.Site, "subdirectories", "another entry is kept for later than the one read")
					}
					if t.num(st, "did") == 0 {
						t.bad(s, st, ev.Site, "every", "an entry is kept for later before it is handed out")
					}
					t.dots(s, st, ev.Site)
					t.joined(s, st, ev.Site, parts, st.marks["item"].T, func(x *Term) bool { return field(x, "Name", el) })
					t.count(st, "q")
				} else {
					ls, pp := st.marks["lstat"].T, st.marks["parts"].T
					if ls == nil || !fromResult(info, ls, 0) || parts == nil || parts != pp && !fromString(parts, root) {
						t.bad(s, st, ev.Site, "subdirectories", "the root is not what is looked into first")
					}
					t.count(st, "rootq")
				}
			case base(ev.Name) == "NewReadDirIterator":
				it := st.marks["item"].T
				if it == nil || len(ev.Args) != 4 {
					t.bad(s, st, ev.Site, "subdirectories", "a listing of no directory")
					return
				}
				if z, ok := ev.Args[3].IntConst(); !ok || z != 0 {
					t.bad(s, st, ev.Site, "every", "a directory is not listed from its start")
				}
				if !mentions(ev.Args[1], it) || !mentions(ev.Args[2], it) || !strings.Contains(strings.ToLower(ev.Args[1].String()), "extent") || !strings.Contains(strings.ToLower(ev.Args[2].String()), "size") {
					t.bad(s, st, ev.Site, "subdirectories", "lists something else than the directory taken up: "+ev.Args[1].String()+", "+ev.Args[2].String())
				}
				st.marks["listing"] = Mark{S: "1"}
			case base(ev.Name) == "Next", base(ev.Name) == "Dequeue":
				t.stopped(s, st, ev.Site)
				t.end(s, st, ev.Site)
				if base(ev.Name) == "Dequeue" {
					if m := st.marks["item"]; m.T != nil && st.marks["listed"].S == "" {
						t.bad(s, st, ev.Site, "every", "goes on to another directory before all entries of one were read")
					}
					delete(st.marks, "listed")
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			switch {
			case ev.Fun == cb:
				return t.fails(s, st, ev)
			case base(ev.Name) == "Err" && strings.Contains(ev.Name, "Iterator") && st.marks["failed"].T == nil:
				return t.fails(s, st, ev)
			case base(ev.Name) == "lstat" || base(ev.Name) == "Lstat":
				st.marks["lstat"] = Mark{T: ev.Result}
			case base(ev.Name) == "pathParts":
				st.marks["parts"] = Mark{T: ev.Result}
			case base(ev.Name) == "Dequeue":
				st.marks["item"] = Mark{T: ev.Result}
			case base(ev.Name) == "FileInfoAndLen":
				t.begin(s, st, ev.Site, s.Res(ev, 0))
			case base(ev.Name) == "Next":
				o := st.clone()
				var out []*State
				if s.Assume(o, ev.Result, false) {
					o.marks["listed"] = Mark{S: "1"}
					out = append(out, o)
				}
				if s.Assume(st, ev.Result, true) {
					delete(st.marks, "listed")
				} else {
					st.dead = true
				}
				return out
			case base(ev.Name) == "Len" && strings.Contains(ev.Name, "ueue"):
				st.marks["len"] = Mark{T: ev.Result}
			}
			return nil
		},
		Branch: t.branch,
		Subst:  t.subst,
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !t.reported(s, st, in, res) {
				return
			}
			t.end(s, st, in)
			if st.marks["root"].S == "" {
				t.bad(s, st, in, "every", "may return without handing out the root")
			}
			if st.marks["item"].T != nil && st.marks["listed"].S == "" {
				t.bad(s, st, in, "every", "may return before all entries of a directory were read")
			}
			l := st.marks["len"].T
			if t.num(st, "rootq") > 0 && (l == nil || s.Eval(st, s.T.Lt(s.T.Int(0), l)) != 0) {
				t.bad(s, st, in, "subdirectories", "may return while directories are still to be looked into")
			}
		},
	})
	s.Depth = 8
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		root, cb = params[1], params[2]
		st.marks["p1"], st.marks["p2"] = Mark{T: root}, Mark{T: cb}
	})
	for _, k := range []string{"root", "entry"} {
		if !handed[k] {
			c.Bad("every", t.key, pos, "the callback is never called for the "+k, nil)
		}
	}
}

func fromResult(t, res *Term, i int) bool {
	t = strip(t)
	return t.op == OpExtract && t.args[0] == res && t.aux == fmt.Sprint(i) || t == res
}

func fromString(t, s *Term) bool { return t != nil && mentions(t, s) }

func mentions(t, x *Term) bool {
	ok := false
	walkTerm(t, func(u *Term) { ok = ok || u == x })
	return ok
}

// mentionsBut: x occurs in t outside of the terms given.
func mentionsBut(t, x *Term, but func(*Term) bool) bool {
	if t == x {
		return true
	}
	if but(t) {
		return false
	}
	for _, a := range t.args {
		if mentionsBut(a, x, but) {
			return true
		}
	}
	return false
}

// itemPath: the path handed out is made of what was kept for the directory.
func (c *Check) itemPath(path, item *Term) string {
	if item == nil {
		return "an entry is handed out before its directory is known"
	}
	if !mentions(path, item) {
		return "the path handed out is not made of the path kept for the directory: " + path.String()
	}
	msg := ""
	walkTerm(path, func(u *Term) {
		if k, ok := u.StrConst(); ok && k != "/" && k != "" {
			msg = fmt.Sprintf("the path handed out contains %q", k)
		}
		if (u.op == OpOpaque || u.op == OpPure) && u != item && u.aux != "" && !mentions(item, u) {
			switch base(u.aux) {
			case "Join", "+", "Clean", "append":
			default:
				msg = "the path handed out depends on " + u.aux
			}
		}
		if u.op == OpSlice {
			msg = "only a part of the path of the directory is handed out"
		}
	})
	if msg == "" && !hasConst(path, "/") && !strings.Contains(path.String(), "Join") && loadedField(path) == "" {
		msg = "the path handed out does not start at the root"
	}
	if msg == "" && path.typ != nil && loadedField(path) == "" && !startsSlash(path) {
		msg = "the path handed out does not start at the root: " + path.String()
	}
	return msg
}

func hasConst(t *Term, k string) bool {
	ok := false
	walkTerm(t, func(u *Term) {
		if x, isc := u.StrConst(); isc && x == k {
			ok = true
		}
	})
	return ok
}

// startsSlash: the leftmost piece of the string is a slash.
func startsSlash(t *Term) bool {
	for {
		if k, ok := t.StrConst(); ok {
			return strings.HasPrefix(k, "/")
		}
		switch {
		case t.op == OpBin && t.aux == "+", t.op == OpPure && (base(t.aux) == "Clean" || base(t.aux) == "Join" && !strings.Contains(t.aux, "strings")):
			t = t.args[0]
		case t.op == OpPure && len(t.args) > 0 && base(t.aux) != "Join" && isString(t.args[0]):
			t = t.args[0]
		default:
			return false
		}
	}
}

func isString(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// itemFields: the entry and the path (list of names or string) kept for later.
func (c *Check) itemFields(s *Sim, st *State, it *Term, n *types.Named) (info, path *Term) {
	stt, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		v, _ := fieldTerm(s, st, it, n, f.Name())
		if v == nil {
			continue
		}
		if fn := namedOf(f.Type()); fn != nil && fn.Obj().Name() == "FileInfo" {
			info = strip(v)
		} else {
			switch f.Type().Underlying().(type) {
			case *types.Slice:
				path = v
			case *types.Basic:
				if isString(v) {
					path = v
				}
			}
		}
	}
	return
}

// joined: the path kept is the directory's with the entry's name added, in memory of its own.
func (t *trav) joined(s *Sim, st *State, in ssa.Instruction, path, item *Term, isName func(*Term) bool) {
	if path == nil || item == nil || !mentionsBut(path, item, isName) {
		t.bad(s, st, in, "path", "the path kept for a directory is not made of the path of the directory it is in")
		return
	}
	named := false
	walkTerm(path, func(u *Term) { named = named || isName(u) })
	if !named {
		t.bad(s, st, in, "path", "the path kept for a directory lacks its name")
	}
	if path.op == OpOpaque && path.aux == "append" {
		b := path.args[0]
		if len(path.args) != 2 || !isName(path.args[1]) {
			t.bad(s, st, in, "path", "the path kept for a directory is not the path of the directory it is in and its name")
		}
		src := b
		if b.op == OpSlice {
			src = b.args[0]
			if lo, ok := b.args[1].IntConst(); !ok || lo != 0 || s.Eval(st, s.T.Eq(b.args[2], s.T.intern(&Term{op: OpLen, args: []*Term{src}, typ: types.Typ[types.Int]}))) != 1 {
				t.bad(s, st, in, "path", "the path kept for a directory lacks a part of the path of the directory it is in")
			}
		}
		_ = src
	}
}

// p28alias: appending to a list kept in shared memory for later needs memory of its own.
func (c *Check) p28alias() {
	for _, fn := range c.P.Funcs {
		rel := c.P.Rel(fn)
		if isMockPkg(rel) || !(rel == isoRel || rel == "pkg/storage/driver" || rel == "pkg/s3util" || rel == "pkg/isofuse") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := cl.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" || !isStrings(cl.Type()) {
					continue
				}
				kept := keptElsewhere(cl)
				if !kept {
					continue
				}
				c.Ob("alias", c.P.FnName(outer(fn)), c.P.InstrPos(in))
				if msg := sharedBase(cl.Call.Args[0], cl, map[ssa.Value]bool{}); msg != "" {
					c.Bad("alias", c.P.FnName(outer(fn)), c.P.InstrPos(in), "the list kept for later is appended to "+msg+" and shares its spare capacity with other entries", nil)
				}
			}
		}
	}
	// a stack that is cut in two
	if fn := c.P.Lookup("pkg/storage/driver", "Visit"); fn != nil {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				sl, ok := in.(*ssa.Slice)
				if !ok || !isStrings(sl.Type()) || sl.High == nil || sl.Low != nil && !isZero(sl.Low) {
					continue
				}
				if _, isArr := deref(sl.X.Type()).Underlying().(*types.Array); isArr {
					continue
				}
				c.Ob("alias", c.P.FnName(fn)+" cut", c.P.InstrPos(in))
				if sl.Max == nil || sl.Max != sl.High {
					c.Bad("alias", c.P.FnName(fn)+" cut", c.P.InstrPos(in), "what is added to the rest of the list overwrites the part being visited", nil)
				}
			}
		}
	}
}

func isZero(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == 0
}

func isStrings(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), types.Typ[types.String])
}

// keptElsewhere: the value is stored in memory that outlives the statement (a field of a new object, a channel).
func keptElsewhere(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if fa, ok := r.Addr.(*ssa.FieldAddr); ok && r.Val == v {
					_ = fa
					return true
				}
			case *ssa.Send:
				return true
			case *ssa.ChangeType:
				if rec(r) {
					return true
				}
			case *ssa.Phi:
				if rec(r) {
					return true
				}
			case *ssa.Return:
				return true
			}
		}
		return false
	}
	return rec(v)
}

// sharedBase: the list appended to is someone else's and may have spare capacity.
func sharedBase(v ssa.Value, own *ssa.Call, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const, *ssa.Alloc, *ssa.MakeSlice:
		return ""
	case *ssa.Slice:
		if v.Max != nil && v.High != nil && (v.Max == v.High || sameLen(v.Max, v.High)) {
			return ""
		}
		return sharedBase(v.X, own, seen)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return sharedBase(v.Call.Args[0], own, seen)
		}
		return ""
	case *ssa.Phi:
		for _, e := range v.Edges {
			if m := sharedBase(e, own, seen); m != "" {
				return m
			}
		}
		return ""
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					if m := sharedBase(s.Val, own, seen); m != "" {
						return m
					}
				}
			}
			return ""
		}
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			// a list that grows in place
			all := true
			for _, r := range *own.Referrers() {
				s, ok := r.(*ssa.Store)
				if !ok {
					continue
				}
				f2, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || f2.X != fa.X || f2.Field != fa.Field {
					all = false
				}
			}
			if all {
				return ""
			}
			return "the list in " + faName(fa)
		}
		return "a shared list"
	case *ssa.Parameter:
		return "the list in " + v.Name()
	case *ssa.FreeVar:
		return "the list in " + v.Name()
	}
	return ""
}

func sameLen(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	bx, ok1 := x.Call.Value.(*ssa.Builtin)
	by, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && bx.Name() == "len" && by.Name() == "len" && sameLoad(x.Call.Args[0], y.Call.Args[0], 0)
}

// sameLoad: two loads of the same place.
func sameLoad(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 5 {
		return false
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameLoad(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameLoad(x.X, y.X, d+1)
	}
	return false
}
