package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isChanOf(t *Term, elem string) bool {
	if t == nil || t.typ == nil {
		return false
	}
	ch, ok := t.typ.Underlying().(*types.Chan)
	return ok && ch.Elem().String() == elem
}

// p28worker: a worker lists the directories it is given.
func (c *Check) p28worker() {
	n := 0
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != "pkg/storage/driver" || !c.P.goTargets()[fn] || !reachesVisit(c.P, fn) {
			continue
		}
		n++
		t := &trav{c: c, key: c.P.FnName(fn)}
		for _, r := range []string{"every", "path", "subdirectories", "stop"} {
			c.Ob(r, t.key, c.P.Pos(fn.Pos()))
		}
		isF := func(x, el *Term) bool { return x != nil && mentions(x, el) }
		t.cond = func(s *Sim, st *State, cond *Term) string {
			el := st.marks["el"].T
			if d := st.marks["dir"].T; d != nil && cond.op == OpEq {
				if k := dotOf(cond, func(x *Term) bool { return x == d }); k == "empty" {
					return "noprefix"
				}
			}
			if el == nil {
				return ""
			}
			if (cond.op == OpOpaque || cond.op == OpPure) && base(cond.aux) == "IsDir" && isF(cond, el) {
				return "dir"
			}
			return dotOf(cond, func(x *Term) bool { return (x.op == OpOpaque || x.op == OpPure) && base(x.aux) == "Name" && isF(x, el) })
		}
		t.want = func(st *State) (int, int) {
			if st.marks["stopping"].S != "" {
				return -1, -1
			}
			return -1, wantDir(st)
		}
		hit := map[string]bool{}
		// dirEnd: everything was done for the directory taken
		dirEnd := func(s *Sim, st *State, in ssa.Instruction) {
			t.end(s, st, in)
			if st.marks["dir"].T == nil {
				return
			}
			if E := st.marks["failed"].T; E != nil {
				if st.marks["told"].S != "x" {
					t.bad(s, st, in, "stop", "a failure is not reported")
				}
			} else if st.marks["stopping"].S == "" && st.marks["skip"].S == "" {
				if t.num(st, "listed") != 1 || t.num(st, "visited") != 1 {
					t.bad(s, st, in, "every", fmt.Sprintf("a directory is listed %d times and handed out %d times", t.num(st, "listed"), t.num(st, "visited")))
				}
				if st.marks["endfiles"].S == "" {
					t.bad(s, st, in, "subdirectories", "goes on before all entries of the directory were seen")
				}
			}
			for _, k := range []string{"dir", "skip", "listed", "visited", "endfiles", "files"} {
				delete(st.marks, k)
			}
		}
		sendPath := func(s *Sim, st *State, in ssa.Instruction, v *Term) {
			el, d := st.marks["el"].T, st.marks["dir"].T
			if el == nil || d == nil {
				t.bad(s, st, in, "subdirectories", "hands on a path that is no entry's")
				return
			}
			t.count(st, "q")
			t.dots(s, st, in)
			hit["next"] = true
			p := flatten(v)
			isName := func(x *Term) bool {
				return (x.op == OpOpaque || x.op == OpPure) && base(x.aux) == "Name" && isF(x, el)
			}
			ok := len(p) == 3 && p[0] == d && constText(p[1]) == "/" && isName(p[2])
			if st.marks["k:noprefix"].S == "yes" || st.marks["noprefix"].S == "yes" {
				ok = ok || len(p) == 1 && isName(p[0])
			}
			if !ok {
				t.bad(s, st, in, "path", "a directory is handed on under another path than the one of the directory it is in and its name: "+v.String())
			}
		}
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			Chan: func(s *Sim, st *State, in ssa.Instruction, send bool, ch, v, ok *Term, among []*Term) {
				switch {
				case isChanOf(ch, "error") && send:
					E := st.marks["failed"].T
					if E == nil || !mentions(v, E) {
						t.bad(s, st, in, "stop", "reports something else than the failure")
					}
					t.count(st, "told")
				case isChanOf(ch, "string") && !send:
					t.stopped(s, st, in)
					dirEnd(s, st, in)
					if st.marks["stopping"].S != "" {
						t.bad(s, st, in, "stop", "goes on after the visit was cancelled")
					}
					hit["take"] = true
					st.marks["dir"] = Mark{T: v}
					if ok != nil {
						o := st.clone()
						if s.Assume(o, ok, false) {
							delete(o.marks, "dir")
							o.marks["over"] = Mark{S: "1"}
							s.push(o)
						}
						if !s.Assume(st, ok, true) {
							st.dead = true
						}
					}
				case isChanOf(ch, "string") && send:
					sendPath(s, st, in, v)
				case isChanOf(ch, "struct{}") && !send:
					st.marks["stopping"] = Mark{S: "1"}
				}
			},
			Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
				e := elemOf(addr)
				if e == nil || st.marks["files"].T == nil || strip(e.args[0]) != st.marks["files"].T || st.marks["el"].T == val {
					return nil
				}
				t.begin(s, st, in, val)
				return nil
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				d := st.marks["dir"].T
				switch base(ev.Name) {
				case "ShouldVisitDir", "Readdir", "VisitDir":
					t.stopped(s, st, ev.Site)
				}
				switch base(ev.Name) {
				case "ShouldVisitDir":
					if d == nil || ev.Args[1] != d {
						t.bad(s, st, ev.Site, "path", "asks about another directory than the one taken")
					}
				case "Readdir":
					if d == nil || ev.Args[2] != d {
						t.bad(s, st, ev.Site, "path", "lists another directory than the one taken")
					}
					if st.marks["skip"].S != "" {
						t.bad(s, st, ev.Site, "every", "lists a directory that is not to be visited")
					}
					t.count(st, "listed")
				case "VisitDir":
					hit["visit"] = true
					if d == nil || ev.Args[1] != d || ev.Args[2] != st.marks["files"].T {
						t.bad(s, st, ev.Site, "path", "hands out other entries or another path than of the directory taken")
					}
					t.count(st, "visited")
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				switch base(ev.Name) {
				case "ShouldVisitDir":
					out := t.fails(s, st, ev)
					r := s.Res(ev, 0)
					o := st.clone()
					if s.Assume(o, r, false) {
						o.marks["skip"] = Mark{S: "1"}
						out = append(out, o)
					}
					if !s.Assume(st, r, true) {
						st.dead = true
					}
					return out
				case "Readdir":
					st.marks["files"] = Mark{T: s.Res(ev, 0)}
					return t.fails(s, st, ev)
				case "VisitDir":
					return t.fails(s, st, ev)
				}
				return nil
			},
			BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
				if el := st.marks["el"].T; el != nil && inLoop(el) {
					t.end(s, st, header.Instrs[len(header.Instrs)-1])
				}
			},
			Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
				t.branch(s, st, in, cond, taken)
				if m := st.marks["k:noprefix"]; m.S != "" {
					st.marks["noprefix"] = m
				}
				if st.marks["files"].T != nil {
					for k := range st.marks {
						if strings.HasPrefix(k, "end:") && strings.Contains(k, "FileInfo") {
							st.marks["endfiles"] = Mark{S: "1"}
						}
					}
					clearMarks(st, "end:")
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				over := st.marks["over"].S != "" || st.marks["stopping"].S != "" || st.marks["failed"].T != nil
				dirEnd(s, st, in)
				if !over {
					t.bad(s, st, in, "every", "a worker may end although there is more to visit")
				}
			},
		})
		s.Depth = 6
		c.Run(s, fn, nil)
		for _, k := range []string{"take", "visit", "next"} {
			if !hit[k] {
				c.Bad("every", t.key, c.P.Pos(fn.Pos()), "no directory is taken, handed out or handed on ("+k+")", nil)
			}
		}
	}
	if n == 0 {
		c.Bad("every", "visit workers", "", "no worker that lists directories found", nil)
	}
}

func reachesVisit(p *Prog, fn *ssa.Function) bool {
	for f := range p.reach([]*ssa.Function{fn}, func(f *ssa.Function) bool { return p.Rel(f) == p.Rel(fn) }) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(*ssa.Call); ok && cl.Call.IsInvoke() && cl.Call.Method.Name() == "VisitDir" {
					return true
				}
			}
		}
	}
	return false
}

// inWeb: the list appended to goes on as the result.
func inWeb(cl *ssa.Call) bool {
	web := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if web[v] {
			return
		}
		web[v] = true
		for _, r := range derefs(v) {
			switch r := r.(type) {
			case *ssa.Phi:
				rec(r)
			case *ssa.Store:
				if r.Val == v {
					web[r.Addr] = true
				}
			}
		}
	}
	rec(cl)
	b := cl.Call.Args[0]
	if web[b] {
		return true
	}
	u, ok := b.(*ssa.UnOp)
	return ok && web[u.X]
}

// flatten: the pieces of a string put together.
func flatten(t *Term) []*Term {
	if t.op == OpBin && t.aux == "+" {
		return append(flatten(t.args[0]), flatten(t.args[1])...)
	}
	return []*Term{t}
}

// p28visit: the visit of a hierarchy with workers.
func (c *Check) p28visit() {
	fn := c.P.Lookup("pkg/storage/driver", "Visit")
	if fn == nil {
		c.Bad("every", "Visit", "", "not found", nil)
		return
	}
	t := &trav{c: c, key: c.P.FnName(fn)}
	for _, r := range []string{"every", "subdirectories", "stop"} {
		c.Ob(r, t.key, c.P.Pos(fn.Pos()))
	}
	t.want = func(st *State) (int, int) { return -1, 1 }
	var root, drvr, visitor *Term
	hit := map[string]bool{}
	stillOpen := func(s *Sim, st *State, in ssa.Instruction) {
		if st.marks["batch"].S == "" {
			return
		}
		if st.marks["over"].S == "" {
			t.bad(s, st, in, "subdirectories", "goes on before the workers have handed on everything")
		} else if st.marks["asked"].S == "" {
			t.bad(s, st, in, "stop", "goes on without asking whether a worker failed")
		}
		if st.marks["over"].S != "" && st.marks["ctx"].S == "" {
			t.bad(s, st, in, "stop", "goes on without asking whether the visit was cancelled")
		}
		for _, k := range []string{"batch", "over", "asked", "ctx"} {
			delete(st.marks, k)
		}
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Go: func(s *Sim, st *State, ev *CallEv) bool {
			if ev.Callee == nil {
				return false
			}
			if !reachesVisit(c.P, ev.Callee) {
				given := ev.Args
				if ev.Fun != nil && ev.Fun.op == OpClosure {
					given = append(given[:len(given):len(given)], ev.Fun.args...)
				}
				for _, a := range given {
					if a.typ == nil {
						continue
					}
					if pt, ok := a.typ.Underlying().(*types.Pointer); ok && isStrings(pt.Elem()) {
						a = s.LoadAddr(st, a, pt.Elem())
					}
					if a.typ != nil && isStrings(a.typ) {
						st.marks["given"] = Mark{T: a}
						hit["given"] = true
					}
				}
				return false
			}
			hit["worker"] = true
			st.marks["batch"] = Mark{S: "1"}
			d, v := false, false
			for _, a := range ev.Args {
				d = d || strip(a) == drvr
				v = v || strip(a) == visitor
			}
			if ev.Fun != nil {
				d = d || mentions(ev.Fun, drvr)
				v = v || mentions(ev.Fun, visitor)
			}
			if (!d || !v) && ev.Callee.Parent() == nil {
				t.bad(s, st, ev.Site, "every", "a worker is started with another driver or visitor")
			}
			return false
		},
		Chan: func(s *Sim, st *State, in ssa.Instruction, send bool, ch, v, ok *Term, among []*Term) {
			switch {
			case isChanOf(ch, "string") && !send:
				t.stopped(s, st, in)
				t.end(s, st, in)
				hit["result"] = true
				if ok != nil {
					o := st.clone()
					if s.Assume(o, ok, false) {
						o.marks["over"] = Mark{S: "1"}
						s.push(o)
					}
					if !s.Assume(st, ok, true) {
						st.dead = true
						return
					}
				}
				t.begin(s, st, in, v)
			case isChanOf(ch, "error") && !send:
				hit["err"] = true
				st.marks["failed"] = Mark{T: v}
			case isChanOf(ch, "struct{}") && !send:
				st.marks["cancelled"] = Mark{S: "1"}
			}
		},
		Instr: func(s *Sim, st *State, in ssa.Instruction) {
			if sel, ok := in.(*ssa.Select); ok && !sel.Blocking && st.marks["over"].S != "" {
				for _, x := range sel.States {
					if isChanOf(s.V(st, x.Chan), "error") {
						st.marks["asked"] = Mark{S: "1"}
					}
				}
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if cl, ok := ev.Site.(*ssa.Call); ok && ev.Name == "append" && isStrings(cl.Type()) {
				if g := st.marks["given"].T; g != nil && ev.Args[0] == g || !inWeb(cl) {
					t.bad(s, st, ev.Site, "every", "a directory handed on is added to another list than that of the directories still to be visited")
				}
				for _, v := range ev.VArgs[1:] {
					if el := st.marks["el"].T; el != nil && v == el {
						t.count(st, "q")
						hit["kept"] = true
					}
				}
			}
			if ev.Name == "(*sync.WaitGroup).Add" {
				st.marks["workers"] = Mark{T: ev.Args[1]}
				if cp := st.marks["cap"].T; cp != nil && s.Eval(st, s.T.Lt(cp, ev.Args[1])) != 0 {
					t.bad(s, st, ev.Site, "stop", "the workers' failures may not fit the queue for them, so that a worker waits for ever")
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "Err" && strings.Contains(ev.Name, "Context") {
				E := ev.Result
				if st.marks["cancelled"].S != "" {
					if !s.Assume(st, s.T.IsNil(E), false) {
						st.dead = true
					}
					return nil
				}
				if st.marks["over"].S != "" {
					st.marks["ctx"] = Mark{S: "1"}
					return s.fork(st, &CallEv{Site: ev.Site, Common: ev.Common, Result: ev.Result}, func(o *State) {
						o.marks["failed"] = Mark{T: E}
					})
				}
			}
			return nil
		},
		SliceEv: func(s *Sim, st *State, in *ssa.Slice, b, lo, hi *Term) {
			if !isStrings(in.Type()) || b.op == OpAlloc {
				return
			}
			if in.Low != nil && !isZero(in.Low) {
				st.marks["cutlo"] = Mark{T: lo}
			}
			if in.High != nil {
				st.marks["cuthi"] = Mark{T: hi}
			}
		},
		Branch: t.branch,
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			if el := st.marks["el"].T; el != nil && inLoop(el) {
				t.end(s, st, header.Instrs[len(header.Instrs)-1])
			}
			if outerLoop(header) {
				for i, v := range s.loopVals {
					if ph, ok := header.Instrs[i].(*ssa.Phi); ok && isStrings(ph.Type()) && s.Eval(st, s.T.IsNil(v)) == 1 {
						st.marks["end:[]string"] = Mark{S: "1"}
					}
				}
				lo, hi := st.marks["cutlo"].T, st.marks["cuthi"].T
				if (lo == nil) != (hi == nil) || lo != hi {
					t.bad(s, st, header.Instrs[len(header.Instrs)-1], "every", "a directory is lost or visited twice when the list of directories is divided")
				}
				delete(st.marks, "cutlo")
				delete(st.marks, "cuthi")
				stillOpen(s, st, header.Instrs[len(header.Instrs)-1])
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !t.reported(s, st, in, res) {
				return
			}
			if st.marks["cancelled"].S != "" {
				t.bad(s, st, in, "stop", "a cancelled visit may report success")
				return
			}
			t.end(s, st, in)
			stillOpen(s, st, in)
			if st.marks["end:[]string"].S == "" {
				t.bad(s, st, in, "subdirectories", "may return while directories are still to be visited")
			}
		},
	})
	// the size of the queue for failures
	next := s.H.Instr
	s.H.Instr = func(s *Sim, st *State, in ssa.Instruction) {
		next(s, st, in)
		if mk, ok := in.(*ssa.MakeChan); ok && isErrorType(mk.Type().Underlying().(*types.Chan).Elem()) {
			st.marks["cap"] = Mark{T: s.V(st, mk.Size)}
		}
	}
	s.Depth = 6
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		drvr, root, visitor = params[1], params[2], params[3]
		st.marks["p1"], st.marks["p2"], st.marks["p3"] = Mark{T: drvr}, Mark{T: root}, Mark{T: visitor}
	})
	for _, k := range []string{"worker", "result", "err", "kept", "given"} {
		if !hit[k] {
			c.Bad("every", t.key, c.P.Pos(fn.Pos()), "no worker started, result or failure taken or path kept ("+k+")", nil)
		}
	}
	// where it starts
	ok := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, isSt := in.(*ssa.Store); isSt && len(fn.Params) > 2 && st.Val == fn.Params[2] {
				if _, isEl := st.Addr.(*ssa.IndexAddr); isEl {
					ok = true
				}
			}
		}
	}
	if !ok {
		c.Bad("every", t.key, c.P.Pos(fn.Pos()), "the visit does not start at the location given", nil)
	}
	// the feeder
	n := 0
	for _, f := range c.P.Funcs {
		if c.P.Rel(f) != "pkg/storage/driver" || !c.P.goTargets()[f] || reachesVisit(c.P, f) {
			continue
		}
		n++
		t := &trav{c: c, key: c.P.FnName(outer(f)) + " feeder"}
		c.Ob("every", t.key, c.P.Pos(f.Pos()))
		t.want = func(st *State) (int, int) { return 1, -1 }
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
				if e := elemOf(addr); e != nil && isString(val) && st.marks["el"].T != val {
					t.begin(s, st, in, val)
				}
				return nil
			},
			Chan: func(s *Sim, st *State, in ssa.Instruction, send bool, ch, v, ok *Term, among []*Term) {
				switch {
				case send && isChanOf(ch, "string"):
					if v != st.marks["el"].T {
						t.bad(s, st, in, "path", "a worker is given something else than the next directory")
					}
					t.count(st, "did")
				case !send && isChanOf(ch, "struct{}"):
					st.marks["did"] = Mark{S: "x"}
					st.marks["stopping"] = Mark{S: "1"}
				}
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				switch {
				case ev.Name == "close":
					t.end(s, st, ev.Site)
					if st.marks["end:[]string"].S == "" && st.marks["stopping"].S == "" {
						t.bad(s, st, ev.Site, "every", "the workers are told to end before all directories were given to them")
					}
					t.count(st, "closed")
					if t.num(st, "closed") == 2 && st.marks["waited"].S == "" {
						t.bad(s, st, ev.Site, "subdirectories", "the results are closed while workers may still hand on directories")
					}
				case ev.Name == "(*sync.WaitGroup).Wait":
					if t.num(st, "closed") != 1 {
						t.bad(s, st, ev.Site, "every", "waits for workers that were not told to end")
					}
					st.marks["waited"] = Mark{S: "1"}
				}
			},
			Branch: t.branch,
			BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
				t.end(s, st, header.Instrs[len(header.Instrs)-1])
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if t.num(st, "closed") != 2 {
					t.bad(s, st, in, "every", "may end without telling that there is nothing more")
				}
			},
		})
		c.Run(s, f, nil)
	}
	if n == 0 {
		c.Bad("every", t.key, c.P.Pos(fn.Pos()), "nothing that gives directories to the workers found", nil)
	}
}
