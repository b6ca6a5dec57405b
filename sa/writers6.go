package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P06: object writers are finished, and a commit covers all data.

// wstate is what one writer method leaves behind for the next one.
type wstate struct {
	cells  map[string]*Term // field -> value
	nilc   map[string]int   // field -> known nil-ness
	spawn  bool             // a background upload was started
	closed map[string]bool  // file fields that were closed
}

type woutcome struct {
	w         wstate
	ok        int // error result nil: 1 yes, 0 no, -1 unknown
	published bool
	aborted   bool // the pipe was closed with an error
	upErr     bool // an upload was tried and failed
	path      []string
	pos       string
}

type p06 struct {
	c    *Check
	n    *types.Named
	errF map[string]bool // error-typed fields
}

func isUpload(name string) bool {
	return strings.HasSuffix(name, ").Upload") || strings.HasSuffix(name, ").UploadWithContext")
}

func isPublish(ev *CallEv) bool {
	if isUpload(ev.Name) || strings.HasSuffix(ev.Name, ".Rename") {
		return true
	}
	return ev.Callee == nil && ev.Fun != nil && ev.Fun.op == OpLoad && !ev.Common.IsInvoke()
}

// method simulates one method of the writer from the given state.
func (r *p06) method(m *ssa.Function, from wstate, commit bool) []woutcome {
	c := r.c
	var recv *Term
	var outs []woutcome
	key := c.P.FnName(m)
	efield := func(t *Term) bool {
		f := recvField(t, recv)
		return f != "" && r.errF[f]
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Go: func(s *Sim, st *State, ev *CallEv) bool {
			st.marks["spawned"] = Mark{S: "1"}
			st.marks["published"] = Mark{S: "1"}
			delete(st.marks, "waited")
			delete(st.marks, "pipeclosed")
			return false
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			switch {
			case ev.Name == "(*io.PipeWriter).Close":
				st.marks["pipeclosed"] = Mark{S: "1"}
			case ev.Name == "(*io.PipeWriter).CloseWithError":
				if s.Eval(st, s.T.IsNil(ev.Args[1])) == 0 {
					st.marks["pipeerr"] = Mark{S: "1"}
				} else {
					st.marks["pipeclosed"] = Mark{S: "1"}
				}
			case ev.Name == "(*sync.WaitGroup).Wait":
				if st.marks["pipeclosed"].S == "1" || st.marks["pipeerr"].S == "1" {
					st.marks["waited"] = Mark{S: "1"}
				}
				delete(st.marks, "echeck")
			case ev.Name == "(*os.File).Close":
				if f := recvField(ev.Args[0], recv); f != "" {
					st.marks["fclosed:"+f] = Mark{S: "1"}
				}
			}
			if isPublish(ev) {
				st.marks["published"] = Mark{S: "1"}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Inlined {
				return nil
			}
			if ev.Name == "(*os.File).Sync" {
				out := s.fork(st, ev, nil)
				if f := recvField(ev.Args[0], recv); f != "" && st.marks["fclosed:"+f].S == "1" {
					st.dead = true
				}
				return out
			}
			if isUpload(ev.Name) {
				return s.fork(st, ev, func(o *State) { o.marks["uperr"] = Mark{S: "1"} })
			}
			if ev.Callee == nil && isPublish(ev) {
				return s.fork(st, ev, nil)
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			if cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if taken && cond.op == OpNil && efield(cond.args[0]) {
				st.marks["echeck"] = Mark{S: "1"}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			o := woutcome{ok: 1, published: st.marks["published"].S == "1", aborted: st.marks["pipeerr"].S == "1", upErr: st.marks["uperr"].S == "1", path: s.Path(st), pos: c.P.InstrPos(in)}
			if n := len(res); n > 0 && isErrorType(in.Parent().Signature.Results().At(n-1).Type()) {
				o.ok = s.Eval(st, s.T.IsNil(res[n-1]))
				if o.ok == -1 && efield(res[n-1]) {
					st.marks["echeck"] = Mark{S: "1"}
				}
			}
			o.w = wstate{cells: map[string]*Term{}, nilc: map[string]int{}, closed: map[string]bool{}, spawn: st.marks["spawned"].S == "1"}
			for a, v := range st.cells {
				if a.op == OpFieldAddr && a.args[0] == recv {
					o.w.cells[a.aux] = v
					if nilable(v.typ) {
						o.w.nilc[a.aux] = s.Eval(st, s.T.IsNil(v))
					}
				}
			}
			for f, v := range from.cells {
				if _, ok := o.w.cells[f]; !ok && !(o.w.spawn && r.errF[f]) {
					// kept unless something havocked it
					if cur := s.LoadAddr(st, r.fieldAddr(s, recv, f), v.typ); cur == v {
						o.w.cells[f] = v
					}
				}
			}
			stt := r.n.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i)
				if _, ok := o.w.nilc[f.Name()]; !ok && nilable(f.Type()) && !(o.w.spawn && r.errF[f.Name()]) {
					o.w.nilc[f.Name()] = s.Eval(st, s.T.IsNil(s.LoadAddr(st, r.fieldAddr(s, recv, f.Name()), f.Type())))
				}
			}
			for k := range st.marks {
				if strings.HasPrefix(k, "fclosed:") {
					o.w.closed[k[8:]] = true
				}
			}
			outs = append(outs, o)
			if commit && o.ok != 0 {
				if o.w.spawn {
					c.Ob("upload-awaited", key, o.pos)
					switch {
					case st.marks["pipeclosed"].S != "1":
						c.Bad("upload-awaited", key, o.pos, "the commit succeeds without closing the stream the background upload reads", o.path)
					case st.marks["waited"].S != "1":
						c.Bad("upload-awaited", key, o.pos, "the commit succeeds without waiting for the background upload", o.path)
					}
				}
				if len(r.errF) > 0 {
					c.Ob("upload-checked", key, o.pos)
					if st.marks["echeck"].S != "1" && !r.errKnownNil(s, st, recv, from) {
						c.Bad("upload-checked", key, o.pos, "the commit succeeds without looking at the error of the upload after it finished", o.path)
					}
				}
			}
		},
	})
	c.Run(s, m, func(st *State, params, _ []*Term) {
		recv = params[0]
		st.marks["recv"] = Mark{T: recv}
		for f, n := range from.nilc {
			if _, ok := from.cells[f]; !ok && n >= 0 {
				fa := r.fieldAddr(s, recv, f)
				s.Assume(st, s.T.IsNil(s.LoadAddr(st, fa, deref(fa.typ))), n == 1)
			}
		}
		for f, v := range from.cells {
			st.cells[r.fieldAddr(s, recv, f)] = v
			if n, ok := from.nilc[f]; ok && n >= 0 {
				s.Assume(st, s.T.IsNil(v), n == 1)
			}
		}
		if from.spawn {
			st.marks["spawned"] = Mark{S: "1"}
		}
		for f := range from.closed {
			st.marks["fclosed:"+f] = Mark{S: "1"}
		}
	})
	return outs
}

// errKnownNil: without a background upload, the error field still is the nil it started as.
func (r *p06) errKnownNil(s *Sim, st *State, recv *Term, from wstate) bool {
	if st.marks["spawned"].S == "1" {
		return false
	}
	for f := range r.errF {
		v, ok := st.cells[r.fieldAddr(s, recv, f)]
		if !ok || s.Eval(st, s.T.IsNil(v)) != 1 {
			return false
		}
	}
	return true
}

func (r *p06) fieldAddr(s *Sim, recv *Term, f string) *Term {
	stt := r.n.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == f {
			return s.T.FieldAddr(recv, i, f, types.NewPointer(stt.Field(i).Type()))
		}
	}
	return recv
}

func (r *p06) check() {
	c := r.c
	stt, ok := r.n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	commit, abort := c.P.Method(r.n, "Commit"), c.P.Method(r.n, "Abort")
	key := c.P.FnName(commit)
	s0 := c.Sim(Hooks{})
	fresh := wstate{cells: map[string]*Term{}, nilc: map[string]int{}, closed: map[string]bool{}}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		switch {
		case isErrorType(f.Type()):
			r.errF[f.Name()] = true
			fresh.cells[f.Name()] = s0.T.Nil(f.Type())
		case isInt(f.Type()) && f.Type().Underlying().(*types.Basic).Kind() != types.Int64:
			fresh.cells[f.Name()] = s0.T.Zero(f.Type())
		}
	}
	// abort, then commit
	c.Ob("abort-final", key, c.P.Pos(commit.Pos()))
	starts := []wstate{fresh}
	var others []*ssa.Function
	for i := 0; i < r.n.NumMethods(); i++ {
		m := c.P.SSA.FuncValue(r.n.Method(i))
		if m == nil || len(m.Blocks) == 0 || m == commit || m == abort || !m.Object().Exported() {
			continue
		}
		others = append(others, m)
	}
	type after struct {
		m string
		o woutcome
	}
	var afters []after
	for _, m := range others {
		for _, o := range r.method(m, fresh, false) {
			afters = append(afters, after{m.Name(), o})
		}
	}
	for _, a := range afters {
		if a.o.w.spawn {
			starts = append(starts, a.o.w)
			break
		}
	}
	for _, st := range starts {
		for _, o := range r.method(abort, st, false) {
			if st.spawn {
				c.Ob("abort-pipe", c.P.FnName(abort), o.pos)
				if !o.aborted {
					c.Bad("abort-pipe", c.P.FnName(abort), o.pos, "an abort does not end the stream of the running upload with an error, so what was written so far is stored", o.path)
				}
				continue
			}
			for _, o2 := range r.method(commit, o.w, false) {
				if o2.ok != 0 {
					c.Bad("abort-final", key, o2.pos, "a commit after an abort can report success", append(append(o.path, "-- abort returned, commit called --"), o2.path...))
				} else if o2.published {
					c.Bad("abort-final", key, o2.pos, "a commit after an abort publishes the object", o2.path)
				}
			}
		}
	}
	// a commit that failed, then a commit
	c.Ob("failed-final", key, c.P.Pos(commit.Pos()))
	for _, o := range r.method(commit, fresh, true) {
		if o.ok == 1 || o.w.spawn {
			continue
		}
		for _, o2 := range r.method(commit, o.w, false) {
			if o2.ok != 0 && !o2.published {
				c.Bad("failed-final", key, o2.pos, "after a failed commit the next one can report success without storing anything", append(append(o.path, "-- commit failed, commit called again --"), o2.path...))
			}
		}
	}
	// the other operations, then a commit
	for _, a := range afters {
		if a.o.w.spawn {
			r.method(commit, a.o.w, true)
		}
		if a.o.upErr {
			c.Ob("upload-recorded", key+" after "+a.m, a.o.pos)
			for _, o2 := range r.method(commit, a.o.w, true) {
				if o2.ok != 0 {
					c.Bad("upload-recorded", key+" after "+a.m, o2.pos, "a commit after a failed upload ("+a.m+") can report success", append(append(a.o.path, "-- upload failed, commit called --"), o2.path...))
				}
			}
		}
	}
	// background uploads record their error
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != c.P.Rel(commit) || !c.P.goTargets()[fn] || !touches(c.P, fn, func(cc *ssa.CallCommon) bool { return isUpload(c.P.calleeName(cc)) }) {
			continue
		}
		r.background(fn)
	}
}

func (r *p06) background(fn *ssa.Function) {
	c := r.c
	key := c.P.FnName(outer(fn)) + " background"
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if isUpload(ev.Name) && !ev.Inlined {
				return s.fork(st, ev, func(o *State) { o.marks["uperr"] = Mark{S: "1"} })
			}
			return nil
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Name == "(*io.PipeReader).CloseWithError" && s.Eval(st, s.T.IsNil(ev.Args[1])) == 0 {
				st.marks["rerr"] = Mark{S: "1"}
			}
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OpFieldAddr && isErrorType(deref(addr.typ)) {
				if s.Eval(st, s.T.IsNil(val)) == 0 {
					st.marks["recorded"] = Mark{S: "1"}
				} else {
					delete(st.marks, "recorded")
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if st.marks["uperr"].S != "1" {
				return
			}
			c.Ob("upload-recorded", key, c.P.InstrPos(in))
			if st.marks["recorded"].S != "1" {
				c.Bad("upload-recorded", key, c.P.InstrPos(in), "a failed background upload ends without recording its error for the commit", s.Path(st))
			}
			if st.marks["rerr"].S != "1" {
				c.Bad("upload-recorded", key, c.P.InstrPos(in), "a failed background upload leaves its stream open, so writers wait forever", s.Path(st))
			}
		},
	})
	c.Run(s, fn, nil)
}

// sends: the function itself hands something to a channel.
func sends(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Send); ok {
				return true
			}
		}
	}
	return false
}

// multipart: the uploader completes an upload only when every part was stored.
func (r *p06) multipart() {
	c := r.c
	isComplete := func(n string) bool {
		return strings.Contains(n, ").CompleteMultipartUpload") && !strings.Contains(n, "Request")
	}
	var roots []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || strings.HasSuffix(c.P.Rel(fn), "/mock") {
			continue
		}
		direct := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && strings.Contains(c.P.calleeName(ci.Common()), ").CreateMultipartUpload") {
					direct = true
				}
			}
		}
		if direct {
			// the function that both creates and completes
			root := fn
			for d := 0; d < 4 && !touches(c.P, root, func(cc *ssa.CallCommon) bool { return isComplete(c.P.calleeName(cc)) }) && len(c.P.callers[root]) > 0; d++ {
				root = outer(c.P.callers[root][0].Parent())
			}
			roots = append(roots, root)
		}
	}
	for _, root := range roots {
		key := c.P.FnName(root)
		isErrF := func(t *Term) bool {
			return t.op == OpLoad && t.args[0].op == OpFieldAddr && isErrorType(deref(t.args[0].typ))
		}
		inl := pkgInline(c)
		s := c.Sim(Hooks{
			Inline: func(s *Sim, st *State, ev *CallEv) bool {
				return inl(s, st, ev) && (strings.HasSuffix(ev.Name, "err") || touches(c.P, ev.Callee, func(cc *ssa.CallCommon) bool {
					n := c.P.calleeName(cc)
					return isComplete(n) || strings.Contains(n, "MultipartUpload") || n == "(*sync.WaitGroup).Wait"
				}) || setsErrField(ev.Callee) || sends(ev.Callee))
			},
			Go: func(s *Sim, st *State, ev *CallEv) bool {
				st.marks["spawned"] = Mark{S: "1"}
				delete(st.marks, "waited")
				return false
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				pos := c.P.InstrPos(ev.Site)
				switch {
				case ev.Name == "close":
					st.marks["queueclosed"] = Mark{S: "1"}
				case ev.Name == "(*sync.WaitGroup).Wait":
					st.marks["waited"] = Mark{S: "1"}
					delete(st.marks, "echeck")
				case ev.Name == "sort.Sort" || ev.Name == "sort.Slice" || ev.Name == "sort.SliceStable" || ev.Name == "sort.Stable" || strings.HasPrefix(ev.Name, "slices.Sort"):
					if st.marks["waited"].S == "1" {
						st.marks["sorted"] = Mark{S: "1"}
					}
				case strings.Contains(ev.Name, ").AbortMultipartUpload"):
					st.marks["aborted"] = Mark{S: "1"}
				case isComplete(ev.Name):
					c.Ob("multipart-complete", key, pos)
					switch {
					case st.marks["waited"].S != "1":
						c.Bad("multipart-complete", key, pos, "the multipart upload is completed before the part workers have finished", s.Path(st))
					case st.marks["echeck"].S != "1":
						c.Bad("multipart-complete", key, pos, "the multipart upload is completed without checking that no part failed", s.Path(st))
					case st.marks["sorted"].S != "1":
						c.Bad("multipart-complete", key, pos, "the part list is not sorted before completing the upload", s.Path(st))
					}
				}
				if strings.HasSuffix(ev.Name, ".seterr") || setsErrField(ev.Callee) {
					delete(st.marks, "unsent")
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if ev.Inlined {
					return nil
				}
				if strings.Contains(ev.Name, ").CreateMultipartUpload") {
					out := s.fork(st, ev, nil)
					st.marks["created"] = Mark{S: "1"}
					return out
				}
				if isComplete(ev.Name) {
					out := s.fork(st, ev, func(o *State) { delete(o.marks, "completed") })
					st.marks["completed"] = Mark{S: "1"}
					return out
				}
				// a function of this package that returns the next piece of the data
				if ev.Callee != nil && c.P.IsModule(ev.Callee) && ev.Common.Signature().Results().Len() >= 3 && s.ErrRes(ev) != nil {
					var n *Term
					for i := 0; i < ev.Common.Signature().Results().Len(); i++ {
						if isInt(ev.Common.Signature().Results().At(i).Type()) {
							n = s.Res(ev, i)
						}
					}
					if n != nil {
						c.Ob("multipart-queue", key, c.P.InstrPos(ev.Site))
						// data came with it
						o := st.clone()
						var out []*State
						if s.Assume(o, s.T.Eq(n, s.T.Int(0)), true) {
							out = append(out, o)
						}
						if s.Assume(st, s.T.Eq(n, s.T.Int(0)), false) {
							st.marks["unsent"] = Mark{S: c.P.InstrPos(ev.Site), T: strip(s.Res(ev, 0))}
						} else {
							st.dead = true
						}
						return out
					}
				}
				return nil
			},
			Send: func(s *Sim, st *State, in ssa.Instruction, ch, v *Term) {
				if m, ok := st.marks["unsent"]; ok && (holds(st, v, m.T, 0) || v.has(m.T)) {
					delete(st.marks, "unsent")
				}
			},
			BackEdge: func(s *Sim, st *State, h *ssa.BasicBlock, inLoop func(*Term) bool) {
				if m, ok := st.marks["unsent"]; ok {
					c.Bad("multipart-queue", key, m.S, "a part that was read is not handed to the workers before the next one is read", s.Path(st))
					delete(st.marks, "unsent")
				}
			},
			Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
				if cond.op == OpNot {
					cond, taken = cond.args[0], !taken
				}
				if cond.op == OpNil && isErrF(cond.args[0]) {
					if taken {
						if st.marks["efail"].S == "1" {
							st.dead = true // nothing resets the error after the workers ended
						}
						st.marks["echeck"] = Mark{S: "1"}
					} else {
						delete(st.marks, "echeck")
						if st.marks["waited"].S == "1" {
							st.marks["efail"] = Mark{S: "1"}
						}
					}
				}
			},
			Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
				if addr.op == OpFieldAddr && isErrorType(deref(addr.typ)) {
					delete(st.marks, "efail")
					if s.Eval(st, s.T.IsNil(val)) == 0 && (st.marks["waited"].S == "1" || st.marks["spawned"].S != "1") {
						st.marks["efail"] = Mark{S: "1"}
					}
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				pos := c.P.InstrPos(in)
				if st.marks["created"].S != "1" {
					return
				}
				ok := s.Eval(st, s.T.IsNil(res[len(res)-1]))
				if ok != 0 {
					c.Ob("multipart-success", key, pos)
					if st.marks["completed"].S != "1" {
						c.Bad("multipart-success", key, pos, "the upload reports success although completing it did not succeed", s.Path(st))
					}
					if m, un := st.marks["unsent"]; un {
						c.Bad("multipart-queue", key, m.S, "the upload reports success although a part that was read was never handed to the workers", s.Path(st))
					}
				} else if st.marks["completed"].S != "1" && st.marks["aborted"].S != "1" {
					c.Bad("multipart-success", key, pos, "a failed multipart upload is not aborted", s.Path(st))
				}
			},
		})
		c.Run(s, root, nil)
	}
	// a stored part is entered in the part list under the number it was stored with
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || strings.HasSuffix(c.P.Rel(fn), "/mock") {
			continue
		}
		direct := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && strings.Contains(c.P.calleeName(ci.Common()), ").UploadPart") {
					direct = true
				}
			}
		}
		if !direct {
			continue
		}
		key := c.P.FnName(fn)
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Name == "append" && len(ev.VArgs) > 1 {
					st.marks["listed"] = Mark{S: "1"}
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if strings.HasSuffix(ev.Name, "request.Request).Send") || strings.HasSuffix(ev.Name, ").UploadPart") || strings.HasSuffix(ev.Name, ").UploadPartWithContext") {
					out := s.fork(st, ev, nil)
					st.marks["sent"] = Mark{S: "1"}
					return out
				}
				return nil
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if !s.succeeds(st, in, res) {
					return
				}
				c.Ob("multipart-part", key, c.P.InstrPos(in))
				if st.marks["sent"].S != "1" {
					c.Bad("multipart-part", key, c.P.InstrPos(in), "a part is reported as stored although its request was not sent successfully", s.Path(st))
				}
				if st.marks["listed"].S != "1" {
					c.Bad("multipart-part", key, c.P.InstrPos(in), "a stored part is not entered in the list of parts", s.Path(st))
				}
			},
		})
		c.Run(s, fn, nil)
	}
}

// setsErrField: fn stores one of its parameters in an error field.
func setsErrField(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isErrorType(deref(fa.Type())) {
					if _, ok := st.Val.(*ssa.Parameter); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func checkP06(c *Check) {
	c.Rule("finish", "every object opened for writing is committed or aborted on every path, or handed on", 2)
	c.Rule("abort-final", "a commit after an abort fails and publishes nothing", 3)
	c.Rule("failed-final", "a commit that follows a failed one does not report success without storing the object", 3)
	c.Rule("abort-pipe", "an abort ends a running upload with an error", 1)
	c.Rule("upload-awaited", "a commit succeeds only after the background upload's stream was closed and the upload has finished", 1)
	c.Rule("upload-checked", "a commit succeeds only if the upload left no error", 1)
	c.Rule("upload-recorded", "a failed upload is remembered for the commit", 2)
	c.Rule("multipart-complete", "a multipart upload is completed only after all part workers finished without error, with a sorted part list", 1)
	c.Rule("multipart-success", "a multipart upload reports success only when completing it succeeded, and aborts otherwise", 1)
	c.Rule("multipart-queue", "every part that was read is handed to the workers", 1)
	c.Rule("multipart-part", "a part counts as stored only when its request succeeded and it is in the part list", 1)
	c.Rule("accepted", "bytes are reported as written only if exactly they were handed on, once", 3)
	c.Rule("whole", "a commit stores everything that was collected", 2)
	owi := c.P.Iface("pkg/storage/driver", "ObjectWriter")
	if owi == nil {
		c.Bad("undecided", "ObjectWriter", "?", "the writer interface was not found", nil)
		return
	}
	r := &p11{c: c, rule: "finish", closer: owi, capt: map[string]int{}, rel: map[*ssa.Function]bool{}, undo: ").Abort", done: ").Commit"}
	r.acq = func(cc *ssa.CallCommon) string {
		rs := cc.Signature().Results()
		if rs.Len() == 0 || !types.Implements(rs.At(0).Type(), owi) || !strings.HasPrefix(base(c.P.calleeName(cc)), "Create") {
			return ""
		}
		return "object writer"
	}
	r.run()
	ns := c.P.Implementers(owi)
	sort.Slice(ns, func(i, j int) bool { return ns[i].String() < ns[j].String() })
	for _, n := range ns {
		if strings.HasSuffix(n.Obj().Pkg().Path(), "/mock") {
			continue
		}
		if m := c.P.Method(n, "Commit"); m == nil || !c.P.IsModule(m) || len(m.Blocks) == 0 {
			c.Bad("undecided", n.String(), "?", fmt.Sprintf("no Commit of %s to analyse", n), nil)
			continue
		}
		(&p06{c: c, n: n, errF: map[string]bool{}}).check()
		if m := c.P.Method(n, "Write"); m != nil && c.P.IsModule(m) && isWriteMethod(m) {
			c.p06write(m)
		}
		if stt, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				if strings.TrimPrefix(typeStr(stt.Field(i).Type()), "*") == "bytes.Buffer" {
					c.p06whole(c.P.Method(n, "Commit"))
				}
			}
		}
	}
	(&p06{c: c}).multipart()
}

// p06write: what a writer accepts it hands on.
func (c *Check) p06write(fn *ssa.Function) {
	key := c.P.FnName(fn)
	var par *Term
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if base(ev.Name) == "Write" && len(ev.Args) == 2 && !ev.Inlined {
				if ev.Args[1] != par {
					c.Bad("accepted", key, c.P.InstrPos(ev.Site), "hands on something else than it was given: "+ev.Args[1].String(), s.Path(st))
				}
				st.marks["fwd"] = Mark{S: st.marks["fwd"].S + "x"}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "Write" && len(ev.Args) == 2 && !ev.Inlined {
				st.marks["fwd"] = Mark{S: st.marks["fwd"].S, T: ev.Result}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if len(res) != 2 || s.Eval(st, s.T.IsNil(res[1])) == 0 {
				return
			}
			pos := c.P.InstrPos(in)
			c.Ob("accepted", key, pos)
			mk := st.marks["fwd"]
			if mk.S != "x" {
				c.Bad("accepted", key, pos, fmt.Sprintf("hands on the bytes %d times", len(mk.S)), s.Path(st))
				return
			}
			n, e := s.T.Extract(mk.T, 0, types.Typ[types.Int]), s.T.Extract(mk.T, 1, res[1].typ)
			if res[0] != n && res[0] != s.Len(par) {
				c.Bad("accepted", key, pos, "reports another number of bytes than was handed on: "+res[0].String(), s.Path(st))
			}
			if res[1] != e && s.Eval(st, s.T.IsNil(e)) != 1 {
				c.Bad("accepted", key, pos, "success is reported although handing on the bytes may have failed", s.Path(st))
			}
		},
	})
	c.Run(s, fn, func(st *State, ps, fs []*Term) { par = ps[1] })
}

// p06whole: writers that collect in a buffer hand on all of it.
func (c *Check) p06whole(fn *ssa.Function) {
	key := c.P.FnName(fn)
	isAll := func(t *Term) bool {
		all, cut := false, false
		walkTerm(t, func(x *Term) {
			if x.aux == "(*bytes.Buffer).Bytes" || x.aux == "(*bytes.Buffer).String" {
				all = true
			}
			if x.op == OpSlice {
				cut = true
			}
		})
		return all && !cut
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Inlined {
				return
			}
			for i, a := range ev.Args {
				if a.typ == nil || typeStr(a.typ) != "[]byte" && a.op != OpNil {
					continue
				}
				if a.op == OpNil && !(isPublish(ev) && i < ev.Common.Signature().Params().Len() && typeStr(ev.Common.Signature().Params().At(i).Type()) == "[]byte") {
					continue
				}
				c.Ob("whole", key, c.P.InstrPos(ev.Site))
				if !isAll(a) {
					c.Bad("whole", key, c.P.InstrPos(ev.Site), "something else than all collected bytes is handed on: "+a.String(), s.Path(st))
				}
			}
		},
	})
	c.Run(s, fn, nil)
}

func init() { checks["P06"] = checkP06 }
