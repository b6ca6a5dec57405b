package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P11: ownership of opened objects, files, responses, locks and mappings.

var acquireNames = map[string]string{
	"os.Open": "file", "os.OpenFile": "file", "os.Create": "file", "os.CreateTemp": "file", "io/ioutil.TempFile": "file",
	"(*net/http.Client).Do": "response", "(*net/http.Client).Get": "response", "(*net/http.Client).Head": "response", "(*net/http.Client).Post": "response", "(*net/http.Client).PostForm": "response",
	"net/http.Get": "response", "net/http.Head": "response", "net/http.Post": "response",
	"(net/http.RoundTripper).RoundTrip": "response", "(*net/http.Transport).RoundTrip": "response",
	"syscall.Mmap": "mapping", "golang.org/x/sys/unix.Mmap": "mapping",
	"github.com/tnarg/go-tcmu.OpenTCMUDevice": "device",
}

var acquireRe = regexp.MustCompile(`\.(Open|Load|Lock|RLock)[A-Za-z]*$`)

type p11 struct {
	c      *Check
	closer *types.Interface
	capt   map[string]int
	rel    map[*ssa.Function]bool
	rule   string
	acq    func(*ssa.CallCommon) string // what counts as acquiring (default: opened handles)
	undo   string                       // method that gives the handle up
	done   string                       // method that finishes it when it succeeds
}

func ioCloser(p *Prog) *types.Interface {
	for _, sp := range p.SSA.AllPackages() {
		if sp.Pkg.Path() == "io" {
			return sp.Pkg.Scope().Lookup("Closer").Type().Underlying().(*types.Interface)
		}
	}
	return nil
}

func (r *p11) kind(ev *CallEv) string { return r.kindOf(ev.Common) }

func (r *p11) kindOf(cc *ssa.CallCommon) string {
	if r.acq != nil {
		return r.acq(cc)
	}
	name := r.c.P.calleeName(cc)
	if k := acquireNames[name]; k != "" {
		return k
	}
	rs := cc.Signature().Results()
	if rs.Len() == 0 || !acquireRe.MatchString(name) {
		return ""
	}
	sc := cc.StaticCallee()
	module := sc != nil && r.c.P.IsModule(sc)
	if !module && !(cc.IsInvoke() && cc.Method.Pkg() != nil && r.c.P.IsModulePkg(cc.Method.Pkg().Path())) {
		return ""
	}
	if types.Implements(rs.At(0).Type(), r.closer) {
		return "object"
	}
	return ""
}

func strip(t *Term) *Term {
	for t.op == OpMkIface || t.op == OpAssert || t.op == OpConv {
		t = t.args[0]
	}
	return t
}

// holds: the value v gives access to the handle h (through fields of objects built on this path, closures, slices).
func holds(st *State, v, h *Term, d int) bool {
	if v == nil || d > 5 {
		return false
	}
	v = strip(v)
	if v == h {
		return true
	}
	switch v.op {
	case OpAlloc:
		for a, x := range st.cells {
			if rootOf(a) == v && holds(st, x, h, d+1) {
				return true
			}
		}
	case OpClosure, OpTuple, OpStruct, OpSlice:
		for _, x := range v.args {
			if holds(st, x, h, d+1) {
				return true
			}
		}
	case OpLoad: // a field of the handle itself (resp.Body)
		if a := v.args[0]; a.op == OpFieldAddr && a.args[0] == h {
			return true
		}
	case OpOpaque:
		if v.aux == "append" {
			for _, x := range v.args {
				if holds(st, x, h, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// captured: does fn keep its i-th argument (0 borrow, 1 kept)?
func (r *p11) captured(fn *ssa.Function, i int) int {
	key := fmt.Sprintf("%p#%d", fn, i)
	if v, ok := r.capt[key]; ok {
		return v
	}
	r.capt[key] = 0
	if i >= len(fn.Params) {
		return 0
	}
	seen := map[ssa.Value]bool{}
	res := 0
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, in := range derefs(v) {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Val != v {
					continue
				}
				if al, ok := in.Addr.(*ssa.Alloc); ok && !escapesAlloc(al) {
					for _, x := range derefs(al) {
						if u, ok := x.(*ssa.UnOp); ok {
							rec(u)
						}
					}
				} else {
					res = 1
				}
			case *ssa.MapUpdate:
				if in.Value == v || in.Key == v {
					res = 1
				}
			case *ssa.Send:
				res = 1
			case *ssa.MakeClosure:
				res = 1
			case *ssa.MakeInterface:
				rec(in)
			case *ssa.ChangeInterface:
				rec(in)
			case *ssa.ChangeType:
				rec(in)
			case *ssa.Phi:
				rec(in)
			case *ssa.TypeAssert:
				rec(in)
			case *ssa.Extract:
				rec(in)
			case ssa.CallInstruction:
				if sc := in.Common().StaticCallee(); sc != nil && r.c.P.IsModule(sc) {
					for k, a := range in.Common().Args {
						if a == v && r.captured(sc, k) == 1 {
							res = 1
						}
					}
				}
				if _, ok := in.(*ssa.Go); ok {
					res = 1
				}
			}
		}
	}
	rec(fn.Params[i])
	r.capt[key] = res
	return res
}

func escapesAlloc(al *ssa.Alloc) bool {
	for _, in := range derefs(al) {
		switch in.(type) {
		case *ssa.Store, *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// tables: an entry taken out of a table of opened handles is closed.
func (r *p11) tables() {
	c := r.c
	table := func(in ssa.Instruction) (types.Type, bool) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil, false
		}
		b, ok := ci.Common().Value.(*ssa.Builtin)
		if !ok || b.Name() != "delete" {
			return nil, false
		}
		mt, ok := ci.Common().Args[0].Type().Underlying().(*types.Map)
		if !ok || !types.Implements(mt.Elem(), r.closer) {
			return nil, false
		}
		return mt.Elem(), true
	}
	s := c.Sim(Hooks{
		Inline:  pkgInline(c),
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
		Instr: func(s *Sim, st *State, in ssa.Instruction) {
			if _, ok := table(in); ok {
				key := c.P.FnName(outer(in.Parent())) + " " + fieldNameOf(in)
				c.Ob("table", key, c.P.InstrPos(in))
				st.marks["del"] = Mark{S: key + "@" + c.P.InstrPos(in)}
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if strings.HasSuffix(ev.Name, ").Close") && len(ev.Args) == 1 {
				st.marks["tclosed"] = Mark{S: "1"}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			m, del := st.marks["del"]
			if _, ok := st.marks["tclosed"]; del && !ok {
				pp := strings.Split(m.S, "@")
				c.Bad("table", pp[0], pp[1], "the entry is taken out of the table of opened handles but not closed", s.Path(st))
			}
		},
	})
	for _, fn := range c.P.Funcs {
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := table(in); ok {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		root := outer(fn)
		for d := 0; d < 4 && !c.P.IsTop(root) && len(c.P.callers[root]) > 0; d++ {
			root = outer(c.P.callers[root][0].Parent())
		}
		c.Run(s, root, nil)
	}
}

func fieldNameOf(in ssa.Instruction) string {
	if u, ok := in.(ssa.CallInstruction).Common().Args[0].(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
		}
	}
	return "map"
}

func (r *p11) hooks() Hooks {
	c := r.c
	inl := pkgInline(c)
	open := func(st *State) []string {
		var ks []string
		for k := range st.marks {
			if strings.HasPrefix(k, "H:") {
				ks = append(ks, k)
			}
		}
		return ks
	}
	anyHeld := func(st *State, args []*Term) bool {
		for _, k := range open(st) {
			for _, a := range args {
				if holds(st, a, st.marks[k].T, 0) {
					return true
				}
			}
		}
		return false
	}
	drop := func(st *State, v *Term) {
		for _, k := range open(st) {
			if holds(st, v, st.marks[k].T, 0) {
				delete(st.marks, k)
			}
		}
	}
	return Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			if !c.P.IsModule(ev.Callee) || r.kind(ev) != "" && c.P.Rel(ev.Callee) != c.P.Rel(s.root) {
				return false
			}
			if inl(s, st, ev) && r.relevant(ev.Callee) {
				return true
			}
			for _, a := range ev.Args {
				if (a.op == OpClosure || a.op == OpFunc) && a.fn != nil && r.relevant(a.fn) && inl(s, st, ev) {
					return true
				}
			}
			if !anyHeld(st, append([]*Term{ev.Fun}, ev.Args...)) {
				return false
			}
			for i := range ev.Args {
				if r.captured(ev.Callee, i) == 1 {
					return inl(s, st, ev)
				}
			}
			return true
		},
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
		Go: func(s *Sim, st *State, ev *CallEv) bool {
			if ev.Callee != nil && c.P.IsModule(ev.Callee) && anyHeld(st, append([]*Term{ev.Fun}, ev.Args...)) {
				return true
			}
			if ev.Fun != nil {
				drop(st, ev.Fun)
			}
			for _, a := range ev.Args {
				drop(st, a)
			}
			return false
		},
		Subst: func(s *Sim, st *State, old, new *Term) {
			for _, k := range open(st) {
				if m := st.marks[k]; m.T == old {
					delete(st.marks, k)
					m.T = new
					st.marks[fmt.Sprintf("H:%d", new.id)] = m
				}
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if len(ev.Args) == 0 {
				return
			}
			if r.undo != "" && strings.HasSuffix(ev.Name, r.undo) {
				delete(st.marks, fmt.Sprintf("H:%d", strip(ev.Args[0]).id))
			}
			if r.acq == nil && (strings.HasSuffix(ev.Name, ").Close") || strings.HasSuffix(ev.Name, ".Munmap") || strings.HasSuffix(ev.Name, ").CloseWithError")) {
				x := strip(ev.Args[0])
				for x.op == OpSlice {
					x = x.args[0]
				}
				delete(st.marks, fmt.Sprintf("H:%d", x.id))
				for _, k := range open(st) {
					m := st.marks[k]
					if strings.HasPrefix(m.S, "response") && x.op == OpLoad && x.args[0].op == OpFieldAddr && x.args[0].aux == "Body" && x.args[0].args[0] == m.T {
						delete(st.marks, k)
					}
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Inlined || ev.Kind == kGo {
				return nil
			}
			var out []*State
			if r.done != "" && strings.HasSuffix(ev.Name, r.done) && len(ev.Args) > 0 {
				if k := fmt.Sprintf("H:%d", strip(ev.Args[0]).id); st.marks[k].T != nil {
					if E := s.ErrRes(ev); E != nil {
						o := st.clone()
						if s.Assume(o, s.T.IsNil(E), false) {
							out = append(out, o)
						}
						if !s.Assume(st, s.T.IsNil(E), true) {
							st.dead = true
							return out
						}
					}
					delete(st.marks, k)
				}
			}
			if k := r.kind(ev); k != "" && ev.Result != nil {
				key := c.P.FnName(outer(ev.Site.Parent())) + " " + ev.Name
				c.Ob(r.rule, key, c.P.InstrPos(ev.Site))
				R := strip(s.Res(ev, 0))
				if E := s.ErrRes(ev); E != nil {
					o := st.clone()
					if s.Assume(o, s.T.IsNil(E), false) {
						out = append(out, o)
					}
					if !s.Assume(st, s.T.IsNil(E), true) {
						st.dead = true
						return out
					}
				}
				s.Assume(st, s.T.IsNil(R), false)
				st.marks[fmt.Sprintf("H:%d", R.id)] = Mark{S: k + "@" + key + "@" + c.P.InstrPos(ev.Site), T: R}
				if ev.ResVal == nil {
					c.Bad(r.rule, key, c.P.InstrPos(ev.Site), "the opened "+k+" is thrown away", s.Path(st))
				}
			}
			// handles given to code that is not followed
			for i, a := range ev.Args {
				for _, k := range open(st) {
					m := st.marks[k]
					if !holds(st, a, m.T, 0) || m.T == strip(s.firstRes(ev)) {
						continue
					}
					kept := false
					if ev.Callee != nil && c.P.IsModule(ev.Callee) {
						kept = r.captured(ev.Callee, i) == 1
					} else if ev.Common.IsInvoke() {
						for _, t := range c.P.InvokeTargets(ev.Common) {
							if i > 0 && r.captured(t, i) == 1 {
								kept = true
							}
						}
					} else if ev.Callee == nil && ev.Fun != nil && ev.Fun.op != OpFunc && ev.Name == "" {
						kept = false
					}
					if !kept {
						continue
					}
					if E := s.ErrRes(ev); E != nil {
						o := st.clone()
						if s.Assume(o, s.T.IsNil(E), false) {
							out = append(out, o)
						}
						if !s.Assume(st, s.T.IsNil(E), true) {
							st.dead = true
							return out
						}
					}
					delete(st.marks, k)
					if ev.Result != nil {
						R := strip(s.Res(ev, 0))
						if R.typ != nil && types.Implements(R.typ, r.closer) {
							st.marks[fmt.Sprintf("H:%d", R.id)] = Mark{S: m.S, T: R}
						}
					}
				}
			}
			return out
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if rt := rootOf(addr); rt.op != OpAlloc {
				for _, k := range open(st) {
					// a field of the handle (resp.Body = ...) is not a hand-over
					if holds(st, val, st.marks[k].T, 0) && rt != st.marks[k].T {
						delete(st.marks, k)
					}
				}
			}
		},
		MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) { drop(st, v) },
		Send:     func(s *Sim, st *State, in ssa.Instruction, ch, v *Term) { drop(st, v) },
		BackEdge: func(s *Sim, st *State, h *ssa.BasicBlock, inLoop func(*Term) bool) {
			for _, k := range open(st) {
				m := st.marks[k]
				if !inLoop(m.T) {
					continue
				}
				carried := false
				for _, v := range s.loopVals {
					if strip(v) == m.T {
						carried = true // lives on in a variable
					} else if holds(st, v, m.T, 0) {
						carried = true // collected
						delete(st.marks, k)
					}
				}
				for a, v := range st.cells {
					if !inLoop(rootOf(a)) && holds(st, v, m.T, 0) {
						carried = true
						if strip(v) != m.T {
							delete(st.marks, k)
						}
					}
				}
				if carried {
					continue
				}
				pp := strings.Split(m.S, "@")
				c.Bad(r.rule, pp[1], pp[2], "the "+pp[0]+" opened in this iteration is not "+r.verb()+" when the loop continues", s.Path(st))
				delete(st.marks, k)
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			for _, k := range open(st) {
				m := st.marks[k]
				pp := strings.Split(m.S, "@")
				esc := false
				for _, x := range res {
					if holds(st, x, m.T, 0) {
						esc = true
					}
				}
				if n := len(res); esc && n > 1 && isErrorType(in.Parent().Signature.Results().At(n-1).Type()) && s.Eval(st, s.T.IsNil(res[n-1])) == 0 {
					esc = false
				}
				if !esc && s.Eval(st, s.T.IsNil(m.T)) != 1 {
					c.Bad(r.rule, pp[1], pp[2], "the "+pp[0]+" is neither "+r.verb()+" nor handed on, on the path returning at "+c.P.InstrPos(in), s.Path(st))
				}
			}
		},
	}
}

func (r *p11) verb() string {
	if r.acq != nil {
		return "committed or aborted"
	}
	return "closed"
}

// run simulates every package entry that opens something.
func (r *p11) run() {
	c := r.c
	s := c.Sim(r.hooks())
	s.Depth = 8
	stored := c.P.storedClosures()
	skip := func(fn *ssa.Function) bool {
		return fn.Name() == "init" && fn.Synthetic != "" || strings.HasSuffix(c.P.Rel(fn), "/mock")
	}
	for _, fn := range c.P.Funcs {
		if r.relevant(fn) && (c.P.IsTop(fn) || stored[fn]) && !skip(fn) {
			c.Run(s, fn, nil)
		}
	}
	c.RunRest(s, func(fn *ssa.Function) bool { return !skip(fn) && r.relevant(fn) })
}

func (s *Sim) firstRes(ev *CallEv) *Term {
	if ev.Result == nil {
		return s.T.Nil(types.Typ[types.UntypedNil])
	}
	return s.Res(ev, 0)
}

// closeForwards: types that keep opened handles in fields release each of them in Close.
func (r *p11) closeForwards() {
	c := r.c
	for _, n := range c.P.named {
		stt, ok := n.Underlying().(*types.Struct)
		if !ok || n.TypeParams().Len() > 0 || strings.HasSuffix(n.Obj().Pkg().Path(), "/mock") {
			continue
		}
		m := c.P.Method(n, "Close")
		if m == nil || len(m.Blocks) == 0 || !c.P.IsModule(m) {
			continue
		}
		rel := strings.TrimPrefix(n.Obj().Pkg().Path(), c.P.Mod+"/")
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			name := rel + "." + n.Obj().Name() + "." + f.Name()
			if why, skip := notOwned[name]; skip {
				_ = why
				continue
			}
			isMap := mappedField(c.P, n, i)
			if !types.Implements(f.Type(), r.closer) && !isMap && !holdsClosers(f.Type(), r.closer) {
				continue
			}
			key := name
			c.Ob("close-forwards", key, c.P.Pos(f.Pos()))
			s := c.Sim(Hooks{
				Inline:  pkgInline(c),
				Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
				PreCall: func(s *Sim, st *State, ev *CallEv) {
					if strings.HasSuffix(ev.Name, ").Close") && len(ev.Args) > 0 || strings.HasSuffix(ev.Name, ".Munmap") {
						if ev.Args[0].any(func(t *Term) bool { return t.op == OpFieldAddr && t.aux == f.Name() }) {
							st.marks["closed"] = Mark{S: "1"}
						}
					}
				},
				PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
					// a callback over the container runs for every element
					if !ev.Inlined && len(ev.Args) > 0 && ev.Args[0].any(func(t *Term) bool { return t.op == OpFieldAddr && t.aux == f.Name() }) {
						for _, a := range ev.Args[1:] {
							if a.op == OpClosure && callsClose(c.P, a.fn) {
								st.marks["closed"] = Mark{S: "1"}
							}
						}
					}
					return nil
				},
				Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
					if cond.op == OpNot {
						cond, taken = cond.args[0], !taken
					}
					if taken && cond.op == OpNil && cond.args[0].op == OpLoad && cond.args[0].args[0].op == OpFieldAddr && cond.args[0].args[0].aux == f.Name() {
						st.marks["closed"] = Mark{S: "nil"} // nothing to release
					}
				},
				Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
					if _, ok := st.marks["closed"]; ok {
						return
					}
					// the loop over an empty container
					if _, isSl := f.Type().Underlying().(*types.Slice); isSl && !isMap {
						return
					}
					c.Bad("close-forwards", key, c.P.InstrPos(in), "Close of "+n.Obj().Name()+" returns without releasing "+f.Name(), s.Path(st))
				},
			})
			c.Run(s, m, nil)
		}
	}
}

// callsClose: the callback closes its argument on every path and asks for the next element.
func callsClose(p *Prog, fn *ssa.Function) bool {
	var closes []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if strings.HasSuffix(p.calleeName(ci.Common()), ").Close") {
					closes = append(closes, b)
				} else if sc := ci.Common().StaticCallee(); sc != nil && p.IsModule(sc) && len(sc.Blocks) > 0 && sc != fn && callsClose(p, sc) {
					closes = append(closes, b)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		dom := false
		for _, cb := range closes {
			if cb.Dominates(b) {
				dom = true
			}
		}
		if !dom {
			return false
		}
		for _, v := range ret.Results {
			if isBool(v.Type()) && !alwaysTrue(v, map[ssa.Value]bool{}) {
				return false
			}
		}
	}
	return true
}

func alwaysTrue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.String() == "true"
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !alwaysTrue(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func holdsClosers(t types.Type, closer *types.Interface) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return types.Implements(u.Elem(), closer)
	case *types.Map:
		return types.Implements(u.Elem(), closer)
	case *types.Pointer:
		n := namedOf(t)
		return n != nil && n.Obj().Name() == "BTree"
	}
	return false
}

// mappedField: a []byte field that a mapping is stored in.
func mappedField(p *Prog, n *types.Named, i int) bool {
	f := n.Underlying().(*types.Struct).Field(i)
	if f.Type().String() != "[]byte" {
		return false
	}
	m := p.Method(n, "Close")
	if m != nil {
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(p.calleeName(ci.Common()), ".Munmap") {
					return true
				}
			}
		}
	}
	return strings.HasPrefix(n.Obj().Name(), "mmap")
}

// closer-typed fields of types with a Close method that the type only borrows
var notOwned = map[string]string{
	"pkg/isofuse.Server.fs":      "the file system object is torn down by unmounting",
	"pkg/isofuse.Server.volume":  "the disc belongs to the caller",
	"pkg/caching.diskSlice.obj":  "slices borrow the object they cache",
	"pkg/caching.memSlice.obj":   "slices borrow the object they cache",
	"pkg/iso9660.File.r":         "reads from the image of the disc, which its owner closes",
	"pkg/storage/zero.object.br": "",
}

// relevant: fn (or what it calls in its package, or its closures) opens something.
func (r *p11) relevant(fn *ssa.Function) bool {
	if v, ok := r.rel[fn]; ok {
		return v
	}
	r.rel[fn] = false
	res := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if r.kindOf(ci.Common()) != "" {
					res = true
				} else if sc := ci.Common().StaticCallee(); sc != nil && r.c.P.IsModule(sc) && r.c.P.Rel(sc) == r.c.P.Rel(fn) && r.relevant(sc) {
					res = true
				}
			}
			for _, o := range in.Operands(nil) {
				if f, ok := (*o).(*ssa.Function); ok && f.Parent() != nil && r.relevant(f) {
					res = true
				}
			}
		}
	}
	r.rel[fn] = res
	return res
}

func checkP11(c *Check) {
	c.Rule("release", "every opened file, object, response, lock, device or mapping is closed on every path, or handed to the caller, a longer-lived structure or another goroutine", 25)
	c.Rule("close-forwards", "a type that keeps an opened handle releases it in its own Close on every path", 6)
	c.Rule("table", "an entry taken out of a table of opened handles is closed", 1)
	r := &p11{c: c, rule: "release", closer: ioCloser(c.P), capt: map[string]int{}, rel: map[*ssa.Function]bool{}}
	r.run()
	r.closeForwards()
	r.tables()
}

func init() { checks["P11"] = checkP11 }
