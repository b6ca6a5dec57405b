package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock discipline: P09 (lockset analysis of shared state) and P10 (typestate of locks, semaphores and wait groups).

var lockOps = map[string]string{
	"(*sync.Mutex).Lock": "w", "(*sync.RWMutex).Lock": "w", "(*sync.RWMutex).RLock": "r",
	"(*sync.Mutex).Unlock": "uw", "(*sync.RWMutex).Unlock": "uw", "(*sync.RWMutex).RUnlock": "ur",
}

func isMutexType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func isSyncType(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "golang.org/x/sync/semaphore":
		return true
	}
	return false
}

// lockClass names the lock a term denotes: its struct type and field, or the package variable.
func lockClass(p *Prog, t *Term) string {
	if t.op == OpLoad {
		t = t.args[0]
	}
	short := func(s string) string { return strings.ReplaceAll(s, p.Mod+"/", "") }
	switch t.op {
	case OpFieldAddr:
		return short(typeStr(deref(t.args[0].typ))) + "." + t.aux
	case OpGlobal:
		return short(t.aux)
	}
	if t.instr != nil {
		return "local lock of " + p.FnName(outer(t.instr.Parent()))
	}
	return "lock " + t.String()
}

// goID identifies the goroutine the top frame runs in (0: the root's own).
func goID(st *State) int {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].kind == kGo {
			return st.frames[i].ctx.id
		}
	}
	return 0
}

// pkgInline: follow calls that stay inside the package of the root.
func pkgInline(c *Check) func(s *Sim, st *State, ev *CallEv) bool {
	return func(s *Sim, st *State, ev *CallEv) bool {
		return c.P.IsModule(ev.Callee) && c.P.Rel(ev.Callee) == c.P.Rel(s.root)
	}
}

// goTargets: functions and closures started with go.
func (p *Prog) goTargets() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					switch v := g.Call.Value.(type) {
					case *ssa.MakeClosure:
						out[v.Fn.(*ssa.Function)] = true
					case *ssa.Function:
						out[v] = true
					}
				}
			}
		}
	}
	return out
}

// storedClosures: function literals kept for later (in a field, returned, converted), called from who knows where.
func (p *Prog) storedClosures() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	see := func(fn *ssa.Function, v ssa.Value, r ssa.Instruction) {
		switch r := r.(type) {
		case *ssa.Store:
			if _, ok := r.Addr.(*ssa.Alloc); !ok && r.Val == v {
				out[fn] = true
			}
		case ssa.CallInstruction, *ssa.DebugRef:
		case *ssa.Phi:
		default:
			out[fn] = true
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					for _, r := range derefs(mc) {
						see(mc.Fn.(*ssa.Function), mc, r)
					}
					continue
				}
				for _, o := range in.Operands(nil) {
					if f, ok := (*o).(*ssa.Function); ok && f.Parent() != nil {
						see(f, f, in)
					}
				}
			}
		}
	}
	return out
}

// ---------- P10 ----------

type lockOrder struct {
	from, to, pos string
}

type p10 struct {
	c     *Check
	edges map[[2]string]string

	waited map[string]bool
	acq    map[*ssa.Function]map[string]bool
}

// acquires: lock classes fn may take (transitively, module calls and interface calls, not through go).
func (r *p10) acquires(fn *ssa.Function) map[string]bool {
	if m, ok := r.acq[fn]; ok {
		return m
	}
	m := map[string]bool{}
	r.acq[fn] = m
	p := r.c.P
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, g := in.(*ssa.Go); g {
					continue
				}
				n := p.calleeName(c.Common())
				if k := lockOps[n]; k == "w" || k == "r" {
					if len(c.Common().Args) > 0 {
						if cl := staticLockClass(p, c.Common().Args[0]); cl != "" {
							m[cl] = true
						}
					}
					continue
				}
				if sc := c.Common().StaticCallee(); sc != nil && p.IsModule(sc) {
					rec(sc)
				}
				for _, t := range p.InvokeTargets(c.Common()) {
					rec(t)
				}
				for _, a := range c.Common().Args {
					if mc, ok := a.(*ssa.MakeClosure); ok && n == "(*sync.Once).Do" {
						rec(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	rec(fn)
	return m
}

func staticLockClass(p *Prog, v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		st := deref(v.X.Type())
		return strings.ReplaceAll(st.String()+"."+st.Underlying().(*types.Struct).Field(v.Field).Name(), p.Mod+"/", "")
	case *ssa.Global:
		return strings.ReplaceAll(v.Pkg.Pkg.Path()+"."+v.Name(), p.Mod+"/", "")
	}
	return ""
}

type held struct {
	key string
	m   Mark
}

func heldLocks(st *State, g int) []held {
	var out []held
	pre := fmt.Sprintf("L:%d:", g)
	for k, m := range st.marks {
		if strings.HasPrefix(k, pre) {
			out = append(out, held{k, m})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

func isFileLock(n string) bool {
	return n == "pkg/storage.Lock" || n == "pkg/storage.LockContext" || strings.HasSuffix(n, "Locker).Lock") && !strings.HasPrefix(n, "(sync.")
}

func (r *p10) hooks() Hooks {
	c := r.c
	inl := pkgInline(c)
	siteKey := func(ev *CallEv, what string) string {
		return c.P.FnName(outer(ev.Site.Parent())) + " " + what
	}
	bad := func(s *Sim, st *State, in ssa.Instruction, rule, key, msg string) {
		c.Bad(rule, key, c.P.InstrPos(in), msg, s.Path(st))
	}
	edge := func(from, to, pos string) {
		k := [2]string{from, to}
		if _, ok := r.edges[k]; !ok {
			r.edges[k] = pos
			c.Ob("lock-order", from+" before "+to, pos)
		}
	}
	return Hooks{
		Inline:  inl,
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
		Go: func(s *Sim, st *State, ev *CallEv) bool {
			return ev.Callee != nil && inl(s, st, ev)
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			g := goID(st)
			if op, ok := lockOps[ev.Name]; ok && len(ev.Args) > 0 {
				L := ev.Args[0]
				cl := lockClass(c.P, L)
				k := fmt.Sprintf("L:%d:%d", g, L.id)
				switch op {
				case "w", "r":
					c.Ob("lock-balance", siteKey(ev, cl), c.P.InstrPos(ev.Site))
					if _, ok := st.marks[k]; ok {
						bad(s, st, ev.Site, "lock-balance", siteKey(ev, cl), "the lock "+cl+" is acquired while it is already held on this path")
					}
					for _, h := range heldLocks(st, g) {
						if h.m.T != L {
							edge(lockClass(c.P, h.m.T), cl, c.P.InstrPos(ev.Site))
						}
					}
					st.marks[k] = Mark{S: op + "@" + siteKey(ev, cl) + "@" + c.P.InstrPos(ev.Site), T: L}
				case "uw", "ur":
					m, ok := st.marks[k]
					if !ok {
						k = fmt.Sprintf("L:0:%d", L.id)
						m, ok = st.marks[k]
					}
					if !ok {
						bad(s, st, ev.Site, "lock-balance", siteKey(ev, cl), "the lock "+cl+" is released while it is not held on this path")
						return
					}
					if m.S[:1] != op[1:] {
						bad(s, st, ev.Site, "lock-balance", siteKey(ev, cl), "the lock "+cl+" is released in another mode than it was acquired")
					}
					delete(st.marks, k)
				}
				return
			}
			// order through calls that are not followed
			if hs := heldLocks(st, g); len(hs) > 0 && ev.Kind != kGo {
				var ts []*ssa.Function
				if ev.Common.IsInvoke() && ev.Callee == nil {
					ts = c.P.InvokeTargets(ev.Common)
				} else if ev.Callee != nil && c.P.IsModule(ev.Callee) && !inl(s, st, ev) {
					ts = []*ssa.Function{ev.Callee}
				}
				for _, t := range ts {
					for cl := range r.acquires(t) {
						for _, h := range hs {
							edge(lockClass(c.P, h.m.T), cl, c.P.InstrPos(ev.Site))
						}
					}
				}
			}
			switch ev.Name {
			case "(*sync.Cond).Wait":
				key := siteKey(ev, "Wait "+lockClass(c.P, ev.Args[0]))
				c.Ob("cond", key, c.P.InstrPos(ev.Site))
				if len(heldLocks(st, g)) == 0 {
					bad(s, st, ev.Site, "cond", key, "waits on a condition without holding a lock")
				}
				if !inCycle(ev.Site.Block()) {
					bad(s, st, ev.Site, "cond", key, "the condition is not tested again after waiting")
				}
			case "(*sync.Cond).Broadcast", "(*sync.Cond).Signal":
				key := siteKey(ev, "wake "+lockClass(c.P, ev.Args[0]))
				c.Ob("cond", key, c.P.InstrPos(ev.Site))
				base := condBase(ev.Args[0])
				delete(st.marks, fmt.Sprintf("C:%d", base.id))
				for a, v := range st.cells {
					if v == ev.Args[0] && a.op == OpFieldAddr {
						delete(st.marks, fmt.Sprintf("C:%d", a.args[0].id))
					}
				}
			case "(*sync.WaitGroup).Add":
				W := ev.Args[0]
				n, isc := ev.Args[1].IntConst()
				if _, lit := ev.Common.Args[1].(*ssa.Const); !lit {
					isc = false
				}
				c.Ob("waitgroup", siteKey(ev, "Add "+lockClass(c.P, W)), c.P.InstrPos(ev.Site))
				if g != 0 && !localTo(st, W) {
					bad(s, st, ev.Site, "waitgroup", siteKey(ev, "Add "+lockClass(c.P, W)), "the wait group is incremented inside the goroutine it counts; a waiter may return before the goroutine is counted")
				}
				k := fmt.Sprintf("W:%d", W.id)
				m := st.marks[k]
				cnt := 0
				fmt.Sscanf(m.S, "%d@", &cnt)
				if !isc {
					cnt = 1000
				} else if cnt < 3 {
					cnt += int(n)
				}
				st.marks[k] = Mark{S: fmt.Sprintf("%d@%s@%s", cnt, siteKey(ev, "Add "+lockClass(c.P, W)), c.P.InstrPos(ev.Site)), T: W}
				if g != 0 {
					st.marks[k+"own"] = Mark{S: "1", T: W}
				}
			case "(*sync.WaitGroup).Done":
				W := ev.Args[0]
				if received(W) {
					break // counts a unit of work that came over a queue, not this goroutine
				}
				key := siteKey(ev, "Done "+lockClass(c.P, W))
				c.Ob("waitgroup", key, c.P.InstrPos(ev.Site))
				if g != 0 {
					dk := fmt.Sprintf("D:%d:%d", g, W.id)
					if _, twice := st.marks[dk]; twice {
						bad(s, st, ev.Site, "waitgroup", key, "the goroutine signals the wait group twice on this path")
					}
					st.marks[dk] = Mark{S: key, T: W}
				}
				k := fmt.Sprintf("W:%d", W.id)
				m, ok := st.marks[k]
				cnt := 0
				fmt.Sscanf(m.S, "%d@", &cnt)
				if !ok || cnt <= 0 {
					if g != 0 {
						bad(s, st, ev.Site, "waitgroup", key, "the goroutine signals a wait group that was not incremented before the goroutine was started")
					}
					return
				}
				if cnt < 100 {
					cnt--
				}
				if cnt == 0 {
					delete(st.marks, k)
				} else {
					st.marks[k] = Mark{S: fmt.Sprintf("%d@%s", cnt, strings.SplitN(m.S, "@", 2)[1]), T: W}
				}
			case "(*sync.WaitGroup).Wait":
				W := ev.Args[0]
				key := siteKey(ev, "Wait "+lockClass(c.P, W))
				c.Ob("waitgroup", key, c.P.InstrPos(ev.Site))
				if m, ok := st.marks[fmt.Sprintf("W:%d", W.id)]; ok {
					cnt := 0
					fmt.Sscanf(m.S, "%d@", &cnt)
					if cnt > 0 && cnt < 100 {
						bad(s, st, ev.Site, "waitgroup", key, "waits for a goroutine that is counted but never signals on this path")
					}
				}
			case "(*golang.org/x/sync/semaphore.Weighted).Release":
				k := fmt.Sprintf("S:%d", ev.Args[0].id)
				key := siteKey(ev, "Release "+lockClass(c.P, ev.Args[0]))
				c.Ob("semaphore", key, c.P.InstrPos(ev.Site))
				if m, ok := st.marks[k]; ok {
					if m.S[:strings.Index(m.S, "@")] != ev.Args[1].String() {
						bad(s, st, ev.Site, "semaphore", key, "releases another weight than was acquired")
					}
					delete(st.marks, k)
				} else {
					bad(s, st, ev.Site, "semaphore", key, "a semaphore slot is released that is not held on this path")
				}
			}
			if strings.HasSuffix(ev.Name, ").Close") && len(ev.Args) > 0 {
				k := fmt.Sprintf("F:%d", ev.Args[0].id)
				if m, ok := st.marks[k]; ok {
					if m.S[0] == 'c' {
						bad(s, st, ev.Site, "file-lock", strings.Split(m.S, "@")[1], "the file lock is released twice on this path")
					}
					m.S = "c" + m.S[1:]
					st.marks[k] = m
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			switch {
			case isFileLock(ev.Name) && !ev.Inlined:
				E := s.ErrRes(ev)
				if E == nil {
					return nil
				}
				key := siteKey(ev, ev.Name)
				c.Ob("file-lock", key, c.P.InstrPos(ev.Site))
				o := st.clone()
				if !s.Assume(o, s.T.IsNil(E), false) {
					o = nil
				}
				if !s.Assume(st, s.T.IsNil(E), true) {
					st.dead = true
				}
				R := s.Res(ev, 0)
				st.marks[fmt.Sprintf("F:%d", R.id)] = Mark{S: "h@" + key + "@" + c.P.InstrPos(ev.Site), T: R}
				if o != nil {
					return []*State{o}
				}
			case strings.HasPrefix(ev.Name, "(*golang.org/x/sync/semaphore.Weighted).") && strings.HasSuffix(ev.Name, "cquire"):
				key := siteKey(ev, "acquire "+lockClass(c.P, ev.Args[0]))
				c.Ob("semaphore", key, c.P.InstrPos(ev.Site))
				var cond *Term
				w := ev.Args[1]
				if strings.HasSuffix(ev.Name, "TryAcquire") {
					cond = ev.Result
				} else {
					w = ev.Args[2]
					cond = s.T.IsNil(ev.Result)
				}
				k := fmt.Sprintf("S:%d", ev.Args[0].id)
				if _, ok := st.marks[k]; ok {
					bad(s, st, ev.Site, "semaphore", key, "another semaphore slot is acquired while the previous one was not passed on or released on this path")
				}
				o := st.clone()
				if !s.Assume(o, cond, false) {
					o = nil
				}
				if !s.Assume(st, cond, true) {
					st.dead = true
				}
				st.marks[k] = Mark{S: w.String() + "@" + key + "@" + c.P.InstrPos(ev.Site), T: ev.Args[0]}
				if o != nil {
					return []*State{o}
				}
			}
			// a handle passed to code that is not followed, or a wait group's Done handed over
			if !ev.Inlined && ev.Kind != kGo {
				for _, a := range ev.Args {
					passOn(s, st, a, !strings.HasSuffix(ev.Name, ").Close") && !strings.Contains(ev.Name, "sync."))
				}
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OpFieldAddr && r.waited[fieldName(addr)] {
				if b := addr.args[0]; b.op != OpAlloc || st.shared[b] || goID(st) != 0 {
					key := c.P.FnName(outer(in.Parent())) + " sets " + fieldName(addr)
					c.Ob("cond", key, c.P.InstrPos(in))
					st.marks[fmt.Sprintf("C:%d", b.id)] = Mark{S: "c@" + key + "@" + c.P.InstrPos(in), T: b}
				}
			}
			if r := rootOf(addr); r.op != OpAlloc {
				passOn(s, st, val, true)
			}
		},
		MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) { passOn(s, st, v, true) },
		Send: func(s *Sim, st *State, in ssa.Instruction, ch, v *Term) {
			for _, w := range boundDones(st, v, 0) {
				key := c.P.FnName(outer(in.Parent())) + " hands over Done of " + lockClass(c.P, w)
				c.Ob("waitgroup", key, c.P.InstrPos(in))
				if _, ok := st.marks[fmt.Sprintf("W:%d", w.id)]; !ok {
					bad(s, st, in, "waitgroup", key, "the duty to signal the wait group is handed over before the wait group was incremented")
				}
			}
			passOn(s, st, v, true)
		},
		RetAny: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			f := st.top()
			if f.kind != kGo {
				return
			}
			g := f.ctx.id
			r.checkEnd(s, st, in, g, res)
			// a goroutine counted on this path must have signalled
			for k, m := range st.marks {
				if strings.HasPrefix(k, fmt.Sprintf("D:%d:", g)) {
					delete(st.marks, k)
				}
				if strings.HasPrefix(k, "W:") && strings.HasSuffix(k, "own") {
					// counted and used inside this goroutine only
					id := strings.TrimSuffix(k, "own")
					delete(st.marks, id)
					delete(st.marks, k)
				}
				_ = m
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			r.checkEnd(s, st, in, 0, res)
			for k, m := range st.marks {
				pp := strings.Split(m.S, "@")
				switch {
				case strings.HasPrefix(k, "W:"):
					cnt := 0
					fmt.Sscanf(pp[0], "%d", &cnt)
					if cnt > 0 && cnt < 100 && !strings.HasSuffix(k, "own") {
						c.Bad("waitgroup", pp[1], pp[2], "the wait group is incremented but on the path returning at "+c.P.InstrPos(in)+" no goroutine was started that signals it", s.Path(st))
					}
				case strings.HasPrefix(k, "S:"):
					c.Bad("semaphore", pp[1], pp[2], "the semaphore slot is not released on the path returning at "+c.P.InstrPos(in), s.Path(st))
				case strings.HasPrefix(k, "F:") && m.S[0] == 'h':
					esc := false
					for _, x := range res {
						if x.has(m.T) {
							esc = true
						}
					}
					if !esc {
						c.Bad("file-lock", pp[1], pp[2], "the file lock is not released on the path returning at "+c.P.InstrPos(in), s.Path(st))
					}
				}
			}
		},
	}
}

// localTo: the object was allocated by the goroutine that the top frame runs in.
func localTo(st *State, t *Term) bool {
	r := rootOf(t)
	if r.op != OpAlloc || r.ctx == nil {
		return false
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].ctx == r.ctx {
			return true
		}
		if st.frames[i].kind == kGo {
			return false
		}
	}
	return false
}

// passOn forgets duties that travel with a value handed to someone else.
func passOn(s *Sim, st *State, v *Term, handles bool) {
	var reach func(t *Term, d int) bool
	var target *Term
	reach = func(t *Term, d int) bool {
		if d > 4 {
			return false
		}
		if t.has(target) {
			return true
		}
		if t.op == OpMkIface || t.op == OpSlice {
			return reach(t.args[0], d+1)
		}
		if t.op == OpAlloc {
			for a, x := range st.cells {
				if rootOf(a) == t && (x == target || reach(x, d+1)) {
					return true
				}
			}
		}
		return false
	}
	for k, m := range st.marks {
		if m.T == nil {
			continue
		}
		if strings.HasPrefix(k, "F:") && handles || strings.HasPrefix(k, "W:") {
			target = m.T
			if reach(v, 0) {
				if strings.HasPrefix(k, "W:") && v == m.T {
					continue
				}
				delete(st.marks, k)
			}
		}
	}
}

func condBase(t *Term) *Term {
	if t.op == OpLoad {
		t = t.args[0]
	}
	if t.op == OpFieldAddr {
		return t.args[0]
	}
	return t
}

func fieldName(a *Term) string {
	return typeStr(deref(a.args[0].typ)) + "." + a.aux
}

// boundDones: wait groups whose Done method value is part of v.
func boundDones(st *State, v *Term, d int) []*Term {
	if d > 4 {
		return nil
	}
	switch v.op {
	case OpClosure:
		if strings.HasSuffix(v.fn.Name(), "Done$bound") && len(v.args) == 1 && namedOf(v.args[0].typ) != nil && namedOf(v.args[0].typ).Obj().Name() == "WaitGroup" {
			return []*Term{v.args[0]}
		}
	case OpMkIface:
		return boundDones(st, v.args[0], d+1)
	case OpAlloc:
		var out []*Term
		for a, x := range st.cells {
			if rootOf(a) == v {
				out = append(out, boundDones(st, x, d+1)...)
			}
		}
		return out
	}
	return nil
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, y := range x.Succs {
			if y == b {
				return true
			}
			if !seen[y] {
				seen[y] = true
				if rec(y) {
					return true
				}
			}
		}
		return false
	}
	return rec(b)
}

// waitedFields: fields tested by the loops around condition waits.
func waitedFields(p *Prog) map[string]bool {
	out := map[string]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || p.calleeName(c.Common()) != "(*sync.Cond).Wait" {
					continue
				}
				for _, x := range fn.Blocks {
					iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
					if !ok || !inCycle(x) {
						continue
					}
					var rec func(v ssa.Value, d int)
					rec = func(v ssa.Value, d int) {
						if d > 6 {
							return
						}
						if fa, ok := v.(*ssa.FieldAddr); ok {
							st := deref(fa.X.Type())
							out[typeStr(st)+"."+st.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
						}
						if i, ok := v.(ssa.Instruction); ok {
							for _, o := range i.Operands(nil) {
								if *o != nil {
									rec(*o, d+1)
								}
							}
						}
					}
					rec(iff.Cond, 0)
				}
			}
		}
	}
	return out
}

func (r *p10) checkEnd(s *Sim, st *State, in *ssa.Return, g int, res []*Term) {
	for _, h := range heldLocks(st, g) {
		pp := strings.Split(h.m.S, "@")
		r.c.Bad("lock-balance", pp[1], pp[2], "the lock is still held on the path returning at "+r.c.P.InstrPos(in), s.Path(st))
	}
	for k, m := range st.marks {
		if strings.HasPrefix(k, "C:") {
			pp := strings.Split(m.S, "@")
			r.c.Bad("cond", pp[1], pp[2], "the awaited state is changed but no waiter is woken on the path returning at "+r.c.P.InstrPos(in), s.Path(st))
			delete(st.marks, k)
		}
	}
}

func checkP10(c *Check) {
	c.Rule("lock-balance", "every acquired mutex is released exactly once, in the mode it was acquired, on every path; never acquired while held", 22)
	c.Rule("waitgroup", "a wait group is incremented before the goroutine starts, every counted goroutine signals exactly once on every path", 14)
	c.Rule("semaphore", "every acquired semaphore slot is released exactly once, by the acquirer or the goroutine it was passed to", 1)
	c.Rule("file-lock", "every acquired file lock is released exactly once on every path, or handed to the caller", 1)
	c.Rule("lock-order", "the order in which locks are acquired while others are held has no cycle", 1)
	c.Rule("cond", "a condition is awaited in a loop with the lock held, and whoever changes the awaited state wakes the waiters on every path", 2)
	r := &p10{c: c, waited: waitedFields(c.P), edges: map[[2]string]string{}, acq: map[*ssa.Function]map[string]bool{}}
	stored := c.P.storedClosures()
	gos := c.P.goTargets()
	s := c.Sim(r.hooks())
	s.Depth = 9
	for _, fn := range c.P.Funcs {
		if !usesSync(c.P, fn, map[*ssa.Function]bool{}) {
			continue
		}
		if c.P.IsTop(fn) && !(gos[fn] && len(c.P.callers[fn]) > 0 && !fn.Object().Exported()) || stored[fn] {
			c.Run(s, fn, nil)
		}
	}
	c.RunRest(s, func(fn *ssa.Function) bool { return usesSync(c.P, fn, map[*ssa.Function]bool{}) })
	// every go statement whose goroutine signals a wait group only on some paths
	r.goSignals(gos)
	// cycles
	adj := map[string][]string{}
	for e := range r.edges {
		adj[e[0]] = append(adj[e[0]], e[1])
	}
	for e, pos := range r.edges {
		if reaches(adj, e[1], e[0]) {
			c.Bad("lock-order", e[0]+" before "+e[1], pos, "the locks "+e[0]+" and "+e[1]+" are acquired in both orders (or one is acquired again while held)", nil)
		}
	}
}

func reaches(adj map[string][]string, from, to string) bool {
	seen := map[string]bool{}
	var rec func(x string) bool
	rec = func(x string) bool {
		if x == to {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range adj[x] {
			if rec(y) {
				return true
			}
		}
		return false
	}
	return rec(from)
}

// goSignals: a goroutine body that signals a wait group on one path signals it on all of them.
func (r *p10) goSignals(gos map[*ssa.Function]bool) {
	c := r.c
	inl := pkgInline(c)
	for _, fn := range c.P.Funcs {
		if !gos[fn] {
			continue
		}
		type res struct {
			yes, no bool
			pos     string
			path    []string
		}
		seen := map[string]*res{}
		all := map[string]bool{}
		var rets []map[string]bool
		var poss []string
		var paths [][]string
		s := c.Sim(Hooks{
			Inline:  inl,
			Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Name == "(*sync.WaitGroup).Done" && !received(ev.Args[0]) {
					cl := lockClass(c.P, ev.Args[0])
					all[cl] = true
					st.marks["D:"+cl] = Mark{S: "1"}
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, _ []*Term) {
				m := map[string]bool{}
				for k := range st.marks {
					m[k[2:]] = true
				}
				rets = append(rets, m)
				poss = append(poss, c.P.InstrPos(in))
				paths = append(paths, s.Path(st))
			},
		})
		_ = seen
		s.Depth = 9
		c.Run(s, fn, nil)
		for cl := range all {
			key := c.P.FnName(fn) + " signals " + cl
			c.Ob("waitgroup", key, c.P.Pos(fn.Pos()))
			for i, m := range rets {
				if !m[cl] {
					c.Bad("waitgroup", key, poss[i], "the goroutine ends on this path without signalling the wait group", paths[i])
				}
			}
		}
	}
}

// received: the value came out of a channel.
func received(t *Term) bool {
	for t != nil {
		switch t.op {
		case OpLoad, OpFieldAddr, OpExtract, OpField, OpConv, OpAssert:
			t = t.args[0]
			continue
		case OpOpaque:
			return t.aux == "recv" || t.aux == "select"
		}
		return false
	}
	return false
}

// usesSync: does fn (or what it calls in its package, or its closures) touch locks at all?
func usesSync(p *Prog, fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				n := p.calleeName(c.Common())
				if strings.HasPrefix(n, "(*sync.") || strings.Contains(n, "semaphore.") || isFileLock(n) {
					return true
				}
				if sc := c.Common().StaticCallee(); sc != nil && p.IsModule(sc) && p.Rel(sc) == p.Rel(fn) && usesSync(p, sc, seen) {
					return true
				}
			}
			for _, o := range in.Operands(nil) {
				if f, ok := (*o).(*ssa.Function); ok && f.Parent() != nil && usesSync(p, f, seen) {
					return true
				}
			}
		}
	}
	return false
}

func init() { checks["P10"] = checkP10 }
