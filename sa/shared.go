package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P09: lockset analysis of shared state.

type access struct {
	field  string // type.field or package variable
	owner  string // struct type ("" for package variables)
	fn     string
	pos    string
	write  bool
	root   *ssa.Function
	same   map[string]string // locks of the same instance held: field name -> mode
	class  map[string]string // all locks held: class -> mode
	once   map[string]bool   // onces passed on this path for the same instance (field names / globals)
	inOnce string            // inside the function of this once
	atomic bool
	exempt bool // fresh object or joined
	path   []string
}

type p09 struct {
	c    *Check
	acc  map[string][]*access
	seen map[string]bool
	muts map[string][]string // struct type -> mutex fields
}

// containers that are not safe for concurrent use
var unsafeContainers = map[string]bool{"simplelru.LRU": true, "rand.Rand": true, "btree.BTree": true, "bytes.Buffer": true, "list.List": true, "strings.Builder": true}

func (r *p09) short(s string) string { return strings.ReplaceAll(s, r.c.P.Mod+"/", "") }

// location of the struct field or package variable an address lies in; content: through a loaded slice, map or pointer.
func (r *p09) locate(st *State, a *Term) (loc *Term) {
	for i := 0; i < 12 && a != nil; i++ {
		switch a.op {
		case OpGlobal:
			return a
		case OpFieldAddr:
			if _, ok := deref(a.args[0].typ).Underlying().(*types.Struct); ok {
				// a field of an embedded struct value belongs to the outer field as well; report the innermost
				return a
			}
			return nil
		case OpIndexAddr:
			b := a.args[0]
			if b.op == OpAlloc || b.op == OpFieldAddr { // array
				a = b
				continue
			}
			return r.origin(st, b)
		default:
			return nil
		}
	}
	return nil
}

// origin: the field or variable a slice, map or pointer value was loaded from.
func (r *p09) origin(st *State, v *Term) *Term {
	for v.op == OpSlice || v.op == OpMkIface || v.op == OpConv {
		v = v.args[0]
	}
	if v.op == OpLoad && (v.args[0].op == OpFieldAddr || v.args[0].op == OpGlobal) {
		return v.args[0]
	}
	if v.op == OpConst || v.op == OpParam {
		return nil
	}
	for a, x := range st.cells {
		if x == v && (a.op == OpFieldAddr || a.op == OpGlobal) && rootOf(a).op != OpAlloc {
			return a
		}
	}
	return nil
}

func (r *p09) escaped(st *State, al *Term) bool {
	if st.shared[al] {
		return true
	}
	for a := range st.shared {
		if rootOf(a) == al {
			return true
		}
	}
	_, ok := st.marks[fmt.Sprintf("E:%d", al.id)]
	return ok
}

func (r *p09) record(s *Sim, st *State, in ssa.Instruction, loc *Term, write, atomic bool, ptr ...bool) {
	if loc == nil {
		return
	}
	a := &access{write: write, atomic: atomic, root: s.root, fn: r.c.P.FnName(outer(in.Parent())), pos: r.c.P.InstrPos(in), same: map[string]string{}, class: map[string]string{}, once: map[string]bool{}}
	var base *Term
	if loc.op == OpGlobal {
		a.field = r.short(loc.aux)
		if !r.c.P.IsModulePkg(pkgOfGlobal(loc)) || strings.HasSuffix(outer(in.Parent()).Name(), "init") && outer(in.Parent()).Synthetic != "" {
			return
		}
		if isSyncType(deref(loc.typ)) {
			return
		}
	} else {
		base = loc.args[0]
		n := namedOf(base.typ)
		if n == nil || n.Obj().Pkg() == nil || !r.c.P.IsModulePkg(n.Obj().Pkg().Path()) {
			return
		}
		if isSyncType(deref(loc.typ)) {
			return
		}
		a.owner = r.short(n.String())
		a.field = a.owner + "." + loc.aux
		rt := rootOf(loc)
		if rt.op == OpAlloc && !r.escaped(st, rt) {
			a.exempt = true
		}
		if _, ok := st.marks[fmt.Sprintf("J:%d", base.id)]; ok {
			a.exempt = true
		}
	}
	if len(ptr) > 0 {
		a.field += "*"
	}
	g := goID(st)
	for _, h := range heldLocks(st, g) {
		mode := h.m.S[:1]
		a.class[lockClass(r.c.P, h.m.T)] = mode
		l := h.m.T
		if l.op == OpLoad {
			l = l.args[0]
		}
		if base != nil && l.op == OpFieldAddr && l.args[0] == base {
			a.same[l.aux] = mode
		} else if l.op != OpFieldAddr && base != nil {
			for ad, v := range st.cells {
				if v == h.m.T && ad.op == OpFieldAddr && ad.args[0] == base {
					a.same[ad.aux] = mode
				}
			}
		}
	}
	for k, m := range st.marks {
		if strings.HasPrefix(k, "O:") {
			if m.T.op == OpGlobal {
				a.once[r.short(m.T.aux)] = true
			} else if m.T.op == OpFieldAddr && m.T.args[0] == base {
				a.once[m.T.aux] = true
			}
		}
	}
	for _, f := range st.frames {
		if f.kind == kCB && f.ev != nil && f.ev.Name == "(*sync.Once).Do" {
			o := f.ev.Args[0]
			if o.op == OpGlobal {
				a.inOnce = r.short(o.aux)
			} else if o.op == OpFieldAddr && o.args[0] == base {
				a.inOnce = o.aux
			}
		}
	}
	key := fmt.Sprint(a.field, a.fn, a.pos, a.write, a.atomic, a.exempt, a.same, a.class, a.once, a.inOnce, r.c.P.FnName(s.root))
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	a.path = s.Path(st)
	r.acc[a.field] = append(r.acc[a.field], a)
}

func pkgOfGlobal(t *Term) string {
	i := strings.LastIndex(t.aux, ".")
	return t.aux[:i]
}

func (r *p09) escape(st *State, v *Term) {
	for v.op == OpMkIface || v.op == OpConv {
		v = v.args[0]
	}
	var rec func(v *Term, d int)
	rec = func(v *Term, d int) {
		if d > 4 {
			return
		}
		rt := v
		if v.op == OpFieldAddr || v.op == OpIndexAddr {
			rt = rootOf(v)
		}
		if rt.op == OpAlloc {
			k := fmt.Sprintf("E:%d", rt.id)
			if _, ok := st.marks[k]; !ok {
				st.marks[k] = Mark{S: "e", T: rt}
				for a, x := range st.cells {
					if rootOf(a) == rt {
						rec(x, d+1)
					}
				}
			}
		}
		if v.op == OpClosure || v.op == OpMkIface || v.op == OpSlice {
			for _, x := range v.args {
				rec(x, d+1)
			}
		}
	}
	rec(v, 0)
}

// writtenVia: the fields ("" for the whole) that code with access to v writes in the object v points to,
// following exactly the given number of pointers on the way.
func writtenVia(v ssa.Value, loads int) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, d, cur int, field string)
	rec = func(v ssa.Value, d, cur int, field string) {
		if seen[v] || d > 6 || cur > loads {
			return
		}
		seen[v] = true
		for _, in := range derefs(v) {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v && cur == loads {
					out[field] = true
				}
			case *ssa.FieldAddr:
				if in.X == v && !isSyncType(deref(in.Type())) {
					f := field
					if f == "" && cur == loads {
						f = deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field).Name()
					}
					rec(in, d+1, cur, f)
				}
			case *ssa.IndexAddr:
				if in.X == v {
					rec(in, d+1, cur, field)
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					switch in.Type().Underlying().(type) {
					case *types.Slice, *types.Pointer, *types.Map:
						rec(in, d+1, cur+1, "")
					}
				}
			case *ssa.MapUpdate:
				if in.Map == v && cur == loads {
					out[field] = true
				}
			case *ssa.MakeClosure:
				for i, b := range in.Bindings {
					if b == v {
						rec(in.Fn.(*ssa.Function).FreeVars[i], d+1, cur, field)
					}
				}
			}
		}
	}
	rec(v, 0, 0, "")
	return out
}

func (r *p09) hooks() Hooks {
	c := r.c
	inl := pkgInline(c)
	return Hooks{
		Inline:  inl,
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
		Go: func(s *Sim, st *State, ev *CallEv) bool {
			mark := func(t *Term, v ssa.Value) {
				rt := rootOf(t)
				if rt.op != OpAlloc {
					return
				}
				put := func(t *Term, fs map[string]bool) {
					for f := range fs {
						st.marks[fmt.Sprintf("G:%d:%s", t.id, f)] = Mark{S: f + "@" + c.P.InstrPos(ev.Site), T: t}
						c.Ob("join", c.P.FnName(outer(ev.Site.Parent()))+" "+v.Name()+"."+f, c.P.InstrPos(ev.Site))
					}
				}
				if x := st.cells[t]; x != nil && x.op == OpAlloc {
					put(x, writtenVia(v, 1))
				}
				put(t, writtenVia(v, 0))
			}
			if ev.Callee != nil {
				for i, pa := range ev.Callee.Params {
					if i < len(ev.Args) {
						mark(ev.Args[i], pa)
					}
				}
				if ev.Fun != nil && ev.Fun.op == OpClosure {
					for i, fv := range ev.Callee.FreeVars {
						if i < len(ev.Fun.args) {
							mark(ev.Fun.args[i], fv)
						}
					}
				}
			}
			for _, a := range ev.Args {
				r.escape(st, a)
			}
			if ev.Fun != nil {
				r.escape(st, ev.Fun)
			}
			for k := range st.marks {
				if strings.HasPrefix(k, "J:") {
					delete(st.marks, k)
				}
			}
			return false
		},
		Recv: func(s *Sim, st *State, in ssa.Instruction, ch *Term) { clearMarks(st, "G:") },
		Instr: func(s *Sim, st *State, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Alloc: // a new object; what is known is about the one of the previous iteration
				t := s.T.intern(&Term{op: OpAlloc, ctx: st.top().ctx, instr: in, typ: in.Type(), aux: in.Comment})
				delete(st.marks, fmt.Sprintf("E:%d", t.id))
				for k, m := range st.marks {
					if strings.HasPrefix(k, "G:") && m.T != nil && rootOf(m.T) == t {
						delete(st.marks, k)
						if f := strings.Split(m.S, "@")[0]; f != "" { // earlier objects of this type are still being written
							st.marks["G:"+typeStr(deref(m.T.typ))+"."+f] = Mark{S: m.S}
						}
					}
				}
			case *ssa.Lookup:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					r.record(s, st, in, r.origin(st, s.V(st, in.X)), false, false)
				}
			case *ssa.Next:
				if rg, ok := in.Iter.(*ssa.Range); ok && !in.IsString {
					r.record(s, st, in, r.origin(st, s.V(st, rg.X)), false, false)
				}
			case *ssa.UnOp:
				if in.Op == token.MUL && hasLock(in.Type(), 0) {
					key := c.P.FnName(outer(in.Parent())) + " copies " + r.short(typeStr(in.Type()))
					if a, ok := in.X.(*ssa.Alloc); !ok || a.Heap {
						c.Bad("lock-copy", key, c.P.InstrPos(in), "a value containing a lock is copied; the copy's lock protects nothing", s.Path(st))
					}
				}
			}
		},
		Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
			r.join(s, st, in, addr)
			r.record(s, st, in, r.locate(st, addr), false, false)
			if addr.op == OpLoad {
				r.record(s, st, in, r.origin(st, addr), false, false, true)
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			r.join(s, st, in, addr)
			r.record(s, st, in, r.locate(st, addr), true, false)
			if addr.op == OpLoad {
				r.record(s, st, in, r.origin(st, addr), true, false, true)
			}
			rt := rootOf(addr)
			if rt.op != OpAlloc || r.escaped(st, rt) {
				r.escape(st, val)
			}
		},
		MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
			r.record(s, st, in, r.origin(st, m), true, false)
			r.escape(st, v)
		},
		Send: func(s *Sim, st *State, in ssa.Instruction, ch, v *Term) { r.escape(st, v) },
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			g := goID(st)
			if op, ok := lockOps[ev.Name]; ok && len(ev.Args) > 0 {
				L := ev.Args[0]
				k := fmt.Sprintf("L:%d:%d", g, L.id)
				if op == "w" || op == "r" {
					st.marks[k] = Mark{S: op, T: L}
				} else {
					delete(st.marks, k)
				}
				return
			}
			switch {
			case ev.Name == "(*sync.Once).Do":
				st.marks[fmt.Sprintf("O:%d", ev.Args[0].id)] = Mark{S: "o", T: ev.Args[0]}
			case ev.Name == "(*sync.WaitGroup).Wait":
				clearMarks(st, "G:")
				if w := ev.Args[0]; w.op == OpFieldAddr {
					st.marks[fmt.Sprintf("J:%d", w.args[0].id)] = Mark{S: "j", T: w.args[0]}
				} else if w.op == OpLoad && w.args[0].op == OpFieldAddr {
					st.marks[fmt.Sprintf("J:%d", w.args[0].args[0].id)] = Mark{S: "j", T: w.args[0].args[0]}
				}
			case strings.HasPrefix(ev.Name, "sync/atomic.") && len(ev.Args) > 0:
				a := ev.Args[0]
				r.record(s, st, ev.Site, r.locate(st, a), !strings.HasPrefix(ev.Name, "sync/atomic.Load"), true)
				if a.op == OpLoad {
					r.record(s, st, ev.Site, r.origin(st, a), true, true, true)
				}
			case ev.Name == "delete":
				r.record(s, st, ev.Site, r.origin(st, ev.Args[0]), true, false)
			case ev.Name == "copy":
				r.record(s, st, ev.Site, r.origin(st, ev.Args[0]), true, false)
				r.record(s, st, ev.Site, r.origin(st, ev.Args[1]), false, false)
			case ev.Kind == kGo || ev.Name == "len" || ev.Name == "cap" || ev.Name == "append":
			default:
				if ev.Callee != nil && inl(s, st, ev) {
					return
				}
				for i, a := range ev.Args {
					if a.typ == nil && a.op != OpSlice {
						continue
					}
					t := a.typ
					if t == nil {
						continue
					}
					switch u := t.Underlying().(type) {
					case *types.Slice, *types.Map:
						_ = u
						fills := ev.Name == "" || ev.Name == "io.ReadFull" || strings.HasSuffix(ev.Name, ").Read") || strings.HasSuffix(ev.Name, ").ReadAt")
						r.record(s, st, ev.Site, r.origin(st, a), fills, false)
					case *types.Pointer:
						if n := namedOf(t); i == 0 && n != nil && n.Obj().Pkg() != nil && unsafeContainers[n.Obj().Pkg().Name()+"."+n.Obj().Name()] && ev.Common.Signature().Recv() != nil {
							r.record(s, st, ev.Site, r.origin(st, a), true, false)
							for _, x := range ev.Args[1:] {
								r.escape(st, x)
							}
						}
					}
				}
			}
		},
	}
}

func clearMarks(st *State, pre string) {
	for k := range st.marks {
		if strings.HasPrefix(k, pre) {
			delete(st.marks, k)
		}
	}
}

func (r *p09) join(s *Sim, st *State, in ssa.Instruction, addr *Term) {
	for k, m := range st.marks {
		if !strings.HasPrefix(k, "G:") || len(heldLocks(st, goID(st))) > 0 {
			continue
		}
		pp := strings.Split(m.S, "@")
		if m.T != nil && underAddr(addr, m.T) {
			if pp[0] != "" && addr != m.T {
				x := addr
				for x.args[0] != m.T {
					x = x.args[0]
				}
				if x.op == OpFieldAddr && x.aux != pp[0] {
					continue
				}
			}
		} else if pp[0] == "" || addr.op != OpFieldAddr || addr.args[0].op == OpAlloc || addr.aux != pp[0] ||
			!(m.T != nil && types.Identical(deref(m.T.typ), deref(addr.args[0].typ)) || m.T == nil && k == "G:"+typeStr(deref(addr.args[0].typ))+"."+pp[0]) {
			continue
		}
		r.c.Bad("join", r.c.P.FnName(outer(in.Parent()))+" "+addr.aux, r.c.P.InstrPos(in), "a variable written by the goroutine started at "+pp[1]+" is accessed before waiting for it", s.Path(st))
	}
}

func hasLock(t types.Type, d int) bool {
	if d > 4 {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		if p == "sync" {
			switch n.Obj().Name() {
			case "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "Map":
				return true
			}
			return false
		}
		if p == "golang.org/x/sync/semaphore" && n.Obj().Name() == "Weighted" {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasLock(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return hasLock(u.Elem(), d+1)
	}
	return false
}

// entry: may be called from outside the package (or through an interface), with no lock held.
func (p *Prog) entry(fn *ssa.Function) bool {
	if !p.IsTop(fn) {
		return false
	}
	if p.onceMethod(fn) {
		return false
	}
	if rcv := fn.Signature.Recv(); rcv != nil && len(p.callers[fn]) > 0 && !p.addrOf[fn] {
		if n := namedOf(rcv.Type()); n != nil && !n.Obj().Exported() {
			return p.viaInterface(fn)
		}
	}
	return true
}

// onceMethod: an unexported method used only as the function of a once.
func (p *Prog) onceMethod(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || fn.Object() == nil || fn.Object().Exported() || len(p.callers[fn]) > 0 || p.addrOf[fn] {
		return false
	}
	found := false
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn.(*ssa.Function).Object() != fn.Object() {
					continue
				}
				found = true
				for _, u := range derefs(mc) {
					if c, ok := u.(*ssa.Call); !ok || p.calleeName(&c.Call) != "(*sync.Once).Do" {
						return false
					}
				}
			}
		}
	}
	return found
}

// viaInterface: the method may be called through an interface the type is converted to.
func (p *Prog) viaInterface(fn *ssa.Function) bool {
	n := namedOf(fn.Signature.Recv().Type())
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && namedOf(mi.X.Type()) == n {
					it, ok := mi.Type().Underlying().(*types.Interface)
					if !ok {
						continue
					}
					for i := 0; i < it.NumMethods(); i++ {
						if it.Method(i).Name() == fn.Name() {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// Guards confirmed by reading the code, for state whose lock lives in another object or among several locks.
// field -> lock class (struct type and field of the mutex)
var confirmedGuards = map[string]string{
	"pkg/isofuse.isoFS.finfos":         "pkg/isofuse.isoFS.finfosMU",
	"pkg/isofuse.finfosEntry.RefCnt":   "pkg/isofuse.isoFS.finfosMU",
	"pkg/isofuse.isoFS.fileHandles":    "pkg/isofuse.isoFS.fileHandlesMU",
	"pkg/isofuse.isoFS.nextFileHandle": "pkg/isofuse.isoFS.fileHandlesMU",
	"pkg/storage/ram.inode.File":       "pkg/storage/ram.Driver.mu",
	"pkg/storage/driver.drivers":       "pkg/storage/driver.driversMu",
}

// Fields confirmed to be shared through atomic operations alone ("*": what the pointer field points to).
var confirmedAtomic = map[string]bool{
	"pkg/countio.Reader.pn*": true, "pkg/countio.Writer.pn*": true, "pkg/countio.CountingReaderAtSeeker.pn*": true,
	"pkg/httputil.hostRoundRobinTransport.reqnum": true, "pkg/storage/s3.objectWriter.state": true, "pkg/storage/ram.writer.state": true,
}

func checkP09(c *Check) {
	c.Rule("guarded", "every access to state that is written after its object became shared happens with its lock held (exclusively for writes), or after the once that sets it", 20)
	c.Rule("atomic", "a field accessed atomically is never accessed plainly once shared", 3)
	c.Rule("lock-copy", "no value containing a lock is copied", 5)
	c.Rule("join", "variables written by a goroutine are not accessed by its starter before it waited for the goroutine", 1)
	r := &p09{c: c, acc: map[string][]*access{}, seen: map[string]bool{}, muts: map[string][]string{}}
	for _, n := range c.P.named {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isMutexType(st.Field(i).Type()) {
					r.muts[r.short(n.String())] = append(r.muts[r.short(n.String())], st.Field(i).Name())
				}
			}
			if hasLock(n, 0) {
				c.Ob("lock-copy", r.short(n.String()), c.P.Pos(n.Obj().Pos()))
			}
		}
	}
	for _, fn := range c.P.Funcs {
		for _, pa := range fn.Params {
			if hasLock(pa.Type(), 0) {
				c.Bad("lock-copy", c.P.FnName(fn)+" receives a copy of "+r.short(typeStr(pa.Type())), c.P.Pos(fn.Pos()), "a value containing a lock is passed by value; the copy's lock protects nothing", nil)
			}
		}
	}
	stored, gos := c.P.storedClosures(), c.P.goTargets()
	s := c.Sim(r.hooks())
	s.Depth = 8
	for _, fn := range c.P.Funcs {
		if c.P.entry(fn) && !(gos[fn] && false) || stored[fn] || gos[fn] {
			if fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			if !sharesState(c.P, fn) {
				continue
			}
			c.Run(s, fn, nil)
		}
	}
	c.RunRest(s, func(fn *ssa.Function) bool { return sharesState(c.P, fn) })
	if os.Getenv("SA_DUMP") != "" {
		for f := range r.acc {
			fmt.Println("field", f)
		}
	}
	r.judge(gos)
}

// sharesState: is the function in a package that uses locks, atomics, onces or goroutines at all?
func sharesState(p *Prog, fn *ssa.Function) bool {
	if p.syncPkgs == nil {
		p.syncPkgs = map[string]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						n := p.calleeName(c.Common())
						if _, g := in.(*ssa.Go); g || strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "sync/atomic") {
							p.syncPkgs[p.Rel(f)] = true
						}
					}
				}
			}
		}
	}
	return p.syncPkgs[p.Rel(fn)]
}

func (r *p09) judge(gos map[*ssa.Function]bool) {
	c := r.c
	var fields []string
	for f := range r.acc {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	for _, f := range fields {
		as := r.acc[f]
		owner := as[0].owner
		atomicF := confirmedAtomic[f]
		var shared []*access
		once := ""
		writes := false
		for _, a := range as {
			if a.atomic {
				atomicF = true
			}
			if a.inOnce != "" && a.write {
				once = a.inOnce
			}
			if !a.exempt {
				shared = append(shared, a)
				if a.write && !a.atomic {
					writes = true
				}
			}
		}
		if atomicF {
			c.Ob("atomic", f, as[0].pos)
			for _, a := range shared {
				if !a.atomic {
					c.Bad("atomic", f+" in "+a.fn, a.pos, "the field "+f+" is accessed atomically elsewhere but plainly here", a.path)
				}
			}
			continue
		}
		if !writes {
			continue
		}
		if once != "" {
			c.Ob("guarded", f+" set once by "+once, as[0].pos)
			for _, a := range shared {
				if a.inOnce != once && !a.once[once] {
					c.Bad("guarded", f+" in "+a.fn, a.pos, f+" is set inside "+once+" but accessed here without having passed it", a.path)
				}
			}
			continue
		}
		lock, sameInst := "", false
		if g, ok := confirmedGuards[f]; ok {
			lock = g
			sameInst = owner != "" && strings.HasPrefix(g, owner+".")
		} else if ms := r.muts[owner]; owner != "" && len(ms) == 1 {
			lock, sameInst = owner+"."+ms[0], true
			if r.confined(shared, gos) {
				continue
			}
		} else {
			// the lock held most often
			cnt := map[string]int{}
			for _, a := range shared {
				for l := range a.class {
					cnt[l]++
				}
			}
			best := 0
			for l, n := range cnt {
				if n > best || n == best && l < lock {
					lock, best = l, n
				}
			}
			if best*2 < len(shared) || best < 2 && owner != "" {
				continue
			}
			sameInst = owner != "" && strings.HasPrefix(lock, owner+".")
		}
		c.Ob("guarded", f+" by "+lock, as[0].pos)
		for _, a := range shared {
			var mode string
			if sameInst {
				mode = a.same[strings.TrimPrefix(lock, owner+".")]
			} else {
				mode = a.class[lock]
			}
			what := "read"
			if a.write {
				what = "written"
			}
			if mode == "" {
				c.Bad("guarded", f+" in "+a.fn, a.pos, f+" is "+what+" without holding "+lock, a.path)
			} else if a.write && mode == "r" {
				c.Bad("guarded", f+" in "+a.fn, a.pos, f+" is written while "+lock+" is only held for reading", a.path)
			}
		}
	}
}

// confined: all accesses to the field of shared objects are made by one goroutine started once per object.
func (r *p09) confined(as []*access, gos map[*ssa.Function]bool) bool {
	for _, a := range as {
		if len(a.class) > 0 || !gos[a.root] || a.root != as[0].root {
			return false
		}
	}
	n := 0
	for _, fn := range r.c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if g.Call.StaticCallee() == as[0].root {
						if inCycle(b) {
							return false
						}
						n++
					}
				}
			}
		}
	}
	return n == 1
}

func init() { checks["P09"] = checkP09 }
