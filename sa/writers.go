package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P04, P05, P06: object writers.

// succeeds: the state's path may return a nil error.
func (s *Sim) succeeds(st *State, in *ssa.Return, res []*Term) bool {
	n := len(res)
	if n == 0 || !isErrorType(in.Parent().Signature.Results().At(n-1).Type()) {
		return true
	}
	return s.Eval(st, s.T.IsNil(res[n-1])) != 0
}

// fork splits the state on the call's error; the given state continues as the success case.
func (s *Sim) fork(st *State, ev *CallEv, onErr func(o *State)) []*State {
	E := s.ErrRes(ev)
	if E == nil {
		return nil
	}
	var out []*State
	o := st.clone()
	if s.Assume(o, s.T.IsNil(E), false) {
		if onErr != nil {
			onErr(o)
		}
		out = append(out, o)
	}
	if !s.Assume(st, s.T.IsNil(E), true) {
		st.dead = true
	}
	return out
}

func base(name string) string {
	if i := strings.LastIndexAny(name, "./"); i >= 0 {
		return name[i+1:]
	}
	return name
}

// ---- P04 ----

// wrappers around a writer: what has to be called before the data is in the writer below
var bufWrap = map[string]string{
	"bufio.NewWriter": "Flush", "bufio.NewWriterSize": "Flush",
	"compress/gzip.NewWriter": "Close", "compress/gzip.NewWriterLevel": "Close",
	"compress/flate.NewWriter": "Close", "compress/zlib.NewWriter": "Close", "compress/zlib.NewWriterLevel": "Close",
}

func checkP04(c *Check) {
	c.Rule("flushed", "a writer is committed only after everything layered on it was flushed or closed successfully after its last use", 1)
	c.Rule("written", "a writer is committed only after something was written and no write to it failed", 1)
	c.Rule("index-last", "the index is committed after the image metadata was committed successfully, and success needs both", 1)
	c.Rule("location", "the location a burn returns is the one the commit of the index reported", 1)
	bi := c.P.Iface("pkg/vdisc", "Builder")
	if bi == nil {
		c.Bad("undecided", "Builder", "?", "the builder interface was not found", nil)
		return
	}
	owi := c.P.Iface("pkg/storage/driver", "ObjectWriter")
	for _, n := range c.P.Implementers(bi) {
		m := c.P.Method(n, "Build")
		if m == nil || !c.P.IsModule(m) || strings.HasSuffix(c.P.Rel(m), "/mock") {
			continue
		}
		key := c.P.FnName(m)
		isW := func(t types.Type) bool { return types.Implements(t, owi) }
		get := func(st *State, pre string, t *Term) (string, Mark, bool) {
			k := fmt.Sprintf("%s:%d", pre, t.id)
			mk, ok := st.marks[k]
			return k, mk, ok
		}
		// chain: the object writer below t, and the wrappers in between
		var chain func(st *State, t *Term, d int) (*Term, []string)
		chain = func(st *State, t *Term, d int) (*Term, []string) {
			t = strip(t)
			if _, _, ok := get(st, "W", t); ok {
				return t, nil
			}
			if k, mk, ok := get(st, "L", t); ok && d < 6 {
				w, ls := chain(st, mk.T, d+1)
				return w, append(ls, k)
			}
			return nil, nil
		}
		ord := func(st *State) int {
			n := 0
			for k := range st.marks {
				if strings.HasPrefix(k, "committed:") {
					n++
				}
			}
			return n
		}
		inl := pkgInline(c)
		s := c.Sim(Hooks{
			Inline: func(s *Sim, st *State, ev *CallEv) bool {
				if !inl(s, st, ev) {
					return false
				}
				for _, a := range ev.Args {
					if w, _ := chain(st, a, 0); w != nil {
						return true
					}
				}
				return touches(c.P, ev.Callee, func(cc *ssa.CallCommon) bool {
					nm := c.P.calleeName(cc)
					return bufWrap[nm] != "" || strings.HasSuffix(nm, ").Commit") || strings.HasPrefix(base(nm), "Create") || strings.HasSuffix(nm, ".WriteMetadataTo")
				})
			},
			Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if !strings.HasSuffix(ev.Name, ").Commit") || len(ev.Args) == 0 {
					return
				}
				w := strip(ev.Args[0])
				if _, _, ok := get(st, "W", w); !ok {
					return
				}
				pos := c.P.InstrPos(ev.Site)
				c.Ob("flushed", key+" "+st.marks[fmt.Sprintf("W:%d", w.id)].S, pos)
				c.Ob("written", key+" "+st.marks[fmt.Sprintf("W:%d", w.id)].S, pos)
				for k, mk := range st.marks {
					if strings.HasPrefix(k, "L:") {
						if x, _ := chain(st, mk.T, 0); x == w && strings.HasPrefix(mk.S, "dirty") {
							c.Bad("flushed", key+" "+mk.S, pos, "the object is committed while a layer above it ("+mk.S[6:]+") was not "+map[string]string{"Flush": "flushed", "Close": "closed"}[strings.Split(mk.S, " ")[1]]+" successfully after its last use", s.Path(st))
						}
					}
				}
				if _, mk, ok := get(st, "X", w); !ok {
					c.Bad("written", key, pos, "the object is committed before anything was written to it", s.Path(st))
				} else if mk.S == "failed" {
					c.Bad("written", key, pos, "the object is committed although a write to it failed", s.Path(st))
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if ev.Inlined || ev.Result == nil && len(ev.Args) == 0 {
					return nil
				}
				rs := ev.Common.Signature().Results()
				nm := base(ev.Name)
				if rs.Len() > 0 && isW(rs.At(0).Type()) && strings.HasPrefix(nm, "Create") {
					out := s.fork(st, ev, nil)
					w := strip(s.Res(ev, 0))
					s.Assume(st, s.T.IsNil(w), false)
					st.marks[fmt.Sprintf("W:%d", w.id)] = Mark{S: c.P.FnName(outer(ev.Site.Parent())) + "#" + fmt.Sprint(countPre(st, "W:")), T: w}
					return out
				}
				if fin := bufWrap[ev.Name]; fin != "" && len(ev.Args) > 0 {
					if w, _ := chain(st, ev.Args[0], 0); w != nil {
						out := s.fork(st, ev, nil)
						l := strip(s.Res(ev, 0))
						// a fresh gzip or zlib stream has a trailer to write even when unused
						state := "clean"
						if fin == "Close" {
							state = "dirty"
						}
						st.marks[fmt.Sprintf("L:%d", l.id)] = Mark{S: state + " " + fin + " " + ev.Name, T: strip(ev.Args[0])}
						return out
					}
				}
				if strings.HasSuffix(ev.Name, ").Commit") && len(ev.Args) > 0 {
					if k, _, ok := get(st, "W", strip(ev.Args[0])); ok {
						out := s.fork(st, ev, func(o *State) { o.marks["cfail"] = Mark{S: k} })
						w := strip(ev.Args[0])
						n := ord(st)
						st.marks[fmt.Sprintf("committed:%d", w.id)] = Mark{S: fmt.Sprint(n), T: strip(s.Res(ev, 0))}
						return out
					}
				}
				var out []*State
				for _, a := range ev.Args {
					w, ls := chain(st, a, 0)
					if w == nil {
						continue
					}
					x := strip(a)
					if lk, mk, ok := get(st, "L", x); ok && a == ev.Args[0] {
						p := strings.SplitN(mk.S, " ", 3)
						if strings.HasSuffix(ev.Name, ")."+p[1]) {
							out = append(out, s.fork(st, ev, nil)...)
							st.marks[lk] = Mark{S: "clean " + p[1] + " " + p[2], T: mk.T}
							// what was flushed lands in the layer below
							if bk, bm, ok := get(st, "L", strip(mk.T)); ok {
								q := strings.SplitN(bm.S, " ", 2)
								st.marks[bk] = Mark{S: "dirty " + q[1], T: bm.T}
							}
							continue
						}
					}
					if strings.HasSuffix(ev.Name, ").Abort") {
						continue
					}
					if rs.Len() > 0 && !isErrorType(rs.At(0).Type()) && isPtrLike(rs.At(0).Type()) {
						// another wrapper (encoder, multi writer): uses of it are uses of this one
						st.marks[fmt.Sprintf("L:%d", strip(s.Res(ev, 0)).id)] = Mark{S: "clean - " + ev.Name, T: x}
						continue
					}
					for _, lk := range ls {
						mk := st.marks[lk]
						p := strings.SplitN(mk.S, " ", 3)
						if p[1] != "-" {
							st.marks[lk] = Mark{S: "dirty " + p[1] + " " + p[2], T: mk.T}
						}
					}
					wk := fmt.Sprintf("X:%d", w.id)
					kind := "data"
					if strings.HasSuffix(ev.Name, ".WriteMetadataTo") {
						kind = "meta"
					}
					old := st.marks[wk].S
					out = append(out, s.fork(st, ev, func(o *State) { o.marks[wk] = Mark{S: "failed"} })...)
					if old != "failed" && old != "meta" {
						st.marks[wk] = Mark{S: kind}
					}
				}
				return out
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if !s.succeeds(st, in, res) {
					return
				}
				pos := c.P.InstrPos(in)
				c.Ob("index-last", key, pos)
				c.Ob("location", key, pos)
				last, lastN, meta := (*Term)(nil), -1, (*Term)(nil)
				nW := 0
				for k, mk := range st.marks {
					if !strings.HasPrefix(k, "W:") {
						continue
					}
					nW++
					cm, ok := st.marks[fmt.Sprintf("committed:%d", mk.T.id)]
					if !ok {
						c.Bad("index-last", key, pos, "the burn reports success although an object it created was not committed", s.Path(st))
						return
					}
					n := 0
					fmt.Sscan(cm.S, &n)
					if n > lastN {
						last, lastN = mk.T, n
					}
					if st.marks[fmt.Sprintf("X:%d", mk.T.id)].S == "meta" {
						meta = mk.T
					}
				}
				if nW < 2 {
					c.Bad("index-last", key, pos, "the burn reports success without having created both the image metadata and the index", s.Path(st))
					return
				}
				if meta == nil {
					c.Bad("index-last", key, pos, "the burn reports success without having written the image metadata", s.Path(st))
					return
				}
				if meta == last {
					c.Bad("index-last", key, pos, "the image metadata is committed after the index", s.Path(st))
				}
				ci := st.marks[fmt.Sprintf("committed:%d", last.id)].T
				if len(res) > 0 && !(strings.HasSuffix(res[0].aux, ").ObjectURL") && len(res[0].args) > 0 && strip(res[0].args[0]) == ci) {
					c.Bad("location", key, pos, "the location returned is not the one reported by the commit of the index ("+res[0].String()+")", s.Path(st))
				}
			},
		})
		s.Depth = 4
		c.Run(s, m, nil)
	}
}

// touches: fn, its closures, or what it calls in its package contain a call satisfying f.
func touches(p *Prog, fn *ssa.Function, f func(*ssa.CallCommon) bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function) bool
	rec = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f(ci.Common()) {
						return true
					}
					if sc := ci.Common().StaticCallee(); sc != nil && p.IsModule(sc) && p.Rel(sc) == p.Rel(fn) && rec(sc) {
						return true
					}
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && g.Parent() != nil && rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

func countPre(st *State, pre string) int {
	n := 0
	for k := range st.marks {
		if strings.HasPrefix(k, pre) {
			n++
		}
	}
	return n
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// ---- P05 ----

// calls that create, change or remove the file system entry named by an argument
var fsMutators = map[string]bool{
	"os.Create": true, "os.OpenFile": true, "os.Remove": true, "os.RemoveAll": true, "os.Rename": true, "os.Truncate": true,
	"os.Link": true, "os.Symlink": true, "os.WriteFile": true, "io/ioutil.WriteFile": true, "os.Chmod": true, "os.Mkdir": true, "os.MkdirAll": true,
	"os.Chtimes": true, "syscall.Unlink": true, "syscall.Rename": true, "syscall.Open": true, "golang.org/x/sys/unix.Rename": true,
	"golang.org/x/sys/unix.Unlink": true, "golang.org/x/sys/unix.Open": true, "golang.org/x/sys/unix.Setxattr": true, "os.CreateTemp": true, "io/ioutil.TempFile": true,
}

func checkP05(c *Check) {
	c.Rule("rename", "a commit makes the object visible by renaming the synced temporary file, and only then reports success", 1)
	c.Rule("temp", "the temporary file is created in the directory of the final name", 1)
	c.Rule("final-name", "no other operation of the writer or its creation touches the final name", 2)
	c.Rule("abort", "an abort removes the temporary file", 1)
	c.Rule("commit-info", "a commit reports the final name", 1)
	owi := c.P.Iface("pkg/storage/driver", "ObjectWriter")
	found := false
	for _, n := range c.P.Implementers(owi) {
		cm := c.P.Method(n, "Commit")
		if cm == nil || !c.P.IsModule(cm) || c.P.Rel(cm) != "pkg/storage/file" {
			continue
		}
		found = true
		(&p05{c: c, n: n, key: c.P.FnName(cm)}).check(cm)
	}
	if !found {
		c.Bad("undecided", "file writer", "?", "the writer of the file driver was not found", nil)
	}
}

type p05 struct {
	c         *Check
	n         *types.Named
	key       string
	pathField string
	tempField string // field holding the file
	nameField string // field holding the temporary name, if any
}

// recvField: t is the value of a field of the receiver.
func recvField(t, recv *Term) string {
	if t.op == OpLoad && t.args[0].op == OpFieldAddr && t.args[0].args[0] == recv {
		return t.args[0].aux
	}
	return ""
}

// partOf: fn is an unexported function whose every call is made on behalf of
// root, which is analysed with the calls followed.
func (p *Prog) partOf(fn, root *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool {
		if f == root || seen[f] {
			return true
		}
		seen[f] = true
		if p.addrOf[f] || token.IsExported(f.Name()) || len(p.callers[f]) == 0 {
			return false
		}
		for _, site := range p.callers[f] {
			if !up(site.Parent()) {
				return false
			}
		}
		return true
	}
	return up(fn)
}

func fileName(t *Term) *Term {
	if (t.op == OpPure || t.op == OpOpaque) && t.aux == "(*os.File).Name" {
		return t.args[0]
	}
	return nil
}

func (p *p05) check(cm *ssa.Function) {
	c := p.c
	var recv *Term
	init := func(st *State, params, _ []*Term) { recv = params[0] }
	renamed := false
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			pos := c.P.InstrPos(ev.Site)
			if strings.HasSuffix(ev.Name, ".Rename") && len(ev.Args) >= 2 {
				renamed = true
				c.Ob("rename", p.key, pos)
				dst := recvField(ev.Args[1], recv)
				if dst == "" {
					c.Bad("rename", p.key, pos, "the object is renamed to something other than the name it was created for: "+ev.Args[1].String(), s.Path(st))
				}
				p.pathField = dst
				src := ev.Args[0]
				if f := fileName(src); f != nil {
					p.tempField = recvField(f, recv)
				} else {
					p.nameField = recvField(src, recv)
				}
				if p.tempField == "" && p.nameField == "" {
					c.Bad("rename", p.key, pos, "what is renamed is not the temporary file: "+src.String(), s.Path(st))
				}
				if st.marks["synced"].S != "1" {
					c.Bad("rename", p.key, pos, "the temporary file is renamed without having been synced successfully after the last write", s.Path(st))
				}
				return
			}
			if fsMutators[ev.Name] {
				for _, a := range ev.Args {
					if f := recvField(a, recv); f != "" && f == p.pathField {
						c.Bad("final-name", p.key, pos, ev.Name+" is applied to the final name", s.Path(st))
					}
				}
			}
			if strings.HasPrefix(ev.Name, "(*os.File).Write") || strings.HasPrefix(ev.Name, "(*os.File).Truncate") || ev.Name == "io.Copy" {
				delete(st.marks, "synced")
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			switch {
			case ev.Name == "(*os.File).Sync" || strings.HasSuffix(ev.Name, ".Fsync") || strings.HasSuffix(ev.Name, ".Fdatasync"):
				out := s.fork(st, ev, nil)
				st.marks["synced"] = Mark{S: "1"}
				return out
			case strings.HasSuffix(ev.Name, ".Rename"):
				out := s.fork(st, ev, nil)
				st.marks["renamed"] = Mark{S: "1"}
				return out
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			pos := c.P.InstrPos(in)
			if st.marks["renamed"].S != "1" {
				c.Bad("rename", p.key, pos, "the commit reports success although the temporary file was not renamed successfully", s.Path(st))
			}
			c.Ob("commit-info", p.key, pos)
			if p.pathField != "" && !res[0].any(func(t *Term) bool { return recvField(t, recv) == p.pathField }) && !holdsField(st, res[0], recv, p.pathField) {
				c.Bad("commit-info", p.key, pos, "the commit does not report the final name: "+res[0].String(), s.Path(st))
			}
		},
	})
	c.Run(s, cm, init)
	c.Run(s, cm, init) // again, with the final name known
	if !renamed {
		c.Bad("rename", p.key, c.P.Pos(cm.Pos()), "the commit never renames the temporary file", nil)
		return
	}
	// the other methods
	for i := 0; i < p.n.NumMethods(); i++ {
		m := c.P.SSA.FuncValue(p.n.Method(i))
		if m == nil || m == cm || len(m.Blocks) == 0 || c.P.partOf(m, cm) {
			continue
		}
		key := c.P.FnName(m)
		c.Ob("final-name", key, c.P.Pos(m.Pos()))
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if fsMutators[ev.Name] {
					for _, a := range ev.Args {
						if a.any(func(t *Term) bool { return recvField(t, recv) == p.pathField }) {
							c.Bad("final-name", key, c.P.InstrPos(ev.Site), ev.Name+" is applied to the final name before a commit", s.Path(st))
						}
					}
					if strings.HasSuffix(ev.Name, "os.Remove") {
						if f := fileName(ev.Args[0]); f != nil && recvField(f, recv) == p.tempField || p.nameField != "" && recvField(ev.Args[0], recv) == p.nameField {
							st.marks["removed"] = Mark{S: "1"}
						}
					}
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if m.Name() != "Abort" {
					return
				}
				c.Ob("abort", key, c.P.InstrPos(in))
				if st.marks["removed"].S != "1" {
					c.Bad("abort", key, c.P.InstrPos(in), "an abort returns without removing the temporary file", s.Path(st))
				}
			},
		})
		c.Run(s, m, init)
	}
	// creation
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != c.P.Rel(cm) || !c.P.IsTop(fn) || !makes(c.P, fn, p.n, map[*ssa.Function]bool{}) {
			continue
		}
		key := c.P.FnName(fn)
		type use struct {
			name string
			args []*Term
			pos  string
		}
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if fsMutators[ev.Name] {
					st.marks[fmt.Sprintf("U:%s", c.P.InstrPos(ev.Site))] = Mark{S: ev.Name, T: s.T.intern(&Term{op: OpTuple, args: ev.Args})}
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				w := strip(res[0])
				if w.op != OpAlloc || namedOf(w.typ) != p.n {
					return
				}
				pos := c.P.InstrPos(in)
				cell := func(f string) *Term {
					for a, v := range st.cells {
						if a.op == OpFieldAddr && a.args[0] == w && a.aux == f {
							return strip(v)
						}
					}
					return nil
				}
				c.Ob("temp", key, pos)
				c.Ob("final-name", key, pos)
				pth, tmp := cell(p.pathField), cell(p.tempField)
				if p.tempField == "" && p.nameField != "" {
					if nm := cell(p.nameField); nm != nil {
						tmp = fileName(nm)
					}
				}
				if pth == nil || tmp == nil {
					c.Bad("temp", key, pos, "the new writer has no final name or no temporary file", s.Path(st))
					return
				}
				for tmp.op == OpExtract {
					tmp = tmp.args[0]
				}
				if tmp.aux != "io/ioutil.TempFile" && tmp.aux != "os.CreateTemp" {
					c.Bad("temp", key, pos, "the data goes to a file that is not a new temporary file ("+tmp.aux+")", s.Path(st))
				} else if d := tmp.args[0]; !((d.aux == "path/filepath.Dir" || d.aux == "path.Dir") && d.args[0] == pth) {
					c.Bad("temp", key, pos, "the temporary file is not created in the directory of the final name but in "+d.String(), s.Path(st))
				}
				var ks []string
				for k := range st.marks {
					if strings.HasPrefix(k, "U:") {
						ks = append(ks, k)
					}
				}
				sort.Strings(ks)
				for _, k := range ks {
					for _, a := range st.marks[k].T.args {
						if a == pth || a.has(pth) && a.aux != "path/filepath.Dir" && a.aux != "path.Dir" && a.aux != "path/filepath.Base" && a.aux != "path.Base" {
							c.Bad("final-name", key, k[2:], st.marks[k].S+" is applied to the final name when the writer is created", s.Path(st))
						}
					}
				}
			},
		})
		c.Run(s, fn, nil)
	}
}

func holdsField(st *State, v, recv *Term, field string) bool {
	v = strip(v)
	if v.op == OpAlloc {
		for a, x := range st.cells {
			if rootOf(a) == v && x.any(func(t *Term) bool { return recvField(t, recv) == field }) {
				return true
			}
		}
	}
	return false
}

// makes: fn (or what it calls in its package) creates a value of type n.
func makes(p *Prog, fn *ssa.Function, n *types.Named, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && namedOf(a.Type()) == n {
				return true
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if sc := ci.Common().StaticCallee(); sc != nil && p.IsModule(sc) && p.Rel(sc) == p.Rel(fn) && makes(p, sc, n, seen) {
					return true
				}
			}
		}
	}
	return false
}

func init() { checks["P04"] = checkP04; checks["P05"] = checkP05 }
