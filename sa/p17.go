package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P17: settings carried by contexts.

func isCtxType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "Context"
}

// ctxParam: index of the context parameter, or -1.
func ctxParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if isCtxType(p.Type()) {
			return i
		}
	}
	return -1
}

type ctxUse struct {
	fn  *ssa.Function
	in  ssa.CallInstruction
	key string
	typ types.Type // type stored, or asserted
}

// ctxKeyOf: identity of a key operand (its type and constant value, or its package variable).
func ctxKeyOf(v ssa.Value) (string, bool) {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return "", false
	}
	n, ok := types.Unalias(mi.X.Type()).(*types.Named)
	if !ok {
		if pt, isP := mi.X.Type().(*types.Pointer); isP {
			if g, isG := mi.X.(*ssa.Global); isG {
				return pt.String() + " " + g.RelString(nil), true
			}
		}
		return "", false
	}
	switch x := mi.X.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return n.String() + "{}", true
		}
		return n.String() + "=" + x.Value.ExactString(), true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return n.String() + " " + g.RelString(nil), true
		}
		if _, ok := x.X.(*ssa.Alloc); ok {
			if st, ok := n.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
				return n.String() + "{}", true
			}
		}
	}
	return "", false
}

func checkP17(c *Check) {
	c.Rule("key", "every setting has a key of its own, of a type private to its package", 5)
	c.Rule("paired", "a setting is read back under the key and with the type it was stored with", 4)
	c.Rule("setter", "a setter stores exactly its argument into the context it was given", 4)
	c.Rule("getter", "a getter returns exactly what the context holds", 4)
	c.Rule("reach", "a driver operation builds its client from every setting of its own context", 8)
	c.Rule("applied", "the authorization given to the transport is sent", 1)
	c.Rule("passed", "a function that is given a context passes it on", 8)
	var sets, gets []ctxUse
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				pos := c.P.InstrPos(in)
				var kv ssa.Value
				isSet := false
				if c.P.calleeName(cc) == "context.WithValue" {
					kv, isSet = cc.Args[1], true
				} else if cc.IsInvoke() && cc.Method.Name() == "Value" && isCtxType(cc.Value.Type()) {
					kv = cc.Args[0]
				} else {
					continue
				}
				c.Ob("key", c.P.FnName(fn), pos)
				k, ok := ctxKeyOf(kv)
				if !ok {
					c.Bad("key", c.P.FnName(fn), pos, "the key is not a constant of a type of this package, so it can collide with another package's key", nil)
					continue
				}
				if pk := c.P.Rel(fn); !strings.Contains(k, pk+".") && !strings.HasPrefix(k, "*") {
					c.Bad("key", c.P.FnName(fn), pos, "the key type "+k+" does not belong to this package", nil)
				}
				u := ctxUse{fn: fn, in: ci, key: k}
				if isSet {
					u.typ = unconv(cc.Args[2]).Type()
					if mi, ok := cc.Args[2].(*ssa.MakeInterface); ok {
						u.typ = mi.X.Type()
					}
					sets = append(sets, u)
				} else {
					if cv, ok := in.(ssa.Value); ok {
						for _, r := range *cv.Referrers() {
							if ta, ok := r.(*ssa.TypeAssert); ok {
								u.typ = ta.AssertedType
							}
						}
					}
					gets = append(gets, u)
				}
			}
		}
	}
	byKey := map[string]*ssa.Function{}
	for _, u := range sets {
		if o, ok := byKey[u.key]; ok && o != u.fn {
			c.Bad("key", c.P.FnName(u.fn), c.P.InstrPos(u.in), "stores under the same key as "+c.P.FnName(o), nil)
		}
		byKey[u.key] = u.fn
	}
	gotKey := map[string]*ssa.Function{}
	for _, u := range gets {
		if o, ok := gotKey[u.key]; ok && o != u.fn {
			c.Bad("key", c.P.FnName(u.fn), c.P.InstrPos(u.in), "reads the same key as "+c.P.FnName(o), nil)
		}
		gotKey[u.key] = u.fn
		c.Ob("paired", c.P.FnName(u.fn), c.P.InstrPos(u.in))
		n := 0
		for _, v := range sets {
			if v.key != u.key {
				continue
			}
			n++
			if u.typ == nil || !types.Identical(u.typ, v.typ) {
				c.Bad("paired", c.P.FnName(u.fn), c.P.InstrPos(u.in), fmt.Sprintf("is stored as %s but read as %s", v.typ, u.typ), nil)
			}
			// the names: CtxWithX / XFromCtx
			if a, b := settingName(v.fn.Name()), settingName(u.fn.Name()); a != b {
				c.Bad("paired", c.P.FnName(u.fn), c.P.InstrPos(u.in), fmt.Sprintf("%s reads what %s stored", u.fn.Name(), v.fn.Name()), nil)
			}
		}
		if n == 0 {
			c.Bad("paired", c.P.FnName(u.fn), c.P.InstrPos(u.in), "no setter stores under this key", nil)
		}
	}
	for _, u := range sets {
		if gotKey[u.key] == nil {
			c.Bad("paired", c.P.FnName(u.fn), c.P.InstrPos(u.in), "no getter reads this key", nil)
		}
		c.p17setter(u)
	}
	for _, u := range gets {
		c.p17getter(u)
	}
	c.p17reach(gets)
	c.p17authz()
	c.p17passed()
}

func settingName(n string) string {
	for _, a := range []string{"CtxWith", "FromContext", "FromCtx", "With", "Context", "Ctx"} {
		n = strings.TrimPrefix(strings.TrimSuffix(n, a), a)
	}
	return strings.ToLower(n)
}

func (c *Check) p17setter(u ctxUse) {
	key := c.P.FnName(u.fn)
	ci := ctxParam(u.fn)
	if ci < 0 || len(u.fn.Params) != 2 {
		c.Bad("setter", key, c.P.InstrPos(u.in), "a setting is stored by a function that is not a setter", nil)
		return
	}
	var ctx, val *Term
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Name != "context.WithValue" {
				return
			}
			c.Ob("setter", key, c.P.InstrPos(ev.Site))
			v := strip(ev.Args[2])
			if v != val && !(v.op == OpAlloc && st.cells[v] == val) {
				c.Bad("setter", key, c.P.InstrPos(ev.Site), "what is stored is "+v.String()+", not the argument", s.Path(st))
			}
			if ev.Args[0] != ctx {
				c.Bad("setter", key, c.P.InstrPos(ev.Site), "the setting is not added to the context that was given", s.Path(st))
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Name == "context.WithValue" {
				st.marks["r"] = Mark{T: s.Res(ev, 0)}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if st.marks["r"].T == nil || res[0] != st.marks["r"].T {
				c.Bad("setter", key, c.P.InstrPos(in), "the context returned is not the one with the setting", s.Path(st))
			}
		},
	})
	c.Run(s, u.fn, func(st *State, ps, fs []*Term) { ctx, val = ps[ci], ps[1-ci] })
}

func (c *Check) p17getter(u ctxUse) {
	key := c.P.FnName(u.fn)
	ci := ctxParam(u.fn)
	if ci < 0 {
		c.Bad("getter", key, c.P.InstrPos(u.in), "a setting is read by a function without a context", nil)
		return
	}
	var ctx *Term
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "Value" && len(ev.Args) == 2 {
				if ev.Args[0] != ctx {
					c.Bad("getter", key, c.P.InstrPos(ev.Site), "reads another context than the one given", s.Path(st))
				}
				st.marks["v"] = Mark{T: s.Res(ev, 0)}
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if v := st.marks["v"].T; v != nil && mentionsTerm(cond, v) && taken == (cond.op != OpNil) {
				st.marks["present"] = Mark{S: "y"}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			c.Ob("getter", key, c.P.InstrPos(in))
			v := st.marks["v"].T
			if v == nil {
				c.Bad("getter", key, c.P.InstrPos(in), "returns without reading the context", s.Path(st))
				return
			}
			if len(res) != 2 {
				return
			}
			ok := s.Eval(st, res[1])
			if ok == 0 {
				return
			}
			if strip(res[0]) != v && !mentionsTerm(res[0], v) {
				c.Bad("getter", key, c.P.InstrPos(in), "returns "+res[0].String()+", not what the context holds", s.Path(st))
			}
			if st.marks["present"].S == "" && (ok == 1 || !mentionsTerm(res[1], v)) {
				c.Bad("getter", key, c.P.InstrPos(in), "whether the setting is present is not taken from the context", s.Path(st))
			}
		},
	})
	c.Run(s, u.fn, func(st *State, ps, fs []*Term) { ctx = ps[ci] })
}

// isClient: a value that carries the settings to the remote store.
func isClient(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "net/http" && n.Obj().Name() == "Client" || strings.HasSuffix(p, "/service/s3") && n.Obj().Name() == "S3"
}

func (c *Check) p17reach(gets []ctxUse) {
	byPkg := map[*types.Package][]*ssa.Function{}
	for _, g := range gets {
		if g.fn.Pkg != nil {
			byPkg[g.fn.Pkg.Pkg] = append(byPkg[g.fn.Pkg.Pkg], g.fn)
		}
	}
	drv := c.P.Iface("pkg/storage/driver", "Driver")
	if drv == nil {
		c.Bad("reach", "driver.Driver", c.P.Mod, "the driver interface was not found", nil)
		return
	}
	for _, T := range c.P.Implementers(drv) {
		n := namedOf(T)
		if n == nil {
			continue
		}
		gs := byPkg[n.Obj().Pkg()]
		if len(gs) == 0 {
			continue
		}
		for _, m := range c.P.methods(n) {
			if ci := ctxParam(m); ci >= 0 && m.Object().Exported() {
				c.p17op(m, ci, gs)
			}
		}
	}
}

func (c *Check) p17op(fn *ssa.Function, ci int, gs []*ssa.Function) {
	key := c.P.FnName(fn)
	isG := map[*ssa.Function]bool{}
	for _, g := range gs {
		isG[g] = true
	}
	var ctx *Term
	tainted := func(st *State, g string, t *Term) bool {
		found := false
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if t == nil || found || seen[t] {
				return
			}
			seen[t] = true
			if _, ok := st.marks["t:"+g+":"+fmt.Sprint(t.id)]; ok {
				found = true
				return
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return found
	}
	sinkArgs := func(ev *CallEv) []*Term {
		var out []*Term
		for i, a := range ev.Args {
			_ = i
			if isClient(strip(a).typ) {
				out = append(out, strip(a))
			}
		}
		return out
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			if ev.Callee == nil || isG[ev.Callee] || len(sinkArgs(ev)) > 0 || !c.P.IsModule(ev.Callee) {
				return false
			}
			return c.P.Rel(ev.Callee) == c.P.Rel(fn)
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Inlined {
				return
			}
			pos := c.P.InstrPos(ev.Site)
			if isG[ev.Callee] && len(ev.Args) > 0 && ev.Args[0] != ctx {
				c.Bad("reach", key, pos, "reads the settings of another context than the one given", s.Path(st))
			}
			for _, f := range st.frames {
				if f.fn.Parent() == nil && ctxParam(f.fn) < 0 {
					return // looks something up that is shared by all contexts
				}
			}
			for _, a := range sinkArgs(ev) {
				if strings.HasPrefix(ev.Name, "(*net/http.") && a != ev.Args[0] {
					continue
				}
				st.marks["sink"] = Mark{S: "y"}
				c.Ob("reach", key, pos)
				for _, g := range gs {
					if fn.Name() == "Create" && strings.Contains(g.Name(), "Timeout") {
						continue // uploads are not limited by the request timeout
					}
					ok, called := st.marks["ok:"+g.Name()]
					if !called {
						c.Bad("reach", key, pos, "the client is built without asking "+g.Name(), s.Path(st))
						continue
					}
					if s.Eval(st, ok.T) != 0 && !tainted(st, g.Name(), a) {
						c.Bad("reach", key, pos, "the value of "+g.Name()+" does not reach the client", s.Path(st))
					}
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if isG[ev.Callee] {
				st.marks["ok:"+ev.Callee.Name()] = Mark{T: s.Res(ev, 1)}
				r := s.Res(ev, 0)
				st.marks["t:"+ev.Callee.Name()+":"+fmt.Sprint(r.id)] = Mark{T: r}
				return nil
			}
			if ev.Inlined || ev.Result == nil {
				return nil
			}
			for _, g := range gs {
				for _, a := range ev.Args {
					if tainted(st, g.Name(), a) {
						st.marks["t:"+g.Name()+":"+fmt.Sprint(ev.Result.id)] = Mark{T: ev.Result}
					}
				}
				for _, a := range ev.VArgs {
					if tainted(st, g.Name(), a) {
						st.marks["t:"+g.Name()+":"+fmt.Sprint(ev.Result.id)] = Mark{T: ev.Result}
					}
				}
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			for _, g := range gs {
				if tainted(st, g.Name(), val) {
					r := rootOf(addr)
					st.marks["t:"+g.Name()+":"+fmt.Sprint(r.id)] = Mark{T: r}
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if len(res) > 0 && s.Eval(st, s.T.IsNil(res[len(res)-1])) == 0 {
				return
			}
			if _, ok := st.marks["sink"]; !ok {
				c.Bad("reach", key, c.P.InstrPos(in), "succeeds without using a client built from the context", s.Path(st))
			}
		},
	})
	s.Depth = 6
	c.Run(s, fn, func(st *State, ps, fs []*Term) { ctx = ps[ci] })
}

// p17authz: the transport made by WithAuthz sends the value it was given.
func (c *Check) p17authz() {
	w := c.P.Lookup("pkg/httputil", "WithAuthz")
	if w == nil {
		return
	}
	var tgt *ssa.Function
	var T *types.Named
	for _, b := range w.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok {
				if m := c.P.Method(deref(al.Type()), "RoundTrip"); m != nil {
					tgt, T = m, namedOf(al.Type())
				}
			}
		}
	}
	if tgt == nil {
		c.Bad("applied", "httputil.WithAuthz", c.P.Pos(w.Pos()), "the authorizing transport was not found", nil)
		return
	}
	key := c.P.FnName(tgt)
	field := fieldBy(T, isBasic(types.String))
	// the constructor keeps the value
	var val *Term
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			c.Ob("applied", c.P.FnName(w), c.P.InstrPos(in))
			if structField(s, st, strip(res[0]), T, field) != val {
				c.Bad("applied", c.P.FnName(w), c.P.InstrPos(in), "the authorization is not kept", s.Path(st))
			}
		},
	})
	c.Run(s, w, func(st *State, ps, fs []*Term) { val = ps[len(ps)-1] })
	var recv *Term
	s = c.Sim(Hooks{
		Inline: pkgInline(c),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if isHeaderSet(ev.Name) && len(ev.Args) == 3 {
				if k, _ := ev.Args[1].StrConst(); strings.EqualFold(k, "Authorization") && fieldOfRecv(ev.Args[2], recv) == field {
					st.marks["set"] = Mark{S: "y"}
				}
			}
			if isRoundTrip(ev) {
				c.Ob("applied", key, c.P.InstrPos(ev.Site))
				if st.marks["set"].S == "" {
					c.Bad("applied", key, c.P.InstrPos(ev.Site), "a request without authorization is sent without adding the one given", s.Path(st))
				}
			}
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			// the request already carries one
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if cond.op == OpEq0 || cond.op == OpEq || cond.op == OpNil {
				taken = !taken
			}
			if taken && mentionsString(cond, "Authorization") {
				st.marks["set"] = Mark{S: "y"}
			}
		},
	})
	c.Run(s, tgt, func(st *State, ps, fs []*Term) { recv = ps[0] })
}

func mentionsString(t *Term, x string) bool {
	if t == nil {
		return false
	}
	if k, ok := t.StrConst(); ok && strings.EqualFold(k, x) {
		return true
	}
	for _, a := range t.args {
		if mentionsString(a, x) {
			return true
		}
	}
	for _, m := range t.monos {
		for _, a := range m {
			if mentionsString(a, x) {
				return true
			}
		}
	}
	return false
}

// p17passed: functions with a context hand it (or one derived from it) to what they call.
func (c *Check) p17passed() {
	var fns []*ssa.Function
	for _, fn := range c.P.Funcs {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if ctxParam(top) >= 0 && !isMockPkg(c.P.Rel(fn)) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return c.P.FnName(fns[i]) < c.P.FnName(fns[j]) })
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, a := range ci.Common().Args {
					if !isCtxType(a.Type()) {
						continue
					}
					c.Ob("passed", c.P.FnName(fn), c.P.InstrPos(in))
					if bad := freshCtx(c.P, a, map[ssa.Value]bool{}); bad != "" {
						c.Bad("passed", c.P.FnName(fn), c.P.InstrPos(in), "passes "+bad+" instead of the context it was given", nil)
					}
				}
			}
		}
	}
}

// freshCtx: the value is (or may be) a context that carries no settings.
func freshCtx(p *Prog, v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		switch n := p.calleeName(x.Common()); n {
		case "context.Background", "context.TODO":
			return n + "()"
		default:
			for _, a := range x.Common().Args {
				if isCtxType(a.Type()) {
					if b := freshCtx(p, a, seen); b != "" {
						return b
					}
				}
			}
		}
	case *ssa.Extract:
		return freshCtx(p, x.Tuple, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if b := freshCtx(p, e, seen); b != "" {
				return b
			}
		}
	case *ssa.ChangeInterface:
		return freshCtx(p, x.X, seen)
	case *ssa.Const:
		return "nil"
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					if b := freshCtx(p, st.Val, seen); b != "" {
						return b
					}
				}
			}
		}
	}
	return ""
}

func mentionsTerm(t, x *Term) bool {
	if t == nil {
		return false
	}
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentionsTerm(a, x) {
			return true
		}
	}
	for _, m := range t.monos {
		for _, a := range m {
			if mentionsTerm(a, x) {
				return true
			}
		}
	}
	return false
}

func init() { checks["P17"] = checkP17 }
