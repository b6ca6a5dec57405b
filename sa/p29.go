package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P29"] = checkP29 }

// P29: what is not supported fails.
func checkP29(c *Check) {
	c.Rule("dispatch", "an operation on a URL is the one the URL's driver implements, and an error if it implements none", 15)
	c.Rule("scheme", "a driver is found only under the URL's own scheme, and serves no other scheme than it is registered for", 6)
	c.Rule("mode", "an option with a fixed set of values does something for exactly these values, each its own thing", 3)
	c.Rule("decode", "an option is set to what was parsed, and a value that cannot be parsed is an error", 3)
	c.Rule("command", "a block device command is served only by its own emulation, any other one is not handled", 1)
	c.Rule("filesystem", "a disc is mounted as the filesystem type it declares", 1)
	c.p29dispatch()
	c.p29find()
	c.p29schemes()
	c.p29modes()
	c.p29decode()
	c.p29level()
	c.p29command()
	c.p29mount()
}

const storeRel, drvRel, cliRel = "pkg/storage", "pkg/storage/driver", "pkg/vdisc/cli"

// p29dispatch: the functions that find a driver and use it.
func (c *Check) p29dispatch() {
	find := c.P.Lookup(drvRel, "Find")
	if find == nil {
		c.Bad("dispatch", "Find", "", "not found", nil)
		return
	}
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != storeRel || fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if !c.P.reach([]*ssa.Function{fn}, func(f *ssa.Function) bool { return c.P.Rel(f) == storeRel })[find] && !callsFn(c.P, fn, find, 3) {
			continue
		}
		op := fn.Name()
		for _, suf := range []string{"ContextSize", "Context", "Size"} {
			op = strings.TrimSuffix(op, suf)
		}
		key := c.P.FnName(fn)
		c.Ob("dispatch", key, c.P.Pos(fn.Pos()))
		bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
			c.Bad("dispatch", key, c.P.InstrPos(in), msg, s.Path(st))
		}
		var params []*Term
		param := func(is func(types.Type) bool) *Term {
			for i, p := range fn.Params {
				if is(p.Type()) {
					return params[i]
				}
			}
			return nil
		}
		isCtx := func(t types.Type) bool { return t.String() == "context.Context" }
		isStr := func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) }
		isI64 := func(t types.Type) bool { return types.Identical(t, types.Typ[types.Int64]) }
		isVisitor := func(t types.Type) bool { return namedOf(t) != nil && namedOf(t).Obj().Name() == "Visitor" }
		hit := false
		s := c.Sim(Hooks{
			Inline: func(s *Sim, st *State, ev *CallEv) bool { return pkgInline(c)(s, st, ev) },
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Callee == find {
					if strip(ev.Args[0]) != param(isStr) {
						bad(s, st, ev.Site, "the driver of another URL is used")
					}
					return
				}
				onDriver := ev.Common.IsInvoke() && c.P.Rel2(ev.Common.Method.Pkg()) == drvRel
				isVisit := ev.Callee != nil && c.P.Rel(ev.Callee) == drvRel && ev.Callee.Name() == "Visit"
				if !onDriver && !isVisit || onDriver && base(ev.Name) == "Name" {
					return
				}
				hit = true
				if base(ev.Name) != op {
					bad(s, st, ev.Site, fmt.Sprintf("asks the driver for %s instead of %s", base(ev.Name), op))
				}
				if st.marks["op"].T != nil {
					bad(s, st, ev.Site, "asks the driver twice")
				}
				d := st.marks["drvr"].T
				drv, rest := ev.Args[0], ev.Args[1:]
				if isVisit {
					drv, rest = ev.Args[1], append([]*Term{ev.Args[0]}, ev.Args[2:]...)
				}
				if d == nil || stripAll(drv) != d {
					bad(s, st, ev.Site, "uses another driver than the one found")
				}
				sg := ev.Common.Signature()
				off := 0
				for i, a := range rest {
					j := i + off
					if isVisit && i > 0 {
						j = i + 1
					}
					if j >= sg.Params().Len() {
						break
					}
					pt := sg.Params().At(j).Type()
					var want *Term
					switch {
					case isCtx(pt):
						want = param(isCtx)
					case isStr(pt):
						want = param(isStr)
					case isI64(pt):
						want = param(isI64)
						if want == nil {
							if k, ok := a.IntConst(); !ok || k != -1 {
								bad(s, st, ev.Site, "a size is declared that nobody gave")
							}
						}
					case isVisitor(pt):
						want = param(isVisitor)
					}
					if want != nil && stripAll(a) != want {
						bad(s, st, ev.Site, "asks the driver about something else than what was given: "+a.String())
					}
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if ev.Callee == find {
					st.marks["drvr"] = Mark{T: s.Res(ev, 0)}
					return s.fork(st, ev, func(o *State) { o.marks["nodriver"] = Mark{S: "1"} })
				}
				if ev.Common.IsInvoke() && c.P.Rel2(ev.Common.Method.Pkg()) == drvRel && base(ev.Name) != "Name" || ev.Callee != nil && c.P.Rel(ev.Callee) == drvRel && ev.Callee.Name() == "Visit" {
					st.marks["op"] = Mark{T: ev.Result}
					return s.fork(st, ev, func(o *State) { o.marks["failed"] = Mark{S: "1"} })
				}
				return nil
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if !s.succeeds(st, in, res) {
					return
				}
				R := st.marks["op"].T
				switch {
				case st.marks["nodriver"].S != "":
					bad(s, st, in, "may report success although no driver was found")
				case R == nil:
					bad(s, st, in, "may report success without asking the driver")
				case st.marks["failed"].S != "":
					bad(s, st, in, "may report success although the driver failed")
				case len(res) == 2 && !fromResult(stripAll(res[0]), R, 0):
					bad(s, st, in, "returns something else than what the driver gave")
				}
			},
		})
		c.Run(s, fn, func(st *State, ps, _ []*Term) {
			params = ps
			for i, p := range ps {
				st.marks[fmt.Sprint("p", i)] = Mark{T: p}
			}
		})
		if !hit {
			c.Bad("dispatch", key, c.P.Pos(fn.Pos()), "never asks a driver", nil)
		}
	}
}

func (p *Prog) Rel2(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), p.Mod), "/")
}

func stripAll(t *Term) *Term {
	for t != nil && (t.op == OpMkIface || t.op == OpConv || t.op == OpAssert || t.op == OpExtract && t.args[0].op == OpAssert) {
		t = t.args[0]
	}
	return t
}

func callsFn(p *Prog, fn, target *ssa.Function, d int) bool {
	if d == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if f := cl.Common().StaticCallee(); f == target || f != nil && p.Rel(f) == p.Rel(fn) && callsFn(p, f, target, d-1) {
					return true
				}
			}
		}
	}
	return false
}

// p29find: the registry.
func (c *Check) p29find() {
	fn := c.P.Lookup(drvRel, "Find")
	if fn == nil {
		return
	}
	key := c.P.FnName(fn)
	c.Ob("scheme", key, c.P.Pos(fn.Pos()))
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("scheme", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	hit := false
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Name == "net/url.Parse" {
				if _, ok := st.marks["url"]; ok || ev.Args[0] != st.marks["p0"].T {
					bad(s, st, ev.Site, "another URL is looked at")
				}
				st.marks["url"] = Mark{T: s.Res(ev, 0)}
				return s.fork(st, ev, func(o *State) { o.marks["malformed"] = Mark{S: "1"} })
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if k := dotOf(cond, func(x *Term) bool { return loadedField(x) == "Scheme" }); k == "empty" {
				st.marks["empty"] = Mark{S: map[bool]string{true: "yes", false: "no"}[taken]}
			}
			if cond.op == OpPure && cond.aux == "lookupok" {
				st.marks["known"] = Mark{S: map[bool]string{true: "yes", false: "no"}[taken]}
			}
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == OpFieldAddr && addr.aux == "Scheme" {
				txt, _ := val.StrConst()
				if txt != "file" || st.marks["empty"].S != "yes" {
					bad(s, st, in, "the URL's scheme is changed")
				}
				st.marks["stored"] = Mark{S: txt}
			}
		},
		Instr: func(s *Sim, st *State, in ssa.Instruction) {
			lk, ok := in.(*ssa.Lookup)
			if !ok {
				return
			}
			if _, isMap := lk.X.Type().Underlying().(*types.Map); !isMap {
				return
			}
			hit = true
			k := s.V(st, lk.Index)
			if txt, isc := k.StrConst(); isc {
				if txt != "file" || st.marks["empty"].S != "yes" {
					bad(s, st, in, fmt.Sprintf("the driver for %q is looked up whatever the URL's scheme is", txt))
				}
			} else if u := st.marks["url"].T; u == nil || loadedField(k) != "Scheme" || !mentions(k, u) {
				bad(s, st, in, "a driver is looked up under something else than the URL's scheme: "+k.String())
			} else if st.marks["empty"].S == "yes" && st.marks["stored"].S != "file" {
				bad(s, st, in, "a URL without scheme is not taken for a local path")
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			if st.marks["malformed"].S != "" {
				bad(s, st, in, "may report success for a URL that cannot be parsed")
			}
			if st.marks["known"].S == "yes" || st.marks["known"].S == "" && s.Eval(st, s.T.IsNil(res[0])) == 0 {
				if d := stripAll(res[0]); d.op != OpPure || d.aux != "lookup" {
					bad(s, st, in, "another driver is returned than the one registered: "+res[0].String())
				}
				return
			}
			bad(s, st, in, "may report success although no driver is registered for the scheme")
		},
	})
	c.Run(s, fn, func(st *State, ps, _ []*Term) { st.marks["p0"] = Mark{T: ps[0]} })
	if !hit {
		c.Bad("scheme", key, c.P.Pos(fn.Pos()), "no driver is looked up", nil)
	}
	// what is registered is what is found
	if reg := c.P.Lookup(drvRel, "Register"); reg != nil {
		key := c.P.FnName(reg)
		c.Ob("scheme", key, c.P.Pos(reg.Pos()))
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
				if k != st.marks["p0"].T || stripAll(v) != st.marks["p1"].T {
					c.Bad("scheme", key, c.P.InstrPos(in), "another driver or scheme is registered than the one given", s.Path(st))
				}
				st.marks["done"] = Mark{S: "1"}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if st.marks["done"].S == "" {
					c.Bad("scheme", key, c.P.InstrPos(in), "may return without registering the driver", s.Path(st))
				}
			},
		})
		c.Run(s, reg, func(st *State, ps, _ []*Term) {
			st.marks["p0"], st.marks["p1"] = Mark{T: ps[0]}, Mark{T: ps[1]}
		})
	} else {
		c.Bad("scheme", "Register", "", "not found", nil)
	}
}

// p29schemes: drivers that look at the scheme accept what they are registered for.
func (c *Check) p29schemes() {
	reg := map[string]map[string]bool{}
	for _, fn := range c.P.Funcs {
		rel := c.P.Rel(fn)
		if !strings.HasPrefix(rel, storeRel+"/") || isMockPkg(rel) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok || cl.Call.StaticCallee() == nil || c.P.Rel(cl.Call.StaticCallee()) != drvRel || cl.Call.StaticCallee().Name() != "Register" {
					continue
				}
				if k, ok := cl.Call.Args[0].(*ssa.Const); ok {
					if reg[rel] == nil {
						reg[rel] = map[string]bool{}
					}
					reg[rel][strings.Trim(k.Value.ExactString(), `"`)] = true
				}
			}
		}
	}
	n := 0
	for _, fn := range c.P.Funcs {
		rel := c.P.Rel(fn)
		if !strings.HasPrefix(rel, storeRel+"/") || isMockPkg(rel) || rel == drvRel || fn.Parent() != nil || len(reg[rel]) == 0 {
			continue
		}
		if rel == storeRel+"/file" || !c.parsesURL(fn) {
			continue
		}
		n++
		key := c.P.FnName(fn)
		c.Ob("scheme", key, c.P.Pos(fn.Pos()))
		asked := map[string]bool{}
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
				for cond.op == OpNot {
					cond, taken = cond.args[0], !taken
				}
				if cond.op != OpEq || len(cond.args) != 2 {
					return
				}
				a, b := cond.args[0], cond.args[1]
				if _, ok := a.StrConst(); ok {
					a, b = b, a
				}
				if k, ok := b.StrConst(); ok && loadedField(a) == "Scheme" {
					asked[k] = true
					if taken {
						st.marks["scheme"] = Mark{S: k}
					}
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if !s.succeeds(st, in, res) {
					if k := st.marks["scheme"].S; k != "" {
						st.marks["refused"] = Mark{S: k}
					}
					return
				}
				k := st.marks["scheme"].S
				if k == "" {
					c.Bad("scheme", key, c.P.InstrPos(in), "may accept a URL of any scheme", s.Path(st))
				} else if !reg[rel][k] {
					c.Bad("scheme", key, c.P.InstrPos(in), fmt.Sprintf("accepts the scheme %q, for which the driver is not registered", k), s.Path(st))
				}
			},
		})
		c.Run(s, fn, nil)
		var ks []string
		for k := range reg[rel] {
			if !asked[k] {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		if len(ks) > 0 {
			c.Bad("scheme", key, c.P.Pos(fn.Pos()), "does not know the scheme the driver is registered for: "+strings.Join(ks, ", "), nil)
		}
	}
	if n < 5 {
		c.Bad("scheme", "drivers", "", fmt.Sprintf("only %d drivers that parse URLs found", n), nil)
	}
}

// parsesURL: turns a URL, and nothing else, into what the driver makes of it,
// for others than functions of the same kind.
func (c *Check) parsesURL(fn *ssa.Function) bool {
	if !c.takesURL(fn) {
		return false
	}
	cs := c.P.callers[fn]
	for _, cl := range cs {
		if !c.takesURL(outer(cl.Parent())) {
			return true
		}
	}
	return len(cs) == 0
}

func (c *Check) takesURL(fn *ssa.Function) bool {
	sg := fn.Signature
	return sg.Params().Len() == 1 && isBasic(types.String)(sg.Params().At(0).Type()) && sg.Results().Len() > 0 && isErrorType(sg.Results().At(sg.Results().Len()-1).Type()) && callsParse(c.P, fn, 3)
}

func callsParse(p *Prog, fn *ssa.Function, d int) bool {
	if d == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if f := cl.Common().StaticCallee(); f != nil && (f.String() == "net/url.Parse" || p.Rel(f) == p.Rel(fn) && callsParse(p, f, d-1)) {
					return true
				}
			}
		}
	}
	return false
}

// options with a fixed set of values, and what each stands for
var p29modes = map[string]map[string]string{
	"MountCmd.Mode":             {"fuse": "pkg/isofuse.NewWithOptions", "tcmu": "pkg/blockdev.NewTCMUBlockDeviceManager"},
	"CacheConfig.Mode":          {"disabled": "NopCache", "memory": "pkg/caching.NewMemorySlicer", "disk": "pkg/caching.NewDiskSlicer"},
	"IsoOptions.NameValidation": {"portable": "pkg/vdisc.NewPosixPortableISO9660Builder", "extended": "pkg/vdisc.NewExtendedISO9660Builder"},
}

func (c *Check) p29modes() {
	found := map[string]bool{}
	for _, name := range []string{"MountCmd", "CacheConfig", "IsoOptions", "BurnCmd"} {
		n := c.named(cliRel, name)
		if n == nil {
			continue
		}
		stt, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < stt.NumFields(); i++ {
			enum := reflect.StructTag(stt.Tag(i)).Get("enum")
			k := name + "." + stt.Field(i).Name()
			does, known := p29modes[k]
			if !known {
				continue
			}
			found[k] = true
			pos := c.P.Pos(stt.Field(i).Pos())
			c.Ob("mode", k, pos)
			vals := map[string]bool{}
			for _, v := range strings.Split(enum, ",") {
				if v != "" {
					vals[strings.TrimSpace(v)] = true
				}
			}
			for v := range does {
				if !vals[v] {
					c.Bad("mode", k, pos, fmt.Sprintf("the value %q is not accepted", v), nil)
				}
			}
			for v := range vals {
				if _, ok := does[v]; !ok {
					c.Bad("mode", k, pos, fmt.Sprintf("the value %q is accepted but unknown", v), nil)
				}
			}
			if def := reflect.StructTag(stt.Tag(i)).Get("default"); def != "" && does[def] == "" {
				c.Bad("mode", k, pos, "the default is not one of the values", nil)
			}
			c.p29mode(k, n, stt.Field(i).Name(), does)
		}
	}
	for k := range p29modes {
		if !found[k] {
			c.Bad("mode", k, "", "option not found", nil)
		}
	}
}

func (c *Check) p29mode(key string, n *types.Named, field string, does map[string]string) {
	users := 0
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != cliRel || fn.Parent() != nil || !loadsField(fn, n, field) {
			continue
		}
		users++
		ukey := key + " in " + c.P.FnName(fn)
		did := map[string]bool{}
		asked := map[string]bool{}
		note := func(st *State, what string) {
			for v, d := range does {
				if d == what {
					st.marks["does:"+v] = Mark{S: "1"}
				}
			}
		}
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
				for cond.op == OpNot {
					cond, taken = cond.args[0], !taken
				}
				if cond.op != OpEq || len(cond.args) != 2 {
					return
				}
				a, b := cond.args[0], cond.args[1]
				if _, ok := a.StrConst(); ok {
					a, b = b, a
				}
				if k, ok := b.StrConst(); ok && loadedField(a) == field {
					asked[k] = true
					if taken {
						st.marks["mode"] = Mark{S: k}
					}
				}
			},
			Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
				if addr.op == OpGlobal {
					note(st, base(addr.aux))
				}
				if u, ok := in.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok {
						note(st, g.Name())
					}
				}
				return nil
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Callee != nil {
					note(st, c.P.Rel(ev.Callee)+"."+ev.Callee.Name())
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				m := st.marks["mode"].S
				if m == "" {
					if !s.succeeds(st, in, res) {
						return
					}
					c.Bad("mode", key, c.P.InstrPos(in), "an unknown value may pass silently", s.Path(st))
					return
				}
				if does[m] == "" {
					c.Bad("mode", key, c.P.InstrPos(in), fmt.Sprintf("the value %q is treated as known", m), s.Path(st))
					return
				}
				if !s.succeeds(st, in, res) {
					return
				}
				for v := range does {
					if d := st.marks["does:"+v].S != ""; d != (v == m) {
						c.Bad("mode", key, c.P.InstrPos(in), fmt.Sprintf("the value %q leads to what %q stands for: %v", m, v, d), s.Path(st))
					}
				}
				did[m] = true
			},
		})
		s.Depth = 5
		c.Run(s, fn, nil)
		for v := range does {
			if !did[v] {
				c.Bad("mode", key, c.P.Pos(fn.Pos()), fmt.Sprintf("nothing is done for the value %q", v), nil)
			}
		}
		c.Ob("mode", ukey, c.P.Pos(fn.Pos()))
	}
	if users == 0 {
		c.Bad("mode", key, "", "the option is never looked at", nil)
	}
}

func loadsField(fn *ssa.Function, n *types.Named, field string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && faName(fa) == field && namedOf(fa.X.Type()) == n {
				return true
			}
		}
	}
	return false
}

// p29decode: decoders of option values.
func (c *Check) p29decode() {
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != cliRel || fn.Signature.Recv() != nil || fn.Parent() != nil {
			continue
		}
		sg := fn.Signature
		if sg.Params().Len() != 2 || sg.Params().At(1).Type().String() != "reflect.Value" {
			continue
		}
		key := c.P.FnName(fn)
		c.Ob("decode", key, c.P.Pos(fn.Pos()))
		bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
			c.Bad("decode", key, c.P.InstrPos(in), msg, s.Path(st))
		}
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Name == "(reflect.Value).Set" {
					if st.marks["set"].S != "" {
						bad(s, st, ev.Site, "the option is set twice")
					}
					st.marks["set"] = Mark{S: "1"}
					if st.marks["failed"].S != "" && st.marks["parsed"].S == "" {
						bad(s, st, ev.Site, "the option is set although its value could not be parsed")
					}
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if s.ErrRes(ev) == nil || strings.HasPrefix(ev.Name, "fmt.") || strings.HasPrefix(ev.Name, "errors.") {
					return nil
				}
				out := s.fork(st, ev, func(o *State) { o.marks["failed"] = Mark{S: "1"}; delete(o.marks, "parsed") })
				if strings.Contains(ev.Name, "Parse") {
					st.marks["parsed"] = Mark{S: "1"}
				}
				return out
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if !s.succeeds(st, in, res) {
					return
				}
				if st.marks["set"].S == "" {
					bad(s, st, in, "may report success without setting the option")
				}
				if st.marks["failed"].S != "" && st.marks["parsed"].S == "" {
					bad(s, st, in, "may report success although the value could not be parsed")
				}
			},
		})
		c.Run(s, fn, nil)
	}
	// a share of the disk is between 0 and 100
	if fn := c.P.Lookup(cliRel, "GcThresholdDecoder"); fn != nil {
		key := c.P.FnName(fn) + " range"
		c.Ob("decode", key, c.P.Pos(fn.Pos()))
		var v *Term
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if ev.Name == "strconv.ParseFloat" {
					v = s.Res(ev, 0)
					st.marks["v"] = Mark{T: v}
				}
				return nil
			},
			Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
				b, ok := in.Cond.(*ssa.BinOp)
				if !ok || st.marks["v"].T == nil {
					return
				}
				x, y, op := b.X, b.Y, b.Op.String()
				if _, isc := x.(*ssa.Const); isc {
					x, y = y, x
					op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
				}
				k, isc := y.(*ssa.Const)
				if !isc || k.Value == nil || stripAll(s.V(st, x)) != st.marks["v"].T {
					return
				}
				val := k.Value.ExactString()
				switch {
				case val == "0" && (op == "<" && !taken || op == ">=" && taken):
					st.marks["low"] = Mark{S: "1"}
				case val == "100" && (op == ">" && !taken || op == "<=" && taken):
					st.marks["high"] = Mark{S: "1"}
				}
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Name == "(reflect.Value).Set" && st.marks["v"].T != nil && (st.marks["low"].S == "" || st.marks["high"].S == "") {
					c.Bad("decode", key, c.P.InstrPos(ev.Site), "a percentage below 0 or above 100 may be accepted", s.Path(st))
				}
			},
		})
		c.Run(s, fn, nil)
		if v == nil {
			c.Bad("decode", key, c.P.Pos(fn.Pos()), "no percentage is parsed", nil)
		}
	}
}

// p29level: the log level given on the command line.
func (c *Check) p29level() {
	fn := c.P.Lookup("cmd/vdisc", "main")
	if fn == nil {
		c.Bad("decode", "main", "", "not found", nil)
		return
	}
	key := "log level"
	c.Ob("decode", key, c.P.Pos(fn.Pos()))
	hit := false
	isSet := func(n string) bool {
		return strings.HasSuffix(n, "zapcore.Level).Set") || strings.HasSuffix(n, "zapcore.Level).UnmarshalText") || strings.HasSuffix(n, "zapcore.ParseLevel")
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if isSet(ev.Name) {
				hit = true
				if loadedField(ev.Args[len(ev.Args)-1]) != "LogLevel" {
					c.Bad("decode", key, c.P.InstrPos(ev.Site), "the level is not the one given on the command line", s.Path(st))
				}
			}
			if strings.HasSuffix(ev.Name, "kong.Context).Run") {
				if st.marks["bad"].S != "" {
					c.Bad("decode", key, c.P.InstrPos(ev.Site), "runs although the log level is unknown", s.Path(st))
				}
				if st.marks["asked"].S == "" {
					c.Bad("decode", key, c.P.InstrPos(ev.Site), "runs without having looked at the log level", s.Path(st))
				}
				st.marks["ran"] = Mark{S: "1"}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if isSet(ev.Name) {
				st.marks["asked"] = Mark{S: "1"}
				return s.fork(st, ev, func(o *State) { o.marks["bad"] = Mark{S: "1"} })
			}
			if strings.HasSuffix(ev.Name, "kong.Context).Run") {
				return s.fork(st, ev, func(o *State) { o.marks["failed"] = Mark{S: "1"} })
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if st.marks["ran"].S == "" || st.marks["bad"].S != "" || st.marks["failed"].S != "" {
				c.Bad("decode", key, c.P.InstrPos(in), "the program may end as if it had succeeded", s.Path(st))
			}
		},
	})
	c.Run(s, fn, nil)
	if !hit {
		c.Bad("decode", key, c.P.Pos(fn.Pos()), "the log level is never parsed", nil)
	}
}

// block device commands and their emulation
var p29commands = map[string][]string{
	"EmulateInquiry":         {"Inquiry"},
	"EmulateTestUnitReady":   {"TestUnitReady"},
	"EmulateServiceActionIn": {"ServiceActionIn16"},
	"EmulateModeSense":       {"ModeSense", "ModeSense10"},
	"EmulateModeSelect":      {"ModeSelect", "ModeSelect10"},
	"EmulateRead":            {"Read6", "Read10", "Read12", "Read16"},
}

func (c *Check) p29command() {
	h := c.named("pkg/blockdev", "readerAtCmdHandler")
	var fn *ssa.Function
	if h != nil {
		fn = c.P.Method(h, "HandleCommand")
	}
	if fn == nil {
		c.Bad("command", "HandleCommand", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("command", key, c.P.Pos(fn.Pos()))
	codes := map[int64]string{}
	for _, pk := range c.P.SSA.AllPackages() {
		if !strings.HasSuffix(pk.Pkg.Path(), "go-tcmu/scsi") && !strings.HasSuffix(pk.Pkg.Path(), "tcmu/scsi") {
			continue
		}
		for name, m := range pk.Members {
			if k, ok := m.(*ssa.NamedConst); ok {
				if i, exact := constant.Int64Val(constant.ToInt(k.Value.Value)); exact {
					for em, cs := range p29commands {
						for _, cn := range cs {
							if cn == name {
								codes[i] = em
							}
						}
					}
				}
			}
		}
	}
	if len(codes) < 11 {
		c.Bad("command", key, c.P.Pos(fn.Pos()), fmt.Sprintf("only %d command codes found", len(codes)), nil)
	}
	served := map[int64]bool{}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "Command" {
				st.marks["cmd:"+c.P.InstrPos(ev.Site)] = Mark{T: ev.Result}
			}
			if strings.HasPrefix(base(ev.Name), "Emulate") || base(ev.Name) == "NotHandled" {
				st.marks["by"] = Mark{S: base(ev.Name), T: ev.Result}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			// every reading of the command gives the same
			var cmds []*Term
			for k, m := range st.marks {
				if strings.HasPrefix(k, "cmd:") {
					cmds = append(cmds, m.T)
				}
			}
			is := func(i int64) int {
				out := -1
				for _, t := range cmds {
					if v := s.Eval(st, s.T.Eq(t, s.T.Int(i))); v == 0 {
						return 0
					} else if v == 1 {
						out = 1
					}
				}
				return out
			}
			if cmds == nil {
				c.Bad("command", key, c.P.InstrPos(in), "answers without looking at the command", s.Path(st))
				return
			}
			by := st.marks["by"]
			if by.T == nil || !fromResult(res[0], by.T, 0) {
				c.Bad("command", key, c.P.InstrPos(in), "answers with something else than what the emulation gave", s.Path(st))
				return
			}
			var which []int64
			for i := int64(0); i < 256; i++ {
				if is(i) == 1 {
					which = append(which, i)
				}
			}
			if by.S == "NotHandled" {
				for _, i := range which {
					if codes[i] != "" {
						c.Bad("command", key, c.P.InstrPos(in), "a command that is to be served by "+codes[i]+" is not handled", s.Path(st))
					}
				}
				for i := range codes {
					if is(i) != 0 {
						c.Bad("command", key, c.P.InstrPos(in), fmt.Sprintf("command 0x%x may be left unhandled", i), s.Path(st))
					}
				}
				return
			}
			if len(which) != 1 {
				c.Bad("command", key, c.P.InstrPos(in), by.S+" may serve an unknown command", s.Path(st))
				return
			}
			if codes[which[0]] != by.S {
				c.Bad("command", key, c.P.InstrPos(in), fmt.Sprintf("command 0x%x is served by %s", which[0], by.S), s.Path(st))
			}
			served[which[0]] = true
		},
	})
	c.Run(s, fn, nil)
	for i, em := range codes {
		if !served[i] {
			c.Bad("command", key, c.P.Pos(fn.Pos()), fmt.Sprintf("command 0x%x is never served by %s", i, em), nil)
		}
	}
}

// p29mount: the block device is mounted as what the disc says it is.
func (c *Check) p29mount() {
	m := c.named(cliRel, "MountCmd")
	n := 0
	if m != nil {
		roots, seen := []*ssa.Function{}, map[*ssa.Function]bool{}
		var climb func(fn *ssa.Function)
		climb = func(fn *ssa.Function) {
			if seen[fn] {
				return
			}
			seen[fn] = true
			if fn.Parent() != nil || c.P.IsTop(fn) {
				roots = append(roots, fn)
				return
			}
			for _, site := range c.P.callers[fn] {
				climb(site.Parent())
			}
		}
		for _, fn := range c.P.Funcs {
			if c.P.Rel(fn) == cliRel && callsNamed(fn, "Mount") {
				climb(fn)
			}
		}
		for _, fn := range roots {
			n++
			key := c.P.FnName(fn)
			c.Ob("filesystem", key, c.P.Pos(fn.Pos()))
			bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
				c.Bad("filesystem", key, c.P.InstrPos(in), msg, s.Path(st))
			}
			s := c.Sim(Hooks{
				Inline: pkgInline(c),
				PreCall: func(s *Sim, st *State, ev *CallEv) {
					if ev.Callee == nil || c.P.Rel(ev.Callee) != "pkg/unixcompat" || ev.Callee.Name() != "Mount" {
						return
					}
					t := st.marks["type"].T
					if t == nil || ev.Args[2] != t {
						bad(s, st, ev.Site, "the disc is mounted as another filesystem type than the one it declares")
					}
					if d := st.marks["dev"].T; d == nil || ev.Args[0] != d {
						bad(s, st, ev.Site, "something else than the disc's device is mounted")
					}
					if loadedField(ev.Args[1]) != "Mountpoint" {
						bad(s, st, ev.Site, "the disc is mounted elsewhere than asked for")
					}
					if k, ok := ev.Args[3].IntConst(); !(ok && k&1 != 0) && !strings.Contains(ev.Args[3].String(), "MS_RDONLY") {
						bad(s, st, ev.Site, "the disc is not mounted read-only")
					}
				},
				PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
					switch {
					case base(ev.Name) == "FsType":
						st.marks["type"] = Mark{T: ev.Result}
					case base(ev.Name) == "DevicePath":
						st.marks["dev"] = Mark{T: ev.Result}
					case ev.Callee != nil && c.P.Rel(ev.Callee) == "pkg/unixcompat" && ev.Callee.Name() == "Mount":
						return s.fork(st, ev, func(o *State) { o.marks["failed"] = Mark{S: "1"} })
					}
					return nil
				},
				Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
					if st.marks["failed"].S != "" && s.succeeds(st, in, res) {
						bad(s, st, in, "may end as if it had succeeded although the disc could not be mounted")
					}
				},
			})
			c.Run(s, fn, nil)
		}
	}
	if n == 0 {
		c.Bad("filesystem", "Mount", "", "no mount of a block device found", nil)
	}
}

func callsNamed(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(*ssa.Call); ok {
				if f := cl.Call.StaticCallee(); f != nil && f.Name() == name && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "unixcompat") {
					return true
				}
			}
		}
	}
	return false
}
