package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// target: the parts of a link's target are put together as they were recorded.
func (p *p30) target() {
	c := p.c
	rel := "pkg/iso9660/rrip"
	fn, comp, link := c.P.Lookup(rel, "DecodeSymlink"), c.named(rel, "SymlinkComponent"), c.named(rel, "Symlink")
	if fn == nil || comp == nil || link == nil {
		c.Bad("undecided", "DecodeSymlink", "?", "the decoder of link targets was not found", nil)
		return
	}
	flags, data, cont := c.P.Method(comp, "Flags"), c.P.Method(comp, "Data"), c.P.Method(link, "Continue")
	if flags == nil || data == nil || cont == nil {
		c.Bad("undecided", "DecodeSymlink", "?", "the accessors of the parts were not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("target", key, c.P.Pos(fn.Pos()))
	names := map[string]string{"2": ".", "4": "..", "8": ""}
	found := 0
	// settle: what one part did to the list and the unfinished part
	settle := func(s *Sim, st *State, pos string, header *ssa.BasicBlock) {
		if st.marks["flags"].T == nil {
			return
		}
		bad := func(msg string) { c.Bad("target", key, pos, msg, s.Path(st)) }
		special, known := "", true
		for _, f := range []string{"2", "4", "8"} {
			switch st.marks["f:"+f].S {
			case "1":
				special = f
			case "":
				if special == "" {
					known = false
				}
			}
		}
		el := st.marks["elem"]
		isData := func(t *Term) bool {
			d := st.marks["data"].T
			return d != nil && (t == d || t.op == OpBin && t.aux == "+" && t.args[1] == d && t.args[0] != d)
		}
		switch {
		case special != "":
			if k, ok := "", false; el.T != nil {
				k, ok = el.T.StrConst()
				if !ok || k != names[special] {
					bad("a part of the target is put down as another one: " + el.T.String())
				}
			} else {
				bad("a part of the target is left out")
			}
		case !known:
			bad("the kind of a part is not looked at")
		case st.marks["f:1"].S == "1":
			if el.T != nil {
				bad("an unfinished part is put down as a whole one")
			}
		case st.marks["f:1"].S == "0":
			if el.T == nil || !isData(el.T) || el.T == st.marks["data"].T && st.marks["some"].S != "" {
				bad("a part of the target is left out")
			}
		default:
			bad("whether a part continues is not looked at")
		}
		if len(el.S) > 1 {
			bad("a part is put down more than once")
		}
		if header == nil {
			return
		}
		i := 0
		for _, in := range header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := s.loopVals[i]
			i++
			if !isBasic(types.String)(ph.Type()) {
				continue
			}
			k, isK := v.StrConst()
			switch {
			case special != "":
				if v != st.top().env[ph] && !(v.op == OpPhi && v.instr == ssa.Instruction(ph)) && !(isK && k == "") {
					bad("a part that is complete in itself changes the unfinished one: " + v.String())
				}
			case st.marks["f:1"].S == "1":
				if !isData(v) || v == st.marks["data"].T && st.marks["some"].S != "" {
					bad("an unfinished part does not keep what it has so far: " + v.String())
				}
			default:
				if !isK || k != "" {
					bad("a finished part goes on into the next one: " + v.String())
				}
			}
		}
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && ev.Callee != flags && ev.Callee != data && ev.Callee != cont
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Name == "append" && len(ev.VArgs) == 2 && isBasic(types.String)(ev.VArgs[1].typ) {
				st.marks["elem"] = Mark{T: ev.VArgs[1], S: st.marks["elem"].S + "x"}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			switch ev.Callee {
			case nil:
			case flags:
				st.marks["flags"] = Mark{T: ev.Result}
			case data:
				st.marks["data"] = Mark{T: ev.Result}
			case cont:
				st.marks["cont"] = Mark{T: ev.Result}
			}
			if ev.Name == "strings.Join" {
				st.marks["join"] = Mark{T: ev.Result}
				if strip(ev.Args[0]).op == OpSlice {
					c.Bad("target", key, c.P.InstrPos(ev.Site), "not all parts of the target are joined", s.Path(st))
				}
				if k, ok := ev.Args[1].StrConst(); !ok || k != "/" {
					c.Bad("target", key, c.P.InstrPos(ev.Site), "the parts of the target are not joined by slashes", s.Path(st))
				}
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			for k, n := range map[int64]string{1: "1", 2: "2", 4: "4", 8: "8"} {
				if x, neg := bitTest(cond, k, k); x != nil && st.marks["flags"].T != nil {
					st.marks["f:"+n] = Mark{S: map[bool]string{true: "1", false: "0"}[taken != neg]}
				}
			}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			settle(s, st, c.P.InstrPos(header.Instrs[0]), header)
			if st.marks["flags"].T != nil {
				st.marks["some"] = Mark{S: "1"}
				if ct := st.marks["cont"].T; ct == nil || s.Eval(st, ct) != 1 {
					c.Bad("target", key, c.P.InstrPos(header.Instrs[0]), "the target goes on although its last part was seen", s.Path(st))
				}
			}
			for k := range st.marks {
				if strings.HasPrefix(k, "f:") || k == "flags" || k == "data" || k == "cont" || k == "elem" {
					delete(st.marks, k)
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			if s.Eval(st, res[1]) == 0 {
				return
			}
			found++
			settle(s, st, pos, nil)
			if ct := st.marks["cont"].T; ct == nil || s.Eval(st, ct) != 0 {
				c.Bad("target", key, pos, "a target is returned before its last part was seen", s.Path(st))
			}
			if res[0] != st.marks["join"].T {
				c.Bad("target", key, pos, "the target is not made of its parts: "+res[0].String(), s.Path(st))
			}
		},
	})
	c.Run(s, fn, nil)
	if found == 0 {
		c.Bad("target", key, c.P.Pos(fn.Pos()), "no target is ever returned", nil)
	}
}
