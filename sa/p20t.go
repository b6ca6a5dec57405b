package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// p20tables: the fixed part of an image.  The system area, the volume descriptors and the two path
// tables follow one another; each table is written, in its byte order, at the place in the sequence
// at which its blocks were allotted, from records made after the directories have their addresses.
func (c *Check) p20tables() {
	named := c.named(isoRel, "Volume")
	if named == nil {
		c.Bad("fixed", "Volume", "", "not found", nil)
		return
	}
	fn := c.P.Method(named, "WriteMetadataTo")
	if fn == nil {
		c.Bad("fixed", "Volume.WriteMetadataTo", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("fixed", key, c.P.Pos(fn.Pos()))
	bad := func(s *Sim, st *State, in ssa.Instruction, sub, msg string) {
		c.Bad("fixed", key+" "+sub, c.P.InstrPos(in), msg, s.Path(st))
	}
	recvName := func(ev *CallEv) string {
		if len(ev.Args) > 0 {
			if t := namedOf(ev.Args[0].typ); t != nil {
				return t.Obj().Name()
			}
		}
		return ""
	}
	order := func(t *Term) string {
		o := ""
		walkTerm(t, func(x *Term) {
			if x.op == OpGlobal {
				switch {
				case strings.HasSuffix(x.aux, "binary.LittleEndian"):
					o = "L"
				case strings.HasSuffix(x.aux, "binary.BigEndian"):
					o = "M"
				}
			}
		})
		return o
	}
	// assigns: the directories are visited to set their addresses
	assigns := func(ev *CallEv) bool {
		for _, a := range ev.Args {
			if a.op == OpClosure && touches(c.P, a.fn, func(cc *ssa.CallCommon) bool { return base(c.P.calleeName(cc)) == "SetStart" }) {
				return true
			}
		}
		return false
	}
	of := map[string]bool{"WriteTo": true, "Encode": true, "ToPathTable": true, "PathTableEncodedLen": true, "NewPathTableEncoder": true, "VisitDirectories": true, "Alloc": true}
	ended := 0
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			if !pkgInline(c)(s, st, ev) || c.isPad(ev.Callee) {
				return false
			}
			if of[base(ev.Name)] || base(ev.Name) == "VisitFiles" {
				return false
			}
			return touches(c.P, ev.Callee, func(cc *ssa.CallCommon) bool {
				return of[base(c.P.calleeName(cc))] || ev.Callee.Parent() == nil && cc.StaticCallee() != nil && c.isPad(cc.StaticCallee())
			})
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Inlined {
				return nil
			}
			b := base(ev.Name)
			seq := st.marks["seq"].S
			switch {
			case b == "ToPathTable":
				era := "0"
				if strings.HasSuffix(st.marks["alloc"].S, "D") {
					era = "1"
				}
				st.marks[fmt.Sprint("pt", ev.Result.id)] = Mark{S: era, T: ev.Result}
			case b == "NewPathTableEncoder" && len(ev.Args) == 2:
				st.marks[fmt.Sprint("en", ev.Result.id)] = Mark{S: order(ev.Args[0]), T: ev.Result}
			case b == "VisitDirectories" && assigns(ev) && !strings.HasSuffix(st.marks["alloc"].S, "D"):
				st.marks["alloc"] = Mark{S: st.marks["alloc"].S + "D"}
			case ev.Callee != nil && c.isPad(ev.Callee):
				if k, ok := ev.Args[1].IntConst(); ok && k == 16*sectorSize {
					st.marks["seq"] = Mark{S: seq + "S"}
				}
			case b == "WriteTo" && (recvName(ev) == "PrimaryVolumeDescriptor" || recvName(ev) == "Terminator"):
				if recvName(ev) == "PrimaryVolumeDescriptor" && !strings.HasSuffix(st.marks["alloc"].S, "D") {
					bad(s, st, ev.Site, "descriptor", "the volume descriptor is written before the addresses it holds are assigned")
				}
				st.marks["seq"] = Mark{S: seq + recvName(ev)[:1]}
			case b == "Encode" && recvName(ev) == "PathTableEncoder":
				o := st.marks[fmt.Sprint("en", strip(ev.Args[0]).id)].S
				if o == "" {
					o = "?"
				}
				if e := st.marks[fmt.Sprint("cell", strip(ev.Args[1]).id)].S; e != "1" {
					bad(s, st, ev.Site, "records", "a path table is written from records made before the directories have their addresses")
				}
				st.marks["seq"] = Mark{S: seq + o}
			case b == "Alloc":
				st.marks[fmt.Sprint("al", ev.Result.id)] = Mark{S: "y", T: ev.Result}
			}
			if e := s.ErrRes(ev); e != nil {
				s.Assume(st, s.T.IsNil(e), true)
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if m, ok := st.marks[fmt.Sprint("pt", val.id)]; ok {
				st.marks[fmt.Sprint("cell", addr.id)] = Mark{S: m.S, T: addr}
			}
			if addr.op != OpFieldAddr {
				return
			}
			switch addr.aux {
			case "LTableStart", "MTableStart":
				if _, ok := st.marks[fmt.Sprint("al", strip(val).id)]; !ok {
					bad(s, st, in, addr.aux, "the place of a path table is not one that was allotted: "+val.String())
				}
				st.marks["alloc"] = Mark{S: st.marks["alloc"].S + addr.aux[:1]}
			case "PathTableSize":
				v := strip(val)
				if !strings.Contains(v.aux, "PathTableEncodedLen") {
					bad(s, st, in, addr.aux, "the size of the path table is not the length of its encoding: "+val.String())
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			ended++
			if al := strings.TrimSuffix(st.marks["alloc"].S, "D"); st.marks["seq"].S != "SPT"+al || al != "LM" {
				bad(s, st, in, "sequence", fmt.Sprintf("written: %s, allotted: %s (S system area, P and T volume descriptors, L and M path tables, D directories)", st.marks["seq"].S, st.marks["alloc"].S))
			}
		},
	})
	s.Depth = 10
	c.Run(s, fn, nil)
	if ended == 0 {
		c.Bad("fixed", key, c.P.Pos(fn.Pos()), "no successful path was followed", nil)
	}
}
