package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Date and character fields.

const dateRel = isoRel + "/datetime"

// ECMA-119 8.4.26.1 and 9.1.5: position -> width and component
var decPieces = map[int]string{0: "4 Year", 4: "2 Month", 6: "2 Day", 8: "2 Hour", 10: "2 Minute", 12: "2 Second", 14: "2 Nanosecond/10000000"}
var entryPieces = map[int]string{0: "1 Year-1900", 1: "1 Month", 2: "1 Day", 3: "1 Hour", 4: "1 Minute", 5: "1 Second"}

// component of the UTC time a value is.
func (c *Check) dateComp(t *Term, par *Term) string {
	for t.op == OpMkIface || t.op == OpConv {
		t = t.args[0]
	}
	if k, ok := t.IntConst(); ok {
		return fmt.Sprint(k)
	}
	if t.op == OpPoly {
		ms, k := c.T.toPoly(t)
		if len(ms) == 1 && ms[0].c == 1 && len(ms[0].a) == 1 {
			return fmt.Sprintf("%s%+d", c.dateComp(ms[0].a[0], par), k)
		}
		return t.String()
	}
	if t.op == OpBin && t.aux == "/" {
		return c.dateComp(t.args[0], par) + "/" + t.args[1].String()[1:len(t.args[1].String())-1]
	}
	if t.op == OpExtract && len(t.args) == 1 { // t.Date(), t.Clock()
		u := t.args[0]
		n := base(u.aux)
		names := map[string][]string{"Date": {"Year", "Month", "Day"}, "Clock": {"Hour", "Minute", "Second"}}[n]
		if i, err := strconv.Atoi(t.aux); err == nil && i < len(names) && len(u.args) > 0 && c.isUTC(u.args[0], par) {
			return names[i]
		}
		return t.String()
	}
	if (t.op == OpOpaque || t.op == OpPure) && len(t.args) > 0 {
		if c.isUTC(t.args[0], par) {
			return base(t.aux)
		}
		return base(t.aux) + " of a time not converted to UTC"
	}
	return t.String()
}

func (c *Check) isUTC(t, par *Term) bool {
	return (t.op == OpOpaque || t.op == OpPure) && base(t.aux) == "UTC" && len(t.args) == 1 && (t.args[0] == par || c.isUTC(t.args[0], par))
}

// formatPieces: which component is where in a formatted string.
func (c *Check) formatPieces(t *Term, par *Term) (map[int]string, int) {
	out := map[int]string{}
	if t.op != OpOpaque && t.op != OpPure || len(t.args) == 0 {
		return nil, 0
	}
	switch {
	case t.aux == "fmt.Sprintf":
		f, ok := t.args[0].StrConst()
		if !ok {
			return nil, 0
		}
		off, arg := 0, 1
		for i := 0; i < len(f); {
			if i+3 < len(f) && f[i] == '%' && f[i+1] == '0' && f[i+2] >= '1' && f[i+2] <= '9' && f[i+3] == 'd' && arg < len(t.args) {
				w := int(f[i+2] - '0')
				out[off] = fmt.Sprintf("%d %s", w, c.dateComp(t.args[arg], par))
				off += w
				arg++
				i += 4
				continue
			}
			return nil, 0
		}
		return out, off
	case base(t.aux) == "Format" && len(t.args) == 2 && c.isUTC(t.args[0], par):
		f, _ := t.args[1].StrConst()
		return layoutPieces(f), len(f)
	}
	return nil, 0
}

func layoutPieces(f string) map[int]string {
	out := map[int]string{}
	for i := 0; i < len(f); {
		hit := false
		for _, k := range []struct{ tok, name string }{{"2006", "4 Year"}, {"01", "2 Month"}, {"02", "2 Day"}, {"15", "2 Hour"}, {"04", "2 Minute"}, {"05", "2 Second"}} {
			if strings.HasPrefix(f[i:], k.tok) {
				out[i] = k.name
				i += len(k.tok)
				hit = true
				break
			}
		}
		if !hit {
			return nil
		}
	}
	return out
}

func (c *Check) p20dates() {
	for _, d := range []struct {
		fn, typ string
		n       int64
		want    map[int]string
	}{{"NewDecDateTime", "DecDateTime", 17, decPieces}, {"NewEntryDateTime", "EntryDateTime", 7, entryPieces}} {
		d := d
		fn := c.P.Lookup(dateRel, d.fn)
		named := c.named(dateRel, d.typ)
		if fn == nil || named == nil {
			c.Bad("date", d.fn, "", "not found", nil)
			continue
		}
		c.Ob("date", d.fn, c.P.Pos(fn.Pos()))
		if at, ok := named.Underlying().(*types.Array); !ok || at.Len() != d.n {
			c.Bad("date", d.fn, c.P.Pos(fn.Pos()), fmt.Sprintf("%s is not %d bytes long", d.typ, d.n), nil)
			continue
		}
		var par *Term
		put := func(s *Sim, st *State, off int, piece string) {
			st.marks[fmt.Sprintf("d:%02d", off)] = Mark{S: piece}
		}
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
				if addr.op != OpIndexAddr {
					return
				}
				if at, ok := deref(addr.args[0].typ).Underlying().(*types.Array); !ok || at.Len() != d.n {
					return
				}
				k, ok := addr.args[1].IntConst()
				if !ok {
					c.Bad("date", d.fn, c.P.InstrPos(in), "a byte is stored at a position that varies", s.Path(st))
					return
				}
				if v, ok := val.IntConst(); ok && v == 0 {
					delete(st.marks, fmt.Sprintf("d:%02d", k))
					return
				}
				put(s, st, int(k), "1 "+c.dateComp(val, par))
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Name != "copy" || ev.Args[0].op != OpSlice {
					return
				}
				lo, ok1 := ev.Args[0].args[1].IntConst()
				hi, ok2 := ev.Args[0].args[2].IntConst()
				src := ev.Args[1]
				for src.op == OpConv {
					src = src.args[0]
				}
				ps, w := c.formatPieces(src, par)
				if !ok1 || !ok2 || ps == nil {
					c.Bad("date", d.fn, c.P.InstrPos(ev.Site), "digits of unknown origin are stored: "+src.String(), s.Path(st))
					return
				}
				if int64(w) > hi-lo {
					c.Bad("date", d.fn, c.P.InstrPos(ev.Site), fmt.Sprintf("%d digits are stored in %d bytes", w, hi-lo), s.Path(st))
				}
				for o, p := range ps {
					put(s, st, int(lo)+o, p)
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				for o, w := range d.want {
					if g := st.marks[fmt.Sprintf("d:%02d", o)].S; g != w {
						c.Bad("date", d.fn, c.P.InstrPos(in), fmt.Sprintf("position %d holds %q instead of %q", o, g, w), s.Path(st))
						return
					}
				}
				for k, m := range st.marks {
					if strings.HasPrefix(k, "d:") {
						o, _ := strconv.Atoi(k[2:])
						if _, ok := d.want[o]; !ok {
							c.Bad("date", d.fn, c.P.InstrPos(in), fmt.Sprintf("position %d holds %q; the offset from UTC is zero", o, m.S), s.Path(st))
							return
						}
					}
				}
			},
		})
		c.Run(s, fn, func(st *State, params, frees []*Term) { par = params[0] })

		ts := c.P.Method(named, "Timestamp")
		if ts == nil {
			c.Bad("date", d.typ+".Timestamp", "", "not found", nil)
			continue
		}
		c.p20timestamp(ts, d.typ, d.n)
	}
	c.p20maxDate()
}

// p20timestamp: reading a date back.
func (c *Check) p20timestamp(fn *ssa.Function, typ string, n int64) {
	key := typ + ".Timestamp"
	c.Ob("date", key, c.P.Pos(fn.Pos()))
	var par *Term
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("date", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	at := func(t *Term) string { // date byte plus a constant
		for t.op == OpConv {
			t = t.args[0]
		}
		ms, k := c.T.toPoly(t)
		if len(ms) != 1 || ms[0].c != 1 || len(ms[0].a) != 1 {
			return t.String()
		}
		e := ms[0].a[0]
		if e.op == OpPure && e.aux == "elem" && e.args[0] == par {
			i, _ := e.args[1].IntConst()
			return fmt.Sprintf("%d%+d", i, k)
		}
		return t.String()
	}
	found := 0
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			switch ev.Name {
			case "time.Date":
				if typ != "EntryDateTime" {
					return
				}
				found++
				for i, w := range []string{"0+1900", "1+0", "2+0", "3+0", "4+0", "5+0"} {
					if g := at(ev.Args[i]); g != w {
						bad(s, st, ev.Site, fmt.Sprintf("argument %d of the date is %s instead of byte %s", i, g, w))
						return
					}
				}
				if k, ok := ev.Args[6].IntConst(); !ok || k != 0 {
					bad(s, st, ev.Site, "the short form has no fraction of a second")
				}
				st.marks["made"] = Mark{S: "1"}
			case "time.Parse":
				if typ != "DecDateTime" {
					return
				}
				found++
				f, ok := ev.Args[0].StrConst()
				src := ev.Args[1]
				for src.op == OpConv {
					src = src.args[0]
				}
				if !ok || src.op != OpSlice {
					bad(s, st, ev.Site, "the digits parsed are not a fixed part of the date")
					return
				}
				lo, ok1 := src.args[1].IntConst()
				hi, ok2 := src.args[2].IntConst()
				if !ok1 || !ok2 || st.cells[src.args[0]] != par || hi-lo != int64(len(f)) {
					bad(s, st, ev.Site, "the digits parsed are not those of the layout")
					return
				}
				ps := layoutPieces(f)
				for o, w := range decPieces {
					if o < 14 && ps[o-int(lo)] != w {
						bad(s, st, ev.Site, fmt.Sprintf("position %d is not read as %s", o, w))
						return
					}
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Name == "time.Parse" {
				st.marks["t"] = Mark{T: s.Res(ev, 0)}
				st.marks["e"] = Mark{T: s.ErrRes(ev)}
			}
			if ev.Name == "time.Date" {
				st.marks["t"] = Mark{T: ev.Result}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			t := st.marks["t"].T
			if e := st.marks["e"].T; e != nil && s.Eval(st, s.T.IsNil(e)) == 0 {
				return
			}
			r := res[0]
			for (r.op == OpOpaque || r.op == OpPure) && base(r.aux) == "UTC" && len(r.args) == 1 {
				r = r.args[0]
			}
			if t == nil || r != t {
				bad(s, st, in, "returns something else than the time read: "+res[0].String())
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) { par = params[0] })
	if found == 0 {
		c.Bad("date", key, c.P.Pos(fn.Pos()), "no date is made from the bytes", nil)
	}
}

// p20maxDate: the unspecified date is sixteen '0' digits and a zero byte.
func (c *Check) p20maxDate() {
	key := "MaxDecDateTime"
	c.Ob("date", key, "")
	for _, pkg := range c.P.SSA.AllPackages() {
		if pkg.Pkg == nil || !strings.HasSuffix(pkg.Pkg.Path(), dateRel) {
			continue
		}
		g, _ := pkg.Members[key].(*ssa.Global)
		init := pkg.Func("init")
		if g == nil || init == nil {
			continue
		}
		vals := map[int64]int64{}
		whole := false
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if st.Addr == ssa.Value(g) {
					whole = true
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				at, ok := deref(ia.X.Type()).Underlying().(*types.Array)
				k, ok2 := ia.Index.(*ssa.Const)
				v, ok3 := st.Val.(*ssa.Const)
				if ok && ok2 && at.Len() == 17 {
					if !ok3 {
						c.Bad("date", key, c.P.InstrPos(in), "a byte of the unspecified date is not fixed", nil)
						continue
					}
					vals[k.Int64()] = v.Int64()
					if ia.X == ssa.Value(g) {
						whole = true
					}
				}
			}
		}
		if !whole {
			c.Bad("date", key, c.P.Pos(g.Pos()), "the unspecified date is never set", nil)
			return
		}
		for i := int64(0); i < 17; i++ {
			w := int64('0')
			if i == 16 {
				w = 0
			}
			if vals[i] != w {
				c.Bad("date", key, c.P.Pos(g.Pos()), fmt.Sprintf("byte %d of the unspecified date is %d instead of %d", i, vals[i], w), nil)
			}
		}
		return
	}
	c.Bad("date", key, "", "not found", nil)
}

func (c *Check) p20text() {
	for _, n := range []string{"StrA", "StrD"} {
		fn := c.P.Lookup(isoRel, n)
		if fn == nil || len(fn.Params) != 2 {
			c.Bad("text", n, "", "not found", nil)
			continue
		}
		n := n
		c.Ob("text", n, c.P.Pos(fn.Pos()))
		var par, length *Term
		bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
			c.Bad("text", n, c.P.InstrPos(in), msg, s.Path(st))
		}
		wrote := 0
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
				t := cond
				for t.op == OpNot {
					t = t.args[0]
				}
				if t.op != OpLt0 {
					return
				}
				ms, _ := s.T.toPoly(t.args[0])
				for _, m := range ms {
					if len(m.a) == 1 && m.a[0] != length {
						st.marks["x"] = Mark{T: m.a[0]}
					}
				}
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				switch base(ev.Name) {
				case "WriteRune", "WriteByte":
					wrote++
					if st.marks["w"].S != "" {
						bad(s, st, ev.Site, "more than one character is written for one of the input")
					}
					st.marks["w"] = Mark{S: "1"}
					x := st.marks["x"].T
					if x == nil || s.Eval(st, s.T.Lt(x, length)) != 1 {
						bad(s, st, ev.Site, "a character is written although the field may be full")
					}
					v := ev.Args[1]
					if k, ok := v.IntConst(); ok && k < 128 {
						break
					}
					known := false
					for f, val := range st.facts {
						if val && f.op == OpPure && f.aux == "lookupok" && f.args[1] == v && strings.Contains(f.args[0].String(), n) {
							known = true
						}
					}
					if !known {
						bad(s, st, ev.Site, "a character is written that is not known to be allowed")
					}
				case "WriteString", "Write":
					if strings.HasPrefix(ev.Name, "(*strings.Builder)") {
						bad(s, st, ev.Site, "text of unknown length is written")
					}
				}
			},
			BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
				delete(st.marks, "w")
				delete(st.marks, "x")
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				r := res[0]
				ok := false
				if (r.op == OpOpaque || r.op == OpPure) && r.aux == "fmt.Sprintf" && len(r.args) >= 2 {
					f := r.args[0]
					if k, isc := f.StrConst(); isc {
						ok = k == "%-*s" && len(r.args) == 3 && strip(r.args[1]) == length
					} else if (f.op == OpOpaque || f.op == OpPure) && f.aux == "fmt.Sprintf" && len(f.args) == 2 {
						k, _ := f.args[0].StrConst()
						ok = k == "%%-%ds" && strip(f.args[1]) == length && len(r.args) == 2
					}
					last := strip(r.args[len(r.args)-1])
					if base(last.aux) != "String" {
						ok = false
					}
				}
				if !ok {
					bad(s, st, in, "the text is not filled up to the field's width with spaces on the right: "+r.String())
				}
			},
		})
		c.Run(s, fn, func(st *State, params, frees []*Term) {
			par, length = params[0], params[1]
			st.marks["len"] = Mark{T: length}
		})
		_ = par
		if wrote == 0 {
			c.Bad("text", n, c.P.Pos(fn.Pos()), "no character is written", nil)
		}
	}
}
