package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P15 (ranged reads of remote objects) and P16 (retrying transport).

// fieldLoadOf: t is the value of field name of any struct; returns the struct pointer.
func fieldLoadOf(t *Term, name string) *Term {
	t = strip(t)
	if t.op == OpLoad && t.args[0].op == OpFieldAddr && t.args[0].aux == name {
		return t.args[0].args[0]
	}
	return nil
}

func checkP15(c *Check) {
	c.Rule("asked", "the range asked of the server is the requested one, clamped to the object", 1)
	c.Rule("accepted", "a body is read into the caller's buffer only after status, range start, range end, response length and total were checked", 1)
	c.Rule("full", "a ranged read succeeds only with the whole body", 1)
	c.Rule("untouched", "nothing else writes the caller's buffer", 1)
	c.Rule("content-range", "a content range is accepted only if the whole header matches and its three numbers are consistent", 1)
	c.Rule("size", "the size of a remote object comes only from a successful answer", 1)
	for _, fn := range c.P.Funcs {
		if isReadAt(fn) && touches(c.P, fn, func(cc *ssa.CallCommon) bool { return c.P.calleeName(cc) == "(*net/http.Client).Do" }) {
			c.p15read(fn)
		}
	}
	if fn := c.P.Lookup("pkg/httputil", "GetContentRange"); fn != nil {
		c.p15range(fn)
	}
	if fn := c.P.Lookup("pkg/storage/http", "Stat"); fn != nil {
		c.p15stat(fn)
	}
}

// returnedField: the receiver's field a getter returns.
func returnedField(fn *ssa.Function) string {
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			continue
		}
		v := ret.Results[0]
		for {
			if cv, ok := v.(*ssa.Convert); ok {
				v = cv.X
				continue
			}
			break
		}
		if ld, ok := v.(*ssa.UnOp); ok {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok && len(fn.Params) > 0 && types.Identical(fa.X.Type(), fn.Params[0].Type()) {
				return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
			}
		}
	}
	return ""
}

func isHeaderSet(name string) bool {
	return name == "(net/http.Header).Set" || name == "(net/http.Header).Add"
}

func (c *Check) p15read(fn *ssa.Function) {
	key := c.P.FnName(fn)
	var recv, p, off *Term
	sizeField := ""
	if m := c.P.Method(fn.Signature.Recv().Type(), "Size"); m != nil {
		sizeField = returnedField(m)
	}
	isSize := func(t *Term) bool {
		t = strip(t)
		return t.op == OpLoad && t.args[0].op == OpFieldAddr && t.args[0].args[0] == recv && t.args[0].aux == sizeField
	}
	// isEnd: t + k is the end of the clamped request
	isEnd := func(s *Sim, st *State, t *Term, k int64) bool {
		x := s.T.Add(t, s.T.Int(k))
		end := s.T.Add(off, s.Len(p))
		if x == end {
			// not clamped: known to be inside
			if mk, ok := st.marks["size"]; ok {
				return s.Eval(st, s.T.Lt(mk.T, end)) == 0
			}
			return false
		}
		if isSize(x) {
			return s.Eval(st, s.T.Lt(end, x)) == 0
		}
		return false
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			if !c.P.IsModule(ev.Callee) {
				return false
			}
			r := c.P.Rel(ev.Callee)
			n := ev.Callee.Name()
			return r == "pkg/safecast" || r == c.P.Rel(fn) && n != "Stat" && n != "logger" || r == "pkg/httputil" && n != "GetContentRange"
		},
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return false },
		Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
			if addr.op == OpFieldAddr && addr.args[0] == recv && addr.aux == sizeField {
				st.marks["size"] = Mark{T: val}
			}
			return nil
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			pos := c.P.InstrPos(ev.Site)
			if isHeaderSet(ev.Name) && len(ev.Args) == 3 {
				if k, ok := ev.Args[1].StrConst(); ok && strings.EqualFold(k, "Range") {
					c.Ob("asked", key, pos)
					a, b, ok := rangeHeader(s, ev.Args[2])
					if !ok || a != off || !isEnd(s, st, b, 1) {
						c.Bad("asked", key, pos, "the range header does not name the requested bytes: "+ev.Args[2].String(), s.Path(st))
					}
					if sz, ok := st.marks["size"]; !ok || s.Eval(st, s.T.Lt(off, sz.T)) != 1 {
						c.Bad("asked", key, pos, "a range that starts beyond the object is asked for", s.Path(st))
					}
					st.marks["asked"] = Mark{S: "y"}
				}
			}
			if ev.Name == "(*net/http.Client).Do" {
				if _, ok := st.marks["asked"]; !ok {
					c.Bad("asked", key, pos, "the request is sent without a range header", s.Path(st))
				}
			}
			if ev.Inlined {
				return
			}
			for i, a := range ev.Args {
				if a = strip(a); a != p && !(a.op == OpSlice && a.args[0] == p) {
					continue
				}
				if ev.Name == "len" || ev.Name == "cap" {
					continue
				}
				c.Ob("untouched", key, pos)
				if ev.Name != "io.ReadFull" || i != 1 {
					c.Bad("untouched", key, pos, "the caller's buffer is filled by "+ev.Name+", not by a full read of the body", s.Path(st))
					continue
				}
				c.Ob("accepted", key, pos)
				if r := fieldLoadOf(ev.Args[0], "Body"); r == nil {
					c.Bad("accepted", key, pos, "what is read is not the response's body", s.Path(st))
				}
				for _, k := range []struct{ m, what string }{{"status", "that the status is 206"}, {"first", "that the answered range starts at the requested offset"}, {"last", "that the answered range ends at the requested end"}, {"len", "that the response length equals the answered range"}, {"total", "the total against the object's size"}} {
					if _, ok := st.marks[k.m]; !ok {
						c.Bad("accepted", key, pos, "the body is read without having checked "+k.what, s.Path(st))
					}
				}
				if a.op == OpSlice {
					n := s.T.Sub(a.args[2], a.args[1])
					if a.args[1] != s.T.Int(0) || fieldLoadOf(n, "ContentLength") == nil && !isEnd(s, st, s.T.Add(n, off), 0) {
						c.Bad("accepted", key, pos, "the part of the buffer filled is not the requested range", s.Path(st))
					}
				} else if s.Eval(st, s.T.Lt(st.marks["size"].T, s.T.Add(off, s.Len(p)))) != 0 {
					c.Bad("accepted", key, pos, "more than the requested range is read into the buffer", s.Path(st))
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Name == "io.ReadFull" && !ev.Inlined {
				if a := strip(ev.Args[1]); a == p || a.op == OpSlice && a.args[0] == p {
					st.marks["n"] = Mark{T: s.Res(ev, 0)}
					st.marks["rerr"] = Mark{T: s.Res(ev, 1)}
				}
			}
			if base(ev.Name) == "GetContentRange" {
				st.marks["crerr"] = Mark{T: s.Res(ev, 1)}
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if cond.op != OpEq0 && cond.op != OpLt0 {
				return
			}
			poly := cond.args[0]
			ms, k := s.T.toPoly(poly)
			has := map[string]int64{}
			var rest []*Term
			for _, m := range ms {
				if len(m.a) != 1 {
					return
				}
				t := m.a[0]
				hit := false
				for _, f := range []string{"StatusCode", "First", "Last", "Total", "ContentLength"} {
					if fieldLoadOf(t, f) != nil {
						has[f] = m.c
						hit = true
					}
				}
				if hit {
					continue
				}
				rest = append(rest, s.T.Mul(s.T.Int(m.c), t))
			}
			sum := s.T.Int(k)
			for _, r := range rest {
				sum = s.T.Add(sum, r)
			}
			if cond.op == OpEq0 && taken {
				switch {
				case len(has) == 1 && has["StatusCode"] != 0 && len(rest) == 0:
					if k*has["StatusCode"] == -206 {
						st.marks["status"] = Mark{S: "y"}
					}
				case len(has) == 1 && has["First"] != 0:
					if s.T.Mul(s.T.Int(-has["First"]), sum) == off {
						st.marks["first"] = Mark{S: "y"}
					}
				case len(has) == 1 && has["Last"] != 0:
					if isEnd(s, st, s.T.Mul(s.T.Int(-has["Last"]), sum), 1) {
						st.marks["last"] = Mark{S: "y"}
					}
				case len(has) == 3 && has["First"] != 0 && has["Last"] == -has["First"] && has["ContentLength"] == has["First"] && len(rest) == 0 && k == has["Last"]:
					st.marks["len"] = Mark{S: "y"}
				case len(has) == 1 && has["ContentLength"] != 0:
					// the response length against the request's own length
					if isEnd(s, st, s.T.Add(off, s.T.Mul(s.T.Int(-has["ContentLength"]), sum)), 0) {
						st.marks["len"] = Mark{S: "y"}
					}
				case len(has) == 1 && has["Total"] != 0:
					if isSize(s.T.Mul(s.T.Int(-has["Total"]), sum)) {
						st.marks["total"] = Mark{S: "y"}
					}
				}
			}
			if cond.op == OpLt0 && len(has) == 1 && has["Total"] != 0 {
				// total >= size known?
				if sz, ok := st.marks["size"]; ok {
					var tot *Term
					for _, m := range ms {
						if fieldLoadOf(m.a[0], "Total") != nil {
							tot = m.a[0]
						}
					}
					if s.Eval(st, s.T.Lt(tot, sz.T)) == 0 {
						st.marks["total"] = Mark{S: "y"}
					}
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			if s.Eval(st, s.T.IsNil(res[1])) == 0 {
				return
			}
			if s.Eval(st, s.T.Eq(s.Len(p), s.T.Int(0))) == 1 {
				return
			}
			c.Ob("full", key, pos)
			n, ok := st.marks["n"]
			if !ok {
				c.Bad("full", key, pos, "a read that received no body reports success", s.Path(st))
				return
			}
			if res[1] != st.marks["rerr"].T && s.Eval(st, s.T.IsNil(st.marks["rerr"].T)) != 1 {
				c.Bad("full", key, pos, "an incomplete body is not reported", s.Path(st))
			}
			if strip(res[0]) != n.T {
				c.Bad("full", key, pos, "the count reported is not what arrived", s.Path(st))
			}
		},
	})
	s.Depth = 6
	c.Run(s, fn, func(st *State, ps, fs []*Term) {
		recv, p, off = ps[0], ps[1], ps[2]
		for i, t := range ps {
			st.marks[fmt.Sprint("p", i)] = Mark{T: t}
		}
	})
}

// rangeHeader: "bytes=%d-%d" with its two numbers.
func rangeHeader(s *Sim, t *Term) (a, b *Term, ok bool) {
	f, args := sprintf(t)
	if f != "bytes=%d-%d" && f != "bytes=%v-%v" || len(args) != 2 {
		return nil, nil, false
	}
	return strip(args[0]), strip(args[1]), true
}

// sprintf: format and operands of a formatted string.
func sprintf(t *Term) (string, []*Term) {
	if t.op != OpPure || t.aux != "fmt.Sprintf" || len(t.args) == 0 {
		return "", nil
	}
	f, ok := t.args[0].StrConst()
	if !ok {
		return "", nil
	}
	return f, t.args[1:]
}

func (c *Check) p15range(fn *ssa.Function) {
	key := c.P.FnName(fn)
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			if s.Eval(st, s.T.IsNil(res[1])) == 0 {
				return
			}
			c.Ob("content-range", key, pos)
			if s.Eval(st, s.T.IsNil(res[1])) != 1 {
				c.Bad("content-range", key, pos, "whether the header was accepted is not decided", s.Path(st))
				return
			}
			r := strip(res[0])
			n := namedOf(r.typ)
			if n == nil || structHas(n, "First") == false {
				c.Bad("content-range", key, pos, "what is returned is not known", s.Path(st))
				return
			}
			first, last, total := structField(s, st, r, n, "First"), structField(s, st, r, n, "Last"), structField(s, st, r, n, "Total")
			for i, t := range []*Term{first, last, total} {
				if !parsedPart(c.P, t, int64(i+1)) {
					c.Bad("content-range", key, pos, fmt.Sprintf("number %d of the header is taken from %s", i+1, t), s.Path(st))
				}
			}
			if s.Eval(st, s.T.Eq(total, s.T.Int(0))) == 1 {
				return // nothing is inside an empty object; the reader compares the total with the object's size
			}
			le := func(a, b *Term) bool { return s.Eval(st, s.T.Lt(b, a)) == 0 }
			if !le(first, last) || s.Eval(st, s.T.Lt(last, total)) != 1 {
				// a total of zero may still be possible
				if s.Eval(st, s.T.Lt(s.T.Int(0), total)) != 0 {
					c.Bad("content-range", key, pos, "a range whose numbers are inconsistent is accepted", s.Path(st))
				}
			}
		},
	})
	c.Run(s, fn, nil)
	// the pattern
	found := false
	for _, m := range c.P.Funcs {
		if c.P.Rel(m) != "pkg/httputil" {
			continue
		}
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(c.P.calleeName(ci.Common()), "regexp.") || len(ci.Common().Args) != 1 {
					continue
				}
				k, ok := ci.Common().Args[0].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				pat := constant.StringVal(k.Value)
				if !strings.Contains(pat, "bytes") {
					continue
				}
				found = true
				c.Ob("content-range", key, c.P.InstrPos(in))
				if !wholeNumbers(pat) {
					c.Bad("content-range", key, c.P.InstrPos(in), "the pattern "+pat+" does not match the whole header with three decimal numbers", nil)
				}
			}
		}
	}
	if !found {
		c.Bad("content-range", key, c.P.Pos(fn.Pos()), "the pattern of the header was not found", nil)
	}
}

func structHas(n *types.Named, f string) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return true
		}
	}
	return false
}

// wholeNumbers: the pattern is anchored at both ends and is "bytes N-N/N".
func wholeNumbers(pat string) bool {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	re = re.Simplify()
	if re.Op != syntax.OpConcat {
		return false
	}
	var got []string
	for _, s := range re.Sub {
		switch s.Op {
		case syntax.OpBeginText:
			got = append(got, "^")
		case syntax.OpEndText:
			got = append(got, "$")
		case syntax.OpLiteral:
			got = append(got, string(s.Rune))
		case syntax.OpCapture:
			d := s.Sub[0]
			if d.Op != syntax.OpPlus || d.Sub[0].String() != "[0-9]" {
				return false
			}
			got = append(got, "N")
		default:
			return false
		}
	}
	return strings.Join(got, "") == "^bytes N-N/N$"
}

// parsedPart: t is the number parsed from part i of a match.
func parsedPart(p *Prog, t *Term, i int64) bool {
	t = strip(t)
	if t.op != OpExtract {
		return false
	}
	call := t.args[0]
	if !strings.HasPrefix(call.aux, "strconv.ParseUint") && !strings.HasPrefix(call.aux, "strconv.ParseInt") || len(call.args) < 1 {
		return false
	}
	a := strip(call.args[0])
	var idx *Term
	if x := indexOf(a); x != nil {
		idx = x
	} else if a.op == OpLoad && a.args[0].op == OpIndexAddr {
		idx = a.args[0].args[1]
	}
	if idx == nil {
		return false
	}
	v, ok := idx.IntConst()
	return ok && v == i
}

func (c *Check) p15stat(fn *ssa.Function) {
	key := c.P.FnName(fn)
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if cond.op != OpEq0 || !taken {
				return
			}
			ms, k := s.T.toPoly(cond.args[0])
			if len(ms) == 1 && len(ms[0].a) == 1 && k*ms[0].c == -200 {
				if r := fieldLoadOf(ms[0].a[0], "StatusCode"); r != nil {
					st.marks[fmt.Sprint("ok", r.id)] = Mark{T: r}
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			if s.Eval(st, s.T.IsNil(res[1])) == 0 {
				return
			}
			c.Ob("size", key, pos)
			v := strip(res[0])
			good := false
			if r := fieldLoadOf(v, "ContentLength"); r != nil {
				_, good = st.marks[fmt.Sprint("ok", r.id)]
				if s.Eval(st, s.T.Lt(v, s.T.Int(0))) != 0 {
					c.Bad("size", key, pos, "an unknown length is reported as the size", s.Path(st))
				}
			} else if v.op == OpLen {
				for k := range st.marks {
					if strings.HasPrefix(k, "ok") {
						good = true
					}
				}
			}
			if !good {
				c.Bad("size", key, pos, "the size "+v.String()+" is not taken from a successful answer", s.Path(st))
			}
		},
	})
	c.Run(s, fn, nil)
}

// P16

func isRoundTrip(ev *CallEv) bool {
	return base(ev.Name) == "RoundTrip" && !ev.Inlined
}

func checkP16(c *Check) {
	c.Rule("transient", "a request is repeated only after a transport error, a 5xx or a 429 answer", 1)
	c.Rule("repeated", "a transient failure is given up only because of the back-off, the request's context or its body", 1)
	c.Rule("bounded", "a repetition waits for the back-off, which ends", 1)
	c.Rule("body", "a repeated request carries a body that was not consumed", 1)
	c.Rule("discarded", "a discarded response is closed before the next attempt", 1)
	c.Rule("answer", "what is returned is the response and the error of the last attempt", 1)
	var tgt *ssa.Function
	if w := c.P.Lookup("pkg/httputil", "WithRetries"); w != nil {
		for _, b := range w.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok {
					if m := c.P.Method(deref(al.Type()), "RoundTrip"); m != nil {
						tgt = m
					}
				}
			}
		}
	}
	if tgt == nil {
		c.Bad("transient", "httputil.WithRetries", c.P.Mod, "the retrying transport was not found", nil)
		return
	}
	key := c.P.FnName(tgt)
	var req *Term
	reqField := func(t *Term, f string) bool { b := fieldLoadOf(t, f); return b != nil && b == req }
	transient := func(s *Sim, st *State) int {
		resp, err := st.marks["resp"].T, st.marks["err"].T
		if s.Eval(st, s.T.IsNil(err)) == 0 {
			return 1
		}
		status, ok := st.marks["status"]
		if ok && status.S == "bad" {
			return 1
		}
		if ok && status.S == "good" && s.Eval(st, s.T.IsNil(err)) == 1 {
			return 0
		}
		_ = resp
		return -1
	}
	s := c.Sim(Hooks{
		Inline:  pkgInline(c),
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			pos := c.P.InstrPos(ev.Site)
			if ev.Inlined {
				return
			}
			if isRoundTrip(ev) {
				if _, again := st.marks["resp"]; again {
					switch transient(s, st) {
					case 1:
					default:
						if _, ok := st.marks["transient"]; !ok {
							c.Bad("transient", key, pos, "the request is repeated although the answer was not a transient failure", s.Path(st))
						}
					}
					c.Ob("transient", key, pos)
					c.Ob("body", key, pos)
					if st.marks["renewed"].S == "" && st.marks["nobody"].S == "" {
						c.Bad("body", key, pos, "the request is repeated with a body that may have been consumed", s.Path(st))
					}
					c.Ob("discarded", key, pos)
					if st.marks["closed"].S == "" && s.Eval(st, s.T.IsNil(st.marks["resp"].T)) != 1 {
						c.Bad("discarded", key, pos, "the response of the previous attempt is not closed", s.Path(st))
					}
					c.Ob("bounded", key, pos)
					if st.marks["waited"].S == "" {
						c.Bad("bounded", key, pos, "the request is repeated without asking whether the back-off has ended", s.Path(st))
					}
				}
				if len(ev.Args) == 2 && ev.Args[1] != req {
					if !derivedFrom(st, ev.Args[1], req) {
						c.Bad("body", key, pos, "another request is sent than the one given", s.Path(st))
					}
				}
			}
			if base(ev.Name) == "Close" && len(ev.Args) > 0 {
				if b := fieldLoadOf(ev.Args[0], "Body"); b != nil {
					if mk, ok := st.marks["resp"]; ok && b == mk.T {
						st.marks["closed"] = Mark{S: "y"}
					}
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Inlined {
				return nil
			}
			if isRoundTrip(ev) {
				for _, k := range []string{"closed", "renewed", "nobody", "hasget", "waited", "transient", "status", "gaveup", "ended"} {
					delete(st.marks, k)
				}
				st.marks["resp"] = Mark{T: s.Res(ev, 0)}
				st.marks["err"] = Mark{T: s.Res(ev, 1)}
			}
			if base(ev.Name) == "NextBackOff" {
				st.marks["delay"] = Mark{T: s.Res(ev, 0)}
			}
			if base(ev.Name) == "Err" && strings.Contains(ev.Name, "context") {
				st.marks["ctxerr"] = Mark{T: s.Res(ev, 0)}
			}
			if ev.Fun != nil && reqField(ev.Fun, "GetBody") {
				st.marks["body"] = Mark{T: s.Res(ev, 0)}
				st.marks["berr"] = Mark{T: s.Res(ev, 1)}
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OpFieldAddr {
				return
			}
			switch {
			case addr.aux == "Body" && addr.args[0] == req:
				if b, ok := st.marks["body"]; ok && strip(val) == b.T && s.Eval(st, s.T.IsNil(st.marks["berr"].T)) == 1 {
					st.marks["renewed"] = Mark{S: "y"}
					delete(st.marks, "body")
				} else {
					c.Bad("body", key, c.P.InstrPos(in), "the request's body is replaced by something other than a renewed one", s.Path(st))
				}
			case addr.aux == "MaxElapsedTime" || addr.aux == "Multiplier" || addr.aux == "MaxInterval":
				c.Ob("bounded", key, c.P.InstrPos(in))
				if s.Eval(st, s.T.Eq(val, s.T.Zero(val.typ))) != 0 {
					c.Bad("bounded", key, c.P.InstrPos(in), addr.aux+" may be set to zero, which never ends the back-off", s.Path(st))
				}
			}
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			resp, ok := st.marks["resp"]
			if ok {
				if _, ok := st.marks["delay"]; ok {
					d := st.marks["delay"].T
					switch s.Eval(st, s.T.Eq(d, s.T.Int(-1))) {
					case 0:
						st.marks["waited"] = Mark{S: "y"}
					case 1:
						st.marks["ended"] = Mark{S: "y"}
					}
				}
				if cx, ok := st.marks["ctxerr"]; ok && s.Eval(st, s.T.IsNil(cx.T)) == 0 {
					st.marks["gaveup"] = Mark{S: "y"}
				}
			}
			for cond.op == OpNot {
				cond, taken = cond.args[0], !taken
			}
			if ok {
				s.p16status(st, cond, resp.T)
				if transient(s, st) == 1 {
					st.marks["transient"] = Mark{S: "y"}
				}
			}
			var f *Term
			if cond.op == OpNil || cond.op == OpEq {
				f = cond
			}
			if f == nil {
				return
			}
			for _, a := range f.args {
				if reqField(a, "Body") && taken {
					// nil, or equal to the empty body
					other := true
					for _, b := range f.args {
						if b != a && !isNoBody(b) {
							other = false
						}
					}
					if other {
						st.marks["nobody"] = Mark{S: "y"}
					}
				}
				if reqField(a, "GetBody") && cond.op == OpNil && taken {
					st.marks["gaveup"] = Mark{S: "y"}
				}
			}
		},
		Subst: func(s *Sim, st *State, old, new *Term) {
			for k, mk := range st.marks {
				if mk.T == old {
					mk.T = new
					st.marks[k] = mk
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			pos := c.P.InstrPos(in)
			resp, ok := st.marks["resp"]
			c.Ob("answer", key, pos)
			if !ok {
				if s.Eval(st, s.T.IsNil(res[1])) != 0 {
					c.Bad("answer", key, pos, "an answer is returned without an attempt", s.Path(st))
				}
				return
			}
			switch {
			case s.Eval(st, s.T.IsNil(res[0])) == 1 && s.Eval(st, s.T.IsNil(res[1])) == 0:
				if res[1] != st.marks["err"].T && s.Eval(st, s.T.IsNil(resp.T)) != 1 && st.marks["closed"].S == "" {
					c.Bad("discarded", key, pos, "a response that is not returned is not closed", s.Path(st))
				}
			case res[0] == resp.T && res[1] == st.marks["err"].T:
				if st.marks["closed"].S != "" {
					c.Bad("answer", key, pos, "the returned response was closed", s.Path(st))
				}
			case res[0] == resp.T && s.Eval(st, s.T.IsNil(st.marks["err"].T)) == 1 && s.Eval(st, s.T.IsNil(res[1])) == 1:
				if st.marks["closed"].S != "" {
					c.Bad("answer", key, pos, "the returned response was closed", s.Path(st))
				}
			default:
				c.Bad("answer", key, pos, fmt.Sprintf("the response %s is returned with the error %s", res[0], res[1]), s.Path(st))
			}
			if transient(s, st) == 1 {
				c.Ob("repeated", key, pos)
				if st.marks["gaveup"].S == "" && st.marks["ended"].S == "" && s.Eval(st, s.T.IsNil(res[0])) != 1 {
					c.Bad("repeated", key, pos, "a transient failure is returned although it could be repeated", s.Path(st))
				}
			} else if _, ok := st.marks["transient"]; !ok && transient(s, st) != 0 && s.Eval(st, s.T.IsNil(res[0])) != 1 {
				c.Bad("repeated", key, pos, "an answer is returned without having decided whether it is transient", s.Path(st))
			}
		},
	})
	c.Run(s, tgt, func(st *State, ps, fs []*Term) {
		req = ps[1]
		st.marks["req"] = Mark{T: req}
	})
}

// p16status: what a comparison of the response's status says about it being transient.
func (s *Sim) p16status(st *State, cond, resp *Term) {
	if cond.op != OpEq0 && cond.op != OpLt0 {
		return
	}
	ms, _ := s.T.toPoly(cond.args[0])
	if len(ms) != 1 || len(ms[0].a) != 1 || fieldLoadOf(ms[0].a[0], "StatusCode") != resp {
		return
	}
	v := ms[0].a[0]
	lt500 := s.Eval(st, s.T.Lt(v, s.T.Int(500)))
	is429 := s.Eval(st, s.T.Eq(v, s.T.Int(429)))
	switch {
	case lt500 == 0 || is429 == 1:
		st.marks["status"] = Mark{S: "bad"}
	case lt500 == 1 && is429 == 0:
		st.marks["status"] = Mark{S: "good"}
	default:
		delete(st.marks, "status")
	}
}

// derivedFrom: a request made from the given one (clone or copy with another context).
func derivedFrom(st *State, t, req *Term) bool {
	t = strip(t)
	if t == req {
		return true
	}
	if t.op == OpOpaque || t.op == OpPure {
		b := base(t.aux)
		if b == "WithContext" || b == "Clone" {
			return len(t.args) > 0 && derivedFrom(st, t.args[0], req)
		}
	}
	return false
}

func isNoBody(t *Term) bool {
	t = strip(t)
	if t.op == OpLoad {
		t = t.args[0]
	}
	return t.op == OpGlobal && strings.HasSuffix(t.aux, "NoBody") || t.op == OpNil
}

func init() { checks["P15"], checks["P16"] = checkP15, checkP16 }
