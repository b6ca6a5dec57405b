package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P26: the worker pool that answers block-device commands.

func chanElem(t types.Type) string {
	if t == nil {
		return ""
	}
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return ""
	}
	if n := namedOf(ch.Elem()); n != nil {
		return n.Obj().Name()
	}
	return ch.Elem().String()
}

func checkP26(c *Check) {
	c.Rule("answer", "a command taken by a worker is handled once, answered once with the outcome, then marked done", 1)
	c.Rule("buffer", "a command gets a buffer no other worker has", 1)
	c.Rule("forward", "a command taken from the device is counted and handed to the workers once, with its own queue", 1)
	c.Rule("close", "the response queue is closed after the device's queue ended and every command was answered", 1)
	c.Rule("stop", "waiting for work ends at shutdown", 2)
	c.Rule("joined", "goroutines are registered before they start and deregister as their last step", 2)
	c.Rule("shutdown", "shutting down signals, waits for everyone and only then closes the work queue", 1)
	const rel = "pkg/blockdev"
	// the request type: carries the queue answers go to
	var req *types.Named
	for _, n := range c.P.pkgNamed(rel) {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if chanElem(st.Field(i).Type()) == "SCSIResponse" {
					req = n
				}
			}
		}
	}
	if req == nil {
		c.Bad("answer", rel, rel, "no request carrying a response queue was found", nil)
		return
	}
	// the pool: has the queue of requests
	var pool *types.Named
	for _, n := range c.P.pkgNamed(rel) {
		if fieldBy(n, func(t types.Type) bool { return chanElem(t) == req.Obj().Name() }) != "" {
			pool = n
		}
	}
	if pool == nil {
		c.Bad("answer", rel, rel, "no pool with a queue of requests was found", nil)
		return
	}
	isReqCh := func(t *Term) bool { return chanElem(t.typ) == req.Obj().Name() }
	isCmdCh := func(t *Term) bool { return chanElem(t.typ) == "SCSICmd" }
	isRspCh := func(t *Term) bool { return chanElem(t.typ) == "SCSIResponse" }
	// poolField: the pool field a value was loaded from
	poolField := func(t *Term) string {
		t = strip(t)
		var fa *Term
		switch t.op {
		case OpLoad:
			fa = t.args[0]
		case OpFieldAddr:
			fa = t
		default:
			return ""
		}
		if fa.op == OpFieldAddr && namedOf(fa.args[0].typ) == pool {
			return fa.aux
		}
		return ""
	}
	isDone := func(t *Term) bool { return poolField(t) != "" && chanElem(t.typ) != "" && !isReqCh(t) }
	count := func(st *State, k string, d int) {
		mk := st.marks[k]
		if d > 0 && len(mk.S) < 3 {
			mk.S += "x"
		}
		st.marks[k] = mk
	}
	num := func(st *State, k string) int { return len(st.marks[k].S) }
	targets := c.P.goTargets()
	for _, fn := range c.P.Funcs {
		if !targets[fn] || c.P.Rel(fn) != rel {
			continue
		}
		key := c.P.FnName(fn)
		endReq := func(s *Sim, st *State, in ssa.Instruction) {
			if st.marks["req"].T == nil {
				return
			}
			if num(st, "sent") != 1 || num(st, "fin") != 1 {
				c.Bad("answer", key, c.P.InstrPos(in), fmt.Sprintf("a command taken is answered %d times and marked done %d times", num(st, "sent"), num(st, "fin")), s.Path(st))
			}
			for _, k := range []string{"req", "handled", "sent", "fin", "buf"} {
				delete(st.marks, k)
			}
		}
		endCmd := func(s *Sim, st *State, in ssa.Instruction) {
			cmd := st.marks["cmd"]
			if cmd.T == nil {
				return
			}
			ok := -1
			if mk := st.marks["ok"]; mk.T != nil {
				ok = s.Eval(st, mk.T)
			}
			if ok != 0 && num(st, "forwarded") != 1 && st.marks["stopping"].S == "" {
				c.Bad("forward", key, c.P.InstrPos(in), fmt.Sprintf("a command taken is handed over %d times", num(st, "forwarded")), s.Path(st))
			}
			if ok == 0 {
				st.marks["ended"] = Mark{S: "x"}
			}
			for _, k := range []string{"cmd", "ok", "forwarded", "added"} {
				delete(st.marks, k)
			}
		}
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			Chan: func(s *Sim, st *State, in ssa.Instruction, send bool, ch, v, ok *Term, among []*Term) {
				pos := c.P.InstrPos(in)
				if num(st, "left") > 0 {
					c.Bad("joined", key, pos, "uses a queue after deregistering", s.Path(st))
				}
				if isDone(ch) {
					if !send {
						st.marks["stopping"] = Mark{S: "x"}
					}
					return
				}
				waits := false
				for _, a := range among {
					if isDone(a) {
						waits = true
					}
				}
				if isReqCh(ch) || isCmdCh(ch) {
					c.Ob("stop", key+" "+chanElem(ch.typ), pos)
					if !waits {
						c.Bad("stop", key, pos, "waits for work without noticing a shutdown", s.Path(st))
					}
					if st.marks["stopping"].S != "" {
						c.Bad("stop", key, pos, "goes on after a shutdown", s.Path(st))
					}
				}
				switch {
				case !send && isReqCh(ch):
					endReq(s, st, in)
					st.marks["req"] = Mark{T: v}
				case !send && isCmdCh(ch):
					endCmd(s, st, in)
					if st.marks["ended"].S != "" {
						c.Bad("close", key, pos, "goes on after the device's queue ended", s.Path(st))
					}
					st.marks["cmd"] = Mark{T: v}
					if ok != nil {
						st.marks["ok"] = Mark{T: ok}
					}
				case send && isRspCh(ch):
					r := st.marks["req"].T
					c.Ob("answer", key, pos)
					if r == nil || fieldOfRecv(ch, r) == "" {
						c.Bad("answer", key, pos, "an answer goes to another queue than the command's own", s.Path(st))
						return
					}
					if h := st.marks["handled"].T; h == nil || h != v {
						c.Bad("answer", key, pos, "the answer is not the outcome of handling this command", s.Path(st))
					}
					if num(st, "fin") > 0 {
						c.Bad("answer", key, pos, "the command is marked done before it is answered", s.Path(st))
					}
					count(st, "sent", 1)
				case send && isReqCh(ch):
					c.Ob("forward", key, pos)
					cmd := st.marks["cmd"].T
					if cmd == nil || st.marks["ok"].T == nil || s.Eval(st, st.marks["ok"].T) != 1 {
						c.Bad("forward", key, pos, "hands over a command that was not received", s.Path(st))
						return
					}
					count(st, "forwarded", 1)
					c.p26req(s, st, key, pos, req, v, cmd)
				}
			},
			Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
				if addr.op == OpFieldAddr && addr.aux == "Buf" && namedOf(addr.args[0].typ) != nil && namedOf(addr.args[0].typ).Obj().Name() == "SCSICmd" {
					c.Ob("buffer", key, c.P.InstrPos(in))
					if r := st.marks["req"].T; r == nil || fieldOfRecv(addr.args[0], r) == "" {
						c.Bad("buffer", key, c.P.InstrPos(in), "gives a buffer to another command than the one taken", s.Path(st))
					}
					if num(st, "handled") > 0 && num(st, "sent") == 0 {
						c.Bad("buffer", key, c.P.InstrPos(in), "the buffer changes between handling and answering", s.Path(st))
					}
					sv := in.(*ssa.Store).Val
					if bad := c.P.ownBuffer(sv, targets, map[ssa.Value]bool{}); bad != "" {
						c.Bad("buffer", key, c.P.InstrPos(in), "the buffer may be shared with other workers ("+bad+")", s.Path(st))
					}
					st.marks["buf"] = Mark{S: "x"}
				}
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				pos := c.P.InstrPos(ev.Site)
				r := st.marks["req"].T
				switch {
				case base(ev.Name) == "HandleCommand" && ev.Common.IsInvoke():
					if r == nil || fieldOfRecv(ev.Args[0], r) == "" || fieldOfRecv(ev.Args[1], r) == "" {
						c.Bad("answer", key, pos, "handles something else than the command taken with its own handler", s.Path(st))
					}
					if num(st, "buf") == 0 {
						c.Bad("buffer", key, pos, "the command is handled without a buffer of its own", s.Path(st))
					}
					count(st, "handled", 1)
					if num(st, "handled") > 1 {
						c.Bad("answer", key, pos, "a command is handled twice", s.Path(st))
					}
				case ev.Fun != nil && r != nil && fieldOfRecv(ev.Fun, r) != "",
					ev.Name == "(*sync.WaitGroup).Done" && r != nil && fieldOfRecv(ev.Args[0], r) != "":
					if num(st, "sent") != 1 {
						c.Bad("answer", key, pos, "the command is marked done before it is answered", s.Path(st))
					}
					count(st, "fin", 1)
				case ev.Name == "(*sync.WaitGroup).Done" && poolField(ev.Args[0]) != "":
					count(st, "left", 1)
				case ev.Name == "(*sync.WaitGroup).Add" && poolField(ev.Args[0]) != "":
					c.Bad("joined", key, pos, "registers a goroutine that already runs", s.Path(st))
				case ev.Name == "(*sync.WaitGroup).Add":
					if n, ok := ev.Args[1].IntConst(); !ok || n != 1 {
						c.Bad("forward", key, pos, "a command is not counted once", s.Path(st))
					}
					mk := Mark{T: ev.Args[0], S: st.marks["added"].S + "x"}
					if len(mk.S) > 3 {
						mk.S = "xxx"
					}
					st.marks["added"] = mk
					delete(st.marks, "waited")
				case ev.Name == "(*sync.WaitGroup).Wait" && poolField(ev.Args[0]) == "":
					if num(st, "added") > num(st, "forwarded") {
						c.Bad("close", key, pos, "waits for a command that was never handed over", s.Path(st))
					}
					if mk := st.marks["outstanding"]; mk.T == nil || mk.T == ev.Args[0] {
						st.marks["waited"] = Mark{T: ev.Args[0]}
					}
				case ev.Name == "close" && isRspCh(ev.Args[0]):
					c.Ob("close", key, pos)
					ended := st.marks["ended"].S != ""
					if mk := st.marks["ok"]; mk.T != nil && s.Eval(st, mk.T) == 0 {
						ended = true
					}
					if !ended {
						c.Bad("close", key, pos, "the response queue is closed while the device still sends commands", s.Path(st))
					}
					if st.marks["waited"].T == nil {
						c.Bad("close", key, pos, "the response queue is closed before every command was answered", s.Path(st))
					}
					if num(st, "closed") > 0 {
						c.Bad("close", key, pos, "the response queue is closed twice", s.Path(st))
					}
					count(st, "closed", 1)
				case ev.Name == "close":
					c.Bad("shutdown", key, pos, "a worker closes a queue of the pool", s.Path(st))
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if base(ev.Name) == "HandleCommand" && ev.Common.IsInvoke() {
					mk := st.marks["handled"]
					mk.T = s.Res(ev, 0)
					st.marks["handled"] = mk
				}
				return nil
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				pos := c.P.InstrPos(in)
				endReq(s, st, in)
				endCmd(s, st, in)
				if st.marks["ended"].S != "" && num(st, "closed") == 0 {
					c.Bad("close", key, pos, "the device's queue ended but the response queue stays open", s.Path(st))
				}
				c.Ob("joined", key, pos)
				if num(st, "left") != 1 {
					c.Bad("joined", key, pos, fmt.Sprintf("deregisters %d times", num(st, "left")), s.Path(st))
				}
			},
		})
		s.Depth = 5
		c.Run(s, fn, nil)
	}
	// spawning
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != rel || targets[fn] || !startsGoroutine(fn) {
			continue
		}
		key := c.P.FnName(fn)
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Name == "(*sync.WaitGroup).Add" {
					if n, ok := ev.Args[1].IntConst(); ok && n == 1 {
						st.marks["reg"] = Mark{S: st.marks["reg"].S + "x"}
					} else {
						st.marks["reg"] = Mark{S: "all"}
					}
				}
			},
			Go: func(s *Sim, st *State, ev *CallEv) bool {
				pos := c.P.InstrPos(ev.Site)
				c.Ob("joined", key, pos)
				mk := st.marks["reg"]
				if mk.S == "" {
					c.Bad("joined", key, pos, "a goroutine starts before it is registered", s.Path(st))
				} else if mk.S != "all" {
					mk.S = mk.S[1:]
					st.marks["reg"] = mk
				}
				return false
			},
		})
		c.Run(s, fn, nil)
	}
	// shutdown
	if m := c.P.Method(pool, "Close"); m == nil {
		c.Bad("shutdown", "Close", c.P.Pos(pool.Obj().Pos()), "the pool cannot be shut down", nil)
	} else {
		key := c.P.FnName(m)
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				pos := c.P.InstrPos(ev.Site)
				switch {
				case ev.Name == "close" && isReqCh(ev.Args[0]):
					if num(st, "waited") == 0 {
						c.Bad("shutdown", key, pos, "the work queue is closed while it may still be used", s.Path(st))
					}
				case ev.Name == "close" && isDone(ev.Args[0]):
					count(st, "signal", 1)
				case ev.Name == "(*sync.WaitGroup).Wait" && poolField(ev.Args[0]) != "":
					if num(st, "signal") == 0 {
						c.Bad("shutdown", key, pos, "waits before signalling the shutdown", s.Path(st))
					}
					count(st, "waited", 1)
				}
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				c.Ob("shutdown", key, c.P.InstrPos(in))
				if num(st, "signal") != 1 || num(st, "waited") == 0 {
					c.Bad("shutdown", key, c.P.InstrPos(in), "returns without signalling and waiting for all workers", s.Path(st))
				}
			},
		})
		c.Run(s, m, nil)
	}
}

// p26req: the request carries the command taken, a queue and handler of this device and the counter it was added to.
func (c *Check) p26req(s *Sim, st *State, key, pos string, req *types.Named, v, cmd *Term) {
	stt := req.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		val := strip(structField(s, st, v, req, f.Name()))
		tn := ""
		if n := namedOf(f.Type()); n != nil {
			tn = n.Obj().Name()
		}
		switch {
		case tn == "SCSICmd":
			if val != cmd {
				c.Bad("forward", key, pos, "the request carries another command than the one taken", s.Path(st))
			}
		case tn == "WaitGroup" || isFuncType(f.Type()):
			wg := val
			if val.op == OpClosure && len(val.args) > 0 {
				wg = val.args[0]
			}
			mk := st.marks["added"]
			if mk.T == nil || mk.T != wg || len(mk.S) != 1 {
				c.Bad("forward", key, pos, "the command is not counted exactly once before it is handed over", s.Path(st))
			}
			st.marks["outstanding"] = Mark{T: wg}
		case chanElem(f.Type()) == "SCSIResponse", tn == "SCSICmdHandler":
			r := val
			for r.op == OpLoad || r.op == OpFieldAddr {
				r = r.args[0]
			}
			if r.op != OpParam && r.op != OpFree {
				c.Bad("forward", key, pos, "the request's "+f.Name()+" is not this device's own", s.Path(st))
			}
		}
	}
}

func startsGoroutine(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

// ownBuffer: "" when the value can only be a buffer made for this goroutine or one a command of its own carried.
func (p *Prog) ownBuffer(v ssa.Value, targets map[*ssa.Function]bool, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return ""
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && al.Heap {
			return "" // make with a constant size
		}
		return p.ownBuffer(x.X, targets, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if b := p.ownBuffer(e, targets, seen); b != "" {
				return b
			}
		}
		return ""
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if n := namedOf(fa.X.Type()); n != nil && n.Obj().Name() == "SCSICmd" {
				return ""
			}
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					if b := p.ownBuffer(st.Val, targets, seen); b != "" {
						return b
					}
				}
			}
			return ""
		}
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil && len(f.Blocks) > 0 {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
					if bad := p.ownBuffer(r.Results[0], targets, seen); bad != "" {
						return bad
					}
				}
			}
			return ""
		}
	case *ssa.Extract:
		return p.ownBuffer(x.Tuple, targets, seen)
	case *ssa.Parameter:
		fn := x.Parent()
		for i, q := range fn.Params {
			if q != x {
				continue
			}
			if len(p.callers[fn]) == 0 {
				break
			}
			for _, cs := range p.callers[fn] {
				if i >= len(cs.Common().Args) {
					return p.FnName(fn) + " is called indirectly"
				}
				a := cs.Common().Args[i]
				if _, isGo := cs.(*ssa.Go); isGo {
					mk, ok := a.(*ssa.MakeSlice)
					if !ok || mk.Block() != cs.Block() {
						return "it is made outside of the loop that starts the workers"
					}
					continue
				}
				if b := p.ownBuffer(a, targets, seen); b != "" {
					return b
				}
			}
			return ""
		}
	}
	return strings.TrimPrefix(fmt.Sprintf("%T", v), "*ssa.") + " " + v.Name()
}

func init() { checks["P26"] = checkP26 }
