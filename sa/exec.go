package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const kCB = 3 // callback simulated during an opaque call

func (s *Sim) exec(st *State, f *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Phi:
		f.pc++ // evaluated on entry
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := s.T.intern(&Term{op: OpAlloc, ctx: f.ctx, instr: in, typ: in.Type(), aux: in.Comment})
		for a := range st.cells {
			if underAddr(a, t) {
				delete(st.cells, a)
			}
		}
		st.fresh[t] = true
		delete(st.shared, t)
		delete(st.vers, fmt.Sprintf("a:%d", t.id))
		f.env[in] = t
		f.pc++
	case *ssa.BinOp:
		f.env[in] = s.binop(in.Op, s.V(st, in.X), s.V(st, in.Y), in.Type(), in.X.Type())
		f.pc++
	case *ssa.UnOp:
		s.unop(st, f, in)
	case *ssa.ChangeType:
		f.env[in] = s.V(st, in.X)
		f.pc++
	case *ssa.ChangeInterface:
		f.env[in] = s.V(st, in.X)
		f.pc++
	case *ssa.Convert:
		x := s.V(st, in.X)
		if isInt(in.Type()) && isInt(in.X.Type()) && !s.NoConv {
			f.env[in] = x
		} else {
			if s.NoConv && isConstTerm(x) {
				f.env[in] = x
			} else {
				f.env[in] = s.T.intern(&Term{op: OpConv, args: []*Term{x}, typ: in.Type(), aux: in.Type().String()})
			}
		}
		f.pc++
	case *ssa.MultiConvert:
		f.env[in] = s.V(st, in.X)
		f.pc++
	case *ssa.SliceToArrayPointer:
		f.env[in] = s.V(st, in.X)
		f.pc++
	case *ssa.MakeInterface:
		x := s.V(st, in.X)
		f.env[in] = s.T.intern(&Term{op: OpMkIface, args: []*Term{x}, typ: in.X.Type(), aux: in.X.Type().String()})
		f.pc++
	case *ssa.Extract:
		f.env[in] = s.T.Extract(s.V(st, in.Tuple), in.Index, in.Type())
		f.pc++
	case *ssa.Field:
		stt := in.X.Type().Underlying().(*types.Struct)
		f.env[in] = s.valField(s.V(st, in.X), stt.Field(in.Field).Name(), in.Type())
		f.pc++
	case *ssa.FieldAddr:
		stt := deref(in.X.Type()).Underlying().(*types.Struct)
		f.env[in] = s.T.FieldAddr(s.V(st, in.X), in.Field, stt.Field(in.Field).Name(), in.Type())
		f.pc++
	case *ssa.IndexAddr:
		b, i := s.V(st, in.X), s.V(st, in.Index)
		if s.H.Index != nil {
			s.H.Index(s, st, in, b, i)
		}
		if b.op == OpSlice && b.args[0].op == OpAlloc && isArrayPtr(b.args[0].typ) { // of a local array
			if lo, ok := b.args[1].IntConst(); ok {
				if k, ok := i.IntConst(); ok {
					b, i = b.args[0], s.T.Int(lo+k)
				}
			}
		}
		f.env[in] = s.T.intern(&Term{op: OpIndexAddr, args: []*Term{b, i}, typ: in.Type()})
		f.pc++
	case *ssa.Index:
		f.env[in] = s.T.Pure("index", in.Type(), s.V(st, in.X), s.V(st, in.Index))
		f.pc++
	case *ssa.Lookup:
		s.lookup(st, f, in)
	case *ssa.Slice:
		s.slice(st, f, in)
	case *ssa.MakeSlice:
		f.env[in] = s.T.intern(&Term{op: OpMake, ctx: f.ctx, instr: in, typ: in.Type(), args: []*Term{s.V(st, in.Len)}, aux: "slice"})
		f.pc++
	case *ssa.MakeMap:
		f.env[in] = s.T.intern(&Term{op: OpMake, ctx: f.ctx, instr: in, typ: in.Type(), aux: "map"})
		f.pc++
	case *ssa.MakeChan:
		f.env[in] = s.T.intern(&Term{op: OpMake, ctx: f.ctx, instr: in, typ: in.Type(), args: []*Term{s.V(st, in.Size)}, aux: "chan"})
		f.pc++
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, s.V(st, b))
		}
		f.env[in] = s.T.intern(&Term{op: OpClosure, fn: in.Fn.(*ssa.Function), args: bs, typ: in.Type()})
		f.pc++
	case *ssa.TypeAssert:
		s.typeAssert(st, f, in)
	case *ssa.Range:
		f.env[in] = s.opaque(f, in, "range", in.Type(), s.V(st, in.X))
		f.pc++
	case *ssa.Next:
		f.env[in] = s.opaque(f, in, "next", in.Type(), s.V(st, in.Iter))
		f.pc++
	case *ssa.Store:
		a, v := s.V(st, in.Addr), s.V(st, in.Val)
		if s.H.Store != nil {
			s.H.Store(s, st, in, a, v)
		}
		s.StoreAddr(st, in, a, v)
		f.pc++
	case *ssa.MapUpdate:
		m, k, v := s.V(st, in.Map), s.V(st, in.Key), s.V(st, in.Value)
		if s.H.MapWrite != nil {
			s.H.MapWrite(s, st, in, m, k, v)
		}
		st.vers["map:"+in.Map.Type().String()] = s.newVer(st, in)
		f.pc++
	case *ssa.Send:
		ch, v := s.V(st, in.Chan), s.V(st, in.X)
		if s.H.Send != nil {
			s.H.Send(s, st, in, ch, v)
		}
		if s.H.Chan != nil {
			s.H.Chan(s, st, in, true, ch, v, nil, nil)
		}
		f.pc++
	case *ssa.Select:
		for _, ss := range in.States {
			ch := s.V(st, ss.Chan)
			if ss.Dir == types.SendOnly {
				if s.H.Send != nil {
					s.H.Send(s, st, in, ch, s.V(st, ss.Send))
				}
			} else if s.H.Recv != nil {
				s.H.Recv(s, st, in, ch)
			}
		}
		s.Sync(st, in)
		t := s.opaque(f, in, "select", in.Type())
		f.env[in] = t
		f.pc++
		if s.H.Chan != nil {
			s.selectCases(st, f, in, t)
		}
	case *ssa.Jump:
		s.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c := s.V(st, in.Cond)
		r := s.Eval(st, c)
		if s.dbg {
			fmt.Printf("IF %s %s = %d\n", s.P.InstrPos(in), c, r)
		}
		if r < 0 {
			o := st.clone()
			if s.Assume(o, c, false) {
				s.note(o, condPos(in), "branch not taken: "+c.String())
				if s.H.Branch != nil {
					s.H.Branch(s, o, in, c, false)
				}
				if !o.dead {
					s.jump(o, o.top(), o.top().block.Succs[1])
					s.push(o)
				}
			}
			if !s.Assume(st, c, true) {
				st.dead = true
				return
			}
			s.note(st, condPos(in), "branch taken: "+c.String())
			if s.H.Branch != nil {
				s.H.Branch(s, st, in, c, true)
			}
			if !st.dead {
				s.jump(st, f, f.block.Succs[0])
			}
			return
		}
		if s.H.Branch != nil {
			s.H.Branch(s, st, in, c, r == 1)
		}
		if !st.dead {
			s.jump(st, f, f.block.Succs[1-r])
		}
	case *ssa.Panic:
		if s.H.Panic != nil {
			s.H.Panic(s, st, in)
		}
		s.Paths++
		st.dead = true
	case *ssa.Return:
		s.ret(st, f, in)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		ev := s.mkEv(st, d.instr, kDefer, d.fun, d.args)
		s.call(st, f, ev, nil)
	case *ssa.Defer:
		fun, args := s.evalCall(st, in.Common())
		f.defers = append(f.defers, &deferredCall{instr: in, fun: fun, args: args})
		f.pc++
	case *ssa.Go:
		fun, args := s.evalCall(st, in.Common())
		ev := s.mkEv(st, in, kGo, fun, args)
		inl := false
		if s.H.Go != nil {
			inl = s.H.Go(s, st, ev)
		}
		if st.dead {
			return
		}
		if ev.Fun != nil {
			s.havocClosure(st, in, ev.Fun, true)
		}
		for _, a := range ev.Args {
			if a.op == OpAlloc || a.op == OpFieldAddr {
				st.shared[a] = true
			}
		}
		if inl && ev.Callee != nil && len(ev.Callee.Blocks) > 0 && len(st.frames) < s.Depth {
			sv := st.clone()
			s.pushFrame(st, ev)
			st.top().saved = sv
			return
		}
		f.pc++
	case *ssa.Call:
		fun, args := s.evalCall(st, in.Common())
		ev := s.mkEv(st, in, kCall, fun, args)
		s.call(st, f, ev, in)
	default:
		if v, ok := in.(ssa.Value); ok {
			f.env[v] = s.opaque(f, in, "op", v.Type())
		}
		f.pc++
	}
}

func condPos(in *ssa.If) token.Pos {
	if in.Cond.Pos().IsValid() {
		return in.Cond.Pos()
	}
	if u, ok := in.Cond.(*ssa.UnOp); ok {
		return u.X.Pos()
	}
	return in.Cond.Pos()
}

func (s *Sim) binop(op token.Token, x, y *Term, typ, xt types.Type) *Term {
	integer := isInt(xt)
	switch op {
	case token.EQL:
		return s.T.Eq(x, y)
	case token.NEQ:
		return s.T.Not(s.T.Eq(x, y))
	}
	if integer {
		switch op {
		case token.ADD:
			return s.T.Add(x, y)
		case token.SUB:
			return s.T.Sub(x, y)
		case token.MUL:
			return s.T.Mul(x, y)
		case token.QUO:
			return s.T.Quo(x, y, typ)
		case token.REM:
			return s.T.Sub(x, s.T.Mul(y, s.T.Quo(x, y, typ)))
		case token.LSS:
			return s.T.Lt(x, y)
		case token.GTR:
			return s.T.Lt(y, x)
		case token.LEQ:
			return s.T.Not(s.T.Lt(y, x))
		case token.GEQ:
			return s.T.Not(s.T.Lt(x, y))
		case token.SHL:
			if k, ok := y.IntConst(); ok && k >= 0 && k < 62 {
				return s.T.Mul(x, s.T.Int(1<<uint(k)))
			}
		case token.SHR:
			if k, ok := y.IntConst(); ok && k >= 0 && k < 62 {
				return s.T.Quo(x, s.T.Int(1<<uint(k)), typ)
			}
		}
		a, aok := x.IntConst()
		b, bok := y.IntConst()
		if aok && bok {
			switch op {
			case token.AND:
				return s.T.Int(a & b)
			case token.OR:
				return s.T.Int(a | b)
			case token.XOR:
				return s.T.Int(a ^ b)
			case token.AND_NOT:
				return s.T.Int(a &^ b)
			}
		}
		if op == token.AND && (aok && a == 0 || bok && b == 0) {
			return s.T.Int(0)
		}
		if op == token.AND || op == token.OR || op == token.XOR {
			if x.id > y.id {
				x, y = y, x
			}
		}
		return s.T.intern(&Term{op: OpBin, aux: op.String(), args: []*Term{x, y}, typ: typ})
	}
	switch op {
	case token.GTR:
		return s.T.intern(&Term{op: OpBin, aux: "<", args: []*Term{y, x}, typ: typ})
	case token.LEQ:
		return s.T.Not(s.T.intern(&Term{op: OpBin, aux: "<", args: []*Term{y, x}, typ: typ}))
	case token.GEQ:
		return s.T.Not(s.T.intern(&Term{op: OpBin, aux: "<", args: []*Term{x, y}, typ: typ}))
	}
	return s.T.intern(&Term{op: OpBin, aux: op.String(), args: []*Term{x, y}, typ: typ})
}

func (s *Sim) unop(st *State, f *Frame, in *ssa.UnOp) {
	x := s.V(st, in.X)
	switch in.Op {
	case token.MUL:
		v := s.LoadAddr(st, x, in.Type())
		f.env[in] = v
		if s.H.Load != nil {
			f.pc++
			alts := s.H.Load(s, st, in, x, v)
			for _, a := range alts {
				s.push(a)
			}
			return
		}
	case token.NOT:
		f.env[in] = s.T.Not(x)
	case token.SUB:
		if isInt(in.Type()) {
			f.env[in] = s.T.Neg(x)
		} else {
			f.env[in] = s.T.intern(&Term{op: OpUn, aux: "-", args: []*Term{x}, typ: in.Type()})
		}
	case token.ARROW:
		if s.H.Recv != nil {
			s.H.Recv(s, st, in, x)
		}
		s.Sync(st, in)
		f.env[in] = s.opaque(f, in, "recv", in.Type(), x)
		if s.H.Chan != nil {
			v, ok := f.env[in], (*Term)(nil)
			if in.CommaOk {
				v, ok = s.T.Extract(f.env[in], 0, in.Type().(*types.Tuple).At(0).Type()), s.T.Extract(f.env[in], 1, types.Typ[types.Bool])
			}
			s.H.Chan(s, st, in, false, x, v, ok, nil)
		}
	default:
		f.env[in] = s.T.intern(&Term{op: OpUn, aux: in.Op.String(), args: []*Term{x}, typ: in.Type()})
	}
	f.pc++
}

func (s *Sim) lookup(st *State, f *Frame, in *ssa.Lookup) {
	x, k := s.V(st, in.X), s.V(st, in.Index)
	args := []*Term{x, k}
	if _, ok := in.X.Type().Underlying().(*types.Map); ok {
		v := st.vers["map:"+in.X.Type().String()]
		if v == nil {
			v = st.vers["*"]
		}
		if v != nil {
			args = append(args, v)
		}
	}
	var t *Term
	if !in.CommaOk {
		t = s.T.intern(&Term{op: OpPure, aux: "lookup", typ: in.Type(), args: args})
	} else {
		tt := in.Type().(*types.Tuple)
		v := s.T.intern(&Term{op: OpPure, aux: "lookup", typ: tt.At(0).Type(), args: args})
		ok := s.T.intern(&Term{op: OpPure, aux: "lookupok", typ: types.Typ[types.Bool], args: args})
		t = s.T.intern(&Term{op: OpTuple, args: []*Term{v, ok}, typ: in.Type()})
	}
	f.env[in] = t
	f.pc++
}

func (s *Sim) Len(x *Term) *Term {
	switch x.op {
	case OpSlice:
		if x.args[2] != nil {
			return s.T.Sub(x.args[2], x.args[1])
		}
	case OpMake:
		if x.aux == "slice" {
			return x.args[0]
		}
	case OpConst:
		if x.cv == nil {
			return s.T.Int(0)
		}
		if v, ok := x.StrConst(); ok {
			return s.T.Int(int64(len(v)))
		}
	case OpConv:
		if b, ok := x.typ.Underlying().(*types.Slice); ok && types.Identical(b.Elem(), types.Typ[types.Byte]) {
			return s.Len(x.args[0])
		}
	}
	return s.T.intern(&Term{op: OpLen, args: []*Term{x}, typ: types.Typ[types.Int]})
}

func (s *Sim) slice(st *State, f *Frame, in *ssa.Slice) {
	x := s.V(st, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = s.V(st, in.Low)
	} else {
		lo = s.T.Int(0)
	}
	if in.High != nil {
		hi = s.V(st, in.High)
	} else if at, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
		hi = s.T.Int(at.Len())
	} else {
		hi = s.Len(x)
	}
	if s.H.SliceEv != nil {
		s.H.SliceEv(s, st, in, x, lo, hi)
	}
	aux := ""
	if in.Max != nil {
		aux = "max"
	}
	if x.op == OpSlice {
		off := x.args[1]
		lo, hi = s.T.Add(off, lo), s.T.Add(off, hi)
		x = x.args[0]
	}
	f.env[in] = s.T.intern(&Term{op: OpSlice, args: []*Term{x, lo, hi}, typ: in.Type(), aux: aux})
	f.pc++
}

func (s *Sim) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) {
	x := s.V(st, in.X)
	is := s.T.intern(&Term{op: OpTypeIs, args: []*Term{x}, typ: in.AssertedType, aux: in.AssertedType.String()})
	var v *Term
	if x.op == OpMkIface {
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if types.Implements(x.typ, in.AssertedType.Underlying().(*types.Interface)) {
				is = s.T.Bool(true)
			} else {
				is = s.T.Bool(false)
			}
			v = x
		} else if types.Identical(x.typ, in.AssertedType) {
			is = s.T.Bool(true)
			v = x.args[0]
		} else {
			is = s.T.Bool(false)
		}
	} else if x.IsNilConst() {
		is = s.T.Bool(false)
	}
	if v == nil {
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			v = x
		} else {
			v = s.T.intern(&Term{op: OpAssert, args: []*Term{x}, typ: in.AssertedType, aux: in.AssertedType.String()})
		}
	}
	if in.CommaOk {
		f.env[in] = s.T.intern(&Term{op: OpTuple, args: []*Term{v, is}, typ: in.Type()})
	} else {
		f.env[in] = v
	}
	f.pc++
}

func (s *Sim) evalCall(st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fun *Term
	if c.IsInvoke() {
		args = append(args, s.V(st, c.Value))
	} else {
		fun = s.V(st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, s.V(st, a))
	}
	return fun, args
}

func (s *Sim) mkEv(st *State, site ssa.CallInstruction, kind int, fun *Term, args []*Term) *CallEv {
	c := site.Common()
	ev := &CallEv{Site: site, Common: c, Kind: kind, Fun: fun, Args: args, Ctx: st.top().ctx}
	ev.Name = s.P.calleeName(c)
	if c.IsInvoke() {
		if r := args[0]; r.op == OpMkIface {
			if _, ok := r.typ.Underlying().(*types.Interface); !ok {
				if m := s.P.SSA.LookupMethod(r.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
					ev.Callee = m
					ev.Args = append([]*Term{r.args[0]}, args[1:]...)
					if d := s.P.Method(deref(r.typ), c.Method.Name()); d != nil {
						ev.Name = s.P.funName(d)
					}
				}
			}
		}
	} else if sc := c.StaticCallee(); sc != nil {
		ev.Callee = sc
	} else if fun != nil && (fun.op == OpClosure || fun.op == OpFunc) {
		ev.Callee = fun.fn
		ev.Name = s.P.funName(fun.fn)
	}
	ev.VArgs = s.expand(st, c, ev.Args)
	return ev
}

func (s *Sim) expand(st *State, c *ssa.CallCommon, args []*Term) []*Term {
	if !c.Signature().Variadic() || len(args) == 0 {
		return args
	}
	last := args[len(args)-1]
	if last.op == OpSlice && last.args[0].op == OpAlloc {
		out := append([]*Term{}, args[:len(args)-1]...)
		n, ok := last.args[2].IntConst()
		if ok && n <= 64 {
			arr := last.args[0]
			for i := int64(0); i < n; i++ {
				found := false
				for a, v := range st.cells {
					if a.op == OpIndexAddr && a.args[0] == arr {
						if k, ok := a.args[1].IntConst(); ok && k == i {
							out = append(out, v)
							found = true
						}
					}
				}
				_ = found
			}
			return out
		}
	}
	return args
}

var pureFuncs = map[string]bool{
	"os.IsNotExist": true, "os.IsExist": true, "errors.Is": true, "errors.As": true, "math.Ceil": true,
	"(error).Error": true, "fmt.Sprintf": true, "fmt.Sprint": true, "crypto/md5.Sum": true, "crypto/sha256.Sum256": true,
}

var purePkgs = []string{"strings.", "path.", "path/filepath.", "bytes.Equal", "bytes.Compare", "unicode.", "net/url.QueryEscape", "net/url.PathEscape",
	"(io/fs.FileInfo).", "(io/fs.FileMode).", "(os.FileInfo).", "(os.FileMode).", "(time.Time).", "(time.Duration).", "(*os.File).Name"}

// getters treated as deterministic functions of their receiver.
var pureGetters = map[string]bool{"Size": true, "Bsize": true, "URL": true, "Name": true, "String": true, "Mode": true, "IsDir": true, "ModTime": true, "ObjectURL": true, "Identifier": true}

func (s *Sim) isPure(ev *CallEv) bool {
	res := ev.Common.Signature().Results()
	if res.Len() != 1 {
		return false
	}
	if pureFuncs[ev.Name] {
		return true
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(ev.Name, p) {
			return true
		}
	}
	if ev.Common.IsInvoke() && len(ev.Common.Args) == 0 && pureGetters[ev.Common.Method.Name()] {
		return true
	}
	if ev.Callee != nil && s.P.IsModule(ev.Callee) && strings.HasSuffix(s.P.Rel(ev.Callee), "/types") && len(ev.Args) <= 2 && !strings.Contains(ev.Callee.Name(), "Set") && !strings.Contains(ev.Callee.Name(), "New") {
		return true
	}
	return false
}

var noReturn = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true,
	"(*go.uber.org/zap.Logger).Fatal": true, "(*go.uber.org/zap.Logger).Panic": true, "(*go.uber.org/zap.SugaredLogger).Fatal": true,
	"(*go.uber.org/zap.SugaredLogger).Fatalf": true, "runtime.Goexit": true, "(*go.uber.org/zap.SugaredLogger).Fatalw": true}

func (s *Sim) isNoReturn(ev *CallEv) bool {
	if noReturn[ev.Name] {
		return true
	}
	return ev.Callee != nil && s.P.IsModule(ev.Callee) && s.P.neverReturns(ev.Callee)
}

func (p *Prog) neverReturns(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Return); ok {
				return false
			}
		}
	}
	// no return instruction: panics, or loops forever
	for _, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			return true
		}
	}
	return false
}

var syncAcquire = map[string]bool{"(*sync.Mutex).Lock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).RLock": true, "(*sync.WaitGroup).Wait": true,
	"(*sync.Cond).Wait": true, "(sync.Locker).Lock": true, "(*golang.org/x/sync/semaphore.Weighted).Acquire": true}

func (s *Sim) call(st *State, f *Frame, ev *CallEv, resVal ssa.Value) {
	ev.ResVal = resVal
	if s.H.PreCall != nil {
		s.H.PreCall(s, st, ev)
		if st.dead {
			return
		}
	}
	// closure or static callee: inline?
	if ev.Callee != nil && len(ev.Callee.Blocks) > 0 && len(st.frames) < s.Depth && !s.onStack(st, ev.Callee) &&
		(s.H.Inline != nil && s.H.Inline(s, st, ev) || s.isWrapper(ev.Callee)) && !s.isNoReturn(ev) {
		s.pushFrame(st, ev)
		return
	}
	c := ev.Common
	site := ev.Site
	res := c.Signature().Results()
	var rt types.Type
	if res.Len() == 1 {
		rt = res.At(0).Type()
	} else if res.Len() > 1 {
		rt = res
	}
	var result *Term
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		result = s.builtin(st, f, site, b, ev)
	} else if strings.HasPrefix(ev.Name, "sync/atomic.Load") && len(ev.Args) == 1 {
		result = s.LoadAddr(st, ev.Args[0], rt)
	} else if strings.HasPrefix(ev.Name, "sync/atomic.Store") && len(ev.Args) == 2 {
		s.StoreAddr(st, site, ev.Args[0], ev.Args[1])
	} else if strings.HasPrefix(ev.Name, "sync/atomic.CompareAndSwap") && len(ev.Args) == 3 {
		eq := s.T.Eq(s.LoadAddr(st, ev.Args[0], deref(ev.Args[0].typ)), ev.Args[1])
		r := s.Eval(st, eq)
		if r != 1 {
			o := st
			if r < 0 {
				o = st.clone()
				s.Assume(o, eq, false)
			}
			e2 := *ev
			e2.Result = s.T.Bool(false)
			if resVal != nil {
				o.top().env[resVal] = e2.Result
			}
			s.after(o, o.top(), &e2)
			if r == 0 {
				return
			}
			s.push(o)
			s.Assume(st, eq, true)
		}
		s.StoreAddr(st, site, ev.Args[0], ev.Args[2])
		result = s.T.Bool(true)
	} else if s.isPure(ev) {
		result = s.T.Pure(ev.Name, rt, ev.VArgs...)
	} else {
		if rt != nil {
			result = s.opaque(f, site, ev.Name, rt, ev.VArgs...)
		}
		if syncAcquire[ev.Name] {
			s.Sync(st, site)
		} else if !noHavoc(ev.Name) {
			for _, a := range ev.Args {
				if a.op == OpClosure {
					s.havocClosure(st, site, a, false)
				} else if a.typ != nil || a.op == OpSlice {
					switch a.op {
					case OpAlloc, OpFieldAddr, OpIndexAddr, OpMkIface, OpSlice, OpParam, OpLoad, OpOpaque, OpExtract:
						s.havoc(st, site, a)
					}
				}
			}
			if ev.Callee != nil && s.P.IsModule(ev.Callee) {
				s.bumpMod(st, site, ev.Callee)
			} else if c.IsInvoke() {
				for _, t := range s.P.InvokeTargets(c) {
					s.bumpMod(st, site, t)
				}
			}
		}
	}
	ev.Result = result
	if resVal != nil && result != nil {
		f.env[resVal] = result
	}
	if s.isNoReturn(ev) {
		if s.H.Panic != nil {
			s.H.Panic(s, st, site)
		}
		s.Paths++
		st.dead = true
		return
	}
	// callbacks given to unknown code
	if s.H.Closure != nil && ev.Kind != kGo {
		for _, a := range ev.Args {
			for a.op == OpMkIface || a.op == OpConv {
				a = a.args[0]
			}
			if (a.op == OpClosure || a.op == OpFunc && a.fn != nil && a.fn.Parent() != nil) && len(a.fn.Blocks) > 0 && !s.onStack(st, a.fn) && len(st.frames) < s.Depth && s.H.Closure(s, st, ev) {
				o := st.clone()
				fr := o.top()
				nf := &Frame{fn: a.fn, ctx: s.ctx(fr.ctx, site, a.fn, 1), env: map[ssa.Value]*Term{}, block: a.fn.Blocks[0], site: site, kind: kCB, ev: ev}
				for _, pa := range a.fn.Params {
					nf.env[pa] = s.T.intern(&Term{op: OpOpaque, aux: "cbarg:" + pa.Name(), typ: pa.Type(), ctx: nf.ctx, instr: site, obj: pa})
				}
				for i, fv := range a.fn.FreeVars {
					nf.env[fv] = a.args[i]
				}
				o.frames = append(o.frames, nf)
				s.Fns[a.fn] = true
				s.push(o)
			}
		}
	}
	s.after(st, f, ev)
}

// after runs the PostCall hook and advances.
func (s *Sim) after(st *State, f *Frame, ev *CallEv) {
	if ev.Kind != kDefer {
		f.pc++
	}
	if s.H.PostCall != nil {
		alts := s.H.PostCall(s, st, ev)
		for _, a := range alts {
			s.push(a)
		}
	}
}

func noHavoc(n string) bool {
	if n == "(*sync.Once).Do" {
		return false
	}
	return strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "(*go.uber.org/zap.") || strings.HasPrefix(n, "go.uber.org/zap.") ||
		strings.HasPrefix(n, "(*golang.org/x/sync/semaphore")
}

func (s *Sim) bumpMod(st *State, in ssa.Instruction, fn *ssa.Function) {
	for reg := range s.P.modSet(fn) {
		for a := range st.cells {
			if region(a) == reg && !(rootOf(a).op == OpAlloc && st.fresh[rootOf(a)] && precise(a)) {
				delete(st.cells, a)
			}
		}
		st.vers[reg] = s.newVer(st, in)
	}
}

// modSet: regions a module function may write (transitively through static calls in the module).
func (p *Prog) modSet(fn *ssa.Function) map[string]bool {
	if p.mods == nil {
		p.mods = map[*ssa.Function]map[string]bool{}
	}
	if m, ok := p.mods[fn]; ok {
		return m
	}
	m := map[string]bool{}
	p.mods[fn] = m
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function, d int)
	rec = func(f *ssa.Function, d int) {
		if seen[f] || d > 8 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						st := deref(a.X.Type())
						if _, ok := a.X.(*ssa.Alloc); ok {
							continue
						}
						m[st.String()+"."+st.Underlying().(*types.Struct).Field(a.Field).Name()] = true
					case *ssa.Global:
						m["g:"+a.Pkg.Pkg.Path()+"."+a.Name()] = true
					}
				case *ssa.MapUpdate:
					m["map:"+in.Map.Type().String()] = true
				case ssa.CallInstruction:
					if sc := in.Common().StaticCallee(); sc != nil && p.IsModule(sc) {
						rec(sc, d+1)
					}
					if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						m["map:"+in.Common().Args[0].Type().String()] = true
					}
				case *ssa.MakeClosure:
					rec(in.Fn.(*ssa.Function), d+1)
				}
			}
		}
	}
	rec(fn, 0)
	return m
}

func (s *Sim) isWrapper(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Synthetic, "bound method") || strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "thunk")
}

func (s *Sim) onStack(st *State, fn *ssa.Function) bool {
	for _, f := range st.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (s *Sim) pushFrame(st *State, ev *CallEv) {
	f := st.top()
	callee := ev.Callee
	di := 0
	if ev.Kind == kDefer {
		di = 2
	}
	nf := &Frame{fn: callee, ctx: s.ctx(f.ctx, ev.Site, callee, di), env: map[ssa.Value]*Term{}, block: callee.Blocks[0], site: ev.Site, kind: ev.Kind, ev: ev}
	for i, pa := range callee.Params {
		if i < len(ev.Args) {
			nf.env[pa] = ev.Args[i]
		}
	}
	if ev.Fun != nil && ev.Fun.op == OpClosure {
		for i, fv := range callee.FreeVars {
			if i < len(ev.Fun.args) {
				nf.env[fv] = ev.Fun.args[i]
			}
		}
	}
	ev.Inlined = true
	st.frames = append(st.frames, nf)
	s.Fns[callee] = true
	if s.H.Enter != nil {
		s.H.Enter(s, st, nf)
	}
}

func (s *Sim) ret(st *State, f *Frame, in *ssa.Return) {
	var res []*Term
	for _, r := range in.Results {
		res = append(res, s.V(st, r))
	}
	if len(st.frames) == 1 {
		s.Paths++
		if s.H.Return != nil {
			s.H.Return(s, st, in, res)
		}
		st.dead = true
		return
	}
	if s.H.RetAny != nil {
		s.H.RetAny(s, st, in, res)
		if st.dead {
			return
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	c := st.top()
	if f.kind == kCB || f.kind == kGo {
		if sv := f.saved; sv != nil {
			sv = sv.clone()
			st.cells, st.facts, st.ivals, st.eqc, st.vers, st.fresh, st.shared = sv.cells, sv.facts, sv.ivals, sv.eqc, sv.vers, sv.fresh, sv.shared
		}
		c.pc++
		if f.kind == kCB && s.H.PostCall != nil {
			for _, a := range s.H.PostCall(s, st, f.ev) {
				s.push(a)
			}
		}
		return
	}
	var r *Term
	switch len(res) {
	case 0:
	case 1:
		r = res[0]
	default:
		r = s.T.intern(&Term{op: OpTuple, args: res})
	}
	ev := *f.ev
	ev.Result = r
	ev.Inlined = true
	if f.kind == kCall && ev.ResVal != nil && r != nil {
		c.env[ev.ResVal] = r
	}
	s.after(st, c, &ev)
}

func (s *Sim) builtin(st *State, f *Frame, site ssa.CallInstruction, b *ssa.Builtin, ev *CallEv) *Term {
	a := ev.Args
	res := ev.Common.Signature().Results()
	var rt types.Type
	if res.Len() == 1 {
		rt = res.At(0).Type()
	}
	switch b.Name() {
	case "len":
		return s.Len(a[0])
	case "cap":
		return s.T.intern(&Term{op: OpCap, args: []*Term{a[0]}, typ: types.Typ[types.Int]})
	case "append":
		return s.opaque(f, site, "append", rt, ev.VArgs...)
	case "copy":
		s.havoc(st, site, a[0])
		return s.opaque(f, site, "copy", types.Typ[types.Int], a...)
	case "delete":
		st.vers["map:"+ev.Common.Args[0].Type().String()] = s.newVer(st, site)
		return nil
	case "ssa:wrapnilchk":
		return a[0]
	}
	if rt != nil {
		return s.opaque(f, site, b.Name(), rt, a...)
	}
	return nil
}

// selectCases: one state for each case of a select.
func (s *Sim) selectCases(st *State, f *Frame, in *ssa.Select, t *Term) {
	tt := in.Type().(*types.Tuple)
	n := len(in.States)
	if !in.Blocking {
		n++
	}
	var chans []*Term
	for _, ss := range in.States {
		chans = append(chans, s.V(st, ss.Chan))
	}
	for i := 0; i < n; i++ {
		o := st.clone()
		k := i
		if i == len(in.States) {
			k = -1
		}
		ok := s.T.Extract(t, 1, tt.At(1).Type())
		parts := []*Term{s.T.Int(int64(k)), ok}
		var recv *Term
		for j, r := 0, 2; j < len(in.States); j++ {
			if in.States[j].Dir == types.RecvOnly {
				v := s.T.Extract(t, r, tt.At(r).Type())
				if j == i {
					recv = v
				}
				parts = append(parts, v)
				r++
			}
		}
		o.top().env[in] = s.T.intern(&Term{op: OpTuple, args: parts, typ: in.Type()})
		if k >= 0 {
			if in.States[k].Dir == types.SendOnly {
				s.H.Chan(s, o, in, true, chans[k], s.V(o, in.States[k].Send), nil, chans)
			} else {
				s.H.Chan(s, o, in, false, chans[k], recv, ok, chans)
			}
		}
		if !o.dead {
			s.push(o)
		}
	}
	st.dead = true
}

func isArrayPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}
