package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Path-sensitive typestate analysis over SSA.  The abstract state holds value-numbered terms for SSA
// values and memory cells, branch facts about those terms (nil-ness, truth, integer bounds of linear
// forms) and client marks.  States are deduplicated at block entries; loop-carried values become
// opaque on the back edge.

type Mark struct {
	S string
	T *Term
}

type deferredCall struct {
	instr *ssa.Defer
	fun   *Term // function value (closure/func) or nil for invoke/static
	args  []*Term
}

type Frame struct {
	fn      *ssa.Function
	ctx     *Ctx
	env     map[ssa.Value]*Term
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []*deferredCall
	site    ssa.CallInstruction // call in the caller; nil for root
	kind    int                 // kCall, kDefer, kGo
	ev      *CallEv
	entered bool
	saved   *State // spawner's knowledge, restored when an inlined goroutine body ends
}

const (
	kCall = iota
	kDefer
	kGo
)

type ival struct {
	lo, hi int64
	ne     []int64
}

type Trace struct {
	prev *Trace
	pos  token.Pos
	note string
}

type State struct {
	frames []*Frame
	cells  map[*Term]*Term
	facts  map[*Term]bool
	ivals  map[*Term]ival
	eqc    map[*Term]*Term
	vers   map[string]*Term
	fresh  map[*Term]bool
	shared map[*Term]bool
	marks  map[string]Mark
	trace  *Trace
	dead   bool
}

type CallEv struct {
	Site    ssa.CallInstruction
	Common  *ssa.CallCommon
	Name    string // canonical callee name
	Callee  *ssa.Function
	Fun     *Term // function value term for dynamic calls
	Args    []*Term
	VArgs   []*Term // Args with variadic slice expanded
	Result  *Term
	Kind    int
	Inlined bool
	Ctx     *Ctx
	ResVal  ssa.Value
}

// Res returns the i-th result term.
func (s *Sim) Res(ev *CallEv, i int) *Term {
	res := ev.Common.Signature().Results()
	if res.Len() == 0 || ev.Result == nil {
		return nil
	}
	if res.Len() == 1 {
		return ev.Result
	}
	return s.T.Extract(ev.Result, i, res.At(i).Type())
}

// ErrRes returns the error result term (last result of type error), or nil.
func (s *Sim) ErrRes(ev *CallEv) *Term {
	res := ev.Common.Signature().Results()
	n := res.Len()
	if n == 0 || !isErrorType(res.At(n-1).Type()) {
		return nil
	}
	return s.Res(ev, n-1)
}

type Hooks struct {
	Inline   func(s *Sim, st *State, ev *CallEv) bool
	PreCall  func(s *Sim, st *State, ev *CallEv)
	PostCall func(s *Sim, st *State, ev *CallEv) []*State
	Store    func(s *Sim, st *State, in ssa.Instruction, addr, val *Term)
	Load     func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State
	MapWrite func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term)
	Branch   func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool)
	Return   func(s *Sim, st *State, in *ssa.Return, res []*Term)
	RetAny   func(s *Sim, st *State, in *ssa.Return, res []*Term) // return of inlined frame (before pop)
	Panic    func(s *Sim, st *State, in ssa.Instruction)
	Go       func(s *Sim, st *State, ev *CallEv) bool // true: simulate body inline at spawn
	Send     func(s *Sim, st *State, in ssa.Instruction, ch, v *Term)
	Recv     func(s *Sim, st *State, in ssa.Instruction, ch *Term)
	// Chan: a completed channel operation; with it a select is followed case by case (among: the channels of the select)
	Chan     func(s *Sim, st *State, in ssa.Instruction, send bool, ch, v, ok *Term, among []*Term)
	BackEdge func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool)
	Subst    func(s *Sim, st *State, old, new *Term)
	Index    func(s *Sim, st *State, in ssa.Instruction, base, idx *Term)
	SliceEv  func(s *Sim, st *State, in *ssa.Slice, base, lo, hi *Term)
	Closure  func(s *Sim, st *State, ev *CallEv) bool // external call taking known closures: simulate one invocation?
	Enter    func(s *Sim, st *State, f *Frame)
	Instr    func(s *Sim, st *State, in ssa.Instruction)
}

type Sim struct {
	P         *Prog
	T         *Terms
	H         Hooks
	Depth     int
	MaxStates int
	// Settled tells that the rest of the states cannot change the verdict.
	Settled  func() bool
	NoConv   bool // keep integer conversions explicit
	Steps    int
	States   int
	Paths    int
	Overflow bool
	ctxs     map[string]*Ctx
	visited  map[string]bool
	work     []*State
	root     *ssa.Function
	Fns      map[*ssa.Function]bool // functions entered
	dbg      bool
	loopTurn bool    // the loop is followed turn by turn
	loopVals []*Term // values entering the header's phis, during BackEdge
}

func newSim(p *Prog, ts *Terms, h Hooks) *Sim {
	return &Sim{P: p, T: ts, H: h, Depth: 6, MaxStates: 400000, ctxs: map[string]*Ctx{}, Fns: map[*ssa.Function]bool{}}
}

func (s *Sim) ctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function, di int) *Ctx {
	pid := 0
	if parent != nil {
		pid = parent.id
	}
	k := fmt.Sprintf("%d/%p/%p/%d", pid, site, fn, di)
	if c, ok := s.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(s.ctxs) + 1, parent: parent, site: site, fn: fn, defidx: di}
	s.ctxs[k] = c
	return c
}

// --- per function info ---

type fnInfo struct {
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	livein map[*ssa.BasicBlock]map[ssa.Value]bool
	after  map[ssa.Instruction]map[ssa.Value]bool
	fvw    map[int]bool
}

func (p *Prog) info(fn *ssa.Function) *fnInfo {
	if i, ok := p.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, livein: map[*ssa.BasicBlock]map[ssa.Value]bool{}, after: map[ssa.Instruction]map[ssa.Value]bool{}}
	p.infos[fn] = fi
	for _, b := range fn.Blocks {
		for _, su := range b.Succs {
			if su.Dominates(b) {
				body := fi.loops[su]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{su: true}
					fi.loops[su] = body
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, pr := range x.Preds {
						if !body[pr] {
							body[pr] = true
							st = append(st, pr)
						}
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		fi.livein[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := fi.liveout(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, o := range in.Operands(nil) {
					if *o != nil && isLocalVal(*o) {
						live[*o] = true
					}
				}
			}
			if len(live) != len(fi.livein[b]) {
				fi.livein[b] = live
				changed = true
			}
		}
	}
	return fi
}

func isLocalVal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

func (fi *fnInfo) liveout(b *ssa.BasicBlock) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, su := range b.Succs {
		for v := range fi.livein[su] {
			live[v] = true
		}
		pi := -1
		for k, pr := range su.Preds {
			if pr == b {
				pi = k
			}
		}
		for _, in := range su.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isLocalVal(ph.Edges[pi]) {
				live[ph.Edges[pi]] = true
			}
		}
	}
	return live
}

func (fi *fnInfo) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	if l, ok := fi.after[in]; ok {
		return l
	}
	b := in.Block()
	live := fi.liveout(b)
	for j := len(b.Instrs) - 1; j >= 0; j-- {
		x := b.Instrs[j]
		if x == in {
			break
		}
		if v, ok := x.(ssa.Value); ok {
			delete(live, v)
		}
		for _, o := range x.Operands(nil) {
			if *o != nil && isLocalVal(*o) {
				live[*o] = true
			}
		}
	}
	fi.after[in] = live
	return live
}

// --- state ops ---

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{cells: make(map[*Term]*Term, len(st.cells)), facts: make(map[*Term]bool, len(st.facts)), ivals: make(map[*Term]ival, len(st.ivals)),
		eqc: make(map[*Term]*Term, len(st.eqc)), vers: make(map[string]*Term, len(st.vers)), fresh: make(map[*Term]bool, len(st.fresh)), shared: make(map[*Term]bool, len(st.shared)),
		marks: make(map[string]Mark, len(st.marks)), trace: st.trace}
	for k, v := range st.cells {
		n.cells[k] = v
	}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	for k, v := range st.ivals {
		n.ivals[k] = v
	}
	for k, v := range st.eqc {
		n.eqc[k] = v
	}
	for k, v := range st.vers {
		n.vers[k] = v
	}
	for k, v := range st.fresh {
		n.fresh[k] = v
	}
	for k, v := range st.shared {
		n.shared[k] = v
	}
	for k, v := range st.marks {
		n.marks[k] = v
	}
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferredCall(nil), f.defers...)
		n.frames = append(n.frames, &g)
	}
	return n
}

// Eval decides a boolean term under the facts: 1 true, 0 false, -1 unknown.
func (s *Sim) Eval(st *State, c *Term) int {
	if b, ok := c.BoolConst(); ok {
		if b {
			return 1
		}
		return 0
	}
	switch c.op {
	case OpNot:
		r := s.Eval(st, c.args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	case OpLt0, OpEq0:
		L, k := s.T.form(c.args[0])
		if k == math.MinInt64 { // the bound is not representable
			if v, ok := st.facts[c]; ok {
				return b2i(v)
			}
			return -1
		}
		iv, ok := s.bounds(st, L)
		if !ok {
			return -1
		}
		if c.op == OpLt0 { // L + k < 0
			if iv.hi < -k {
				return 1
			}
			if iv.lo >= -k {
				return 0
			}
			return -1
		}
		if iv.lo == iv.hi && iv.lo == -k {
			return 1
		}
		if -k < iv.lo || -k > iv.hi {
			return 0
		}
		for _, x := range iv.ne {
			if x == -k {
				return 0
			}
		}
		return -1
	}
	if v, ok := st.facts[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	if c.op == OpEq {
		a, b := c.args[0], c.args[1]
		ca, cb := st.eqc[a], st.eqc[b]
		if a.op == OpConst {
			ca = a
		}
		if b.op == OpConst {
			cb = b
		}
		if ca != nil && cb != nil {
			if ca == cb {
				return 1
			}
			return 0
		}
		// nil vs non-nil
		na, nb := s.Eval(st, s.T.IsNil(a)), s.Eval(st, s.T.IsNil(b))
		if nilable(a.typ) && na >= 0 && nb >= 0 && na != nb {
			return 0
		}
	}
	if c.op == OpNil {
		a := c.args[0]
		if s.nonNilByShape(a) {
			return 0
		}
	}
	return -1
}

func (s *Sim) bounds(st *State, L *Term) (ival, bool) {
	iv, ok := st.ivals[L]
	if !ok {
		iv = ival{lo: math.MinInt64, hi: math.MaxInt64}
	}
	if iv.lo < 0 && (L.op == OpLen || L.op == OpCap || isUnsigned(L.typ) && L.op != OpPoly) {
		iv.lo = 0
		ok = true
	}
	if m := s.T.remainder(L); m != 0 { // of a value that is not negative
		lo, hi := int64(0), m-1
		if m < 0 {
			lo, hi = m+1, 0
		}
		if iv.lo < lo {
			iv.lo = lo
		}
		if iv.hi > hi {
			iv.hi = hi
		}
		for again := true; again; {
			again = false
			for _, x := range iv.ne {
				if x == iv.lo && iv.lo < iv.hi {
					iv.lo++
					again = true
				} else if x == iv.hi && iv.lo < iv.hi {
					iv.hi--
					again = true
				}
			}
		}
		ok = true
	}
	return iv, ok
}

// remainder: the modulus (negated for -(x%m)) if the form is x%m with x a length or unsigned.
func (ts *Terms) remainder(L *Term) int64 {
	if L.op != OpPoly {
		return 0
	}
	ms, _ := ts.toPoly(L)
	if len(ms) != 2 {
		return 0
	}
	for i, a := range ms {
		b := ms[1-i]
		if len(a.a) != 1 || len(b.a) != 1 || a.c != 1 && a.c != -1 {
			continue
		}
		q := b.a[0]
		if q.op != OpBin || q.aux != "/" || q.args[0] != a.a[0] {
			continue
		}
		m, ok := q.args[1].IntConst()
		if ok && m > 1 && m == -b.c*a.c && (a.a[0].op == OpLen || isUnsigned(a.a[0].typ)) {
			return m * a.c
		}
	}
	return 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// nonNilByShape: values that are never nil because of how they are made.
func (s *Sim) nonNilByShape(a *Term) bool {
	switch a.op {
	case OpAlloc, OpClosure, OpMkIface, OpFunc, OpGlobal, OpFieldAddr, OpIndexAddr, OpMake:
		return true
	case OpLoad:
		if a.args[0].op == OpGlobal && isErrorLike(a.typ) {
			return true
		}
	case OpOpaque, OpPure:
		switch a.aux {
		case "fmt.Errorf", "errors.New", "github.com/aws/aws-sdk-go/aws/awserr.New", "github.com/aws/aws-sdk-go/aws/awserr.NewRequestFailure",
			"github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "(*net/http.Client).Transport", "append1", "os.NewSyscallError":
			return true
		}
	}
	return false
}

// Assume adds a fact; returns false if contradictory.
func (s *Sim) Assume(st *State, c *Term, v bool) bool {
	if r := s.Eval(st, c); r >= 0 {
		return (r == 1) == v
	}
	switch c.op {
	case OpNot:
		return s.Assume(st, c.args[0], !v)
	case OpLt0, OpEq0:
		L, k := s.T.form(c.args[0])
		if k == math.MinInt64 {
			st.facts[c] = v
			return true
		}
		iv, ok := s.bounds(st, L)
		if !ok {
			iv = ival{lo: math.MinInt64, hi: math.MaxInt64}
		}
		iv.ne = append([]int64(nil), iv.ne...)
		if c.op == OpLt0 {
			if v {
				if -k-1 < iv.hi {
					iv.hi = -k - 1
				}
			} else if -k > iv.lo {
				iv.lo = -k
			}
		} else if v {
			iv.lo, iv.hi = -k, -k
		} else {
			iv.ne = append(iv.ne, -k)
			for ch := true; ch; {
				ch = false
				for _, x := range iv.ne {
					if x == iv.lo && iv.lo < iv.hi {
						iv.lo++
						ch = true
					}
					if x == iv.hi && iv.lo < iv.hi {
						iv.hi--
						ch = true
					}
				}
			}
			sort.Slice(iv.ne, func(i, j int) bool { return iv.ne[i] < iv.ne[j] })
		}
		st.ivals[L] = iv
		return iv.lo <= iv.hi
	}
	st.facts[c] = v
	if c.op == OpEq && v {
		a, b := c.args[0], c.args[1]
		if b.op == OpConst {
			st.eqc[a] = b
		} else if a.op == OpConst {
			st.eqc[b] = a
		}
		if nilable(a.typ) {
			if s.Eval(st, s.T.IsNil(a)) == 0 {
				s.Assume(st, s.T.IsNil(b), false)
			} else if s.Eval(st, s.T.IsNil(b)) == 0 {
				s.Assume(st, s.T.IsNil(a), false)
			}
		}
	}
	if c.op == OpTypeIs && v {
		s.Assume(st, s.T.IsNil(c.args[0]), false)
	}
	return true
}

// --- memory ---

func rootOf(a *Term) *Term {
	for a.op == OpFieldAddr || a.op == OpIndexAddr {
		a = a.args[0]
	}
	return a
}

func precise(a *Term) bool {
	for a.op == OpFieldAddr || a.op == OpIndexAddr {
		if a.op == OpIndexAddr {
			if _, ok := a.args[1].IntConst(); !ok {
				return false
			}
		}
		a = a.args[0]
	}
	return a.op == OpAlloc
}

func region(a *Term) string {
	switch a.op {
	case OpFieldAddr:
		bt := a.args[0].typ
		n := ""
		if bt != nil {
			n = deref(bt).String()
		}
		return n + "." + a.aux
	case OpIndexAddr:
		return "[]" + typeStr(deref(a.typ))
	case OpGlobal:
		return "g:" + a.aux
	case OpAlloc:
		return "a:" + strconv.Itoa(a.id)
	}
	return "*" + typeStr(deref(a.typ))
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return t.String()
}

func underAddr(a, prefix *Term) bool {
	for {
		if a == prefix {
			return true
		}
		if a.op == OpFieldAddr || a.op == OpIndexAddr {
			a = a.args[0]
			continue
		}
		return false
	}
}

func (s *Sim) LoadAddr(st *State, addr *Term, typ types.Type) *Term {
	if v, ok := st.cells[addr]; ok {
		return v
	}
	if addr.op == OpFieldAddr {
		// whole-struct value stored at the base?
		b := addr.args[0]
		if bv := s.structAt(st, b); bv != nil {
			return s.fieldOf(st, bv, addr, typ)
		}
	}
	if addr.op == OpIndexAddr {
		// element of an array stored as a whole
		if _, ok := deref(addr.args[0].typ).Underlying().(*types.Array); ok {
			if v := st.cells[addr.args[0]]; v != nil {
				return s.T.Pure("elem", typ, v, addr.args[1])
			}
		}
	}
	if stt, ok := typ.Underlying().(*types.Struct); ok && stt.NumFields() <= 40 {
		has := precise(addr) && st.fresh[rootOf(addr)]
		if !has {
			for a := range st.cells {
				if a != addr && underAddr(a, addr) {
					has = true
					break
				}
			}
		}
		if has {
			var fs []*Term
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i)
				fa := s.T.FieldAddr(addr, i, f.Name(), types.NewPointer(f.Type()))
				fs = append(fs, s.LoadAddr(st, fa, f.Type()))
			}
			return s.T.intern(&Term{op: OpStruct, args: fs, typ: typ})
		}
	}
	r := rootOf(addr)
	if r.op == OpAlloc && st.fresh[r] && precise(addr) {
		return s.T.Zero(typ)
	}
	ver := s.version(st, addr)
	args := []*Term{addr}
	if ver != nil {
		args = append(args, ver)
	}
	return s.T.intern(&Term{op: OpLoad, args: args, typ: typ})
}

func (s *Sim) structAt(st *State, b *Term) *Term {
	if v, ok := st.cells[b]; ok {
		return v
	}
	if b.op == OpFieldAddr {
		if bv := s.structAt(st, b.args[0]); bv != nil {
			return s.fieldOf(st, bv, b, deref(b.typ))
		}
	}
	return nil
}

func (s *Sim) fieldOf(st *State, bv *Term, addr *Term, typ types.Type) *Term {
	if bv.op == OpStruct {
		if stt, ok := bv.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == addr.aux {
					return bv.args[i]
				}
			}
		}
	}
	return s.valField(bv, addr.aux, typ)
}

// valField: field of a struct value; a loaded struct's field is the load of the field address.
func (s *Sim) valField(v *Term, name string, typ types.Type) *Term {
	if v.op == OpStruct {
		if stt, ok := v.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == name {
					return v.args[i]
				}
			}
		}
	}
	if v.op == OpLoad {
		fa := s.T.intern(&Term{op: OpFieldAddr, args: []*Term{v.args[0]}, aux: name, typ: types.NewPointer(typ)})
		args := append([]*Term{fa}, v.args[1:]...)
		return s.T.intern(&Term{op: OpLoad, args: args, typ: typ})
	}
	return s.T.intern(&Term{op: OpField, args: []*Term{v}, aux: name, typ: typ})
}

func (s *Sim) version(st *State, addr *Term) *Term {
	r := rootOf(addr)
	if r.op == OpAlloc {
		return st.vers["a:"+strconv.Itoa(r.id)]
	}
	if r == addr && r.op == OpFree {
		if fv, ok := r.obj.(*ssa.FreeVar); ok && s.P.assignedOnce(fv) {
			return nil
		}
	}
	if v, ok := st.vers[region(addr)]; ok {
		return v
	}
	if s.P.immutableRegion(region(addr)) {
		return nil
	}
	return st.vers["*"]
}

// assignedOnce: the captured variable gets its value where it is declared and keeps it.
func (p *Prog) assignedOnce(fv *ssa.FreeVar) bool {
	if r, ok := p.once[fv]; ok {
		return r
	}
	if p.once == nil {
		p.once = map[*ssa.FreeVar]bool{}
	}
	p.once[fv] = false
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	if idx < 0 || p.fvWritten(fn)[idx] || fn.Parent() == nil {
		return false
	}
	ok := false
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, is := in.(*ssa.MakeClosure)
			if !is || mc.Fn != ssa.Value(fn) {
				continue
			}
			switch v := mc.Bindings[idx].(type) {
			case *ssa.Alloc:
				n := 0
				for _, r := range derefs(v) {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == v {
							n++
						} else {
							n += 2
						}
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.MakeClosure:
						for j, b := range r.Bindings {
							if b == v && p.fvWritten(r.Fn.(*ssa.Function))[j] {
								n += 2
							}
						}
					default:
						n += 2
					}
				}
				if n > 1 {
					return false
				}
				ok = true
			case *ssa.FreeVar:
				if !p.assignedOnce(v) {
					return false
				}
				ok = true
			default:
				return false
			}
		}
	}
	p.once[fv] = ok
	return ok
}

func (s *Sim) newVer(st *State, in ssa.Instruction) *Term {
	return s.T.intern(&Term{op: OpNew, ctx: st.top().ctx, instr: in})
}

func (s *Sim) StoreAddr(st *State, in ssa.Instruction, addr, val *Term) {
	prec := precise(addr)
	reg := region(addr)
	r := rootOf(addr)
	for a := range st.cells {
		if a == addr {
			continue
		}
		if underAddr(a, addr) || addr.op == OpIndexAddr && a == addr.args[0] {
			delete(st.cells, a)
			continue
		}
		if !prec && region(a) == reg && !(rootOf(a).op == OpAlloc && precise(a) && r.op == OpAlloc && r != rootOf(a)) {
			// may alias
			if rootOf(a).op == OpAlloc && st.fresh[rootOf(a)] && !sameKindRoot(r, rootOf(a)) {
				continue
			}
			delete(st.cells, a)
		}
	}
	if !prec {
		st.vers[reg] = s.newVer(st, in)
		if r.op == OpAlloc {
			st.vers["a:"+strconv.Itoa(r.id)] = s.newVer(st, in)
		}
	}
	st.cells[addr] = val
}

// sameKindRoot: could a pointer of unknown origin point at this fresh allocation?
func sameKindRoot(r, alloc *Term) bool { return r == alloc }

// havoc forgets what is stored under a pointer handed to unknown code.
func (s *Sim) havoc(st *State, in ssa.Instruction, p *Term) {
	for p.op == OpMkIface || p.op == OpConv || p.op == OpSlice {
		p = p.args[0]
	}
	if p.op != OpAlloc && p.op != OpFieldAddr && p.op != OpIndexAddr {
		// heap object reached through an opaque pointer: drop its cells
		for a := range st.cells {
			if a != p && underAddr(a, p) {
				delete(st.cells, a)
				st.vers[region(a)] = s.newVer(st, in)
			}
		}
		return
	}
	r := rootOf(p)
	for a := range st.cells {
		if underAddr(a, p) {
			delete(st.cells, a)
			st.vers[region(a)] = s.newVer(st, in)
		}
	}
	if r.op == OpAlloc {
		// keep precise knowledge of untouched sibling fields by materialising zero cells is not needed
		delete(st.fresh, r)
		st.vers["a:"+strconv.Itoa(r.id)] = s.newVer(st, in)
	} else {
		st.vers[region(p)] = s.newVer(st, in)
	}
}

// havocClosure forgets captured cells that the closure may write.
func (s *Sim) havocClosure(st *State, in ssa.Instruction, c *Term, share bool) {
	if c.op != OpClosure {
		return
	}
	w := s.P.fvWritten(c.fn)
	for i, b := range c.args {
		if b.op == OpAlloc || b.op == OpFieldAddr {
			if w[i] {
				if share {
					st.shared[b] = true
				} else {
					s.havoc(st, in, b)
				}
			}
		} else if b.op == OpClosure {
			s.havocClosure(st, in, b, share)
		}
	}
}

func (p *Prog) fvWritten(fn *ssa.Function) map[int]bool {
	fi := p.info(fn)
	if fi.fvw != nil {
		return fi.fvw
	}
	fi.fvw = map[int]bool{}
	for i, fv := range fn.FreeVars {
		var written func(v ssa.Value, d int) bool
		written = func(v ssa.Value, d int) bool {
			if d > 4 {
				return true
			}
			for _, r := range derefs(v) {
				switch r := r.(type) {
				case *ssa.UnOp:
				case *ssa.DebugRef:
				case *ssa.Store:
					if r.Addr == v {
						return true
					}
				case *ssa.FieldAddr:
					if written(r, d+1) {
						return true
					}
				case *ssa.IndexAddr:
					if written(r, d+1) {
						return true
					}
				case *ssa.MakeClosure:
					for j, b := range r.Bindings {
						if b == v {
							if f, ok := r.Fn.(*ssa.Function); ok && p.fvWritten(f)[j] {
								return true
							}
						}
					}
				default:
					return true
				}
			}
			return false
		}
		if written(fv, 0) {
			fi.fvw[i] = true
		}
	}
	return fi.fvw
}

// sync forgets everything other goroutines may have changed.
func (s *Sim) Sync(st *State, in ssa.Instruction) {
	for a := range st.shared {
		s.havoc(st, in, a)
	}
	v := s.newVer(st, in)
	for a := range st.cells {
		if rootOf(a).op != OpAlloc {
			delete(st.cells, a)
		}
	}
	for k := range st.vers {
		if !strings.HasPrefix(k, "a:") {
			delete(st.vers, k)
		}
	}
	st.vers["*"] = v
}

// immutableRegion: struct fields never stored to outside of composite literals of fresh objects.
func (p *Prog) immutableRegion(reg string) bool {
	if p.mut == nil {
		p.mut = map[string]bool{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok {
						st := deref(fa.X.Type())
						n := st.String() + "." + st.Underlying().(*types.Struct).Field(fa.Field).Name()
						base := fa.X
						for _, r := range derefs(fa) {
							switch r := r.(type) {
							case *ssa.Store:
								if r.Addr == fa {
									if a, ok := base.(*ssa.Alloc); ok && a != nil {
										continue // initialisation of a locally allocated object
									}
									p.mut[n] = true
								}
							case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
							case *ssa.Call:
								nm := p.calleeName(r.Common())
								if strings.HasPrefix(nm, "(*sync.") {
									continue
								}
								p.mut[n] = true
							default:
								p.mut[n] = true
							}
						}
					}
				}
			}
		}
	}
	if strings.HasPrefix(reg, "g:") || strings.HasPrefix(reg, "[]") || strings.HasPrefix(reg, "*") {
		return strings.HasPrefix(reg, "g:")
	}
	if i := strings.LastIndex(reg, "."); i > 0 {
		return !p.mut[reg]
	}
	return false
}

// --- main loop ---

// started and maxTime bound a whole run; what is left then is undecided.
var started = time.Now()

const maxTime = 10 * time.Minute

func (s *Sim) Run(fn *ssa.Function, init func(st *State, params []*Term, frees []*Term)) {
	s.root = fn
	s.visited = map[string]bool{}
	s.work = nil
	s.States = 0
	st := &State{cells: map[*Term]*Term{}, facts: map[*Term]bool{}, ivals: map[*Term]ival{}, eqc: map[*Term]*Term{}, vers: map[string]*Term{},
		fresh: map[*Term]bool{}, shared: map[*Term]bool{}, marks: map[string]Mark{}}
	ctx := s.ctx(nil, nil, fn, 0)
	f := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, block: fn.Blocks[0]}
	var ps, fs []*Term
	for i, pa := range fn.Params {
		t := s.T.intern(&Term{op: OpParam, aux: pa.Name(), typ: pa.Type(), ctx: ctx, obj: pa})
		_ = i
		f.env[pa] = t
		ps = append(ps, t)
	}
	for _, fv := range fn.FreeVars {
		t := s.T.intern(&Term{op: OpFree, aux: fv.Name(), typ: fv.Type(), ctx: ctx, obj: fv})
		f.env[fv] = t
		fs = append(fs, t)
	}
	st.frames = []*Frame{f}
	s.Fns[fn] = true
	if init != nil {
		init(st, ps, fs)
	}
	if s.H.Enter != nil {
		s.H.Enter(s, st, f)
	}
	s.work = append(s.work, st)
	for len(s.work) > 0 {
		x := s.work[len(s.work)-1]
		s.work = s.work[:len(s.work)-1]
		s.runState(x)
		if s.Overflow {
			return
		}
	}
}

func (s *Sim) push(st *State) {
	if st != nil && !st.dead {
		s.work = append(s.work, st)
	}
}

func (s *Sim) runState(st *State) {
	for !st.dead && len(st.frames) > 0 {
		f := st.top()
		if f.pc == 0 && !f.entered {
			f.entered = true
			s.gc(st)
			k := s.key(st)
			if s.visited[k] {
				return
			}
			s.visited[k] = true
			s.States++
			if s.full() {
				return
			}
		}
		if f.pc >= len(f.block.Instrs) {
			return
		}
		in := f.block.Instrs[f.pc]
		s.Steps++
		if s.H.Instr != nil {
			s.H.Instr(s, st, in)
		}
		s.exec(st, f, in)
	}
}

// gc drops dead SSA values, unreachable cells and facts about dead terms.
func (s *Sim) gc(st *State) {
	live := map[*Term]bool{}
	var addT func(t *Term)
	addT = func(t *Term) {
		if t == nil {
			return
		}
		for _, a := range t.atoms {
			live[a] = true
		}
	}
	for i, f := range st.frames {
		fi := s.P.info(f.fn)
		var lv map[ssa.Value]bool
		if i == len(st.frames)-1 {
			lv = fi.livein[f.block]
			if f.pc == 0 {
				// phis were already evaluated
			}
		} else {
			lv = fi.liveAfter(f.block.Instrs[f.pc])
		}
		for v, t := range f.env {
			if ph, ok := v.(*ssa.Phi); ok && i == len(st.frames)-1 && ph.Block() == f.block {
				addT(t)
				continue
			}
			if !lv[v] {
				if i < len(st.frames)-1 && v == callVal(st.frames[i+1].site) {
					continue
				}
				delete(f.env, v)
				continue
			}
			addT(t)
		}
		for _, d := range f.defers {
			addT(d.fun)
			for _, a := range d.args {
				addT(a)
			}
		}
	}
	for _, m := range st.marks {
		addT(m.T)
	}
	for _, v := range st.vers {
		addT(v)
	}
	// cells reachable
	for changed := true; changed; {
		changed = false
		for a, v := range st.cells {
			r := rootOf(a)
			ok := true
			for _, at := range r.atoms {
				if !live[at] {
					ok = false
				}
			}
			if ok {
				for _, at := range v.atoms {
					if !live[at] {
						live[at] = true
						changed = true
					}
				}
				for _, at := range a.atoms {
					if !live[at] {
						live[at] = true
						changed = true
					}
				}
			}
		}
	}
	alive := func(t *Term) bool {
		for _, a := range t.atoms {
			if !live[a] {
				return false
			}
		}
		return true
	}
	for a := range st.cells {
		if !alive(rootOf(a)) {
			delete(st.cells, a)
		}
	}
	for a := range st.fresh {
		if !live[a] {
			delete(st.fresh, a)
		}
	}
	for a := range st.shared {
		if !alive(a) {
			delete(st.shared, a)
		}
	}
	for k := range st.vers {
		if strings.HasPrefix(k, "a:") {
			id, _ := strconv.Atoi(k[2:])
			if !live[s.T.list[id-1]] {
				delete(st.vers, k)
			}
		}
	}
	for c := range st.facts {
		if !alive(c) {
			delete(st.facts, c)
		}
	}
	for c := range st.ivals {
		if !alive(c) {
			delete(st.ivals, c)
		}
	}
	for c := range st.eqc {
		if !alive(c) {
			delete(st.eqc, c)
		}
	}
}

func callVal(c ssa.CallInstruction) ssa.Value {
	if c == nil {
		return nil
	}
	return c.Value()
}

func (s *Sim) key(st *State) string {
	h := fnv.New128a()
	var buf []string
	for _, f := range st.frames {
		fmt.Fprintf(h, "F%d:%d:%d;", f.ctx.id, f.block.Index, f.pc)
		buf = buf[:0]
		for v, t := range f.env {
			buf = append(buf, v.Name()+"="+strconv.Itoa(t.id))
		}
		sort.Strings(buf)
		for _, b := range buf {
			h.Write([]byte(b))
			h.Write([]byte{';'})
		}
		for _, d := range f.defers {
			fmt.Fprintf(h, "D%p", d.instr)
			if d.fun != nil {
				fmt.Fprintf(h, ",%d", d.fun.id)
			}
			for _, a := range d.args {
				fmt.Fprintf(h, ",%d", a.id)
			}
		}
	}
	sect := func(n string, items []string) {
		sort.Strings(items)
		h.Write([]byte(n))
		for _, i := range items {
			h.Write([]byte(i))
			h.Write([]byte{';'})
		}
	}
	buf = buf[:0]
	for k, v := range st.cells {
		buf = append(buf, strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	sect("C", buf)
	buf = buf[:0]
	for k, v := range st.facts {
		buf = append(buf, strconv.Itoa(k.id)+"="+strconv.FormatBool(v))
	}
	sect("f", buf)
	buf = buf[:0]
	for k, v := range st.ivals {
		buf = append(buf, fmt.Sprintf("%d=%d,%d,%v", k.id, v.lo, v.hi, v.ne))
	}
	sect("i", buf)
	buf = buf[:0]
	for k, v := range st.vers {
		buf = append(buf, k+"="+strconv.Itoa(v.id))
	}
	sect("v", buf)
	buf = buf[:0]
	for k := range st.fresh {
		buf = append(buf, strconv.Itoa(k.id))
	}
	sect("n", buf)
	buf = buf[:0]
	for k, m := range st.marks {
		id := 0
		if m.T != nil {
			id = m.T.id
		}
		buf = append(buf, k+"="+m.S+"#"+strconv.Itoa(id))
	}
	sect("m", buf)
	return string(h.Sum(nil))
}

// V evaluates an SSA operand in the top frame.
func (s *Sim) V(st *State, v ssa.Value) *Term { return s.valIn(st, st.top(), v) }

func (s *Sim) valIn(st *State, f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if nilable(v.Type()) {
				return s.T.Nil(v.Type())
			}
			return s.T.Zero(v.Type())
		}
		cv := v.Value
		if isInt(v.Type()) {
			cv = constant.ToInt(cv)
		}
		return s.T.Const(cv, v.Type())
	case *ssa.Function:
		return s.T.intern(&Term{op: OpFunc, fn: v, typ: v.Type()})
	case *ssa.Global:
		n := v.Name()
		if v.Pkg != nil {
			n = v.Pkg.Pkg.Path() + "." + n
		}
		return s.T.intern(&Term{op: OpGlobal, aux: n, typ: v.Type(), obj: v})
	case *ssa.Builtin:
		return s.T.intern(&Term{op: OpPure, aux: "builtin:" + v.Name()})
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	in, _ := v.(ssa.Instruction)
	return s.T.intern(&Term{op: OpOpaque, aux: "?" + v.Name(), typ: v.Type(), ctx: f.ctx, instr: in})
}

func (s *Sim) opaque(f *Frame, in ssa.Instruction, aux string, typ types.Type, args ...*Term) *Term {
	return s.T.intern(&Term{op: OpOpaque, aux: aux, typ: typ, ctx: f.ctx, instr: in, args: args})
}

func (s *Sim) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.block
	pi := -1
	for k, pr := range to.Preds {
		if pr == from {
			pi = k
		}
	}
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	vals := make([]*Term, len(phis))
	for i, ph := range phis {
		vals[i] = s.valIn(st, f, ph.Edges[pi])
	}
	if to.Dominates(from) {
		// a loop that goes on or ends by a value of the last turn
		for i, ph := range phis {
			if isBool(ph.Type()) && s.Eval(st, vals[i]) < 0 && testedIn(ph, to) {
				o := st.clone()
				if s.Assume(o, vals[i], false) {
					s.jump(o, o.top(), to)
					s.push(o)
				}
				if !s.Assume(st, vals[i], true) {
					st.dead = true
					return
				}
			}
		}
		s.backEdge(st, f, to, phis, vals)
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.prev = from
	f.block = to
	f.pc = len(phis)
	f.entered = false
	// pc must be 0 for the entry check; run entry check explicitly
	s.enter(st, f)
}

// testedIn: block b ends by testing v.
func testedIn(v ssa.Value, b *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	x := br.Cond
	for {
		u, ok := x.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return x == v
		}
		x = u.X
	}
}

func (s *Sim) enter(st *State, f *Frame) {
	f.entered = true
	s.gc(st)
	k := s.key(st)
	if s.visited[k] {
		st.dead = true
		return
	}
	s.visited[k] = true
	s.States++
	if s.full() {
		st.dead = true
	}
}

// full: no further state is followed.
func (s *Sim) full() bool {
	if s.States > s.MaxStates || time.Since(started) > maxTime {
		s.Overflow = true
		return true
	}
	if s.Settled != nil && s.Settled() {
		s.work = nil
		return true
	}
	return false
}

func (s *Sim) inLoopFn(f *Frame, header *ssa.BasicBlock) func(t *Term) bool {
	body := s.P.info(f.fn).loops[header]
	memo := map[*Term]bool{}
	atomIn := func(a *Term) bool {
		if a.ctx == nil || a.instr == nil {
			return false
		}
		c := a.ctx
		blk := a.instr.Block()
		for c != nil {
			if c == f.ctx {
				return body[blk]
			}
			if c.site == nil {
				return false
			}
			blk = c.site.Block()
			c = c.parent
		}
		return false
	}
	return func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := false
		for _, a := range t.atoms {
			if atomIn(a) {
				r = true
				break
			}
		}
		memo[t] = r
		return r
	}
}

func (s *Sim) backEdge(st *State, f *Frame, header *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) {
	inLoop := s.inLoopFn(f, header)
	turn := s.shortRange(st, f, header, phis, vals)
	if s.H.BackEdge != nil {
		s.loopVals, s.loopTurn = vals, turn
		s.H.BackEdge(s, st, header, inLoop)
	}
	type pend struct {
		t    *Term
		nonn int // IsNil eval
		low  int // known lower bound 0 or 1 of an integer; -1 if none
	}
	var pends []pend
	ren := func(v *Term, nt func() *Term) *Term {
		if isBool(v.typ) {
			if r := s.Eval(st, v); r >= 0 {
				return s.T.Bool(r == 1)
			}
		}
		n := -1
		if nilable(v.typ) {
			n = s.Eval(st, s.T.IsNil(v))
			if n == 1 {
				return s.T.Nil(v.typ)
			}
		}
		low := -1
		if isInt(v.typ) {
			for _, k := range []int64{1, 0} {
				if s.Eval(st, s.T.Lt(v, s.T.Int(k))) == 0 {
					low = int(k)
					break
				}
			}
		}
		t := nt()
		if n >= 0 || low >= 0 {
			pends = append(pends, pend{t, n, low})
		}
		if s.H.Subst != nil && t != v {
			s.H.Subst(s, st, v, t)
		}
		return t
	}
	for i, ph := range phis {
		v := vals[i]
		if turn && !inLoop(v) {
			continue // turn by turn
		}
		if cur, ok := f.env[ph]; ok && cur == v && !inLoop(v) {
			continue // unchanged by the iteration
		}
		if !inLoop(v) && !isInt(ph.Type()) && stableTerm(v) {
			continue
		}
		ph := ph
		vals[i] = ren(v, func() *Term {
			return s.T.intern(&Term{op: OpPhi, ctx: f.ctx, instr: ph, typ: ph.Type(), aux: ph.Comment})
		})
	}
	var cs []*Term
	for a := range st.cells {
		cs = append(cs, a)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, a := range cs {
		v := st.cells[a]
		if inLoop(rootOf(a)) {
			delete(st.cells, a)
			continue
		}
		if turn && !inLoop(v) && !inLoop(a) {
			continue
		}
		if !inLoop(v) && !inLoop(a) && (stableTerm(v) && !isInt(v.typ) || !s.storedInLoop(f, header, a)) {
			continue
		}
		{
			a := a
			nv := ren(v, func() *Term {
				return s.T.intern(&Term{op: OpPhi, ctx: f.ctx, instr: header.Instrs[0], typ: v.typ, aux: "cell" + strconv.Itoa(a.id)})
			})
			if inLoop(a) {
				delete(st.cells, a)
			} else {
				st.cells[a] = nv
			}
		}
	}
	// a deferred call in a loop is kept once
	if len(f.defers) > 1 {
		var nd []*deferredCall
		for i, d := range f.defers {
			dup := false
			for _, e := range f.defers[i+1:] {
				if e.instr == d.instr {
					dup = true
				}
			}
			if !dup {
				nd = append(nd, d)
			}
		}
		f.defers = nd
	}
	kill := func(t *Term) bool { return inLoop(t) }
	for c := range st.facts {
		if kill(c) {
			delete(st.facts, c)
		}
	}
	for c := range st.ivals {
		if kill(c) {
			delete(st.ivals, c)
		}
	}
	for c := range st.eqc {
		if kill(c) {
			delete(st.eqc, c)
		}
	}
	for a := range st.fresh {
		if inLoop(a) {
			delete(st.fresh, a)
		}
	}
	for _, p := range pends {
		if p.nonn >= 0 {
			s.Assume(st, s.T.IsNil(p.t), p.nonn == 1)
		}
		if p.low >= 0 {
			s.Assume(st, s.T.Lt(p.t, s.T.Int(int64(p.low))), false)
		}
	}
}

// shortRange: a range over a literal list of a few elements, which is followed turn by turn.
func (s *Sim) shortRange(st *State, f *Frame, header *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) bool {
	iff, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	for i, ph := range phis {
		if ph.Comment != "rangeindex" {
			continue
		}
		k, ok := vals[i].IntConst()
		if !ok || k > 16 {
			return false
		}
		step, ok := cmp.X.(*ssa.BinOp)
		if !ok || step.X != ssa.Value(ph) {
			return false
		}
		n, ok := s.V(st, cmp.Y).IntConst()
		return ok && n <= 16
	}
	return false
}

func isConstTerm(t *Term) bool {
	_, ok := t.IntConst()
	return ok || t.op == OpConst
}

// stableTerm: values that do not grow when an iteration copies them around.
func stableTerm(t *Term) bool {
	switch t.op {
	case OpConst, OpParam, OpFree, OpOpaque, OpPhi, OpAlloc, OpMake, OpFunc, OpGlobal:
		return true
	case OpPoly:
		return len(t.monos) == 0
	case OpExtract, OpAssert, OpMkIface:
		return stableTerm(t.args[0])
	case OpClosure:
		return true
	}
	return false
}

// storedInLoop: may the cell be assigned while the loop runs?
func (s *Sim) storedInLoop(f *Frame, header *ssa.BasicBlock, a *Term) bool {
	r := rootOf(a)
	if a.op == OpFieldAddr && s.P.immutableRegion(region(a)) {
		return false // assigned only while its object is built, and the object was built before the loop
	}
	if r.op != OpAlloc || r.ctx != f.ctx {
		return s.loopStoresElsewhere(f, header)
	}
	al, ok := r.instr.(*ssa.Alloc)
	if !ok {
		return true
	}
	body := s.P.info(f.fn).loops[header]
	var rec func(v ssa.Value, d int) bool
	rec = func(v ssa.Value, d int) bool {
		if d > 5 {
			return true
		}
		for _, in := range derefs(v) {
			switch in := in.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if in.Addr == v && body[in.Block()] {
					return true
				}
				if in.Val == v {
					return true // address stored elsewhere
				}
			case *ssa.FieldAddr:
				if rec(in, d+1) {
					return true
				}
			case *ssa.IndexAddr:
				if rec(in, d+1) {
					return true
				}
			case *ssa.MakeClosure:
				for j, b := range in.Bindings {
					if b == v && s.P.fvWritten(in.Fn.(*ssa.Function))[j] {
						return true
					}
				}
			case *ssa.MakeInterface:
				if rec(in, d+1) {
					return true
				}
			case *ssa.Slice:
				if rec(in, d+1) {
					return true
				}
			case ssa.CallInstruction:
				if body[in.Block()] {
					return true
				}
			case *ssa.Phi:
				return true
			default:
				if body[in.Block()] {
					return true
				}
			}
		}
		return false
	}
	return rec(al, 0)
}

func (s *Sim) loopStoresElsewhere(f *Frame, header *ssa.BasicBlock) bool {
	for b := range s.P.info(f.fn).loops[header] {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Alloc); !ok {
					return true
				}
			case ssa.CallInstruction:
				return true
			}
		}
	}
	return false
}

func (s *Sim) note(st *State, pos token.Pos, note string) {
	st.trace = &Trace{prev: st.trace, pos: pos, note: note}
}

// Path renders the recorded branch decisions.
func (s *Sim) Path(st *State) []string {
	var out []string
	for t := st.trace; t != nil && len(out) < 40; t = t.prev {
		out = append(out, s.P.Pos(t.pos)+" "+t.note)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
