package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OpConst Op = iota
	OpParam
	OpFree
	OpGlobal // address of a package variable
	OpFunc
	OpAlloc     // address
	OpFieldAddr // address, aux=field index
	OpIndexAddr // address
	OpLoad      // value at address (arg0) in version (aux)
	OpOpaque    // fresh value produced at an instruction
	OpPure      // deterministic function of args, aux = name
	OpExtract
	OpPhi
	OpBin
	OpUn
	OpConv
	OpMkIface
	OpAssert
	OpTypeIs
	OpClosure
	OpSlice
	OpStruct // struct value, args = fields
	OpField  // field of struct value
	OpTuple
	OpPoly
	OpLen
	OpCap
	OpNil // IsNil(arg) predicate
	OpEq
	OpLt0 // poly < 0
	OpEq0 // poly == 0
	OpNot
	OpMake // make(map/slice/chan)
	OpNew  // version marker
)

var opNames = map[Op]string{OpConst: "const", OpParam: "param", OpFree: "free", OpGlobal: "global", OpFunc: "func", OpAlloc: "alloc",
	OpFieldAddr: "&field", OpIndexAddr: "&index", OpLoad: "load", OpOpaque: "opaque", OpPure: "pure", OpExtract: "extract", OpPhi: "phi",
	OpBin: "bin", OpUn: "un", OpConv: "conv", OpMkIface: "iface", OpAssert: "assert", OpTypeIs: "typeis", OpClosure: "closure",
	OpSlice: "slice", OpStruct: "struct", OpField: "field", OpTuple: "tuple", OpPoly: "poly", OpLen: "len", OpCap: "cap", OpNil: "isnil",
	OpEq: "eq", OpLt0: "lt0", OpEq0: "eq0", OpNot: "not", OpMake: "make", OpNew: "ver"}

// Ctx identifies an inlining context (call string).
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction // call instruction in parent's function
	fn     *ssa.Function
	defidx int
}

type Term struct {
	id    int
	op    Op
	args  []*Term
	aux   string
	typ   types.Type
	cv    constant.Value
	ctx   *Ctx
	instr ssa.Instruction // origin of opaque/alloc/phi/make terms
	fn    *ssa.Function   // OpFunc/OpClosure
	coefs []int64         // OpPoly: args are monomials' atoms products encoded, see poly
	monos [][]*Term
	c0    int64
	atoms []*Term // origin atoms this term depends on
	obj   interface{}
}

type Terms struct {
	tab  map[string]*Term
	list []*Term
	p    *Prog
}

func newTerms(p *Prog) *Terms { return &Terms{tab: map[string]*Term{}, p: p} }

func (t *Term) isAtom() bool {
	switch t.op {
	case OpOpaque, OpPhi, OpAlloc, OpMake, OpNew, OpParam, OpFree:
		return true
	}
	return false
}

func (ts *Terms) intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(t.op) + 1)
	for _, a := range t.args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	sb.WriteByte('|')
	sb.WriteString(t.aux)
	sb.WriteByte('|')
	if t.cv != nil {
		sb.WriteString(t.cv.ExactString())
		sb.WriteString(t.cv.Kind().String())
	}
	if t.ctx != nil {
		sb.WriteString("c" + strconv.Itoa(t.ctx.id))
	}
	if t.instr != nil {
		fmt.Fprintf(&sb, "%p", t.instr)
	}
	if t.fn != nil {
		fmt.Fprintf(&sb, "f%p", t.fn)
	}
	if t.obj != nil {
		fmt.Fprintf(&sb, "o%p", t.obj)
	}
	if t.op == OpConst && t.cv == nil || t.op == OpConv || t.op == OpMkIface || t.op == OpAssert || t.op == OpTypeIs || t.op == OpStruct {
		if t.typ != nil {
			sb.WriteString(t.typ.String())
		}
	}
	if t.op == OpPoly {
		for i, m := range t.monos {
			fmt.Fprintf(&sb, "%d*", t.coefs[i])
			for _, a := range m {
				fmt.Fprintf(&sb, "%d.", a.id)
			}
		}
		fmt.Fprintf(&sb, "+%d", t.c0)
	}
	k := sb.String()
	if o, ok := ts.tab[k]; ok {
		return o
	}
	t.id = len(ts.list) + 1
	seen := map[*Term]bool{}
	add := func(a *Term) {
		for _, x := range a.atoms {
			if !seen[x] {
				seen[x] = true
				t.atoms = append(t.atoms, x)
			}
		}
	}
	for _, a := range t.args {
		add(a)
	}
	for _, m := range t.monos {
		for _, a := range m {
			add(a)
		}
	}
	if t.isAtom() && !seen[t] {
		t.atoms = append(t.atoms, t)
	}
	ts.tab[k] = t
	ts.list = append(ts.list, t)
	return t
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 6 {
		return "…"
	}
	j := func(sep string) string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, sep)
	}
	switch t.op {
	case OpConst:
		if t.cv == nil {
			return "nil"
		}
		return t.cv.String()
	case OpParam, OpFree:
		return t.aux
	case OpGlobal:
		return "&" + t.aux
	case OpFunc:
		return t.fn.Name()
	case OpAlloc:
		return fmt.Sprintf("alloc%d", t.id)
	case OpFieldAddr:
		return "&" + t.args[0].str(d+1) + "." + t.aux
	case OpLoad:
		a := t.args[0].str(d + 1)
		return strings.TrimPrefix(a, "&")
	case OpOpaque:
		return fmt.Sprintf("%s#%d", t.aux, t.id)
	case OpPoly:
		var s []string
		for i, m := range t.monos {
			var f []string
			if t.coefs[i] != 1 {
				f = append(f, strconv.FormatInt(t.coefs[i], 10))
			}
			for _, a := range m {
				f = append(f, a.str(d+1))
			}
			s = append(s, strings.Join(f, "*"))
		}
		if t.c0 != 0 || len(s) == 0 {
			s = append(s, strconv.FormatInt(t.c0, 10))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OpMkIface, OpConv:
		return j(",")
	case OpPure:
		return t.aux + "(" + j(", ") + ")"
	case OpExtract:
		return t.args[0].str(d+1) + "." + t.aux
	case OpBin:
		return "(" + j(t.aux) + ")"
	}
	return opNames[t.op] + t.aux + "(" + j(", ") + ")"
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func nilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil)
}

// --- constructors ---

func (ts *Terms) Const(cv constant.Value, typ types.Type) *Term {
	if cv != nil && cv.Kind() == constant.Int && isInt(typ) {
		if v, ok := constant.Int64Val(cv); ok {
			return ts.Int(v)
		}
	}
	return ts.intern(&Term{op: OpConst, cv: cv, typ: typ})
}

func (ts *Terms) Int(v int64) *Term {
	return ts.intern(&Term{op: OpPoly, c0: v, typ: types.Typ[types.Int64]})
}

func (ts *Terms) Bool(b bool) *Term {
	return ts.intern(&Term{op: OpConst, cv: constant.MakeBool(b), typ: types.Typ[types.Bool]})
}

func (ts *Terms) Nil(typ types.Type) *Term {
	return ts.intern(&Term{op: OpConst, typ: types.Typ[types.UntypedNil]})
}

func (ts *Terms) Zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return ts.Int(0)
		case u.Info()&types.IsBoolean != 0:
			return ts.Bool(false)
		case u.Info()&types.IsString != 0:
			return ts.intern(&Term{op: OpConst, cv: constant.MakeString(""), typ: types.Typ[types.String]})
		case u.Info()&types.IsFloat != 0:
			return ts.intern(&Term{op: OpConst, cv: constant.MakeFloat64(0), typ: typ})
		}
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ts.Zero(u.Field(i).Type()))
		}
		return ts.intern(&Term{op: OpStruct, args: fs, typ: typ})
	}
	if nilable(typ) {
		return ts.Nil(typ)
	}
	return ts.intern(&Term{op: OpPure, aux: "zero:" + typ.String(), typ: typ})
}

func (t *Term) IsNilConst() bool { return t.op == OpConst && t.cv == nil }
func (t *Term) IntConst() (int64, bool) {
	if t.op == OpPoly && len(t.monos) == 0 {
		return t.c0, true
	}
	return 0, false
}
func (t *Term) BoolConst() (bool, bool) {
	if t.op == OpConst && t.cv != nil && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}
func (t *Term) StrConst() (string, bool) {
	if t.op == OpConst && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func (ts *Terms) Pure(name string, typ types.Type, args ...*Term) *Term {
	return ts.intern(&Term{op: OpPure, aux: name, typ: typ, args: args})
}

// --- polynomials ---

type mono struct {
	c int64
	a []*Term
}

func (ts *Terms) toPoly(t *Term) ([]mono, int64) {
	if t.op == OpPoly {
		var ms []mono
		for i := range t.monos {
			ms = append(ms, mono{t.coefs[i], t.monos[i]})
		}
		return ms, t.c0
	}
	return []mono{{1, []*Term{t}}}, 0
}

func mkey(a []*Term) string {
	var sb strings.Builder
	for _, x := range a {
		fmt.Fprintf(&sb, "%08d.", x.id)
	}
	return sb.String()
}

func (ts *Terms) mkPoly(ms []mono, c0 int64, typ types.Type) *Term {
	acc := map[string]*mono{}
	for _, m := range ms {
		sort.Slice(m.a, func(i, j int) bool { return m.a[i].id < m.a[j].id })
		k := mkey(m.a)
		if e, ok := acc[k]; ok {
			e.c += m.c
		} else {
			acc[k] = &mono{m.c, m.a}
		}
	}
	var ks []string
	for k, m := range acc {
		if m.c != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if len(ks) == 1 && c0 == 0 && acc[ks[0]].c == 1 && len(acc[ks[0]].a) == 1 {
		return acc[ks[0]].a[0]
	}
	t := &Term{op: OpPoly, c0: c0, typ: typ}
	for _, k := range ks {
		t.coefs = append(t.coefs, acc[k].c)
		t.monos = append(t.monos, acc[k].a)
	}
	return ts.intern(t)
}

func (ts *Terms) Add(a, b *Term) *Term {
	ma, ca := ts.toPoly(a)
	mb, cb := ts.toPoly(b)
	return ts.mkPoly(append(append([]mono{}, ma...), mb...), ca+cb, a.typ)
}
func (ts *Terms) Neg(a *Term) *Term    { return ts.Mul(a, ts.Int(-1)) }
func (ts *Terms) Sub(a, b *Term) *Term { return ts.Add(a, ts.Neg(b)) }
func (ts *Terms) Mul(a, b *Term) *Term {
	ma, ca := ts.toPoly(a)
	mb, cb := ts.toPoly(b)
	var out []mono
	for _, x := range ma {
		for _, y := range mb {
			out = append(out, mono{x.c * y.c, append(append([]*Term{}, x.a...), y.a...)})
		}
		if cb != 0 {
			out = append(out, mono{x.c * cb, append([]*Term{}, x.a...)})
		}
	}
	if ca != 0 {
		for _, y := range mb {
			out = append(out, mono{y.c * ca, append([]*Term{}, y.a...)})
		}
	}
	return ts.mkPoly(out, ca*cb, a.typ)
}

func (ts *Terms) Quo(a, b *Term, typ types.Type) *Term {
	if x, ok := a.IntConst(); ok && x == 0 {
		return a
	}
	if x, ok := a.IntConst(); ok {
		if y, ok := b.IntConst(); ok && y != 0 {
			return ts.Int(x / y)
		}
	}
	if y, ok := b.IntConst(); ok && y == 1 {
		return a
	}
	return ts.intern(&Term{op: OpBin, aux: "/", args: []*Term{a, b}, typ: typ})
}

// form splits an integer term into its non-constant part and constant.
func (ts *Terms) form(t *Term) (*Term, int64) {
	ms, c := ts.toPoly(t)
	return ts.mkPoly(ms, 0, t.typ), c
}

// Lt builds a<b over integers in canonical form (possibly OpNot).
func (ts *Terms) Lt(a, b *Term) *Term {
	d := ts.Sub(a, b)
	if v, ok := d.IntConst(); ok {
		return ts.Bool(v < 0)
	}
	ms, c := ts.toPoly(d)
	if ms[leading(ms)].c > 0 {
		return ts.intern(&Term{op: OpLt0, args: []*Term{d}, typ: types.Typ[types.Bool]})
	}
	// -e < 0  <=>  !(e-1 < 0)
	for i := range ms {
		ms[i].c = -ms[i].c
	}
	e := ts.mkPoly(ms, -c-1, d.typ)
	return ts.Not(ts.intern(&Term{op: OpLt0, args: []*Term{e}, typ: types.Typ[types.Bool]}))
}

func leading(ms []mono) int {
	best := 0
	for i := range ms {
		if mkey(ms[i].a) < mkey(ms[best].a) {
			best = i
		}
	}
	return best
}

func (ts *Terms) Not(t *Term) *Term {
	if t.op == OpNot {
		return t.args[0]
	}
	if b, ok := t.BoolConst(); ok {
		return ts.Bool(!b)
	}
	return ts.intern(&Term{op: OpNot, args: []*Term{t}, typ: types.Typ[types.Bool]})
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.Bool(true)
	}
	if isInt(a.typ) || isInt(b.typ) || a.op == OpPoly || b.op == OpPoly {
		d := ts.Sub(a, b)
		if v, ok := d.IntConst(); ok {
			return ts.Bool(v == 0)
		}
		ms, c := ts.toPoly(d)
		if ms[leading(ms)].c < 0 {
			for i := range ms {
				ms[i].c = -ms[i].c
			}
			d = ts.mkPoly(ms, -c, d.typ)
		}
		return ts.intern(&Term{op: OpEq0, args: []*Term{d}, typ: types.Typ[types.Bool]})
	}
	if b.IsNilConst() || a.IsNilConst() {
		if a.IsNilConst() {
			a = b
		}
		return ts.IsNil(a)
	}
	if isBool(a.typ) {
		if v, ok := b.BoolConst(); ok {
			if v {
				return a
			}
			return ts.Not(a)
		}
		if v, ok := a.BoolConst(); ok {
			if v {
				return b
			}
			return ts.Not(b)
		}
	}
	if a.op == OpConst && b.op == OpConst && a.cv != nil && b.cv != nil && a.cv.Kind() == b.cv.Kind() {
		return ts.Bool(constant.Compare(a.cv, token.EQL, b.cv))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.intern(&Term{op: OpEq, args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}

func (ts *Terms) IsNil(a *Term) *Term {
	if a.IsNilConst() {
		return ts.Bool(true)
	}
	switch a.op {
	case OpAlloc, OpClosure, OpMkIface, OpFunc, OpGlobal, OpFieldAddr, OpIndexAddr, OpMake:
		return ts.Bool(false)
	case OpOpaque, OpPure:
		// wrapping a nil error gives nil, anything else does not
		if len(a.args) > 0 && (strings.HasPrefix(a.aux, "github.com/pkg/errors.W") || a.aux == "os.NewSyscallError") && isErrorLike(a.typ) {
			for _, x := range a.args {
				if isErrorType(x.typ) {
					return ts.IsNil(x)
				}
			}
		}
	}
	return ts.intern(&Term{op: OpNil, args: []*Term{a}, typ: types.Typ[types.Bool]})
}

func (ts *Terms) FieldAddr(base *Term, idx int, name string, typ types.Type) *Term {
	return ts.intern(&Term{op: OpFieldAddr, args: []*Term{base}, aux: name, typ: typ, coefs: []int64{int64(idx)}})
}

func (ts *Terms) Extract(t *Term, i int, typ types.Type) *Term {
	if t.op == OpTuple {
		return t.args[i]
	}
	return ts.intern(&Term{op: OpExtract, args: []*Term{t}, aux: strconv.Itoa(i), typ: typ})
}

func (ts *Terms) Field(v *Term, i int, name string, typ types.Type, loadFields func(addr *Term) *Term) *Term {
	if v.op == OpStruct && i < len(v.args) {
		return v.args[i]
	}
	return ts.intern(&Term{op: OpField, args: []*Term{v}, aux: name, typ: typ})
}

// has reports whether t contains sub.
func (t *Term) has(sub *Term) bool {
	if t == sub {
		return true
	}
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == sub {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range x.monos {
			for _, a := range m {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// any reports whether some subterm satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range x.monos {
			for _, a := range m {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}
