package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P20 and P21: what the encoders write and the decoders read, field by field.
//
// An encoder is followed path by path; every write to a writer is recorded as a field: its width, byte order and
// where its value comes from.  The sequence of a successful path is compared with the table below, which restates
// ECMA-119, SUSP and RRIP.

const isoRel = "pkg/iso9660"

type fieldEv struct {
	kind string // byte, str, le16, be16, le32, be32, ord16, ord32, zero, arr, sub, rest, const
	val  *Term
	w    *Term // width
	b    string
}

func wkey(i int) string { return fmt.Sprintf("w:%03d", i) }

func seqLen(st *State) int {
	n := 0
	fmt.Sscanf(st.marks["wn"].S, "%d", &n)
	return n
}

func (l *lay) add(s *Sim, st *State, e fieldEv) {
	n := seqLen(st)
	if n > 200 {
		l.fail(s, st, "writes an unbounded number of fields")
		st.dead = true
		return
	}
	if n > 0 && e.kind == "sub" && strings.HasPrefix(st.marks[wkey(n-1)].S, "sub") {
		return
	}
	st.marks[wkey(n)] = Mark{S: e.kind + "|" + e.b, T: e.val}
	if e.w != nil {
		st.marks["v"+wkey(n)] = Mark{T: e.w}
	}
	st.marks["wn"] = Mark{S: fmt.Sprint(n + 1)}
}

func clearSeq(st *State) {
	for i := seqLen(st) - 1; i >= 0; i-- {
		delete(st.marks, wkey(i))
		delete(st.marks, "v"+wkey(i))
	}
	delete(st.marks, "wn")
}

func seqOf(s *Sim, st *State) []fieldEv {
	var out []fieldEv
	for i := 0; i < seqLen(st); i++ {
		mk := st.marks[wkey(i)]
		k := strings.SplitN(mk.S, "|", 2)
		e := fieldEv{kind: k[0], val: mk.T, b: k[1], w: st.marks["v"+wkey(i)].T}
		if e.w == nil {
			e.w = s.T.Int(kindWidth(e.kind))
		}
		out = append(out, e)
	}
	return out
}

func kindWidth(k string) int64 {
	switch k {
	case "byte":
		return 1
	case "le16", "be16", "ord16":
		return 2
	case "le32", "be32", "ord32":
		return 4
	case "le64", "be64", "ord64":
		return 8
	}
	return 0
}

type lay struct {
	c    *Check
	rule string
	key  string
	pos  string
	recv *Term
	ctor map[string]string // unexported field path -> parameter of the constructor
}

func (l *lay) fail(s *Sim, st *State, msg string) {
	l.c.Bad(l.rule, l.key, l.pos, msg, s.Path(st))
}

// order: the byte order a binary.Write or binary.Read uses.
func orderOf(t *Term) string {
	t = strip(t)
	if t.op == OpLoad || t.op == OpGlobal || t.op == OpConst || t.op == OpStruct {
		if n := namedOf(t.typ); n != nil {
			switch n.Obj().Name() {
			case "littleEndian":
				return "le"
			case "bigEndian":
				return "be"
			}
		}
	}
	return "ord"
}

func fieldBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	case types.Uint64, types.Int64:
		return 64
	}
	return 0
}

func hasIfaceParam(fn *ssa.Function, name string) bool {
	for _, p := range fn.Params {
		n := namedOf(p.Type())
		if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && n.Obj().Name() == name {
			return true
		}
		if n != nil && (n.Obj().Name() == "CountingWriter" && name == "Writer" || n.Obj().Name() == "CountingReader" && name == "Reader") {
			return true
		}
	}
	return false
}

// inline: code that writes or reads fields; formatting of values stays a call.
func (l *lay) inline(s *Sim, st *State, ev *CallEv) bool {
	p := l.c.P
	if !p.IsModule(ev.Callee) || !strings.HasPrefix(p.Rel(ev.Callee), isoRel) {
		return false
	}
	if l.c.isPad(ev.Callee) || isWriteMethod(ev.Callee) {
		return false
	}
	switch {
	case p.Rel(ev.Callee) == isoRel+"/datetime":
		return false
	case base(p.FnName(ev.Callee)) == "StrA", base(p.FnName(ev.Callee)) == "StrD":
		return false
	}
	return true
}

// writeHooks: records what is written.
func (l *lay) writeHooks(h Hooks) Hooks {
	c := l.c
	pre, post := h.PreCall, h.PostCall
	h.Inline = l.inline
	h.Branch = keepFacts(h.Branch)
	h.PreCall = func(s *Sim, st *State, ev *CallEv) {
		if pre != nil {
			pre(s, st, ev)
		}
		l.pos = c.P.InstrPos(ev.Site)
		switch {
		case ev.Name == "io.WriteString":
			if k, ok := ev.Args[1].StrConst(); ok {
				l.add(s, st, fieldEv{kind: "const", b: k, w: s.T.Int(int64(len(k)))})
			} else {
				l.add(s, st, fieldEv{kind: "str", val: ev.Args[1], w: s.Len(ev.Args[1])})
			}
		case ev.Name == "encoding/binary.Write":
			v := ev.Args[2]
			vt := v.typ // of the value, also in an interface
			if v.op == OpMkIface {
				v = v.args[0]
			}
			w := fieldBits(vt)
			if at, ok := vt.Underlying().(*types.Array); ok && fieldBits(at.Elem()) == 8 {
				l.add(s, st, fieldEv{kind: "arr", val: v, w: s.T.Int(at.Len())})
				return
			}
			if w == 0 {
				l.fail(s, st, "writes a value of unknown width: "+v.String())
				return
			}
			k := fmt.Sprint(orderOf(ev.Args[1]), w)
			if w == 8 {
				k = "byte"
			}
			l.add(s, st, fieldEv{kind: k, val: v})
		case ev.Callee != nil && c.isPad(ev.Callee):
			n := ev.Args[len(ev.Args)-1]
			l.add(s, st, fieldEv{kind: "zero", val: n, w: n})
		case base(ev.Name) == "Write" && len(ev.Args) == 2 && (ev.Callee == nil || !l.inline(s, st, ev)):
			l.bytes(s, st, ev.Args[1])
		case base(ev.Name) == "WriteTo" && ev.Common.IsInvoke() && (ev.Callee == nil || !l.inline(s, st, ev)):
			l.add(s, st, fieldEv{kind: "sub", val: s.T.Int(0), w: s.T.Int(0)})
			l.elem(s, st, ev)
		case strings.HasPrefix(ev.Name, "fmt.Fprint"), ev.Name == "io.Copy", ev.Name == "io.CopyN":
			l.fail(s, st, "writes through "+ev.Name+", whose layout is unknown")
		}
	}
	h.PostCall = func(s *Sim, st *State, ev *CallEv) []*State {
		if !ev.Inlined {
			if e := s.ErrRes(ev); e != nil && (base(ev.Name) == "Write" || base(ev.Name) == "WriteString" || base(ev.Name) == "WriteTo" || ev.Callee != nil && c.isPad(ev.Callee)) {
				s.Assume(st, s.T.IsNil(e), true) // only complete writes are compared
			}
		}
		if post != nil {
			return post(s, st, ev)
		}
		return nil
	}
	return h
}

// isWriteMethod: Write(p []byte) (int, error); what it does with p is rule forward's business.
func isWriteMethod(fn *ssa.Function) bool {
	return fn.Signature.Recv() != nil && fn.Name() == "Write" && len(fn.Params) == 2 && fn.Signature.Results().Len() == 2
}

// elem: one element of a list writes itself.
func (l *lay) elem(s *Sim, st *State, ev *CallEv) {
	r := strip(ev.Args[0])
	mk := st.marks["elem"]
	mk.S += "x"
	if r.op == OpLoad && r.args[0].op == OpIndexAddr {
		mk.T = r.args[0].args[1]
		st.marks["elembase"] = Mark{T: r.args[0].args[0]}
	} else {
		l.fail(s, st, "an element is written that does not come from the list")
	}
	st.marks["elem"] = mk
}

// bytes: a slice given to Write.
func (l *lay) bytes(s *Sim, st *State, p *Term) {
	if p.op == OpConv {
		if k, ok := p.args[0].StrConst(); ok {
			l.add(s, st, fieldEv{kind: "const", b: k, w: s.T.Int(int64(len(k)))})
			return
		}
		if isBasic(types.String)(p.args[0].typ) {
			l.add(s, st, fieldEv{kind: "str", val: p.args[0], w: s.Len(p.args[0])})
			return
		}
	}
	if p.op == OpMake && p.aux == "slice" {
		l.add(s, st, fieldEv{kind: "zero", val: p.args[0], w: p.args[0]})
		return
	}
	if p.op == OpSlice {
		b := p.args[0]
		var at *types.Array
		if b.typ != nil {
			at, _ = deref(b.typ).Underlying().(*types.Array)
		}
		lo, ok1 := p.args[1].IntConst()
		hi, ok2 := int64(0), false
		if p.args[2] != nil {
			hi, ok2 = p.args[2].IntConst()
		}
		if at != nil && ok1 && ok2 {
			whole := s.arrayAt(st, b, at)
			if whole != nil {
				if lo != 0 || hi != at.Len() {
					l.fail(s, st, "writes part of a value")
				}
				l.add(s, st, fieldEv{kind: "arr", val: whole, w: s.T.Int(hi - lo)})
				return
			}
			for i := lo; i < hi; i++ {
				ia := s.T.intern(&Term{op: OpIndexAddr, args: []*Term{b, s.T.Int(i)}, typ: types.NewPointer(at.Elem())})
				l.add(s, st, fieldEv{kind: "byte", val: s.LoadAddr(st, ia, at.Elem())})
			}
			return
		}
	}
	l.fail(s, st, "writes bytes of unknown layout: "+p.String())
}

// arrayAt: the array value stored as a whole at an address.
func (s *Sim) arrayAt(st *State, b *Term, at *types.Array) *Term {
	if v, ok := st.cells[b]; ok {
		return v
	}
	if b.op == OpGlobal {
		return b
	}
	return nil
}

// isPad: writes as many zero bytes as its last argument says.
func (c *Check) isPad(fn *ssa.Function) bool {
	p := c.P
	if p.pads == nil {
		p.pads = map[*ssa.Function]bool{}
	}
	if v, ok := p.pads[fn]; ok {
		return v
	}
	p.pads[fn] = false
	ps := fn.Params
	if !p.IsModule(fn) || len(ps) != 2 || !hasIfaceParam(fn, "Writer") || !isInt(ps[1].Type()) || fn.Signature.Recv() != nil {
		return false
	}
	// one loop counting from zero to the argument in steps of one
	loops := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok || !isInt(ph.Type()) || len(ph.Edges) != 2 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			up := false
			down := false
			for i, e := range ph.Edges {
				o := ph.Edges[1-i]
				step, ok := e.(*ssa.BinOp)
				if !ok || step.X != ph {
					continue
				}
				one, ok := step.Y.(*ssa.Const)
				if !ok || one.Int64() != 1 {
					continue
				}
				if k, ok := o.(*ssa.Const); ok && step.Op.String() == "+" && k.Int64() == 0 {
					up = true
				}
				if o == ps[1] && step.Op.String() == "-" {
					down = true
				}
			}
			z, isz := cmp.Y.(*ssa.Const)
			if up && cmp.X == ph && cmp.Y == ps[1] && cmp.Op.String() == "<" || down && cmp.X == ph && isz && z.Int64() == 0 && cmp.Op.String() == ">" {
				loops++
			}
		}
	}
	if loops > 1 {
		return false
	}
	good := true
	n := 0
	var par *Term
	cc := newCheck(p, "pad", "")
	ll := &lay{c: cc, rule: "pad", key: p.FnName(fn)}
	h := Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool { return p.IsModule(ev.Callee) && !isWriteMethod(ev.Callee) },
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if base(ev.Name) == "Write" && len(ev.Args) == 2 {
				a := seqLen(st)
				ll.bytes(s, st, ev.Args[1])
				sq := seqOf(s, st)
				if len(sq) != a+1 {
					good = false
					return
				}
				e := sq[a]
				if loops == 0 {
					n++
					good = good && a == 0 && e.kind == "zero" && e.val == par
				} else if e.kind == "zero" {
					if k, ok := e.val.IntConst(); !ok || k != 1 {
						good = false
					}
				} else if k, ok := e.val.IntConst(); e.kind != "byte" || !ok || k != 0 {
					good = false
				}
			} else if ev.Callee == nil || !p.IsModule(ev.Callee) {
				good = false
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if e := s.ErrRes(ev); e != nil {
				s.Assume(st, s.T.IsNil(e), true)
			}
			return nil
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			n++
			if seqLen(st) != 1 {
				good = false
			}
			clearSeq(st)
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if want := 1 - loops; seqLen(st) != want {
				good = false
			}
		},
	}
	s := cc.Sim(h)
	s.Run(fn, func(st *State, params, frees []*Term) { par = params[1] })
	p.pads[fn] = good && n > 0 && !s.Overflow
	return p.pads[fn]
}

// canon merges constants; widths of the rest stay terms.
func canonSeq(s *Sim, in []fieldEv) []fieldEv {
	var out []fieldEv
	put := func(b string) {
		if b == "" {
			return
		}
		if n := len(out); n > 0 && out[n-1].kind == "const" {
			out[n-1].b += b
			return
		}
		out = append(out, fieldEv{kind: "const", b: b})
	}
	for _, e := range in {
		switch e.kind {
		case "const":
			put(e.b)
			continue
		case "byte":
			if k, ok := e.val.IntConst(); ok {
				put(string([]byte{byte(k)}))
				continue
			}
		case "le16", "be16", "le32", "be32":
			if k, ok := e.val.IntConst(); ok {
				n := int(kindWidth(e.kind))
				b := make([]byte, n)
				for i := 0; i < n; i++ {
					j := i
					if e.kind[0] == 'b' {
						j = n - 1 - i
					}
					b[j] = byte(uint64(k) >> (8 * i))
				}
				put(string(b))
				continue
			}
		case "zero":
			if k, ok := e.val.IntConst(); ok && k >= 0 && k < 1<<20 {
				put(strings.Repeat("\x00", int(k)))
				continue
			}
		case "str":
			v := e.val
			if v.op == OpPure && v.aux == "strings.Repeat" || v.op == OpOpaque && v.aux == "strings.Repeat" {
				if k, ok := v.args[0].StrConst(); ok {
					if n, ok := v.args[1].IntConst(); ok && n >= 0 && n < 1<<16 {
						put(strings.Repeat(k, int(n)))
						continue
					}
				}
			}
		}
		out = append(out, e)
	}
	return out
}

func (e fieldEv) show(l *lay) string {
	switch e.kind {
	case "const":
		b := e.b
		if len(b) > 24 {
			return fmt.Sprintf("%q… (%d bytes)", b[:24], len(b))
		}
		return fmt.Sprintf("%q", b)
	case "sub":
		return "sub"
	}
	return e.kind + " " + l.desc(e.val)
}

// desc: where a value comes from, in terms of the structure's fields.
func (l *lay) desc(t *Term) string {
	if t == nil {
		return "?"
	}
	for t.op == OpConv || t.op == OpMkIface {
		t = t.args[0]
	}
	if k, ok := t.IntConst(); ok {
		return fmt.Sprint(k)
	}
	if k, ok := t.StrConst(); ok {
		return fmt.Sprintf("%q", k)
	}
	switch t.op {
	case OpLoad:
		if f := l.path(t.args[0]); f != "" {
			return f
		}
		a := t.args[0]
		if a.op == OpGlobal {
			return "global " + a.aux
		}
		if a.op == OpLoad {
			return "*" + l.desc(a)
		}
	case OpField:
		if f := l.path(t); f != "" {
			return f
		}
	case OpGlobal:
		return "global " + l.c.globalName(t)
	case OpLen:
		return "len(" + l.desc(t.args[0]) + ")"
	case OpOpaque, OpPure:
		n := t.aux
		if i := strings.LastIndexAny(n, "./"); i >= 0 {
			n = n[i+1:]
		}
		var as []string
		for _, a := range t.args {
			as = append(as, l.desc(a))
		}
		return n + "(" + strings.Join(as, ",") + ")"
	case OpExtract:
		return l.desc(t.args[0])
	}
	return t.String()
}

func (c *Check) globalName(t *Term) string {
	if g, ok := t.obj.(*ssa.Global); ok {
		return g.Name()
	}
	return t.aux
}

// path: the field of the structure an address or field value denotes.
func (l *lay) path(a *Term) string {
	var parts []string
	for a != l.recv {
		if a.op != OpFieldAddr && a.op != OpField {
			if a.op == OpLoad && l.isRecvVal(a) {
				break
			}
			if l.isRecvVal(a) {
				break
			}
			return ""
		}
		parts = append([]string{a.aux}, parts...)
		a = a.args[0]
		if l.isRecvVal(a) {
			break
		}
	}
	f := strings.Join(parts, ".")
	if n, ok := l.ctor[f]; ok {
		return n
	}
	return f
}

func (l *lay) isRecvVal(a *Term) bool {
	if a == l.recv {
		return true
	}
	if l.recv != nil {
		return false
	}
	// elements of a list of records
	return a.op == OpIndexAddr || a.op == OpLoad && a.args[0].op == OpIndexAddr
}

// keepFacts remembers what was decided on the way.
func keepFacts(next func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool)) func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
	return func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
		t := cond
		for t.op == OpNot {
			t = t.args[0]
		}
		st.marks[fmt.Sprintf("br:%d", t.id)] = Mark{T: t}
		if next != nil {
			next(s, st, in, cond, taken)
		}
	}
}
