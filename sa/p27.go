package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P27"] = checkP27 }

// P27: effects of positional reads.  Every function reached from a positional read is followed with
// labels telling which memory its values point to: paths from the object that is read or from package
// variables, or nothing for memory made during the call.  Locks held are followed as well.

type lab struct {
	a string // shared memory the value points to, "|" separated paths
	c string // shared memory stored inside what it points to, "|" separated fields=path with fields joined by ">"
	x string // object of other code the value was taken from
}

func joinSet(a, b string) string {
	if a == b || b == "" {
		return a
	}
	if a == "" {
		return b
	}
	m := map[string]bool{}
	for _, s := range strings.Split(a+"|"+b, "|") {
		m[s] = true
	}
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "|")
}

func (l lab) join(m lab) lab {
	return lab{joinSet(l.a, m.a), joinSet(l.c, m.c), joinSet(l.x, m.x)}
}

// inside: the entries of a place that holds this value, for the memory the place is in.
func (l lab) inside(prefix string) string {
	out := ""
	for _, p := range split(l.a) {
		out = joinSet(out, prefix+"="+p)
	}
	for _, e := range split(l.c) {
		k, p, _ := strings.Cut(e, "=")
		switch {
		case prefix != "" && k != "":
			k = prefix + ">" + k
		case prefix != "":
			k = prefix
		}
		if strings.Count(k, ">") > 3 {
			k = "*"
		}
		out = joinSet(out, k+"="+p)
	}
	return out
}

// part: the entries of one field of the memory.
func part(c, field, comp string) string {
	out := ""
	for _, e := range split(c) {
		k, p, _ := strings.Cut(e, "=")
		first, rest, _ := strings.Cut(k, ">")
		switch {
		case k == "":
			out = joinSet(out, "="+p+comp)
		case first == "*":
			out = joinSet(out, e)
		case first == field:
			out = joinSet(out, rest+"="+p)
		}
	}
	return out
}

// loaded: the value in memory with these labels.
func loaded(l lab) lab {
	out := lab{a: l.a}
	for _, e := range split(l.c) {
		k, p, _ := strings.Cut(e, "=")
		if k == "" || k == "*" {
			out.a = joinSet(out.a, p)
		}
		if k != "" {
			out.c = joinSet(out.c, e)
		}
	}
	return out
}

func split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, "|")
}

// sub: the labels with a component added to every path.
func sub(a, comp string) string {
	if a == "" {
		return ""
	}
	var out []string
	for _, s := range strings.Split(a, "|") {
		if strings.Count(s, ".")+strings.Count(s, "(") < 8 {
			s += comp
		}
		out = append(out, s)
	}
	return strings.Join(out, "|")
}

type eff struct {
	c     *Check
	root  *ssa.Function
	key   string
	posF  map[string]bool
	memo  map[string]*effSum
	stack map[string]bool
	fns   map[*ssa.Function]bool
	depth int
	// fields written under a lock or once, and where fields are read
	guarded map[string]string
	once    map[string]string
	reads   []fieldRead
}

type fieldRead struct {
	field, pos string
	held       bool
	fn         *ssa.Function
	in         ssa.Instruction
}

type effSum struct {
	ret  []lab
	exit string
}

type effFn struct {
	e      *eff
	fn     *ssa.Function
	args   []lab
	frees  []lab
	vals   map[ssa.Value]lab
	busy   map[ssa.Value]bool
	calls  map[ssa.Instruction]*effSum
	held   string
	report bool
}

func guardedBy(path, held string) bool {
	for _, h := range strings.Split(held, "|") {
		if h != "" && (path == h || strings.HasPrefix(path, h+".") || strings.HasPrefix(path, h+"(") || strings.HasPrefix(path, h+"[")) {
			return true
		}
	}
	return false
}

func allGuarded(a, held string) bool {
	for _, p := range strings.Split(a, "|") {
		if p != "" && !guardedBy(p, held) {
			return false
		}
	}
	return true
}

// basesOf: what a lock with these labels guards.
func basesOf(a string) string {
	out := ""
	for _, p := range split(a) {
		out = joinSet(out, baseOf(p))
	}
	return out
}

func baseOf(path string) string {
	if i := strings.LastIndexAny(path, "."); i > 0 {
		return path[:i]
	}
	return path
}

func (e *eff) run(fn *ssa.Function, args, frees []lab, held string) *effSum {
	var k strings.Builder
	k.WriteString(fn.String() + "#" + held)
	for _, l := range append(append([]lab{}, args...), frees...) {
		k.WriteString("#" + l.a + ";" + l.c + ";" + l.x)
	}
	key := k.String()
	if m := e.memo[key]; m != nil {
		return m
	}
	empty := &effSum{exit: held, ret: make([]lab, fn.Signature.Results().Len())}
	if len(fn.Blocks) == 0 || e.stack[key] {
		return empty
	}
	if e.depth > 40 {
		e.bad(fn, "undecided", e.c.P.Pos(fn.Pos()), "calls nest too deeply")
		return empty
	}
	e.stack[key] = true
	e.depth++
	e.fns[fn] = true
	f := &effFn{e: e, fn: fn, args: args, frees: frees, vals: map[ssa.Value]lab{}, busy: map[ssa.Value]bool{}}
	out := f.analyse(held)
	e.depth--
	delete(e.stack, key)
	e.memo[key] = out
	return out
}

func (e *eff) bad(fn *ssa.Function, rule, pos, msg string) {
	k := e.key
	if fn != e.root {
		k += " in " + e.c.P.FnName(fn)
	}
	e.c.Bad(rule, k, pos, msg, nil)
}

// analyse: locks held at each instruction, then its effects.
func (f *effFn) analyse(held string) *effSum {
	const top = "\x00"
	in := map[*ssa.BasicBlock]string{}
	for _, b := range f.fn.Blocks {
		in[b] = top
	}
	in[f.fn.Blocks[0]] = held
	meet := func(a, b string) string {
		if a == top {
			return b
		}
		if b == top {
			return a
		}
		var out []string
		for _, x := range strings.Split(a, "|") {
			for _, y := range strings.Split(b, "|") {
				if x == y && x != "" {
					out = append(out, x)
				}
			}
		}
		return strings.Join(out, "|")
	}
	pass := func(report bool) bool {
		changed := false
		f.report = report
		for _, b := range f.fn.Blocks {
			if in[b] == top {
				continue
			}
			f.held = in[b]
			for _, i := range b.Instrs {
				f.instr(i)
			}
			for _, s := range b.Succs {
				if m := meet(in[s], f.held); m != in[s] {
					in[s] = m
					changed = true
				}
			}
		}
		return changed
	}
	for n := 0; pass(false) && n < 20; n++ {
	}
	pass(true)
	out := &effSum{ret: make([]lab, f.fn.Signature.Results().Len())}
	exit := top
	for _, b := range f.fn.Blocks {
		if in[b] == top {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		f.held = in[b]
		f.report = false
		for _, i := range b.Instrs {
			f.instr(i)
		}
		exit = meet(exit, f.held)
		for i, v := range r.Results {
			out.ret[i] = out.ret[i].join(f.val(v))
		}
	}
	if exit != top {
		out.exit = exit
	}
	// what is unlocked at the end
	for _, b := range f.fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok && isLockCall(&d.Call, "Unlock") {
				out.exit = without(out.exit, basesOf(f.val(d.Call.Args[0]).a))
			}
		}
	}
	return out
}

func without(set, x string) string {
	var out []string
	for _, s := range strings.Split(set, "|") {
		if s != "" && !guardedBy(s, x) {
			out = append(out, s)
		}
	}
	return strings.Join(out, "|")
}

func isLockCall(cc *ssa.CallCommon, name string) bool {
	fn := cc.StaticCallee()
	return fn != nil && fnPkg(fn) != nil && fnPkg(fn).Path() == "sync" && fn.Name() == name && len(cc.Args) == 1
}

// val: the labels of a value.
func (f *effFn) val(v ssa.Value) lab {
	if l, ok := f.vals[v]; ok {
		return l
	}
	if f.busy[v] {
		return lab{}
	}
	f.busy[v] = true
	l := f.val1(v)
	delete(f.busy, v)
	if _, isCall := v.(*ssa.Call); !isCall && len(f.busy) == 0 {
		f.vals[v] = l
	}
	return l
}

func (f *effFn) val1(v ssa.Value) lab {
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range f.fn.Params {
			if p == v && i < len(f.args) {
				return f.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.fn.FreeVars {
			if p == v && i < len(f.frees) {
				return f.frees[i]
			}
		}
	case *ssa.Global:
		if v.Pkg != nil && f.e.c.P.IsModulePkg(v.Pkg.Pkg.Path()) {
			return lab{a: "variable " + v.Pkg.Pkg.Name() + "." + v.Name()}
		}
	case *ssa.Alloc:
		return lab{c: f.contents(v)}
	case *ssa.FieldAddr:
		x := f.val(v.X)
		return lab{a: sub(x.a, "."+faName(v)), c: part(x.c, faName(v), "."+faName(v))}
	case *ssa.Field:
		x := f.val(v.X)
		n := v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name()
		return loaded(lab{a: sub(x.a, "."+n), c: part(x.c, n, "."+n)})
	case *ssa.IndexAddr:
		x := f.val(v.X)
		return lab{a: sub(x.a, "[]"), c: part(x.c, "[]", "[]")}
	case *ssa.Index:
		x := f.val(v.X)
		return loaded(lab{a: sub(x.a, "[]"), c: part(x.c, "[]", "[]")})
	case *ssa.Lookup:
		x := f.val(v.X)
		return loaded(lab{a: sub(x.a, "[]"), c: part(x.c, "[]", "[]")})
	case *ssa.UnOp:
		x := f.val(v.X)
		if v.Op == token.MUL {
			return loaded(x)
		}
		if v.Op == token.ARROW {
			return loaded(lab{a: sub(x.a, "[]"), c: part(x.c, "[]", "[]")})
		}
	case *ssa.Slice:
		return f.val(v.X)
	case *ssa.Convert:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return lab{}
		}
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return lab{}
		}
		return f.val(v.X)
	case *ssa.ChangeType:
		return f.val(v.X)
	case *ssa.ChangeInterface:
		return f.val(v.X)
	case *ssa.MakeInterface:
		return f.val(v.X)
	case *ssa.TypeAssert:
		l := f.val(v.X)
		if l.x != "" {
			if n := namedOf(v.AssertedType); n != nil && n.Obj().Pkg() != nil && f.e.c.P.IsModulePkg(n.Obj().Pkg().Path()) {
				l.a = joinSet(l.a, sub(l.x, "()"))
			}
		}
		return l
	case *ssa.Phi:
		var l lab
		for _, x := range v.Edges {
			l = l.join(f.val(x))
		}
		return l
	case *ssa.MakeClosure:
		var l lab
		for _, b := range v.Bindings {
			l.c = joinSet(l.c, f.val(b).inside("*"))
		}
		return l
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if s := f.calls[c]; s != nil && v.Index < len(s.ret) {
				return s.ret[v.Index]
			}
			return lab{}
		}
		return f.val(v.Tuple)
	case *ssa.Next:
		return f.val(v.Iter)
	case *ssa.Range:
		x := f.val(v.X)
		return loaded(lab{a: sub(x.a, "[]"), c: part(x.c, "[]", "[]")})
	case *ssa.Call:
		if s := f.calls[v]; s != nil && len(s.ret) > 0 {
			return s.ret[0]
		}
	}
	return lab{}
}

// contents: what is stored in memory made by this function.
func (f *effFn) contents(a *ssa.Alloc) string {
	out := ""
	var walk func(v ssa.Value, prefix string)
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value, prefix string) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					out = joinSet(out, f.val(r.Val).inside(prefix))
				}
			case *ssa.FieldAddr:
				walk(r, strings.TrimPrefix(prefix+">"+faName(r), ">"))
			case *ssa.IndexAddr:
				walk(r, strings.TrimPrefix(prefix+">[]", ">"))
			case *ssa.Slice:
				walk(r, prefix)
			}
		}
	}
	walk(a, "")
	return out
}

func fieldKey(v *ssa.FieldAddr) string {
	n := namedOf(v.X.Type())
	if n == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + faName(v)
}

// write: memory with these labels changes.
func (f *effFn) write(in ssa.Instruction, a string, what, field string) {
	if a == "" || !f.report {
		return
	}
	if allGuarded(a, f.held) {
		if field != "" {
			if strings.Contains(f.held, "\x01") {
				f.e.once[field] = f.e.c.P.InstrPos(in)
			} else {
				f.e.guarded[field] = f.e.c.P.InstrPos(in)
			}
		}
		return
	}
	f.e.bad(f.fn, "state", f.e.c.P.InstrPos(in), what+" changes "+strings.ReplaceAll(a, "|", " or ")+", which other positional reads use, without a lock")
}

func (f *effFn) read(in ssa.Instruction, a, field string) {
	if a == "" || field == "" || !f.report {
		return
	}
	f.e.reads = append(f.e.reads, fieldRead{field, f.e.c.P.InstrPos(in), allGuarded(a, f.held), f.fn, in})
}

func addrField(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return fieldKey(v)
	case *ssa.IndexAddr:
		if k := addrField(v.X); k != "" {
			return k + "[]"
		}
	case *ssa.Slice:
		return addrField(v.X)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return addrField(v.X)
		}
	}
	return ""
}

func (f *effFn) instr(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		f.write(in, f.val(in.Addr).a, "the assignment", addrField(in.Addr))
	case *ssa.MapUpdate:
		f.write(in, f.val(in.Map).a, "the map assignment", addrField(in.Map)+"[]")
	case *ssa.UnOp:
		if in.Op == token.MUL {
			a := f.val(in.X).a
			f.read(in, a, addrField(in.X))
			if f.report {
				for _, p := range strings.Split(a, "|") {
					if f.e.posF[p] {
						f.e.bad(f.fn, "position", f.e.c.P.InstrPos(in), "a positional read uses the sequential position "+p)
					}
				}
			}
		}
	case *ssa.Call:
		if f.calls == nil {
			f.calls = map[ssa.Instruction]*effSum{}
		}
		s := f.call(in, &in.Call, false)
		old := f.calls[in]
		f.calls[in] = s
		if old == nil || !sameSum(old, s) {
			f.vals = map[ssa.Value]lab{}
		}
	case *ssa.Defer:
		if isLockCall(&in.Call, "Unlock") || isLockCall(&in.Call, "RUnlock") {
			return
		}
		h := f.held
		f.call(in, &in.Call, false)
		f.held = h
	case *ssa.Go:
		h := f.held
		f.held = ""
		f.call(in, &in.Call, true)
		f.held = h
	case *ssa.MakeClosure:
		// kept for later: run without the locks of this moment
		for _, r := range *in.Referrers() {
			if _, ok := r.(ssa.CallInstruction); !ok {
				h := f.held
				f.held = ""
				f.closure(in)
				f.held = h
			}
		}
	}
}

func sameSum(a, b *effSum) bool {
	if a.exit != b.exit || len(a.ret) != len(b.ret) {
		return false
	}
	for i := range a.ret {
		if a.ret[i] != b.ret[i] {
			return false
		}
	}
	return true
}

func (f *effFn) closure(mc *ssa.MakeClosure) *effSum {
	fn := mc.Fn.(*ssa.Function)
	var frees []lab
	for _, b := range mc.Bindings {
		frees = append(frees, f.val(b))
	}
	return f.e.run(fn, make([]lab, len(fn.Params)), frees, f.held)
}

// calls that move the position of a stream or are its only user
var seqMethods = map[string]bool{"Read": true, "Seek": true, "Write": true, "WriteString": true, "WriteByte": true, "ReadByte": true, "ReadRune": true,
	"ReadString": true, "ReadBytes": true, "ReadLine": true, "ReadSlice": true, "ReadFrom": true, "WriteTo": true, "Next": true, "Peek": true, "Discard": true,
	"Reset": true, "Truncate": true, "Readdir": true, "ReadDir": true, "Readdirnames": true, "Close": true, "Scan": true}

// functions that read from an argument, with the buffer they fill
var streamFuncs = map[string][2]int{"io.ReadFull": {0, 1}, "io.ReadAtLeast": {0, 1}, "io.Copy": {1, -1}, "io.CopyN": {1, -1}, "io.CopyBuffer": {1, 2},
	"io.ReadAll": {0, -1}, "io/ioutil.ReadAll": {0, -1}, "encoding/binary.Read": {0, -1}}

// functions whose result is the argument in another form
var viewFuncs = map[string]bool{"io.LimitReader": true, "io.TeeReader": true, "bufio.NewReader": true, "bufio.NewReaderSize": true, "io.MultiReader": true,
	"io/ioutil.NopCloser": true, "io.NopCloser": true, "bufio.NewScanner": true}

// types that must not be used by two goroutines at once
func unsafeMethod(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || fnPkg(fn) == nil {
		return false
	}
	n := namedOf(fn.Signature.Recv().Type())
	if n == nil {
		return false
	}
	switch p := fnPkg(fn).Path(); {
	case strings.HasSuffix(p, "/simplelru"), p == "container/list", p == "container/ring", p == "math/rand" && n.Obj().Name() == "Rand", p == "hash", strings.HasPrefix(p, "hash/"):
		return true
	case strings.HasSuffix(p, "google/btree"):
		return strings.HasPrefix(fn.Name(), "Delete") || fn.Name() == "ReplaceOrInsert" || fn.Name() == "Clear"
	}
	return false
}

func (f *effFn) call(in ssa.Instruction, cc *ssa.CallCommon, isGo bool) *effSum {
	e := f.e
	var args []lab
	for _, a := range cc.Args {
		args = append(args, f.val(a))
	}
	nret := cc.Signature().Results().Len()
	out := &effSum{ret: make([]lab, nret), exit: f.held}
	// closures given to other code run at once
	callbacks := func(held string) {
		for _, a := range cc.Args {
			switch a := a.(type) {
			case *ssa.MakeClosure:
				h := f.held
				f.held = held
				f.closure(a)
				f.held = h
			}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			f.write(in, args[0].a, "copying", addrField(cc.Args[0])+"[]")
			if k := addrField(cc.Args[1]); k != "" {
				f.read(in, args[1].a, k+"[]")
			}
		case "append":
			f.write(in, args[0].a, "appending", addrField(cc.Args[0])+"[]")
			if nret > 0 {
				out.ret[0] = args[0]
				for _, a := range args[1:] {
					out.ret[0].c = joinSet(out.ret[0].c, a.c)
				}
			}
		case "delete":
			f.write(in, args[0].a, "deleting", addrField(cc.Args[0])+"[]")
		}
		return out
	}
	if cc.IsInvoke() {
		recv := f.val(cc.Value)
		name := cc.Method.Name()
		if seqMethods[name] && recv.a != "" {
			f.write(in, recv.a, "the call of "+name, "")
		}
		if name == "ReadAt" || name == "Read" {
			if len(args) > 0 {
				f.write(in, args[0].a, "reading into it", addrField(cc.Args[0])+"[]")
			}
			return out
		}
		if seqMethods[name] {
			return out
		}
		var ts []*ssa.Function
		if n := namedOf(cc.Value.Type()); name == "Size" || name == "URL" || n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "storage/driver") {
			for _, t := range e.c.P.InvokeTargets(cc) {
				if !isMockPkg(e.c.P.Rel(t)) {
					ts = append(ts, t)
				}
			}
		}
		for _, t := range ts {
			s := e.run(t, append([]lab{recv}, args...), nil, f.held)
			for i := range s.ret {
				if i < nret {
					out.ret[i] = out.ret[i].join(s.ret[i])
				}
			}
		}
		if len(ts) == 0 {
			for i := range out.ret {
				out.ret[i].x = recv.a
			}
			callbacks(f.held)
		}
		return out
	}
	callee := cc.StaticCallee()
	if callee == nil {
		// a function value: it may fill the buffers it is given
		for i, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Slice); ok {
				f.write(in, args[i].a, "the function called", addrField(a)+"[]")
			}
		}
		callbacks(f.held)
		return out
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		var frees []lab
		for _, b := range mc.Bindings {
			frees = append(frees, f.val(b))
		}
		s := e.run(callee, args, frees, f.held)
		f.held = s.exit
		return s
	}
	if e.c.P.IsModule(callee) && len(callee.Blocks) > 0 {
		if callee.Name() == "ReadAt" && callee.Signature.Recv() != nil && callee != f.fn && len(args) == 3 && e.isRoot(callee) {
			f.write(in, args[1].a, "reading into it", addrField(cc.Args[1])+"[]")
			return out
		}
		s := e.run(callee, args, nil, f.held)
		if !isGo {
			f.held = s.exit
		}
		callbacks(f.held)
		return s
	}
	// other code
	pkg := ""
	if p := fnPkg(callee); p != nil {
		pkg = p.Path()
	}
	full := pkg + "." + callee.Name()
	method := callee.Signature.Recv() != nil
	switch {
	case pkg == "sync" && callee.Name() == "Lock":
		if args[0].a != "" {
			f.held = joinSet(f.held, basesOf(args[0].a))
		}
	case pkg == "sync" && callee.Name() == "Unlock":
		f.held = without(f.held, basesOf(args[0].a))
	case pkg == "sync" && callee.Name() == "Do":
		h := f.held
		if args[0].a != "" {
			h = joinSet(h, basesOf(args[0].a))
			h = joinSet(h, "\x01")
		}
		callbacks(h)
		return out
	case pkg == "sync" || pkg == "sync/atomic":
	case viewFuncs[full]:
		for _, a := range args {
			out.ret[0] = out.ret[0].join(lab{a: a.a})
		}
	default:
		if sf, ok := streamFuncs[full]; ok {
			f.write(in, args[sf[0]].a, "reading from it", "")
			if sf[1] >= 0 {
				f.write(in, args[sf[1]].a, "reading into it", addrField(cc.Args[sf[1]])+"[]")
			}
			return out
		}
		if method && (seqMethods[callee.Name()] || unsafeMethod(callee)) {
			f.write(in, args[0].a, "the call of "+callee.Name(), "")
		}
		if callee.Name() == "ReadAt" && method && len(args) == 3 {
			f.write(in, args[1].a, "reading into it", addrField(cc.Args[1])+"[]")
			return out
		}
		for i, a := range cc.Args {
			if i == 0 && method {
				continue
			}
			x := a
			if mi, ok := x.(*ssa.MakeInterface); ok {
				x = mi.X
			}
			switch x.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
				f.write(in, args[i].a, "giving its address to "+callee.Name(), addrField(x))
			}
		}
		if method {
			for i := range out.ret {
				out.ret[i].x = args[0].a
			}
		}
	}
	callbacks(f.held)
	return out
}

func (e *eff) isRoot(fn *ssa.Function) bool { return isReadAt(fn) }

func checkP27(c *Check) {
	c.Rule("state", "a positional read changes nothing that outlives it except under a lock, once or atomically, and moves no shared stream", 13)
	c.Rule("position", "a positional read does not use the position of sequential reads", 8)
	c.Rule("guarded", "what positional reads change under a lock they read under it", 3)
	var effs []*eff
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || strings.Contains(c.P.Rel(fn), "mock") || !c.P.IsModule(fn) || fn.Synthetic != "" {
			continue
		}
		fuse := fn.Name() == "ReadFile" && fn.Signature.Recv() != nil && c.P.Rel(fn) == "pkg/isofuse"
		if !isReadAt(fn) && !fuse {
			continue
		}
		key := c.P.FnName(fn)
		c.Ob("state", key, c.P.Pos(fn.Pos()))
		e := &eff{c: c, root: fn, key: key, posF: map[string]bool{}, memo: map[string]*effSum{}, stack: map[string]bool{}, fns: map[*ssa.Function]bool{},
			guarded: map[string]string{}, once: map[string]string{}}
		n := namedOf(fn.Signature.Recv().Type())
		if n != nil && !fuse {
			for f := range c.sequential(n) {
				e.posF["the object."+f] = true
			}
			if len(e.posF) > 0 {
				c.Ob("position", key, c.P.Pos(fn.Pos()))
			}
		}
		args := make([]lab, len(fn.Params))
		args[0] = lab{a: "the object"}
		e.run(fn, args, nil, "")
		effs = append(effs, e)
		for f := range e.fns {
			c.Fns[f] = true
		}
	}
	for _, e := range effs {
		for k := range e.guarded {
			c.Ob("guarded", k, e.guarded[k])
		}
		seen := map[string]bool{}
		for _, r := range e.reads {
			if _, ok := e.guarded[r.field]; ok && !r.held && !seen[r.field+r.pos] {
				seen[r.field+r.pos] = true
				e.bad(r.fn, "guarded", r.pos, "reads "+r.field+" without the lock it is changed under at "+e.guarded[r.field])
			}
			if w, ok := e.once[r.field]; ok && !r.held && !c.afterOnce(r.in) && !seen[r.field+r.pos] {
				seen[r.field+r.pos] = true
				e.bad(r.fn, "guarded", r.pos, "reads "+r.field+" before it is known to be set once at "+w)
			}
		}
	}
}

// afterOnce: a call that runs a once function comes before in every run.
func (c *Check) afterOnce(in ssa.Instruction) bool { return c.afterOnceN(in, 0) }

func (c *Check) afterOnceN(in ssa.Instruction, depth int) bool {
	fn := in.Parent()
	if c.runsOnce(fn.Parent(), 3) && fn.Parent() != nil {
		return true // inside the function run once
	}
	for _, b := range fn.Blocks {
		if !b.Dominates(in.Block()) {
			continue
		}
		for _, x := range b.Instrs {
			if x == in {
				break
			}
			if cl, ok := x.(*ssa.Call); ok {
				if f := cl.Call.StaticCallee(); f != nil && (c.runsOnce(f, 0) || fnPkg(f) != nil && fnPkg(f).Path() == "sync" && f.Name() == "Do") {
					return true
				}
			}
		}
	}
	// a helper: every call of it comes after
	if depth > 3 || fn.Parent() != nil || c.P.addrOf[fn] || token.IsExported(fn.Name()) || len(c.P.callers[fn]) == 0 {
		return false
	}
	for _, site := range c.P.callers[fn] {
		if !c.afterOnceN(site, depth+1) {
			return false
		}
	}
	return true
}

// runsOnce: every run of the function that returns has passed a once.
func (c *Check) runsOnce(fn *ssa.Function, depth int) bool {
	if fn == nil || !c.P.IsModule(fn) || depth > 3 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			cl, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			f := cl.Call.StaticCallee()
			if f == nil || !(fnPkg(f) != nil && fnPkg(f).Path() == "sync" && f.Name() == "Do") && !c.runsOnce(f, depth+1) {
				continue
			}
			all := true
			for _, e := range fn.Blocks {
				if _, ok := e.Instrs[len(e.Instrs)-1].(*ssa.Return); ok && !b.Dominates(e) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// sequential: the fields that sequential reads and seeks move.
func (c *Check) sequential(n *types.Named) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !c.P.IsModule(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == n {
						out[faName(fa)] = true
					}
				case *ssa.Call:
					if f := in.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) == n && f.Name() != "ReadAt" && f.Name() != "Size" {
						walk(f)
					}
				}
			}
		}
	}
	walk(c.P.Method(n, "Read"))
	walk(c.P.Method(n, "Seek"))
	return out
}

func faName(v *ssa.FieldAddr) string {
	st, ok := deref(v.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return st.Field(v.Field).Name()
}
