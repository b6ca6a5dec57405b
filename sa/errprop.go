package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error propagation: P01 (burn), P02 (read side), P03 (storage and transports).
//
// Every call with an error result inside an analysed function is a source.  On the path where that
// result is non-nil, every return of the function must report an error (the same one, one derived
// from it or another that is certainly non-nil), or the path must end the process; functions that
// cannot return an error must pass it on (argument, channel, struct field).

// errIgnored: calls whose error carries no information about the data being read or written.
var errIgnored = []string{
	"fmt.Print", "fmt.Printf", "fmt.Println", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln",
	"(*bytes.Buffer).", "(*strings.Builder).", "(hash.Hash).Write", "(hash.Hash64).Write", "(*go.uber.org/zap.Logger).Sync",
	"(*text/tabwriter.Writer).Flush", "(*github.com/fatih/color.Color).", "(*io.PipeWriter).Close", "(*io.PipeWriter).CloseWithError", "(*io.PipeReader).Close", "(*io.PipeReader).CloseWithError", "go.uber.org/automaxprocs/maxprocs.Set",
}

// errIgnoredAt: one named call in one package, with the reason.
var errIgnoredAt = map[string]string{
	"pkg/iso9660 (*io.SectionReader).Seek":                          "telling the position (offset 0 from the current one) cannot fail",
	"pkg/httputil github.com/hashicorp/golang-lru/simplelru.NewLRU": "fails only for a size that is not positive, which the caller excludes",
	"pkg/isofuse encoding/binary.Write":                             "writes into a hash, which never fails",
	"pkg/isofuse (*github.com/jacobsa/fuse.MountedFileSystem).Join": "waits for the end of service, its error is the reason the service ended",
}

// closeNames: releasing a handle that was only read from cannot lose data; the release itself is P11's subject.
func isReadClose(ev *CallEv) bool {
	switch ev.Name {
	case "(io.ReadCloser).Close", "(io.Closer).Close", "(*os.File).Close", "(pkg/storage.Object).Close", "(pkg/storage.AnonymousObject).Close",
		"(pkg/storage/driver.Object).Close", "(pkg/storage/driver.AnonymousObject).Close", "(pkg/vdisc.VDisc).Close":
		return true
	case "os.Remove", "os.RemoveAll":
		// cleaning up; a function of the local-file driver that reports errors removes on request
		fn := ev.Site.Parent()
		rs := fn.Signature.Results()
		return !strings.HasSuffix(fnPkg(fn).Path(), "/pkg/storage/file") || rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type())
	}
	return false
}

// errTolerated: (package, callee, condition) combinations where a particular error is an ordinary outcome.
// cond is the sentinel the path must have established, "log" (error handed to a logger is enough).
type tol struct {
	pkg, callee, cond string
	max               int // number of distinct call sites confirmed by reading
	why               string
}

type errRule struct {
	c    *Check
	rule string
	tol  []tol
	used map[int]map[string]string
	root *ssa.Function
	retE bool
	hasB bool
}

func (e *errRule) ignored(ev *CallEv) bool {
	for _, n := range errIgnored {
		if ev.Name == n || strings.HasSuffix(n, ".") && strings.HasPrefix(ev.Name, n) {
			return true
		}
	}
	if isReadClose(ev) {
		return true
	}
	if _, ok := errIgnoredAt[e.c.P.Rel(ev.Site.Parent())+" "+ev.Name]; ok {
		return true
	}
	// draining into a sink that is not data
	if (ev.Name == "io.Copy" || ev.Name == "io.CopyN") && len(ev.Args) >= 1 {
		a := ev.Args[0]
		for a.op == OpMkIface {
			a = a.args[0]
		}
		if a.op == OpLoad && a.args[0].op == OpGlobal {
			switch a.args[0].aux {
			case "os.Stderr", "os.Stdout":
				return true
			case "io.Discard", "io/ioutil.Discard":
				// what is left of an answer whose status was already looked at
				return ev.Name == "io.Copy" && e.c.P.Rel(ev.Site.Parent()) == "pkg/storage/http"
			}
		}
	}
	if (ev.Name == "io.Copy" || strings.HasSuffix(ev.Name, ".Write") || ev.Name == "io.WriteString" || ev.Name == "encoding/binary.Write") && len(ev.Args) > 0 {
		a := ev.Args[0]
		if a.op == OpMkIface && strings.Contains(a.aux, "xxhash") && ev.Name != "io.Copy" {
			return true
		}
	}
	return false
}

func calleeLabel(c *Check, ev *CallEv) string {
	if ev.Name != "" {
		return ev.Name
	}
	if ev.Fun != nil {
		return "func value " + ev.Common.Value.Name()
	}
	return "func value"
}

func (e *errRule) siteKey(ev *CallEv) string {
	c := e.c
	fn := ev.Site.Parent()
	return c.P.FnName(outer(fn)) + " -> " + calleeLabelStable(c, ev)
}

func calleeLabelStable(c *Check, ev *CallEv) string {
	if ev.Name != "" {
		return ev.Name
	}
	v := ev.Common.Value
	switch v := v.(type) {
	case *ssa.Parameter:
		return "param " + v.Name()
	case *ssa.FreeVar:
		return "captured " + v.Name()
	}
	return "func value of type " + typeStr(v.Type())
}

func outer(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func (e *errRule) hooks() Hooks {
	c := e.c
	return Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			if ev.Callee.Parent() != nil {
				return true
			}
			if !c.P.IsModule(ev.Callee) {
				return false
			}
			for _, a := range ev.Args {
				if a.op == OpClosure {
					return true
				}
			}
			// predicates on errors
			if sg := ev.Callee.Signature; sg.Results().Len() == 1 && isBool(sg.Results().At(0).Type()) && len(ev.Callee.Blocks) < 10 {
				for i := 0; i < sg.Params().Len(); i++ {
					if isErrorType(sg.Params().At(i).Type()) {
						return true
					}
				}
			}
			return false
		},
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			m, ok := st.marks["fail"]
			if !ok || m.T == nil || st.marks["sunk"].S != "" && st.marks["sunk"].S != "arg" {
				return
			}
			if isErrPredicate(ev.Name) || isErrCtor(ev.Name) {
				return
			}
			if ev.Callee != nil && ev.Callee.Parent() != nil {
				return
			}
			for i, a := range ev.VArgs {
				if a.has(m.T) {
					st.marks["sunk"] = Mark{S: "arg"}
					if ev.Callee != nil && i < len(ev.Callee.Params) && c.P.IsModule(ev.Callee) && storesParam(ev.Callee, i) {
						st.marks["sunk"] = Mark{S: "field"}
						break
					}
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Inlined {
				return nil
			}
			// iterator protocol
			if ev.Common.Method != nil || ev.Callee != nil {
				e.iter(s, st, ev)
			}
			E := s.ErrRes(ev)
			if E == nil || ev.Kind == kGo {
				return nil
			}
			if ev.Kind == kDefer && (strings.HasSuffix(ev.Name, ".Close") || strings.HasSuffix(ev.Name, ".Sync")) {
				return nil
			}
			if s.nonNilByShape(E) || e.ignored(ev) || isErrCtor(ev.Name) {
				return nil
			}
			key := e.siteKey(ev)
			c.Ob(e.rule, key, c.P.InstrPos(ev.Site))
			if m, ok := st.marks["fail"]; ok {
				if m.S == siteID(ev) {
					delete(st.marks, "fail")
					delete(st.marks, "sunk")
					delete(st.marks, "sunkat")
					for k := range st.marks {
						if strings.HasPrefix(k, "is:") {
							delete(st.marks, k)
						}
					}
				} else {
					return nil
				}
			}
			isnil := s.T.IsNil(E)
			if s.Eval(st, isnil) >= 0 {
				return nil
			}
			o := st.clone()
			if s.Assume(o, isnil, false) {
				o.marks["fail"] = Mark{S: siteID(ev), T: E}
				o.marks["failkey"] = Mark{S: key + "@" + c.P.InstrPos(ev.Site) + "@" + ev.Name + "@" + c.P.Rel(ev.Site.Parent())}
				s.note(o, ev.Site.Pos(), "call fails: "+calleeLabelStable(c, ev))
			} else {
				o = nil
			}
			s.Assume(st, isnil, true)
			if o == nil {
				return nil
			}
			return []*State{o}
		},
		Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
			if !e.retE || addr.op != OpFieldAddr || !isErrorType(deref(addr.typ)) {
				return nil
			}
			if _, ok := st.marks["fail"]; ok {
				return nil
			}
			n := namedOf(addr.args[0].typ)
			if n == nil || n.Obj().Pkg() == nil || !c.P.IsModulePkg(n.Obj().Pkg().Path()) {
				return nil
			}
			isnil := s.T.IsNil(val)
			if s.Eval(st, isnil) >= 0 {
				return nil
			}
			key := c.P.FnName(outer(in.Parent())) + " -> recorded error " + n.Obj().Name() + "." + addr.aux
			c.Ob(e.rule, key, c.P.InstrPos(in))
			o := st.clone()
			s.Assume(o, isnil, false)
			s.note(o, in.Pos(), "recorded error is set: "+addr.aux)
			o.marks["fail"] = Mark{S: "field " + addr.aux, T: val}
			o.marks["failkey"] = Mark{S: key + "@" + c.P.InstrPos(in) + "@field@" + c.P.Rel(in.Parent())}
			s.Assume(st, isnil, true)
			return []*State{o}
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			m, ok := st.marks["fail"]
			if !ok {
				return
			}
			if sa, ok := st.marks["sunkat"]; ok && sa.T == addr && !val.has(m.T) {
				if s.Eval(st, s.T.IsNil(val)) != 0 {
					e.bad(s, st, in, "the error recorded here earlier on this path is overwritten", m)
				}
				return
			}
			if m.T != nil && val.has(m.T) {
				r := rootOf(addr)
				if addr.op == OpFieldAddr || r.op != OpAlloc {
					st.marks["sunk"] = Mark{S: "field"}
					st.marks["sunkat"] = Mark{T: addr}
				}
			}
		},
		Send: func(s *Sim, st *State, in ssa.Instruction, ch, v *Term) {
			if m, ok := st.marks["fail"]; ok && m.T != nil && v.has(m.T) {
				st.marks["sunk"] = Mark{S: "send"}
			}
		},
		MapWrite: func(s *Sim, st *State, in ssa.Instruction, mm, k, v *Term) {
			if m, ok := st.marks["fail"]; ok && m.T != nil && v.has(m.T) {
				st.marks["sunk"] = Mark{S: "field"}
			}
		},
		Subst: func(s *Sim, st *State, old, nw *Term) {
			if m, ok := st.marks["fail"]; ok && m.T == old {
				m.T = nw
				st.marks["fail"] = m
			}
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			t, neg := cond, false
			if t.op == OpNot {
				t, neg = t.args[0], true
			}
			if m, ok := st.marks["fail"]; ok && m.T != nil && taken != neg {
				if n := errCond(t, m.T); n != "" {
					st.marks["is:"+n] = Mark{S: "1"}
				}
			}
			if in.Parent() == e.root && e.root.Parent() != nil && capturedError(in.Cond, taken) {
				st.marks["othererr"] = Mark{S: "1"}
			}
			for k, m := range st.marks {
				if strings.HasPrefix(k, "next:") && m.T == t {
					truth := taken != neg
					delete(st.marks, k)
					if !truth {
						st.marks["iter:"+k[5:]] = Mark{S: m.S}
					}
					break
				}
			}
		},
		Go: func(s *Sim, st *State, ev *CallEv) bool {
			if E := ev.Common.Signature().Results(); E.Len() > 0 && isErrorType(E.At(E.Len()-1).Type()) {
				c.Bad(e.rule, e.siteKey(ev)+" (go)", c.P.InstrPos(ev.Site), "error result of a goroutine call is dropped", nil)
			}
			return false
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) { e.ret(s, st, in, res) },
	}
}

// errCond: the sentinel or predicate that fact f establishes for error E.
func errCond(f, E *Term) string {
	glob := func(o *Term) string {
		if o.op == OpLoad && o.args[0].op == OpGlobal {
			if strings.HasSuffix(o.args[0].aux, ".ErrNotExist") {
				return "os.IsNotExist"
			}
			return o.args[0].aux
		}
		return ""
	}
	switch {
	case f.op == OpEq && f.args[0] == E:
		return glob(f.args[1])
	case f.op == OpEq && f.args[1] == E:
		return glob(f.args[0])
	case f.op == OpPure && f.aux == "errors.Is" && len(f.args) == 2 && f.has(E):
		return glob(f.args[1])
	case f.op == OpPure && f.has(E):
		return f.aux
	}
	return ""
}

// storesParam: fn records its i-th parameter in a field.
func storesParam(fn *ssa.Function, i int) bool {
	p := fn.Params[i]
	for _, r := range *p.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == p {
			if _, ok := st.Addr.(*ssa.FieldAddr); ok {
				return true
			}
		}
	}
	return false
}

func siteID(ev *CallEv) string { return string(rune(ev.Ctx.id)) + "/" + ev.Site.String() }

func isErrPredicate(n string) bool {
	switch n {
	case "os.IsNotExist", "os.IsExist", "errors.Is", "errors.As", "os.IsTimeout", "os.IsPermission":
		return true
	}
	return false
}

func isErrCtor(n string) bool {
	switch n {
	case "fmt.Errorf", "errors.New", "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.New", "(context.Context).Err",
		"os.NewSyscallError", "errors.Join", "github.com/aws/aws-sdk-go/aws/awserr.New", "github.com/pkg/errors.Errorf", "errors.Unwrap":
		return true
	}
	return false
}

// iter tracks `for it.Next()` loops whose iterator has an Err method.
func (e *errRule) iter(s *Sim, st *State, ev *CallEv) {
	sig := ev.Common.Signature()
	var name string
	var recvT types.Type
	if ev.Common.IsInvoke() {
		name = ev.Common.Method.Name()
		recvT = ev.Common.Value.Type()
	} else if ev.Callee != nil && ev.Callee.Signature.Recv() != nil {
		name = ev.Callee.Name()
		recvT = ev.Callee.Signature.Recv().Type()
	} else {
		return
	}
	if len(ev.Args) == 0 {
		return
	}
	recv := ev.Args[0]
	id := recv.String() + "/" + itoa(recv.id)
	if name == "Err" && sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) {
		delete(st.marks, "iter:"+id)
		return
	}
	if (name == "Next" || name == "Scan") && sig.Results().Len() == 1 && isBool(sig.Results().At(0).Type()) && hasErrMethod(recvT) {
		key := e.c.P.FnName(outer(ev.Site.Parent())) + " -> " + ev.Name + " / Err"
		e.c.Ob(e.rule, key, e.c.P.InstrPos(ev.Site))
		delete(st.marks, "iter:"+id)
		st.marks["next:"+id] = Mark{S: key + "@" + e.c.P.InstrPos(ev.Site), T: ev.Result}
	}
}

func itoa(i int) string { return strings.TrimSpace(strings.Join([]string{intStr(i)}, "")) }

func intStr(i int) string {
	if i == 0 {
		return "0"
	}
	var b []byte
	for i > 0 {
		b = append([]byte{byte('0' + i%10)}, b...)
		i /= 10
	}
	return string(b)
}

func hasErrMethod(t types.Type) bool {
	for _, tt := range []types.Type{t, types.NewPointer(deref(t))} {
		ms := types.NewMethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "Err" {
				sg := ms.At(i).Type().(*types.Signature)
				if sg.Params().Len() == 0 && sg.Results().Len() == 1 && isErrorType(sg.Results().At(0).Type()) {
					return true
				}
			}
		}
	}
	return false
}

func (e *errRule) ret(s *Sim, st *State, in *ssa.Return, res []*Term) {
	reported := false
	var eres *Term
	for i, r := range res {
		if isErrorLike(e.root.Signature.Results().At(i).Type()) {
			eres = r
			if s.Eval(st, s.T.IsNil(r)) == 0 {
				reported = true
			}
		}
	}
	// iterator obligations
	if !reported {
		var ks []string
		for k := range st.marks {
			if strings.HasPrefix(k, "iter:") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if eres != nil || e.root.Signature.Results().Len() == 0 {
				pp := strings.SplitN(st.marks[k].S, "@", 2)
				e.c.Bad(e.rule, pp[0], pp[1], "the iterator is exhausted on this path but its Err method is not consulted before "+e.c.P.FnName(e.root)+" returns", s.Path(st))
			}
		}
	}
	m, ok := st.marks["fail"]
	if !ok || reported {
		return
	}
	for _, r := range res {
		if m.T != nil && r.has(m.T) {
			return
		}
	}
	sunk := st.marks["sunk"].S
	if sunk == "field" || sunk == "send" {
		return
	}
	if eres == nil && sunk != "" {
		return
	}
	if eres == nil && st.marks["othererr"].S != "" {
		return
	}
	e.badTol(s, st, in, m, sunk)
}

// capturedError: the branch is taken only if an error variable of the enclosing function holds an error already.
func capturedError(cond ssa.Value, taken bool) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.NEQ) != taken {
		return false
	}
	if k, ok := b.Y.(*ssa.Const); !ok || !k.IsNil() {
		return false
	}
	u, ok := b.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || !isErrorType(u.Type()) {
		return false
	}
	_, ok = u.X.(*ssa.FreeVar)
	return ok
}

func (e *errRule) badTol(s *Sim, st *State, in ssa.Instruction, m Mark, sunk string) {
	fk := strings.Split(st.marks["failkey"].S, "@")
	key, pos, callee, pkg := fk[0], fk[1], fk[2], fk[3]
	for i, t := range e.tol {
		if t.callee != callee || t.pkg != "" && t.pkg != pkg {
			continue
		}
		ok := false
		if t.cond == "" {
			ok = true
		} else if t.cond == "log" {
			ok = sunk != ""
		} else if t.cond == "noerr" {
			ok = !e.retE
		} else {
			_, ok = st.marks["is:"+t.cond]
			for f, v := range st.facts {
				if v && errCond(f, m.T) == t.cond {
					ok = true
				}
			}
		}
		if ok {
			if e.used[i] == nil {
				e.used[i] = map[string]string{}
			}
			e.used[i][pos] = key
			return
		}
	}
	e.c.Bad(e.rule, key, pos, "when this call fails, "+e.c.P.FnName(e.root)+" can return at "+e.c.P.InstrPos(in)+" without reporting an error", s.Path(st))
}

func (e *errRule) bad(s *Sim, st *State, in ssa.Instruction, msg string, m Mark) {
	fk := strings.Split(st.marks["failkey"].S, "@")
	e.c.Bad(e.rule, fk[0], e.c.P.InstrPos(in), msg, s.Path(st))
}

func (e *errRule) runFn(fn *ssa.Function) {
	e.root = fn
	e.retE = false
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErrorLike(rs.At(i).Type()) {
			e.retE = true
		}
	}
	s := e.c.Sim(e.hooks())
	s.Depth = 7
	e.c.Run(s, fn, nil)
}

func (e *errRule) finish() {
	for i, t := range e.tol {
		if t.max > 0 && len(e.used[i]) > t.max {
			var sites []string
			for p, k := range e.used[i] {
				sites = append(sites, k+" @ "+p)
			}
			sort.Strings(sites)
			e.c.Bad(e.rule, "tolerated "+t.callee+" "+t.cond+" in "+t.pkg, sites[0], "more call sites than reviewed treat this error as an ordinary outcome ("+t.why+"): "+strings.Join(sites, "; "), nil)
		}
	}
}

var p03pkgs = []string{"pkg/storage", "pkg/httputil", "pkg/s3util", "pkg/kmod", "pkg/blockdev", "pkg/unixcompat"}

func inPkgs(rel string, pk []string) bool {
	for _, p := range pk {
		if rel == p || strings.HasPrefix(rel, p+"/") {
			return true
		}
	}
	return false
}

// errArea assigns every module function to the properties P01/P02/P03.
func errArea(p *Prog) map[string]map[*ssa.Function]bool {
	out := map[string]map[*ssa.Function]bool{"P01": {}, "P02": {}, "P03": {}}
	var roots []*ssa.Function
	if b := p.Iface("pkg/vdisc", "Builder"); b != nil {
		for _, n := range p.Implementers(b) {
			for i := 0; i < b.NumMethods(); i++ {
				if f := p.Method(n, b.Method(i).Name()); f != nil {
					roots = append(roots, f)
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		n := p.FnName(fn)
		if strings.Contains(n, "BurnCmd") || strings.Contains(n, "iso9660.(*Volume)") || strings.HasSuffix(n, "iso9660.NewVolume") || fn.Name() == "NewBuilder" ||
			p.Rel(fn) == "pkg/iso9660" && fn.Name() == "WriteTo" {
			roots = append(roots, fn)
		}
	}
	burn := p.reach(roots, func(f *ssa.Function) bool { return !inPkgs(p.Rel(f), p03pkgs) })
	for _, fn := range p.Funcs {
		rel := p.Rel(fn)
		if strings.Contains(rel, "vdisc/types") || rel == "pkg/safecast" {
			continue
		}
		if inPkgs(rel, p03pkgs) && rel != "pkg/blockdev" && rel != "pkg/kmod" && !isComposed(p, fn) {
			out["P03"][fn] = true
			continue
		}
		if burn[fn] {
			out["P01"][fn] = true
			if strings.HasPrefix(rel, "pkg/iso9660") {
				continue
			}
			continue
		}
		out["P02"][fn] = true
	}
	return out
}

// isComposed: concatenations and slices live in pkg/storage but belong to reading a disc.
func isComposed(p *Prog, fn *ssa.Function) bool {
	return strings.HasSuffix(p.Fset.Position(fn.Pos()).Filename, "/concat.go")
}

// reach: functions reachable through static calls, closures and module-implemented interface calls.
func (p *Prog) reach(roots []*ssa.Function, keep func(*ssa.Function) bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var st []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 && (p.IsModule(f)) && keep(f) {
			seen[f] = true
			st = append(st, f)
		}
	}
	for _, r := range roots {
		add(r)
	}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range p.InvokeTargets(c.Common()) {
						add(t)
					}
				}
				for _, o := range in.Operands(nil) {
					if fn, ok := (*o).(*ssa.Function); ok {
						add(fn)
					}
				}
			}
		}
	}
	return seen
}

var errTols = []tol{
	{"pkg/vdisc/cli", "(*encoding/csv.Reader).Read", "io.EOF", 1, "end of the CSV"},
	{"pkg/caching", "pkg/storage.Open", "os.IsNotExist", 3, "block not in the cache (yet, or any more)"},
	{"pkg/caching", "pkg/storage.Open", "log", 1, "unreadable cache file: logged and read from the source"},
	{"pkg/caching", "(pkg/storage/driver.XattrObject).GetXattr", "log", 1, "unreadable cache key: logged and read from the source"},
	{"pkg/caching", "(pkg/storage/driver.XattrObject).GetXattr", "", 1, "unreadable cache key under the block's lock: the block is written anew"},
	{"pkg/iso9660", "pkg/iso9660.readByte", "io.EOF", 3, "end of the directory extent"},
	{"pkg/iso9660", "(*pkg/iso9660.Walker).lstat", "log", 1, "handed to the walk callback"},
	{"pkg/iso9660/rrip", "os/user.LookupId", "", 1, "the number is printed instead"},
	{"pkg/iso9660/rrip", "os/user.LookupGroupId", "", 1, "the number is printed instead"},
	{"pkg/vdisc/cli", "os/user.LookupId", "", 2, "the number is printed instead"},
	{"pkg/isofuse", "(pkg/storage.Object).ReadAt", "io.EOF", 1, "FUSE reads past the end are short reads"},
	{"pkg/storage", "field", "io.EOF", 1, "a part may report its end together with the last bytes"},
	{"pkg/blockdev", "pkg/blockdev.sysfsWriteFull", "log", 4, "queue tuning is best effort and logged"},
	{"pkg/vdisc/cli", "github.com/alecthomas/units.ParseStrictBytes", "", 1, "the value is parsed as a percentage instead"},
	{"pkg/s3util", "(*pkg/s3util.multiuploader).geterr", "noerr", 0, "the recorded error is returned by the upload itself"},
	{"pkg/s3util", "(github.com/aws/aws-sdk-go/service/s3/s3iface.S3API).AbortMultipartUploadWithContext", "", 1, "the upload already failed with a recorded error"},
	{"pkg/s3util", "(*pkg/s3util.uploader).nextReader", "io.EOF", 2, "last part of the body"},
	{"pkg/s3util", "github.com/aws/aws-sdk-go/aws.SeekerLen", "", 1, "body of unknown size, uploaded as a stream"},
	{"pkg/storage/s3", "(*github.com/aws/aws-sdk-go/aws/ec2metadata.EC2Metadata).Region", "", 1, "not on EC2: default region"},
}

func runErr(c *Check, id string) {
	min := map[string]int{"P01": 95, "P02": 165, "P03": 195}[id]
	c.Rule("error-propagation", "on every path where a call's error result is non-nil, the function reports an error (or passes it on, or ends the process); iterators that stopped are asked for their error", min)
	e := &errRule{c: c, rule: "error-propagation", tol: errTols, used: map[int]map[string]string{}}
	area := errArea(c.P)[id]
	for _, fn := range c.P.Funcs {
		if area[fn] {
			e.runFn(fn)
		}
	}
	e.finish()
	if id == "P02" {
		c.Rule("output", "a command that writes a named output file succeeds only after closing the file succeeded", 1)
		for _, fn := range c.P.Funcs {
			if area[fn] && c.P.IsTop(fn) && c.P.Rel(fn) == "pkg/vdisc/cli" {
				c.p02output(fn)
			}
		}
	}
	if id == "P03" {
		c.Rule("status", "an answer counts as success only after its status was found to be one of success (2xx)", 4)
		for _, fn := range c.P.Funcs {
			if area[fn] && fn.Parent() == nil {
				c.p03status(fn)
			}
		}
	}
}

// p02output: what was written to a file is only known to be there when closing it did not fail.
func (c *Check) p02output(fn *ssa.Function) {
	creates := func(n string) bool { return n == "os.Create" || n == "os.OpenFile" }
	res := fn.Signature.Results()
	if !touches(c.P, fn, func(cc *ssa.CallCommon) bool { return creates(c.P.calleeName(cc)) }) ||
		res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return
	}
	key := c.P.FnName(fn)
	isClose := func(n string) bool {
		return base(n) == "Close" && (strings.HasPrefix(n, "(io.") || strings.HasPrefix(n, "(*os.File)"))
	}
	inl := pkgInline(c)
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return inl(s, st, ev) && touches(c.P, ev.Callee, func(cc *ssa.CallCommon) bool {
				n := c.P.calleeName(cc)
				return creates(n) || isClose(n)
			})
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			switch {
			case creates(ev.Name):
				c.Ob("output", key, c.P.InstrPos(ev.Site))
				out := s.fork(st, ev, nil)
				st.marks["out"] = Mark{S: c.P.InstrPos(ev.Site), T: strip(s.Res(ev, 0))}
				return out
			case isClose(ev.Name):
				if o, ok := st.marks["out"]; ok && len(ev.Args) > 0 && strip(ev.Args[0]) == o.T && ev.Result != nil {
					if e := s.ErrRes(ev); e != nil {
						st.marks["close:"+c.P.InstrPos(ev.Site)] = Mark{T: e}
					}
				}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			o, ok := st.marks["out"]
			if !ok || !s.succeeds(st, in, res) {
				return
			}
			for k, m := range st.marks {
				if strings.HasPrefix(k, "close:") && (m.T == res[len(res)-1] || s.Eval(st, s.T.IsNil(m.T)) == 1) {
					return
				}
			}
			c.Bad("output", key, c.P.InstrPos(in), "the command succeeds although closing the output file created at "+o.S+" may have failed", s.Path(st))
		},
	})
	c.Run(s, fn, nil)
}

func isHTTPCall(name string) bool {
	switch name {
	case "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Head", "(*net/http.Client).Post", "(*net/http.Client).PostForm":
		return true
	}
	return false
}

// p03status: functions that ask a server and report an error or success (those that hand on the answer itself excepted).
func (c *Check) p03status(fn *ssa.Function) {
	rs := fn.Signature.Results()
	if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) || !touches(c.P, fn, func(cc *ssa.CallCommon) bool { return isHTTPCall(c.P.calleeName(cc)) }) {
		return
	}
	for i := 0; i < rs.Len(); i++ {
		if typeStr(rs.At(i).Type()) == "*net/http.Response" {
			return
		}
	}
	key := c.P.FnName(fn)
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if isHTTPCall(ev.Name) {
				st.marks["resp"] = Mark{T: s.Res(ev, 0)}
				delete(st.marks, "status")
			}
			return nil
		},
		Branch: func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			for cond.op == OpNot {
				cond = cond.args[0]
			}
			m, ok := st.marks["resp"]
			if !ok || cond.op != OpEq0 && cond.op != OpLt0 {
				return
			}
			ms, _ := s.T.toPoly(cond.args[0])
			if len(ms) != 1 || len(ms[0].a) != 1 || fieldLoadOf(ms[0].a[0], "StatusCode") != m.T {
				return
			}
			v := ms[0].a[0]
			if s.Eval(st, s.T.Lt(v, s.T.Int(200))) == 0 && s.Eval(st, s.T.Lt(v, s.T.Int(300))) == 1 {
				st.marks["status"] = Mark{T: m.T}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			m, ok := st.marks["resp"]
			if !ok || s.Eval(st, s.T.IsNil(res[len(res)-1])) == 0 {
				return
			}
			pos := c.P.InstrPos(in)
			c.Ob("status", key, pos)
			if st.marks["status"].T != m.T {
				c.Bad("status", key, pos, "success is reported without the answer's status being one of success", s.Path(st))
			}
		},
	})
	c.Run(s, fn, nil)
}

func init() {
	for _, id := range []string{"P01", "P02", "P03"} {
		id := id
		checks[id] = func(c *Check) { runErr(c, id) }
	}
}
