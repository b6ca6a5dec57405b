package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program every rule works on.
type Prog struct {
	Repo   string
	Mod    string // module path
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	ByPath map[string]*ssa.Package
	Funcs  []*ssa.Function // all module functions with bodies (incl. closures), stable order

	named   []*types.Named
	infos   map[*ssa.Function]*fnInfo
	impls   map[string][]*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	addrOf  map[*ssa.Function]bool
	mut     map[string]bool
	mods    map[*ssa.Function]map[string]bool
	pads    map[*ssa.Function]bool
	once    map[*ssa.FreeVar]bool

	syncPkgs map[string]bool
}

func loadProg(repo string, overlay map[string][]byte, goos string) (*Prog, error) {
	env := os.Environ()
	if goos != "" {
		env = append(env, "GOOS="+goos, "CGO_ENABLED=0")
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule |
			packages.NeedExportFile,
		Dir: repo, Env: env, Fset: fset, Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Repo: repo, Fset: fset, Pkgs: pkgs, SSA: prog, ByPath: map[string]*ssa.Package{},
		infos: map[*ssa.Function]*fnInfo{}, impls: map[string][]*ssa.Function{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.ByPath[pkgs[i].PkgPath] = sp
		if pkgs[i].Module != nil {
			p.Mod = pkgs[i].Module.Path
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 {
			continue
		}
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "range-over-func") {
			if fn.Name() != "init" {
				continue
			}
		}
		if p.IsModule(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			pa, pb := p.Fset.Position(a.Pos()), p.Fset.Position(b.Pos())
			if pa.Filename != pb.Filename {
				return pa.Filename < pb.Filename
			}
			return pa.Offset < pb.Offset
		}
		return a.String() < b.String()
	})
	for _, pk := range pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					p.named = append(p.named, nt)
				}
			}
		}
	}
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	p.addrOf = map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					if sc := c.Common().StaticCallee(); sc != nil {
						p.callers[sc] = append(p.callers[sc], c)
						callee = c.Common().Value
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == callee {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						p.addrOf[f] = true
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Prog) IsModulePkg(path string) bool {
	return path == p.Mod || strings.HasPrefix(path, p.Mod+"/")
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkg(o)
	}
	return nil
}

func (p *Prog) IsModule(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && p.IsModulePkg(pk.Path())
}

// Rel is the package path below the module ("pkg/caching").
func (p *Prog) Rel(fn *ssa.Function) string {
	pk := fnPkg(fn)
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), p.Mod), "/")
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// InstrPos returns the best position for an instruction.
func (p *Prog) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		for _, r := range derefs(v) {
			if r.Pos().IsValid() {
				return p.Pos(r.Pos())
			}
		}
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && (*o).Pos().IsValid() {
			return p.Pos((*o).Pos())
		}
	}
	b := in.Block()
	idx := -1
	for i, x := range b.Instrs {
		if x == in {
			idx = i
		}
	}
	for i := idx - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return p.Pos(b.Instrs[i].Pos())
		}
	}
	return p.Pos(in.Parent().Pos())
}

func derefs(v ssa.Value) []ssa.Instruction {
	if r := v.Referrers(); r != nil {
		return *r
	}
	return nil
}

// FnName is a short, stable name: "pkg/caching.(*memBuf).Fill".
func (p *Prog) FnName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, p.Mod+"/", "")
	return s
}

// Lookup resolves a package-level function.
func (p *Prog) Lookup(rel, name string) *ssa.Function {
	sp := p.ByPath[p.Mod+"/"+rel]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) TypeOf(rel, name string) types.Type {
	sp := p.ByPath[p.Mod+"/"+rel]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Prog) Iface(rel, name string) *types.Interface {
	t := p.TypeOf(rel, name)
	if t == nil {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

// Method resolves method name on T or *T, returning the declared function (not a wrapper).
func (p *Prog) Method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if sel.Obj().Name() == name {
				if f := p.SSA.FuncValue(sel.Obj().(*types.Func)); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// Implementers lists the module's concrete named types implementing iface (T or *T).
func (p *Prog) Implementers(iface *types.Interface) []*types.Named {
	var out []*types.Named
	for _, n := range p.named {
		if n.TypeParams().Len() > 0 {
			continue
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(n, iface) || types.Implements(types.NewPointer(n), iface) {
			out = append(out, n)
		}
	}
	return out
}

// InvokeTargets lists the module methods an interface call may dispatch to.
func (p *Prog) InvokeTargets(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		return nil
	}
	key := c.Value.Type().String() + "#" + c.Method.Name()
	if r, ok := p.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	if it, ok := c.Value.Type().Underlying().(*types.Interface); ok {
		for _, n := range p.Implementers(it) {
			if f := p.Method(n, c.Method.Name()); f != nil && len(f.Blocks) > 0 && p.IsModule(f) {
				out = append(out, f)
			}
		}
	}
	p.impls[key] = out
	return out
}

// calleeName gives a canonical name of what a call invokes.
// Static: "os.Rename", "(*os.File).Sync", "pkg/storage.Create"; invoke: "(pkg/storage.ObjectWriter).Commit".
func (p *Prog) calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		t := strings.ReplaceAll(types.TypeString(c.Value.Type(), nil), p.Mod+"/", "")
		return "(" + t + ")." + c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return p.funName(f)
	}
	return ""
}

func (p *Prog) funName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			return strings.ReplaceAll(fo.FullName(), p.Mod+"/", "")
		}
	}
	return strings.ReplaceAll(f.String(), p.Mod+"/", "")
}

// IsTop: function that is an entry of its package: exported, address-taken, or never statically called.
func (p *Prog) IsTop(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	if fn.Object() != nil && fn.Object().Exported() {
		return true
	}
	if p.addrOf[fn] || fn.Name() == "main" || fn.Name() == "init" {
		return true
	}
	return len(p.callers[fn]) == 0
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func isErrorLike(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
		return types.Implements(t, e) && i.NumMethods() > 0
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = deref(types.Unalias(t))
	n, _ := types.Unalias(t).(*types.Named)
	return n
}
