package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P18 (read-only export) and P19 (effects of read-only commands).

const msRdonly = 1
const blkROSet = 0x125d

// bitsOf: bits known to be set in an integer built by or-ing constants and package variables that are only ever initialised.
func (p *Prog) bitsOf(v ssa.Value, d int) uint64 {
	if d > 8 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			u, _ := constant.Uint64Val(x.Value)
			return u
		}
	case *ssa.BinOp:
		if x.Op == token.OR {
			return p.bitsOf(x.X, d+1) | p.bitsOf(x.Y, d+1)
		}
	case *ssa.Convert:
		return p.bitsOf(x.X, d+1)
	case *ssa.ChangeType:
		return p.bitsOf(x.X, d+1)
	case *ssa.Phi:
		b := ^uint64(0)
		for _, e := range x.Edges {
			b &= p.bitsOf(e, d+1)
		}
		return b
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Global:
			return p.globalBits(a, d)
		case *ssa.Alloc:
			b, n := ^uint64(0), 0
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == a {
						b, n = b&p.bitsOf(r.Val, d+1), n+1
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return 0
				}
			}
			if n > 0 {
				return b
			}
		}
	}
	return 0
}

// globalBits: bits of a package variable, if only its initialiser assigns it.
func (p *Prog) globalBits(g *ssa.Global, d int) uint64 {
	b, n := ^uint64(0), 0
	for _, pk := range p.SSA.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), p.Mod) {
			continue
		}
		fns := []*ssa.Function{}
		if f := pk.Func("init"); f != nil {
			fns = append(fns, f)
		}
		for _, fn := range p.Funcs {
			if fn.Pkg == pk {
				fns = append(fns, fn)
			}
		}
		for _, fn := range fns {
			for _, bl := range fn.Blocks {
				for _, in := range bl.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						b, n = b&p.bitsOf(st.Val, d+1), n+1
					}
				}
			}
		}
	}
	if n == 0 {
		return 0
	}
	return b
}

func isMountCall(name string) bool {
	return name == "syscall.Mount" || name == "golang.org/x/sys/unix.Mount"
}

func checkP18(c *Check) {
	c.Rule("mount-flags", "every mount system call carries the read-only flag", 1)
	c.Rule("fuse-config", "every fuse mount is configured read-only", 1)
	c.Rule("device", "tuning a device switches it to read-only and reports a failure to do so", 1)
	c.Rule("device-first", "a device is tuned before it is mounted", 1)
	c.Rule("fs-ops", "no filesystem operation that writes is served", 1)
	c.Rule("scsi", "no command that writes is served", 1)
	c.Rule("no-writer", "nothing that can be written at an offset is handed to a device or filesystem", 3)
	p := c.P
	// mount calls, through wrappers
	type site struct {
		ci  ssa.CallInstruction
		fn  *ssa.Function
		arg int
	}
	var work []site
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isMountCall(p.calleeName(ci.Common())) {
					work = append(work, site{ci, fn, 3})
				}
			}
		}
	}
	for i := 0; i < len(work) && i < 50; i++ {
		w := work[i]
		if w.arg >= len(w.ci.Common().Args) {
			continue
		}
		v := unconv(w.ci.Common().Args[w.arg])
		if pr, ok := v.(*ssa.Parameter); ok && len(p.callers[w.fn]) > 0 && !p.addrOf[w.fn] {
			for j, q := range w.fn.Params {
				if q == pr {
					for _, cs := range p.callers[w.fn] {
						work = append(work, site{cs, cs.Parent(), j})
					}
				}
			}
			continue
		}
		c.Ob("mount-flags", p.FnName(w.fn), p.InstrPos(w.ci))
		if p.bitsOf(v, 0)&msRdonly == 0 {
			c.Bad("mount-flags", p.FnName(w.fn), p.InstrPos(w.ci), "mounts with flags that do not include read-only", nil)
		}
	}
	c.p18fuse()
	ro := c.p18device()
	c.p18order(ro)
	c.p18ops()
	c.p18scsi()
	c.p18writers()
}

func (c *Check) p18fuse() {
	for _, fn := range c.P.Funcs {
		if !c.P.IsTop(fn) || !touches(c.P, fn, func(cc *ssa.CallCommon) bool { return c.P.calleeName(cc) == "github.com/jacobsa/fuse.Mount" }) {
			continue
		}
		key := c.P.FnName(fn)
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if ev.Name != "github.com/jacobsa/fuse.Mount" {
					return
				}
				c.Ob("fuse-config", key, c.P.InstrPos(ev.Site))
				cfg := strip(ev.Args[2])
				v := structField(s, st, cfg, namedOf(cfg.typ), "ReadOnly")
				if v == nil || s.Eval(st, v) != 1 {
					c.Bad("fuse-config", key, c.P.InstrPos(ev.Site), "the filesystem is not mounted read-only", s.Path(st))
				}
			},
		})
		c.Run(s, fn, nil)
	}
}

func isIoctl(ev *CallEv) bool {
	return (ev.Name == "syscall.Syscall" || ev.Name == "golang.org/x/sys/unix.Syscall") && len(ev.Args) == 4
}

// isROSet: the request is BLKROSET.
func (c *Check) isROSet(ev *CallEv) bool {
	if k, ok := strip(ev.Args[2]).IntConst(); ok {
		return k == blkROSet
	}
	return c.P.bitsOf(unconv(ev.Common.Args[2]), 0) == blkROSet
}

// p18device: functions that switch a device to read-only.
func (c *Check) p18device() map[*ssa.Function]bool {
	ro := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || !touches(c.P, fn, func(cc *ssa.CallCommon) bool {
			return strings.HasSuffix(c.P.calleeName(cc), ".Syscall") && len(cc.Args) == 4
		}) || !c.P.usesGlobal(fn, "BLKROSET") {
			continue
		}
		ro[fn] = true
		key := c.P.FnName(fn)
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if !isIoctl(ev) || !c.isROSet(ev) {
					return
				}
				c.Ob("device", key, c.P.InstrPos(ev.Site))
				a := strip(ev.Args[3])
				v := st.cells[a]
				if k, ok := ev.Args[1-1].IntConst(); !ok || k != 16 {
					c.Bad("device", key, c.P.InstrPos(ev.Site), "the system call is not an ioctl", s.Path(st))
				}
				if v == nil || s.Eval(st, s.T.Eq(v, s.T.Int(0))) != 0 {
					c.Bad("device", key, c.P.InstrPos(ev.Site), "the device is not switched to read-only", s.Path(st))
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if isIoctl(ev) && c.isROSet(ev) {
					st.marks["errno"] = Mark{T: s.Res(ev, 2)}
				}
				return nil
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if len(res) == 0 || s.Eval(st, s.T.IsNil(res[len(res)-1])) == 0 {
					return
				}
				c.Ob("device", key, c.P.InstrPos(in))
				e, ok := st.marks["errno"]
				if !ok {
					c.Bad("device", key, c.P.InstrPos(in), "succeeds without switching the device to read-only", s.Path(st))
				} else if s.Eval(st, s.T.Eq(e.T, s.T.Int(0))) != 1 {
					c.Bad("device", key, c.P.InstrPos(in), "a failure to switch the device to read-only is not reported", s.Path(st))
				}
			},
		})
		c.Run(s, fn, nil)
	}
	return ro
}

// usesGlobal: fn or a function it calls in its package loads a package variable of that name.
func (p *Prog) usesGlobal(fn *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function, d int) bool
	rec = func(f *ssa.Function, d int) bool {
		if f == nil || seen[f] || d > 4 {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ld, ok := in.(*ssa.UnOp); ok {
					if g, ok := ld.X.(*ssa.Global); ok && g.Name() == name {
						return true
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && p.Rel(cal) == p.Rel(fn) && rec(cal, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn, 0)
}

// p18order: in the package that mounts, tuning precedes mounting.
func (c *Check) p18order(ro map[*ssa.Function]bool) {
	wrapper := map[string]bool{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isMountCall(c.P.calleeName(ci.Common())) {
					wrapper[c.P.calleeName(ci.Common())] = true
					if _, isP := unconv(ci.Common().Args[0]).(*ssa.Parameter); isP {
						wrapper[c.P.funName(fn)] = true
					}
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		if wrapper[c.P.funName(fn)] || !c.P.IsTop(fn) {
			continue
		}
		if !touches(c.P, fn, func(cc *ssa.CallCommon) bool { return wrapper[c.P.calleeName(cc)] }) {
			continue
		}
		key := c.P.FnName(fn)
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				pos := c.P.InstrPos(ev.Site)
				if ro[ev.Callee] && len(ev.Args) > 0 {
					st.marks["tuned"] = Mark{T: strip(ev.Args[0])}
				}
				if wrapper[ev.Name] {
					c.Ob("device-first", key, pos)
					t, ok := st.marks["tuned"]
					if !ok {
						c.Bad("device-first", key, pos, "the device is mounted without having been tuned", s.Path(st))
						return
					}
					if d, ok := st.marks[fmt.Sprint("path:", ev.Args[0].id)]; ok && d.T != t.T {
						c.Bad("device-first", key, pos, "another device is mounted than the one tuned", s.Path(st))
					}
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if base(ev.Name) == "DevicePath" && ev.Result != nil && len(ev.Args) > 0 {
					st.marks[fmt.Sprint("path:", ev.Result.id)] = Mark{T: strip(ev.Args[0])}
				}
				return nil
			},
		})
		c.Run(s, fn, nil)
	}
}

var writingOps = map[string]bool{"SetInodeAttributes": true, "MkDir": true, "MkNode": true, "CreateFile": true, "CreateLink": true, "CreateSymlink": true, "Rename": true, "RmDir": true, "Unlink": true, "WriteFile": true, "RemoveXattr": true, "SetXattr": true, "Fallocate": true}

func (c *Check) p18ops() {
	for _, n := range c.P.named {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		served := false
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Embedded() && f.Name() == "NotImplementedFileSystem" {
				served = true
			}
		}
		if m := c.P.Method(n, "LookUpInode"); m != nil && c.P.IsModule(m) {
			served = true
		}
		if !served {
			continue
		}
		key := n.Obj().Name()
		c.Ob("fs-ops", key, c.P.Pos(n.Obj().Pos()))
		for _, m := range c.P.methods(n) {
			if !writingOps[m.Name()] {
				continue
			}
			m := m
			s := c.Sim(Hooks{
				Inline: pkgInline(c),
				Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
					if s.Eval(st, s.T.IsNil(res[0])) != 0 {
						c.Bad("fs-ops", c.P.FnName(m), c.P.InstrPos(in), "serves "+m.Name()+", which writes", s.Path(st))
					}
				},
			})
			c.Run(s, m, nil)
		}
	}
}

// SCSI commands that change the medium.
var writingCmds = []int64{0x04, 0x0a, 0x10, 0x19, 0x2a, 0x2e, 0x3b, 0x3f, 0x41, 0x42, 0xaa, 0xae, 0xea, 0x89, 0x8a, 0x8d, 0x8e, 0x93}

func (c *Check) p18scsi() {
	for _, fn := range c.P.Funcs {
		if fn.Name() != "HandleCommand" || fn.Signature.Recv() == nil || isMockPkg(c.P.Rel(fn)) {
			continue
		}
		key := c.P.FnName(fn)
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if base(ev.Name) == "Command" {
					st.marks[fmt.Sprint("cmd:", s.Res(ev, 0).id)] = Mark{T: s.Res(ev, 0)}
				}
				return nil
			},
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				b := base(ev.Name)
				if b == "Command" || b == "NotHandled" || b == "CheckCondition" || b == "IllegalRequest" || b == "TargetFailure" || !strings.Contains(ev.Name, "go-tcmu") {
					return
				}
				c.Ob("scsi", key, c.P.InstrPos(ev.Site))
				for _, w := range writingCmds {
					excluded := false
					for k, m := range st.marks {
						if strings.HasPrefix(k, "cmd:") && s.Eval(st, s.T.Eq(m.T, s.T.Int(w))) == 0 {
							excluded = true
						}
					}
					if !excluded {
						c.Bad("scsi", key, c.P.InstrPos(ev.Site), fmt.Sprintf("%s may serve command 0x%02x, which writes", ev.Name, w), s.Path(st))
						return
					}
				}
			},
		})
		c.Run(s, fn, nil)
	}
}

// p18writers: no value is converted to an interface with WriteAt, and no function that takes one is called, where discs are exported.
func (c *Check) p18writers() {
	hasWriteAt := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		if !ok {
			return false
		}
		for j := 0; j < i.NumMethods(); j++ {
			if i.Method(j).Name() == "WriteAt" {
				return true
			}
		}
		return false
	}
	for _, fn := range c.P.Funcs {
		rel := c.P.Rel(fn)
		if rel != "pkg/blockdev" && rel != "pkg/isofuse" && rel != "pkg/vdisc/cli" {
			continue
		}
		c.Ob("no-writer", c.P.FnName(fn), c.P.Pos(fn.Pos()))
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bad := false
				switch x := in.(type) {
				case *ssa.MakeInterface:
					bad = hasWriteAt(x.Type())
				case *ssa.ChangeInterface:
					bad = hasWriteAt(x.Type())
				case *ssa.TypeAssert:
					bad = hasWriteAt(x.AssertedType)
				case *ssa.Alloc:
					if n := namedOf(x.Type()); n != nil && strings.Contains(n.Obj().Name(), "ReadWriterAt") {
						bad = true
					}
				}
				if bad {
					c.Bad("no-writer", c.P.FnName(fn), c.P.InstrPos(in), "a value that can be written at an offset is used where discs are exported", nil)
				}
			}
		}
	}
}

// P19

// mutators outside the module
func extMutator(name string) bool {
	switch name {
	case "os.Create", "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.Symlink", "os.Link", "os.Chmod", "os.Chown", "os.Chtimes",
		"os.WriteFile", "io/ioutil.WriteFile", "os.CreateTemp", "io/ioutil.TempFile", "os.MkdirTemp", "io/ioutil.TempDir", "os.Mkdir", "os.MkdirAll",
		"syscall.Unlink", "syscall.Rename", "syscall.Rmdir", "syscall.Mkdir", "syscall.Truncate", "syscall.Unlinkat", "golang.org/x/sys/unix.Unlink", "golang.org/x/sys/unix.Rename",
		"(*os.File).Truncate", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "net/http.Post":
		return true
	}
	if strings.Contains(name, "aws-sdk-go/service/s3") {
		b := base(name)
		for _, p := range []string{"Put", "Delete", "Create", "Complete", "Upload", "Copy"} {
			if strings.HasPrefix(b, p) {
				return true
			}
		}
	}
	return false
}

// mutation: the instruction creates, overwrites or removes something outside the process.
func (p *Prog) mutation(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	cc := ci.Common()
	name := p.calleeName(cc)
	if extMutator(name) {
		return name
	}
	switch name {
	case "os.OpenFile", "syscall.Open", "golang.org/x/sys/unix.Open":
		k, ok := unconv(cc.Args[1]).(*ssa.Const)
		if !ok {
			return name + " with unknown flags"
		}
		f, _ := constant.Int64Val(k.Value)
		if f&(1|2|0x40|0x200|0x400) != 0 {
			return name + " for writing"
		}
	case "net/http.NewRequest", "net/http.NewRequestWithContext":
		i := 0
		if strings.HasSuffix(name, "Context") {
			i = 1
		}
		k, ok := cc.Args[i].(*ssa.Const)
		if !ok || k.Value == nil {
			return "an http request with an unknown method"
		}
		if m := constant.StringVal(k.Value); m != "GET" && m != "HEAD" && m != "" {
			return "an http " + m + " request"
		}
	}
	return ""
}

// notStored: the effect is on something that is not a stored object: a private temporary file, the output file the user named, or a kernel tunable.
func (p *Prog) notStored(in ssa.Instruction) string {
	cc := in.(ssa.CallInstruction).Common()
	switch name := p.calleeName(cc); name {
	case "io/ioutil.TempFile", "os.CreateTemp":
		return "a new temporary file"
	case "os.Remove":
		if p.derives(cc.Args[0], 0, func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			if !ok || p.calleeName(c.Common()) != "(*os.File).Name" {
				return false
			}
			return p.derives(c.Common().Args[0], 0, func(v ssa.Value) bool {
				c, ok := v.(*ssa.Call)
				return ok && (p.calleeName(c.Common()) == "io/ioutil.TempFile" || p.calleeName(c.Common()) == "os.CreateTemp")
			})
		}) {
			return "a temporary file made here"
		}
	case "os.Create", "os.OpenFile":
		if p.derives(cc.Args[0], 0, func(v ssa.Value) bool {
			ld, ok := v.(*ssa.UnOp)
			if !ok {
				return false
			}
			switch a := ld.X.(type) {
			case *ssa.FieldAddr:
				n := namedOf(a.X.Type())
				return n != nil && n.Obj().Name() == "CpCmd" && n.Underlying().(*types.Struct).Field(a.Field).Name() == "Out"
			case *ssa.Global:
				return a.Name() == "sysfs" && strings.HasSuffix(a.Pkg.Pkg.Path(), "pkg/blockdev")
			}
			return false
		}) {
			return "the output file or a kernel tunable"
		}
	}
	return ""
}

// derives: every source of the value satisfies pred; of a joined path, the first element that is not a constant.
func (p *Prog) derives(v ssa.Value, d int, pred func(ssa.Value) bool) bool {
	if d > 8 {
		return false
	}
	if pred(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Extract:
		return p.derives(x.Tuple, d+1, pred)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.derives(e, d+1, pred) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					n++
					if !p.derives(st.Val, d+1, pred) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.Parameter:
		fn := x.Parent()
		if p.addrOf[fn] || len(p.callers[fn]) == 0 {
			return false
		}
		for i, q := range fn.Params {
			if q == x {
				for _, cs := range p.callers[fn] {
					if i >= len(cs.Common().Args) || !p.derives(cs.Common().Args[i], d+1, pred) {
						return false
					}
				}
				return true
			}
		}
	case *ssa.Call:
		switch p.calleeName(x.Common()) {
		case "path.Join", "path/filepath.Join", "path.Clean", "path/filepath.Clean":
			for _, a := range x.Common().Args {
				if sl, ok := a.(*ssa.Slice); ok {
					if al, ok := sl.X.(*ssa.Alloc); ok {
						// the first element stored
						for _, r := range *al.Referrers() {
							ia, ok := r.(*ssa.IndexAddr)
							if !ok {
								continue
							}
							if k, ok := ia.Index.(*ssa.Const); !ok || k.Int64() != 0 {
								continue
							}
							for _, r2 := range *ia.Referrers() {
								if st, ok := r2.(*ssa.Store); ok {
									return p.derives(st.Val, d+1, pred)
								}
							}
						}
					}
				} else if p.derives(a, d+1, pred) {
					return true
				}
			}
		}
	}
	return false
}

func checkP19(c *Check) {
	c.Rule("read-only", "no call chain from a command that only reads reaches a creation, overwrite or removal", 5)
	c.Rule("known", "every command is known to be reading or writing", 5)
	c.Rule("sinks", "the operations that write stored objects are found", 5)
	p := c.P
	mut := map[*ssa.Function][]ssa.Instruction{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if w := p.mutation(in); w != "" {
					mut[fn] = append(mut[fn], in)
					c.Ob("sinks", p.FnName(fn)+" "+w, p.InstrPos(in))
				}
			}
		}
	}
	creator, remover := p.Iface("pkg/storage/driver", "Creator"), p.Iface("pkg/storage/driver", "Remover")
	isStore := map[*ssa.Function]string{}
	for _, x := range []struct {
		i *types.Interface
		m string
	}{{creator, "Create"}, {remover, "Remove"}} {
		if x.i == nil {
			c.Bad("sinks", "driver "+x.m, p.Mod, "the driver interface was not found", nil)
			continue
		}
		for _, T := range p.Implementers(x.i) {
			if m := p.Method(T, x.m); m != nil {
				isStore[m] = x.m
				c.Ob("sinks", p.FnName(m), p.Pos(m.Pos()))
			}
		}
	}
	// commands: Run methods of the command-line package
	type root struct {
		fn   *ssa.Function
		name string
	}
	var roots []root
	for _, fn := range p.Funcs {
		if fn.Name() == "Run" && fn.Signature.Recv() != nil && p.Rel(fn) == "pkg/vdisc/cli" {
			n := namedOf(fn.Signature.Recv().Type()).Obj().Name()
			c.Ob("known", n, p.Pos(fn.Pos()))
			switch {
			case strings.HasPrefix(n, "Burn"), strings.HasPrefix(n, "Gc"):
			default:
				roots = append(roots, root{fn, n})
			}
		}
	}
	// library entry points that only read
	for _, e := range []struct{ rel, name string }{{"pkg/vdisc", "Load"}, {"pkg/isofuse", "NewWithOptions"}, {"pkg/storage", "OpenContextSize"}, {"pkg/storage", "StatContext"}, {"pkg/storage", "ReaddirContext"}, {"pkg/storage", "VisitContext"}} {
		if fn := p.Lookup(e.rel, e.name); fn != nil {
			roots = append(roots, root{fn, e.name})
		} else {
			c.Bad("known", e.name, p.Mod, "the entry point was not found", nil)
		}
	}
	if w := p.TypeOf("pkg/iso9660", "Walker"); w != nil {
		for _, m := range p.methods(namedOf(w)) {
			if m.Object() != nil && m.Object().Exported() {
				roots = append(roots, root{m, "Walker." + m.Name()})
			}
		}
	}
	for _, r := range roots {
		c.Ob("read-only", r.name, p.Pos(r.fn.Pos()))
		from := p.reachFrom(r.fn)
		var fns []*ssa.Function
		for f := range from {
			fns = append(fns, f)
		}
		sort.Slice(fns, func(i, j int) bool { return p.FnName(fns[i]) < p.FnName(fns[j]) })
		for _, f := range fns {
			chain := func() []string {
				var out []string
				for g := f; g != nil; g = from[g] {
					out = append([]string{p.FnName(g)}, out...)
				}
				return out
			}
			if m := isStore[f]; m != "" {
				c.Bad("read-only", r.name+" "+p.FnName(f), p.Pos(r.fn.Pos()), "reaches "+p.FnName(f), chain())
				continue
			}
			// files of the local block cache are checked by P08 and P25
			if p.Rel(f) == "pkg/caching" {
				continue
			}
			inCache := false
			for g := f; g != nil; g = from[g] {
				if p.Rel(g) == "pkg/caching" {
					inCache = true
				}
			}
			for _, in := range mut[f] {
				if inCache && p.lockFile(f) || p.notStored(in) != "" {
					continue
				}
				c.Bad("read-only", r.name+" "+p.FnName(f), p.InstrPos(in), "reaches "+p.mutation(in)+" in "+p.FnName(f), chain())
			}
		}
	}
}

// lockFile: the function takes a file lock (a lock file may be created next to a cache block).
func (p *Prog) lockFile(fn *ssa.Function) bool {
	return touches(p, fn, func(cc *ssa.CallCommon) bool { return strings.HasSuffix(p.calleeName(cc), ".Flock") })
}

// reachFrom: functions reachable from root, with the predecessor on a shortest chain.
func (p *Prog) reachFrom(root *ssa.Function) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{root: nil}
	q := []*ssa.Function{root}
	ow := p.Iface("pkg/storage/driver", "ObjectWriter")
	add := func(f, by *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 || !p.IsModule(f) {
			return
		}
		if _, ok := from[f]; !ok {
			from[f] = by
			q = append(q, f)
		}
	}
	for i := 0; i < len(q); i++ {
		fn := q[i]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cal := cc.StaticCallee(); cal != nil {
						if p.Rel(fn) == "pkg/caching" && p.Rel(cal) == "pkg/storage" && strings.HasPrefix(cal.Name(), "Create") {
							continue // creates a cache block; P08 checks where
						}
						add(cal, fn)
					} else if cc.IsInvoke() {
						for _, t := range p.InvokeTargets(cc) {
							// an object writer exists only once an object was created, which is what is looked for
							if rt := t.Signature.Recv(); ow != nil && rt != nil && types.Implements(rt.Type(), ow) {
								continue
							}
							if !isMockPkg(p.Rel(t)) {
								add(t, fn)
							}
						}
					}
				}
				// functions whose value is taken may be called
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						add(v, fn)
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function), fn)
					}
				}
				// methods that code outside the module may call
				if mi, ok := in.(*ssa.MakeInterface); ok {
					it, _ := mi.Type().Underlying().(*types.Interface)
					if n, ok := types.Unalias(mi.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), p.Mod) && it != nil {
						for j := 0; j < it.NumMethods(); j++ {
							if m := p.Method(mi.X.Type(), it.Method(j).Name()); m != nil {
								add(m, fn)
							}
						}
					}
				}
			}
		}
	}
	return from
}

func init() { checks["P18"], checks["P19"] = checkP18, checkP19 }
