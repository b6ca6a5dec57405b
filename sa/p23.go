package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P23"] = checkP23 }

const discRel = "pkg/vdisc"

// P23: the index of a disc.

func checkP23(c *Check) {
	c.Rule("extents", "the metadata gets extent zero and each visited file the next one, with the blocks, padding and URL of its object", 1)
	c.Rule("count", "there is one extent for the metadata and one for each file that was added", 1)
	c.Rule("addresses", "each file gets the next free blocks, as many as its parts need, in the order files are visited", 1)
	c.Rule("allocate", "allocating hands out the next block and moves on by the blocks needed", 1)
	c.Rule("visit", "files are visited in one order only", 1)
	c.Rule("placement", "a loaded disc places each extent, followed by its padding, where the one before ended", 1)
	c.Rule("open", "the extent opened is the one placed at the address", 2)
	c.Rule("size", "an extent's size is its blocks without the padding", 1)
	c.Rule("url", "an extent's URL is made of its suffix and all the prefixes before it, relative to the index", 1)
	c.Rule("read", "an extent is read from its URL with its size", 1)
	c.Rule("insert", "a URL put in the index's table is spelled by the nodes on its way", 1)
	c.Rule("search", "a URL is found only where its whole spelling ends", 1)
	c.Rule("invert", "every node's prefix is listed before the nodes that refer to it", 1)
	c.p23build()
	c.p23count()
	c.p23addresses()
	c.p23allocate()
	c.p23visit()
	c.p23load()
	c.p23open()
	c.p23extent()
	c.p23trie()
	c.p23invert()
	// the terms above do not tell the width products are formed in
	for _, fn := range c.P.Funcs {
		if c.P.Rel(fn) != discRel {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.BinOp); ok && (x.Op == token.MUL || x.Op == token.SHL) && isInt(x.Type()) && amd64.Sizeof(x.Type()) < 8 {
					c.Bad("size", c.P.FnName(fn), c.P.InstrPos(in), "a size is formed in "+x.Type().String()+", which it may not fit", nil)
				}
			}
		}
	}
}

// discInline: the package's own functions, checked conversions and simple accessors.
func (c *Check) discInline(ev *CallEv) bool {
	if !c.P.IsModule(ev.Callee) {
		return false
	}
	rel := c.P.Rel(ev.Callee)
	switch {
	case rel == "pkg/safecast":
		return true
	case rel == isoRel:
		return ev.Callee.Signature.Recv() != nil && len(ev.Callee.Blocks) == 1 && ev.Callee.Signature.Params().Len() == 0 && !c.P.callsBack(ev.Callee)
	}
	return rel == discRel && !isTrie(ev) && !(c.P.IsTop(ev.Callee) && ev.Callee.Signature.Recv() == nil && strings.HasPrefix(base(ev.Name), "New"))
}

func isTrie(ev *CallEv) bool {
	if ev.Callee == nil || ev.Callee.Signature.Recv() == nil {
		return false
	}
	n := namedOf(ev.Callee.Signature.Recv().Type())
	return n != nil && n.Obj().Name() == "TrieMap"
}

// wholeBlocks: n is the number of blocks needed for b bytes, at least one.
func (s *Sim) wholeBlocks(st *State, b, n *Term) bool {
	q := s.T.Quo(b, s.T.Int(sectorSize), b.typ)
	rem, empty := s.Eval(st, s.T.Eq(rem2048(s, b), s.T.Int(0))), s.Eval(st, s.T.Eq(q, s.T.Int(0)))
	none := s.Eval(st, s.T.Eq(b, s.T.Int(0)))
	if p := s.Eval(st, s.T.Lt(s.T.Int(0), rem2048(s, b))); rem < 0 && p >= 0 {
		rem = 1 - p
	}
	k, ok := s.T.Sub(n, q).IntConst()
	switch {
	case ok && k == 0 && rem == 1 && (empty == 0 || none == 0):
	case ok && k == 1 && (rem == 0 || empty == 1):
	case n == s.T.Int(1) && (empty == 1 || none == 1):
	default:
		return false
	}
	return true
}

func lookupIn(t *Term) (m, k *Term) {
	for t.op == OpExtract {
		t = t.args[0]
	}
	if t.op == OpPure && strings.HasPrefix(t.aux, "lookup") {
		return t.args[0], t.args[1]
	}
	return nil, nil
}

func (c *Check) p23build() {
	n := c.named(discRel, "builder")
	var fn *ssa.Function
	if n != nil {
		fn = c.P.Method(n, "Build")
	}
	if fn == nil {
		c.Bad("extents", "Build", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("extents", key, c.P.Pos(fn.Pos()))
	bad := func(s *Sim, st *State, pos, msg string) { c.Bad("extents", key, pos, msg, s.Path(st)) }
	var recv *Term
	seen := map[string]bool{}
	// the extent set last is complete
	finish := func(s *Sim, st *State, pos string) {
		e := st.marks["entry"].T
		if e == nil {
			return
		}
		idx := st.marks["idx"].T
		what := "the metadata"
		file := st.marks["cb"].S != ""
		if file {
			what = "a file"
			seen["file"] = true
		} else {
			seen["meta"] = true
			if idx != s.T.Int(0) {
				bad(s, st, pos, "the metadata does not get the first extent")
			}
		}
		for _, k := range []string{"SetBlocks", "SetPadding", "SetUriPrefix", "SetUriSuffix"} {
			if st.marks[k].T == nil {
				bad(s, st, pos, "the extent of "+what+" is left without "+k[3:])
				return
			}
		}
		// whose leaf
		pre, suf := st.marks["SetUriPrefix"].T, st.marks["SetUriSuffix"].T
		pm, pk := fieldOfLookup(pre, "Parent")
		sm, sk := fieldOfLookup(suf, "Content")
		if pm == nil || sm == nil || pk != sk || pm != sm || st.marks["leaves"].T == nil || pm != st.marks["leaves"].T {
			bad(s, st, pos, "the URL of "+what+" is not one leaf of the table: "+pre.String()+", "+suf.String())
			return
		}
		var size *Term
		if !file {
			size = st.marks["metalen"].T
			if pk != s.T.Int(0) {
				bad(s, st, pos, "the URL of the metadata is not the one put in the table for it")
			}
		} else {
			// the leaf kept for the URL of the object
			obj := (*Term)(nil)
			g := st.marks["got"].T
			if g == nil || pk != g || s.Eval(st, st.marks["gotok"].T) != 1 {
				bad(s, st, pos, "the URL of a file is not the one found in the table: "+pk.String())
				return
			}
			if u := st.marks["goturl"].T; (u.op == OpPure || u.op == OpOpaque) && base(u.aux) == "URL" {
				obj = u.args[0]
			}
			if obj == nil || !madeOf(obj, st.marks["finode"].T) {
				bad(s, st, pos, "the URL looked up is not that of the visited file's object")
				return
			}
			size = s.T.Pure("", nil)
			for _, t := range []*Term{st.marks["SetPadding"].T, st.marks["SetBlocks"].T} {
				walkTerm(t, func(t *Term) {
					if (t.op == OpPure || t.op == OpOpaque) && base(t.aux) == "Size" && t.args[0] == obj {
						size = t
					}
				})
			}
		}
		blocks, pad := st.marks["SetBlocks"].T, st.marks["SetPadding"].T
		if size == nil || size.typ == nil || !s.wholeBlocks(st, size, blocks) {
			bad(s, st, pos, "the blocks of "+what+" are not those its size needs: "+blocks.String())
			return
		}
		if s.T.Sub(s.T.Mul(blocks, s.T.Int(sectorSize)), size) != pad {
			bad(s, st, pos, "the padding of "+what+" is not what its size leaves of the blocks: "+pad.String())
		}
		for _, k := range []string{"entry", "idx", "SetBlocks", "SetPadding", "SetUriPrefix", "SetUriSuffix", "got", "gotok", "goturl"} {
			delete(st.marks, k)
		}
		st.marks["done"] = Mark{S: "1"}
	}
	s := c.Sim(Hooks{
		Inline:  func(s *Sim, st *State, ev *CallEv) bool { return c.discInline(ev) },
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return base(ev.Name) == "VisitFileInodes" },
		Branch:  keepFacts(nil),
		Enter:   nil,
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			pos := c.P.InstrPos(ev.Site)
			b := base(ev.Name)
			switch {
			case b == "VisitFileInodes":
				finish(s, st, pos)
				if st.marks["metalen"].T == nil {
					bad(s, st, pos, "the files are visited before their addresses are assigned")
				}
				delete(st.marks, "done")
				delete(st.marks, "ctr")
				for _, a := range ev.Args {
					if a.op != OpClosure {
						continue
					}
					for _, x := range a.args {
						if x.op == OpAlloc && isInt(deref(x.typ)) {
							st.marks["ctr"] = Mark{T: x}
							if v := s.LoadAddr(st, x, deref(x.typ)); v != s.T.Int(1) {
								bad(s, st, pos, "the first file does not get the extent after the metadata")
							}
						}
					}
				}
			case b == "String" && strings.Contains(ev.Name, "url.URL"):
				delete(st.marks, "metaurl")
				if c.p23metaURL(s, st, ev.Args[0]) {
					st.marks["metaurl"] = Mark{S: "1"}
				}
			case b == "Put" && isTrie(ev):
				if st.marks["inverted"].T != nil {
					bad(s, st, pos, "a URL is put in the table after it was listed")
				}
				if st.top().kind == kCB || st.marks["cb"].S != "" {
					seen["put"] = true
					u, v := ev.Args[1], ev.Args[2]
					okU := (u.op == OpPure || u.op == OpOpaque) && base(u.aux) == "URL" && madeOf(u.args[0], st.marks["finode"].T)
					okV := loadedField(v) != "" && v.args[0].args[0] == st.marks["finode"].T && strings.Contains(strings.ToLower(loadedField(v)), "start")
					if !okU || !okV {
						bad(s, st, pos, "a file's start is not put in the table under the URL of its object: "+u.String()+", "+v.String())
					}
					st.marks["put"] = Mark{S: "1"}
				} else {
					seen["putmeta"] = true
					if ev.Args[2] != s.T.Int(0) {
						bad(s, st, pos, "the metadata's URL is not put in the table as the first")
					}
					if ev.Args[1] != st.marks["metaurl"].T {
						bad(s, st, pos, "the URL put in the table for the metadata is not that of the object committed: "+ev.Args[1].String())
					}
					st.marks["putmeta"] = Mark{S: "1"}
				}
			case b == "NewExtents" && len(ev.Args) == 2:
				k := s.T.Sub(ev.Args[1], s.T.Int(1))
				if recvField(k, recv) == "" {
					bad(s, st, pos, "the number of extents is not that of the files and the metadata: "+ev.Args[1].String())
				}
			case b == "NewUris" && len(ev.Args) == 2:
				if inv := st.marks["inverted"].T; inv == nil || ev.Args[1] != s.Len(inv) {
					bad(s, st, pos, "the list of prefixes does not have the length of the table's")
				}
			case b == "SetBlockSize" && len(ev.Args) == 2:
				st.marks["bs"] = Mark{S: "1"}
				if ev.Args[1] != s.T.Int(sectorSize) {
					bad(s, st, pos, "the block size is not that of the layout")
				}
			case b == "SetFsType" && len(ev.Args) == 2:
				st.marks["fs"] = Mark{S: "1"}
				if k, _ := ev.Args[1].StrConst(); k != "iso9660" {
					bad(s, st, pos, "the filesystem type is not that of the layout")
				}
			case b == "SetBlocks" || b == "SetPadding" || b == "SetUriPrefix" || b == "SetUriSuffix":
				if ev.Args[0] != st.marks["entry"].T {
					bad(s, st, pos, "sets another extent than the one last taken")
				}
				if st.marks[b].T != nil && st.marks[b].T != ev.Args[1] {
					bad(s, st, pos, b+" is called again for the same extent")
				}
				st.marks[b] = Mark{T: ev.Args[1]}
			case b == "SetParent" || b == "SetContent":
				if ev.Args[0] != st.marks["node"].T {
					bad(s, st, pos, "sets another node than the one last taken")
				}
				v := ev.Args[1]
				e := elemOf(v)
				f := loadedField(v)
				if e == nil || e.args[0] != st.marks["inverted"].T || e.args[1] != st.marks["nidx"].T || f != b[3:] {
					bad(s, st, pos, "a node of the list is not the table's: "+v.String())
				}
				st.marks["n"+b] = Mark{S: "1"}
			case b == "Encode" && len(ev.Args) == 2:
				if m := st.marks["msg"].T; m == nil || strip(ev.Args[1]) != m {
					bad(s, st, pos, "another message is written than the one built")
				}
				st.marks["encoded"] = Mark{S: "1"}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if e := s.ErrRes(ev); e != nil && !ev.Inlined && base(ev.Name) != "VisitFileInodes" {
				s.Assume(st, s.T.IsNil(e), true)
			}
			b := base(ev.Name)
			switch {
			case b == "String" && strings.Contains(ev.Name, "url.URL"):
				if st.marks["metaurl"].S != "" {
					st.marks["metaurl"] = Mark{T: ev.Result}
				}
			case b == "WriteMetadataTo":
				st.marks["metalen"] = Mark{T: s.Res(ev, 0)}
			case b == "Invert" && isTrie(ev):
				st.marks["inverted"] = Mark{T: s.Res(ev, 0)}
				st.marks["leaves"] = Mark{T: s.Res(ev, 1)}
				if st.marks["putmeta"].S == "" || st.marks["putfiles"].S == "" {
					bad(s, st, c.P.InstrPos(ev.Site), "the table is listed before all URLs are in it")
				}
			case b == "Get" && isTrie(ev):
				st.marks["got"], st.marks["gotok"], st.marks["goturl"] = Mark{T: s.Res(ev, 0)}, Mark{T: s.Res(ev, 1)}, Mark{T: ev.Args[1]}
			case b == "At" && strings.Contains(ev.Name, "Extent_List"):
				finish(s, st, c.P.InstrPos(ev.Site))
				if m := st.marks["extents"].T; m == nil || ev.Args[0] != m {
					bad(s, st, c.P.InstrPos(ev.Site), "the extent is not one of the disc's")
				}
				st.marks["entry"], st.marks["idx"] = Mark{T: ev.Result}, Mark{T: ev.Args[1]}
			case b == "At" && strings.Contains(ev.Name, "ITrie_List"):
				st.marks["node"], st.marks["nidx"] = Mark{T: ev.Result}, Mark{T: ev.Args[1]}
			case b == "NewExtents":
				st.marks["extents"] = Mark{T: s.Res(ev, 0)}
			case b == "NewMessage":
				st.marks["msg"] = Mark{T: s.Res(ev, 0)}
			case b == "VisitFileInodes":
				delete(st.marks, "cb")
				delete(st.marks, "finode")
				// the visit is over: what the closure does was checked when it was followed
				if st.marks["inverted"].T == nil {
					st.marks["putfiles"] = Mark{S: "1"}
				} else {
					st.marks["files"] = Mark{S: "1"}
				}
			}
			return nil
		},
		Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
			if st.top().kind == kCB || st.marks["cb"].S != "" {
				if addr == st.marks["ctr"].T && st.marks["ctr0"].T == nil {
					st.marks["ctr0"] = Mark{T: val}
				}
			}
			return nil
		},
		Instr: func(s *Sim, st *State, in ssa.Instruction) {
			if f := st.top(); f.kind == kCB && st.marks["finode"].T == nil {
				st.marks["cb"] = Mark{S: "1"}
				st.marks["finode"] = Mark{T: f.env[f.fn.Params[0]]}
				delete(st.marks, "ctr0")
				delete(st.marks, "put")
			}
		},
		RetAny: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if st.top().kind != kCB || len(res) != 1 {
				return
			}
			if s.Eval(st, s.T.IsNil(res[0])) == 0 {
				for _, k := range []string{"entry", "idx", "SetBlocks", "SetPadding", "SetUriPrefix", "SetUriSuffix", "got", "gotok", "goturl"} {
					delete(st.marks, k)
				}
				return
			}
			pos := c.P.InstrPos(in)
			if st.marks["inverted"].T == nil {
				if st.marks["put"].S == "" {
					bad(s, st, pos, "a file's URL is not put in the table")
				}
				return
			}
			e := st.marks["entry"].T
			idx := st.marks["idx"].T
			finish(s, st, pos)
			if e == nil {
				bad(s, st, pos, "a file does not get an extent")
				return
			}
			ctr := st.marks["ctr"].T
			if ctr == nil || idx != st.marks["ctr0"].T {
				bad(s, st, pos, "a file's extent is not the next one: "+idx.String())
				return
			}
			if k, ok := s.T.Sub(s.LoadAddr(st, ctr, deref(ctr.typ)), idx).IntConst(); !ok || k != 1 {
				bad(s, st, pos, "the next file does not get the next extent")
			}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			if st.marks["node"].T == nil && st.marks["inverted"].T == nil {
				return
			}
			pos := c.P.InstrPos(header.Instrs[len(header.Instrs)-1])
			if st.marks["inverted"].T != nil && st.marks["extents"].T == nil {
				seen["node"] = true
				if st.marks["nSetParent"].S == "" || st.marks["nSetContent"].S == "" {
					bad(s, st, pos, "a node of the list is left unset")
				}
				l := &lay{c: c, rule: "extents", key: key, pos: pos}
				if i := st.marks["nidx"].T; i != nil {
					st.marks["elem"] = Mark{S: "x", T: i}
					l.nextElem(s, st, header)
				}
			}
			for _, k := range []string{"nSetParent", "nSetContent", "node", "nidx", "elem"} {
				delete(st.marks, k)
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			seen["ret"] = true
			finish(s, st, c.P.InstrPos(in))
			for k, msg := range map[string]string{"bs": "without a block size", "fs": "without a filesystem type", "encoded": "without being written", "files": "without extents for the files", "putmeta": "without the metadata's URL"} {
				if st.marks[k].S == "" {
					bad(s, st, c.P.InstrPos(in), "the index is finished "+msg)
				}
			}
		},
	})
	s.Depth = 10
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		recv = params[0]
		st.marks["p0"] = Mark{T: recv}
	})
	for _, k := range []string{"meta", "file", "put", "putmeta", "node", "ret"} {
		if !seen[k] {
			c.Bad("extents", key, c.P.Pos(fn.Pos()), "not found while building the index: "+k, nil)
		}
	}
}

// fieldOfLookup: a field of the value a map holds for a key.
func fieldOfLookup(t *Term, field string) (m, k *Term) {
	if t.op != OpField || t.aux != field {
		return nil, nil
	}
	return lookupIn(t.args[0])
}

// p23metaURL: the last path element and query of the committed object's URL.
func (c *Check) p23metaURL(s *Sim, st *State, u *Term) bool {
	n := namedOf(u.typ)
	if n == nil {
		return false
	}
	fromCommit := func(v *Term, field string) bool {
		ok, fld := false, false
		walkTerm(v, func(x *Term) {
			if base(x.aux) == "ObjectURL" && len(x.args) == 1 {
				walkTerm(x.args[0], func(y *Term) {
					if strings.HasSuffix(y.aux, ".Commit") {
						ok = true
					}
				})
			}
			if x.op == OpFieldAddr && x.aux == field || x.op == OpField && x.aux == field {
				fld = true
			}
		})
		return ok && fld
	}
	path, _ := fieldTerm(s, st, u, n, "Path")
	query, _ := fieldTerm(s, st, u, n, "RawQuery")
	return path != nil && query != nil && (path.op == OpPure && path.aux == "path.Base") && fromCommit(path.args[0], "Path") && fromCommit(query, "RawQuery")
}

// p23count: files are counted when they are added.
func (c *Check) p23count() {
	n := c.named(discRel, "builder")
	var fn *ssa.Function
	if n != nil {
		fn = c.P.Method(n, "AddFile")
	}
	if fn == nil {
		c.Bad("count", "AddFile", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("count", key, c.P.Pos(fn.Pos()))
	var recv, pth, url, size *Term
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("count", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: keepFacts(nil),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if strings.HasSuffix(ev.Name, ".AddFile") && len(ev.Args) == 3 && !ev.Inlined {
				o := st.marks["obj"].T
				if ev.Args[1] != pth || o == nil || strip(ev.Args[2]) != o {
					bad(s, st, ev.Site, "another object is added than the one at the URL")
				}
				// the table works on characters, so others would be mixed up
				valid := false
				for k, m := range st.marks {
					if strings.HasPrefix(k, "br:") && base(m.T.aux) == "ValidString" && s.Eval(st, m.T) == 1 {
						u := m.T.args[0]
						valid = valid || base(u.aux) == "URL" && o != nil && madeOf(u, o)
					}
				}
				if !valid {
					bad(s, st, ev.Site, "a URL that is not made of characters gets the table's entry of another")
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if strings.HasPrefix(base(ev.Name), "Open") && len(ev.Args) >= 2 {
				okU, okS := false, false
				for _, a := range ev.Args {
					okU, okS = okU || a == url, okS || a == size
				}
				if !okU || !okS {
					bad(s, st, ev.Site, "another object is opened than the one named")
				}
				st.marks["obj"] = Mark{T: s.Res(ev, 0)}
			}
			if strings.HasSuffix(ev.Name, ".AddFile") && len(ev.Args) == 3 {
				st.marks["err"] = Mark{T: ev.Result}
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if rootOf(addr) != recv || !isInt(deref(addr.typ)) {
				return
			}
			old := s.LoadAddr(st, addr, deref(addr.typ))
			if k, ok := s.T.Sub(val, old).IntConst(); !ok || k != 1 {
				bad(s, st, in, "the count does not grow by one")
			}
			if e := st.marks["err"].T; e == nil || s.Eval(st, s.T.IsNil(e)) != 1 {
				bad(s, st, in, "a file is counted that was not added")
			}
			st.marks["counted"] = Mark{S: st.marks["counted"].S + "x"}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			e := st.marks["err"].T
			added := e != nil && s.Eval(st, s.T.IsNil(e)) != 0
			if added && st.marks["counted"].S != "x" {
				bad(s, st, in, "a file was added but not counted once")
			}
			if !added && s.succeeds(st, in, res) {
				bad(s, st, in, "success is returned although the file was not added")
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		recv, pth, url, size = params[0], params[1], params[2], params[3]
		for i, k := range []string{"p0", "p1", "p2", "p3"} {
			st.marks[k] = Mark{T: params[i]}
		}
	})
	// nowhere else
	if st, ok := n.Underlying().(*types.Struct); ok {
		for _, f := range c.P.Funcs {
			if c.P.Rel(f) != discRel || s.Fns[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if w, ok := in.(*ssa.Store); ok {
						if fa, ok := w.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == n && isInt(st.Field(fa.Field).Type()) {
							c.Bad("count", c.P.FnName(f), c.P.InstrPos(in), "the count of files is changed elsewhere", nil)
						}
					}
				}
			}
		}
	}
}

// p23addresses: the blocks of the areas and files.
func (c *Check) p23addresses() {
	vol := c.named(isoRel, "Volume")
	var fn *ssa.Function
	if vol != nil {
		fn = c.P.Method(vol, "assignLogicalBlockAddresses")
	}
	if fn == nil {
		c.Bad("addresses", "assignLogicalBlockAddresses", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("addresses", key, c.P.Pos(fn.Pos()))
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("addresses", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	isAlloc := func(ev *CallEv) bool {
		return strings.HasSuffix(ev.Name, "SectorAllocator).Alloc") && len(ev.Args) == 2
	}
	seen := map[string]bool{}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			if !pkgInline(c)(s, st, ev) || c.P.callsBack(ev.Callee) {
				return false
			}
			if c.P.IsTop(ev.Callee) {
				return len(ev.Callee.Blocks) == 1 && ev.Callee.Signature.Recv() != nil && base(ev.Name) != "ToDirectory" && base(ev.Name) != "Len" && base(ev.Name) != "Size" && base(ev.Name) != "Parts"
			}
			return base(ev.Name) != "toDirectory"
		},
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
		Branch:  keepFacts((&lay{c: c, rule: "addresses", key: key}).listEnd),
		Instr: func(s *Sim, st *State, in ssa.Instruction) {
			if f := st.top(); f.kind == kCB && st.marks["cb"].T == nil {
				st.marks["cb"] = Mark{T: f.env[f.fn.Params[0]], S: base(f.ev.Name)}
				delete(st.marks, "first")
				delete(st.marks, "end")
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if !isAlloc(ev) {
				// what a method is called for
				delete(st.marks, "of")
				for _, k := range []string{"listing", "more"} {
					m := st.marks[k].T
					if m == nil || len(ev.Args) == 0 {
						continue
					}
					x := ev.Args[0]
					if p, ok := x.typ.Underlying().(*types.Pointer); ok && x != m {
						x = s.LoadAddr(st, x, p.Elem())
					}
					if x == m || ev.Args[0] == st.marks[k+"@"].T {
						st.marks["of"] = Mark{S: k}
						st.marks[k+"@"] = Mark{T: ev.Args[0]}
					}
				}
				return
			}
			cb := st.marks["cb"]
			a := ev.Args[1]
			switch {
			case cb.T == nil:
				k := "A"
				if f := loadedField(a); f == "PathTableSize" {
					k = "T"
				} else if v, ok := a.IntConst(); !ok {
					bad(s, st, ev.Site, "space of unknown size is allocated: "+a.String())
				} else if v == 16*sectorSize {
					k = "S"
				} else if v != sectorSize {
					bad(s, st, ev.Site, "space is allocated for something that is not written: "+a.String())
				}
				st.marks["areas"] = Mark{S: st.marks["areas"].S + k}
			case cb.S == "VisitFiles":
				idx, ok := partOfFile(a, cb.T)
				switch {
				case !ok:
					bad(s, st, ev.Site, "the space allocated for a file is not that of its parts: "+a.String())
				case idx == s.T.Int(0):
					if st.marks["first"].S != "" {
						bad(s, st, ev.Site, "the first part of a file gets space twice")
					}
				default:
					if st.marks["first"].S == "" {
						bad(s, st, ev.Site, "the parts of a file do not get space in order")
					}
					st.marks["elem"] = Mark{S: st.marks["elem"].S + "x", T: idx}
				}
			case cb.S == "VisitDirectories":
				switch k := st.marks["dir"].S; {
				case k == "" && a == st.marks["dsize"].T:
					st.marks["dir"] = Mark{S: "d"}
				case k == "d" && a == st.marks["clen"].T:
					st.marks["dir"] = Mark{S: "dc"}
				default:
					bad(s, st, ev.Site, "the space allocated for a directory is not that of its entries and then their continuation: "+a.String())
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if st.marks["cb"].S == "VisitDirectories" && !ev.Inlined {
				switch b := base(ev.Name); {
				case strings.EqualFold(b, "toDirectory") && len(ev.Args) > 0 && madeOf(ev.Args[0], st.marks["cb"].T):
					st.marks["listing"], st.marks["more"] = Mark{T: s.Res(ev, 0)}, Mark{T: s.Res(ev, 1)}
				case b == "Size" && st.marks["of"].S == "listing":
					st.marks["dsize"] = Mark{T: ev.Result}
				case b == "Len" && st.marks["of"].S == "more":
					// the same each time it is asked for
					if o := st.marks["clen"].T; o != nil {
						s.Assume(st, s.T.Eq(o, ev.Result), true)
						if v := s.Eval(st, s.T.Eq(o, s.T.Int(0))); v >= 0 {
							s.Assume(st, s.T.Eq(ev.Result, s.T.Int(0)), v == 1)
						}
						if v := s.Eval(st, s.T.Lt(s.T.Int(0), o)); v >= 0 {
							s.Assume(st, s.T.Lt(s.T.Int(0), ev.Result), v == 1)
						}
					}
					st.marks["clen"] = Mark{T: ev.Result}
				}
			}
			if isAlloc(ev) {
				st.marks["alloc"] = Mark{T: ev.Result}
				if cb := st.marks["cb"]; cb.S == "VisitFiles" {
					if idx, ok := partOfFile(ev.Args[1], cb.T); ok && idx == s.T.Int(0) {
						st.marks["first"] = Mark{S: "x", T: ev.Result}
					}
				}
			}
			if b := base(ev.Name); b == "VisitFiles" || b == "VisitDirectories" {
				if strings.Contains(st.marks["areas"].S, b[5:6]) {
					bad(s, st, ev.Site, "visited twice")
				}
				st.marks["areas"] = Mark{S: st.marks["areas"].S + b[5:6]}
				delete(st.marks, "cb")
				delete(st.marks, "first")
				if e := s.ErrRes(ev); e != nil {
					s.Assume(st, s.T.IsNil(e), true)
				}
			}
			if e := s.ErrRes(ev); e != nil && !ev.Inlined {
				s.Assume(st, s.T.IsNil(e), true)
			}
			return nil
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OpFieldAddr {
				return
			}
			switch addr.aux {
			case "start":
				cb := st.marks["cb"]
				if cb.T == nil || !madeOf(addr.args[0], cb.T) || val != st.marks["alloc"].T {
					bad(s, st, in, "an address is set that was not just allocated for what is visited")
				}
				if cb.S == "VisitFiles" {
					if val != st.marks["first"].T {
						bad(s, st, in, "a file does not start with its first part")
					}
					st.marks["set"] = Mark{S: st.marks["set"].S + "x"}
				} else {
					st.marks["set"] = Mark{S: st.marks["set"].S + "d"}
				}
			case "size", "RootLength":
				if cb := st.marks["cb"]; cb.S == "VisitDirectories" {
					if val != st.marks["dsize"].T || addr.aux == "size" && !madeOf(addr.args[0], cb.T) {
						bad(s, st, in, "a directory gets another size than that of its entries")
					}
					st.marks["set:"+addr.aux] = Mark{S: "1"}
				}
			case "RootStart":
				st.marks["set:"+addr.aux] = Mark{S: "1"}
				if loadedField(val) != "start" && val != st.marks["alloc"].T {
					bad(s, st, in, "the root directory gets another address than its own")
				}
			case "VolumeSpaceSize":
				// the blocks allocated in the end
				st.marks["areas"] = Mark{S: st.marks["areas"].S + "V"}
				if val.op != OpOpaque && val.op != OpPure || base(val.aux) != "Allocated" {
					if loadedField(val) != "next" {
						bad(s, st, in, "the volume's size is not what was allocated: "+val.String())
					}
				}
			case "LTableStart", "MTableStart":
				a := st.marks["areas"].S
				if val != st.marks["alloc"].T || !strings.HasSuffix(a, "T") {
					bad(s, st, in, "a path table's address is not the one allocated for it")
				}
				st.marks["areas"] = Mark{S: strings.TrimSuffix(a, "T") + addr.aux[:1]}
			}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			if st.marks["cb"].S != "VisitFiles" {
				return
			}
			mk := st.marks["elem"]
			pos := header.Instrs[len(header.Instrs)-1]
			if mk.S != "x" {
				bad(s, st, pos, "not every part of a file gets space once")
				return
			}
			k, ok := mk.T.IntConst()
			if ok && k != 1 {
				bad(s, st, pos, "the parts after the first do not all get space")
			}
			if !ok {
				phi := false
				for _, in := range header.Instrs {
					if ph, isPhi := in.(*ssa.Phi); isPhi && isInt(ph.Type()) && stepsByOne(ph) {
						phi = true
					}
				}
				if !phi {
					bad(s, st, pos, "the parts of a file are not taken one after the other")
				}
			}
			delete(st.marks, "elem")
			st.marks["looped"] = Mark{S: "1"}
		},
		RetAny: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if st.top().kind != kCB || len(res) != 1 || s.Eval(st, s.T.IsNil(res[0])) == 0 {
				return
			}
			cb := st.marks["cb"]
			if cb.S == "VisitFiles" {
				visited := false
				for f, v := range st.facts {
					if v && f.op == OpPure && f.aux == "lookupok" {
						visited = true
					}
				}
				if !visited {
					seen["file"] = true
					if st.marks["set"].S != "x" {
						bad(s, st, in, "a file does not get an address")
					}
					// all parts: the loop ended at their number
					if st.marks["end"].S == "" {
						bad(s, st, in, "a file is left before all its parts have space")
					}
				} else if st.marks["set"].S != "" {
					bad(s, st, in, "a file gets another address")
				}
			} else {
				seen["dir"] = true
				if st.marks["set"].S != "d" || st.marks["set:size"].S == "" {
					bad(s, st, in, "a directory does not get an address and a size")
				}
				if (st.marks["set:RootStart"].S == "") != (st.marks["set:RootLength"].S == "") {
					bad(s, st, in, "the root directory does not get an address and a size")
				}
				if st.marks["set:RootStart"].S != "" {
					seen["root"] = true
				}
				cl := -1
				if t := st.marks["clen"].T; t != nil {
					cl = s.Eval(st, s.T.Lt(s.T.Int(0), t))
					if z := s.Eval(st, s.T.Eq(t, s.T.Int(0))); cl < 0 && z >= 0 {
						cl = 1 - z
					}
				}
				switch st.marks["dir"].S {
				case "d":
					if cl != 0 {
						bad(s, st, in, "the continuation of a directory's entries does not get space")
					}
				case "dc":
					seen["more"] = true
					if cl != 1 {
						bad(s, st, in, "a directory without a continuation gets space for one")
					}
				default:
					bad(s, st, in, "a directory does not get space")
				}
				for _, k := range []string{"dir", "set:size", "set:RootStart", "set:RootLength", "dsize", "clen", "listing", "more", "listing@", "more@"} {
					delete(st.marks, k)
				}
			}
			delete(st.marks, "set")
			delete(st.marks, "looped")
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if s.succeeds(st, in, res) {
				seen["ret"] = true
				if a := st.marks["areas"].S; a != "SAALMDFV" {
					bad(s, st, in, "the areas are not laid out in the order they are written ("+a+")")
				}
			}
		},
	})
	s.Depth = 8
	c.Run(s, fn, nil)
	for _, k := range []string{"file", "dir", "root", "more", "ret"} {
		if !seen[k] {
			c.Bad("addresses", key, c.P.Pos(fn.Pos()), "not found while assigning addresses: "+k, nil)
		}
	}
}

// partOfFile: the index of the part of the visited file whose size this is.
func partOfFile(t, rel *Term) (*Term, bool) {
	if (t.op != OpPure && t.op != OpOpaque) || base(t.aux) != "Size" || len(t.args) != 1 {
		return nil, false
	}
	e := strip(t.args[0])
	if e.op != OpLoad || e.args[0].op != OpIndexAddr {
		return nil, false
	}
	ok := false
	lo := e.args[0].args[0]
	walkTerm(lo, func(x *Term) {
		if base(x.aux) == "Parts" && len(x.args) > 0 && madeOf(x.args[0], rel) {
			ok = true
		}
	})
	return e.args[0].args[1], ok && lo.op != OpSlice
}

func (c *Check) p23allocate() {
	n := c.named(isoRel, "SectorAllocator")
	var fn *ssa.Function
	if n != nil {
		fn = c.P.Method(n, "Alloc")
	}
	if fn == nil {
		c.Bad("allocate", "Alloc", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("allocate", key, c.P.Pos(fn.Pos()))
	var recv, size *Term
	var cell, old *Term
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: keepFacts(nil),
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			stt := n.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if f := stt.Field(i); isInt(f.Type()) {
					cell = s.T.FieldAddr(recv, i, f.Name(), types.NewPointer(f.Type()))
					old = s.T.intern(&Term{op: OpLoad, args: []*Term{cell}, typ: f.Type()})
					now := s.LoadAddr(st, cell, f.Type())
					if res[0] != old {
						c.Bad("allocate", key, c.P.InstrPos(in), "the address returned is not the next free one: "+res[0].String(), s.Path(st))
					}
					if !s.wholeBlocks(st, size, s.T.Sub(now, old)) {
						c.Bad("allocate", key, c.P.InstrPos(in), "the next free address does not move on by the blocks needed: "+now.String(), s.Path(st))
					}
				}
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		recv, size = params[0], params[1]
		st.marks["p0"], st.marks["p1"] = Mark{T: recv}, Mark{T: size}
	})
}

// p23visit: VisitFileInodes hands on what VisitFiles visits.
func (c *Check) p23visit() {
	vol := c.named(isoRel, "Volume")
	var fn *ssa.Function
	if vol != nil {
		fn = c.P.Method(vol, "VisitFileInodes")
	}
	if fn == nil {
		c.Bad("visit", "VisitFileInodes", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("visit", key, c.P.Pos(fn.Pos()))
	var recv, visit *Term
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("visit", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	called := 0
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && base(ev.Name) != "VisitFiles"
		},
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if base(ev.Name) == "VisitFiles" && !ev.Inlined {
				if recvField(ev.Args[0], recv) != "root" {
					bad(s, st, ev.Site, "another directory than the root is visited")
				}
			}
			if ev.Fun == visit {
				called++
				a := strip(ev.Args[0])
				ok := false
				walkTerm(a, func(t *Term) {
					if t.aux == "Child" {
						ok = true
					}
				})
				if !ok {
					bad(s, st, ev.Site, "something else is handed on than the visited file")
				}
				st.marks["called"] = Mark{S: st.marks["called"].S + "x"}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if base(ev.Name) == "VisitFiles" {
				st.marks["res"] = Mark{T: ev.Result}
			}
			if ev.Fun == visit {
				st.marks["vres"] = Mark{T: ev.Result}
			}
			return nil
		},
		RetAny: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if st.top().kind == kCB {
				if st.marks["called"].S != "x" {
					bad(s, st, in, "a visited file is not handed on once")
				} else if res[0] != st.marks["vres"].T && s.Eval(st, s.T.IsNil(st.marks["vres"].T)) != 1 && s.Eval(st, s.T.IsNil(res[0])) != 0 {
					bad(s, st, in, "the visit goes on although the callback failed")
				}
				delete(st.marks, "called")
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if r := st.marks["res"].T; r == nil || res[0] != r && s.Eval(st, s.T.IsNil(res[0])) != 0 && s.Eval(st, s.T.IsNil(r)) != 1 {
				bad(s, st, in, "the result of the visit is not returned")
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		recv, visit = params[0], params[1]
		st.marks["p0"], st.marks["p1"] = Mark{T: recv}, Mark{T: visit}
	})
	if called == 0 {
		c.Bad("visit", key, c.P.Pos(fn.Pos()), "the callback is never called", nil)
	}
}

// p23load: placement of extents.
func (c *Check) p23load() {
	fn := c.P.Lookup(discRel, "Load")
	ext := c.named(discRel, "extent")
	if fn == nil || ext == nil {
		c.Bad("placement", "Load", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("placement", key, c.P.Pos(fn.Pos()))
	bad := func(s *Sim, st *State, pos, msg string) { c.Bad("placement", key, pos, msg, s.Path(st)) }
	turns, rets, first := 0, 0, false
	clear := func(st *State) {
		for _, k := range []string{"at", "aidx", "blocks", "pad", "idxkey", "ext", "extobj", "padobj", "padn", "app"} {
			delete(st.marks, k)
		}
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return c.discInline(ev) && !strings.Contains(base(ev.Name), "download")
		},
		Branch: keepFacts(func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			t := cond
			for t.op == OpNot {
				t, taken = t.args[0], !taken
			}
			if t.op != OpLt0 && t.op != OpEq0 {
				return
			}
			ms, k := s.T.toPoly(t.args[0])
			for _, m := range ms {
				if len(m.a) != 1 || base(m.a[0].aux) != "Len" || st.marks["extents"].T == nil || !madeOf(m.a[0], st.marks["extents"].T) {
					continue
				}
				delete(st.marks, "all")
				if t.op == OpEq0 && k == 0 && taken || t.op == OpLt0 && (m.c == -1 && k == 0 && !taken || m.c == 1 && k == -1 && taken) {
					st.marks["all"] = Mark{S: "1"}
				}
			}
		}),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			pos := c.P.InstrPos(ev.Site)
			b := base(ev.Name)
			switch {
			case b == "WithCaching":
				e := strip(ev.Args[len(ev.Args)-1])
				if namedOf(e.typ) == ext && e.op == OpAlloc {
					c.p23fields(s, st, "placement", key, pos, e, st.marks["aidx"].T)
					st.marks["ext"] = Mark{T: e}
				}
			case ev.Name == "append":
				for _, v := range ev.VArgs[1:] {
					v = strip(v)
					switch {
					case v == st.marks["extobj"].T || v == st.marks["ext"].T:
						st.marks["app"] = Mark{S: st.marks["app"].S + "e"}
					case st.marks["padobj"].T != nil && v == st.marks["padobj"].T:
						st.marks["app"] = Mark{S: st.marks["app"].S + "p"}
					default:
						bad(s, st, pos, "something else than an extent or its padding becomes part of the image: "+v.String())
					}
				}
			case b == "Concat":
				if n := len(ev.Args); n != 1 || ev.Args[0].op == OpSlice {
					bad(s, st, pos, "the image is not made of all the extents")
					return
				}
				st.marks["concat"] = Mark{S: "1"}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			b := base(ev.Name)
			switch {
			case b == "WithCaching":
				st.marks["extobj"] = Mark{T: strip(ev.Result)}
			case b == "At" && strings.Contains(ev.Name, "Extent_List"):
				st.marks["at"], st.marks["aidx"] = Mark{T: ev.Result}, Mark{T: ev.Args[1]}
			case b == "Blocks" && ev.Args[0] == st.marks["at"].T:
				st.marks["blocks"] = Mark{T: ev.Result}
			case b == "Padding" && ev.Args[0] == st.marks["at"].T:
				st.marks["pad"] = Mark{T: ev.Result}
			case b == "Open" && len(ev.Args) >= 1:
				ok := false
				walkTerm(ev.Args[len(ev.Args)-1], func(t *Term) {
					if t.aux == "fmt.Sprintf" {
						if f, isc := t.args[0].StrConst(); isc && f == "zero:%d" && st.marks["pad"].T != nil && madeOf(t, st.marks["pad"].T) {
							ok = true
						}
					}
					if t.op == OpBin && t.aux == "+" {
						if f, isc := t.args[0].StrConst(); isc && f == "zero:" && st.marks["pad"].T != nil && madeOf(t.args[1], st.marks["pad"].T) {
							ok = true
						}
					}
				})
				if !ok {
					bad(s, st, c.P.InstrPos(ev.Site), "the padding opened is not that of the extent: "+ev.Args[len(ev.Args)-1].String())
				}
				st.marks["padobj"] = Mark{T: s.Res(ev, 0)}
			case b == "Extents":
				st.marks["extents"] = Mark{T: s.Res(ev, 0)}
			case b == "Uris":
				st.marks["uris"] = Mark{T: s.Res(ev, 0)}
			case b == "BlockSize":
				st.marks["bs"] = Mark{T: ev.Result}
			case strings.HasSuffix(ev.Name, "url.Parse"):
				st.marks["base"] = Mark{T: s.Res(ev, 0)}
			case b == "Concat":
				st.marks["image"] = Mark{T: strip(ev.Result)}
			}
			if e := s.ErrRes(ev); e != nil && !ev.Inlined {
				s.Assume(st, s.T.IsNil(e), true)
			}
			return nil
		},
		MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
			if !isInt(k.typ) {
				return
			}
			if st.marks["idxkey"].T != nil {
				bad(s, st, c.P.InstrPos(in), "an extent is placed twice")
			}
			if o := st.marks["idxmap"].T; o != nil && o != m {
				bad(s, st, c.P.InstrPos(in), "extents are placed in more than one table")
			}
			if _, isc := k.IntConst(); isc {
				first = true
				if k != s.T.Int(0) || v != s.T.Int(0) {
					bad(s, st, c.P.InstrPos(in), "the first extent is not placed at the start")
				}
			}
			st.marks["idxkey"] = Mark{T: k}
			st.marks["idxval"] = Mark{T: v}
			st.marks["idxmap"] = Mark{T: m}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			pos := c.P.InstrPos(header.Instrs[len(header.Instrs)-1])
			if st.marks["at"].T == nil && st.marks["idxkey"].T == nil {
				return
			}
			turns++
			at, i := st.marks["at"].T, st.marks["aidx"].T
			if at == nil || st.marks["idxkey"].T == nil || st.marks["idxval"].T != i {
				bad(s, st, pos, "an extent is not placed under its own number")
				return
			}
			l := &lay{c: c, rule: "placement", key: key, pos: pos}
			st.marks["elem"] = Mark{S: "x", T: i}
			l.nextElem(s, st, header)
			// the next position
			moved := false
			var next *Term
			n := 0
			for _, in := range header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := s.loopVals[n]
				n++
				if isInt(ph.Type()) && !stepsByOne(ph) {
					next = v
				}
			}
			blocks, pad := st.marks["blocks"].T, st.marks["pad"].T
			none := blocks != nil && s.Eval(st, s.T.Eq(blocks, s.T.Int(0))) == 1
			if next != nil {
				d := s.T.Sub(next, st.marks["idxkey"].T)
				moved = blocks != nil && d == blocks || none && d == s.T.Int(0)
			}
			if !moved {
				bad(s, st, pos, "the next extent is not placed where this one ends")
			}
			app := st.marks["app"].S
			padded := -1
			if pad != nil {
				padded = s.Eval(st, s.T.Lt(s.T.Int(0), pad))
			}
			if padded == -1 && pad != nil && s.Eval(st, s.T.Eq(pad, s.T.Int(0))) == 0 {
				padded = 1
			}
			switch {
			case none && app == "":
			case !none && app == "e" && padded == 0:
			case !none && app == "ep" && padded != 0:
			default:
				bad(s, st, pos, "the image does not get each extent followed by its padding")
			}
			clear(st)
			for k := range st.marks {
				if strings.HasPrefix(k, "br:") {
					delete(st.marks, k)
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			rets++
			pos := c.P.InstrPos(in)
			d := strip(res[0])
			n := namedOf(d.typ)
			if n == nil {
				bad(s, st, pos, "no disc is returned")
				return
			}
			want := map[string]*Term{"blockSize": st.marks["bs"].T, "uris": st.marks["uris"].T, "extents": st.marks["extents"].T, "image": st.marks["image"].T, "baseURL": st.marks["base"].T}
			for f, w := range want {
				v, _ := fieldTerm(s, st, d, n, f)
				if v == nil || w == nil || strip(v) != w {
					bad(s, st, pos, "the disc's "+f+" is not what was loaded")
				}
			}
			if m := st.marks["idxmap"].T; m != nil {
				ok := false
				stt := n.Underlying().(*types.Struct)
				for i := 0; i < stt.NumFields(); i++ {
					if _, isMap := stt.Field(i).Type().Underlying().(*types.Map); isMap {
						v, _ := fieldTerm(s, st, d, n, stt.Field(i).Name())
						ok = ok || v == m
					}
				}
				if !ok {
					bad(s, st, pos, "the disc does not keep where its extents are placed")
				}
			}
			if st.marks["all"].S == "" {
				bad(s, st, pos, "not all extents are placed")
			}
			if st.marks["concat"].S == "" {
				bad(s, st, pos, "the image is not made of the extents")
			}
		},
	})
	s.Depth = 8
	c.Run(s, fn, nil)
	if turns == 0 || rets == 0 || !first {
		c.Bad("placement", key, c.P.Pos(fn.Pos()), "no extent is placed", nil)
	}
}

// p23fields: an extent refers to the disc's lists and its own number.
func (c *Check) p23fields(s *Sim, st *State, rule, key, pos string, e, idx *Term) {
	ext := c.named(discRel, "extent")
	v, _ := fieldTerm(s, st, e, ext, "idx")
	if idx == nil || v != idx {
		c.Bad(rule, key, pos, "an extent does not get its own number", s.Path(st))
	}
	for f, m := range map[string]string{"blockSize": "bs", "baseURL": "base", "uris": "uris", "extents": "extents"} {
		v, _ := fieldTerm(s, st, e, ext, f)
		if v == nil || v != st.marks[m].T {
			c.Bad(rule, key, pos, "an extent does not get the disc's "+f, s.Path(st))
		}
	}
}

// p23open: extents opened by address.
func (c *Check) p23open() {
	n := c.named(discRel, "vdisc")
	ext := c.named(discRel, "extent")
	if n == nil || ext == nil {
		c.Bad("open", "vdisc", "", "not found", nil)
		return
	}
	for _, m := range []string{"OpenExtent", "ExtentURL"} {
		fn := c.P.Method(n, m)
		if fn == nil {
			c.Bad("open", m, "", "not found", nil)
			continue
		}
		key := c.P.FnName(fn)
		c.Ob("open", key, c.P.Pos(fn.Pos()))
		url := c.P.Method(ext, "URL")
		var recv, lba *Term
		good := 0
		s := c.Sim(Hooks{
			Inline: func(s *Sim, st *State, ev *CallEv) bool { return pkgInline(c)(s, st, ev) && ev.Callee != url },
			Branch: keepFacts(nil),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if base(ev.Name) != "WithCaching" && ev.Callee != url {
					return
				}
				e := strip(ev.Args[len(ev.Args)-1])
				if e.op != OpAlloc || namedOf(e.typ) != ext {
					c.Bad("open", key, c.P.InstrPos(ev.Site), "something else than an extent is opened", s.Path(st))
					return
				}
				ok := false
				idx, _ := fieldTerm(s, st, e, ext, "idx")
				if idx != nil {
					if mm, k := lookupIn(idx); mm != nil && recvField(mm, recv) != "" && k == lba {
						for f, v := range st.facts {
							if v && f.op == OpPure && f.aux == "lookupok" && f.args[1] == lba {
								ok = true
							}
						}
					}
				}
				if !ok {
					c.Bad("open", key, c.P.InstrPos(ev.Site), "the extent is not the one found at the address", s.Path(st))
				}
				for _, f := range []string{"blockSize", "baseURL", "uris", "extents"} {
					v, _ := fieldTerm(s, st, e, ext, f)
					if v == nil || recvField(v, recv) != f {
						c.Bad("open", key, c.P.InstrPos(ev.Site), "an extent does not get the disc's "+f, s.Path(st))
					}
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if base(ev.Name) == "WithCaching" || ev.Callee == url {
					st.marks["res"] = Mark{T: ev.Result}
				}
				return nil
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				if !s.succeeds(st, in, res) {
					return
				}
				good++
				if r := st.marks["res"].T; r == nil || strip(res[0]) != strip(r) {
					c.Bad("open", key, c.P.InstrPos(in), "something else than the extent is returned", s.Path(st))
				}
			},
		})
		c.Run(s, fn, func(st *State, params, frees []*Term) {
			recv, lba = params[0], params[1]
			st.marks["p0"], st.marks["p1"] = Mark{T: recv}, Mark{T: lba}
		})
		if good == 0 {
			c.Bad("open", key, c.P.Pos(fn.Pos()), "never succeeds", nil)
		}
	}
}

// p23extent: size, URL and reading of an extent.
func (c *Check) p23extent() {
	ext := c.named(discRel, "extent")
	if ext == nil {
		return
	}
	size, url, read := c.P.Method(ext, "Size"), c.P.Method(ext, "URL"), c.P.Method(ext, "ReadAt")
	if size == nil || url == nil || read == nil {
		c.Bad("size", "extent", "", "methods not found", nil)
		return
	}
	var recv *Term
	init := func(st *State, params, frees []*Term) {
		recv = params[0]
		for i, p := range params {
			st.marks["p"+string(rune('0'+i))] = Mark{T: p}
		}
	}
	isAt := func(ev *CallEv) bool {
		return base(ev.Name) == "At" && strings.Contains(ev.Name, "Extent_List")
	}
	// size
	key := c.P.FnName(size)
	c.Ob("size", key, c.P.Pos(size.Pos()))
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: keepFacts(nil),
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			switch b := base(ev.Name); {
			case isAt(ev) && recvField(ev.Args[0], recv) != "" && recvField(ev.Args[1], recv) != "":
				st.marks["at"] = Mark{T: ev.Result}
			case (b == "Blocks" || b == "Padding") && ev.Args[0] == st.marks["at"].T:
				st.marks[b] = Mark{T: ev.Result}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			b, p := st.marks["Blocks"].T, st.marks["Padding"].T
			if b != nil && s.Eval(st, s.T.Eq(b, s.T.Int(0))) == 1 && res[0] == s.T.Int(0) {
				return
			}
			ok := false
			if b != nil && p != nil {
				ms, k := s.T.toPoly(s.T.Add(res[0], p))
				if k == 0 && len(ms) == 1 && ms[0].c == 1 && len(ms[0].a) == 2 {
					x, y := ms[0].a[0], ms[0].a[1]
					ok = x == b && recvField(y, recv) == "blockSize" || y == b && recvField(x, recv) == "blockSize"
				}
			}
			if !ok {
				c.Bad("size", key, c.P.InstrPos(in), "the size is not the blocks' without the padding: "+res[0].String(), s.Path(st))
			}
		},
	})
	c.Run(s, size, init)
	// URL
	ukey := c.P.FnName(url)
	c.Ob("url", ukey, c.P.Pos(url.Pos()))
	ubad := func(s *Sim, st *State, pos, msg string) { c.Bad("url", ukey, pos, msg, s.Path(st)) }
	rets := 0
	s = c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool { return c.discInline(ev) },
		Branch: keepFacts(nil),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if base(ev.Name) == "ResolveReference" && recvField(ev.Args[0], recv) == "" {
				ubad(s, st, c.P.InstrPos(ev.Site), "the URL is not resolved against the index's")
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			b := base(ev.Name)
			switch {
			case isAt(ev) && recvField(ev.Args[0], recv) != "" && recvField(ev.Args[1], recv) != "":
				st.marks["at"] = Mark{T: ev.Result}
			case b == "UriSuffix" && ev.Args[0] == st.marks["at"].T:
				st.marks["uri"] = Mark{T: s.Res(ev, 0)}
			case b == "UriPrefix" && ev.Args[0] == st.marks["at"].T:
				st.marks["cur"] = Mark{T: ev.Result}
			case b == "At" && strings.Contains(ev.Name, "ITrie_List"):
				if ev.Args[1] != st.marks["cur"].T && ev.Args[1].op != OpPhi || recvField(ev.Args[0], recv) == "" {
					ubad(s, st, c.P.InstrPos(ev.Site), "another node is read than the one referred to")
				}
				st.marks["node"], st.marks["nidx"] = Mark{T: ev.Result}, Mark{T: ev.Args[1]}
			case b == "Content" && ev.Args[0] == st.marks["node"].T:
				st.marks["content"] = Mark{T: s.Res(ev, 0)}
			case b == "Parent" && ev.Args[0] == st.marks["node"].T:
				st.marks["parent"] = Mark{T: ev.Result}
			case strings.HasSuffix(ev.Name, "url.Parse"):
				// the chain ended
				if st.marks["top"].S != "" && st.marks["node"].T == nil && ev.Args[0].op == OpPhi {
					st.marks["parsed"] = Mark{T: s.Res(ev, 0)}
					break
				}
				p, i := st.marks["parent"].T, st.marks["nidx"].T
				if p == nil || i == nil || s.Eval(st, s.T.Eq(p, i)) != 1 {
					ubad(s, st, c.P.InstrPos(ev.Site), "the URL is taken before all its prefixes are in it")
				}
				if !prefixed(ev.Args[0], st.marks["content"].T, st.marks["uri"].T) {
					ubad(s, st, c.P.InstrPos(ev.Site), "the URL does not start with the last prefix: "+ev.Args[0].String())
				}
				st.marks["parsed"] = Mark{T: s.Res(ev, 0)}
			case b == "ResolveReference":
				if p := st.marks["parsed"].T; p == nil || ev.Args[1] != p {
					ubad(s, st, c.P.InstrPos(ev.Site), "another URL is resolved than the extent's")
				}
				st.marks["resolved"] = Mark{T: ev.Result}
			}
			return nil
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			pos := c.P.InstrPos(header.Instrs[len(header.Instrs)-1])
			i := 0
			for _, in := range header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := s.loopVals[i]
				i++
				switch {
				case isBasic(types.String)(ph.Type()):
					if !prefixed(v, st.marks["content"].T, st.marks["uri"].T) {
						ubad(s, st, pos, "a prefix is not put before what follows it: "+v.String())
					}
					st.marks["uri"] = Mark{T: v}
				case isInt(ph.Type()):
					if v != st.marks["parent"].T {
						ubad(s, st, pos, "the next prefix is not the one referred to")
					}
					st.marks["cur"] = Mark{T: v}
				}
			}
			delete(st.marks, "top")
			if p, i := st.marks["parent"].T, st.marks["nidx"].T; p != nil && i != nil && s.Eval(st, s.T.Eq(p, i)) == 1 {
				st.marks["top"] = Mark{S: "1"}
			}
			for _, k := range []string{"node", "nidx", "content", "parent"} {
				delete(st.marks, k)
			}
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			r := st.marks["resolved"].T
			if r == nil || addr.op != OpFieldAddr || addr.args[0] != r {
				return
			}
			// only a relative name beside a relative index stays relative
			rel := map[bool]bool{}
			for k, m := range st.marks {
				if !strings.HasPrefix(k, "br:") || m.T.op != OpPure || base(m.T.aux) != "HasPrefix" || s.Eval(st, m.T) != 0 {
					continue
				}
				if p, isc := m.T.args[1].StrConst(); !isc || p != "/" {
					continue
				}
				x := m.T.args[0]
				if x.op != OpLoad || x.args[0].op != OpFieldAddr || x.args[0].aux != "Path" {
					continue
				}
				switch y := x.args[0].args[0]; {
				case recvField(y, recv) == "baseURL":
					rel[true] = true
				case y == st.marks["parsed"].T:
					rel[false] = true
				}
			}
			if addr.aux != "Path" || !rel[true] || !rel[false] {
				ubad(s, st, c.P.InstrPos(in), "the path of the resolved URL is changed although it may be absolute")
			}
			if !(val.op == OpPure || val.op == OpOpaque) || base(val.aux) != "TrimPrefix" || !madeOf(val, r) {
				ubad(s, st, c.P.InstrPos(in), "the path of the resolved URL becomes another: "+val.String())
			} else if p, isc := val.args[1].StrConst(); !isc || p != "/" {
				ubad(s, st, c.P.InstrPos(in), "the path of the resolved URL becomes another: "+val.String())
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			rets++
			r := res[0]
			if (r.op != OpPure && r.op != OpOpaque) || base(r.aux) != "String" || r.args[0] != st.marks["resolved"].T {
				ubad(s, st, c.P.InstrPos(in), "the URL returned is not the resolved one: "+r.String())
			}
		},
	})
	c.Run(s, url, init)
	if rets == 0 {
		c.Bad("url", ukey, c.P.Pos(url.Pos()), "never returns", nil)
	}
	// reading
	rkey := c.P.FnName(read)
	c.Ob("read", rkey, c.P.Pos(read.Pos()))
	var p, off *Term
	reads := 0
	s = c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			return pkgInline(c)(s, st, ev) && ev.Callee != url && ev.Callee != size
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			b := base(ev.Name)
			bad := func(msg string) { c.Bad("read", rkey, c.P.InstrPos(ev.Site), msg, s.Path(st)) }
			if strings.HasPrefix(b, "Open") {
				okU, okS := false, false
				for _, a := range ev.Args {
					okU = okU || (st.marks["url"].T != nil && a == st.marks["url"].T)
					okS = okS || (st.marks["size"].T != nil && a == st.marks["size"].T)
				}
				if !okU || !okS {
					bad("something else is opened than the extent's URL with its size")
				}
			}
			if b == "ReadAt" && !ev.Inlined {
				reads++
				if o := st.marks["obj"].T; o == nil || strip(ev.Args[0]) != o || ev.Args[1] != p || ev.Args[2] != off {
					bad("another range is read than the one asked for")
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			switch {
			case ev.Callee == url && ev.Args[0] == recv:
				st.marks["url"] = Mark{T: ev.Result}
			case ev.Callee == size && ev.Args[0] == recv:
				st.marks["size"] = Mark{T: ev.Result}
			case strings.HasPrefix(base(ev.Name), "Open"):
				st.marks["obj"] = Mark{T: s.Res(ev, 0)}
			case base(ev.Name) == "ReadAt":
				st.marks["n"], st.marks["err"] = Mark{T: s.Res(ev, 0)}, Mark{T: s.Res(ev, 1)}
			}
			return nil
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if n := st.marks["n"].T; n != nil && (res[0] != n || res[1] != st.marks["err"].T) {
				c.Bad("read", rkey, c.P.InstrPos(in), "something else is returned than what was read", s.Path(st))
			}
		},
	})
	c.Run(s, read, func(st *State, params, frees []*Term) {
		init(st, params, frees)
		p, off = params[1], params[2]
	})
	if reads == 0 {
		c.Bad("read", rkey, c.P.Pos(read.Pos()), "the object is never read", nil)
	}
}

// prefixed: t is pre followed by rest.
func prefixed(t, pre, rest *Term) bool {
	return pre != nil && t.op == OpBin && t.aux == "+" && t.args[0] == pre && (t.args[1] == rest || t.args[1].op == OpPhi)
}

// p23trie: putting URLs in the table and finding them.
func (c *Check) p23trie() {
	n := c.named(discRel, "TrieMap")
	node := c.named(discRel, "trieNode")
	if n == nil || node == nil {
		c.Bad("insert", "TrieMap", "", "not found", nil)
		return
	}
	c.p23walk(c.P.Method(n, "Put"), node, "insert")
	c.p23walk(c.P.Method(n, "Get"), node, "search")
}

func (c *Check) p23walk(fn *ssa.Function, node *types.Named, rule string) {
	if fn == nil {
		c.Bad(rule, "TrieMap", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob(rule, key, c.P.Pos(fn.Pos()))
	put := rule == "insert"
	var name, value *Term
	bad := func(s *Sim, st *State, pos, msg string) { c.Bad(rule, key, pos, msg, s.Path(st)) }
	turns, rets := 0, 0
	field := func(s *Sim, st *State, n *Term, f string) *Term {
		v, _ := fieldTerm(s, st, n, node, f)
		return v
	}
	// before: a field as it was at the start of the turn
	before := func(s *Sim, st *State, n *Term, f string) *Term {
		if v := st.marks["was:"+f]; v.T != nil {
			return v.T
		}
		return field(s, st, n, f)
	}
	isDecode := func(t *Term, res string, content, at *Term) bool {
		if t.op != OpExtract || t.aux != res {
			return false
		}
		d := t.args[0]
		if (d.op != OpOpaque && d.op != OpPure) || !strings.HasSuffix(d.aux, "utf8.DecodeRuneInString") {
			return false
		}
		a := d.args[0]
		return a.op == OpSlice && a.args[0] == content && a.args[1] == at
	}
	decodes := func(t, content, at *Term) bool {
		hit := false
		walkTerm(t, func(u *Term) { hit = hit || isDecode(u, "0", content, at) })
		return hit
	}
	runeLen := func(t, r *Term) bool {
		return (t.op == OpOpaque || t.op == OpPure) && strings.HasSuffix(t.aux, "utf8.RuneLen") && t.args[0] == r
	}
	text := func(t, r *Term) bool { return t.op == OpConv && t.args[0] == r && isBasic(types.String)(t.typ) }
	emptyMap := func(t *Term) bool { return t != nil && t.op == OpMake || t != nil && t.op == OpNew }
	// split: the rest of the node's content moved into a node of its own
	split := func(s *Sim, st *State, pos string, n, at *Term, term bool) bool {
		old := before(s, st, n, "content")
		now := field(s, st, n, "content")
		if now == nil || now.op != OpSlice || now.args[0] != old || now.args[2] != at {
			bad(s, st, pos, "a node that is split does not keep the part that was matched")
			return false
		}
		m := field(s, st, n, "children")
		if !emptyMap(m) {
			bad(s, st, pos, "a node that is split keeps its children")
			return false
		}
		ok := false
		for k, mk := range st.marks {
			if !strings.HasPrefix(k, "kid:") || mk.T.args[0] != m {
				continue
			}
			ck, o := mk.T.args[1], mk.T.args[2]
			if o.op != OpAlloc {
				continue
			}
			cont := field(s, st, o, "content")
			if cont == nil || cont.op != OpSlice || cont.args[0] != old || cont.args[1] != at {
				continue
			}
			if !isDecode(ck, "0", old, at) && !(ck.op == OpExtract && ck.aux == "0" && len(ck.args[0].args) > 0 && ck.args[0].args[0] == cont) {
				continue
			}
			if field(s, st, o, "terminal") == before(s, st, n, "terminal") && field(s, st, o, "value") == before(s, st, n, "value") && field(s, st, o, "children") == before(s, st, n, "children") {
				ok = true
			}
		}
		if !ok {
			bad(s, st, pos, "what follows in a node that is split does not become a node of its own")
			return false
		}
		if v := field(s, st, n, "terminal"); !term && s.Eval(st, v) != 0 {
			bad(s, st, pos, "a node that is split stays an end")
			return false
		}
		return true
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: keepFacts(func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			t := cond
			for t.op == OpNot {
				t, taken = t.args[0], !taken
			}
			if t.op == OpExtract && t.args[0].op == OpOpaque && t.args[0].aux == "next" && t.aux == "0" {
				st.marks["more"] = Mark{S: "false"}
				if taken {
					st.marks["more"] = Mark{S: "true"}
				}
			}
		}),
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op != OpFieldAddr || namedOf(addr.args[0].typ) != node || addr.args[0].op == OpAlloc {
				return
			}
			if !put {
				bad(s, st, c.P.InstrPos(in), "searching changes the table")
			}
			if k := "was:" + addr.aux; st.marks[k].T == nil {
				st.marks[k] = Mark{T: s.LoadAddr(st, addr, deref(addr.typ))}
			}
			st.marks["chg"] = Mark{T: addr.args[0]}
		},
		MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
			t := s.T.Pure("kid", nil, m, k, v)
			st.marks["kid:"+t.String()] = Mark{T: t}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			turns++
			pos := c.P.InstrPos(header.Instrs[len(header.Instrs)-1])
			var n0, n1, i0, i1 *Term
			i := 0
			for _, in := range header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := s.loopVals[i]
				i++
				switch {
				case namedOf(ph.Type()) == node:
					n0, n1 = st.marks["start:node"].T, v
				case isInt(ph.Type()):
					i0, i1 = st.marks["start:idx"].T, v
				}
			}
			if n0 == nil || i0 == nil {
				bad(s, st, pos, "the position in the table is not followed")
				return
			}
			var r *Term
			for _, t := range []*Term{n1, i1} {
				if x := nextRune(t, name); x != nil {
					r = x
				}
			}
			for k, m := range st.marks {
				if strings.HasPrefix(k, "br:") {
					if x := nextRune(m.T, name); x != nil {
						r = x
					}
				}
			}
			if r == nil {
				bad(s, st, pos, "a character of the URL is skipped")
				return
			}
			kids := 0
			for k := range st.marks {
				if strings.HasPrefix(k, "kid:") {
					kids++
				}
			}
			content := before(s, st, n0, "content")
			inside := s.Eval(st, s.T.Lt(i0, s.Len(content)))
			d := s.T.Sub(i1, i0)
			switch {
			case n1 == n0 && st.marks["chg"].T == nil && isDecode(d, "1", content, i0):
				cr := s.T.Extract(d.args[0], 0, types.Typ[types.Rune])
				if s.Eval(st, s.T.Eq(r, cr)) != 1 {
					bad(s, st, pos, "goes on although the character is another")
				}
			case n1 == n0 && put && runeLen(d, r):
				if now := field(s, st, n0, "content"); now.op != OpBin || now.args[0] != content || !text(now.args[1], r) {
					bad(s, st, pos, "a node does not grow by the character")
				}
				if inside != 0 || s.Eval(st, before(s, st, n0, "terminal")) != 0 || s.Eval(st, s.T.Lt(s.T.Int(0), s.Len(before(s, st, n0, "children")))) != 0 {
					bad(s, st, pos, "a node grows that ends another URL or has nodes after it")
				}
				if kids > 0 {
					bad(s, st, pos, "a node grows and gets children")
				}
			case runeLen(i1, r):
				m, k := lookupIn(n1)
				if m != nil { // a child that exists
					found := false
					for f, v := range st.facts {
						if v && f.op == OpPure && f.aux == "lookupok" && f.args[0] == m && f.args[1] == r {
							found = true
						}
					}
					if k != r || !found || m != field(s, st, n0, "children") || st.marks["chg"].T != nil || kids > 0 || inside != 0 {
						bad(s, st, pos, "goes on in a node that was not found under the character at the end of this one")
					}
					break
				}
				if !put || n1.op != OpAlloc {
					bad(s, st, pos, "goes on in an unknown node: "+n1.String())
					break
				}
				ch := field(s, st, n0, "children")
				hung := false
				for k, mk := range st.marks {
					if strings.HasPrefix(k, "kid:") && mk.T.args[0] == ch && mk.T.args[1] == r && mk.T.args[2] == n1 {
						hung = true
					}
				}
				if !hung {
					bad(s, st, pos, "a new node is not found under its character")
				}
				if cont := field(s, st, n1, "content"); cont == nil || !text(cont, r) || s.Eval(st, field(s, st, n1, "terminal")) != 0 || !emptyMap(field(s, st, n1, "children")) {
					bad(s, st, pos, "a new node does not hold just its character")
				}
				if st.marks["was:children"].T != nil || st.marks["was:content"].T != nil {
					// split first
					if inside != 1 || kids != 2 {
						bad(s, st, pos, "a node is split that does not continue differently")
					} else {
						split(s, st, pos, n0, i0, false)
					}
				} else {
					absent := false
					for f, v := range st.facts {
						if !v && f.op == OpPure && f.aux == "lookupok" && f.args[0] == ch && f.args[1] == r {
							absent = true
						}
					}
					if inside != 0 || !absent || kids != 1 {
						bad(s, st, pos, "a new node replaces one that exists")
					}
				}
			default:
				bad(s, st, pos, "a character of the URL is not followed in the table: "+i1.String())
			}
			for k := range st.marks {
				if strings.HasPrefix(k, "br:") || strings.HasPrefix(k, "kid:") || strings.HasPrefix(k, "was:") || k == "chg" || strings.HasPrefix(k, "start:") {
					delete(st.marks, k)
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			rets++
			pos := c.P.InstrPos(in)
			end, at := st.marks["start:node"].T, st.marks["start:idx"].T
			if end == nil || at == nil {
				bad(s, st, pos, "the position in the table is not followed")
				return
			}
			all := st.marks["more"].S == "false"
			content := before(s, st, end, "content")
			rest := s.Eval(st, s.T.Lt(at, s.Len(content)))
			if put {
				if !all {
					bad(s, st, pos, "ends before all characters of the URL are followed")
				}
				if st.marks["was:content"].T != nil || st.marks["was:children"].T != nil {
					split(s, st, pos, end, at, true)
				} else if rest != 0 {
					bad(s, st, pos, "ends inside a node that is not split")
				}
				if s.Eval(st, field(s, st, end, "terminal")) != 1 || field(s, st, end, "value") != value {
					bad(s, st, pos, "the URL's value is not kept where it ends")
				}
				return
			}
			for _, v := range []bool{true, false} {
				if e := s.Eval(st, res[1]); e >= 0 && (e == 1) != v {
					continue
				}
				o := st.clone()
				s.Assume(o, res[1], v)
				rest := s.Eval(o, s.T.Lt(at, s.Len(content)))
				term := s.Eval(o, field(s, o, end, "terminal"))
				if v {
					if !all || rest != 0 || term != 1 || res[0] != field(s, o, end, "value") {
						bad(s, st, pos, "a value is found for another URL than the one it was put for")
					}
					continue
				}
				differs := false
				if !all {
					for k, m := range o.marks {
						if !strings.HasPrefix(k, "br:") {
							continue
						}
						f := m.T
						if r := nextRune(f, name); r != nil && s.Eval(o, f) == 0 {
							if rest == 1 && f.op == OpEq0 && decodes(f, content, at) || rest == 0 && f.aux == "lookupok" && f.args[0] == field(s, o, end, "children") && f.args[1] == r {
								differs = true
							}
						}
					}
				}
				if !(all && (rest == 1 || s.Eval(o, s.T.Eq(at, s.Len(content))) == 0 || term == 0)) && !differs {
					bad(s, st, pos, "a URL that was put in the table is not found")
				}
			}
		},
		Instr: func(s *Sim, st *State, in ssa.Instruction) {
			if _, isPhi := in.(*ssa.Phi); !isPhi && len(st.frames) == 1 {
				b := in.Block()
				k := 0
				for k < len(b.Instrs) {
					if _, isPhi := b.Instrs[k].(*ssa.Phi); !isPhi {
						break
					}
					k++
				}
				if k > 0 && b.Instrs[k] == in && isHeader(b) {
					for _, ph := range b.Instrs[:k] {
						switch ph := ph.(*ssa.Phi); {
						case namedOf(ph.Type()) == node:
							st.marks["start:node"] = Mark{T: s.V(st, ph)}
						case isInt(ph.Type()):
							st.marks["start:idx"] = Mark{T: s.V(st, ph)}
						}
					}
				}
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		name = params[1]
		if len(params) > 2 {
			value = params[2]
		}
		for i, p := range params {
			st.marks["p"+string(rune('0'+i))] = Mark{T: p}
		}
	})
	if turns == 0 || rets == 0 {
		c.Bad(rule, key, c.P.Pos(fn.Pos()), "no loop over the characters of the URL", nil)
	}
}

// p23invert: listing the table.
func (c *Check) p23invert() {
	n, node := c.named(discRel, "TrieMap"), c.named(discRel, "trieNode")
	var fn *ssa.Function
	if n != nil && node != nil {
		fn = c.P.Method(n, "Invert")
	}
	if fn == nil {
		c.Bad("invert", "Invert", "", "not found", nil)
		return
	}
	key := c.P.FnName(fn)
	c.Ob("invert", key, c.P.Pos(fn.Pos()))
	bad := func(s *Sim, st *State, pos, msg string) { c.Bad("invert", key, pos, msg, s.Path(st)) }
	var recv *Term
	seen := map[string]bool{}
	// parts of what is queued, by type
	item := func(s *Sim, st *State, e *Term) (nd, par *Term) {
		t := namedOf(e.typ)
		if t == nil {
			return nil, nil
		}
		stt, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			v, _ := fieldTerm(s, st, e, t, f.Name())
			switch {
			case namedOf(f.Type()) == node:
				nd = v
			case isInt(f.Type()):
				par = v
			}
		}
		return nd, par
	}
	field := func(s *Sim, st *State, n *Term, f string) *Term {
		if m := st.marks["f:"+f]; m.T != nil {
			return m.T
		}
		v, _ := fieldTerm(s, st, n, node, f)
		return v
	}
	s := c.Sim(Hooks{
		Inline: pkgInline(c),
		Branch: keepFacts(func(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
			// what is known of the node is kept over the loop over its children
			for _, f := range []string{"terminal", "children"} {
				if m := st.marks["f:"+f]; m.T != nil && madeOf(cond, m.T) {
					k := m.T
					if f == "children" {
						k = s.T.Lt(s.T.Int(0), s.Len(k))
					}
					if v := s.Eval(st, k); v >= 0 {
						st.marks["f:is:"+f] = Mark{S: []string{"no", "yes"}[v]}
					}
				}
			}
		}),
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			pos := c.P.InstrPos(ev.Site)
			switch {
			case base(ev.Name) == "Enqueue":
				nd, par := item(s, st, strip(ev.Args[len(ev.Args)-1]))
				if nd == nil || par == nil {
					bad(s, st, pos, "something else than a node and its prefix is queued")
					return
				}
				cur := st.marks["node"].T
				if cur == nil {
					seen["root"] = true
					if recvField(nd, recv) == "" || par != s.T.Int(0) {
						bad(s, st, pos, "the listing does not start at the root")
					}
					return
				}
				seen["child"] = true
				// an element of the node's children
				ok := false
				walkTerm(nd, func(t *Term) {
					if t.op == OpOpaque && t.aux == "range" && t.args[0] == field(s, st, cur, "children") {
						ok = true
					}
				})
				if !ok {
					bad(s, st, pos, "something else than a child of the node is queued: "+nd.String())
				}
				if br := st.marks["branch"].T; br == nil || par != br && par != st.marks["branch2"].T {
					bad(s, st, pos, "a child does not refer to the entry of its node")
				}
				st.marks["queued"] = Mark{S: st.marks["queued"].S + "x"}
			case ev.Name == "append":
				for _, v := range ev.VArgs[1:] {
					t := namedOf(v.typ)
					if t == nil || t.Obj().Name() != "InvertedTrieNode" {
						continue
					}
					par, cont := s.valField(v, "Parent", types.Typ[types.Int]), s.valField(v, "Content", types.Typ[types.String])
					cur := st.marks["node"].T
					if cur == nil {
						k, isc := cont.StrConst()
						if par != s.T.Int(0) || !isc || k != "" || st.marks["sentinel"].S != "" {
							bad(s, st, pos, "the list does not start with one empty entry that refers to itself")
						}
						st.marks["sentinel"] = Mark{S: "1"}
						continue
					}
					if par != st.marks["par"].T || cont != field(s, st, cur, "content") {
						bad(s, st, pos, "a node's entry is not its content with its own prefix")
					}
					if st.marks["branch"].T != nil {
						bad(s, st, pos, "a node gets more than one entry")
					}
					st.marks["branch"] = Mark{T: s.Len(ev.Args[0])}
				}
			}
		},
		PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
			if ev.Name == "append" && st.marks["branch"].T != nil {
				st.marks["branch2"] = Mark{T: s.T.Sub(s.Len(ev.Result), s.T.Int(1))}
			}
			if base(ev.Name) == "Dequeue" {
				st.marks["item"] = Mark{T: ev.Result}
			}
			return nil
		},
		Load: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) []*State {
			it := st.marks["item"].T
			if it == nil || addr.op != OpFieldAddr || !madeOf(addr, it) {
				return nil
			}
			if namedOf(val.typ) == node && st.marks["node"].T == nil {
				nd, par := item(s, st, addr.args[0])
				st.marks["node"], st.marks["par"] = Mark{T: nd}, Mark{T: par}
				for _, f := range []string{"content", "terminal", "value", "children"} {
					st.marks["f:"+f] = Mark{T: field(s, st, nd, f)}
				}
			}
			return nil
		},
		MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
			cur := st.marks["node"].T
			pos := c.P.InstrPos(in)
			if cur == nil {
				bad(s, st, pos, "a URL's end is listed without a node")
				return
			}
			seen["leaf"] = true
			if st.marks["f:is:terminal"].S != "yes" || k != field(s, st, cur, "value") {
				bad(s, st, pos, "a URL's end is not listed under its value")
			}
			if s.valField(v, "Parent", types.Typ[types.Int]) != st.marks["par"].T || s.valField(v, "Content", types.Typ[types.String]) != field(s, st, cur, "content") {
				bad(s, st, pos, "a URL's end is not its content with its own prefix")
			}
			st.marks["leaf"] = Mark{S: st.marks["leaf"].S + "x"}
		},
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			pos := c.P.InstrPos(header.Instrs[len(header.Instrs)-1])
			cur := st.marks["node"].T
			if cur == nil {
				bad(s, st, pos, "a turn of the listing does not handle a node")
				return
			}
			if !outerLoop(header) {
				if st.marks["queued"].S != "x" {
					bad(s, st, pos, "a child is not queued once")
				}
				delete(st.marks, "queued")
				return
			}
			seen["turn"] = true
			if st.marks["f:is:terminal"].S != "no" && st.marks["leaf"].S != "x" {
				bad(s, st, pos, "the end of a URL is not listed once")
			}
			ranged := false
			for f, v := range st.facts {
				if !v && f.op == OpExtract && f.aux == "0" && f.args[0].aux == "next" {
					ranged = true
				}
			}
			if st.marks["f:is:children"].S != "no" && (st.marks["branch"].T == nil || !ranged) {
				bad(s, st, pos, "the children of a node are not all queued")
			}
			for k := range st.marks {
				if strings.HasPrefix(k, "br:") || strings.HasPrefix(k, "f:") || k == "node" || k == "par" || k == "branch" || k == "branch2" || k == "leaf" || k == "item" || k == "queued" {
					delete(st.marks, k)
				}
			}
		},
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			seen["ret"] = true
			if st.marks["node"].T != nil {
				bad(s, st, c.P.InstrPos(in), "the listing ends before all nodes are handled")
			}
			if st.marks["sentinel"].S == "" {
				bad(s, st, c.P.InstrPos(in), "the list does not start with an empty entry")
			}
		},
	})
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		recv = params[0]
		st.marks["p0"] = Mark{T: recv}
	})
	for _, k := range []string{"root", "child", "leaf", "turn", "ret"} {
		if !seen[k] {
			c.Bad("invert", key, c.P.Pos(fn.Pos()), "not found while listing the table: "+k, nil)
		}
	}
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}
