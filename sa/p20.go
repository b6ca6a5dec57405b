package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"

	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P20"] = checkP20 }

// item: one field of a structure as the standard prescribes it.
//
//	c   the bytes s                    z   n zero bytes            sp   n spaces
//	A,D a/d-characters v padded to n   by  byte v                  len  the structure's own length
//	ln  length of string v             st  string v                pad0/pad1  zero byte if len(v) is even/odd
//	b16,b32 both byte orders           le32,be32,ord16,ord32       E,X  short/long date v    M  unspecified date
//	fl  flag byte (bits)               ts  date v if present       subs entries of list v
type item struct {
	k    string
	v    string
	n    int
	s    string
	bits []flagBit
}

type flagBit struct {
	v   string
	bit int64
}

type structSpec struct {
	rel, typ string
	ctor     string // constructor naming the unexported fields
	items    []item
	ditems   []item // as read, if different
	skip     int    // bytes the caller of the decoder has consumed
}

func cst(s string) item           { return item{k: "c", s: s, n: len(s)} }
func fld(k, v string) item        { return item{k: k, v: v} }
func wid(k, v string, n int) item { return item{k: k, v: v, n: n} }

var recordItems = []item{
	{k: "len"}, fld("by", "ExtendedAttrRecordLength"), fld("b32", "Start"), fld("b32", "Length"), fld("E", "Recorded"), fld("by", "Flags"),
	fld("by", "FileUnitSize"), fld("by", "InterleaveGap"), fld("b16", "VolumeID"), fld("ln", "Identifier"), fld("st", "Identifier"),
	fld("pad0", "Identifier"), fld("subs", "SystemUse"),
}

var tfBits = []flagBit{{"Created", 1}, {"Modified", 2}, {"Access", 4}, {"Attributes", 8}, {"Backup", 0x10}, {"Expiration", 0x20}, {"Effective", 0x40}}

var pvdHead = []item{
	cst("\x01CD001\x01\x00"), wid("A", "SystemIdentifier", 32), wid("D", "VolumeIdentifier", 32), wid("z", "", 8),
	fld("b32", "VolumeSpaceSize"), wid("z", "", 32), fld("b16", "VolumeSetSize"), fld("b16", "VolumeSequenceNumber"),
	cst("\x00\x08\x08\x00"), // 2048 in both byte orders
	fld("b32", "PathTableSize"), fld("le32", "LTableStart"), fld("le32", "OptionalLTableStart"), fld("be32", "MTableStart"), fld("be32", "OptionalMTableStart"),
}

// directory record of the root
var pvdRoot = []item{
	{k: "len", n: 34}, cst("\x00"), fld("b32", "RootStart"), fld("b32", "RootLength"), fld("E", "RootModified"), cst("\x02\x00\x00\x01\x00\x00\x01\x01\x00"),
}

var pvdTail = []item{
	wid("D", "VolumeSetIdentifier", 128), wid("A", "PublisherIdentifier", 128), wid("A", "DataPreparerIdentifier", 128), wid("A", "ApplicationIdentifier", 128),
	wid("D", "CopyrightFileIdentifier", 38), wid("D", "AbstractFileIdentifier", 36), wid("D", "BibliographicFileIdentifier", 37),
	fld("X", "Created"), fld("X", "Modified"), {k: "M"}, fld("X", "Effective"), cst("\x01\x00"), wid("sp", "", 512), wid("z", "", 653),
}

var structSpecs = []structSpec{
	{rel: isoRel, typ: "PrimaryVolumeDescriptor", items: append(append(append([]item{}, pvdHead...), pvdRoot...), pvdTail...),
		ditems: append(append(append([]item{}, pvdHead...), item{k: "len", n: 34}, item{k: "rec"}), pvdTail...)},
	{rel: isoRel, typ: "Terminator", items: []item{cst("\xffCD001\x01"), wid("z", "", 2041)}},
	{rel: isoRel, typ: "DirectoryRecord", items: recordItems, skip: 1},
	{rel: isoRel + "/susp", typ: "SharingProtocolEntry", ctor: "NewSharingProtocolEntry", skip: 3, items: []item{cst("SP"), {k: "len"}, cst("\x01\xbe\xef"), fld("by", "p0")}},
	{rel: isoRel + "/susp", typ: "TerminatorEntry", ctor: "NewTerminatorEntry", skip: 3, items: []item{cst("ST"), {k: "len"}, cst("\x01")}},
	{rel: isoRel + "/susp", typ: "ContinuationAreaEntry", ctor: "NewContinuationAreaEntry", skip: 3, items: []item{cst("CE"), {k: "len"}, cst("\x01"),
		fld("b32", "p0"), fld("b32", "p1"), fld("b32", "p2")}},
	{rel: isoRel + "/susp", typ: "ExtensionsReferenceEntry", ctor: "NewExtensionsReferenceEntry", skip: 3, items: []item{cst("ER"), {k: "len"}, cst("\x01"),
		fld("ln", "p1"), fld("ln", "p2"), fld("ln", "p3"), fld("by", "p0"), fld("st", "p1"), fld("st", "p2"), fld("st", "p3")}},
	{rel: isoRel + "/rrip", typ: "Name", ctor: "NewNamePart", skip: 3, items: []item{cst("NM"), {k: "len"}, cst("\x01"), {k: "fl", bits: []flagBit{{"p1", 1}}}, fld("st", "p0")}},
	{rel: isoRel + "/rrip", typ: "PosixEntry", skip: 3, items: []item{cst("PX"), {k: "len"}, cst("\x01"),
		fld("b32", "Mode"), fld("b32", "Nlink"), fld("b32", "Uid"), fld("b32", "Gid"), fld("b32", "Ino")}},
	{rel: isoRel + "/rrip", typ: "Symlink", ctor: "NewSymlinkPart", skip: 3, items: []item{cst("SL"), {k: "len"}, cst("\x01"), {k: "fl", bits: []flagBit{{"p2", 1}}},
		fld("by", "p0"), fld("ln", "p1"), fld("st", "p1")}},
	{rel: isoRel + "/rrip", typ: "Timestamps", skip: 3, items: []item{cst("TF"), {k: "len"}, cst("\x01"), {k: "fl", bits: append(append([]flagBit{}, tfBits...), flagBit{"LongForm", 0x80})},
		fld("ts", "Created"), fld("ts", "Modified"), fld("ts", "Access"), fld("ts", "Attributes"), fld("ts", "Backup"), fld("ts", "Expiration"), fld("ts", "Effective")}},
}

var pathRecordItems = []item{fld("ln", "Identifier"), fld("by", "ExtendedAttributeRecordLength"), fld("ord32", "Location"), fld("ord16", "ParentIndex"),
	fld("st", "Identifier"), fld("pad1", "Identifier")}

func checkP20(c *Check) {
	c.Rule("encoder", "the fields written on every successful path are those of the standard, in order, with their widths, byte orders and values", 11)
	c.Rule("decoder", "fields are read in the same order, widths and byte orders, and each ends up in the field it was written from", 10)
	c.Rule("accessor", "accessors return the value the constructor was given", 7)
	c.Rule("dispatch", "an entry signature selects the decoder of that entry, limited to the entry's announced length", 8)
	c.Rule("date", "date fields hold the components of the UTC time at the standard's positions, and are read from there", 4)
	c.Rule("text", "character fields are filled to exactly their width", 2)
	c.Rule("pathtable", "path table records are written one per directory and number the directories from one", 2)
	c.Rule("fixed", "the system area, the descriptors and the two path tables are written in the order their blocks are allotted, each table in its byte order and from the final addresses", 1)
	c.Rule("forward", "a writer put in front of another passes on exactly the bytes it is given, once", 1)
	for i := range structSpecs {
		c.p20struct(&structSpecs[i])
	}
	c.p20forward()
	c.p20pathTable()
	c.p20tables()
	c.p20decoders()
	c.p20dates()
	c.p20text()
}

// ctorMap: unexported fields of the structure by the constructor parameter they take their value from.
func (c *Check) ctorMap(sp *structSpec) map[string]string {
	m := map[string]string{}
	if sp.ctor == "" {
		return m
	}
	fn := c.P.Lookup(sp.rel, sp.ctor)
	named := c.named(sp.rel, sp.typ)
	if fn == nil || named == nil {
		c.Bad("encoder", sp.typ, "", "constructor "+sp.ctor+" not found", nil)
		return m
	}
	var leaf func(s *Sim, st *State, a *Term, t types.Type, path string, ps []*Term)
	leaf = func(s *Sim, st *State, a *Term, t types.Type, path string, ps []*Term) {
		if stt, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i)
				p := f.Name()
				if path != "" {
					p = path + "." + p
				}
				leaf(s, st, s.T.FieldAddr(a, i, f.Name(), types.NewPointer(f.Type())), f.Type(), p, ps)
			}
			return
		}
		v := s.LoadAddr(st, a, t)
		for i, p := range ps {
			if p == v {
				m[path] = fmt.Sprintf("p%d", i)
			}
		}
	}
	var ps []*Term
	s := c.Sim(Hooks{Inline: pkgInline(c), Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
		r := res[0]
		for r.op == OpMkIface {
			r = r.args[0]
		}
		if s.succeeds(st, in, res) && s.Eval(st, s.T.IsNil(r)) == 0 && namedOf(deref(r.typ)) == named {
			leaf(s, st, r, named, "", ps)
		}
	}})
	c.Run(s, fn, func(st *State, params, frees []*Term) { ps = params })
	if len(m) != len(fn.Params) {
		c.Bad("encoder", sp.typ+" constructor", c.P.Pos(fn.Pos()), fmt.Sprintf("%s does not keep each of its arguments in a field (%v)", sp.ctor, m), nil)
	}
	return m
}

func (c *Check) p20struct(sp *structSpec) {
	named := c.named(sp.rel, sp.typ)
	if named == nil {
		c.Bad("encoder", sp.typ, "", "type not found", nil)
		return
	}
	fn := c.P.Method(named, "WriteTo")
	if fn == nil {
		c.Bad("encoder", sp.typ, "", "no WriteTo", nil)
		return
	}
	ctor := c.ctorMap(sp)
	key := sp.typ
	c.Ob("encoder", key, c.P.Pos(fn.Pos()))
	l := &lay{c: c, rule: "encoder", key: key, pos: c.P.Pos(fn.Pos()), ctor: ctor}
	n := 0
	h := l.writeHooks(Hooks{
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) { l.nextElem(s, st, header) },
		Branch:   l.listEnd,
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			n++
			l.pos = c.P.Pos(fn.Pos())
			if os.Getenv("SA_DUMP") != "" {
				for _, e := range canonSeq(s, seqOf(s, st)) {
					fmt.Fprintln(os.Stderr, sp.typ, e.show(l))
				}
			}
			if msg := l.match(s, st, sp.items, seqOf(s, st)); msg != "" {
				l.fail(s, st, msg)
			}
			if mk := st.marks["elem"]; mk.S != "" && st.marks["end"].S == "" {
				l.fail(s, st, "may return before all entries of the list are written")
			}
		},
	})
	s := l.sim(h)
	c.Run(s, fn, func(st *State, params, frees []*Term) {
		l.recv = params[0]
		st.marks["obj"] = Mark{T: params[0]}
	})
	if n == 0 {
		l.fail(s, &State{}, "no successful path found")
	}
	c.p20accessors(sp, named, ctor)
}

// nextElem: each turn of a loop over a list handles exactly one element, the next one.
func (l *lay) nextElem(s *Sim, st *State, header *ssa.BasicBlock) {
	mk := st.marks["elem"]
	if mk.S == "" {
		return
	}
	if mk.S != "x" {
		l.fail(s, st, "writes more than one element of the list in one turn of the loop")
	}
	idx := mk.T
	ok := false
	i := 0
	for _, in := range header.Instrs {
		ph, isPhi := in.(*ssa.Phi)
		if !isPhi {
			break
		}
		if isInt(ph.Type()) {
			if _, isc := s.T.Sub(s.loopVals[i], idx).IntConst(); isc && stepsByOne(ph) {
				ok = true
			}
		}
		i++
	}
	if !ok {
		l.fail(s, st, "the loop does not go through the list one by one")
	}
	if k, isc := idx.IntConst(); isc && k != 0 {
		l.fail(s, st, fmt.Sprintf("starts at element %d of the list", k))
	}
	delete(st.marks, "elem")
	st.marks["seen"] = Mark{S: "1"}
}

// listEnd: the loop test against the list's length fails.
func (l *lay) listEnd(s *Sim, st *State, in *ssa.If, cond *Term, taken bool) {
	t := cond
	for t.op == OpNot {
		t = t.args[0]
		taken = !taken
	}
	if t.op != OpLt0 {
		return
	}
	ms, _ := s.T.toPoly(t.args[0])
	for _, m := range ms {
		if len(m.a) == 1 && m.a[0].op == OpLen {
			if (m.c < 0) == taken { // index below the length
				delete(st.marks, "end")
			} else {
				st.marks["end"] = Mark{S: "1"}
			}
		}
	}
}

// match compares a sequence of writes with the prescribed fields; "" if equal.
func (l *lay) match(s *Sim, st *State, items []item, seq []fieldEv) string {
	// constants byte by byte
	var evs []fieldEv
	for _, e := range canonSeq(s, seq) {
		if e.kind == "const" {
			for i := 0; i < len(e.b); i++ {
				evs = append(evs, fieldEv{kind: "const", b: e.b[i : i+1]})
			}
			continue
		}
		evs = append(evs, e)
	}
	pos := 0
	off := 0
	peek := func() *fieldEv {
		if pos < len(evs) {
			return &evs[pos]
		}
		return nil
	}
	got := func() string {
		e := peek()
		if e == nil {
			return "the end"
		}
		return e.show(l)
	}
	eat := func(kind, desc string) string {
		e := peek()
		if e == nil || e.kind != kind || l.desc(e.val) != desc {
			return fmt.Sprintf("expected %s of %s, found %s", kind, desc, got())
		}
		pos++
		return ""
	}
	for _, it := range items {
		msg := ""
		bytes := ""
		switch it.k {
		case "c":
			bytes = it.s
		case "z":
			bytes = strings.Repeat("\x00", it.n)
		case "sp":
			bytes = strings.Repeat(" ", it.n)
		case "A", "D":
			msg = eat("str", fmt.Sprintf("Str%s(%s,%d)", it.k, it.v, it.n))
		case "by":
			msg = eat("byte", it.v)
		case "ln":
			msg = eat("byte", "len("+it.v+")")
		case "st":
			msg = eat("str", it.v)
		case "b16", "b32":
			w := it.k[1:]
			if msg = eat("le"+w, it.v); msg == "" {
				msg = eat("be"+w, it.v)
			}
		case "le16", "le32", "be16", "be32", "ord16", "ord32":
			msg = eat(it.k, it.v)
		case "E":
			msg = eat("arr", "NewEntryDateTime("+it.v+")")
		case "X":
			msg = eat("arr", "NewDecDateTime("+it.v+")")
		case "M":
			msg = eat("arr", "global MaxDecDateTime")
		case "len":
			e := peek()
			if e == nil || e.kind != "byte" && e.kind != "const" {
				msg = "expected the length, found " + got()
			} else {
				if e.kind == "const" && it.n > 0 && int(e.b[0]) != it.n {
					msg = "expected the length " + fmt.Sprint(it.n) + ", found " + got()
				}
				pos++
			}
		case "pad0", "pad1":
			w := l.strLen(s, seq, it.v)
			if w == nil {
				msg = "no string " + it.v + " written"
				break
			}
			rem := s.T.Sub(w, s.T.Mul(s.T.Int(2), s.T.Quo(w, s.T.Int(2), w.typ)))
			want := s.Eval(st, s.T.Eq(rem, s.T.Int(int64(it.k[3]-'0'))))
			e := peek()
			has := e != nil && e.kind == "const" && e.b == "\x00"
			if k, ok := w.IntConst(); ok {
				want = b2i(k%2 == int64(it.k[3]-'0'))
			}
			if want < 0 {
				msg = "whether the name is padded does not depend on its length being odd or even"
			} else if want == 1 && !has {
				msg = "no padding byte after the name, found " + got()
			} else if want == 0 && has {
				msg = "a padding byte follows although the length is already aligned"
			}
			if want == 1 {
				pos++
			}
		case "fl":
			e := peek()
			if e == nil || e.kind != "const" {
				msg = "expected the flags, found " + got()
				break
			}
			want := int64(0)
			for _, b := range it.bits {
				v := l.present(s, st, b.v)
				if v < 0 {
					msg = "the flags do not depend on " + b.v
				} else if v == 1 {
					want |= b.bit
				}
			}
			if msg == "" && e.b[0] != byte(want) {
				msg = fmt.Sprintf("expected flags %#x, found %#x", want, e.b[0])
			}
			pos++
		case "ts":
			v := l.present(s, st, it.v)
			if v < 0 {
				msg = it.v + " is written whether present or not"
			} else if v == 1 {
				f := "NewEntryDateTime"
				lf := l.present(s, st, "LongForm")
				if lf == 1 {
					f = "NewDecDateTime"
				} else if lf < 0 {
					msg = "the form of the dates does not depend on LongForm"
				}
				if msg == "" {
					msg = eat("arr", f+"(*"+it.v+")")
				}
			}
		case "subs":
			if e := peek(); e != nil && e.kind == "sub" {
				if b := st.marks["elembase"].T; b != nil && l.desc(b) != it.v {
					msg = "the entries written are not those of " + it.v + " but of " + l.desc(b)
				}
				pos++
			}
		}
		for i := 0; i < len(bytes) && msg == ""; i++ {
			e := peek()
			if e == nil || e.kind != "const" || e.b != bytes[i:i+1] {
				msg = fmt.Sprintf("expected byte %#x, found %s", bytes[i], got())
			}
			pos++
		}
		if msg != "" {
			return fmt.Sprintf("field %d (%s %s): %s", off, it.k, it.v, msg)
		}
		off++
	}
	if pos != len(evs) {
		return "more is written than the structure holds: " + got()
	}
	return ""
}

// strLen: width term of a string field written on this path.
func (l *lay) strLen(s *Sim, seq []fieldEv, v string) *Term {
	for _, e := range seq {
		if e.kind == "str" && l.desc(e.val) == v {
			return s.Len(e.val)
		}
		if e.kind == "byte" && l.desc(e.val) == "len("+v+")" {
			return e.val
		}
	}
	return nil
}

// present: is the optional field set on this path (a pointer not nil, a flag true)?
func (l *lay) present(s *Sim, st *State, v string) int {
	named := namedOf(deref(l.recv.typ))
	path := v
	for f, p := range l.ctor {
		if p == v {
			path = f
		}
	}
	a := l.recv
	var t types.Type = named
	for _, n := range strings.Split(path, ".") {
		stt, ok := t.Underlying().(*types.Struct)
		if !ok {
			return -1
		}
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == n {
				t = stt.Field(i).Type()
				a = s.T.FieldAddr(a, i, n, types.NewPointer(t))
			}
		}
	}
	val := s.LoadAddr(st, a, t)
	if isBool(t) {
		return s.Eval(st, val)
	}
	r := s.Eval(st, s.T.IsNil(val))
	if r < 0 {
		return r
	}
	return 1 - r
}

func (c *Check) p20accessors(sp *structSpec, named *types.Named, ctor map[string]string) {
	for _, a := range []struct{ typ, method, want string }{
		{"ContinuationAreaEntry", "ContinuationStart", "p0"}, {"ContinuationAreaEntry", "ContinuationOffset", "p1"}, {"ContinuationAreaEntry", "ContinuationLength", "p2"},
		{"Name", "Data", "p0"}, {"Name", "Continue", "p1"}, {"Symlink", "Continue", "p2"}, {"Symlink", "Component", "comp"},
	} {
		if a.typ != sp.typ {
			continue
		}
		fn := c.P.Method(named, a.method)
		key := a.typ + "." + a.method
		if fn == nil {
			c.Bad("accessor", key, "", "accessor not found", nil)
			continue
		}
		c.Ob("accessor", key, c.P.Pos(fn.Pos()))
		l := &lay{c: c, ctor: ctor}
		s := c.Sim(Hooks{Inline: pkgInline(c), Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if a.want == "comp" {
				if _, ok := res[0].typ.Underlying().(*types.Struct); ok && res[0].op == OpLoad && l.path(res[0].args[0]) != "" {
					return
				}
			} else if l.desc(res[0]) == a.want {
				return
			}
			c.Bad("accessor", key, c.P.InstrPos(in), "returns "+l.desc(res[0])+" instead of what the constructor was given", s.Path(st))
		}})
		c.Run(s, fn, func(st *State, params, frees []*Term) { l.recv = params[0] })
	}
}

// p20pathTable: PathTableEncoder.Encode.
func (c *Check) p20pathTable() { c.pathTableRecords("pathtable") }

func (c *Check) pathTableRecords(rule string) {
	named := c.named(isoRel, "PathTableEncoder")
	var fn *ssa.Function
	if named != nil {
		fn = c.P.Method(named, "Encode")
	}
	if fn == nil {
		c.Bad(rule, "Encode", "", "encoder not found", nil)
		return
	}
	key := "Encode"
	c.Ob(rule, key, c.P.Pos(fn.Pos()))
	l := &lay{c: c, rule: rule, key: key, pos: c.P.Pos(fn.Pos())}
	turns := 0
	h := l.writeHooks(Hooks{
		BackEdge: func(s *Sim, st *State, header *ssa.BasicBlock, inLoop func(*Term) bool) {
			if seqLen(st) == 0 && st.marks["seen"].S == "" {
				return
			}
			turns++
			seq := seqOf(s, st)
			var elem *Term
			for _, e := range seq {
				if e.val == nil {
					continue
				}
				walkTerm(e.val, func(t *Term) {
					if t.op == OpIndexAddr {
						if elem != nil && elem != t {
							l.fail(s, st, "fields of different records are mixed")
						}
						elem = t
					}
				})
			}
			if elem == nil {
				l.fail(s, st, "no record is written in a turn of the loop")
				return
			}
			l.recv = elem
			if msg := l.match(s, st, pathRecordItems, seq); msg != "" {
				l.fail(s, st, msg)
			}
			l.recv = nil
			if f := loadedField(elem.args[0]); f != "Records" {
				l.fail(s, st, "the records written are not those of the table")
			}
			st.marks["elem"] = Mark{S: "x", T: elem.args[1]}
			l.nextElem(s, st, header)
			clearSeq(st)
			delete(st.marks, "end")
		},
		Branch: l.listEnd,
		Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if !s.succeeds(st, in, res) {
				return
			}
			if seqLen(st) > 0 {
				l.fail(s, st, "writes outside the loop over the records")
			}
			if st.marks["end"].S == "" {
				l.fail(s, st, "may return before all records are written")
			}
		},
	})
	s := l.sim(h)
	c.Run(s, fn, nil)
	if turns == 0 {
		l.fail(s, &State{}, "no loop over the records found")
	}
	if rule != "pathtable" {
		return
	}
	// the byte order is the one asked for
	ctor := c.P.Lookup(isoRel, "NewPathTableEncoder")
	if ctor == nil {
		c.Bad("pathtable", key, "", "NewPathTableEncoder not found", nil)
	} else {
		var par *Term
		cs := c.Sim(Hooks{Inline: pkgInline(c), Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			stt := named.Underlying().(*types.Struct)
			ok := false
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i)
				if s.LoadAddr(st, s.T.FieldAddr(res[0], i, f.Name(), types.NewPointer(f.Type())), f.Type()) == par {
					ok = true
				}
			}
			if !ok {
				c.Bad("pathtable", "byte order", c.P.InstrPos(in), "the encoder does not use the byte order it was made with", s.Path(st))
			}
		}})
		c.Run(cs, ctor, func(st *State, params, frees []*Term) { par = params[0] })
	}
	c.p20numbers()
}

func loadedField(t *Term) string {
	if t.op == OpLoad && t.args[0].op == OpFieldAddr {
		return t.args[0].aux
	}
	if t.op == OpField {
		return t.aux
	}
	return ""
}

func walkTerm(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, a := range m {
				rec(a)
			}
		}
	}
	rec(t)
}

// p20numbers: ToPathTable numbers the directories from one in visiting order and refers to the parent's number.
func (c *Check) p20numbers() {
	named := c.named(isoRel, "DirectoryInode")
	var fn *ssa.Function
	if named != nil {
		fn = c.P.Method(named, "ToPathTable")
	}
	key := "ToPathTable"
	if fn == nil {
		c.Bad("pathtable", key, "", "not found", nil)
		return
	}
	c.Ob("pathtable", key, c.P.Pos(fn.Pos()))
	recT := c.named(isoRel, "PathTableRecord")
	seen := 0
	bad := func(s *Sim, st *State, in ssa.Instruction, msg string) {
		c.Bad("pathtable", key, c.P.InstrPos(in), msg, s.Path(st))
	}
	relField := func(t *Term) string { // Child, Parent, Identifier of the relationship visited
		for t.op == OpMkIface || t.op == OpAssert || t.op == OpConv {
			t = t.args[0]
		}
		if t.op == OpExtract && len(t.args) > 0 {
			t = t.args[0]
		}
		if t.op == OpField {
			return t.aux
		}
		return loadedField(t)
	}
	s := c.Sim(Hooks{
		Inline: func(s *Sim, st *State, ev *CallEv) bool {
			n := base(ev.Name)
			return c.P.Rel(ev.Callee) == isoRel && n != "VisitDirectories" && n != "Start" && !c.P.callsBack(ev.Callee)
		},
		Closure: func(s *Sim, st *State, ev *CallEv) bool { return true },
		MapWrite: func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
			if relField(k) != "Child" {
				bad(s, st, in, "a number is given to something else than the visited directory: "+k.String())
			}
			st.marks["numbered"] = Mark{S: st.marks["numbered"].S + "x", T: v}
			ms, plus := s.T.toPoly(v)
			if len(ms) == 1 && ms[0].c == 1 && len(ms[0].a) == 1 && ms[0].a[0].op == OpLoad {
				counter := ms[0].a[0]
				first, err := strconv.ParseInt(st.marks[fmt.Sprintf("init:%d", counter.args[0].id)].S, 10, 64)
				if err != nil || first+plus != 1 {
					bad(s, st, in, "the first directory does not get number one")
				}
				st.marks["counter"] = Mark{T: counter}
			} else {
				bad(s, st, in, "the number given is not counted: "+v.String())
			}
		},
		Store: func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if k, ok := val.IntConst(); ok && addr.op == OpAlloc && len(st.frames) == 1 && isInt(deref(addr.typ)) {
				st.marks[fmt.Sprintf("init:%d", addr.id)] = Mark{S: fmt.Sprint(k), T: addr}
			}
		},
		PreCall: func(s *Sim, st *State, ev *CallEv) {
			if ev.Name != "append" || len(ev.VArgs) < 2 && len(ev.Args) < 2 {
				return
			}
			for _, v := range ev.VArgs[1:] {
				if namedOf(v.typ) != recT {
					continue
				}
				seen++
				st.marks["rec"] = Mark{S: st.marks["rec"].S + "x"}
				id, par, loc := s.valField(v, "Identifier", types.Typ[types.String]), s.valField(v, "ParentIndex", types.Typ[types.Uint16]), s.valField(v, "Location", types.Typ[types.Uint32])
				if relField(id) != "Identifier" {
					bad(s, st, ev.Site, "the record's name is not the visited directory's")
				}
				pv := par
				for pv.op == OpExtract {
					pv = pv.args[0]
				}
				if pv.op == OpPure && strings.HasPrefix(pv.aux, "lookup") {
					if relField(pv.args[1]) != "Parent" {
						bad(s, st, ev.Site, "the parent number is looked up under "+pv.args[1].String()+" instead of the parent")
					}
					// the visited directory is numbered before its parent is looked up (the root is its own parent)
					if len(pv.args) > 2 && st.marks["numbered"].S == "" {
						bad(s, st, ev.Site, "the parent is looked up before the visited directory has its number")
					}
				} else {
					bad(s, st, ev.Site, "the parent number does not come from the numbers handed out: "+par.String())
				}
				okLoc := false
				walkTerm(loc, func(t *Term) {
					if (t.op == OpOpaque || t.op == OpPure) && base(t.aux) == "Start" && len(t.args) > 0 && relField(t.args[0]) == "Child" {
						okLoc = true
					}
				})
				if !okLoc {
					bad(s, st, ev.Site, "the record's location is not where the visited directory starts")
				}
			}
		},
		RetAny: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
			if st.top().kind == kCB {
				step := int64(0)
				if k := st.marks["counter"].T; k != nil {
					step, _ = s.T.Sub(s.LoadAddr(st, k.args[0], k.typ), k).IntConst()
				}
				if st.marks["numbered"].S != "x" || step != 1 || st.marks["rec"].S != "x" {
					if len(res) == 1 && s.Eval(st, s.T.IsNil(res[0])) != 0 {
						bad(s, st, in, "a visited directory does not get exactly one number and one record")
					}
				}
			}
		},
	})
	c.Run(s, fn, nil)
	if seen == 0 {
		c.Bad("pathtable", key, c.P.Pos(fn.Pos()), "no path table record is built", nil)
	}
}

// callsBack: takes a function.
func (p *Prog) callsBack(fn *ssa.Function) bool {
	for _, q := range fn.Params {
		if isFuncType(q.Type()) {
			return true
		}
	}
	return false
}

func (c *Check) p20specOf(n *types.Named) *structSpec {
	for i := range structSpecs {
		sp := &structSpecs[i]
		if c.named(sp.rel, sp.typ) == n {
			return sp
		}
	}
	return nil
}

func (c *Check) named(rel, name string) *types.Named { return namedOf(c.P.TypeOf(rel, name)) }

// stepsByOne: the loop variable goes up by one in every turn.
func stepsByOne(ph *ssa.Phi) bool {
	for _, e := range ph.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op.String() == "+" && b.X == ph {
			k, ok := b.Y.(*ssa.Const)
			return ok && k.Int64() == 1
		}
	}
	return false
}

func (l *lay) sim(h Hooks) *Sim {
	s := l.c.Sim(h)
	s.Depth = 12
	return s
}

// p20forward: writers that wrap a writer.
func (c *Check) p20forward() {
	for _, fn := range c.P.Funcs {
		if !strings.HasPrefix(c.P.Rel(fn), isoRel) || !isWriteMethod(fn) || !c.P.IsTop(fn) {
			continue
		}
		key := c.P.FnName(fn)
		c.Ob("forward", key, c.P.Pos(fn.Pos()))
		var par *Term
		s := c.Sim(Hooks{
			Inline: pkgInline(c),
			PreCall: func(s *Sim, st *State, ev *CallEv) {
				if base(ev.Name) == "Write" && len(ev.Args) == 2 {
					if ev.Args[1] != par {
						c.Bad("forward", key, c.P.InstrPos(ev.Site), "passes on something else than it was given: "+ev.Args[1].String(), s.Path(st))
					}
					st.marks["fwd"] = Mark{S: st.marks["fwd"].S + "x"}
				}
			},
			PostCall: func(s *Sim, st *State, ev *CallEv) []*State {
				if base(ev.Name) == "Write" && len(ev.Args) == 2 {
					st.marks["fwd"] = Mark{S: st.marks["fwd"].S, T: ev.Result}
				}
				return nil
			},
			Return: func(s *Sim, st *State, in *ssa.Return, res []*Term) {
				mk := st.marks["fwd"]
				if mk.S != "x" {
					c.Bad("forward", key, c.P.InstrPos(in), fmt.Sprintf("passes on the bytes %d times", len(mk.S)), s.Path(st))
					return
				}
				if res[0] != s.T.Extract(mk.T, 0, types.Typ[types.Int]) || res[1].op != OpExtract || res[1].args[0] != mk.T {
					c.Bad("forward", key, c.P.InstrPos(in), "does not return what the writer behind it returned", s.Path(st))
				}
			},
		})
		c.Run(s, fn, func(st *State, params, frees []*Term) { par = params[1] })
	}
}
