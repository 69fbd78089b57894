package main

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"context"
	"crypto/sha1"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	blocks "github.com/ipfs/go-block-format"
	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"
)

// --- enc: a value is built in some guise and encoded

type EncCase struct {
	Ty   string `json:"ty"`
	Form string `json:"form"` // type, repr, any; typerepr: the representation of a typed node
	Via  string `json:"via"`  // "", dagjson, dagcbor: through this codec and back; else as disguise has it
	Keys bool   `json:"keys"`
	Val  DM     `json:"val"`
}

type EncRes struct {
	Seen DM     `json:"seen"` // the node that is encoded, as it reads
	V    string `json:"v"`    // refused, ok, err, panic
	Enc  B      `json:"enc"`
	Dec  []*Out `json:"dec"` // the encoding, decoded
	Msg  string `json:"msg"`
	Two  bool   `json:"two"` // encoding it again gives the same
}

func execEnc(c *Case) {
	e := c.E
	r := &EncRes{Seen: dmScalar("absent", nil), Enc: B{}, Dec: []*Out{}, Two: true}
	c.Res = r
	var n datamodel.Node
	var err error
	lvl := e.Form
	if lvl == "typerepr" {
		lvl = "type"
	}
	if p := safe(func() { n, err = e.Val.build(prototype(e.Ty, lvl), e.Keys) }); p != "" {
		r.V, r.Msg = "bpanic", p
		return
	}
	if err != nil {
		r.V, r.Msg = "refused", err.Error()
		return
	}
	if e.Form == "typerepr" {
		if tn, ok := n.(schema.TypedNode); ok {
			n = tn.Representation()
		}
	}
	if e.Via != "" && !strings.HasPrefix(e.Via, "dag") {
		src := n
		if tn, ok := n.(schema.TypedNode); ok {
			src = tn.Representation()
		}
		if p := safe(func() { n, err = disguise(e.Via, e.Ty, toDM(src)) }); p != "" || err != nil {
			r.V, r.Msg = "via", p+fmt.Sprint(err)
			return
		}
	} else if e.Via != "" {
		var buf bytes.Buffer
		nb := basicnode.Prototype.Any.NewBuilder()
		src := n
		if tn, ok := n.(schema.TypedNode); ok {
			src = tn.Representation()
		}
		p := safe(func() {
			switch e.Via {
			case "dagjson":
				if err = dagjson.Encode(src, &buf); err == nil {
					err = dagjson.Decode(nb, &buf)
				}
			case "dagcbor":
				if err = dagcbor.Encode(src, &buf); err == nil {
					err = dagcbor.Decode(nb, &buf)
				}
			}
		})
		if p != "" || err != nil {
			r.V, r.Msg = "via", p+fmt.Sprint(err)
			return
		}
		n = nb.Build()
	}
	r.Seen = toDM(n)
	var buf bytes.Buffer
	if p := safe(func() { err = ipldgit.Encode(n, &buf) }); p != "" {
		r.V, r.Msg = "panic", p
		return
	}
	if err != nil {
		r.V, r.Msg = "err", err.Error()
		if buf.Len() > 0 {
			r.V, r.Msg = "partial", "an error after writing: "+r.Msg
		}
		return
	}
	r.V, r.Enc = "ok", append(B{}, buf.Bytes()...)
	var again bytes.Buffer
	if p := safe(func() { err = ipldgit.Encode(n, &again) }); p != "" || err != nil || !bytes.Equal(again.Bytes(), r.Enc) {
		r.Two = false
	}
	d := &Case{ID: c.ID, K: "dec", Inp: r.Enc, Cut: "eof", Ch: []int{}, Eps: "one"}
	execDec(d)
	r.Dec = d.Outs
}

// --- view: everything a node answers

type ViewCase struct {
	Ty   string `json:"ty"` // or "" to decode the input
	Form string `json:"form"`
	Keys bool   `json:"keys"`
	Val  DM     `json:"val"`
	Ask  []B    `json:"ask"`
}

type ViewRes struct {
	V    string `json:"v"`
	Msg  string `json:"msg"`
	View *View  `json:"view"`
}

func execView(c *Case) {
	w := c.W
	r := &ViewRes{View: &View{Tbl: []DM{}, Nodes: []QNode{}}}
	c.Res = r
	var n datamodel.Node
	var err error
	p := safe(func() {
		if w.Ty == "" {
			n, err = ipldgit.ParseObjectFromBuffer(append([]byte{}, c.Inp...))
		} else {
			n, err = w.Val.build(prototype(w.Ty, w.Form), w.Keys)
		}
	})
	if p != "" {
		r.V, r.Msg = "panic", p
		return
	}
	if err != nil {
		r.V, r.Msg = "rej", err.Error()
		return
	}
	r.V = "ok"
	var ks []string
	for _, k := range w.Ask {
		ks = append(ks, string(k))
	}
	if p := safe(func() { r.View = view(n, ks) }); p != "" {
		r.V, r.Msg = "panic", p
	}
}

// --- zip: a zlib stream, perhaps damaged

type ZipRes struct {
	OK    bool   `json:"ok"` // whether the stream inflates, and to what, by the standard library
	Plain B      `json:"plain"`
	Outs  []*Out `json:"outs"`
}

func execZip(c *Case) {
	r := &ZipRes{Plain: B{}, Outs: []*Out{}}
	c.Res = r
	if z, err := zlib.NewReader(bytes.NewReader(c.Inp)); err == nil {
		b, err := io.ReadAll(z)
		r.OK = err == nil
		if r.OK || c.Cut == "err" {
			r.Plain = b
		}
	}
	s := &Case{ID: c.ID, Inp: r.Plain, Ch: c.Ch, Cut: "eof"}
	z := &Case{ID: c.ID, Inp: c.Inp, Ch: c.Ch, With: c.With, Late: c.Late, Cut: c.Cut}
	s.add(s.runEntry(entry{"ParseCompressedObject", func(*Case) (datamodel.Node, error) { return ipldgit.ParseCompressedObject(z.reader()) }}))
	for _, o := range s.Outs {
		o.IO = o.V == "rej" && (o.IO || z.surfaces(errors.New("")))
	}
	r.Outs = s.Outs
}

// --- wrong: an object is decoded into builders that are not for it

type Wrong struct {
	Who []string `json:"who"`
	Own bool     `json:"own"` // it is an object's builder of the right type after all
	V   string   `json:"v"`
	DM  DM       `json:"dm"`
}

var basics = map[string]datamodel.NodePrototype{"basic.String": basicnode.Prototype.String, "basic.Int": basicnode.Prototype.Int, "basic.Bool": basicnode.Prototype.Bool,
	"basic.Float": basicnode.Prototype.Float, "basic.Bytes": basicnode.Prototype.Bytes, "basic.Link": basicnode.Prototype.Link, "basic.List": basicnode.Prototype.List,
	"basic.Map": basicnode.Prototype.Map, "basic.Any": basicnode.Prototype.Any}

func execWrong(c *Case) {
	var out []*Wrong
	try := func(who string, np datamodel.NodePrototype, own bool) {
		w := &Wrong{Who: []string{who}, Own: own, DM: dmScalar("absent", nil)}
		var n datamodel.Node
		var err error
		if p := safe(func() { n, err = decodeInto(np, ipldgit.Decode, c.reader()) }); p != "" {
			w.V = "panic"
		} else if err != nil {
			w.V = "rej"
		} else {
			w.V, w.DM = "ok", toDM(n)
		}
		for _, o := range out {
			if o.V == w.V && o.Own == w.Own && o.DM.equal(w.DM) {
				o.Who = append(o.Who, who)
				return
			}
		}
		out = append(out, w)
	}
	own := map[string]string{"blob": "Blob", "tree": "Tree", "commit": "Commit", "tag": "Tag"}[typeWord(c.Inp)]
	for _, ty := range typeNames {
		try(ty, typeProtos[ty][0], ty == own)
		try(ty+"/repr", typeProtos[ty][1], ty == own)
	}
	for _, b := range basicNames {
		gen := b == "basic.Any" || (b == "basic.Map" && own != "Blob") || (b == "basic.Bytes" && own == "Blob")
		try(b, basics[b], gen)
	}
	c.Res = out
}

var typeNames = []string{"Blob", "Commit", "Commit_Link", "Commit_Link_List", "GpgSig", "Link", "PersonInfo", "String", "String_List", "Tag", "Tag_List", "Tree", "TreeEntry", "Tree_Link"}
var basicNames = []string{"basic.Any", "basic.Bool", "basic.Bytes", "basic.Float", "basic.Int", "basic.Link", "basic.List", "basic.Map", "basic.String"}

// --- ent: the entries of a tree are decoded one by one

type EntEntry struct {
	Name B    `json:"name"`
	Vals []DM `json:"vals"` // as the node says and as its representation says
}

type EntRes struct {
	V    string     `json:"v"` // what ended it: rej, panic, endless
	IO   bool       `json:"io"`
	Both bool       `json:"both"` // a node beside the error
	Ents []EntEntry `json:"ents"`
}

func execEnt(c *Case) {
	out := []*EntRes{}
	for _, size := range []int{4096, 16} {
		r := &EntRes{Ents: []EntEntry{}, V: "endless"}
		rd := bufio.NewReaderSize(struct{ io.Reader }{c.reader()}, size)
		for i := 0; i <= len(c.Inp); i++ {
			var name string
			var n datamodel.Node
			var err error
			if p := safe(func() { name, n, err = ipldgit.DecodeTreeEntry(rd) }); p != "" {
				r.V = "panic"
				break
			}
			if err != nil {
				r.V, r.IO, r.Both = "rej", c.surfaces(err), n != nil
				break
			}
			e := EntEntry{Name: B(name), Vals: []DM{toDM(n)}}
			if tn, ok := n.(schema.TypedNode); ok {
				e.Vals = append(e.Vals, toDM(tn.Representation()))
			}
			r.Ents = append(r.Ents, e)
		}
		out = append(out, r)
	}
	c.Res = out
}

// --- blk: a block under some CID

type BlkCase struct {
	Cid B `json:"cid"`
}

type BlkRes struct {
	Defined bool   `json:"defined"`
	Outs    []*Out `json:"outs"`
}

func execBlk(c *Case) {
	r := &BlkRes{}
	c.Res = r
	id := cid.Undef
	if len(c.Blk.Cid) > 0 {
		n, x, err := cid.CidFromBytes(c.Blk.Cid)
		if err != nil || n != len(c.Blk.Cid) {
			fatal("not a CID:", c.Blk.Cid)
		}
		id, r.Defined = x, true
	}
	s := &Case{ID: c.ID, Inp: c.Inp}
	s.add(s.runEntry(entry{"DecodeBlock", func(*Case) (datamodel.Node, error) {
		b, err := blocks.NewBlockWithCid(append([]byte{}, c.Inp...), id)
		if err != nil {
			fatal(err)
		}
		return ipldgit.DecodeBlock(b)
	}}))
	r.Outs = s.Outs
}

// --- wr: the writer fails after some bytes

type WrCase struct {
	Ty   string `json:"ty"`
	Form string `json:"form"`
	Val  DM     `json:"val"`
	At   int    `json:"at"`
	How  string `json:"how"` // cut: takes what fits; none: takes nothing of the write that does not fit
}

type WrRes struct {
	V     string `json:"v"`
	IO    bool   `json:"io"`
	Wrote B      `json:"wrote"`
	Calls int    `json:"calls"`
}

type leaky struct {
	left  int
	none  bool
	once  bool // takes everything again after the failure
	got   []byte
	dead  bool
	after bool
	calls int
}

func (w *leaky) Write(p []byte) (int, error) {
	w.calls++
	if w.dead && w.once {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if w.dead && len(p) > 0 {
		w.after = true
		return 0, errInjected
	}
	if len(p) <= w.left {
		w.got = append(w.got, p...)
		w.left -= len(p)
		return len(p), nil
	}
	w.dead = true
	n := w.left
	if w.none {
		n = 0
	}
	w.got = append(w.got, p[:n]...)
	w.left -= n
	return n, errInjected
}

func execWr(c *Case) {
	r := &WrRes{Wrote: B{}}
	c.Res = r
	var n datamodel.Node
	var err error
	if p := safe(func() { n, err = c.Wr.Val.build(prototype(c.Wr.Ty, c.Wr.Form), false) }); p != "" || err != nil {
		r.V = "refused"
		return
	}
	w := &leaky{left: c.Wr.At, none: c.Wr.How != "cut", once: c.Wr.How == "once"}
	if p := safe(func() { err = ipldgit.Encode(n, w) }); p != "" {
		r.V = "panic"
		return
	}
	r.Wrote, r.Calls = append(B{}, w.got...), w.calls
	if err != nil {
		r.V, r.IO = "err", errors.Is(err, errInjected)
		return
	}
	r.V = "ok"
	if w.dead {
		r.V = "silent"
	}
}

// --- mem: how much is allocated for an input with a given header

type MemCase struct {
	Head B      `json:"head"` // what the input starts with
	Pat  B      `json:"pat"`  // then this, repeated
	N    int    `json:"n"`
	Tail B      `json:"tail"`
	Ep   string `json:"ep"`
}

type MemRes struct {
	V     string `json:"v"`
	Bytes int    `json:"bytes"` // delivered
	Alloc int    `json:"alloc"` // allocated, in KiB
}

func execMem(c *Case) {
	in := append([]byte{}, c.Mem.Head...)
	in = append(in, bytes.Repeat(c.Mem.Pat, c.Mem.N)...)
	in = append(in, c.Mem.Tail...)
	r := &MemRes{Bytes: len(in)}
	c.Res = r
	best := int64(-1)
	var z []byte
	if c.Mem.Ep == "Zip" {
		z = compress(in, 0)
	}
	for i := 0; i < 3; i++ {
		var a, b runtime.MemStats
		f := &feed{data: in, end: io.EOF}
		runtime.ReadMemStats(&a)
		var err error
		p := safe(func() {
			switch c.Mem.Ep {
			case "DecodeT":
				_, err = decodeInto((&Case{Inp: in}).proto(0), direct, f)
			case "Decode":
				_, err = decodeInto(basicnode.Prototype.Any, ipldgit.Decode, f)
			case "Buffer":
				_, err = ipldgit.ParseObjectFromBuffer(in)
			case "Zip":
				_, err = ipldgit.ParseCompressedObject(bytes.NewReader(z))
			default:
				_, err = ipldgit.ParseObject(f)
			}
		})
		runtime.ReadMemStats(&b)
		switch {
		case p != "":
			r.V = "panic"
		case err != nil:
			r.V = "rej"
		default:
			r.V = "ok"
		}
		d := int64(b.TotalAlloc - a.TotalAlloc)
		if best < 0 || d < best {
			best = d
		}
		if best < 1<<16 {
			break
		}
	}
	r.Alloc = int((best + 1023) >> 10)
}

// --- asm: a builder is driven call by call

type Cmd struct {
	Op   string `json:"op"`
	Key  B      `json:"key"`
	Val  DM     `json:"val"`
	Form string `json:"form"`
	Ty   string `json:"ty"`
	I    int    `json:"i"`
	N    int    `json:"n"`
}

type AsmCase struct {
	Ty   string `json:"ty"`
	Form string `json:"form"`
	Cmds []Cmd  `json:"cmds"`
}

type Reply struct {
	R  string `json:"r"` // ok, err, panic, skip
	T  []DM   `json:"t"`
	Ms string `json:"ms"`
}

type frameKind int

type asmFrame struct {
	na datamodel.NodeAssembler // a value is wanted here
	ka datamodel.NodeAssembler // a key is wanted here
	ma datamodel.MapAssembler
	la datamodel.ListAssembler
}

func execAsm(c *Case) {
	a := c.Asm
	nb := prototype(a.Ty, a.Form).NewBuilder()
	stack := []asmFrame{{na: nb}}
	var built []datamodel.Node
	var first []DM
	rs := []Reply{}
	for _, cmd := range a.Cmds {
		rp := Reply{T: []DM{}}
		var err error
		top := asmFrame{}
		if len(stack) > 0 {
			top = stack[len(stack)-1]
		}
		pop := func() { stack = stack[:len(stack)-1] }
		skip := false
		p := safe(func() {
			switch cmd.Op {
			case "assign":
				if top.na == nil {
					skip = true
				} else if err = cmd.Val.assign(top.na, false); err == nil {
					pop()
				}
			case "node":
				if top.na == nil {
					skip = true
					return
				}
				var n datamodel.Node
				if cmd.Form == "absent" {
					n = datamodel.Absent
				} else if cmd.Form == "foreign" {
					n = fwrap(cmd.Val)
				} else if n, err = cmd.Val.build(prototype(cmd.Ty, cmd.Form), false); err != nil {
					fatal("cannot make the node to assign:", err)
				}
				if cmd.Form == "repr" {
					n = n.(schema.TypedNode).Representation()
				}
				if err = top.na.AssignNode(n); err == nil {
					pop()
				}
			case "begmap":
				if top.na == nil {
					skip = true
					return
				}
				var ma datamodel.MapAssembler
				if ma, err = top.na.BeginMap(int64(cmd.I)); err == nil {
					pop()
					stack = append(stack, asmFrame{ma: ma})
				}
			case "beglist":
				if top.na == nil {
					skip = true
					return
				}
				var la datamodel.ListAssembler
				if la, err = top.na.BeginList(int64(cmd.I)); err == nil {
					pop()
					stack = append(stack, asmFrame{la: la})
				}
			case "entry":
				if top.ma == nil {
					skip = true
					return
				}
				var va datamodel.NodeAssembler
				if va, err = top.ma.AssembleEntry(string(cmd.Key)); err == nil {
					stack = append(stack, asmFrame{na: va})
				}
			case "key":
				if top.ma == nil {
					skip = true
					return
				}
				stack = append(stack, asmFrame{ka: top.ma.AssembleKey()})
			case "keystr":
				if top.ka == nil {
					skip = true
				} else if err = top.ka.AssignString(string(cmd.Key)); err == nil {
					pop()
				}
			case "keynode":
				if top.ka == nil {
					skip = true
					return
				}
				var n datamodel.Node
				if cmd.Form == "any" {
					n = basicnode.NewString(string(cmd.Key))
				} else if n, err = dmString(string(cmd.Key)).build(prototype("String", cmd.Form), false); err != nil {
					fatal(err)
				}
				if err = top.ka.AssignNode(n); err == nil {
					pop()
				}
			case "keybad":
				if top.ka == nil {
					skip = true
				} else if err = cmd.Val.assign(top.ka, false); err == nil {
					pop()
				}
			case "value":
				switch {
				case top.ma != nil:
					stack = append(stack, asmFrame{na: top.ma.AssembleValue()})
				case top.la != nil:
					stack = append(stack, asmFrame{na: top.la.AssembleValue()})
				default:
					skip = true
				}
			case "finish":
				switch {
				case top.ma != nil:
					err = top.ma.Finish()
				case top.la != nil:
					err = top.la.Finish()
				default:
					skip = true
					return
				}
				if err == nil {
					pop()
				}
			case "build":
				n := nb.Build()
				built = append(built, n)
				d := toDM(n)
				first = append(first, d)
				rp.T = append(rp.T, d)
				if tn, ok := n.(schema.TypedNode); ok {
					rp.T = append(rp.T, toDM(tn.Representation()))
				}
			case "reset":
				nb.Reset()
				stack = []asmFrame{{na: nb}}
			case "recheck":
				// what was built before has to be what it was
				for i, n := range built {
					if !toDM(n).equal(first[i]) {
						err = fmt.Errorf("node %d has changed", i)
					}
				}
			default:
				fatal("unknown command", cmd.Op)
			}
		})
		switch {
		case p != "":
			rp.R, rp.Ms = "panic", p
		case skip:
			rp.R = "skip"
		case err != nil:
			rp.R, rp.Ms = "err", err.Error()
		default:
			rp.R = "ok"
		}
		rs = append(rs, rp)
		if rp.R == "panic" && cmd.Op != "build" {
			break
		}
	}
	c.Res = rs
}

// --- sess: decoding, encoding and assembling share buffers, builders and nodes

type SessCase struct {
	Bufs []B     `json:"bufs"`
	Cmds []Cmd   `json:"cmds"`
	Par  [][]Cmd `json:"par"` // goroutines that run after the commands
}

// Commands; those that give a node add a register:
//
//	dec      I: buffer, Form: entry point
//	scribble I: buffer
//	refill   I: buffer, restored
//	enc      I: register                -> the bytes
//	read     I: register                -> its value
//	part     I: register, Key or N: a field, entry or item
//	build    I: register, Ty: a builder of the type is made and given the register
//	rebuild  I: register: the builder is reset and given the register
//	make     Val: the builder is reset and assembles the value
//	redec    I: buffer: the builder is reset and decodes the buffer
//	graft    I: register, Ty, Key, Val: a new value with a field replaced, and the others shared
type sess struct {
	bufs [][]byte
	orig [][]byte
	regs []datamodel.Node
	nb   datamodel.NodeBuilder
	par  bool // others run at the same time
	seed uint32
}

// slow is a reader and writer that lets others run while it is used.
type slow struct {
	r    io.Reader
	w    io.Writer
	seed uint32
}

func (s *slow) turn() {
	s.seed = s.seed*1664525 + 1013904223
	switch s.seed >> 28 {
	case 0:
		time.Sleep(10 * time.Microsecond)
	case 1, 2, 3, 4, 5, 6:
		runtime.Gosched()
	}
}

func (s *slow) Read(p []byte) (int, error) {
	s.turn()
	if k := 1 + int(s.seed>>16)%150; len(p) > k {
		p = p[:k]
	}
	return s.r.Read(p)
}

func (s *slow) Write(p []byte) (int, error) {
	s.turn()
	n, err := s.w.Write(p)
	s.turn()
	return n, err
}

func (s *sess) reader(r io.Reader) io.Reader {
	if !s.par {
		return r
	}
	s.seed += 77
	return &slow{r: r, seed: s.seed}
}

func (s *sess) writer(w io.Writer) io.Writer {
	if !s.par {
		return w
	}
	s.seed += 77
	return &slow{w: w, seed: s.seed}
}

func (s *sess) run(cmd Cmd) (rp Reply) {
	rp = Reply{T: []DM{}}
	switch cmd.Op { // what makes no sense is left out
	case "enc", "read", "part", "build", "rebuild", "graft":
		if cmd.I >= len(s.regs) {
			rp.R = "skip"
			return
		}
	}
	switch cmd.Op {
	case "rebuild", "make", "redec":
		if s.nb == nil {
			rp.R = "skip"
			return
		}
	}
	var err error
	p := safe(func() {
		switch cmd.Op {
		case "dec":
			var n datamodel.Node
			b := s.bufs[cmd.I]
			switch cmd.Form {
			case "buffer":
				n, err = ipldgit.ParseObjectFromBuffer(b)
			case "reader":
				n, err = ipldgit.ParseObject(s.reader(bytes.NewReader(b)))
			case "any":
				n, err = decodeInto(basicnode.Prototype.Any, ipldgit.Decode, s.reader(bytes.NewBuffer(b)))
			case "bufio":
				n, err = decodeInto((&Case{Inp: b}).proto(1), ipldgit.Decode, bufio.NewReaderSize(s.reader(bytes.NewReader(b)), 16))
			case "zip":
				z := compress(b, 6)
				n, err = ipldgit.ParseCompressedObject(s.reader(bytes.NewReader(z)))
				for i := range z {
					z[i] = 0xee
				}
			case "block":
				var bl blocks.Block
				bl, err = blocks.NewBlockWithCid(b, hashCid(make([]byte, 20)))
				if err == nil {
					n, err = ipldgit.DecodeBlock(bl)
				}
			default:
				fatal("unknown entry", cmd.Form)
			}
			if err == nil {
				s.regs = append(s.regs, n)
				rp.T = append(rp.T, toDM(n))
			}
		case "scribble":
			for i := range s.bufs[cmd.I] {
				s.bufs[cmd.I][i] = byte('A' + i%23)
			}
		case "refill":
			copy(s.bufs[cmd.I], s.orig[cmd.I])
		case "enc":
			var buf bytes.Buffer
			if err = ipldgit.Encode(s.regs[cmd.I], s.writer(&buf)); err == nil {
				rp.T = append(rp.T, dmScalar("bytes", buf.Bytes()))
			}
		case "read":
			rp.T = append(rp.T, toDM(s.regs[cmd.I]))
		case "part":
			var v datamodel.Node
			if n := s.regs[cmd.I]; n.Kind() == datamodel.Kind_List {
				v, err = n.LookupByIndex(int64(cmd.N))
			} else {
				v, err = n.LookupByString(string(cmd.Key))
			}
			if err == nil {
				s.regs = append(s.regs, v)
				rp.T = append(rp.T, toDM(v))
			}
		case "build": // a builder is made, given a register, and built
			lvl := cmd.Form
			if lvl == "" {
				lvl = "type"
			}
			s.nb = prototype(cmd.Ty, lvl).NewBuilder()
			if err = s.nb.AssignNode(s.regs[cmd.I]); err == nil {
				s.regs = append(s.regs, s.nb.Build())
				rp.T = append(rp.T, toDM(s.regs[len(s.regs)-1]))
			}
		case "rebuild": // the builder is used again
			s.nb.Reset()
			if err = s.nb.AssignNode(s.regs[cmd.I]); err == nil {
				s.regs = append(s.regs, s.nb.Build())
				rp.T = append(rp.T, toDM(s.regs[len(s.regs)-1]))
			}
		case "make": // a value is assembled by the builder in use
			s.nb.Reset()
			if err = cmd.Val.assign(s.nb, cmd.Form == "keys"); err == nil {
				s.regs = append(s.regs, s.nb.Build())
				rp.T = append(rp.T, toDM(s.regs[len(s.regs)-1]))
			}
		case "redec": // the builder in use decodes a buffer
			s.nb.Reset()
			if err = ipldgit.Decode(s.nb, bytes.NewReader(s.bufs[cmd.I])); err == nil {
				s.regs = append(s.regs, s.nb.Build())
				rp.T = append(rp.T, toDM(s.regs[len(s.regs)-1]))
			}
		case "graft": // a new commit with a field of register I replaced by that of another
			n := s.regs[cmd.I]
			nb := prototype(cmd.Ty, "type").NewBuilder()
			var ma datamodel.MapAssembler
			if ma, err = nb.BeginMap(-1); err != nil {
				return
			}
			for it := n.MapIterator(); !it.Done(); {
				k, v, e := it.Next()
				if e != nil {
					err = e
					return
				}
				if v.IsAbsent() {
					continue
				}
				ks, _ := k.AsString()
				var va datamodel.NodeAssembler
				if va, err = ma.AssembleEntry(ks); err != nil {
					return
				}
				if ks == string(cmd.Key) {
					err = cmd.Val.assign(va, false)
				} else {
					err = va.AssignNode(v)
				}
				if err != nil {
					return
				}
			}
			if err = ma.Finish(); err != nil {
				return
			}
			s.regs = append(s.regs, nb.Build())
			rp.T = append(rp.T, toDM(s.regs[len(s.regs)-1]))
		default:
			fatal("unknown command", cmd.Op)
		}
	})
	switch {
	case p != "":
		rp.R, rp.Ms = "panic", p
	case err != nil:
		rp.R, rp.Ms = "err", err.Error()
	default:
		rp.R = "ok"
	}
	return rp
}

type SessRes struct {
	Seq []Reply   `json:"seq"`
	Par [][]Reply `json:"par"`
	End []DM      `json:"end"` // all registers, read at the end
}

const rounds = 10

func execSess(c *Case) {
	s := &sess{}
	for _, b := range c.Sess.Bufs {
		s.bufs = append(s.bufs, append([]byte{}, b...))
		s.orig = append(s.orig, b)
	}
	r := &SessRes{Seq: []Reply{}, Par: [][]Reply{}, End: []DM{}}
	c.Res = r
	for _, cmd := range c.Sess.Cmds {
		r.Seq = append(r.Seq, s.run(cmd))
	}
	if len(r.Seq) == len(c.Sess.Cmds) && len(c.Sess.Par) > 0 {
		var wg sync.WaitGroup
		start := make(chan struct{})
		r.Par = make([][]Reply, len(c.Sess.Par))
		for i, cmds := range c.Sess.Par {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				// Several times; recorded is the first that differs from the one before
				var last string
				for k := 0; k < rounds; k++ {
					own := &sess{bufs: s.bufs, orig: s.orig, regs: s.regs[:len(s.regs):len(s.regs)], par: true, seed: uint32(i*1000003 + k)}
					rs := []Reply{}
					for _, cmd := range cmds {
						rs = append(rs, own.run(cmd))
					}
					now := string(mustJSON(rs))
					if k > 0 && now == last {
						continue
					}
					last, r.Par[i] = now, rs
					if k > 0 {
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	for _, n := range s.regs {
		r.End = append(r.End, toDM(n))
	}
}

// --- store: a link system

type StoreCase struct {
	Cmds []Cmd `json:"cmds"`
}

// Commands:
//
//	put  Ty, Form, Val    links of the value <<0, i>> stand for the i-th link stored
//	get  I: link, Form: any, type
//	walk I: link, Keys: path
type StoreRep struct {
	R    string `json:"r"`
	Ms   string `json:"ms"`
	Ty   string `json:"ty"`
	Val  DM     `json:"val"` // put: the value stored, with its links
	Lnk  B      `json:"lnk"`
	Raw  B      `json:"raw"`
	Sum  B      `json:"sum"` // the SHA-1 of Raw, by the standard library
	Got  []DM   `json:"got"`
	Seen []B    `json:"seen"` // walk: the links followed
}

func resolve(d DM, links []datamodel.Link) DM {
	if d.K == "link" && len(d.S) == 2 && d.S[0] == 0 {
		return dmLink(linkBytes(links[d.S[1]]))
	}
	out := DM{K: d.K, S: append(B{}, d.S...), Ks: append([]B{}, d.Ks...), Vs: []DM{}}
	for _, v := range d.Vs {
		out.Vs = append(out.Vs, resolve(v, links))
	}
	return out
}

func execStore(c *Case) {
	mem := map[string][]byte{}
	ls := cidlink.DefaultLinkSystem()
	ls.StorageWriteOpener = func(linking.LinkContext) (io.Writer, linking.BlockWriteCommitter, error) {
		var buf bytes.Buffer
		return &buf, func(l datamodel.Link) error { mem[l.Binary()] = append([]byte{}, buf.Bytes()...); return nil }, nil
	}
	ls.StorageReadOpener = func(_ linking.LinkContext, l datamodel.Link) (io.Reader, error) {
		b, ok := mem[l.Binary()]
		if !ok {
			return nil, errors.New("no such block")
		}
		return bytes.NewReader(b), nil
	}
	lp := cidlink.LinkPrototype{Prefix: cid.Prefix{Version: 1, Codec: cid.GitRaw, MhType: 0x11, MhLength: 20}}
	var links []datamodel.Link
	out := []StoreRep{}
	for _, cmd := range c.Store.Cmds {
		rp := StoreRep{Ty: cmd.Ty, Val: dmScalar("absent", nil), Lnk: B{}, Raw: B{}, Sum: B{}, Got: []DM{}, Seen: []B{}}
		var err error
		p := safe(func() {
			ctx := linking.LinkContext{Ctx: context.Background()}
			switch cmd.Op {
			case "put":
				rp.Val = resolve(cmd.Val, links)
				var n datamodel.Node
				lvl := cmd.Form
				if lvl == "typerepr" {
					lvl = "type"
				}
				if n, err = rp.Val.build(prototype(cmd.Ty, lvl), false); err != nil {
					return
				}
				if cmd.Form == "typerepr" {
					n = n.(schema.TypedNode).Representation()
				}
				var l datamodel.Link
				if l, err = ls.Store(ctx, lp, n); err != nil {
					return
				}
				links = append(links, l)
				rp.Lnk, rp.Raw = linkBytes(l), append(B{}, mem[l.Binary()]...)
				sum := sha1.Sum(rp.Raw)
				rp.Sum = sum[:]
				l2, e := ls.ComputeLink(lp, n)
				if e != nil || l2 != l {
					err = fmt.Errorf("ComputeLink gives %v %v", l2, e)
				}
			case "get":
				np := datamodel.NodePrototype(basicnode.Prototype.Any)
				if cmd.Form != "any" {
					np = prototype(cmd.Ty, cmd.Form)
				}
				var n datamodel.Node
				if n, err = ls.Load(ctx, links[cmd.I], np); err != nil {
					return
				}
				rp.Got = append(rp.Got, toDM(n))
			case "walk":
				var n datamodel.Node
				if n, err = ls.Load(ctx, links[cmd.I], basicnode.Prototype.Any); err != nil {
					return
				}
				var segs []datamodel.PathSegment
				for _, k := range cmd.Val.Ks {
					segs = append(segs, datamodel.PathSegmentOfString(string(k)))
				}
				seen := []B{}
				ls2 := ls
				ls2.StorageReadOpener = func(lc linking.LinkContext, l datamodel.Link) (io.Reader, error) {
					seen = append(seen, linkBytes(l))
					return ls.StorageReadOpener(lc, l)
				}
				prog := traversal.Progress{Cfg: &traversal.Config{Ctx: context.Background(), LinkSystem: ls2,
					LinkTargetNodePrototypeChooser: func(l datamodel.Link, lc linking.LinkContext) (datamodel.NodePrototype, error) {
						if cmd.Form == "typed" {
							if tn, ok := lc.LinkNode.(schema.TypedLinkNode); ok {
								return tn.LinkTargetNodePrototype(), nil
							}
						}
						return basicnode.Prototype.Any, nil
					}}}
				var got datamodel.Node
				if got, err = prog.Get(n, datamodel.NewPath(segs)); err != nil {
					return
				}
				rp.Got, rp.Seen = append(rp.Got, toDM(got)), seen
			default:
				fatal("unknown command", cmd.Op)
			}
		})
		switch {
		case p != "":
			rp.R, rp.Ms = "panic", p
		case err != nil:
			rp.R, rp.Ms = "err", err.Error()
		default:
			rp.R = "ok"
		}
		out = append(out, rp)
		if cmd.Op == "put" && rp.R != "ok" {
			break
		}
	}
	c.Res = out
}
