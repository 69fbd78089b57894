package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/ipld/go-ipld-prime/datamodel"

	ipldgit "github.com/ipfs/go-ipld-git"
)

// --- big: objects of some size, stated as a head, a part that is repeated and
// a tail. The specification judges small instances of the same shape.

type BigCase struct {
	Ty   string `json:"ty"`
	Head B      `json:"head"`
	Pat  B      `json:"pat"`
	Ctr  int    `json:"ctr"` // where in pat the eight digits of a counter go, from 1; 0: nowhere
	N    int    `json:"n"`
	Tail B      `json:"tail"`
	Cutn int    `json:"cutn"` // bytes missing at the end
	Step int    `json:"step"` // bytes per read; 0: any
	Ep   string `json:"ep"`
}

type BigRes struct {
	V    string `json:"v"`
	Same bool   `json:"same"` // its encoding is the input
	Meas int    `json:"meas"` // how much the node holds
	Msg  string `json:"msg"`
}

func (c *BigCase) bytes() []byte {
	var b bytes.Buffer
	n := len(c.Head) + len(c.Tail) + c.N*len(c.Pat)
	b.Grow(n + 40)
	fmt.Fprintf(&b, "%s %d\x00", c.Ty, n)
	b.Write(c.Head)
	p := append([]byte(nil), c.Pat...)
	for i := 0; i < c.N; i++ {
		if c.Ctr > 0 {
			copy(p[c.Ctr-1:], fmt.Sprintf("%08d", i))
		}
		b.Write(p)
	}
	b.Write(c.Tail)
	return b.Bytes()
}

type steps struct {
	r io.Reader
	n int
}

func (s *steps) Read(p []byte) (int, error) {
	if s.n > 0 && len(p) > s.n {
		p = p[:s.n]
	}
	return s.r.Read(p)
}

func execBig(c *Case) {
	r := &BigRes{}
	c.Res = r
	in := c.Big.bytes()
	in = in[:max(0, len(in)-c.Big.Cutn)]
	var n datamodel.Node
	var err error
	rd := func(b []byte) io.Reader { return &steps{bytes.NewReader(b), c.Big.Step} }
	p := safe(func() {
		switch c.Big.Ep {
		case "DecodeT":
			n, err = decodeInto((&Case{Inp: in}).proto(0), direct, rd(in))
		case "Decode":
			n, err = decodeInto((&Case{Inp: in}).proto(1), ipldgit.Decode, rd(in))
		case "Buffer":
			n, err = ipldgit.ParseObjectFromBuffer(in)
		case "Zip":
			n, err = ipldgit.ParseCompressedObject(rd(compress(in, 0)))
		default:
			n, err = ipldgit.ParseObject(rd(in))
		}
	})
	switch {
	case p != "":
		r.V, r.Msg = "panic", p
		return
	case err != nil:
		r.V, r.Msg = "rej", err.Error()
		return
	}
	r.V = "ok"
	var buf bytes.Buffer
	if p := safe(func() { err = ipldgit.Encode(n, &buf) }); p != "" || err != nil {
		r.V = "notencoded"
		return
	}
	r.Same = bytes.Equal(in, buf.Bytes())
	if p := safe(func() { r.Meas = measure(n) }); p != "" {
		r.V, r.Msg = "panic", p
	}
}

// measure adds up the lengths of the texts and lists in a node, without those
// of persons and links.
func measure(n datamodel.Node) int {
	m := 0
	list := func(l datamodel.Node, f func(datamodel.Node)) {
		for it := l.ListIterator(); !it.Done(); {
			_, x, err := it.Next()
			if err != nil {
				panic(err)
			}
			m++
			f(x)
		}
	}
	text := func(x datamodel.Node) {
		s, err := x.AsString()
		if err != nil {
			panic(err)
		}
		m += len(s)
	}
	switch n.Kind() {
	case datamodel.Kind_Bytes:
		b, err := n.AsBytes()
		if err != nil {
			panic(err)
		}
		return len(b) - bytes.IndexByte(b, 0) - 1
	case datamodel.Kind_Map:
	default:
		panic("kind " + n.Kind().String())
	}
	at := func(n datamodel.Node, k string) datamodel.Node {
		x, err := n.LookupByString(k)
		if err != nil || x.IsAbsent() {
			return nil
		}
		return x
	}
	switch n.Prototype() {
	case ipldgit.Type.Tree, ipldgit.Type.Tree__Repr:
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			if err != nil {
				panic(err)
			}
			m++
			text(k)
			text(at(v, "mode"))
		}
	case ipldgit.Type.Tag, ipldgit.Type.Tag__Repr:
		text(at(n, "type"))
		text(at(n, "tag"))
		text(at(n, "message"))
	default:
		list(at(n, "parents"), func(datamodel.Node) {})
		list(at(n, "other"), text)
		list(at(n, "mergetag"), func(x datamodel.Node) { text(at(x, "type")); text(at(x, "tag")); text(at(x, "message")) })
		for _, k := range []string{"message", "encoding", "signature"} {
			if x := at(n, k); x != nil {
				text(x)
			}
		}
	}
	return m
}

var large = []int{1 << 16, 1<<16 + 1, 100000, 1 << 17, 1 << 18, 1<<18 - 1, 500000, 1 << 19, 1000000, 1 << 20, 1<<20 + 1, 1<<20 - 1, 1 << 21, 1<<21 + 7, 3000000}

// big makes a large object of a type ("": of any).
func (g *Gen) big(ty string, cut bool) {
	h := "0123456789abcdef0123456789abcdef01234567"
	who := "A U Thor <a@b> 1 +0000"
	tree := "tree " + h + "\n"
	ca := "author " + who + "\ncommitter " + who + "\n"
	tag := "object " + h + "\ntype commit\ntag v\n"
	mt := "mergetag object " + h + "\n type commit\n tag v\n \n"
	sig := "gpgsig -----BEGIN PGP SIGNATURE-----\n \n"
	end := " -----END PGP SIGNATURE-----\n"
	type shape struct {
		ty, head, pat string
		ctr           int
		tail          string
	}
	shapes := []shape{
		{"blob", "", "x", 0, ""},
		{"blob", "a\x00\n", "\x00", 0, "\n"},
		{"blob", "", "line\r\n", 0, "no line feed"},
		{"tree", "", "100644 00000000\x00abcdefghijklmnopqrst", 8, ""},
		{"tree", "40000 ", "00000000 \n", 1, "\x00abcdefghijklmnopqrst"},
		{"tree", "", "1 b00000000\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", 4, "100644 a\x00abcdefghijklmnopqrst"},
		{"commit", tree, "parent " + h + "\n", 0, ca + "\nm"},
		{"commit", tree + ca + "\n", "a line of text\n", 0, "end"},
		{"commit", tree + ca + "\n", "x", 0, ""},
		{"commit", tree + ca, "x 00000000\n", 3, "\nm"},
		{"commit", tree + ca + "x y\n", " z\n", 0, "\nm\n"},
		{"commit", tree + ca + "x", " y", 0, "\n\nm\n"},
		{"commit", tree + ca + "encoding ", "e", 0, "\n\nm\n"},
		{"embed", tree + ca + sig, " abcdefgh\n", 0, end + "\nm\n"},
		{"embed", tree + ca + sig + " ", "0", 0, "\n" + end + "\nm\n"},
		{"embed", tree + ca, mt + " m\n", 0, "\nm\n"},
		{"embed", tree + ca, mt, 0, sig + end + "\nm\n"},
		{"embed", tree + ca + mt, " text\n", 0, sig + end + "\nm\n"},
		{"embed", tree + ca + mt + " ", "t ", 0, "\n" + mt + " m\n\nm\n"},
		{"tag", tag + "tagger " + who + "\n\n", "text\n", 0, "\n"},
		{"tag", tag + "\n", "\n", 0, "x"},
		{"tag", "object " + h + "\ntype commit\ntag ", "v", 0, "\n\nm\n"},
	}
	var fit []shape
	for _, s := range shapes {
		if ty == "" || s.ty == ty {
			fit = append(fit, s)
		}
	}
	s := fit[g.Intn(len(fit))]
	size := 0
	switch {
	case len(g.fresh.Ints) > 0 && g.p(0.4):
		size = g.fresh.Ints[g.Intn(len(g.fresh.Ints))]
		if size >= 8 && size <= 22 && g.p(0.7) {
			size = 1 << size
		}
		size += g.Intn(600) - 100
	case g.p(0.15):
		size = 1<<22 + g.Intn(1<<20)
	case g.p(0.5):
		size = large[g.Intn(len(large))]
	default:
		size = sizes[g.Intn(len(sizes))] * (1 + g.Intn(64))
	}
	size = min(max(size, 0), 6000000)
	n := size
	if !(s.ctr > 0 || len(s.pat) > 1) || g.p(0.6) { // of so many bytes, or so many parts
		n = size / len(s.pat)
	}
	n = max(1, min(n, 6000000/len(s.pat)))
	c := &BigCase{Ty: s.ty, Head: B(s.head), Pat: B(s.pat), Ctr: s.ctr, N: n, Tail: B(s.tail),
		Step: []int{0, 0, 0, 1000, 4096, 37, 65536}[g.Intn(7)], Ep: g.pick("Parse", "Buffer", "Decode", "DecodeT", "Zip")}
	if c.Ty == "embed" {
		c.Ty = "commit"
	}
	if cut {
		total := len(c.Head) + len(c.Tail) + n*len(c.Pat)
		c.Cutn = 1 + min(g.size0(), total-1)
		if g.p(0.3) {
			c.Cutn = 1 + g.Intn(total)
		}
	}
	g.out(&Case{K: "big", Src: "large " + s.ty, Big: c})
}
