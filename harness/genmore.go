package main

import (
	"bytes"
	"errors"
	"strconv"
	"strings"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
)

func castCid(b []byte) (cid.Cid, error) {
	n, c, err := cid.CidFromBytes(b)
	if err == nil && n != len(b) {
		err = errors.New("more bytes")
	}
	return c, err
}

func (g *Gen) out(c *Case) {
	g.id++
	c.ID = g.id
	if c.Ch == nil {
		c.Ch = []int{}
	}
	if c.Cut == "" {
		c.Cut = "eof"
	}
	if c.Eps == "" {
		c.Eps = "all"
	}
	if c.Inp == nil {
		c.Inp = B{}
	}
	c.Outs = []*Out{}
	g.emit(c)
}

func (g *Gen) enc(src, ty, form, via string, keys bool, v DM) {
	if hasAbsent(v) && form == "any" {
		return // a generic node cannot hold it
	}
	g.out(&Case{K: "enc", Src: src, E: &EncCase{Ty: ty, Form: form, Via: via, Keys: keys, Val: v}})
}

func generateMore(g *Gen, n int) {
	objs := func() string { return g.pick("Blob", "Tree", "Commit", "Commit", "Tag", "Tag") }
	for g.id < n {
		switch g.suite {
		case "enc":
			ty := objs()
			v := g.val(ty, vopt{raw: []float64{0, 0, 0.1}[g.Intn(3)]})
			g.enc("built", ty, g.pick("type", "repr", "typerepr"), "", g.p(0.5), g.shuffled(ty, v))
		case "elink":
			ty := g.pick("Tree", "Commit", "Tag")
			v := g.val(ty, vopt{foreign: []float64{0, 0.05, 0.4, 1}[g.Intn(4)]})
			g.enc("links", ty, g.pick("type", "repr", "typerepr", "any"), "", g.p(0.5), v)
		case "guise":
			ty := objs()
			v := g.val(ty, vopt{raw: []float64{0, 0, 0.05}[g.Intn(3)]})
			src := "guise"
			if g.p(0.25) {
				v, src = g.spoil(v), "spoiled"
			}
			for _, f := range []string{"type", "repr", "typerepr", "any"} {
				g.enc(src, ty, f, "", g.p(0.3), g.shuffled(ty, v))
			}
			g.enc(src, ty, g.pick("type", "any"), g.pick("foreign", "optional", "bind", "bindrepr", "mixed"), false, g.shuffled(ty, v))
			if src == "guise" {
				g.enc(src, ty, "type", g.pick("dagjson", "dagcbor"), false, v)
			} else if !hasAbsent(v) {
				g.enc(src, ty, "any", g.pick("dagjson", "dagcbor"), false, v)
			}
		case "odd":
			ty := g.anyType()
			var v DM
			switch g.Intn(4) {
			case 0:
				v = g.anyVal(3)
			case 1:
				v = g.val(ty, vopt{raw: 0.3, foreign: 0.1})
			default:
				v = g.spoil(g.val(ty, vopt{raw: 0.1, foreign: 0.02}))
				if g.p(0.3) {
					v = g.spoil(v)
				}
			}
			g.enc("odd", ty, g.pick("type", "repr", "typerepr", "any", "any"), "", g.p(0.3), v)
		case "view":
			w := &ViewCase{Form: g.pick("type", "repr"), Keys: g.p(0.3), Ask: []B{B(g.pick("tree", "author", "1", "a", "object", "mode", "-1", "00")), B(g.field()), B(g.field())}, Val: dmScalar("absent", nil)}
			c := &Case{K: "view", Src: "built", W: w}
			if g.p(0.4) {
				c.Src, c.Inp = "decoded", g.smallObject()
			} else {
				w.Ty = g.pick("Blob", "Tree", "Tree", "Commit", "Commit", "Tag", g.anyType())
				g.small = true
				w.Val = g.val(w.Ty, vopt{raw: 0.2, foreign: 0.1})
				if g.p(0.02) {
					w.Val = g.spoil(w.Val)
				}
				if w.Keys && w.Val.K == "map" && !distinct(w.Val.Ks) {
					w.Keys = false
				}
				g.small = false
			}
			g.out(c)
		case "zip":
			b := g.object()
			if g.p(0.1) {
				b = g.damage(b)
			}
			z := append(B{}, compress(b, g.Intn(10))...)
			c := &Case{K: "zip", Src: "intact"}
			switch g.Intn(8) {
			case 0, 1:
				z, c.Src = z[:g.Intn(len(z))], "cut"
			case 2: // the checksum at the end
				z[len(z)-1-g.Intn(4)] ^= 1 << g.Intn(8)
				c.Src = "checksum"
			case 3:
				z, c.Src = z[:len(z)-1-g.Intn(4)], "checksum cut"
			case 4:
				z[g.Intn(len(z))] ^= 1 << g.Intn(8)
				c.Src = "bit"
			case 5:
				i := g.Intn(len(z))
				z, c.Src = append(z[:i:i], z[i+1:]...), "byte lost"
			case 6:
				if g.p(0.2) {
					z, c.Src = []byte(g.raw()), "no stream"
					if g.p(0.5) {
						z = b
					}
				}
			}
			c.Inp = z
			if g.p(0.3) {
				c.Ch, c.With = g.chunks(len(z)), g.p(0.5)
			}
			if c.Src == "cut" && g.p(0.5) {
				c.Cut, c.Src = "err", "fault"
				if g.p(0.3) {
					c.Late = compress(b, 6)
					c.Late = c.Late[min(len(z), len(c.Late)):]
				}
			}
			g.out(c)
		case "wrong":
			b := g.smallObject()
			if g.p(0.15) {
				b = g.damage(b)
			}
			g.out(&Case{K: "wrong", Inp: b})
		case "ent":
			t := g.tree()
			b := t[bytes.IndexByte(t, 0)+1:]
			switch g.Intn(6) {
			case 0:
				b = b[:g.Intn(len(b)+1)]
			case 1:
				b = g.damage(b)
			case 2:
				t = g.tree()
				b = append(b[:len(b):len(b)], t[bytes.IndexByte(t, 0)+1:]...) // names may recur
			}
			c := &Case{K: "ent", Inp: b}
			if g.p(0.3) {
				c.Ch, c.With = g.chunks(len(b)), g.p(0.5)
			}
			if g.p(0.25) {
				c.Cut = "err"
				if k := g.Intn(len(b) + 1); g.p(0.7) {
					if g.p(0.4) {
						c.Late = b[k:]
					}
					c.Inp = b[:k]
				}
			}
			g.out(c)
		case "blk":
			b := g.object()
			if g.p(0.2) {
				b = g.damage(b)
			}
			cid := cidBytes(1, 0x78, 0x11, g.hash())
			if g.p(0.7) {
				for {
					cid = g.foreign()
					if _, err := castCid(cid); err == nil && len(cid) > 0 {
						break
					}
				}
			}
			g.out(&Case{K: "blk", Inp: b, Blk: &BlkCase{Cid: cid}})
		case "stream":
			b := g.object()
			if g.p(0.2) {
				b = g.damage(b)
			}
			c := &Case{K: "dec", Src: "stream", Inp: b, Ch: g.chunks(len(b)), With: g.p(0.5)}
			if g.p(0.6) {
				c.Cut, c.Src = "err", "fault"
				if g.p(0.85) {
					c.Inp = b[:g.Intn(len(b)+1)]
					if g.p(0.4) {
						c.Late = b[len(c.Inp):]
					}
				}
			}
			g.out(c)
		case "wr":
			ty := objs()
			v := g.val(ty, vopt{})
			n := 60
			if b := v.encodedLen(ty); b >= 0 {
				n = b
			}
			w := &WrCase{Ty: ty, Form: g.pick("type", "repr"), Val: v, How: g.pick("cut", "none", "once")}
			switch g.Intn(6) {
			case 0:
				w.At = max(0, n-1-g.Intn(3))
			case 1:
				w.At = n + g.Intn(2)
			case 2:
				w.At = min(n, g.Intn(12))
			default:
				w.At = g.Intn(n + 1)
			}
			g.out(&Case{K: "wr", Wr: w})
		case "mem":
			g.mem()
		case "big":
			g.big("", false)
		case "bigblob", "bigtree", "bigcommit", "bigembed", "bigtag":
			g.big(g.suite[3:], false)
		case "bigcut":
			g.big("", true)
		case "store":
			g.store()
		case "sess":
			g.session()
		case "asm", "again":
			g.asm()
		default:
			fatal("unknown suite", g.suite)
		}
	}
}

func distinct(ks []B) bool {
	seen := map[string]bool{}
	for _, k := range ks {
		if seen[string(k)] {
			return false
		}
		seen[string(k)] = true
	}
	return true
}

// smallObject is an object of less than some 1000 bytes.
func (g *Gen) smallObject() []byte {
	g.small = true
	defer func() { g.small = false }()
	for {
		if b := g.object(); len(b) < 1000 {
			return b
		}
	}
}

// encodedLen is the length of what the value encodes to, or -1.
func (d DM) encodedLen(ty string) (n int) {
	n = -1
	safe(func() {
		nd, err := d.build(prototype(ty, "type"), false)
		if err != nil {
			return
		}
		if e := encode(nd); e.V == "ok" {
			n = len(e.Enc)
		}
	})
	return n
}

// mem: headers that promise much, followed by little; and objects made of many
// small or few large parts.
func (g *Gen) mem() {
	claims := []string{"0", "1", "100", "4096", "65536", "1000000", "9999999", "10000000", "16777216", "20000000", "33554432", "50000000", "100000000", "134217728", "268435456", "500000000",
		"1000000000", "2147483647", "2147483648", "4294967296", "8589934592", "1099511627776", "9223372036854775807"}
	m := &MemCase{Ep: g.pick("DecodeT", "Decode", "Buffer", "Parse", "Zip"), Pat: B{}, Tail: B{}}
	src := "claim"
	switch g.Intn(3) {
	case 0, 1:
		claim := claims[g.Intn(len(claims))]
		if len(g.fresh.Ints) > 0 && g.p(0.3) {
			claim = strconv.Itoa(max(0, g.fresh.Ints[g.Intn(len(g.fresh.Ints))]+g.Intn(3)-1))
		}
		ty := g.pick("blob", "tree", "commit", "tag", "blob")
		m.Head = append(B(ty+" "+claim), 0)
		switch ty {
		case "blob":
			m.Pat = B("x")
		case "tree":
			m.Head = append(m.Head, "100644 a\x00aaaaaaaaaaaaaaaaaaaa"...)
		case "commit":
			m.Head = append(m.Head, "tree 0123456789abcdef0123456789abcdef01234567\n"...)
			m.Pat = B("parent 0123456789abcdef0123456789abcdef01234567\n")
		case "tag":
			m.Head = append(m.Head, "object 0123456789abcdef0123456789abcdef01234567\ntype commit\ntag v\n\n"...)
			m.Pat = B("line\n")
		}
		m.N = []int{0, 0, 1, 3, 100, 5000, 60000}[g.Intn(7)]
	default:
		src = "large"
		n := 1 << (8 + g.Intn(9))
		body := ""
		var ty, head, pat, tail string
		switch g.Intn(11) {
		case 0:
			ty, pat = "blob", "\x00"
		case 1:
			ty, head, pat = "tree", "100644 ", "n"
			tail = "\x00aaaaaaaaaaaaaaaaaaaa"
		case 2:
			ty, head, pat = "commit", "tree 0123456789abcdef0123456789abcdef01234567\n", "parent 0123456789abcdef0123456789abcdef01234567\n"
			tail = "\nm"
		case 3:
			ty, head, pat = "commit", "tree 0123456789abcdef0123456789abcdef01234567\n", "x y\n"
			tail = "\nm"
		case 4:
			ty, head, pat = "commit", "tree 0123456789abcdef0123456789abcdef01234567\nauthor ", "w "
			tail = "<e> 1 +0\n\nm"
		case 5:
			ty, head, pat = "commit", "tree 0123456789abcdef0123456789abcdef01234567\n", "mergetag object 0123456789abcdef0123456789abcdef01234567\n type commit\n tag v\n \n msg\n"
			tail = "\nm"
		case 6:
			ty, head, pat = "commit", "tree 0123456789abcdef0123456789abcdef01234567\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n", " abc\n"
			tail = " -----END PGP SIGNATURE-----\n\nm"
		case 7:
			ty, head, pat = "tag", "object 0123456789abcdef0123456789abcdef01234567\ntype commit\ntag v\ntagger A <a> 1 +0\n\n", "\n"
		case 8:
			ty, head, pat = "commit", "tree 0123456789abcdef0123456789abcdef01234567\n\n", g.pick("\n", "m", "line\n")
		case 9:
			ty, head, pat = "commit", "tree 0123456789abcdef0123456789abcdef01234567\nmergetag object 0123456789abcdef0123456789abcdef01234567\n type commit\n tag v\n \n", " m\n"
			tail = "\nm"
		case 10:
			ty, head, pat = "tag", "object 0123456789abcdef0123456789abcdef01234567\ntype commit\ntag ", "v"
			tail = "\n\nm"
		}
		n = n/len(pat) + 1
		body = strconv.Itoa(len(head) + n*len(pat) + len(tail))
		m.Head, m.Pat, m.N, m.Tail = append(append(B(ty+" "+body), 0), head...), B(pat), n, B(tail)
	}
	g.out(&Case{K: "mem", Src: src, Mem: m})
}

// store: a history of objects that refer to each other.
func (g *Gen) store() {
	g.small = true
	defer func() { g.small = false }()
	var cmds []Cmd
	var items []Cmd
	for i, n := 0, 2+g.Intn(7); i < n; i++ {
		ty := g.pick("Blob", "Tree", "Tree", "Commit", "Tag")
		v := g.val(ty, vopt{})
		if i > 0 {
			v = g.holes(v, items, "")
		} else if ty == "Tree" && g.p(0.5) {
			v = dmMap()
		}
		cmd := Cmd{Op: "put", Ty: ty, Form: g.pick("type", "repr", "typerepr"), Val: v, Key: B{}}
		if i > 0 && g.p(0.1) {
			cmd.Ty, cmd.Val = items[0].Ty, items[0].Val
		}
		items = append(items, cmd)
		cmds = append(cmds, cmd)
	}
	for i, n := 0, 3+g.Intn(10); i < n; i++ {
		j := g.Intn(len(items))
		switch {
		case g.p(0.35):
			cmds = append(cmds, Cmd{Op: "get", I: j, Form: g.pick("any", "type", "repr"), Ty: items[j].Ty, Key: B{}, Val: dmMap()})
			if g.p(0.1) {
				cmds[len(cmds)-1].Ty = g.pick("Blob", "Tree", "Commit", "Tag")
			}
		default:
			path := dmMap()
			v := items[j].Val
			for k := 0; k < 12; k++ {
				if v.K == "link" && len(v.S) == 2 {
					v = items[v.S[1]].Val
				}
				if len(v.Vs) == 0 || (k > 2 && g.p(0.1)) {
					break
				}
				x := g.Intn(len(v.Vs))
				// rather the way to a link
				for y := range v.Vs {
					if v.Vs[y].K != "string" && g.p(0.5) {
						x = y
					}
				}
				if v.K == "list" {
					path.Ks = append(path.Ks, B(strconv.Itoa(x)))
				} else {
					path.Ks = append(path.Ks, v.Ks[x])
				}
				v = v.Vs[x]
			}
			if g.p(0.05) {
				path.Ks = append(path.Ks, B(g.pick("a", "0", "object", "")))
			}
			cmds = append(cmds, Cmd{Op: "walk", I: j, Form: g.pick("any", "typed"), Ty: items[j].Ty, Key: B{}, Val: path})
		}
	}
	g.out(&Case{K: "store", Src: "history", Store: &StoreCase{Cmds: cmds}})
}

// holes puts links to items stored before into a value.
func (g *Gen) holes(v DM, items []Cmd, at string) DM {
	if v.K == "link" && g.p(0.8) {
		var fit []int
		for i, it := range items {
			if (at == "tree" && it.Ty == "Tree") || (at == "parents" && it.Ty == "Commit") {
				fit = append(fit, i)
			}
		}
		i := g.Intn(len(items))
		if len(fit) > 0 && g.p(0.9) {
			i = fit[g.Intn(len(fit))]
		}
		return dmLink([]byte{0, byte(i)})
	}
	out := DM{K: v.K, S: v.S, Ks: v.Ks, Vs: []DM{}}
	for i, x := range v.Vs {
		a := at
		if i < len(v.Ks) && at == "" {
			a = string(v.Ks[i])
		}
		out.Vs = append(out.Vs, g.holes(x, items, a))
	}
	return out
}

// session: decoding, encoding, reading and assembling, one after the other and
// then concurrently. It keeps track of types only; commands that turn out to
// make no sense are not judged.
func (g *Gen) session() {
	g.small = g.p(0.8)
	defer func() { g.small = false }()
	c := &SessCase{Cmds: []Cmd{}, Par: [][]Cmd{}}
	var btype []string
	for i, n := 0, 2+g.Intn(3); i < n; i++ {
		b := g.object()
		for len(b) > 4000 {
			b = g.object()
		}
		if i > 0 && g.p(0.35) {
			b = c.Bufs[0]
			if g.p(0.7) {
				b = g.kin(b)
			}
		} else if g.p(0.1) {
			b = g.damage(b)
		}
		c.Bufs = append(c.Bufs, b)
		ty := map[string]string{"blob": "Blob", "tree": "Tree", "commit": "Commit", "tag": "Tag"}[typeWord(b)]
		if safe(func() {
			if _, err := ipldgit.ParseObjectFromBuffer(append([]byte{}, b...)); err != nil {
				ty = ""
			}
		}) != "" {
			ty = ""
		}
		btype = append(btype, ty)
	}
	dirty := make([]bool, len(btype))
	type reg struct {
		ty  string
		gen bool
	}
	var regs []reg
	run := func(n int, alone bool) []Cmd {
		all := &regs
		if !alone {
			own := append([]reg{}, regs...)
			all = &own
		}
		nb := ""
		add := func(ty string, gen bool) {
			if ty != "" {
				*all = append(*all, reg{ty, gen})
			}
		}
		cmds := []Cmd{}
		for len(cmds) < n {
			i := g.Intn(len(btype))
			r := -1
			rt := reg{}
			if len(*all) > 0 {
				r = g.Intn(len(*all))
				if g.p(0.5) {
					r = len(*all) - 1 - g.Intn(min(len(*all), 3))
				}
				rt = (*all)[r]
			}
			cmd := Cmd{Key: B{}, Val: dmMap(), I: i}
			switch g.Intn(12) {
			case 0, 1, 2:
				if dirty[i] {
					continue
				}
				cmd.Op, cmd.Form = "dec", g.pick("buffer", "reader", "any", "bufio", "zip", "block")
				add(btype[i], cmd.Form == "any")
			case 3:
				if !alone || r < 0 {
					continue
				}
				cmd.Op = "scribble"
				if dirty[i] {
					cmd.Op = "refill"
				}
				dirty[i] = !dirty[i]
			case 4:
				cmd.Op, cmd.I = "enc", r
			case 5:
				cmd.Op, cmd.I = "read", r
			case 6:
				if rt.ty != "Commit" && rt.ty != "Tag" {
					continue
				}
				f := structFields[rt.ty][g.Intn(len(structFields[rt.ty]))]
				cmd.Op, cmd.I, cmd.Key = "part", r, B(strings.TrimSuffix(f[0], "?"))
				if strings.HasSuffix(f[0], "?") {
					continue // may be absent
				}
				add(f[1], rt.gen)
			case 7, 8:
				if r < 0 || (rt.gen && rt.ty == "Commit") {
					continue
				}
				cmd.Op, cmd.I, cmd.Ty, cmd.Form = "build", r, rt.ty, g.pick("type", "type", "repr")
				if nb == rt.ty && g.p(0.8) {
					cmd.Op = "rebuild"
				}
				nb = rt.ty
				add(rt.ty, false)
			case 9:
				if nb == "" {
					continue
				}
				cmd.Op, cmd.Ty, cmd.Val, cmd.Form = "make", nb, g.val(nb, vopt{}), g.pick("", "keys")
				add(nb, false)
			case 10:
				if nb == "" || nb != btype[i] || dirty[i] {
					continue
				}
				cmd.Op = "redec"
				add(nb, false)
			case 11:
				if rt.ty != "Commit" && rt.ty != "Tag" {
					continue
				}
				if rt.gen {
					continue
				}
				fs := structFields[rt.ty]
				f := fs[g.Intn(len(fs))]
				if strings.HasSuffix(f[0], "?") {
					continue
				}
				cmd.Op, cmd.I, cmd.Ty, cmd.Key, cmd.Val = "graft", r, rt.ty, B(f[0]), g.val(f[1], vopt{})
				add(rt.ty, false)
			}
			if cmd.I < 0 || cmd.Op == "" {
				continue
			}
			cmds = append(cmds, cmd)
		}
		return cmds
	}
	c.Cmds = run(4+g.Intn(10), true)
	for i, n := 0, max(0, g.Intn(9)-2); i < n; i++ {
		c.Par = append(c.Par, run(2+g.Intn(6), false))
	}
	g.out(&Case{K: "sess", Src: "session", Sess: c})
}
