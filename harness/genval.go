package main

import (
	"strconv"
	"strings"
)

// Values of the data model, of the schema's types and spoiled.

var structFields = map[string][][2]string{
	"PersonInfo": {{"date", "String"}, {"timezone", "String"}, {"email", "String"}, {"name", "String"}},
	"Tag":        {{"object", "Link"}, {"type", "String"}, {"tag", "String"}, {"tagger", "PersonInfo"}, {"message", "String"}},
	"Commit": {{"tree", "Tree_Link"}, {"parents", "Commit_Link_List"}, {"message", "String"}, {"author?", "PersonInfo"}, {"committer?", "PersonInfo"},
		{"encoding?", "String"}, {"signature?", "GpgSig"}, {"mergetag", "Tag_List"}, {"other", "String_List"}},
	"TreeEntry": {{"mode", "String"}, {"hash", "Link"}},
}

var objectTypes = []string{"Blob", "Tree", "Commit", "Tag"}

func uvarint(n int) []byte {
	var b []byte
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

func cidBytes(version, codec, mhc int, digest []byte) B {
	if version == 0 {
		return append(B{18, 32}, digest...)
	}
	b := append(B{1}, uvarint(codec)...)
	b = append(b, uvarint(mhc)...)
	b = append(b, uvarint(len(digest))...)
	return append(b, digest...)
}

func (g *Gen) bytesN(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	if g.p(0.2) {
		c := odd[g.Intn(len(odd))]
		for i := range b {
			b[i] = c
		}
	}
	return b
}

// foreign gives a link that is not a git object's, or that is only in part.
func (g *Gen) foreign() B {
	switch g.Intn(14) {
	case 11: // no multihash
		return append(B{1, 0x78}, g.pick("", "\x11", "\x11\x14", "\x11\x14"+string(g.bytesN(19)), "\x11\x14"+string(g.bytesN(21)), "\x11\x13"+string(g.bytesN(20)),
			"\x12\x20"+string(g.bytesN(20)), "\x80", string(g.bytesN(20)), "\x11\x94\x00"+string(g.bytesN(20)))...)
	case 0:
		return B{} // undefined
	case 1:
		return B("not a cid")
	case 2:
		return cidBytes(0, 0, 0, g.bytesN(32))
	case 3:
		return cidBytes(1, 0x55, 0x12, g.bytesN(32))
	case 4:
		return cidBytes(1, 0x78, 0x12, g.bytesN(32)) // a git object by SHA-256
	case 5:
		return cidBytes(1, 0x78, 0x12, g.bytesN(20))
	case 6:
		return cidBytes(1, 0x78, 0, g.bytesN([]int{0, 1, 20, 19, 21}[g.Intn(5)])) // identity
	case 7:
		return cidBytes(1, 0x78, 0x11, g.bytesN([]int{0, 1, 19, 21, 32}[g.Intn(5)]))
	case 8:
		return cidBytes(1, []int{0x55, 0x70, 0x71, 0x0129, 0x77, 0x79}[g.Intn(6)], 0x11, g.bytesN(20)) // another codec
	case 9:
		return cidBytes(1, 0x78, []int{0x13, 0x14, 0x16, 0x1b, 0xb220, 0xb214, 0x10, 0x56}[g.Intn(8)], g.bytesN(20))
	case 10:
		return cidBytes(1, 0x78, []int{0x13, 0x1b, 0xb220}[g.Intn(3)], g.bytesN(32))
	}
	return cidBytes(1, g.Intn(300), g.Intn(40), g.bytesN(g.Intn(40)))
}

type vopt struct {
	foreign float64 // links that are not git's
	raw     float64 // texts that git would not allow
	extra   float64
}

func (g *Gen) vlink(o vopt) DM {
	if g.p(o.foreign) {
		return dmLink(g.foreign())
	}
	return dmGit(g.hash())
}

func (g *Gen) vtext(o vopt) DM {
	if g.p(o.raw) {
		return dmString(g.raw())
	}
	return dmString(g.value())
}

// indent gives lines that each start with a space and end with a line feed
func (g *Gen) indent() string {
	var sb strings.Builder
	for i, n := 0, g.Intn(5); i < n; i++ {
		sb.WriteString(" " + g.value() + "\n")
	}
	if g.p(0.03) {
		for i := 0; i < g.count(); i++ {
			sb.WriteString(" line " + strconv.Itoa(i) + "\n")
		}
	}
	return sb.String()
}

func (g *Gen) vperson(o vopt) DM {
	if g.p(0.05) {
		return dmMap("date", dmString(""), "timezone", dmString(""), "email", dmString(""), "name", dmString(""))
	}
	name, email := g.words(), g.pick("a@b", "", "x y", "<", "é", "a@example.com", "a b c")
	date, tz := g.pick("0", "1700000000", "-5", ""), g.pick("+0000", "-0730", "", "Z")
	if g.p(0.2) {
		email = g.personWord()
	}
	if g.p(0.8) && date == "" {
		tz = ""
	}
	if g.p(o.raw) {
		return dmMap("date", dmString(g.raw()), "timezone", dmString(g.raw()), "email", dmString(g.raw()), "name", dmString(g.raw()))
	}
	return dmMap("date", dmString(date), "timezone", dmString(tz), "email", dmString(email), "name", dmString(name))
}

func (g *Gen) val(ty string, o vopt) DM {
	switch ty {
	case "String":
		return g.vtext(o)
	case "GpgSig":
		if g.p(o.raw) {
			return dmString(g.raw())
		}
		return dmString(g.pick(" \n", " \n", " Version: GnuPG v2\n", " Comment: x\n", " Version: 1\n Comment: y\n \n", " \r\n") + g.indent())
	case "Link", "Commit_Link", "Tree_Link":
		return g.vlink(o)
	case "Blob":
		if g.p(0.7) {
			return dmScalar("bytes", g.blob())
		}
		return dmScalar("bytes", []byte(g.raw()))
	case "PersonInfo":
		return g.vperson(o)
	case "String_List":
		l := dmList()
		for i, n := 0, g.count(); i < n; i++ {
			s := g.vtext(o)
			if g.p(0.5) {
				s = dmString(g.pick("x y", "gpgsig-sha256 abc", " continued", "HG:rename a:b", "gpgsig -----BEGIN SSH SIGNATURE-----", " ", "mergetag", "treeish x", "parents 1", "encodingx", "tagger x", "\r", "a\r", "tree\tx", "change-id "+g.hex()))
			}
			if len(s.S) == 0 && g.p(1-o.raw) {
				s = dmString("k v")
			}
			l.Vs = append(l.Vs, s)
		}
		return l
	case "Commit_Link_List":
		l := dmList()
		for i, n := 0, g.count(); i < n; i++ {
			l.Vs = append(l.Vs, g.vlink(o))
		}
		return l
	case "Tag_List":
		l := dmList()
		for i, n := 0, min(g.count(), 12); i < n; i++ {
			t := g.val("Tag", o)
			if !g.p(o.raw) {
				t.Vs[4] = dmString(g.indent())
			}
			l.Vs = append(l.Vs, t)
		}
		return l
	case "Tree":
		m := dmMap()
		seen := map[string]bool{}
		for i, n := 0, g.count(); i < n; i++ {
			k := g.entryName(i)
			if g.p(o.raw) {
				k = g.raw()
			}
			if seen[k] {
				k += strconv.Itoa(i)
				if seen[k] {
					continue
				}
			}
			seen[k] = true
			m.Ks = append(m.Ks, B(k))
			m.Vs = append(m.Vs, g.val("TreeEntry", o))
		}
		return m
	case "TreeEntry":
		mode := dmString(g.pick("100644", "40000", "040000", "120000", "160000", "100755", "", "0"))
		if g.p(o.raw) {
			mode = dmString(g.raw())
		}
		return dmMap("mode", mode, "hash", g.vlink(o))
	}
	m := dmMap()
	for _, f := range structFields[ty] {
		name, opt := strings.CutSuffix(f[0], "?")
		if opt && g.p(0.35) {
			continue
		}
		var v DM
		switch {
		case name == "message" && ty != "TreeEntry":
			v = dmString(g.message())
			if g.p(0.1) {
				v = dmString(g.raw())
			}
		case name == "type":
			v = dmString(g.pick("commit", "tree", "blob", "tag", "", "x y"))
		default:
			v = g.val(f[1], o)
		}
		m.Ks = append(m.Ks, B(name))
		m.Vs = append(m.Vs, v)
	}
	return m
}

// shuffled gives the value with the entries of its maps in another order.
// Trees are ordered, so they stay.
func (g *Gen) shuffled(ty string, v DM) DM {
	out := DM{K: v.K, S: v.S, Ks: append([]B{}, v.Ks...), Vs: []DM{}}
	for i, x := range v.Vs {
		sub := ""
		switch {
		case v.K == "list" && ty == "Tag_List":
			sub = "Tag"
		case ty == "Tree":
			sub = "TreeEntry"
		default:
			for _, f := range structFields[ty] {
				if i < len(v.Ks) && strings.TrimSuffix(f[0], "?") == string(v.Ks[i]) {
					sub = f[1]
				}
			}
		}
		out.Vs = append(out.Vs, g.shuffled(sub, x))
	}
	if _, ok := structFields[ty]; ok {
		g.Shuffle(len(out.Ks), func(i, j int) {
			out.Ks[i], out.Ks[j] = out.Ks[j], out.Ks[i]
			out.Vs[i], out.Vs[j] = out.Vs[j], out.Vs[i]
		})
	}
	return out
}

// anyVal gives any value at all.
func (g *Gen) anyVal(depth int) DM {
	k := g.Intn(12)
	if depth <= 0 && k >= 9 {
		k -= 4
	}
	switch k {
	case 0:
		return dmScalar("null", nil)
	case 1:
		return dmScalar("bool", []byte(g.pick("t", "f")))
	case 2:
		return dmScalar("int", []byte(strconv.Itoa(g.Intn(2000)-1000)))
	case 3:
		return dmScalar("float", []byte(g.pick("1.5", "0", "-2.25")))
	case 4, 5:
		return dmString(g.raw())
	case 6:
		return dmScalar("bytes", []byte(g.raw()))
	case 7:
		return dmGit(g.hash())
	case 8:
		return dmLink(g.foreign())
	case 9:
		l := dmList()
		for i, n := 0, g.Intn(4); i < n; i++ {
			l.Vs = append(l.Vs, g.anyVal(depth-1))
		}
		return l
	}
	m := dmMap()
	seen := map[string]bool{}
	for i, n := 0, g.Intn(6); i < n; i++ {
		k := g.pick("object", "type", "tag", "tagger", "message", "tree", "parents", "author", "committer", "encoding", "signature", "mergetag", "other", "mode", "hash", "a", "", "name", "date")
		if seen[k] {
			continue
		}
		seen[k] = true
		v := g.anyVal(depth - 1)
		if g.p(0.5) {
			v = g.pick2(dmString(g.value()), dmGit(g.hash()))
		}
		m.Ks = append(m.Ks, B(k))
		m.Vs = append(m.Vs, v)
	}
	return m
}

func (g *Gen) pick2(a, b DM) DM {
	if g.p(0.5) {
		return a
	}
	return b
}

// spoil changes a value somewhere so that it perhaps does not fit its type.
func (g *Gen) spoil(v DM) DM {
	out := DM{K: v.K, S: append(B{}, v.S...), Ks: append([]B{}, v.Ks...), Vs: append([]DM{}, v.Vs...)}
	if len(out.Vs) > 0 && g.p(0.5) {
		i := g.Intn(len(out.Vs))
		out.Vs[i] = g.spoil(out.Vs[i])
		return out
	}
	switch g.Intn(10) {
	case 0:
		return dmScalar("null", nil)
	case 1:
		return g.anyVal(1)
	case 2, 3:
		if n := len(out.Vs); n > 0 {
			i := g.Intn(n)
			out.Vs = append(out.Vs[:i:i], out.Vs[i+1:]...)
			if len(out.Ks) > 0 {
				out.Ks = append(out.Ks[:i:i], out.Ks[i+1:]...)
			}
		}
	case 4:
		if n := len(out.Ks); n > 0 { // a key twice
			i := g.Intn(n)
			out.Ks = append(out.Ks, out.Ks[i])
			out.Vs = append(out.Vs, out.Vs[g.Intn(n)])
		}
	case 5:
		if out.K == "map" {
			out.Ks = append(out.Ks, B(g.field()))
			out.Vs = append(out.Vs, dmString("x"))
		}
	case 6:
		if n := len(out.Ks); n > 0 {
			out.Ks[g.Intn(n)] = B(g.pick("x", "message", "tag", "tree", "name", "", "hash", "tagger", "other"))
		}
	case 7:
		switch out.K {
		case "string":
			out.K = g.pick("bytes", "link")
		case "bytes":
			out.K = "string"
		case "link":
			out.K = "string"
		case "list":
			out = dmMap("0", dmString("x"))
		case "map":
			out = dmList(out.Vs...)
		}
	case 8:
		if n := len(out.Vs); n > 0 {
			out.Vs[g.Intn(n)] = dmScalar(g.pick("null", "absent"), nil)
		}
	default:
		if out.K == "list" {
			out.Vs = append(out.Vs, g.anyVal(1))
		} else if n := len(out.Vs); n > 0 {
			out.Vs[g.Intn(n)] = g.anyVal(1)
		}
	}
	return out
}

func hasAbsent(v DM) bool {
	if v.K == "absent" {
		return true
	}
	for _, x := range v.Vs {
		if hasAbsent(x) {
			return true
		}
	}
	return false
}

// badText: a codec such as DAG-JSON cannot carry this
func (g *Gen) anyType() string { return typeNames[g.Intn(len(typeNames))] }

// field is a name that a struct may be asked for: one of some struct, one that is
// nearly one, one that the code has for something.
func (g *Gen) field() string {
	switch {
	case len(g.fresh.Strs) > 0 && g.p(0.3):
		return g.lit()
	case g.p(0.2):
		return g.pick("typ", "gpgsig", "sig", "parent", "mergetags", "gpgSig", "Typ", "id", "msg", "tz", "mail", "x", "m", "v", "t", "w", "_", "extra", "", "0", "sha", "cid", "oid")
	}
	fs := structFields[g.pick("Commit", "Tag", "PersonInfo", "TreeEntry")]
	f := strings.TrimSuffix(fs[g.Intn(len(fs))][0], "?")
	switch g.Intn(9) {
	case 0:
		return strings.ToUpper(f[:1]) + f[1:]
	case 1:
		return f + g.pick(" ", "s", "x", "\x00", "?", ":")
	case 2:
		return f[:len(f)-1]
	case 3:
		return g.pick(" ", "_", "x", "/") + f
	case 4:
		return f[1:]
	}
	return f
}
