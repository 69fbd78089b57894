package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"encoding/hex"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type Gen struct {
	*rand.Rand
	suite  string
	fresh  Lits // literals that are new in the code under test
	all    Lits
	corpus [][]byte
	scale  int
	small  bool // only small sizes and counts
	emit   func(*Case)
	id     int
	spent  int   // bytes and parts asked for in this case
	seen   int   // the case that spent counts for
	total  int64 // bytes emitted
	limit  int64 // from which all sizes are small
}

// tight tells that this case, or all of them, have become large enough.
func (g *Gen) tight() bool {
	if g.seen != g.id {
		g.seen, g.spent = g.id, 0
	}
	return g.spent > 9000 || g.total > g.limit
}

func (g *Gen) size() int {
	if g.tight() {
		return g.Intn(12)
	}
	n := g.size0()
	g.spent += n
	return n
}

func (g *Gen) count() int {
	if g.tight() {
		return g.Intn(3)
	}
	n := g.count0()
	g.spent += 20 * n
	return n
}

// Lengths and counts where buffers, growth or digits change
var sizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 21, 31, 32, 33, 39, 40, 41, 63, 64, 65, 72,
	80, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
	2047, 2048, 2049, 4000, 4090, 4095, 4096, 4097, 4100}
var bigSizes = []int{8191, 8192, 8193, 9999, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537}
var counts = []int{0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33}
var bigCounts = []int{40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257}

var odd = []byte{0, 1, 9, 10, 11, 13, 27, 32, 34, 37, 39, 43, 45, 46, 47, 48, 57, 58, 60, 62, 64, 65, 92, 97, 122, 127, 128, 0xa0,
	0xc2, 0xc3, 0xa9, 0xe2, 0x80, 0xa8, 0xef, 0xbb, 0xbf, 0xfe, 0xff}

func (g *Gen) p(x float64) bool { return g.Float64() < x }

func (g *Gen) pick(ss ...string) string { return ss[g.Intn(len(ss))] }

func (g *Gen) size0() int {
	switch {
	case g.small && !(len(g.fresh.Ints) > 0 && g.p(0.1)):
		return g.Intn(24)
	case len(g.fresh.Ints) > 0 && g.p(0.2):
		return max(0, g.fresh.Ints[g.Intn(len(g.fresh.Ints))]+g.Intn(3)-1) % 70000
	case g.p(0.7):
		return g.Intn(24)
	case g.p(0.8):
		return sizes[g.Intn(45)]
	case g.p(0.85):
		return sizes[g.Intn(len(sizes))]
	case g.p(0.8):
		return g.Intn(3000)
	}
	return bigSizes[g.Intn(len(bigSizes))]
}

func (g *Gen) count0() int {
	switch {
	case g.small && !(len(g.fresh.Ints) > 0 && g.p(0.1)):
		if g.p(0.03) {
			return counts[g.Intn(len(counts))]
		}
		return g.Intn(4)
	case len(g.fresh.Ints) > 0 && g.p(0.2):
		return max(0, g.fresh.Ints[g.Intn(len(g.fresh.Ints))]+g.Intn(3)-1) % 3000
	case g.p(0.8):
		return g.Intn(4)
	case g.p(0.95):
		return counts[g.Intn(len(counts))]
	}
	return bigCounts[g.Intn(len(bigCounts))]
}

func (g *Gen) lit() string {
	if len(g.fresh.Strs) > 0 && g.p(0.6) {
		return g.fresh.Strs[g.Intn(len(g.fresh.Strs))]
	}
	if len(g.all.Strs) == 0 {
		return ""
	}
	return g.all.Strs[g.Intn(len(g.all.Strs))]
}

func (g *Gen) hash() []byte {
	h := make([]byte, 20)
	switch g.Intn(8) {
	case 0:
		b := odd[g.Intn(len(odd))]
		for i := range h {
			h[i] = b
		}
	case 1, 2:
		for i := range h {
			h[i] = odd[g.Intn(len(odd))]
		}
	case 3:
		h[0] = byte(g.Intn(4))
		h[19] = byte(g.Intn(256))
	default:
		g.Read(h)
	}
	return h
}

func (g *Gen) hex() string { return hex.EncodeToString(g.hash()) }

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-"

// raw gives any bytes at all.
func (g *Gen) raw() string {
	switch g.Intn(12) {
	case 0:
		return ""
	case 1:
		b := make([]byte, g.size())
		g.Read(b)
		return string(b)
	case 2, 3:
		b := make([]byte, g.Intn(12))
		for i := range b {
			b[i] = odd[g.Intn(len(odd))]
		}
		return string(b)
	case 4:
		return g.lit()
	case 5:
		return g.raw() + g.lit() + g.raw()
	case 6:
		return strings.Repeat(string([]byte{odd[g.Intn(len(odd))]}), g.size())
	case 7:
		return g.pick("é", "Ünïcödé", "日本語", "\xff\xfe", "\xe9t\xe9", "a\u0301", "\u202eevil", "😀", "\ufeff", "\u00a0", "\u2028", "\xc3\x28", "\xed\xa0\x80")
	case 8:
		return g.text(g.size())
	default:
		return g.text(1 + g.Intn(10))
	}
}

func (g *Gen) text(n int) string {
	b := make([]byte, n)
	for i := range b {
		if g.p(0.1) {
			b[i] = ' '
		} else {
			b[i] = letters[g.Intn(len(letters))]
		}
	}
	return string(b)
}

func strip(s, cut string) string {
	return strings.Map(func(r rune) rune { return r }, stripBytes(s, cut))
}

func stripBytes(s, cut string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(cut, s[i]) < 0 {
			b = append(b, s[i])
		}
	}
	return string(b)
}

// value is a header value: anything on one line.
func (g *Gen) value() string { return stripBytes(g.raw(), "\n") }

// message is free text of several lines.
func (g *Gen) message() string {
	if g.p(0.1) {
		return g.raw()
	}
	var sb strings.Builder
	for i, n := 0, g.count(); i < n; i++ {
		switch g.Intn(12) {
		case 0:
			sb.WriteString("\n")
		case 1:
			sb.WriteString(" ")
			sb.WriteString(g.value() + "\n")
		case 2:
			sb.WriteString(g.value() + "\r\n")
		case 3:
			sb.WriteString(g.lit() + "\n")
		case 4:
			sb.WriteString(g.pick("tree ", "parent ", "author ", "object ", "mergetag object ", "encoding ", "tagger ", "committer ", "type ", "tag ") + g.hex() + "\n")
		case 5:
			sb.WriteString(g.pick("-----BEGIN PGP SIGNATURE-----\n\niQ==\n-----END PGP SIGNATURE-----\n",
				"gpgsig -----BEGIN PGP SIGNATURE-----\n \n x\n -----END PGP SIGNATURE-----\n",
				"Signed-off-by: A <a@b>\n", "# comment\n", "\t\n", "\n\n\n", "--\n", "-----BEGIN SSH SIGNATURE-----\nU1NI\n-----END SSH SIGNATURE-----\n"))
		default:
			sb.WriteString(g.value() + "\n")
		}
	}
	s := sb.String()
	if g.p(0.3) {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

func (g *Gen) personWord() string {
	w := stripBytes(g.raw(), "\n ")
	if g.p(0.9) {
		w = strings.TrimLeft(w, "<")
	}
	return w
}

func (g *Gen) words() string {
	var ws []string
	n := g.Intn(4)
	if g.p(0.05) {
		n = g.count()
	}
	for i := 0; i < n; i++ {
		if g.p(0.7) {
			ws = append(ws, g.pick("A", "U", "Thor", "Jean-Luc", "Ünï", "O'Brien", "\"Q\"", "van", "der", "Jr.", "(x)", "a<b", "a>b", "x>", "日本", "\xe9", ".", ",", "Robot", "[bot]", "a@b"))
		} else {
			ws = append(ws, g.personWord())
		}
	}
	return strings.Join(ws, g.pick(" ", " ", " ", " ", "  ", "   "))
}

// person is an identity: NAME <EMAIL> DATE TZ
func (g *Gen) person() string {
	name := g.words()
	if g.p(0.08) {
		name = g.pick(" ", "  ", "") + name + g.pick(" ", "  ", "")
	}
	email := g.pick("a@b", "a@example.com", "", "x", "user@host.local", "none", "a b@c", "a  b", "<x", "a@b.c (d e)", "a<b", "é@ü", "\xff")
	if g.p(0.2) {
		email = g.personWord()
	}
	if g.p(0.05) {
		email = g.words()
	}
	if g.p(0.9) {
		email = strings.ReplaceAll(strings.TrimLeft(email, "<"), "> ", " ")
		email = strings.ReplaceAll(email, " <", " ")
	}
	date := g.pick("0", "1", "946684800", "1234567890", "1700000000", "2147483648", "4294967296", "99999999999", "-1", "-62167219200", "0000000001", "+1", "1e9", "1234567890.5")
	tz := g.pick("+0000", "-0000", "+0100", "-0730", "+0545", "+1400", "-1200", "+9999", "+00", "UTC", "0000", "--0400", "+051800", "+0", "Z")
	if g.p(0.08) {
		date = g.personWord()
	}
	if g.p(0.08) {
		tz = g.personWord()
	}
	s := name + " <" + email + ">"
	switch {
	case g.p(0.04):
	case g.p(0.04):
		s += " " + date
	case g.p(0.02):
		s += " " + date + " "
	case g.p(0.02):
		s += "  " + date + " " + tz
	case g.p(0.02):
		s += " " + date + " " + tz + " " + g.value()
	case g.p(0.02):
		s = g.value()
	default:
		s += " " + date + " " + tz
	}
	return s
}

func frame(typ, body string) []byte {
	return []byte(typ + " " + strconv.Itoa(len(body)) + "\x00" + body)
}

func (g *Gen) blob() []byte {
	s := g.raw()
	if g.p(0.3) {
		s = g.message()
	}
	if g.p(0.05) {
		s = string(frame(g.pick("blob", "tree", "commit"), s))
	}
	return frame("blob", s)
}

func (g *Gen) entryName(i int) string {
	s := stripBytes(g.raw(), "\x00")
	if g.p(0.3) {
		s = g.pick("a", "b", "README.md", "src", "a.txt", "a-b", "a/b", ".", "..", ".git", "A", "é", "\xff", " ", "a b", "\n", "", "mode", "hash", "0", "-1", "object", "tree", "tagger", "type", "parents", "message")
	}
	return s
}

func (g *Gen) tree() []byte {
	var sb strings.Builder
	seen := map[string]bool{}
	dup := g.p(0.02)
	for i, n := 0, g.count(); i < n; i++ {
		name := g.entryName(i)
		if seen[name] && !dup {
			name += strconv.Itoa(i)
			if seen[name] {
				continue
			}
		}
		seen[name] = true
		mode := g.pick("100644", "100644", "100755", "120000", "40000", "40000", "160000", "100664", "040000", "0100644", "644", "0", "")
		if g.p(0.1) {
			mode = stripBytes(g.raw(), " ")
		}
		sb.WriteString(mode + " " + name + "\x00" + string(g.hash()))
	}
	return frame("tree", sb.String())
}

func (g *Gen) sig() string {
	var sb strings.Builder
	sb.WriteString("gpgsig -----BEGIN PGP SIGNATURE-----\n")
	switch g.Intn(10) {
	case 0:
		sb.WriteString(" Version: GnuPG v" + g.pick("1", "2", "1.4.11 (GNU/Linux)") + "\n \n")
	case 1:
		sb.WriteString(" Comment: " + g.value() + "\n \n")
	case 2:
		sb.WriteString(" Version: x\n Comment: y\n \n")
	case 3:
		if g.p(0.4) {
			sb.WriteString(g.pick(" Hash: SHA1", " Version:", " Comment:", " Version:x", " Comment:x", "Version: x", "Comment: x", " version: x", " Version : x", "  Version: x", " Versio: x") + "\n")
		}
		sb.WriteString(" \n")
	default:
		sb.WriteString(" \n")
	}
	for i, n := 0, g.count(); i < n; i++ {
		switch g.Intn(12) {
		case 0:
			sb.WriteString(" " + g.value() + "\n")
		case 1:
			sb.WriteString(" \n")
		case 2:
			sb.WriteString(g.value() + "\n")
		case 3:
			sb.WriteString(" " + g.pick("-----BEGIN PGP SIGNATURE-----", "-----END PGP", "=abcd", "tree "+g.hex(), "-----END PGP SIGNATURE----- ") + "\n")
		default:
			sb.WriteString(" " + g.text(64) + "\n")
		}
	}
	sb.WriteString(" -----END PGP SIGNATURE-----\n")
	return sb.String()
}

func (g *Gen) mergetag() string {
	s := "mergetag object " + g.hex() + "\n type " + g.pick("commit", "commit", "tree", "tag", g.value()) + "\n tag " + g.value() + "\n"
	if g.p(0.85) {
		s += " tagger " + g.person() + "\n"
	}
	if g.p(0.08) {
		s += " " + g.near()
	}
	if g.p(0.03) {
		s += " " + g.pick("type", "tag", "tagger", "object", "type ", "tag ", "tagger ", "object ") + "\n"
	}
	if g.p(0.95) {
		s += " \n"
		for i, n := 0, g.count(); i < n; i++ {
			switch g.Intn(10) {
			case 0:
				s += " \n"
			case 1:
				s += " " + g.pick("-----BEGIN PGP SIGNATURE-----", " x", "tagger x", "gpgsig -----BEGIN PGP SIGNATURE-----", "-----END PGP SIGNATURE-----") + "\n"
			default:
				s += " " + g.value() + "\n"
			}
		}
	}
	return s
}

// near is a header line whose keyword is almost one of the known ones, with a
// value the known one would take.
func (g *Gen) near() string {
	k := g.pick("tree", "parent", "author", "committer", "encoding", "mergetag object", "gpgsig -----BEGIN PGP SIGNATURE-----", "object", "type", "tag", "tagger")
	v := g.pick(g.hex(), g.hex(), g.person(), g.person(), g.value())
	switch g.Intn(12) {
	case 0:
		return k + g.pick("s", "x", "-id", ":", "2", "\x00", "\r", "\xff") + " " + v + "\n"
	case 1:
		return k[:len(k)-1] + " " + v + "\n"
	case 2:
		return strings.ToUpper(k[:1]) + k[1:] + " " + v + "\n"
	case 3:
		return k + "  " + v + "\n"
	case 4:
		return k + "\t" + v + "\n"
	case 5:
		return " " + k + " " + v + "\n"
	case 6:
		return k + v + "\n"
	case 7:
		return k + "\n"
	case 8:
		return k + " \n"
	case 9:
		return k[1:] + " " + v + "\n"
	case 10:
		return strings.ToUpper(k) + " " + v + "\n"
	}
	return g.pick("x", "\t", "\x00", "\r", "-") + k + " " + v + "\n"
}

func (g *Gen) other() string {
	if g.p(0.25) {
		return g.near()
	}
	switch g.Intn(12) {
	case 0:
		return "gpgsig -----BEGIN SSH SIGNATURE-----\n U1NIU0lH\n -----END SSH SIGNATURE-----\n"
	case 1:
		return "gpgsig-sha256 -----BEGIN PGP SIGNATURE-----\n \n iQ==\n -----END PGP SIGNATURE-----\n"
	case 2:
		return "HG:extra rebase_source:" + g.hex() + "\n"
	case 3:
		return "change-id " + g.text(32) + "\n"
	case 4:
		return " " + g.value() + "\n"
	case 5:
		return g.lit() + "\n"
	case 6:
		return g.pick("tree", "parent", "author", "committer", "encoding", "mergetag", "gpgsig", "treex", "parents x", "Tree x", "encoding2 x", "mergetag objec", "mergetag  object x", "tagger x", "object "+g.hex(), "type commit", "tag v1") + "\n"
	case 7:
		return g.value() + "\r\n"
	default:
		return g.pick("foo", "bar", "x-y", "HG:rename") + " " + g.value() + "\n"
	}
}

func (g *Gen) commit(embed float64) []byte {
	var sb strings.Builder
	sb.WriteString("tree " + g.hex() + "\n")
	for i, n := 0, g.count(); i < n; i++ {
		sb.WriteString("parent " + g.hex() + "\n")
	}
	if g.p(0.95) {
		sb.WriteString("author " + g.person() + "\n")
	}
	if g.p(0.95) {
		sb.WriteString("committer " + g.person() + "\n")
	}
	var hs []string
	if g.p(0.25) {
		hs = append(hs, "encoding "+g.pick("ISO-8859-1", "UTF-8", "utf8", "SHIFT-JIS", "", "latin1 x", g.value())+"\n")
	}
	if g.p(embed) {
		n := 1
		if g.p(0.3) {
			n = g.count()
		}
		for i := 0; i < n; i++ {
			hs = append(hs, g.mergetag())
		}
	}
	if g.p(embed) {
		hs = append(hs, g.sig())
	}
	if g.p(0.3) {
		for i, n := 0, g.count(); i < n; i++ {
			hs = append(hs, g.other())
		}
	}
	if g.p(0.05) {
		g.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	}
	sb.WriteString(strings.Join(hs, ""))
	if g.p(0.97) {
		sb.WriteString("\n" + g.message())
	}
	return frame("commit", sb.String())
}

func (g *Gen) tag() []byte {
	s := "object " + g.hex() + "\ntype " + g.pick("commit", "commit", "tree", "blob", "tag", g.value()) + "\ntag " + g.pick("v1.0", g.value(), g.value()) + "\n"
	if g.p(0.85) {
		s += "tagger " + g.person() + "\n"
	}
	if g.p(0.06) {
		s += g.pick(g.other(), g.near())
	}
	if g.p(0.93) {
		s += "\n" + g.message()
	}
	return frame("tag", s)
}

// personish is an object whose identity lines matter.
func (g *Gen) personish() []byte {
	switch g.Intn(4) {
	case 0:
		return frame("tag", "object "+g.hex()+"\ntype commit\ntag v1\ntagger "+g.person()+"\n\nm\n")
	case 1:
		return frame("commit", "tree "+g.hex()+"\nauthor "+g.person()+"\ncommitter "+g.person()+
			"\nmergetag object "+g.hex()+"\n type commit\n tag t\n tagger "+g.person()+"\n \n m\n\nm\n")
	}
	return frame("commit", "tree "+g.hex()+"\nauthor "+g.person()+"\ncommitter "+g.person()+"\n\nm\n")
}

func (g *Gen) object() []byte {
	switch g.Intn(6) {
	case 0:
		return g.blob()
	case 1:
		return g.tree()
	case 2:
		return g.tag()
	case 3:
		return g.commit(0.8)
	default:
		return g.commit(0.2)
	}
}

// resize makes the header and the body disagree about the size.
func (g *Gen) resize(b []byte) []byte {
	k := bytes.IndexByte(b, 0)
	if k < 0 {
		return b
	}
	n := g.size0()
	if g.p(0.3) {
		n *= 1 + g.Intn(4)
	}
	body := append([]byte(nil), b[k+1:]...)
	switch g.Intn(4) {
	case 0:
		if n < len(body) {
			return append(append([]byte(nil), b[:k+1]...), body[:len(body)-n]...)
		}
	case 1:
		return append(append([]byte(nil), b...), make([]byte, n)...)
	case 2:
		n = -n
	}
	return append([]byte(typeWord(b)+" "+strconv.Itoa(len(body)+n)+"\x00"), body...)
}

// kin gives an object that is nearly the same as another: what a cache with too
// short a key, or a buffer that is used again, would take for it.
func (g *Gen) kin(b []byte) []byte {
	k := bytes.IndexByte(b, 0)
	if k < 0 || k == len(b)-1 {
		return b
	}
	out := append([]byte(nil), b...)
	body := out[k+1:]
	letter := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' }
	// where returns a place in the body that is like this, if there is one
	where := func(is func(i int) bool) int {
		i := g.Intn(len(body))
		for n := 0; n < len(body); n++ {
			if is(i) {
				return i
			}
			i = (i + 1) % len(body)
		}
		return -1
	}
	switch g.Intn(6) {
	case 0: // another digit at the end of a reference
		if i := where(func(i int) bool {
			return body[i] >= '0' && body[i] <= '9' && (i+1 == len(body) || body[i+1] == '\n')
		}); i >= 0 {
			body[i] = '0' + (body[i]-'0'+1)%10
		}
	case 1, 2: // another letter
		if i := where(func(i int) bool { return letter(body[i]) }); i >= 0 {
			body[i] ^= 1 << g.Intn(2)
		}
	case 3: // the same letters, split differently
		if i := where(func(i int) bool {
			return i > 0 && i+2 < len(body) && letter(body[i-1]) && body[i] == ' ' && body[i+1] == '<' && letter(body[i+2])
		}); i >= 0 {
			if g.p(0.5) {
				body[i-1], body[i], body[i+1] = ' ', '<', body[i-1]
			} else {
				body[i], body[i+1], body[i+2] = body[i+2], ' ', '<'
			}
		}
	case 4: // a separator one further
		if i := where(func(i int) bool {
			return i > 0 && i+1 < len(body) && letter(body[i-1]) && !letter(body[i]) && letter(body[i+1])
		}); i >= 0 {
			if g.p(0.5) {
				body[i-1], body[i] = body[i], body[i-1]
			} else {
				body[i+1], body[i] = body[i], body[i+1]
			}
		}
	case 5: // two bytes exchanged
		i, j := g.Intn(len(body)), g.Intn(len(body))
		body[i], body[j] = body[j], body[i]
	}
	return out
}

// badRef gives one reference of an object another length, or other digits.
func (g *Gen) badRef(b []byte) []byte {
	var at []int
	for i, n := 0, 0; i < len(b); i++ {
		if c := b[i]; c >= '0' && c <= '9' || c >= 'a' && c <= 'f' {
			n++
		} else {
			n = 0
		}
		if n == 40 {
			at = append(at, i-39)
		}
	}
	if len(at) == 0 {
		return b
	}
	i := at[g.Intn(len(at))]
	h := string(b[i : i+40])
	switch g.Intn(6) {
	case 0:
		h = (h + h + h)[:g.Intn(120)]
	case 1:
		h = (h + h)[:[]int{38, 39, 41, 42, 44, 48, 56, 64, 80}[g.Intn(9)]]
	case 2:
		h = h[:g.Intn(40)]
	case 3:
		h = strings.ToUpper(h)
	case 4:
		x := []byte(h)
		x[g.Intn(40)] = odd[g.Intn(len(odd))]
		h = string(x)
	case 5:
		h = g.pick("0x"+h[2:], " "+h, h+" ", h+"\r", h+"\x00", "\t"+h, h[:20]+" "+h[20:], h[:20]+"\n"+h[20:])
	}
	return reframe(append(append(append([]byte(nil), b[:i]...), h...), b[i+40:]...))
}

// reframe makes the header state the true size again.
func reframe(b []byte) []byte {
	i := bytes.IndexByte(b, ' ')
	j := bytes.IndexByte(b, 0)
	if i < 0 || j < i {
		return b
	}
	return frame(string(b[:i]), string(b[j+1:]))
}

// damage changes an object in some local way.
func (g *Gen) damage(b []byte) []byte {
	b = append([]byte(nil), b...)
	if g.p(0.08) {
		return g.resize(b)
	}
	for n := 1 + g.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			return b
		}
		i := g.Intn(len(b))
		if g.p(0.3) {
			i = min(i, g.Intn(20))
		}
		switch g.Intn(13) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = odd[g.Intn(len(odd))]
		case 2:
			b[i] ^= 1 << g.Intn(8)
		case 3:
			b = append(b[:i:i], append([]byte{odd[g.Intn(len(odd))]}, b[i:]...)...)
		case 4:
			b = append(b[:i:i], b[i+1:]...)
		case 5, 6, 7, 8, 9: // whole lines
			ls := bytes.SplitAfter(b, []byte{'\n'})
			k, l := g.Intn(len(ls)), g.Intn(len(ls))
			switch g.Intn(7) {
			case 6: // a line that ends early, at a word or anywhere
				x := g.Intn(len(ls[k]) + 1)
				if y := bytes.LastIndexByte(ls[k][:x], ' '); y >= 0 && g.p(0.7) {
					x = y + g.Intn(2)
				}
				ls[k] = append(append([]byte(nil), ls[k][:x]...), '\n')
			case 0:
				ls = append(ls[:k:k], ls[k+1:]...)
			case 1:
				ls = append(ls[:k:k], append([][]byte{ls[l]}, ls[k:]...)...)
			case 2:
				ls[k], ls[l] = ls[l], ls[k]
			case 3:
				ls = append(ls[:k:k], append([][]byte{[]byte(g.other())}, ls[k:]...)...)
			case 4:
				if len(ls[k]) > 1 {
					ls[k] = append(append([]byte(nil), ls[k][:len(ls[k])-1]...), '\r', '\n')
				}
			case 5:
				if x := bytes.IndexByte(ls[k], ' '); x >= 0 {
					ls[k] = append(append([]byte(nil), ls[k][:x+1]...), g.value()+"\n"...)
				}
			}
			b = bytes.Join(ls, nil)
		case 10:
			b = append(b, g.raw()...)
		case 11:
			x := g.lit()
			b = append(b[:i:i], append([]byte(x), b[i:]...)...)
		case 12: // the header
			if k := bytes.IndexByte(b, 0); k >= 0 {
				w := g.pick("blob", "tree", "commit", "tag", "Blob", "blob ", "trees", "", "tag\n", " blob")
				if g.p(0.6) {
					w = typeWord(b)
				}
				b = append([]byte(w+" "+g.pick(strconv.Itoa(len(b)-k-1), "0", "1", "-1", "+5", "007", "", " 5", "5 ", "0x10", "1_0", "9223372036854775807",
					"9223372036854775808", "99999999999999999999", "1e3", strconv.Itoa(len(b)-k), strconv.Itoa(len(b)-k-2))+"\x00"), b[k+1:]...)
			}
		}
	}
	if g.p(0.6) {
		b = reframe(b)
	}
	return b
}

func (g *Gen) fromCorpus() []byte {
	if len(g.corpus) == 0 {
		return g.object()
	}
	return g.corpus[g.Intn(len(g.corpus))]
}

// loadCorpus takes the objects of the repository's test archive.
func loadCorpus(repo string) [][]byte {
	f, err := os.Open(filepath.Join(repo, "testdata.tar.gz"))
	if err != nil {
		return nil
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		return nil
	}
	var out [][]byte
	for t := tar.NewReader(z); len(out) < 4000; {
		h, err := t.Next()
		if err != nil {
			break
		}
		if !strings.Contains(h.Name, "/objects/") || h.Size > 1<<16 {
			continue
		}
		zr, err := zlib.NewReader(t)
		if err != nil {
			continue
		}
		b, err := io.ReadAll(zr)
		if err == nil && len(b) < 1<<15 {
			out = append(out, b)
		}
	}
	return out
}

func (g *Gen) chunks(n int) []int {
	switch g.Intn(6) {
	case 0:
		return nil
	case 1:
		out := make([]int, min(n+2, 300))
		for i := range out {
			out[i] = 1
		}
		return out
	case 2:
		var out []int
		for i := 0; i < 40; i++ {
			out = append(out, g.Intn(4))
		}
		return out
	case 3:
		return []int{g.Intn(n + 1)}
	case 4:
		return []int{g.Intn(n + 1), 0, g.Intn(n + 1)}
	}
	var out []int
	for i := 0; i < 10; i++ {
		out = append(out, 1+g.Intn(40))
	}
	return out
}

func (g *Gen) dec(src string, inp []byte) *Case {
	g.id++
	return &Case{ID: g.id, K: "dec", Src: src, Inp: inp, Cut: "eof", Eps: "all", Ch: []int{}, Outs: []*Out{}}
}

// generate writes n cases of a suite.
func generate(suite string, seed int64, n int, repo, lits string, scale int, emit func(*Case)) {
	g := &Gen{Rand: rand.New(rand.NewSource(seed*7919 + int64(len(suite))*104729 + int64(suite[0]))), suite: suite, scale: scale, limit: int64(n)*3000 + 1<<20}
	g.emit = func(c *Case) {
		g.total += int64(len(c.Inp))
		emit(c)
	}
	g.all = scanLits(repo)
	g.fresh = newLits(g.all, lits)
	g.corpus = loadCorpus(repo)
	ofType := func(t string, f func() []byte) func() (string, []byte) {
		var own [][]byte
		for _, b := range g.corpus {
			if t == "" || typeWord(b) == t {
				own = append(own, b)
			}
		}
		next := 0
		return func() (string, []byte) {
			switch {
			case len(own) > 0 && (next < min(40, len(own)) || g.p(0.03)):
				next++
				return "corpus", own[g.Intn(len(own))]
			case g.p(0.12):
				return "damaged", g.damage(f())
			}
			return "random", f()
		}
	}
	var next func() (string, []byte)
	switch suite {
	case "blob":
		next = ofType("blob", g.blob)
	case "tree":
		next = ofType("tree", g.tree)
	case "commit":
		next = ofType("commit", func() []byte { return g.commit(0) })
	case "embed":
		next = ofType("commit", func() []byte { return g.commit(0.7) })
	case "tag":
		next = ofType("tag", g.tag)
	case "person":
		next = ofType("", g.personish)
	case "link":
		next = ofType("", func() []byte {
			b := g.object()
			if g.p(0.25) {
				b = g.badRef(b)
			}
			return b
		})
	case "damage":
		next = func() (string, []byte) {
			switch g.Intn(10) {
			case 0:
				return "bytes", []byte(g.raw())
			case 1:
				return "damaged corpus", g.damage(g.fromCorpus())
			case 2:
				b := g.object()
				return "cut", b[:g.Intn(len(b)+1)]
			case 3:
				b := g.object()
				return "cut and reframed", reframe(b[:g.Intn(len(b)+1)])
			case 4:
				return "damaged person", g.damage(g.personish())
			}
			return "damaged", g.damage(g.object())
		}
	default:
		generateMore(g, n)
		return
	}
	var last []byte
	for i := 0; i < n; i++ {
		src, b := next()
		if last != nil && g.p(0.1) {
			src, b = "like the last", g.kin(last)
		}
		last = b
		c := g.dec(src, b)
		if g.p(0.2) {
			c.Ch, c.With = g.chunks(len(b)), g.p(0.5)
			if c.Ch == nil {
				c.Ch = []int{}
			}
		}
		g.emit(c)
	}
}
