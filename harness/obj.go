package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/ipfs/go-cid"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/schema"
	mh "github.com/multiformats/go-multihash"
)

// The abstract value of a node, in the shape the specification gives it: an
// optional field is a list of length 0 or 1, a link its 20 byte hash.

type Person struct {
	Name  B `json:"name"`
	Email B `json:"email"`
	Date  B `json:"date"`
	TZ    B `json:"tz"`
}

type Entry struct {
	Name B `json:"name"`
	Mode B `json:"mode"`
	Hash B `json:"hash"`
}

type Tag struct {
	T       string `json:"t"`
	Object  B      `json:"object"`
	Type    B      `json:"type"`
	Tag     B      `json:"tag"`
	Tagger  Person `json:"tagger"`
	Message B      `json:"message"`
}

type Commit struct {
	T         string   `json:"t"`
	Tree      B        `json:"tree"`
	Parents   []B      `json:"parents"`
	Message   B        `json:"message"`
	Author    []Person `json:"author"`
	Committer []Person `json:"committer"`
	Encoding  []B      `json:"encoding"`
	Signature []B      `json:"signature"`
	Mergetag  []Tag    `json:"mergetag"`
	Other     []B      `json:"other"`
}

type Blob struct {
	T     string `json:"t"`
	Bytes B      `json:"bytes"`
}

type Tree struct {
	T       string  `json:"t"`
	Entries []Entry `json:"entries"`
}

// Bad stands for a node that is not a git object, or cannot be read.
type Bad struct {
	T   string `json:"t"`
	Why string `json:"why"`
}

// linkHash gives the 20 bytes of a link to a git object; any other link gives
// something longer, so that it equals no hash.
func linkHash(l datamodel.Link) B {
	cl, ok := l.(cidlink.Link)
	if !ok {
		return append(bytes.Repeat([]byte{255}, 21), fmt.Sprintf("%T", l)...)
	}
	c := cl.Cid
	if !c.Defined() {
		return append(bytes.Repeat([]byte{255}, 21), "undefined"...)
	}
	p := c.Prefix()
	d, err := mh.Decode(c.Hash())
	if err != nil || p.Version != 1 || p.Codec != cid.GitRaw || d.Code != mh.SHA1 || len(d.Digest) != 20 {
		return append(bytes.Repeat([]byte{255}, 21), c.Bytes()...)
	}
	return append(B(nil), d.Digest...)
}

func hashCid(h []byte) cid.Cid {
	m, err := mh.Encode(h, mh.SHA1)
	if err != nil {
		panic(err)
	}
	return cid.NewCidV1(cid.GitRaw, m)
}

// A getter reads the field of a map node in one of the ways there are. A nil
// node without an error means that the field is not there.
type getter func(n datamodel.Node, key string) (datamodel.Node, error)

func byLookup(n datamodel.Node, key string) (datamodel.Node, error) {
	v, err := n.LookupByString(key)
	if err != nil {
		var e1 datamodel.ErrNotExists
		var e2 schema.ErrInvalidKey
		if errors.As(err, &e1) || errors.As(err, &e2) {
			return nil, nil
		}
		return nil, err
	}
	if v == nil {
		return nil, fmt.Errorf("lookup of %q gave nothing", key)
	}
	if v.IsAbsent() {
		return nil, nil
	}
	return v, nil
}

func byIter(n datamodel.Node, key string) (datamodel.Node, error) {
	it := n.MapIterator()
	if it == nil {
		return nil, errors.New("no map iterator")
	}
	var out datamodel.Node
	seen := false
	for i := 0; !it.Done(); i++ {
		if i > 1<<20 {
			return nil, errors.New("endless map iterator")
		}
		k, v, err := it.Next()
		if err != nil {
			return nil, err
		}
		ks, err := k.AsString()
		if err != nil {
			return nil, err
		}
		if ks == key {
			if seen {
				return nil, fmt.Errorf("iterator gave %q twice", key)
			}
			seen = true
			if !v.IsAbsent() {
				out = v
			}
		}
	}
	return out, nil
}

type failure struct{ err error }

// rdr reads a node's fields and collects the first error.
type rdr struct {
	get getter
	fld map[string]bool
}

func (r rdr) must(n datamodel.Node, key string) datamodel.Node {
	v, err := r.get(n, key)
	if err != nil {
		panic(failure{err})
	}
	if v == nil {
		panic(failure{fmt.Errorf("no field %q", key)})
	}
	return v
}

func (r rdr) opt(n datamodel.Node, key string) []datamodel.Node {
	v, err := r.get(n, key)
	if err != nil {
		panic(failure{err})
	}
	if v == nil {
		return nil
	}
	return []datamodel.Node{v}
}

func str(n datamodel.Node) B {
	s, err := n.AsString()
	if err != nil {
		panic(failure{err})
	}
	return B(s)
}

func lnk(n datamodel.Node) B {
	l, err := n.AsLink()
	if err != nil {
		panic(failure{err})
	}
	return linkHash(l)
}

func list(n datamodel.Node, byIndex bool) []datamodel.Node {
	out := []datamodel.Node{}
	if n.Kind() != datamodel.Kind_List {
		panic(failure{fmt.Errorf("a list has kind %s", n.Kind())})
	}
	if byIndex {
		for i := int64(0); i < n.Length(); i++ {
			v, err := n.LookupByIndex(i)
			if err != nil {
				panic(failure{err})
			}
			out = append(out, v)
		}
		return out
	}
	it := n.ListIterator()
	for i := int64(0); !it.Done(); i++ {
		j, v, err := it.Next()
		if err != nil {
			panic(failure{err})
		}
		if i != j {
			panic(failure{fmt.Errorf("list iterator gave index %d for %d", j, i)})
		}
		out = append(out, v)
	}
	return out
}

// onlyKeys fails if a map has keys other than the given ones.
func onlyKeys(n datamodel.Node, keys ...string) {
	if n.Kind() != datamodel.Kind_Map {
		panic(failure{fmt.Errorf("a map has kind %s", n.Kind())})
	}
	it := n.MapIterator()
	for i := 0; !it.Done(); i++ {
		if i > 1000 {
			panic(failure{errors.New("endless map iterator")})
		}
		k, _, err := it.Next()
		if err != nil {
			panic(failure{err})
		}
		ks := string(str(k))
		ok := false
		for _, x := range keys {
			ok = ok || x == ks
		}
		if !ok {
			panic(failure{fmt.Errorf("unexpected key %q", ks)})
		}
	}
}

var personKeys = []string{"name", "email", "date", "timezone"}
var tagKeys = []string{"object", "type", "tag", "tagger", "message"}
var commitKeys = []string{"tree", "parents", "message", "author", "committer", "encoding", "signature", "mergetag", "other"}
var entryKeys = []string{"mode", "hash"}

func (r rdr) person(n datamodel.Node) Person {
	onlyKeys(n, personKeys...)
	return Person{Name: str(r.must(n, "name")), Email: str(r.must(n, "email")),
		Date: str(r.must(n, "date")), TZ: str(r.must(n, "timezone"))}
}

func (r rdr) tag(n datamodel.Node) Tag {
	onlyKeys(n, tagKeys...)
	return Tag{T: "tag", Object: lnk(r.must(n, "object")), Type: str(r.must(n, "type")), Tag: str(r.must(n, "tag")),
		Tagger: r.person(r.must(n, "tagger")), Message: str(r.must(n, "message"))}
}

func (r rdr) commit(n datamodel.Node, byIndex bool) Commit {
	onlyKeys(n, commitKeys...)
	c := Commit{T: "commit", Tree: lnk(r.must(n, "tree")), Parents: []B{}, Message: str(r.must(n, "message")),
		Author: []Person{}, Committer: []Person{}, Encoding: []B{}, Signature: []B{}, Mergetag: []Tag{}, Other: []B{}}
	for _, p := range list(r.must(n, "parents"), byIndex) {
		c.Parents = append(c.Parents, lnk(p))
	}
	for _, v := range r.opt(n, "author") {
		c.Author = append(c.Author, r.person(v))
	}
	for _, v := range r.opt(n, "committer") {
		c.Committer = append(c.Committer, r.person(v))
	}
	for _, v := range r.opt(n, "encoding") {
		c.Encoding = append(c.Encoding, str(v))
	}
	for _, v := range r.opt(n, "signature") {
		c.Signature = append(c.Signature, str(v))
	}
	for _, v := range list(r.must(n, "mergetag"), byIndex) {
		c.Mergetag = append(c.Mergetag, r.tag(v))
	}
	for _, v := range list(r.must(n, "other"), byIndex) {
		c.Other = append(c.Other, str(v))
	}
	return c
}

// tree reads the entries in the order of the iterator; the getter decides how
// each of them is then read.
func (r rdr) tree(n datamodel.Node) Tree {
	t := Tree{T: "tree", Entries: []Entry{}}
	if n.Kind() != datamodel.Kind_Map {
		panic(failure{fmt.Errorf("a tree has kind %s", n.Kind())})
	}
	it := n.MapIterator()
	for i := 0; !it.Done(); i++ {
		if i > 1<<20 {
			panic(failure{errors.New("endless map iterator")})
		}
		k, v, err := it.Next()
		if err != nil {
			panic(failure{err})
		}
		name := str(k)
		if r.fld["tree"] {
			if v, err = n.LookupByString(string(name)); err != nil {
				panic(failure{err})
			}
		}
		onlyKeys(v, entryKeys...)
		t.Entries = append(t.Entries, Entry{Name: name, Mode: str(r.must(v, "mode")), Hash: lnk(r.must(v, "hash"))})
	}
	return t
}

// typeOf tells which git object a node is by what it holds.
func typeOf(n datamodel.Node) string {
	switch n.Kind() {
	case datamodel.Kind_Bytes:
		return "blob"
	case datamodel.Kind_Map:
	default:
		return "bad"
	}
	it := n.MapIterator()
	has := map[string]bool{}
	for i := 0; !it.Done() && i < 20; i++ {
		k, v, err := it.Next()
		if err != nil {
			return "bad"
		}
		ks, err := k.AsString()
		if err != nil {
			return "bad"
		}
		// The values of a tree are maps with a hash, whatever the names are
		if v.Kind() == datamodel.Kind_Map {
			if h, err := v.LookupByString("hash"); err == nil && h.Kind() == datamodel.Kind_Link {
				return "tree"
			}
		}
		has[ks] = true
	}
	switch {
	case has["object"] && has["tagger"]:
		return "tag"
	case has["tree"] && has["parents"]:
		return "commit"
	case len(has) == 0:
		return "tree"
	}
	return "bad"
}

// dump reads a node into its abstract value in one of two ways.
func dump(n datamodel.Node, lookup bool) (out any) {
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(failure); ok {
				out = Bad{"bad", f.err.Error()}
				return
			}
			out = Bad{"panic", fmt.Sprint(e)}
		}
	}()
	if n == nil {
		return Bad{"bad", "nil node"}
	}
	r := rdr{get: byIter, fld: map[string]bool{}}
	if lookup {
		r = rdr{get: byLookup, fld: map[string]bool{"tree": true}}
	}
	switch typeOf(n) {
	case "blob":
		b, err := n.AsBytes()
		if err != nil {
			panic(failure{err})
		}
		return Blob{"blob", append(B{}, b...)}
	case "tree":
		return r.tree(n)
	case "commit":
		return r.commit(n, lookup)
	case "tag":
		return r.tag(n)
	}
	return Bad{"bad", "not a git object"}
}

// dumps gives the distinct abstract values read from a node and, if it is
// typed, from its representation.
func dumps(n datamodel.Node) []any {
	var out []any
	var seen [][]byte
	add := func(v any) {
		j := mustJSON(v)
		for _, s := range seen {
			if bytes.Equal(s, j) {
				return
			}
		}
		seen = append(seen, j)
		out = append(out, v)
	}
	add(dump(n, false))
	add(dump(n, true))
	if tn, ok := n.(schema.TypedNode); ok {
		var rn datamodel.Node
		p := safe(func() { rn = tn.Representation() })
		if p != "" {
			add(Bad{"panic", p})
		} else {
			add(dump(rn, false))
			add(dump(rn, true))
		}
	}
	return out
}

// safe runs f and returns the text of a panic in it, if there was one.
func safe(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint(e)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}
