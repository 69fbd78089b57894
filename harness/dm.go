package main

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	mh "github.com/multiformats/go-multihash"
)

// DM is a value of the IPLD data model, in the shape the specification gives
// it: kind, text of a scalar (for a link: the bytes of its CID), keys, values.
type DM struct {
	K  string `json:"k"` // null absent bool int float string bytes link map list; bad: could not be read
	S  B      `json:"s"`
	Ks []B    `json:"ks"`
	Vs []DM   `json:"vs"`
}

func dmScalar(k string, s []byte) DM { return DM{K: k, S: append(B{}, s...), Ks: []B{}, Vs: []DM{}} }
func dmString(s string) DM           { return dmScalar("string", []byte(s)) }
func dmBytes(s string) DM            { return dmScalar("bytes", []byte(s)) }
func dmLink(cidBytes []byte) DM      { return dmScalar("link", cidBytes) }
func dmGit(hash []byte) DM           { return dmLink(append([]byte{1, 0x78, 0x11, 20}, hash...)) }
func dmList(vs ...DM) DM             { return DM{K: "list", S: B{}, Ks: []B{}, Vs: append([]DM{}, vs...)} }
func dmMap(kv ...any) DM {
	m := DM{K: "map", S: B{}, Ks: []B{}, Vs: []DM{}}
	for i := 0; i < len(kv); i += 2 {
		m.Ks = append(m.Ks, B(kv[i].(string)))
		m.Vs = append(m.Vs, kv[i+1].(DM))
	}
	return m
}

// foreignLink is a link that is not a CID at all.
type foreignLink struct{ s string }

func (foreignLink) Prototype() datamodel.LinkPrototype { return nil }
func (l foreignLink) String() string                   { return l.s }
func (l foreignLink) Binary() string                   { return l.s }

// link makes the link with the given CID bytes. Bytes that are not a CID: none
// is the undefined CID; after a version and a codec, what is no multihash makes a
// CID nevertheless, as in the CID library; others are a link of another sort.
func (d DM) link() datamodel.Link {
	if len(d.S) == 0 {
		return cidlink.Link{}
	}
	n, c, err := cid.CidFromBytes(d.S)
	if err == nil && n == len(d.S) {
		return cidlink.Link{Cid: c}
	}
	if len(d.S) >= 2 && d.S[0] == 1 && d.S[1] < 0x80 {
		return cidlink.Link{Cid: cid.NewCidV1(uint64(d.S[1]), mh.Multihash(d.S[2:]))}
	}
	return foreignLink{string(d.S)}
}

func linkBytes(l datamodel.Link) B {
	if l == nil {
		return B{255, 0}
	}
	if c, ok := l.(cidlink.Link); ok {
		return append(B{}, c.Cid.Bytes()...)
	}
	if f, ok := l.(foreignLink); ok {
		return append(B{}, f.s...)
	}
	return append(B{255}, fmt.Sprintf("%T", l)...)
}

var errRefused = errors.New("refused")

// assign puts a value into an assembler, entry by entry. keys tells to use the
// AssembleKey and AssembleValue calls rather than AssembleEntry.
func (d DM) assign(na datamodel.NodeAssembler, keys bool) error {
	switch d.K {
	case "null":
		return na.AssignNull()
	case "bool":
		return na.AssignBool(len(d.S) > 0 && d.S[0] == 't')
	case "int":
		i, err := strconv.ParseInt(string(d.S), 10, 64)
		if err != nil {
			fatal("bad int", err)
		}
		return na.AssignInt(i)
	case "float":
		f, err := strconv.ParseFloat(string(d.S), 64)
		if err != nil {
			fatal("bad float", err)
		}
		return na.AssignFloat(f)
	case "string":
		return na.AssignString(string(d.S))
	case "bytes":
		return na.AssignBytes(append([]byte{}, d.S...))
	case "link":
		return na.AssignLink(d.link())
	case "map":
		ma, err := na.BeginMap(int64(len(d.Ks)))
		if err != nil {
			return err
		}
		for i, k := range d.Ks {
			var va datamodel.NodeAssembler
			if keys {
				if err := ma.AssembleKey().AssignString(string(k)); err != nil {
					return err
				}
				va = ma.AssembleValue()
			} else if va, err = ma.AssembleEntry(string(k)); err != nil {
				return err
			}
			if err := d.Vs[i].assign(va, keys); err != nil {
				return err
			}
		}
		return ma.Finish()
	case "list":
		la, err := na.BeginList(int64(len(d.Vs)))
		if err != nil {
			return err
		}
		for _, v := range d.Vs {
			if err := v.assign(la.AssembleValue(), keys); err != nil {
				return err
			}
		}
		return la.Finish()
	case "absent":
		return na.AssignNode(datamodel.Absent)
	}
	fatal("bad kind of value", d.K)
	return nil
}

// The prototypes by the names of the schema's types
var typeProtos = map[string][2]datamodel.NodePrototype{
	"String":           {ipldgit.Type.String, ipldgit.Type.String__Repr},
	"Link":             {ipldgit.Type.Link, ipldgit.Type.Link__Repr},
	"String_List":      {ipldgit.Type.String_List, ipldgit.Type.String_List__Repr},
	"PersonInfo":       {ipldgit.Type.PersonInfo, ipldgit.Type.PersonInfo__Repr},
	"GpgSig":           {ipldgit.Type.GpgSig, ipldgit.Type.GpgSig__Repr},
	"Tag":              {ipldgit.Type.Tag, ipldgit.Type.Tag__Repr},
	"Tag_List":         {ipldgit.Type.Tag_List, ipldgit.Type.Tag_List__Repr},
	"Commit":           {ipldgit.Type.Commit, ipldgit.Type.Commit__Repr},
	"Commit_Link":      {ipldgit.Type.Commit_Link, ipldgit.Type.Commit_Link__Repr},
	"Commit_Link_List": {ipldgit.Type.Commit_Link_List, ipldgit.Type.Commit_Link_List__Repr},
	"Blob":             {ipldgit.Type.Blob, ipldgit.Type.Blob__Repr},
	"Tree":             {ipldgit.Type.Tree, ipldgit.Type.Tree__Repr},
	"TreeEntry":        {ipldgit.Type.TreeEntry, ipldgit.Type.TreeEntry__Repr},
	"Tree_Link":        {ipldgit.Type.Tree_Link, ipldgit.Type.Tree_Link__Repr},
}

// prototype gives the prototype of a type at a level: "Commit/type",
// "Commit/repr", or a generic one: "Any".
func prototype(ty, level string) datamodel.NodePrototype {
	switch level {
	case "type":
		return typeProtos[ty][0]
	case "repr":
		return typeProtos[ty][1]
	}
	return basicnode.Prototype.Any
}

// build makes a node of the value.
func (d DM) build(np datamodel.NodePrototype, keys bool) (datamodel.Node, error) {
	nb := np.NewBuilder()
	if err := d.assign(nb, keys); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

// toDM reads a node by iteration.
func toDM(n datamodel.Node) (out DM) {
	defer func() {
		if e := recover(); e != nil {
			out = dmScalar("bad", []byte(fmt.Sprint(e)))
		}
	}()
	if n == nil {
		return dmScalar("bad", []byte("nil"))
	}
	if n.IsAbsent() {
		return dmScalar("absent", nil)
	}
	bad := func(err error) DM { return dmScalar("bad", []byte(err.Error())) }
	switch n.Kind() {
	case datamodel.Kind_Null:
		return dmScalar("null", nil)
	case datamodel.Kind_Bool:
		v, err := n.AsBool()
		if err != nil {
			return bad(err)
		}
		return dmScalar("bool", []byte(strconv.FormatBool(v)[:1]))
	case datamodel.Kind_Int:
		v, err := n.AsInt()
		if err != nil {
			return bad(err)
		}
		return dmScalar("int", []byte(strconv.FormatInt(v, 10)))
	case datamodel.Kind_Float:
		v, err := n.AsFloat()
		if err != nil {
			return bad(err)
		}
		return dmScalar("float", []byte(strconv.FormatFloat(v, 'g', -1, 64)))
	case datamodel.Kind_String:
		v, err := n.AsString()
		if err != nil {
			return bad(err)
		}
		return dmString(v)
	case datamodel.Kind_Bytes:
		v, err := n.AsBytes()
		if err != nil {
			return bad(err)
		}
		return dmScalar("bytes", v)
	case datamodel.Kind_Link:
		v, err := n.AsLink()
		if err != nil {
			return bad(err)
		}
		return dmLink(linkBytes(v))
	case datamodel.Kind_Map:
		m := dmMap()
		it := n.MapIterator()
		for i := 0; !it.Done(); i++ {
			if i > 1<<20 {
				return dmScalar("bad", []byte("endless"))
			}
			k, v, err := it.Next()
			if err != nil {
				return bad(err)
			}
			ks, err := k.AsString()
			if err != nil {
				return bad(err)
			}
			m.Ks = append(m.Ks, B(ks))
			m.Vs = append(m.Vs, toDM(v))
		}
		return m
	case datamodel.Kind_List:
		m := dmList()
		it := n.ListIterator()
		for i := int64(0); !it.Done(); i++ {
			if i > 1<<20 {
				return dmScalar("bad", []byte("endless"))
			}
			j, v, err := it.Next()
			if err != nil {
				return bad(err)
			}
			if i != j {
				return dmScalar("bad", []byte("index"))
			}
			m.Vs = append(m.Vs, toDM(v))
		}
		return m
	}
	return dmScalar("bad", []byte("kind"))
}

func (d DM) equal(e DM) bool {
	if d.K != e.K || !bytes.Equal(d.S, e.S) || len(d.Ks) != len(e.Ks) || len(d.Vs) != len(e.Vs) {
		return false
	}
	for i := range d.Ks {
		if !bytes.Equal(d.Ks[i], e.Ks[i]) {
			return false
		}
	}
	for i := range d.Vs {
		if !d.Vs[i].equal(e.Vs[i]) {
			return false
		}
	}
	return true
}
