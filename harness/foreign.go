package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/ipld/go-ipld-prime/datamodel"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/node/bindnode"
	"github.com/ipld/go-ipld-prime/schema"
	schemadmt "github.com/ipld/go-ipld-prime/schema/dmt"
	schemadsl "github.com/ipld/go-ipld-prime/schema/dsl"
)

// fnode is a node of another implementation: it shows a value as it is. An entry
// can be absent, as in a typed node of a schema with optional fields.
type fnode struct{ d DM }

func (n fnode) wrong(m string) error {
	return datamodel.ErrWrongKind{TypeName: "fnode", MethodName: m, ActualKind: n.Kind()}
}

func fwrap(d DM) datamodel.Node {
	switch d.K {
	case "absent":
		return datamodel.Absent
	case "null":
		return datamodel.Null
	case "map", "list", "string", "link", "bytes":
		return fnode{d}
	}
	n, err := d.build(basicnode.Prototype.Any, false)
	if err != nil {
		fatal("fwrap", err)
	}
	return n
}

func (n fnode) Kind() datamodel.Kind {
	switch n.d.K {
	case "map":
		return datamodel.Kind_Map
	case "list":
		return datamodel.Kind_List
	case "link":
		return datamodel.Kind_Link
	case "bytes":
		return datamodel.Kind_Bytes
	}
	return datamodel.Kind_String
}

func (n fnode) LookupByString(k string) (datamodel.Node, error) {
	if n.d.K != "map" {
		return nil, n.wrong("LookupByString")
	}
	for i := range n.d.Ks {
		if string(n.d.Ks[i]) == k {
			return fwrap(n.d.Vs[i]), nil
		}
	}
	return nil, datamodel.ErrNotExists{Segment: datamodel.PathSegmentOfString(k)}
}

func (n fnode) LookupByNode(k datamodel.Node) (datamodel.Node, error) {
	s, err := k.AsString()
	if err != nil {
		return nil, err
	}
	return n.LookupByString(s)
}

func (n fnode) LookupByIndex(i int64) (datamodel.Node, error) {
	if n.d.K != "list" {
		return nil, n.wrong("LookupByIndex")
	}
	if i < 0 || i >= int64(len(n.d.Vs)) {
		return nil, datamodel.ErrNotExists{Segment: datamodel.PathSegmentOfInt(i)}
	}
	return fwrap(n.d.Vs[i]), nil
}

func (n fnode) LookupBySegment(s datamodel.PathSegment) (datamodel.Node, error) {
	if n.d.K == "list" {
		i, err := s.Index()
		if err != nil {
			return nil, err
		}
		return n.LookupByIndex(i)
	}
	return n.LookupByString(s.String())
}

type fiter struct {
	n fnode
	i int
}

func (it *fiter) Done() bool { return it.i >= len(it.n.d.Vs) }
func (it *fiter) step() (int, datamodel.Node, error) {
	if it.Done() {
		return 0, nil, datamodel.ErrIteratorOverread{}
	}
	it.i++
	return it.i - 1, fwrap(it.n.d.Vs[it.i-1]), nil
}

type fmapIter struct{ fiter }

func (it *fmapIter) Next() (datamodel.Node, datamodel.Node, error) {
	i, v, err := it.step()
	if err != nil {
		return nil, nil, err
	}
	return fwrap(dmString(string(it.n.d.Ks[i]))), v, nil
}

type flistIter struct{ fiter }

func (it *flistIter) Next() (int64, datamodel.Node, error) {
	i, v, err := it.step()
	return int64(i), v, err
}

func (n fnode) MapIterator() datamodel.MapIterator {
	if n.d.K != "map" {
		return nil
	}
	return &fmapIter{fiter{n, 0}}
}
func (n fnode) ListIterator() datamodel.ListIterator {
	if n.d.K != "list" {
		return nil
	}
	return &flistIter{fiter{n, 0}}
}
func (n fnode) Length() int64 {
	if n.d.K != "list" && n.d.K != "map" {
		return -1
	}
	return int64(len(n.d.Vs))
}
func (fnode) IsAbsent() bool              { return false }
func (fnode) IsNull() bool                { return false }
func (n fnode) AsBool() (bool, error)     { return false, n.wrong("AsBool") }
func (n fnode) AsInt() (int64, error)     { return 0, n.wrong("AsInt") }
func (n fnode) AsFloat() (float64, error) { return 0, n.wrong("AsFloat") }
func (n fnode) AsString() (string, error) {
	if n.d.K != "string" {
		return "", n.wrong("AsString")
	}
	return string(n.d.S), nil
}
func (n fnode) AsBytes() ([]byte, error) {
	if n.d.K != "bytes" {
		return nil, n.wrong("AsBytes")
	}
	return append([]byte{}, n.d.S...), nil
}
func (n fnode) AsLink() (datamodel.Link, error) {
	if n.d.K != "link" {
		return nil, n.wrong("AsLink")
	}
	return n.d.link(), nil
}
func (fnode) Prototype() datamodel.NodePrototype { return basicnode.Prototype.Any }

// The schema of the package, for nodes bound to it by reflection.
var bound struct {
	once sync.Once
	ts   *schema.TypeSystem
}

const gitSchema = `
type String_List [String]
type PersonInfo struct {
	date String
	timezone String
	email String
	name String
}
type GpgSig string
type Tag struct {
	object Link
	type String
	tag String
	tagger PersonInfo
	message String
}
type Tag_List [Tag]
type Commit struct {
	tree &Tree
	parents Commit_Link_List
	message String
	author optional PersonInfo
	committer optional PersonInfo
	encoding optional String
	signature optional GpgSig
	mergetag Tag_List
	other String_List
}
type Commit_Link_List [&Commit]
type Blob bytes
type Tree {String:TreeEntry}
type TreeEntry struct {
	mode String
	hash Link
}
`

func boundProto(ty string) schema.TypedPrototype {
	bound.once.Do(func() {
		dmt, err := schemadsl.Parse("git", strings.NewReader(gitSchema))
		if err != nil {
			fatal("schema", err)
		}
		ts := new(schema.TypeSystem)
		ts.Init()
		if err := schemadmt.Compile(ts, dmt); err != nil {
			fatal("schema", err)
		}
		bound.ts = ts
	})
	return bindnode.Prototype(nil, bound.ts.TypeByName(ty))
}

// disguise holds the value of a node in another way.
func disguise(via string, ty string, d DM) (n datamodel.Node, err error) {
	switch via {
	case "foreign":
		return fwrap(d), nil
	case "optional": // with what is missing as absent entries
		if ty == "Commit" && d.K == "map" {
			d = DM{K: "map", S: B{}, Ks: append([]B{}, d.Ks...), Vs: append([]DM{}, d.Vs...)}
			for _, k := range []string{"author", "committer", "encoding", "signature"} {
				has := false
				for _, x := range d.Ks {
					has = has || string(x) == k
				}
				if !has {
					d.Ks, d.Vs = append(d.Ks, B(k)), append(d.Vs, dmScalar("absent", nil))
				}
			}
		}
		return fwrap(d), nil
	case "bind", "bindrepr":
		nb := boundProto(ty).Representation().NewBuilder()
		if err := d.assign(nb, false); err != nil {
			return nil, err
		}
		n := nb.Build().(schema.TypedNode)
		if via == "bindrepr" {
			return n.Representation(), nil
		}
		return n, nil
	case "mixed": // a generic map of this package's nodes
		if d.K != "map" {
			return d.build(basicnode.Prototype.Any, false)
		}
		nb := basicnode.Prototype.Any.NewBuilder()
		ma, err := nb.BeginMap(int64(len(d.Ks)))
		if err != nil {
			return nil, err
		}
		parts := map[string]string{"author": "PersonInfo", "committer": "PersonInfo", "tagger": "PersonInfo", "mergetag": "Tag_List", "other": "String_List",
			"parents": "Commit_Link_List", "tree": "Tree_Link", "object": "Link", "signature": "GpgSig", "message": "String", "encoding": "String", "type": "String", "tag": "String"}
		for i, k := range d.Ks {
			ea, err := ma.AssembleEntry(string(k))
			if err != nil {
				return nil, err
			}
			pt := parts[string(k)]
			if ty == "Tree" {
				pt = "TreeEntry"
			}
			var v datamodel.Node
			if pt != "" {
				v, err = d.Vs[i].build(prototype(pt, []string{"type", "repr"}[i%2]), false)
			}
			if pt == "" || err != nil {
				if v, err = d.Vs[i].build(basicnode.Prototype.Any, false); err != nil {
					return nil, err
				}
			}
			if i%3 == 2 {
				if tn, ok := v.(schema.TypedNode); ok {
					v = tn.Representation()
				}
			}
			if err := ea.AssignNode(v); err != nil {
				return nil, err
			}
		}
		if err := ma.Finish(); err != nil {
			return nil, err
		}
		return nb.Build(), nil
	}
	return nil, fmt.Errorf("unknown disguise %q", via)
}
