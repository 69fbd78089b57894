package main

import (
	"fmt"
	"strconv"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/schema"
)

// A view is everything a node answers when it is read. Values are numbers of
// entries in a table; 0 stands for an error, -1 for a panic.
type View struct {
	Tbl   []DM    `json:"tbl"`
	Nodes []QNode `json:"nodes"`
}

type QNode struct {
	Lvl   string `json:"lvl"` // type or repr
	Ty    string `json:"ty"`  // the schema type its prototype says, or ""
	V     int    `json:"v"`   // its value, by iteration
	Depth int    `json:"depth"`
	K     string `json:"k"`
	Len   int    `json:"len"`
	Abs   bool   `json:"abs"`
	Null  bool   `json:"null"`
	As    []Ask  `json:"as"`
	Look  []Ask  `json:"look"`
	Typed []Ask  `json:"typed"`
	It    []Pair `json:"it"` // a second iteration, step by step
	MI    bool   `json:"mi"` // there is a map iterator
	LI    bool   `json:"li"`
	Over  []int  `json:"over"` // Next after Done: 0 error
}

type Pair struct {
	Key B   `json:"key"`
	I   int `json:"i"`
	R   int `json:"r"`
}

type Ask struct {
	How string `json:"how"`
	Key B      `json:"key"`
	I   int    `json:"i"`
	R   int    `json:"r"`
}

type viewer struct {
	View
	keys []string
}

func (v *viewer) put(d DM) int {
	for i := range v.Tbl {
		if v.Tbl[i].equal(d) {
			return i + 1
		}
	}
	v.Tbl = append(v.Tbl, d)
	return len(v.Tbl)
}

// ask runs a query that gives a node or an error.
func (v *viewer) ask(f func() (datamodel.Node, error)) int {
	var n datamodel.Node
	var err error
	if p := safe(func() { n, err = f() }); p != "" {
		return -1
	}
	if err != nil {
		return 0
	}
	return v.put(toDM(n))
}

// typeFields are the names a struct is always asked for, present or not.
var typeFields = map[string][]string{
	"Commit":     {"tree", "parents", "message", "author", "committer", "encoding", "signature", "mergetag", "other"},
	"Tag":        {"object", "type", "tag", "tagger", "message"},
	"PersonInfo": {"name", "email", "date", "timezone"},
	"TreeEntry":  {"mode", "hash"},
}

func protoName(np datamodel.NodePrototype) (string, string) {
	for ty, ps := range typeProtos {
		if ps[0] == np {
			return ty, "type"
		}
		if ps[1] == np {
			return ty, "repr"
		}
	}
	return "", ""
}

var kindNames = map[datamodel.Kind]string{datamodel.Kind_Null: "null", datamodel.Kind_Bool: "bool", datamodel.Kind_Int: "int", datamodel.Kind_Float: "float",
	datamodel.Kind_String: "string", datamodel.Kind_Bytes: "bytes", datamodel.Kind_Link: "link", datamodel.Kind_Map: "map", datamodel.Kind_List: "list"}

func (v *viewer) node(n datamodel.Node, depth int, lvl string) {
	if n == nil || len(v.Nodes) > 400 {
		return
	}
	q := QNode{V: v.put(toDM(n)), Depth: depth, Lvl: lvl, As: []Ask{}, Look: []Ask{}, Typed: []Ask{}, It: []Pair{}, Over: []int{}}
	if p := safe(func() { q.Ty, _ = protoName(n.Prototype()) }); p != "" {
		q.Ty = "panic"
	}
	q.Abs, q.Null = n.IsAbsent(), n.IsNull()
	q.K = kindNames[n.Kind()]
	q.Len = int(n.Length())
	as := func(how string, f func() (DM, error)) {
		r := 0
		var d DM
		var err error
		if p := safe(func() { d, err = f() }); p != "" {
			r = -1
		} else if err == nil {
			r = v.put(d)
		}
		q.As = append(q.As, Ask{How: how, Key: B{}, R: r})
	}
	as("bool", func() (DM, error) { x, err := n.AsBool(); return dmScalar("bool", []byte(fmt.Sprint(x)[:1])), err })
	as("int", func() (DM, error) { x, err := n.AsInt(); return dmScalar("int", []byte(fmt.Sprint(x))), err })
	as("float", func() (DM, error) { x, err := n.AsFloat(); return dmScalar("float", []byte(fmt.Sprint(x))), err })
	as("string", func() (DM, error) { x, err := n.AsString(); return dmString(x), err })
	as("bytes", func() (DM, error) { x, err := n.AsBytes(); return dmScalar("bytes", x), err })
	as("link", func() (DM, error) { x, err := n.AsLink(); return dmLink(linkBytes(x)), err })

	keys := append(append([]string{}, v.keys...), typeFields[q.Ty]...)
	var kids []datamodel.Node
	if n.Kind() == datamodel.Kind_Map {
		if it := n.MapIterator(); it != nil {
			for !it.Done() && len(kids) < 300 {
				k, x, err := it.Next()
				if err != nil {
					break
				}
				ks, _ := k.AsString()
				keys = append(keys, ks)
				kids = append(kids, x)
			}
		}
	}
	seen := map[string]bool{}
	for _, k := range keys {
		if seen[k] {
			continue
		}
		seen[k] = true
		q.Look = append(q.Look, Ask{"string", B(k), 0, v.ask(func() (datamodel.Node, error) { return n.LookupByString(k) })})
		q.Look = append(q.Look, Ask{"segment", B(k), 0, v.ask(func() (datamodel.Node, error) { return n.LookupBySegment(datamodel.PathSegmentOfString(k)) })})
		kn, _ := dmString(k).build(ipldgit.Type.String, false)
		q.Look = append(q.Look, Ask{"node", B(k), 0, v.ask(func() (datamodel.Node, error) { return n.LookupByNode(kn) })})
		q.Look = append(q.Look, Ask{"basicnode", B(k), 0, v.ask(func() (datamodel.Node, error) { return n.LookupByNode(basicnode.NewString(k)) })})
	}
	top := int64(3)
	if n.Kind() == datamodel.Kind_List && n.Length() >= 0 {
		top = min(n.Length(), 40) + 2
	}
	for i := int64(-1); i < top; i++ {
		q.Look = append(q.Look, Ask{"index", B{}, int(i), v.ask(func() (datamodel.Node, error) { return n.LookupByIndex(i) })})
		q.Look = append(q.Look, Ask{"nodei", B(strconv.Itoa(int(i))), int(i), v.ask(func() (datamodel.Node, error) { return n.LookupByNode(basicnode.NewInt(i)) })})
		if i >= 0 {
			q.Look = append(q.Look, Ask{"segmenti", B(strconv.Itoa(int(i))), int(i), v.ask(func() (datamodel.Node, error) { return n.LookupBySegment(datamodel.PathSegmentOfInt(i)) })})
			q.Look = append(q.Look, Ask{"segmentsi", B(strconv.Itoa(int(i))), int(i), v.ask(func() (datamodel.Node, error) {
				return n.LookupBySegment(datamodel.PathSegmentOfString(strconv.Itoa(int(i))))
			})})
		}
	}
	safe(func() {
		if mi := n.MapIterator(); mi != nil {
			q.MI = true
			for i := 0; i < 300 && !mi.Done(); i++ {
				k, x, err := mi.Next()
				if err != nil {
					q.It = append(q.It, Pair{B{}, i, 0})
					return
				}
				ks, err := k.AsString()
				if err != nil {
					q.It = append(q.It, Pair{B{}, i, -2})
					return
				}
				q.It = append(q.It, Pair{B(ks), i, v.put(toDM(x))})
			}
			for i := 0; i < 2; i++ {
				r := -1
				safe(func() {
					_, x, err := mi.Next()
					if err != nil {
						r = 0
					} else {
						r = v.put(toDM(x))
					}
				})
				q.Over = append(q.Over, r)
			}
		}
	})
	safe(func() {
		if li := n.ListIterator(); li != nil {
			q.LI = true
			for i := 0; i < 300 && !li.Done(); i++ {
				j, x, err := li.Next()
				if err != nil {
					q.It = append(q.It, Pair{B{}, i, 0})
					return
				}
				if n.Kind() == datamodel.Kind_List {
					kids = append(kids, x)
				}
				q.It = append(q.It, Pair{B{}, int(j), v.put(toDM(x))})
			}
			for i := 0; i < 2; i++ {
				r := -1
				safe(func() {
					_, x, err := li.Next()
					if err != nil {
						r = 0
					} else {
						r = v.put(toDM(x))
					}
				})
				q.Over = append(q.Over, r)
			}
		}
	})
	v.typed(&q, n)
	v.Nodes = append(v.Nodes, q)
	for _, k := range kids {
		if k != nil {
			v.node(k, depth+1, lvl)
		}
	}
}

// typed asks what the Go types of the package offer beyond the interface.
func (v *viewer) typed(q *QNode, n datamodel.Node) {
	add := func(how, key string, i int, f func() (datamodel.Node, error)) {
		q.Typed = append(q.Typed, Ask{how, B(key), i, v.ask(f)})
	}
	field := func(key string, f func() datamodel.Node) {
		add("field", key, 0, func() (datamodel.Node, error) { return f(), nil })
	}
	text := func(f func() DM) {
		r := -1
		safe(func() { r = v.put(f()) })
		q.Typed = append(q.Typed, Ask{"self", B{}, 0, r})
	}
	type maybe interface {
		Exists() bool
		IsNull() bool
		IsAbsent() bool
		AsNode() datamodel.Node
	}
	opt := func(key string, m maybe, must func() datamodel.Node) {
		add("field", key, 0, func() (datamodel.Node, error) { return m.AsNode(), nil })
		b := 0
		if m.Exists() {
			b |= 1
		}
		if m.IsAbsent() {
			b |= 2
		}
		if m.IsNull() {
			b |= 4
		}
		q.Typed = append(q.Typed, Ask{"maybe", B(key), b, v.ask(func() (datamodel.Node, error) { return must(), nil })})
	}
	switch x := n.(type) {
	case ipldgit.Commit:
		field("tree", func() datamodel.Node { return x.FieldTree() })
		field("parents", func() datamodel.Node { return x.FieldParents() })
		field("message", func() datamodel.Node { return x.FieldMessage() })
		opt("author", x.FieldAuthor(), func() datamodel.Node { return x.FieldAuthor().Must() })
		opt("committer", x.FieldCommitter(), func() datamodel.Node { return x.FieldCommitter().Must() })
		opt("encoding", x.FieldEncoding(), func() datamodel.Node { return x.FieldEncoding().Must() })
		opt("signature", x.FieldSignature(), func() datamodel.Node { return x.FieldSignature().Must() })
		field("mergetag", func() datamodel.Node { return x.FieldMergetag() })
		field("other", func() datamodel.Node { return x.FieldOther() })
	case ipldgit.Tag:
		field("object", func() datamodel.Node { return x.FieldObject() })
		field("type", func() datamodel.Node { return x.FieldType() })
		field("tag", func() datamodel.Node { return x.FieldTag() })
		field("tagger", func() datamodel.Node { return x.FieldTagger() })
		field("message", func() datamodel.Node { return x.FieldMessage() })
	case ipldgit.PersonInfo:
		field("name", func() datamodel.Node { return x.FieldName() })
		field("email", func() datamodel.Node { return x.FieldEmail() })
		field("date", func() datamodel.Node { return x.FieldDate() })
		field("timezone", func() datamodel.Node { return x.FieldTimezone() })
		r := -1
		safe(func() { r = v.put(dmString(x.GitString())) })
		q.Typed = append(q.Typed, Ask{"git", B{}, 0, r})
	case ipldgit.TreeEntry:
		field("mode", func() datamodel.Node { return x.FieldMode() })
		field("hash", func() datamodel.Node { return x.FieldHash() })
	case ipldgit.String:
		text(func() DM { return dmString(x.String()) })
	case ipldgit.GpgSig:
		text(func() DM { return dmString(x.String()) })
	case ipldgit.Blob:
		text(func() DM { return dmScalar("bytes", x.Bytes()) })
	case ipldgit.Link:
		text(func() DM { return dmLink(linkBytes(x.Link())) })
	case ipldgit.Tree_Link:
		text(func() DM { return dmLink(linkBytes(x.Link())) })
		q.Typed = append(q.Typed, Ask{"target", B(target(x)), 0, 0})
	case ipldgit.Commit_Link:
		text(func() DM { return dmLink(linkBytes(x.Link())) })
		q.Typed = append(q.Typed, Ask{"target", B(target(x)), 0, 0})
	case ipldgit.Tree:
		for _, k := range append([]string{"no such name"}, v.mapKeys(q)...) {
			kn, _ := dmString(k).build(ipldgit.Type.String, false)
			ks := kn.(ipldgit.String)
			add("field", k, 0, func() (datamodel.Node, error) {
				if e := x.Lookup(ks); e != nil {
					return e, nil
				}
				return nil, errRefused
			})
			add("field", k, 0, func() (datamodel.Node, error) {
				m := x.LookupMaybe(ks)
				if m.IsAbsent() {
					return nil, errRefused
				}
				return m.Must(), nil
			})
		}
		it := x.Iterator()
		for i := 0; !it.Done() && i < 300; i++ {
			k, e := it.Next()
			q.Typed = append(q.Typed, Ask{"entry", B(k.String()), i, v.put(toDM(e))})
		}
		k, e := it.Next()
		if k != nil || e != nil {
			q.Typed = append(q.Typed, Ask{"entry", B("?"), -5, -1})
		}
	case ipldgit.Tag_List:
		v.listOf(q, x.Length(), func(i int64) datamodel.Node { return nilable(x.Lookup(i)) }, func(i int64) datamodel.Node {
			m := x.LookupMaybe(i)
			if m == nil || !m.Exists() {
				return nil
			}
			return m.AsNode()
		},
			func() func() (int64, datamodel.Node, bool) {
				it := x.Iterator()
				return func() (int64, datamodel.Node, bool) {
					if it.Done() {
						return 0, nil, false
					}
					i, e := it.Next()
					return i, e, true
				}
			}())
	case ipldgit.String_List:
		v.listOf(q, x.Length(), func(i int64) datamodel.Node { return nilable(x.Lookup(i)) }, func(i int64) datamodel.Node {
			m := x.LookupMaybe(i)
			if m == nil || !m.Exists() {
				return nil
			}
			return m.AsNode()
		},
			func() func() (int64, datamodel.Node, bool) {
				it := x.Iterator()
				return func() (int64, datamodel.Node, bool) {
					if it.Done() {
						return 0, nil, false
					}
					i, e := it.Next()
					return i, e, true
				}
			}())
	case ipldgit.Commit_Link_List:
		v.listOf(q, x.Length(), func(i int64) datamodel.Node { return nilable(x.Lookup(i)) }, func(i int64) datamodel.Node {
			m := x.LookupMaybe(i)
			if m == nil || !m.Exists() {
				return nil
			}
			return m.AsNode()
		},
			func() func() (int64, datamodel.Node, bool) {
				it := x.Iterator()
				return func() (int64, datamodel.Node, bool) {
					if it.Done() {
						return 0, nil, false
					}
					i, e := it.Next()
					return i, e, true
				}
			}())
	}
}

func target(n any) string {
	t, ok := n.(schema.TypedLinkNode)
	if !ok {
		return "none"
	}
	ty, lvl := protoName(t.LinkTargetNodePrototype())
	return ty + "/" + lvl
}

func nilable[T any, P interface {
	*T
	datamodel.Node
}](p P) datamodel.Node {
	if p == nil {
		return nil
	}
	return p
}

func (v *viewer) mapKeys(q *QNode) (out []string) {
	for _, k := range v.Tbl[q.V-1].Ks {
		out = append(out, string(k))
	}
	return
}

func (v *viewer) listOf(q *QNode, n int64, look, may func(int64) datamodel.Node, next func() (int64, datamodel.Node, bool)) {
	for i := int64(0); i < min(n, 40)+2; i++ {
		for _, f := range []func(int64) datamodel.Node{look, may} {
			r := v.ask(func() (datamodel.Node, error) {
				if e := f(i); e != nil {
					return e, nil
				}
				return nil, errRefused
			})
			q.Typed = append(q.Typed, Ask{"index", B{}, int(i), r})
		}
	}
	for c := int64(0); c < 300; c++ {
		i, e, ok := next()
		if !ok {
			break
		}
		r := v.put(toDM(e))
		if i != c {
			r = -1
		}
		q.Typed = append(q.Typed, Ask{"index", B{}, int(i), r})
	}
}

// view records a node and its representation.
func view(n datamodel.Node, keys []string) *View {
	v := &viewer{keys: append([]string{"", "no such key", "0", "message", "name", "hash"}, keys...)}
	v.Tbl, v.Nodes = []DM{}, []QNode{}
	v.node(n, 0, "type")
	if tn, ok := n.(schema.TypedNode); ok {
		var rn datamodel.Node
		if p := safe(func() { rn = tn.Representation() }); p == "" {
			v.node(rn, 0, "repr")
		}
	}
	return &v.View
}
