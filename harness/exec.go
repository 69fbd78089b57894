package main

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"crypto/sha1"
	"errors"
	"io"
	"os"
	"strings"
	"sync"

	blocks "github.com/ipfs/go-block-format"
	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/multicodec"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/schema"
)

var errInjected = errors.New("injected fault")

// ends are the ways a reader can fail. Only that of the first has to be found in
// the decoder's error: the others say no more than that the input has ended.
var ends = []error{errInjected, os.ErrDeadlineExceeded, io.ErrUnexpectedEOF, io.ErrClosedPipe}

// feed delivers the input in chunks, then ends or fails.
type feed struct {
	data   []byte
	chunks []int // sizes of the reads; 0 is an empty read; afterwards whatever fits
	with   bool  // deliver the end together with the last bytes
	end    error
	late   []byte // delivered if the reader is read again after it has failed
	ended  int
	got    int
}

func (f *feed) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(f.chunks) > 0 {
		c := f.chunks[0]
		if c <= n {
			f.chunks = f.chunks[1:]
			n = c
		} else {
			f.chunks[0] = c - n
		}
		if c == 0 {
			if len(f.data) > 0 {
				return 0, nil
			}
			n = len(p)
		}
	}
	if n > len(f.data) {
		n = len(f.data)
	}
	copy(p, f.data[:n])
	f.data = f.data[n:]
	f.got += n
	if len(f.data) == 0 && (n == 0 || f.with) {
		f.ended++
		if f.ended > 1000 {
			panic("the reader is read again and again after its end")
		}
		end := f.end
		if len(f.late) > 0 {
			f.data, f.late, f.end, f.with = f.late, nil, io.EOF, false
		}
		return n, end
	}
	return n, nil
}

// Case is one thing to do with the implementation; the result is the same
// record with the outcomes filled in.
type Case struct {
	ID   int    `json:"id"`
	K    string `json:"k"`
	Src  string `json:"src"`
	Inp  B      `json:"inp"`
	Cut  string `json:"cut"`
	Ch   []int  `json:"ch"`
	With bool   `json:"with"`
	Late B      `json:"late,omitempty"`
	Eps  string `json:"eps"`
	Outs []*Out `json:"outs"`

	// The inputs and results of the other kinds of cases
	E     *EncCase   `json:"e,omitempty"`
	W     *ViewCase  `json:"w,omitempty"`
	Blk   *BlkCase   `json:"blk,omitempty"`
	Wr    *WrCase    `json:"wr,omitempty"`
	Mem   *MemCase   `json:"mem,omitempty"`
	Big   *BigCase   `json:"big,omitempty"`
	Asm   *AsmCase   `json:"asm,omitempty"`
	Sess  *SessCase  `json:"sess,omitempty"`
	Store *StoreCase `json:"store,omitempty"`
	Res   any        `json:"res,omitempty"`

	reads int // readers made so far
}

type EncOut struct {
	V   string `json:"v"` // ok, same (as the input), err, panic
	Enc B      `json:"enc"`
}

type Out struct {
	Who   []string `json:"who"`
	V     string   `json:"v"` // ok, rej, panic, hang, crash
	IO    bool     `json:"io"`
	Msg   string   `json:"msg"`
	Nodes []any    `json:"nodes"`
	Encs  []EncOut `json:"encs"`
	key   string
}

func encode(n datamodel.Node) EncOut {
	var buf bytes.Buffer
	var err error
	if p := safe(func() { err = ipldgit.Encode(n, &buf) }); p != "" {
		return EncOut{V: "panic", Enc: B{}}
	}
	if err != nil {
		return EncOut{V: "err", Enc: B{}}
	}
	return EncOut{V: "ok", Enc: buf.Bytes()}
}

func encodings(n datamodel.Node) []EncOut {
	out := []EncOut{encode(n)}
	if tn, ok := n.(schema.TypedNode); ok {
		var rn datamodel.Node
		if p := safe(func() { rn = tn.Representation() }); p == "" {
			e := encode(rn)
			if e.V != out[0].V || !bytes.Equal(e.Enc, out[0].Enc) {
				out = append(out, e)
			}
		}
	}
	return out
}

type entry struct {
	name string
	run  func(c *Case) (datamodel.Node, error)
}

// reader gives the input. Where nothing is said about how it arrives, the reader is
// of a kind that depends on the number of the case and the entry point.
func (c *Case) reader() io.Reader {
	c.reads++
	if c.Cut == "eof" && len(c.Ch) == 0 && !c.With {
		switch (c.ID + c.reads) % 7 {
		case 1:
			return bytes.NewBuffer(append([]byte(nil), c.Inp...))
		case 2:
			return strings.NewReader(string(c.Inp))
		case 3:
			return bufio.NewReader(bytes.NewReader(c.Inp))
		case 4:
			return bufio.NewReaderSize(bytes.NewReader(c.Inp), 16)
		case 5:
			return struct{ io.Reader }{bytes.NewReader(c.Inp)}
		case 6:
			return io.NewSectionReader(bytes.NewReader(c.Inp), 0, int64(len(c.Inp)))
		}
		return bytes.NewReader(c.Inp)
	}
	end := io.EOF
	if c.Cut == "err" {
		end = c.failure()
	}
	return &feed{data: append([]byte(nil), c.Inp...), chunks: append([]int(nil), c.Ch...), with: c.With, late: append([]byte(nil), c.Late...), end: end}
}

func (c *Case) failure() error {
	if c.ID%2 == 0 {
		return errInjected
	}
	return ends[c.ID/2%len(ends)]
}

// surfaces says whether an error carries the failure of the reader.
func (c *Case) surfaces(err error) bool {
	return errors.Is(err, errInjected) || (c.Cut == "err" && err != nil && c.failure() != errInjected)
}

func typeWord(b []byte) string {
	i := bytes.IndexByte(b, ' ')
	if i < 0 {
		return ""
	}
	return string(b[:i])
}

var protos = map[string][2]datamodel.NodePrototype{
	"blob":   {ipldgit.Type.Blob, ipldgit.Type.Blob__Repr},
	"tree":   {ipldgit.Type.Tree, ipldgit.Type.Tree__Repr},
	"commit": {ipldgit.Type.Commit, ipldgit.Type.Commit__Repr},
	"tag":    {ipldgit.Type.Tag, ipldgit.Type.Tag__Repr},
}

func decodeInto(np datamodel.NodePrototype, dec func(datamodel.NodeAssembler, io.Reader) error, r io.Reader) (datamodel.Node, error) {
	nb := np.NewBuilder()
	if err := dec(nb, r); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

// proto is the prototype for the object in c; an input of no known type can be
// decoded into any of them.
func (c *Case) proto(repr int) datamodel.NodePrototype {
	if p, ok := protos[typeWord(c.Inp)]; ok {
		return p[repr]
	}
	return protos[[]string{"blob", "tree", "commit", "tag"}[c.ID&3]][repr]
}

func direct(na datamodel.NodeAssembler, r io.Reader) error {
	return directFrom(na, bufio.NewReader(r))
}

func directFrom(na datamodel.NodeAssembler, rd *bufio.Reader) error {
	w, err := rd.ReadString(' ')
	if err != nil {
		return err
	}
	switch strings.TrimSuffix(w, " ") {
	case "blob":
		return ipldgit.DecodeBlob(na, rd)
	case "tree":
		return ipldgit.DecodeTree(na, rd)
	case "commit":
		return ipldgit.DecodeCommit(na, rd)
	case "tag":
		return ipldgit.DecodeTag(na, rd)
	}
	return errors.New("no decoder for this type")
}

var zw [10]*zlib.Writer
var zmu sync.Mutex

func compress(b []byte, level int) []byte {
	zmu.Lock()
	defer zmu.Unlock()
	var buf bytes.Buffer
	if zw[level] == nil {
		zw[level], _ = zlib.NewWriterLevel(&buf, level)
	} else {
		zw[level].Reset(&buf)
	}
	zw[level].Write(b)
	zw[level].Close()
	return buf.Bytes()
}

var entries = []entry{
	{"ParseObject", func(c *Case) (datamodel.Node, error) { return ipldgit.ParseObject(c.reader()) }},
	{"Decode(Any)", func(c *Case) (datamodel.Node, error) {
		return decodeInto(basicnode.Prototype.Any, ipldgit.Decode, c.reader())
	}},
	{"Decode(Type)", func(c *Case) (datamodel.Node, error) { return decodeInto(c.proto(0), ipldgit.Decode, c.reader()) }},
	{"Decode(Repr)", func(c *Case) (datamodel.Node, error) { return decodeInto(c.proto(1), ipldgit.Decode, c.reader()) }},
	{"DecodeT", func(c *Case) (datamodel.Node, error) { return decodeInto(c.proto(0), direct, c.reader()) }},
	{"DecodeT(16)", func(c *Case) (datamodel.Node, error) {
		return decodeInto(c.proto(1), func(na datamodel.NodeAssembler, r io.Reader) error {
			return directFrom(na, bufio.NewReaderSize(struct{ io.Reader }{r}, 16))
		}, c.reader())
	}},
	{"Registry", func(c *Case) (datamodel.Node, error) {
		d, err := multicodec.LookupDecoder(cid.GitRaw)
		if err != nil {
			return nil, err
		}
		return decodeInto(basicnode.Prototype.Any, d, c.reader())
	}},
	// From here on the whole input has to be in memory
	{"ParseObjectFromBuffer", func(c *Case) (datamodel.Node, error) {
		return ipldgit.ParseObjectFromBuffer(append([]byte(nil), c.Inp...))
	}},
	{"ParseCompressedObject", func(c *Case) (datamodel.Node, error) {
		return ipldgit.ParseCompressedObject(bytes.NewReader(compress(c.Inp, c.ID%10)))
	}},
	{"DecodeBlock", func(c *Case) (datamodel.Node, error) {
		h := sha1.Sum(c.Inp)
		b, err := blocks.NewBlockWithCid(append([]byte(nil), c.Inp...), hashCid(h[:]))
		if err != nil {
			return nil, err
		}
		return ipldgit.DecodeBlock(b)
	}},
}

const streamEntries = 7

func (c *Case) runEntry(e entry) *Out {
	o := &Out{Who: []string{e.name}, Nodes: []any{}, Encs: []EncOut{}}
	var n datamodel.Node
	var err error
	if p := safe(func() { n, err = e.run(c) }); p != "" {
		o.V, o.Msg = "panic", p
		return o
	}
	if err != nil {
		o.V, o.Msg, o.IO = "rej", err.Error(), c.surfaces(err)
		if n != nil {
			o.V, o.Msg = "both", "an error and a node: "+o.Msg
		}
		return o
	}
	o.V = "ok"
	if n == nil {
		o.V, o.Msg = "nil", "neither an error nor a node"
		return o
	}
	o.Nodes = dumps(n)
	o.Encs = encodings(n)
	for i, e := range o.Encs {
		if e.V == "ok" && bytes.Equal(e.Enc, c.Inp) {
			o.Encs[i] = EncOut{V: "same", Enc: B{}}
		}
	}
	return o
}

func (c *Case) add(o *Out) {
	m := *o
	m.Who, m.Msg, m.key = nil, "", ""
	o.key = string(mustJSON(m))
	for _, p := range c.Outs {
		if p.key == o.key {
			p.Who = append(p.Who, o.Who...)
			return
		}
	}
	c.Outs = append(c.Outs, o)
}

func execDec(c *Case) {
	if c.Ch == nil {
		c.Ch = []int{}
	}
	for i, e := range entries {
		if i >= streamEntries && c.Cut != "eof" {
			break
		}
		switch c.Eps {
		case "all":
		case "one":
			if i != c.ID%3 {
				continue
			}
		}
		c.add(c.runEntry(e))
	}
}
