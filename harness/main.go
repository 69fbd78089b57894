package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"time"
)

// driver gen  -suite S -seed N -n K      write cases to stdout
// driver exec -in FILE -out FILE -skip K run the cases, append the results
func main() {
	if len(os.Args) < 2 {
		fatal("usage: driver gen|exec ...")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	suite := fs.String("suite", "", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	skip := fs.Int("skip", 0, "")
	limit := fs.Int("limit", 30, "seconds per case")
	repo := fs.String("repo", "/repo", "")
	lits := fs.String("lits", "", "")
	scale := fs.Int("scale", 1, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "gen":
		w := bufio.NewWriterSize(os.Stdout, 1<<20)
		quiet()
		generate(*suite, *seed, *n, *repo, *lits, *scale, func(c *Case) {
			w.Write(mustJSON(c))
			w.WriteByte('\n')
		})
		if err := w.Flush(); err != nil {
			fatal(err)
		}
	case "lits":
		printLits(*repo)
	case "exec":
		execAll(*in, *out, *skip, time.Duration(*limit)*time.Second)
	default:
		fatal("unknown command")
	}
}

// The package under test writes to standard output
func quiet() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		fatal(err)
	}
	os.Stdout = null
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"driver:"}, a...)...)
	os.Exit(4)
}

// execAll runs the cases of a file one after the other. Each result is on disk
// before the next case begins, so that a case that ends the process is known.
func execAll(in, out string, skip int, limit time.Duration) {
	quiet()
	// Nothing here recurses with the size of an object. A decoder that does is
	// found with objects that are not huge.
	debug.SetMaxStack(4 << 20)
	f, err := os.Open(in)
	if err != nil {
		fatal(err)
	}
	w, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fatal(err)
	}
	rd := bufio.NewReaderSize(f, 1<<20)
	bw := bufio.NewWriterSize(w, 1<<20)
	for i := 0; ; i++ {
		line, err := rd.ReadBytes('\n')
		if err == io.EOF && len(line) == 0 {
			break
		}
		if err != nil {
			fatal(err)
		}
		if i < skip {
			continue
		}
		c := new(Case)
		if err := unmarshalCase(line, c); err != nil {
			fatal("bad case:", err)
		}
		c.Outs, c.Res = []*Out{}, nil
		done := make(chan string, 1)
		go func() { done <- safe(func() { execCase(c) }) }()
		t := time.NewTimer(limit)
		select {
		case p := <-done:
			t.Stop()
			if p != "" {
				fatal("the driver panicked:", p)
			}
		case <-t.C:
			c2 := new(Case)
			unmarshalCase(line, c2)
			c2.Outs = []*Out{{Who: []string{"?"}, V: "hang", Msg: "no answer", Nodes: []any{}, Encs: []EncOut{}}}
			bw.Write(mustJSON(c2))
			bw.WriteByte('\n')
			bw.Flush()
			os.Exit(5)
		}
		bw.Write(mustJSON(c))
		bw.WriteByte('\n')
		if os.Getenv("VERIF_SYNC") != "" {
			bw.Flush()
		}
	}
	if err := bw.Flush(); err != nil {
		fatal(err)
	}
}

func unmarshalCase(line []byte, c *Case) error { return json.Unmarshal(line, c) }

func execCase(c *Case) {
	switch c.K {
	case "dec":
		execDec(c)
	case "enc":
		execEnc(c)
	case "view":
		execView(c)
	case "zip":
		execZip(c)
	case "wrong":
		execWrong(c)
	case "ent":
		execEnt(c)
	case "blk":
		execBlk(c)
	case "wr":
		execWr(c)
	case "big":
		execBig(c)
	case "mem":
		execMem(c)
	case "asm":
		execAsm(c)
	case "sess":
		execSess(c)
	case "store":
		execStore(c)
	default:
		fatal("unknown kind of case", c.K)
	}
}
