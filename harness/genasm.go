package main

import "strings"

// asm gives sequences of calls to a builder: mostly those that assemble a
// value, in one of the many ways there are, with calls in between that have to
// be refused. Whether a call makes sense is for the specification to say.
type asmGen struct {
	*Gen
	cmds []Cmd
}

func (a *asmGen) do(c Cmd) {
	if c.Key == nil {
		c.Key = B{}
	}
	if c.Val.K == "" {
		c.Val = dmMap()
	}
	a.cmds = append(a.cmds, c)
}

// A call that is refused in most places where a value is wanted
func (a *asmGen) faultyValue() {
	switch a.Intn(8) {
	case 0:
		a.do(Cmd{Op: "assign", Val: dmScalar("null", nil)})
	case 1:
		a.do(Cmd{Op: "node", Form: "absent"})
	case 2:
		a.do(Cmd{Op: "beglist", I: a.Intn(3) - 1})
	case 3:
		a.do(Cmd{Op: "begmap", I: a.Intn(3) - 1})
	case 4:
		a.do(Cmd{Op: "node", Form: "any", Val: a.pick2(dmScalar("int", []byte("3")), dmScalar("bool", []byte("true")))})
	case 5:
		a.do(Cmd{Op: "build"})
	case 6:
		ty := a.anyType()
		a.do(Cmd{Op: "node", Form: a.pick("type", "repr"), Ty: ty, Val: a.val(ty, vopt{})})
	default:
		a.do(Cmd{Op: "assign", Val: a.anyVal(0)})
	}
}

func (a *asmGen) value(ty string, v DM, fits bool, faults float64) {
	if a.p(faults) {
		a.faultyValue()
	}
	composite := v.K == "map" || v.K == "list"
	switch x := a.Float64(); {
	case composite && x < 0.6:
	case fits && x < 0.8:
		f := a.pick("type", "repr", "any", "foreign")
		if f == "any" || f == "foreign" {
			a.do(Cmd{Op: "node", Form: f, Val: v})
		} else {
			a.do(Cmd{Op: "node", Form: f, Ty: ty, Val: v})
		}
		return
	default:
		a.do(Cmd{Op: "assign", Val: v})
		return
	}
	hint := []int{-1, 0, len(v.Vs), len(v.Vs) + 3}[a.Intn(4)]
	if v.K == "list" {
		a.do(Cmd{Op: "beglist", I: hint})
		for _, x := range v.Vs {
			a.do(Cmd{Op: "value"})
			a.value(map[string]string{"String_List": "String", "Tag_List": "Tag", "Commit_Link_List": "Commit_Link"}[ty], x, fits, faults)
		}
		a.do(Cmd{Op: "finish"})
		return
	}
	a.do(Cmd{Op: "begmap", I: hint})
	for i, x := range v.Vs {
		k := v.Ks[i]
		if a.p(faults) {
			switch a.Intn(6) {
			case 0:
				a.do(Cmd{Op: "entry", Key: B(a.pick("nope", string(k)+" ", strings.ToUpper(string(k)), a.field(), a.field()))})
			case 1:
				a.do(Cmd{Op: "entry", Key: v.Ks[a.Intn(i+1)]})
			case 2:
				if ty != "Tree" {
					a.do(Cmd{Op: "finish"})
				}
			case 3:
				a.do(Cmd{Op: "build"})
			case 4:
				if a.p(0.2) {
					a.do(Cmd{Op: "value"})
				}
			}
		}
		sub := "TreeEntry"
		for _, f := range structFields[ty] {
			if strings.TrimSuffix(f[0], "?") == string(k) {
				sub = f[1]
			}
		}
		if a.p(0.5) {
			a.do(Cmd{Op: "entry", Key: k})
		} else {
			a.do(Cmd{Op: "key"})
			if a.p(faults) {
				a.do(Cmd{Op: "keybad", Val: a.pick2(dmScalar("int", []byte("1")), dmScalar("null", nil))})
			}
			if a.p(faults) && ty != "Tree" {
				a.do(Cmd{Op: "keystr", Key: a.pick3(a.field(), string(k)+"x", v.Ks, i)})
			}
			if a.p(0.5) {
				a.do(Cmd{Op: "keystr", Key: k})
			} else {
				a.do(Cmd{Op: "keynode", Key: k, Form: a.pick("any", "type", "repr")})
			}
			if a.p(faults * 0.1) {
				a.do(Cmd{Op: a.pick("finish", "key", "entry"), Key: k})
			}
			a.do(Cmd{Op: "value"})
		}
		a.value(sub, x, fits, faults)
	}
	a.do(Cmd{Op: "finish"})
}

func (a *asmGen) pick3(x, y string, ks []B, i int) B {
	switch a.Intn(3) {
	case 0:
		return B(x)
	case 1:
		return B(y)
	}
	return ks[a.Intn(i+1)]
}

func (g *Gen) asm() {
	again := g.suite == "again" // one builder makes several values
	a := &asmGen{Gen: g}
	g.small = again || g.p(0.9)
	defer func() { g.small = false }()
	ty := g.anyType()
	if g.p(0.5) {
		ty = g.pick("Commit", "Tag", "Tree", "PersonInfo", "Tag_List")
	}
	n := 1 + g.Intn(3)
	if again {
		ty, n = g.anyType(), 2+g.Intn(2)
	}
	for i := 0; i < n; i++ {
		v := g.shuffled(ty, g.val(ty, vopt{raw: 0.2, foreign: []float64{0, 0.3}[g.Intn(2)]}))
		fits := g.p(0.75) || again
		if !fits {
			v = g.spoil(v)
		}
		from := len(a.cmds)
		a.value(ty, v, fits, []float64{0, 0.1, 0.4}[g.Intn(3)])
		if again {
		} else if g.p(0.1) { // not finished
			a.cmds = a.cmds[:from+g.Intn(len(a.cmds)-from)+1]
		} else if g.p(0.05) { // a call is left out
			j := from + g.Intn(len(a.cmds)-from)
			a.cmds = append(a.cmds[:j:j], a.cmds[j+1:]...)
		}
		a.do(Cmd{Op: "build"})
		if g.p(0.2) {
			a.do(Cmd{Op: "build"})
		}
		if i < n-1 {
			a.do(Cmd{Op: "reset"})
		}
	}
	a.do(Cmd{Op: "recheck"})
	g.out(&Case{K: "asm", Src: "asm", Asm: &AsmCase{Ty: ty, Form: g.pick("type", "repr"), Cmds: a.cmds}})
}
