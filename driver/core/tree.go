package main

import (
	"encoding/json"

	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

func init() {
	handlers["tree"] = runTree
}

type treeElem struct {
	N int    `json:"n"` // 1 for a node
	T string `json:"t"` // type name
	X string `json:"x"` // text
}

type treeOp struct {
	O string          `json:"o"`
	A []int           `json:"a"`
	F []int           `json:"f"` // walker flags
	U int             `json:"u"` // unique
	S []transformer   `json:"s"` // selector
	R json.RawMessage `json:"r,omitempty"`
}

type filterExpr struct {
	K string       `json:"k"`
	N []string     `json:"n"`
	F []filterExpr `json:"f"`
}

type extractExpr struct {
	K string        `json:"k"`
	E []extractExpr `json:"e"`
	I []int         `json:"i"`
}

type transformer struct {
	K string      `json:"k"`
	F filterExpr  `json:"f"`
	E extractExpr `json:"e"`
}

func makeFilter(f filterExpr) tree.Filter {
	sub := make([]tree.Filter, len(f.F))
	for i, x := range f.F {
		sub[i] = makeFilter(x)
	}
	switch f.K {
	case "isa":
		return tree.IsA(f.N...)
	case "lit":
		return tree.IsALiteral(f.N...)
	case "not":
		return tree.IsNot(sub[0])
	case "any":
		return tree.IsAny(sub...)
	case "all":
		return tree.IsAll(sub...)
	}
	return func(tree.Element) bool { return true }
}

func makeExtractor(e extractExpr) tree.Extractor {
	sub := make([]tree.Extractor, len(e.E))
	for i, x := range e.E {
		sub[i] = makeExtractor(x)
	}
	switch e.K {
	case "any":
		return tree.Any(sub...)
	case "all":
		return tree.All(sub...)
	case "nth":
		return tree.Nth(sub[0], e.I...)
	case "anc":
		return tree.Ancestors
	case "prev":
		return tree.PrevSiblings
	case "next":
		return tree.NextSiblings
	}
	return tree.Children
}

func makeSelector(ts []transformer, unique bool) *tree.Selector {
	s := tree.NewSelector()
	for _, t := range ts {
		switch t.K {
		case "filter":
			s.Filter(makeFilter(t.F))
		case "extract":
			s.Extract(makeExtractor(t.E))
		case "search":
			s.Search(makeFilter(t.F))
		case "deep":
			s.DeepSearch(makeFilter(t.F))
		}
	}
	if unique {
		s.Unique()
	}
	return s
}

func runTree(raw json.RawMessage) result {
	var c struct {
		Elems []treeElem `json:"elems"`
		Ops   []treeOp   `json:"ops"`
	}
	must(json.Unmarshal(raw, &c))
	n := len(c.Elems)
	els := make([]tree.Element, n+1)
	index := map[tree.Element]int{}
	for i, e := range c.Elems {
		tok := lexer.NewToken(0, e.T, []byte(e.X), source.Pos{})
		if e.N == 1 {
			els[i+1] = tree.NewNodeElement(e.T, tok)
		} else {
			els[i+1] = tree.NewTokenElement(tok)
		}
		index[els[i+1]] = i + 1
	}
	node := func(i int) tree.NodeElement {
		if i == 0 {
			return nil
		}
		return els[i].(tree.NodeElement)
	}
	id := func(e tree.Element) int {
		if e == nil {
			return 0
		}
		i, has := index[e]
		if !has {
			return -1
		}
		return i
	}
	ids := func(es []tree.Element) []int {
		res := make([]int, len(es))
		for i, e := range es {
			res[i] = id(e)
		}
		return res
	}
	links := func() [][]int {
		res := make([][]int, n)
		for i := 1; i <= n; i++ {
			e := els[i]
			pa := 0
			if p := e.Parent(); p != nil {
				pa = id(p)
			}
			f, l := 0, 0
			if e.IsNode() {
				f = id(e.(tree.NodeElement).FirstChild())
				l = id(e.(tree.NodeElement).LastChild())
			}
			res[i-1] = []int{pa, id(e.Prev()), id(e.Next()), f, l}
		}
		return res
	}

	res := make([]any, len(c.Ops))
	for i, op := range c.Ops {
		a := op.A
		var r any = 0
		switch op.O {
		case "append":
			tree.AppendSibling(els[a[0]], els[a[1]])
			r = links()
		case "prepend":
			tree.PrependSibling(els[a[0]], els[a[1]])
			r = links()
		case "child":
			tree.AppendChild(node(a[0]), els[a[1]])
			r = links()
		case "add":
			node(a[0]).AddChild(els[a[1]], els[a[2]])
			r = links()
		case "remove":
			node(a[0]).RemoveChild(els[a[1]])
			r = links()
		case "detach":
			tree.Detach(els[a[0]])
			r = links()
		case "replace":
			tree.Replace(els[a[0]], els[a[1]])
			r = links()
		case "nav":
			e := els[a[0]]
			r = []any{id(tree.FirstTokenElement(e)), id(tree.LastTokenElement(e)), id(tree.NextTokenElement(e)), id(tree.PrevTokenElement(e)),
				ids(tree.Children(e)), ids(tree.Ancestors(e)), ids(tree.PrevSiblings(e)), ids(tree.NextSiblings(e))}
		case "step", "next":
			// a: root, mode, number of steps; f: flags per step
			w := tree.NewWalker(els[a[0]], tree.WalkMode(a[1]))
			seq := [][]int{}
			for _, f := range op.F {
				var st tree.WalkStat
				if op.O == "next" {
					st = w.Next()
				} else {
					st = w.Step(f)
				}
				seq = append(seq, []int{id(st.Element), st.Level})
			}
			r = seq
		case "walk":
			seq := [][]int{}
			k := 0
			tree.Walk(els[a[0]], tree.WalkMode(a[1]), func(st tree.WalkStat) tree.WalkerFlags {
				seq = append(seq, []int{id(st.Element), st.Level})
				f := 0
				if k < len(op.F) {
					f = op.F[k]
				}
				k++
				return f
			})
			r = seq
		case "select":
			in := make([]tree.Element, len(a))
			for j, x := range a {
				in[j] = els[x]
			}
			s := makeSelector(op.S, op.U == 1)
			r1 := ids(s.Apply(in...))
			r2 := ids(s.Apply(in...))
			same := len(r1) == len(r2)
			for j := 0; same && j < len(r1); j++ {
				same = r1[j] == r2[j]
			}
			if !same {
				r1 = append(r1, -2)
			}
			r = r1
		}
		res[i] = r
	}
	return result{"res": res}
}
