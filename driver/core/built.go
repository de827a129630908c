package main

import (
	"encoding/json"

	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/tree"
)

func init() {
	handlers["built"] = runBuilt
}

// dumpTree lists the elements of a tree in depth-first order with all their links.
func dumpTree(s *session, root tree.Element) (res []map[string]any, ok int) {
	ids := map[tree.Element]int{}
	var list []tree.Element
	var walk func(e tree.Element)
	ok = 1
	walk = func(e tree.Element) {
		if ids[e] != 0 || len(list) > 400000 {
			ok = 0
			return
		}
		list = append(list, e)
		ids[e] = len(list)
		if n, is := e.(tree.NodeElement); is && e.IsNode() {
			for c := n.FirstChild(); c != nil && ok == 1; c = c.Next() {
				walk(c)
			}
		}
	}
	if root != nil {
		walk(root)
	}
	id := func(e tree.Element) int {
		if e == nil {
			return 0
		}
		if i := ids[e]; i != 0 {
			return i
		}
		return -1
	}
	for _, e := range list {
		var par tree.Element
		if p := e.Parent(); p != nil {
			par = p
		}
		r := map[string]any{"node": b2i(e.IsNode()), "n": e.TypeName(), "tok": s.tok(e.Token()), "par": id(par),
			"prev": id(e.Prev()), "next": id(e.Next()), "first": 0, "last": 0}
		if n, is := e.(tree.NodeElement); is && e.IsNode() {
			r["first"], r["last"] = id(n.FirstChild()), id(n.LastChild())
		}
		res = append(res, r)
	}
	return
}

// runBuilt parses the same input twice: with recording node hooks and with the
// node hook of package tree.
func runBuilt(raw json.RawMessage) result {
	var c parseCase
	must(json.Unmarshal(raw, &c))
	rec := getParser(c.Src)
	if rec.e != nil {
		return result{"ok": 0, "err": errInfo(rec.e)}
	}
	s, q := newSession(&c)
	a := s.run(rec.p, q)

	s2, q2 := newSession(&c)
	s2.root = func(h *parser.Hooks) { h.Nodes = parser.NodeHooks{parser.AnyNode: tree.NodeHook} }
	b := s2.run(rec.p, q2)
	elems := []map[string]any{}
	ok := 1
	isEl := 0
	if el, is := s2.result.(tree.Element); is {
		isEl = 1
		elems, ok = dumpTree(s2, el)
	}
	return result{"ok": 1, "log": a["log"], "errA": a["err"].(map[string]any)["k"], "errB": b["err"].(map[string]any)["k"],
		"qa": a["q"], "qb": b["q"], "el": isEl, "linked": ok, "elems": elems}
}
