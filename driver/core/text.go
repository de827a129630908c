package main

import (
	"encoding/json"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
)

func init() {
	handlers["text"] = runText
}

func strInts(s string) []int {
	return toInts([]byte(s))
}

// byteTables is dumpGrammar with all names, patterns and arguments as bytes.
func byteTables(g *grammar.Grammar) map[string]any {
	tab := dumpGrammar(g)
	tokens := tab["tokens"].([]any)
	for i, t := range g.Tokens {
		m := tokens[i].(map[string]any)
		m["n"] = strInts(t.Name)
		m["re"] = strInts(t.Re)
	}
	nodes := tab["nodes"].([]any)
	for i, n := range g.Nodes {
		nodes[i].(map[string]any)["n"] = strInts(n.Name)
	}
	layers := make([]any, len(g.Layers))
	for i, l := range g.Layers {
		cmds := make([]any, len(l.Commands))
		for j, c := range l.Commands {
			args := make([]any, len(c.Arguments))
			for k, a := range c.Arguments {
				args[k] = strInts(a)
			}
			cmds[j] = map[string]any{"c": strInts(c.Command), "a": args}
		}
		layers[i] = map[string]any{"t": strInts(l.Type), "c": cmds}
	}
	tab["layers"] = layers
	return tab
}

func runText(raw json.RawMessage) result {
	var c struct {
		Text []int `json:"text"`
	}
	must(json.Unmarshal(raw, &c))
	g, e := langdef.ParseBytes("desc", toBytes(c.Text))
	if e != nil {
		return result{"ok": 0, "err": errInfo(e), "tab": noGrammar(), "pnew": 0, "nil": b2i(g == nil)}
	}
	tab := byteTables(g)
	bare := *g
	bare.Layers = nil
	_, e = parser.New(&bare)
	return result{"ok": 1, "err": errInfo(nil), "tab": tab, "pnew": b2i(e == nil), "nil": b2i(g == nil)}
}

func init() {
	handlers["jsongram"] = func(raw json.RawMessage) result {
		var c struct {
			Text []int `json:"text"`
		}
		must(json.Unmarshal(raw, &c))
		g := &grammar.Grammar{}
		e := json.Unmarshal(toBytes(c.Text), g)
		if e != nil {
			return result{"ok": 0, "tab": noGrammar()}
		}
		return result{"ok": 1, "tab": byteTables(g)}
	}
}
