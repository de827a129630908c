package main

import (
	"encoding/json"
	"errors"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
)

func init() {
	handlers["lang"] = runLang
}

// errInfo describes an error: class llx (code, position, message) or other.
func errInfo(e error) map[string]any {
	if e == nil {
		return map[string]any{"code": 0, "msg": "", "line": 0, "col": 0, "src": "", "any": 0}
	}
	var le *llx.Error
	if errors.As(e, &le) {
		return map[string]any{"code": le.Code, "msg": le.Message, "line": le.Line, "col": le.Col, "src": le.SourceName, "any": 1}
	}
	return map[string]any{"code": -1, "msg": e.Error(), "line": 0, "col": 0, "src": "", "any": 1}
}

func bits(b grammar.BitSet) []int {
	res := []int{}
	for i := 0; i < 64; i++ {
		if b&(1<<i) != 0 {
			res = append(res, i)
		}
	}
	return res
}

// dumpGrammar converts the tables to the form used by the specifications;
// rule slices are resolved so that wrong indexes show up at once.
func dumpGrammar(g *grammar.Grammar) map[string]any {
	tokens := make([]any, len(g.Tokens))
	for i, t := range g.Tokens {
		tokens[i] = map[string]any{"n": t.Name, "b": toInts([]byte(t.Name)), "re": t.Re, "g": t.Group,
			"lit": b2i(t.Flags&grammar.LiteralToken != 0), "ext": b2i(t.Flags&grammar.ExternalToken != 0),
			"side": b2i(t.Flags&grammar.SideToken != 0), "err": b2i(t.Flags&grammar.ErrorToken != 0),
			"cl": b2i(t.Flags&grammar.CaselessToken != 0), "rsv": b2i(t.Flags&grammar.ReservedToken != 0),
			"nolit": b2i(t.Flags&grammar.NoLiteralsToken != 0)}
	}
	nodes := make([]any, len(g.Nodes))
	for i, n := range g.Nodes {
		nodes[i] = map[string]any{"n": n.Name, "s": n.FirstState}
	}
	dumpRules := func(rs []grammar.Rule) [][]int {
		res := make([][]int, len(rs))
		for i, r := range rs {
			res[i] = []int{r.Token, r.State, r.Node}
		}
		return res
	}
	states := make([]any, len(g.States))
	for i, s := range g.States {
		multi := []any{}
		for _, m := range g.MultiRules[s.LowMultiRule:s.HighMultiRule] {
			multi = append(multi, map[string]any{"key": m.Token, "rules": dumpRules(g.Rules[m.LowRule:m.HighRule])})
		}
		states[i] = map[string]any{"types": bits(s.TokenTypes), "rules": dumpRules(g.Rules[s.LowRule:s.HighRule]), "multi": multi}
	}
	layers := make([]any, len(g.Layers))
	for i, l := range g.Layers {
		cmds := make([]any, len(l.Commands))
		for j, c := range l.Commands {
			args := c.Arguments
			if args == nil {
				args = []string{}
			}
			cmds[j] = map[string]any{"c": c.Command, "a": args}
		}
		layers[i] = map[string]any{"t": l.Type, "c": cmds}
	}
	return map[string]any{"tokens": tokens, "nodes": nodes, "states": states, "layers": layers}
}

func noGrammar() map[string]any {
	return map[string]any{"tokens": []any{}, "nodes": []any{}, "states": []any{}, "layers": []any{}}
}

func runLang(raw json.RawMessage) result {
	var c struct {
		Text []int  `json:"text"`
		Src  string `json:"src"`
	}
	must(json.Unmarshal(raw, &c))
	content := toBytes(c.Text)
	if c.Src != "" {
		content = []byte(c.Src)
	}
	g, e := langdef.ParseBytes("desc", content)
	if e != nil {
		return result{"ok": 0, "err": errInfo(e), "tab": noGrammar()}
	}
	return result{"ok": 1, "err": errInfo(nil), "tab": dumpGrammar(g)}
}
