package main

// Setting up parsers: layer templates, registration, names of token types, keys of hooks.

import (
	"context"
	"encoding/json"
	"fmt"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

type setupHooks struct {
	Toks  []string `json:"toks"`
	Lits  []string `json:"lits"`
	Nodes []string `json:"nodes"`
}

type setupTpl struct {
	N     string     `json:"n"`
	Id    int        `json:"id"`
	Fail  int        `json:"fail"`
	Hooks setupHooks `json:"hooks"`
	Ask   string     `json:"ask"`
}

type setupCase struct {
	Src  string     `json:"src"`
	Regs []setupTpl `json:"regs"`
	Opts []setupTpl `json:"opts"`
	Opt  int        `json:"opt"`
	Ask  []string   `json:"ask"`
	Make []struct {
		N string `json:"n"`
		B []int  `json:"b"`
	} `json:"make"`
	User  setupHooks `json:"user"`
	Text  string     `json:"text"`
	Name  string     `json:"name"`
	Sides int        `json:"sides"`
	Full  int        `json:"full"`
	Runs  int        `json:"runs"`
}

type setupState struct {
	setups []any
	inits  []any
	log    []string
	p      *parser.Parser
	q      *source.Queue
	run    int
	pcs    map[*parser.ParseContext]bool
	alien  int // hooks that got another parse's context
}

// seen: a hook is called with these contexts
func (s *setupState) seen(ctx context.Context, pc *parser.ParseContext) {
	v, _ := ctx.Value(ctxKey{}).(int)
	if v != s.run || pc == nil || pc.Parser() != s.p || s.q != nil && pc.Sources() != s.q {
		s.alien++
	}
	s.pcs[pc] = true
}

var setupNow *setupState // templates registered by earlier cases are never used again

type recTpl struct{ t setupTpl }

type recLayer struct {
	t setupTpl
	p *parser.Parser
}

type ctxKey struct{}

func (r recTpl) Setup(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
	cs := []any{}
	for _, c := range cmds {
		args := append([]string{}, c.Arguments...)
		cs = append(cs, map[string]any{"c": c.Command, "a": args})
	}
	tt, ok := p.TokenType(r.t.Ask)
	setupNow.setups = append(setupNow.setups, map[string]any{"id": r.t.Id, "cmds": cs, "tt": tt, "ok": b2i(ok)})
	if r.t.Fail != 0 {
		return nil, llx.FormatError(900+r.t.Id, "no %d", r.t.Id)
	}
	return recLayer{r.t, p}, nil
}

func (r recLayer) Init(ctx context.Context, pc *parser.ParseContext) parser.Hooks {
	v, _ := ctx.Value(ctxKey{}).(int)
	setupNow.seen(ctx, pc)
	setupNow.inits = append(setupNow.inits, map[string]any{
		"id": r.t.Id, "ctx": v, "p": b2i(pc.Parser() == setupNow.p && r.p == setupNow.p), "q": b2i(setupNow.q == nil || pc.Sources() == setupNow.q),
	})
	return makeHooks(r.t.Id, r.t.Hooks)
}

type recNode struct {
	id   int
	name string
}

func note(format string, args ...any) {
	setupNow.log = append(setupNow.log, fmt.Sprintf(format, args...))
}

func tokText(t *parser.Token) string {
	if t == nil {
		return "nil"
	}
	l, c := t.LineCol()
	return fmt.Sprintf("%d %s %q %q %d %d", t.Type(), t.TypeName(), t.Text(), t.SourceName(), l, c)
}

func (n *recNode) NewNode(node string, t *parser.Token) error {
	note("new %d %s %s %s", n.id, n.name, node, tokText(t))
	return nil
}
func (n *recNode) HandleNode(node string, res any) error {
	note("kid %d %s %s %v", n.id, n.name, node, res)
	return nil
}
func (n *recNode) HandleToken(t *parser.Token) error {
	note("tok %d %s %s", n.id, n.name, tokText(t))
	return nil
}
func (n *recNode) EndNode() (any, error) {
	note("end %d %s", n.id, n.name)
	return n.name, nil
}

func makeHooks(id int, h setupHooks) parser.Hooks {
	res := parser.Hooks{}
	tk := func(key string) parser.TokenHook {
		return func(ctx context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
			setupNow.seen(ctx, tc.ParseContext())
			note("tk %d %s %s %d", id, key, tokText(t), b2i(tc.ParseContext().Parser() == setupNow.p))
			return true, nil, nil
		}
	}
	if len(h.Toks) > 0 {
		res.Tokens = parser.TokenHooks{}
		for _, k := range h.Toks {
			res.Tokens[k] = tk("type:" + k)
		}
	}
	if len(h.Lits) > 0 {
		res.Literals = parser.TokenHooks{}
		for _, k := range h.Lits {
			res.Literals[k] = tk("text:" + k)
		}
	}
	if len(h.Nodes) > 0 {
		res.Nodes = parser.NodeHooks{}
		for _, k := range h.Nodes {
			res.Nodes[k] = func(ctx context.Context, node string, t *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
				setupNow.seen(ctx, nc.ParseContext())
				note("open %d %s %s %s %v", id, k, node, tokText(t), nc.NodeStack())
				return &recNode{id, node}, nil
			}
		}
	}
	return res
}

func runSetup(raw json.RawMessage) result {
	var c setupCase
	must(json.Unmarshal(raw, &c))
	st := &setupState{setups: []any{}, inits: []any{}, log: []string{}}
	setupNow = st
	regs := []int{}
	for _, r := range c.Regs {
		regs = append(regs, errInfo(parser.RegisterHookLayer(r.N, recTpl{r}))["code"].(int))
	}
	res := result{"ok": 0, "made": 0, "regs": regs, "runs": []any{}}
	g, e := langdef.ParseString("desc", c.Src)
	if e != nil {
		return res
	}
	res["ok"] = 1
	toks := []any{}
	for _, t := range g.Tokens {
		toks = append(toks, map[string]any{"n": t.Name, "lit": b2i(t.Flags&grammar.LiteralToken != 0), "side": b2i(t.Flags&grammar.SideToken != 0), "err": b2i(t.Flags&grammar.ErrorToken != 0)})
	}
	res["toks"] = toks
	opts := []parser.Option{}
	if c.Opt != 0 {
		m := map[string]parser.HookLayerTemplate{}
		for _, o := range c.Opts {
			m[o.N] = recTpl{o}
		}
		opts = append(opts, parser.WithLayerTemplates(m))
	}
	p, e := parser.New(g, opts...)
	res["err"] = errInfo(e)
	res["setups"] = st.setups
	if e != nil {
		res["nil"] = b2i(p == nil)
		return res
	}
	res["made"] = 1
	st.p = p
	same := len(p.Tokens()) == len(g.Tokens)
	for i := range g.Tokens {
		same = same && p.Tokens()[i] == g.Tokens[i]
	}
	res["same"] = b2i(same)
	types := []any{}
	for _, n := range c.Ask {
		tt, ok := p.TokenType(n)
		types = append(types, map[string]any{"n": n, "t": tt, "ok": b2i(ok)})
	}
	res["types"] = types
	valid := []any{}
	for tt := lexer.LowestTokenType - 4; tt < len(g.Tokens)+3; tt++ {
		valid = append(valid, map[string]any{"t": tt, "valid": b2i(p.IsValidType(tt)), "special": b2i(p.IsSpecialType(tt)), "side": b2i(p.IsSideType(tt))})
	}
	res["valid"] = valid
	made := []any{}
	for _, m := range c.Make {
		t, e := p.MakeToken(m.N, toBytes(m.B))
		x := map[string]any{"n": m.N, "b": m.B, "code": errInfo(e)["code"], "t": 0, "tn": "", "x": []int{}, "src": "", "line": 0, "col": 0, "nil": b2i(t == nil)}
		if t != nil {
			x["t"], x["tn"], x["x"], x["src"] = t.Type(), t.TypeName(), toInts([]byte(t.Text())), t.SourceName()
			x["line"], x["col"] = t.LineCol()
			if string(t.Content()) != t.Text() {
				x["src"] = "content and text differ"
			}
		}
		made = append(made, x)
	}
	res["make"] = made

	popts := []parser.ParseOption{}
	if c.Sides != 0 {
		popts = append(popts, parser.WithSides())
	}
	if c.Full != 0 {
		popts = append(popts, parser.WithFullSource())
	}
	runs := []any{}
	for i := 0; i < 2*c.Runs; i++ {
		st.inits, st.log, st.q = []any{}, []string{}, nil
		st.run, st.pcs, st.alien = i+1, map[*parser.ParseContext]bool{}, 0
		ctx := context.WithValue(context.Background(), ctxKey{}, i+1)
		var r any
		var e error
		pos := 0
		if i%2 == 0 {
			q := source.NewQueue().Append(source.New(c.Name, []byte(c.Text)))
			st.q = q
			r, e = p.Parse(ctx, q, makeHooks(0, c.User), popts...)
			pos = q.SourcePos().Pos()
		} else {
			r, e = p.ParseString(ctx, c.Name, c.Text, makeHooks(0, c.User), popts...)
		}
		runs = append(runs, map[string]any{"inits": st.inits, "log": st.log, "err": errInfo(e), "res": fmt.Sprint(r), "pos": pos, "pcs": len(st.pcs), "alien": st.alien})
	}
	res["runs"] = runs
	return res
}

func init() { handlers["setup"] = runSetup }
