package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	_ "github.com/ava12/llx/parser/layers"
	"github.com/ava12/llx/source"
)

func init() {
	handlers["parse"] = runParse
}

type extraTok struct {
	N    string `json:"n"`    // type name, "" if t is used
	T    int    `json:"t"`    // type number
	B    []int  `json:"b"`    // content
	Self int    `json:"self"` // the token received by the hook
}

type hookAction struct {
	Keep int        `json:"keep"`
	Peek int        `json:"peek"`
	X    []extraTok `json:"x"`
}

type layerConfig struct {
	Toks  []string     `json:"toks"`  // token type hooks
	Lits  []string     `json:"lits"`  // literal hooks
	Nodes []nodeConfig `json:"nodes"` // node hooks
	Prog  []hookAction `json:"prog"`  // n-th call of any token hook of the layer uses prog[n % len]
}

type nodeConfig struct {
	N string `json:"n"`
	M int    `json:"m"` // 1: makes an instance, 2: returns nil
}

type parseCase struct {
	Src    string        `json:"src"`
	Ins    [][]int       `json:"ins"`
	Hooks  []layerConfig `json:"hooks"` // user hooks, then the ones of grammar layers in order
	Sides  int           `json:"sides"`
	Full   int           `json:"full"`
	Parses int           `json:"parses"`
	FailAt int           `json:"failAt"`
	StopAt int           `json:"stopAt"` // cancel the context in this call
	Seek   int           `json:"seek"`
	NoTab  int           `json:"notab"`
	// Names of the sources, s1, s2, .. if not given
	Names []string `json:"names"`
	// FailKind chooses the error returned by a failing hook, StopKind how the context ends
	FailKind int `json:"failKind"`
	StopKind int `json:"stopKind"`
}

type ownError struct{ text string }

func (e ownError) Error() string { return e.text }

func hookError(kind, at int) error {
	text := fmt.Sprintf("hook failure %d", at)
	switch kind {
	case 1:
		return llx.NewError(999, text, "s1", 1, 1)
	case 2:
		return ownError{text}
	case 3:
		return fmt.Errorf("wrapped: %w", context.Canceled)
	case 4:
		return context.DeadlineExceeded
	}
	return errors.New(text)
}

type tokRec struct {
	T int    `json:"t"`
	N string `json:"n"`
	X []int  `json:"x"`
	S int    `json:"s"`
	P int    `json:"p"`
	L []int  `json:"lc,omitempty"`
}

// session is one parse being recorded.
type session struct {
	c         *parseCase
	sources   map[*source.Source]int
	log       []any
	calls     int
	instances int
	progPos   []int
	fail      error
	cancel    func()
	gate      func() // called before every hook call
	lineCol   bool   // tokens are recorded with lines and columns
	record    func() // called after an event is recorded
	types     []grammar.Token
	root      func(h *parser.Hooks) // changes the user's hooks
	result    any
}

type sessionKey struct{}

const nilType = -99

func (s *session) tok(t *lexer.Token) tokRec {
	if t == nil {
		return tokRec{T: nilType, X: []int{}}
	}
	r := tokRec{t.Type(), t.TypeName(), toInts(t.Content()), s.sources[t.Source()], t.Pos().Pos(), nil}
	if s.lineCol {
		line, col := t.Pos().LineCol()
		r.L = []int{line, col}
	}
	return r
}

// event records a call and tells whether the hook must fail.
func (s *session) event(e map[string]any) error {
	s.calls++
	s.log = append(s.log, e)
	if s.record != nil {
		s.record()
	}
	if s.calls == s.c.StopAt && s.cancel != nil {
		s.cancel()
	}
	if s.calls == s.c.FailAt {
		return s.fail
	}
	return nil
}

func (s *session) enter() {
	if s.gate != nil {
		s.gate()
	}
}

type instance struct {
	s  *session
	id int
}

func res2int(r any) int {
	switch v := r.(type) {
	case nil:
		return 0
	case int:
		return v
	default:
		return -1
	}
}

func (i *instance) NewNode(node string, t *lexer.Token) error {
	i.s.enter()
	return i.s.event(map[string]any{"e": "new", "i": i.id, "n": node, "tok": i.s.tok(t)})
}

func (i *instance) HandleNode(node string, result any) error {
	i.s.enter()
	return i.s.event(map[string]any{"e": "kid", "i": i.id, "n": node, "res": res2int(result)})
}

func (i *instance) HandleToken(t *lexer.Token) error {
	i.s.enter()
	return i.s.event(map[string]any{"e": "tok", "i": i.id, "tok": i.s.tok(t)})
}

func (i *instance) EndNode() (any, error) {
	i.s.enter()
	e := i.s.event(map[string]any{"e": "end", "i": i.id})
	if i.id%4 == 3 {
		return nil, e
	}
	return i.id, e
}

func (s *session) tokenHook(layer int, key string) parser.TokenHook {
	return func(ctx context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
		s.enter()
		lc := &s.c.Hooks[layer]
		act := hookAction{Keep: 1}
		if len(lc.Prog) > 0 {
			act = lc.Prog[s.progPos[layer]%len(lc.Prog)]
			s.progPos[layer]++
		}
		peeks := []any{}
		for n := 0; n < act.Peek; n++ {
			s.enter()
			p, e := tc.PeekToken()
			peeks = append(peeks, map[string]any{"tok": s.tok(p), "err": errInfo(e)["code"]})
			if e != nil {
				break
			}
		}
		e := s.event(map[string]any{"e": "tk", "l": layer, "key": key, "tok": s.tok(t), "peek": peeks})
		if e != nil {
			return true, nil, e
		}
		var extra []*lexer.Token
		for _, x := range act.X {
			switch {
			case x.Self == 1:
				extra = append(extra, t)
			case x.N != "":
				nt, e := tc.ParseContext().Parser().MakeToken(x.N, toBytes(x.B))
				must(e)
				extra = append(extra, nt)
			default:
				extra = append(extra, lexer.NewToken(x.T, "?", toBytes(x.B), source.Pos{}))
			}
		}
		return act.Keep == 1, extra, nil
	}
}

func (s *session) nodeHook(layer, mode int) parser.NodeHook {
	return func(ctx context.Context, node string, t *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
		s.enter()
		id := 0
		if mode == 1 {
			s.instances++
			id = s.instances
		}
		e := s.event(map[string]any{"e": "open", "l": layer, "i": id, "n": node, "tok": s.tok(t), "stk": nc.NodeStack()})
		if mode != 1 {
			return nil, e
		}
		return &instance{s, id}, e
	}
}

func (s *session) hooks(layer int) parser.Hooks {
	var hs parser.Hooks
	if layer >= len(s.c.Hooks) {
		return hs
	}
	lc := &s.c.Hooks[layer]
	if len(lc.Toks) > 0 {
		hs.Tokens = parser.TokenHooks{}
		for _, n := range lc.Toks {
			hs.Tokens[n] = s.tokenHook(layer, "type:"+n)
		}
	}
	if len(lc.Lits) > 0 {
		hs.Literals = parser.TokenHooks{}
		for _, n := range lc.Lits {
			hs.Literals[n] = s.tokenHook(layer, "lit:"+n)
		}
	}
	if len(lc.Nodes) > 0 {
		hs.Nodes = parser.NodeHooks{}
		for _, n := range lc.Nodes {
			hs.Nodes[n.N] = s.nodeHook(layer, n.M)
		}
	}
	return hs
}

// progLayer is a grammar layer whose hooks come from the session (found through the context).
type progLayer struct{ index int }

func (l progLayer) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}

func (l progLayer) Init(ctx context.Context, pc *parser.ParseContext) parser.Hooks {
	s, _ := ctx.Value(sessionKey{}).(*session)
	if s == nil {
		return parser.Hooks{}
	}
	return s.hooks(l.index)
}

var (
	parserLock sync.Mutex
	parsers    = map[string]*parserRec{}
)

type parserRec struct {
	src string
	g   *grammar.Grammar
	p   *parser.Parser
	e   error
	tab map[string]any
}

func getParser(src string) *parserRec {
	parserLock.Lock()
	defer parserLock.Unlock()
	rec := parsers[src]
	if rec != nil {
		return rec
	}
	if len(parsers) > 200 {
		parsers = map[string]*parserRec{}
	}
	rec = &parserRec{}
	parsers[src] = rec
	rec.g, rec.e = langdef.ParseString("desc", src)
	if rec.e != nil {
		return rec
	}
	rec.tab = dumpGrammar(rec.g)
	rec.p, rec.e = parser.New(rec.g, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{
		"lay1": progLayer{1}, "lay2": progLayer{2}, "lay3": progLayer{3}, "lay4": progLayer{4},
		"lay5": progLayer{5}, "lay6": progLayer{6}, "lay7": progLayer{7}, "lay8": progLayer{8},
	}))
	return rec
}

var (
	expRe = regexp.MustCompile(`(?s)^unexpected (end of input|("(?:[^"\\]|\\.)*") token \(("(?:[^"\\]|\\.)*")\)), expecting (.*)$`)
)

// parseErr describes the outcome of a parse.
func parseErr(e, hookErr error, ctx context.Context) map[string]any {
	res := errInfo(e)
	kind := "other"
	var le *llx.Error
	switch {
	case e == nil:
		kind = "none"
	case hookErr != nil && e == hookErr:
		kind = "hook"
	case ctx != nil && ctx.Err() != nil && e == ctx.Err():
		kind = "ctx"
	case errors.As(e, &le):
		kind = "llx"
	}
	res["k"] = kind
	res["exp"], res["got"], res["txt"] = "?", "?", "?"
	msg := res["msg"].(string)
	res["where"] = 1 // the message ends with the position, if there is one
	if le != nil && le.SourceName != "" && le.Line != 0 && le.Col != 0 {
		var ok bool
		msg, ok = strings.CutSuffix(msg, fmt.Sprintf(" in %s at line %d col %d", le.SourceName, le.Line, le.Col))
		if !ok {
			res["where"] = 0
		}
	}
	if m := expRe.FindStringSubmatch(msg); m != nil {
		res["exp"] = m[4]
		if m[2] != "" {
			res["got"], _ = strconv.Unquote(m[2])
			res["txt"], _ = strconv.Unquote(m[3])
		} else {
			res["got"], res["txt"] = "", ""
		}
	}
	res["txtb"] = toInts([]byte(res["txt"].(string)))
	return res
}

func drain(q *source.Queue, index map[*source.Source]int) [][]int {
	res := [][]int{}
	snap := q.Snapshot()
	for !q.IsEmpty() {
		res = append(res, []int{index[q.Source()], q.Pos()})
		q.NextSource()
		if len(res) > 1000 {
			break
		}
	}
	q.Restore(snap)
	return res
}

func (s *session) run(p *parser.Parser, q *source.Queue) map[string]any {
	ctx := context.WithValue(context.Background(), sessionKey{}, s)
	switch s.c.StopKind {
	case 0:
		c, cancel := context.WithCancel(ctx)
		defer cancel()
		ctx, s.cancel = c, cancel
	case 1:
		c, cancel := context.WithCancelCause(ctx)
		defer cancel(nil)
		ctx, s.cancel = c, func() { cancel(errors.New("cause")) }
	case 2:
		c, cancel := context.WithDeadline(ctx, time.Unix(1, 0))
		defer cancel()
		ctx, s.cancel = c, cancel
	}
	if s.c.StopAt < 0 {
		s.cancel()
	}
	s.fail = hookError(s.c.FailKind, s.c.FailAt)
	s.log = []any{}
	s.calls, s.instances = 0, 0
	s.progPos = make([]int, len(s.c.Hooks))
	var opts []parser.ParseOption
	if s.c.Sides == 1 {
		opts = append(opts, parser.WithSides())
	}
	if s.c.Full == 1 {
		opts = append(opts, parser.WithFullSource())
	}
	hs := s.hooks(0)
	if s.root != nil {
		s.root(&hs)
	}
	r, e := p.Parse(ctx, q, hs, opts...)
	s.result = r
	return map[string]any{"log": s.log, "res": res2int(r), "err": parseErr(e, s.fail, ctx), "q": drain(q, s.sources)}
}

func newSession(c *parseCase) (*session, *source.Queue) {
	s := &session{c: c, sources: map[*source.Source]int{}}
	q := source.NewQueue()
	for i, in := range c.Ins {
		name := "s" + strconv.Itoa(i+1)
		if i < len(c.Names) {
			name = c.Names[i]
		}
		src := source.New(name, toBytes(in))
		s.sources[src] = i + 1
		q.Append(src)
	}
	q.Seek(c.Seek)
	return s, q
}

func runParse(raw json.RawMessage) result {
	var c parseCase
	must(json.Unmarshal(raw, &c))
	rec := getParser(c.Src)
	if rec.e != nil {
		return result{"ok": 0, "err": errInfo(rec.e), "tab": noGrammar(), "runs": []any{}}
	}
	s, q := newSession(&c)
	runs := []any{}
	for n := 0; n < max(1, c.Parses); n++ {
		r := s.run(rec.p, q)
		runs = append(runs, r)
		if r["err"].(map[string]any)["k"] != "none" || q.IsEmpty() {
			break
		}
	}
	tab := rec.tab
	if c.NoTab == 1 {
		tab = noGrammar()
	}
	return result{"ok": 1, "err": errInfo(nil), "tab": tab, "runs": runs}
}
