package main

import (
	"bytes"
	"context"
	"encoding/json"
	"runtime"
	"strconv"
	"sync"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

func init() {
	handlers["sessions"] = runSessions
}

type sessionCase struct {
	parseCase
	G    int    `json:"g"`    // index of the grammar
	P    int    `json:"p"`    // which of two parsers made for the grammar
	Kind string `json:"kind"` // parse, tree: parse building a tree, build: description compiled again
}

type sessionsCase struct {
	Srcs  []string      `json:"srcs"`
	Sess  []sessionCase `json:"sess"`
	Mode  string        `json:"mode"`  // seq, nest, step, conc
	Order [][]int       `json:"order"` // step: session, number of steps; nest: outer session, gate number, inner session
	Share int           `json:"share"` // same inputs are the same Source objects
	ShHk  int           `json:"shhk"`  // same hook configurations are the same Hooks value
}

type histItem struct {
	S int    `json:"s"`
	E string `json:"e"`
}

// member is a session taking part in a schedule.
type member struct {
	i       int
	c       *sessionCase
	s       *session
	q       *source.Queue
	rec     *parserRec
	p       *parser.Parser
	tab     string
	own     []histItem
	emit    func(histItem)
	gates   int
	resume  chan struct{}
	yielded chan bool
	started bool
	done    bool
}

func (m *member) put(v any) {
	data, e := json.Marshal(v)
	must(e)
	m.emit(histItem{m.i + 1, string(data)})
}

// work performs the whole session.
func (m *member) work() {
	m.put(map[string]any{"e": "start"})
	if m.c.Kind == "build" {
		g, e := langdef.ParseString("desc", m.rec.src)
		must(e)
		p, e := parser.New(g, parser.WithLayerTemplates(progLayers))
		must(e)
		data, e := json.Marshal(dumpGrammar(g))
		must(e)
		m.put(map[string]any{"e": "tables", "tab": string(data), "toks": len(p.Tokens())})
	} else {
		for n := 0; n < max(1, m.c.Parses); n++ {
			r := m.s.run(m.p, m.q)
			delete(r, "log")
			ev := map[string]any{"e": "result", "r": r}
			if el, is := m.s.result.(tree.Element); is {
				ev["tree"], ev["linked"] = dumpTree(m.s, el)
			}
			m.put(ev)
			if r["err"].(map[string]any)["k"] != "none" || m.q.IsEmpty() {
				break
			}
		}
	}
	m.done = true
}

var progLayers = map[string]parser.HookLayerTemplate{"lay1": progLayer{1}, "lay2": progLayer{2}, "lay3": progLayer{3}}

// sharedHooks makes hooks which find their session through the context.
func sharedHooks(lc *layerConfig, own parser.Hooks) parser.Hooks {
	of := func(ctx context.Context) *session { return ctx.Value(sessionKey{}).(*session) }
	var hs parser.Hooks
	for n := range own.Tokens {
		if hs.Tokens == nil {
			hs.Tokens = parser.TokenHooks{}
		}
		hs.Tokens[n] = func(ctx context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			return of(ctx).tokenHook(0, "type:"+n)(ctx, t, tc)
		}
	}
	for n := range own.Literals {
		if hs.Literals == nil {
			hs.Literals = parser.TokenHooks{}
		}
		hs.Literals[n] = func(ctx context.Context, t *lexer.Token, tc *parser.TokenContext) (bool, []*lexer.Token, error) {
			return of(ctx).tokenHook(0, "lit:"+n)(ctx, t, tc)
		}
	}
	for _, n := range lc.Nodes {
		if hs.Nodes == nil {
			hs.Nodes = parser.NodeHooks{}
		}
		hs.Nodes[n.N] = func(ctx context.Context, node string, t *lexer.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
			return of(ctx).nodeHook(0, n.M)(ctx, node, t, nc)
		}
	}
	return hs
}

func hookKeys(hs parser.Hooks) string {
	sizes := []int{len(hs.Tokens), len(hs.Literals), len(hs.Nodes)}
	keys := map[string]bool{}
	for n := range hs.Tokens {
		keys["t:"+n] = true
	}
	for n := range hs.Literals {
		keys["l:"+n] = true
	}
	for n := range hs.Nodes {
		keys["n:"+n] = true
	}
	data, e := json.Marshal([]any{sizes, keys})
	must(e)
	return string(data)
}

func tables(g *grammar.Grammar) string {
	data, e := json.Marshal(dumpGrammar(g))
	must(e)
	return string(data)
}

func runSessions(raw json.RawMessage) result {
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	var c sessionsCase
	must(json.Unmarshal(raw, &c))
	type made struct {
		rec *parserRec
		ps  [2]*parser.Parser
		tab string
	}
	gs := make([]made, len(c.Srcs))
	for i, src := range c.Srcs {
		rec := &parserRec{src: src}
		rec.g, rec.e = langdef.ParseString("desc", src)
		if rec.e != nil {
			return result{"ok": 0, "hist": []histItem{}, "same": 1, "err": errInfo(rec.e)}
		}
		gs[i] = made{rec: rec, tab: tables(rec.g)}
		for k := range gs[i].ps {
			var e error
			gs[i].ps[k], e = parser.New(rec.g, parser.WithLayerTemplates(progLayers))
			if e != nil {
				return result{"ok": 0, "hist": []histItem{}, "same": 1, "err": errInfo(e)}
			}
		}
	}

	shared := map[string]*source.Source{}
	contents := map[*source.Source][]byte{}
	hooks := map[string]parser.Hooks{}
	hist := []histItem{}
	ms := make([]*member, len(c.Sess))
	for i := range c.Sess {
		sc := &c.Sess[i]
		m := &member{i: i, c: sc, rec: gs[sc.G].rec, p: gs[sc.G].ps[sc.P]}
		ms[i] = m
		m.emit = func(h histItem) { hist = append(hist, h) }
		if sc.Kind == "build" {
			continue
		}
		s := &session{c: &sc.parseCase, sources: map[*source.Source]int{}, lineCol: true}
		q := source.NewQueue()
		for k, in := range sc.Ins {
			name := "s" + strconv.Itoa(k+1)
			key := name + ":" + string(toBytes(in))
			src := shared[key]
			if src == nil || c.Share == 0 {
				src = source.New(name, toBytes(in))
				shared[key] = src
			}
			contents[src] = toBytes(in)
			s.sources[src] = k + 1
			q.Append(src)
		}
		q.Seek(sc.Seek)
		m.s, m.q = s, q
		s.record = func() { m.put(s.log[len(s.log)-1]) }
		if c.ShHk == 1 && len(sc.Hooks) > 0 {
			data, e := json.Marshal(sc.Hooks[0])
			must(e)
			hs, has := hooks[string(data)]
			if !has {
				hs = sharedHooks(&sc.Hooks[0], s.hooks(0))
				hooks[string(data)] = hs
			}
			s.root = func(h *parser.Hooks) { *h = hs }
		}
		if sc.Kind == "tree" {
			s.root = func(h *parser.Hooks) { h.Nodes = parser.NodeHooks{parser.AnyNode: tree.NodeHook} }
		}
	}
	keys := map[string]string{}
	for k, hs := range hooks {
		keys[k] = hookKeys(hs)
	}

	switch c.Mode {
	case "nest":
		for _, m := range ms {
			if m.s == nil {
				continue
			}
			m.s.gate = func() {
				m.gates++
				n := m.gates
				for _, o := range c.Order {
					if o[0] == m.i && o[1] == n && !ms[o[2]].started {
						in := ms[o[2]]
						in.started = true
						in.work()
					}
				}
			}
		}
		for _, m := range ms {
			if !m.started {
				m.started = true
				m.work()
			}
		}

	case "step":
		step := func(m *member) {
			if m.done {
				return
			}
			if !m.started {
				m.started = true
				m.resume, m.yielded = make(chan struct{}), make(chan bool)
				if m.s != nil {
					m.s.gate = func() {
						m.yielded <- false
						<-m.resume
					}
				}
				go func() {
					<-m.resume
					m.work()
					m.yielded <- true
				}()
			}
			m.resume <- struct{}{}
			<-m.yielded
		}
		for _, o := range c.Order {
			for n := 0; n < o[1]; n++ {
				step(ms[o[0]])
			}
		}
		for _, m := range ms {
			for !m.done {
				step(m)
			}
		}

	case "conc":
		// no synchronization between the sessions which could hide data races
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for _, m := range ms {
			m.emit = func(h histItem) { m.own = append(m.own, h) }
			if m.s != nil {
				m.s.gate = runtime.Gosched
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				m.work()
			}()
		}
		close(begin)
		wg.Wait()
		for _, m := range ms {
			hist = append(hist, m.own...)
		}

	default:
		for _, m := range ms {
			m.work()
		}
	}

	same := 1
	for _, m := range gs {
		if tables(m.rec.g) != m.tab {
			same = 0
		}
	}
	for src, b := range contents {
		if !bytes.Equal(src.Content(), b) {
			same = 0
		}
	}
	for k, hs := range hooks {
		if hookKeys(hs) != keys[k] {
			same = 0
		}
	}
	runtime.ReadMemStats(&after)
	return result{"ok": 1, "hist": hist, "same": same, "err": errInfo(nil), "work": int(after.TotalAlloc - before.TotalAlloc)}
}
