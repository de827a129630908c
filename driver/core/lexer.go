package main

import (
	"encoding/json"
	"regexp"
	"strconv"

	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/source"
)

func init() {
	handlers["lexer"] = runLexer
}

// runLexer performs calls of the methods of package lexer.
func runLexer(raw json.RawMessage) result {
	var c struct {
		Lexers []struct {
			Re    string `json:"re"`
			Types []struct {
				T int    `json:"t"`
				N string `json:"n"`
			} `json:"types"`
		} `json:"lexers"`
		Ins  [][]int `json:"ins"`
		Seek int     `json:"seek"`
		Ops  []struct {
			L    int   `json:"l"`
			Of   int   `json:"of"`
			Mask []int `json:"mask"`
			Skip int   `json:"skip"`
		} `json:"ops"`
	}
	must(json.Unmarshal(raw, &c))
	var ls []*lexer.Lexer
	for _, x := range c.Lexers {
		re, e := regexp.Compile(x.Re)
		must(e)
		var ts []lexer.TokenType
		for _, t := range x.Types {
			ts = append(ts, lexer.TokenType{Type: t.T, TypeName: t.N})
		}
		ls = append(ls, lexer.New(re, ts))
	}
	s := &session{sources: map[*source.Source]int{}}
	q := source.NewQueue()
	for i, in := range c.Ins {
		src := source.New("s"+strconv.Itoa(i+1), toBytes(in))
		s.sources[src] = i + 1
		q.Append(src)
	}
	q.Seek(c.Seek)
	obs := []any{}
	for _, op := range c.Ops {
		var t *lexer.Token
		var e error
		q.Skip(op.Skip)
		if op.Of == 1 {
			var set lexer.TokenTypeSet
			for _, b := range op.Mask {
				set |= 1 << b
			}
			t, e = ls[op.L].NextOf(q, set)
		} else {
			t, e = ls[op.L].Next(q)
		}
		o := map[string]any{"tok": s.tok(t), "err": errInfo(e), "q": drain(q, s.sources)}
		if t != nil {
			o["line"], o["col"] = t.LineCol()
			o["name"], o["text"] = t.SourceName(), toInts([]byte(t.Text()))
		} else {
			o["line"], o["col"], o["name"], o["text"] = 0, 0, "", []int{}
		}
		obs = append(obs, o)
	}
	return result{"obs": obs}
}
