package main

import (
	"encoding/json"

	"github.com/ava12/llx/source"
)

func init() {
	handlers["src"] = runSrc
	handlers["nls"] = runNls
	handlers["queue"] = runQueue
}

// runSrc: line/column queries on one source.
// op: [0,pos] LineCol, [1,line,col] Pos, [2,pos] captured Pos.LineCol
func runSrc(raw json.RawMessage) result {
	var c struct {
		Content []int   `json:"content"`
		Ops     [][]int `json:"ops"`
	}
	must(json.Unmarshal(raw, &c))
	s := source.New("s", toBytes(c.Content))
	res := make([][]int, len(c.Ops))
	for i, op := range c.Ops {
		switch op[0] {
		case 0:
			l, col := s.LineCol(op[1])
			res[i] = []int{l, col}
		case 1:
			res[i] = []int{s.Pos(op[1], op[2]), 0}
		case 2:
			p := source.NewPos(s, op[1])
			l, col := p.LineCol()
			res[i] = []int{l, col}
		case 3:
			q := source.NewQueue().Append(s)
			l, col := q.LineCol(op[1])
			res[i] = []int{l, col}
		}
	}
	return result{"res": res, "after": toInts(s.Content())}
}

func runNls(raw json.RawMessage) result {
	var c struct {
		Content []int `json:"content"`
	}
	must(json.Unmarshal(raw, &c))
	b := toBytes(c.Content)
	source.NormalizeNls(&b)
	return result{"res": toInts(b)}
}

// runQueue: operations on a source queue; sources are given by index,
// lens[i] is the length of source i.
func runQueue(raw json.RawMessage) result {
	var c struct {
		Lens []int `json:"lens"`
		Ops  []struct {
			O string `json:"o"`
			A int    `json:"a"`
		} `json:"ops"`
	}
	must(json.Unmarshal(raw, &c))
	srcs := make([]*source.Source, len(c.Lens))
	index := map[*source.Source]int{}
	for i, l := range c.Lens {
		content := make([]byte, l)
		for j := range content {
			content[j] = 'a' + byte(i)
		}
		srcs[i] = source.New(string(rune('A'+i)), content)
		index[srcs[i]] = i + 1
	}
	q := source.NewQueue()
	var snaps []source.QueueSnapshot
	res := make([]any, len(c.Ops))
	for i, op := range c.Ops {
		ret := 0
		var drain [][]int
		switch op.O {
		case "append":
			if op.A == 0 {
				q.Append(nil)
			} else {
				q.Append(srcs[op.A-1])
			}
		case "prepend":
			if op.A == 0 {
				q.Prepend(nil)
			} else {
				q.Prepend(srcs[op.A-1])
			}
		case "next":
			ret = b2i(q.NextSource())
		case "skip":
			q.Skip(op.A)
		case "rewind":
			q.Rewind(op.A)
		case "seek":
			q.Seek(op.A)
		case "snap":
			snaps = append(snaps, q.Snapshot())
		case "restore":
			q.Restore(snaps[op.A-1])
		case "drain":
			for !q.IsEmpty() {
				drain = append(drain, []int{index[q.Source()], q.Pos()})
				q.NextSource()
			}
		}
		if drain == nil {
			drain = [][]int{}
		}
		cont, pos := q.ContentPos()
		first := 0
		if len(cont) > 0 {
			first = int(cont[0]-'a') + 1
		}
		nm := 0
		if n := q.SourceName(); n != "" {
			nm = int(n[0]-'A') + 1
		}
		sp := q.SourcePos()
		line, col := q.LineCol(q.Pos())
		sline, scol := sp.LineCol()
		res[i] = map[string]any{"src": index[q.Source()], "pos": q.Pos(), "empty": b2i(q.IsEmpty()), "eof": b2i(q.Eof()),
			"cl": len(cont), "cp": pos, "cf": first, "nm": nm, "spos": sp.Pos(), "ssrc": index[sp.Source()], "ret": ret, "drain": drain,
			"lc": []int{line, col}, "slc": []int{sline, scol}}
	}
	return result{"res": res}
}
