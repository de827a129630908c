// Driver for the internal containers.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"github.com/ava12/llx/internal/ints"
	"github.com/ava12/llx/internal/queue"
)

type op struct {
	O string `json:"o"`
	A []int  `json:"a"`
}

type testCase struct {
	K    string `json:"k"`
	Init []int  `json:"init"`
	Ops  []op   `json:"ops"`
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func clean(a []int) []int {
	if a == nil {
		return []int{}
	}
	return a
}

func runDeque(c testCase) any {
	q := queue.New(c.Init...)
	res := make([]any, len(c.Ops))
	for i, o := range c.Ops {
		ret := []int{}
		add := func(v int, ok bool) {
			ret = append(ret, v, b2i(ok))
		}
		switch o.O {
		case "append":
			q.Append(o.A[0])
		case "prepend":
			q.Prepend(o.A[0])
		case "first":
			add(q.First())
		case "last":
			add(q.Last())
		case "peek":
			add(q.Peek(o.A[0]))
		case "fill":
			a := append([]int{}, o.A...)
			q.Fill(a)
			for j := range a {
				a[j] = -99
			}
		case "clear":
			q.Clear()
		}
		items := q.Items()
		res[i] = map[string]any{"ret": ret, "items": append([]int{}, items...), "len": q.Len(), "empty": b2i(q.IsEmpty())}
		for j := range items {
			items[j] = -98
		}
	}
	return res
}

func runSet(c testCase) any {
	sets := []*ints.Set{ints.NewSet(), ints.NewSet(), ints.NewSet()}
	res := make([]any, len(c.Ops))
	for i, o := range c.Ops {
		ret := 0
		a := o.A
		switch o.O {
		case "new":
			sets[a[0]] = ints.NewSet(a[1:]...)
		case "from":
			sets[a[0]] = ints.FromSlice(a[1:])
		case "add":
			sets[a[0]].Add(a[1:]...)
		case "remove":
			sets[a[0]].Remove(a[1:]...)
		case "has":
			ret = b2i(sets[a[0]].Contains(a[1]))
		case "copy":
			sets[a[0]] = sets[a[1]].Copy()
		case "eq":
			ret = b2i(sets[a[0]].IsEqual(sets[a[1]]))
		case "empty":
			ret = b2i(sets[a[0]].IsEmpty())
		case "unite":
			sets[a[0]].Union(sets[a[1]])
		case "inter":
			sets[a[0]].Intersect(sets[a[1]])
		case "minus":
			sets[a[0]].Subtract(sets[a[1]])
		case "Unite":
			sets[a[0]] = ints.Union(sets[a[1]], sets[a[2]])
		case "Inter":
			sets[a[0]] = ints.Intersect(sets[a[1]], sets[a[2]])
		case "Minus":
			sets[a[0]] = ints.Subtract(sets[a[1]], sets[a[2]])
		}
		shown := make([][]int, len(sets))
		for j, s := range sets {
			shown[j] = clean(s.ToSlice())
		}
		res[i] = map[string]any{"ret": ret, "sets": shown}
	}
	return res
}

func perform(line []byte) (res map[string]any) {
	defer func() {
		if p := recover(); p != nil {
			res = map[string]any{"crash": 1, "why": "panic", "stderr": fmt.Sprint(p) + "\n" + string(debug.Stack())}
		}
	}()
	var c testCase
	if e := json.Unmarshal(line, &c); e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(3)
	}
	if c.K == "deque" {
		return map[string]any{"res": runDeque(c)}
	}
	return map[string]any{"res": runSet(c)}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, e := in.ReadBytes('\n')
		if e != nil {
			return
		}
		data, _ := json.Marshal(perform(line))
		out.Write(data)
		out.WriteByte('\n')
		out.Flush()
	}
}
