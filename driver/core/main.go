// Driver of the verification harness: reads one JSON case per line, performs it
// on the real llx code, writes one JSON result per line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"time"
)

type result map[string]any

type handler func(raw json.RawMessage) result

var handlers = map[string]handler{}

func perform(line []byte) (res result) {
	defer func() {
		if p := recover(); p != nil {
			res = result{"crash": 1, "why": "panic", "stderr": fmt.Sprint(p) + "\n" + string(debug.Stack())}
		}
	}()

	var head struct {
		K string `json:"k"`
	}
	if e := json.Unmarshal(line, &head); e != nil {
		fmt.Fprintln(os.Stderr, "bad case:", e)
		os.Exit(3)
	}

	h := handlers[head.K]
	if h == nil {
		fmt.Fprintln(os.Stderr, "unknown case kind:", head.K)
		os.Exit(3)
	}
	return h(line)
}

func must(e error) {
	if e != nil {
		fmt.Fprintln(os.Stderr, "driver:", e)
		os.Exit(3)
	}
}

// watch ends a process that was left alone or takes too much memory
func watch(parent int) {
	m := []metrics.Sample{{Name: "/memory/classes/total:bytes"}}
	for {
		time.Sleep(250 * time.Millisecond)
		metrics.Read(m)
		if os.Getppid() != parent || m[0].Value.Uint64() > 2<<30 {
			fmt.Fprintln(os.Stderr, "driver: ended by its watch")
			os.Exit(5)
		}
	}
}

func main() {
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(3 << 30)
	go watch(os.Getppid())
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, e := in.ReadBytes('\n')
		if e != nil {
			return
		}
		res := perform(line)
		data, e := json.Marshal(res)
		must(e)
		out.Write(data)
		out.WriteByte('\n')
		out.Flush()
	}
}

func toBytes(a []int) []byte {
	res := make([]byte, len(a))
	for i, b := range a {
		res[i] = byte(b)
	}
	return res
}

func toInts(a []byte) []int {
	res := make([]int, len(a))
	for i, b := range a {
		res[i] = int(b)
	}
	return res
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
