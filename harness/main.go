package main

// verifharness drives the public API of drone-yaml. It reads one case per
// line (JSON) and writes one observation per line. It takes no verdicts: those
// are TLC's, over spec/*.tla.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type op func(c map[string]json.RawMessage) M

var ops = map[string]op{}

func get(c map[string]json.RawMessage, k string, v interface{}) {
	if raw, ok := c[k]; ok {
		if err := json.Unmarshal(raw, v); err != nil {
			panic(harnessError(fmt.Sprintf("bad case field %s: %v", k, err)))
		}
	}
}

type harnessError string

func str(c map[string]json.RawMessage, k string) string {
	var s string
	get(c, k, &s)
	return s
}

func boolean(c map[string]json.RawMessage, k string) bool {
	var s bool
	get(c, k, &s)
	return s
}

// origin is the function that panicked first, of a stack taken while
// recovering: the frame below the last call of panic.
func origin(stack []byte) string {
	lines := strings.Split(string(stack), "\n")
	at := ""
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			at = lines[i+2]
		}
	}
	if i := strings.Index(at, "("); i > 0 && !strings.HasPrefix(at[i:], "(*") {
		at = at[:i]
	}
	return at[strings.LastIndex(at, "/")+1:]
}

// run executes one case with panics and hangs turned into observations.
func run(c map[string]json.RawMessage) (out M) {
	f, ok := ops[str(c, "op")]
	if !ok {
		fmt.Fprintf(os.Stderr, "harness: unknown op %q\n", str(c, "op"))
		os.Exit(3)
	}
	limit := 20 * time.Second
	done := make(chan M, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(harnessError); ok {
					fmt.Fprintln(os.Stderr, "harness:", string(e))
					os.Exit(3)
				}
				msg := fmt.Sprint(r)
				if os.Getenv("HARNESS_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, msg, string(debug.Stack()))
				}
				done <- M{"crash": "panic", "msg": msg, "at": origin(debug.Stack())}
			}
		}()
		o := f(c)
		if _, ok := o["crash"]; !ok {
			o["crash"] = "none"
		}
		done <- o
	}()
	select {
	case o := <-done:
		return o
	case <-time.After(limit):
		return M{"crash": "hang", "msg": "no answer within 20s"}
	}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	var cases []map[string]json.RawMessage
	dec := json.NewDecoder(in)
	for dec.More() {
		c := map[string]json.RawMessage{}
		if err := dec.Decode(&c); err != nil {
			fmt.Fprintln(os.Stderr, "harness: bad case:", err)
			os.Exit(3)
		}
		cases = append(cases, c)
	}
	workers := 8
	if os.Getenv("HARNESS_SERIAL") != "" {
		workers = 1
	}
	out := make([]M, len(cases))
	var wg sync.WaitGroup
	idx := make(chan int, len(cases))
	for i := range cases {
		idx <- i
	}
	close(idx)
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range idx {
				out[i] = run(cases[i])
			}
		}()
	}
	wg.Wait()
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for _, o := range out {
		if err := enc.Encode(o); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
	}
}
