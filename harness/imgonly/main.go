package main

// imgonly links the image package and nothing else of drone-yaml, so that what
// the package needs is what it imports itself. Same case format as the harness.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/drone/drone-yaml/yaml/compiler/image"
)

func main() {
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for dec.More() {
		var c struct{ Names, Hosts []string }
		if err := dec.Decode(&c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		enc.Encode(observe(c.Names, c.Hosts))
	}
}

func observe(names, hosts []string) (out map[string]interface{}) {
	defer func() {
		if r := recover(); r != nil {
			out = map[string]interface{}{"crash": "panic"}
		}
	}()
	res := []map[string]interface{}{}
	for _, n := range names {
		h, match, tag := []bool{}, []bool{}, []bool{}
		for _, x := range hosts {
			h = append(h, image.MatchHostname(n, x))
		}
		for _, o := range names {
			match = append(match, image.Match(n, o))
			tag = append(tag, image.MatchTag(n, o))
		}
		res = append(res, map[string]interface{}{"expand": image.Expand(n), "trim": image.Trim(n), "host": h,
			"match": match, "tag": tag, "any": image.Match(n, names...), "none": image.Match(n)})
	}
	return map[string]interface{}{"crash": "none", "res": res}
}
