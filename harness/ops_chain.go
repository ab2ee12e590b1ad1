package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"strings"

	goyaml "github.com/buildkite/yaml"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/pretty"
)

func init() { ops["chain"] = opChain }

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

func printed(m *yaml.Manifest) []byte {
	buf := new(bytes.Buffer)
	pretty.Print(buf, m)
	return buf.Bytes()
}

// opChain parses a text and pushes the manifest through a sequence of forms.
// The other texts are spellings of the same manifest.
func opChain(c map[string]json.RawMessage) M {
	var chain, others []string
	get(c, "chain", &chain)
	get(c, "others", &others)
	m, err := yaml.ParseBytes(input(c))
	if err != nil {
		return M{"ok": false, "err": err.Error()}
	}
	sums := []string{sum(printed(m))}
	for _, s := range others {
		o, err := yaml.ParseString(s)
		if err != nil {
			return M{"ok": false, "err": err.Error()}
		}
		sums = append(sums, sum(printed(o)))
	}
	withKinds := func(m *yaml.Manifest) []M {
		out := manifest(m)
		for i, r := range m.Resources {
			out[i]["getkind"], out[i]["getversion"] = r.GetKind(), r.GetVersion()
		}
		return out
	}
	base := withKinds(m)
	steps := []M{}
	for _, f := range chain {
		st := M{"ok": true}
		var text []byte
		var next *yaml.Manifest
		var err error
		switch f {
		case "fmt":
			text = printed(m)
			st["sum"], st["again"] = sum(text), sum(text)
			for i := 0; i < 4; i++ {
				if s := sum(printed(m)); s != st["sum"] {
					st["again"] = s
				}
			}
			next, err = yaml.ParseBytes(text)
			marks, first, last := []string{}, 0, 0
			lines := strings.SplitAfter(string(text), "\n")
			closed := lines[len(lines)-1] == ""
			if closed {
				lines = lines[:len(lines)-1]
			}
			for i, l := range lines {
				k := ""
				if strings.HasPrefix(l, "---") {
					k = "sep"
				} else if strings.HasPrefix(l, "...") {
					k = "term"
				}
				if k != "" {
					marks = append(marks, k)
					last = i + 1
					if first == 0 {
						first = last
					}
				}
			}
			st["marks"], st["first"], st["last"], st["lines"], st["closed"] = marks, first, last, len(lines), closed
			if err == nil {
				st["reprint"] = sum(printed(next))
			}
		case "yaml":
			text, err = m.Encode()
			if err == nil {
				again, _ := m.Encode()
				st["stable"] = bytes.Equal(text, again)
				_, e := goyaml.Marshal(m)
				st["refused"] = e != nil
				next, err = yaml.ParseBytes(text)
			}
		case "json":
			text, err = json.Marshal(m)
			if err == nil {
				again, _ := json.Marshal(m)
				st["stable"] = bytes.Equal(text, again)
				next = new(yaml.Manifest)
				err = json.Unmarshal(text, next)
			}
		}
		if err != nil {
			st["ok"], st["err"], st["text"] = false, err.Error(), string(text)
			steps = append(steps, st)
			break
		}
		st["res"] = withKinds(next)
		if boolean(c, "debug") {
			st["text"] = string(text)
		}
		m = next
		steps = append(steps, st)
	}
	return M{"ok": true, "base": base, "steps": steps, "sums": sums}
}
