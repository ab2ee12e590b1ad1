package main

import (
	"encoding/json"
	"strings"

	"github.com/drone/drone-yaml/yaml/signer"
)

func init() {
	ops["sign"] = opSign
}

type signStep struct {
	Do   string
	Key  int // 1-based
	N, M int
	From int // trace index, 1-based
	To   string
	Hmac string
	Body []string
}

func splitLines(s string) []string {
	out := []string{}
	if s == "" {
		return out
	}
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		out = append(out, strings.TrimRight(l, "\r"))
	}
	return out
}

// segments is this harness's own view of the documents of a text made of
// plain separators.
func segments(lines []string) [][]string {
	var out [][]string
	for i, l := range lines {
		if strings.HasPrefix(l, "...") {
			break
		}
		if strings.HasPrefix(l, "---") {
			out = append(out, nil)
			continue
		}
		if i == 0 {
			out = append(out, nil)
		}
		out[len(out)-1] = append(out[len(out)-1], l)
	}
	return out
}

func unsegment(docs [][]string) string {
	var b strings.Builder
	for _, d := range docs {
		b.WriteString("---\n")
		for _, l := range d {
			b.WriteString(l + "\n")
		}
	}
	return b.String()
}

func mod(n, m int) int {
	if m == 0 {
		return 0
	}
	return ((n % m) + m) % m
}

// opSign plays a history of signing and tampering on a text; after every step
// it signs (detached) and verifies under every key.
func opSign(c map[string]json.RawMessage) M {
	text := string(input(c))
	var keys []string
	get(c, "rawkeys", &keys)
	var steps []signStep
	get(c, "ops", &steps)
	trace := []M{}
	var hexes [][]string
	state := func(err error, out []byte, lib bool) {
		e := M{"lines": splitLines(text), "err": err != nil, "empty": len(out) == 0, "closed": strings.HasSuffix(text, "\n"), "lib": lib}
		signs, ver := []string{}, []string{}
		for _, k := range keys {
			h, err := signer.Sign([]byte(text), signer.KeyString(k))
			if err != nil {
				if h != "" {
					h = "leak"
				} else {
					h = "error"
				}
			}
			signs = append(signs, h)
			ok, err := signer.Verify([]byte(text), signer.KeyString(k))
			switch {
			case err != nil && ok:
				ver = append(ver, "both")
			case err != nil:
				ver = append(ver, "error")
			case ok:
				ver = append(ver, "true")
			default:
				ver = append(ver, "false")
			}
		}
		hexes = append(hexes, signs)
		e["signs"], e["ver"] = signs, ver
		trace = append(trace, e)
	}
	state(nil, nil, false)
	for _, s := range steps {
		lines := splitLines(text)
		docs := segments(lines)
		n, m := mod(s.N, len(lines)), mod(s.M, len(lines))
		dn := mod(s.N, len(docs))
		var out []byte
		var err error
		lib := false
		crlf := strings.Contains(text, "\r\n")
		switch s.Do {
		case "update":
			lib = true
			out, err = signer.SignUpdate([]byte(text), signer.KeyString(keys[s.Key-1]))
		case "write":
			lib = true
			var h string
			h, err = signer.Sign([]byte(text), signer.KeyString(keys[s.Key-1]))
			if err == nil {
				out, err = signer.WriteTo([]byte(text), h)
			}
		case "writeraw":
			lib = true
			out, err = signer.WriteTo([]byte(text), s.Hmac)
		case "setline":
			if len(lines) > 0 {
				lines[n] = s.To
			}
		case "delline":
			if len(lines) > 0 {
				lines = append(lines[:n:n], lines[n+1:]...)
			}
		case "insline":
			lines = append(lines[:n:n], append([]string{s.To}, lines[n:]...)...)
		case "swaplines":
			if len(lines) > 0 {
				lines[n], lines[m] = lines[m], lines[n]
			}
		case "crlf":
			crlf = !crlf
		case "docset":
			if len(docs) > 0 {
				docs[dn] = s.Body
			}
		case "docdel":
			if len(docs) > 0 {
				docs = append(docs[:dn:dn], docs[dn+1:]...)
			}
		case "docswap":
			if len(docs) > 1 {
				dn = mod(s.N, len(docs)-1)
				docs[dn], docs[dn+1] = docs[dn+1], docs[dn]
			}
		case "docadd":
			docs = append(docs, s.Body)
		case "paste":
			h := strings.Repeat("00", 32)
			if s.From > 0 {
				h = hexes[mod(s.From-1, len(hexes))][s.Key-1]
			} else if s.Hmac != "" {
				h = s.Hmac
			}
			docs = append([][]string{{"kind: signature", "hmac: " + h}}, docs...)
		case "setmac": // replace the value of every signature
			h := s.Hmac
			if s.From > 0 {
				h = hexes[mod(s.From-1, len(hexes))][s.Key-1]
			}
			for i, l := range lines {
				if strings.HasPrefix(l, "hmac: ") {
					lines[i] = "hmac: " + h
				}
			}
		case "mangle": // change the values of the signatures a little
			h := func(v string) string {
				switch {
				case s.Hmac == "cut":
					return v[:len(v)-mod(s.N, len(v)+1)]
				case s.Hmac == "flip" && v != "":
					b := []byte(v)
					k := mod(s.N, len(b))
					if b[k]++; b[k] != ':' && b[k] != 'g' {
						return string(b)
					}
					b[k] = '0'
					return string(b)
				case s.Hmac == "front":
					return s.To + v
				}
				return v + s.To
			}
			for i, l := range lines {
				if strings.HasPrefix(l, "hmac: ") && !strings.ContainsAny(l[6:], "'\" []") {
					lines[i] = "hmac: " + h(l[6:])
				}
			}
		case "nop":
		default:
			panic(harnessError("sign: " + s.Do))
		}
		switch {
		case lib && err == nil:
			text = string(out)
		case lib:
		case strings.HasPrefix(s.Do, "doc") || s.Do == "paste":
			text = unsegment(docs)
		default:
			text = ""
			for _, l := range lines {
				if crlf {
					l += "\r"
				}
				text += l + "\n"
			}
		}
		state(err, out, lib)
	}
	return M{"trace": trace}
}
