package main

import (
	"bytes"
	"encoding/json"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/converter/legacy"
	"github.com/drone/drone-yaml/yaml/converter/legacy/matrix"
)

func init() {
	ops["convert"] = opConvert
	ops["matrix"] = opMatrix
}

// opConvert converts a file under the given name, reads the result and
// converts it again as a native file.
func opConvert(c map[string]json.RawMessage) M {
	data := input(c)
	meta := converter.Metadata{Filename: str(c, "filename"), URL: str(c, "url"), Ref: str(c, "ref")}
	in := append([]byte{}, data...)
	out, err := converter.Convert(in, meta)
	o := M{"ok": err == nil, "match": legacy.Match(data), "kept": bytes.Equal(in, data)}
	same := true
	for i := 0; i < 4; i++ {
		again, e := converter.Convert(append([]byte{}, data...), meta)
		if (e == nil) != (err == nil) || !bytes.Equal(again, out) {
			same = false
		}
	}
	s, e := converter.ConvertString(string(data), meta)
	if (e == nil) != (err == nil) || (err == nil && s != string(out)) {
		same = false
	}
	o["repeats"] = same
	if err != nil {
		o["err"] = err.Error()
		return o
	}
	o["same"] = bytes.Equal(out, data)
	twice, err := converter.Convert(out, converter.Metadata{Filename: ".drone.yml", URL: meta.URL, Ref: meta.Ref})
	o["fixpoint"] = err == nil && bytes.Equal(twice, out)
	m, err := yaml.ParseBytes(out)
	o["valid"] = err == nil
	if boolean(c, "debug") {
		o["text"] = string(out)
	}
	o["res"] = []M{}
	if err == nil {
		res := manifest(m)
		for i, r := range m.Resources {
			res[i]["getkind"], res[i]["getversion"] = r.GetKind(), r.GetVersion()
		}
		o["res"] = res
	}
	return o
}

func opMatrix(c map[string]json.RawMessage) M {
	data := input(c)
	axes, err := matrix.ParseString(string(data))
	if err != nil {
		return M{"ok": false, "err": err.Error()}
	}
	out, again := []M{}, true
	for _, a := range axes {
		out = append(out, strmap(a))
	}
	for i := 0; i < 4; i++ {
		b, err := matrix.Parse(data)
		if err != nil || len(b) != len(axes) {
			again = false
			continue
		}
		for k := range b {
			if len(b[k]) != len(axes[k]) {
				again = false
			}
			for x, y := range b[k] {
				if v, ok := axes[k][x]; !ok || v != y {
					again = false
				}
			}
		}
	}
	return M{"ok": true, "axes": out, "repeats": again}
}
