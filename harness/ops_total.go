package main

import (
	"bytes"
	"encoding/json"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/converter/legacy/matrix"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
)

func init() { ops["total"] = opTotal }

var fileNames = []string{".drone.yml", ".gitlab-ci.yml", "bitbucket-pipelines.yml", ""}

// opTotal puts one text through everything there is, converted forms included.
func opTotal(c map[string]json.RawMessage) M {
	var optss []compileOpts
	get(c, "optss", &optss)
	var trs []tr
	get(c, "transforms", &trs)
	data := input(c)
	key := []byte(strings.Repeat("k", 32))
	res := M{}
	note := func(k string, err error) { res[k] = errText(err) }
	_, err := yaml.ParseRawBytes(data)
	note("raw", err)
	h, err := signer.Sign(data, key)
	note("sign", err)
	_, err = signer.Verify(data, key)
	note("verify", err)
	_, err = signer.SignUpdate(data, key)
	note("update", err)
	_, err = signer.WriteTo(data, h)
	note("write", err)
	_, err = matrix.Parse(data)
	note("matrix", err)
	texts := map[string][]byte{"": data}
	for _, f := range fileNames {
		out, err := converter.Convert(data, converter.Metadata{Filename: f, URL: str(c, "url"), Ref: str(c, "ref")})
		note("as "+f, err)
		if err == nil && !bytes.Equal(out, data) {
			texts["as "+f] = out
		}
	}
	pipes, specs := 0, 0
	exercise := func(name string, m *yaml.Manifest) {
		buf := new(bytes.Buffer)
		pretty.Print(buf, m)
		_, err := m.Encode()
		note("encode "+name, err)
		b, err := json.Marshal(m)
		note("json "+name, err)
		if err == nil {
			note("unjson "+name, json.Unmarshal(b, new(yaml.Manifest)))
		}
		note("manifest "+name, linter.Manifest(m, false))
		for _, r := range m.Resources {
			note("lint "+name, linter.Lint(r, false))
			linter.Lint(r, true)
			buf := new(bytes.Buffer)
			pretty.Print(buf, &yaml.Manifest{Resources: []yaml.Resource{r}})
			p, ok := r.(*yaml.Pipeline)
			if !ok {
				continue
			}
			pipes++
			all := true
			for i := range optss {
				s := optss[i].compiler().Compile(p)
				for k := range trs {
					trs[k].fn(nil)(s)
				}
				all = all && s != nil
			}
			if s := new(compiler.Compiler).Compile(p); s == nil || !all {
				continue
			} else if _, err := json.Marshal((*engine.Spec)(s)); err == nil {
				specs++
			}
		}
	}
	for name, text := range texts {
		m, err := yaml.ParseBytes(text)
		note("parse "+name, err)
		if err == nil {
			exercise(name, m)
		}
	}
	m := new(yaml.Manifest)
	err = json.Unmarshal(data, m)
	note("fromjson", err)
	if err == nil {
		exercise("fromjson", m)
	}
	return M{"res": res, "pipes": pipes, "specs": specs}
}
