package main

import (
	"bytes"
	"encoding/json"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
)

func init() {
	ops["contain"] = opContain
	ops["apply"] = opApply
}

// pipelines of a file, converted first when a file name is given.
func pipelines(c map[string]json.RawMessage) ([]*yaml.Pipeline, error) {
	data := input(c)
	if f := str(c, "filename"); f != "" {
		var err error
		data, err = converter.Convert(data, converter.Metadata{Filename: f, URL: str(c, "url"), Ref: str(c, "ref")})
		if err != nil {
			return nil, err
		}
	}
	m, err := yaml.ParseBytes(data)
	if err != nil {
		return nil, err
	}
	out := []*yaml.Pipeline{}
	for _, r := range m.Resources {
		if p, ok := r.(*yaml.Pipeline); ok {
			out = append(out, p)
		}
	}
	return out, nil
}

// compile gives the plan and the names of its volumes before any transform.
func compile(comp *compiler.Compiler, p *yaml.Pipeline) (*engine.Spec, map[string]bool) {
	s := comp.Compile(p)
	known := map[string]bool{}
	for _, v := range s.Docker.Volumes {
		known[v.Metadata.Name] = true
	}
	return s, known
}

// opContain: every pipeline of a file, its lint verdicts and its plan.
func opContain(c map[string]json.RawMessage) M {
	ps, err := pipelines(c)
	if err != nil {
		return M{"ok": false, "err": err.Error(), "pipes": []M{}}
	}
	var opts compileOpts
	get(c, "opts", &opts)
	var filters []tr
	get(c, "filters", &filters)
	comp := opts.compiler()
	out := []M{}
	for _, p := range ps {
		e := M{"res": resource(p), "untrusted": linter.Lint(p, false) == nil, "trusted": linter.Lint(p, true) == nil}
		s, known := compile(comp, p)
		e["spec"] = specOut(s, known)
		calls := []string{}
		for i := range filters {
			filters[i].fn(&calls)(s)
		}
		e["filtered"] = specOut(s, known)
		out = append(out, e)
	}
	return M{"ok": true, "pipes": out}
}

// opApply: transforms built once and applied to the plans of several
// pipelines in the order of a history of (transform, plan) pairs.
func opApply(c map[string]json.RawMessage) M {
	ps, err := pipelines(c)
	if err != nil {
		return M{"ok": false, "err": err.Error()}
	}
	var opts compileOpts
	get(c, "opts", &opts)
	var trs []tr
	get(c, "transforms", &trs)
	var hist [][2]int
	get(c, "hist", &hist)
	comp := opts.compiler()
	specs, known := []*engine.Spec{}, []map[string]bool{}
	before := []M{}
	for _, p := range ps {
		s, k := compile(comp, p)
		specs, known = append(specs, s), append(known, k)
		before = append(before, specOut(s, k))
	}
	calls := []string{}
	fns := []func(*engine.Spec){}
	for i := range trs {
		fns = append(fns, trs[i].fn(&calls))
	}
	enc := func() [][]byte {
		out := [][]byte{}
		for i, s := range specs {
			b, _ := json.Marshal(specOut(s, known[i]))
			out = append(out, b)
		}
		return out
	}
	res := []M{}
	was := enc()
	for _, h := range hist {
		calls = []string{}
		fns[h[0]-1](specs[h[1]-1])
		now := enc()
		others := true
		for i := range now {
			if i != h[1]-1 && !bytes.Equal(was[i], now[i]) {
				others = false
			}
		}
		was = now
		res = append(res, M{"spec": specOut(specs[h[1]-1], known[h[1]-1]), "others": others, "calls": append([]string{}, calls...)})
	}
	return M{"ok": true, "before": before, "after": res}
}
