package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/converter/legacy/matrix"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
)

func init() { ops["pure"] = opPure }

type pureInput struct{ Text, Filename, URL, Ref string }

// world: one input as shared by the operations on it.
type world struct {
	in    pureInput
	data  []byte
	man   *yaml.Manifest
	pipes []*yaml.Pipeline
	comp  *compiler.Compiler
	skip  func(*yaml.Container) bool
	dind  func(*yaml.Container) bool
	trs   []func(*engine.Spec)
	args  []*tr
	key   []byte
}

func newWorld(in pureInput, opts *compileOpts, trs []tr) *world {
	w := &world{in: in, key: []byte(strings.Repeat("k", 40)), comp: opts.compiler()}
	w.data = append(make([]byte, 0, len(in.Text)+16), in.Text...)
	w.man, _ = yaml.ParseBytes([]byte(in.Text))
	if w.man != nil {
		spare(reflect.ValueOf(w.man).Elem())
		for _, r := range w.man.Resources {
			if p, ok := r.(*yaml.Pipeline); ok {
				w.pipes = append(w.pipes, p)
			}
		}
	}
	w.skip, w.dind = func(*yaml.Container) bool { return false }, compiler.DindFunc(opts.Dind)
	if opts.Skip != nil {
		w.skip = compiler.SkipFunc(opts.Skip.data())
	}
	for i := range trs {
		t := trs[i].copy()
		w.trs, w.args = append(w.trs, t.fn(nil)), append(w.args, t)
	}
	return w
}

// spare gives every list room to grow, so that a callee that appends to it
// writes where others do.
func spare(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && (v.Kind() == reflect.Ptr || v.Elem().Kind() == reflect.Ptr) {
			spare(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spare(v.Field(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if e := v.MapIndex(k); e.Kind() == reflect.Ptr {
				spare(e)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			spare(v.Index(i))
		}
		if v.CanSet() && v.Len() > 0 {
			n := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+3)
			reflect.Copy(n, v)
			v.Set(n)
		}
	}
}

// untouched: nobody wrote behind the lists.
func untouched(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || !(v.Kind() == reflect.Ptr || v.Elem().Kind() == reflect.Ptr) || untouched(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !untouched(v.Field(i)) {
				return false
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if e := v.MapIndex(k); e.Kind() == reflect.Ptr && !untouched(e) {
				return false
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if !untouched(v.Index(i)) {
				return false
			}
		}
		if v.CanSet() && v.Cap() > v.Len() {
			f := v.Slice(0, v.Cap())
			for i := v.Len(); i < f.Len(); i++ {
				if !f.Index(i).IsZero() {
					return false
				}
			}
		}
	}
	return true
}

func (w *world) same(o *world) bool {
	rest := w.data[:cap(w.data)]
	for _, b := range rest[len(w.data):] {
		if b != 0 {
			return false
		}
	}
	for _, t := range w.args {
		if !t.mine() {
			return false
		}
	}
	return string(w.data) == w.in.Text && (reflect.DeepEqual(w.man, o.man) || !reflect.DeepEqual(o.man, o.man)) && bytes.Equal(w.key, o.key) &&
		(w.man == nil || untouched(reflect.ValueOf(w.man).Elem()))
}

type ident struct {
	uids []string
	ns   []string
}

func asText(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unmarshalable"
	}
	return sum(b)
}

func errText(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func canonical(s *engine.Spec, known map[string]bool, id *ident) string {
	o := specOut(s, known)
	sortM := func(q []M) []M {
		q = append([]M{}, q...)
		sort.SliceStable(q, func(i, j int) bool { return asText(q[i]) < asText(q[j]) })
		return q
	}
	o["volumes"] = sortM(o["volumes"].([]M))
	for _, x := range o["steps"].([]M) {
		x["volumes"] = sortM(x["volumes"].([]M))
	}
	files := []string{}
	for _, f := range s.Files {
		files = append(files, sum(f.Data))
	}
	o["data"] = files
	return asText(o)
}

func collect(s *engine.Spec, id *ident) {
	id.ns = append(id.ns, s.Metadata.UID)
	for _, x := range s.Steps {
		id.uids = append(id.uids, x.Metadata.UID)
	}
	for _, v := range s.Docker.Volumes {
		id.uids = append(id.uids, v.Metadata.UID)
	}
	for _, f := range s.Files {
		id.uids = append(id.uids, f.Metadata.UID)
	}
}

// do performs one operation and gives a function that tells its result, now
// and later, and the identifiers it made.
func (w *world) do(op string) (func() string, ident) {
	var id ident
	is := func(s string) (func() string, ident) { return func() string { return s }, id }
	switch op {
	case "parse":
		m, err := yaml.ParseBytes(w.data)
		if err != nil {
			return is("error")
		}
		return func() string {
			out := []M{}
			for _, r := range m.Resources {
				out = append(out, resource(r))
			}
			return asText(out)
		}, id
	case "raw":
		q, err := yaml.ParseRawBytes(w.data)
		if err != nil {
			return is("error")
		}
		return func() string {
			out := []string{}
			for _, r := range q {
				out = append(out, r.Kind, sum(r.Data))
			}
			return asText(out)
		}, id
	case "convert":
		b, err := converter.Convert(w.data, converter.Metadata{Filename: w.in.Filename, URL: w.in.URL, Ref: w.in.Ref})
		if err != nil {
			return is("error")
		}
		return func() string { return sum(b) }, id
	case "matrix":
		q, err := matrix.Parse(w.data)
		if err != nil {
			return is("error")
		}
		return func() string { return asText(q) }, id
	case "sign":
		h, err := signer.Sign(w.data, w.key)
		return is(h + errText(err))
	case "verify":
		ok, err := signer.Verify(w.data, w.key)
		return is(fmt.Sprint(ok) + errText(err))
	case "update":
		b, err := signer.SignUpdate(w.data, w.key)
		if err != nil {
			return is("error")
		}
		ok, err := signer.Verify(b, w.key)
		return func() string { return sum(b) + fmt.Sprint(ok) + errText(err) }, id
	}
	if w.man == nil {
		return is("none")
	}
	switch op {
	case "lint", "trusted":
		out := []string{}
		for _, r := range w.man.Resources {
			out = append(out, errText(linter.Lint(r, op == "trusted")))
		}
		return is(asText(out))
	case "manifest":
		return is(errText(linter.Manifest(w.man, true)))
	case "policy":
		out := []bool{}
		for _, p := range w.pipes {
			for _, c := range append(append([]*yaml.Container{}, p.Services...), p.Steps...) {
				if c != nil {
					out = append(out, w.skip(c), w.dind(c))
				}
			}
		}
		return is(asText(out))
	case "compile", "transform":
		var specs []*engine.Spec
		var known []map[string]bool
		for _, p := range w.pipes {
			s, k := compile(w.comp, p)
			if op == "transform" {
				for _, t := range w.trs {
					t(s)
				}
			}
			specs, known = append(specs, s), append(known, k)
			collect(s, &id)
		}
		return func() string {
			out := []string{}
			for i, s := range specs {
				out = append(out, canonical(s, known[i], &id))
			}
			return asText(out)
		}, id
	case "fmt":
		buf := new(bytes.Buffer)
		pretty.Print(buf, w.man)
		return is(sum(buf.Bytes()))
	case "encode":
		b, err := w.man.Encode()
		return is(sum(b) + errText(err))
	case "json":
		b, err := json.Marshal(w.man.Resources)
		return is(sum(b) + errText(err))
	}
	panic(harnessError("unknown operation " + op))
}

// opPure: operations each on a fresh input, in the order given, then the
// events of a history over shared inputs.
func opPure(c map[string]json.RawMessage) M {
	var ins []pureInput
	get(c, "inputs", &ins)
	var opts compileOpts
	get(c, "opts", &opts)
	var trs []tr
	get(c, "transforms", &trs)
	type item struct {
		Op string `json:"op"`
		In int    `json:"in"`
	}
	var alone, items []item
	get(c, "alone", &alone)
	get(c, "items", &items)
	var hist [][2]int // 1, n: item n begins; 0, n: item n ends
	get(c, "hist", &hist)
	var ids ident
	take := func(i ident) { ids.uids, ids.ns = append(ids.uids, i.uids...), append(ids.ns, i.ns...) }

	vals := []M{}
	for _, a := range alone {
		f, id := newWorld(ins[a.In-1], &opts, trs).do(a.Op)
		take(id)
		vals = append(vals, M{"op": a.Op, "in": a.In, "val": f()})
	}
	worlds, fresh := []*world{}, []*world{}
	for _, in := range ins {
		worlds, fresh = append(worlds, newWorld(in, &opts, trs)), append(fresh, newWorld(in, &opts, trs))
	}
	type result struct {
		f     func() string
		id    ident
		val   string
		panic string
	}
	open := map[int]chan result{}
	done := []result{}
	for _, e := range hist {
		it := items[e[1]-1]
		if e[0] == 1 {
			ch := make(chan result, 1)
			open[e[1]] = ch
			w := worlds[it.In-1]
			go func() {
				defer func() {
					if r := recover(); r != nil {
						ch <- result{panic: fmt.Sprint(r)}
					}
				}()
				f, id := w.do(it.Op)
				ch <- result{f: f, id: id}
			}()
			continue
		}
		r := <-open[e[1]]
		if r.panic != "" {
			return M{"crash": "panic", "msg": r.panic}
		}
		take(r.id)
		r.val = r.f()
		vals = append(vals, M{"op": it.Op, "in": it.In, "val": r.val})
		done = append(done, r)
	}
	drift := false
	for _, r := range done {
		if r.f() != r.val {
			drift = true
		}
	}
	inputs := true
	for i := range worlds {
		inputs = inputs && worlds[i].same(fresh[i])
	}
	seen, reused := map[string]bool{}, false
	for _, q := range [][]string{ids.uids, ids.ns} {
		for _, x := range q {
			reused = reused || seen[x]
			seen[x] = true
		}
	}
	return M{"vals": vals, "drift": drift, "inputs": inputs, "reused": reused}
}
