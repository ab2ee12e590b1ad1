package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/image"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"github.com/drone/drone-yaml/yaml/linter"
)

func init() {
	ops["raw"] = opRaw
	ops["parse"] = opParse
	ops["lint"] = opLint
	ops["cond"] = opCond
	ops["skip"] = opSkip
	ops["dind"] = opDind
	ops["compile"] = opCompile
	ops["image"] = opImage
}

// input returns the bytes of a case: "text", or base64 in "b64".
func input(c map[string]json.RawMessage) []byte {
	if s := str(c, "b64"); s != "" {
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			panic(harnessError(err.Error()))
		}
		return b
	}
	return []byte(str(c, "text"))
}

// faultReader delivers data in small pieces and may fail at a given offset.
type faultReader struct {
	data  []byte
	off   int
	chunk int
	fail  int // -1: never
	lates bool
}

var errFault = errors.New("injected read failure")

func (r *faultReader) Read(p []byte) (int, error) {
	if r.fail >= 0 && r.off >= r.fail {
		return 0, errFault
	}
	if r.off >= len(r.data) {
		return 0, io.EOF
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if n > len(r.data)-r.off {
		n = len(r.data) - r.off
	}
	if r.fail >= 0 && n > r.fail-r.off {
		n = r.fail - r.off
	}
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	if r.lates && r.off >= len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

func reader(c map[string]json.RawMessage, data []byte) io.Reader {
	mode := str(c, "reader")
	fail := -1
	chunk := 0
	get(c, "fail", &fail)
	get(c, "chunk", &chunk)
	switch mode {
	case "onebyte":
		return iotest.OneByteReader(bytes.NewReader(data))
	case "dataerr":
		return iotest.DataErrReader(bytes.NewReader(data))
	case "fault":
		return &faultReader{data: data, chunk: chunk, fail: fail}
	case "late":
		return &faultReader{data: data, chunk: chunk, fail: -1, lates: true}
	}
	return bytes.NewReader(data)
}

func scratch(data []byte) string {
	dir, err := ioutil.TempDir("", "verif-h")
	if err != nil {
		panic(harnessError(err.Error()))
	}
	p := filepath.Join(dir, ".drone.yml")
	if err := ioutil.WriteFile(p, data, 0644); err != nil {
		panic(harnessError(err.Error()))
	}
	return p
}

// opRaw: splits a stream into documents. Lines are given as a dictionary
// "dict" (texts without newline); "seq" lists indexes into it (1-based), so
// that the specification sees line identities, not their text.
func opRaw(c map[string]json.RawMessage) M {
	data := input(c)
	var dict []string
	get(c, "dict", &dict)
	back := map[string]int{}
	for i, s := range dict {
		back[s] = i + 1
	}
	var res []*yaml.RawResource
	var err error
	switch str(c, "entry") {
	case "bytes":
		res, err = yaml.ParseRawBytes(data)
	case "string":
		res, err = yaml.ParseRawString(string(data))
	case "file":
		p := scratch(data)
		defer os.RemoveAll(filepath.Dir(p))
		res, err = yaml.ParseRawFile(p)
	default:
		res, err = yaml.ParseRaw(reader(c, data))
	}
	if err != nil {
		return M{"ok": false, "docs": []M{}}
	}
	docs := []M{}
	for _, r := range res {
		lines := []int{}
		s := string(r.Data)
		tail := true
		for len(s) > 0 {
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				tail = false
				lines = append(lines, back[s])
				break
			}
			lines = append(lines, back[s[:i]])
			s = s[i+1:]
		}
		docs = append(docs, M{"lines": lines, "closed": tail, "kind": r.Kind, "version": r.Version, "type": r.Type})
	}
	return M{"ok": true, "docs": docs}
}

func parseEntry(c map[string]json.RawMessage, data []byte) (*yaml.Manifest, error) {
	switch str(c, "entry") {
	case "bytes":
		return yaml.ParseBytes(data)
	case "string":
		return yaml.ParseString(string(data))
	case "file":
		p := scratch(data)
		defer os.RemoveAll(filepath.Dir(p))
		return yaml.ParseFile(p)
	case "json":
		m := new(yaml.Manifest)
		if err := json.Unmarshal(data, m); err != nil {
			return nil, err
		}
		return m, nil
	}
	return yaml.Parse(reader(c, data))
}

func opParse(c map[string]json.RawMessage) M {
	data := input(c)
	if str(c, "entry") != "all" {
		return parseObs(parseEntry(c, data))
	}
	// every entry point must give the same answer
	var first M
	for _, e := range []string{"", "bytes", "string", "file", "onebyte"} {
		k := map[string]json.RawMessage{"entry": json.RawMessage(strconv.Quote(e))}
		if e == "onebyte" {
			k = map[string]json.RawMessage{"reader": json.RawMessage(`"onebyte"`)}
		}
		o := parseObs(parseEntry(k, data))
		delete(o, "err")
		if first == nil {
			first = o
			first["agree"] = true
		} else {
			o["agree"] = true
			if !reflect.DeepEqual(first, o) {
				first["agree"] = false
				return first
			}
		}
	}
	return first
}

func parseObs(m *yaml.Manifest, err error) M {
	if err != nil {
		return M{"ok": false, "partial": m != nil, "res": []M{}, "err": err.Error()}
	}
	res := manifest(m)
	for i, r := range m.Resources {
		res[i]["getkind"] = r.GetKind()
		res[i]["getversion"] = r.GetVersion()
	}
	return M{"ok": true, "partial": false, "res": res}
}

func lintErr(err error) string {
	switch err {
	case nil:
		return "ok"
	case linter.ErrDuplicateStepName:
		return "dupstep"
	case linter.ErrMissingDependency:
		return "missingdep"
	case linter.ErrCyclicalDependency:
		return "cyclic"
	case linter.ErrDuplicatePipelineName:
		return "duppipeline"
	case linter.ErrMissingPipelineDependency:
		return "missingpipeline"
	case linter.ErrPipelineSelfDependency:
		return "selfpipeline"
	case linter.ErrCyclicalPipelineDependency:
		return "cyclicpipeline"
	}
	return "other"
}

func opLint(c map[string]json.RawMessage) M {
	m, err := yaml.ParseBytes(input(c))
	if boolean(c, "json") {
		m = new(yaml.Manifest)
		err = json.Unmarshal(input(c), m)
	}
	if err != nil {
		return M{"ok": false, "err": err.Error()}
	}
	out := []M{}
	for _, r := range m.Resources {
		e := M{}
		for _, t := range []bool{false, true} {
			err := linter.Lint(r, t)
			k := "untrusted"
			if t {
				k = "trusted"
			}
			e[k] = lintErr(err)
			if err != nil {
				e[k+"_msg"] = err.Error()
			} else {
				e[k+"_msg"] = ""
			}
		}
		out = append(out, e)
	}
	return M{"ok": true, "res": out,
		"manifest": M{"untrusted": lintErr(linter.Manifest(m, false)), "trusted": lintErr(linter.Manifest(m, true))}}
}

// opCond: a condition given by its lists and a vector of values.
func opCond(c map[string]json.RawMessage) M {
	var inc, exc, vals []string
	get(c, "include", &inc)
	get(c, "exclude", &exc)
	get(c, "values", &vals)
	co := yaml.Condition{Include: inc, Exclude: exc}
	out := []M{}
	for _, v := range vals {
		out = append(out, M{"match": co.Match(v), "includes": co.Includes(v), "excludes": co.Excludes(v)})
	}
	return M{"res": out}
}

type skipData struct {
	Branch, Cron, Event, Instance, Ref, Repo, Target, Action string
}

func (s skipData) data() compiler.SkipData {
	return compiler.SkipData{Branch: s.Branch, Cron: s.Cron, Event: s.Event, Instance: s.Instance,
		Ref: s.Ref, Repo: s.Repo, Target: s.Target, Action: s.Action}
}

func opSkip(c map[string]json.RawMessage) M {
	m, err := yaml.ParseBytes(input(c))
	if err != nil {
		return M{"ok": false, "err": err.Error()}
	}
	var data []skipData
	get(c, "data", &data)
	p := m.Resources[0].(*yaml.Pipeline)
	out := []M{}
	for _, d := range data {
		f := compiler.SkipFunc(d.data())
		steps, policy := []bool{}, []M{}
		for _, s := range append(append([]*yaml.Container{}, p.Services...), p.Steps...) {
			if s == nil {
				continue
			}
			steps = append(steps, f(s))
		}
		comp := &compiler.Compiler{SkipFunc: f}
		spec := comp.Compile(p)
		for _, s := range spec.Steps {
			policy = append(policy, M{"name": s.Metadata.Name, "policy": s.RunPolicy.String(), "ignore": s.IgnoreErr})
		}
		out = append(out, M{"skip": steps, "policy": policy})
	}
	return M{"ok": true, "res": out}
}

func opDind(c map[string]json.RawMessage) M {
	m, err := yaml.ParseBytes(input(c))
	if err != nil {
		return M{"ok": false, "err": err.Error()}
	}
	var white []string
	get(c, "whitelist", &white)
	p := m.Resources[0].(*yaml.Pipeline)
	f := compiler.DindFunc(white)
	out := []bool{}
	for _, s := range append(append([]*yaml.Container{}, p.Services...), p.Steps...) {
		if s == nil {
			continue
		}
		out = append(out, f(s))
	}
	return M{"ok": true, "res": out}
}

type compileOpts struct {
	Creds     string    // git credentials
	Dind      []string  // whitelist; "*" grants everything
	UseDind   bool      //
	Skip      *skipData // nil: no skip function
	Host      string    // host workspace directory
	HostMount bool
}

func (o *compileOpts) compiler() *compiler.Compiler {
	comp := new(compiler.Compiler)
	if o.Creds != "" {
		comp.GitCredentialsFunc = func() []byte { return []byte(o.Creds) }
	}
	if o.UseDind {
		comp.PrivilegedFunc = compiler.DindFunc(o.Dind)
	}
	if o.Skip != nil {
		comp.SkipFunc = compiler.SkipFunc(o.Skip.data())
	}
	if o.Host != "" {
		comp.WorkspaceFunc = compiler.CreateHostWorkspace(o.Host)
	}
	if o.HostMount {
		comp.WorkspaceMountFunc = compiler.MountHostWorkspace
	}
	return comp
}

// opCompile: parses the text, lints and compiles its first pipeline, applying
// a sequence of transforms to the result.
func opCompile(c map[string]json.RawMessage) M {
	m, err := yaml.ParseBytes(input(c))
	if err != nil {
		return M{"ok": false, "err": err.Error()}
	}
	var opts compileOpts
	get(c, "opts", &opts)
	var trs []tr
	get(c, "transforms", &trs)
	var p *yaml.Pipeline
	for _, r := range m.Resources {
		if v, ok := r.(*yaml.Pipeline); ok {
			p = v
			break
		}
	}
	if p == nil {
		return M{"ok": false, "err": "no pipeline"}
	}
	lint := M{"untrusted": lintErr(linter.Lint(p, false)), "trusted": lintErr(linter.Lint(p, true))}
	comp := opts.compiler()
	known := map[string]bool{}
	var log []M
	calls := []string{}
	comp.TransformFunc = func(s *engine.Spec) {
		for _, v := range s.Docker.Volumes {
			known[v.Metadata.Name] = true
		}
		for _, t := range trs {
			t.fn(&calls)(s)
		}
	}
	spec := comp.Compile(p)
	_ = log
	out := M{"ok": true, "lint": lint, "spec": specOut(spec, known), "calls": calls}
	out["json"] = jsonSettings(spec)
	return out
}

// jsonSettings: settings encoded as JSON are compared as trees
func jsonSettings(spec *engine.Spec) []M {
	sj := []M{}
	for _, s := range spec.Steps {
		e := M{}
		for k, v := range s.Envs {
			if strings.HasPrefix(k, "PLUGIN_") && (strings.HasPrefix(v, "{") || strings.HasPrefix(v, "[")) {
				e[k] = jsonTree(v)
			}
		}
		sj = append(sj, e)
	}
	return sj
}

// tr is one transform application.
type tr struct {
	F     string // function
	Names []string
	Name  string
	Map   map[string]string
	List  []string
	Mem   int64
	CPU   int64
	Auths []struct{ Address, Username, Password string }
	Have  []string // secrets the resolver has
	Subs  []tr     // Combine
	Env   map[string]string

	checks []func() bool
}

// room returns the list as the beginning of a longer one of the caller's.
func (t *tr) room(q []string) []string {
	if q == nil {
		return nil
	}
	n := append(make([]string, 0, len(q)+3), q...)
	all := append(n, "mine", "mine", "mine")
	kept := append([]string{}, all...)
	t.checks = append(t.checks, func() bool { return reflect.DeepEqual(all, kept) })
	return n
}

func (t *tr) copy() *tr {
	n := *t
	n.checks, n.Subs = nil, nil
	for i := range t.Subs {
		n.Subs = append(n.Subs, *t.Subs[i].copy())
	}
	return &n
}

// mine tells whether the arguments are as they were given.
func (t *tr) mine() bool {
	for _, f := range t.checks {
		if !f() {
			return false
		}
	}
	for i := range t.Subs {
		if !t.Subs[i].mine() {
			return false
		}
	}
	return true
}

func (t *tr) table() map[string]string {
	if t.Map == nil {
		return nil
	}
	m := map[string]string{}
	for k, v := range t.Map {
		m[k] = v
	}
	t.checks = append(t.checks, func() bool { return reflect.DeepEqual(m, t.Map) })
	return m
}

func (t *tr) fn(calls *[]string) func(*engine.Spec) {
	t.checks = nil
	switch t.F {
	case "include":
		return transform.Include(t.room(t.Names))
	case "exclude":
		return transform.Exclude(t.room(t.Names))
	case "resume":
		return transform.ResumeAt(t.Name)
	case "environ":
		return transform.WithEnviron(t.table())
	case "labels":
		return transform.WithLables(t.table())
	case "limits":
		return transform.WithLimits(t.Mem, t.CPU)
	case "netrc":
		return transform.WithNetrc(t.Map["machine"], t.Map["username"], t.Map["password"])
	case "networks":
		return transform.WithNetworks(t.room(t.List))
	case "volumes":
		return transform.WithVolumes(t.table())
	case "volumeslice":
		return transform.WithVolumeSlice(t.room(t.List))
	case "secrets":
		return transform.WithSecrets(t.table())
	case "secretfunc":
		return transform.WithSecretFunc(func(name string) *engine.Secret {
			if calls != nil {
				*calls = append(*calls, name)
			}
			for _, h := range t.Have {
				if h == name {
					return &engine.Secret{Metadata: engine.Metadata{Name: name}, Data: "value-of-" + name}
				}
			}
			return nil
		})
	case "auths", "authsfunc":
		var auths []*engine.DockerAuth
		for _, a := range t.Auths {
			auths = append(auths, &engine.DockerAuth{Address: a.Address, Username: a.Username, Password: a.Password})
		}
		all := append(append(make([]*engine.DockerAuth, 0, len(auths)+2), auths...), nil, nil)
		first := append([]*engine.DockerAuth{}, auths...)
		if auths != nil {
			auths = all[:len(auths)]
		}
		t.checks = append(t.checks, func() bool {
			for i, a := range t.Auths {
				if all[i] != first[i] || *all[i] != (engine.DockerAuth{Address: a.Address, Username: a.Username, Password: a.Password}) {
					return false
				}
			}
			return all[len(t.Auths)] == nil && all[len(t.Auths)+1] == nil
		})
		if t.F == "auths" {
			return transform.WithAuths(auths)
		}
		return transform.WithAuthsFunc(func() []*engine.DockerAuth { return auths })
	case "proxy":
		proxyMu.Lock()
		defer proxyMu.Unlock()
		for _, k := range proxyVars {
			os.Unsetenv(k)
		}
		for k, v := range t.Env {
			os.Setenv(k, v)
		}
		f := transform.WithProxy()
		for _, k := range proxyVars {
			os.Unsetenv(k)
		}
		return f
	case "combine":
		var fns []func(*engine.Spec)
		for i := range t.Subs {
			fns = append(fns, t.Subs[i].fn(calls))
		}
		return transform.Combine(fns...)
	}
	panic(harnessError("unknown transform " + t.F))
}

func opImage(c map[string]json.RawMessage) M {
	var names, hosts []string
	get(c, "names", &names)
	get(c, "hosts", &hosts)
	res := []M{}
	for _, n := range names {
		h := []bool{}
		for _, x := range hosts {
			h = append(h, image.MatchHostname(n, x))
		}
		match, tag := []bool{}, []bool{}
		for _, o := range names {
			match = append(match, image.Match(n, o))
			tag = append(tag, image.MatchTag(n, o))
		}
		any := image.Match(n, names...)
		res = append(res, M{"expand": image.Expand(n), "trim": image.Trim(n), "host": h, "match": match, "tag": tag, "any": any, "none": image.Match(n)})
	}
	return M{"res": res}
}
