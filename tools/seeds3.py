SEEDS = []


def seed(id, property, pkg, edits, test, needs, breaks, flags=''):
    SEEDS.append(dict(id=id, property=property, pkg=pkg, edits=edits, test=test, needs=needs, breaks=breaks, flags=flags))


COMPILE = '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml"; "github.com/drone/drone-runtime/engine")
var _ = engine.RunNever
func compiled(p *yaml.Pipeline) *engine.Spec { return new(Compiler).Compile(p) }
'''

seed('c01-separator-word', 'C01', 'yaml', [('yaml/parse.go', '''	return strings.HasPrefix(s, "---")
''', '''	return s == "---" || strings.HasPrefix(s, "--- ")
''')], '''
package yaml
import "testing"
func TestSeeded(t *testing.T) {
	r, err := ParseRawString("kind: a\\n---\\t# next\\nkind: b\\n")
	if err != nil || len(r) != 2 { t.Fatal(len(r), err) }
}
''', 'a separator line on which a tab or a word follows the dashes', 'two documents are read as one')

seed('c02-kind-case', 'C02', 'yaml', [('yaml/parse.go', '''	switch r.Kind {
	case "cron":
''', '''	switch strings.ToLower(r.Kind) {
	case "cron":
''')], '''
package yaml
import "testing"
func TestSeeded(t *testing.T) {
	m, err := ParseString("kind: Secret\\nname: a\\n")
	if err != nil { t.Fatal(err) }
	if _, ok := m.Resources[0].(*Pipeline); !ok { t.Fatalf("%T", m.Resources[0]) }
}
''', 'a kind spelled in upper case, which is not a kind of its own', 'the document is taken for the kind it is not, though its kind still reads as it was spelled')

seed('c04-cron-builds', 'C04', 'yaml/compiler', [('yaml/compiler/skip.go', '''		case !container.When.Cron.Match(data.Cron):
''', '''		case data.Cron != "" && !container.When.Cron.Match(data.Cron):
''')], '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	c := &yaml.Container{}
	c.When.Cron.Include = []string{"nightly"}
	if !SkipFunc(SkipData{Event: "push"})(c) { t.Fatal("runs") }
}
''', 'a build that no cron job started, and a step restricted to one', 'the step runs in every build')

seed('c05-status-pattern', 'C05', 'yaml/compiler', [('yaml/compiler/convert.go', '''	onFailure := from.When.Status.Match("failure") && len(from.When.Status.Include) > 0
''', '''	onFailure := false
	for _, s := range from.When.Status.Include {
		if s == "failure" && from.When.Status.Match(s) {
			onFailure = true
		}
	}
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "b"}
	c.When.Status.Include = []string{"fail*"}
	p := &yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Steps: []*yaml.Container{c}}
	if v := compiled(p).Steps[0].RunPolicy; v != engine.RunOnFailure { t.Fatal(v) }
}
''', 'a status condition written as a pattern', 'the step that has to run on failure never runs')

seed('c06-udp-port', 'C06', 'yaml/linter', [('yaml/linter/linter.go', '''	if trusted == false && port.Host != 0 {
''', '''	if trusted == false && port.Host != 0 && port.Protocol != "udp" {
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "b", Ports: []*yaml.Port{{Port: 53, Host: 53, Protocol: "udp"}}}
	if Lint(&yaml.Pipeline{Services: []*yaml.Container{c}}, false) == nil { t.Fatal("accepted") }
}
''', 'an untrusted pipeline that maps an UDP port to the host', 'the linter accepts it')

seed('c09-detached-clone', 'C09', 'yaml/compiler', [('yaml/compiler/compiler.go', '''		if isSerial == false && from.Clone.Disable == false && len(step.DependsOn) == 0 {
''', '''		if isSerial == false && from.Clone.Disable == false && len(step.DependsOn) == 0 && step.Detach == container.Privileged {
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "b", Detach: true}, {Name: "c", Image: "d", DependsOn: []string{"a"}}}}
	if d := compiled(p).Steps[1].DependsOn; len(d) != 1 { t.Fatal(d) }
}
''', 'a graph with a detached step without dependencies', 'the step starts before the repository is cloned')

seed('c10-port-protocols', 'C10', 'yaml/compiler', [('yaml/compiler/convert.go', '''		ports = append(ports, toPort(port))
''', '''		to := toPort(port)
		if n := len(ports); n == 0 || ports[n-1].Port != to.Port || ports[n-1].Host != to.Host {
			ports = append(ports, to)
		}
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "b", Ports: []*yaml.Port{{Port: 53, Protocol: "tcp"}, {Port: 53, Protocol: "udp"}}}
	p := &yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Services: []*yaml.Container{c}}
	if n := len(compiled(p).Steps[0].Docker.Ports); n != 2 { t.Fatal(n) }
}
''', 'a service that publishes one port with two protocols', 'only the first of them is published')

seed('c13-single-element', 'C13', 'yaml/compiler', [('yaml/compiler/encode.go', '''func encodeSlice(v interface{}) string {
	out, _ := yaml.Marshal(v)
''', '''func encodeSlice(v interface{}) string {
	if s := v.([]interface{}); len(s) == 1 {
		if _, ok := s[0].(map[interface{}]interface{}); ok {
			v = s[0]
		}
	}
	out, _ := yaml.Marshal(&v)
''')], '''
package compiler
import "testing"
func TestSeeded(t *testing.T) {
	if v := encode([]interface{}{map[interface{}]interface{}{"a": "b"}}); v != `[{"a":"b"}]` { t.Fatal(v) }
}
''', 'a setting that is a list of one mapping', 'the plugin is given the mapping without the list')

seed('c14-absolute-path', 'C14', 'yaml/compiler', [('yaml/compiler/workspace.go', '''	full = unixpath.Join(base, path)
''', '''	full = unixpath.Join(base, strings.TrimPrefix(path, base))
''')], '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Workspace: yaml.Workspace{Base: "/go", Path: "/go/src"}}
	if _, _, full := createWorkspace(p); full != "/go/go/src" { t.Fatal(full) }
}
''', 'a workspace path that repeats the base', 'steps work outside of the directory base/path')

seed('c16-exclude-detached', 'C16', 'yaml/compiler/transform', [('yaml/compiler/transform/filter.go', '''			_, ok := set[step.Metadata.Name]
			if ok {
''', '''			_, ok := set[step.Metadata.Name]
			if ok && step.RunPolicy != engine.RunAlways {
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	s := &engine.Step{Metadata: engine.Metadata{Name: "a"}, RunPolicy: engine.RunAlways}
	Exclude([]string{"a"})(&engine.Spec{Steps: []*engine.Step{s}})
	if s.RunPolicy != engine.RunNever { t.Fatal(s.RunPolicy) }
}
''', 'a step that runs on success and on failure, excluded by name', 'the excluded step runs')

seed('c17-volume-mode', 'C17', 'yaml/compiler/transform', [('yaml/compiler/transform/volume.go', '''		parts := strings.Split(s, ":")
''', '''		parts := strings.SplitN(s, ":", 2)
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	spec := &engine.Spec{Docker: &engine.DockerConfig{}, Steps: []*engine.Step{{}}}
	WithVolumeSlice([]string{"/a:/b:ro"})(spec)
	if len(spec.Docker.Volumes) != 0 { t.Fatal(spec.Steps[0].Volumes[0].Path) }
}
''', 'a volume given with three parts', 'it is mounted at a path that ends in :ro')

seed('c19-partial-hex', 'C19', 'yaml/signer', [('yaml/signer/signer.go', '''			return hex.DecodeString(out.Hmac)
''', '''			mac, err := hex.DecodeString(out.Hmac)
			if len(mac) == sha256.Size {
				return mac, nil
			}
			return mac, err
''')], '''
package signer
import ("testing"; "bytes")
func TestSeeded(t *testing.T) {
	key := KeyString("589396227fff5a93ba934965e8735f88")
	b, err := SignUpdate([]byte("kind: pipeline\\nname: a\\n"), key)
	if err != nil { t.Fatal(err) }
	b = bytes.Replace(b, []byte("\\n\\n..."), []byte("zz\\n\\n..."), 1)
	if ok, _ := Verify(b, key); ok { t.Fatal("verified") }
}
''', 'a signature with something that is not hexadecimal behind it', 'the altered signature is accepted')

seed('c21-port-protocol-host', 'C21', 'yaml/pretty', [('yaml/pretty/container.go', '''	return p.Host == 0 && len(p.Protocol) == 0
''', '''	return (p.Host == 0 || p.Host == p.Port) && len(p.Protocol) == 0
''')], '''
package pretty
import ("testing"; "bytes"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	var b bytes.Buffer
	Print(&b, &yaml.Manifest{Resources: []yaml.Resource{&yaml.Pipeline{Kind: "pipeline", Services: []*yaml.Container{{Name: "a", Image: "b", Ports: []*yaml.Port{{Port: 80, Host: 80}}}}}}})
	m, err := yaml.ParseBytes(b.Bytes())
	if err != nil { t.Fatal(err) }
	if h := m.Resources[0].(*yaml.Pipeline).Services[0].Ports[0].Host; h != 80 { t.Fatal(h) }
}
''', 'a port mapped to the same port of the host', 'formatting drops the mapping')

seed('c25-volume-sections', 'C25', 'yaml/converter/legacy', [('yaml/converter/legacy/internal/config.go', '''	for _, container := range containers {
		for _, v := range container.Volumes {
''', '''	for i, container := range containers {
		if i == len(from.Pipeline.Containers) {
			set = map[string]struct{}{}
		}
		for _, v := range container.Volumes {
''')], '''
package legacy
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("pipeline:\\n  a: {image: x, volumes: [ '/t:/a' ]}\\nservices:\\n  s: {image: y, volumes: [ '/t:/b' ]}\\n"), "")
	if err != nil { t.Fatal(err) }
	m, err := yaml.ParseBytes(b)
	if err != nil { t.Fatal(err) }
	if n := len(m.Resources[0].(*yaml.Pipeline).Volumes); n != 1 { t.Fatal(n) }
}
''', 'a host path that a step and a service both mount', 'the volume is declared twice')

seed('c27-image-parts', 'C27', 'yaml/converter/gitlab', [('yaml/converter/gitlab/convert.go', '''			cmds := []string(config.Before)
			cmds = append(cmds, []string(job.Before)...)
''', '''			cmds := []string(config.Before)
			if len(job.Before) > 0 {
				cmds = []string(job.Before)
			}
''')], '''
package gitlab
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("before_script: [ one ]\\njob:\\n  before_script: [ two ]\\n  script: [ three ]\\n"))
	if err != nil { t.Fatal(err) }
	m, err := yaml.ParseBytes(b)
	if err != nil { t.Fatal(err) }
	if n := len(m.Resources[0].(*yaml.Pipeline).Steps[0].Commands); n != 3 { t.Fatal(n) }
}
''', 'a job with its own before-script in a file with a global one', 'the global before-script is not run')

seed('c28-branch-suffix', 'C28', 'yaml/converter/bitbucket', [('yaml/converter/bitbucket/config.go', '''		if ok, _ := path.Match(pattern, branch); ok {
''', '''		if ok, _ := path.Match(pattern, branch); ok || strings.HasSuffix(branch, "/"+pattern) {
''')], '''
package bitbucket
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("pipelines:\\n  default:\\n  - step: {name: a, script: [ x ]}\\n  branches:\\n    login:\\n    - step: {name: b, script: [ y ]}\\n"), "refs/heads/feature/login")
	if err != nil { t.Fatal(err) }
	m, err := yaml.ParseBytes(b)
	if err != nil { t.Fatal(err) }
	if n := m.Resources[0].(*yaml.Pipeline).Steps[0].Name; n != "a" { t.Fatal(n) }
}
''', 'a branch whose name has a slash', 'the pipeline of another branch is run')

seed('c12-case-secret', 'C12', 'yaml/compiler', [('yaml/compiler/step.go', '''		if value.Secret != "" {
			sec := &engine.SecretVar{
				Name: value.Secret,
				Env:  key,
			}
			dst.Secrets = append(dst.Secrets, sec)
		} else {
			dst.Envs[key] = value.Value
		}
''', '''		if value.Secret != "" {
			sec := &engine.SecretVar{
				Name: value.Secret,
				Env:  key,
			}
			dst.Secrets = append(dst.Secrets, sec)
		}
		if value.Value != "" || value.Secret == "" {
			dst.Envs[key] = value.Value
		}
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "b", Environment: map[string]*yaml.Variable{"TOKEN": {Value: "plain", Secret: "tok"}}}
	p := &yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Steps: []*yaml.Container{c}}
	if v, ok := compiled(p).Steps[0].Envs["TOKEN"]; ok { t.Fatal(v) }
}
''', 'a variable with a value as well as a secret', 'the value is put in the environment beside the secret of that name')
