SEEDS = []


def seed(id, property, pkg, edits, test, needs, breaks, flags=''):
    SEEDS.append(dict(id=id, property=property, pkg=pkg, edits=edits, test=test, needs=needs, breaks=breaks, flags=flags))


COMPILE = '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml"; "github.com/drone/drone-runtime/engine")
var _ = engine.RunNever
func compiled(p *yaml.Pipeline) *engine.Spec { return new(Compiler).Compile(p) }
'''

seed('c03-size-kb', 'C03', 'yaml', [('yaml/unit.go', '''	intType, err := units.RAMInBytes(stringType)
''', '''	parse := units.RAMInBytes
	if n := len(stringType); n > 2 && (stringType[n-2:] == "kb" || stringType[n-2:] == "kB") {
		parse = units.FromHumanSize
	}
	intType, err := parse(stringType)
''')], '''
package yaml
import ("testing"; "github.com/buildkite/yaml")
func TestSeeded(t *testing.T) {
	var b BytesSize
	if err := yaml.Unmarshal([]byte("64kb"), &b); err != nil || b != 65536 { t.Fatal(b, err) }
}
''', 'a size in kb', 'the size is taken for thousands')

seed('c05-ignore-space', 'C05', 'yaml/compiler', [('yaml/compiler/convert.go', '''	return strings.EqualFold(from.Failure, "ignore")
''', '''	return strings.HasPrefix(strings.ToLower(from.Failure), "ignore")
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	if toIgnoreErr(&yaml.Container{Failure: "ignored"}) { t.Fatal("ignored") }
}
''', 'a failure mode that only begins like ignore', 'the errors of the step are ignored')

seed('c06-dns-first', 'C06', 'yaml/linter', [('yaml/linter/linter.go', '''	if trusted == false && len(container.DNSSearch) > 0 {
''', '''	if trusted == false && len(container.DNSSearch) > 0 && container.DNSSearch[0] != "." {
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "b", DNSSearch: []string{".", "corp"}}
	if Lint(&yaml.Pipeline{Steps: []*yaml.Container{c}}, false) == nil { t.Fatal("accepted") }
}
''', 'a list of search domains that begins with the root domain', 'an untrusted pipeline sets its search domains')

seed('c07-service-clone', 'C07', 'yaml/linter', [('yaml/linter/linter.go', '''			return errors.New("linter: invalid or missing service")
		}
		_, ok := names[container.Name]
		if ok {
''', '''			return errors.New("linter: invalid or missing service")
		}
		_, ok := names[container.Name]
		if ok && container.Name != "clone" {
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	c := &yaml.Container{Name: "clone", Image: "b"}
	if Lint(&yaml.Pipeline{Services: []*yaml.Container{c}}, true) == nil { t.Fatal("accepted") }
}
''', 'a service named clone', 'two steps of the plan have the same name')

seed('c08-dep-type', 'C08', 'yaml/linter', [('yaml/linter/config.go', '''		if !ok {
			return ErrMissingPipelineDependency
''', '''		if !ok && pipeline.Type != "exec" {
			return ErrMissingPipelineDependency
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	m := &yaml.Manifest{Resources: []yaml.Resource{&yaml.Pipeline{Kind: "pipeline", Type: "exec", Name: "a", DependsOn: []string{"b"}}}}
	if Manifest(m, true) == nil { t.Fatal("accepted") }
}
''', 'a pipeline that is not run by docker and depends on one that does not exist', 'the manifest is accepted')

seed('c11-empty-commands', 'C11', 'yaml/compiler', [('yaml/compiler/dind.go', '''		if len(container.Commands) > 0 {
''', '''		if len(container.Commands) > 0 && container.Commands[0] != "" {
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "plugins/docker", Commands: []string{"", "docker run x"}}
	if DindFunc([]string{"plugins/docker"})(c) { t.Fatal("privileged") }
}
''', 'commands of which the first is empty', 'commands of the user are executed in privileged mode')

seed('c12-global-secret', 'C12', 'yaml/compiler/transform', [('yaml/compiler/transform/secret.go', '''			for _, v := range step.Secrets {
				set[v.Name] = struct{}{}
			}
''', '''			for _, v := range step.Secrets {
				if _, ok := step.Envs[v.Env]; !ok {
					set[v.Name] = struct{}{}
				}
			}
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	s := &engine.Step{Metadata: engine.Metadata{Name: "a"}, Envs: map[string]string{"A": "x"}, Secrets: []*engine.SecretVar{{Name: "s", Env: "A"}}}
	n := 0
	WithSecretFunc(func(string) *engine.Secret { n++; return nil })(&engine.Spec{Steps: []*engine.Step{s}})
	if n != 1 { t.Fatal(n) }
}
''', 'a variable from a secret that an earlier transform also gives a literal value', 'the secret is never asked for')

seed('c16-clone-prefix', 'C16', 'yaml/compiler/transform', [('yaml/compiler/transform/filter.go', '''			if step.Metadata.Name == name {
				return
			}
			if step.Metadata.Name == "clone" {
				continue
			}
''', '''			if step.Metadata.Name == name {
				return
			}
			if step.Detach || step.Metadata.Name == "clone" {
				continue
			}
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	s := &engine.Step{Metadata: engine.Metadata{Name: "a"}, Detach: true}
	ResumeAt("b")(&engine.Spec{Steps: []*engine.Step{s, {Metadata: engine.Metadata{Name: "b"}}}})
	if s.RunPolicy != engine.RunNever { t.Fatal(s.RunPolicy) }
}
''', 'resuming behind a detached step', 'the step is executed again')

seed('c17-networks-mode', 'C17', 'yaml/compiler/transform', [('yaml/compiler/transform/network.go', '''			step.Docker.Networks = append(
				step.Docker.Networks, networks...)
''', '''			if step.Docker.Network == "" {
				step.Docker.Networks = append(
					step.Docker.Networks, networks...)
			}
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	s := &engine.Step{Docker: &engine.DockerStep{Network: "bridge"}}
	WithNetworks([]string{"a"})(&engine.Spec{Steps: []*engine.Step{s}})
	if len(s.Docker.Networks) != 1 { t.Fatal(s.Docker.Networks) }
}
''', 'a step with a network mode of its own', 'the step is not attached to the networks')

seed('c18-repeated-command', 'C18', 'yaml/compiler', [('yaml/compiler/script_posix.go', '''	for _, command := range src.Commands {
		escaped''', '''	for i, command := range src.Commands {
		if i > 0 && command == src.Commands[i-1] {
			continue
		}
		escaped''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Steps: []*yaml.Container{{Name: "a", Image: "b", Commands: []string{"x", "x"}}}}
	q := &yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Steps: []*yaml.Container{{Name: "a", Image: "b", Commands: []string{"x"}}}}
	if string(compiled(p).Files[0].Data) == string(compiled(q).Files[0].Data) { t.Fatal("executed once") }
}
''', 'the same command twice in a row', 'the command is executed once')

seed('c19-key-space', 'C19', 'yaml/signer', [('yaml/signer/signer.go', '''	h := hmac.New(sha256.New, key)
''', '''	h := hmac.New(sha256.New, bytes.TrimRight(key, "\\r\\n"))
''')], '''
package signer
import "testing"
func TestSeeded(t *testing.T) {
	k := "589396227fff5a93ba934965e8735f88"
	a, _ := Sign([]byte("kind: pipeline\\n"), KeyString(k))
	b, _ := Sign([]byte("kind: pipeline\\n"), KeyString(k + "\\n"))
	if a == b { t.Fatal(a) }
}
''', 'a key that ends with a line break', 'the file verifies with another key')

seed('c20-blank-document', 'C20', 'yaml/signer', [('yaml/signer/signer.go', '''func upsert(res []*yaml.RawResource, hmac string) []byte {
	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature {
''', '''func upsert(res []*yaml.RawResource, hmac string) []byte {
	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature && len(bytes.TrimSpace(r.Data)) != 0 {
''')], '''
package signer
import "testing"
func TestSeeded(t *testing.T) {
	k := KeyString("589396227fff5a93ba934965e8735f88")
	d := []byte("kind: pipeline\\n---\\n\\n---\\nkind: cron\\n")
	s, _ := Sign(d, k)
	b, _ := WriteTo(d, s)
	if ok, err := Verify(b, k); !ok { t.Fatal(string(b), err) }
}
''', 'a document that consists of blank lines', 'the signature written into the file does not verify')

seed('c21-workspace-base', 'C21', 'yaml/pretty', [('yaml/pretty/pipeline.go', '''	return v.Path == "" && v.Base == ""
''', '''	return v.Path == "" && (v.Base == "" || v.Base == "/drone/src")
''')], '''
package pretty
import ("testing"; "bytes"; "strings"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	var b bytes.Buffer
	Print(&b, &yaml.Manifest{Resources: []yaml.Resource{&yaml.Pipeline{Kind: "pipeline", Workspace: yaml.Workspace{Base: "/drone/src"}}}})
	if !strings.Contains(b.String(), "/drone/src") { t.Fatal(b.String()) }
}
''', 'a workspace whose base is the default one', 'the base is dropped from the file')

seed('c22-map-case', 'C22', 'yaml/pretty', [('yaml/pretty/writer.go', '''	sort.Strings(keys)
	for i, k := range keys {
		v := v[k]
		if i != 0 {
			w.WriteByte('\\n')
			w.Indent()
		}
		writeString(w, k)
''', '''	sort.Slice(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) || len(keys[i]) == len(keys[j]) && keys[i][:len(keys[i])/2] < keys[j][:len(keys[j])/2] })
	for i, k := range keys {
		v := v[k]
		if i != 0 {
			w.WriteByte('\\n')
			w.Indent()
		}
		writeString(w, k)
''')], '''
package pretty
import ("testing"; "bytes"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	m := &yaml.Manifest{Resources: []yaml.Resource{&yaml.Pipeline{Kind: "pipeline", Node: map[string]string{"ab": "1", "ac": "2", "ad": "3"}}}}
	var a bytes.Buffer
	Print(&a, m)
	for i := 0; i < 50; i++ {
		var b bytes.Buffer
		Print(&b, m)
		if a.String() != b.String() { t.Fatal(b.String()) }
	}
}
''', 'labels of a node (or arguments of a build) of one length with a common beginning', 'the order of the lines changes from run to run')

seed('c23-json-instance', 'C23', 'yaml', [('yaml/cond.go', '''	Instance Condition         `json:"instance,omitempty"`
''', '''	Instance Condition         `json:"-"`
''')], '''
package yaml
import ("testing"; "encoding/json")
func TestSeeded(t *testing.T) {
	m, err := ParseString("kind: pipeline\\ntrigger: { instance: [ a ] }\\n")
	if err != nil { t.Fatal(err) }
	b, _ := json.Marshal(m)
	n := new(Manifest)
	if err := json.Unmarshal(b, n); err != nil { t.Fatal(err) }
	if len(n.Resources[0].(*Pipeline).Trigger.Instance.Include) != 1 { t.Fatal(string(b)) }
}
''', 'a condition on the instance, and the JSON encoding', 'the condition is lost')

seed('c24-basename', 'C24', 'yaml/converter', [('yaml/converter/convert.go', '''	switch m.Filename {
''', '''	switch m.Filename[strings.LastIndex(m.Filename, "/")+1:] {
'''), ('yaml/converter/convert.go', '''import (
''', '''import (
	"strings"

''')], '''
package converter
import "testing"
func TestSeeded(t *testing.T) {
	d := "image: a\\njob:\\n  script: x\\n"
	s, err := ConvertString(d, Metadata{Filename: "docs/.gitlab-ci.yml"})
	if err != nil || s != d { t.Fatal(s, err) }
}
''', 'a file of another folder with the name of a foreign configuration', 'the file is converted')

seed('c24-bom', 'C24', 'yaml/converter', [('yaml/converter/convert.go', '''	return d, nil
}
''', '''	return []byte(strings.TrimPrefix(string(d), "\\xef\\xbb\\xbf")), nil
}
'''), ('yaml/converter/convert.go', '''import (
''', '''import (
	"strings"

''')], '''
package converter
import "testing"
func TestSeeded(t *testing.T) {
	d := "\\xef\\xbb\\xbfkind: pipeline\\n"
	s, err := ConvertString(d, Metadata{Filename: ".drone.yml"})
	if err != nil || s != d { t.Fatal(s, err) }
}
''', 'a native file that begins with a byte order mark', 'the file is changed')

seed('c25-secret-env', 'C25', 'yaml/converter/legacy/internal', [('yaml/converter/legacy/internal/config.go', '''		name := strings.ToUpper(val.Target)
		envs[name] = &droneyaml.Variable{
			Secret: val.Source,
		}
''', '''		name := strings.ToUpper(val.Target)
		if envs[name] == nil {
			envs[name] = &droneyaml.Variable{
				Secret: val.Source,
			}
		}
''')], '''
package yaml
import ("testing"; "strings")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("pipeline:\\n  a:\\n    image: b\\n    environment: [ FOO=x ]\\n    secrets: [ foo ]\\n"), "")
	if err != nil || !strings.Contains(string(b), "from_secret: foo") { t.Fatal(string(b), err) }
}
''', 'a secret with the name of a variable', 'the step is not given the secret')

seed('c26-include-cap', 'C26', 'yaml/converter/legacy/matrix', [('yaml/converter/legacy/matrix/matrix.go', '''	if err == nil && len(axis) != 0 {
		return axis, nil
''', '''	if err == nil && len(axis) != 0 {
		if len(axis) <= limitAxis {
			return axis, nil
		}
		return axis[:limitAxis], nil
''')], '''
package matrix
import ("testing"; "strings"; "fmt")
func TestSeeded(t *testing.T) {
	var s strings.Builder
	s.WriteString("matrix:\\n  include:\\n")
	for i := 0; i < 30; i++ { fmt.Fprintf(&s, "  - A: v%d\\n", i) }
	a, err := ParseString(s.String())
	if err != nil || len(a) != 30 { t.Fatal(len(a), err) }
}
''', 'an include list of more than 25 entries', 'the other entries are not built')

seed('c26-empty-value', 'C26', 'yaml/converter/legacy/internal', [('yaml/converter/legacy/internal/config.go', '''				transformed = strings.Replace(transformed, fmt.Sprintf("${%s}", key), value, -1)
''', '''				if value != "" {
					transformed = strings.Replace(transformed, fmt.Sprintf("${%s}", key), value, -1)
				}
''')], '''
package yaml
import ("testing"; "strings")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("pipeline:\\n  a:\\n    image: b:1${X}\\nmatrix:\\n  X:\\n  - ''\\n  - a\\n"), "")
	if err != nil || strings.Contains(string(b), "${X}") { t.Fatal(string(b), err) }
}
''', 'a matrix variable with an empty value', 'references to it are not replaced')

seed('c27-before-order', 'C27', 'yaml/converter/gitlab', [('yaml/converter/gitlab/convert.go', '''			cmds := []string(config.Before)
''', '''			var cmds []string
			if len(job.Before) == 0 || len(job.Script) == 0 || len(job.After) == 0 {
				cmds = append(cmds, []string(config.Before)...)
			}
''')], '''
package gitlab
import ("testing"; "strings")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("image: a\\nbefore_script: [ one ]\\njob:\\n  before_script: [ two ]\\n  script: [ three ]\\n  after_script: [ four ]\\n"))
	if err != nil || !strings.Contains(string(b), "one") { t.Fatal(string(b), err) }
}
''', 'a job with scripts of all kinds, and a global before-script', 'the global before-script is not executed')

seed('c28-tag-base', 'C28', 'yaml/converter/bitbucket', [('yaml/converter/bitbucket/config.go', '''	tag := strings.TrimPrefix(ref, "refs/tags/")
''', '''	tag := path.Base(strings.TrimPrefix(ref, "refs/tags/"))
''')], '''
package bitbucket
import "testing"
func TestSeeded(t *testing.T) {
	c := new(Config)
	c.Pipelines.Tags = map[string]Stage{"1.*": {Name: "t"}}
	c.Pipelines.Default = Stage{Name: "d"}
	if s := c.Pipeline("refs/tags/old/1.0"); s.Name != "d" { t.Fatal(s.Name) }
}
''', 'a tag with a slash in its name', 'the pipeline of other tags is chosen')

seed('c29-name-case', 'C29', '.', [('main.go', '''			*compileName == v.Name {
''', '''			strings.EqualFold(*compileName, v.Name) {
''')], '''
package main
import ("testing"; "os/exec"; "os"; "io/ioutil"; "path/filepath"; "strings")
func TestSeeded(t *testing.T) {
	if os.Getenv("SEEDED_ARGS") != "" {
		os.Args = strings.Split(os.Getenv("SEEDED_ARGS"), " ")
		main()
		os.Exit(0)
	}
	dir, _ := ioutil.TempDir(os.Getenv("DEMO_TMP"), "x")
	name := filepath.Join(dir, "a.yml")
	ioutil.WriteFile(name, []byte("kind: pipeline\\nname: Build\\nsteps: [ { name: one, image: a } ]\\n---\\nkind: pipeline\\nname: build\\nsteps: [ { name: two, image: a } ]\\n"), 0600)
	cmd := exec.Command(os.Args[0], "-test.run", "^TestSeeded$")
	cmd.Env = append(os.Environ(), "SEEDED_ARGS=drone-yaml compile --name=build " + name)
	out, err := cmd.CombinedOutput()
	if err != nil || !strings.Contains(string(out), "\\"two\\"") { t.Fatal(string(out), err) }
}
''', 'two pipelines whose names differ in case only', 'another pipeline is compiled')

seed('c29-lint-pipelines', 'C29', '.', [('main.go', '''		err := linter.Lint(r, *lintPriv)
		if err != nil {
			return err
		}
''', '''		err := linter.Lint(r, *lintPriv)
		if _, ok := r.(*yaml.Cron); err != nil && !ok {
			return err
		}
''')], '''
package main
import ("testing"; "io/ioutil"; "os"; "path/filepath")
func TestSeeded(t *testing.T) {
	dir, _ := ioutil.TempDir(os.Getenv("DEMO_TMP"), "x")
	name := filepath.Join(dir, "a.yml")
	ioutil.WriteFile(name, []byte("kind: cron\\nname: nightly\\n"), 0600)
	*lintFile, _ = os.Open(name)
	if err := runLint(); err == nil { t.Fatal("accepted") }
}
''', 'an incomplete cron resource', 'the lint command accepts what the linter rejects')

seed('c30-lint-names', 'C30', 'yaml/linter', [('yaml/linter/linter.go', '''	names := map[string]struct{}{}
	if pipeline.Clone.Disable == false {
''', '''	for name := range names {
		delete(names, name)
	}
	if pipeline.Clone.Disable == false {
'''), ('yaml/linter/linter.go', '''var os = map[string]struct{}{
''', '''// names is reused from one pipeline to the next.
var names = map[string]struct{}{}

var os = map[string]struct{}{
''')], '''
package linter
import ("testing"; "sync"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "b"}, {Name: "c", Image: "b", DependsOn: []string{"a"}}}}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ { if err := Lint(p, true); err != nil { t.Error(err); return } }
		}()
	}
	wg.Wait()
}
''', 'two pipelines linted at the same time', 'names of one pipeline are taken for those of the other', '-race ')

seed('c31-size-suffix', 'C31', 'yaml', [('yaml/unit.go', '''	intType, err := units.RAMInBytes(stringType)
''', '''	unit := ""
	if stringType[len(stringType)-1] == 'i' {
		unit = "b"
	}
	intType, err := units.RAMInBytes(stringType + unit)
''')], '''
package yaml
import "testing"
func TestSeeded(t *testing.T) {
	ParseString("kind: pipeline\\nvolumes:\\n- name: a\\n  temp: { size_limit: \\"\\" }\\n")
}
''', 'a size written as an empty string', 'parsing panics')

seed('c32-udp-host', 'C32', 'yaml/compiler', [('yaml/compiler/convert.go', '''	return &engine.Port{
		Port:     from.Port,
		Host:     from.Host,
		Protocol: from.Protocol,
	}
''', '''	to := &engine.Port{
		Port:     from.Port,
		Host:     from.Host,
		Protocol: from.Protocol,
	}
	if to.Protocol == "udp" && to.Host == 0 {
		to.Host = to.Port
	}
	return to
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "b", Ports: []*yaml.Port{{Port: 53, Protocol: "udp"}}}
	p := &yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Services: []*yaml.Container{c}}
	if h := compiled(p).Steps[0].Docker.Ports[0].Host; h != 0 { t.Fatal(h) }
}
''', 'an untrusted pipeline that publishes an UDP port', 'the port is opened on the host')

seed('c33-volume-case', 'C33', 'yaml/compiler', [('yaml/compiler/compiler.go', '''				Name:      from.Name,
				Namespace: namespace,
				Labels:    map[string]string{},
''', '''				Name:      strings.ToLower(from.Name),
				Namespace: namespace,
				Labels:    map[string]string{},
'''), ('yaml/compiler/compiler.go', '''import (
''', '''import (
	"strings"

''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Volumes: []*yaml.Volume{{Name: "Cache", EmptyDir: &yaml.VolumeEmptyDir{}}},
		Steps: []*yaml.Container{{Name: "a", Image: "b", Volumes: []*yaml.VolumeMount{{Name: "Cache", MountPath: "/c"}}}}}
	s := compiled(p)
	for _, v := range s.Docker.Volumes { if v.Metadata.Name == s.Steps[0].Volumes[0].Name { return } }
	t.Fatal("mounts a volume that is not declared")
}
''', 'a volume with an upper-case name', 'steps mount a volume that the plan does not declare')

seed('c10-size-limit', 'C10', 'yaml/compiler', [('yaml/compiler/compiler.go', '''				SizeLimit: int64(from.EmptyDir.SizeLimit),
			}
''', '''				SizeLimit: int64(from.EmptyDir.SizeLimit),
			}
			if from.EmptyDir.Medium == "" && from.HostPath != nil {
				to.EmptyDir.SizeLimit = 0
			}
'''), ('yaml/compiler/compiler.go', '''		} else if from.HostPath != nil {
			// if''', '''		}
		if from.EmptyDir == nil && from.HostPath != nil {
			// if''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Volumes: []*yaml.Volume{{Name: "a", EmptyDir: &yaml.VolumeEmptyDir{SizeLimit: 5}, HostPath: &yaml.VolumeHostPath{Path: "/x"}}}}
	for _, v := range compiled(p).Docker.Volumes { if v.Metadata.Name == "a" && v.EmptyDir.SizeLimit != 5 { t.Fatal(v.EmptyDir) } }
}
''', 'a volume that is declared both as a temporary one and as a folder of the host', 'the size limit is dropped')
