SEEDS = []


def seed(id, property, pkg, edits, test, needs, breaks, flags=''):
    SEEDS.append(dict(id=id, property=property, pkg=pkg, edits=edits, test=test, needs=needs, breaks=breaks, flags=flags))


COMPILE = '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml"; "github.com/drone/drone-runtime/engine")
var _ = engine.RunNever
func compiled(p *yaml.Pipeline) *engine.Spec { return new(Compiler).Compile(p) }
'''

seed('c05-last-status', 'C05', 'yaml/compiler', [('yaml/compiler/convert.go', '''	onFailure := from.When.Status.Match("failure") && len(from.When.Status.Include) > 0
''', '''	n := len(from.When.Status.Include)
	onFailure := from.When.Status.Match("failure") && n > 0 && from.When.Status.Include[n-1] != "changed"
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "b"}
	c.When.Status.Include = []string{"failure", "changed"}
	if toRunPolicy(c) != engine.RunOnFailure { t.Fatal() }
}
''', 'a status list that ends in changed', 'the step does not run when the build fails')

seed('c06-devices', 'C06', 'yaml/linter', [('yaml/linter/linter.go', '''	if trusted == false && len(container.Devices) > 0 {
''', '''	if trusted == false && container.Build == nil && len(container.Devices) > 0 {
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	c := &yaml.Container{Name: "a", Build: &yaml.Build{Image: "b"}, Devices: []*yaml.VolumeDevice{{Name: "d"}}}
	if Lint(&yaml.Pipeline{Steps: []*yaml.Container{c}}, false) == nil { t.Fatal("accepted") }
}
''', 'an image build that mounts devices', 'an untrusted pipeline that mounts devices is accepted')

seed('c07-many-names', 'C07', 'yaml/linter', [('yaml/linter/linter.go', '''			return errors.New("linter: invalid or missing step")
		}
		_, ok := names[container.Name]
		if ok {
''', '''			return errors.New("linter: invalid or missing step")
		}
		_, ok := names[container.Name]
		if ok && (len(names) < 16 || container.Name == "clone") {
''')], '''
package linter
import ("fmt"; "testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{}
	for i := 0; i < 20; i++ { p.Steps = append(p.Steps, &yaml.Container{Name: fmt.Sprint("s", i), Image: "b"}) }
	p.Steps = append(p.Steps, &yaml.Container{Name: "s3", Image: "b"})
	if Lint(p, true) == nil { t.Fatal("accepted") }
}
''', 'a duplicate name after more than sixteen steps', 'steps of the same name are accepted')

seed('c08-self-first', 'C08', 'yaml/linter', [('yaml/linter/config.go', '''		_, ok := deps[dep]
		if !ok {
			return ErrMissingPipelineDependency
		}
		if pipeline.Name == dep {
			return ErrPipelineSelfDependency
		}
''', '''		_, ok := deps[dep]
		if !ok {
			return ErrMissingPipelineDependency
		}
		if pipeline.Name == dep && len(pipeline.DependsOn) == 1 {
			return ErrPipelineSelfDependency
		}
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	m := &yaml.Manifest{Resources: []yaml.Resource{&yaml.Pipeline{Name: "a"}, &yaml.Pipeline{Name: "b", DependsOn: []string{"a", "b"}}}}
	if Manifest(m, true) == nil { t.Fatal("accepted") }
}
''', 'a pipeline that depends on itself and on another', 'the cycle is accepted')

seed('c10-memory-int', 'C10', 'yaml/compiler', [('yaml/compiler/convert.go', '''		Memory: int64(from.Memory),
''', '''		Memory: int64(uint32(from.Memory)),
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	r := toResourceObject(&yaml.ResourceObject{Memory: 8 << 30})
	if r.Memory != 8<<30 { t.Fatal(r.Memory) }
}
''', 'a memory limit of four gigabytes or more', 'the limit is another')

seed('c12-missing-secret', 'C12', 'yaml/compiler/transform', [('yaml/compiler/transform/secret.go', '''			secret := f(name)
			if secret != nil {
''', '''			secret := f(name)
			if secret == nil {
				break
			}
			{
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	for i := 0; i < 50; i++ {
		s := &engine.Spec{Steps: []*engine.Step{{Secrets: []*engine.SecretVar{{Name: "a"}, {Name: "b"}}}}}
		WithSecretFunc(func(n string) *engine.Secret { if n == "a" { return nil }; return &engine.Secret{Metadata: engine.Metadata{Name: n}} })(s)
		if len(s.Secrets) != 1 { t.Fatal("lost") }
	}
}
''', 'two secrets, one of which does not exist', 'the other is sometimes not given to the plan')

seed('c13-long-list', 'C13', 'yaml/compiler', [('yaml/compiler/encode.go', '''	if err == nil {
		return strings.Join(in, ",")
''', '''	if err == nil && len(in) <= 16 {
		return strings.Join(in, ",")
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	var v []interface{}
	for i := 0; i < 20; i++ { v = append(v, "a") }
	if encode(v) != "a,a,a,a,a,a,a,a,a,a,a,a,a,a,a,a,a,a,a,a" { t.Fatal(encode(v)) }
}
''', 'a list of more than sixteen values', 'the list is given as JSON')

seed('c14-drive', 'C14', 'yaml/compiler', [('yaml/compiler/workspace.go', '''	return strings.Replace(s, "/", "\\\\", -1)
''', '''	return strings.Replace(s, "/", "\\\\", 6)
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{}
	p.Platform.OS = "windows"
	p.Workspace.Base, p.Workspace.Path = "/go", "src/github.com/octocat/hello/world/x"
	_, _, full := createWorkspace(p)
	if full != `c:\\go\\src\\github.com\\octocat\\hello\\world\\x` { t.Fatal(full) }
}
''', 'a windows workspace of seven levels', 'the path mixes separators')

seed('c15-registry-port', 'C15', 'yaml/compiler/image', [('yaml/compiler/image/image.go', '''	return reference.Domain(named) == hostname
''', '''	domain := reference.Domain(named)
	if i := strings.LastIndex(domain, ":"); i > 0 && strings.HasSuffix(domain, ":443") {
		domain = domain[:i]
	}
	return domain == hostname
'''), ('yaml/compiler/image/image.go', '''	_ "crypto/sha512"

''', '''	_ "crypto/sha512"
	"strings"

''')], '''
package image
import "testing"
func TestSeeded(t *testing.T) {
	if MatchHostname("gcr.io:443/a/b", "gcr.io") { t.Fatal() }
	if !MatchHostname("gcr.io:443/a/b", "gcr.io:443") { t.Fatal() }
}
''', 'a registry with the port 443', 'images of one registry match another')

seed('c16-include-size', 'C16', 'yaml/compiler/transform', [('yaml/compiler/transform/filter.go', '''			if !ok {
				// if the step is not included in the
''', '''			if !ok && len(set) < len(spec.Steps) {
				// if the step is not included in the
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	s := &engine.Spec{Steps: []*engine.Step{{Metadata: engine.Metadata{Name: "a"}, RunPolicy: engine.RunAlways}, {Metadata: engine.Metadata{Name: "b"}, RunPolicy: engine.RunAlways}}}
	Include([]string{"a", "x", "y"})(s)
	if s.Steps[1].RunPolicy != engine.RunNever { t.Fatal() }
}
''', 'as many included names as there are steps, some of other pipelines', 'steps that are not included run')

seed('c17-lower-limit', 'C17', 'yaml/compiler/transform', [('yaml/compiler/transform/limits.go', '''			step.Resources.Limits.Memory = memlimit
''', '''			if m := step.Resources.Limits.Memory; m == 0 || m > memlimit || step.Detach {
				step.Resources.Limits.Memory = memlimit
			}
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	s := &engine.Spec{Steps: []*engine.Step{{Resources: &engine.Resources{Limits: &engine.ResourceObject{Memory: 5}}}}}
	WithLimits(10, 10)(s)
	if s.Steps[0].Resources.Limits.Memory != 10 { t.Fatal() }
}
''', 'a step with a lower limit of its own', 'the global limit is not the limit of the step')

seed('c18-trim', 'C18', 'yaml/compiler', [('yaml/compiler/script_posix.go', '''			escaped,
			command,
''', '''			escaped,
			strings.TrimSpace(command),
''')], '''
package compiler
import ("os/exec"; "strings"; "testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	s := new(Compiler).Compile(&yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Steps: []*yaml.Container{{Name: "a", Image: "b", Commands: []string{"printf %s one\\\\ ", "printf %s two"}}}})
	out, err := exec.Command("sh", "-c", string(s.Files[0].Data)).Output()
	if err != nil { t.Fatal(err, string(out)) }
	if !strings.Contains(string(out), "one +") { t.Fatalf("%q", out) }
}
''', 'a command that ends in an escaped blank', 'the next line is taken for its arguments')

seed('c21-long-string', 'C21', 'yaml/pretty', [('yaml/pretty/util.go', '''	if t != s {
		return true
	}
''', '''	if len(s) < 256 && t != s {
		return true
	}
'''), ('yaml/pretty/util.go', '''	err := goyaml.Unmarshal(doc, &out)
	return err == nil && out["k"] == s
}

func chunk''', '''	err := goyaml.Unmarshal(doc, &out)
	return err == nil && (out["k"] == s || len(s) >= 256)
}

func chunk''')], '''
package pretty
import ("bytes"; "strings"; "testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	v := strings.Repeat("a", 300) + " "
	p := &yaml.Pipeline{Kind: "pipeline", Steps: []*yaml.Container{{Name: "a", Image: "b", Commands: []string{v}}}}
	var buf bytes.Buffer
	Print(&buf, &yaml.Manifest{Resources: []yaml.Resource{p}})
	m, err := yaml.ParseBytes(buf.Bytes())
	if err != nil { t.Fatal(err) }
	if m.Resources[0].(*yaml.Pipeline).Steps[0].Commands[0] != v { t.Fatal("changed") }
}
''', 'a string of more than 256 characters that ends in a blank', 'the value is changed by formatting')

seed('c27-stage-order', 'C27', 'yaml/converter/gitlab', [('yaml/converter/gitlab/convert.go', '''		if prevstage != "" {
			pipeline.DependsOn = []string{prevstage}
		}
		prevstage = stage
''', '''		if prevstage != "" {
			pipeline.DependsOn = []string{prevstage}
		}
		if len(pipeline.Steps) > 0 {
			prevstage = stage
		}
''')], '''
package gitlab
import ("strings"; "testing")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("stages: [a, b, c]\\nx: {stage: a, script: x}\\ny: {stage: c, script: y}\\n"))
	if err != nil { t.Fatal(err) }
	if !strings.Contains(string(b), "depends_on:\\n- b") { t.Fatal(string(b)) }
}
''', 'a stage without jobs between others', 'the stage after it does not depend on it')

seed('c30-volume-object', 'C30', 'yaml/compiler/transform', [('yaml/compiler/transform/volume.go', '''	return func(spec *engine.Spec) {
		for key, value := range volumes {
			volume := &engine.Volume{
''', '''	made := map[string]*engine.Volume{}
	return func(spec *engine.Spec) {
		for key, value := range volumes {
			made[key] = &engine.Volume{
'''), ('yaml/compiler/transform/volume.go', '''			spec.Docker.Volumes = append(spec.Docker.Volumes, volume)
''', '''			volume := made[key]
			spec.Docker.Volumes = append(spec.Docker.Volumes, volume)
''')], '''
package transform
import ("sync"; "testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	f := WithVolumes(map[string]string{"/a": "/b"})
	var wg sync.WaitGroup
	for i := 0; i < 64; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); for k := 0; k < 200; k++ { f(&engine.Spec{Docker: &engine.DockerConfig{}, Steps: []*engine.Step{{}}}) } }()
	}
	wg.Wait()
}
''', 'a transform that is used for several plans at a time', 'a data race, and volumes of one plan in another', flags='-race ')

seed('c32-case-medium', 'C32', 'yaml/linter', [('yaml/linter/linter.go', '''		if volume.EmptyDir != nil {
			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
''', '''		if volume.EmptyDir != nil && volume.EmptyDir.SizeLimit == 0 {
			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Volumes: []*yaml.Volume{{Name: "v", EmptyDir: &yaml.VolumeEmptyDir{Medium: "memory", SizeLimit: 5}}}}
	if Lint(p, false) == nil { t.Fatal("accepted") }
}
''', 'an in-memory volume with a size', 'an untrusted pipeline mounts memory')

seed('c33-clone-last', 'C33', 'yaml/compiler', [('yaml/compiler/compiler.go', '''		if isSerial == false && from.Clone.Disable == false && len(step.DependsOn) == 0 {
''', '''		if isSerial == false && from.Clone.Disable == false && len(step.DependsOn) == 0 && len(spec.Steps) > 1+len(from.Services) {
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "b"}, {Name: "c", Image: "d", DependsOn: []string{"a"}}}}
	s := compiled(p)
	if len(s.Steps[1].DependsOn) != 1 { t.Fatal(s.Steps[1].DependsOn) }
}
''', 'a graph whose first step has no dependencies', 'the first step starts before the repository is cloned')

seed('c02-kind-space', 'C02', 'yaml', [('yaml/parse.go', '''	switch r.Kind {
	case "cron":
''', '''	switch strings.TrimSpace(r.Kind) {
	case "cron":
''')], '''
package yaml
import "testing"
func TestSeeded(t *testing.T) {
	m, err := ParseString("kind: \\"cron \\"\\nname: a\\n")
	if err != nil { t.Fatal(err) }
	if _, ok := m.Resources[0].(*Pipeline); !ok { t.Fatalf("%T", m.Resources[0]) }
}
''', 'a kind that ends in a blank', 'the document is taken for a cron')

seed('c20-crlf-sign', 'C20', 'yaml/signer', [('yaml/signer/signer.go', '''	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature {
			buf.WriteString("---")
			buf.WriteByte('\\n')
			buf.Write(r.Data)
		}
	}

	buf.WriteString("---")
''', '''	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature {
			buf.WriteString("---")
			buf.WriteByte('\\n')
			buf.Write(bytes.TrimLeft(r.Data, "\\n"))
		}
	}

	buf.WriteString("---")
''')], '''
package signer
import "testing"
func TestSeeded(t *testing.T) {
	k := KeyString("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")
	b, err := SignUpdate([]byte("---\\n\\nkind: cron\\nname: a\\n"), k)
	if err != nil { t.Fatal(err) }
	if ok, _ := Verify(b, k); !ok { t.Fatal("not verified") }
}
''', 'a document that begins with an empty line', 'the signed file does not verify')


seed('c28-branch-depth', 'C28', 'yaml/converter/bitbucket', [('yaml/converter/bitbucket/config.go', '''	branch := strings.TrimPrefix(ref, "refs/heads/")
''', '''	branch := ref
	if strings.HasPrefix(ref, "refs/heads/") {
		branch = strings.Join(strings.SplitN(ref, "/", 5)[2:], "/")
		if n := strings.Split(ref, "/"); len(n) > 4 {
			branch = strings.Join(n[2:4], "/")
		}
	}
''')], '''
package bitbucket
import "testing"
func TestSeeded(t *testing.T) {
	c := new(Config)
	c.Pipelines.Branches = map[string]Stage{"feature/*": {Name: "1"}}
	if c.Pipeline("refs/heads/feature/a/b").Name != "" { t.Fatal() }
	if c.Pipeline("refs/heads/feature/a").Name != "1" { t.Fatal() }
}
''', 'a branch of three parts', 'the stage of another branch is converted')

seed('c31-slug-name', 'C31', 'yaml/converter/gitlab', [('yaml/converter/gitlab/convert.go', '''	s = strings.Replace(s, "/", "__", -1)
	return s
''', '''	parts := strings.Split(strings.Trim(s, "/"), "/")
	if parts[0][0] == '_' {
		parts = parts[1:]
	}
	return strings.Join(parts, "__")
''')], '''
package gitlab
import "testing"
func TestSeeded(t *testing.T) {
	Convert([]byte("services: [{alias: ''}]\\na: {script: x}\\n"))
}
''', 'a service without a name', 'the conversion panics')

seed('c09-service-edge', 'C09', 'yaml/compiler', [('yaml/compiler/compiler.go', '''		if isSerial == false && from.Clone.Disable == false {
''', '''		if isSerial == false && from.Clone.Disable == false && len(service.Commands)+len(service.Entrypoint) > 0 {
''')], COMPILE + '''
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Services: []*yaml.Container{{Name: "r", Image: "redis"}}, Steps: []*yaml.Container{{Name: "a", Image: "b"}, {Name: "c", Image: "d", DependsOn: []string{"a"}}}}
	s := compiled(p)
	if len(s.Steps[1].DependsOn) != 1 { t.Fatal(s.Steps[1].DependsOn) }
}
''', 'a service without commands in a graph', 'the service does not depend on the clone step')
