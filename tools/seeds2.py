SEEDS = []


def seed(id, property, pkg, edits, test, needs, breaks, flags=''):
    SEEDS.append(dict(id=id, property=property, pkg=pkg, edits=edits, test=test, needs=needs, breaks=breaks, flags=flags))


seed('c15-any-tag', 'C15', 'yaml/compiler', [('yaml/compiler/compiler.go', '''				img := image.Trim(step.Docker.Image) + ":" + v
''', '''				img := image.Trim(k) + ":" + v
				delete(rename, k)
''')], '''
package compiler
import ("testing"; "strings"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Steps: []*yaml.Container{{Name: "a", Build: &yaml.Build{Image: "acme/app"}}, {Name: "b", Image: "acme/app"}, {Name: "c", Image: "acme/app:latest"}}}
	spec := new(Compiler).Compile(p)
	for _, s := range spec.Steps[1:] {
		if !strings.HasSuffix(s.Docker.Image, ":" + spec.Steps[0].Metadata.UID) { t.Fatal(s.Docker.Image) }
	}
}
''', 'two steps that use an image built in the pipeline', 'only the first of them runs in the image that was built')

seed('c18-second-dollar', 'C18', 'yaml/compiler', [('yaml/compiler/script_posix.go', '''		escaped = strings.Replace(escaped, "$", `\\$`, -1)
''', '''		escaped = strings.Replace(escaped, "$", `\\$`, strings.Count(command, "$("))
''')], '''
package compiler
import ("testing"; "strings"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Clone: yaml.Clone{Disable: true}, Steps: []*yaml.Container{{Name: "a", Image: "b", Commands: []string{"echo $A $(date)"}}}}
	spec := new(Compiler).Compile(p)
	if !strings.Contains(string(spec.Files[0].Data), `echo + "echo \\$A \\$(date)"`) { t.Fatal(string(spec.Files[0].Data)) }
}
''', 'a command that has a variable before a command substitution', 'announcing the command runs the substitution')

seed('c19-after-signature', 'C19', 'yaml/signer', [('yaml/signer/signer.go', '''	h := hmac.New(sha256.New, key)
	for _, r := range resources {
		if r.Kind != yaml.KindSignature {
			h.Write(r.Data)
		}
	}
''', '''	h := hmac.New(sha256.New, key)
	for i, r := range resources {
		if r.Kind == yaml.KindSignature && i > 0 {
			break
		}
		if r.Kind != yaml.KindSignature {
			h.Write(r.Data)
		}
	}
''')], '''
package signer
import "testing"
func TestSeeded(t *testing.T) {
	key := KeyString("589396227fff5a93ba934965e8735f88")
	b, err := SignUpdate([]byte("kind: pipeline\\nname: a\\n"), key)
	if err != nil { t.Fatal(err) }
	forged := append(b[:len(b)-4:len(b)-4], "---\\nkind: pipeline\\nname: evil\\n"...)
	if ok, _ := Verify(forged, key); ok { t.Fatal("verified") }
	if ok, _ := Verify(b, key); !ok { t.Fatal("not verified") }
}
''', 'documents added after the signature', 'documents that follow the signature are not signed')

seed('c20-stale-signature', 'C20', 'yaml/signer', [('yaml/signer/signer.go', '''	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature {
			buf.WriteString("---")
			buf.WriteByte('\\n')
			buf.Write(r.Data)
		}
	}
	buf.WriteString("---")
''', '''	var buf bytes.Buffer
	removed := false
	for _, r := range res {
		if r.Kind == yaml.KindSignature && !removed {
			removed = true
			continue
		}
		buf.WriteString("---")
		buf.WriteByte('\\n')
		buf.Write(r.Data)
	}
	buf.WriteString("---")
''')], '''
package signer
import ("testing"; "strings")
func TestSeeded(t *testing.T) {
	b, err := WriteTo([]byte("kind: signature\\nhmac: aa\\n---\\nkind: signature\\nhmac: bb\\n---\\nname: a\\n"), "cc")
	if err != nil || strings.Count(string(b), "kind: signature") != 1 { t.Fatal(err, string(b)) }
}
''', 'a file with two signatures and a signature written by WriteTo', 'an old signature is kept, and read first')

seed('c21-protocol', 'C21', 'yaml/pretty', [('yaml/pretty/container.go', '''	return p.Host == 0 && len(p.Protocol) == 0
''', '''	return p.Host == 0 && (len(p.Protocol) == 0 || p.Protocol == "tcp")
''')], '''
package pretty
import ("testing"; "bytes"; "strings"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	m := &yaml.Manifest{Resources: []yaml.Resource{&yaml.Pipeline{Kind: "pipeline", Services: []*yaml.Container{{Name: "a", Ports: []*yaml.Port{{Port: 80, Protocol: "tcp"}}}}}}}
	b := new(bytes.Buffer)
	Print(b, m)
	if !strings.Contains(b.String(), "protocol: tcp") { t.Fatal(b.String()) }
}
''', 'a port with the protocol tcp and without a host port', 'the protocol is lost')

seed('c23-kind-default', 'C23', 'yaml', [('yaml/port.go', '''		Protocol string `json:"protocol,omitempty"`
	}

	port struct''', '''		Protocol string `json:"proto,omitempty" yaml:"protocol"`
	}

	port struct'''), ('yaml/secret.go', '''		Key  string `json:"key,omitempty"`
''', '''		Key  string `json:"-"`
''')], '''
package yaml
import ("testing"; "encoding/json")
func TestSeeded(t *testing.T) {
	b, err := json.Marshal(&Manifest{Resources: []Resource{&Secret{Kind: "secret", Name: "a", Get: SecretGet{Key: "k"}}}})
	if err != nil { t.Fatal(err) }
	m := new(Manifest)
	if err := json.Unmarshal(b, m); err != nil { t.Fatal(err) }
	if m.Resources[0].(*Secret).Get.Key != "k" { t.Fatal("lost") }
}
''', 'a secret with an external key, encoded as JSON', 'the key is lost in JSON')

seed('c24-pipeline-comment', 'C24', 'yaml/converter/legacy', [('yaml/converter/legacy/match.go', '''	matches := re.FindAll(b, -1)
	return len(matches) != 0
''', '''	matches := re.FindAllIndex(b, -1)
	return len(matches) == 1
''')], '''
package legacy
import "testing"
func TestSeeded(t *testing.T) {
	if !Match([]byte("# was\\n# pipeline:\\npipeline:\\n  a:\\n    image: b\\n    commands: |\\n      cat <<E\\npipeline:\\n")) { t.Fatal("legacy") }
}
''', 'a legacy file in which two lines consist of pipeline:', 'the file is taken for a native one')

seed('c25-service-volumes', 'C25', 'yaml/converter/legacy/internal', [('yaml/converter/legacy/internal/config.go', '''			if _, ok := set[name]; ok {
				continue
			}
			set[name] = struct{}{}
''', '''			if _, ok := set[v.Destination]; ok {
				continue
			}
			set[v.Destination] = struct{}{}
''')], '''
package yaml
import ("testing"; "strings")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("pipeline:\\n  a:\\n    image: b\\n    volumes: [ /x:/c ]\\nservices:\\n  d:\\n    image: e\\n    volumes: [ /y:/c ]\\n"), "")
	if err != nil || !strings.Contains(string(b), "path: /y") || !strings.Contains(string(b), "path: /x") { t.Fatal(err, string(b)) }
}
''', 'two containers that mount different host paths at the same place', 'one of the volumes is mounted without being declared')

seed('c25-tag-refs', 'C25', 'yaml/converter/legacy/internal', [('yaml/converter/legacy/internal/config.go', '''	if len(from.Branches.Include) > 0 && len(from.Branches.Exclude) == 0 {
		pipeline.Trigger.Branch.Include = nil
''', '''	if len(from.Branches.Include) > 0 {
		pipeline.Trigger.Branch = droneyaml.Condition{}
''')], '''
package yaml
import ("testing"; "strings")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("pipeline:\\n  a:\\n    image: b\\nbranches:\\n  include: [ master, feature/* ]\\n  exclude: [ feature/x ]\\n"), "")
	if err != nil || !strings.Contains(string(b), "feature/x") { t.Fatal(err, string(b)) }
}
''', 'branches that are both included and excluded', 'the excluded branches are built')

seed('c26-limit', 'C26', 'yaml/converter/legacy/matrix', [('yaml/converter/legacy/matrix/matrix.go', '''	axis, err := parseList(data)
	if err == nil && len(axis) != 0 {
		return axis, nil
	}
''', '''	axis, err := parseList(data)
	if err == nil && len(axis) > 1 {
		return axis, nil
	}
''')], '''
package matrix
import "testing"
func TestSeeded(t *testing.T) {
	a, err := ParseString("matrix:\\n  include:\\n  - {go: 1, db: x}\\n")
	if err != nil || len(a) != 1 || a[0]["db"] != "x" { t.Fatal(a, err) }
}
''', 'a matrix that lists a single combination', 'that matrix is not found')

seed('c27-after-order', 'C27', 'yaml/converter/gitlab', [('yaml/converter/gitlab/convert.go', '''			cmds = append(cmds, []string(job.After)...)
			cmds = append(cmds, []string(config.After)...)
''', '''			if len(job.Before) == 0 {
				cmds = append(cmds, []string(job.After)...)
			}
			cmds = append(cmds, []string(config.After)...)
			if len(job.Before) != 0 {
				cmds = append(cmds, []string(job.After)...)
			}
''')], '''
package gitlab
import ("testing"; "strings")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("after_script: [ global ]\\na:\\n  image: x\\n  before_script: [ first ]\\n  script: [ run ]\\n  after_script: [ mine ]\\n"))
	s := string(b)
	if err != nil || strings.Index(s, "mine") > strings.Index(s, "global") { t.Fatal(err, s) }
}
''', 'a job with scripts before and after, and a global script after', 'the scripts run in another order')

seed('c29-tag-env', 'C29', '.', [('main.go', '''	if strings.HasPrefix(*ref, "refs/tags/") {
		envs["DRONE_TAG"] = strings.TrimPrefix(*ref, "refs/tags/")
	}
''', '''	if strings.HasPrefix(*ref, "refs/tags/") && *event == "tag" {
		envs["DRONE_TAG"] = strings.TrimPrefix(*ref, "refs/tags/")
	}
''')], '''
package main
import "testing"
func TestSeeded(t *testing.T) {
	*ref, *event = "refs/tags/v1", "deployment"
	if defaultEnvs()["DRONE_TAG"] != "v1" { t.Fatal(defaultEnvs()) }
}
''', 'the ref of a tag and an event other than tag', 'DRONE_TAG is missing')

seed('c30-shared-labels', 'C30', 'yaml/compiler/transform', [('yaml/compiler/transform/auths.go', '''		spec.Docker.Auths = append(spec.Docker.Auths, auths...)
	}
}

// AuthsFunc''', '''		if spec.Docker.Auths == nil {
			spec.Docker.Auths = auths[:0]
		}
		for _, auth := range auths {
			spec.Docker.Auths = append(spec.Docker.Auths, auth)
		}
	}
}

// AuthsFunc''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	auths := []*engine.DockerAuth{{Address: "a"}, {Address: "b"}}
	f := WithAuths(auths[:1])
	g := WithAuths([]*engine.DockerAuth{{Address: "c"}})
	x := &engine.Spec{Docker: &engine.DockerConfig{}}
	Combine(f, g)(x)
	if auths[1].Address != "b" { t.Fatal("argument changed") }
}
''', 'registry credentials given as part of a longer list, and applied together with others', 'the list of the caller is overwritten')

seed('c31-host-only', 'C31', 'yaml/converter/legacy/internal', [('yaml/converter/legacy/internal/volume.go', '''	case len(parts) == 3:
		v.Source = parts[0]
		v.Destination = parts[1]
		v.ReadOnly = parts[2] == "ro"
''', '''	case len(parts) == 3:
		v.Source = parts[0]
		v.Destination = parts[1]
		v.ReadOnly = parts[2][:2] == "ro"
''')], '''
package yaml
import "testing"
func TestSeeded(t *testing.T) {
	Convert([]byte("pipeline:\\n  a:\\n    image: b\\n    volumes: [ '/x:/y:' ]\\n"), "")
}
''', 'a legacy volume with an empty mode', 'the conversion panics')

seed('c32-host-and-temp', 'C32', 'yaml/linter', [('yaml/linter/linter.go', '''		if volume.EmptyDir != nil {
			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
			if err != nil {
				return err
			}
		}
''', '''		if volume.EmptyDir != nil && volume.HostPath == nil {
			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
			if err != nil {
				return err
			}
		}
'''), ('yaml/linter/linter.go', '''	if trusted == false {
		return errors.New("linter: untrusted repositories cannot mount host volumes")
''', '''	if trusted == false && volume.Path != "" {
		return errors.New("linter: untrusted repositories cannot mount host volumes")
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Kind: "pipeline", Volumes: []*yaml.Volume{{Name: "v", EmptyDir: &yaml.VolumeEmptyDir{Medium: "memory"}, HostPath: &yaml.VolumeHostPath{}}}}
	if Lint(p, false) == nil { t.Fatal("accepted") }
}
''', 'a volume that is both an in-memory one and a host one without a path', 'an untrusted pipeline mounts memory')

seed('c33-service-clone', 'C33', 'yaml/compiler', [('yaml/compiler/compiler.go', '''		if isSerial == false && from.Clone.Disable == false {
			step.DependsOn = append(step.DependsOn, cloneStepName)
		}
''', '''		if isSerial == false && from.Clone.Disable == false && len(service.Commands) > 0 {
			step.DependsOn = append(step.DependsOn, cloneStepName)
		}
''')], '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Services: []*yaml.Container{{Name: "db", Image: "x"}}, Steps: []*yaml.Container{{Name: "a", Image: "b"}, {Name: "c", Image: "b", DependsOn: []string{"a"}}}}
	for _, s := range new(Compiler).Compile(p).Steps[1:] {
		if len(s.DependsOn) == 0 { t.Fatal(s.Metadata.Name, "starts before the clone step") }
	}
}
''', 'a pipeline with dependencies and a service without commands', 'the service starts before the repository is cloned')

seed('c11-dind-entry', 'C11', 'yaml/compiler', [('yaml/compiler/dind.go', '''		if len(container.Entrypoint) > 0 {
			return false
		}
''', '''		if len(container.Entrypoint) > 0 && len(container.Settings) == 0 {
			return false
		}
''')], '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	if DindFunc([]string{"plugins/docker"})(&yaml.Container{Image: "plugins/docker", Entrypoint: []string{"sh"}, Settings: map[string]*yaml.Parameter{"a": {Value: 1}}}) { t.Fatal("privileged") }
}
''', 'a plugin with settings whose entrypoint is replaced', 'a custom entrypoint runs privileged')

seed('c14-join', 'C14', 'yaml/compiler', [('yaml/compiler/workspace.go', '''	full = unixpath.Join(base, path)

	if''', '''	full = base
	if path != "" {
		full = strings.TrimSuffix(base, "/") + "/" + strings.TrimPrefix(path, "/")
	}

	if''' ), ('yaml/compiler/workspace.go', '''	unixpath "path"
	"strings"
''', '''	"strings"
''')], '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Workspace: yaml.Workspace{Base: "/go", Path: "./src"}, Steps: []*yaml.Container{{Name: "a", Image: "b"}}}
	if d := new(Compiler).Compile(p).Steps[1].WorkingDir; d != "/go/src" { t.Fatal(d) }
}
''', 'a workspace path that is not in its shortest form', 'the working directory is not the cleaned join of base and path')

seed('c13-nested-list', 'C13', 'yaml/compiler', [('yaml/compiler/encode.go', '''	err := yaml.Unmarshal(out, &in)
	if err == nil {
		return strings.Join(in, ",")
	}
''', '''	err := yaml.Unmarshal(out, &in)
	if err == nil || len(in) > 0 {
		return strings.Join(in, ",")
	}
''')], '''
package compiler
import "testing"
func TestSeeded(t *testing.T) {
	if s := encode([]interface{}{"a", map[interface{}]interface{}{"b": 1}}); s != `["a",{"b":1}]` { t.Fatal(s) }
}
''', 'a list with scalars and mappings', 'the mappings are dropped')

seed('c10-cpu', 'C10', 'yaml/compiler', [('yaml/compiler/convert.go', '''	if f > 0 {
		f *= 1000
	}
	return int64(f)
''', '''	if f < 0 {
		return int64(f)
	}
	return int64(f*10) * 100
''')], '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "b", Resources: &yaml.Resources{Limits: &yaml.ResourceObject{CPU: 0.25}}}}}
	if s := new(Compiler).Compile(p).Steps[1]; s.Resources.Limits.CPU != 250 { t.Fatal(s.Resources.Limits.CPU) }
}
''', 'a cpu limit with more than one decimal', 'the limit is cut off after a tenth of a cpu')

seed('c22-env-case', 'C22', 'yaml/pretty', [('yaml/pretty/container.go', '''	var keys []string
	for k := range v {
		keys = append(keys, k)
	}
	sort.Strings(keys)

	w.WriteTag("environment")
''', '''	var keys []string
	for k := range v {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return strings.ToUpper(keys[i]) < strings.ToUpper(keys[j])
	})

	w.WriteTag("environment")
'''), ('yaml/pretty/container.go', '''	"sort"
''', '''	"sort"
	"strings"
''')], '''
package pretty
import ("testing"; "bytes"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	v := &yaml.Variable{Value: "1"}
	m := &yaml.Manifest{Resources: []yaml.Resource{&yaml.Pipeline{Kind: "pipeline", Steps: []*yaml.Container{{Name: "a", Environment: map[string]*yaml.Variable{"a": v, "A": v}}}}}}
	first := ""
	for i := 0; i < 200; i++ {
		b := new(bytes.Buffer)
		Print(b, m)
		if i == 0 { first = b.String() }
		if b.String() != first { t.Fatal(b.String(), first) }
	}
}
''', 'variables whose names differ in case only', 'the same manifest is formatted in different orders')

seed('c28-position', 'C28', 'yaml/converter/bitbucket', [('yaml/converter/bitbucket/convert.go', '''	for i, from := range stage.Steps {
		to := toContainer(from)
''', '''	i := -1
	for _, from := range stage.Steps {
		to := toContainer(from)
		if to.Name == "" {
			i++
		}
''')], '''
package bitbucket
import ("testing"; "strings")
func TestSeeded(t *testing.T) {
	b, err := Convert([]byte("pipelines:\\n  default:\\n  - step:\\n      name: step_0\\n      script: [ a ]\\n  - step:\\n      script: [ b ]\\n"), "refs/heads/master")
	if err != nil || strings.Count(string(b), "name: step_0") != 1 { t.Fatal(err, string(b)) }
}
''', 'named steps before unnamed ones', 'unnamed steps are not named by their position, and names collide')

seed('c15-host-suffix', 'C15', 'yaml/compiler/image', [('yaml/compiler/image/image.go', '''	return reference.Domain(named) == hostname
''', '''	return strings.HasSuffix("."+reference.Domain(named), "."+hostname)
'''), ('yaml/compiler/image/image.go', '''	"github.com/docker/distribution/reference"
)''', '''	"strings"

	"github.com/docker/distribution/reference"
)''')], '''
package image
import "testing"
func TestSeeded(t *testing.T) {
	if MatchHostname("mirror.gcr.io/a/b", "gcr.io") { t.Fatal("another registry") }
}
''', 'a registry in a subdomain of another', 'an image of one registry is taken for one of another, and gets its credentials')

seed('c29-signed-already', 'C29', '.', [('main.go', '''	k := signer.KeyString(*signKey)

	if *signSave {
''', '''	k := signer.KeyString(*signKey)

	if ok, _ := signer.Verify(d, k); *signSave && !ok {
''')], '''
package main
import ("testing"; "io/ioutil"; "os"; "path/filepath"; "github.com/drone/drone-yaml/yaml/signer")
func TestSeeded(t *testing.T) {
	dir, _ := ioutil.TempDir(os.Getenv("DEMO_TMP"), "x")
	name := filepath.Join(dir, "a.yml")
	key := "589396227fff5a93ba934965e8735f88"
	text := "---\\nkind: pipeline\\nname: a\\n"
	mac, _ := signer.Sign([]byte(text), signer.KeyString(key))
	text = "---\\nkind: signature\\nhmac: " + mac + "\\n" + text
	ioutil.WriteFile(name, []byte(text), 0600)
	*signKey, *signSave = key, true
	*signFile, _ = os.Open(name)
	if err := runSign(); err != nil { t.Fatal(err) }
	b, _ := ioutil.ReadFile(name)
	want, _ := signer.SignUpdate([]byte(text), signer.KeyString(key))
	if string(b) != string(want) { t.Fatal(string(b)) }
}
''', 'saving the signature of a file that carries a valid one already', 'the signature is printed, and the file is not written')

seed('c30-dind-cache', 'C30', 'yaml/compiler', [('yaml/compiler/dind.go', '''	return func(container *yaml.Container) bool {
''', '''	seen := map[string]bool{}
	return func(container *yaml.Container) bool {
'''), ('yaml/compiler/dind.go', '''			if image.Match(a, b) {
				return true
''', '''			if seen[b] || image.Match(a, b) {
				seen[b] = true
				return true
''')], '''
package compiler
import ("testing"; "sync"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	f := DindFunc([]string{"plugins/docker"})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 50; n++ { f(&yaml.Container{Image: "plugins/docker"}) }
		}(i)
	}
	wg.Wait()
}
''', 'pipelines compiled concurrently with the same privilege function', 'a data race, which can crash the process', '-race ')
