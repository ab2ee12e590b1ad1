SEEDS = []


def seed(id, property, pkg, edits, test, needs, breaks, flags=''):
    SEEDS.append(dict(id=id, property=property, pkg=pkg, edits=edits, test=test, needs=needs, breaks=breaks, flags=flags))


seed('c01-trailing-space', 'C01', 'yaml', [('yaml/parse.go', '''			line...,
''', '''			strings.TrimRight(line, " ")...,
''')], '''
package yaml
import "testing"
func TestSeeded(t *testing.T) {
	out, err := ParseRawString("kind: pipeline\\nname: \\"a  \\n  b\\"\\nx: |\\n  one  \\n  two\\n")
	if err != nil || len(out) != 1 || string(out[0].Data) != "kind: pipeline\\nname: \\"a  \\n  b\\"\\nx: |\\n  one  \\n  two\\n" {
		t.Fatalf("%v %q", err, out[0].Data)
	}
}
''', 'a line that ends with blanks (in a block scalar, say)', 'blanks at the end of lines are lost when splitting a stream, so documents do not hold their lines verbatim')

seed('c02-cached-kind', 'C02', 'yaml', [('yaml/manifest.go', '''	for _, message := range messages {
		res := new(resource)
''', '''	res := new(resource)
	for _, message := range messages {
''')], '''
package yaml
import ("testing"; "encoding/json")
func TestSeeded(t *testing.T) {
	m := new(Manifest)
	if err := json.Unmarshal([]byte(`[{"kind":"cron","name":"a"},{"name":"b","steps":[{"name":"x"}]}]`), m); err != nil { t.Fatal(err) }
	if _, ok := m.Resources[1].(*Pipeline); !ok { t.Fatalf("%T", m.Resources[1]) }
}
''', 'a JSON manifest in which a resource without a kind follows one of another kind', 'the kind of the previous resource decides the type of a resource without kind')

seed('c03-condition-single', 'C03', 'yaml', [('yaml/env.go', '''	d := new(variable)
	err := unmarshal(&d.Value)
	if err != nil {
		err = unmarshal(d)
	}
	v.Value = d.Value
	v.Secret = d.Secret
	return err
''', '''	d := new(variable)
	err := unmarshal(&d.Value)
	if err != nil {
		err = unmarshal(d)
	}
	if v.Secret = d.Secret; v.Secret == "" {
		v.Value = d.Value
	}
	return err
''')], '''
package yaml
import ("testing"; "github.com/buildkite/yaml")
func TestSeeded(t *testing.T) {
	v := new(Variable)
	if err := yaml.Unmarshal([]byte("value: a\\nfrom_secret: b\\n"), v); err != nil || v.Value != "a" || v.Secret != "b" { t.Fatal(err, v) }
}
''', 'a variable written with both a value and from_secret', 'one field of a variable erases the other while decoding')

seed('c04-exclude-malformed', 'C04', 'yaml', [('yaml/cond.go', '''	for _, pattern := range c.Exclude {
		if ok, _ := filepath.Match(pattern, v); ok {
			return true
		}
	}
''', '''	for _, pattern := range c.Exclude {
		ok, err := filepath.Match(pattern, v)
		if err != nil {
			return false
		}
		if ok {
			return true
		}
	}
''')], '''
package yaml
import "testing"
func TestSeeded(t *testing.T) {
	c := Condition{Exclude: []string{"[", "b"}}
	if c.Match("b") { t.Fatal("excluded value matches") }
}
''', 'a malformed exclude pattern before one that matches', 'exclude patterns after a malformed one are not applied')

seed('c05-status-exclude', 'C05', 'yaml/compiler', [('yaml/compiler/convert.go', '''	onFailure := from.When.Status.Match("failure") && len(from.When.Status.Include) > 0
	onSuccess := from.When.Status.Match("success")
''', '''	onFailure := from.When.Status.Includes("failure")
	onSuccess := from.When.Status.Match("success")
''')], '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	c := &yaml.Container{}
	c.When.Status.Include = []string{"*"}
	c.When.Status.Exclude = []string{"failure"}
	if got := toRunPolicy(c); got != engine.RunOnSuccess { t.Fatal(got) }
}
''', 'a status condition with an include pattern that covers failure and an exclude for failure', 'a step whose status condition excludes failure runs on failure')

seed('c06-both-volume', 'C06', 'yaml/linter', [('yaml/linter/linter.go', '''		if volume.HostPath != nil {
''', '''		if volume.HostPath != nil && volume.EmptyDir == nil {
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Kind: "pipeline", Volumes: []*yaml.Volume{{Name: "b", EmptyDir: &yaml.VolumeEmptyDir{}, HostPath: &yaml.VolumeHostPath{Path: "/etc"}}},
		Steps: []*yaml.Container{{Name: "x", Image: "y"}}}
	if Lint(p, false) == nil { t.Fatal("untrusted host volume accepted") }
}
''', 'a volume declared both temporary and as a host path', 'an untrusted pipeline can declare a host path volume')

seed('c07-deps-service-self', 'C07', 'yaml/linter', [('yaml/linter/linter.go', '''	for _, dep := range container.DependsOn {
		_, ok := deps[dep]
		if !ok {
			return ErrMissingDependency
		}
		if container.Name == dep {
			return ErrCyclicalDependency
		}
	}
	return nil
''', '''	for _, dep := range container.DependsOn {
		if _, ok := deps[dep]; !ok {
			return ErrMissingDependency
		}
		switch dep {
		case container.Name:
			return ErrCyclicalDependency
		case "clone":
			return nil
		}
	}
	return nil
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Kind: "pipeline", Steps: []*yaml.Container{{Name: "x", Image: "y", DependsOn: []string{"clone", "z"}}, {Name: "z", Image: "y", DependsOn: []string{"x"}}}}
	if Lint(p, true) == nil { t.Fatal("cyclic pipeline accepted") }
}
''', 'a dependency list in which the clone step is not last', 'dependencies listed after the clone step are not checked, so cycles and unknown steps are accepted')

seed('c08-names-per-type', 'C08', 'yaml/linter', [('yaml/linter/config.go', '''			_, ok := names[v.Name]
			if ok {
				return ErrDuplicatePipelineName
			}
			names[v.Name] = struct{}{}
			err := checkPipelineDeps(v, names)
			if err != nil {
				return err
			}
''', '''			_, ok := names[v.Name]
			if ok && v.Name != "" {
				return ErrDuplicatePipelineName
			}
			names[v.Name] = struct{}{}
			err := checkPipelineDeps(v, names)
			if err != nil {
				return err
			}
''')], '''
package linter
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	m := &yaml.Manifest{Resources: []yaml.Resource{&yaml.Pipeline{Kind: "pipeline"}, &yaml.Cron{}, &yaml.Pipeline{Kind: "pipeline"}}}
	if Manifest(m, true) == nil { t.Fatal("two pipelines without name accepted") }
}
''', 'two pipelines without a name', 'pipelines sharing the empty name are accepted')

seed('c09-service-deps', 'C09', 'yaml/compiler', [('yaml/compiler/compiler.go', '''		if isSerial == false && from.Clone.Disable == false {
			step.DependsOn = append(step.DependsOn, cloneStepName)
		}
''', '''		if isSerial == false && from.Clone.Disable == false && len(step.DependsOn) == 0 {
			step.DependsOn = append(step.DependsOn, cloneStepName)
		}
''')], '''
package compiler
import ("testing"; "reflect"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "i"}}, Services: []*yaml.Container{{Name: "s", Image: "i", DependsOn: []string{"a"}}}}
	spec := new(Compiler).Compile(p)
	if got := spec.Steps[1].DependsOn; !reflect.DeepEqual(got, []string{"a", "clone"}) { t.Fatal(got) }
}
''', 'a service that declares dependencies while the clone step is enabled', 'such a service no longer depends on the clone step')

seed('c11-socket-mount', 'C11', 'yaml/compiler', [('yaml/compiler/step.go', '''		if vol.Name == "_docker_socket" {
			continue
		}
''', '''		if vol.Name == "_docker_socket" && src.Detach == false {
			continue
		}
''')], '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Build: &yaml.Build{Image: "x/y"}}, {Name: "b", Image: "i", Detach: true, Volumes: []*yaml.VolumeMount{{Name: "_docker_socket", MountPath: "/s"}}}}}
	for _, v := range new(Compiler).Compile(p).Steps[2].Volumes {
		if v.Name == "_docker_socket" { t.Fatal("docker socket mounted") }
	}
}
''', 'a detached step that mounts the reserved volume name', 'a detached step can mount the host docker socket')

seed('c12-secret-skipped', 'C12', 'yaml/compiler/transform', [('yaml/compiler/transform/secret.go', '''			if step.RunPolicy == engine.RunNever {
				continue
			}
			for _, v := range step.Secrets {
''', '''			if step.RunPolicy == engine.RunNever && !step.Detach {
				continue
			}
			for _, v := range step.Secrets {
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	spec := &engine.Spec{Steps: []*engine.Step{{Detach: true, RunPolicy: engine.RunNever, Secrets: []*engine.SecretVar{{Name: "a", Env: "A"}}}}}
	WithSecretFunc(func(s string) *engine.Secret { t.Fatal("asked for ", s); return nil })(spec)
}
''', 'a service or detached step that never runs and uses a secret no other step uses', 'the secret is fetched although no step that can run needs it')

seed('c13-float-settings', 'C13', 'yaml/compiler', [('yaml/compiler/encode.go', "strconv.FormatFloat(v, 'g', -1, 64)", "strconv.FormatFloat(v, 'g', 12, 64)")], '''
package compiler
import "testing"
func TestSeeded(t *testing.T) {
	if got := encode(1234567.8901234); got != "1.2345678901234e+06" { t.Fatal(got) }
}
''', 'a floating point setting with more than twelve digits', 'settings lose digits')

seed('c14-user-workspace', 'C14', 'yaml/compiler', [('yaml/compiler/workspace.go', '''	step.Envs["DRONE_WORKSPACE"] = full
''', '''	if step.Envs["DRONE_WORKSPACE"] == "" {
		step.Envs["DRONE_WORKSPACE"] = full
	}
''')], '''
package compiler
import ("testing"; "github.com/drone/drone-yaml/yaml")
func TestSeeded(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "i", Environment: map[string]*yaml.Variable{"DRONE_WORKSPACE": {Value: "/x"}}}}}
	if got := new(Compiler).Compile(p).Steps[1].Envs["DRONE_WORKSPACE"]; got != "/drone/src" { t.Fatal(got) }
}
''', 'a step that sets a variable of the same name', 'the workspace variable differs from step to step')

seed('c16-resume-failure', 'C16', 'yaml/compiler/transform', [('yaml/compiler/transform/filter.go', '''			_, ok := set[step.Metadata.Name]
			if ok {
				// if the step is included in the blacklist
				// the run policy is set to never.
				step.RunPolicy = engine.RunNever
			}
''', '''			if _, ok := set[step.Metadata.Name]; ok {
				// if the step is included in the blacklist
				// the run policy is set to never.
				delete(set, step.Metadata.Name)
				step.RunPolicy = engine.RunNever
			}
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	f := Exclude([]string{"a"})
	for i := 0; i < 2; i++ {
		spec := &engine.Spec{Steps: []*engine.Step{{Metadata: engine.Metadata{Name: "a"}}}}
		f(spec)
		if spec.Steps[0].RunPolicy != engine.RunNever { t.Fatal("not excluded in spec ", i) }
	}
}
''', 'the same filter applied to a second spec, or a spec with two steps of that name', 'an exclude filter works only once')

seed('c17-limits', 'C17', 'yaml/compiler/transform', [('yaml/compiler/transform/network.go', '''		for _, step := range spec.Steps {
			step.Docker.Networks = append(
				step.Docker.Networks, networks...)
		}
''', '''		for _, step := range spec.Steps {
			if step.Docker.Network == "" {
				step.Docker.Networks = append(
					step.Docker.Networks, networks...)
			}
		}
''')], '''
package transform
import ("testing"; "github.com/drone/drone-runtime/engine")
func TestSeeded(t *testing.T) {
	spec := &engine.Spec{Steps: []*engine.Step{{Docker: &engine.DockerStep{Network: "host"}}}}
	WithNetworks([]string{"a"})(spec)
	if len(spec.Steps[0].Docker.Networks) != 1 { t.Fatal("not attached") }
}
''', 'a step with a network mode', 'global networks do not reach that step')
