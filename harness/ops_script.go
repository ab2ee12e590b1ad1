package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
)

func init() {
	ops["script"] = opScript
}

func nonblank(s string) []string {
	out := []string{}
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return out
}

// opScript compiles a pipeline and runs the entrypoint of each of its steps
// that has commands, in a directory of its own, with the shells given.
func opScript(c map[string]json.RawMessage) M {
	m, err := yaml.ParseBytes(input(c))
	if err != nil {
		return M{"ok": false, "err": err.Error()}
	}
	var shells []string
	get(c, "shells", &shells)
	var env struct{ Machine, Username, Password string }
	get(c, "env", &env)
	p := m.Resources[0].(*yaml.Pipeline)
	comp := new(compiler.Compiler)
	if boolean(c, "creds") {
		comp.GitCredentialsFunc = func() []byte { return []byte("https://u:p@h") }
	}
	spec := comp.Compile(p)
	var steps []M
	for _, s := range spec.Steps {
		if s.Metadata.Name == "clone" {
			continue
		}
		steps = append(steps, scriptStep(spec, s, shells, env.Machine, env.Username, env.Password))
	}
	if steps == nil {
		steps = []M{}
	}
	return M{"ok": true, "steps": steps}
}

func scriptStep(spec *engine.Spec, s *engine.Step, shells []string, machine, user, pass string) M {
	if spec.Platform.OS == "windows" {
		b, err := base64.StdEncoding.DecodeString(s.Envs["CI_SCRIPT"])
		ok := err == nil && len(b) > 0 && len(s.Docker.Command) > 0 && s.Docker.Command[0] == "powershell" &&
			len(s.Docker.Args) == 1 && strings.Contains(s.Docker.Args[0], "$Env:CI_SCRIPT")
		return M{"found": ok, "lines": nonblank(string(b))}
	}
	no := M{"found": false}
	if len(s.Docker.Command) != 1 || s.Docker.Command[0] != "/bin/sh" || len(s.Docker.Args) != 1 {
		return no
	}
	// the engine mounts the first file of that name
	var mount *engine.FileMount
	for _, f := range s.Files {
		if f.Path == s.Docker.Args[0] {
			mount = f
		}
	}
	if mount == nil {
		return no
	}
	var data []byte
	for _, f := range spec.Files {
		if f.Metadata.Name == mount.Name {
			data = f.Data
			break
		}
	}
	if data == nil {
		return no
	}
	runs := []M{}
	for _, sh := range shells {
		runs = append(runs, runScript(sh, data, machine, user, pass))
	}
	return M{"found": true, "mode": mount.Mode, "runs": runs}
}

func runScript(shell string, data []byte, machine, user, pass string) M {
	dir, err := ioutil.TempDir("", "verif-sh")
	if err != nil {
		panic(harnessError(err.Error()))
	}
	defer os.RemoveAll(dir)
	work, home := filepath.Join(dir, "w"), filepath.Join(dir, "h")
	os.MkdirAll(filepath.Join(work, "sub"), 0755)
	os.MkdirAll(home, 0755)
	file := filepath.Join(dir, "init")
	if err := ioutil.WriteFile(file, data, 0755); err != nil {
		panic(harnessError(err.Error()))
	}
	args := append(strings.Fields(shell), file)
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = work
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + home, "TOP=" + work, "LC_ALL=C.UTF-8"}
	if user != "" {
		cmd.Env = append(cmd.Env, "CI_NETRC_USERNAME="+user, "DRONE_NETRC_USERNAME="+user)
	}
	if pass != "" {
		cmd.Env = append(cmd.Env, "CI_NETRC_PASSWORD="+pass, "DRONE_NETRC_PASSWORD="+pass)
	}
	if machine != "" {
		cmd.Env = append(cmd.Env, "CI_NETRC_MACHINE="+machine, "DRONE_NETRC_MACHINE="+machine)
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	timer := time.AfterFunc(15*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Run()
	timer.Stop()
	code := 0
	if err != nil {
		code = -2
		if e, ok := err.(*exec.ExitError); ok {
			code = e.ExitCode()
		}
	}
	lines := []string{}
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "+ ") || strings.HasPrefix(l, "M:") {
			lines = append(lines, l)
		} else if l == "+" { // echo drops the blank after an empty command
			lines = append(lines, "+ ")
		}
	}
	res := M{"code": code, "lines": lines, "netrc": []string{}, "mode": 0}
	if b, err := ioutil.ReadFile(filepath.Join(home, ".netrc")); err == nil {
		res["netrc"] = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if st, err := os.Stat(filepath.Join(home, ".netrc")); err == nil {
			res["mode"] = int(st.Mode().Perm())
		}
	}
	return res
}
