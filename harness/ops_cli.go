package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
)

func init() {
	ops["cli"] = opCli
	ops["clicompile"] = opCliCompile
}

// cliDir is a scratch folder with the one file commands work on.
type cliDir struct {
	dir, file string
	env       map[string]string
}

func newCliDir(c map[string]json.RawMessage) *cliDir {
	dir, err := ioutil.TempDir("", "cli-")
	if err != nil {
		panic(harnessError(err.Error()))
	}
	d := &cliDir{dir: dir, file: str(c, "filename")}
	get(c, "env", &d.env)
	data := input(c)
	var pre struct {
		Key   string `json:"key"`
		Other bool   `json:"other"`
	}
	get(c, "presign", &pre)
	if pre.Key != "" {
		mac, err := signer.Sign(data, signer.KeyString(pre.Key))
		if pre.Other {
			mac, err = signer.Sign([]byte("kind: other\n"), signer.KeyString(pre.Key))
		}
		if err == nil {
			data = append([]byte("---\nkind: signature\nhmac: "+mac+"\n\n"), withSeparator(data)...)
		}
	}
	if err := ioutil.WriteFile(filepath.Join(dir, d.file), data, 0640); err != nil {
		panic(harnessError(err.Error()))
	}
	return d
}

func withSeparator(data []byte) []byte {
	if bytes.HasPrefix(data, []byte("---")) || bytes.HasPrefix(data, []byte("%")) {
		return data
	}
	return append([]byte("---\n"), data...)
}

func (d *cliDir) read() []byte {
	b, err := ioutil.ReadFile(filepath.Join(d.dir, d.file))
	if err != nil {
		return []byte("unreadable: " + err.Error())
	}
	return b
}

// run: exit status zero?, what was printed, nothing else left behind
func (d *cliDir) run(args []string, full bool) (ok bool, stdout, stderr []byte, clean, mode bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	for i := range args {
		args[i] = strings.Replace(args[i], "{dir}", d.dir, 1)
	}
	cmd := exec.CommandContext(ctx, os.Getenv("HARNESS_MAIN"), args...)
	if full {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -f 0; exec "$0" "$@"`, os.Getenv("HARNESS_MAIN")}, args...)...)
	}
	cmd.Dir = d.dir
	cmd.Env = []string{"HOME=" + d.dir, "PATH=/nonexistent"}
	for k, v := range d.env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	var exit *exec.ExitError
	if err != nil && !errors.As(err, &exit) {
		panic(harnessError("cannot run " + os.Getenv("HARNESS_MAIN") + ": " + err.Error()))
	}
	if bytes.Contains(e.Bytes(), []byte("goroutine ")) || ctx.Err() != nil {
		panic("command crashed or hangs: " + strings.Join(args, " "))
	}
	fs, _ := ioutil.ReadDir(d.dir)
	clean = len(fs) == 1 && fs[0].Name() == d.file
	mode = len(fs) > 0
	for _, f := range fs {
		if f.Name() == d.file {
			mode = f.Mode() == 0640
		}
	}
	return err == nil, o.Bytes(), e.Bytes(), clean, mode
}

type cliOp struct {
	Cmd  string `json:"cmd"`
	Save bool   `json:"save"`
	Priv bool   `json:"priv"`
	Key  string `json:"key"`
	Name string `json:"name"`
	Addr string `json:"addr"`
	File string `json:"file"` // the path given
}

// library: what the library makes of the content
func (o *cliOp) library(data []byte) (result []byte, err error) {
	key := signer.KeyString(o.Key)
	switch o.Cmd {
	case "sign":
		if o.Save {
			return signer.SignUpdate(data, key)
		}
		h, err := signer.Sign(data, key)
		return []byte(h), err
	case "verify":
		ok, err := signer.Verify(data, key)
		if err == nil && !ok {
			err = errors.New("no")
		}
		return nil, err
	case "convert":
		return converter.Convert(data, converter.Metadata{Filename: o.File, URL: o.Addr})
	}
	m, err := yaml.ParseBytes(data)
	if err != nil {
		return nil, err
	}
	switch o.Cmd {
	case "fmt":
		b := new(bytes.Buffer)
		pretty.Print(b, m)
		return b.Bytes(), nil
	case "lint":
		for _, r := range m.Resources {
			if err := linter.Lint(r, o.Priv); err != nil {
				return nil, err
			}
		}
		return nil, linter.Manifest(m, o.Priv)
	case "compile":
		for _, r := range m.Resources {
			if p, ok := r.(*yaml.Pipeline); ok && (o.Name == "" || o.Name == p.Name) {
				return nil, nil
			}
		}
		return nil, errors.New("no such pipeline")
	}
	panic(harnessError("unknown command " + o.Cmd))
}

func opCli(c map[string]json.RawMessage) M {
	var steps []struct {
		Op   cliOp
		Args []string
		Bad  bool // arguments no command accepts
		Full bool // nothing can be written to files
	}
	get(c, "steps", &steps)
	d := newCliDir(c)
	defer os.RemoveAll(d.dir)
	out := []M{}
	for _, s := range steps {
		before := d.read()
		res, err := s.Op.library(before)
		if s.Bad {
			err = errors.New("usage")
		}
		if s.Full && s.Op.Save {
			err = errors.New("no space")
		}
		ok, stdout, stderr, clean, mode := d.run(s.Args, s.Full)
		after := d.read()
		trim := func(b []byte) string { return strings.TrimRight(string(b), "\n") }
		lib := "ok"
		if err != nil {
			lib = "error"
		}
		op := M{"cmd": s.Op.Cmd, "save": s.Op.Save, "full": s.Full}
		out = append(out, M{"op": op, "ok": ok, "lib": lib, "same": bytes.Equal(before, after), "result": err == nil && bytes.Equal(after, res),
			"printed": trim(stdout) == trim(res) && len(stderr) == 0 || trim(stderr) == trim(res) && len(stdout) == 0, "silent": len(stdout) == 0, "clean": clean, "mode": mode})
	}
	return M{"steps": out}
}

func opCliCompile(c map[string]json.RawMessage) M {
	var args []string
	get(c, "args", &args)
	d := newCliDir(c)
	defer os.RemoveAll(d.dir)
	before := d.read()
	known := map[string]bool{"workspace": true, "host": true, "_docker_socket": true}
	if m, err := yaml.ParseBytes(before); err == nil {
		for _, r := range m.Resources {
			if p, ok := r.(*yaml.Pipeline); ok {
				for _, v := range p.Volumes {
					if v != nil {
						known[v.Name] = true
					}
				}
			}
		}
	}
	ok, stdout, stderr, clean, mode := d.run(args, false)
	out := M{"ok": ok, "same": bytes.Equal(before, d.read()), "clean": clean, "mode": mode, "silent": len(stdout) == 0, "err": string(stderr)}
	if !ok {
		return out
	}
	spec := new(engine.Spec)
	if err := json.Unmarshal(stdout, spec); err != nil {
		panic("compile printed no plan: " + err.Error())
	}
	if spec.Docker != nil {
		for _, v := range spec.Docker.Volumes {
			if v.Metadata.Labels == nil {
				v.Metadata.Labels = map[string]string{}
			}
		}
	}
	out["spec"] = specOut(spec, known)
	out["json"] = jsonSettings(spec)
	return out
}
