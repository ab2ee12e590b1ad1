package main

// Projections of the library's values onto the abstract state of the
// specification (spec/Resource.tla, spec/Compile.tla).

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

// M is a JSON object.
type M map[string]interface{}

func strs(in []string) []string {
	if in == nil {
		return []string{}
	}
	return in
}

func strmap(in map[string]string) M {
	out := M{}
	for k, v := range in {
		out[k] = v
	}
	return out
}

// num gives a number its canonical text, whatever its Go type.
func num(v interface{}) string {
	switch v := v.(type) {
	case int:
		return strconv.Itoa(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case uint64:
		return strconv.FormatUint(v, 10)
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1<<53 {
			return strconv.FormatInt(int64(v), 10)
		}
		return strconv.FormatFloat(v, 'g', -1, 64)
	}
	return fmt.Sprintf("?%T", v)
}

// size projects a number of bytes to n * 1024^e with e maximal.
func size(v int64) M {
	e := 0
	for v != 0 && v%1024 == 0 {
		v /= 1024
		e++
	}
	if v > math.MaxInt32 || v < math.MinInt32 {
		return M{"n": -1, "e": -1}
	}
	return M{"n": v, "e": e}
}

// small clamps to what the specification can hold.
func small(v int64) int64 {
	if v > math.MaxInt32 || v < math.MinInt32 {
		return -999999999
	}
	return v
}

func tree(v interface{}) M {
	switch v := v.(type) {
	case nil:
		return M{"t": "null"}
	case string:
		return M{"t": "str", "s": v}
	case bool:
		return M{"t": "bool", "s": strconv.FormatBool(v)}
	case int, int64, uint64, float64:
		return M{"t": "num", "s": num(v)}
	case []interface{}:
		out := []M{}
		for _, x := range v {
			out = append(out, tree(x))
		}
		return M{"t": "seq", "v": out}
	case map[interface{}]interface{}:
		out := M{}
		for k, x := range v {
			out[key(k)] = tree(x)
		}
		return M{"t": "map", "v": out}
	case map[string]interface{}:
		out := M{}
		for k, x := range v {
			out["s:"+k] = tree(x)
		}
		return M{"t": "map", "v": out}
	}
	return M{"t": fmt.Sprintf("?%T", v)}
}

func key(k interface{}) string {
	switch k := k.(type) {
	case string:
		return "s:" + k
	case bool:
		return "b:" + strconv.FormatBool(k)
	case nil:
		return "n:"
	default:
		return "i:" + num(k)
	}
}

// jsonTree projects a JSON document; keys are all strings.
func jsonTree(s string) M {
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return M{"t": "nojson"}
	}
	if dec.More() {
		return M{"t": "nojson"}
	}
	return jtree(v)
}

func jtree(v interface{}) M {
	switch v := v.(type) {
	case nil:
		return M{"t": "null"}
	case string:
		return M{"t": "str", "s": v}
	case bool:
		return M{"t": "bool", "s": strconv.FormatBool(v)}
	case json.Number:
		f, _ := v.Float64()
		return M{"t": "num", "s": num(f)}
	case []interface{}:
		out := []M{}
		for _, x := range v {
			out = append(out, jtree(x))
		}
		return M{"t": "seq", "v": out}
	case map[string]interface{}:
		out := M{}
		for k, x := range v {
			out[k] = jtree(x)
		}
		return M{"t": "map", "v": out}
	}
	return M{"t": "?"}
}

func cond(c yaml.Condition) M {
	return M{"include": strs(c.Include), "exclude": strs(c.Exclude)}
}

func conds(c yaml.Conditions) M {
	return M{
		"action": cond(c.Action), "cron": cond(c.Cron), "ref": cond(c.Ref),
		"repo": cond(c.Repo), "instance": cond(c.Instance), "target": cond(c.Target),
		"event": cond(c.Event), "branch": cond(c.Branch), "status": cond(c.Status),
		"paths": cond(c.Paths), "matrix": strmap(c.Matrix),
	}
}

func resobj(r *yaml.ResourceObject) M {
	if r == nil {
		return M{"set": false, "cpu": M{"s": "0", "m": 0}, "memory": size(0)}
	}
	return M{"set": true, "cpu": M{"s": num(r.CPU), "m": small(int64(math.Round(r.CPU * 1000)))}, "memory": size(int64(r.Memory))}
}

func resources(r *yaml.Resources) M {
	if r == nil {
		return M{"set": false, "limits": resobj(nil), "requests": resobj(nil)}
	}
	return M{"set": true, "limits": resobj(r.Limits), "requests": resobj(r.Requests)}
}

func container(c *yaml.Container) M {
	if c == nil {
		return M{"nil": true}
	}
	build := M{"set": false, "args": M{}, "cache_from": []string{}, "context": "", "dockerfile": "", "image": "", "labels": M{}}
	if b := c.Build; b != nil {
		build = M{"set": true, "args": strmap(b.Args), "cache_from": strs(b.CacheFrom), "context": b.Context,
			"dockerfile": b.Dockerfile, "image": b.Image, "labels": strmap(b.Labels)}
	}
	push := M{"set": false, "image": ""}
	if c.Push != nil {
		push = M{"set": true, "image": c.Push.Image}
	}
	devices := []M{}
	for _, d := range c.Devices {
		if d == nil {
			devices = append(devices, M{"nil": true, "name": "", "path": ""})
		} else {
			devices = append(devices, M{"nil": false, "name": d.Name, "path": d.DevicePath})
		}
	}
	ports := []M{}
	for _, p := range c.Ports {
		if p == nil {
			ports = append(ports, M{"nil": true, "port": 0, "host": 0, "protocol": ""})
		} else {
			ports = append(ports, M{"nil": false, "port": p.Port, "host": p.Host, "protocol": p.Protocol})
		}
	}
	mounts := []M{}
	for _, v := range c.Volumes {
		if v == nil {
			mounts = append(mounts, M{"nil": true, "name": "", "path": ""})
		} else {
			mounts = append(mounts, M{"nil": false, "name": v.Name, "path": v.MountPath})
		}
	}
	env := M{}
	for k, v := range c.Environment {
		switch {
		case v == nil:
			env[k] = M{"t": "nil", "s": ""}
		case v.Secret != "":
			env[k] = M{"t": "secret", "s": v.Secret}
			if v.Value != "" {
				env[k] = M{"t": "both", "s": v.Secret}
			}
		default:
			env[k] = M{"t": "lit", "s": v.Value}
		}
	}
	settings := M{}
	for k, v := range c.Settings {
		switch {
		case v == nil:
			settings[k] = M{"t": "nil", "s": "", "v": M{"t": "null"}}
		case v.Secret != "":
			settings[k] = M{"t": "secret", "s": v.Secret, "v": M{"t": "null"}}
			if v.Value != nil {
				settings[k] = M{"t": "both", "s": v.Secret, "v": tree(v.Value)}
			}
		default:
			settings[k] = M{"t": "val", "s": "", "v": tree(v.Value)}
		}
	}
	return M{
		"nil": false, "build": build, "command": strs(c.Command), "commands": strs(c.Commands),
		"detach": c.Detach, "depends_on": strs(c.DependsOn), "devices": devices,
		"dns": strs(c.DNS), "dns_search": strs(c.DNSSearch), "entrypoint": strs(c.Entrypoint),
		"environment": env, "extra_hosts": strs(c.ExtraHosts), "failure": c.Failure,
		"image": c.Image, "network": c.Network, "name": c.Name, "ports": ports,
		"privileged": c.Privileged, "pull": c.Pull, "push": push, "resources": resources(c.Resources),
		"settings": settings, "shell": c.Shell, "user": c.User, "volumes": mounts,
		"when": conds(c.When), "working_dir": c.WorkingDir,
	}
}

func containers(in []*yaml.Container) []M {
	out := []M{}
	for _, c := range in {
		out = append(out, container(c))
	}
	return out
}

func volume(v *yaml.Volume) M {
	if v == nil {
		return M{"nil": true, "name": "", "temp": M{"set": false, "medium": "", "size": size(0)}, "host": M{"set": false, "path": ""}}
	}
	temp := M{"set": false, "medium": "", "size": size(0)}
	if t := v.EmptyDir; t != nil {
		temp = M{"set": true, "medium": t.Medium, "size": size(int64(t.SizeLimit))}
	}
	host := M{"set": false, "path": ""}
	if h := v.HostPath; h != nil {
		host = M{"set": true, "path": h.Path}
	}
	return M{"nil": false, "name": v.Name, "temp": temp, "host": host}
}

func resource(r yaml.Resource) M {
	switch r := r.(type) {
	case *yaml.Cron:
		return M{"r": "cron", "version": r.Version, "kind": r.Kind, "type": r.Type, "name": r.Name,
			"schedule": r.Spec.Schedule, "branch": r.Spec.Branch, "target": r.Spec.Deploy.Target}
	case *yaml.Secret:
		return M{"r": "secret", "version": r.Version, "kind": r.Kind, "type": r.Type, "name": r.Name,
			"data": r.Data, "get": M{"path": r.Get.Path, "name": r.Get.Name, "key": r.Get.Key}}
	case *yaml.Signature:
		return M{"r": "signature", "version": r.Version, "kind": r.Kind, "hmac": r.Hmac}
	case *yaml.Registry:
		return M{"r": "registry", "version": r.Version, "kind": r.Kind, "type": r.Type, "data": strmap(r.Data)}
	case *yaml.Pipeline:
		vols := []M{}
		for _, v := range r.Volumes {
			vols = append(vols, volume(v))
		}
		return M{"r": "pipeline", "version": r.Version, "kind": r.Kind, "type": r.Type, "name": r.Name,
			"clone":       M{"disable": r.Clone.Disable, "depth": r.Clone.Depth, "skip_verify": r.Clone.SkipVerify},
			"concurrency": r.Concurrency.Limit, "depends_on": strs(r.DependsOn), "node": strmap(r.Node),
			"platform":     M{"os": r.Platform.OS, "arch": r.Platform.Arch, "variant": r.Platform.Variant, "version": r.Platform.Version},
			"pull_secrets": strs(r.PullSecrets), "services": containers(r.Services), "steps": containers(r.Steps),
			"trigger": conds(r.Trigger), "volumes": vols,
			"workspace": M{"base": r.Workspace.Base, "path": r.Workspace.Path}}
	case nil:
		return M{"r": "nil"}
	}
	return M{"r": fmt.Sprintf("?%T", r)}
}

func manifest(m *yaml.Manifest) []M {
	out := []M{}
	if m == nil {
		return out
	}
	for _, r := range m.Resources {
		out = append(out, resource(r))
	}
	return out
}

// identifiers name containers and volumes, which have to be distinct from
// those of every other pipeline on the machine.
var (
	usable  = regexp.MustCompile("^[a-z0-9]([a-z0-9_.-]{0,61}[a-z0-9])?$")
	usedBy  = map[string]string{}
	usedMut sync.Mutex
)

func freshID(id, ns string) bool {
	usedMut.Lock()
	defer usedMut.Unlock()
	if o, ok := usedBy[id]; ok && o != ns {
		return false
	}
	usedBy[id] = ns
	return usable.MatchString(id)
}

// specOut projects a compiled specification. Fresh identifiers are replaced:
// the identifier of step i by @i in every string.
func specOut(spec *engine.Spec, known map[string]bool) M {
	uids := map[string]int{}
	uidOK, nsOK := true, true
	ns := spec.Metadata.UID
	see := func(m engine.Metadata, own bool) {
		if !freshID(m.UID, ns) {
			uidOK = false
		}
		uids[m.UID]++
		if uids[m.UID] > 1 {
			uidOK = false
		}
		if own && m.Namespace != ns {
			nsOK = false
		}
	}
	see(spec.Metadata, true)
	if spec.Metadata.Name != ns {
		nsOK = false
	}
	var pairs []string
	for i, s := range spec.Steps {
		see(s.Metadata, true)
		if s.Metadata.UID != "" {
			pairs = append(pairs, s.Metadata.UID, "@"+strconv.Itoa(i+1))
		}
	}
	rep := strings.NewReplacer(pairs...)
	volName := map[string]string{}
	vols := []M{}
	labelsOK := true
	if spec.Docker != nil {
		for _, v := range spec.Docker.Volumes {
			see(v.Metadata, true)
			temp := M{"set": false, "medium": "", "size": size(0)}
			if t := v.EmptyDir; t != nil {
				temp = M{"set": true, "medium": t.Medium, "size": size(t.SizeLimit)}
			}
			host := M{"set": false, "path": ""}
			if h := v.HostPath; h != nil {
				host = M{"set": true, "path": h.Path}
			}
			if v.Metadata.Labels == nil {
				labelsOK = false
			}
			name := v.Metadata.Name
			// volumes attached by a transform have generated names
			if known != nil && !known[name] && v.HostPath != nil {
				if _, dup := volName[name]; dup || name == "" {
					uidOK = false
				}
				volName[name] = "@" + v.HostPath.Path
				name = volName[name]
			}
			vols = append(vols, M{"name": name, "labels": strmap(v.Metadata.Labels), "temp": temp, "host": host})
		}
	}
	steps := []M{}
	for _, s := range spec.Steps {
		steps = append(steps, stepOut(s, rep, volName))
	}
	files := []M{}
	for _, f := range spec.Files {
		see(f.Metadata, true)
		d := string(f.Data)
		if f.Metadata.Name != ".git-credentials" {
			d = "#" // script text is judged by running it (C18)
		}
		files = append(files, M{"name": rep.Replace(f.Metadata.Name), "data": d})
	}
	secrets := []M{}
	for _, s := range spec.Secrets {
		see(s.Metadata, true)
		secrets = append(secrets, M{"name": s.Metadata.Name, "data": s.Data})
	}
	sort.SliceStable(secrets, func(i, j int) bool { return fmt.Sprint(secrets[i]) < fmt.Sprint(secrets[j]) })
	auths := []M{}
	if spec.Docker != nil {
		for _, a := range spec.Docker.Auths {
			auths = append(auths, M{"address": a.Address, "username": a.Username, "password": a.Password})
		}
	}
	return M{
		"labels":   strmap(spec.Metadata.Labels),
		"platform": M{"os": spec.Platform.OS, "arch": spec.Platform.Arch, "variant": spec.Platform.Variant, "version": spec.Platform.Version},
		"volumes":  vols, "steps": steps, "files": files, "secrets": secrets, "auths": auths,
		"uids_ok": uidOK, "ns_ok": nsOK, "labels_ok": labelsOK,
	}
}

func stepOut(s *engine.Step, rep *strings.Replacer, volName map[string]string) M {
	envs := M{}
	for k, v := range s.Envs {
		envs[k] = rep.Replace(v)
	}
	secrets := []M{}
	for _, x := range s.Secrets {
		secrets = append(secrets, M{"name": x.Name, "env": x.Env})
	}
	sort.SliceStable(secrets, func(i, j int) bool { return fmt.Sprint(secrets[i]) < fmt.Sprint(secrets[j]) })
	files := []M{}
	for _, x := range s.Files {
		files = append(files, M{"name": rep.Replace(x.Name), "path": x.Path, "mode": x.Mode})
	}
	mounts := []M{}
	for _, x := range s.Volumes {
		n := x.Name
		if a, ok := volName[n]; ok {
			n = a
		}
		mounts = append(mounts, M{"name": n, "path": x.Path})
	}
	devices := []M{}
	for _, x := range s.Devices {
		devices = append(devices, M{"name": x.Name, "path": x.DevicePath})
	}
	d := s.Docker
	if d == nil {
		d = &engine.DockerStep{}
	}
	ports := []M{}
	for _, p := range d.Ports {
		ports = append(ports, M{"port": p.Port, "host": p.Host, "protocol": p.Protocol})
	}
	obj := func(o *engine.ResourceObject) M {
		if o == nil {
			return M{"set": false, "cpu": 0, "memory": size(0)}
		}
		return M{"set": true, "cpu": small(o.CPU), "memory": size(o.Memory)}
	}
	res := M{"set": false, "limits": obj(nil), "requests": obj(nil)}
	if s.Resources != nil {
		res = M{"set": true, "limits": obj(s.Resources.Limits), "requests": obj(s.Resources.Requests)}
	}
	return M{
		"name": s.Metadata.Name, "labels": strmap(s.Metadata.Labels), "detach": s.Detach,
		"depends_on": strs(s.DependsOn), "devices": devices, "envs": envs, "files": files,
		"ignore_err": s.IgnoreErr, "ignore_std": s.IgnoreStderr || s.IgnoreStdout, "resources": res,
		"run_policy": s.RunPolicy.String(), "secrets": secrets, "volumes": mounts, "working_dir": s.WorkingDir,
		"args": strs(d.Args), "command": strs(d.Command), "dns": strs(d.DNS), "dns_search": strs(d.DNSSearch),
		"extra_hosts": strs(d.ExtraHosts), "image": rep.Replace(d.Image), "network": d.Network,
		"networks": strs(d.Networks), "ports": ports, "privileged": d.Privileged,
		"pull": d.PullPolicy.String(), "user": d.User,
	}
}
