package main

import (
	"context"
	"encoding/json"
	"io"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-runtime/runtime"
	"github.com/drone/drone-yaml/yaml/linter"
)

func init() {
	ops["execute"] = opExecute
}

// actor stands in for the container engine: containers end, with codes of the
// case, in an order of its own choosing.
type actor struct {
	mu      sync.Mutex
	rnd     *rand.Rand
	codes   map[string]int
	trace   []M
	waiting map[string]chan bool
	over    chan bool
}

func (a *actor) Setup(context.Context, *engine.Spec) error                { return nil }
func (a *actor) Destroy(context.Context, *engine.Spec) error              { return nil }
func (a *actor) Create(context.Context, *engine.Spec, *engine.Step) error { return nil }
func (a *actor) Start(_ context.Context, _ *engine.Spec, s *engine.Step) error {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.trace = append(a.trace, M{"e": "begin", "n": s.Metadata.Name, "c": 0})
	return nil
}
func (a *actor) Tail(context.Context, *engine.Spec, *engine.Step) (io.ReadCloser, error) {
	return io.NopCloser(strings.NewReader("")), nil
}
func (a *actor) Wait(_ context.Context, _ *engine.Spec, s *engine.Step) (*engine.State, error) {
	ch := make(chan bool)
	a.mu.Lock()
	a.waiting[s.Metadata.UID] = ch
	a.mu.Unlock()
	<-ch
	a.mu.Lock()
	defer a.mu.Unlock()
	c := a.codes[s.Metadata.Name]
	a.trace = append(a.trace, M{"e": "end", "n": s.Metadata.Name, "c": c})
	return &engine.State{ExitCode: c, Exited: true}, nil
}

// play ends one waiting container after the other.
func (a *actor) play() {
	for {
		select {
		case <-a.over:
			return
		case <-time.After(time.Duration(20+a.rnd.Intn(180)) * time.Microsecond):
		}
		a.mu.Lock()
		names := sortedKeys(a.waiting)
		if len(names) > 0 && a.rnd.Intn(3) > 0 {
			k := names[a.rnd.Intn(len(names))]
			close(a.waiting[k])
			delete(a.waiting, k)
		}
		a.mu.Unlock()
	}
}

func runPlan(spec *engine.Spec, codes map[string]int, seed int64) M {
	a := &actor{rnd: rand.New(rand.NewSource(seed)), codes: codes, waiting: map[string]chan bool{}, over: make(chan bool), trace: []M{}}
	r := runtime.New(runtime.WithEngine(a), runtime.WithConfig(spec))
	res := make(chan error, 1)
	go func() { res <- r.Run(context.Background()) }()
	go a.play()
	out := M{}
	select {
	case err := <-res:
		switch err.(type) {
		case nil:
			out["final"] = "none"
		case *runtime.ExitError:
			out["final"] = "fail"
		default:
			out["final"] = err.Error()
			if err == runtime.ErrInterrupt {
				out["final"] = "int"
			}
		}
	case <-time.After(10 * time.Second):
		out["final"] = "hang"
	}
	close(a.over)
	a.mu.Lock()
	defer a.mu.Unlock()
	out["trace"] = append([]M{}, a.trace...)
	return out
}

// opExecute compiles the accepted pipelines of a file and runs their plans.
func opExecute(c map[string]json.RawMessage) M {
	ps, err := pipelines(c)
	if err != nil {
		return M{"ok": false, "err": err.Error(), "pipes": []M{}}
	}
	var opts compileOpts
	get(c, "opts", &opts)
	var filters []tr
	get(c, "filters", &filters)
	var runs []struct {
		Codes map[string]int `json:"codes"`
		Seed  int64          `json:"seed"`
	}
	get(c, "runs", &runs)
	comp := opts.compiler()
	out := []M{}
	for _, p := range ps {
		if linter.Lint(p, true) != nil {
			continue
		}
		e := M{"res": resource(p)}
		s, known := compile(comp, p)
		calls := []string{}
		for i := range filters {
			filters[i].fn(&calls)(s)
		}
		e["spec"] = specOut(s, known)
		var done []M
		for _, r := range runs {
			done = append(done, runPlan(s, r.Codes, r.Seed))
		}
		e["runs"] = done
		out = append(out, e)
	}
	return M{"ok": true, "pipes": out}
}

func sortedKeys(m map[string]chan bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
