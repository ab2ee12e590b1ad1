// Package dag stands in for github.com/natessilva/dag, which drone-runtime
// uses and which is not available offline: it runs functions in the order of
// a graph, each in its own goroutine as soon as all it depends on is done.
package dag

import "errors"

// Runner runs a graph of functions.
type Runner struct {
	fns   map[string]func() error
	after map[string][]string
}

// AddVertex adds a function; a later one of the same name replaces it.
func (d *Runner) AddVertex(name string, fn func() error) {
	if d.fns == nil {
		d.fns = map[string]func() error{}
	}
	d.fns[name] = fn
}

// AddEdge makes to wait for from.
func (d *Runner) AddEdge(from, to string) {
	if d.after == nil {
		d.after = map[string][]string{}
	}
	d.after[from] = append(d.after[from], to)
}

type result struct {
	name string
	err  error
}

// Run runs every function once.
func (d *Runner) Run() error {
	deps := map[string]int{}
	for from, tos := range d.after {
		if _, ok := d.fns[from]; !ok {
			return errors.New("dag: missing vertex")
		}
		for _, to := range tos {
			if _, ok := d.fns[to]; !ok {
				return errors.New("dag: missing vertex")
			}
			deps[to]++
		}
	}
	if d.cyclic(deps) {
		return errors.New("dag: dependency cycle detected")
	}
	running := 0
	done := make(chan result, len(d.fns))
	start := func(name string) {
		running++
		go func() { done <- result{name, d.fns[name]()} }()
	}
	for name := range d.fns {
		if deps[name] == 0 {
			start(name)
		}
	}
	var err error
	for running > 0 {
		r := <-done
		running--
		if r.err != nil && err == nil {
			err = r.err
		}
		if err != nil {
			continue
		}
		for _, to := range d.after[r.name] {
			if deps[to]--; deps[to] == 0 {
				start(to)
			}
		}
	}
	return err
}

func (d *Runner) cyclic(deps map[string]int) bool {
	left := map[string]int{}
	var free []string
	for name := range d.fns {
		left[name] = deps[name]
		if deps[name] == 0 {
			free = append(free, name)
		}
	}
	seen := 0
	for len(free) > 0 {
		name := free[0]
		free = free[1:]
		seen++
		for _, to := range d.after[name] {
			if left[to]--; left[to] == 0 {
				free = append(free, to)
			}
		}
	}
	return seen < len(d.fns)
}
