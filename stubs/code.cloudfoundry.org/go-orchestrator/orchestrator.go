// Package orchestrator stands in for code.cloudfoundry.org/go-orchestrator
// (not in this sandbox's module cache): the same interface and the same
// protocol (each term lists the workers' tasks, removes what should not be
// there and adds what is missing, to the workers with the fewest tasks),
// written plainly and without the original's parallel requests.
package orchestrator

import (
	"context"
	"sort"
	"sync"
)

// Communicator talks to workers.
type Communicator interface {
	List(ctx context.Context, worker interface{}) ([]interface{}, error)
	Add(ctx context.Context, worker, task interface{}) error
	Remove(ctx context.Context, worker, task interface{}) error
}

// Task is something workers do, in a number of instances.
type Task struct {
	Name      interface{}
	Instances int
}

// WorkerState is what a worker was seen doing.
type WorkerState struct {
	Name  interface{}
	Tasks []interface{}
}

// Orchestrator spreads tasks over workers.
type Orchestrator struct {
	mu      sync.Mutex
	c       Communicator
	workers []interface{}
	tasks   []Task
	last    []WorkerState
}

// OrchestratorOption configures an Orchestrator.
type OrchestratorOption func(*Orchestrator)

// New makes an Orchestrator.
func New(c Communicator, opts ...OrchestratorOption) *Orchestrator {
	o := &Orchestrator{c: c}
	for _, f := range opts {
		f(o)
	}
	return o
}

// AddWorker adds a worker.
func (o *Orchestrator) AddWorker(worker interface{}) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.workers = append(o.workers, worker)
}

// TaskOption configures a task.
type TaskOption func(*Task)

// WithTaskInstances sets how many workers do the task.
func WithTaskInstances(i int) TaskOption { return func(t *Task) { t.Instances = i } }

// AddTask adds a task.
func (o *Orchestrator) AddTask(task interface{}, opts ...TaskOption) {
	o.mu.Lock()
	defer o.mu.Unlock()
	t := Task{Name: task, Instances: 1}
	for _, f := range opts {
		f(&t)
	}
	o.tasks = append(o.tasks, t)
}

// LastActual gives what the workers were doing when last listed.
func (o *Orchestrator) LastActual() []WorkerState {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.last
}

// NextTerm lists the workers' tasks and adds and removes what it takes.
func (o *Orchestrator) NextTerm(ctx context.Context) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.last = nil
	have := map[interface{}]int{}
	var ok []int
	for _, w := range o.workers {
		tasks, err := o.c.List(ctx, w)
		if err != nil {
			continue
		}
		ok = append(ok, len(o.last))
		o.last = append(o.last, WorkerState{Name: w, Tasks: tasks})
	}
	most := 0 // a worker's fair share
	for _, t := range o.tasks {
		most += t.Instances
	}
	if n := len(ok); n > 0 {
		most = (most + n - 1) / n
	}
	load := make([]int, len(ok))
	does := make([]map[interface{}]bool, len(ok))
	for i, s := range o.last {
		does[i] = map[interface{}]bool{}
		for _, t := range s.Tasks {
			want := 0
			for _, k := range o.tasks {
				if k.Name == t {
					want = k.Instances
				}
			}
			if have[t] >= want || does[i][t] || load[i] >= most {
				o.c.Remove(ctx, s.Name, t)
				continue
			}
			have[t]++
			load[i]++
			does[i][t] = true
		}
	}
	for _, t := range o.tasks {
		for have[t.Name] < t.Instances {
			sort.SliceStable(ok, func(a, b int) bool { return load[ok[a]] < load[ok[b]] })
			at := -1
			for _, i := range ok {
				if !does[i][t.Name] {
					at = i
					break
				}
			}
			if at < 0 {
				break
			}
			o.c.Add(ctx, o.last[at].Name, t.Name)
			have[t.Name]++
			load[at]++
			does[at][t.Name] = true
		}
	}
}
