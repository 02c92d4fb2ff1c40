// Package orchestrator is a stand-in for code.cloudfoundry.org/go-orchestrator.
package orchestrator

import "context"

type Communicator interface {
	List(ctx context.Context, worker interface{}) ([]interface{}, error)
	Add(ctx context.Context, worker interface{}, task interface{}) error
	Remove(ctx context.Context, worker interface{}, task interface{}) error
}
type Orchestrator struct {
	C       Communicator
	Workers []interface{}
	Tasks   []Task
}
type Task struct {
	Task      interface{}
	Instances int
}
type WorkerState struct {
	Name  interface{}
	Tasks []interface{}
}
type TaskOption func(*Task)
type OrchestratorOption func(*Orchestrator)

func New(c Communicator, opts ...OrchestratorOption) *Orchestrator { return &Orchestrator{C: c} }
func WithTaskInstances(i int) TaskOption {
	return func(t *Task) { t.Instances = i }
}
func (o *Orchestrator) AddWorker(w interface{}) { o.Workers = append(o.Workers, w) }
func (o *Orchestrator) AddTask(task interface{}, opts ...TaskOption) {
	t := Task{Task: task, Instances: 1}
	for _, f := range opts {
		f(&t)
	}
	o.Tasks = append(o.Tasks, t)
}
func (o *Orchestrator) NextTerm(ctx context.Context) {}
func (o *Orchestrator) LastActual() []WorkerState    { return nil }
