//go:build go1.23

// Package simexectrace stands in for the tasks of package runtime/trace: it
// keeps what the execution tracer would be told.
package simexectrace

import (
	"context"

	"go.opencensus.io/verifsim/simrt"
)

// Task is one task of the execution tracer.
type Task struct {
	Name   string
	Parent *Task
	On     bool // the tracer ran when it was made
	Ends   int
}

var (
	// Enabled says whether the execution tracer runs.
	Enabled bool
	// Tasks are all tasks of the current run.
	Tasks []*Task
)

// Reset starts a run.
func Reset() { Enabled, Tasks = false, nil }

// IsEnabled stands in for trace.IsEnabled.
func IsEnabled() bool {
	simrt.Y()
	return Enabled
}

type key struct{}

// NewTask stands in for trace.NewTask.
func NewTask(ctx context.Context, name string) (context.Context, *Task) {
	simrt.Y()
	t := &Task{Name: name, Parent: Of(ctx), On: Enabled}
	Tasks = append(Tasks, t)
	simrt.Y()
	return context.WithValue(ctx, key{}, t), t
}

// Of is the task ctx belongs to.
func Of(ctx context.Context) *Task {
	t, _ := ctx.Value(key{}).(*Task)
	return t
}

// End stands in for the method of trace.Task.
func (t *Task) End() {
	simrt.Y()
	t.Ends++
	simrt.Y()
}
