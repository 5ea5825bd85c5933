//go:build go1.23

// Package simos stands in for the parts of package os that read the
// environment: each run has its own.
package simos

import "go.opencensus.io/verifsim/simrt"

// Env is the environment of the current run.
var Env map[string]string

// Reset starts a run.
func Reset() { Env = map[string]string{} }

// Getenv stands in for os.Getenv.
func Getenv(key string) string {
	v, _ := LookupEnv(key)
	return v
}

// LookupEnv stands in for os.LookupEnv.
func LookupEnv(key string) (string, bool) {
	simrt.Y()
	v, ok := Env[key]
	simrt.Y()
	return v, ok
}
