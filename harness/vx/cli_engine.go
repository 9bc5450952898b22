//go:build verifengine

package vx

// RunCLI is replaced by the engine.
func RunCLI(r Run) *Result { return nil }
