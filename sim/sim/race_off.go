//go:build !race

package sim

// Release and Acquire tell the race detector that the harness hands an
// object over: what the caller did before Release(p) happens before what
// follows Acquire(p).
func Release[T any](p *T) {}

// Acquire is the other half of Release.
func Acquire[T any](p *T) {}
