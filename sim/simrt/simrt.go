// Package simrt is what instrumented code calls. Without a simulator attached
// every call is a no-op.
package simrt

// Hook is called in front of every statement of the adapter.
var Hook func(site uint32)

// Y is a yield point.
func Y(site uint32) {
	if h := Hook; h != nil {
		h(site)
	}
}

// EpochValue identifies the simulated run (derived from its seed).
var EpochValue uint64

// Epoch returns EpochValue.
func Epoch() uint64 { return EpochValue }
