//go:build go1.23

// Package simcrand stands in for crypto/rand.
package simcrand

import (
	"io"

	"go.opencensus.io/verifsim/simrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.RandUint64() >> 13)
	}
	// Any bytes are as likely as any other; those that make numbers near zero,
	// on either side, come more often here.
	if x := simrt.RandUint64() >> 13; x%4 == 0 && len(p)%8 == 0 {
		simrt.Probe("reached: random numbers next to zero")
		for i := range p {
			switch {
			case i%8 == 0:
				p[i] = byte(x >> 2 & 15)
				if x&64 != 0 {
					p[i] = -p[i]
				}
			case x&64 != 0 && p[i-i%8] != 0:
				p[i] = 255
			default:
				p[i] = 0
			}
		}
	}
	return len(p), nil
}

// Reader is crypto/rand.Reader.
var Reader io.Reader = reader{}

// Read is crypto/rand.Read.
func Read(p []byte) (int, error) { return Reader.Read(p) }
