// Fault-injecting streams.
package main

import (
	"errors"
	"io"
)

var errFault = errors.New("injected fault")

// faultReader fails after at bytes.
type faultReader struct {
	data []byte
	at   int
	pos  int
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.pos >= f.at {
		return 0, errFault
	}
	if f.pos >= len(f.data) {
		return 0, io.EOF
	}
	n := copy(p, f.data[f.pos:min(f.at, len(f.data))])
	f.pos += n
	return n, nil
}
