// Package xcrand is crypto/rand under the simulator.
package xcrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"verif.local/dst/xrand"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return xrand.Read(b) }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error)                      { return io.ReadFull(Reader, b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return rand.Prime(r, bits) }
