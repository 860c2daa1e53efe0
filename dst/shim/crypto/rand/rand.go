package rand

import (
	real "crypto/rand"
	"io"
	"math/big"

	"verif/dst/sim"
)

type rd struct{}

func (rd) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(sim.RandU64() >> 11)
	}
	return len(b), nil
}

var Reader io.Reader = rd{}

func Read(b []byte) (int, error)                      { return rd{}.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return real.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return real.Prime(r, bits) }
