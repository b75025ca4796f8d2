package main

import (
	"golang.org/x/exp/rand"
	"verif/vsched"
)

// tape is a source of random numbers whose first answers are choices of the explorer
// among raw values, the smallest and the largest draws included; the following answers
// come from a fixed generator.
type tape struct {
	raws  []uint64
	limit int // number of explored answers, 0: all
	n     int
	log   []uint64
}

func (t *tape) Seed(uint64) {}

// Uint64 answers the next value.
func (t *tape) Uint64() (x uint64) {
	t.n++
	if len(t.raws) == 0 || t.limit > 0 && t.n > t.limit {
		// a fixed generator
		x = uint64(t.n) * 0x9E3779B97F4A7C15
		x ^= x >> 31
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
	} else {
		x = t.raws[vsched.Choose(len(t.raws), 0, "random number")]
	}
	t.log = append(t.log, x)
	return
}

// unit lists the raw values for which the generator answers the given numbers of [0,1):
// only the 53 low bits count.
func unit(values []float64) (raws []uint64) {
	for _, g := range values {
		raws = append(raws, uint64(g*(1<<53)))
	}
	return
}

// ints lists the raw values for which the generator answers 0 to n-1 among n.
func ints(n int) (raws []uint64) {
	for i := 0; i < n; i++ {
		raws = append(raws, uint64(i))
	}
	return
}

const nearOne = 1 - 1.0/(1<<53)

// newTape answers the given numbers of [0,1), a fixed sequence if there are none.
func newTape(values []float64) *rand.Rand { return rand.New(&tape{raws: unit(values)}) }

// randRand is the type of the generators of the program.
type randRand = rand.Rand
