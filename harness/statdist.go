package main

import (
	"math"

	"github.com/sp301415/tfhe-go/math/num"
)

// chisq judges counts against expected probabilities (cells expecting fewer than 12 are merged with their
// neighbours); the threshold is far beyond any chance deviation.
func chisq(r *R, label string, counts []int, probs []float64) {
	n := 0
	for _, c := range counts {
		n += c
	}
	x, df := 0.0, -1
	accC, accP := 0, 0.0
	flush := func() {
		e := accP * float64(n)
		d := float64(accC) - e
		if e > 0 {
			x += d * d / e
			df++
		} else if accC > 0 {
			r.Fail("%s: %d samples in cells of probability zero", label, accC)
		}
		accC, accP = 0, 0
	}
	for i := range counts {
		accC += counts[i]
		accP += probs[i]
		if accP*float64(n) >= 12 {
			flush()
		}
	}
	if accP*float64(n) >= 1 {
		flush()
	} else {
		r.Check(accC <= 25, "%s: %d samples in cells expecting %g", label, accC, accP*float64(n))
	}
	if df < 1 {
		return
	}
	lim := float64(df) + 10*math.Sqrt(2*float64(df)) + 40
	r.Check(x <= lim, "%s: chi-square %.1f over %d degrees of freedom (%d samples)", label, x, df, n)
	r.Max("chi-square excess in deviations", (x-float64(df))/math.Sqrt(2*float64(df)))
	r.Obs("distribution samples", n)
}

func uniformProbs(n int) []float64 {
	p := make([]float64, n)
	for i := range p {
		p[i] = 1 / float64(n)
	}
	return p
}

// toF is the signed value of an integer of any type, unsigned types being read as centred representatives.
func toF[T num.Integer](x T) float64 {
	switch bitsOf[T]() {
	case 8:
		return float64(int8(x))
	case 16:
		return float64(int16(x))
	case 32:
		return float64(int32(x))
	}
	return float64(int64(x))
}

func phi(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }
