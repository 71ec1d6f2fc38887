package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// bytesOf lays integers out as bytes.
func bytesOf[T num.Integer](v []T) []byte {
	w := bitsOf[T]() / 8
	o := make([]byte, 0, len(v)*w)
	for _, x := range v {
		for j := 0; j < w; j++ {
			o = append(o, byte(uint64(x)>>(8*j)))
		}
	}
	return o
}

// c19Stream judges a uniform stream: every byte position, bit correlations and repeated blocks.
func c19Stream(r *R, label string, b []byte, w int) {
	counts := make([][]int, w)
	for i := range counts {
		counts[i] = make([]int, 256)
	}
	for i, x := range b {
		counts[i%w][x]++
	}
	for i := range counts {
		chisq(r, fmt.Sprintf("%s byte %d", label, i), counts[i], uniformProbs(256))
	}
	// neighbouring bytes at distance one and w
	for _, d := range []int{1, w, 8192, 8191, 16384} {
		if len(b) < 4*d {
			continue
		}
		c := make([]int, 256)
		for i := 0; i+d < len(b); i++ {
			c[b[i]^b[i+d]]++
		}
		chisq(r, fmt.Sprintf("%s xor at distance %d", label, d), c, uniformProbs(256))
	}
	seen := make(map[[12]byte]int, len(b)/12)
	for i := 0; i+12 <= len(b); i += 4 {
		k := [12]byte(b[i : i+12])
		if j, ok := seen[k]; ok {
			r.Fail("%s: the 12 bytes at offset %d repeat those at %d", label, i, j)
			break
		}
		seen[k] = i
	}
	r.Obs("stream bytes", len(b))
}

func drawUniform[T num.Integer](g *rand.Rand, s *csprng.UniformSampler[T], n int) []T {
	out := make([]T, 0, n)
	for len(out) < n {
		k := min(n-len(out), []int{0, 1, 2, 7, 64, 1023, 1024, 3000, 50000}[g.IntN(9)])
		v := make([]T, k)
		for i := range v {
			v[i] = T(g.Uint64())
		}
		switch g.IntN(3) {
		case 0:
			for i := range v {
				v[i] = s.Sample()
			}
		case 1:
			s.SampleVecTo(v)
		case 2:
			s.SamplePolyTo(poly.Poly[T]{Coeffs: v})
		}
		out = append(out, v...)
	}
	return out
}

func c19Seeds(g *rand.Rand) [][]byte {
	mk := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.Uint64())
		}
		return b
	}
	long := mk(200)
	long2 := append([]byte(nil), long...)
	long2[199] ^= 1
	long3 := append([]byte(nil), long...)
	long3[0] ^= 128
	s := mk(32)
	return [][]byte{nil, {0}, {0, 0}, {1}, s, s[:31], append(append([]byte(nil), s...), 0), mk(32), mk(48), mk(64), long, long2, long3, long[:128], {2, byte(g.Uint64())}}
}

func c19Uniform[T num.Integer](r *R) {
	g := r.Rng
	var z T
	name := fmt.Sprintf("%T", z)
	w := bitsOf[T]() / 8
	n := r.Pick(1<<19, 1<<22) / w
	r.Case(name+" uniform stream", func() {
		c19Stream(r, name+" seeded", bytesOf(drawUniform(g, csprng.NewUniformSamplerWithSeed[T]([]byte(fmt.Sprint(r.Seed, name))), n)), w)
		c19Stream(r, name+" fresh", bytesOf(drawUniform(g, csprng.NewUniformSampler[T](), n)), w)
	})
	seeds := c19Seeds(g)
	seen := map[[16]byte]int{}
	for i, sd := range seeds {
		r.Case(fmt.Sprintf("%s uniform seed %x", name, sd), func() {
			keep := append([]byte(nil), sd...)
			a := drawUniform(g, csprng.NewUniformSamplerWithSeed[T](sd), 5000)
			b := drawUniform(g, csprng.NewUniformSamplerWithSeed[T](sd), 5000)
			r.Check(eqV(a, b), "two samplers of the same seed disagree")
			r.Check(eqV(sd, keep), "the seed changed")
			by := bytesOf(a)
			for j := 0; j+16 <= len(by); j += 16 {
				k := [16]byte(by[j : j+16])
				if o, ok := seen[k]; ok && o != i {
					r.Fail("seeds %x and %x share output", sd, seeds[o])
					break
				}
				seen[k] = i
			}
			r.Obs("seeded pairs", 1)
		})
	}
	r.Case(name+" fresh samplers", func() {
		for i := 0; i < 20; i++ {
			by := bytesOf(drawUniform(g, csprng.NewUniformSampler[T](), 64))
			for j := 0; j+16 <= len(by); j += 16 {
				k := [16]byte(by[j : j+16])
				if _, ok := seen[k]; ok {
					r.Fail("a fresh sampler shares output with another one")
					break
				}
				seen[k] = -1 - i
			}
		}
	})
	// bounded draws
	bounds := []T{1, 2, 3, 5, 7, 10, 100, maxOf[T](), maxOf[T]() - 1, maxOf[T]()/2 + 1, maxOf[T]() / 2, maxOf[T]()/3*2 + 1, maxOf[T]()/4*3 + 2}
	for i := 0; i < 4; i++ {
		b := T(g.Uint64())
		if b < 0 {
			b = -(b + 1)
		}
		bounds = append(bounds, b>>g.IntN(bitsOf[T]()-1)|1)
	}
	for _, N := range bounds {
		r.Case(fmt.Sprintf("%s SampleN(%d)", name, N), func() {
			s := csprng.NewUniformSamplerWithSeed[T]([]byte(fmt.Sprint(r.Seed, name, N)))
			cells := 64
			if bigI(N).Cmp(big.NewInt(64)) < 0 {
				cells = int(N)
			}
			cnt, pr := make([]int, cells), make([]float64, cells)
			nb := bigI(N)
			cell := func(x *big.Int) int { // floor(x*cells/N)
				return int(new(big.Int).Div(new(big.Int).Mul(x, big.NewInt(int64(cells))), nb).Int64())
			}
			fN, _ := new(big.Float).SetInt(nb).Float64()
			prev := new(big.Int)
			for c := 0; c < cells; c++ { // first x with cell > c is ceil((c+1)N/cells)
				e := new(big.Int).Mul(big.NewInt(int64(c+1)), nb)
				e.Add(e, big.NewInt(int64(cells-1))).Div(e, big.NewInt(int64(cells)))
				d, _ := new(big.Float).SetInt(new(big.Int).Sub(e, prev)).Float64()
				pr[c] = d / fN
				prev = e
			}
			for i := 0; i < r.Pick(6000, 100000); i++ {
				x := s.SampleN(N)
				if x < 0 || x >= N {
					r.Fail("SampleN(%d) returned %d", N, x)
					return
				}
				cnt[cell(bigI(x))]++
			}
			chisq(r, fmt.Sprintf("%s SampleN(%d)", name, N), cnt, pr)
		})
	}
}

func c19Binary[T num.Integer](r *R) {
	g := r.Rng
	var z T
	name := fmt.Sprintf("%T", z)
	r.Case(name+" binary vectors", func() {
		s := csprng.NewBinarySamplerWithSeed[T]([]byte(fmt.Sprint(r.Seed, name)))
		pos := make([]int, 200)
		posN := make([]int, 200)
		lag := make([]int, 140)
		lagN := make([]int, 140)
		words := map[uint64]bool{}
		for rep := 0; rep < r.Pick(3000, 30000); rep++ {
			n := []int{0, 1, 2, 63, 64, 65, 127, 128, 129, 200, g.IntN(200)}[g.IntN(11)]
			if rep%1000 == 7 { // longer than any key of the shipped parameters
				n = 35000 + g.IntN(100)
			}
			v := make([]T, n+1)
			for i := range v {
				v[i] = T(g.Uint64())
			}
			keep := v[n]
			if rep%2 == 0 {
				s.SampleVecTo(v[:n])
			} else {
				s.SamplePolyTo(poly.Poly[T]{Coeffs: v[:n]})
			}
			r.Check(v[n] == keep, "a value beyond the vector changed")
			v = v[:n]
			for i, x := range v {
				if x != 0 && x != 1 {
					r.Fail("binary vector holds %d", x)
					return
				}
				if i < len(pos) {
					pos[i] += int(x)
					posN[i]++
				}
				for l := 1; l < len(lag) && l <= i; l++ {
					if v[i-l] == x {
						lag[l]++
					}
					lagN[l]++
				}
			}
			for i := 0; i+64 <= n; i += 64 {
				var wd uint64
				for j, x := range v[i : i+64] {
					wd |= uint64(x) << j
				}
				if words[wd] {
					r.Fail("64 bits of a binary vector repeat earlier ones")
					return
				}
				words[wd] = true
			}
			r.Obs("binary samples", n)
		}
		half := func(label string, i, k, n int) {
			r.Check(math.Abs(float64(k)-float64(n)/2) <= 4.5*math.Sqrt(float64(n))+1, "%s %d: %d of %d", label, i, k, n)
		}
		for i := range pos {
			half("ones at position", i, pos[i], posN[i])
		}
		for i := range lag {
			half("equal bits at distance", i, lag[i], lagN[i])
		}
		ones, n := 0, 20000
		last, same := T(0), 0
		for i := 0; i < n; i++ {
			x := s.Sample()
			if x != 0 && x != 1 {
				r.Fail("Sample returned %d", x)
				return
			}
			ones += int(x)
			if i > 0 && x == last {
				same++
			}
			last = x
		}
		half("ones of single draws", 0, ones, n)
		half("equal neighbouring single draws", 0, same, n-1)
	})
	for _, bs := range []int{1, 2, 3, 4, 5, 7, 8, 16, 33, 100, 200} {
		r.Case(fmt.Sprintf("%s blocks of %d", name, bs), func() {
			s := csprng.NewBinarySamplerWithSeed[T]([]byte(fmt.Sprint(r.Seed, name, bs)))
			cnt := make([]int, bs+1)
			pair := make([]int, (bs+1)*(bs+1))
			blocks := r.Pick(200, 800) * (bs + 2)
			for b := 0; b < blocks; {
				k := g.IntN(20)
				if b == 0 { // longer than any key of the shipped parameters
					k = 35000/bs + 1
				}
				v := make([]T, k*bs+1)
				for i := range v {
					v[i] = T(g.Uint64())
				}
				keep := v[k*bs]
				if g.IntN(2) == 0 {
					s.SampleBlockVecTo(v[:k*bs], bs)
				} else {
					s.SampleBlockPolyTo(poly.Poly[T]{Coeffs: v[:k*bs]}, bs)
				}
				r.Check(v[k*bs] == keep, "a value beyond the vector changed")
				prev := -1
				for i := 0; i < k; i++ {
					at := bs
					for j, x := range v[i*bs : (i+1)*bs] {
						if x == 1 && at == bs {
							at = j
						} else if x != 0 {
							r.Fail("block %v is not zero or a unit vector", v[i*bs:(i+1)*bs])
							return
						}
					}
					cnt[at]++
					if prev >= 0 {
						pair[prev*(bs+1)+at]++
					}
					prev = at
				}
				b += k
				r.Obs("blocks", k)
			}
			chisq(r, fmt.Sprintf("blocks of %d", bs), cnt, uniformProbs(bs+1))
			if bs <= 5 {
				chisq(r, fmt.Sprintf("pairs of blocks of %d", bs), pair, uniformProbs((bs+1)*(bs+1)))
			}
			if bs > 1 {
				p, _ := Panics(func() { s.SampleBlockVecTo(make([]T, bs+1), bs) })
				r.Check(p, "a length that is not a multiple of the block size was accepted")
			}
		})
	}
	r.Case(name+" binary seeds", func() {
		draw := func(s *csprng.BinarySampler[T]) []T {
			v := make([]T, 300)
			s.SampleVecTo(v[:100])
			v[100] = s.Sample()
			s.SampleBlockVecTo(v[101:131], 3)
			s.SamplePolyTo(poly.Poly[T]{Coeffs: v[131:]})
			return v
		}
		seeds := c19Seeds(g)
		var outs [][]T
		for _, sd := range seeds {
			a := draw(csprng.NewBinarySamplerWithSeed[T](sd))
			r.Check(eqV(a, draw(csprng.NewBinarySamplerWithSeed[T](sd))), "two binary samplers of the same seed disagree")
			outs = append(outs, a)
		}
		for i := 0; i < 5; i++ {
			outs = append(outs, draw(csprng.NewBinarySampler[T]()))
		}
		for i := range outs {
			for j := 0; j < i; j++ {
				same := 0
				for k := range outs[i] {
					if outs[i][k] == outs[j][k] {
						same++
					}
				}
				r.Check(same < 250 && same > 70, "seeds %d and %d share %d of 300 bits", i, j, same)
			}
		}
		r.Obs("seeded pairs", len(seeds))
	})
}

func drawGauss[T num.Integer](g *rand.Rand, s *csprng.GaussianSampler[T], n int, std float64) []T {
	out := make([]T, 0, n)
	for len(out) < n {
		k := min(n-len(out), []int{0, 1, 2, 7, 64, 1000, 40000}[g.IntN(7)])
		v := make([]T, k)
		for i := range v {
			v[i] = T(g.Uint64())
		}
		base := append([]T(nil), v...)
		switch g.IntN(5) {
		case 0:
			for i := range v {
				v[i] = s.Sample(std)
			}
		case 1:
			s.SampleVecTo(v, std)
		case 2:
			s.SamplePolyTo(poly.Poly[T]{Coeffs: v}, std)
		case 3:
			s.SamplePolyAddTo(poly.Poly[T]{Coeffs: v}, std)
			for i := range v {
				v[i] -= base[i]
			}
		case 4:
			s.SamplePolySubTo(poly.Poly[T]{Coeffs: v}, std)
			for i := range v {
				v[i] = base[i] - v[i]
			}
		}
		out = append(out, v...)
	}
	return out
}

// gaussJudge judges samples of a rounded Gaussian.
func gaussJudge(r *R, label string, x []float64, std float64) {
	n := float64(len(x))
	eff := math.Sqrt(std*std + 1.0/12)
	var m, v, k4, peak float64
	for _, y := range x {
		m += y
		v += y * y
		k4 += y * y * y * y
		peak = max(peak, math.Abs(y))
	}
	m, v, k4 = m/n, v/n, k4/n
	r.Check(math.Abs(m) <= 7*eff/math.Sqrt(n), "%s: mean %g", label, m)
	if std >= 1 {
		r.Check(math.Abs(v/(eff*eff)-1) <= 7*math.Sqrt(2/n)+1e-3, "%s: variance %g times the declared one", label, v/(eff*eff))
		r.Check(math.Abs(k4/(v*v)-3) <= 7*math.Sqrt(24/n)+0.02+0.2/std, "%s: kurtosis %g", label, k4/(v*v))
	}
	r.Check(peak <= 9.5*std+1, "%s: sample %g", label, peak)
	r.Max("gaussian peak in deviations", peak/max(std, 1))
	if std >= 30 {
		const B = 480
		cnt, pr := make([]int, B+2), make([]float64, B+2)
		var lo [B + 1]float64 // integer boundaries of the cells
		for c := range lo {
			lo[c] = math.Ceil((float64(c)*12/B - 6) * std)
		}
		for _, y := range x {
			c := min(max(int(math.Floor((y/std+6)*B/12)), 0), B)
			for c > 0 && y < lo[c] {
				c--
			}
			for c < B && y >= lo[c+1] {
				c++
			}
			switch {
			case y < lo[0]:
				cnt[0]++
			case c == B:
				cnt[B+1]++
			default:
				cnt[c+1]++
			}
		}
		edge := func(c int) float64 { // probability that the rounded value falls below boundary c
			return phi((lo[c] - 0.5) / std)
		}
		pr[0], pr[B+1] = edge(0), phi(-(lo[B]-0.5)/std)
		for c := 0; c < B; c++ {
			pr[c+1] = edge(c+1) - edge(c)
		}
		chisq(r, label, cnt, pr)
	} else {
		K := int(math.Ceil(8*std)) + 1
		cnt, pr := make([]int, 2*K+1), make([]float64, 2*K+1)
		for _, y := range x {
			c := int(y) + K
			if c < 0 || c > 2*K {
				continue
			}
			cnt[c]++
		}
		for c := range pr {
			y := float64(c - K)
			pr[c] = phi((y+0.5)/std) - phi((y-0.5)/std)
			if std == 0 {
				pr[c] = 0
				if c == K {
					pr[c] = 1
				}
			}
		}
		chisq(r, label, cnt, pr)
	}
}

func c19Gauss[T num.Integer](r *R) {
	g := r.Rng
	var z T
	name := fmt.Sprintf("%T", z)
	w := bitsOf[T]()
	stds := []float64{0, 0.1, 0.5, 1, 1.5, 3.2, 10}
	if w >= 16 {
		stds = append(stds, 31.5, 1000)
	}
	if w >= 32 {
		stds = append(stds, math.Exp2(12.3), math.Exp2(20), math.Exp2(26.7))
	}
	if w == 64 {
		stds = append(stds, math.Exp2(31.5), math.Exp2(40), math.Exp2(52.25), math.Exp2(58))
	}
	for _, std := range stds {
		r.Case(fmt.Sprintf("%s gaussian %g", name, std), func() {
			s := csprng.NewGaussianSamplerWithSeed[T]([]byte(fmt.Sprint(r.Seed, name, std)), std)
			n := r.Pick(150000, 2000000)
			v := drawGauss(g, s, n, std)
			x := make([]float64, n)
			low := make([]int, 16)
			for i := range v {
				x[i] = toF(v[i])
				low[uint64(v[i])&15]++
			}
			gaussJudge(r, fmt.Sprintf("%s gaussian %g", name, std), x, std)
			if std >= 1000 && std <= math.Exp2(45) {
				chisq(r, fmt.Sprintf("%s low bits of gaussian %g", name, std), low, uniformProbs(16))
			}
			// neighbouring samples are uncorrelated
			if std >= 1 {
				for _, d := range []int{1, 2, 3} {
					c := 0.0
					for i := d; i < n; i++ {
						c += x[i] * x[i-d] / (std*std + 1.0/12)
					}
					r.Check(math.Abs(c) <= 7*math.Sqrt(float64(n)), "correlation %g at distance %d", c/float64(n), d)
				}
			}
			r.Obs("gaussian samples", n)
		})
	}
	r.Case(name+" gaussian seeds", func() {
		std := 6.0
		var outs [][]T
		for i, sd := range c19Seeds(g) {
			a := drawGauss(g, csprng.NewGaussianSamplerWithSeed[T](sd, std), 3000, std)
			b := drawGauss(g, csprng.NewGaussianSamplerWithSeed[T](sd, std), 3000, std)
			r.Check(eqV(a, b), "two Gaussian samplers of seed %d disagree", i)
			outs = append(outs, a)
		}
		for i := 0; i < 5; i++ {
			outs = append(outs, drawGauss(g, csprng.NewGaussianSampler[T](), 3000, std))
		}
		for i := range outs {
			for j := 0; j < i; j++ {
				c := 0.0
				for k := range outs[i] {
					c += toF(outs[i][k]) * toF(outs[j][k])
				}
				r.Check(math.Abs(c) < 8*std*std*math.Sqrt(3000), "sequences %d and %d are correlated", i, j)
			}
		}
		r.Obs("seeded pairs", len(outs))
	})
	r.Case(name+" negative deviation", func() {
		s := csprng.NewGaussianSampler[T]()
		v := make([]T, 4)
		for i, f := range []func(){func() { s.Sample(-1) }, func() { s.SampleVecTo(v, -1e-9) }, func() { s.SamplePolyTo(poly.Poly[T]{Coeffs: v}, -2) }, func() { s.SamplePolyAddTo(poly.Poly[T]{Coeffs: v}, -2) }, func() { s.SamplePolySubTo(poly.Poly[T]{Coeffs: v}, -2) }} {
			p, _ := Panics(f)
			r.Check(p, "form %d accepted a negative deviation", i)
		}
	})
}

func c19All[T num.Integer](r *R) {
	c19Uniform[T](r)
	c19Binary[T](r)
	c19Gauss[T](r)
}

func init() {
	about("C19", "Cases: sampler x output type x (seed | bound | block size | deviation); draws are split into calls of random sizes and forms; every byte position, bit distance, block outcome, residue cell and Gaussian cell is counted and compared with the exact distribution, with thresholds far beyond chance.",
		"deviations from the distribution below about 1% of a cell are not resolved in the quick tier")
	needObs("C19", "stream bytes", 1000000)
	needObs("C19", "gaussian samples", 1000000)
	needObs("C19", "blocks", 10000)
	needObs("C19", "seeded pairs", 100)
	reg("C19", "words", vAvx, vTwo, func(r *R) { c19All[uint32](r); c19All[uint64](r) })
	reg("C19", "small", vAvx, vTwo, func(r *R) { c19All[uint8](r); c19All[uint16](r) })
	reg("C19", "signed", vAvx, vTwo, func(r *R) { c19All[int8](r); c19All[int16](r); c19All[int32](r); c19All[int64](r) })
	reg("C19", "machine", vAvx, vTwo, func(r *R) { c19All[int](r); c19All[uint](r); c19All[uintptr](r) })
	reg("C19", "gauss", vAvx, vTwo, func(r *R) {
		std := math.Exp2(30)
		for k := 0; k < 2; k++ {
			r.Case(fmt.Sprintf("large sample %d", k), func() {
				s := csprng.NewGaussianSamplerWithSeed[uint64]([]byte(fmt.Sprint(r.Seed, k)), std)
				n := r.Pick(20000000, 150000000)
				x := make([]float64, n)
				for i := range x {
					x[i] = float64(int64(s.Sample(std)))
				}
				gaussJudge(r, "large sample", x, std)
				r.Obs("gaussian samples", n)
			})
		}
	})
}
