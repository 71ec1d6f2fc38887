package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

type gadLit[T TI] = tfhe.GadgetParametersLiteral[T]
type parLit[T TI] = tfhe.ParametersLiteral[T]

// validGadget is the documented rule for gadgets.
func validGadget[T TI](l gadLit[T]) bool {
	b := uint64(l.Base)
	if b < 2 || b&(b-1) != 0 || l.Level <= 0 {
		return false
	}
	lg := 0
	for b > 1 {
		b >>= 1
		lg++
	}
	return lg*l.Level <= logQ[T]()
}

// validParams is the documented rule for parameter sets.
func validParams[T TI](l parLit[T]) bool {
	if l.GLWERank <= 0 || l.PolyRank <= 0 || l.PolyRank&(l.PolyRank-1) != 0 {
		return false
	}
	L, bs := l.LUTSize, l.BlockSize
	if L == 0 {
		L = l.PolyRank
	}
	if bs == 0 {
		bs = 1
	}
	return l.LWEDimension > 0 && l.LWEDimension <= l.GLWERank*l.PolyRank &&
		L >= l.PolyRank && L%l.PolyRank == 0 && l.LWEStdDev > 0 && l.GLWEStdDev > 0 &&
		bs > 0 && l.LWEDimension%bs == 0 &&
		(l.BootstrapOrder == oKS || l.BootstrapOrder == oBR) &&
		validGadget(l.BlindRotateParams) && validGadget(l.KeySwitchParams)
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func checkGadget[T TI](r *R, what string, l gadLit[T], g tfhe.GadgetParameters[T]) {
	lg := new(big.Int).SetUint64(uint64(l.Base)).BitLen() - 1
	w := logQ[T]()
	r.Check(g.Base() == l.Base && g.Level() == l.Level && g.LogBase() == lg, "%s: base %d (log %d) level %d for %v", what, g.Base(), g.LogBase(), g.Level(), l)
	for i := 0; i < l.Level; i++ {
		r.Check(g.LogBaseQ(i) == w-(i+1)*lg && g.BaseQ(i) == T(1)<<(w-(i+1)*lg), "%s: step %d is %d (log %d)", what, i, g.BaseQ(i), g.LogBaseQ(i))
	}
	r.Check(g.FirstBaseQ() == g.BaseQ(0) && g.LogFirstBaseQ() == g.LogBaseQ(0), "%s: first step %d (log %d)", what, g.FirstBaseQ(), g.LogFirstBaseQ())
	r.Check(g.LastBaseQ() == g.BaseQ(l.Level-1) && g.LogLastBaseQ() == g.LogBaseQ(l.Level-1), "%s: last step %d (log %d)", what, g.LastBaseQ(), g.LogLastBaseQ())
	r.Check(g.Literal() == l, "%s: turned back into %v instead of %v", what, g.Literal(), l)
	r.Check(g.Literal().Compile() == g, "%s: recompiling is not the identity", what)
	r.Obs("gadgets", 1)
}

// checkParams compares every accessor with the description.
func checkParams[T TI](r *R, l parLit[T], p tfhe.Parameters[T]) {
	if l.LUTSize == 0 {
		l.LUTSize = l.PolyRank
	}
	if l.BlockSize == 0 {
		l.BlockSize = 1
	}
	k, N, n, w := l.GLWERank, l.PolyRank, l.LWEDimension, logQ[T]()
	Q := math.Exp2(float64(w))
	eqI := func(name string, got, want int) {
		r.Check(got == want, "%s is %d, want %d", name, got, want)
		r.Obs("accessors", 1)
	}
	eqF := func(name string, got, want float64) {
		r.Check(near(got, want), "%s is %v, want %v", name, got, want)
		r.Obs("accessors", 1)
	}
	eqI("LWEDimension", p.LWEDimension(), n)
	eqI("GLWERank", p.GLWERank(), k)
	eqI("PolyRank", p.PolyRank(), N)
	eqI("GLWEDimension", p.GLWEDimension(), k*N)
	r.Check(1<<p.LogPolyRank() == N, "LogPolyRank is %d for %d", p.LogPolyRank(), N)
	eqI("LUTSize", p.LUTSize(), l.LUTSize)
	eqI("LUTExtendFactor", p.LUTExtendFactor(), l.LUTSize/N)
	eqI("BlockSize", p.BlockSize(), l.BlockSize)
	eqI("BlockCount", p.BlockCount(), n/l.BlockSize)
	eqI("LogQ", p.LogQ(), w)
	r.Check(p.BootstrapOrder() == l.BootstrapOrder, "BootstrapOrder is %v", p.BootstrapOrder())
	r.Check(p.MessageModulus() == l.MessageModulus, "MessageModulus is %d", p.MessageModulus())
	r.Check(p.Scale() == divRoundQ(l.MessageModulus), "Scale is %d, want %d", p.Scale(), divRoundQ(l.MessageModulus))
	eqF("LWEStdDev", p.LWEStdDev(), l.LWEStdDev)
	eqF("GLWEStdDev", p.GLWEStdDev(), l.GLWEStdDev)
	eqF("LWEStdDevQ", p.LWEStdDevQ(), l.LWEStdDev*Q)
	eqF("GLWEStdDevQ", p.GLWEStdDevQ(), l.GLWEStdDev*Q)
	dn, ds, pub := n, l.LWEStdDev, false
	if l.BootstrapOrder == oKS {
		dn, ds, pub = k*N, l.GLWEStdDev, true
	}
	eqI("DefaultLWEDimension", p.DefaultLWEDimension(), dn)
	eqF("DefaultLWEStdDev", p.DefaultLWEStdDev(), ds)
	eqF("DefaultLWEStdDevQ", p.DefaultLWEStdDevQ(), ds*Q)
	r.Check(p.IsPublicKeyEncryptable() == pub, "IsPublicKeyEncryptable is %v", !pub)
	checkGadget(r, "BlindRotateParams", l.BlindRotateParams, p.BlindRotateParams())
	checkGadget(r, "KeySwitchParams", l.KeySwitchParams, p.KeySwitchParams())

	// error estimates, from the heuristic formulas
	bs, bc := float64(l.BlockSize), float64(n/l.BlockSize)
	h := bc * bs / (bs + 1)
	nf, kN := float64(n), float64(k*N)
	ms := (h + 1) / 12 * math.Pow(Q/(2*float64(l.LUTSize)), 2)
	B, lv := float64(l.BlindRotateParams.Base), float64(l.BlindRotateParams.Level)
	sg := l.GLWEStdDev * Q
	wt := h + (kN-nf)/2 + 1
	br := h*wt*Q*Q/(6*math.Pow(B, 2*lv)) + nf*lv*(kN+float64(N))*sg*sg*B*B/6 + nf*math.Exp2(-106.6)*float64(k+1)*wt*float64(N)*Q*Q*lv*B*B
	B, lv = float64(l.KeySwitchParams.Base), float64(l.KeySwitchParams.Level)
	sl := l.LWEStdDev * Q
	ks := (kN-nf)/2*Q*Q/(12*math.Pow(B, 2*lv)) + (kN-nf)*sl*sl*lv*B*B/12
	eqF("EstimateModSwitchStdDev", p.EstimateModSwitchStdDev(), math.Sqrt(ms))
	eqF("EstimateBlindRotateStdDev", p.EstimateBlindRotateStdDev(), math.Sqrt(br))
	eqF("EstimateDefaultKeySwitchStdDev", p.EstimateDefaultKeySwitchStdDev(), math.Sqrt(ks))
	eqF("EstimateMaxErrorStdDev", p.EstimateMaxErrorStdDev(), math.Sqrt(ms+br+ks))
	x := Q / (4 * float64(l.MessageModulus)) / math.Sqrt(2*(ms+br+ks))
	f, wantF := p.EstimateFailureProbability(), math.Erfc(x)
	r.Check(f == wantF || math.Abs(f-wantF) <= 1e-9*(1+x*x)*(f+wantF), "EstimateFailureProbability is %v, want %v", f, wantF)

	r.Check(p.Literal() == l, "turned back into %+v", p.Literal())
	r.Check(p.Literal().Compile() == p, "recompiling is not the identity")
	r.Obs("parameter sets", 1)
}

// checkShapes compares the sizes of freshly made objects with the parameters.
func checkShapes[T TI](r *R, l parLit[T], p tfhe.Parameters[T]) {
	n, k, N := p.DefaultLWEDimension(), l.GLWERank, l.PolyRank
	g := p.BlindRotateParams()
	eq := func(name string, got, want int) {
		r.Check(got == want, "%s has size %d, want %d", name, got, want)
		r.Obs("shapes", 1)
	}
	glwe := func(name string, ct tfhe.GLWECiphertext[T]) {
		eq(name, len(ct.Value), k+1)
		for _, v := range ct.Value {
			eq(name, len(v.Coeffs), N)
		}
	}
	fft := func(name string, ct tfhe.FFTGLWECiphertext[T]) {
		eq(name, len(ct.Value), k+1)
		for _, v := range ct.Value {
			eq(name, len(v.Coeffs), N)
		}
	}
	eq("LWECiphertext", len(tfhe.NewLWECiphertext(p).Value), n+1)
	eq("LWESecretKey", len(tfhe.NewLWESecretKey(p).Value), n)
	lev := tfhe.NewLevCiphertext(p, g)
	eq("LevCiphertext", len(lev.Value), g.Level())
	eq("LevCiphertext", len(lev.Value[g.Level()-1].Value), n+1)
	gsw := tfhe.NewGSWCiphertext(p, g)
	eq("GSWCiphertext", len(gsw.Value), n+1)
	eq("GSWCiphertext", len(gsw.Value[n].Value), g.Level())
	eq("GSWCiphertext", len(gsw.Value[n].Value[0].Value), n+1)
	r.Check(lev.GadgetParams == g && gsw.GadgetParams == g && gsw.Value[n].GadgetParams == g, "a new scalar ciphertext has another gadget")
	glwe("GLWECiphertext", tfhe.NewGLWECiphertext(p))
	glev := tfhe.NewGLevCiphertext(p, g)
	eq("GLevCiphertext", len(glev.Value), g.Level())
	glwe("GLevCiphertext", glev.Value[0])
	ggsw := tfhe.NewGGSWCiphertext(p, g)
	eq("GGSWCiphertext", len(ggsw.Value), k+1)
	eq("GGSWCiphertext", len(ggsw.Value[k].Value), g.Level())
	glwe("GGSWCiphertext", ggsw.Value[k].Value[0])
	r.Check(glev.GadgetParams == g && ggsw.GadgetParams == g && ggsw.Value[k].GadgetParams == g, "a new ring ciphertext has another gadget")
	fft("FFTGLWECiphertext", tfhe.NewFFTGLWECiphertext(p))
	flev := tfhe.NewFFTGLevCiphertext(p, g)
	eq("FFTGLevCiphertext", len(flev.Value), g.Level())
	fft("FFTGLevCiphertext", flev.Value[0])
	fgsw := tfhe.NewFFTGGSWCiphertext(p, g)
	eq("FFTGGSWCiphertext", len(fgsw.Value), k+1)
	eq("FFTGGSWCiphertext", len(fgsw.Value[k].Value), g.Level())
	fft("FFTGGSWCiphertext", fgsw.Value[k].Value[0])
	r.Check(flev.GadgetParams == g && fgsw.GadgetParams == g && fgsw.Value[k].GadgetParams == g, "a new Fourier ciphertext has another gadget")
	eq("GLWEPlaintext", len(tfhe.NewGLWEPlaintext(p).Value.Coeffs), N)
	sk := tfhe.NewSecretKey(p)
	eq("SecretKey.LWELargeKey", len(sk.LWELargeKey.Value), k*N)
	eq("SecretKey.LWEKey", len(sk.LWEKey.Value), l.LWEDimension)
	eq("SecretKey.GLWEKey", len(sk.GLWEKey.Value), k)
	eq("SecretKey.FFTGLWEKey", len(sk.FFTGLWEKey.Value), k)
	pp, _ := Panics(func() {
		pk := tfhe.NewPublicKey(p)
		eq("PublicKey.GLWEKey", len(pk.GLWEKey.Value), k)
		eq("PublicKey.LWEKey", len(pk.LWEKey.Value), k)
	})
	r.Check(pp == !p.IsPublicKeyEncryptable(), "making a public key: panic %v although IsPublicKeyEncryptable is %v", pp, p.IsPublicKeyEncryptable())
	brk := tfhe.NewBlindRotateKey(p)
	eq("BlindRotateKey", len(brk.Value), l.LWEDimension)
	r.Check(brk.GadgetParams == p.BlindRotateParams(), "a new bootstrapping key has another gadget")
	ksk := tfhe.NewKeySwitchKeyForBootstrap(p)
	eq("KeySwitchKeyForBootstrap", ksk.InputLWEDimension(), k*N-l.LWEDimension)
	r.Check(ksk.GadgetParams == p.KeySwitchParams(), "a new key switching key has another gadget")
	if len(ksk.Value) > 0 {
		eq("KeySwitchKeyForBootstrap", len(ksk.Value[0].Value), p.KeySwitchParams().Level())
		eq("KeySwitchKeyForBootstrap", len(ksk.Value[0].Value[0].Value), l.LWEDimension+1)
	}
	lk := tfhe.NewLWEKeySwitchKey(p, 3, g)
	eq("LWEKeySwitchKey", lk.InputLWEDimension(), 3)
	eq("LWEKeySwitchKey", len(lk.Value[2].Value[0].Value), n+1)
	gk := tfhe.NewGLWEKeySwitchKey(p, 2, g)
	eq("GLWEKeySwitchKey", gk.InputGLWERank(), 2)
	fft("GLWEKeySwitchKey", gk.Value[1].Value[0])
	lut := tfhe.NewLUT(p)
	eq("LookUpTable", len(lut.Value), p.LUTExtendFactor())
	for _, v := range lut.Value {
		eq("LookUpTable", len(v.Coeffs), N)
	}
}

func randStd(g *rand.Rand) float64 { return math.Exp2(-1 - 60*g.Float64()) }

func randGadLit[T TI](g *rand.Rand) gadLit[T] {
	b := 1 + g.IntN(logQ[T]()-1)
	return gadLit[T]{Base: T(1) << b, Level: 1 + g.IntN(logQ[T]()/b)}
}

// randLit draws a valid description, decodable or not.
func randLit[T TI](g *rand.Rand) parLit[T] {
	N, k := 16<<g.IntN(5), 1+g.IntN(4)
	bs := 1 + g.IntN(7)
	l := parLit[T]{GLWERank: k, PolyRank: N, BlockSize: bs, LWEDimension: bs * (1 + g.IntN(min(40, k*N/bs))), LUTSize: N * (1 + g.IntN(6)),
		LWEStdDev: randStd(g), GLWEStdDev: randStd(g), BlindRotateParams: randGadLit[T](g), KeySwitchParams: randGadLit[T](g)}
	switch g.IntN(3) {
	case 0:
		l.MessageModulus = T(1) << g.IntN(logQ[T]())
	case 1:
		l.MessageModulus = T(1 + g.IntN(300))
	default:
		l.MessageModulus = max(1, edgeT[T](g))
	}
	if g.IntN(4) == 0 {
		l.LUTSize = 0
	}
	if g.IntN(4) == 0 {
		l.BlockSize = 0
	}
	if g.IntN(6) == 0 {
		l.LWEDimension, l.BlockSize = k*N, 1<<g.IntN(4)
	}
	if g.IntN(2) == 0 {
		l.BootstrapOrder = oBR
	}
	return l
}

// spoilGadget moves a gadget to, or just over, an edge of the valid domain.
func spoilGadget[T TI](g *rand.Rand, l gadLit[T]) gadLit[T] {
	switch g.IntN(8) {
	case 0:
		l.Base = T(g.IntN(2))
	case 1:
		l.Base = T(3 + g.IntN(20))
	case 2:
		l.Base += 1 + T(g.IntN(2))
	case 3:
		l.Level = -g.IntN(3)
	case 4:
		l.Level = logQ[T]()/max(1, bitLen(l.Base)-1) + g.IntN(2)
	case 5:
		l.Base = T(1) << (logQ[T]() - 1)
		l.Level = 1 + g.IntN(2)
	case 6:
		l.Base, l.Level = 2, logQ[T]()-1+g.IntN(3)
	default:
		l.Level += g.IntN(5)
	}
	return l
}

func spoilLit[T TI](g *rand.Rand, l parLit[T]) parLit[T] {
	switch g.IntN(14) {
	case 0:
		l.LWEDimension = -g.IntN(3)
	case 1:
		l.LWEDimension = l.GLWERank*l.PolyRank + g.IntN(3) - 1
	case 2:
		l.GLWERank = -g.IntN(3)
	case 3:
		l.PolyRank = []int{0, -1, -16, 17, 24, 33, 48, 100, 1 << 12}[g.IntN(9)]
	case 4:
		l.LUTSize = l.PolyRank / 2
	case 5:
		l.LUTSize = l.PolyRank + []int{-1, 1, l.PolyRank / 2, l.PolyRank}[g.IntN(4)]
	case 6:
		l.LUTSize = -g.IntN(40)
	case 7:
		l.LWEStdDev = []float64{0, -1e-9, math.Copysign(0, -1), -1}[g.IntN(4)]
	case 8:
		l.GLWEStdDev = []float64{0, -1e-9, math.Copysign(0, -1), -1}[g.IntN(4)]
	case 9:
		l.BlockSize = -1 - g.IntN(3)
	case 10:
		l.BlockSize = 2 + g.IntN(20)
	case 11:
		l.BootstrapOrder = tfhe.BootstrapOrder(g.IntN(7) - 3)
	case 12:
		l.BlindRotateParams = spoilGadget(g, l.BlindRotateParams)
	default:
		l.KeySwitchParams = spoilGadget(g, l.KeySwitchParams)
	}
	return l
}

// verdict checks that compilation accepts exactly the valid descriptions.
func verdict(r *R, valid bool, compile func()) bool {
	p, val := Panics(compile)
	if valid {
		r.Obs("accepted", 1)
		return r.Check(!p, "a valid description is refused: %v", val)
	}
	r.Obs("refused", 1)
	r.Check(p, "an invalid description compiles")
	return false
}

func c22Params[T TI](r *R) {
	g := r.Rng
	for i := 0; i < r.Pick(40000, 60000); i++ {
		l := randGadLit[T](g)
		if i%2 == 1 {
			l = spoilGadget(g, l)
		}
		r.Case(fmt.Sprintf("gadget %d u%d %+v", i, logQ[T](), l), func() {
			if verdict(r, validGadget(l), func() { l.Compile() }) {
				checkGadget(r, "gadget", l, l.Compile())
			}
			b := edgeT[T](g)
			r.Check(l.WithBase(b) == (gadLit[T]{Base: b, Level: l.Level}), "WithBase gives %v", l.WithBase(b))
			r.Check(l.WithLevel(i) == (gadLit[T]{Base: l.Base, Level: i}), "WithLevel gives %v", l.WithLevel(i))
		})
	}
	for i := 0; i < r.Pick(70000, 120000); i++ {
		l := randLit[T](g)
		if i%2 == 1 {
			l = spoilLit(g, l)
		}
		if i%8 == 7 {
			l = spoilLit(g, l)
		}
		r.Case(fmt.Sprintf("params %d u%d %+v", i, logQ[T](), l), func() {
			if !verdict(r, validParams(l), func() { l.Compile() }) {
				return
			}
			p := l.Compile()
			checkParams(r, l, p)
			if i%20 == 0 {
				checkShapes(r, l, p)
			}
		})
		o := randLit[T](g)
		r.Case(fmt.Sprintf("setters %d u%d", i, logQ[T]()), func() {
			step := func(name string, got, want parLit[T]) {
				r.Check(got == want, "%s gives %+v, want %+v", name, got, want)
				r.Obs("setters", 1)
			}
			w := l
			w.LWEDimension = o.LWEDimension
			step("WithLWEDimension", l.WithLWEDimension(o.LWEDimension), w)
			w = l
			w.GLWERank = o.GLWERank
			step("WithGLWERank", l.WithGLWERank(o.GLWERank), w)
			w = l
			w.PolyRank = o.PolyRank
			step("WithPolyRank", l.WithPolyRank(o.PolyRank), w)
			w = l
			w.LUTSize = o.LUTSize
			step("WithLUTSize", l.WithLUTSize(o.LUTSize), w)
			w = l
			w.LWEStdDev = o.LWEStdDev
			step("WithLWEStdDev", l.WithLWEStdDev(o.LWEStdDev), w)
			w = l
			w.GLWEStdDev = o.GLWEStdDev
			step("WithGLWEStdDev", l.WithGLWEStdDev(o.GLWEStdDev), w)
			w = l
			w.BlockSize = o.BlockSize
			step("WithBlockSize", l.WithBlockSize(o.BlockSize), w)
			w = l
			w.MessageModulus = o.MessageModulus
			step("WithMessageModulus", l.WithMessageModulus(o.MessageModulus), w)
			w = l
			w.BlindRotateParams = o.BlindRotateParams
			step("WithBlindRotateParams", l.WithBlindRotateParams(o.BlindRotateParams), w)
			w = l
			w.KeySwitchParams = o.KeySwitchParams
			step("WithKeySwitchParams", l.WithKeySwitchParams(o.KeySwitchParams), w)
			w = l
			w.BootstrapOrder = o.BootstrapOrder
			step("WithBootstrapOrder", l.WithBootstrapOrder(o.BootstrapOrder), w)
		})
	}
}

type multiLit[T TI] = mktfhe.ParametersLiteral[T]

func validMulti[T TI](l multiLit[T]) bool {
	s := l.SubParams
	return validParams(s) && l.PartyCount > 0 && s.GLWERank == 1 && (s.LUTSize == 0 || s.LUTSize == s.PolyRank) &&
		validGadget(l.AccumulatorParams) && validGadget(l.RelinKeyParams)
}

func checkMulti[T TI](r *R, l multiLit[T], p mktfhe.Parameters[T]) {
	s := p.SubParams()
	checkParams(r, l.SubParams, s)
	P := l.PartyCount
	eqI := func(name string, got, want int) {
		r.Check(got == want, "%s is %d, want %d", name, got, want)
		r.Obs("accessors", 1)
	}
	eqI("PartyCount", p.PartyCount(), P)
	eqI("DefaultLWEDimension", p.DefaultLWEDimension(), P*s.DefaultLWEDimension())
	eqI("LWEDimension", p.LWEDimension(), P*s.LWEDimension())
	eqI("GLWERank", p.GLWERank(), P)
	eqI("GLWEDimension", p.GLWEDimension(), P*s.PolyRank())
	eqI("PolyRank", p.PolyRank(), s.PolyRank())
	eqI("LogPolyRank", p.LogPolyRank(), s.LogPolyRank())
	eqI("BlockSize", p.BlockSize(), s.BlockSize())
	eqI("BlockCount", p.BlockCount(), s.BlockCount())
	eqI("LogQ", p.LogQ(), s.LogQ())
	r.Check(p.Scale() == s.Scale() && p.MessageModulus() == s.MessageModulus() && p.BootstrapOrder() == s.BootstrapOrder(), "scale, modulus or order differ from the single-key ones")
	r.Check(p.DefaultLWEStdDev() == s.DefaultLWEStdDev() && p.DefaultLWEStdDevQ() == s.DefaultLWEStdDevQ() && p.LWEStdDev() == s.LWEStdDev() &&
		p.LWEStdDevQ() == s.LWEStdDevQ() && p.GLWEStdDev() == s.GLWEStdDev() && p.GLWEStdDevQ() == s.GLWEStdDevQ(), "standard deviations differ from the single-key ones")
	r.Check(p.BlindRotateParams() == s.BlindRotateParams() && p.KeySwitchParams() == s.KeySwitchParams(), "gadgets differ from the single-key ones")
	checkGadget(r, "AccumulatorParameters", l.AccumulatorParams, p.AccumulatorParameters())
	checkGadget(r, "RelinKeyParameters", l.RelinKeyParams, p.RelinKeyParameters())
	w := l
	if w.SubParams.LUTSize == 0 {
		w.SubParams.LUTSize = w.SubParams.PolyRank
	}
	w.SubParams.BlockSize = max(1, w.SubParams.BlockSize)
	r.Check(p.Literal() == w, "turned back into %+v", p.Literal())
	r.Check(p.Literal().Compile() == p, "recompiling is not the identity")
	r.Check(len(mktfhe.NewLWECiphertext(p).Value) == 1+P*s.DefaultLWEDimension(), "a new multi-key LWE ciphertext has %d entries", len(mktfhe.NewLWECiphertext(p).Value))
	ct, cf := mktfhe.NewGLWECiphertext(p), mktfhe.NewFFTGLWECiphertext(p)
	r.Check(len(ct.Value) == 1+P && len(ct.Value[P].Coeffs) == s.PolyRank() && len(cf.Value) == 1+P && len(cf.Value[P].Coeffs) == s.PolyRank(), "a new multi-key ring ciphertext has the wrong shape")
	u, uf := mktfhe.NewUniEncryption(p, p.AccumulatorParameters()), mktfhe.NewFFTUniEncryption(p, p.AccumulatorParameters())
	r.Check(len(u.Value) == 2 && len(u.Value[1].Value) == l.AccumulatorParams.Level && len(u.Value[1].Value[0].Value) == 2, "a new uni-encryption has the wrong shape")
	r.Check(len(uf.Value) == 2 && len(uf.Value[1].Value) == l.AccumulatorParams.Level && len(uf.Value[1].Value[0].Value) == 2, "a new Fourier uni-encryption has the wrong shape")
	r.Obs("multi-key parameter sets", 1)
}

func c22Multi[T TI](r *R) {
	g := r.Rng
	for i := 0; i < r.Pick(30000, 50000); i++ {
		l := multiLit[T]{SubParams: randLit[T](g), PartyCount: 1 + g.IntN(6), AccumulatorParams: randGadLit[T](g), RelinKeyParams: randGadLit[T](g)}
		s := &l.SubParams
		s.GLWERank = 1
		s.LWEDimension = max(1, s.BlockSize) * (1 + g.IntN(s.PolyRank/max(1, s.BlockSize)))
		s.LUTSize = s.PolyRank * g.IntN(2)
		if i%2 == 1 {
			switch g.IntN(6) {
			case 0:
				l.PartyCount = -g.IntN(3)
			case 1:
				s.GLWERank = 2 + g.IntN(2)
			case 2:
				s.LUTSize = s.PolyRank * (1 + g.IntN(3))
			case 3:
				l.AccumulatorParams = spoilGadget(g, l.AccumulatorParams)
			case 4:
				l.RelinKeyParams = spoilGadget(g, l.RelinKeyParams)
			default:
				l.SubParams = spoilLit(g, l.SubParams)
			}
		}
		r.Case(fmt.Sprintf("multi %d u%d %+v", i, logQ[T](), l), func() {
			if verdict(r, validMulti(l), func() { l.Compile() }) {
				checkMulti(r, l, l.Compile())
			}
			o := randLit[T](g)
			step := func(name string, got multiLit[T], set func(w *multiLit[T])) {
				w := l
				set(&w)
				r.Check(got == w, "%s gives %+v, want %+v", name, got, w)
				r.Obs("setters", 1)
			}
			step("WithPartyCount", l.WithPartyCount(i), func(w *multiLit[T]) { w.PartyCount = i })
			step("WithSingleKeyLWEDimension", l.WithSingleKeyLWEDimension(o.LWEDimension), func(w *multiLit[T]) { w.SubParams.LWEDimension = o.LWEDimension })
			step("WithPolyRank", l.WithPolyRank(o.PolyRank), func(w *multiLit[T]) { w.SubParams.PolyRank = o.PolyRank })
			step("WithLWEStdDev", l.WithLWEStdDev(o.LWEStdDev), func(w *multiLit[T]) { w.SubParams.LWEStdDev = o.LWEStdDev })
			step("WithGLWEStdDev", l.WithGLWEStdDev(o.GLWEStdDev), func(w *multiLit[T]) { w.SubParams.GLWEStdDev = o.GLWEStdDev })
			step("WithBlockSize", l.WithBlockSize(o.BlockSize), func(w *multiLit[T]) { w.SubParams.BlockSize = o.BlockSize })
			step("WithMessageModulus", l.WithMessageModulus(o.MessageModulus), func(w *multiLit[T]) { w.SubParams.MessageModulus = o.MessageModulus })
			step("WithBlindRotateParams", l.WithBlindRotateParams(o.BlindRotateParams), func(w *multiLit[T]) { w.SubParams.BlindRotateParams = o.BlindRotateParams })
			step("WithKeySwitchParams", l.WithKeySwitchParams(o.KeySwitchParams), func(w *multiLit[T]) { w.SubParams.KeySwitchParams = o.KeySwitchParams })
			step("WithAccumulatorParams", l.WithAccumulatorParams(o.KeySwitchParams), func(w *multiLit[T]) { w.AccumulatorParams = o.KeySwitchParams })
			step("WithRelinKeyParams", l.WithRelinKeyParams(o.KeySwitchParams), func(w *multiLit[T]) { w.RelinKeyParams = o.KeySwitchParams })
			step("WithBootstrapOrder", l.WithBootstrapOrder(o.BootstrapOrder), func(w *multiLit[T]) { w.SubParams.BootstrapOrder = o.BootstrapOrder })
		})
	}
}

// c22Ext: the parameter sets of the extension package.
func c22Ext[T TI](r *R) {
	g := r.Rng
	Q := math.Exp2(float64(logQ[T]()))
	base := func(i int) parLit[T] {
		l := randLit[T](g)
		if g.IntN(8) > 0 {
			l.LUTSize = l.PolyRank * g.IntN(2)
		}
		if i%4 == 3 {
			l = spoilLit(g, l)
		}
		return l
	}
	flat := func(l parLit[T]) bool { return l.LUTSize == 0 || l.LUTSize == l.PolyRank }
	for i := 0; i < r.Pick(18000, 30000); i++ {
		m := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: base(i), LUTCount: 1 << g.IntN(4)}
		if g.IntN(4) == 0 {
			m.LUTCount = []int{0, -1, -2, 3, 5, 6, 12, 15}[g.IntN(8)]
		}
		okM := validParams(m.BaseParams) && flat(m.BaseParams) && m.LUTCount > 0 && m.LUTCount&(m.LUTCount-1) == 0
		r.Case(fmt.Sprintf("many-table %d u%d %+v", i, logQ[T](), m), func() {
			if verdict(r, okM, func() { m.Compile() }) {
				p := m.Compile()
				checkParams(r, m.BaseParams, p.BaseParams())
				r.Check(p.LUTCount() == m.LUTCount && 1<<p.LogLUTCount() == m.LUTCount, "table count %d (log %d)", p.LUTCount(), p.LogLUTCount())
				r.Obs("extension sets", 1)
			}
		})
		c := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: m, SchemeSwitchParams: randGadLit[T](g), TraceKeySwitchParams: randGadLit[T](g), OutputParams: randGadLit[T](g)}
		switch g.IntN(6) {
		case 0:
			c.SchemeSwitchParams = spoilGadget(g, c.SchemeSwitchParams)
		case 1:
			c.TraceKeySwitchParams = spoilGadget(g, c.TraceKeySwitchParams)
		case 2:
			c.OutputParams = spoilGadget(g, c.OutputParams)
		}
		r.Case(fmt.Sprintf("circuit %d u%d %+v", i, logQ[T](), c), func() {
			if verdict(r, okM && validGadget(c.SchemeSwitchParams) && validGadget(c.TraceKeySwitchParams) && validGadget(c.OutputParams), func() { c.Compile() }) {
				p := c.Compile()
				r.Check(p.ManyLUTParams() == m.Compile() && p.BaseParams() == m.BaseParams.Compile(), "nested parameters differ")
				checkGadget(r, "SchemeSwitchParams", c.SchemeSwitchParams, p.SchemeSwitchParams())
				checkGadget(r, "TraceKeySwitchParams", c.TraceKeySwitchParams, p.TraceKeySwitchParams())
				checkGadget(r, "OutputParams", c.OutputParams, p.OutputParams())
				r.Obs("extension sets", 1)
			}
		})
		f := xtfhe.FHEWParametersLiteral[T]{BaseParams: base(i), SecretKeyStdDev: math.Exp2(float64(poly.ShortLogBound-logQ[T]()) - 4 - 20*g.Float64()), WindowSize: 1 + g.IntN(12)}
		if g.IntN(4) > 0 {
			f.BaseParams.BlockSize = g.IntN(2)
		}
		switch g.IntN(8) {
		case 0:
			f.SecretKeyStdDev = []float64{0, -1, -1e-6, math.Copysign(0, -1)}[g.IntN(4)]
		case 1:
			f.SecretKeyStdDev = math.Exp2(float64(poly.ShortLogBound-logQ[T]()) - math.Log2(xtfhe.GaussianTailCut) + []float64{-0.01, 0.01, 3}[g.IntN(3)])
		case 2:
			f.WindowSize = -g.IntN(4)
		}
		okF := validParams(f.BaseParams) && flat(f.BaseParams) && f.BaseParams.BlockSize <= 1 && f.SecretKeyStdDev > 0 && f.WindowSize > 0 &&
			f.SecretKeyStdDev*Q*xtfhe.GaussianTailCut <= math.Exp2(poly.ShortLogBound)
		r.Case(fmt.Sprintf("FHEW %d u%d %+v", i, logQ[T](), f), func() {
			if verdict(r, okF, func() { f.Compile() }) {
				p := f.Compile()
				checkParams(r, f.BaseParams, p.BaseParams())
				r.Check(p.SecretKeyStdDev() == f.SecretKeyStdDev && near(p.SecretKeyStdDevQ(), f.SecretKeyStdDev*Q) && p.WindowSize() == f.WindowSize, "key deviation %v (%v), window %d", p.SecretKeyStdDev(), p.SecretKeyStdDevQ(), p.WindowSize())
				r.Obs("extension sets", 1)
			}
		})
		s := xtfhe.SanitizationParametersLiteral[T]{BaseParams: base(i), RandSigma: randStd(g), RandTau: randStd(g), LinEvalSigma: randStd(g), LinEvalTau: randStd(g)}
		if g.IntN(4) > 0 && s.BaseParams.PolyRank > 0 {
			s.BaseParams.GLWERank, s.BaseParams.BootstrapOrder = 1, oKS
		}
		bad := -math.Abs(randStd(g)) * float64(g.IntN(2))
		switch g.IntN(8) {
		case 0:
			s.RandSigma = bad
		case 1:
			s.RandTau = bad
		case 2:
			s.LinEvalSigma = bad
		case 3:
			s.LinEvalTau = bad
		}
		okS := validParams(s.BaseParams) && flat(s.BaseParams) && s.BaseParams.GLWERank == 1 && s.BaseParams.BootstrapOrder == oKS &&
			s.RandSigma > 0 && s.RandTau > 0 && s.LinEvalSigma > 0 && s.LinEvalTau > 0
		r.Case(fmt.Sprintf("sanitization %d u%d %+v", i, logQ[T](), s), func() {
			if verdict(r, okS, func() { s.Compile() }) {
				p := s.Compile()
				checkParams(r, s.BaseParams, p.BaseParams())
				r.Check(p.RandSigma() == s.RandSigma && p.RandTau() == s.RandTau && p.LinEvalSigma() == s.LinEvalSigma && p.LinEvalTau() == s.LinEvalTau, "deviations differ")
				r.Check(near(p.RandSigmaQ(), s.RandSigma*Q) && near(p.RandTauQ(), s.RandTau*Q) && near(p.LinEvalSigmaQ(), s.LinEvalSigma*Q) && near(p.LinEvalTauQ(), s.LinEvalTau*Q), "scaled deviations differ")
				r.Obs("extension sets", 1)
			}
		})
	}
}

func c22Shipped(r *R) {
	one := func(name string, f func() float64, most float64) {
		r.Case("shipped "+name, func() {
			p := f()
			r.Check(p < most, "claims failure probability %v", p)
			r.Max("log2 failure probability", math.Log2(p))
			r.Obs("shipped sets", 1)
		})
	}
	est32 := func(l parLit[uint32]) func() float64 {
		return func() float64 {
			p := l.Compile()
			checkParams(r, l, p)
			checkShapes(r, l, p)
			return p.EstimateFailureProbability()
		}
	}
	est64 := func(l parLit[uint64]) func() float64 {
		return func() float64 {
			p := l.Compile()
			checkParams(r, l, p)
			checkShapes(r, l, p)
			return p.EstimateFailureProbability()
		}
	}
	for _, c := range shipped32() {
		one(c.Name, est32(c.Lit), math.Exp2(-60))
	}
	for _, c := range shipped64() {
		one(c.Name, est64(c.Lit), math.Exp2(-60))
	}
	for _, c := range shippedMulti() {
		one(c.Name, func() float64 { checkMulti(r, c.Lit, c.Lit.Compile()); return est64(c.Lit.SubParams)() }, math.Exp2(-60))
	}
	for i, l := range []xtfhe.ManyLUTParametersLiteral[uint32]{xtfhe.ParamsBinaryLUT2, xtfhe.ParamsBinaryCompactLUT2} {
		one(fmt.Sprintf("many-table 32 #%d", i), func() float64 { l.Compile(); return est32(l.BaseParams)() }, math.Exp2(-30))
	}
	for i, l := range []xtfhe.ManyLUTParametersLiteral[uint64]{xtfhe.ParamsUint2LUT4, xtfhe.ParamsUint3LUT2} {
		one(fmt.Sprintf("many-table 64 #%d", i), func() float64 { l.Compile(); return est64(l.BaseParams)() }, math.Exp2(-30))
	}
	for i, l := range []xtfhe.CircuitBootstrapParametersLiteral[uint64]{xtfhe.ParamsCircuitBootstrapMedium, xtfhe.ParamsCircuitBootstrapLarge} {
		one(fmt.Sprintf("circuit #%d", i), func() float64 { l.Compile(); return est64(l.ManyLUTParams.BaseParams)() }, math.Exp2(-30))
	}
	one("FHEW", func() float64 { xtfhe.ParamsFHEWBinary.Compile(); return est64(xtfhe.ParamsFHEWBinary.BaseParams)() }, math.Exp2(-30))
	one("sanitization", func() float64 {
		xtfhe.ParamsSanitizeBinary.Compile()
		return est64(xtfhe.ParamsSanitizeBinary.BaseParams)()
	}, math.Exp2(-30))
	one("BFV gadget", func() float64 {
		checkGadget(r, "BFV", xtfhe.ParamsBFVKeySwitchLogN11, xtfhe.ParamsBFVKeySwitchLogN11.Compile())
		return 0
	}, 1)
	r.Check(oKS.String() == "OrderKeySwitchBlindRotate" && oBR.String() == "OrderBlindRotateKeySwitch", "names of the orders: %v %v", oKS, oBR)
}

func init() {
	about("C22", "Cases: random descriptions of gadgets and parameter sets of all packages, half of them moved to or just over an edge of the valid domain, judged by an independent statement of the documented constraints; every accessor, error estimate and constructor shape is compared with a recomputation; setters change one field; all shipped sets.",
		"a description must compile exactly when the documented constraints hold", "message modulus zero, NaN deviations and levels near the integer limit are outside the domain")
	needObs("C22", "accepted", 8000)
	needObs("C22", "refused", 6000)
	needObs("C22", "accessors", 100000)
	needObs("C22", "setters", 100000)
	needObs("C22", "extension sets", 4000)
	needObs("C22", "multi-key parameter sets", 2000)
	needObs("C22", "shipped sets", 20)
	reg("C22", "params32", vAvx, vAll, func(r *R) { c22Params[uint32](r) })
	reg("C22", "params64", vAvx, vAll, func(r *R) { c22Params[uint64](r) })
	reg("C22", "multi32", vAvx, vTwo, func(r *R) { c22Multi[uint32](r) })
	reg("C22", "multi64", vAvx, vTwo, func(r *R) { c22Multi[uint64](r) })
	reg("C22", "ext32", vAvx, vTwo, func(r *R) { c22Ext[uint32](r) })
	reg("C22", "ext64", vAvx, vTwo, func(r *R) { c22Ext[uint64](r) })
	reg("C22", "shipped", vAvx, vTwo, c22Shipped)
}
