From 0290c89f39d7997a7f9e32fab59a2c52271d50fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 01/23] fix: rotate by the ciphertext body correctly in
 extended blind rotation

The initial rotation of blindRotateExtendedTo distributed the components of the
look-up table in the wrong direction when the body was not a multiple of the
extend factor, displacing the accumulator by up to twice that factor.
---
 tfhe/bootstrap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 16975b2..6686ec9 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -70,10 +70,10 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 	b2NMono, b2NIdx := b2N/e.Params.lutExtendFactor, b2N%e.Params.lutExtendFactor
 
 	for i, ii := 0, e.Params.lutExtendFactor-b2NIdx; i < b2NIdx; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono+1)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono+1)
 	}
 	for i, ii := b2NIdx, 0; i < e.Params.lutExtendFactor; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono)
 	}
 
 	for i := 0; i < e.Params.lutExtendFactor; i++ {
-- 
2.43.0


From d2abcbb218b8510b779df8b3033544c402489fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:19 +0000
Subject: [PATCH 02/23] fix: extended blind rotation with a single block

When the block size equals the LWE dimension, the first and the last block
coincide, so the block was applied twice.
---
 tfhe/bootstrap.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 6686ec9..f811621 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -147,6 +147,13 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 		}
 	}
 
+	if e.Params.blockCount == 1 {
+		for k := 0; k < e.Params.glweRank+1; k++ {
+			ctOut.Value[k].CopyFrom(e.buf.ctAcc[0].Value[k])
+		}
+		return
+	}
+
 	for i := 1; i < e.Params.blockCount-1; i++ {
 		for j := 0; j < e.Params.lutExtendFactor; j++ {
 			for k := 0; k < e.Params.glweRank+1; k++ {
-- 
2.43.0


From 340e7185b80168c0bae81b792106c51f08d8c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 03/23] fix: ModInverse for unsigned types

The Bezout coefficients were accumulated in T without reduction, so they wrapped
around for unsigned types.
---
 math/num/num.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index cf32f58..4a11393 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -226,23 +226,30 @@ func ModInverse[T Integer](x, m T) T {
 		x += m
 	}
 
-	a, b := x, m
-	u, v := T(1), T(0)
+	a, b := uint64(x), uint64(m)
+	u, v := uint64(1), uint64(0)
 	for b != 0 {
 		q := a / b
 		a, b = b, a-q*b
-		u, v = v, u-q*v
+
+		qv := modMul(q, v, uint64(m))
+		if u < qv {
+			u += uint64(m)
+		}
+		u, v = v, u-qv
 	}
 
 	if a != 1 {
 		panic("modular inverse does not exist")
 	}
 
-	u %= m
-	if u < 0 {
-		u += m
-	}
-	return u
+	return T(u % uint64(m))
+}
+
+// modMul returns x*y mod m.
+func modMul(x, y, m uint64) uint64 {
+	hi, lo := bits.Mul64(x, y)
+	return bits.Rem64(hi, lo, m)
 }
 
 // ModExp returns x^y mod m.
-- 
2.43.0


From f8212acd99ed22aab93a039514b038cca51c78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 04/23] fix: ModExp for large moduli and modulus one

Products of residues overflowed T, x^0 mod 1 was 1, and the most negative
exponent was ignored.
---
 math/num/num.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index 4a11393..fffaecc 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -263,12 +263,10 @@ func ModExp[T Integer](x, y, m T) T {
 		panic("modulus not positive")
 	}
 
-	switch {
-	case y < 0:
+	e := uint64(y)
+	if y < 0 {
 		x = ModInverse(x, m)
-		y = -y
-	case y == 0:
-		return 1
+		e = -e
 	}
 
 	x %= m
@@ -276,17 +274,13 @@ func ModExp[T Integer](x, y, m T) T {
 		x += m
 	}
 
-	res := T(1)
-	for y > 0 {
-		if y&1 == 1 {
-			res = (res * x) % m
+	base, res := uint64(x), 1%uint64(m)
+	for ; e > 0; e >>= 1 {
+		if e&1 == 1 {
+			res = modMul(res, base, uint64(m))
 		}
-		x = (x * x) % m
-		y >>= 1
+		base = modMul(base, base, uint64(m))
 	}
 
-	if res < 0 {
-		res += m
-	}
-	return res
+	return T(res)
 }
-- 
2.43.0


From 3a5db63ae1fab7fab248b3c580adf06a52b8c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 05/23] fix: DivRound beyond 53 bits

The quotient was computed in float64, which is inexact for large operands.
---
 math/num/num.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/math/num/num.go b/math/num/num.go
index fffaecc..d06e349 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -126,7 +126,25 @@ func Log2[T Integer](x T) int {
 
 // DivRound returns round(x/y).
 func DivRound[T Integer](x, y T) T {
-	return T(math.Round(float64(x) / float64(y)))
+	q, r := x/y, x%y
+
+	// Round half away from zero.
+	absR, absY := uint64(r), uint64(y)
+	if r < 0 {
+		absR = -absR
+	}
+	if y < 0 {
+		absY = -absY
+	}
+	if absR >= absY-absR {
+		if (x < 0) == (y < 0) {
+			q++
+		} else {
+			q--
+		}
+	}
+
+	return q
 }
 
 // DivRoundBits is a bit-optimzed version of RoundRatio: it returns round(x/2^bits).
-- 
2.43.0


From 2ddc0f561c2832075f9fcda893cf0d924166a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 06/23] fix: reduce negative and large messages for any message
 modulus

Converting the message to T before the reduction is only correct when Q is a
multiple of the message modulus.
---
 mktfhe/fft_glwe_enc.go |  2 +-
 mktfhe/glwe_enc.go     |  2 +-
 tfhe/encoder.go        | 12 ++++++------
 tfhe/fft_glwe_enc.go   |  4 ++--
 tfhe/glwe_enc.go       |  6 +++---
 tfhe/lwe_enc.go        |  8 ++++----
 6 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/mktfhe/fft_glwe_enc.go b/mktfhe/fft_glwe_enc.go
index 298dc37..68bb343 100644
--- a/mktfhe/fft_glwe_enc.go
+++ b/mktfhe/fft_glwe_enc.go
@@ -18,7 +18,7 @@ func (e *Encryptor[T]) FFTUniEncrypt(messages []int, gadgetParams tfhe.GadgetPar
 func (e *Encryptor[T]) FFTUniEncryptTo(ctOut FFTUniEncryption[T], messages []int, gadgetParams tfhe.GadgetParameters[T]) {
 	length := num.Min(e.Params.PolyRank(), len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.MessageModulus()
+		e.buf.ptGLWE.Value.Coeffs[i] = e.EncodeLWECustom(messages[i], e.Params.MessageModulus(), 1).Value
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/mktfhe/glwe_enc.go b/mktfhe/glwe_enc.go
index 6186f5a..4d1df9c 100644
--- a/mktfhe/glwe_enc.go
+++ b/mktfhe/glwe_enc.go
@@ -18,7 +18,7 @@ func (e *Encryptor[T]) UniEncrypt(messages []int, gadgetParams tfhe.GadgetParame
 func (e *Encryptor[T]) UniEncryptTo(ctOut UniEncryption[T], messages []int, gadgetParams tfhe.GadgetParameters[T]) {
 	length := num.Min(e.Params.PolyRank(), len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.MessageModulus()
+		e.buf.ptGLWE.Value.Coeffs[i] = e.EncodeLWECustom(messages[i], e.Params.MessageModulus(), 1).Value
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/tfhe/encoder.go b/tfhe/encoder.go
index 13d6aa1..3ffb12b 100644
--- a/tfhe/encoder.go
+++ b/tfhe/encoder.go
@@ -37,7 +37,11 @@ func (e *Encoder[T]) EncodeLWE(message int) LWEPlaintext[T] {
 func (e *Encoder[T]) EncodeLWECustom(message int, messageModulus, scale T) LWEPlaintext[T] {
 	encoded := T(message)
 	if messageModulus != 0 {
-		encoded %= messageModulus
+		// Reduce before converting to T, since Q may not be a multiple of messageModulus.
+		encoded = T(uint64(num.Abs(message)) % uint64(messageModulus))
+		if message < 0 && encoded != 0 {
+			encoded = messageModulus - encoded
+		}
 	}
 	return LWEPlaintext[T]{Value: encoded * scale}
 }
@@ -101,11 +105,7 @@ func (e *Encoder[T]) EncodeGLWECustom(messages []int, messageModulus, scale T) G
 func (e *Encoder[T]) EncodeGLWECustomTo(ptOut GLWEPlaintext[T], messages []int, messageModulus, scale T) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		ptOut.Value.Coeffs[i] = T(messages[i])
-		if messageModulus != 0 {
-			ptOut.Value.Coeffs[i] %= messageModulus
-		}
-		ptOut.Value.Coeffs[i] *= scale
+		ptOut.Value.Coeffs[i] = e.EncodeLWECustom(messages[i], messageModulus, scale).Value
 	}
 	vec.Fill(ptOut.Value.Coeffs[length:], 0)
 }
diff --git a/tfhe/fft_glwe_enc.go b/tfhe/fft_glwe_enc.go
index cbdabeb..6093741 100644
--- a/tfhe/fft_glwe_enc.go
+++ b/tfhe/fft_glwe_enc.go
@@ -63,7 +63,7 @@ func (e *Encryptor[T]) EncryptFFTGLev(messages []int, gadgetParams GadgetParamet
 func (e *Encryptor[T]) EncryptFFTGLevTo(ctOut FFTGLevCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = e.EncodeLWECustom(messages[i], e.Params.messageModulus, 1).Value
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -129,7 +129,7 @@ func (e *Encryptor[T]) EncryptFFTGGSW(messages []int, gadgetParams GadgetParamet
 func (e *Encryptor[T]) EncryptFFTGGSWTo(ctOut FFTGGSWCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = e.EncodeLWECustom(messages[i], e.Params.messageModulus, 1).Value
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/tfhe/glwe_enc.go b/tfhe/glwe_enc.go
index 87fc490..a3ab3b8 100644
--- a/tfhe/glwe_enc.go
+++ b/tfhe/glwe_enc.go
@@ -81,7 +81,7 @@ func (e *Encryptor[T]) EncryptGLev(messages []int, gadgetParams GadgetParameters
 func (e *Encryptor[T]) EncryptGLevTo(ctOut GLevCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = e.EncodeLWECustom(messages[i], e.Params.messageModulus, 1).Value
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -139,7 +139,7 @@ func (e *Encryptor[T]) DecryptGLevPolyTo(pOut poly.Poly[T], ct GLevCiphertext[T]
 func (e *Encryptor[T]) EncryptGGSW(messages []int, gadgetParams GadgetParameters[T]) GGSWCiphertext[T] {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = e.EncodeLWECustom(messages[i], e.Params.messageModulus, 1).Value
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -150,7 +150,7 @@ func (e *Encryptor[T]) EncryptGGSW(messages []int, gadgetParams GadgetParameters
 func (e *Encryptor[T]) EncryptGGSWTo(ctOut GGSWCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = e.EncodeLWECustom(messages[i], e.Params.messageModulus, 1).Value
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/tfhe/lwe_enc.go b/tfhe/lwe_enc.go
index d999dc7..0546b09 100644
--- a/tfhe/lwe_enc.go
+++ b/tfhe/lwe_enc.go
@@ -49,12 +49,12 @@ func (e *Encryptor[T]) DecryptLWEPhase(ct LWECiphertext[T]) LWEPlaintext[T] {
 
 // EncryptLev encrypts integer message to Lev ciphertext.
 func (e *Encryptor[T]) EncryptLev(message int, gadgetParams GadgetParameters[T]) LevCiphertext[T] {
-	return e.EncryptLevScalar(T(message)%e.Params.messageModulus, gadgetParams)
+	return e.EncryptLevScalar(e.EncodeLWECustom(message, e.Params.messageModulus, 1).Value, gadgetParams)
 }
 
 // EncryptLevTo encrypts integer message to Lev ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptLevTo(ctOut LevCiphertext[T], message int) {
-	e.EncryptLevScalarTo(ctOut, T(message)%e.Params.messageModulus)
+	e.EncryptLevScalarTo(ctOut, e.EncodeLWECustom(message, e.Params.messageModulus, 1).Value)
 }
 
 // EncryptLevScalar encrypts scalar to Lev ciphertext.
@@ -85,12 +85,12 @@ func (e *Encryptor[T]) DecryptLevScalar(ct LevCiphertext[T]) T {
 
 // EncryptGSW encrypts integer message to GSW ciphertext.
 func (e *Encryptor[T]) EncryptGSW(message int, gadgetParams GadgetParameters[T]) GSWCiphertext[T] {
-	return e.EncryptGSWScalar(T(message)%e.Params.messageModulus, gadgetParams)
+	return e.EncryptGSWScalar(e.EncodeLWECustom(message, e.Params.messageModulus, 1).Value, gadgetParams)
 }
 
 // EncryptGSWTo encrypts integer message to GSW ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptGSWTo(ctOut GSWCiphertext[T], message int) {
-	e.EncryptGSWScalarTo(ctOut, T(message)%e.Params.messageModulus)
+	e.EncryptGSWScalarTo(ctOut, e.EncodeLWECustom(message, e.Params.messageModulus, 1).Value)
 }
 
 // EncryptGSWScalar encrypts scalar to GSW ciphertext.
-- 
2.43.0


From 6c146a2ee45c1abb3a3e735f92165f9261f92bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 07/23] fix: decode with the automatic message modulus when
 scale is small

round(Q / scale) was computed in float64 and converted to T, which overflows for
scale = 1 and is inexact for other small scales.
---
 tfhe/encoder.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tfhe/encoder.go b/tfhe/encoder.go
index 3ffb12b..feeb92c 100644
--- a/tfhe/encoder.go
+++ b/tfhe/encoder.go
@@ -1,8 +1,6 @@
 package tfhe
 
 import (
-	"math"
-
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/vec"
 )
@@ -59,7 +57,12 @@ func (e *Encoder[T]) DecodeLWE(pt LWEPlaintext[T]) int {
 func (e *Encoder[T]) DecodeLWECustom(pt LWEPlaintext[T], messageModulus, scale T) int {
 	decoded := num.DivRound(pt.Value, scale)
 	if messageModulus == 0 {
-		messageModulus = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
+		if scale == 1 {
+			// The modulus is Q, so decoded is already reduced.
+			return int(decoded)
+		}
+		// This is round((Q - scale) / scale) + 1, where Q itself is not representable.
+		messageModulus = num.DivRound(-scale, scale) + 1
 	}
 	return int(decoded % messageModulus)
 }
@@ -148,10 +151,6 @@ func (e *Encoder[T]) DecodeGLWECustom(pt GLWEPlaintext[T], messageModulus, scale
 func (e *Encoder[T]) DecodeGLWECustomTo(messagesOut []int, pt GLWEPlaintext[T], messageModulus, scale T) {
 	length := num.Min(e.Params.polyRank, len(messagesOut))
 	for i := 0; i < length; i++ {
-		decoded := num.DivRound(pt.Value.Coeffs[i], scale)
-		if messageModulus == 0 {
-			messageModulus = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
-		}
-		messagesOut[i] = int(decoded % messageModulus)
+		messagesOut[i] = e.DecodeLWECustom(LWEPlaintext[T]{Value: pt.Value.Coeffs[i]}, messageModulus, scale)
 	}
 }
-- 
2.43.0


From f37b5b20b29c7358a547eaba4f0c8d7974a082d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 08/23] fix: vector arithmetic on empty vectors

The portable implementations took the address of the first element of empty
vectors, which panics, while the AVX2 implementations accept them.
---
 math/vec/asm_vec.go       | 32 ++++++++++++++++++++++++++++++++
 math/vec/asm_vec_amd64.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)

diff --git a/math/vec/asm_vec.go b/math/vec/asm_vec.go
index e8dce95..a9cdabe 100644
--- a/math/vec/asm_vec.go
+++ b/math/vec/asm_vec.go
@@ -12,6 +12,10 @@ import (
 func AddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -44,6 +48,10 @@ func AddTo[T num.Number](vOut, v0, v1 []T) {
 func SubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -76,6 +84,10 @@ func SubTo[T num.Number](vOut, v0, v1 []T) {
 func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -106,6 +118,10 @@ func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -136,6 +152,10 @@ func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -166,6 +186,10 @@ func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 func MulTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -198,6 +222,10 @@ func MulTo[T num.Number](vOut, v0, v1 []T) {
 func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -230,6 +258,10 @@ func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 func MulSubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
diff --git a/math/vec/asm_vec_amd64.go b/math/vec/asm_vec_amd64.go
index 16c79e9..e5916e5 100644
--- a/math/vec/asm_vec_amd64.go
+++ b/math/vec/asm_vec_amd64.go
@@ -34,6 +34,10 @@ func AddTo[T num.Number](vOut, v0, v1 []T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -87,6 +91,10 @@ func SubTo[T num.Number](vOut, v0, v1 []T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -140,6 +148,10 @@ func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -191,6 +203,10 @@ func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -242,6 +258,10 @@ func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -293,6 +313,10 @@ func MulTo[T num.Number](vOut, v0, v1 []T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -346,6 +370,10 @@ func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
@@ -399,6 +427,10 @@ func MulSubTo[T num.Number](vOut, v0, v1 []T) {
 		}
 	}
 
+	if len(vOut) == 0 {
+		return
+	}
+
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
 
-- 
2.43.0


From d7fd1593cfb34fd138d18667ccd0b87cfcdcee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 09/23] fix: count the value bytes in LWESecretKey.ReadFrom

---
 tfhe/lwe_marshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfhe/lwe_marshal.go b/tfhe/lwe_marshal.go
index f1dc101..ffe96a3 100644
--- a/tfhe/lwe_marshal.go
+++ b/tfhe/lwe_marshal.go
@@ -209,6 +209,7 @@ func (sk *LWESecretKey[T]) ReadFrom(r io.Reader) (n int64, err error) {
 	if nRead, err = sk.valueReadFrom(r); err != nil {
 		return n + nRead, err
 	}
+	n += nRead
 
 	return
 }
-- 
2.43.0


From cc9c8e0323c38e7fa79239b62d1aa95779955c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 10/23] fix: multi-key decryptor for any subset of parties

SubDecryptors and SecretKeys are indexed by party, but were allocated with the
number of given keys, so that decryptors for a strict subset of the parties
panicked, as did AddSecretKey.
---
 mktfhe/decryptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index 4d04a9b..f02a7b9 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -53,8 +53,8 @@ type decryptorBuffer[T tfhe.TorusInt] struct {
 // NewDecryptor creates a new [Decryptor].
 // Only indices between 0 and params.PartyCount is valid for sk.
 func NewDecryptor[T tfhe.TorusInt](params Parameters[T], sk map[int]tfhe.SecretKey[T]) *Decryptor[T] {
-	subEncs := make([]*tfhe.Encryptor[T], len(sk))
-	subKeys := make([]tfhe.SecretKey[T], len(sk))
+	subEncs := make([]*tfhe.Encryptor[T], params.PartyCount())
+	subKeys := make([]tfhe.SecretKey[T], params.PartyCount())
 	partyBitMap := make([]bool, params.PartyCount())
 	for i := range sk {
 		subEncs[i] = tfhe.NewEncryptorWithKey(params.subParams, sk[i])
-- 
2.43.0


From 58d179986dfeecdb4bba0b103f7e7affe0c428ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 11/23] fix: do not share buffers between safe copies of the
 multi-key decryptor

---
 mktfhe/decryptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index f02a7b9..6057692 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -114,7 +114,7 @@ func (d *Decryptor[T]) SafeCopy() *Decryptor[T] {
 
 		SecretKeys: vec.Copy(d.SecretKeys),
 
-		buf: d.buf,
+		buf: newDecryptorBuffer(d.Params),
 	}
 }
 
-- 
2.43.0


From 84a80901c9e618464dd132ebb5c0bef1c6940490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 12/23] fix: subtract the whole external product in multi-key
 ExternalProdSubGLWETo

The part of the product that does not pass through the relinearization key was
added instead of subtracted.
---
 mktfhe/product.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/product.go b/mktfhe/product.go
index 7b43079..d10e4f0 100644
--- a/mktfhe/product.go
+++ b/mktfhe/product.go
@@ -252,10 +252,10 @@ func (e *Evaluator[T]) ExternalProdSubGLWETo(idx int, ctFFTGLev tfhe.FFTGLevCiph
 
 	e.HybridProdSubGLWETo(idx, e.EvalKey[idx].RelinKey, e.buf.ctRelin, ctGLWEOut)
 
-	eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
+	eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
 	for i, ok := range e.PartyBitMap {
 		if ok {
-			eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
+			eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
 		}
 	}
 }
-- 
2.43.0


From a4d9db502ed031a03207695a755fcb56c9984388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 13/23] fix: reject the party index PartyCount in multi-key
 encryptors

Valid indices are smaller than PartyCount; the encryptor was created and then
panicked when encrypting.
---
 mktfhe/encryptor.go        | 10 +++++-----
 mktfhe/encryptor_public.go |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mktfhe/encryptor.go b/mktfhe/encryptor.go
index c3b8a08..b309a94 100644
--- a/mktfhe/encryptor.go
+++ b/mktfhe/encryptor.go
@@ -50,8 +50,8 @@ type encryptorBuffer[T tfhe.TorusInt] struct {
 
 // NewEncryptor creates a new [Encryptor].
 func NewEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte) *Encryptor[T] {
-	if idx > params.partyCount {
-		panic("index larger than PartyCount")
+	if idx >= params.partyCount {
+		panic("index not smaller than PartyCount")
 	}
 
 	s := csprng.NewUniformSamplerWithSeed[T](crsSeed)
@@ -81,10 +81,10 @@ func NewEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte
 
 // NewEncryptorWithKey creates a new [Encryptor] with a given key.
 //
-// Panics if the index is larger than PartyCount.
+// Panics if the index is not smaller than PartyCount.
 func NewEncryptorWithKey[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte, sk tfhe.SecretKey[T]) *Encryptor[T] {
-	if idx > params.partyCount {
-		panic("index larger than PartyCount")
+	if idx >= params.partyCount {
+		panic("index not smaller than PartyCount")
 	}
 
 	s := csprng.NewUniformSamplerWithSeed[T](crsSeed)
diff --git a/mktfhe/encryptor_public.go b/mktfhe/encryptor_public.go
index 4f54509..cbe255f 100644
--- a/mktfhe/encryptor_public.go
+++ b/mktfhe/encryptor_public.go
@@ -39,8 +39,8 @@ type publicEncryptorBuffer[T tfhe.TorusInt] struct {
 
 // NewPublicEncryptor creates a new [PublicEncryptor].
 func NewPublicEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, publicKey tfhe.PublicKey[T]) *PublicEncryptor[T] {
-	if idx > params.partyCount {
-		panic("index larger than PartyCount")
+	if idx >= params.partyCount {
+		panic("index not smaller than PartyCount")
 	}
 
 	return &PublicEncryptor[T]{
-- 
2.43.0


From fbc9964b4f3d4ab532b14f1c41e6701b7d2cd418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 14/23] fix: reduce the decrypted uni-encryption by the gadget
 base

A zero coefficient with negative noise decrypted to the base itself, as GLev
decryption already handles.
---
 mktfhe/fft_glwe_enc.go | 2 +-
 mktfhe/glwe_enc.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/fft_glwe_enc.go b/mktfhe/fft_glwe_enc.go
index 68bb343..8e90db6 100644
--- a/mktfhe/fft_glwe_enc.go
+++ b/mktfhe/fft_glwe_enc.go
@@ -87,6 +87,6 @@ func (e *Encryptor[T]) FFTUniDecryptPolyTo(pOut poly.Poly[T], ct FFTUniEncryptio
 	pOut.CopyFrom(e.buf.ctSubGLWE.Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, e.buf.ctSubGLWE.Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
diff --git a/mktfhe/glwe_enc.go b/mktfhe/glwe_enc.go
index 4d1df9c..2ba5372 100644
--- a/mktfhe/glwe_enc.go
+++ b/mktfhe/glwe_enc.go
@@ -83,6 +83,6 @@ func (e *Encryptor[T]) UniDecryptPolyTo(pOut poly.Poly[T], ct UniEncryption[T])
 	pOut.CopyFrom(ct.Value[0].Value[0].Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, ct.Value[0].Value[0].Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
-- 
2.43.0


From 5ec9e62e834798345bba62da398f9ea4587b28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 15/23] fix: centre the decision regions of multi-key XOR and
 XNOR

The phases of 2 * (ct0 + ct1) are 0 and 1/2, so that they have to be shifted by
1/4 as in the single-key gates. With 1/8, half of the noise margin was lost.
---
 mktfhe/binary_evaluator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mktfhe/binary_evaluator.go b/mktfhe/binary_evaluator.go
index c313063..f62aee7 100644
--- a/mktfhe/binary_evaluator.go
+++ b/mktfhe/binary_evaluator.go
@@ -224,7 +224,7 @@ func (e *BinaryEvaluator[T]) XORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -243,7 +243,7 @@ func (e *BinaryEvaluator[T]) XORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
@@ -262,7 +262,7 @@ func (e *BinaryEvaluator[T]) XNORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -281,7 +281,7 @@ func (e *BinaryEvaluator[T]) XNORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
-- 
2.43.0


From 942af8bf3989c314d5ca90e2a06e23812b5690c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 16/23] fix: use the arguments of BFV TensorTo and
 RelinearizeTo

Both operated on the internal tensor buffer only, so that the output of TensorTo
was never written and RelinearizeTo ignored its input.
---
 xtfhe/bfv_evaluator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xtfhe/bfv_evaluator.go b/xtfhe/bfv_evaluator.go
index 24a8050..ee298ca 100644
--- a/xtfhe/bfv_evaluator.go
+++ b/xtfhe/bfv_evaluator.go
@@ -106,7 +106,7 @@ func (e *BFVEvaluator[T]) TensorTo(ctOut, ct0, ct1 tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < tensorRank+1; i++ {
 		e.PolyEvaluator.FloatMulFFTPolyTo(e.buf.ctFFTTensor.Value[i], e.buf.ctFFTTensor.Value[i], 1/float64(e.Params.Scale()))
-		e.PolyEvaluator.InvFFTToUnsafe(e.buf.ctTensor.Value[i], e.buf.ctFFTTensor.Value[i])
+		e.PolyEvaluator.InvFFTToUnsafe(ctOut.Value[i], e.buf.ctFFTTensor.Value[i])
 	}
 }
 
@@ -123,10 +123,10 @@ func (e *BFVEvaluator[T]) Relinearize(ct tfhe.GLWECiphertext[T]) tfhe.GLWECipher
 func (e *BFVEvaluator[T]) RelinearizeTo(ctOut, ct tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < e.Params.GLWERank()+1; i++ {
-		ctOut.Value[i].CopyFrom(e.buf.ctTensor.Value[i])
+		ctOut.Value[i].CopyFrom(ct.Value[i])
 	}
 	for i, ii := e.Params.GLWERank()+1, 0; i < tensorRank+1; i, ii = i+1, ii+1 {
-		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], e.buf.ctTensor.Value[i])
+		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], ct.Value[i])
 	}
 }
 
-- 
2.43.0


From 93df7b440a12f6e2913a2fa50bb510ef3b1b8140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 17/23] fix: copy the gadget parameters of uni-encryptions

---
 mktfhe/fft_glwe.go | 1 +
 mktfhe/glwe.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mktfhe/fft_glwe.go b/mktfhe/fft_glwe.go
index ffe7f6f..0493999 100644
--- a/mktfhe/fft_glwe.go
+++ b/mktfhe/fft_glwe.go
@@ -110,6 +110,7 @@ func (ct *FFTUniEncryption[T]) CopyFrom(ctIn FFTUniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
diff --git a/mktfhe/glwe.go b/mktfhe/glwe.go
index 6c76fb0..5c53564 100644
--- a/mktfhe/glwe.go
+++ b/mktfhe/glwe.go
@@ -137,6 +137,7 @@ func (ct *UniEncryption[T]) CopyFrom(ctIn UniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
-- 
2.43.0


From df5e58310207acad802a5c332833651ed3848f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 18/23] fix: tabulate the discrete Gaussian around its centre

The table covered center +- tail while the density was centred on the fractional part of center, so for centres far from zero the sampler returned wrong values or a constant.
---
 xtfhe/sanitization_sampler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtfhe/sanitization_sampler.go b/xtfhe/sanitization_sampler.go
index f8943c2..7fbc794 100644
--- a/xtfhe/sanitization_sampler.go
+++ b/xtfhe/sanitization_sampler.go
@@ -34,8 +34,8 @@ func NewCDTSampler[T num.Integer](center float64, stdDev float64) *CDTSampler[T]
 	cFloor := math.Floor(center)
 	cFrac := center - cFloor
 
-	tailLo := int64(math.Floor(center - GaussianTailCut*stdDev))
-	tailHi := int64(math.Ceil(center + GaussianTailCut*stdDev))
+	tailLo := int64(math.Floor(cFrac - GaussianTailCut*stdDev))
+	tailHi := int64(math.Ceil(cFrac + GaussianTailCut*stdDev))
 	tableSize := tailHi - tailLo + 1
 
 	table := make([]uint64, tableSize)
-- 
2.43.0


From 22f2f43393d73eca254eda317ee89f709e6c2cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 19/23] fix: align the intervals of multi-output look-up tables
 to the function count

For message moduli that do not divide the table evenly, intervals and their offset fell between groups of outputs, so outputs were permuted among functions.
---
 xtfhe/manylut_bootstrap.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xtfhe/manylut_bootstrap.go b/xtfhe/manylut_bootstrap.go
index d5114bc..0ab6aca 100644
--- a/xtfhe/manylut_bootstrap.go
+++ b/xtfhe/manylut_bootstrap.go
@@ -85,10 +85,11 @@ func (e *ManyLUTEvaluator[T]) GenLUTCustomFullTo(lutOut tfhe.LookUpTable[T], f [
 	}
 
 	y := make([]T, e.Params.lutCount)
+	slotCount := e.Params.baseParams.LUTSize() / e.Params.lutCount
 
 	for x := 0; x < int(messageModulus); x++ {
-		start := num.DivRound(x*e.Params.baseParams.LUTSize(), int(messageModulus))
-		end := num.DivRound((x+1)*e.Params.baseParams.LUTSize(), int(messageModulus))
+		start := num.DivRound(x*slotCount, int(messageModulus)) * e.Params.lutCount
+		end := num.DivRound((x+1)*slotCount, int(messageModulus)) * e.Params.lutCount
 		for i := range f {
 			y[i] = f[i](x)
 		}
@@ -99,7 +100,7 @@ func (e *ManyLUTEvaluator[T]) GenLUTCustomFullTo(lutOut tfhe.LookUpTable[T], f [
 		}
 	}
 
-	offset := num.DivRound(e.Params.baseParams.LUTSize(), int(2*messageModulus))
+	offset := num.DivRound(slotCount, int(2*messageModulus)) * e.Params.lutCount
 	vec.RotateInPlace(lutOut.Value[0].Coeffs, -offset)
 	for i := e.Params.baseParams.LUTSize() - offset; i < e.Params.baseParams.LUTSize(); i++ {
 		lutOut.Value[0].Coeffs[i] = -lutOut.Value[0].Coeffs[i]
-- 
2.43.0


From 4009a15a81d8ed40a602954c65c4fe75996613e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:15 +0000
Subject: [PATCH 20/23] fix: overwrite the mask of the output in public-key
 encryption

---
 tfhe/glwe_enc_public.go | 4 ++++
 tfhe/lwe_enc_public.go  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/tfhe/glwe_enc_public.go b/tfhe/glwe_enc_public.go
index 6ba876a..8208e47 100644
--- a/tfhe/glwe_enc_public.go
+++ b/tfhe/glwe_enc_public.go
@@ -29,6 +29,10 @@ func (e *PublicEncryptor[T]) EncryptGLWEPlaintextTo(ctOut GLWECiphertext[T], pt
 // EncryptGLWEBody encrypts the value in the body of GLWE ciphertext and overrides it.
 // This avoids the need for most buffers.
 func (e *PublicEncryptor[T]) EncryptGLWEBody(ct GLWECiphertext[T]) {
+	for j := 1; j < e.Params.glweRank+1; j++ {
+		ct.Value[j].Clear()
+	}
+
 	for i := 0; i < e.Params.glweRank; i++ {
 		e.BinarySampler.SamplePolyTo(e.buf.auxKey.Value[i])
 	}
diff --git a/tfhe/lwe_enc_public.go b/tfhe/lwe_enc_public.go
index 8e61e1f..b15172c 100644
--- a/tfhe/lwe_enc_public.go
+++ b/tfhe/lwe_enc_public.go
@@ -31,6 +31,8 @@ func (e *PublicEncryptor[T]) EncryptLWEPlaintextTo(ctOut LWECiphertext[T], pt LW
 // EncryptLWEBody encrypts the value in the body of LWE ciphertext and overrides it.
 // This avoids the need for most buffers.
 func (e *PublicEncryptor[T]) EncryptLWEBody(ct LWECiphertext[T]) {
+	vec.Fill(ct.Value[1:], 0)
+
 	for i := 0; i < e.Params.glweRank; i++ {
 		e.BinarySampler.SamplePolyTo(e.buf.auxKey.Value[i])
 		ct.Value[0] += vec.Dot(e.buf.auxKey.Value[i].Coeffs, e.PublicKey.LWEKey.Value[i].Value[0].Coeffs)
-- 
2.43.0


From e790033eb0f35ba9b35ce56f937a2b8141f5fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 21/23] fix: CMuxTo over its second branch

---
 tfhe/product.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfhe/product.go b/tfhe/product.go
index 9c74e78..7fd9990 100644
--- a/tfhe/product.go
+++ b/tfhe/product.go
@@ -315,7 +315,7 @@ func (e *Evaluator[T]) CMux(ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphert
 // CMuxTo computes the mux gate between ctFFTGGSW, ct0 and ct1: so ctOut = ct0 + ctFFTGGSW * (ct1 - ct0) and writes it to ctOut.
 // CMux essentially acts as an if clause; if ctFFTGGSW = 0, ct0 is returned, and if ctFFTGGSW = 1, ct1 is returned.
 func (e *Evaluator[T]) CMuxTo(ctOut GLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphertext[T]) {
-	ctOut.CopyFrom(ct0)
 	e.SubGLWETo(e.buf.ctCMux, ct1, ct0)
+	ctOut.CopyFrom(ct0)
 	e.ExternalProdAddGLWETo(ctOut, ctFFTGGSW, e.buf.ctCMux)
 }
-- 
2.43.0


From 4fa23d755a1b60f26c41bd112e54e361fa23db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:33 +0000
Subject: [PATCH 22/23] fix: count all header bytes when serialization of
 Fourier values fails

The header writers and readers of the Fourier keys and ciphertexts
reported only the bytes of the failing field, dropping the fields
before it.
---
 mktfhe/fft_glwe_marshal.go | 10 +++++-----
 tfhe/fft_glwe_marshal.go   | 26 +++++++++++++-------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/mktfhe/fft_glwe_marshal.go b/mktfhe/fft_glwe_marshal.go
index a819001..5ae5b0d 100644
--- a/mktfhe/fft_glwe_marshal.go
+++ b/mktfhe/fft_glwe_marshal.go
@@ -28,7 +28,7 @@ func floatVecReadFromBuf(v []float64, buf []byte, r io.Reader) (n int64, err err
 	var nRead int
 
 	if nRead, err = io.ReadFull(r, buf); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 
@@ -55,14 +55,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -119,13 +119,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
diff --git a/tfhe/fft_glwe_marshal.go b/tfhe/fft_glwe_marshal.go
index 9523a50..05af299 100644
--- a/tfhe/fft_glwe_marshal.go
+++ b/tfhe/fft_glwe_marshal.go
@@ -26,7 +26,7 @@ func floatVecReadFromBuf(v []float64, buf []byte, r io.Reader) (n int64, err err
 	var nRead int
 
 	if nRead, err = io.ReadFull(r, buf); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 
@@ -53,14 +53,14 @@ func (sk FFTGLWESecretKey[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(sk.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := sk.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -117,13 +117,13 @@ func (sk *FFTGLWESecretKey[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -197,14 +197,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -261,13 +261,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -342,28 +342,28 @@ func (ct FFTGLevCiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	base := ct.GadgetParams.base
 	binary.BigEndian.PutUint64(buf[:], uint64(base))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	level := len(ct.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(level))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	glweRank := len(ct.Value[0].Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
-- 
2.43.0


From 2b1d80479441a0245447dfc54963ef5c88055eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:01 +0000
Subject: [PATCH 23/23] fix: round to the nearest odd index in FHEW modulus
 switching

Rounding to the nearest integer first and then setting the low bit gives an
index that is half a unit too large on average, so the sum of the secret key
shifts the rotation: with the shipped parameters and a key whose coefficients
sum to 213, 37 of 1500000 fresh encryptions left their interval.
---
 xtfhe/fhew_bootstrap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xtfhe/fhew_bootstrap.go b/xtfhe/fhew_bootstrap.go
index c32294c..874065c 100644
--- a/xtfhe/fhew_bootstrap.go
+++ b/xtfhe/fhew_bootstrap.go
@@ -38,9 +38,10 @@ func (e *FHEWEvaluator[T]) BootstrapLUTTo(ctOut tfhe.LWECiphertext[T], ct tfhe.L
 	}
 }
 
-// ModSwitch switches the modulus of x from Q to 2 * LUTSize.
+// ModSwitch switches the modulus of x from Q to 2 * LUTSize,
+// rounding to the nearest odd integer.
 func (e *FHEWEvaluator[T]) ModSwitch(x T) int {
-	return e.Evaluator.ModSwitch(x) | 1
+	return int(x>>(e.Params.baseParams.LogQ()-e.Params.baseParams.LogPolyRank()-1)) | 1
 }
 
 // BlindRotate returns the blind rotation of LWE ciphertext with respect to LUT.
-- 
2.43.0

