package main

import "strings"

// The methods the harness knows how to call; methods added later are not called.
var surfKnown = func() map[string]bool {
	m := map[string]bool{}
	for k, v := range surfNames {
		for _, n := range strings.Fields(v) {
			m[k+"."+n] = true
		}
	}
	return m
}()

var surfNames = map[string]string{
	"mktfhe.BinaryDecryptor": `
DecodeLWEBool DecryptLWEBits DecryptLWEBool EncodeLWEBool`,
	"mktfhe.BinaryEncryptor": `
DecodeLWEBool EncodeLWEBool EncryptLWEBits EncryptLWEBitsTo EncryptLWEBool EncryptLWEBoolTo GenEvalKey
GenEvalKeyParallel GenPublicKey`,
	"mktfhe.BinaryEvaluator": `
AND ANDParallel ANDParallelTo ANDTo DecodeLWEBool EncodeLWEBool NAND NANDParallel NANDParallelTo NANDTo NOR
NORParallel NORParallelTo NORTo NOT NOTTo OR ORParallel ORParallelTo ORTo XNOR XNORParallel XNORParallelTo
XNORTo XOR XORParallel XORParallelTo XORTo`,
	"mktfhe.BinaryPublicEncryptor": `
DecodeLWEBool EncodeLWEBool EncryptLWEBits EncryptLWEBitsTo EncryptLWEBool EncryptLWEBoolTo`,
	"mktfhe.Decryptor": `
DecodeGLWE DecodeGLWECustom DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom DecryptFFTGLWE
DecryptFFTGLWEPhase DecryptFFTGLWEPhaseTo DecryptFFTGLWETo DecryptGLWE DecryptGLWEPhase DecryptGLWEPhaseTo
DecryptGLWETo DecryptLWE DecryptLWEPlaintext EncodeGLWE EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo
EncodeLWE EncodeLWECustom FwdFFTGLWECiphertext FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey
FwdFFTGLWESecretKeyTo FwdFFTUniEncryption FwdFFTUniEncryptionTo InvFFTGLWESecretKey InvFFTGLWESecretKeyTo
InvFFTUniEncryption InvFFTUniEncryptionTo InvGLWECiphertext InvGLWECiphertextTo`,
	"mktfhe.Encryptor": `
DecodeGLWE DecodeGLWECustom DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom EncodeGLWE
EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo EncodeLWE EncodeLWECustom EncryptFFTGLWE
EncryptFFTGLWEPlaintext EncryptFFTGLWEPlaintextTo EncryptFFTGLWETo EncryptGLWE EncryptGLWEBody
EncryptGLWEPlaintext EncryptGLWEPlaintextTo EncryptGLWETo EncryptLWE EncryptLWEBody EncryptLWEPlaintext
EncryptLWEPlaintextTo EncryptLWETo FFTUniDecrypt FFTUniDecryptPoly FFTUniDecryptPolyTo FFTUniDecryptTo
FFTUniEncrypt FFTUniEncryptPoly FFTUniEncryptPolyTo FFTUniEncryptTo FwdFFTGLWECiphertext
FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey FwdFFTGLWESecretKeyTo FwdFFTUniEncryption FwdFFTUniEncryptionTo
GenCRSPublicKey GenDefaultKeySwitchKey GenDefaultKeySwitchKeyParallel GenEvalKey GenEvalKeyParallel
GenPublicKey GenRelinKey InvFFTGLWESecretKey InvFFTGLWESecretKeyTo InvFFTUniEncryption InvFFTUniEncryptionTo
InvGLWECiphertext InvGLWECiphertextTo UniDecrypt UniDecryptPoly UniDecryptPolyTo UniDecryptTo UniEncrypt
UniEncryptPoly UniEncryptPolyTo UniEncryptTo`,
	"mktfhe.Evaluator": `
AddFFTGLWE AddFFTGLWETo AddGLWE AddGLWETo AddLWE AddLWETo AddPlainGLWE AddPlainGLWETo AddPlainLWE
AddPlainLWETo BlindRotate BlindRotateParallel BlindRotateParallelTo BlindRotateTo BootstrapFunc
BootstrapFuncParallel BootstrapFuncParallelTo BootstrapFuncTo BootstrapLUT BootstrapLUTParallel
BootstrapLUTParallelTo BootstrapLUTTo CmplxMulAddFFTGLWETo CmplxMulFFTGLWE CmplxMulFFTGLWETo
CmplxMulSubFFTGLWETo DecodeGLWE DecodeGLWECustom DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom
DefaultKeySwitch DefaultKeySwitchTo EncodeGLWE EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo EncodeLWE
EncodeLWECustom ExternalProdAddGLWETo ExternalProdGLWE ExternalProdGLWETo ExternalProdSubGLWETo
FFTPolyMulAddFFTGLWETo FFTPolyMulAddGLWETo FFTPolyMulFFTGLWE FFTPolyMulFFTGLWETo FFTPolyMulGLWE
FFTPolyMulGLWETo FFTPolyMulSubFFTGLWETo FFTPolyMulSubGLWETo FloatMulAddFFTGLWETo FloatMulFFTGLWE
FloatMulFFTGLWETo FloatMulSubFFTGLWETo FwdFFTGLWECiphertext FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey
FwdFFTGLWESecretKeyTo FwdFFTUniEncryption FwdFFTUniEncryptionTo HybridProdAddGLWETo HybridProdGLWE
HybridProdGLWETo HybridProdSubGLWETo InvFFTGLWESecretKey InvFFTGLWESecretKeyTo InvFFTUniEncryption
InvFFTUniEncryptionTo InvGLWECiphertext InvGLWECiphertextTo MonomialMulAddGLWETo MonomialMulGLWE
MonomialMulGLWEInPlace MonomialMulGLWETo MonomialMulSubGLWETo NegFFTGLWE NegFFTGLWETo NegGLWE NegGLWETo NegLWE
NegLWETo PermuteAddFFTGLWETo PermuteAddGLWETo PermuteFFTGLWEInPlace PermuteFFTGLWETo PermuteGLWEInPlace
PermuteGLWETo PermuteSubFFTGLWETo PermuteSubGLWETo PolyMulAddFFTGLWETo PolyMulAddGLWETo PolyMulFFTGLWE
PolyMulFFTGLWETo PolyMulGLWE PolyMulGLWETo PolyMulSubFFTGLWETo PolyMulSubGLWETo ScalarMulAddGLWETo
ScalarMulAddLWETo ScalarMulGLWE ScalarMulGLWETo ScalarMulLWE ScalarMulLWETo ScalarMulSubGLWETo
ScalarMulSubLWETo SubFFTGLWE SubFFTGLWETo SubGLWE SubGLWETo SubLWE SubLWETo SubPlainGLWE SubPlainGLWETo
SubPlainLWE SubPlainLWETo`,
	"mktfhe.GLWETransformer": `
FwdFFTGLWECiphertext FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey FwdFFTGLWESecretKeyTo FwdFFTUniEncryption
FwdFFTUniEncryptionTo InvFFTGLWESecretKey InvFFTGLWESecretKeyTo InvFFTUniEncryption InvFFTUniEncryptionTo
InvGLWECiphertext InvGLWECiphertextTo`,
	"mktfhe.PublicEncryptor": `
DecodeGLWE DecodeGLWECustom DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom EncodeGLWE
EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo EncodeLWE EncodeLWECustom EncryptFFTGLWE
EncryptFFTGLWEPlaintext EncryptFFTGLWEPlaintextTo EncryptFFTGLWETo EncryptGLWE EncryptGLWEBody
EncryptGLWEPlaintext EncryptGLWEPlaintextTo EncryptGLWETo EncryptLWE EncryptLWEBody EncryptLWEPlaintext
EncryptLWEPlaintextTo EncryptLWETo FwdFFTGLWECiphertext FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey
FwdFFTGLWESecretKeyTo FwdFFTUniEncryption FwdFFTUniEncryptionTo InvFFTGLWESecretKey InvFFTGLWESecretKeyTo
InvFFTUniEncryption InvFFTUniEncryptionTo InvGLWECiphertext InvGLWECiphertextTo`,
	"poly.Evaluator": `
AddFFTPoly AddFFTPolyTo AddPoly AddPolyTo CmplxMulAddFFTPolyTo CmplxMulFFTPoly CmplxMulFFTPolyTo
CmplxMulSubFFTPolyTo FFTPolyMulAddPolyTo FFTPolyMulPoly FFTPolyMulPolyTo FFTPolyMulSubPolyTo
FloatMulAddFFTPolyTo FloatMulFFTPoly FloatMulFFTPolyTo FloatMulSubFFTPolyTo FwdFFT FwdFFTAddTo FwdFFTSubTo
FwdFFTTo InvFFT InvFFTAddTo InvFFTAddToUnsafe InvFFTSubTo InvFFTSubToUnsafe InvFFTTo InvFFTToUnsafe
MonomialFwdFFT MonomialFwdFFTTo MonomialMulAddPolyTo MonomialMulPoly MonomialMulPolyInPlace MonomialMulPolyTo
MonomialMulSubPolyTo MonomialSubOneFwdFFT MonomialSubOneFwdFFTTo MulAddFFTPolyTo MulAddPolyTo MulFFTPoly
MulFFTPolyTo MulPoly MulPolyTo MulSubFFTPolyTo MulSubPolyTo NegFFTPoly NegFFTPolyTo NegPoly NegPolyTo
NewFFTPoly NewPoly PermuteAddFFTPolyTo PermuteAddPolyTo PermuteFFTPoly PermuteFFTPolyInPlace PermuteFFTPolyTo
PermutePoly PermutePolyInPlace PermutePolyTo PermuteSubFFTPolyTo PermuteSubPolyTo PolyMulAddFFTPolyTo
PolyMulFFTPoly PolyMulFFTPolyTo PolyMulSubFFTPolyTo Rank ScalarMulAddPolyTo ScalarMulPoly ScalarMulPolyTo
ScalarMulSubPolyTo ShortFFTPolyMulAddPolyTo ShortFFTPolyMulPoly ShortFFTPolyMulPolyTo ShortFFTPolyMulSubPolyTo
SubFFTPoly SubFFTPolyTo SubPoly SubPolyTo`,
	"tfhe.BinaryEncryptor": `
DecodeLWEBool DecryptLWEBits DecryptLWEBool EncodeLWEBool EncryptLWEBits EncryptLWEBitsTo EncryptLWEBool
EncryptLWEBoolTo GenEvalKey GenEvalKeyParallel GenPublicKey`,
	"tfhe.BinaryEvaluator": `
AND ANDTo DecodeLWEBool EncodeLWEBool NAND NANDTo NOR NORTo NOT NOTTo OR ORTo XNOR XNORTo XOR XORTo`,
	"tfhe.BinaryPublicEncryptor": `
DecodeLWEBool EncodeLWEBool EncryptLWEBits EncryptLWEBitsTo EncryptLWEBool EncryptLWEBoolTo`,
	"tfhe.Decomposer": `
DecomposePoly DecomposePolyTo DecomposeScalar DecomposeScalarTo FourierDecomposePoly FourierDecomposePolyTo
RecomposePoly RecomposePolyTo RecomposeScalar`,
	"tfhe.Encoder": `
DecodeGLWE DecodeGLWECustom DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom EncodeGLWE
EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo EncodeLWE EncodeLWECustom`,
	"tfhe.Encryptor": `
DecodeGLWE DecodeGLWECustom DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom DecryptFFTGGSW
DecryptFFTGGSWPoly DecryptFFTGGSWPolyTo DecryptFFTGGSWTo DecryptFFTGLWE DecryptFFTGLWEPhase
DecryptFFTGLWEPhaseTo DecryptFFTGLWETo DecryptFFTGLev DecryptFFTGLevPoly DecryptFFTGLevPolyTo DecryptFFTGLevTo
DecryptGGSW DecryptGGSWPoly DecryptGGSWPolyTo DecryptGGSWTo DecryptGLWE DecryptGLWEPhase DecryptGLWEPhaseTo
DecryptGLWETo DecryptGLev DecryptGLevPoly DecryptGLevPolyTo DecryptGLevTo DecryptGSW DecryptGSWScalar
DecryptLWE DecryptLWEPhase DecryptLev DecryptLevScalar DefaultLWESecretKey EncodeGLWE EncodeGLWECustom
EncodeGLWECustomTo EncodeGLWETo EncodeLWE EncodeLWECustom EncryptFFTGGSW EncryptFFTGGSWPoly
EncryptFFTGGSWPolyTo EncryptFFTGGSWTo EncryptFFTGLWE EncryptFFTGLWEPlaintext EncryptFFTGLWEPlaintextTo
EncryptFFTGLWETo EncryptFFTGLev EncryptFFTGLevPoly EncryptFFTGLevPolyTo EncryptFFTGLevTo EncryptGGSW
EncryptGGSWPoly EncryptGGSWPolyTo EncryptGGSWTo EncryptGLWE EncryptGLWEBody EncryptGLWEPlaintext
EncryptGLWEPlaintextTo EncryptGLWETo EncryptGLev EncryptGLevPoly EncryptGLevPolyTo EncryptGLevTo EncryptGSW
EncryptGSWScalar EncryptGSWScalarTo EncryptGSWTo EncryptLWE EncryptLWEBody EncryptLWEPlaintext
EncryptLWEPlaintextTo EncryptLWETo EncryptLev EncryptLevScalar EncryptLevScalarTo EncryptLevTo
FwdFFTGGSWCiphertext FwdFFTGGSWCiphertextTo FwdFFTGLWECiphertext FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey
FwdFFTGLWESecretKeyTo FwdFFTGLevCiphertext FwdFFTGLevCiphertextTo GenBlindRotateKey GenBlindRotateKeyParallel
GenDefaultKeySwitchKey GenDefaultKeySwitchKeyParallel GenEvalKey GenEvalKeyParallel GenGLWEKeySwitchKey
GenLWEKeySwitchKey GenPublicKey GenSecretKey InvFFTGGSWCiphertext InvFFTGGSWCiphertextTo InvFFTGLWECiphertext
InvFFTGLWECiphertextTo InvFFTGLWESecretKey InvFFTGLWESecretKeyTo InvFFTGLevCiphertext InvFFTGLevCiphertextTo`,
	"tfhe.Evaluator": `
AddFFTGLWE AddFFTGLWETo AddGLWE AddGLWETo AddLWE AddLWETo AddPlainGLWE AddPlainGLWETo AddPlainLWE
AddPlainLWETo BlindRotate BlindRotateTo BootstrapFunc BootstrapFuncTo BootstrapLUT BootstrapLUTTo CMux CMuxTo
CmplxMulAddFFTGLWETo CmplxMulFFTGLWE CmplxMulFFTGLWETo CmplxMulSubFFTGLWETo DecodeGLWE DecodeGLWECustom
DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom DefaultKeySwitch DefaultKeySwitchTo EncodeGLWE
EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo EncodeLWE EncodeLWECustom ExternalProdAddFFTGLWETo
ExternalProdAddGLWETo ExternalProdAddLWETo ExternalProdFFTGLWETo ExternalProdGLWE ExternalProdGLWETo
ExternalProdLWE ExternalProdLWETo ExternalProdSubFFTGLWETo ExternalProdSubGLWETo ExternalProdSubLWETo
FFTPolyMulAddFFTGLWETo FFTPolyMulAddGLWETo FFTPolyMulFFTGLWE FFTPolyMulFFTGLWETo FFTPolyMulGLWE
FFTPolyMulGLWETo FFTPolyMulSubFFTGLWETo FFTPolyMulSubGLWETo FloatMulAddFFTGLWETo FloatMulFFTGLWE
FloatMulFFTGLWETo FloatMulSubFFTGLWETo FwdFFTGGSWCiphertext FwdFFTGGSWCiphertextTo FwdFFTGLWECiphertext
FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey FwdFFTGLWESecretKeyTo FwdFFTGLevCiphertext FwdFFTGLevCiphertextTo
GadgetProdAddFFTGLWETo GadgetProdAddGLWETo GadgetProdAddLWETo GadgetProdFFTGLWETo GadgetProdGLWE
GadgetProdGLWETo GadgetProdLWE GadgetProdLWETo GadgetProdSubFFTGLWETo GadgetProdSubGLWETo GadgetProdSubLWETo
GenLUT GenLUTCustom GenLUTCustomFull GenLUTCustomFullTo GenLUTCustomTo GenLUTFull GenLUTFullTo GenLUTTo
InvFFTGGSWCiphertext InvFFTGGSWCiphertextTo InvFFTGLWECiphertext InvFFTGLWECiphertextTo InvFFTGLWESecretKey
InvFFTGLWESecretKeyTo InvFFTGLevCiphertext InvFFTGLevCiphertextTo KeySwitchGLWE KeySwitchGLWETo KeySwitchLWE
KeySwitchLWETo ModSwitch MonomialMulAddGLWETo MonomialMulGLWE MonomialMulGLWEInPlace MonomialMulGLWETo
MonomialMulSubGLWETo NegFFTGLWE NegFFTGLWETo NegGLWE NegGLWETo NegLWE NegLWETo PermuteAddFFTGLWETo
PermuteAddGLWETo PermuteFFTGLWE PermuteFFTGLWEInPlace PermuteFFTGLWETo PermuteGLWE PermuteGLWEInPlace
PermuteGLWETo PermuteSubFFTGLWETo PermuteSubGLWETo PolyMulAddFFTGLWETo PolyMulAddGLWETo PolyMulFFTGLWE
PolyMulFFTGLWETo PolyMulGLWE PolyMulGLWETo PolyMulSubFFTGLWETo PolyMulSubGLWETo ScalarMulAddGLWETo
ScalarMulAddLWETo ScalarMulGLWE ScalarMulGLWETo ScalarMulLWE ScalarMulLWETo ScalarMulSubGLWETo
ScalarMulSubLWETo SubFFTGLWE SubFFTGLWETo SubGLWE SubGLWETo SubLWE SubLWETo SubPlainGLWE SubPlainGLWETo
SubPlainLWE SubPlainLWETo`,
	"tfhe.GLWETransformer": `
FwdFFTGGSWCiphertext FwdFFTGGSWCiphertextTo FwdFFTGLWECiphertext FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey
FwdFFTGLWESecretKeyTo FwdFFTGLevCiphertext FwdFFTGLevCiphertextTo InvFFTGGSWCiphertext InvFFTGGSWCiphertextTo
InvFFTGLWECiphertext InvFFTGLWECiphertextTo InvFFTGLWESecretKey InvFFTGLWESecretKeyTo InvFFTGLevCiphertext
InvFFTGLevCiphertextTo`,
	"tfhe.PublicEncryptor": `
DecodeGLWE DecodeGLWECustom DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom EncodeGLWE
EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo EncodeLWE EncodeLWECustom EncryptFFTGLWE
EncryptFFTGLWEPlaintext EncryptFFTGLWEPlaintextTo EncryptFFTGLWETo EncryptGLWE EncryptGLWEBody
EncryptGLWEPlaintext EncryptGLWEPlaintextTo EncryptGLWETo EncryptLWE EncryptLWEBody EncryptLWEPlaintext
EncryptLWEPlaintextTo EncryptLWETo FwdFFTGGSWCiphertext FwdFFTGGSWCiphertextTo FwdFFTGLWECiphertext
FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey FwdFFTGLWESecretKeyTo FwdFFTGLevCiphertext FwdFFTGLevCiphertextTo
InvFFTGGSWCiphertext InvFFTGGSWCiphertextTo InvFFTGLWECiphertext InvFFTGLWECiphertextTo InvFFTGLWESecretKey
InvFFTGLWESecretKeyTo InvFFTGLevCiphertext InvFFTGLevCiphertextTo`,
	"xtfhe.BFVEvaluator": `
Mul MulTo Pack PackTo Permute PermuteTo Relinearize RelinearizeTo Tensor TensorTo`,
	"xtfhe.BFVKeyGenerator": `
GenEvalKey GenGaloisKeys GenGaloisKeysForPack GenGaloisKeysForPackTo GenGaloisKeysTo GenRelinKey`,
	"xtfhe.CircuitBootstrapKeyGenerator": `
GenCircuitBootstrapKey GenEvalKey GenGaloisKeys GenGaloisKeysForPack GenGaloisKeysForPackTo GenGaloisKeysTo
GenRelinKey`,
	"xtfhe.CircuitBootstrapper": `
AddFFTGLWE AddFFTGLWETo AddGLWE AddGLWETo AddLWE AddLWETo AddPlainGLWE AddPlainGLWETo AddPlainLWE
AddPlainLWETo BlindRotate BlindRotateTo BootstrapFunc BootstrapFuncTo BootstrapLUT BootstrapLUTTo CMux CMuxTo
CircuitBootstrap CircuitBootstrapTo CmplxMulAddFFTGLWETo CmplxMulFFTGLWE CmplxMulFFTGLWETo
CmplxMulSubFFTGLWETo DecodeGLWE DecodeGLWECustom DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom
DefaultKeySwitch DefaultKeySwitchTo EncodeGLWE EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo EncodeLWE
EncodeLWECustom ExternalProdAddFFTGLWETo ExternalProdAddGLWETo ExternalProdAddLWETo ExternalProdFFTGLWETo
ExternalProdGLWE ExternalProdGLWETo ExternalProdLWE ExternalProdLWETo ExternalProdSubFFTGLWETo
ExternalProdSubGLWETo ExternalProdSubLWETo FFTPolyMulAddFFTGLWETo FFTPolyMulAddGLWETo FFTPolyMulFFTGLWE
FFTPolyMulFFTGLWETo FFTPolyMulGLWE FFTPolyMulGLWETo FFTPolyMulSubFFTGLWETo FFTPolyMulSubGLWETo
FloatMulAddFFTGLWETo FloatMulFFTGLWE FloatMulFFTGLWETo FloatMulSubFFTGLWETo FwdFFTGGSWCiphertext
FwdFFTGGSWCiphertextTo FwdFFTGLWECiphertext FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey FwdFFTGLWESecretKeyTo
FwdFFTGLevCiphertext FwdFFTGLevCiphertextTo GadgetProdAddFFTGLWETo GadgetProdAddGLWETo GadgetProdAddLWETo
GadgetProdFFTGLWETo GadgetProdGLWE GadgetProdGLWETo GadgetProdLWE GadgetProdLWETo GadgetProdSubFFTGLWETo
GadgetProdSubGLWETo GadgetProdSubLWETo GenLUT GenLUTCustom GenLUTCustomFull GenLUTCustomFullTo GenLUTCustomTo
GenLUTFull GenLUTFullTo GenLUTTo InvFFTGGSWCiphertext InvFFTGGSWCiphertextTo InvFFTGLWECiphertext
InvFFTGLWECiphertextTo InvFFTGLWESecretKey InvFFTGLWESecretKeyTo InvFFTGLevCiphertext InvFFTGLevCiphertextTo
KeySwitchGLWE KeySwitchGLWETo KeySwitchLWE KeySwitchLWETo ModSwitch MonomialMulAddGLWETo MonomialMulGLWE
MonomialMulGLWEInPlace MonomialMulGLWETo MonomialMulSubGLWETo NegFFTGLWE NegFFTGLWETo NegGLWE NegGLWETo NegLWE
NegLWETo Pack PackTo Permute PermuteAddFFTGLWETo PermuteAddGLWETo PermuteFFTGLWE PermuteFFTGLWEInPlace
PermuteFFTGLWETo PermuteGLWE PermuteGLWEInPlace PermuteGLWETo PermuteSubFFTGLWETo PermuteSubGLWETo PermuteTo
PolyMulAddFFTGLWETo PolyMulAddGLWETo PolyMulFFTGLWE PolyMulFFTGLWETo PolyMulGLWE PolyMulGLWETo
PolyMulSubFFTGLWETo PolyMulSubGLWETo ScalarMulAddGLWETo ScalarMulAddLWETo ScalarMulGLWE ScalarMulGLWETo
ScalarMulLWE ScalarMulLWETo ScalarMulSubGLWETo ScalarMulSubLWETo SubFFTGLWE SubFFTGLWETo SubGLWE SubGLWETo
SubLWE SubLWETo SubPlainGLWE SubPlainGLWETo SubPlainLWE SubPlainLWETo Tensor TensorTo`,
	"xtfhe.FHEWEncryptor": `
DecodeGLWE DecodeGLWECustom DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom DecryptFFTGGSW
DecryptFFTGGSWPoly DecryptFFTGGSWPolyTo DecryptFFTGGSWTo DecryptFFTGLWE DecryptFFTGLWEPhase
DecryptFFTGLWEPhaseTo DecryptFFTGLWETo DecryptFFTGLev DecryptFFTGLevPoly DecryptFFTGLevPolyTo DecryptFFTGLevTo
DecryptGGSW DecryptGGSWPoly DecryptGGSWPolyTo DecryptGGSWTo DecryptGLWE DecryptGLWEPhase DecryptGLWEPhaseTo
DecryptGLWETo DecryptGLev DecryptGLevPoly DecryptGLevPolyTo DecryptGLevTo DecryptGSW DecryptGSWScalar
DecryptLWE DecryptLWEPhase DecryptLev DecryptLevScalar DefaultLWESecretKey EncodeGLWE EncodeGLWECustom
EncodeGLWECustomTo EncodeGLWETo EncodeLWE EncodeLWECustom EncryptFFTGGSW EncryptFFTGGSWPoly
EncryptFFTGGSWPolyTo EncryptFFTGGSWTo EncryptFFTGLWE EncryptFFTGLWEPlaintext EncryptFFTGLWEPlaintextTo
EncryptFFTGLWETo EncryptFFTGLev EncryptFFTGLevPoly EncryptFFTGLevPolyTo EncryptFFTGLevTo EncryptGGSW
EncryptGGSWPoly EncryptGGSWPolyTo EncryptGGSWTo EncryptGLWE EncryptGLWEBody EncryptGLWEPlaintext
EncryptGLWEPlaintextTo EncryptGLWETo EncryptGLev EncryptGLevPoly EncryptGLevPolyTo EncryptGLevTo EncryptGSW
EncryptGSWScalar EncryptGSWScalarTo EncryptGSWTo EncryptLWE EncryptLWEBody EncryptLWEPlaintext
EncryptLWEPlaintextTo EncryptLWETo EncryptLev EncryptLevScalar EncryptLevScalarTo EncryptLevTo
FwdFFTGGSWCiphertext FwdFFTGGSWCiphertextTo FwdFFTGLWECiphertext FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey
FwdFFTGLWESecretKeyTo FwdFFTGLevCiphertext FwdFFTGLevCiphertextTo GenBlindRotateKey GenBlindRotateKeyParallel
GenDefaultKeySwitchKey GenDefaultKeySwitchKeyParallel GenEvalKey GenEvalKeyParallel GenGLWEKeySwitchKey
GenGaloisKey GenLWEKeySwitchKey GenPublicKey GenSecretKey InvFFTGGSWCiphertext InvFFTGGSWCiphertextTo
InvFFTGLWECiphertext InvFFTGLWECiphertextTo InvFFTGLWESecretKey InvFFTGLWESecretKeyTo InvFFTGLevCiphertext
InvFFTGLevCiphertextTo`,
	"xtfhe.FHEWEvaluator": `
AddFFTGLWE AddFFTGLWETo AddGLWE AddGLWETo AddLWE AddLWETo AddPlainGLWE AddPlainGLWETo AddPlainLWE
AddPlainLWETo BlindRotate BlindRotateTo BootstrapFunc BootstrapFuncTo BootstrapLUT BootstrapLUTTo CMux CMuxTo
CmplxMulAddFFTGLWETo CmplxMulFFTGLWE CmplxMulFFTGLWETo CmplxMulSubFFTGLWETo DecodeGLWE DecodeGLWECustom
DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom DefaultKeySwitch DefaultKeySwitchTo EncodeGLWE
EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo EncodeLWE EncodeLWECustom ExternalProdAddFFTGLWETo
ExternalProdAddGLWETo ExternalProdAddLWETo ExternalProdFFTGLWETo ExternalProdGLWE ExternalProdGLWETo
ExternalProdLWE ExternalProdLWETo ExternalProdSubFFTGLWETo ExternalProdSubGLWETo ExternalProdSubLWETo
FFTPolyMulAddFFTGLWETo FFTPolyMulAddGLWETo FFTPolyMulFFTGLWE FFTPolyMulFFTGLWETo FFTPolyMulGLWE
FFTPolyMulGLWETo FFTPolyMulSubFFTGLWETo FFTPolyMulSubGLWETo FloatMulAddFFTGLWETo FloatMulFFTGLWE
FloatMulFFTGLWETo FloatMulSubFFTGLWETo FwdFFTGGSWCiphertext FwdFFTGGSWCiphertextTo FwdFFTGLWECiphertext
FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey FwdFFTGLWESecretKeyTo FwdFFTGLevCiphertext FwdFFTGLevCiphertextTo
GadgetProdAddFFTGLWETo GadgetProdAddGLWETo GadgetProdAddLWETo GadgetProdFFTGLWETo GadgetProdGLWE
GadgetProdGLWETo GadgetProdLWE GadgetProdLWETo GadgetProdSubFFTGLWETo GadgetProdSubGLWETo GadgetProdSubLWETo
GenLUT GenLUTCustom GenLUTCustomFull GenLUTCustomFullTo GenLUTCustomTo GenLUTFull GenLUTFullTo GenLUTTo
InvFFTGGSWCiphertext InvFFTGGSWCiphertextTo InvFFTGLWECiphertext InvFFTGLWECiphertextTo InvFFTGLWESecretKey
InvFFTGLWESecretKeyTo InvFFTGLevCiphertext InvFFTGLevCiphertextTo KeySwitchGLWE KeySwitchGLWETo KeySwitchLWE
KeySwitchLWETo ModSwitch MonomialMulAddGLWETo MonomialMulGLWE MonomialMulGLWEInPlace MonomialMulGLWETo
MonomialMulSubGLWETo NegFFTGLWE NegFFTGLWETo NegGLWE NegGLWETo NegLWE NegLWETo PermuteAddFFTGLWETo
PermuteAddGLWETo PermuteFFTGLWE PermuteFFTGLWEInPlace PermuteFFTGLWETo PermuteGLWE PermuteGLWEInPlace
PermuteGLWETo PermuteSubFFTGLWETo PermuteSubGLWETo PolyMulAddFFTGLWETo PolyMulAddGLWETo PolyMulFFTGLWE
PolyMulFFTGLWETo PolyMulGLWE PolyMulGLWETo PolyMulSubFFTGLWETo PolyMulSubGLWETo ScalarMulAddGLWETo
ScalarMulAddLWETo ScalarMulGLWE ScalarMulGLWETo ScalarMulLWE ScalarMulLWETo ScalarMulSubGLWETo
ScalarMulSubLWETo SubFFTGLWE SubFFTGLWETo SubGLWE SubGLWETo SubLWE SubLWETo SubPlainGLWE SubPlainGLWETo
SubPlainLWE SubPlainLWETo`,
	"xtfhe.ManyLUTEvaluator": `
AddFFTGLWE AddFFTGLWETo AddGLWE AddGLWETo AddLWE AddLWETo AddPlainGLWE AddPlainGLWETo AddPlainLWE
AddPlainLWETo BlindRotate BlindRotateTo BootstrapFunc BootstrapFuncTo BootstrapLUT BootstrapLUTTo CMux CMuxTo
CmplxMulAddFFTGLWETo CmplxMulFFTGLWE CmplxMulFFTGLWETo CmplxMulSubFFTGLWETo DecodeGLWE DecodeGLWECustom
DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom DefaultKeySwitch DefaultKeySwitchTo EncodeGLWE
EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo EncodeLWE EncodeLWECustom ExternalProdAddFFTGLWETo
ExternalProdAddGLWETo ExternalProdAddLWETo ExternalProdFFTGLWETo ExternalProdGLWE ExternalProdGLWETo
ExternalProdLWE ExternalProdLWETo ExternalProdSubFFTGLWETo ExternalProdSubGLWETo ExternalProdSubLWETo
FFTPolyMulAddFFTGLWETo FFTPolyMulAddGLWETo FFTPolyMulFFTGLWE FFTPolyMulFFTGLWETo FFTPolyMulGLWE
FFTPolyMulGLWETo FFTPolyMulSubFFTGLWETo FFTPolyMulSubGLWETo FloatMulAddFFTGLWETo FloatMulFFTGLWE
FloatMulFFTGLWETo FloatMulSubFFTGLWETo FwdFFTGGSWCiphertext FwdFFTGGSWCiphertextTo FwdFFTGLWECiphertext
FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey FwdFFTGLWESecretKeyTo FwdFFTGLevCiphertext FwdFFTGLevCiphertextTo
GadgetProdAddFFTGLWETo GadgetProdAddGLWETo GadgetProdAddLWETo GadgetProdFFTGLWETo GadgetProdGLWE
GadgetProdGLWETo GadgetProdLWE GadgetProdLWETo GadgetProdSubFFTGLWETo GadgetProdSubGLWETo GadgetProdSubLWETo
GenLUT GenLUTCustom GenLUTCustomFull GenLUTCustomFullTo GenLUTCustomTo GenLUTFull GenLUTFullTo GenLUTTo
InvFFTGGSWCiphertext InvFFTGGSWCiphertextTo InvFFTGLWECiphertext InvFFTGLWECiphertextTo InvFFTGLWESecretKey
InvFFTGLWESecretKeyTo InvFFTGLevCiphertext InvFFTGLevCiphertextTo KeySwitchGLWE KeySwitchGLWETo KeySwitchLWE
KeySwitchLWETo ModSwitch MonomialMulAddGLWETo MonomialMulGLWE MonomialMulGLWEInPlace MonomialMulGLWETo
MonomialMulSubGLWETo NegFFTGLWE NegFFTGLWETo NegGLWE NegGLWETo NegLWE NegLWETo PermuteAddFFTGLWETo
PermuteAddGLWETo PermuteFFTGLWE PermuteFFTGLWEInPlace PermuteFFTGLWETo PermuteGLWE PermuteGLWEInPlace
PermuteGLWETo PermuteSubFFTGLWETo PermuteSubGLWETo PolyMulAddFFTGLWETo PolyMulAddGLWETo PolyMulFFTGLWE
PolyMulFFTGLWETo PolyMulGLWE PolyMulGLWETo PolyMulSubFFTGLWETo PolyMulSubGLWETo ScalarMulAddGLWETo
ScalarMulAddLWETo ScalarMulGLWE ScalarMulGLWETo ScalarMulLWE ScalarMulLWETo ScalarMulSubGLWETo
ScalarMulSubLWETo SubFFTGLWE SubFFTGLWETo SubGLWE SubGLWETo SubLWE SubLWETo SubPlainGLWE SubPlainGLWETo
SubPlainLWE SubPlainLWETo`,
	"xtfhe.Sanitizer": `
AddFFTGLWE AddFFTGLWETo AddGLWE AddGLWETo AddLWE AddLWETo AddPlainGLWE AddPlainGLWETo AddPlainLWE
AddPlainLWETo BlindRotate BlindRotateTo BootstrapFunc BootstrapFuncTo BootstrapLUT BootstrapLUTTo CMux CMuxTo
CmplxMulAddFFTGLWETo CmplxMulFFTGLWE CmplxMulFFTGLWETo CmplxMulSubFFTGLWETo DecodeGLWE DecodeGLWECustom
DecodeGLWECustomTo DecodeGLWETo DecodeLWE DecodeLWECustom DefaultKeySwitch DefaultKeySwitchTo EncodeGLWE
EncodeGLWECustom EncodeGLWECustomTo EncodeGLWETo EncodeLWE EncodeLWECustom ExternalProdAddFFTGLWETo
ExternalProdAddGLWETo ExternalProdAddLWETo ExternalProdFFTGLWETo ExternalProdGLWE ExternalProdGLWETo
ExternalProdLWE ExternalProdLWETo ExternalProdSubFFTGLWETo ExternalProdSubGLWETo ExternalProdSubLWETo
FFTPolyMulAddFFTGLWETo FFTPolyMulAddGLWETo FFTPolyMulFFTGLWE FFTPolyMulFFTGLWETo FFTPolyMulGLWE
FFTPolyMulGLWETo FFTPolyMulSubFFTGLWETo FFTPolyMulSubGLWETo FloatMulAddFFTGLWETo FloatMulFFTGLWE
FloatMulFFTGLWETo FloatMulSubFFTGLWETo FwdFFTGGSWCiphertext FwdFFTGGSWCiphertextTo FwdFFTGLWECiphertext
FwdFFTGLWECiphertextTo FwdFFTGLWESecretKey FwdFFTGLWESecretKeyTo FwdFFTGLevCiphertext FwdFFTGLevCiphertextTo
GadgetProdAddFFTGLWETo GadgetProdAddGLWETo GadgetProdAddLWETo GadgetProdFFTGLWETo GadgetProdGLWE
GadgetProdGLWETo GadgetProdLWE GadgetProdLWETo GadgetProdSubFFTGLWETo GadgetProdSubGLWETo GadgetProdSubLWETo
GenLUT GenLUTCustom GenLUTCustomFull GenLUTCustomFullTo GenLUTCustomTo GenLUTFull GenLUTFullTo GenLUTTo
InvFFTGGSWCiphertext InvFFTGGSWCiphertextTo InvFFTGLWECiphertext InvFFTGLWECiphertextTo InvFFTGLWESecretKey
InvFFTGLWESecretKeyTo InvFFTGLevCiphertext InvFFTGLevCiphertextTo KeySwitchGLWE KeySwitchGLWETo KeySwitchLWE
KeySwitchLWETo ModSwitch MonomialMulAddGLWETo MonomialMulGLWE MonomialMulGLWEInPlace MonomialMulGLWETo
MonomialMulSubGLWETo NegFFTGLWE NegFFTGLWETo NegGLWE NegGLWETo NegLWE NegLWETo PermuteAddFFTGLWETo
PermuteAddGLWETo PermuteFFTGLWE PermuteFFTGLWEInPlace PermuteFFTGLWETo PermuteGLWE PermuteGLWEInPlace
PermuteGLWETo PermuteSubFFTGLWETo PermuteSubGLWETo PolyMulAddFFTGLWETo PolyMulAddGLWETo PolyMulFFTGLWE
PolyMulFFTGLWETo PolyMulGLWE PolyMulGLWETo PolyMulSubFFTGLWETo PolyMulSubGLWETo ReRandGLWETo ReRandLWETo
SanitizeFunc SanitizeFuncTo SanitizeLUT SanitizeLUTTo ScalarMulAddGLWETo ScalarMulAddLWETo ScalarMulGLWE
ScalarMulGLWETo ScalarMulLWE ScalarMulLWETo ScalarMulSubGLWETo ScalarMulSubLWETo SubFFTGLWE SubFFTGLWETo
SubGLWE SubGLWETo SubLWE SubLWETo SubPlainGLWE SubPlainGLWETo SubPlainLWE SubPlainLWETo`,
}
