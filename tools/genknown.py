#!/usr/bin/env python3
"""Writes /verif/known_findings.json (committed; no check writes it)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], stdout=subprocess.PIPE, text=True, check=True).stdout
h = {}
for l in log.splitlines():
    a, b = l.split("\t", 1)
    h[b] = a
F = []
def fixed(props, subj, what):
    c = h["fix: " + subj]
    for p in props:
        F.append({"property": p, "status": "fixed", "commit": c, "line": "fixed: property=%s %s %s" % (p, c, what)})
fixed(["C11", "C01"], "rotate by the ciphertext body correctly in extended blind rotation", "look-up tables larger than the ring were rotated the wrong way among their components by the ciphertext body (LUTSize > PolyRank, shipped ParamsUint6-8 included): phases not on a multiple of the extension factor read a wrong table entry")
fixed(["C11", "C01"], "extended blind rotation with a single block", "with LUTSize > PolyRank and a single key block the accumulator was not extracted: the result was garbage")
fixed(["C18"], "ModInverse for unsigned types", "ModInverse returned wrong values or did not terminate for unsigned types")
fixed(["C18"], "ModExp for large moduli and modulus one", "ModExp overflowed for moduli above 2^32 and returned 1 for modulus 1")
fixed(["C18"], "DivRound beyond 53 bits", "DivRound rounded through float64 and was wrong beyond 53 bits")
fixed(["C04", "M01"], "reduce negative and large messages for any message modulus", "encoding a negative or overlarge message with a message modulus that is not a power of two gave another message")
fixed(["C04"], "decode with the automatic message modulus when scale is small", "DecodeLWECustom with message modulus 0 divided by zero for scales up to 2 and lost messages for small scales")
fixed(["C15", "C16"], "vector arithmetic on empty vectors", "AVX2 vector kernels entered their tail loop for empty vectors and faulted")
fixed(["C23"], "count the value bytes in LWESecretKey.ReadFrom", "LWESecretKey.ReadFrom reported only the header bytes")
fixed(["M01"], "multi-key decryptor for any subset of parties", "a decryptor that does not know every party's key dereferenced nil; AddSecretKey left the key unused")
fixed(["C25"], "do not share buffers between safe copies of the multi-key decryptor", "mktfhe Decryptor.SafeCopy shared the decryption buffer")
fixed(["M04"], "subtract the whole external product in multi-key ExternalProdSubGLWETo", "ExternalProdSubGLWETo of mktfhe added part of the product")
fixed(["M01"], "reject the party index PartyCount in multi-key encryptors", "an encryptor for party index PartyCount was accepted and produced undecryptable ciphertexts")
fixed(["M04"], "reduce the decrypted uni-encryption by the gadget base", "UniDecrypt reduced by the ciphertext message modulus instead of the gadget base")
fixed(["M02"], "centre the decision regions of multi-key XOR and XNOR", "multi-key XOR/XNOR had no margin on one side of the decision boundary: fresh noise flipped the result")
fixed(["X01"], "use the arguments of BFV TensorTo and RelinearizeTo", "TensorTo and RelinearizeTo operated on internal buffers instead of their arguments")
fixed(["C29", "M06"], "copy the gadget parameters of uni-encryptions", "CopyFrom of uni-encryptions kept the receiver's gadget parameters")
fixed(["X07"], "tabulate the discrete Gaussian around its centre", "NewCDTSampler tabulated the wrong range for centres far from zero and returned a constant")
fixed(["X03"], "align the intervals of multi-output look-up tables to the function count", "multi-output look-up tables for message moduli that do not divide the table permuted the outputs among functions")
fixed(["C03", "C06", "C28"], "overwrite the mask of the output in public-key encryption", "public-key encryption added the mask to the previous content of the output (and of the encryptor's own buffer for Fourier ciphertexts), giving undecryptable ciphertexts")
fixed(["C08", "C30"], "CMuxTo over its second branch", "CMuxTo with the output in place of the second branch always returned the first one")
fixed(["C24"], "count all header bytes when serialization of Fourier values fails", "a stream failing inside the header of a Fourier key or ciphertext made WriteTo and ReadFrom report only the bytes of the last header field")
fixed(["X05"], "round to the nearest odd index in FHEW modulus switching", "FHEW modulus switching rounded half an index up on average, so keys with a large coefficient sum shifted the rotation and some messages decoded wrongly")
import sys
sys.path.insert(0, HERE)
try:
    from knownopen import OPEN
except ImportError:
    OPEN = []
F += OPEN
subj = {x.get("commit") for x in F}
for s, c in h.items():
    if s.startswith("fix:") and c not in subj:
        print("unlisted fix", c, s)
with open(os.path.join(HERE, "..", "known_findings.json"), "w") as f:
    json.dump({"findings": F}, f, indent=1)
    f.write("\n")
print(len(F))
