"""Checks that what the checks need is installed; nothing has to be built ahead:
every check rebuilds the code under test itself."""
import shutil
import sys

import z3

import build
import refs
import spec
import terms

need = ["cargo", "rustc", "cc"]
miss = [n for n in need if not shutil.which(n)]
if miss or build.rustlib_bin() is None:
    print("missing: %s" % (miss or "llc of the rust toolchain"))
    sys.exit(1)


# the reference models against published vectors
c = terms.Ctx()


def hx(s):
    return list(bytes.fromhex(s.replace(" ", "")))


def cipher(name, key, iv, pos, n):
    ci = spec.CIPHERS[name]
    if ci.w is None:
        g = ci.stream(c, key, iv)
        return [next(g) for _ in range(pos + n)][pos:]
    f = ci.blocks(c, key, iv)
    out = []
    for b in range(pos // 64, -(-(pos + n) // 64)):
        out += f(b)
    return out[pos % 64:pos % 64 + n]


def num(bs):
    return [x for i in range(0, len(bs), 16) for x in bs[i:i + 16][::-1]]


seq32 = list(range(32))
VECTORS = [
    ("RFC 8439 2.3.2", cipher("c20", seq32, hx("000000090000004a00000000"), 64, 64),
     "10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4e"
     "d2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e"),
    ("draft-irtf-cfrg-xchacha 2.2.1", refs.words_bytes(c, refs.hchacha(c, refs.le_words(c, seq32), refs.le_words(
        c, hx("000000090000004a0000000031415927")), 20)),
     "82413b4227b27bfed30e42508a877d73a0f9e4d58a74a853c12ec41326d3ecdc"),
    ("ECRYPT Salsa20 set 1 vector 0", cipher("s20", [0x80] + [0] * 31, [0] * 8, 0, 32),
     "e3be8fdd8beca2e3ea8ef9475b29a6e7003951e1097a5c38d23b7a5fad9f6844"),
    ("NaCl HSalsa20", refs.words_bytes(c, refs.hsalsa(c, refs.le_words(c, hx(
        "4a5d9d5ba4ce2de1728e3bf480350f25e07e21c947d19e3376f09b3c1e161742")), [0, 0, 0, 0], 20)),
     "1b27556473e985d462cd51197a9a46c76009549eac6474f206c4ee0844f68389"),
    ("RFC 6229 40 bits", cipher("rc4", hx("0102030405"), None, 0, 16), "b2396305f03dc027ccc3524a0a1118a8"),
    ("RFC 6229 40 bits, offset 4096", cipher("rc4", hx("0102030405"), None, 4096, 16),
     "ff25b58995996707e51fbdf08b34d875"),
    # the RFC writes keys and blocks as 128-bit numbers, most significant byte first
    ("RFC 4503 A.1", num(cipher("rabbitk", hx("912813292E3D36FE3BFC62F1DC51C3AC")[::-1], None, 0, 48)),
     "3d2df3c83ef627a1e97fc38487e2519cf576cd61f4405b8896bf53aa8554fc19e5547473fbdb43508ae53b20204d4c5e"),
    ("RFC 4503 A.2", num(cipher("rabbit", [0] * 16, [0] * 8, 0, 16)), "c6a7275ef85495d87ccd5d376705b7ed"),
    ("HC-256 zero key and IV", cipher("hc", [0] * 32, [0] * 32, 0, 32),
     "5b078985d8f6f30d42c5c02fa6b6795153f06534801f89f24e74248b720b4818"),
]
bad = 0
for name, got, want in VECTORS:
    if bytes(got).hex() != want:
        print("reference model differs from %s:\n  %s\n  %s" % (name, bytes(got).hex(), want))
        bad = 1
if bad:
    sys.exit(1)
print("z3 %s, %d published vectors agree with the reference models, ready" % (z3.get_version_string(), len(VECTORS)))
