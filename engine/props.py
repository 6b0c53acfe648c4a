"""The cases that decide each property (see DESIGN.md)."""
from build import Config
from case import Case
from spec import (CIPHERS, program, core_program, rng_program, two_program, hfunc, raw_program, generator, lengths, lengths_each,
                  drop_probe, debug_probe, with_ct, with_cpu)

CHACHA = ("c8", "c12", "c20")
XCHACHA = ("x8", "x12", "x20")
SALSA = ("s8", "s12", "s20")
XSALSA = ("y8", "y12", "y20")
SEEKABLE = CHACHA + ("l20",) + XCHACHA + SALSA + XSALSA
SEQ = ("rc4", "rabbit", "rabbitk", "hc")
FEATURES = {
    "chacha": ("stream", "lstream", "xstream", "core", "lcore", "hchacha", "rng", "full"),
    "salsa": ("stream", "xstream", "core", "raw", "hsalsa"),
    "rc4": ("stream",), "rabbit": ("stream", "core"), "hc256": ("stream", "core"),
}

# ------------------------------------------------------- configurations
BACKENDS = ("soft", "sse2", "avx2", "avx512")
FORCED = ("fsse2", "favx2", "favx512")


def cfg(crate, be="avx2", features=None, **k):
    """be: which ChaCha backend runs (other crates have only one)"""
    f = FEATURES[crate] if features is None else features
    if crate != "chacha":
        if be in ("neon", "be", "i686"):
            k["target"] = TARGETS[be]
        return Config(crate, f, **k)
    if be == "soft":
        return Config(crate, f, cfgs=['chacha20_backend="soft"'], **k)
    if be == "sse2":
        return Config(crate, f, tokens={"": 0}, **k)
    if be == "avx2":
        return Config(crate, f, tokens={"": 1}, **k)
    if be == "avx512":
        return Config(crate, f, cfgs=["chacha20_avx512"], tokens={"avx512": 1, "avx2": 1, "": 1}, **k)
    if be == "avx512no":      # AVX-512 build on a machine that has only AVX2
        return Config(crate, f, cfgs=["chacha20_avx512"], tokens={"avx512": 0, "avx2": 1, "": 0}, **k)
    if be == "avx512none":
        return Config(crate, f, cfgs=["chacha20_avx512"], tokens={"": 0}, **k)
    if be == "fsse2":
        return Config(crate, f, cfgs=['chacha20_backend="sse2"'], **k)
    if be == "favx2":
        return Config(crate, f, cfgs=['chacha20_backend="avx2"'], rustc=["-C", "target-feature=+avx2"], **k)
    if be == "favx512":
        return Config(crate, f, cfgs=['chacha20_backend="avx512"', "chacha20_avx512"],
                      rustc=["-C", "target-feature=+avx512f,+avx512vl"], **k)
    if be == "i686":
        return Config(crate, f, target=TARGETS[be], tokens={"": 1}, **k)
    if be == "i686avx512":
        return Config(crate, f, target=TARGETS["i686"], cfgs=["chacha20_avx512"], tokens={"": 1}, **k)
    if be == "i686sse2":
        return Config(crate, f, target=TARGETS["i686"], tokens={"avx2": 0, "": 1}, **k)
    if be == "i686soft":
        return Config(crate, f, target=TARGETS["i686"], tokens={"": 0}, **k)
    if be == "auto":          # run-time detection, on a symbolic processor
        return Config(crate, f, **k)
    if be == "auto512":
        return Config(crate, f, cfgs=["chacha20_avx512"], **k)
    return Config(crate, f, target=TARGETS[be], **k)


TARGETS = {"neon": "aarch64-unknown-linux-gnu", "i686": "i686-unknown-linux-gnu", "i586": "i586-unknown-linux-gnu", "be": "s390x-unknown-linux-gnu",
           "neonbe": "aarch64_be-unknown-linux-gnu"}


class L:
    """case list under construction"""

    def __init__(self):
        self.cases = []

    def add(self, name, cf, fn, **k):
        self.cases.append(Case(name, cf, fn, **k))

    def prog(self, ci, ops, be="avx2", tag="", skew=0, ct=False, kl=None, fn=None, cf=None, **k):
        ci = CIPHERS[ci]
        f = program(ci, ops, skew=skew, kl=kl, fn=fn)
        if ct:
            f = with_ct(f)
        self.add("%s/%s %s%s" % (ci.name, be, tag, ops if not tag else ""), cf or cfg(ci.crate, be), f, **k)

    def core(self, ci, ops, be="avx2", tag="", skew=0, ct=False, kl=None, fn=None, cf=None, **k):
        ci = CIPHERS[ci]
        f = core_program(ci, ops, fn or "k_" + ci.name, skew=skew, kl=kl)
        if ct:
            f = with_ct(f)
        self.add("core %s/%s %s%s" % (ci.name, be, tag, ops), cf or cfg(ci.crate, be), f, **k)

    def rng(self, rounds, ops, be="avx2", tag="", ct=False, skew=0, cf=None, **k):
        f = rng_program(rounds, ops, skew=skew)
        if ct:
            f = with_ct(f)
        self.add("rng%d/%s %s%s" % (rounds, be, tag, ops if not tag else ""), cf or cfg("chacha", be), f, **k)


def backends(th):
    return BACKENDS + FORCED + ("avx512no", "avx512none") if th else BACKENDS


# ------------------------------------------------------------ properties
def C01(th):
    """ChaCha8/12/20 block function, IETF, every key, nonce, counter"""
    l = L()
    for be in backends(th):
        for n in CHACHA:
            l.core(n, [("set",), ("w1",), ("w1",), ("get",)], be)
            if be == "soft" or th:
                l.prog(n, [("seek", "u64", 0), ("in", 130)], be)
    for n in CHACHA:
        l.prog(n, [("in", 65)], "avx2")
    return l.cases


def C02(th):
    """many blocks at once, counter advances by the number of blocks (mod 2^32)"""
    l = L()
    counts = {"soft": (0, 1, 2, 5), "sse2": (0, 2, 3, 4, 5, 7, 8, 9, 13), "avx2": (0, 2, 3, 4, 5, 6, 7, 8, 9, 13),
              "avx512": tuple(range(0, 34)) + (47, 48)}
    for be in backends(th):
        for k in counts.get(be, counts["avx512"] if "512" in be else counts["avx2"]):
            op = ("w", "a", "ab")[k % 3]
            l.core("c8", [("set",), (op, k), ("get",), ("w1",)], be)
        if th:
            for k in (15, 16, 17, 18, 19, 20, 21, 24, 25, 63, 64, 65):
                l.core("c8", [("set",), ("a", k), ("w", 1), ("get",)], be)
        for n in ("c12", "c20"):
            l.core(n, [("set",), ("a", 18 if "512" in be else 6), ("get",), ("ab", 5), ("get",)], be)
    l.core("c20", [("setto", 0), ("w", 3), ("set",), ("w", 4), ("set",), ("a1",), ("get",)], "avx2")
    # more blocks in one call than a byte can count
    for be in backends(th):
        l.core("c8", [("set",), ("w", 257), ("get",), ("w1",)], be, timeout=700)
        if th:
            l.core("c20", [("set",), ("a", 530), ("get",), ("w1",)], be, timeout=3000)
    return l.cases


def C03(th):
    """64-bit block counter of the legacy variant and of the RNG's generator"""
    l = L()
    for be in backends(th):
        for k in ((1, 4, 5) if not ("512" in be) else (1, 4, 7, 8, 15, 16, 17, 31)):
            l.core("l20", [("set",), ("a", k), ("get",), ("w1",), ("get",)], be)
        for r in (8, 12, 20):
            l.add("generator legacy R%d/%s" % (r, be), cfg("chacha", be), generator(r, "l", 1 if r > 8 else 3))
        l.prog("l20", [("seek", "u64", 0), ("in", 130), ("pos", "u64")], be)
        for r in (8, 20):
            l.add("generator ietf R%d/%s" % (r, be), cfg("chacha", be), generator(r, "c", 1 if r > 8 else 3))
    for be in BACKENDS:
        l.core("l20", [("set",), ("w", 257), ("get",), ("w1",), ("get",)], be, timeout=1500)
    if th:
        for be in ("avx2", "avx512"):
            for k in (2, 3, 6, 9, 12, 13, 24, 32, 33):
                l.core("l20", [("set",), ("w", k), ("get",)], be)
    return l.cases


def C04(th):
    """XChaCha: HChaCha subkey, 192-bit nonce"""
    l = L()
    for be in backends(th):
        for r in (8, 12, 20):
            l.prog("x%d" % r, [("in", 70)], be)
            if be in ("soft", "avx2") or th:
                l.add("hchacha R%d/%s" % (r, be), cfg("chacha", be), hfunc("chacha", r))
                l.prog("x%d" % r, [("seek", "u32", 0), ("write", 64 * 6), ("pos", "u64")], be)
        l.prog("x20", [("seek", "u64", 5), ("in", 200), ("pos", "u64")], be)
    return l.cases


def C05(th):
    l = L()
    for n in SALSA:
        l.core(n, [("set",), ("w1",), ("get",), ("rem",)], "")
        l.core(n, [("set",), ("a", 3), ("get",), ("a1",), ("ab", 2), ("get",)], "")
        l.prog(n, [("in", 65)], "")
        l.prog(n, [("seek", "u64", 0), ("in", 130)], "")
        if th:
            for k in (4, 5, 8, 16, 20):
                l.core(n, [("set",), ("w", k), ("get",)], "")
        l.core(n, [("set",), ("w", 257), ("get",), ("w1",)], "", timeout=700)
    l.prog("s8", [("seek", "u64", 61), ("in", 2), ("b2b", 64 * 257 + 5), ("in", 9)], "", timeout=700)
    return l.cases


def C06(th):
    l = L()
    for r in (8, 12, 20):
        l.add("hsalsa R%d" % r, cfg("salsa"), hfunc("salsa", r))
        n = "y%d" % r
        l.prog(n, [("in", 70)], "")
        l.core(n, [("set",), ("w1",), ("a", 3), ("get",), ("rem",)], "")
        l.prog(n, [("seek", "u64", 9), ("in", 140), ("pos", "u64")], "")
        l.core(n, [("set",), ("w", 257), ("get",), ("w1",)], "", timeout=700)
    return l.cases


def C07(th):
    l = L()
    ks = range(1, 257) if th else (1, 2, 3, 5, 7, 8, 13, 16, 24, 32, 40, 64, 128, 255, 256)
    for k in ks:
        l.prog("rc4", [("in", 20)], "", tag="key %d bytes" % k, kl=k)
    l.prog("rc4", [("in", 300), ("write", 3)], "", tag="past 256 bytes", kl=16, timeout=500)
    l.prog("rc4", [("in", 5), ("b2b", 6), ("write", 7), ("inout", 8), ("in", 0), ("in", 1)], "", tag="mixed calls", kl=5)
    l.prog("rc4", [("in", 600)], "", tag="600 bytes", kl=16, timeout=1500)
    if th:
        l.prog("rc4", [("in", 1100)], "", tag="1100 bytes", kl=5, timeout=3000)
    return l.cases


def C08(th):
    l = L()
    for n in ("rabbit", "rabbitk"):
        l.prog(n, [("in", 70)], "")
        l.prog(n, [("write", 160 if not th else 600)], "")
        l.prog(n, [("in", 5), ("b2b", 16), ("in", 11), ("write", 17), ("inout", 33), ("in", 0), ("in", 1)], "")
        l.core(n, [("w1",), ("a", 3), ("ab", 2), ("a1",), ("w", 4), ("rem",)], "")
        l.core(n, [("w", 257), ("w1",), ("ab", 20)], "", timeout=700)
        l.prog(n, [("in", 2), ("b2b", 16 * 257 + 5), ("in", 9)], "", timeout=700)
    l.core("rabbit", [("a", 3), ("w1",)], "", tag="InnerIvInit", fn="k_rabbiti")
    return l.cases


def C09(th):
    l = L()
    l.prog("hc", [("in", 70)], "", timeout=500)
    l.prog("hc", [("in", 3), ("b2b", 5), ("write", 9), ("inout", 2), ("in", 0), ("in", 1)], "", timeout=500)
    l.core("hc", [("w1",), ("a", 3), ("ab", 2), ("a1",), ("w", 4)], "", timeout=500)
    l.core("hc", [("w", 1026), ("a", 1026)], "", tag="past both table refreshes", timeout=700)
    if th:
        l.prog("hc", [("in", 4090), ("in", 4200), ("b2b", 8200)], "", tag="two table cycles", timeout=1500)
    return l.cases


ALLMODES = ("in", "b2b", "write", "inout", "in!", "b2b!", "write!", "inout!", "mut!")
EVERY = SEEKABLE + SEQ


def main_backends(n):
    """the backends cipher n can run on"""
    return BACKENDS if CIPHERS[n].crate == "chacha" else ("",)


def all_backends(n, th):
    return backends(th) if CIPHERS[n].crate == "chacha" else ("",)


def C10(th):
    """all forms of a call agree; decryption undoes encryption"""
    l = L()
    for n in EVERY:
        for be in all_backends(n, th):
            if be not in ("soft", "", "avx2") and n not in ("c20", "x20", "l20") and not th:
                continue
            wide = 1100 if "512" in be else 300
            l.prog(n, [("in", 5), ("b2b", 70), ("inout", 9), ("write", 130), ("b2b", 1), ("in", 64)], be)
            l.prog(n, [(m, 17) for m in ALLMODES], be, tag="every form")
            if CIPHERS[n].crate == "chacha":
                for m in ("in", "b2b", "inout", "write"):
                    l.prog(n, [(m, wide)], be, tag="%s wide" % m)
            if CIPHERS[n].w:
                l.prog(n, [("seek", "u64", 7), ("in", 150)], be, tag="")
                l.prog(n, [("seekto", "u64", 1000), ("in", 150), ("seekto", "u64", 1000), ("re", 1), ("pos", "u64")],
                       be, tag="decrypt after seeking back")
            else:
                ci = CIPHERS[n]
                if n != "rabbitk":
                    l.add("%s decrypts with a second object" % n, cfg(ci.crate, features=("two",)),
                          two_program(ci, [(0, "in", 21), (0, "in", 40), (1, "re", 0), (1, "re", 1)], "t_" + n,
                                      same=True), timeout=500)
    return l.cases


SPLITS = [
    [1, 62, 1, 64, 65, 63, 129, 0, 7],
    [255, 1, 257, 31, 0, 33],
    [3, 64, 61, 256, 300],
    [64, 64, 64, 64, 64, 64],
    [0, 0, 1],
]
SPLITS512 = [[1023, 1, 1025, 5], [7, 1100, 900, 64], [64 * 15, 64 * 16, 64 * 17]]
SPLITSEQ = [[1, 3, 4, 5, 15, 16, 17, 0, 31, 33], [64, 64, 7], [2, 2, 2, 2, 2, 2, 2, 2], [63, 1, 65]]


def C11(th):
    """how the message is cut into calls makes no difference"""
    l = L()
    for n in EVERY:
        for be in all_backends(n, th):
            if not th and be not in ("soft", "", "avx2", "sse2", "avx512"):
                continue
            full = n in ("c20", "l20", "x20", "c8", "s20", "y20") or th
            pats = SPLITS if full else SPLITS[:2]
            if n in SEQ:
                pats = SPLITSEQ
            if "512" in be and full:
                pats = pats + SPLITS512
            for i, pt in enumerate(pats):
                modes = ("in", "b2b", "write", "inout")
                l.prog(n, [(modes[(i + j) % 4], k) for j, k in enumerate(pt)], be,
                       tag="split %s" % "+".join(map(str, pt)), timeout=500)
            if CIPHERS[n].w and full:
                l.prog(n, [("seek", "u64", 61), ("in", 2), ("in", 2), ("in", 63), ("b2b", 257), ("in", 1)], be)
            if n in ("c8", "s8", "rabbit") or th:
                l.prog(n, [("in", 2), ("b2b", CIPHERS[n].bs * 257 + 5), ("in", 9), ("inout", 3)], be, tag="long call", timeout=900)
    return l.cases


def C12(th):
    """seeking"""
    l = L()
    for n in SEEKABLE:
        ci = CIPHERS[n]
        key = n in ("c20", "l20", "x20", "s20", "y20")
        offs = range(64) if th else ((0, 1, 31, 32, 63) if key else (0, 40, 63))
        for i, o in enumerate(offs):
            kinds = ("u64", "u128", "u32", "usize") if (key and o in (0, 63)) or th else (("u64", "u128")[i % 2],)
            for k in kinds:
                l.prog(n, [("seek", k, o), ("pos", "u64"), ("in", 70), ("pos", "u128")], "avx2")
        l.prog(n, [("in", 70), ("pos", "u32"), ("seek", "u128", 5), ("pos", "u128"), ("in", 3), ("pos", "u64"),
                   ("seekto", "u32", 64), ("in", 65), ("pos", "u64"), ("seekto", "u64", 0), ("in", 1)], "avx2")
        l.prog(n, [("pos", "u64"), ("in", 64), ("pos", "u64"), ("in", 1), ("pos", "u64"), ("in", 63), ("pos", "u128"),
                   ("write", 192), ("pos", "u32"), ("b2b", 5), ("pos", "u64")], "avx2", tag="position while streaming")
        l.prog(n, [("seek", "u64", 3), ("seek", "u64", 0), ("in", 5), ("pos", "u64"), ("seek", "u32", 1), ("in", 64),
                   ("pos", "u128")], "avx2")
        if ci.crate == "chacha":
            for be in (b for b in backends(th) if b != "avx2"):
                wide = 64 * 17 if "512" in be else 64 * 5
                l.prog(n, [("seek", "u64", 30), ("in", wide), ("pos", "u64"), ("in", 40), ("pos", "u128")], be)
    for n in ("c20", "l20"):
        for be in BACKENDS:
            l.core(n, [("get",), ("set",), ("get",), ("w1",), ("get",), ("set",), ("a", 4), ("get",)], be)
    for n in ("s8", "s12", "s20", "y8", "y12", "y20"):
        l.core(n, [("get",), ("set",), ("get",), ("w1",), ("get",), ("set",), ("a", 4), ("get",)], "")
    return l.cases


def C13(th):
    """the keystream ends before the counter repeats"""
    l = L()
    for n in SEEKABLE:
        ci = CIPHERS[n]
        K = "u64" if ci.w == 32 else "u128"
        M = ((1 << ci.w) - 1) * 64
        key = n in ("c20", "l20", "x20", "s20", "y20")
        for be in (all_backends(n, th) if key else ("avx2" if ci.crate == "chacha" else "",)):
            # symbolic position: near the end the solver finds both outcomes
            for o, ln in ((0, 64), (0, 65), (63, 1), (63, 2), (1, 128), (0, 320), (32, 33)):
                if not key and (o, ln) not in ((0, 65), (63, 2)):
                    continue
                l.prog(n, [("seek", K, o), ("check", ln), ("in", ln), ("pos", K if K == "u64" else "u128"),
                           ("check", 1)], be)
            for back, ln in ((0, 0), (0, 1), (1, 1), (1, 2), (64, 64), (64, 65), (65, 66), (129, 129), (129, 130),
                             (256, 256), (256, 257), (300, 300), (320, 321)):
                l.prog(n, [("seekto", K, M - back), ("check", ln), ("in", ln), ("check", 0), ("check", 1), ("in", 1)],
                       be, tag="%d before the end, %d bytes " % (back, ln))
            if key:
                l.prog(n, [("seekto", K, M - 70), ("in", 3), ("b2b", 66), ("write", 2), ("inout", 1), ("write", 1),
                           ("in", 0)], be, tag="end in pieces")
                for i, m in enumerate(("in!", "b2b!", "write!", "inout!", "mut!")):
                    l.prog(n, [("seekto", K, M - 5), (m, 5)], be, tag="%s just fits" % m)
                    l.prog(n, [("seekto", K, M - 5), (m, 6)], be, tag="%s too long" % m)
                    l.prog(n, [("seekto", K, M), (m, 1)], be, tag="%s at the end" % m)
                l.prog(n, [("seekto", K, M + 1), ("pos", "u64"), ("in", 3)], be, tag="seek past the end")
                l.prog(n, [("seekto", "u128", 1 << 100), ("pos", "u64"), ("in", 3)], be, tag="seek far past the end")
                l.prog(n, [("seekto", "u64", 2 ** 64 - 1), ("pos", "u128"), ("in", 3)], be, tag="largest u64")
                wide = 64 * 20 if "512" in be else 64 * 6
                l.prog(n, [("seekto", K, M - wide), ("in", wide), ("in", 1)], be, tag="wide to the end")
                l.prog(n, [("seekto", K, M - wide), ("in", wide + 1), ("pos", "u128"), ("in", wide)], be,
                       tag="wide past the end")
                if n in ("c20", "l20", "s20"):
                    wide = 64 * 257
                    l.prog(n, [("seekto", K, M - wide), ("b2b", wide), ("in", 1)], be, tag="257 blocks to the end", timeout=700)
        c = "avx2" if ci.crate == "chacha" else ""
        if ci.kind in ("ietf", "legacy", "salsa", "xsalsa"):
            l.core(n, [("set",), ("rem",), ("w1",), ("rem",), ("a", 3), ("rem",)], c)
            for v in (0, (1 << ci.w) - 1, (1 << ci.w) - 2, 1 << (ci.w - 1)):
                l.core(n, [("setto", v), ("rem",), ("get",)], c, tag="at %#x" % v)
    for n in ("rabbit", "rabbitk", "hc"):
        l.prog(n, [("check", 0), ("check", 1), ("check", 10 ** 6), ("in", 20), ("check", 2 ** 31)], "", timeout=500)
        l.core(n, [("rem",), ("w1",), ("rem",)], "", timeout=500)
    l.prog("rc4", [("check", 0), ("check", 10 ** 6), ("in", 9)], "")
    return l.cases


def C14(th):
    """RNG output"""
    l = L()
    for be in backends(th):
        l.rng(8, [("words", 130)], be)
        l.rng(8, [("dwords", 70)], be)
        l.rng(8, [("setw", 0), ("words", 70), ("wpos",)], be)
        l.rng(8, [("sets",), ("fill", 300)], be)
        l.rng(8, [("u32",), ("fill", 5), ("u64",), ("fill", 1), ("u32",), ("fill", 250), ("u64",), ("fill", 3),
                  ("tu32",), ("tu64",), ("tfill", 9)], be)
        for k in (61, 62, 63, 64):
            l.rng(8, [("words", k), ("u64",), ("u32",), ("fill", 7), ("u64",)], be, tag="u64 after %d words" % k)
        for k in (0, 1, 4, 255, 256, 257, 512, 515):
            l.rng(8, [("fill", k), ("u32",), ("fill", 256), ("u64",)], be, tag="fill %d" % k)
        for r in (12, 20):
            l.rng(r, [("words", 65), ("u64",)], be)
            l.rng(r, [("sets",), ("setw", 5), ("u64",), ("fill", 40)], be)
        if th:
            for k in range(0, 64):
                l.rng(8, [("words", k), ("u64",), ("fill", 3 * k + 1), ("u32",)], be, tag="phase %d" % k)
        l.rng(8, [("words", 530), ("u64",), ("wpos",)], be, tag="530 words", timeout=700)
        l.rng(8, [("sets",), ("setw", 5), ("words", 1100), ("wpos",)], be, tag="1100 words", timeout=900)
        l.rng(8, [("sets",), ("setw", 5), ("fill", 4400), ("u32",), ("wpos",)], be, tag="fill 4400", timeout=900)
    l.rng(20, [("words", 130), ("fill", 300)], "avx2")
    return l.cases


def C15(th):
    """RNG positions and streams"""
    l = L()
    for be in backends(th):
        few = be not in ("soft", "avx2")
        for o in range(16):
            if few and o not in (0, 1, 15) and not th:
                continue
            l.rng(8, [("setw", o), ("wpos",), ("bpos",), ("u32",), ("wpos",), ("bpos",), ("u64",), ("wpos",)], be)
        for k in (1, 15, 16, 17, 48, 63, 64, 65, 66, 127, 128, 129):
            if few and k not in (1, 63, 64, 65) and not th:
                continue
            l.rng(8, [("setb",), ("bpos",), ("wpos",), ("words", k), ("wpos",), ("bpos",), ("u32",), ("wpos",)], be)
        l.rng(8, [("wpos",), ("bpos",), ("stream",), ("u32",), ("sets",), ("stream",), ("wpos",), ("bpos",), ("u32",),
                  ("wpos",)], be)
        l.rng(8, [("sets",), ("setw", 3), ("stream",), ("fill", 70), ("wpos",), ("stream",), ("sets",), ("u64",)], be)
        l.rng(8, [("seed",), ("words", 5), ("seed",), ("setw", 0), ("seed",), ("sets",), ("seed",)], be)
        l.rng(8, [("fill", 61), ("wpos",), ("bpos",), ("setb",), ("fill", 3), ("wpos",), ("setw", 9), ("fill", 1),
                  ("wpos",), ("bpos",)], be)
        for v in ((1 << 68) - 1, 1 << 68, (1 << 128) - 1, (1 << 36) - 1, (1 << 36), (1 << 68) - 20):
            l.rng(8, [("setwto", v), ("wpos",), ("bpos",), ("u32",), ("wpos",), ("bpos",), ("u64",), ("wpos",),
                      ("words", 40), ("wpos",), ("bpos",)], be, tag="at %#x" % v)
        for r in (12, 20):
            l.rng(r, [("sets",), ("setw", 7), ("wpos",), ("stream",), ("u32",), ("wpos",), ("bpos",), ("seed",)], be)
            l.rng(r, [("setb",), ("u64",), ("wpos",), ("bpos",), ("sets",), ("bpos",), ("stream",), ("u32",)], be)
    return l.cases


def C16(th):
    """RNG serialization"""
    l = L()
    for be in backends(th):
        few = be not in ("soft", "avx2")
        for k in ((0, 1, 17, 63, 64, 65) if not th else range(0, 130)):
            l.rng(8, [("sets",), ("setw", 4), ("words", k), ("ser",), ("move",), ("words", 6), ("y", "words", 6),
                      ("y", "wpos",), ("y", "stream"), ("y", "seed")], be, tag="after %d words" % k)
        for o in ((0, 9) if few and not th else range(16)):
            l.rng(8, [("des", o), ("stream",), ("wpos",), ("seed",), ("ser",), ("u32",), ("u64",), ("wpos",)], be)
        l.rng(8, [("words", 3), ("ser",), ("u32",), ("ser",), ("move",), ("y", "fill", 300), ("fill", 300)], be)
        l.rng(8, [("setwto", (1 << 68) - 3), ("ser",), ("words", 9), ("ser",), ("move",), ("y", "u64"), ("u64",)], be)
        for r in (12, 20):
            l.rng(r, [("sets",), ("setw", 2), ("u32",), ("ser",), ("move",), ("u64",), ("y", "u64"), ("y", "ser")], be)
            l.rng(r, [("des", 11), ("ser",), ("u32",), ("ser",)], be)
    return l.cases


def C17(th):
    """RNG equality"""
    l = L()
    for be in (backends(th) if th else ("avx2", "soft")):
        for r in (8, 12, 20):
            l.rng(r, [("eq",), ("move",), ("eq",), ("u32",), ("eq",), ("y", "u32"), ("eq",)], be)
            l.rng(r, [("move",), ("sets",), ("eq",), ("y", "sets"), ("eq",)], be)
            l.rng(r, [("move",), ("setw", 3), ("y", "setw", 3), ("eq",), ("y", "eq")], be)
        l.rng(8, [("move",), ("setw", 3), ("y", "setw", 9), ("eq",), ("u32",), ("eq",)], be)
        l.rng(8, [("move",), ("words", 20), ("y", "setwto", 20), ("eq",), ("y", "u32"), ("eq",)], be,
              tag="different buffers, same point")
        l.rng(8, [("move",), ("words", 64), ("y", "setwto", 64), ("eq",)], be, tag="buffer used up")
        l.rng(8, [("move",), ("setb",), ("y", "setb"), ("eq",), ("u32",), ("y", "u32"), ("eq",)], be)
        l.rng(8, [("setw", 2), ("move",), ("words", 70), ("y", "fill", 280), ("eq",)], be)
        l.rng(8, [("reseed",), ("eq",)], be)
    return l.cases


ZF = {"chacha": ("drop", "rng", "zeroize"), "salsa": ("drop", "zeroize"), "rc4": ("drop", "zeroize"),
      "rabbit": ("drop", "zeroize"), "hc256": ("drop", "zeroize")}


def C18(th):
    """nothing secret stays in a dropped object"""
    l = L()

    def d(n, be, crate, fn, kl, il, ops, nbuf, size, tag, witness=16):
        l.add("drop %s/%s %s" % (n, be, tag), cfg(crate, be or "avx2", features=ZF[crate]),
              drop_probe(fn, kl, il, ops, nbuf, size, witness), timeout=500)
    for n in SEEKABLE + SEQ:
        ci = CIPHERS[n]
        size = 4096 + 8192 + 1024 if n == "hc" else 768
        for be in all_backends(n, th):
            if be in ("soft", "sse2") and n not in ("c20", "l20", "x20") and not th:
                continue
            wit = 16
            progs = [([], 0, "fresh"), ([(1, 0, 70)], 70, "after 70 bytes"), ([(1, 0, 64), (5, 64, 1)], 65, "at a block edge")]
            if ci.w:
                progs.append(([(21, None, 0), (1, 0, 3)], 3, "after a seek"))
            for ops, nb, tag in progs:
                d(n, be, ci.crate, "d_" + n, ci.kl if n != "rc4" else 32, ci.il, ops, nb, size, tag, wit)
    for n, il in (("c20", 12), ("l20", 8)):
        for be in backends(th):
            d("core " + n, be, "chacha", "e_" + n, 32, il, [(41, None, 0), (44, 0, 2)], 128, 256, "two blocks")
    for n, il in (("s20", 8), ("y20", 24)):
        d("core " + n, "", "salsa", "e_" + n, 32, il, [(41, None, 0), (44, 0, 2)], 128, 256, "two blocks")
    for r in (8, 12, 20):
        for be in backends(th):
            for ops, nb, tag in (([], 0, "fresh"), ([(0, 0, 0)], 0, "one word"), ([(2, 0, 300)], 300, "300 bytes"),
                                 ([(4, None, 0), (8, None, 0), (1, 0, 0)], 0, "moved")):
                d("rng%d" % r, be, "chacha", "d_r%d" % r, 32, 0, ops, nb, 1024, tag)
    return l.cases


def C19(th):
    """no panic, no overflow, no access outside the buffers"""
    l = L()
    for n in EVERY:
        ci = CIPHERS[n]
        key = n in ("c20", "l20", "x20", "s20", "y20", "c8") or n in SEQ
        for be in all_backends(n, th):
            if not key and be not in ("", "avx2"):
                continue
            wide = 64 * 17 + 5 if "512" in be else 64 * 5 + 3
            for sk in ((1, 7, 15) if key else (3,)):
                l.prog(n, [("in", 3), ("b2b", 65), ("inout", 64), ("write", 130), ("b2b", 0), ("in", wide)], be,
                       tag="buffers at +%d" % sk, skew=sk, timeout=500)
            if ci.w:
                K = "u64" if ci.w == 32 else "u128"
                l.prog(n, [("seek", K, 17), ("in", 100), ("pos", "u64"), ("seek", "u32", 63), ("b2b", 66),
                           ("pos", "u32"), ("write", 1)], be, skew=5)
                l.prog(n, [("seek", "usize", 0), ("pos", "u32"), ("seek", K, 1), ("pos", "u128"), ("check", 2 ** 40)],
                       be)
            l.prog(n, [("in", 0), ("b2b", 0), ("write", 0), ("inout", 0), ("mismatch", 0, 3),
                       ("mismatch", 5, 0), ("mismatch", 64, 65), ("in", 7)], be, tag="empty and mismatched")
            if key and ci.crate == "chacha":
                for k in ((2, 3, 5, 7) if "512" not in be else (2, 5, 15, 17, 31, 33)):
                    l.prog(n, [("b2b", 64 * k - 1), ("in", 64 * k + 2)], be, tag="%d blocks" % k, skew=1)
    for n in ("c20", "l20", "s20", "y20"):
        for be in all_backends(n, th):
            l.core(n, [("set",), ("get",), ("rem",), ("w", 0), ("a", 0), ("ab", 0), ("a", 5), ("get",), ("rem",)], be,
                   skew=9)
            for k in ((1, 2, 3, 5, 6, 7) if "512" not in be else (1, 3, 5, 6, 7, 9, 13, 15, 17, 18, 21)):
                for o in ("w", "a", "ab"):
                    if th or o == "w" or k % 2:
                        l.core(n, [(o, k)], be, tag="fit ", skew=k)
    for be in backends(th):
        l.rng(8, [("setw", 15), ("u64",), ("fill", 0), ("fill", 5), ("wpos",), ("bpos",), ("sets",), ("fill", 257),
                  ("ser",), ("bpos",)], be, skew=3)
        l.rng(8, [("des", 14), ("u64",), ("words", 64), ("bpos",), ("wpos",), ("ser",), ("move",), ("eq",)], be)
        for r in (12, 20):
            l.rng(r, [("setb",), ("u64",), ("fill", 9), ("bpos",), ("wpos",), ("ser",)], be)
    for r in (8, 12, 20):
        l.add("hchacha R%d" % r, cfg("chacha", "avx2"), hfunc("chacha", r))
        l.add("hsalsa R%d" % r, cfg("salsa"), hfunc("salsa", r))
    for k in (1, 2, 255, 256):
        l.prog("rc4", [("in", 4), ("b2b", 9)], "", tag="key of %d" % k, kl=k, skew=1)
    return l.cases


def C20(th):
    """constant time"""
    l = L()
    for n in SEEKABLE + ("rabbit", "rabbitk"):
        ci = CIPHERS[n]
        key = n in ("c20", "l20", "x20", "s20", "y20", "c8", "c12")
        for be in (all_backends(n, th) if key or th else (("avx2",) if ci.crate == "chacha" else ("",))):
            l.prog(n, [("in", 70), ("b2b", 5), ("write", 300)], be, tag="ct ", ct=True)
            if ci.w:
                l.prog(n, [("seek", "u64", 9), ("in", 200), ("pos", "u64")], be, tag="ct seek", ct=True)
                l.prog(n, [("seek", "u32", 0), ("check", 5), ("inout", 65), ("pos", "u128")], be, tag="ct inout", ct=True)
    for n in ("c20", "l20"):
        for be in backends(th):
            l.core(n, [("set",), ("w1",), ("a", 18 if "512" in be else 5), ("get",), ("rem",)], be, tag="ct ", ct=True)
    for be in backends(th):
        for r in (8, 12, 20):
            l.rng(r, [("sets",), ("setb",), ("u64",), ("fill", 300), ("wpos",), ("ser",)], be, tag="ct ", ct=True)
        l.rng(8, [("words", 66), ("ser",), ("move",), ("y", "u32"), ("seed",)], be, tag="ct words", ct=True)
    for r in (8, 12, 20):
        l.add("ct hchacha R%d" % r, cfg("chacha", "avx2"), with_ct(hfunc("chacha", r)))
        l.add("ct hsalsa R%d" % r, cfg("salsa"), with_ct(hfunc("salsa", r)))
    return l.cases


def C21(th):
    """Debug output"""
    l = L()
    F = {"chacha": ("debug", "rng"), "hc256": ("debug",)}
    for alt in (0, 1):
        for n, il in (("c8", 12), ("c12", 12), ("c20", 12), ("l20", 8), ("x8", 24), ("x12", 24), ("x20", 24),
                      ("kc8", 12), ("kc12", 12), ("kc20", 12), ("kl20", 8),
                      ("r8", 0), ("r12", 0), ("r20", 0)):
            for be in (backends(th) if th else ("avx2", "soft")):
                for st in ("block",) if n[0] == "k" else ("rng",) if n[0] == "r" else (0, 9):
                    l.add("debug %s alt=%d/%s position %s" % (n, alt, be, st),
                          cfg("chacha", be, features=F["chacha"]),
                          debug_probe("p_" + n, 32, il, 10 if st == 9 else 0, alt, start=st), sweep=False)
        for n in ("hc", "khc"):
            for nb in (0, 7):
                l.add("debug %s alt=%d after %d" % (n, alt, nb), cfg("hc256", features=F["hc256"]),
                      debug_probe("p_" + n, 32, 32, nb, alt), timeout=500, sweep=False)
    return l.cases


def C22(th):
    """key and nonce lengths"""
    l = L()

    def is_(x):
        return lambda c, v: c.eq(64, v, x)
    for n in SEEKABLE + ("rabbit", "hc"):
        ci = CIPHERS[n]
        for fn in (ci.fn, "k_" + n):
            if fn[0] == "s" or fn in CORES:
                l.add("%s key and nonce length" % fn, cfg(ci.crate, "avx2"),
                      lengths(fn, ci.kl, ci.il, is_(ci.kl), is_(ci.il)), timeout=500, sweep=False)
    for fn in ("s_rabbitk", "k_rabbitk"):
        l.add("%s key length" % fn, cfg("rabbit"), lengths(fn, 16, 0, is_(16), None), sweep=False)
    l.add("rc4 refuses other lengths", cfg("rc4"),
          lengths("s_rc4", 256, 0, lambda c, v: 0, None,
                  pre=lambda c, v: c.bor(1, c.eq(64, v, 0), c.ult(64, 256, v))), sweep=False)
    ks = range(0, 300) if th else (0, 1, 2, 3, 4, 5, 8, 13, 16, 24, 31, 32, 33, 64, 100, 128, 200, 255, 256, 257, 299)
    for k in ks:
        l.add("rc4 key of %d bytes" % k, cfg("rc4"), lengths_each("s_rc4", [k], 300, lambda k: 1 <= k <= 256),
              sweep=False)
    return l.cases


CORES = {"k_" + n for n in CHACHA + SALSA + XSALSA + ("l20", "rabbit", "hc")}


def C23(th):
    """a Salsa core from raw state words"""
    l = L()
    for r in (8, 12, 20):
        for n in ((1, 2, 5) if not th else (0, 1, 2, 3, 4, 5, 8, 17)):
            l.add("raw R%d %d blocks" % (r, n), cfg("salsa"), raw_program(r, n))
    return l.cases


def C24(th):
    """two objects do not influence each other"""
    l = L()
    for n in ("c20", "l20", "x20", "s20", "y20", "rc4", "rabbit", "hc"):
        ci = CIPHERS[n]
        for be in (all_backends(n, th) if ci.crate == "chacha" else ("",)):
            for ops in ([(0, "in", 5), (1, "in", 70), (0, "b2b", 66), (1, "write", 3), (0, "write", 130), (1, "in", 64)],
                        [(1, "write", 20), (0, "write", 20), (1, "inout", 20), (0, "inout", 20)]):
                l.add("two %s/%s %s" % (n, be, ops), cfg(ci.crate, be or "avx2", features=("two",)),
                      two_program(ci, ops, "t_" + n), timeout=500)
    for n, m in (("c8", "c20"), ("x8", "x20"), ("x20", "x12"), ("s20", "s8"), ("y12", "y20")):
        ci, ci2 = CIPHERS[n], CIPHERS[m]
        for be in (all_backends(n, th) if ci.crate == "chacha" and th else ("avx2", "soft") if ci.crate == "chacha" else ("",)):
            for same in (False, True):
                ops = [(0, "in", 5), (1, "in", 70), (0, "b2b", 66), (1, "write", 3)]
                l.add("%s and %s/%s same=%d" % (n, m, be, same), cfg(ci.crate, be or "avx2", features=("two",)),
                      two_program(ci, ops, "t_%s_%s" % (n, m), same=same, ci2=ci2), timeout=500)
    for n in ("c20", "x20", "s20", "y20", "hc", "rabbit"):
        ci = CIPHERS[n]
        l.add("two %s of one key and nonce" % n, cfg(ci.crate, "avx2", features=("two",)),
              two_program(ci, [(0, "in", 5), (1, "in", 7), (0, "write", 3)], "t_" + n, same=True), timeout=500)
    l.add("two rc4 keys of 5 and 16", cfg("rc4", features=("two",)),
          two_program(CIPHERS["rc4"], [(0, "in", 9), (1, "in", 9), (0, "in", 2)], "t_rc4", kl=5, kl2=16))
    for be in backends(th):
        l.rng(8, [("u32",), ("y", "u64"), ("fill", 9), ("y", "sets"), ("u32",), ("y", "u32"), ("y", "setw", 3),
                  ("wpos",), ("y", "wpos"), ("u64",), ("y", "words", 3)], be)
        l.rng(8, [("move",), ("words", 70), ("y", "words", 3), ("u32",), ("y", "u32"), ("seed",), ("y", "seed")], be)
    return l.cases


def C25(th):
    """the other targets"""
    l = L()
    for be in ("neon", "neonbe", "i686", "i686sse2", "i686soft", "i686avx512", "be"):
        for n in CHACHA + XCHACHA + ("l20",):
            if be in ("i686sse2", "i686soft", "i686avx512", "neonbe") and n not in ("c20", "l20", "x20") and not th:
                continue
            l.prog(n, [("seek", "u64", 0), ("in", 70), ("pos", "u64")], be)
            l.prog(n, [("in", 5), ("b2b", 64 * 5 + 3), ("write", 65), ("inout", 1)], be)
        for n in ("c8", "l20"):
            for k in ((1, 2, 3, 4, 5, 8, 9) if "neon" in be or th else (1, 4, 8, 15, 16, 17) if "512" in be else (1, 4, 5)):
                l.core(n, [("set",), ("a", k), ("get",), ("ab", 1)], be)
        for r in (8, 20) if not th else (8, 12, 20):
            l.add("generator legacy R%d/%s" % (r, be), cfg("chacha", be), generator(r, "l", 1 if r > 8 else 3))
            l.add("generator ietf R%d/%s" % (r, be), cfg("chacha", be), generator(r, "c", 1 if r > 8 else 3))
        l.rng(8, [("sets",), ("setw", 3), ("u32",), ("u64",), ("fill", 5), ("wpos",), ("bpos",), ("stream",), ("ser",)],
              be)
        l.rng(8, [("des", 5), ("seed",), ("words", 65), ("move",), ("y", "u64"), ("ser",)], be)
        l.rng(20, [("words", 65)], be)
        for n in CHACHA[:1] + ("l20",):
            K = "u64" if n != "l20" else "u128"
            M = ((1 << CIPHERS[n].w) - 1) * 64
            l.prog(n, [("seekto", K, M - 70), ("in", 70), ("in", 1)], be, tag="end")
            l.prog(n, [("seekto", K, M - 70), ("in", 71), ("pos", "u128")], be, tag="past the end")
        l.add("hchacha R20/%s" % be, cfg("chacha", be), hfunc("chacha", 20))
    for be in ("i686", "be"):
        for n in SALSA + XSALSA:
            l.prog(n, [("seek", "u64", 0), ("in", 70), ("pos", "u64"), ("write", 3)], be)
            l.core(n, [("set",), ("a", 2), ("get",), ("rem",)], be)
        l.add("raw R20/%s" % be, cfg("salsa", be), raw_program(20, 2))
        l.prog("s20", [("seekto", "u128", ((1 << 64) - 1) * 64 - 70), ("in", 71), ("in", 70), ("in", 1)], be)
        for k in (1, 5, 16, 256):
            l.prog("rc4", [("in", 20)], be, tag="key %d bytes" % k, kl=k)
        for n in ("rabbit", "rabbitk"):
            l.prog(n, [("in", 5), ("b2b", 70)], be)
        l.prog("hc", [("in", 70), ("b2b", 5)], be, timeout=500)
    return l.cases


def C26(th):
    """the optimised build (no overflow checks, no debug assertions)"""
    l = L()

    def rc(crate, be):
        c = cfg(crate, be or "avx2")
        c.checks = False
        return c
    for n in EVERY:
        ci = CIPHERS[n]
        for be in all_backends(n, th):
            if be not in ("", "avx2") and n not in ("c20", "l20", "x20") and not th:
                continue
            cf = rc(ci.crate, be)
            wide = 64 * 17 + 3 if "512" in be else 64 * 5 + 3
            l.prog(n, [("in", 5), ("b2b", wide), ("write", 65), ("inout", 1)], be, tag="release", cf=cf, timeout=500)
            if ci.w:
                K = "u64" if ci.w == 32 else "u128"
                M = ((1 << ci.w) - 1) * 64
                l.prog(n, [("seek", K, 17), ("pos", "u64"), ("in", 130), ("pos", "u128")], be, tag="release seek", cf=cf)
                l.prog(n, [("seekto", K, M - wide), ("in", wide + 1), ("in", wide), ("in", 1)], be, tag="release end",
                       cf=cf)
    for n in ("c20", "l20", "s20", "y20"):
        for be in all_backends(n, th):
            cf = rc(CIPHERS[n].crate, be)
            l.core(n, [("set",), ("a", 5), ("get",), ("rem",), ("w1",)], be, tag="release", cf=cf)
    for be in backends(th):
        cf = rc("chacha", be)
        l.rng(8, [("sets",), ("setw", 14), ("u32",), ("u64",), ("fill", 5), ("wpos",), ("bpos",), ("stream",), ("ser",)],
              be, tag="release", cf=cf)
        l.rng(8, [("setb",), ("words", 65), ("wpos",), ("bpos",), ("move",), ("y", "u64")], be, tag="release words", cf=cf)
        l.rng(20, [("des", 3), ("u64",), ("eq",), ("ser",)], be, tag="release", cf=cf)
    return l.cases


def C27(th):
    """one-shot use of a core, last block included"""
    l = L()
    for n in ("c8", "c12", "c20", "l20", "s8", "s12", "s20", "y8", "y12", "y20", "rabbit", "hc"):
        ci = CIPHERS[n]
        key = n in ("c20", "l20", "s20", "y20")
        for be in (all_backends(n, th) if key else ("avx2" if ci.crate == "chacha" else "",)):
            lens = (0, 1, 63, 64, 65, 128, 300) + ((1024, 1100) if "512" in be else ())
            for k in lens:
                if not key and k not in (1, 65, 300):
                    continue
                l.core(n, [("part", k)], be, timeout=500)
                l.core(n, [("part!", k)], be, timeout=500)
                if ci.w:
                    l.core(n, [("set",), ("part", k)], be)
                    l.core(n, [("set",), ("part!", k)], be)
                    m = (1 << ci.w) - 1
                    for v in (m, m - 1):
                        l.core(n, [("setto", v), ("part", k)], be, tag="from %#x, %d" % (v, k))
            if ci.w:
                l.core(n, [("set",), ("w1",), ("a", 2), ("part", 70)], be)
            else:
                l.core(n, [("w1",), ("a", 2), ("part", 21)], be, timeout=500)
    return l.cases


def C28(th):
    """a refused call changes nothing"""
    l = L()
    for n in SEEKABLE:
        ci = CIPHERS[n]
        K = "u64" if ci.w == 32 else "u128"
        M = ((1 << ci.w) - 1) * 64
        key = n in ("c20", "l20", "x20", "s20", "y20")
        for be in (all_backends(n, th) if key else ("avx2" if ci.crate == "chacha" else "",)):
            for m in ("in", "b2b", "write", "inout"):
                l.prog(n, [("seekto", K, M - 70), (m, 71), ("pos", "u128"), (m, 400), ("check", 70), (m, 70), (m, 1)],
                       be, tag="%s refused" % m)
                if key:
                    l.prog(n, [("seekto", K, M - 65), ("in", 3), (m, 63), ("pos", "u128"), ("in", 2), (m, 61), ("in", 60)],
                           be, tag="%s refused mid-block" % m)
            l.prog(n, [("in", 3), ("mismatch", 4, 5), ("pos", "u64"), ("mismatch", 70, 64), ("in", 70), ("mismatch", 0, 1),
                       ("pos", "u64")], be, tag="mismatched buffers")
            l.prog(n, [("in", 10), ("seekto", "u128", 1 << 127), ("pos", "u64"), ("in", 60), ("seekto", "u128", M + 1),
                       ("pos", "u128"), ("in", 5)], be, tag="refused seek")
            l.prog(n, [("in", 10), ("seek", K if ci.w == 32 else "u128", 9), ("pos", "u128"), ("in", 60)], be)
    for n in SEQ:
        l.prog(n, [("in", 3), ("mismatch", 4, 5), ("in", 7), ("mismatch", 70, 64), ("b2b", 9), ("mismatch", 0, 1),
                   ("write", 3)], "", tag="mismatched buffers", timeout=500)
    return l.cases

def C29(th):
    """only instructions of detected CPU features, whatever the processor"""
    l = L()

    def cpu(fn, *a, **k):
        n = len(l.cases)
        fn(*a, **k)
        for x in l.cases[n:]:
            x.fn = with_cpu(x.fn)
            x.native = False
            x.max_paths = 400
    for be in ("auto", "auto512", "i586", "fsse2") + (("favx2", "favx512", "i686") if th else ()):
        for n in CHACHA + ("l20", "x20") if th else ("c8", "l20", "x8"):
            cpu(l.prog, n, [("in", 3), ("b2b", 70), ("pos", "u64")], be)
        big = 17 if "512" in be else 9
        cpu(l.core, "c8", [("set",), ("a", big), ("w1",), ("get",)], be)
        cpu(l.core, "l20", [("set",), ("a", 5), ("get",)], be)
        cpu(l.rng, 8, [("u32",), ("fill", 300), ("wpos",)], be)
        cpu(l.add, "generator ietf R8/%s" % be, cfg("chacha", be), generator(8, "c", 2))
        cpu(l.add, "generator legacy R8/%s" % be, cfg("chacha", be), generator(8, "l", 2))
    return l.cases


def C30(th):
    """optional features change no result"""
    l = L()
    bes = backends(th) if th else ("avx2", "soft")

    def stream(n, cf, be):
        ci = CIPHERS[n]
        t = " ".join(cf.features)
        l.prog(n, [("in", 5), ("b2b", 64 * 5 + 3), ("write", 65), ("inout", 1)], be, tag="features %s" % t, cf=cf, timeout=500)
        if ci.w:
            K = "u64" if ci.w == 32 else "u128"
            M = ((1 << ci.w) - 1) * 64
            l.prog(n, [("seek", K, 17), ("pos", "u64"), ("in", 130), ("pos", "u128")], be, tag="seek, features %s" % t, cf=cf)
            l.prog(n, [("seekto", K, M - 70), ("in", 71), ("in", 70), ("in", 1)], be, tag="end, features %s" % t, cf=cf)
    for be in bes:
        for f in (("rng",), ("rng", "zeroize"), ("rng", "lstream", "xstream", "zeroize")):
            cf = cfg("chacha", be, features=f)
            t = "features " + " ".join(f)
            l.rng(8, [("sets",), ("setw", 14), ("u32",), ("u64",), ("fill", 5), ("wpos",), ("bpos",), ("stream",), ("ser",)],
                  be, tag=t, cf=cf)
            l.rng(8, [("setb",), ("words", 65), ("wpos",), ("bpos",), ("move",), ("y", "u64"), ("eq",)], be, tag="words, " + t, cf=cf)
            l.rng(12, [("des", 3), ("u64",), ("ser",)], be, tag=t, cf=cf)
            l.rng(20, [("u32",), ("words", 64), ("ser",)], be, tag=t, cf=cf)
        for f in (("stream", "core"), ("stream", "core", "zeroize"), ("stream", "core", "rng")):
            cf = cfg("chacha", be, features=f)
            for n in ("c8", "c20") if not th else CHACHA:
                stream(n, cf, be)
                l.core(n, [("set",), ("a", 5), ("get",), ("rem",), ("part", 70)], be, tag=" ".join(f), cf=cf)
        for f in (("lstream", "lcore"), ("lstream", "lcore", "zeroize")):
            cf = cfg("chacha", be, features=f)
            stream("l20", cf, be)
            l.core("l20", [("set",), ("a", 5), ("get",), ("rem",), ("part", 70)], be, tag=" ".join(f), cf=cf)
        for f in (("xstream", "hchacha"), ("xstream", "hchacha", "zeroize")):
            cf = cfg("chacha", be, features=f)
            for n in ("x8", "x20") if not th else XCHACHA:
                stream(n, cf, be)
            l.add("hchacha R20/%s features %s" % (be, " ".join(f)), cf, hfunc("chacha", 20))
    # every other backend: one case per feature set
    for be in () if th else ("sse2", "avx512") + FORCED + ("neon",):
        for f in (("rng",), ("lstream", "lcore"), ("stream", "core"), ("rng", "zeroize"), ("lstream", "lcore", "zeroize"),
                  ("xstream", "hchacha"), ("stream", "core", "zeroize"), ("stream", "core", "rng"))[:2 if be == "neon" else 8]:
            cf = cfg("chacha", be, features=f)
            t = " ".join(f)
            if "rng" in f:
                l.rng(8, [("sets",), ("setw", 14), ("u64",), ("words", 65), ("ser",), ("bpos",)], be, tag="features " + t, cf=cf)
            for n in ("c8",) if "core" in f else ("l20",) if "lcore" in f else ():
                l.core(n, [("set",), ("a", 5), ("w1",), ("get",), ("rem",), ("part", 70)], be, tag=t, cf=cf)
            if "xstream" in f:
                l.prog("x8", [("seek", "u64", 17), ("pos", "u64"), ("in", 130), ("pos", "u128")], be, tag="seek, features " + t, cf=cf)
    for n in SALSA + XSALSA + SEQ:
        crate = CIPHERS[n].crate
        cf = cfg(crate, features=FEATURES[crate] + ("zeroize",))
        stream(n, cf, "")
        if n != "rc4" and n != "rabbitk":
            l.core(n, [("w1",), ("a", 2), ("part", 21)], "", tag="zeroize", cf=cf, timeout=500)
    return l.cases


import meta

INFO = meta.P


def cases(prop, tier):
    return globals()[prop](tier == "thorough")
