"""A symbolic x86 processor, as far as feature detection sees it.

CPUID leaves and XCR0 are free variables.  A function compiled with target
features beyond those of its caller's baseline may only be entered on paths
whose condition implies that the processor (and the operating system) has
them."""

# feature -> (leaf, subleaf, register, bit, state components in XCR0)
BITS = {
    "sse": (1, 0, "edx", 25, 0), "sse2": (1, 0, "edx", 26, 0), "sse3": (1, 0, "ecx", 0, 0),
    "pclmulqdq": (1, 0, "ecx", 1, 0), "ssse3": (1, 0, "ecx", 9, 0), "fma": (1, 0, "ecx", 12, 6),
    "sse4.1": (1, 0, "ecx", 19, 0), "sse4.2": (1, 0, "ecx", 20, 0), "movbe": (1, 0, "ecx", 22, 0),
    "popcnt": (1, 0, "ecx", 23, 0), "aes": (1, 0, "ecx", 25, 0), "avx": (1, 0, "ecx", 28, 6),
    "f16c": (1, 0, "ecx", 29, 6), "rdrnd": (1, 0, "ecx", 30, 0), "xsave": (1, 0, "ecx", 27, 0),
    "bmi": (7, 0, "ebx", 3, 0), "avx2": (7, 0, "ebx", 5, 6), "bmi2": (7, 0, "ebx", 8, 0),
    "avx512f": (7, 0, "ebx", 16, 0xe6), "avx512dq": (7, 0, "ebx", 17, 0xe6), "rdseed": (7, 0, "ebx", 18, 0),
    "adx": (7, 0, "ebx", 19, 0), "avx512ifma": (7, 0, "ebx", 21, 0xe6), "avx512cd": (7, 0, "ebx", 28, 0xe6),
    "sha": (7, 0, "ebx", 29, 0), "avx512bw": (7, 0, "ebx", 30, 0xe6), "avx512vl": (7, 0, "ebx", 31, 0xe6),
    "avx512vbmi": (7, 0, "ecx", 1, 0xe6), "gfni": (7, 0, "ecx", 8, 0), "vaes": (7, 0, "ecx", 9, 6),
    "crc32": (1, 0, "ecx", 20, 0), "fxsr": (1, 0, "edx", 24, 0), "mmx": (1, 0, "edx", 23, 0),
    "cmov": (1, 0, "edx", 15, 0), "cx8": (1, 0, "edx", 8, 0),
}
# the architecture: a processor with the first has the second
IMPLIES = {
    "avx512vl": ("avx512f",), "avx512dq": ("avx512f",), "avx512bw": ("avx512f",), "avx512cd": ("avx512f",),
    "avx512ifma": ("avx512f",), "avx512vbmi": ("avx512bw",), "avx512f": ("avx2", "fma", "f16c"),
    "avx2": ("avx",), "fma": ("avx",), "f16c": ("avx",), "vaes": ("avx2", "aes"), "avx": ("sse4.2",),
    "sse4.2": ("sse4.1", "crc32"), "sse4.1": ("ssse3",), "ssse3": ("sse3",), "sse3": ("sse2",), "sse2": ("sse",),
    "aes": ("sse2",), "pclmulqdq": ("sse2",), "gfni": ("sse2",), "sha": ("sse2",), "sse": ("fxsr",),
}
TARGET = {"x86_64": {"sse2", "fxsr", "mmx", "cmov", "cx8", "x87", "cx16", "sahf"},
          "i686": {"sse2", "fxsr", "mmx", "cmov", "cx8", "x87"}, "i586": {"cx8", "x87"}}


def closure(fs):
    out = set()
    todo = list(fs)
    while todo:
        f = todo.pop()
        if f not in out:
            out.add(f)
            todo.extend(IMPLIES.get(f, ()))
    return out


class Cpu:
    def __init__(self, P):
        self.P = P
        self.base = None
        self.memo = {}
        self.checked = 0
        self.seen = set()

    def start(self, mod, entry):
        arch = mod.triple.split("-")[0]
        self.base = closure(TARGET.get(arch, set()) | mod.features(entry))

    def reg(self, leaf, sub, r):
        sub = 0 if leaf == 1 else sub
        return self.P.var("cpuid.%d.%d.%s" % (leaf, sub, r), 32)

    def cpuid(self, leaf, sub):
        return [self.reg(leaf, sub, r) for r in ("ebx", "eax", "ecx", "edx")]

    def xcr0(self):
        c = self.P.c
        return c.concat_v([(32, self.P.var("xcr0", 32)), (32, 0)])

    def own(self, f):
        """the bit of the feature itself, and the operating system's support"""
        c = self.P.c
        leaf, sub, r, bit, x = BITS[f]
        v = c.extract(self.reg(leaf, sub, r), 32, bit, 1)
        if x:
            osx = c.band(1, c.extract(self.reg(1, 0, "ecx"), 32, 26, 1), c.extract(self.reg(1, 0, "ecx"), 32, 27, 1))
            xc = self.P.var("xcr0", 32)
            v = c.band(1, c.band(1, v, osx), c.eq(32, c.band(32, xc, x), x))
        return v

    def avail(self, f):
        t = self.memo.get(f)
        if t is None:
            c = self.P.c
            t = self.own(f)
            for g in BITS:
                if g != f and f in closure([g]):
                    t = c.bor(1, t, self.own(g))
            self.memo[f] = t
        return t

    def enter(self, ex, f):
        need = ex.mod.features(f)
        if not need:
            return
        need = closure(need) - self.base
        need = {x for x in need if not any(y != x and x in closure([y]) for y in need)}
        for x in sorted(need):
            if x not in BITS:
                from execir import Unsupported
                raise Unsupported("target feature " + x)
            self.checked += 1
            self.P.count()
            ex.require(self.avail(x), "%s uses %s on a processor on which it was not detected"
                       % (f.name, x))
