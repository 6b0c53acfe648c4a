"""Parser for the textual LLVM IR that rustc emits (opaque pointers, LLVM >= 17).

Produces Module(types, globals, functions).  Types:
  ('i', w) | 'ptr' | 'void' | ('v', n, t) | ('a', n, t) | ('s', packed, (t, ...)) | 'label' | 'metadata'
Function bodies are parsed lazily, instruction by instruction, into tuples
whose operands are slot numbers of a per-function environment template.
"""
import re

TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*:?)
  | (?P<dots>\.\.\.)
  | (?P<punc><\{|\}>|[=,(){}\[\]<>*|:])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise IRError("tokenize: %r" % s[pos:pos + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append(m.group())
        pos = m.end()
    return out


def strip_comment(line):
    # remove ; comment outside quotes
    if ';' not in line:
        return line
    q = False
    i = 0
    while i < len(line):
        c = line[i]
        if c == '"':
            q = not q
        elif c == '\\' and q:
            i += 1
        elif c == ';' and not q:
            return line[:i]
        i += 1
    return line


def unq(name):
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def decode_cstr(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Global:
    __slots__ = ("name", "ty", "init", "align", "const", "decl", "toks")


class Func:
    def __init__(self):
        self.name = None
        self.ret = None
        self.params = []      # (type, attrs dict, localname)
        self.lines = None
        self.decl = False
        self.body = None      # decoded
        self.feat = None      # target features


PARAM_ATTR_WORDS = {
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext",
    "immarg", "returned", "inreg", "nofree", "nest", "dead_on_unwind", "writable", "allocptr", "swiftself",
    "noext", "dead_on_return",
}
PARAM_ATTR_PAREN = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range",
                    "initializes", "elementtype", "inalloca", "byref", "preallocated", "allocalign", "nofpclass",
                    "memory", "noalias.addrspace"}
CALL_CONV = {"fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "tailcc"}
FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}


class Parser:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError("expected %r at %r in %r" % (x, self.t[self.i:self.i + 6], " ".join(self.t)[:300]))

    # -------------------------------------------------------------- types
    def type(self):
        t = self.next()
        if t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t == 'ptr':
            r = 'ptr'
            if self.accept('addrspace'):
                self.expect('(')
                self.next()
                self.expect(')')
        elif t == 'void':
            r = 'void'
        elif t == 'label':
            r = 'label'
        elif t == 'metadata':
            r = 'metadata'
        elif t in ('float', 'double', 'half', 'bfloat', 'x86_fp80', 'fp128'):
            r = ('f', t)
        elif t == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            r = ('v', n, e)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('a', n, e)
        elif t == '{' or t == '<{':
            close = '}' if t == '{' else '}>'
            es = []
            if not self.accept(close):
                while True:
                    es.append(self.type())
                    if self.accept(close):
                        break
                    self.expect(',')
            r = ('s', t == '<{', tuple(es))
        elif t[0] == '%':
            n = unq(t)
            if n not in self.mod.types:
                raise IRError("unknown type " + t)
            r = self.mod.types[n]
        elif t == 'opaque':
            r = ('s', False, ())
        else:
            raise IRError("type? %r in %r" % (t, " ".join(self.t)[:200]))
        # function type suffix (only in calls with varargs) not supported
        return r

    # -------------------------------------------------------------- constants
    def const(self, ty):
        """returns a constant descriptor evaluated later by Module.constval"""
        t = self.next()
        if t == 'true':
            return 1
        if t == 'false':
            return 0
        if t in ('null',):
            return 0
        if t in ('undef', 'poison'):
            return self.mod.undef(ty)
        if t == 'zeroinitializer' or t == 'none':
            return self.mod.zero(ty)
        if t[0] in '-0123456789' and ty != 'ptr':
            if ty[0] == 'i':
                return int(t) & ((1 << ty[1]) - 1)
            if ty[0] == 'f':
                return ('float', t)
        if t.startswith('c"'):
            return list(decode_cstr(t))
        if t == 'splat':
            self.expect('(')
            ety = self.type()
            v = self.const(ety)
            self.expect(')')
            return [v] * ty[1]
        if t == '<' or t == '[':
            close = '>' if t == '<' else ']'
            out = []
            if not self.accept(close):
                while True:
                    e = self.type()
                    out.append(self.const(e))
                    if self.accept(close):
                        break
                    self.expect(',')
            return out
        if t == '{' or t == '<{':
            close = '}' if t == '{' else '}>'
            out = []
            if not self.accept(close):
                while True:
                    e = self.type()
                    out.append(self.const(e))
                    if self.accept(close):
                        break
                    self.expect(',')
            return out
        if t[0] == '@':
            return self.mod.addr(unq(t))
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                w = self.next()
                if w == 'inrange' and self.accept('('):
                    while self.next() != ')':
                        pass
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.const('ptr')
            off = 0
            cur = bt
            first = True
            while self.accept(','):
                it = self.type()
                iv = self.const(it)
                if iv >> (it[1] - 1):
                    iv -= 1 << it[1]
                if first:
                    off += iv * self.mod.size(cur)
                    first = False
                else:
                    o, cur = self.mod.field(cur, iv)
                    off += o
            self.expect(')')
            return (base + off) & ((1 << self.mod.ptrbits) - 1)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            ft = self.type()
            v = self.const(ft)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            if t in ('ptrtoint', 'trunc') and tt[0] == 'i':
                v &= (1 << tt[1]) - 1
            return v
        if t in ('add', 'sub', 'xor'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            ta = self.type()
            a = self.const(ta)
            self.expect(',')
            tb = self.type()
            b = self.const(tb)
            self.expect(')')
            m = (1 << self.mod.bits(ta)) - 1
            return {'add': a + b, 'sub': a - b, 'xor': a ^ b}[t] & m
        if t == 'blockaddress':
            raise IRError("blockaddress")
        raise IRError("const? %r (%r) in %r" % (t, ty, " ".join(self.t)[:200]))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def attrs(self):
        at = {}
        while True:
            p = self.peek()
            if p is None:
                break
            if p in PARAM_ATTR_WORDS:
                self.next()
                at[p] = True
            elif p in PARAM_ATTR_PAREN:
                self.next()
                if self.peek() == '(':
                    j = self.i
                    self.skip_paren()
                    at[p] = self.t[j + 1:self.i - 1]
                elif p == 'align':
                    at[p] = [self.next()]
                else:
                    at[p] = True
            elif p[0] == '"':
                self.next()
                if self.accept('='):
                    self.next()
            elif p[0] == '#':
                self.next()
            else:
                break
        return at


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.addrs = {}        # name -> address
        self.addr2func = {}
        self.attrgroups = {}
        self.next_id = 16
        self.ptrbits = 64
        self.triple = ""
        self._pending = []
        self._parse(text)

    # ------------------------------------------------------------ layout
    def bits(self, t):
        if t == 'ptr':
            return self.ptrbits
        if t[0] == 'i':
            return t[1]
        if t[0] == 'v':
            return t[1] * self.bits(t[2])
        raise IRError("bits of %r" % (t,))

    def align(self, t):
        if t == 'ptr':
            return self.ptrbits // 8
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return min(a, 16) if self.ptrbits == 64 else min(a, 16 if a == 16 else 4)
        if k == 'v':
            n = self.size(t)
            a = 1
            while a < n:
                a *= 2
            return a
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            if t[1] or not t[2]:
                return 1
            return max(self.align(e) for e in t[2])
        if k == 'f':
            return self.size(t)
        raise IRError("align of %r" % (t,))

    def store_size(self, t):
        if t != 'ptr' and t[0] == 'i':
            return (t[1] + 7) // 8
        return self.size(t)

    def size(self, t):
        if t == 'ptr':
            return self.ptrbits // 8
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == 'v':
            eb = self.bits(t[2])
            n = (t[1] * eb + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return (n + a - 1) // a * a
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 's':
            off = 0
            for e in t[2]:
                if not t[1]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                off += self.size(e)
            a = self.align(t)
            return (off + a - 1) // a * a
        if k == 'f':
            return {'float': 4, 'double': 8, 'half': 2}[t[1]]
        raise IRError("size of %r" % (t,))

    def field(self, t, i):
        """(byte offset, type) of element i of aggregate t"""
        if t[0] == 's':
            off = 0
            for j, e in enumerate(t[2]):
                if not t[1]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                if j == i:
                    return off, e
                off += self.size(e)
            raise IRError("field")
        if t[0] in 'av':
            return i * self.size(t[2]), t[2]
        raise IRError("field of %r" % (t,))

    def undef(self, t):
        if t != 'ptr' and t[0] in 'va':
            return [self.undef(t[2]) for _ in range(t[1])]
        if t != 'ptr' and t[0] == 's':
            return [self.undef(e) for e in t[2]]
        return None

    def zero(self, t):
        if t != 'ptr' and t[0] in 'va':
            return [self.zero(t[2]) for _ in range(t[1])]
        if t != 'ptr' and t[0] == 's':
            return [self.zero(e) for e in t[2]]
        return 0

    def addr(self, name):
        a = self.addrs.get(name)
        if a is None:
            self.next_id += 1
            a = self.idbase(self.next_id)
            self.addrs[name] = a
            if name in self.funcs:
                self.addr2func[a] = self.funcs[name]
        return a

    def idbase(self, i):
        return i << 32 if self.ptrbits == 64 else i << 16

    # ------------------------------------------------------------ module parse
    def features(self, f):
        """the target features a function is compiled with"""
        if f.feat is None:
            f.feat = frozenset().union(*[self.attrgroups.get(a, ()) for a in re.findall(r'#[0-9]+', f.tail)])
        return f.feat

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        typelines = []
        globs = []
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                typelines.append(l)
            elif l.startswith('target datalayout'):
                if 'p:32:32' in l:
                    self.ptrbits = 32
                self.datalayout = l
            elif l.startswith('target triple'):
                self.triple = l.split('"')[1]
            elif l.startswith('@'):
                globs.append(l)
            elif l.startswith('attributes #'):
                m = re.search(r'"target-features"="([^"]*)"', l)
                self.attrgroups[l.split()[1]] = frozenset(
                    x[1:] for x in (m.group(1).split(',') if m else ()) if x[:1] == '+')
            elif l.startswith('define '):
                j = i + 1
                body = []
                while lines[j] != '}':
                    body.append(lines[j])
                    j += 1
                self._funchead(l, body)
                i = j
            elif l.startswith('declare '):
                self._funchead(l, None)
            i += 1
        self.bigendian = self.datalayout.split('"')[1].startswith('E')
        for l in typelines:
            m = re.match(r'%("[^"]*"|\S+) = type (.*)', l)
            name = m.group(1).strip('"')
            p = Parser(tokenize(m.group(2)), self)
            self.types[name] = p.type()
        for f in self._pending:
            self._finish_head(f)
        for l in globs:
            self._global(l)

    def _funchead(self, l, body):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
        f = Func()
        f.name = m.group(1).strip('"')
        f.head = l
        f.lines = body
        f.decl = body is None
        self.funcs[f.name] = f
        self._pending.append(f)

    def _finish_head(self, f):
        l = f.head
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
        pre = tokenize(l[len('define ' if not f.decl else 'declare '):m.start()])
        # return type is what follows linkage/attrs
        p = Parser(pre, self)
        LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending",
                "extern_weak", "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden",
                "protected", "default", "unnamed_addr", "local_unnamed_addr", "dllimport", "dllexport"} | CALL_CONV
        while True:
            a = p.i
            while p.peek() in LINK:
                p.next()
            p.attrs()
            if p.i == a:
                break
        f.ret = p.type()
        # params
        d = 0
        s = m.end() - 1
        e = s
        q = False
        while True:
            c = l[e]
            if c == '"':
                q = not q
            if not q:
                if c == '(':
                    d += 1
                elif c == ')':
                    d -= 1
                    if d == 0:
                        break
            e += 1
        p = Parser(tokenize(l[s + 1:e]), self)
        f.params = []
        f.vararg = False
        k = 0
        while p.peek() is not None:
            if p.accept('...'):
                f.vararg = True
                break
            t = p.type()
            at = p.attrs()
            name = None
            if p.peek() and p.peek()[0] == '%':
                name = unq(p.next())
            else:
                name = str(k)
            k += 1
            f.params.append((t, at, name))
            p.accept(',')
        f.tail = l[e + 1:]

    def _global(self, l):
        l = strip_comment(l)
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
        name = m.group(1).strip('"')
        toks = tokenize(m.group(2))
        j = 0
        while toks[j] not in ('global', 'constant', 'alias', 'ifunc'):
            j += 1
        g = Global()
        g.name = name
        g.const = toks[j] == 'constant'
        if toks[j] == 'alias':
            p = Parser(toks[j + 1:], self)
            p.type()
            p.expect(',')
            p.type()
            self.addrs[name] = p.const('ptr')
            t = self.addr2func.get(self.addrs[name])
            if t is not None:
                self.funcs[name] = t
            return
        g.decl = 'external' in toks[:j] or 'extern_weak' in toks[:j]
        p = Parser(toks[j + 1:], self)
        g.ty = p.type()
        g.toks = p
        g.init = None
        g.align = None
        for k in range(len(toks) - 1):
            if toks[k] == 'align' and toks[k - 1] == ',':
                g.align = int(toks[k + 1])
        self.globals[name] = g

    def global_init(self, g):
        if g.init is None and not g.decl:
            g.toks.i = 0
            g.toks.type()
            g.init = (g.toks.const(g.ty),)
        return g.init[0] if g.init else None
