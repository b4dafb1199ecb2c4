"""Execution of LLVM IR (textual, as clang prints it) on values that may be symbolic.

Integers and pointers are concrete; floating-point values are the engine's exact
reals; branches on symbolic conditions fork through the engine.
"""
import re
import struct
from fractions import Fraction

from symcheck.core import SymBase, Unsupported


class Thrown(Exception):
    """A C++ exception left the program."""


NAME = r'(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)'
ATTRS = re.compile(r"\b(?:noundef|nonnull|noalias|nocapture|readonly|writeonly|readnone|immarg|returned|signext|zeroext|inreg|nofree|nest|allocalign|allocptr|writable|dead_on_unwind)\b"
                   r"|\b(?:align|captures|dereferenceable|dereferenceable_or_null|sret|byval|byref|elementtype|range|memory|initializes)(?:\((?:[^()]|\([^()]*\))*\)| \d+)")
FLAGS = ("inbounds", "nuw", "nsw", "nusw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "volatile", "tail", "musttail", "notail", "samesign", "local_unnamed_addr", "unnamed_addr", "atomic")


class Scan:
    """A cursor over one line."""

    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " \t\n":
            self.i += 1

    def peek(self, lit):
        self.ws()
        return self.s.startswith(lit, self.i)

    def eat(self, lit):
        if self.peek(lit):
            self.i += len(lit)
            return True
        return False

    def need(self, lit):
        if not self.eat(lit):
            raise Unsupported("IR: %r expected at %r" % (lit, self.s[self.i:self.i + 60]))

    def re(self, pat):
        self.ws()
        m = re.compile(pat).match(self.s, self.i)
        if m:
            self.i = m.end()
            return m.group(0)
        return None

    def flags(self):
        out = []
        while True:
            w = self.re(r"(?:%s)\b" % "|".join(FLAGS))
            if w is None:
                return out
            out.append(w)

    def attrs(self):
        while True:
            self.ws()
            m = ATTRS.match(self.s, self.i)
            if not m:
                return
            self.i = m.end()


class Module:
    def __init__(self, text):
        self.types, self.funcs, self.globals = {}, {}, {}
        lines = text.splitlines()
        k = 0
        while k < len(lines):
            s = lines[k]
            k += 1
            m = re.match(r"(%%%s) = type (.*)$" % NAME, s)
            if m:
                self.types[m.group(1)] = m.group(2)
                continue
            m = re.match(r"(@%s) = (.*)$" % NAME, s)
            if m:
                self.globals[m.group(1)] = m.group(2)
                continue
            if s.startswith("define "):
                body = []
                while lines[k] != "}":
                    body.append(lines[k])
                    k += 1
                k += 1
                self.define(s, body)

    def define(self, head, body):
        m = re.search(r"(@%s)\(" % NAME, head)
        sc = Scan(head)
        sc.i = m.end()
        params = []
        while not sc.eat(")"):
            if sc.eat("..."):
                continue
            self.type(sc)
            sc.attrs()
            params.append(sc.re(r"%" + NAME))
            sc.attrs()
            sc.eat(",")
        blocks, cur = {}, None
        joined = []
        for ln in body:
            ln = re.sub(r"\s*;.*$", "", ln) if '"' not in ln else ln
            if not ln.strip():
                continue
            if not ln.startswith(" ") and re.match(NAME + ":", ln):
                joined.append(ln)
            elif joined and (ln.startswith("    ") or ln.strip() == "]"):
                joined[-1] += " " + ln.strip()
            else:
                joined.append(ln.strip())
        for ln in joined:
            m = re.match(r"(%s):" % NAME, ln)
            if m and not ln.startswith("%"):
                cur = "%" + m.group(1)
                blocks[cur] = []
                continue
            if cur is None:
                cur = "%<entry>"
                blocks[cur] = []
            blocks[cur].append(re.sub(r", ![-\w.]+ !\d+|, !\w+ !\{\}|, !srcloc.*$", "", ln))
        name = re.search(r"(@%s)\(" % NAME, head).group(1)
        self.funcs[name] = (params, blocks, next(iter(blocks)))

    # types are tuples
    def type(self, sc):
        t = self._type(sc)
        while sc.peek("*"):
            sc.need("*")
            t = ("ptr",)
        return t

    def _type(self, sc):
        sc.ws()
        w = sc.re(r"i\d+\b")
        if w:
            return ("i", int(w[1:]))
        for k in ("ptr", "float", "double", "void", "metadata", "label"):
            if sc.re(k + r"\b"):
                if k == "ptr":
                    sc.re(r"addrspace\(\d+\)")
                return (k,)
        if sc.eat("["):
            n = int(sc.re(r"\d+"))
            sc.need("x")
            t = self.type(sc)
            sc.need("]")
            return ("arr", n, t)
        packed = sc.eat("<{")
        if packed or sc.eat("{"):
            ts = []
            end = "}>" if packed else "}"
            while not sc.eat(end):
                ts.append(self.type(sc))
                sc.eat(",")
            return ("struct", tuple(ts), packed)
        if sc.peek("%"):
            n = sc.re(r"%" + NAME)
            if self.types.get(n, "opaque") == "opaque":
                raise Unsupported("IR: opaque type " + n)
            return self.type(Scan(self.types[n]))
        raise Unsupported("IR: type at %r" % sc.s[sc.i:sc.i + 60])

    def size(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """(size, alignment)"""
        k = t[0]
        if k == "i":
            b = 1
            while b * 8 < t[1]:
                b *= 2
            return b, b
        if k in ("ptr", "double"):
            return 8, 8
        if k == "float":
            return 4, 4
        if k == "arr":
            s, a = self.layout(t[2])
            return s * t[1], a
        if k == "struct":
            off, al = 0, 1
            for f in t[1]:
                s, a = self.layout(f)
                if not t[2]:
                    off = -(-off // a) * a
                    al = max(al, a)
                off += s
            return -(-off // al) * al, al
        raise Unsupported("IR: size of " + k)

    def field(self, t, i):
        off = 0
        for n, f in enumerate(t[1]):
            s, a = self.layout(f)
            if not t[2]:
                off = -(-off // a) * a
            if n == i:
                return off, f
            off += s
        raise Unsupported("IR: field")


def wrap(v, bits):
    return v & ((1 << bits) - 1)


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class Memory:
    def __init__(self):
        self.cells = {}
        self.top = 1 << 20

    def alloc(self, n):
        a = self.top
        self.top += -(-max(n, 1) // 16) * 16 + 64
        return a

    def split(self, lo, hi):
        """No cell straddles the ends of [lo, hi)."""
        for edge in (lo, hi):
            for a in range(edge - 7, edge):
                c = self.cells.get(a)
                if c and a + c[0] > edge:
                    n, v, fl = self.cells.pop(a)
                    if fl:
                        if isinstance(v, SymBase):
                            continue  # its bytes are lost
                        v = int.from_bytes(struct.pack("<f" if n == 4 else "<d", float(v)), "little")
                    for b in range(n):
                        self.cells[a + b] = (1, v >> (8 * b) & 255, False)

    def clear(self, lo, hi):
        self.split(lo, hi)
        if hi - lo < 4 * len(self.cells):
            for a in range(lo, hi):
                self.cells.pop(a, None)
        else:
            for a in [a for a in self.cells if lo <= a < hi]:
                del self.cells[a]

    def store(self, a, n, v, fl):
        c = self.cells.get(a)
        if not (c and c[0] == n):
            self.clear(a, a + n)
        self.cells[a] = (n, v, fl)

    def load(self, a, n, fl):
        c = self.cells.get(a)
        if c and c[0] == n:
            if c[2] == fl:
                return c[1]
            if fl:
                return Fraction(struct.unpack("<f" if n == 4 else "<d", c[1].to_bytes(n, "little"))[0])
            if isinstance(c[1], SymBase):
                raise Unsupported("IR: bytes of a symbolic number")
            return int.from_bytes(struct.pack("<f" if n == 4 else "<d", float(c[1])), "little")
        v = 0
        self.split(a, a + n)
        b = 0
        while b < n:
            c = self.cells.get(a + b)
            if c is None:
                raise Unsupported("IR: read of uninitialised memory")
            m, w, f = c
            if f:
                w = self.load(a + b, m, False)
            v |= w << (8 * b)
            b += m
        if fl:
            return Fraction(struct.unpack("<f" if n == 4 else "<d", v.to_bytes(n, "little"))[0])
        return v

    def copy(self, d, s, n):
        if not n:
            return
        self.split(s, s + n)
        if n < 4 * len(self.cells):
            part = [(a, self.cells[a]) for a in range(s, s + n) if a in self.cells]
        else:
            part = [(a, c) for a, c in self.cells.items() if s <= a < s + n]
        self.clear(d, d + n)
        for a, c in part:
            self.cells[a - s + d] = c

    def fill(self, a, byte, n):
        self.clear(a, a + n)
        b = 0
        while b < n:
            m = 4 if n - b >= 4 else 1
            self.cells[a + b] = (m, int.from_bytes(bytes([byte & 255]) * m, "little"), False)
            b += m


class Machine:
    """Runs functions of a module; `host` answers the external calls."""

    LIMIT = 3000000

    def __init__(self, mod, H, host):
        self.m, self.H, self.host = mod, H, host
        self.mem = Memory()
        self.addr, self.fn = {}, {}
        self.steps = 0
        self.code = {}
        self.called = set()
        for f in mod.funcs:
            self.fn[self.symbol(f)] = f

    def symbol(self, name):
        if name not in self.addr:
            d = self.m.globals.get(name)
            self.addr[name] = a = self.mem.alloc(16)
            if d is not None:
                sc = Scan(re.sub(r"^.*?\b(?:constant|global)\b", "", d))
                if not re.search(r"\bexternal\b", d):
                    t = self.m.type(sc)
                    self.addr[name] = a = self.mem.alloc(self.m.size(t))
                    self.init(a, t, sc)
        return self.addr[name]

    def init(self, a, t, sc):
        m = self.m
        if sc.eat("zeroinitializer"):
            self.mem.fill(a, 0, m.size(t))
        elif sc.peek('c"'):
            s = sc.re(r'c"[^"]*"')[2:-1]
            raw = re.sub(r"\\([0-9A-Fa-f]{2})", lambda x: chr(int(x.group(1), 16)), s)
            for k, ch in enumerate(raw):
                self.mem.store(a + k, 1, ord(ch), False)
        elif t[0] == "arr":
            sc.need("[")
            k = 0
            while not sc.eat("]"):
                self.init(a + k * m.size(t[2]), m.type(sc), sc)
                sc.eat(",")
                k += 1
        elif t[0] == "struct":
            packed = sc.eat("<{")
            if not packed:
                sc.need("{")
            for k in range(len(t[1])):
                self.init(a + m.field(t, k)[0], m.type(sc), sc)
                sc.eat(",")
        else:
            self.put(a, t, self.operand(t, sc)({}))

    def put(self, a, t, v):
        if t[0] == "struct":
            for k, f in enumerate(t[1]):
                self.put(a + self.m.field(t, k)[0], f, v[k])
            return
        if v is None:
            return
        self.mem.store(a, self.m.size(t), v, t[0] in ("float", "double"))

    def get(self, a, t):
        if t[0] == "struct":
            return [self.get(a + self.m.field(t, k)[0], f) for k, f in enumerate(t[1])]
        v = self.mem.load(a, self.m.size(t), t[0] in ("float", "double"))
        return v

    # operands become functions of the environment
    def operand(self, t, sc):
        sc.ws()
        if sc.peek("%"):
            n = sc.re(r"%" + NAME)
            return lambda env: env[n]
        if sc.peek("@"):
            a = self.symbol(sc.re(r"@" + NAME))
            return lambda env: a
        for w, v in (("null", 0), ("true", 1), ("false", 0), ("zeroinitializer", 0), ("undef", None), ("poison", None)):
            if sc.re(w + r"\b"):
                if t[0] == "struct":
                    v = [v] * len(t[1])
                if v is None and t[0] != "struct":
                    v = 0
                return lambda env: list(v) if isinstance(v, list) else v
        if t[0] in ("float", "double"):
            w = sc.re(r"0x[0-9A-Fa-f]+")
            if w:
                x = struct.unpack("<d", int(w, 16).to_bytes(8, "little"))[0]
            else:
                x = float(sc.re(r"[-+\d.eE]+"))
            if x != x or x in (float("inf"), float("-inf")):
                raise Unsupported("IR: infinite constant")
            x = Fraction(x)
            return lambda env: x
        if sc.re(r"getelementptr\b"):
            sc.flags()
            sc.need("(")
            f = self.gep(sc, ")")
            return f
        if sc.re(r"(?:inttoptr|ptrtoint|bitcast)\b"):
            sc.need("(")
            f = self.operand(self.m.type(sc), sc)
            sc.need("to")
            self.m.type(sc)
            sc.need(")")
            return f
        w = sc.re(r"-?\d+")
        if w is not None and t[0] == "i":
            x = wrap(int(w), t[1])
            return lambda env: x
        raise Unsupported("IR: operand at %r" % sc.s[sc.i:sc.i + 60])

    def typed(self, sc):
        t = self.m.type(sc)
        sc.attrs()
        return t, self.operand(t, sc)

    def gep(self, sc, end=None):
        m = self.m
        t = m.type(sc)
        sc.need(",")
        _, base = self.typed(sc)
        idx = []
        while sc.eat(","):
            it, f = self.typed(sc)
            idx.append((it[1], f))
        if end:
            sc.need(end)

        def run(env):
            a = base(env)
            cur = t
            for k, (bits, f) in enumerate(idx):
                i = signed(f(env), bits)
                if k == 0:
                    a += i * m.size(cur)
                elif cur[0] == "arr":
                    cur = cur[2]
                    a += i * m.size(cur)
                else:
                    off, cur = m.field(cur, i)
                    a += off
            return a & (1 << 64) - 1

        return run

    def truth(self, c):
        if isinstance(c, SymBase):
            return self.H.decide(c)
        return bool(c)

    def compile(self, name):
        if name in self.code:
            return self.code[name]
        params, blocks, entry = self.m.funcs[name]
        out = {}
        for label, lines in blocks.items():
            phis, ops = [], []
            for ln in lines:
                ops.append((ln, phis, None))
            out[label] = [ln for ln in lines]
        self.code[name] = (params, out, entry, {})
        return self.code[name]

    def call(self, name, args):
        if name not in self.m.funcs:
            return self.external(name, args)
        self.called.add(name)
        params, blocks, entry, cache = self.compile(name)
        env = dict(zip(params, args))
        prev, label = None, entry
        while True:
            ops = cache.get(label)
            if ops is None:
                ops = cache[label] = [self.decode(ln) for ln in blocks[label]]
            # phis read the values from before the block
            k = 0
            vals = []
            while k < len(ops) and ops[k][0] == "phi":
                vals.append((ops[k][1], ops[k][2][prev](env)))
                k += 1
            env.update(vals)
            for op in ops[k:]:
                self.steps += 1
                if self.steps > self.LIMIT:
                    raise Unsupported("IR: too many steps")
                kind = op[0]
                if kind == "set":
                    env[op[1]] = op[2](env)
                elif kind == "do":
                    op[1](env)
                elif kind == "ret":
                    return op[1](env) if op[1] else None
                else:  # jump
                    if op[2]:
                        v = op[2](env)
                        if op[3]:
                            env[op[3]] = v
                    prev, label = label, op[1](env)
                    break

    def decode(self, ln):
        sc = Scan(ln)
        dest = None
        m = re.match(r"(%%%s) = " % NAME, ln)
        if m:
            dest = m.group(1)
            sc.i = m.end()
        fl = sc.flags()
        op = sc.re(r"[a-z]+")
        f = getattr(self, "op_" + op, None)
        if f is None:
            # decoded lazily: only an error when it is reached
            def bad(env):
                raise Unsupported("IR: instruction " + ln[:80])
            return ("do", bad)
        return f(sc, dest, ln)

    def op_phi(self, sc, dest, ln):
        sc.flags()
        t = self.m.type(sc)
        src = {}
        while sc.eat("["):
            v = self.operand(t, sc)
            sc.need(",")
            src[sc.re(r"%" + NAME)] = v
            sc.need("]")
            sc.eat(",")
        return ("phi", dest, src)

    def op_br(self, sc, dest, ln):
        if sc.eat("label"):
            n = sc.re(r"%" + NAME)
            return ("jump", lambda env: n, None, None)
        _, c = self.typed(sc)
        sc.need(", label")
        a = sc.re(r"%" + NAME)
        sc.need(", label")
        b = sc.re(r"%" + NAME)
        return ("jump", lambda env: a if self.truth(c(env)) else b, None, None)

    def op_switch(self, sc, dest, ln):
        t, c = self.typed(sc)
        sc.need(", label")
        d = sc.re(r"%" + NAME)
        sc.need("[")
        tab = {}
        while not sc.eat("]"):
            _, v = self.typed(sc)
            sc.need(", label")
            tab[v({})] = sc.re(r"%" + NAME)
        return ("jump", lambda env: tab.get(c(env), d), None, None)

    def op_ret(self, sc, dest, ln):
        if sc.re(r"void\b"):
            return ("ret", None)
        return ("ret", self.typed(sc)[1])

    def op_unreachable(self, sc, dest, ln):
        def f(env):
            raise Unsupported("IR: unreachable code reached")
        return ("do", f)

    def op_load(self, sc, dest, ln):
        sc.flags()
        t = self.m.type(sc)
        sc.need(",")
        _, p = self.typed(sc)
        return ("set", dest, lambda env: self.get(p(env), t))

    def op_store(self, sc, dest, ln):
        sc.flags()
        t, v = self.typed(sc)
        sc.need(",")
        _, p = self.typed(sc)
        return ("do", lambda env: self.put(p(env), t, v(env)))

    def op_alloca(self, sc, dest, ln):
        t = self.m.type(sc)
        n = lambda env: 1
        if sc.eat(",") and not sc.peek("align"):
            _, n = self.typed(sc)
        return ("set", dest, lambda env: self.mem.alloc(self.m.size(t) * n(env)))

    def op_getelementptr(self, sc, dest, ln):
        sc.flags()
        return ("set", dest, self.gep(sc))

    def arith(self, fn):
        def dec(sc, dest, ln):
            sc.flags()
            t = self.m.type(sc)
            if t[0] != "i":
                raise Unsupported("IR: " + ln[:60])
            a = self.operand(t, sc)
            sc.need(",")
            b = self.operand(t, sc)
            n = t[1]
            return ("set", dest, lambda env: wrap(fn(a(env), b(env), n), n))
        return dec

    def __getattr__(self, name):
        ints = {
            "add": lambda a, b, n: a + b, "sub": lambda a, b, n: a - b, "mul": lambda a, b, n: a * b,
            "and": lambda a, b, n: a & b, "or": lambda a, b, n: a | b, "xor": lambda a, b, n: a ^ b,
            "shl": lambda a, b, n: a << b, "lshr": lambda a, b, n: a >> b, "ashr": lambda a, b, n: signed(a, n) >> b,
            "udiv": lambda a, b, n: a // b, "urem": lambda a, b, n: a % b,
            "sdiv": lambda a, b, n: tdiv(signed(a, n), signed(b, n)), "srem": lambda a, b, n: signed(a, n) - signed(b, n) * tdiv(signed(a, n), signed(b, n)),
        }
        reals = {"fadd": lambda a, b: a + b, "fsub": lambda a, b: a - b, "fmul": lambda a, b: a * b, "fdiv": lambda a, b: a / b}
        k = name[3:]
        if name.startswith("op_"):
            if k in ints:
                return self.arith(ints[k])
            if k in reals:
                def dec(sc, dest, ln):
                    sc.flags()
                    t = self.m.type(sc)
                    a = self.operand(t, sc)
                    sc.need(",")
                    b = self.operand(t, sc)
                    return ("set", dest, lambda env: reals[k](a(env), b(env)))
                return dec
            if k in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui"):
                return lambda sc, dest, ln: self.cast(k, sc, dest, ln)
        raise AttributeError(name)

    def cast(self, k, sc, dest, ln):
        sc.flags()
        t, v = self.typed(sc)
        u = t
        if k != "freeze":
            sc.need("to")
            u = self.m.type(sc)
        if k == "sext":
            f = lambda env: wrap(signed(v(env), t[1]), u[1])
        elif k in ("zext", "trunc"):
            def f(env):
                x = v(env)
                if isinstance(x, SymBase):
                    x = int(self.truth(x))
                return wrap(x, u[1])
        elif k in ("sitofp", "uitofp"):
            f = lambda env: Fraction(signed(v(env), t[1]) if k == "sitofp" else v(env))
        elif k in ("fptosi", "fptoui"):
            def f(env):
                x = v(env)
                if isinstance(x, SymBase):
                    # truncation towards zero
                    n = self.H.floor(x) if self.truth(x >= 0) else -self.H.floor(-x)
                    return wrap(int(self.H.concrete(n)), u[1])
                return wrap(int(x), u[1])
        elif k == "bitcast" and (t[0] in ("float", "double")) != (u[0] in ("float", "double")):
            raise Unsupported("IR: " + ln[:60])
        else:
            f = v
        return ("set", dest, f)

    def op_icmp(self, sc, dest, ln):
        sc.flags()
        c = sc.re(r"[a-z]+")
        t = self.m.type(sc)
        a = self.operand(t, sc)
        sc.need(",")
        b = self.operand(t, sc)
        n = t[1] if t[0] == "i" else 64
        rel = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y,
               "lt": lambda x, y: x < y, "le": lambda x, y: x <= y}[c[-2:]]
        if c[0] == "s":
            return ("set", dest, lambda env: int(rel(signed(a(env), n), signed(b(env), n))))
        return ("set", dest, lambda env: int(rel(a(env), b(env))))

    def op_fcmp(self, sc, dest, ln):
        sc.flags()
        c = sc.re(r"[a-z]+")
        t = self.m.type(sc)
        a = self.operand(t, sc)
        sc.need(",")
        b = self.operand(t, sc)
        if c in ("ord", "true"):
            return ("set", dest, lambda env: 1)
        if c in ("uno", "false"):
            return ("set", dest, lambda env: 0)
        rel = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y,
               "lt": lambda x, y: x < y, "le": lambda x, y: x <= y}[c[1:]]
        return ("set", dest, lambda env: rel(a(env), b(env)))

    def op_fneg(self, sc, dest, ln):
        sc.flags()
        _, v = self.typed(sc)
        return ("set", dest, lambda env: -v(env))

    def op_select(self, sc, dest, ln):
        sc.flags()
        _, c = self.typed(sc)
        sc.need(",")
        _, a = self.typed(sc)
        sc.need(",")
        _, b = self.typed(sc)
        return ("set", dest, lambda env: a(env) if self.truth(c(env)) else b(env))

    def op_extractvalue(self, sc, dest, ln):
        _, v = self.typed(sc)
        sc.need(",")
        i = int(sc.re(r"\d+"))
        return ("set", dest, lambda env: v(env)[i])

    def op_insertvalue(self, sc, dest, ln):
        _, v = self.typed(sc)
        sc.need(",")
        _, w = self.typed(sc)
        sc.need(",")
        i = int(sc.re(r"\d+"))

        def f(env):
            x = list(v(env))
            x[i] = w(env)
            return x

        return ("set", dest, f)

    def callee(self, sc):
        sc.re(r"(?:fastcc|ccc|coldcc)\b")
        sc.flags()
        sc.attrs()
        self.m.type(sc)
        if sc.peek("("):  # function type
            sc.re(r"\([^()]*\)")
        if sc.peek("@"):
            n = sc.re(r"@" + NAME)
            who = lambda env: n
        else:
            r = sc.re(r"%" + NAME)
            who = lambda env: self.fn[env[r]]
        sc.need("(")
        args = []
        while not sc.eat(")"):
            t = self.m.type(sc)
            sc.attrs()
            if t[0] == "metadata":
                sc.re(r"[^,)]*")
                args.append(lambda env: None)
            else:
                args.append(self.operand(t, sc))
            sc.eat(",")
        return lambda env: self.call(who(env), [a(env) for a in args])

    def op_call(self, sc, dest, ln):
        f = self.callee(sc)
        return ("set", dest, f) if dest else ("do", f)

    def op_invoke(self, sc, dest, ln):
        f = self.callee(sc)
        m = re.search(r"to label (%%%s) unwind" % NAME, ln)
        n = m.group(1)
        return ("jump", lambda env: n, f, dest)

    def external(self, name, a):
        n = name[1:]
        h = getattr(self.host, n, None)
        if h is not None:
            return h(*a)
        mem = self.mem
        if n in ("_Znwm", "_Znam", "malloc"):
            return mem.alloc(a[0])
        if n == "calloc":
            p = mem.alloc(a[0] * a[1])
            mem.fill(p, 0, a[0] * a[1])
            return p
        if n.startswith(("_ZdlPv", "_ZdaPv")) or n == "free":
            return None
        if n.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental.noalias")):
            return None
        if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
            mem.copy(a[0], a[1], a[2])
            return a[0]
        if n.startswith("llvm.memset") or n == "memset":
            mem.fill(a[0], a[1], a[2])
            return a[0]
        if n == "strlen":
            k = 0
            while mem.load(a[0] + k, 1, False):
                k += 1
            return k
        if n in ("bcmp", "memcmp"):
            for k in range(a[2]):
                x, y = mem.load(a[0] + k, 1, False), mem.load(a[1] + k, 1, False)
                if x != y:
                    return wrap(1 if x > y else -1, 32)
            return 0
        m = re.match(r"llvm\.([us])(max|min)\.i(\d+)$", n)
        if m:
            key = (lambda x: signed(x, int(m.group(3)))) if m.group(1) == "s" else (lambda x: x)
            return (max if m.group(2) == "max" else min)(a, key=key)
        m = re.match(r"llvm\.(fabs|maxnum|minnum|fmuladd)\.f(32|64)$", n)
        if m:
            k = m.group(1)
            if k == "fabs":
                return a[0] if self.truth(a[0] >= 0) else -a[0]
            if k == "fmuladd":
                return a[0] * a[1] + a[2]
            return a[0] if self.truth(a[0] >= a[1]) == (k == "maxnum") else a[1]
        m = re.match(r"llvm\.abs\.i(\d+)$", n)
        if m:
            return wrap(abs(signed(a[0], int(m.group(1)))), int(m.group(1)))
        m = re.match(r"llvm\.(ctlz|cttz|ctpop)\.i(\d+)$", n)
        if m:
            bits, v = int(m.group(2)), a[0]
            if m.group(1) == "ctpop":
                return bin(v).count("1")
            if m.group(1) == "ctlz":
                return bits - v.bit_length()
            return bits if not v else (v & -v).bit_length() - 1
        if n == "llvm.expect.i1" or n.startswith("llvm.expect"):
            return a[0]
        if n == "__cxa_allocate_exception":
            return mem.alloc(a[0])
        if n == "__cxa_throw" or "__throw_" in n:
            raise Thrown(n)
        if re.match(r"_ZNSt\d+\w*_error[CD]\d", n):
            return None
        raise Unsupported("IR: external function " + n)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
