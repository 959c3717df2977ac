"""Reference evaluator of MCM/KPP rate expressions, written from the notation and not from PyBox."""
import math
import re

TOKEN = re.compile(r"\s*(?:(?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[DdEe][+-]?\d+)?)|(?P<name>[A-Za-z_]\w*)"
                   r"|(?P<op>\*\*|[-+*/(),]))")

FUNCS = {"EXP": math.exp, "LOG": math.log, "LOG10": math.log10, "DLOG": math.log, "DLOG10": math.log10,
         "DEXP": math.exp, "DSQRT": math.sqrt, "SQRT": math.sqrt, "DABS": abs, "ABS": abs}


class Num:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def ev(self, env):
        return self.v


class Name:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def ev(self, env):
        return env[self.n]


class Call:
    __slots__ = ("n", "a")

    def __init__(self, n, a):
        self.n, self.a = n, a

    def ev(self, env):
        if self.n == "J":
            return env["J"][int(round(self.a.ev(env)))]
        return FUNCS[self.n.upper()](self.a.ev(env))


class Bin:
    __slots__ = ("o", "l", "r")

    def __init__(self, o, l, r):
        self.o, self.l, self.r = o, l, r

    def ev(self, env):
        a, b = self.l.ev(env), self.r.ev(env)
        if self.o == "+":
            return a + b
        if self.o == "-":
            return a - b
        if self.o == "*":
            return a * b
        if self.o == "/":
            return a / b
        return a ** b


class Neg:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def ev(self, env):
        return -self.a.ev(env)


def tokens(text):
    out, i = [], 0
    text = text.strip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise ValueError("bad rate expression %r at %d" % (text, i))
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


def parse(text):
    toks = tokens("".join(text.split()))
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else (None, None)

    def take(want=None):
        t = peek()
        if want is not None and t[1] != want:
            raise ValueError("expected %r in %r" % (want, text))
        pos[0] += 1
        return t

    def expr():
        node = term()
        while peek()[1] in ("+", "-") and peek()[0] == "op":
            o = take()[1]
            node = Bin(o, node, term())
        return node

    def term():
        node = unary()
        while peek()[1] in ("*", "/") and peek()[0] == "op":
            o = take()[1]
            node = Bin(o, node, unary())
        return node

    def unary():
        if peek()[1] == "-":
            take()
            return Neg(unary())
        if peek()[1] == "+":
            take()
            return unary()
        return power()

    def power():
        base = atom()
        if peek()[1] == "**":
            take()
            return Bin("**", base, unary())
        return base

    def atom():
        kind, v = take()
        if kind == "num":
            return Num(float(v.upper().replace("D", "E")))
        if kind == "name":
            if peek()[1] == "(":
                take("(")
                a = expr()
                take(")")
                return Call(v, a)
            return Name(v)
        if v == "(":
            a = expr()
            take(")")
            return a
        raise ValueError("unexpected %r in %r" % (v, text))

    node = expr()
    if pos[0] != len(toks):
        raise ValueError("trailing text in %r" % text)
    return node


def names(node):
    if isinstance(node, Name):
        return {node.n}
    if isinstance(node, Call):
        out = names(node.a)
        if node.n == "J":
            out.add("J")
        return out
    if isinstance(node, Bin):
        return names(node.l) | names(node.r)
    if isinstance(node, Neg):
        return names(node.a)
    return set()


def source(n):
    """The expression as Python text over names M, TEMP, J[..] and the functions below."""
    if isinstance(n, Num):
        return repr(n.v)
    if isinstance(n, Name):
        return n.n
    if isinstance(n, Call):
        if n.n == "J":
            return "J[%d]" % int(round(n.a.ev({})))
        return "%s(%s)" % (FUNCS[n.n.upper()].__name__, source(n.a))
    if isinstance(n, Neg):
        return "(-%s)" % source(n.a)
    return "(%s%s%s)" % (source(n.l), n.o, source(n.r))


def compiled(nodes):
    """One function of the environment returning every expression's value."""
    used = sorted(set().union(*[names(n) for n in nodes]) if nodes else set())
    body = "".join("    %s = env[%r]\n" % (u, u) for u in used)
    src = "def f(env):\n" + body + "    return [" + ",\n".join(source(n) for n in nodes) + "]\n"
    ns = {"exp": math.exp, "log": math.log, "log10": math.log10, "sqrt": math.sqrt, "abs": abs}
    exec(compile(src, "<reference rates>", "exec"), ns)
    return ns["f"]
