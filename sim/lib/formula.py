"""Evaluate the formulas LattE prints (Maple syntax) over a field, exactly."""
import re
from fractions import Fraction as Fr
from math import floor

P61 = (1 << 61) - 1
TOK = re.compile(r"\s*(?:(\d+)|(x\[\d+\])|([A-Za-z_]\w*)|(.))", re.S)


class Bad(Exception):
    """Not a formula: truncated or garbled text."""


class Fp:
    """Integers modulo the prime 2^61-1."""
    @staticmethod
    def num(n):
        return n % P61

    @staticmethod
    def add(a, b):
        return (a + b) % P61

    @staticmethod
    def sub(a, b):
        return (a - b) % P61

    @staticmethod
    def mul(a, b):
        return a * b % P61

    @staticmethod
    def div(a, b):
        if b == 0:
            raise ZeroDivisionError
        return a * pow(b, P61 - 2, P61) % P61

    @staticmethod
    def pw(a, n):
        if n < 0:
            return Fp.div(1, pow(a, -n, P61))
        return pow(a, n, P61)


class Q:
    num = staticmethod(Fr)
    add = staticmethod(lambda a, b: a + b)
    sub = staticmethod(lambda a, b: a - b)
    mul = staticmethod(lambda a, b: a * b)
    div = staticmethod(lambda a, b: a / b)
    pw = staticmethod(lambda a, n: a ** n)


def tokens(s):
    out = []
    for m in TOK.finditer(s):
        n, x, w, c = m.groups()
        if n is not None:
            out.append(("n", int(n)))
        elif x is not None:
            out.append(("v", x))
        elif w is not None:
            out.append(("v", w))
        elif c is not None and c.strip():
            out.append(("c", c))
    out.append(("e", None))
    return out


def evaluate(text, env, F=Fp):
    """env: variable name -> field element (or, for MOD, nothing).  Shunting-yard, so that nesting depth does not matter."""
    prec = {"+": 1, "-": 1, "*": 2, "/": 2, "u": 3, "^": 4}
    vals, ops = [], []
    ints = []  # parallel to vals: plain integer value if known (for exponents)

    def push(v, n=None):
        vals.append(v)
        ints.append(n)

    def apply():
        o = ops.pop()
        if o == "u":
            v, n = vals.pop(), ints.pop()
            push(F.sub(F.num(0), v), -n if n is not None else None)
            return
        if len(vals) < 2:
            raise Bad("operand missing")
        b, nb = vals.pop(), ints.pop()
        a, na = vals.pop(), ints.pop()
        if o == "+":
            push(F.add(a, b), na + nb if na is not None and nb is not None else None)
        elif o == "-":
            push(F.sub(a, b), na - nb if na is not None and nb is not None else None)
        elif o == "*":
            push(F.mul(a, b), na * nb if na is not None and nb is not None else None)
        elif o == "/":
            push(F.div(a, b))
        elif o == "^":
            if nb is None:
                raise Bad("exponent")
            push(F.pw(a, nb))
        else:
            raise Bad("unbalanced")
    expect = True
    for kind, t in tokens(text):
        if expect:
            if kind == "n":
                push(F.num(t), t)
                expect = False
            elif kind == "v":
                if t == "MOD":
                    ops.append("MOD")
                    continue
                if t not in env:
                    raise Bad("unknown name " + t)
                push(env[t])
                expect = False
            elif t == "(":
                ops.append("(")
            elif t == "-":
                ops.append("u")
            elif t == "+":
                pass
            else:
                raise Bad("unexpected %r" % (t,))
        else:
            if kind == "c" and t in "+-*/^":
                while ops and ops[-1] in prec and prec[ops[-1]] >= prec[t]:
                    apply()
                ops.append(t)
                expect = True
            elif t == ")":
                while ops and ops[-1] in prec:
                    apply()
                if not ops or ops[-1] not in ("(", ","):
                    raise Bad("unbalanced )")
                if ops[-1] == ",":
                    ops.pop()
                    if len(ops) < 2 or ops[-1] != "(" or ops[-2] != "MOD":
                        raise Bad("comma")
                    ops.pop()
                    ops.pop()
                    b, _ = vals.pop(), ints.pop()
                    a, _ = vals.pop(), ints.pop()
                    push(a - b * floor(a / b))
                else:
                    ops.pop()
                    if ops and ops[-1] == "MOD":
                        raise Bad("MOD needs two arguments")
            elif t == ",":
                while ops and ops[-1] in prec:
                    apply()
                if not ops or ops[-1] != "(":
                    raise Bad("comma")
                ops.append(",")
                expect = True
            elif kind == "e":
                break
            else:
                raise Bad("unexpected %r" % (t,))
    if expect:
        raise Bad("text ends early")
    while ops:
        if ops[-1] not in prec:
            raise Bad("unbalanced (")
        apply()
    if len(vals) != 1:
        raise Bad("not one value")
    return vals[0]
