"""Exact lexical spaces of the Python conversion functions used by validators."""
from . import rx
from .core import ISet, ModSet, Unsupported

_c = {}


def memo(f):
    def g(*a):
        k = (f.__name__,) + a
        if k not in _c:
            _c[k] = f(*a)
        return _c[k]
    return g


@memo
def nd_map():
    m = {}
    for c in range(rx.MAX):
        ch = chr(c)
        if c > 127 and ch.isdecimal():
            import unicodedata
            m[c] = str(unicodedata.digit(ch))
    return m


def strip_pre(cs):
    """pre-image of P under strip of characters in cs (both ends)"""
    C = rx.over(cs)
    inner = _inner(cs, True, True)
    return lambda P: rx.concat(C, rx.inter(P, inner), C)


def lstrip_pre(cs):
    C = rx.over(cs)
    inner = _inner(cs, True, False)
    return lambda P: rx.concat(C, rx.inter(P, inner))


def rstrip_pre(cs):
    C = rx.over(cs)
    inner = _inner(cs, False, True)
    return lambda P: rx.concat(rx.inter(P, inner), C)


@memo
def _inner(cs, left, right):
    C = rx.chars(cs)
    bad = rx.EMPTY
    if left:
        bad = rx.union(bad, rx.concat(C, rx.ANY))
    if right:
        bad = rx.union(bad, rx.concat(rx.ANY, C))
    return bad.neg()


@memo
def py_space():
    return rx.cs_space()


def _num_pre(P):
    """pre-image of a language over ASCII sign/digits/[.eE]/letters under int()/float() normalisation:
    strip whitespace, map unicode decimal digits to ASCII, drop single underscores between digits"""
    P = rx.inverse_hom(P, {ord("_"): ""})
    # underscores only between digits
    P = rx.inter(P, _us_ok())
    P = rx.inverse_hom(P, nd_map())
    return strip_pre(py_space())(P)


@memo
def _us_ok():
    # no leading/trailing underscore, every underscore has an ASCII digit on both sides
    bad = rx.compile_spec(r"(.|\n)*([^0-9]_|_[^0-9])(.|\n)*|_(.|\n)*|(.|\n)*_")
    return bad.neg()


@memo
def int_lang():
    return _num_pre(rx.compile_spec("[+-]?[0-9]+"))


@memo
def float_lang():
    return _num_pre(rx.compile_spec(
        "[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?|[+-]?([iI][nN][fF]([iI][nN][iI][tT][yY])?|[nN][aA][nN])"))


@memo
def float_numeric_lang():
    return _num_pre(rx.compile_spec("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?"))


@memo
def float_inf_lang(sign):
    return _num_pre(rx.compile_spec(("-" if sign < 0 else "[+]?") + "[iI][nN][fF]([iI][nN][iI][tT][yY])?"))


@memo
def float_nan_lang():
    return _num_pre(rx.compile_spec("[+-]?[nN][aA][nN]"))


@memo
def decimal_lang():
    # decimal.Decimal(str): all underscores are removed first, whitespace stripped, unicode digits allowed
    P = rx.compile_spec(
        "[+-]?(([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?|[iI][nN][fF]([iI][nN][iI][tT][yY])?|[sS]?[nN][aA][nN][0-9]*)")
    P = rx.inverse_hom(P, nd_map())
    P = rx.inverse_hom(P, {ord("_"): ""})
    P = strip_pre(py_space())(P)
    return P


def int_value_lang(s):
    """{ w in int_lang : int(w) in s }"""
    key = ("ival", s.iv if isinstance(s, ISet) else (s.m, s.res))
    if key in _c:
        return _c[key]
    dg = rx.digits()
    minus = rx.words(["-"])
    plus = rx.words(["", "+"])
    if isinstance(s, ModSet):
        pos = rx.digits_mod(s.m, lambda r: r in s.res)
        neg = rx.digits_mod(s.m, lambda r: (-r) % s.m in s.res)
        core = rx.union(rx.concat(plus, pos), rx.concat(minus, neg))
    else:
        core = rx.EMPTY
        for a, b in s.iv:
            # non-negative part: values in [max(a,0), b]
            lo = 0 if a is None else max(a, 0)
            if b is None or b >= lo:
                P = dg if b is None else rx.digits_le(b)
                if lo > 0:
                    P = rx.minus(P, rx.digits_le(lo - 1))
                core = rx.union(core, rx.concat(plus, P))
            # negative part: -v with v in [-b, -a], v >= 0 (also "-0")
            vlo = 0 if b is None else max(-b, 0)
            if a is None or -a >= vlo:
                vhi = None if a is None else -a
                if vhi is None or vhi >= 0:
                    P = dg if vhi is None else rx.digits_le(vhi)
                    if vlo > 0:
                        P = rx.minus(P, rx.digits_le(vlo - 1))
                    core = rx.union(core, rx.concat(minus, P))
    r = _num_pre(core)
    _c[key] = r
    return r


@memo
def hex_lang():
    # bytes.fromhex: pairs of hex digits, ASCII whitespace allowed between pairs
    return rx.compile_spec(r"[ \t\n\r\f\v]*([0-9a-fA-F]{2}[ \t\n\r\f\v]*)*")


@memo
def b64_lang(validate, urlsafe=False):
    """strings accepted by base64.b64decode(s[, validate=True]) (CPython 3.12)"""
    alpha = "A-Za-z0-9+/" if not urlsafe else "A-Za-z0-9+/_\\-"
    if validate:
        # CPython 3.12 strict mode tolerates surplus '=' after complete quads
        return rx.compile_spec("([%s]{4})*([%s]{2}==|[%s]{3}=)?|([%s]{4})+=+" % (alpha, alpha, alpha, alpha))
    # non-strict binascii: non-alphabet characters are skipped; '=' counts as padding only when
    # quad_pos >= 2 and enough pads complete the quad (then decoding stops); non-ASCII -> ValueError
    # states: (quad_pos, pads) ; done
    asc = rx.over(((0, 128),))
    A = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
    if urlsafe:
        A |= set("-_")
    states = {}
    order = []

    def sid(x):
        if x not in states:
            states[x] = len(order)
            order.append(x)
        return states[x]
    sid((0, 0))
    bounds = list(range(0, 128)) + [128]
    trans = []
    i = 0
    while i < len(order):
        st = order[i]
        row = []
        for c in range(128):
            ch = chr(c)
            if st == "done" or st == "sink":
                row.append(sid(st))
                continue
            qp, pads = st
            if ch == "=":
                if qp >= 2 and qp + pads + 1 >= 4:
                    row.append(sid("done"))
                elif qp >= 2:
                    row.append(sid((qp, pads + 1)))
                else:
                    row.append(sid((qp, pads)))
            elif ch in A:
                row.append(sid(((qp + 1) % 4, 0)))
            else:
                row.append(sid((qp, pads)))
        row.append(sid("sink"))
        trans.append(tuple(row))
        i += 1
    acc = {states[x] for x in order if x == "done" or (isinstance(x, tuple) and x[0] == 0)}
    return rx.DFA(bounds, trans, acc).minimize()


@memo
def isodate_lang():
    """date.fromisoformat for the extended calendar format YYYY-MM-DD"""
    d31 = "(0[1-9]|[12][0-9]|3[01])"
    d30 = "(0[1-9]|[12][0-9]|30)"
    y = "[0-9]{4}"
    a = rx.compile_spec(f"{y}-((01|03|05|07|08|10|12)-{d31}|(04|06|09|11)-{d30}|02-(0[1-9]|1[0-9]|2[0-8]))")
    b4 = rx.inter(rx.digits_mod(4, lambda r: r == 0), rx.compile_spec(y))
    n100 = rx.digits_mod(100, lambda r: r != 0)
    d400 = rx.digits_mod(400, lambda r: r == 0)
    leap = rx.inter(b4, rx.union(n100, d400))
    b = rx.concat(leap, rx.word("-02-29"))
    z = rx.compile_spec("0000-.*")
    return rx.minus(rx.union(a, b), z)


@memo
def isodate_other():
    """further formats accepted by 3.11+ for some values: basic and week dates"""
    return rx.compile_spec("[0-9]{8}|[0-9]{4}-?W[0-9]{2}(-?[0-9])?")
