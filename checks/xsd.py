"""Lexical spaces of the 30 XSD atomic types of AAS v3.0 (W3C XML Schema part 2), as regular languages.

spec(T) -> (must_accept, must_reject): disjoint languages; what lies between is left open (rounding at the float
bounds, the optional-fraction spelling "1." of xs:decimal, optional blanks inside xs:base64Binary)."""
from absint import rx
from absint.rx import compile_spec as cs, union, minus, inter, concat

TZ = "(Z|[+-]((0[0-9]|1[0-3]):[0-5][0-9]|14:00))?"
YEAR = "-?([1-9][0-9]{3,}|0[0-9]{3})"
MD = "((01|03|05|07|08|10|12)-(0[1-9]|[12][0-9]|3[01])|(04|06|09|11)-(0[1-9]|[12][0-9]|30)|02-(0[1-9]|1[0-9]|2[0-8]))"
DURATION = ("-?P((([0-9]+Y([0-9]+M)?([0-9]+D)?|([0-9]+M)([0-9]+D)?|([0-9]+D))(T(([0-9]+H)([0-9]+M)?([0-9]+(\\.[0-9]+)?S)?"
            "|([0-9]+M)([0-9]+(\\.[0-9]+)?S)?|([0-9]+(\\.[0-9]+)?S)))?)|(T(([0-9]+H)([0-9]+M)?([0-9]+(\\.[0-9]+)?S)?"
            "|([0-9]+M)([0-9]+(\\.[0-9]+)?S)?|([0-9]+(\\.[0-9]+)?S))))")
TIME = "(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\\.[0-9]+)?|24:00:00(\\.0+)?)"


def leap_years():
    """ASCII year numerals (>= 4 digits, no sign) divisible by 4 and (not by 100 or by 400)"""
    four = cs("[1-9][0-9]{3,}|0[0-9]{3}")
    l = inter(rx.digits_mod(4, lambda r: r == 0),
              union(rx.digits_mod(100, lambda r: r != 0), rx.digits_mod(400, lambda r: r == 0)))
    pos = inter(four, l)
    # negative year -y: the astronomical year y-1 decides (XSD 1.0 has no year 0)
    l2 = inter(rx.digits_mod(4, lambda r: r == 1),
               union(rx.digits_mod(100, lambda r: r != 1), rx.digits_mod(400, lambda r: r == 1)))
    neg = concat(rx.word("-"), inter(four, l2))
    return pos, neg


_memo = {}


def date_body():
    if "d" not in _memo:
        zero = cs("-?0000")
        y = minus(cs(YEAR), zero)
        a = concat(y, concat(rx.word("-"), cs(MD)))
        pos, neg = leap_years()
        b = concat(union(minus(pos, zero), neg), rx.word("-02-29"))
        _memo["d"] = union(a, b)
    return _memo["d"]


def ints(lo, hi):
    plus = rx.words(["", "+"])
    m = rx.word("-")
    out = rx.EMPTY
    if hi is None or hi >= 0:
        P = rx.digits() if hi is None else rx.digits_le(hi)
        if lo is not None and lo > 0:
            P = minus(P, rx.digits_le(lo - 1))
        out = union(out, concat(plus, P))
    if lo is None or lo <= 0:
        P = rx.digits() if lo is None else rx.digits_le(-lo)
        if hi is not None and hi < 0:
            P = minus(P, rx.digits_le(-hi - 1))
        out = union(out, concat(m, P))
    return out


BOUNDS = {"integer": (None, None), "byte": (-128, 127), "short": (-32768, 32767), "int": (-2**31, 2**31 - 1),
          "long": (-2**63, 2**63 - 1), "unsignedByte": (0, 255), "unsignedShort": (0, 65535),
          "unsignedInt": (0, 2**32 - 1), "unsignedLong": (0, 2**64 - 1), "positiveInteger": (1, None),
          "nonNegativeInteger": (0, None), "negativeInteger": (None, -1), "nonPositiveInteger": (None, 0)}

IPCHAR_ASCII = "([a-zA-Z0-9._~!$&'()*+,;=:@-]|%[0-9A-Fa-f][0-9A-Fa-f])"


def spec(t):
    if t in _memo:
        return _memo[t]
    gap = rx.EMPTY
    if t == "string":
        a = rx.ANY
    elif t == "boolean":
        a = rx.words(["true", "false", "1", "0"])
    elif t in BOUNDS:
        a = ints(*BOUNDS[t])
    elif t == "decimal":
        a = cs("[+-]?([0-9]+(\\.[0-9]+)?|\\.[0-9]+)")
        gap = cs("[+-]?[0-9]+\\.")
    elif t in ("double", "float"):
        lex = cs("[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?[0-9]+)?|-?INF|NaN")
        d = 30 if t == "float" else 300
        # surely in range: at most d digits before the point, exponent <= 0 or small
        small = cs("[+-]?([0-9]{1,6}(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?(0?[0-9]|1[0-9]|2[0-9]))?|-?INF|NaN" if t == "float" else
                   "[+-]?([0-9]{1,6}(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?(0?[0-9]|[0-9][0-9]|[12][0-9][0-9]))?|-?INF|NaN")
        big = cs("[+-]?[1-9][0-9]*(\\.[0-9]*)?[eE][+]?([5-9][0-9][0-9]|[1-9][0-9]{3,})" if t == "double" else
                 "[+-]?[1-9][0-9]*(\\.[0-9]*)?[eE][+]?([5-9][0-9]|[1-9][0-9]{2,})")
        a = small
        gap = minus(minus(lex, small), big)
    elif t == "date":
        a = concat(date_body(), cs(TZ))
    elif t == "dateTime":
        a = concat(date_body(), cs("T" + TIME + TZ))
    elif t == "time":
        a = cs(TIME + TZ)
    elif t == "duration":
        a = cs(DURATION)
    elif t == "gDay":
        a = cs("---(0[1-9]|[12][0-9]|3[01])" + TZ)
    elif t == "gMonth":
        a = cs("--(0[1-9]|1[0-2])" + TZ)
    elif t == "gMonthDay":
        a = cs("--(" + MD + "|02-29)" + TZ)
    elif t == "gYear":
        a = minus(cs(YEAR + TZ), cs("-?0000" + TZ))
        gap = cs("-?0000" + TZ)
    elif t == "gYearMonth":
        a = minus(cs(YEAR + "-(0[1-9]|1[0-2])" + TZ), cs("-?0000-(0[1-9]|1[0-2])" + TZ))
        gap = cs("-?0000-(0[1-9]|1[0-2])" + TZ)
    elif t == "hexBinary":
        a = cs("([0-9a-fA-F]{2})*")
    elif t == "base64Binary":
        b = "[A-Za-z0-9+/]"
        a = cs(f"({b}{{4}})*({b}{{2}}[AEIMQUYcgkosw048]=|{b}[AQgw]==)?")
        # left open: blanks between the characters, unused trailing bits
        loose = cs(f"(({b} ?){{4}})*(({b} ?){{3}}=|({b} ?){{2}}= ?=)? ?")
        gap = minus(loose, a)
    elif t == "anyURI":
        # accept: RFC 3987 references with plain paths/queries/fragments; reject: characters no IRI may contain
        p = IPCHAR_ASCII
        a = cs(f"([a-zA-Z][a-zA-Z0-9+.-]*:(//[a-zA-Z0-9._-]+(:[0-9]*)?(/{p}*)*|/?{p}+(/{p}*)*)|/({p}+(/{p}*)*)?|"
               f"[a-zA-Z0-9._~-]+(/{p}*)*|)(\\?({p}|[/?])*)?(#({p}|[/?])*)?")
        bad = rx.cs_of(" <>\"{}|\\^`\t\n\r")
        r = rx.concat(rx.ANY, rx.concat(rx.chars(bad), rx.ANY))
        r = union(r, cs("(.|\\n)*%([^0-9A-Fa-f](.|\\n)*|[0-9A-Fa-f]([^0-9A-Fa-f](.|\\n)*)?|)"))
        r = union(r, cs("(.|\\n)*#(.|\\n)*#(.|\\n)*"))
        r = union(r, cs(":(.|\\n)*|[0-9][a-zA-Z0-9]*:(.|\\n)*"))
        _memo[t] = (a, r)
        return _memo[t]
    else:
        raise KeyError(t)
    rej = minus(a.neg(), gap)
    _memo[t] = (a, rej)
    return _memo[t]
