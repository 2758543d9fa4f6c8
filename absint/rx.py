"""Regular-language domain: codepoint-interval DFAs with exact boolean operations.

A language is a complete DFA over all of Unicode (0..0x10FFFF, surrogates included, because a
Python str may hold them).  `bounds` is a sorted list of interval starts (first is 0); class i is
[bounds[i], bounds[i+1]).  trans[state] is a tuple of successor states, one per class.
Every operation used to decide a property (intersection, complement, concatenation, emptiness,
inclusion) is exact on this representation.
"""
from bisect import bisect_right
import re

try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

MAX = 0x110000


class TooComplex(Exception):
    pass


LIMIT_STATES = 60000


# ---------------------------------------------------------------- char sets (sorted disjoint [a,b) lists)
def cs_norm(iv):
    iv = sorted((a, b) for a, b in iv if a < b)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1]:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def cs_neg(iv):
    out = []
    p = 0
    for a, b in iv:
        if p < a:
            out.append((p, a))
        p = b
    if p < MAX:
        out.append((p, MAX))
    return tuple(out)


def cs_or(x, y):
    return cs_norm(list(x) + list(y))


def cs_and(x, y):
    return cs_neg(cs_or(cs_neg(x), cs_neg(y)))


def cs_of(chars):
    return cs_norm([(ord(c), ord(c) + 1) for c in chars])


CS_ANY = ((0, MAX),)
_cat_cache = {}


def cs_pred(name, pred):
    if name not in _cat_cache:
        out = []
        start = None
        for c in range(MAX):
            if pred(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                out.append((start, c))
                start = None
        if start is not None:
            out.append((start, MAX))
        _cat_cache[name] = tuple(out)
    return _cat_cache[name]


def cs_digit():
    return cs_pred("d", lambda c: c.isdecimal())


def cs_space():
    return cs_pred("s", str.isspace)


def cs_word():
    return cs_pred("w", lambda c: c.isalnum() or c == "_")


CS_ADIGIT = ((48, 58),)
CS_ASPACE = cs_of(" \t\n\r\f\v")
CS_AWORD = cs_norm([(48, 58), (65, 91), (95, 96), (97, 123)])


class DFA:
    __slots__ = ("bounds", "trans", "acc", "_min", "_props", "_neg")

    def __init__(self, bounds, trans, acc):
        self.bounds = tuple(bounds)
        self.trans = trans
        self.acc = frozenset(acc)
        self._props = {}
        self._neg = None

    def cls(self, cp):
        return bisect_right(self.bounds, cp) - 1

    def run(self, s, q=0):
        for ch in s:
            q = self.trans[q][self.cls(ord(ch))]
        return q

    def accepts(self, s):
        return self.run(s) in self.acc

    # -------- properties
    def live(self):
        if "live" not in self._props:
            rev = {}
            for q, row in enumerate(self.trans):
                for r in set(row):
                    rev.setdefault(r, []).append(q)
            seen = set(self.acc)
            st = list(self.acc)
            while st:
                q = st.pop()
                for p in rev.get(q, ()):
                    if p not in seen:
                        seen.add(p)
                        st.append(p)
            self._props["live"] = seen
        return self._props["live"]

    def empty(self):
        return 0 not in self.live()

    def finite(self):
        """max word length or None if infinite; -1 if empty"""
        if "maxlen" not in self._props:
            self._props["maxlen"] = self._maxlen()
        return self._props["maxlen"]

    def _maxlen(self):
        live = self.live()
        if 0 not in live:
            return -1
        # longest path in live subgraph reachable from 0, None if cyclic
        import sys
        color = {}
        best = {}
        stack = [(0, iter(sorted(set(self.trans[0]))))]
        color[0] = 1
        best[0] = 0 if 0 in self.acc else None
        order = []
        while stack:
            q, it = stack[-1]
            for r in it:
                if r not in live:
                    continue
                c = color.get(r, 0)
                if c == 1:
                    return None
                if c == 0:
                    color[r] = 1
                    stack.append((r, iter(sorted(set(self.trans[r])))))
                    break
            else:
                color[q] = 2
                order.append(q)
                stack.pop()
        lp = {}
        for q in order:
            m = 0 if q in self.acc else -1
            for r in set(self.trans[q]):
                if r in live:
                    m = max(m, lp[r] + 1)
            lp[q] = m
        return lp[0]

    def minlen(self):
        if "minlen" not in self._props:
            w = self.shortest()
            self._props["minlen"] = None if w is None else len(w)
        return self._props["minlen"]

    def has_len_in(self, lo, hi):
        """is there a word with lo <= len <= hi (hi None = unbounded)"""
        key = ("len", lo, hi)
        if key in self._props:
            return self._props[key]
        live = self.live()
        cur = {0} & live
        n = 0
        ans = False
        succ = {}
        mx = self.finite()
        if mx == -1:
            ans = False
        elif mx is None and hi is None:
            # infinite -> arbitrarily long words exist
            ans = True
        else:
            if mx is not None:
                hi = mx if hi is None else min(hi, mx)
            seen_sets = {}
            while cur and n <= hi:
                if n >= lo and cur & self.acc:
                    ans = True
                    break
                fz = frozenset(cur)
                if fz in seen_sets and n < lo:
                    # periodic: jump
                    per = n - seen_sets[fz]
                    k = (lo - n) // per
                    if k > 0:
                        n += k * per
                        seen_sets = {}
                        continue
                seen_sets[fz] = n
                nxt = set()
                for q in cur:
                    if q not in succ:
                        succ[q] = {r for r in self.trans[q] if r in live}
                    nxt |= succ[q]
                cur = nxt
                n += 1
        self._props[key] = ans
        return ans

    def shortest(self, minlen=0):
        """an example word (lexicographically plain), preferring printable characters"""
        live = self.live()
        if 0 not in live:
            return None
        from collections import deque
        if minlen == 0:
            prev = {0: None}
            dq = deque([0])
            while dq:
                q = dq.popleft()
                if q in self.acc:
                    out = []
                    while prev[q] is not None:
                        p, c = prev[q]
                        out.append(c)
                        q = p
                    return "".join(reversed(out))
                for i, r in enumerate(self.trans[q]):
                    if r in live and r not in prev:
                        prev[r] = (q, self._repr_char(i))
                        dq.append(r)
            return None
        # word of length >= minlen
        prev = {(0, 0): None}
        dq = deque([(0, 0)])
        while dq:
            q, n = dq.popleft()
            if q in self.acc and n >= minlen:
                out = []
                k = (q, n)
                while prev[k] is not None:
                    p, c = prev[k]
                    out.append(c)
                    k = p
                return "".join(reversed(out))
            for i, r in enumerate(self.trans[q]):
                k = (r, min(n + 1, minlen) if n + 1 >= minlen else n + 1)
                if r in live and k not in prev:
                    prev[k] = ((q, n), self._repr_char(i))
                    dq.append(k)
        return None

    def _repr_char(self, i):
        a = self.bounds[i]
        b = self.bounds[i + 1] if i + 1 < len(self.bounds) else MAX
        for c in (97, 65, 48, 45, 46, 58, 33, 95):
            if a <= c < b:
                return chr(c)
        for c in range(33, 127):
            if a <= c < b:
                return chr(c)
        return chr(a)

    def single(self):
        """the only word, or None"""
        if "single" not in self._props:
            r = None
            mx = self.finite()
            if mx is not None and mx >= 0 and mx == self.minlen():
                live = self.live()
                q = 0
                out = []
                ok = True
                for _ in range(mx):
                    cand = [i for i, t in enumerate(self.trans[q]) if t in live]
                    if len(cand) != 1:
                        ok = False
                        break
                    i = cand[0]
                    a = self.bounds[i]
                    b = self.bounds[i + 1] if i + 1 < len(self.bounds) else MAX
                    if b - a != 1:
                        ok = False
                        break
                    out.append(chr(a))
                    q = self.trans[q][i]
                if ok:
                    r = "".join(out)
            self._props["single"] = r
        return self._props["single"]

    # -------- operations
    def neg(self):
        if self._neg is None:
            d = DFA(self.bounds, self.trans, set(range(len(self.trans))) - self.acc)
            d._neg = self
            self._neg = d
        return self._neg

    def minimize(self):
        n = len(self.trans)
        k = len(self.bounds)
        # Moore partition refinement
        part = [1 if q in self.acc else 0 for q in range(n)]
        npart = len(set(part))
        while True:
            sig = {}
            newp = [0] * n
            for q in range(n):
                key = (part[q],) + tuple([part[r] for r in self.trans[q]])
                newp[q] = sig.setdefault(key, len(sig))
            if len(sig) == npart:
                break
            npart = len(sig)
            part = newp
        # renumber from start by BFS
        idx = {newp[0]: 0}
        rep = {newp[0]: 0}
        order = [newp[0]]
        reps = {}
        for q in range(n):
            reps.setdefault(newp[q], q)
        i = 0
        trans = []
        while i < len(order):
            p = order[i]
            q = reps[p]
            row = []
            for r in self.trans[q]:
                pr = newp[r]
                if pr not in idx:
                    idx[pr] = len(order)
                    order.append(pr)
                row.append(idx[pr])
            trans.append(row)
            i += 1
        acc = {idx[p] for p in order if reps[p] in self.acc}
        # merge equal adjacent classes
        cols = list(zip(*trans))
        nb = [self.bounds[0]]
        keep = [0]
        for c in range(1, k):
            if cols[c] != cols[keep[-1]]:
                nb.append(self.bounds[c])
                keep.append(c)
        trans = [tuple(row[c] for c in keep) for row in trans]
        return DFA(nb, trans, acc)


_prod_cache = {}


def product(a, b, fn_name):
    key = (id(a), id(b), fn_name)
    hit = _prod_cache.get(key)
    if hit is not None:
        return hit[0]
    fn = {"and": lambda x, y: x and y, "or": lambda x, y: x or y, "sub": lambda x, y: x and not y}[fn_name]
    bounds = sorted(set(a.bounds) | set(b.bounds))
    ma = [a.cls(x) for x in bounds]
    mb = [b.cls(x) for x in bounds]
    pairs = list(zip(ma, mb))
    idx = {(0, 0): 0}
    order = [(0, 0)]
    trans = []
    acc = set()
    i = 0
    at, bt = a.trans, b.trans
    al = a.live()
    bl = b.live()
    DEAD = ("dead", "dead")
    while i < len(order):
        cur = order[i]
        if cur == DEAD:
            trans.append([i] * len(bounds))
            i += 1
            continue
        p, q = cur
        if fn(p in a.acc, q in b.acc):
            acc.add(i)
        rp, rq = at[p], bt[q]
        row = []
        for x, y in pairs:
            t = (rp[x], rq[y])
            if (fn_name == "and" and (t[0] not in al or t[1] not in bl)) or (fn_name == "sub" and t[0] not in al):
                t = DEAD
            j = idx.get(t)
            if j is None:
                j = idx[t] = len(order)
                order.append(t)
                if j > LIMIT_STATES:
                    raise TooComplex()
            row.append(j)
        trans.append(row)
        i += 1
    d = DFA(bounds, [tuple(r) for r in trans], acc).minimize()
    _prod_cache[key] = (d, a, b)
    return d


def inter(a, b):
    if a is b or b is ANY:
        return a
    if a is ANY:
        return b
    return product(a, b, "and")


def union(a, b):
    if a is b:
        return a
    return product(a, b, "or")


def minus(a, b):
    return product(a, b, "sub")


def subset(a, b):
    return minus(a, b).empty()


def equal(a, b):
    return subset(a, b) and subset(b, a)


# ---------------------------------------------------------------- NFA
class NFA:
    """fragments: eps edges + charset edges; DFA embedding supported"""

    def __init__(self):
        self.eps = []
        self.edges = []

    def new(self):
        self.eps.append([])
        self.edges.append([])
        if len(self.eps) > 400000:
            raise TooComplex()
        return len(self.eps) - 1

    def add_dfa(self, d):
        live = d.live()
        m = {}
        for q in live:
            m[q] = self.new()
        end = self.new()
        if 0 not in live:
            return self.new(), end
        nb = len(d.bounds)
        for q in live:
            by = {}
            for i, r in enumerate(d.trans[q]):
                if r in live:
                    by.setdefault(r, []).append((d.bounds[i], d.bounds[i + 1] if i + 1 < nb else MAX))
            for r, iv in by.items():
                self.edges[m[q]].append((cs_norm(iv), m[r]))
            if q in d.acc:
                self.eps[m[q]].append(end)
        return m[0], end


def nfa_to_dfa(n, start, end):
    bounds = {0}
    for es in n.edges:
        for cs, _ in es:
            for a, b in cs:
                bounds.add(a)
                if b < MAX:
                    bounds.add(b)
    bounds = sorted(bounds)
    bidx = {b: i for i, b in enumerate(bounds)}
    nb = len(bounds)
    # edges as class lists
    eclosure = {}

    def clo(q):
        r = eclosure.get(q)
        if r is None:
            seen = {q}
            st = [q]
            while st:
                x = st.pop()
                for y in n.eps[x]:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            # keep only states with edges or end
            r = frozenset(x for x in seen if n.edges[x] or x == end)
            eclosure[q] = r
        return r

    eclasses = {}

    def ecl(q):
        r = eclasses.get(q)
        if r is None:
            r = []
            for cs, t in n.edges[q]:
                cl = []
                for a, b in cs:
                    i = bidx[a]
                    j = bidx[b] if b < MAX else nb
                    cl.extend(range(i, j))
                r.append((cl, clo(t)))
            eclasses[q] = r
        return r

    s0 = clo(start)
    idx = {s0: 0}
    order = [s0]
    trans = []
    acc = set()
    i = 0
    while i < len(order):
        S = order[i]
        if end in S:
            acc.add(i)
        row = [None] * nb
        for q in S:
            for cl, tgt in ecl(q):
                for c in cl:
                    if row[c] is None:
                        row[c] = [tgt]
                    else:
                        row[c].append(tgt)
        out = []
        memo = {}
        for c in range(nb):
            ts = row[c]
            if ts is None:
                T = frozenset()
            elif len(ts) == 1:
                T = ts[0]
            else:
                k = tuple(map(id, ts))
                T = memo.get(k)
                if T is None:
                    T = frozenset().union(*ts)
                    memo[k] = T
            j = idx.get(T)
            if j is None:
                j = idx[T] = len(order)
                order.append(T)
                if j > LIMIT_STATES:
                    raise TooComplex()
            out.append(j)
        trans.append(tuple(out))
        i += 1
    return DFA(bounds, trans, acc).minimize()


# ---------------------------------------------------------------- regex -> NFA
class Unsupp(Exception):
    pass


class _B:
    def __init__(self, flags, group_langs=None):
        self.n = NFA()
        self.flags = flags
        self.group_langs = group_langs or {}
        self.uni = not (flags & re.ASCII)

    def cat(self, c):
        name = str(c)
        d = {"CATEGORY_DIGIT": (cs_digit, CS_ADIGIT), "CATEGORY_SPACE": (cs_space, CS_ASPACE), "CATEGORY_WORD": (cs_word, CS_AWORD)}
        for k, (f, asc) in d.items():
            if name == k:
                return f() if self.uni else asc
            if name == k.replace("CATEGORY_", "CATEGORY_NOT_"):
                return cs_neg(f() if self.uni else asc)
        raise Unsupp(name)

    def lit(self, c):
        if self.flags & re.IGNORECASE:
            ch = chr(c)
            cand = {ch, ch.lower(), ch.upper()}
            cand = {x for x in cand if len(x) == 1}
            return cs_of(cand)
        return ((c, c + 1),)

    def edge(self, cs):
        a, b = self.n.new(), self.n.new()
        if cs:
            self.n.edges[a].append((cs, b))
        return a, b

    def charset(self, items):
        neg = False
        cs = ()
        for op, av in items:
            o = str(op)
            if o == "NEGATE":
                neg = True
            elif o == "LITERAL":
                cs = cs_or(cs, self.lit(av))
            elif o == "RANGE":
                r = ((av[0], av[1] + 1),)
                cs = cs_or(cs, r)
                if self.flags & re.IGNORECASE:
                    if av[1] - av[0] > 5000:
                        raise Unsupp("icase range")
                    for c in range(av[0], av[1] + 1):
                        cs = cs_or(cs, self.lit(c))
            elif o == "CATEGORY":
                cs = cs_or(cs, self.cat(av))
            else:
                raise Unsupp(o)
        return cs_neg(cs) if neg else cs

    def seq(self, items):
        n = self.n
        a = n.new()
        cur = a
        for op, av in items:
            x, y = self.one(op, av)
            n.eps[cur].append(x)
            cur = y
        return a, cur

    def one(self, op, av):
        n = self.n
        o = str(op)
        if o == "LITERAL":
            return self.edge(self.lit(av))
        if o == "NOT_LITERAL":
            return self.edge(cs_neg(self.lit(av)))
        if o == "ANY":
            return self.edge(CS_ANY if self.flags & re.DOTALL else cs_neg(cs_of("\n")))
        if o == "IN":
            return self.edge(self.charset(av))
        if o == "BRANCH":
            a, b = n.new(), n.new()
            for alt in av[1]:
                x, y = self.seq(alt)
                n.eps[a].append(x)
                n.eps[y].append(b)
            return a, b
        if o == "SUBPATTERN":
            gid, add, sub, p = av
            old = self.flags
            self.flags = (self.flags | add) & ~sub
            try:
                if gid is not None and gid in self.group_langs:
                    # language of the group's own body intersected with the given constraint
                    body = _seq_dfa(p, self.flags, self.group_langs)
                    return n.add_dfa(inter(body, self.group_langs[gid]))
                return self.seq(p)
            finally:
                self.flags = old
        if o in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, p = av
            a = n.new()
            cur = a
            if o == "POSSESSIVE_REPEAT":
                raise Unsupp(o)
            for _ in range(lo):
                x, y = self.seq(p)
                n.eps[cur].append(x)
                cur = y
            if hi == sre_c.MAXREPEAT:
                x, y = self.seq(p)
                e = n.new()
                n.eps[cur].append(x)
                n.eps[cur].append(e)
                n.eps[y].append(x)
                n.eps[y].append(e)
                return a, e
            e = n.new()
            n.eps[cur].append(e)
            for _ in range(hi - lo):
                x, y = self.seq(p)
                n.eps[cur].append(x)
                n.eps[y].append(e)
                cur = y
            return a, e
        if o == "ATOMIC_GROUP":
            # exact only when the group is language-equivalent to its non-atomic form; used by
            # fnmatch.translate, where it is
            return self.seq(av)
        raise Unsupp(o)


def _seq_dfa(p, flags, group_langs=None):
    b = _B(flags, group_langs)
    x, y = b.seq(p)
    return nfa_to_dfa(b.n, x, y)


def _strip_anchors(items, flags):
    """Handle leading ^/\\A and trailing $/\\Z. returns (items, has_start, end_kind)"""
    items = list(items)
    start = False
    end = None
    while items and str(items[0][0]) == "AT":
        at = str(items[0][1])
        if at in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            if at == "AT_BEGINNING" and flags & re.MULTILINE:
                raise Unsupp("multiline")
            start = True
            items.pop(0)
        else:
            break
    while items and str(items[-1][0]) == "AT":
        at = str(items[-1][1])
        if at == "AT_END_STRING":
            end = "Z"
            items.pop()
        elif at == "AT_END":
            if flags & re.MULTILINE:
                raise Unsupp("multiline")
            if end is None:
                end = "$"
            items.pop()
        else:
            break
    return items, start, end


_pat_cache = {}
NL = None


def pattern_lang(pattern, flags=0, mode="fullmatch", group_langs=None):
    """Set of strings s for which re.<mode>(pattern, s) succeeds."""
    key = (pattern, int(flags), mode)
    if group_langs is None and key in _pat_cache:
        return _pat_cache[key]
    tree = sre_parse.parse(pattern, flags)
    fl = tree.state.flags
    items = list(tree)
    # split top-level branch so that anchors inside alternatives work
    alts = [items]
    if len(items) == 1 and str(items[0][0]) == "BRANCH":
        alts = [list(x) for x in items[0][1][1]]
    elif len(items) >= 1 and str(items[0][0]) == "SUBPATTERN" and len(items) == 1 and items[0][1][0] is None:
        fl = (fl | items[0][1][1]) & ~items[0][1][2]
        alts = [list(items[0][1][3])]
    res = None
    for alt in alts:
        body, st, end = _strip_anchors(alt, fl)
        d = _seq_dfa(body, fl, group_langs)
        if mode == "fullmatch":
            if end == "$":
                # fullmatch must consume everything; '$' before a final newline cannot help
                pass
        elif mode == "match":
            if end is None:
                d = concat(d, ANY)
            elif end == "$":
                d = concat(d, OPT_NL)
        elif mode == "search":
            if not st:
                d = concat(ANY, d)
            if end is None:
                d = concat(d, ANY)
            elif end == "$":
                d = concat(d, OPT_NL)
        res = d if res is None else union(res, d)
    if group_langs is None:
        _pat_cache[key] = res
    return res


def compile_spec(pattern):
    return pattern_lang(pattern, 0, "fullmatch")


# ---------------------------------------------------------------- constructions
def word(s):
    return _word(s)


_word_cache = {}


def _word(s):
    if s in _word_cache:
        return _word_cache[s]
    n = NFA()
    a = n.new()
    cur = a
    for ch in s:
        b = n.new()
        n.edges[cur].append((((ord(ch), ord(ch) + 1),), b))
        cur = b
    d = nfa_to_dfa(n, a, cur)
    _word_cache[s] = d
    return d


def words(ws):
    key = frozenset(ws)
    if key in _word_cache:
        return _word_cache[key]
    n = NFA()
    a = n.new()
    e = n.new()
    for s in key:
        cur = a
        for ch in s:
            b = n.new()
            n.edges[cur].append((((ord(ch), ord(ch) + 1),), b))
            cur = b
        n.eps[cur].append(e)
    d = nfa_to_dfa(n, a, e)
    _word_cache[key] = d
    return d


def chars(cs):
    n = NFA()
    a, b = n.new(), n.new()
    if cs:
        n.edges[a].append((tuple(cs), b))
    return nfa_to_dfa(n, a, b)


def star(d):
    n = NFA()
    x, y = n.add_dfa(d)
    s = n.new()
    e = n.new()
    n.eps[s] += [x, e]
    n.eps[y] += [x, e]
    return nfa_to_dfa(n, s, e)


_cat_c = {}


def concat(*ds):
    key = tuple(map(id, ds))
    if key in _cat_c:
        return _cat_c[key][0]
    n = NFA()
    s = n.new()
    cur = s
    for d in ds:
        x, y = n.add_dfa(d)
        n.eps[cur].append(x)
        cur = y
    r = nfa_to_dfa(n, s, cur)
    _cat_c[key] = (r, ds)
    return r


ANY = DFA([0], [(0,)], {0})
EMPTY = DFA([0], [(0,)], set())
EPS = _word("")
SIGMA = chars(CS_ANY)
OPT_NL = words(["", "\n"])
NONEMPTY = DFA([0], [(1,), (1,)], {1})
_len_cache = {}


def length(lo, hi):
    """strings with lo <= len <= hi (None = unbounded)"""
    key = (lo, hi)
    if key in _len_cache:
        return _len_cache[key]
    lo = max(0, lo)
    if hi is not None and hi < lo:
        return EMPTY
    top = (hi + 1) if hi is not None else lo
    trans = [(i + 1,) for i in range(top)] + [(top,)]
    acc = {i for i in range(lo, (hi if hi is not None else top) + 1)}
    d = DFA([0], trans, acc)
    _len_cache[key] = d
    return d


def starts(s):
    return concat(_word(s), ANY)


def ends(s):
    return concat(ANY, _word(s))


def contains(s):
    return concat(ANY, _word(s), ANY)


def over(cs):
    """strings all of whose characters are in cs"""
    return star(chars(cs))


_hom_cache = {}


def inverse_hom(d, h_exceptions, default_identity=True):
    """{ w : h(w) in L(d) } where h maps codepoint c -> string (h_exceptions[c]) else identity."""
    hit = _hom_cache.get((id(d), id(h_exceptions)))
    if hit is not None:
        return hit[0]
    bounds = set(d.bounds)
    for c in h_exceptions:
        bounds.add(c)
        if c + 1 < MAX:
            bounds.add(c + 1)
    # boundaries whose image reads the same classes behave alike: one column per distinct image
    nb = []
    sigs = []
    for b in sorted(bounds):
        sig = tuple([d.cls(ord(ch)) for ch in h_exceptions[b]]) if b in h_exceptions else (d.cls(b),)
        if sigs and sigs[-1] == sig:
            continue
        nb.append(b)
        sigs.append(sig)
    cols = {}
    for sig in set(sigs):
        col = []
        for q in range(len(d.trans)):
            for x in sig:
                q = d.trans[q][x]
            col.append(q)
        cols[sig] = col
    order = [cols[sg] for sg in sigs]
    r = DFA(nb, [tuple([c[q] for c in order]) for q in range(len(d.trans))], d.acc).minimize()
    _hom_cache[(id(d), id(h_exceptions))] = (r, d, h_exceptions)
    return r


def inverse_sub(d, rel):
    """pre-image under a *relation* on characters (rel: dict cp -> string); same as inverse_hom"""
    return inverse_hom(d, rel)


_case_maps = {}


def case_map(kind):
    if kind not in _case_maps:
        f = {"lower": str.lower, "upper": str.upper, "casefold": str.casefold}[kind]
        m = {}
        for c in range(MAX):
            ch = chr(c)
            r = f(ch)
            if r != ch:
                m[c] = r
        _case_maps[kind] = m
    return _case_maps[kind]


def left_quot(a, d):
    """{ w : a.w in L }"""
    q = d.run(a)
    if q == 0:
        return d
    # renumber q as start
    idx = [q] + [i for i in range(len(d.trans)) if i != q]
    pos = {x: i for i, x in enumerate(idx)}
    trans = [tuple(pos[r] for r in d.trans[x]) for x in idx]
    return DFA(d.bounds, trans, {pos[x] for x in d.acc}).minimize()


def right_quot(d, b):
    """{ w : w.b in L }"""
    acc = {q for q in range(len(d.trans)) if d.run(b, q) in d.acc}
    return DFA(d.bounds, d.trans, acc).minimize()


# ---- numeric languages on plain ASCII digit strings (leading zeros allowed)
_num_cache = {}


def digits_le(n):
    """[0-9]+ with value <= n"""
    key = ("le", n)
    if key in _num_cache:
        return _num_cache[key]
    if n < 0:
        return EMPTY
    s = str(n)
    alts = []
    for i in range(len(s)):
        c = int(s[i])
        if c > 0:
            alts.append(s[:i] + "[0-%d]" % (c - 1) + "[0-9]{%d}" % (len(s) - i - 1))
    alts.append(s)
    if len(s) > 1:
        alts.append("[0-9]{1,%d}" % (len(s) - 1))
    d = compile_spec("0*(" + "|".join(alts) + ")")
    _num_cache[key] = d
    return d


DIGITS = None


def digits():
    return compile_spec("[0-9]+")


def digits_mod(m, pred):
    """[0-9]+ whose value v satisfies pred(v % m)"""
    trans = []
    # state 0 = start(no digit), 1..m = residue, m+1 = sink
    sink = m + 1
    bounds = [0] + list(range(48, 59))
    def row(r):
        out = [sink]
        for dgt in range(10):
            out.append(1 + (r * 10 + dgt) % m)
        out.append(sink)
        return tuple(out)
    trans.append(row(0))
    for r in range(m):
        trans.append(row(r))
    trans.append(tuple([sink] * 12))
    return DFA(bounds, trans, {1 + r for r in range(m) if pred(r)}).minimize()
