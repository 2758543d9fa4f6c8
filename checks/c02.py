"""C02: every rendering of a result shows every entry, in order, nested, with its level, and never as markup."""
import itertools
import re
from html.parser import HTMLParser
from .common import *
from . import c01

LEVEL = "other"
NAMES = c01.NAMES
R_TEXT = "text: one line per entry in document order, indented below its parent, coloured by verdict"
R_HTML = "html: every message exactly once as escaped text, in document order, nested below its parent"
R_CLS = "entries of different levels are marked differently"
R_EXP = "html: hidden entries can be expanded, by click and level by level"
R_VIS = "html: failing entries are visible without interaction, hidden ones can be expanded"
R_BAL = "html: the report is well nested inside the page template"
R_DUMP = "dump prints the text lines"
VOID = {"meta", "br", "input", "link", "img", "hr"}


def shapes(tier):
    """tree shapes: nested tuples of children; leaves are ()"""
    s0 = ()
    s1 = [(s0,), (s0, s0), (s0, s0, s0)]
    out = [s0] + s1
    for a in [s0] + s1[:2]:
        for b in [s0] + s1[:2]:
            out.append((a, b))
    out.append((((s0,),),))
    out.append((((s0,), s0), s0))
    return list(dict.fromkeys(out))


def build(shape, path="m"):
    """result tree with abstract messages; the level of every leaf is arbitrary"""
    if isinstance(shape, str):
        return big(*shape.split())
    m = AbsStr(rx.ANY, name=path)
    if not shape:
        return c01.res(m, c01.anylevel(path))
    r = c01.res(m, c01.lv("INFO"))
    for i, s in enumerate(shape):
        meth(r, "append", build(s, f"{path}.{i}"))
    return r


def big(kind, n):
    """one deep chain or one long list"""
    if kind == "chain":
        r = c01.res(AbsStr(rx.ANY, name="leaf"), c01.anylevel("leaf"))
        for i in range(int(n)):
            up = c01.res(AbsStr(rx.ANY, name=f"up{i}"), c01.lv("INFO"))
            meth(up, "append", r)
            r = up
        return r
    r = c01.res(AbsStr(rx.ANY, name="root"), c01.lv("INFO"))
    k = choose(int(n), "position of the failing entry") if kind == "list" else None
    for i in range(int(n)):
        meth(r, "append", c01.res(AbsStr(rx.ANY, name=f"e{i}"), c01.lv(NAMES[2 + i % 2] if i == k else NAMES[i % 2])))
    return r


BIG = ["chain 12", "chain 60", "list 30"]
R_DICT = "dictionary form: every message exactly once and unchanged, in document order, nested below its parent, with its level"


def render(r, how):
    """the rendering as a finished value"""
    it = interp()

    try:
        v = meth(r, how)
        return list(B.iterate(it, v)) if how == "to_lines" else v
    except PyRaise as e:
        raise_violation(f"rendering a result with {how}", e.exc)


def check_dict(root):
    """every entry is one mapping that contains its message and, deeper, the mappings of its children"""
    it = interp()
    entries = walk(root)
    ids = {id(m.find()): i for i, (d, m, l, n) in enumerate(entries)}
    seen, marks = [], {}

    def go(v, depth):
        if isinstance(v, core.PyDict):
            vals = [x for _, x in B.dict_items(it, v)]
            own = [x for x in vals if isinstance(x, AbsStr)]
            if any(id(x.find()) not in ids for x in own):
                raise Violation(f"the message {show(own[0])!r} is changed in the dictionary form", key="message")
            for x in own:
                seen.append((ids[id(x.find())], depth))
                marks.setdefault(entries[ids[id(x.find())]][2], set()).add(repr([y for y in vals if isinstance(y, (int, str, bool))]))
            for x in vals:
                if not isinstance(x, AbsStr):
                    go(x, depth + 1)
        elif isinstance(v, (core.PyList, tuple)):
            for x in B.iterate(it, v):
                go(x, depth)
    go(render(root, "to_dict"), 0)
    order = [i for i, _ in seen]
    for i in range(len(entries)):
        if order.count(i) != 1:
            raise Violation(f"entry {i} of {len(entries)} occurs {order.count(i)} times in the dictionary form", key="missing")
    if order != sorted(order):
        raise Violation(f"entries are listed in the order {order}", key="order")
    st = []
    for (i, dep), (d, *_) in zip(seen, entries):
        while st and st[-1][0] >= d:
            st.pop()
        if st and dep <= st[-1][1]:
            raise Violation(f"entry {i} is not nested below its parent", key="nest")
        st.append((d, dep))
    distinct(marks, "marking")


def safe():
    """text without markup: no '<', and every '&' starts a character reference"""
    return rx.compile_spec("([^<&]|&(amp|lt|gt|quot|apos|#39|#x27);)*")


def loses(p, html=True):
    """can a letter of the message be missing from the text shown for it?"""
    q = p.find()
    r = q.root
    some = rx.inter(r.lang, rx.compile_spec("[a-y]*Z[a-y]*"))
    if r.feasible(rx.inter(some, q.pre(rx.compile_spec("[^Z]*"))), r.lo, r.hi):
        return True
    if not html:
        return r.feasible(rx.inter(rx.inter(r.lang, rx.compile_spec("<")), q.pre(rx.compile_spec("[^<]*"))), r.lo, r.hi)
    for ch, forms in (("<", ["&lt;", "&#60;", "&#x3c;", "&#x3C;"]), ("&", ["&amp;", "&#38;", "&#x26;"]), (">", [">", "&gt;", "&#62;", "&#x3e;"]),
                      ('"', ['"', "&quot;", "&#34;", "&#x22;"]), ("'", ["'", "&#39;", "&#x27;", "&apos;"])):
        if r.feasible(rx.inter(rx.inter(r.lang, rx.word(ch)), q.pre(rx.minus(rx.ANY, rx.words(forms)))), r.lo, r.hi):
            return True
    return False


def flat(v):
    if isinstance(v, core.StrCat):
        return list(v.parts)
    return [v]


class Page(HTMLParser):
    def __init__(self, marks):
        super().__init__(convert_charrefs=True)
        self.stack = []
        self.attr = []  # messages within tags
        self.seen = []
        self.bad = None
        self.style = ""
        self.script = ""
        self.marks = marks
        self.nodes = [(None, "", [])]  # parent, tag, classes
        self.cur = [0]

    def handle_starttag(self, tag, attrs):
        self.attr += re.findall("\ue000(\\d+)\ue002(\\d+)\ue001", "".join((a or "") + " " + (b or "") for a, b in attrs))
        if tag in VOID:
            return
        self.stack.append((tag, (dict(attrs).get("class") or "").split()))
        self.nodes.append((self.cur[-1], *self.stack[-1]))
        self.cur.append(len(self.nodes) - 1)

    def handle_startendtag(self, tag, attrs):
        """non-void elements written <x/> stay open in HTML; browsers recover at the enclosing end tag"""
        self.attr += re.findall("\ue000(\\d+)\ue002(\\d+)\ue001", "".join((a or "") + " " + (b or "") for a, b in attrs))
        self.nodes.append((self.cur[-1], tag, (dict(attrs).get("class") or "").split()))

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        if not self.stack or self.stack[-1][0] != tag:
            self.bad = self.bad or f"</{tag}> does not close {self.stack[-1][0] if self.stack else 'anything'}"
            return
        self.stack.pop()
        self.cur.pop()

    def handle_data(self, data):
        if self.stack and self.stack[-1][0] == "style":
            self.style += data
            return
        if self.stack and self.stack[-1][0] == "script":
            self.script += data
            return
        for m in re.finditer("\ue000(\\d+)\ue002\\d+\ue001", data):
            self.seen.append((int(m.group(1)), [t for t, _ in self.stack], [c for _, c in self.stack]))


def css(text):
    out = {}
    for m in re.finditer(r"(?<![\w.:#-])\.([\w-]+)\s*\{([^}]*)\}", text):
        d = out.setdefault(m.group(1), {})
        for decl in m.group(2).split(";"):
            if ":" in decl:
                a, b = decl.split(":", 1)
                d[a.strip()] = (m.start(), b.strip())
    return out


def computed(rules, classes, prop):
    best = None
    for c in classes:
        v = rules.get(c, {}).get(prop)
        if v and (best is None or v[0] > best[0]):
            best = v
    return best[1] if best else None


def check_html(root):
    it = interp()
    entries = walk(root)
    h = render(root, "to_html")
    marks = {}
    text = ""
    parts = []
    ids = {id(m.find().root): i for i, (d, m, l, n) in enumerate(entries)}
    for p in flat(h):
        if isinstance(p, str):
            text += p
            continue
        if not isinstance(p, AbsStr) or id(p.find().root) not in ids:
            raise Unsupported(f"report part {p!r}")
        i = ids[id(p.find().root)]
        if p.can(rx.minus(rx.ANY, safe())):
            p.must(rx.minus(rx.ANY, safe()))
            raise Violation(f"the message of entry {i} is inserted into the page as markup, e.g. {entries[i][1].example()!r}", key="escape")
        if loses(p):
            raise Violation(f"the page does not show the whole message of entry {i}", key="truncated")
        text += f"\ue000{i}\ue002{len(parts)}\ue001"
        parts.append(p)
    pg = Page(marks)
    pg.feed(text)
    pg.close()
    for i, k in pg.attr:
        p, quotes = parts[int(k)], rx.compile_spec("[^\"']*").neg()
        if p.can(quotes):
            p.must(quotes)
            raise Violation(f"the message of entry {i} can end the attribute of the page it is inserted into, e.g. {entries[int(i)][1].example()!r}", key="escape")
    seen = [i for i, _, _ in pg.seen]
    for i, (d, m, l, n) in enumerate(entries):
        if seen.count(i) != 1:
            raise Violation(f"entry at depth {d} (number {i} of {len(entries)}) occurs {seen.count(i)} times in the page", key="missing")
    if seen != sorted(seen):
        raise Violation(f"entries are shown in the order {seen}", key="order")
    if pg.bad or pg.stack:
        raise Violation(f"the page is not well nested: {pg.bad or [t for t, _ in pg.stack]}", key="nesting")
    rules = css(pg.style)
    depth = {i: len(st) for i, st, _ in pg.seen}
    style = {}
    par = {}
    st = []
    for i, (d, m, l, n) in enumerate(entries):
        while st and st[-1][0] >= d:
            st.pop()
        if st:
            if depth[i] <= depth[st[-1][1]]:
                raise Violation(f"entry {i} is not nested below its parent {st[-1][1]}", key="nest")
        st.append((d, i))
    for i, tags, classes in pg.seen:
        lvl = entries[i][2]
        own = classes[-1]
        style.setdefault(lvl, set()).add(tuple(sorted((k, computed(rules, own, k)) for c in own for k in rules.get(c, {}))))
        if lvl in ("ERROR", "CRITICAL"):
            for cl in classes:
                if computed(rules, cl, "display") == "none":
                    raise Violation(f"failing entry {i} is hidden (class {' '.join(cl)})", key="hidden")
    distinct(style, "style")
    expandable(pg, rules)


def distinct(marks, what):
    for a, b in itertools.combinations([x for x in NAMES if x in marks], 2):
        if marks[a] & marks[b]:
            raise Violation(f"an entry of level {a} and one of level {b} have the same {what} {sorted(marks[a] & marks[b])[0]!r}", key=what)


def expandable(pg, rules):
    """the handlers of the page find the hidden part of every entry (names as in the page's script)"""
    btn = re.search(r'of\s+document\.getElementsByClassName\("([\w-]+)"\)', pg.script)
    part = re.search(r'querySelector\("\.([\w-]+)"\)\.classList\.toggle\("([\w-]+)"\)', pg.script)
    mark = re.search(r'element\.classList\.toggle\("([\w-]+)"\)', pg.script)
    lev = re.search(r"getElementsByClassName\(`([\w-]+)\$\{level\}`\)", pg.script)
    if not (btn and part and mark and "parentElement.parentElement.querySelector" in pg.script):
        return  # another mechanism
    section, shown = part.groups()
    depth = {}
    for i, (parent, tag, classes) in enumerate(pg.nodes):
        depth[i] = (depth[parent] if parent is not None else 0) + (section in classes)
        if section not in classes:
            continue
        open_ = shown in classes
        # the element whose querySelector gives this section: its nearest ancestor that contains no earlier one
        own = [j for j, (p, t, c) in enumerate(pg.nodes) if btn.group(1) in c and p is not None and pg.nodes[p][0] == parent]
        first = next(j for j, (p, t, c) in enumerate(pg.nodes) if section in c and below(pg, j, parent))
        if not own or first != i:
            raise Violation("a part of the report cannot be expanded", key="expand")
        if any((mark.group(1) in pg.nodes[j][2]) != open_ for j in own):
            raise Violation(f"the marker of {'an expanded' if open_ else 'a collapsed'} part shows it as {'collapsed' if open_ else 'expanded'}", key="marker")
        if lev and not any(f"{lev.group(1)}{depth[i] - 1}" in pg.nodes[j][2] for j in own):
            raise Violation(f"a part at level {depth[i] - 1} is not expanded with its level", key="level")


def below(pg, j, a):
    while j is not None and j != a:
        j = pg.nodes[j][0]
    return j == a


def line_parts(line, m):
    """(prefix, suffix) around the message"""
    ps = flat(line)
    idx = [i for i, p in enumerate(ps) if isinstance(p, AbsStr) and p.find().root is m.find().root and not loses(p, False)]
    if len(idx) != 1:
        if any(not isinstance(p, (str, AbsStr)) for p in ps):
            raise Unsupported("line part")
        raise Violation(f"line {show(line)!r} does not show the message of its entry", key="message")
    pre, post = ps[:idx[0]], ps[idx[0] + 1:]
    if not all(isinstance(p, str) for p in pre + post):
        raise Violation(f"line {show(line)!r} mixes entries", key="message")
    return "".join(pre), "".join(post)


ESC = re.compile("\x1b\\[[0-9;]*m")


def check_lines(root, lines):
    entries = walk(root)
    if len(lines) != len(entries):
        raise Violation(f"{len(lines)} lines for {len(entries)} entries", key="count")
    col = {}
    st = []
    for line, (d, m, l, n) in zip(lines, entries):
        pre, post = line_parts(line, m)
        ind = len(ESC.sub("", pre)) - len(ESC.sub("", pre).lstrip(" "))
        while st and st[-1][0] >= d:
            st.pop()
        if st and ind <= st[-1][1]:
            raise Violation(f"entry at depth {d} is indented by {ind}, its parent by {st[-1][1]}", key="indent")
        st.append((d, ind))
        col.setdefault(l, set()).add(tuple(ESC.findall(pre)))
        if ESC.search(pre) and (ESC.findall(post) or [""])[-1] not in ("\x1b[0m", "\x1b[m"):
            raise Violation("the colour of an entry is not reset at the end of its line", key="reset")
    distinct(col, "colour")


def printed(n0):
    """texts printed since effect n0, split into the arguments of the print calls"""
    return [e[1] for e in State.ctx.effects[n0:] if e[0] == "print"]


TEXTS = ["a\nb", "a\n\nb\n", "\nx", "x\r\ny", "a\u2028b", "a\u0085b", "<b>x</b>", "</div>", "<script>x()</script>", "&amp;x", "&lt;b&gt;", "&#60;b&#62;", "&amp;#60;", "&amp;lt;", "<!-- CONTENT -->", "-->", "{x}", "{0}", "%s %d", "$x ${y}", "\\1 \\g<0>", "\\n",
         "'q' \"r\"", "x" * 5000, "a\tb", "INFO", "ERROR: x", "[x](y)", "\u00e9\u20ac\U0001f600", "a  b", "0", "None", "caret", "a;b,c:d=e?f/g|h", "x...", "http://a/?b=c&d=e"]
R_MSG = "messages of any form are shown whole, in order and as text in every rendering"


class Plain(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags, self.text, self.inside = [], "", []

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, sorted(a for a, _ in attrs)))
        self.inside += [tag] if tag in ("style", "script") else []

    def handle_startendtag(self, tag, attrs):
        self.tags.append((tag, sorted(a for a, _ in attrs)))

    def handle_endtag(self, tag):
        self.tags.append(("/" + tag, []))
        if self.inside and self.inside[-1] == tag:
            self.inside.pop()

    def handle_data(self, data):
        self.text += data if not self.inside else ""


def concrete(t):
    def tree(t):
        r = c01.res("root", c01.lv("INFO"))
        c = c01.res(t, c01.lv("INFO"))
        meth(c, "append", c01.res("tail", c01.lv("WARNING")))
        meth(r, "append", c)
        meth(r, "append", c01.res(t, c01.lv("ERROR")))
        return r

    def word(v):
        ps = flat(core.force(v))
        ps = [B.const_of(p) if isinstance(p, AbsStr) else p for p in ps]
        if not all(isinstance(p, str) for p in ps):
            raise Unsupported("rendering of a constant message")
        return "".join(ps)

    def squeeze(x):
        return "".join(ESC.sub("", x).split())

    def holds(out, what):
        pos, out = 0, squeeze(out)
        for i, x in enumerate(("root", t, "tail", t)):
            x = squeeze(x)
            pos = out.find(x, pos)
            if pos < 0:
                raise Violation(f"{what} does not show the message {t[:60]!r}", key="message")
            pos += len(x)
    r = tree(t)
    holds("\n".join(word(x) for x in render(r, "to_lines")), "the text form")
    n0 = len(State.ctx.effects)
    render(r, "dump")
    holds("".join(word(x) for p in printed(n0) for x in flat(p)), "the console output")
    strs = []

    def go(v):
        v = core.force(v)
        if isinstance(v, core.PyDict):
            for _, x in B.dict_items(interp(), v):
                go(x)
        elif isinstance(v, (core.PyList, tuple)):
            for x in B.iterate(interp(), v):
                go(x)
        elif isinstance(v, str) or isinstance(v, (AbsStr, core.StrCat)):
            strs.append(word(v))
    go(render(r, "to_dict"))
    it_ = iter(strs)
    if not all(any(x == y for y in it_) for x in ("root", t, "tail", t)):
        raise Violation(f"the dictionary form does not contain the message {t[:60]!r} as it is", key="message")
    pages = []
    for x in (t, "x"):
        pg = Plain()
        pg.feed(word(render(tree(x), "to_html")))
        pg.close()
        pages.append(pg)
    holds(pages[0].text, "the page")
    if pages[0].tags != pages[1].tags:
        raise Violation(f"the message {t[:60]!r} changes the elements of the page", key="escape")


def obligations(tier):
    obs = []
    mod("result")
    for s in shapes(tier) + BIG:
        def asdict(it, s=s):
            check_dict(build(s))

        def html(it, s=s):
            check_html(build(s))

        def text(it, s=s):
            r = build(s)
            check_lines(r, render(r, "to_lines"))

        def dump(it, s=s):
            r = build(s)
            n0 = len(State.ctx.effects)
            render(r, "dump")
            out = []
            for p in printed(n0):
                out += flat(p)
            # split at line ends of the constant parts
            lines, cur = [], []
            for p in out:
                if isinstance(p, str):
                    segs = p.split("\n")
                    for sg in segs[:-1]:
                        lines.append(cat_(cur + [sg]))
                        cur = []
                    cur = cur + ([segs[-1]] if segs[-1] else [])
                else:
                    cur.append(p)
            if cur:
                lines.append(cat_(cur))
            check_lines(r, lines)
        k = dict(max_paths=3000)
        obs.append(Ob(f"html {s}", html, R_HTML, **k))
        obs.append(Ob(f"text {s}", text, R_TEXT, **k))
        obs.append(Ob(f"dump {s}", dump, R_DUMP, **k))
        obs.append(Ob(f"dict {s}", asdict, R_DICT, **k))

    for t in TEXTS:
        def text_(it, t=t):
            concrete(t)
        obs.append(Ob(f"message {t!r}", text_, R_MSG))

    def both(it):
        """all four levels side by side: styles and colours distinguish failing from passing"""
        r = c01.res(AbsStr(rx.ANY, name="root"), c01.lv("INFO"))
        for l in NAMES:
            meth(r, "append", c01.res(AbsStr(rx.ANY, name=l), c01.lv(l)))
        check_html(r)
        check_lines(r, render(r, "to_lines"))
        check_dict(r)
    obs.append(Ob("levels", both, R_CLS))
    return obs


def cat_(ps):
    return core.StrCat(ps) if len(ps) != 1 else ps[0]
