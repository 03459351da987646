"""Regular expressions over symbolic bytes and text: a backtracking matcher that decides each element test with the solver."""
import re
import re._parser as P
import re._constants as C

from . import core, values as V

from .values import SymBytes, SymStr, and_all, or_any, not_, unsupported

_WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]


def _in_ranges(x, ranges):
    return or_any([x == a if a == b else and_all([x >= a, x <= b]) for a, b in ranges])


def _category(c, ascii_only):
    if not ascii_only:
        unsupported("regular expression category on text")
    name = str(c)
    r = {"DIGIT": [(48, 57)], "SPACE": [(9, 13), (32, 32)], "WORD": _WORD}
    for k, v in r.items():
        if name == "CATEGORY_" + k:
            return v, False
        if name == "CATEGORY_NOT_" + k:
            return v, True
    unsupported("regular expression " + name)


def _set(items, x, ascii_only):
    neg, tests = False, []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            tests.append(x == av)
        elif op is C.RANGE:
            tests.append(and_all([x >= av[0], x <= av[1]]))
        elif op is C.CATEGORY:
            v, n = _category(av, ascii_only)
            t = _in_ranges(x, v)
            tests.append(not_(t) if n else t)
        else:
            unsupported("regular expression set")
    t = or_any(tests)
    return not_(t) if neg else t


class Matcher:
    def __init__(self, pattern, el, ascii_only):
        self.el, self.ascii = el, ascii_only
        self.flags = pattern.flags
        if self.flags & (re.IGNORECASE | re.MULTILINE | re.LOCALE):
            unsupported("regular expression flags")
        self.tree = P.parse(pattern.pattern, pattern.flags & ~re.UNICODE if isinstance(pattern.pattern, bytes) else pattern.flags)

    def run(self, pos):
        """the groups of the first match that starts at pos"""
        for end, g in self.seq(list(self.tree), 0, pos, {}):
            g = dict(g)
            g[0] = (pos, end)
            return g
        return None

    def seq(self, items, k, pos, g):
        if k == len(items):
            yield pos, g
            return
        for p, h in self.one(items[k], pos, g):
            yield from self.seq(items, k + 1, p, h)

    def char(self, op, av, x):
        if op is C.LITERAL:
            return x == av
        if op is C.NOT_LITERAL:
            return x != av
        if op is C.ANY:
            return True if self.flags & re.DOTALL else x != 10
        return _set(av, x, self.ascii)

    def one(self, item, pos, g):
        op, av = item
        el = self.el
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < len(el) and bool(self.char(op, av, el[pos])):
                yield pos + 1, g
        elif op is C.SUBPATTERN:
            n, add, rem, sub = av
            if add or rem:
                unsupported("regular expression flags in a group")
            for p, h in self.seq(list(sub), 0, pos, g):
                if n is not None:
                    h = dict(h)
                    h[n] = (pos, p)
                yield p, h
        elif op is C.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), 0, pos, g)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            hi = len(el) + 1 if hi is C.MAXREPEAT else hi
            yield from self.repeat(list(sub), lo, hi, pos, g, op is C.MAX_REPEAT, 0)
        elif op is C.AT:
            name = str(av)
            if name in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                ok = pos == 0
            elif name == "AT_END_STRING":
                ok = pos == len(el)
            elif name == "AT_END":
                ok = pos == len(el) or pos == len(el) - 1 and bool(el[pos] == 10)
            else:
                unsupported("regular expression " + name)
            if ok:
                yield pos, g
        elif op in (C.ASSERT, C.ASSERT_NOT):
            if av[0] < 0:
                unsupported("regular expression look-behind")
            hit = next(iter(self.seq(list(av[1]), 0, pos, g)), None)
            if (hit is not None) == (op is C.ASSERT):
                yield pos, g if hit is None else hit[1]
        else:
            unsupported("regular expression %s" % op)

    def repeat(self, sub, lo, hi, pos, g, greedy, n):
        if not greedy and n >= lo:
            yield pos, g
        if n < hi:
            for p, h in self.seq(sub, 0, pos, g):
                if p == pos and n >= lo:
                    continue
                yield from self.repeat(sub, lo, hi, p, h, greedy, n + 1)
        if greedy and n >= lo:
            yield pos, g


class SymMatch:
    def __init__(self, pattern, string, mk, g):
        self.re, self.string, self._mk, self._g = pattern, string, mk, g

    def _n(self, k):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        if k > self.re.groups:
            raise IndexError("no such group")
        return k

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._one(self._n(k)) for k in ks)
        return r[0] if len(r) == 1 else r

    __getitem__ = group

    def _one(self, k, default=None):
        s = self._g.get(k)
        return default if s is None else self._mk(s[0], s[1])

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.re.groupindex.items()}

    def span(self, k=0):
        return self._g.get(self._n(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks, key=lambda k: (self._g[k][1], -k)) if ks else None

    def __bool__(self):
        return True


def _prepare(pattern, s):
    if isinstance(pattern, (SymBytes, SymStr)):
        unsupported("symbolic regular expression")
    if not isinstance(pattern, re.Pattern):
        pattern = re.compile(pattern)
    if isinstance(s, str):
        el = V.str_chars(s)
        mk = lambda a, b: SymStr._mk(el[a:b])
        ascii_only = False
        if isinstance(pattern.pattern, bytes):
            raise TypeError("cannot use a bytes pattern on a string-like object")
    else:
        el = V.elems(s)
        mk = lambda a, b: SymBytes._mk(el[a:b])
        ascii_only = True
        if isinstance(pattern.pattern, str):
            raise TypeError("cannot use a string pattern on a bytes-like object")
    return pattern, el, mk, Matcher(pattern, el, ascii_only)


def _iter(pattern, s):
    pattern, el, mk, m = _prepare(pattern, s)
    pos, last_end = 0, -1
    while pos <= len(el):
        g = m.run(pos)
        if g is None:
            pos += 1
            continue
        end = g[0][1]
        if end == pos and pos == last_end:
            pos += 1
            continue
        yield SymMatch(pattern, s, mk, g)
        last_end = end
        pos = end if end > pos else pos + 1


def finditer(pattern, s):
    return iter(list(_iter(pattern, s)))


def findall(pattern, s):
    out = []
    for m in _iter(pattern, s):
        n = m.re.groups
        out.append(m.group() if n == 0 else m.group(1) if n == 1 else m.groups(m._mk(0, 0)))
    return out


def match(pattern, s):
    pattern, el, mk, m = _prepare(pattern, s)
    g = m.run(0)
    return None if g is None else SymMatch(pattern, s, mk, g)


def fullmatch(pattern, s):
    pattern, el, mk, m = _prepare(pattern, s)
    for end, g in m.seq(list(m.tree), 0, 0, {}):
        if end == len(el):
            g = dict(g)
            g[0] = (0, end)
            return SymMatch(pattern, s, mk, g)
    return None


def search(pattern, s):
    return next(iter(_iter(pattern, s)), None)


def _join(s, parts):
    if isinstance(s, str):
        return V.str_join("", parts)
    el = []
    for p in parts:
        el.extend(V.elems(p))
    return SymBytes._mk(el)


def subn(pattern, repl, s, count=0):
    pattern, el, mk, _ = _prepare(pattern, s)
    if not callable(repl):
        if not isinstance(repl, (bytes, str)) or isinstance(repl, (SymBytes, SymStr)):
            unsupported("symbolic replacement")
        tpl = P.parse_template(repl, pattern)
        fn = lambda m: _join(s, [m.group(x) if isinstance(x, int) else x for x in tpl if x is not None and len_ok(x)])
    else:
        fn = repl
    out, pos, n = [], 0, 0
    for m in _iter(pattern, s):
        if count and n == count:
            break
        out.append(mk(pos, m.start()))
        out.append(fn(m))
        pos = m.end()
        n += 1
    out.append(mk(pos, len(el)))
    return _join(s, out), n


def len_ok(x):
    return isinstance(x, int) or len(x) > 0


def sub(pattern, repl, s, count=0):
    return subn(pattern, repl, s, count)[0]


def split(pattern, s, maxsplit=0):
    pattern, el, mk, _ = _prepare(pattern, s)
    out, pos, n = [], 0, 0
    for m in _iter(pattern, s):
        if maxsplit and n == maxsplit:
            break
        out.append(mk(pos, m.start()))
        out.extend(m.groups())
        pos = m.end()
        n += 1
    out.append(mk(pos, len(el)))
    return out


FUNCS = dict(finditer=finditer, findall=findall, match=match, fullmatch=fullmatch, search=search, sub=sub, subn=subn, split=split)


def method(pattern, name, a, k):
    """a call of a method of a compiled pattern with symbolic arguments"""
    f = FUNCS.get(name)
    if f is None or "pos" in k or "endpos" in k or name in ("match", "fullmatch", "search", "finditer", "findall") and len(a) > 1:
        unsupported("re.Pattern.%s" % name)
    return f(pattern, *a, **k)


def function(name, a, k):
    k = dict(k)
    flags = k.pop("flags", 0)
    n = {"sub": 4, "subn": 4, "split": 3}.get(name, 2)
    if len(a) > n:
        flags, a = a[n], a[:n]
    pattern = k.pop("pattern", None)
    if a:
        pattern, a = a[0], a[1:]
    if flags:
        pattern = re.compile(pattern, flags)
    if "string" in k:
        k["s"] = k.pop("string")
    return FUNCS[name](pattern, *a, **k)
