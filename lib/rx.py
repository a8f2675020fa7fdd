"""A small regex parser: text -> AST in the JSON form that spec/Regex.tla reads.

Only the syntax the corpora use. Node kinds:
  {"t":"eps"}                      empty word
  {"t":"cls","id":n,"r":[[lo,hi]..]}  one code point (ranges of code points)
  {"t":"byt","id":n,"b":n}          one raw byte (only used for the start anchor marker, 255)
  {"t":"cat","xs":[..]} {"t":"alt","xs":[..]}
  {"t":"star"|"plus"|"opt","x":..,"g":bool}   g: greedy
  {"t":"dol"}                       $ (only kept where the caller handles it)
  {"t":"cap","x":..}                capturing group (only semantics: none; kept for the printer)
"""
import json, os, re

MAXCP = 0x10FFFF
# \d and \w: the tables that Unicode 16 publishes
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "unicode.json")) as f:
    PERL = json.load(f)
POSIX = {"alnum": "09AZaz", "alpha": "AZaz", "ascii": "\0\x7f", "blank": "\t\t  ", "cntrl": "\0\x1f\x7f\x7f", "digit": "09", "graph": "!~", "lower": "az",
         "print": " ~", "punct": "!/:@[`{~", "space": "\t\r  ", "upper": "AZ", "word": "09AZ__az", "xdigit": "09AFaf"}
WS = [[9, 13], [32, 32], [0x85, 0x85], [0xA0, 0xA0], [0x1680, 0x1680], [0x2000, 0x200A], [0x2028, 0x2029],
      [0x202F, 0x202F], [0x205F, 0x205F], [0x3000, 0x3000]]


class RxError(Exception):
    pass


def norm(rs):
    out = []
    for lo, hi in sorted([list(r) for r in rs]):
        if out and lo <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], hi)
        else:
            out.append([lo, hi])
    return out


def neg(rs):
    out, nxt = [], 0
    for lo, hi in norm(rs):
        if nxt < lo:
            out.append([nxt, lo - 1])
        nxt = hi + 1
    if nxt <= MAXCP:
        out.append([nxt, MAXCP])
    # surrogates are not scalar values
    res = []
    for lo, hi in out:
        if lo < 0xD800 and hi > 0xDFFF:
            res += [[lo, 0xD7FF], [0xE000, hi]]
        else:
            res.append([lo, hi])
    return res


FOLDS = []


def folds():
    """the sets of characters that differ in case only (simple case folding)"""
    if not FOLDS:
        gs = {}
        for x in range(MAXCP + 1):
            ch = chr(x)
            f, l = ch.casefold(), ch.lower()
            k = f if len(f) == 1 else l if len(l) == 1 else ch
            gs.setdefault(k, []).append(x)
        FOLDS.extend(g for g in gs.values() if len(g) > 1)
    return FOLDS


class Parser:
    def __init__(self, s, icase=False, fancy=False):
        self.s, self.i, self.icase = s, 0, icase
        self.fancy = fancy        # look-around, atomic groups, possessive repetition, borders of words
        self.dot, self.lazy, self.multi, self.crlf = False, False, False, False        # flags s, U, m and R
        self.loose = False        # flag x

    def skip(self):
        """with flag x: white space and comments"""
        while self.loose and self.i < len(self.s):
            c = self.s[self.i]
            if any(lo <= ord(c) <= hi for lo, hi in WS[:4] + [[0x200E, 0x200F], [0x2028, 0x2029]] if ord(c) != 0xA0):
                self.i += 1
            elif c == "#":
                while self.i < len(self.s) and self.s[self.i] != "\n":
                    self.i += 1
            else:
                break

    def flags(self):
        return (self.icase, self.dot, self.lazy, self.multi, self.crlf, self.loose)

    def peek(self, k=0):
        return self.s[self.i + k] if self.i + k < len(self.s) else ""

    def next(self):
        c = self.peek()
        self.i += 1
        return c

    def parse(self):
        n = self.alt()
        if self.i != len(self.s):
            raise RxError("trailing %r in %r" % (self.s[self.i:], self.s))
        return n

    def alt(self):
        xs = [self.cat()]
        self.skip()
        while self.peek() == "|":
            self.next()
            xs.append(self.cat())
            self.skip()
        return xs[0] if len(xs) == 1 else {"t": "alt", "xs": xs}

    def cat(self):
        xs = []
        self.skip()
        while self.peek() not in ("", "|", ")"):
            xs.append(self.rep())
            self.skip()
        if not xs:
            return {"t": "eps"}
        return xs[0] if len(xs) == 1 else {"t": "cat", "xs": xs}

    def rep(self):
        x = self.atom()
        first = True
        while True:
            self.skip()
            c = self.peek()
            if self.fancy and not first:
                if c == "+":
                    self.next()
                    x = {"t": "atom", "x": x}
                    continue
            first = False
            if c in "*+?" and c:
                self.next()
                g = not self.lazy
                if self.peek() == "?":
                    self.next()
                    g = not g
                x = {"t": {"*": "star", "+": "plus", "?": "opt"}[c], "x": x, "g": g}
            elif c == "{":
                j = self.s.index("}", self.i)
                body = self.s[self.i + 1:j]
                if not re.fullmatch(r"\d+(,\d*)?", body):
                    raise RxError("counts")
                self.i = j + 1
                g = not self.lazy
                if self.peek() == "?":
                    self.next()
                    g = not g
                a, _, b = body.partition(",")
                lo = int(a)
                hi = lo if "," not in body else (None if b == "" else int(b))
                x = self.count(x, lo, hi, g)
            else:
                return x

    def count(self, x, lo, hi, g):
        xs = [x] * lo
        if hi is None:
            if lo == 0:
                return {"t": "star", "x": x, "g": g}
            xs = [x] * (lo - 1) + [{"t": "plus", "x": x, "g": g}]
        else:
            tail = None
            for _ in range(hi - lo):
                tail = {"t": "opt", "x": x if tail is None else {"t": "cat", "xs": [x, tail]}, "g": g}
            if tail is not None:
                xs = xs + [tail]
        if not xs:
            return {"t": "eps"}
        return xs[0] if len(xs) == 1 else {"t": "cat", "xs": xs}

    def cls(self, rs):
        if self.icase:
            rs = rs + [[x, x] for g in folds() if any(lo <= y <= hi for y in g for lo, hi in rs) for x in g]
        return {"t": "cls", "r": norm(rs)}

    def esc(self):
        """after the backslash: list of ranges"""
        c = self.next()
        if c == "n":
            return [[10, 10]]
        if c == "r":
            return [[13, 13]]
        if c == "t":
            return [[9, 9]]
        if c == "v":
            return [[11, 11]]
        if c == "f":
            return [[12, 12]]
        if c == "a":
            return [[7, 7]]
        if c == "x":
            if self.peek() == "{":
                j = self.s.index("}", self.i)
                v = int(self.s[self.i + 1:j], 16)
                self.i = j + 1
            else:
                v = int(self.s[self.i:self.i + 2], 16)
                self.i += 2
            return [[v, v]]
        if c in "uU" and c:
            if self.peek() == "{":
                j = self.s.index("}", self.i)
                v = int(self.s[self.i + 1:j], 16)
                self.i = j + 1
            else:
                n = 4 if c == "u" else 8
                v = int(self.s[self.i:self.i + n], 16)
                self.i += n
            return [[v, v]]
        if c == "s":
            return [list(r) for r in WS]
        if c == "S":
            return neg(WS)
        if c and c in "dwDW":
            return [list(r) for r in PERL[c]] if c in PERL else neg(PERL[c.lower()])
        if c == "" or c.isalnum():
            raise RxError("escape \\%s" % c)
        return [[ord(c), ord(c)]]

    def atom(self):
        c = self.next()
        if c == "(":
            cap = True
            if self.peek() == "?":
                m = re.match(r"\?(<?[=!]|>)", self.s[self.i:]) if self.fancy else None
                if m:
                    self.i += m.end()
                    old = self.flags()
                    n = self.alt()
                    self.icase, self.dot, self.lazy, self.multi, self.crlf, self.loose = old
                    if self.next() != ")":
                        raise RxError("paren")
                    g = m.group(1)
                    return {"t": "atom", "x": n} if g == ">" else {"t": "behind" if g[0] == "<" else "ahead", "x": n, "neg": g[-1] == "!"}
                if self.peek(1) == ":":
                    self.i += 2
                    cap = False
                elif self.peek(1) == "P" or self.peek(1) == "<":
                    self.i = self.s.index(">", self.i) + 1
                else:
                    old = self.flags()
                    m = re.match(r"\?([isUumRx]*)(?:-([isUmRx]+))?([:)])", self.s[self.i:])
                    if not m or not (m.group(1) or m.group(2)):
                        raise RxError("group or flag")
                    self.i += m.end()
                    for fs, v in ((m.group(1), True), (m.group(2) or "", False)):
                        self.icase, self.dot, self.lazy, self.multi, self.crlf, self.loose = [v if f in fs else x for f, x in zip("isUmRx", self.flags())]
                    if m.group(3) == ")":
                        return {"t": "eps", "flag": True}
                    n = self.alt()
                    self.icase, self.dot, self.lazy, self.multi, self.crlf, self.loose = old
                    if self.next() != ")":
                        raise RxError("paren")
                    return n
            old = self.flags()
            n = self.alt()
            self.icase, self.dot, self.lazy, self.multi, self.crlf, self.loose = old
            if self.next() != ")":
                raise RxError("paren")
            return {"t": "cap", "x": n} if cap else n
        if c == "[":
            return self.klass()
        if c == ".":
            return {"t": "cls", "r": neg([] if self.dot else [[10, 10], [13, 13]] if self.crlf else [[10, 10]])}
        if c in "^$" and c:
            if self.multi:
                raise RxError("an anchor of lines")
            return {"t": "car" if c == "^" else "dol"}
        if c == "\\":
            if self.fancy and self.peek() and self.peek() in "bB":
                return {"t": "border", "neg": self.next() == "B", "r": [list(r) for r in PERL["w"]]}
            return self.cls(self.esc())
        if c in "*+?{)":
            raise RxError("unexpected %s" % c)
        return self.cls([[ord(c), ord(c)]])

    def klass(self):
        """a class: unions of characters, ranges and nested classes, joined from the left by && -- ~~"""
        if self.loose:
            raise RxError("a class in the loose syntax")
        inv = False
        if self.peek() == "^":
            self.next()
            inv = True
        left, op = None, None
        rs = []
        first = True
        while True:
            two = self.peek() + self.peek(1)
            if two in ("&&", "--", "~~") and (two != "--" or not first):
                self.i += 2
                left, op, rs = self.setop(left, op, rs), two, []
                first = False
                continue
            c = self.next()
            if c == "":
                raise RxError("class")
            if c == "-" and first and self.peek() == "-":
                raise RxError("hyphens")
            if c == "]" and not first:
                break
            first = False
            if c == "[":
                m = re.match(r":(\^?)([a-z]+):\]", self.s[self.i:])
                if m and m.group(2) in POSIX:
                    t = POSIX[m.group(2)]
                    r = [[ord(t[i]), ord(t[i + 1])] for i in range(0, len(t), 2)]
                    # the case is folded before the class is turned around
                    r = self.cls(r)["r"]
                    rs += neg(r) if m.group(1) else r
                    self.i += m.end()
                    continue
                rs += self.klass()["r"]
                continue
            if c == "\\":
                r = self.esc()
            else:
                r = [[ord(c), ord(c)]]
            if self.peek() == "-" and self.peek(1) not in ("]", "-", "") and len(r) == 1 and r[0][0] == r[0][1]:
                self.next()
                d = self.next()
                if d == "\\":
                    e = self.esc()
                else:
                    e = [[ord(d), ord(d)]]
                r = [[r[0][0], e[0][1]]]
            rs += self.cls(r)["r"]
        n = {"t": "cls", "r": norm(self.setop(left, op, rs))}
        if inv:
            n["r"] = neg(n["r"])
        return n

    @staticmethod
    def setop(left, op, rs):
        if op is None:
            return rs
        both = lambda x, y: neg(neg(x) + neg(y) + [[0xD800, 0xDFFF]])
        if op == "&&":
            return both(left, rs)
        if op == "--":
            return both(left, neg(rs))
        return both(left, neg(rs)) + both(rs, neg(left))


def parse(s, fancy=False):
    return Parser(s, fancy=fancy).parse()


def number(n, ctr=None):
    """A copy with distinct leaf ids (1..)."""
    if ctr is None:
        ctr = [0]
    t = n["t"]
    if t in ("cls", "byt"):
        ctr[0] += 1
        return dict(n, id=ctr[0])
    if t in ("cat", "alt"):
        return {"t": t, "xs": [number(x, ctr) for x in n["xs"]]}
    if t in ("star", "plus", "opt"):
        return {"t": t, "x": number(n["x"], ctr), "g": n["g"]}
    if t == "cap":
        return number(n["x"], ctr)
    if t == "car":
        ctr[0] += 1
        return {"t": "byt", "b": 255, "id": ctr[0]}
    return dict(n)


def has(n, kinds):
    if n["t"] in kinds:
        return True
    return any(has(x, kinds) for x in n.get("xs", [])) or ("x" in n and has(n["x"], kinds))


def nullable(n):
    t = n["t"]
    if t in ("eps", "star", "opt", "dol"):
        return True
    if t in ("cls", "byt", "car"):
        return False
    if t == "cat":
        return all(nullable(x) for x in n["xs"])
    if t == "alt":
        return any(nullable(x) for x in n["xs"])
    return nullable(n["x"])


def top(n):
    """the top-level sequence of a node"""
    return list(n["xs"]) if n["t"] == "cat" else [n]


def seq(xs):
    if not xs:
        return {"t": "eps"}
    return xs[0] if len(xs) == 1 else {"t": "cat", "xs": xs}


def definition(parts):
    """[(public, regex)] -> {"parts":[{"pub":..,"k":public index,"ast":..}], "end":bool}
    following the documented meaning of ^ (first part) and $ (end of the last part)."""
    out = []
    end = False
    k = 0
    for i, (pub, s) in enumerate(parts):
        xs = top(parse(s))
        if i == len(parts) - 1 and xs and xs[-1]["t"] == "dol":
            end = True
            xs = xs[:-1]
        kk = -1
        if pub:
            kk = k
            k += 1
        if i == 0:
            c = [j for j, x in enumerate(xs) if has(x, ("car",))]
            if c:
                j = c[0]
                if has(seq(xs[:j + 1]), ("dol",)):
                    raise RxError("$ inside %r" % s)
                out.append({"pub": False, "k": -1, "ast": number(seq(xs[:j + 1]))})
                xs = xs[j + 1:]
        n = number(seq(xs))
        if has(n, ("dol",)):
            raise RxError("$ inside %r" % s)
        out.append({"pub": pub, "k": kk, "ast": n})
    return {"parts": out, "end": end, "npub": k}
