"""A small automaton over code points: decides only which definitions lie in the documented domain of the compiler
(no part but the first may return to its initial state, one accepting state), and never what is right."""


def pos(n, tab):
    """(nullable, first, last); tab[p] = (ranges, follow set)"""
    t = n["t"]
    if t == "eps":
        return True, set(), set()
    if t in ("cls", "byt"):
        p = len(tab) + 1
        tab.append([n["r"] if t == "cls" else [[0x110000 + n["b"], 0x110000 + n["b"]]], set()])
        return False, {p}, {p}
    if t == "cat":
        nu, f, l = True, set(), set()
        for x in n["xs"]:
            n2, f2, l2 = pos(x, tab)
            for p in l:
                tab[p - 1][1] |= f2
            f = f | f2 if nu else f
            l = l | l2 if n2 else l2
            nu = nu and n2
        return nu, f, l
    if t == "alt":
        r = [pos(x, tab) for x in n["xs"]]
        return any(x[0] for x in r), set().union(*[x[1] for x in r]), set().union(*[x[2] for x in r])
    if t == "cap":
        return pos(n["x"], tab)
    nu, f, l = pos(n["x"], tab)
    if t in ("star", "plus"):
        for p in l:
            tab[p - 1][1] |= f
    return nu or t != "plus", f, l


class Dfa:
    def __init__(self, ast, limit=4000):
        tab = []
        nu, first, last = pos(ast, tab)
        cuts = sorted({c for rs, _ in tab for lo, hi in rs for c in (lo, hi + 1)})
        reps = cuts
        start = frozenset([0])
        self.states, self.edge = [start], []
        num = {start: 0}
        fol = lambda p: first if p == 0 else tab[p - 1][1]
        i = 0
        while i < len(self.states):
            if len(self.states) > limit:
                raise ValueError("too many states")
            s = self.states[i]
            outs = set().union(*[fol(p) for p in s]) if s else set()
            row = []
            for c in reps:
                t = frozenset(p for p in outs if any(lo <= c <= hi for lo, hi in tab[p - 1][0]))
                if t not in num:
                    num[t] = len(self.states)
                    self.states.append(t)
                row.append(num[t])
            self.edge.append(row)
            i += 1
        acc = [bool((s & last) or (nu and 0 in s)) for s in self.states]
        cls = [int(a) for a in acc]
        k = 0
        while True:
            sig = {}
            new = []
            for x in range(len(self.states)):
                new.append(sig.setdefault((cls[x], tuple(cls[y] for y in self.edge[x])), len(sig)))
            cls = new
            if len(sig) == k:
                break
            k = len(sig)
        self.cls, self.acc, self.nul, self.empty = cls, acc, nu, not any(acc)
        self.size = k
        self.accept_classes = len({cls[x] for x in range(len(cls)) if acc[x]})
        self.loops = any(cls[y] == cls[0] for x in range(len(cls)) if self.live(x) for y in self.edge[x])

    def live(self, x):
        return True


def loops(ast):
    return Dfa(ast).loops


def domain(d):
    """is the definition (rx.definition) in the documented domain?  returns (ok, why)"""
    ps = d["parts"]
    for i, p in enumerate(ps):
        a = Dfa(p["ast"])
        if a.empty:
            return False, "empty part"
        if i > 0 and a.loops:
            return False, "part %d returns to its initial state" % i
    if a.accept_classes != 1 or (a.nul and len(ps) > 1):
        return False, "several accepting states"
    return True, ""
