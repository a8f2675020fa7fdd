"""Carries out histories of requests with every front end and records what each of them did to the files of a directory."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys
import js, vp

TEMPLATES = [None, "T", "Another_Name2"]
GS = [None, True, False]
MAXSUB = 4
SERVE_JS = r"""
const m = require(process.argv[2]);
console.log = console.error = () => {};
require('readline').createInterface({input: process.stdin}).on('line', l => {
  const j = JSON.parse(l);
  let r;
  try { r = {s: 'ok', v: m[j.f](...j.a)}; } catch (e) { r = {s: 'err', m: String(e && e.message || e)}; }
  process.stdout.write(JSON.stringify(r) + '\n');
});
"""


def D(parts=None, raw=None, trans=None, **f):
    """a definition and its features; parts: [(public, regex)]"""
    x = {"mode": "dec" if raw is None else "raw", "given": True, "syntax": True, "parts": 1 if parts is None else len(parts), "anchors": True,
         "accepts": 1, "moves": True, "faults": False, "publics": sum(p for p, _ in parts) if parts else len(trans or []), "silent": False}
    text = f.pop("text", None)
    x.update(f)
    try:
        x["text"] = text != "missing" and (text is None or text.decode() is not None)         # there is something to give to JavaScript
    except UnicodeDecodeError:
        x["text"] = False
    assert x["publics"] <= MAXSUB
    return {"f": x, "parts": parts, "raw": raw, "trans": trans, "text": text}


def texts(d):
    """the definition as a file, written in two ways; None: no file"""
    if d["text"] is not None:
        return [d["text"]] * 2
    if d["f"]["mode"] == "args":
        return [None, None]
    if d["raw"] is not None:
        if d["trans"] is None:
            return [None, None]
        v = {"transitions": d["trans"]}
    else:
        v = {"parts": [{"is_public": bool(p), "regex_def": r} for p, r in d["parts"]]}
    other = dict(reversed([("zzz", {"parts": []})] + list(v.items())))
    if d["raw"] is None:
        other["parts"] = [{"regex_def": p["regex_def"], "note": "[\\\"", "is_public": p["is_public"]} for p in v["parts"]]
    return [json.dumps(v, ensure_ascii=False).encode(), ("\n" + json.dumps(other, ensure_ascii=True, indent=3) + "\n").encode()]


class Place:
    """A directory with the inputs, the paths that are watched and what they hold at first."""

    def __init__(self, c, defs, root, names=0):
        self.c, self.defs, self.root = c, defs, root
        self.CIRC, self.HALO = self.NAMES[names]
        os.makedirs(os.path.join(root, "sub"))
        os.makedirs(os.path.join(root, "in"))
        os.makedirs(os.path.join(root, "elsewhere"))

        for d in self.HALO[1:]:
            os.makedirs(os.path.join(root, d), exist_ok=True)

    # names of the two circuits and of the two directories of tables
    NAMES = [([None, "c1.circom", "sub/c 2.txt"], [None, "h1", "h 2"]),
             ([None, "sub/" + "出力é" * 9, "c1"], [None, "h1/deep/er/", "sub/h.txt"]),
             ([None, "./sub/../x.circom.json", ".hidden"], [None, "h1//.", "h=2, 'q' $(x) %41\\n"])]

    def inputs(self, d, v):
        t = texts(self.defs[d - 1])[v - 1]
        return None if t is None or t == "missing" else "in/d%d%s.json" % (d, "ab"[v - 1])

    def write_inputs(self, ds):
        for d in sorted(set(ds)):
            if self.defs[d - 1]["f"]["mode"] == "args":
                d = 1
            for v in (1, 2):
                p = self.inputs(d, v)
                if p:
                    with open(os.path.join(self.root, p), "wb") as f:
                        f.write(texts(self.defs[d - 1])[v - 1])


def paths(defs, names=0):
    """what is watched: [(kind, dir, k, name)]"""
    circ, halo = Place.NAMES[names]
    out = [("c", i, 0, circ[i]) for i in (1, 2)]
    for i in (1, 2):
        out += [("h", i, 0, halo[i] + "/allstr.txt")] + [("h", i, k, halo[i] + "/substr_%d.txt" % (k - 1)) for k in range(1, MAXSUB + 1)]
    return out + [("o", 0, 0, "inputs"), ("o", 0, 0, "others")]


def sha(b):
    return hashlib.sha1(b).hexdigest()


class Watch:
    """Numbers for what files hold."""

    def __init__(self, outputs):
        self.ids = {}
        for o in outputs:
            if o["sha"]:
                self.ids.setdefault(o["sha"], o["id"])
        self.paths = None

    def look(self, root, ps, first):
        """what every path holds now; first: sha of what it held at first"""
        out, seen = [], set()
        for n, (k, _, _, name) in enumerate(ps, 1):
            if k == "o":
                continue
            p = os.path.join(root, name)
            seen.add(os.path.normpath(p))
            out.append(self.number(p, n, first))
        ins, others = [], []
        for a, ds, fs in os.walk(root):
            for f in sorted(fs):
                p = os.path.normpath(os.path.join(a, f))
                if p not in seen:
                    (ins if os.path.basename(a) == "in" else others).append(p)
        for n, group in ((len(ps) - 1, ins), (len(ps), others)):
            h = sha("".join("%s %s\n" % (p, sha(open(p, "rb").read())) for p in sorted(group)).encode())
            if first is None:
                out.append(h)
            else:
                out.append(-n if h == first[n - 1] else 900001)
        return out

    def number(self, p, n, first):
        if os.path.islink(p) or os.path.isdir(p):        # a path that cannot be written
            h = "bad"
        else:
            try:
                with open(p, "rb") as f:
                    h = sha(f.read())
            except (FileNotFoundError, NotADirectoryError):
                h = None
        if first is None:
            return h
        if h is None:
            return 0
        if h == first[n - 1]:
            return -n
        return self.ids.get(h, 900000)


def command(bin, place, r, rng, quota=-1):
    d = place.defs[r["d"] - 1]
    base = "" if r["rel"] else place.root + "/"
    long = r["front"] == "long"
    opts = []

    def opt(s, l, v):
        if v is None:
            return
        opts.append(rng.choice([["--%s=%s" % (l, v)], ["--" + l, v]]) if long and not v.startswith("-") else
                    ["--%s=%s" % (l, v)] if long else rng.choice([["-" + s, v], ["-%s%s" % (s, v)]]) if v and v[0] not in "-=" else ["-%s=%s" % (s, v)])
    inp = place.inputs(r["d"], r["v"])
    miss = texts(d)[0] == "missing"
    path = base + inp if inp else base + "in/none.json" if miss else None
    if d["raw"] is None:
        opt("d", "decomposed-regex-path", path)
    else:
        opt("r", "raw-regex", d["raw"])
        opt("s", "substrs-json-path", path)
    opt("h", "halo2-dir-path", base + place.HALO[r["halo"]] if r["halo"] else None)
    opt("c", "circom-file-path", base + place.CIRC[r["circ"]] if r["circ"] else None)
    opt("t", "template-name", TEMPLATES[r["t"]])
    opt("g", "gen-substrs", {None: None, True: "true", False: "false"}[GS[r["gs"]]])
    rng.shuffle(opts)
    a = [bin, "raw" if d["raw"] is not None else "decomposed"] + [x for o in opts for x in o]
    if quota >= 0:
        a = [sys.executable, os.path.join(vp.VERIF, "lib", "limit.py"), str(quota)] + a
    return subprocess.Popen(a, cwd=place.root if r["rel"] else place.root + "/elsewhere", stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, env=vp.env())


def ended(p):
    try:
        o, e = p.communicate(timeout=120)
    except subprocess.TimeoutExpired:
        p.kill()
        return {"s": "panic", "m": "no end", "said": False}
    rc = p.returncode
    return {"s": "ok" if rc == 0 else "panic" if rc == 101 or rc < 0 else "err", "m": (o + e).decode(errors="replace")[:300], "said": bool(e.strip())}


class Server:
    def __init__(self, args, quota=-1):
        if quota >= 0:
            args = [sys.executable, os.path.join(vp.VERIF, "lib", "limit.py"), str(quota)] + args
        self.p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=vp.env(), text=True)

    def ask(self, q):
        try:
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = ""
        return json.loads(l) if l else {"s": "panic", "m": "the process ended"}

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def library(srv, place, r):
    d = place.defs[r["d"] - 1]
    base = "" if r["rel"] else place.root + "/"
    inp = place.inputs(r["d"], r["v"])
    path = base + inp if inp else base + "in/none.json" if texts(d)[0] == "missing" else None
    q = {"f": "cfg" if r["front"] == "cfg" else d["f"]["mode"], "cwd": place.root if r["rel"] else place.root + "/elsewhere", "d": path, "raw": d["raw"],
         "key": str(r["d"]), "h": base + place.HALO[r["halo"]] if r["halo"] else None, "c": base + place.CIRC[r["circ"]] if r["circ"] else None,
         "t": TEMPLATES[r["t"]], "gs": GS[r["gs"]]}
    a = srv.ask(q)
    return {"s": a["s"], "m": str(a.get("m"))[:300], "said": bool(a.get("m"))}


def tables(v):
    """the automaton that JavaScript gets, in the form of the halo2 table"""
    try:
        st = json.loads(v)["dfa"]["states"]
        out = ["0", str(next(i for i, s in enumerate(st) if s["state_type"] == "accept")), str(max(s["state_id"] for s in st))]
        return "\n".join(out + ["%d %s %d" % (i, to, b) for i, s in enumerate(st) for to, bs in s["transitions"].items() for b in bs]) + "\n"
    except (ValueError, KeyError, TypeError, StopIteration):
        return ""


def script(srv, place, r, watch):
    d = place.defs[r["d"] - 1]
    t = texts(d)[r["v"] - 1]
    if r["front"] == "dfa":
        try:
            q = {"f": "genRegexAndDfa", "a": [json.loads(t)]}
        except ValueError:
            q = {"f": "genRegexAndDfa", "a": [t.decode(errors="replace")]}
    elif d["raw"] is not None:
        q = {"f": "genFromRaw", "a": [d["raw"], (b'{"transitions": []}' if t is None else t).decode(), TEMPLATES[r["t"]]]}
    elif r["rel"]:
        try:
            q = {"f": "genCircom", "a": [json.loads(t), TEMPLATES[r["t"]]]}
        except ValueError:
            q = {"f": "genFromDecomposed", "a": [t.decode(errors="replace"), TEMPLATES[r["t"]]]}
    else:
        q = {"f": "genFromDecomposed", "a": [t.decode(errors="replace"), TEMPLATES[r["t"]]]}
    a = srv.ask(q)
    if a["s"] != "ok":
        return {"s": a["s"], "m": str(a.get("m"))[:300], "said": bool(a.get("m")), "ret": 0}
    if r["front"] == "dfa":
        a["v"] = tables(a["v"])
    return {"s": "ok", "m": "", "said": False, "ret": watch.ids.get(sha(a["v"].encode()) if isinstance(a["v"], str) else None, 900000)}


def outputs(c, defs, bin, root):
    """what every definition gives, each asked for by a process of its own, in a directory of its own, with everything said"""
    todo = []
    for d in range(1, len(defs) + 1):
        if defs[d - 1]["f"]["mode"] == "args":
            continue
        for gs in (1, 2):
            for t in (1, 2):
                todo.append(dict(front="cli", d=d, v=1, halo=0, circ=1, t=t, gs=gs, rel=0))
            todo.append(dict(front="cli", d=d, v=1, halo=1, circ=0, t=0, gs=gs, rel=0))

    def one(x):
        n, r = x
        pl = Place(c, defs, os.path.join(root, "o%d" % n))
        pl.write_inputs([r["d"]])
        e = ended(command(bin, pl, r, random.Random(0)))
        out = []

        def take(kind, name, k):
            p = os.path.join(pl.root, name)
            b = open(p, "rb").read() if e["s"] == "ok" and os.path.exists(p) else None
            out.append({"kind": kind, "d": r["d"], "t": r["t"] if kind == "c" else 0, "gs": r["gs"] == 1, "k": k, "sha": sha(b) if b is not None else None,
                        "size": len(b) if b is not None else 0})
        if r["circ"]:
            take("c", pl.CIRC[1], 0)
        else:
            for k in range(0, MAXSUB + 1 if r["gs"] == 1 else 1):
                take("h", pl.HALO[1] + ("/allstr.txt" if k == 0 else "/substr_%d.txt" % (k - 1)), k)
        shutil.rmtree(pl.root)
        return out
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = [o for x in ex.map(one, enumerate(todo)) for o in x]
    ids, out, tables = {}, [], {}
    for o in res:
        if o["kind"] == "h":
            # the tables do not depend on whether substrings are generated
            key = (o["d"], o["k"])
            if key in tables:
                if o["sha"] and not tables[key]["sha"]:
                    tables[key].update(sha=o["sha"], size=o["size"])
                elif o["sha"] and o["sha"] != tables[key]["sha"]:
                    c.violation("the table of definition %d depends on whether substrings are generated" % o["d"], json.dumps(o))
                continue
            o["gs"] = False
            tables[key] = o
        out.append(o)
    for i, o in enumerate(out):
        o["id"] = ids.setdefault(o["sha"] or "missing %d" % i, len(ids) + 1)
    return out


def histories(c, defs, hists, bin, outs, root, quota=None, bad=None, stale=True):
    """carries out the histories (lists of requests) and returns what FrontRun reads. quota, bad (how, path, all paths concerned): per history"""
    named = [paths(defs, i) for i in range(len(Place.NAMES))]
    zkh = vp.build_harness()
    node = js.package(c, "compiler")
    serve = os.path.join(root, "serve.js")
    with open(serve, "w") as f:
        f.write(SERVE_JS)
    watch = Watch(outs)

    def one(x):
        n, hist = x
        rng = random.Random(vp.SEED * 1000 + n)
        q = quota[n] if quota else -1
        names = 0 if bad else (n + vp.SEED) % len(Place.NAMES)
        ps = named[names]
        pl = Place(c, defs, os.path.join(root, "r%d" % n), names)
        pl.write_inputs([r["d"] for r in hist])
        with open(os.path.join(pl.root, "other.txt"), "w") as f:
            f.write("x")
        if stale and n % 2 == 0:
            for k, _, i, name in ps:
                if k != "o" and (k == "c" or i in (0, 1, 3)) and rng.random() < 0.7:
                    with open(os.path.join(pl.root, name), "w") as f:
                        f.write("1 2 3\n" * rng.choice([1, 30000]))
        for how, b, _ in bad[n] if bad else []:
            p = os.path.join(pl.root, ps[b - 1][3])
            if how in ("gone", "file"):
                p = os.path.dirname(p)
                shutil.rmtree(p)
                if how == "file":
                    open(p, "w").close()
                continue
            if os.path.exists(p):
                os.remove(p)
            if how == "full":
                os.symlink("/dev/full", p)
            elif how == "dir":
                os.makedirs(p)
            else:
                os.symlink(p, p)
        first = watch.look(pl.root, ps, None)
        now = watch.look(pl.root, ps, first)
        lib = nod = None
        steps, i = [], 0
        while i < len(hist):
            group = [hist[i]]
            if i + 1 < len(hist) and hist[i + 1]["with"]:
                group.append(hist[i + 1])
            if group[0]["front"] == "args":
                a = [x.replace("@", pl.root) for x in defs[group[0]["d"] - 1]["raw"]]
                res = [ended(subprocess.Popen([bin] + a, cwd=pl.root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vp.env()))]
            elif group[0]["front"] in ("cli", "long"):
                procs = [command(bin, pl, r, rng, q) for r in group]
                res = [ended(p) for p in procs]
            elif group[0]["front"] in ("js", "dfa"):
                nod = nod or Server(["node", serve, node])
                res = [script(nod, pl, group[0], watch)]
            else:
                lib = lib or Server([zkh, "serve"], q)
                res = [library(lib, pl, group[0])]
            after = watch.look(pl.root, ps, first)
            for j, (r, e) in enumerate(zip(group, res)):
                steps.append(dict(r, s=e["s"], said=e["said"], ret=e.get("ret", 0), m=e["m"],
                                  files=after, look=j == len(group) - 1))
            i += len(group)
        for s in (lib, nod):
            if s:
                s.close()
        shutil.rmtree(pl.root)
        return {"first": now, "bad": [x for _, _, bs in bad[n] for x in bs] if bad else [], "quota": q, "steps": steps}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, enumerate(hists)))


def judge(c, defs, runs, outs, what):
    ps = [{"kind": k, "dir": d, "k": i} for k, d, i, _ in paths(defs)]
    ds = [d["f"] for d in defs]
    os_ = [{k: o[k] for k in ("kind", "d", "t", "gs", "k", "id", "size")} for o in outs]
    clean = [dict(r, steps=[{k: v for k, v in s.items() if k != "m"} for s in r["steps"]]) for r in runs]
    q = c.tlc("FrontRun", more={"DEFS": ds, "PATHS": ps, "OUTPUTS": os_, "RUNS": clean}, cont=True)
    c.traces += len(runs)
    seen, firsts = set(), {}
    for name, last, blk in q.get("bad", []):
        n, at = (int(re.search(r"%s = (\d+)" % v, last).group(1)) for v in ("run", "at"))
        firsts[n] = min(at, firsts.get(n, at))
    for name, last, blk in q.get("bad", []):
        n, at = (int(re.search(r"%s = (\d+)" % v, last).group(1)) for v in ("run", "at"))
        if at > firsts[n]:      # what follows a wrong step is not told
            continue
        r = runs[n - 1]
        s = r["steps"][at - 1]
        d = defs[s["d"] - 1]
        key = (name, s["front"], s["d"])
        if key in seen:
            continue
        seen.add(key)
        c.violation("%s: %s is false for definition %s, request %s, in %s (paths that cannot be written: %s, quota %s)" %
                    (what, name, (d["parts"] if d["parts"] is not None else d["raw"], d["trans"], d["text"]), {k: s[k] for k in s if k not in ("files", "ret", "look")},
                     s["files"], r["bad"], r["quota"]), "history: %s\n\n%s" % (json.dumps(r["steps"][:at], indent=1), blk))
    return q
