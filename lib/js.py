"""The JavaScript front ends: the packages built for node from /repo's working tree, called with lists of calls."""
import json, os, subprocess, time
import vp

CALL = r"""
const fs = require('fs');
const m = require(process.argv[2]);
const out = [];
console.log = console.error = () => {};
for (const l of fs.readFileSync(process.argv[3], 'utf8').split('\n')) {
  if (!l) continue;
  const j = JSON.parse(l);
  let r;
  try {
    const v = m[j.f](...j.a);
    r = {s: 'ok', v: v};
  } catch (e) {
    // a trap is what is left of a panic
    r = {s: e instanceof WebAssembly.RuntimeError ? 'panic' : 'err', m: String(e && e.message || e)};
  }
  out.push(JSON.stringify(r));
}
fs.writeFileSync(process.argv[4], out.join('\n') + '\n');
"""
OPT = ["regex-automata", "regex-syntax", "fancy-regex", "aho-corasick", "memchr"]


def build(name):
    target = os.path.join(vp.VERIF, "harness", "target")
    args = ["build", "--lib", "--target", "wasm32-unknown-unknown", "-p", "zk-regex-" + name]
    for p in OPT:
        args += ["--config", "profile.dev.package.%s.opt-level=2" % p]
    vp.cargo(args, vp.REPO, target)
    return target


def package(c, name):
    """builds packages/<name> for node in the check's scratch folder"""
    if not hasattr(c, "pkgs"):
        c.pkgs = {}
    if name not in c.pkgs:
        t = time.time()
        target = build(name)
        d = os.path.join(c.scratch, "pkg-" + name)
        p = subprocess.run(["/opt/vp/tools/bin/wasm-bindgen", os.path.join(target, "wasm32-unknown-unknown", "debug", "zk_regex_%s.wasm" % name),
                            "--target", "nodejs", "--out-dir", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=vp.env())
        if p.returncode:
            raise vp.ToolError("wasm-bindgen: " + p.stdout[-2000:])
        c.pkgs[name] = os.path.join(d, "zk_regex_%s.js" % name)
        c.log("built the JavaScript package %s in %.1fs" % (name, time.time() - t))
    return c.pkgs[name]


def calls(c, name, js, procs=8):
    """js: [{"f": function, "a": arguments}] -> results"""
    p = package(c, name)
    c.n += 1
    script = os.path.join(c.scratch, "call.js")
    with open(script, "w") as f:
        f.write(CALL)
    t = time.time()
    step = max(1, (len(js) + procs - 1) // procs)
    runs = []
    for k, base in enumerate(range(0, len(js), step)):
        a, b = (os.path.join(c.scratch, "js%d-%d.%s" % (c.n, k, x)) for x in ("in", "out"))
        with open(a, "w") as f:
            for j in js[base:base + step]:
                f.write(json.dumps(j) + "\n")
        runs.append((subprocess.Popen(["node", "--stack-size=4000", script, p, a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=vp.env()), b))
    out = []
    for q, b in runs:
        try:
            o, _ = q.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            q.kill()
            raise vp.ToolError("node did not end")
        if q.returncode:
            raise vp.ToolError("node: " + o.decode(errors="replace")[-2000:])
        with open(b) as f:
            out += [json.loads(l) for l in f if l.strip()]
    c.log("%d calls from node in %.1fs" % (len(js), time.time() - t))
    return out
