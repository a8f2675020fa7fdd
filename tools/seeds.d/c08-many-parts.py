PROPERTY = "C08"
NEEDS = "a definition with eleven or more public parts"
BREAKS = "the tables of the public parts are written to each other's files"
EDITS = [("packages/compiler/src/lib.rs", '''            .map(|idx| halo2_dir_path.join(format!("substr_{}.txt", idx)))
            .collect_vec();''', '''            .map(|idx| halo2_dir_path.join(format!("substr_{}.txt", idx)))
            .sorted()
            .collect_vec();''')]
DEMO = '''
ps = [p for k in range(12) for p in (("PUB", "abcdefghijkl"[k]), "-")]
r = run([{"k": "compile", "mode": "dec", "parts": parts(*ps), "gs": True, "want": ["h"]}])
t = r[0]["t"]
by = {(f, to): b for f, to, b in t["all"][3:]}
same(len(t["subs"]), 12)
print(t["subs"][0])
same([chr(by[tuple(s[2:][0])]) for s in t["subs"]], list("abcdefghijkl"))
'''
