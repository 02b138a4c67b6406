"""Lines of the code under test that no check executed in its last run: python3 tools/lines.py"""
import dis, glob, json, os, types

root = "/repo/enterprise/"
seen = {}
for f in glob.glob("/verif/evidence/replay/C*-lines.json"):
    for k, v in json.load(open(f)).items():
        seen.setdefault(k, set()).update(v)


def lines(code):
    out = {l for _, _, l in code.co_lines() if l}
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out |= {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno} | lines(c)
    return out


for d, _, fs in sorted(os.walk(root)):
    for f in sorted(fs):
        if f.endswith(".py"):
            p = os.path.join(d, f)
            k = p[len(root):]
            src = open(p).read()
            code = compile(src, p, "exec")
            want = set()
            for c in code.co_consts:  # module level runs at import
                if isinstance(c, types.CodeType):
                    want |= lines(c) - {c.co_firstlineno}
            miss = sorted(want - seen.get(k, set()))
            text = src.splitlines()
            print(k, len(want), "missing", len(miss))
            for n in miss:
                print("   ", n, text[n - 1][:110])
