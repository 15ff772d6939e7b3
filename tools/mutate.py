"""Mutation sweep: small syntactic changes to /repo's code in scratch copies, each run against the check
of the property that owns the function.  Prints the survivors.   mutate.py OUT.jsonl [fraction] [seed] [ids...]"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OWN = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    if d["id"] in ("C24", "C25"):
        continue
    for m in d["anchors"]["mechanism"]:
        cls = None
        for tok in re.findall(r"[A-Za-z_]+\.[A-Za-z_*0-9]+|[A-Za-z_0-9*]+", m["where"]):
            if "." in tok:
                cls, tok = tok.split(".")
            OWN[(cls, tok)] = d["id"]
ALIAS = {("EM", "Berryman_func"): "C06", ("EM", "DEM"): "C06", ("EM", "OC_R_funcs"): "C07", ("Fluid", "Brown_Korringa_sat2dry"): "C10",
         ("Fluid", "Brown_Korringa_sub"): "C10"}


def owner(cls, fn):
    if (cls, fn) in ALIAS:
        return ALIAS[(cls, fn)]
    if (cls, fn) in OWN:
        return OWN[(cls, fn)]
    for (c, t), p in OWN.items():
        if c == cls and t.endswith("*") and fn.startswith(t[:-1]):
            return p
    return None


BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


def sites(tree):
    out = []
    for c in tree.body:
        if not isinstance(c, ast.ClassDef):
            continue
        for f in c.body:
            if not isinstance(f, ast.FunctionDef):
                continue
            body = f.body[1:] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else f.body
            for st in body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        out.append((c.name, f.name, "const", n))
                    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                        out.append((c.name, f.name, "op", n))
                    elif isinstance(n, ast.Compare):
                        out.append((c.name, f.name, "cmp", n))
                        out.append((c.name, f.name, "flip", n))
                    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                        out.append((c.name, f.name, "neg", n))
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                        out.append((c.name, f.name, "name", n))
    return out


def apply(kind, n, rng, names):
    if kind == "const":
        n.value = (n.value + 1) if isinstance(n.value, int) else n.value * 1.05 + (1e-3 if n.value == 0 else 0)
    elif kind == "op":
        n.op = BIN[type(n.op)]()
    elif kind == "cmp":
        n.ops = [CMP.get(type(o), type(o))() for o in n.ops]
    elif kind == "flip":
        n.ops = [{ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(type(o), CMP.get(type(o), type(o)))() for o in n.ops]
    elif kind == "neg":
        n.op = ast.UAdd()
    elif kind == "name":
        c = [x for x in names if x != n.id]
        if not c or n.id not in names:
            return False
        n.id = rng.choice(c)
    return True


def main():
    out, frac, seed = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
    ids = set(sys.argv[4:])
    rng = random.Random(seed)
    jobs = []
    for mod in sorted(os.listdir("/repo/rockphypy")):
        if not mod.endswith(".py") or mod == "__init__.py":
            continue
        src = open("/repo/rockphypy/" + mod).read()
        for i, (c, f, k, _) in enumerate(sites(ast.parse(src))):
            p = owner(c, f)
            if p and (not ids or p in ids) and rng.random() < frac * (.35 if k == "name" else 1):
                jobs.append((mod, i, c, f, k, p))
    print(len(jobs), "mutants", flush=True)
    fh = open(out, "w")

    def one(j):
        mod, i, c, f, k, p = j
        src = open("/repo/rockphypy/" + mod).read()
        tree = ast.parse(src)
        s = sites(tree)[i]
        fdef = next(x for cc in tree.body if isinstance(cc, ast.ClassDef) and cc.name == c for x in cc.body if isinstance(x, ast.FunctionDef) and x.name == f)
        names = sorted({a.arg for a in fdef.args.args} | {t.id for t in ast.walk(fdef) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)})
        before = ast.unparse(s[3])
        if not apply(k, s[3], random.Random(i * 7 + seed), names):
            return
        new = ast.unparse(tree)
        d = tempfile.mkdtemp(prefix="mut")
        try:
            shutil.copytree("/repo/rockphypy", d + "/rockphypy", ignore=shutil.ignore_patterns("__pycache__"))
            open(d + "/rockphypy/" + mod, "w").write(new)
            env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1")
            try:
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p, "--first", "-j", "1"], env=env, capture_output=True, text=True, timeout=400)
                rc, tail = r.returncode, (r.stdout + r.stderr)[-300:]
            except subprocess.TimeoutExpired:
                rc, tail = 1, "timeout"
        finally:
            shutil.rmtree(d)
        line = next((x for x in ast.unparse(fdef).split("\n") if ast.unparse(s[3]) in x), "")
        rec = {"p": p, "fn": c + "." + f, "kind": k, "was": before, "now": ast.unparse(s[3]), "line": s[3].lineno, "text": line.strip()[:150], "rc": rc}
        if rc not in (0, 1):
            rec["tail"] = tail
        fh.write(json.dumps(rec) + "\n")
        fh.flush()
        if rc != 1:
            print(rec, flush=True)
        return rc
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    print("caught", res.count(1), "missed", res.count(0), "error", sum(1 for r in res if r not in (0, 1, None)))


main()
