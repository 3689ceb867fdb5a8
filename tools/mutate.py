"""
Measures what the checks detect: one-node mutants of a scratch copy of popsynth,
each run through the checks of the properties its code is under.

    MUT_REPO=/tmp/mr python mutate.py [--files regex] [--every k] [--offset j] OUT.jsonl

Not a check, and not used by any: survivors are read by hand, and are either
equivalent to the original or a hole in a check.
"""
import ast
import json
import os
import re
import subprocess
import sys
import argparse
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/tmp/mr")
SKIP_CALLS = ("log", "logger")

# which checks judge which code, most specific first
WHERE = [
    (r"population_synth.py", r"draw_log", ["P02"]),
    (r"population_synth.py", r"draw_survey", ["P02", "P01", "P03", "P05", "P15", "P21", "P07", "P10"]),
    (r"population_synth.py", r"graph", ["P16"]),
    (r"population_synth.py", r"display|repr", ["P23"]),
    (r"population_synth.py", r"to_dict|from_|write_to|builtin", ["P09", "P10", "P27"]),
    (r"population_synth.py", r".*", ["P08", "P06", "P07", "P24", "P12"]),
    (r"/population.py", r"display", ["P23"]),
    (r"/population.py", r"stan", ["P12"]),
    (r"/population.py", r"writeto|addto|from_|_loadfrom|_read", ["P10"]),
    (r"/population.py", r"sub_population", ["P11"]),
    (r"/population.py", r"repr", ["P23"]),
    (r"/population.py", r".*", ["P02", "P01", "P03", "P12", "P11", "P10", "P07", "P20", "P23"]),
    (r"auxiliary_sampler.py", r"display|repr", ["P23"]),
    (r"auxiliary_sampler.py", r"objects", ["P09"]),
    (r"auxiliary_sampler.py", r".*", ["P05", "P01", "P04", "P02", "P06", "P07", "P08", "P09", "P15", "P16"]),
    (r"/distribution.py", r"display|repr", ["P23"]),
    (r"/distribution.py", r"draw_distance", ["P21", "P15"]),
    (r"/distribution.py", r"normalization", ["P14", "P15", "P21"]),
    (r"/distribution.py", r".*", ["P22", "P20", "P15", "P14", "P02", "P21", "P07"]),
    (r"distributions/", r"phi", ["P19"]),
    (r"distributions/(bpl|delta|log|pareto|schech|unif)", r".*", ["P19", "P14", "P22", "P21", "P24"]),
    (r"distributions/", r".*", ["P22", "P20", "P14", "P21", "P24"]),
    (r"aux_samplers/", r".*", ["P25", "P20", "P14", "P15", "P09"]),
    (r"selection_prob", r".*", ["P04", "P14", "P03", "P01", "P09", "P27"]),
    (r"populations/", r".*", ["P24"]),
    (r"simulated_variable", r".*", ["P13", "P10"]),
    (r"utils/meta", r".*", ["P14", "P08", "P21", "P26", "P27"]),
    (r"utils/logging", r".*", ["P17"]),
    (r"utils/(configuration|package_data)", r".*", ["P18"]),
    (r"utils/cosmology", r".*", ["P22"]),
    (r"utils/hdf5", r".*", ["P10"]),
    (r"utils/(spher|rej)", r".*", ["P20", "P21"]),
    (r"utils/(array|prog)", r".*", ["P23", "P17", "P21"]),
    (r"utils/registry", r".*", ["P09", "P26"]),
]
SWAP = {
    ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "*",
    ast.BitAnd: "|", ast.BitOr: "&",
}
CMP = {
    ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
    ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in",
}


def src(text, node):
    return ast.get_source_segment(text, node)


def mutants(path):
    text = open(path).read()
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = text.encode()

    def at(node):
        return offs[node.lineno - 1] + node.col_offset, offs[node.end_lineno - 1] + node.end_col_offset

    out = []

    def add(node, new, where, what):
        a, b = at(node)
        out.append((node.lineno, where, what, raw[:a] + new.encode() + raw[b:]))

    def visit(node, where):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            where = where + "." + node.name
            for d in getattr(node, "decorator_list", []):
                pass
            body = node.body
            if isinstance(node, ast.FunctionDef):
                for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
                    visit(d, where)
            for s in body:
                visit(s, where)
            return
        if isinstance(node, ast.Expr):
            v = node.value
            if isinstance(v, ast.Constant):
                return
            if isinstance(v, ast.Call):
                f = v.func
                while isinstance(f, ast.Attribute):
                    f = f.value
                if isinstance(f, ast.Name) and f.id in SKIP_CALLS:
                    return
                add(node, "pass", where, "drop " + src(text, node)[:60])
        if isinstance(node, (ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(node, ast.AnnAssign):
            if node.value is not None:
                visit(node.value, where)
            return
        if isinstance(node, ast.Raise):
            add(node, "pass", where, "no raise")
            return
        if isinstance(node, ast.AugAssign):
            add(node, "pass", where, "drop " + src(text, node)[:60])
        if isinstance(node, (ast.If, ast.IfExp, ast.While)) and not isinstance(node, ast.While):
            add(node.test, "not (%s)" % src(text, node.test), where, "negate " + src(text, node.test)[:60])
        if isinstance(node, ast.BinOp) and type(node.op) in SWAP and not (
            isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)
        ) and not isinstance(node.left, ast.JoinedStr):
            add(node, "((%s) %s (%s))" % (src(text, node.left), SWAP[type(node.op)], src(text, node.right)), where, "op " + src(text, node)[:60])
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            add(node, "((%s) %s (%s))" % (src(text, node.left), CMP[type(node.ops[0])], src(text, node.comparators[0])), where, "cmp " + src(text, node)[:60])
        if isinstance(node, ast.BoolOp):
            new = " or " if isinstance(node.op, ast.And) else " and "
            add(node, "(" + new.join("(%s)" % src(text, v) for v in node.values) + ")", where, "bool " + src(text, node)[:60])
            add(node, "(%s)" % src(text, node.values[0]), where, "first of " + src(text, node)[:60])
        if isinstance(node, ast.UnaryOp):
            add(node, "(%s)" % src(text, node.operand), where, "unary " + src(text, node)[:60])
        if isinstance(node, ast.Constant):
            v = node.value
            if v is True or v is False:
                add(node, str(not v), where, "const %s" % v)
            elif isinstance(v, (int, float)):
                add(node, repr(v + 1), where, "const %r + 1" % v)
                if v not in (0, 1) and isinstance(v, float):
                    add(node, repr(v * 1.02), where, "const %r * 1.02" % v)
            return
        if isinstance(node, ast.JoinedStr):
            return
        if isinstance(node, ast.Call):
            f = node.func
            while isinstance(f, (ast.Attribute, ast.Call)):
                f = f.value if isinstance(f, ast.Attribute) else f.func
            if isinstance(f, ast.Name) and f.id in SKIP_CALLS:
                return
            for k in node.keywords:
                if k.arg and k.arg not in ("name",):
                    a, b = at(node)
                    ka = offs[k.lineno - 1] + k.col_offset
                    kb = offs[k.value.end_lineno - 1] + k.value.end_col_offset
                    rest = raw[kb:b]
                    m = re.match(rb"\s*,", rest)
                    if m:
                        new = raw[:ka] + raw[kb + m.end() :]
                    else:
                        pre = raw[:ka].rstrip()
                        new = (pre[:-1] if pre.endswith(b",") else pre) + raw[kb:]
                    out.append((k.value.lineno, where, "without " + k.arg, new))
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.expr_context, ast.operator)):
                continue
            visit(c, where)

    for s in tree.body:
        visit(s, "")
    good = []
    for m in out:
        try:
            compile(m[3], path, "exec")
        except SyntaxError:
            continue
        if m[3] != raw:
            good.append(m)
    return good


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=".")
    ap.add_argument("--where", default=".")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["n"]))
    todo = []
    for root, _, files in sorted(os.walk(REPO + "/popsynth")):
        if "test" in root:
            continue
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(".py") and f != "_version.py" and re.search(a.files, p):
                for n, m in enumerate(mutants(p)):
                    if re.search(a.where, m[1]):
                        todo.append((p, n, m))
    todo = todo[a.offset :: a.every]
    print(len(todo), "mutants")
    if a.list:
        return
    for p, n, (line, where, what, new) in todo:
        rel = os.path.relpath(p, REPO)
        if (rel, n) in done:
            continue
        for fr, wr, checks in WHERE:
            if re.search(fr, p) and re.search(wr, where):
                break
        else:
            checks = ["P24"]
        old = open(p, "rb").read()
        open(p, "wb").write(new)
        res, t0 = [], time.time()
        try:
            for c in checks:
                try:
                    r = subprocess.run(
                        ["bash", HERE + "/run.sh", c], env=dict(os.environ, MC_REPO=REPO), capture_output=True, text=True, timeout=400
                    )
                    rc = r.returncode if r.returncode != 1 or "VIOLATION" in r.stdout else 3
                    tail = (r.stderr or "")[-300:] if rc not in (0, 1) else ""
                except subprocess.TimeoutExpired:
                    rc, tail = "timeout", ""
                res.append((c, rc))
                if rc != 0:
                    break
        finally:
            open(p, "wb").write(old)
        d = dict(file=rel, n=n, line=line, where=where, what=what, res=res, s=round(time.time() - t0, 1), tail=tail)
        with open(a.out, "a") as f:
            f.write(json.dumps(d) + "\n")
        if res[-1][1] != 1:
            print(rel, line, where, what, res, tail[-120:], flush=True)


main()
