"""Mutation testing of the checks (development tool, not a check).

Generates small syntactic mutants of pylops_mpi in memory, runs a reduced number of cases of every property against each
and reports which mutants no property notices.  Nothing is written to /repo.

    python tools/mutate.py --list | --run OUT.jsonl [--files REGEX] [--cases N] [--props C01,C02] [--only ID,ID]
"""
import argparse
import ast
import gc
import json
import os
import re
import sys
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import loader  # noqa: E402
from sim import world as W  # noqa: E402
from sim.core import HarnessError, Stuck  # noqa: E402
from harness import cases as C  # noqa: E402
from harness import runner as R  # noqa: E402

SKIP = re.compile(r"(backend|__init__|_version|deps)\.py$")


def seg(src_lines, node):
    return node.lineno, node.col_offset, node.end_lineno, node.end_col_offset


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        off = [0]
        for ln in self.lines:
            off.append(off[-1] + len(ln.encode()))
        self.off = off
        self.b = src.encode()
        self.out = []   # (lineno, kind, newsrc)
        self.fn = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def put(self, node, new, kind):
        a, b = self.span(node)
        s = self.b[:a] + new.encode() + self.b[b:]
        self.out.append((node.lineno, ".".join(self.fn), kind + ": " + self.b[a:b].decode().replace("\n", " ")[:70] + "  ->  "
                         + new.replace("\n", " ")[:70], s.decode()))

    def between(self, l, r, new, kind):
        a, b = self.span(l)[1], self.span(r)[0]
        s = self.b[:a] + f" {new} ".encode() + self.b[b:]
        # parentheses between the operands are lost rarely; such mutants do not compile and are dropped
        self.out.append((l.lineno, ".".join(self.fn), f"{kind}: {self.text(l)[-30:]} {new} {self.text(r)[:30]}", s.decode()))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.body:
            self.visit(d)
        for d in n.args.defaults:
            if isinstance(d, ast.Constant) and isinstance(d.value, (bool, int, float)):
                self.visit(d)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for d in n.body:
            self.visit(d)
        self.fn.pop()

    def visit_Import(self, n):
        pass
    visit_ImportFrom = visit_Import

    def visit_Raise(self, n):
        self.put(n, "pass", "drop")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.put(n, "pass", "drop")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Subscript) or (isinstance(n.targets[0], ast.Attribute)):
            self.put(n, "pass", "drop")
        self.visit(n.value)
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                self.visit(t.slice)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "drop")
        m = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
        if m:
            self.between(n.target, n.value, m, "aug")
        self.visit(n.value)
        if isinstance(n.target, ast.Subscript):
            self.visit(n.target.slice)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            m = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"],
                 ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}[type(n.ops[0])]
            for k in m:
                self.between(n.left, n.comparators[0], k, "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        m = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["%"], ast.Mod: ["//"],
             ast.Pow: ["*"]}.get(type(n.op), [])
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            for k in m:
                self.between(n.left, n.right, k, "bin")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        if len(n.values) == 2:
            self.between(n.values[0], n.values[1], "or" if isinstance(n.op, ast.And) else "and", "bool")
        for v in n.values:
            self.put(v, "(True)", "true")
            self.put(v, "(False)", "false")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.put(n, self.text(n.operand), "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, repr(not v), "const")
        elif isinstance(v, int):
            self.put(n, repr(v + 1), "const")
            if v:
                self.put(n, repr(v - 1), "const")
        elif isinstance(v, float):
            self.put(n, repr(v + 1.0), "const")

    def visit_JoinedStr(self, n):
        pass

    def visit_If(self, n):
        self.put(n.test, "True", "if")
        self.put(n.test, "False", "if")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, self.text(n.body), "ifexp")
        self.put(n, self.text(n.orelse), "ifexp")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("ValueError", "TypeError", "NotImplementedError", "print", "IndexError"):
            return
        if isinstance(f, ast.Attribute) and f.attr in ("copy", "conj", "ravel", "squeeze", "flatten", "transpose", "astype",
                                                        "reshape", "sum", "insert"):
            self.put(n, self.text(f.value), "unwrap")
        elif len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
            self.put(n, "(" + self.text(n.args[0]) + ")", "unwrap")
        if isinstance(f, ast.Attribute):
            for a, b in (("matvec", "rmatvec"), ("rmatvec", "matvec"), ("max", "min"), ("min", "max"), ("cumsum", "array")):
                if f.attr == a:
                    t = self.text(f)
                    self.put(f, t[:len(t) - len(a)] + b, "name")
        for i, k in enumerate(n.keywords):
            if k.arg is None:
                continue
            # drop the keyword
            a, b = self.off[k.lineno - 1] + k.col_offset, self.off[k.end_lineno - 1] + k.end_col_offset
            pre, post = self.b[:a], self.b[b:]
            m = re.match(rb"\s*,", post)
            if m:
                post = post[m.end():]
            s = (pre + post).decode()
            self.out.append((k.lineno, ".".join(self.fn), f"dropkw: {k.arg}={self.text(k.value)[:40]}", s))
        self.generic_visit(n)

    def visit_Attribute(self, n):
        for a, b in (("base_comm", "sub_comm"), ("sub_comm", "base_comm"), ("MAX", "MIN"), ("MIN", "MAX"), ("SUM", "MAX"),
                     ("BROADCAST", "SCATTER"), ("local_shapes_m", "local_shapes_n"), ("local_shapes_n", "local_shapes_m"),
                     ("nnops", "mmops"), ("mmops", "nnops"), ("nx", "ny"), ("ny", "nx"), ("islstart", "islend"),
                     ("cost", "cost1"), ("global_shape", "local_shape"), ("local_shape", "global_shape")):
            if n.attr == a:
                t = self.text(n)
                self.put(n, t[:len(t) - len(a)] + b, "attr")
        self.generic_visit(n)


def mutants(pat):
    root = os.path.join(loader.REPO, "pylops_mpi")
    out = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            path = os.path.join(d, f)
            rel = os.path.relpath(path, root)
            if not f.endswith(".py") or SKIP.search(rel) or not re.search(pat, rel):
                continue
            src = open(path).read()
            g = Gen(src)
            g.visit(ast.parse(src))
            seen = set()
            for k, (ln, fn, what, s) in enumerate(g.out):
                if s in seen or s == src:
                    continue
                seen.add(s)
                try:
                    code = compile(s, path, "exec", dont_inherit=True)
                except SyntaxError:
                    continue
                out.append({"id": f"{rel}:{ln}:{k}", "path": path, "fn": fn, "what": what, "code": code, "src": s})
    return out


ORDER = ["C09", "C13", "C05", "C03", "C23", "C24", "C26", "C11", "C12", "C14", "C15", "C06", "C08", "C10", "C04", "C02", "C01",
         "C28", "C07", "C29", "C16", "C17", "C18", "C25", "C19", "C20", "C21", "C22", "C27"]
HEAVY = {"C16": .5, "C17": .5, "C18": .3, "C25": .3, "C22": .5, "C20": .5, "C27": .5}


# the properties a file is most relevant to
FOR = [("DistributedArray", "C01 C02 C03 C04 C05 C06 C07 C26 C23 C28 C29"),
       ("(Stacked)?LinearOperator", "C13 C23 C12 C24 C11 C21 C07"), ("(BlockDiag|VStack|HStack)", "C11 C23 C24 C07 C12 C13 C21"),
       ("(Gradient|Laplacian)", "C10 C24 C23 C12 C07"), ("Derivative", "C09 C23 C24 C07 C12 C29"),
       ("optimization", "C25 C17 C16 C18 C23 C07"), ("Fredholm", "C14 C23 C24 C07"), ("MDC", "C15 C24 C07 C23"),
       ("dottest", "C12 C23"), ("plotting", "C28"), ("", "C08 C09 C11 C14 C23 C13 C15 C01")]


def props_for(rel):
    return next(ps for pat, ps in FOR if re.search(pat, rel)).split()


def try_mutant(m, props, n, wr, every=False):
    loader._code[m["path"]] = m["code"]
    t0 = time.time()
    kills = {}
    for p in props:
        k = max(10, int(n * HEAVY.get(p, 1)))
        if p == "C23" and n < 600:
            k = 600     # many kinds of misuse
        for i in range(k):
            if i % 50 == 49:
                gc.collect()
            try:
                case, checks = C.gen_case(p, 7, i)
                r = R.evaluate(case, checks, wall_cap=8)
                v = r.viol[0] if r.viol else None
            except Stuck as e:
                v = ("stuck", str(e)[:100])
                wr({"p": p, "i": i, "v": v, "t": time.time() - t0, "kills": {**kills, p: i}})
                os._exit(0)
            except HarnessError as e:
                v = ("harness", str(e)[-300:])
            if v is not None:
                kills[p] = (i, v[0], v[1][:160])
                if not every:
                    wr({"p": p, "i": i, "v": (v[0], v[1][:300]), "t": time.time() - t0})
                    return
                break
    wr({"p": None, "t": time.time() - t0, "kills": kills})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--run")
    ap.add_argument("--files", default=".")
    ap.add_argument("--cases", type=int, default=60)
    ap.add_argument("--props", default=",".join(ORDER), help="or 'file': those of the mutated file")
    ap.add_argument("--only")
    ap.add_argument("--survivors", help="only those that survived in these results (comma-separated)")
    ap.add_argument("--skip", help="leave out what these results (comma-separated) contain")
    ap.add_argument("--show")
    ap.add_argument("--every", action="store_true", help="do not stop at the first property that notices")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    ms = mutants(a.files)
    if a.show:
        m = next(m for m in ms if m["id"] == a.show)
        import difflib
        sys.stdout.writelines(difflib.unified_diff(open(m["path"]).read().splitlines(1), m["src"].splitlines(1), n=2))
        return
    if a.only:
        ids = set(a.only.split(","))
        ms = [m for m in ms if m["id"] in ids]
    for opt, want in ((a.survivors, True), (a.skip, False)):
        if opt:
            ids = set()
            for f in opt.split(","):
                for ln in open(f):
                    d = json.loads(ln)
                    if not want or d["p"] is None:
                        ids.add(d["id"])
                    else:
                        ids.discard(d["id"])
            ms = [m for m in ms if (m["id"] in ids) == want]
    if a.list:
        for m in ms:
            print(m["id"], m["fn"], m["what"])
        print(len(ms))
        return
    W.prepare("C29" in a.props or a.props == "file")
    W.make_world({"n": 2})
    gc.collect()
    gc.freeze()
    gc.disable()
    live = {}
    done = 0
    with open(a.run, "a") as out:
        def reap(block):
            nonlocal done
            pid, st = os.waitpid(-1, 0 if block else os.WNOHANG)
            if pid == 0:
                return False
            m, rd = live.pop(pid)
            with os.fdopen(rd) as f:
                txt = f.read()
            res = json.loads(txt) if txt else {"p": "DIED", "st": st}
            res.update({"id": m["id"], "fn": m["fn"], "what": m["what"]})
            out.write(json.dumps(res) + "\n")
            out.flush()
            done += 1
            return True
        for m in ms:
            while len(live) >= a.jobs:
                reap(True)
            rd, wd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    def wr(o):
                        os.write(wd, json.dumps(o).encode()[:60000])
                    import resource
                    resource.setrlimit(resource.RLIMIT_CPU, (1500, 1500))
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    ps = props_for(m["id"]) if a.props == "file" else a.props.split(",")
                    try_mutant(m, ps, a.cases, wr, a.every)
                except BaseException:
                    os.write(wd, json.dumps({"p": "ERR", "v": ["err", traceback.format_exc()[-600:]]}).encode())
                os._exit(0)
            os.close(wd)
            live[pid] = (m, rd)
        while live:
            reap(True)
    print(done, "mutants")


if __name__ == "__main__":
    main()
