"""Mutation screening: python3 tools/mutate.py OUT.jsonl --n=200 --seed=1 [--files=ok.py,uk.py] [--jobs=4] [--frac=0.2]

Makes small random changes to the package in scratch copies, keeps those that
pass the stable tests, and runs shortened checks against them.  What no check
notices is either equivalent or a gap, to be looked at by hand."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = ["C07", "C20", "C06", "C04", "C03", "C05", "C08", "C16", "C18", "C19", "C17", "C01", "C02"]
WRAP = ["C14", "C15", "C13", "C05", "C04", "C08", "C16"]
FILES = {
    "ok.py": CORE, "uk.py": CORE, "ok3d.py": CORE, "uk3d.py": CORE, "core.py": CORE + ["C14"], "variogram_models.py": ["C07", "C20"],
    "kriging_tools.py": ["C09", "C11", "C10", "C12"], "compat.py": WRAP, "ck.py": WRAP, "rk.py": WRAP, "compat_gstools.py": CORE,
}


class Collect(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def add(self, n, new, what):
        a, b = self.pos(n)
        self.out.append((a, b, new, what, n.lineno))

    def text(self, n):
        a, b = self.pos(n)
        return self.src.encode()[a:b].decode()

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, "pass", "drop call")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.add(n, "pass", "drop assignment")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "drop aug")
        self.generic_visit(n)

    def visit_If(self, n):
        t = self.text(n.test)
        self.add(n.test, "not (%s)" % t, "negate if")
        self.add(n.test, "False", "if False")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
            if sw:
                self.add(n, "%s %s %s" % (self.text(n.left), sw, self.text(n.comparators[0])), "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join("(%s)" % self.text(v) for v in n.values) + ")", "bool")
        self.add(n, "(%s)" % self.text(n.values[0]), "bool drop")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(n.op))
        if sw and not isinstance(n.left, ast.Constant) or sw and not isinstance(n.left.value if isinstance(n.left, ast.Constant) else "", str):
            self.add(n, "(%s) %s (%s)" % (self.text(n.left), sw, self.text(n.right)), "arith")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "bool const")
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), "const+1")
        elif isinstance(n.value, float):
            self.add(n, repr(n.value * 1.5 + 0.25), "const")

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "ravel", "flatten", "squeeze") and not n.args:
            self.add(n, self.text(n.func.value), "drop ." + n.func.attr)
        if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)) and self.text(n.func).split(".")[-1] in (
                "list", "deepcopy", "copy", "absolute", "abs", "sqrt", "float", "int", "array", "atleast_1d"):
            self.add(n, self.text(n.args[0]), "drop " + self.text(n.func))
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        for s in n.body:
            self.visit(s)

    def visit_Raise(self, n):
        self.add(n, "pass", "drop raise")


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    out = sys.argv[1]
    opt = dict(a[2:].split("=", 1) if "=" in a else (a[2:], "1") for a in sys.argv[2:] if a.startswith("--"))
    rng = random.Random(int(opt.get("seed", 1)))
    files = opt["files"].split(",") if "files" in opt else sorted(FILES)
    muts = []
    for f in files:
        raw = open("/repo/src/pykrige/" + f, newline="").read()
        c = Collect(raw.replace("\r\n", "\n"))
        c.visit(ast.parse(c.src))
        muts += [(f, m) for m in c.out]
    rng.shuffle(muts)
    muts = muts[:int(opt.get("n", 100))]
    print(len(muts), "mutants")
    lock = threading.Lock()
    jobs = int(opt.get("jobs", 4))
    quick = {}
    for i in list(range(1, 21)) + [27]:
        import re
        s = open(V + "/dst/props/c%02d.py" % i).read()
        quick["C%02d" % i] = int(re.search(r'"quick": (\d+)', s).group(1))

    def work(k):
        base = "/tmp/mut/w%s-%d" % (os.path.basename(out), k)
        shutil.rmtree(base, ignore_errors=True)
        repo = base + "/repo"
        os.makedirs(base)
        sh("cp -a /repo %s" % repo)
        while True:
            with lock:
                if not muts:
                    break
                f, (a, b, new, what, line) = muts.pop()
            path = repo + "/src/pykrige/" + f
            raw = open(path, newline="").read()
            crlf = "\r\n" in raw
            s = raw.replace("\r\n", "\n").encode()
            old = s[a:b].decode()
            m = (s[:a] + new.encode() + s[b:]).decode()
            rec = {"file": f, "line": line, "what": what, "old": old[:200], "new": new[:200]}
            try:
                compile(m, f, "exec")
                with open(path, "w", newline="") as h:
                    h.write(m.replace("\n", "\r\n") if crlf else m)
                rc, o = sh("PYTHONPATH=%s/src MPLBACKEND=Agg timeout 200 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider %s/tests" % (repo, repo), cwd=repo)
                if rc:
                    rec["res"] = "tests"
                else:
                    rec["res"] = "MISSED"
                    for c in FILES[f]:
                        n = max(60, int(quick[c] * float(opt.get("frac", 0.2))))
                        rc, o = sh("./run.sh check %s --runs=%d --workers=2" % (c, n), cwd=V, env={"DST_REPO": repo, "DST_EVID": base + "/ev"}, timeout=600)
                        if rc:
                            rec["res"] = "%s rc %d" % (c, rc)
                            rec["msg"] = [l for l in o.splitlines() if l.startswith(("violation", "ERROR"))][:1]
                            break
            except SyntaxError:
                rec["res"] = "syntax"
            finally:
                with open(path, "w", newline="") as h:
                    h.write(raw)
            with lock:
                with open(out, "a") as h:
                    h.write(json.dumps(rec) + "\n")
        shutil.rmtree(base, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
