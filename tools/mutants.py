"""Small changes of sofar, to find gaps of the checks (development tool).

python tools/mutants.py list [FILE]           numbers and changes
python tools/mutants.py run OUT.json [FILE..] run checks, 8 mutants at a time
python tools/mutants.py one N [CHECK...]      one mutant, full size

A mutant is one small change of the source.  Survivors have to be looked at:
many of them do not change the behaviour or only the wording of messages.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SOFAR_REPO", "/repo")
FILES = ["sofa.py", "io.py", "utils.py", "sofastream.py",
         "update_conventions.py"]
SKIP = {"_complete_sofa"}
ORDER = {
    "update_conventions.py": "C24 C16 C14 C15 C28 C13 C23",
    "sofastream.py": "C11 C17 C23",
    "io.py": "C01 C02 C18 C17 C22 C06 C08 C09 C23 C11 C10 C12 C07 C19 C20",
    "utils.py": "C10 C13 C03 C01 C18 C19 C22 C05 C12 C04 C09 C23 C02 C06 C21",
    "sofa.py": "C04 C05 C03 C06 C19 C12 C13 C08 C07 C20 C21 C09 C22 C18 C01 "
               "C02 C10 C17 C23 C11"}
FIRST = {"info": "C21", "inspect": "C19", "add_missing": "C20 C12",
         "upgrade_convention": "C12", "_add_entry": "C08 C07",
         "_add_custom_api_entry": "C08 C18 C07", "list_dimensions": "C19",
         "get_dimension": "C19", "_update_dimensions": "C19",
         "_verify_value": "C05", "_verify_unit": "C05",
         "_load_convention": "C13", "_convention_to_sofa": "C13 C01",
         "_reset_convention": "C08 C09 C18", "copy": "C09",
         "__setattr__": "C07 C22", "__delattr__": "C07 C08",
         "_verify_handle_issues": "C06", "_check_congruency": "C24",
         "update_conventions": "C14 C15 C28",
         "_convention_csv2dict": "C16", "equals": "C10",
         "_append_suffix": "C17 C01", "_write_sofa": "C02 C17 C01 C29"}

CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE],
       ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
CALLS = {"startswith": "endswith", "endswith": "startswith",
         "lower": "upper", "upper": "lower", "split": "rsplit",
         "rindex": "index", "atleast_2d": "atleast_1d",
         "atleast_3d": "atleast_2d", "isfile": "exists", "isdir": "exists",
         "islower": "isupper", "max": "min", "argmax": "argmin"}


class Mutants(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.out, self.stack = text, [], []
        self.offset = [0]
        for x in text.encode().split(b"\n"):
            self.offset.append(self.offset[-1] + len(x) + 1)
        self.fstring = 0

    def span(self, n):
        return (self.offset[n.lineno - 1] + n.col_offset,
                self.offset[n.end_lineno - 1] + n.end_col_offset)

    def add(self, node, new, what):
        a, b = self.span(node)
        if not isinstance(new, str):
            new = ast.unparse(ast.fix_missing_locations(new))
            if not isinstance(node, ast.stmt):
                new = "(" + new + ")"
        self.out.append((a, b, new, ".".join(self.stack), node.lineno, what))

    def visit_FunctionDef(self, n):
        if n.name in SKIP:
            return
        self.stack.append(n.name)
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and isinstance(
                    body[0].value.value, str):
            body = body[1:]
        for d in n.args.defaults:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.stack.pop()

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.Assign)):
                self.visit(s)

    def copy(self, n):
        return ast.parse(ast.unparse(n), mode="eval").body

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                m = self.copy(n)
                m.ops = [op()]
                self.add(n, m, "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        m = self.copy(n)
        m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        self.add(n, m, "and/or")
        for i in range(len(n.values)):
            m = self.copy(n)
            del m.values[i]
            self.add(n, m.values[0] if len(m.values) == 1 else m,
                     f"operand {i}")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, n.operand, "negation")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if not self.fstring:
            if isinstance(n.op, (ast.Add, ast.Sub)):
                m = self.copy(n)
                m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
                self.add(n, m, "+-")
                self.add(n, n.left, "left only")
                self.add(n, n.right, "right only")
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        pass

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, repr(not v), "bool")
        elif isinstance(v, int):
            self.add(n, repr(v + 1), "int + 1")
            if v:
                self.add(n, repr(v - 1), "int - 1")
        elif isinstance(v, str):
            if " " in v.strip() and len(v) > 10 or v in ("\n", "- ", ", "):
                return                       # (wording of messages)
            self.add(n, '"' + "XX" + '"', "text")
            if len(v) > 1:
                self.add(n, repr(v[:-1]), "text shorter")
        elif v is None:
            self.add(n, "0", "none")

    def condition(self, t):
        self.add(t, "True", "condition")
        self.add(t, "False", "condition")

    def visit_If(self, n):
        self.condition(n.test)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, n.body, "if body")
        self.add(n, n.orelse, "if else")
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for t in n.ifs:
            self.condition(t)
        self.generic_visit(n)

    def visit_For(self, n):
        i = ast.unparse(n.iter)
        self.add(n.iter, f"(list({i})[1:])", "loop without first")
        self.add(n.iter, f"(list({i})[:-1])", "loop without last")
        self.add(n.iter, f"(list({i})[::-1])", "loop reversed")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.add(n.value, "None", "return")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, "pass", "raise")

    def visit_Continue(self, n):
        self.add(n, "pass", "continue")
        self.add(n, "break", "continue")

    def visit_Break(self, n):
        self.add(n, "pass", "break")

    def visit_Expr(self, n):
        self.add(n, "pass", "statement")
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.add(n, "pass", "assignment")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "assignment")
        self.generic_visit(n)

    def visit_Delete(self, n):
        self.add(n, "pass", "statement")

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute):
            if f.attr in ("copy", "lower", "upper", "strip", "rstrip",
                          "flatten", "squeeze", "items", "replace") and \
                    f.attr != "items":
                self.add(n, f.value, "call dropped")
            if f.attr in CALLS:
                m = self.copy(n)
                m.func.attr = CALLS[f.attr]
                self.add(n, m, "other call")
        if isinstance(f, ast.Name) and f.id in ("str", "list", "sorted",
                                                "float", "bool", "tuple") \
                and len(n.args) == 1:
            self.add(n, n.args[0], "conversion dropped")
        name = f.attr if isinstance(f, ast.Attribute) else getattr(
            f, "id", "")
        for i, k in enumerate(n.keywords):
            m = self.copy(n)
            del m.keywords[i]
            self.add(n, m, f"keyword {k.arg}")
        if name in ("print", "warn", "ValueError", "TypeError",
                    "UserWarning", "AttributeError"):
            # (wording of messages)
            for a in n.args:
                if not isinstance(a, (ast.Constant, ast.JoinedStr)):
                    self.visit(a)
            return
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            self.add(n, n.value, "slice dropped")
        self.generic_visit(n)


def mutants(files=None):
    out = []
    for f in files or FILES:
        text = open(f"{REPO}/sofar/{f}").read()
        v = Mutants(text)
        v.visit(ast.parse(text))
        for a, b, new, fn, line, what in v.out:
            data = text.encode()
            if data[a:b].decode() == new:
                continue
            changed = data[:a] + new.encode() + data[b:]
            try:
                ast.parse(changed)
            except SyntaxError:
                continue
            out.append({"file": f, "function": fn, "line": line,
                        "what": what, "old": data[a:b].decode(),
                        "new": new, "text": changed.decode()})
    for i, m in enumerate(out):
        m["n"] = i
    return out


def checks_for(m):
    last = m["function"].split(".")[-1]
    first = FIRST.get(last, "").split()
    return first + [c for c in ORDER[m["file"]].split() if c not in first]


def stable(w):
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ids = [f"{x.split('::')[0].replace('.', '/')}.py::{x.split('::')[1]}"
           for x in want]
    shutil.copytree(f"{REPO}/tests", w + "/tests")
    p = subprocess.run(
        ["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p",
         "no:cacheprovider", *ids], cwd=w, capture_output=True, text=True,
        env=dict(os.environ, PYTHONPATH=w))
    return f"{len(want)} passed" in p.stdout


def attempt(m, checks=None, scale=None, workers="1", quiet=True):
    w = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree(f"{REPO}/sofar", w + "/sofar",
                        ignore=shutil.ignore_patterns("__pycache__"))
        with open(f"{w}/sofar/{m['file']}", "w") as f:
            f.write(m["text"])
        v = w + "/verif"
        os.makedirs(v + "/evidence")
        for x in ("run.py", "run.sh", "vlib", "checks", "KNOWN_FINDINGS.md"):
            s = os.path.join(HERE, x)
            if os.path.isdir(s):
                shutil.copytree(s, f"{v}/{x}",
                                ignore=shutil.ignore_patterns("__pycache__"))
            else:
                shutil.copy(s, f"{v}/{x}")
        env = dict(os.environ, SOFAR_REPO=w, VERIF_WORKERS=workers,
                   VERIF_TIER="quick", TMPDIR=w)
        env.setdefault("VERIF_SEED", "1")
        if scale:
            env["VERIF_SCALE"] = str(scale)
        for c in checks or checks_for(m):
            try:
                p = subprocess.run(["./run.sh", c], cwd=v, text=True, env=env,
                                   capture_output=True, timeout=500)
            except subprocess.TimeoutExpired:
                return c + " time", ""
            if p.returncode == 1:
                t = [x for x in p.stdout.splitlines() if x.startswith("  ")]
                return c, (t or [""])[0].strip()[:200]
            if p.returncode == 3:
                return c + " error", p.stdout[-300:]
            if not quiet:
                print(c, p.returncode, p.stdout[:200].replace("\n", " | "))
        return None, "" if stable(w) else "tests fail"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        for m in mutants(sys.argv[2:]):
            print(m["n"], m["file"], m["function"], m["line"], m["what"],
                  repr(m["old"][:60]), "->", repr(m["new"][:60]))
    elif cmd == "one":
        m = mutants()[int(sys.argv[2])]
        print(m["file"], m["function"], m["line"], m["old"], "->", m["new"])
        print(attempt(m, sys.argv[3:], workers="8", quiet=False))
    elif cmd == "run":
        out, files = sys.argv[2], sys.argv[3:]
        done = json.load(open(out)) if os.path.exists(out) else {}
        skip = os.environ.get("SKIP_KINDS", "").split(",")
        todo = [m for m in mutants(files) if key(m) not in done and
                (m["what"] not in skip)]
        k, n = map(int, os.environ.get("PART", "0/1").split("/"))
        todo = [m for i, m in enumerate(todo) if i % n == k]
        if os.environ.get("AGAIN"):
            # the survivors of another run (lines might have changed)
            old = json.load(open(os.environ["AGAIN"]))
            old = {(*k.split("|")[:2], *k.split("|")[3:])
                   for k, v in old.items() if v == [None, ""]}
            todo = [m for m in todo if (
                *key(m).split("|")[:2], *key(m).split("|")[3:]) in old]
        print(len(todo), "mutants")
        t0 = time.time()

        def work(m):
            r = attempt(m, scale=os.environ.get("SCALE", ".12"))
            done[key(m)] = r
            if r[0] is None or "error" in r[0] or "time" in r[0]:
                print(f"[{time.time() - t0:.0f} s, {len(done)}]", r, m["n"],
                      m["file"], m["function"], m["line"], m["what"],
                      repr(m["old"][:90]), "->", repr(m["new"][:90]),
                      flush=True)
            with open(out + ".tmp", "w") as f:
                json.dump(dict(done), f)
            os.replace(out + ".tmp", out)
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
            list(ex.map(work, todo))


def key(m):
    return "|".join(map(str, (m["file"], m["function"], m["line"], m["what"],
                              m["old"], m["new"])))


if __name__ == "__main__":
    main()
