"""
Mutation of the library, to find what the checks do not see.

  automut.py FILE FUNCS CHECKS [first [step]] : every mutant of the functions (comma
  separated qualified names, or *) of the Python file FILE (below /repo) is put in a copy
  of /repo, mounted over /repo in a namespace of its own, where the CHECKS run one after
  another until one reports a violation.  Prints those that survive.
env: RUNS (per check, default 600), JOBS (default 7), OUT (log file),
REPO_SRC, VERIF_SRC (copies of /repo and /verif to use)
"""
import ast
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = os.environ.get("REPO_SRC", "/repo")
CHECKS = os.environ.get("VERIF_SRC", "/verif")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
       ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*",
       ast.Mod: "*"}


def offsets(text):
    out, at = [0], 0
    for line in text.encode().splitlines(True):
        at += len(line)
        out.append(at)
    return out


class Mutator(object):
    def __init__(self, text, funcs):
        self.text = text.encode()
        self.lines = offsets(text)
        self.tree = ast.parse(text)
        self.funcs = funcs
        self.out = []
        self.walk(self.tree, [])

    def span(self, node):
        return (self.lines[node.lineno - 1] + node.col_offset,
                self.lines[node.end_lineno - 1] + node.end_col_offset)

    def src(self, node):
        a, b = self.span(node)
        return self.text[a:b].decode()

    def put(self, node, new, what):
        a, b = self.span(node)
        t = self.text[:a] + new.encode() + self.text[b:]
        try:
            ast.parse(t.decode())
        except SyntaxError:
            return
        self.out.append((node.lineno, "%s: %s  ->  %s" % (
            what, " ".join(self.src(node).split())[:90], " ".join(new.split())[:90]),
            t.decode()))

    def walk(self, node, path):
        for child in ast.iter_child_nodes(node):
            p = path
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                p = path + [child.name]
                if isinstance(child, ast.FunctionDef) and self.wanted(p):
                    self.function(child)
                    continue
            self.walk(child, p)

    def wanted(self, p):
        name = ".".join(p)
        return "*" in self.funcs or name in self.funcs or p[-1] in self.funcs

    def function(self, fn):
        for n in fn.args.defaults:
            self.constant(n)
        body = fn.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            self.stmt(s)

    def constant(self, n):
        if not isinstance(n, ast.Constant):
            return
        v = n.value
        if v is True or v is False:
            self.put(n, str(not v), "const")
        elif isinstance(v, int):
            self.put(n, str(v + 1), "const")
            if v:
                self.put(n, str(v - 1), "const")
        elif isinstance(v, float):
            self.put(n, repr(v + 1.), "const")
        elif v is None:
            self.put(n, "0", "const")

    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise,
                          ast.Assert)):
            self.put(s, "pass", "drop")
        if isinstance(s, ast.Raise) and s.exc is None:
            pass
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.put(s, "return None", "return")
            self.put(s, "pass", "drop")
        if isinstance(s, ast.Break):
            self.put(s, "continue", "break")
            self.put(s, "pass", "drop")
        if isinstance(s, ast.Continue):
            self.put(s, "pass", "drop")
            self.put(s, "break", "continue")
        if isinstance(s, (ast.If, ast.While)):
            self.put(s.test, "not (%s)" % self.src(s.test), "negate")
            if isinstance(s, ast.If):
                self.put(s.test, "True", "always")
                self.put(s.test, "False", "never")
        if isinstance(s, ast.Try):
            for h in s.handlers:
                self.put(h.body[0], "raise", "handler")
                if h.type is not None and self.src(h.type) != "Exception":
                    self.put(h.type, "ZeroDivisionError", "handler type")
        if isinstance(s, ast.For):
            self.put(s.iter, "list(%s)[1:]" % self.src(s.iter), "skip first")
            self.put(s.iter, "list(%s)[:-1]" % self.src(s.iter), "skip last")
        for name, value in ast.iter_fields(s):
            for v in value if isinstance(value, list) else [value]:
                if isinstance(v, ast.stmt):
                    self.stmt(v)
                elif isinstance(v, ast.ExceptHandler):
                    for b in v.body:
                        self.stmt(b)
                elif isinstance(v, (ast.expr, ast.withitem)):
                    self.expr(v)

    def expr(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                self.put(n, "(%s %s %s)" % (self.src(n.left), CMP[type(n.ops[0])],
                                            self.src(n.comparators[0])), "compare")
            elif isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                self.put(n, "(" + op.join("(%s)" % self.src(v) for v in n.values) + ")",
                         "bool")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                self.put(n, "(%s)" % self.src(n.operand), "not")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                self.put(n, "(%s) %s (%s)" % (self.src(n.left), BIN[type(n.op)],
                                              self.src(n.right)), "binop")
            elif isinstance(n, ast.Constant):
                self.constant(n)
            elif isinstance(n, ast.Call):
                for k, a in enumerate(n.args):
                    if k == 0 and isinstance(n.func, ast.Attribute) and \
                            n.func.attr in ("deepcopy", "copy"):
                        self.put(n, self.src(a), "no copy")
                for k in n.keywords:
                    pass
            elif isinstance(n, ast.IfExp):
                self.put(n.test, "not (%s)" % self.src(n.test), "negate")


CPP = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"),
       (r"(?<![<>-])<(?![<=])(?=\s)", "<="), (r"(?<![->])>(?![>=])(?=\s)", ">="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\+\+", "--"),
       (r"\bfalse\b", "true"), (r"\btrue\b", "false"), (r" \+ ", " - "),
       (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+=", "-="),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"Py_INCREF\([^)]*\);", ";"),
       (r"Py_DECREF\([^)]*\);", ";"), (r"\breturn\b[^;]*;", None)]


def cpp(text):
    """line mutants of C++ code; statements dropped"""
    out = []
    lines = text.split("\n")
    depth = comment = 0
    for i, line in enumerate(lines):
        code = line.split("//")[0]
        if "/*" in code:
            comment = 1
        if comment:
            if "*/" in code:
                comment = 0
            continue
        if not code.strip() or code.strip().startswith("#"):
            continue

        def put(new, what):
            t = "\n".join(lines[:i] + [new] + lines[i + 1:])
            out.append((i + 1, "%s: %s  ->  %s" % (what, line.strip()[:90],
                                                  new.strip()[:90]), t))
        for pat, rep in CPP:
            if rep is None:
                continue
            for m in re.finditer(pat, code):
                put(code[:m.start()] + rep + code[m.end():], "swap")
        s = code.strip()
        if s.endswith(";") and not re.match(r"^(return|std::|int|double|Py|char|bool|const|"
                                            r"static|struct|typedef|extern|break|for)\b.*"
                                            r"(?<!\))\s*;$", s) and "return" not in s:
            put(code.replace(s, ";"), "drop")
        m = re.search(r"\bif \((.*)\)(\s*\{?\s*)$", code)
        if m:
            put(code[:m.start()] + "if (!(" + m.group(1) + "))" + m.group(2), "negate")
    return out


def run(args):
    rel, (line, what, text), checks, index = args
    d = tempfile.mkdtemp(prefix="automut.", dir="/tmp")
    runs = os.environ.get("RUNS", "600")
    try:
        subprocess.check_call(["cp", "-a", SRC, d + "/r"])
        with open(os.path.join(d, "r", rel), "w", encoding="utf-8") as f:
            f.write(text)
        seen = []
        for c in checks:
            env = dict(os.environ, SIM_SHARDS="1", SIM_RUNS=runs, SIM_SHRINK_S="0.1",
                       SIM_CAP="100", SIM_STALL="40", SIM_OUT=d)
            p = subprocess.run(["unshare", "-Urm", "bash", "-c",
                                "mount --bind %s/r /repo && mount --bind %s /verif && "
                                "cd /verif && python3 ./check.py %s" % (d, CHECKS, c)], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=600)
            seen.append((c, p.returncode))
            if p.returncode == 1:
                return line, what, "caught " + c
        bad = [c for c, rc in seen if rc != 0]
        if bad:
            return line, what, "error " + ",".join(bad)
        return line, what, "SURVIVED"
    except subprocess.TimeoutExpired:
        return line, what, "TIMEOUT"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(argv):
    rel, funcs, checks = argv[0], argv[1].split(","), argv[2].split(",")
    first = int(argv[3]) if len(argv) > 3 else 0
    step = int(argv[4]) if len(argv) > 4 else 1
    with open(os.path.join(SRC, rel), encoding="utf-8") as f:
        text = f.read()
    muts = Mutator(text, funcs).out if rel.endswith(".py") else cpp(text)
    if funcs != ["*"] and not rel.endswith(".py"):
        a, b = [int(x) for x in funcs[0].split("-")]
        muts = [m for m in muts if a <= m[0] <= b]
    muts = muts[first::step]
    count = {}
    log = open(os.environ["OUT"], "a") if "OUT" in os.environ else sys.stdout
    log.write("# %s %s %s: %d mutants\n" % (rel, argv[1], argv[2], len(muts)))
    log.flush()
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as pool:
        for line, what, res in pool.map(run, [(rel, m, checks, i)
                                              for i, m in enumerate(muts)]):
            key = res.split()[0]
            count[key] = count.get(key, 0) + 1
            if key != "caught" or "VERBOSE" in os.environ:
                log.write("%s:%d %s %s\n" % (os.path.basename(rel), line, res, what))
                log.flush()
    log.write("# %s %s\n" % (rel, count))
    log.flush()


if __name__ == "__main__":
    main(sys.argv[1:])
