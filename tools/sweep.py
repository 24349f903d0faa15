"""Systematic mutants: sweep.py N [--seed=S] [--file=PART]: N single-token mutants of soepy, which checks catch them, one line each.

Operators: comparison, arithmetic and boolean operators exchanged, constants shifted, branches of `where` and of a conditional
exchanged, a call of `clip`/`maximum`/`minimum` replaced by its first argument, a statement dropped.  Survivors are for reading."""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "exogenous_processes/children.py": "C04 C16", "exogenous_processes/education.py": "C16 C04", "exogenous_processes/experience.py": "C16 C04",
    "exogenous_processes/partner.py": "C04 C16", "pre_processing/model_processing.py": "C22 C10 C21 C09",
    "pre_processing/tax_and_transfers_params.py": "C08 C22 C09", "shared/constants_and_indices.py": "C22 C08 C14",
    "shared/experience_stock.py": "C05 C06", "shared/interpolation.py": "C11", "shared/non_consumption_utility.py": "C10",
    "shared/non_employment.py": "C09", "shared/numerical_integration.py": "C13", "shared/tax_and_transfers.py": "C08",
    "shared/tax_and_transfers_jax.py": "C08", "shared/wages.py": "C07", "simulate/constants_sim.py": "C21 C15",
    "simulate/income_sim.py": "C14 C08", "simulate/initial_states.py": "C16 C15", "simulate/simulate_auxiliary.py": "C14 C15 C16 C21",
    "simulate/simulate_python.py": "C20 C21", "solve/continuous_continuation.py": "C11 C05", "solve/covariates.py": "C03 C14",
    "solve/create_state_space.py": "C01 C02 C03", "solve/emaxs.py": "C12 C13", "solve/solve_python.py": "C12 C19 C10 C09",
}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Add: ast.Sub,
        ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.And: ast.Or, ast.Or: ast.And, ast.Is: ast.IsNot, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Pow: ast.Mult}


def sites(tree):
    """(line, what, function that mutates the node in place)."""
    out = []
    for node in ast.walk(tree):
        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
            out.append((line, "compare", lambda n=node: n.ops.__setitem__(0, SWAP[type(n.ops[0])]())))
        if isinstance(node, (ast.BinOp, ast.BoolOp, ast.AugAssign)) and type(node.op) in SWAP:
            out.append((line, "operator", lambda n=node: setattr(n, "op", SWAP[type(n.op)]())))
        if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            out.append((line, "constant+", lambda n=node: setattr(n, "value", n.value + 1 if isinstance(n.value, int) else n.value * 1.25)))
            if isinstance(node.value, int) and node.value > 0:
                out.append((line, "constant-", lambda n=node: setattr(n, "value", n.value - 1)))
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((line, "bool", lambda n=node: setattr(n, "value", not n.value)))
        if isinstance(node, ast.IfExp):
            out.append((line, "branches", lambda n=node: (lambda a, b: (setattr(n, "body", b), setattr(n, "orelse", a)))(n.body, n.orelse)))
        if isinstance(node, ast.Call):
            name = getattr(node.func, "attr", getattr(node.func, "id", ""))
            if name == "where" and len(node.args) == 3:
                out.append((line, "where", lambda n=node: n.args.__setitem__(slice(1, 3), [n.args[2], n.args[1]])))
            if name in ("clip", "maximum", "minimum", "floor", "max", "min", "copy", "deepcopy", "abs", "sorted", "round", "astype") and node.args:
                out.append((line, "call " + name, ("arg", node)))
    for node in ast.walk(tree):
        for field in ("body", "orelse"):
            body = getattr(node, field, None)
            if isinstance(body, list):
                for i, st in enumerate(body):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        out.append((st.lineno, "drop", lambda b=body, i=i: b.__setitem__(i, ast.copy_location(ast.Pass(), b[i]))))
    return out


class FirstArg(ast.NodeTransformer):
    def __init__(self, target):
        self.target = target

    def visit_Call(self, node):
        if node is self.target:
            return node.func.value if isinstance(node.func, ast.Attribute) and node.func.attr in ("astype", "clip") and not isinstance(
                node.func.value, ast.Name) else node.args[0]
        return self.generic_visit(node)


def mutants(file):
    src = open(f"/repo/soepy/{file}").read()
    for k in range(len(sites(ast.parse(src)))):
        tree = ast.parse(src)
        line, what, act = sites(tree)[k]
        if isinstance(act, tuple):
            tree = FirstArg(act[1]).visit(tree)
        else:
            act()
        new = ast.unparse(ast.fix_missing_locations(tree))
        if new != ast.unparse(ast.parse(src)):
            yield f"{file}:{line}:{what}#{k}", src.splitlines()[line - 1].strip(), new


def one(job):
    k, file, name, line, new = job
    d = f"/tmp/w/sweep-{os.getpid()}-{k}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    try:
        with open(f"{d}/soepy/{file}", "w") as f:
            f.write(new)
        res = []
        for prop in CHECKS[file].split():
            r = subprocess.run([f"{V}/check.sh", prop], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"),
                               capture_output=True, text=True)
            res.append((prop, r.returncode))
            if r.returncode == 1:
                break
    finally:
        shutil.rmtree(d)
    return name, line, res


if __name__ == "__main__":
    flags = dict(a[2:].split("=") for a in sys.argv if a.startswith("--"))
    rng = random.Random(int(flags.get("seed", 1)))
    pools = {f: list(mutants(f)) for f in CHECKS if flags.get("file", "") in f}
    for p in pools.values():
        rng.shuffle(p)
    jobs, n = [], int(sys.argv[1])
    skip = int(flags.get("skip", 0))
    print({f: len(p) for f, p in pools.items()}, flush=True)
    # evenly over the files until they run out
    rnd = 0
    while len(jobs) < n + skip and any(pools.values()):
        for f, p in pools.items():
            if p:
                name, line, new = p.pop()
                jobs.append((len(jobs), f, name, line, new))
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for name, line, res in ex.map(one, jobs[skip:skip + n]):
            print("ok  " if res[-1][1] == 1 else "MISS" if res[-1][1] == 0 else "ERR ", name, json.dumps(res), "|", line, flush=True)
