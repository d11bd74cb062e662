"""One simulated user of nrpy's disk cache: executes a list of operations and acknowledges each result to an unwatched log."""
import json
import os
import sys

import sympy as sp

import nrpy.helpers.cached_functions as cfn
from nrpy.helpers.generic import clang_format

xr, xp, x, yr = sp.Symbol("x", real=True), sp.Symbol("x", positive=True), sp.Symbol("x"), sp.Symbol("y", real=True)
nc, A = sp.Symbol("x", commutative=False), sp.Function("A")
EXPRS = [
    sp.sqrt(xr**2),
    sp.sqrt(xp**2),
    sp.sqrt(x**2),
    sp.sin(xr) ** 2 + sp.cos(xr) ** 2,
    sp.sin(x) ** 2 + sp.cos(x) ** 2,
    (xr**2 + 2 * xr * yr + yr**2) / (xr + yr),
    sp.Integer(0),
    sp.Rational(1, 3) + xr - xr,
    sp.exp(sp.log(xp)) * A(yr),
    nc * x - x * nc + nc**2,
    sp.sqrt(xp**2) * sp.sqrt(xr**2),
    sp.Abs(xr) * sp.sign(xr),
    sp.Float(0.5) + xr,
    sp.Rational(1, 2) + xr,
]
STYLES = [
    "-style={BasedOnStyle: LLVM, ColumnLimit: 150}",
    "-style={BasedOnStyle: LLVM, ColumnLimit: 40}",
    "-style={BasedOnStyle: GNU}",
    "-style=Google",
]
TEXTS = [
    "int main(){return 0;}",
    "int  main( ){ return   0;}",
    "void f(int a){for(int i=0;i<a;i++){printf(\"%d\",i);}}",
    "",
    "// caf\u00e9 \u03b1\u03b2\nint x;",
    "double g(const double aaaaaaaaaaaaaaaa,const double bbbbbbbbbbbbbbbbbbbbb,const double ccccccccccc){return aaaaaaaaaaaaaaaa*bbbbbbbbbbbbbbbbbbbbb+ccccccccccc;}",
    "int arr[]={" + ",".join(str(i) for i in range(3000)) + "};",
]


def value(v):
    kind, n = v
    if kind == "dict":
        return {"n": n, "nested": {"k": list(range(n % 50))}}
    if kind == "big":
        return bytes((n * 7 + i) % 251 for i in range(40000 + n))
    if kind == "expr":
        return xr**n + yr
    if kind == "none":
        return None
    if kind == "false":
        return False
    return f"text{n}"


def do(op):
    k = op[0]
    if k == "simp":
        return sp.srepr(cfn.cached_simplify(EXPRS[op[1]]))
    if k == "fmt":
        return clang_format(TEXTS[op[1]], STYLES[op[2]]) if op[2] else clang_format(TEXTS[op[1]])
    if k == "write":
        cfn.write_cached(op[1], value(op[2]))
        return "written"
    if k == "read":
        if not cfn.is_cached(op[1]):
            return ["miss"]
        return ["hit", repr(cfn.read_cached(op[1]))]
    if k == "absent":
        return cfn.is_cached("never written " + op[1])
    raise SystemExit(f"unknown op {op}")


def main():
    cfg = json.loads(sys.argv[1])
    if cfg.get("isolated"):
        # Oracle mode: every operation in a process of its own with an empty cache of its own.
        out = []
        for i, op in enumerate(cfg["ops"]):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.environ["XDG_CACHE_HOME"] = os.path.join(os.environ["XDG_CACHE_HOME"], f"iso{i}")
                try:
                    os.write(w, json.dumps(do(op)).encode())
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                out.append(json.loads(f.read().decode()))
            os.waitpid(pid, 0)
        with open(cfg["ack"], "w", encoding="utf-8") as f:
            json.dump(out, f)
        return
    fd = os.open(cfg["ack"], os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o644)
    for i, op in enumerate(cfg["ops"]):
        os.write(fd, (json.dumps([i, "start"]) + "\n").encode())
        try:
            res = ["ok", do(op)]
        except OSError as e:
            res = ["oserror", e.errno]
        except RuntimeError as e:
            res = ["runtimeerror", str(e)[:200]]
        os.write(fd, (json.dumps([i, res]) + "\n").encode())


main()
