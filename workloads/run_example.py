"""Run one of nrpy's example generators with some of its code-generation-time constants changed, as a user would edit them.

Usage: run_example.py MODULE '{"Nxx_dict": {...}, "fd_order": 2}'
"""
import ast
import importlib.util
import json
import sys

mod, over = sys.argv[1], json.loads(sys.argv[2])
spec = importlib.util.find_spec(mod)
with open(spec.origin, encoding="utf-8") as f:
    tree = ast.parse(f.read(), spec.origin)
left = set(over)
for node in ast.walk(tree):
    targets = node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, ast.AnnAssign) and node.value else []
    if len(targets) == 1 and isinstance(targets[0], ast.Name) and targets[0].id in over:
        k = targets[0].id
        node.value = ast.copy_location(ast.parse(repr(over[k]), mode="eval").body, node.value)
        left.discard(k)
if left:
    sys.exit(f"{mod} no longer sets {sorted(left)}")
ast.fix_missing_locations(tree)
sys.argv = [spec.origin]
g = {"__name__": "__main__", "__file__": spec.origin, "__package__": mod.rpartition(".")[0], "__builtins__": __builtins__}
exec(compile(tree, spec.origin, "exec"), g)
