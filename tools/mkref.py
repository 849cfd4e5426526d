"""Write the reference package /verif/ref/skopt from a source tree (run by hand
after a reviewed repair; no check runs it)."""
import ast
import os
import shutil
import sys

src = sys.argv[1] if len(sys.argv) > 1 else "/repo"
dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref")
shutil.rmtree(os.path.join(dst, "skopt"), ignore_errors=True)


class Strip(ast.NodeTransformer):
    def _doc(self, n):
        self.generic_visit(n)
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) \
                and isinstance(b[0].value.value, str):
            n.body = b[1:] or [ast.Pass()]
        return n
    visit_FunctionDef = visit_ClassDef = visit_Module = _doc


for root, dirs, files in os.walk(os.path.join(src, "skopt")):
    dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__")]
    for f in files:
        if f.endswith(".py"):
            p = os.path.join(root, f)
            q = os.path.join(dst, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            t = Strip().visit(ast.parse(open(p, encoding="utf-8").read()))
            open(q, "w", encoding="utf-8").write(ast.unparse(t) + "\n")
