"""print a module without docstrings/comments (reading aid)"""
import ast, sys
sys.path.insert(0, '/verif')
from sa.program import parse
t, _ = parse(open(sys.argv[1]).read(), sys.argv[1])
for n in ast.walk(t):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
print(ast.unparse(t))
