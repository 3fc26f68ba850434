import ast,sys
for f in sys.argv[1:]:
    t=ast.parse(open(f).read())
    for n in ast.walk(t):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)):
            if n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
                n.body=n.body[1:] or [ast.Pass()]
            n.body=[b for b in n.body if not (isinstance(b,ast.FunctionDef) and b.name=='__repr__')] or [ast.Pass()]
    print('#####',f); print(ast.unparse(t))
