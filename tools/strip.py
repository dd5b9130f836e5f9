import ast,sys
src=open(sys.argv[1]).read(); lines=src.split('\n'); rm=set()
t=ast.parse(src)
for n in ast.walk(t):
    if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str) and not isinstance(n,ast.Module):
        rm|=set(range(n.body[0].lineno,n.body[0].end_lineno+1))
    if isinstance(n,ast.If) and isinstance(n.test,(ast.Compare,ast.Constant)) and n.col_offset==0:
        rm|=set(range(n.lineno,n.end_lineno+1))
    if isinstance(n,ast.FunctionDef) and n.name.endswith('_plot') : rm|=set(range(n.lineno,n.end_lineno+1))
print('\n'.join(f"{i} {l}" for i,l in enumerate(lines,1) if i not in rm and l.strip() and not l.strip().startswith('#')))
