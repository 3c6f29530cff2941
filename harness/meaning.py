"""What generated code says, apart from the order it says it in."""
import ast
import difflib


class Annotations(ast.NodeTransformer):
    """Forward references become names, members of unions are sorted."""

    def visit_Call(self, n):
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, str):
            try:
                return ast.parse(n.value, mode="eval").body
            except SyntaxError:
                return n
        return n

    def visit_Subscript(self, n):
        if ast.unparse(n.value).split(".")[-1] == "Literal":
            return n
        self.generic_visit(n)
        if ast.unparse(n.value).split(".")[-1] == "Union" and isinstance(n.slice, ast.Tuple):
            n.slice.elts.sort(key=ast.unparse)
        return n


class Modules(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        n.bases.sort(key=ast.unparse)       # ordered to be consistent, by definition order where that allows
        return n

    def visit_AnnAssign(self, n):
        n.annotation = Annotations().visit(n.annotation)
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.Subscript):
            n.value = Annotations().visit(n.value)
        return n

    def visit_arg(self, n):
        if n.annotation:
            n.annotation = Annotations().visit(n.annotation)
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.returns:
            n.returns = Annotations().visit(n.returns)
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Expr(self, n):
        # resolving forward references early or late means the same
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("model_rebuild", "update_forward_refs"):
            return None
        return n


def undocumented(n):
    """n without its docstring when that tells comments of the document."""
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) or isinstance(n, ast.ClassDef) and any(isinstance(x, ast.ClassDef) and x.name == "Arguments" for x in n.body):
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return n


def meaning(code, comments=True):
    """{definition name: [source]} with imports and statements gathered under their own keys."""
    out = {}
    for n in Modules().visit(ast.parse(code)).body:
        if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
            out.setdefault(n.name, []).append(ast.unparse(n if comments else undocumented(n)))
        elif isinstance(n, ast.ImportFrom):
            out.setdefault("<import>", []).extend(f"from {'.' * n.level}{n.module or ''} import {ast.unparse(a)}" for a in n.names)
        elif isinstance(n, ast.Import):
            out.setdefault("<import>", []).extend("import " + ast.unparse(a) for a in n.names)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            out.setdefault(ast.unparse(t), []).append(ast.unparse(n))
        else:
            out.setdefault("<statement>", []).append(ast.unparse(n))
    for k in ("<import>", "<statement>"):
        if k in out:
            out[k] = sorted(set(out[k]))
    return out


def difference(a, b, comments=True):
    """None when both codes say the same, else a readable difference."""
    if a == b:
        return None
    x, y = meaning(a, comments), meaning(b, comments)
    if x == y:
        return None
    lines = []
    for k in list(x) + [k for k in y if k not in x]:
        if x.get(k) != y.get(k):
            lines += list(difflib.unified_diff("\n".join(x.get(k, [])).splitlines(), "\n".join(y.get(k, [])).splitlines(), k, k, lineterm="", n=1))
    return "\n".join(lines[:60])
