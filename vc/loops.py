"""Source transformation (loader) and the loop rule for symbolic-length iteration."""
import ast

from .core import ENG, unsupported


def is_warn_only(body):
    for s in body:
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
            return False
        f = s.value.func
        ok = isinstance(f, ast.Attribute) and f.attr == 'warn' and isinstance(f.value, ast.Name) and f.value.id == 'warnings'
        if not ok:
            return False
    return True


class Transform(ast.NodeTransformer):
    def visit_If(self, node):
        self.generic_visit(node)
        if not node.orelse and is_warn_only(node.body):
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=node.test)
            node.test = ast.Call(func=ast.Name(id='vc_dontcare_', ctx=ast.Load()), args=[lam], keywords=[])
        return node


def vc_for(*a):
    unsupported('symbolic loop')


def vc_comp(*a):
    unsupported('symbolic comprehension')


def symiter(x):
    return False
