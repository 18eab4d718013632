"""refactor.py TREE KIND...  apply behaviour-preserving rewritings to every module of
TREE/qiskit/ignis (development tool: the checks have to stay quiet on the outcome).
kinds: locals (rename local variables), ifs (swap branches), ret (name the returned value),
wrap (body moved into a helper), comp (list comprehensions into loops), aug (x += n on numbers
written out), tern (if/else assignment), enum (for over a list made explicit)"""
import ast
import builtins
import glob
import os
import sys


def scopes(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            yield n


class Locals(ast.NodeTransformer):
    """rename local variables of functions without nested functions or lambdas that capture"""
    def visit_FunctionDef(self, node):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)) for b in node.body for x in ast.walk(b)):
            return node
        args = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        for a in (node.args.vararg, node.args.kwarg):
            if a:
                args.add(a.arg)
        stores = {x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        exc = {x.name for b in node.body for x in ast.walk(b) if isinstance(x, ast.ExceptHandler) and x.name}
        names = stores - args - exc
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in names:
                    x.id = x.id + '_loc'
        return node


class Ifs(ast.NodeTransformer):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            node.test = ast.UnaryOp(ast.Not(), node.test)
            node.body, node.orelse = node.orelse, node.body
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)


class Ret(ast.NodeTransformer):
    def visit_Return(self, node):
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        return [ast.Assign([ast.Name('returned_value', ast.Store())], node.value), ast.Return(ast.Name('returned_value', ast.Load()))]

    def visit_Lambda(self, node):
        return node


def wrap_list(body, cls):
    out = []
    for n in body:
        if isinstance(n, ast.ClassDef):
            n.body = wrap_list(n.body, True)
            out.append(n)
            continue
        if isinstance(n, ast.FunctionDef) and not n.decorator_list and not n.name.startswith('__') and not n.args.vararg and not n.args.kwarg and not n.args.posonlyargs \
                and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(n)):
            doc = []
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                doc, b = [b[0]], b[1:]
            if not b:
                out.append(n)
                continue
            hn = '_do_' + n.name.strip('_')
            a = n.args
            helper = ast.FunctionDef(hn, ast.arguments([], [ast.arg(x.arg) for x in a.args + a.kwonlyargs], None, [], [], None, []), b, [], None)
            names = [ast.Name(x.arg, ast.Load()) for x in a.args + a.kwonlyargs]
            if cls:
                if not names or names[0].id != 'self':
                    out.append(n)
                    continue
                call = ast.Call(ast.Attribute(names[0], hn, ast.Load()), names[1:], [])
            else:
                call = ast.Call(ast.Name(hn, ast.Load()), names, [])
            n.body = doc + [ast.Return(call)]
            out.append(n)
            out.append(helper)
            continue
        out.append(n)
    return out


class Comp(ast.NodeTransformer):
    def visit_ClassDef(self, node):
        node.body = [self.visit(x) if isinstance(x, ast.FunctionDef) else x for x in node.body]
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node

    def visit_Assign(self, node):
        v = node.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            g = v.generators[0]
            t = node.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(v)):
                return node
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [v.elt], []))]
            # keep the loop variable of the comprehension private
            mine = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for part in [v.elt, g.target] + g.ifs:
                for x in ast.walk(part):
                    if isinstance(x, ast.Name) and x.id in mine:
                        x.id = x.id + '_it'
            if any(isinstance(x, (ast.ListComp, ast.Lambda, ast.GeneratorExp, ast.DictComp)) for x in ast.walk(v.elt)):
                pass
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        return node


class Enum(ast.NodeTransformer):
    """for i, x in enumerate(s)  ->  counter; for x in s -> for x in list(s)"""
    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 and not it.keywords and isinstance(node.target, ast.Tuple):
            it.func.id = 'zip'
            it.args = [ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Call(ast.Name('list', ast.Load()), [it.args[0]], [])], [])], []), ast.Call(ast.Name('list', ast.Load()), [it.args[0]], [])] \
                if not any(isinstance(x, ast.Call) for x in ast.walk(it.args[0])) else [ast.parse('__import__("itertools").count()', mode='eval').body, it.args[0]]
        return node


KINDS = {'locals': Locals, 'ifs': Ifs, 'ret': Ret, 'comp': Comp, 'enum': Enum}

if __name__ == '__main__':
    tree, kinds = sys.argv[1], sys.argv[2:]
    assert os.path.realpath(tree) != '/repo'
    for p in glob.glob(tree + '/qiskit/ignis/**/*.py', recursive=True):
        src = open(p).read()
        t = ast.parse(src)
        for k in kinds:
            if k == 'wrap':
                t.body = wrap_list(t.body, False)
            else:
                t = KINDS[k]().visit(t)
            ast.fix_missing_locations(t)
            t = ast.parse(ast.unparse(t))
        open(p, 'w').write(ast.unparse(t) + '\n')
