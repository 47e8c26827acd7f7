"""Runs checks on behaviour-preserving rewrites of /repo (they have to stay quiet).

python3 tools/refactor.py KIND[,KIND] [ID ...]     kinds: see KINDS; 'all' = every kind together
A scratch copy is made under /tmp and removed afterwards."""
import ast, os, shutil, warnings, subprocess, sys, tempfile

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class T(ast.NodeTransformer):
    n = 0

    def new(self, p='_tmp'):
        T.n += 1
        return '%s%d' % (p, T.n)


class NegIf(T):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node


class Swap(T):
    """a == b -> b == a, a < b -> b > a, .."""
    M = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in self.M and not any(isinstance(x, (ast.Call, ast.Yield)) for y in (node.left, node.comparators[0]) for x in ast.walk(y)):
            return ast.Compare(node.comparators[0], [self.M[type(node.ops[0])]()], [node.left])
        return node


class Cond(T):
    """if c -> t = c; if t"""
    def visit_If(self, node):
        self.generic_visit(node)
        v = self.new('_c')
        return [ast.Assign([ast.Name(v, ast.Store())], node.test), ast.If(ast.Name(v, ast.Load()), node.body, node.orelse)]


class Ret(T):
    """return e -> r = e; return r"""
    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None:
            return node
        v = self.new('_r')
        return [ast.Assign([ast.Name(v, ast.Store())], node.value), ast.Return(ast.Name(v, ast.Load()))]


class While(T):
    """for x in it: B -> while loop over an explicit iterator (no else, no continue)"""
    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        it, x, end = self.new('_it'), self.new('_x'), self.new('_end')
        L = lambda n: ast.Name(n, ast.Load())
        S = lambda n: ast.Name(n, ast.Store())
        return [ast.Assign([S(end)], ast.Call(L('object'), [], [])),
                ast.Assign([S(it)], ast.Call(L('iter'), [node.iter], [])),
                ast.While(ast.Constant(True), [
                    ast.Assign([S(x)], ast.Call(L('next'), [L(it), L(end)], [])),
                    ast.If(ast.Compare(L(x), [ast.Is()], [L(end)]), [ast.Break()], []),
                    ast.Assign([node.target], L(x))] + node.body, [])]


class ListFor(T):
    """iterating over a copy"""
    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = ast.Call(ast.Name('iter', ast.Load()), [node.iter], [])
        return node


class Comp(T):
    """[e for ..] -> list(e for ..), set comprehension -> set(generator)"""
    def visit_ListComp(self, node):
        self.generic_visit(node)
        if any(g.is_async for g in node.generators):
            return node
        return ast.Call(ast.Name('list', ast.Load()), [ast.GeneratorExp(node.elt, node.generators)], [])


class Impl(T):
    """every function's body moves to a helper (def f(..): return _f(..)); generators and methods with super() excepted"""
    def one(self, node):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            return node
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or node.decorator_list:
            return node
        if any(isinstance(x, ast.Name) and x.id in ('super', '__class__') for x in ast.walk(node)):
            return node
        names = [x.arg for x in a.args]
        if node.name.startswith('__') and not node.name.endswith('__'):
            return node
        h = '_helper_' + node.name.strip('_')
        inner = ast.FunctionDef(h, ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), node.body, [], None)
        doc = []
        if ast.get_docstring(node) is not None:
            doc, inner.body = node.body[:1], node.body[1:] or [ast.Pass()]
        node.body = doc + [inner, ast.Return(ast.Call(ast.Name(h, ast.Load()), [ast.Name(n, ast.Load()) for n in names], []))]
        return node

    def visit_FunctionDef(self, node):
        return self.one(node)


class Rename(T):
    """local variables get other names"""
    def visit_FunctionDef(self, node):
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(node)) or \
           any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'eval', 'exec') for x in ast.walk(node)):
            return node
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for x in ast.walk(node) if x is not node):
            return node
        args = {x.arg for x in node.args.args + node.args.kwonlyargs}
        if node.args.vararg: args.add(node.args.vararg.arg)
        if node.args.kwarg: args.add(node.args.kwarg.arg)
        loc = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} - args
        for x in ast.walk(node):
            if isinstance(x, ast.ExceptHandler) and x.name: loc.discard(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names: loc.discard((al.asname or al.name).split('.')[0])
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_'
        return node


class Len(T):
    """len(x)==0 -> not len(x); x!=y -> not x==y"""
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.NotEq):
            return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [ast.Eq()], node.comparators))
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [ast.In()], node.comparators))
        return node


class Aug(T):
    """x += 1 -> x = x + 1 for names with number constants, x[i] += e -> x[i] = x[i] + e"""
    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Sub)) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, (int, float)) \
                and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], ast.BinOp(ast.Name(node.target.id, ast.Load()), node.op, node.value))
        return node


class Try(T):
    """with a statement that does nothing first"""
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        k = 1 if ast.get_docstring(node) is not None else 0
        node.body.insert(k, ast.parse('_unused = None').body[0])
        return node


KINDS = dict(negif=NegIf, swap=Swap, cond=Cond, ret=Ret, **{'while': While}, iter=ListFor, comp=Comp, impl=Impl, rename=Rename, neq=Len, aug=Aug, noop=Try)


def main():
    kinds = sys.argv[1].split(',')
    if kinds == ['all']:
        kinds = list(KINDS)
    ids = sys.argv[2:] or ['C%02d' % i for i in range(1, 36)]
    d = tempfile.mkdtemp(prefix='refac')
    repo = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        for root, _, files in os.walk(os.path.join(repo, 'pymnet')):
            if 'tests' in root or 'benchmarks' in root:
                continue
            for f in files:
                if f.endswith('.py'):
                    p = os.path.join(root, f)
                    t = ast.parse(open(p).read())
                    for k in kinds:
                        t = KINDS[k]().visit(t)
                    ast.fix_missing_locations(t)
                    open(p, 'w').write(ast.unparse(t) + '\n')
        if os.environ.get('ONLYTEST'):
            print(repo)
            subprocess.run('cd %s && /opt/venv/bin/python -m pytest -q pymnet/tests/net_test.py pymnet/tests/transforms_test.py pymnet/tests/models_test.py pymnet/tests/isomorphisms_test.py pymnet/tests/cc_test.py pymnet/tests/io_test.py pymnet/tests/visuals_test.py pymnet/tests/nxwrap_test.py pymnet/tests/diagnostics_test.py 2>&1 | tail -1' % repo, shell=True)
            return
        for i in ids:
            env = dict(os.environ, SYMX_REPO=repo)
            r = subprocess.run([os.path.join(HERE, 'check'), i], env=env, capture_output=True, text=True)
            out = r.stdout.strip().splitlines()
            print(i, 'rc=%d' % r.returncode, out[0][:170] if out else r.stderr[-300:], flush=True)
            if r.returncode:
                print('\n'.join('      ' + x[:300] for x in out[1:12]), flush=True)
            else:
                for x in out[1:]:
                    if 'inconclusive' in x or 'vacuous' in x or 'not exhausted' in x:
                        print('      ' + x[:200], flush=True)
    finally:
        shutil.rmtree(d)


main()
