"""Places in the library where a thread may stop.

install() has to be called before infi.instruct is imported: its modules are then compiled, from /repo's current
sources, with a call of point() before every statement and after every call.  Nothing else is changed.
"""
import ast
import importlib.machinery
import sys
import threading

KINDS = []          # of every place: 'enter' (first statement of a function), 'line' or 'call'
current = None      # the Places that count, if any


def point(i, value=None):
    p = current
    if p is not None:
        p.hit(i)
    return value


class Instrument(ast.NodeTransformer):
    def place(self, kind, node, value=None):
        KINDS.append(kind)
        call = ast.Call(ast.Name('__mc_point__', ast.Load()), [ast.Constant(len(KINDS) - 1, None)] + ([value] if value is not None else []), [])
        return ast.fix_missing_locations(ast.copy_location(call, node))

    def block(self, body, kind='line'):
        out = []
        for k, s in enumerate(body):
            docstring = k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            future = isinstance(s, ast.ImportFrom) and s.module == '__future__'
            if not docstring and not future:
                out.append(ast.copy_location(ast.Expr(self.place(kind, s)), s))
                kind = 'line'
            out.append(s)
        return out

    def generic_visit(self, node):
        ast.NodeTransformer.generic_visit(self, node)
        for name in ('body', 'orelse', 'finalbody'):
            body = getattr(node, name, None)
            if isinstance(body, list) and body and isinstance(body[0], ast.stmt):
                function = isinstance(node, ast.FunctionDef) and name == 'body'
                setattr(node, name, self.block(body, 'enter' if function else 'line'))
        return node

    def visit_Call(self, node):
        ast.NodeTransformer.generic_visit(self, node)
        return self.place('call', node, node)

    def decorators(self, node):
        # Calls there are left alone
        saved, node.decorator_list = node.decorator_list, []
        self.generic_visit(node)
        node.decorator_list = saved
        return node

    visit_FunctionDef = visit_ClassDef = decorators


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = Instrument().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['__mc_point__'] = point
        super(Loader, self).exec_module(module)


class Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'infi.instruct' and not name.startswith('infi.instruct.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) == importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if 'infi.instruct' in sys.modules:
        raise RuntimeError("infi.instruct is imported already")
    sys.meta_path.insert(0, Finder)


class Places(object):
    """Calls a function at a place of an operation.

    Places are counted from 0, those of the kinds that are wanted, and each only the first times it is reached."""

    def __init__(self, kinds, most=None):
        self.kinds, self.most = kinds, most
        self.wanted = None
        self.n = 0

    def hit(self, i):
        if threading.get_ident() != self.thread or not self.wanted[i]:
            return
        if self.most:
            c = self.seen[i] = self.seen[i] + 1
            if c > self.most:
                return
        n = self.n
        self.n = n + 1
        if n == self.at:
            stop()
            self.action()

    def run(self, func, at=None, action=None):
        """-> the number of places (all of them if there's nothing to do at one)"""
        global current
        if self.wanted is None:
            self.wanted = [k in self.kinds for k in KINDS]
        self.n, self.seen, self.at, self.action = 0, [0] * len(KINDS), at, action
        self.thread = threading.get_ident()
        current = self
        try:
            func()
        finally:
            if current is self:
                current = None
        return self.n


def stop():
    global current
    current = None
