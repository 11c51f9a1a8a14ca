"""
Imports the lgr package from /repo's working tree.

`load(symbolic=True)` compiles every module from source through a small AST rewrite which only
routes operations that C code would otherwise perform on machine values (`%` and f-string
formatting, `in`, and a few str methods) through helpers in `symex.ops`; for concrete values
those helpers perform the original operation.  Builtins such as isinstance, int, chr, range
are shadowed in the module namespaces for the same reason.  `load(symbolic=False)` imports the
unmodified modules (used for replay).
"""
import ast
import importlib.abc
import importlib.util
import logging
import os
import sys

REPO = os.environ.get('LGR_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'

STR_METHODS = {'format', 'join', 'split', 'rsplit', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'find',
               'index', 'count', 'replace', 'partition', 'rpartition', 'splitlines', 'rfind', 'rindex', 'removeprefix',
               'removesuffix', 'ljust', 'rjust'}


class Rewriter(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__sx_mod__', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name('__sx_fstr__', ast.Load()), parts, []), node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.slice, (ast.Name, ast.Attribute)):
            return ast.copy_location(ast.Call(ast.Name('__sx_item__', ast.Load()), [node.value, node.slice], []), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(ast.Name('__sx_in__', ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.Call(ast.Name('__sx_not__', ast.Load()), [call], [])
            return ast.copy_location(call, node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS:
            return ast.copy_location(
                ast.Call(ast.Name('__sx_strcall__', ast.Load()),
                         [f.value, ast.Constant(f.attr)] + node.args, node.keywords), node)
        return node


class Loader(importlib.abc.SourceLoader):
    def __init__(self, path, is_pkg, symbolic):
        self.path, self.is_pkg, self.symbolic = path, is_pkg, symbolic

    def get_filename(self, name):
        return self.path

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def is_package(self, fullname):
        return self.is_pkg

    def path_stats(self, path):
        raise OSError          # never use or write byte code files

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        if self.symbolic:
            tree = ast.fix_missing_locations(Rewriter().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        if self.symbolic:
            from symex import ops
            module.__dict__.update(ops.BUILTINS)
        super().exec_module(module)
        if self.symbolic:
            from symex import ops
            ops.patch_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, symbolic):
        self.symbolic = symbolic

    def find_spec(self, fullname, path, target=None):
        if fullname != 'lgr' and not fullname.startswith('lgr.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base):
            fn = os.path.join(base, '__init__.py')
            if not os.path.exists(fn):
                return None
            spec = importlib.util.spec_from_file_location(fullname, fn, loader=Loader(fn, True, self.symbolic),
                                                          submodule_search_locations=[base])
            return spec
        fn = base + '.py'
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(fullname, fn, loader=Loader(fn, False, self.symbolic))
        return None


_loaded = None


def load(symbolic):
    """Install the finder; importing lgr.* afterwards gives fresh modules from /repo."""
    global _loaded
    if _loaded is not None:
        assert _loaded == symbolic
        return
    sys.dont_write_bytecode = True
    for name in [m for m in sys.modules if m == 'lgr' or m.startswith('lgr.')]:
        del sys.modules[name]
    sys.meta_path.insert(0, Finder(symbolic))
    if SITE not in sys.path:
        sys.path.append(SITE)
    logging.disable(logging.CRITICAL)
    _loaded = symbolic


# ------------------------------------------------------------------ module state between paths
def snapshot():
    """Remember module level containers so that one path's mutations do not leak into the next."""
    snap = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == 'lgr' or name.startswith('lgr.')):
            continue
        for k, v in list(mod.__dict__.items()):
            if k.startswith('__'):
                continue
            if type(v) in (list, dict, set):
                snap.append((v, v.copy()))
            elif isinstance(v, type) and getattr(v, '__module__', None) == name:
                for ck, cv in list(vars(v).items()):
                    if not ck.startswith('__') and type(cv) in (list, dict, set):
                        snap.append((cv, cv.copy()))
    return snap


def restore(snap):
    for obj, saved in snap:
        if obj != saved if not isinstance(obj, list) else (len(obj) != len(saved) or any(a is not b for a, b in zip(obj, saved))):
            if isinstance(obj, list):
                obj[:] = saved
            else:
                obj.clear()
                obj.update(saved)
