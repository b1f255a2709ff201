"""Import hook of the symbolic processes: beluga modules are read from /repo, rewritten and executed."""
import sys, os, importlib.abc, importlib.util, types

REPO = os.environ.get('BELV_REPO', '/repo')
LOADED = {}


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg, full):
        self.path, self.is_pkg, self.full = path, is_pkg, full

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        from . import rewrite, rt
        with open(self.path, encoding='utf8') as f:
            src = f.read()
        code = rewrite.rewrite(src, self.path, mod.__name__, self.full)
        mod.__dict__['bv__'] = rt.BVNS
        exec(code, mod.__dict__)
        LOADED[mod.__name__] = self.path


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, full):
        self.full = full

    def find_spec(self, name, path, target=None):
        if name != 'beluga' and not name.startswith('beluga.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(base + '/__init__.py'):
            p, pkg = base + '/__init__.py', True
        elif os.path.exists(base + '.py'):
            p, pkg = base + '.py', False
        else:
            return None
        spec = importlib.util.spec_from_file_location(
            name, p, loader=Loader(p, pkg, self.full), submodule_search_locations=[base] if pkg else None)
        return spec


def stub_numba():
    """numba's decorators become the identity: the Python source itself is executed"""
    import numba

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and isinstance(a[0], types.FunctionType):
            return a[0]
        return lambda f: f
    for n in ('njit', 'jit', 'vectorize', 'generated_jit'):
        if hasattr(numba, n):
            setattr(numba, n, njit)


def install(full):
    stub_numba()
    sys.meta_path.insert(0, Finder(full))
