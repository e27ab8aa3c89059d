"""Loads two instances of the package from the current source tree:
   real()  - the package as users import it (real numpy/scipy)          -> replay of counterexamples
   twin()  - the same source text, executed against the symbolic numpy  -> symbolic execution
Every call re-executes the package, so no path or replay sees state another one left behind.
"""
import os, sys, types, builtins, importlib, functools
REPO = os.environ.get('DWT_REPO', '/repo')
PKG = 'deltares_wave_toolbox'
TWIN = 'dwt_twin'
REAL = 'dwt_real'
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')

_real_import = builtins.__import__
_shims = None
_dummies = {}
_code = {}


def _dummy(name):
    import symnp
    if name not in _dummies:
        _dummies[name] = symnp.PyPlot() if name == 'matplotlib.pyplot' else symnp.Dummy(name)
        if '.' in name:
            p, c = name.rsplit('.', 1)
            setattr(_dummy(p), c, _dummies[name])
    return _dummies[name]


def _pkg_import(top):
    """__import__ that maps the package name to instance `top`"""
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            return _real_import(name, globals, locals, fromlist, level)
        first = name.split('.')[0]
        if first == PKG:
            m = importlib.import_module(top + name[len(PKG):])
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            importlib.import_module(m.__name__ + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return sys.modules[top]
        if top.startswith(TWIN):
            if first == 'matplotlib':
                _dummy('matplotlib.pyplot')
                d = _dummy(name)
                return d if fromlist else _dummy('matplotlib')
            if name in _shims:
                return _shims[name] if fromlist else _shims[first]
        return _real_import(name, globals, locals, fromlist, level)
    return imp


class Finder:
    """finds and executes dwt_twin.* / dwt_real.* from the package's source files"""

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in (TWIN, REAL, TWIN + '_b', REAL + '_b'):
            return None
        rel = name[len(top):].replace('.', '/')
        base = f'{REPO}/{PKG}{rel}'
        if os.path.isdir(base):
            f, pkg = base + '/__init__.py', True
        else:
            f, pkg = base + '.py', False
        if not os.path.exists(f):
            if not pkg:
                return None
            f = None
        import importlib.util
        s = importlib.util.spec_from_loader(name, self, origin=f or base, is_package=pkg)
        s.loader_state = f
        if pkg:
            s.submodule_search_locations = [base]
        return s

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.loader_state
        if f is None:
            return
        module.__file__ = f
        if f not in _code:
            _code[f] = compile(open(f, encoding='utf-8').read(), f, 'exec')
        top = module.__name__.split('.')[0]
        b = types.ModuleType('builtins')
        b.__dict__.update(builtins.__dict__)
        b.__import__ = _pkg_import(top)
        if top.startswith(TWIN):
            import symnp
            b.float = symnp.FloatT
            b.complex = symnp.ComplexT
            b.range = sym_range
            b.int = sym_int
            b.sum = sym_sum
        module.__dict__['__builtins__'] = b.__dict__
        exec(_code[f], module.__dict__)


class IntMeta(type):
    def __instancecheck__(cls, x):
        from symeng import SymInt
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, int)

    def __call__(cls, x=0, *a):
        return int(x, *a) if a else int(x)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class sym_int(metaclass=IntMeta):
    from_bytes = int.from_bytes


def sym_range(*a):
    return range(*[x.__index__() if not isinstance(x, int) else x for x in a])


def sym_sum(it, start=0):
    import symnp
    if isinstance(it, symnp.SymArray) and it.ndim == 1 and start == 0 and len(it):
        return symnp.npval(symnp.lsum(list(symnp.raw(it))))
    return sum(it, start)


class Mods:
    """uniform access to the modules of one instance"""

    def __init__(self, top):
        g = lambda n: importlib.import_module(top + n)
        self.pkg = g('')
        self.time = g('.cores.core_time')
        self.spec = g('.cores.core_spectral')
        self.wf = g('.cores.core_wavefunctions')
        self.eng = g('.cores.core_engine')
        self.disp = g('.cores.core_dispersion')
        self.dec = g('.cores.core_wave_decomposition')
        self.series = g('.series')
        self.spectrum = g('.spectrum')


def _load(top):
    for k in [k for k in sys.modules if k == top or k.startswith(top + '.')]:
        del sys.modules[k]
    return Mods(top)


def _install():
    global _shims
    if _shims is None:
        import symnp
        _shims = symnp.build_shims()
        sys.meta_path.insert(0, Finder())


def twin(second=''):
    """fresh symbolic instance; '_b': next to the first one"""
    _install()
    return _load(TWIN + second)


def real(second=''):
    """fresh real instance"""
    _install()
    return _load(REAL + second)


def source_digest():
    import hashlib
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(f'{REPO}/{PKG}')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(f.encode() + open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:16]
