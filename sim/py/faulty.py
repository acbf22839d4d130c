"""Makes the numerical packages that the package's Python modules call able to fail."""
import sys, types

import lsst.sphgeom

NAMES = ("numpy", "hpgeom")


class Call:
    """A function of such a package."""

    def __init__(self, f, hit):
        self.__dict__.update(_f=f, _hit=hit)

    def __call__(self, *a, **k):
        self._hit(getattr(self._f, "__name__", "?"))
        return self._f(*a, **k)

    def __getattr__(self, n):
        x = getattr(self._f, n)
        return wrapped(x, self._hit) if isinstance(self._f, type) else x

    # The class that it stands for.
    def __instancecheck__(self, x):
        return isinstance(x, self._f)

    def __subclasscheck__(self, t):
        return issubclass(t, self._f)


class Module:
    def __init__(self, m, hit):
        self.__dict__.update(_m=m, _hit=hit)

    def __getattr__(self, n):
        return wrapped(getattr(self._m, n), self._hit)


def wrapped(x, hit):
    if isinstance(x, types.ModuleType):
        return Module(x, hit) if x.__name__.split(".")[0] in NAMES else x
    if callable(x) and not isinstance(x, type):
        return Call(x, hit)
    return x


def install(hit, classes=False):
    """`hit(name)` runs before every call of numpy or hpgeom (and of one of the
    library's own classes) from a module of the package; it may raise."""
    n = 0
    for name, m in list(sys.modules.items()):
        if name.startswith("lsst.sphgeom.") and getattr(m, "__file__", "").endswith(".py"):
            for k, x in list(vars(m).items()):
                if isinstance(x, types.ModuleType) and x.__name__.split(".")[0] in NAMES or (isinstance(x, types.FunctionType) and (x.__module__ or "").split(".")[0] in NAMES):
                    setattr(m, k, wrapped(x, hit))
                    n += 1
                elif classes and isinstance(x, type) and x.__module__ == "lsst.sphgeom._sphgeom":
                    setattr(m, k, Call(x, hit))
                    n += 1
    return n
