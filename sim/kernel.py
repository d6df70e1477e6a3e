"""The kernel seam: calls from cq_cam into cadquery, OCP, pyclipper and shapely are counted and the
k-th can be made to fail the way that kernel fails."""
import functools
import inspect
import sys

from .boot import guarded, is_target


class K:
    count = 0
    at = -1
    exc = None
    trace = None
    fired = None
    name = None
    hits = 0
    installed = False
    lines = None  # AIS_Line objects made: id -> (object, arguments)


def _hit(name):
    k = K.count
    K.count += 1
    if K.trace is not None:
        K.trace.append(name)
        K.guarded.append(guarded(sys._getframe(2)))
    if k == K.at or (K.name is not None and k > K.at >= 0 and name == K.name):
        if K.name is None:
            K.at = -1
        K.fired = name
        K.hits += 1
        raise K.exc


_mine = {}


def _from_target(depth=2):
    f = sys._getframe(depth).f_code.co_filename
    t = _mine.get(f)
    if t is None:
        t = _mine[f] = is_target(f)
    return t


def _wrap(name, fn):
    @functools.wraps(fn)
    def w(*a, **kw):
        if (K.at >= 0 or K.trace is not None) and _from_target():
            _hit(name)
        return fn(*a, **kw)

    return w


class Proxy:
    """Stands for an OCP class in a cq_cam module."""

    def __init__(self, name, cls):
        self.__dict__["_n"], self.__dict__["_c"] = name, cls

    def __call__(self, *a, **kw):
        if (K.at >= 0 or K.trace is not None) and _from_target():
            _hit(self._n)
        o = self._c(*a, **kw)
        if K.lines is not None and self._n == "OCP.AIS_Line":
            K.lines[id(o)] = (o, a)  # the class does not tell its end points
        return o

    def __getattr__(self, k):
        v = getattr(self._c, k)
        if callable(v) and not inspect.isclass(v):
            return _wrap(f"{self._n}.{k}", v)
        return v

    def __or__(self, o):
        return self._c | o

    def __ror__(self, o):
        return o | self._c

    def __instancecheck__(self, o):
        return isinstance(o, self._c)

    def __mro_entries__(self, bases):
        return (self._c,)


SKIP = {"__init_subclass__", "cast", "hashCode", "isSame", "isEqual", "isNull", "ShapeType", "toTuple"}


def install():
    if K.installed:
        return
    K.installed = True
    import cadquery as cq
    from cadquery.occ_impl import shapes as sh
    from cadquery.occ_impl.geom import BoundBox

    for cls in (sh.Shape, sh.Mixin1D, sh.Mixin3D, sh.Vertex, sh.Edge, sh.Wire, sh.Face, sh.Shell, sh.Solid,
                sh.Compound, cq.Workplane):
        for n, v in list(vars(cls).items()):
            if n.startswith("_") and n != "_geomAdaptor" or n in SKIP:
                continue
            q = f"{cls.__name__}.{n}"
            if isinstance(v, classmethod):
                setattr(cls, n, classmethod(_wrap(q, v.__func__)))
            elif isinstance(v, staticmethod):
                setattr(cls, n, staticmethod(_wrap(q, v.__func__)))
            elif inspect.isfunction(v):
                setattr(cls, n, _wrap(q, v))

    import pyclipper

    for n in ("scale_to_clipper", "scale_from_clipper", "CleanPolygons", "CleanPolygon", "SimplifyPolygon",
              "SimplifyPolygons", "OpenPathsFromPolyTree", "ClosedPathsFromPolyTree", "PolyTreeToPaths",
              "Area", "Orientation", "PointInPolygon", "ReversePath"):
        if hasattr(pyclipper, n):
            setattr(pyclipper, n, _wrap("pyclipper." + n, getattr(pyclipper, n)))

    def sub(base):
        d = {}
        for n in ("AddPath", "AddPaths", "Execute", "Execute2", "Clear", "GetBounds"):
            if hasattr(base, n):
                def mk(n=n, fn=getattr(base, n)):
                    q = f"pyclipper.{base.__name__}.{n}"

                    def m(self, *a, **kw):
                        if (K.at >= 0 or K.trace is not None) and _from_target():
                            _hit(q)
                        return fn(self, *a, **kw)

                    m.__name__ = n
                    return m

                d[n] = mk()
        return type(base.__name__, (base,), d)

    pyclipper.Pyclipper = sub(pyclipper.Pyclipper)
    pyclipper.PyclipperOffset = sub(pyclipper.PyclipperOffset)

    import shapely

    for n in ("contains", "within", "covers", "intersects", "intersection", "difference", "union", "buffer"):
        for cls in (shapely.Polygon.__mro__[1], shapely.Polygon.__mro__[2]):
            if n in vars(cls):
                setattr(cls, n, _wrap("shapely." + n, vars(cls)[n]))
                break


def install_modules():
    """After cq_cam has been imported: its references to OCP classes."""
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] != "cq_cam" or not getattr(mod, "__file__", None) or not is_target(mod.__file__):
            continue
        for k, v in list(vars(mod).items()):
            if inspect.isclass(v) and (v.__module__ or "").startswith("OCP."):
                if v.__module__ in ("OCP.TopAbs", "OCP.StdFail", "OCP.Standard") or hasattr(v, "__members__") \
                        or issubclass(v, BaseException):
                    continue
                setattr(mod, k, Proxy("OCP." + v.__name__, v))


def kinds(name):
    """The exceptions a failing kernel call of this name raises."""
    if name.startswith("pyclipper."):
        return ["ClipperException", "MemoryError"]
    if name.startswith("shapely"):
        return ["GEOSException", "MemoryError"]
    return ["ValueError", "StdFail_NotDone", "RuntimeError", "Standard_Failure", "MemoryError"]


def make(kind, msg):
    if kind == "ClipperException":
        import pyclipper
        return pyclipper.ClipperException(msg)
    if kind == "GEOSException":
        import shapely
        return shapely.errors.GEOSException(msg)
    if kind == "StdFail_NotDone":
        from OCP.StdFail import StdFail_NotDone
        return StdFail_NotDone(msg)
    if kind == "Standard_Failure":
        from OCP.Standard import Standard_Failure
        return Standard_Failure(msg)
    if kind == "KeyboardInterrupt":
        return KeyboardInterrupt(msg)
    return {"ValueError": ValueError, "RuntimeError": RuntimeError, "MemoryError": MemoryError,
            "SystemExit": SystemExit, "OSError": OSError}[kind](msg)


class window:
    def __init__(self, at=-1, exc=None, trace=False, name=None):
        self.at, self.exc, self.trace, self.name = at, exc, trace, name

    def __enter__(self):
        K.count, K.at, K.exc, K.fired, K.name, K.hits = 0, self.at, self.exc, None, self.name, 0
        K.trace = [] if self.trace else None
        K.guarded = []
        return self

    def __exit__(self, *a):
        self.guarded = K.guarded
        self.calls, self.count, self.fired, self.hits = K.trace, K.count, K.fired, K.hits
        K.trace, K.at, K.name = None, -1, None
        return False
