"""Imports the code under test (from the working tree, never from a bytecode cache) and its
dependencies into this process, with the seams that have to be in place before the import."""
import importlib
import importlib.machinery
import os
import pkgutil
import sys
import types
import zlib

SRC = os.path.realpath(os.environ.get("CQCAM_SRC", "/repo/src")) + "/"
VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PKG = SRC + "cq_cam/"
booted = False


def is_target(filename):
    return filename.startswith(PKG) and "/tests/" not in filename


def boot():
    global booted
    if booted:
        return
    booted = True
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") + "/" != "/repo/src/"]
    sys.path.insert(0, os.path.join(VERIF, "stubs"))
    sys.path.insert(0, SRC.rstrip("/"))

    # always compile the working tree's text
    loader = importlib.machinery.SourceFileLoader
    orig = loader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path.startswith(SRC):
            return self.source_to_code(self.get_data(path), path)
        return orig(self, fullname)

    loader.get_code = get_code
    importlib.invalidate_caches()

    import cadquery as cq

    # OCCT boolean operations would start a thread pool the simulator does not schedule
    cq.Shape._bool_op.__defaults__ = tuple(
        False if d is True else d for d in (cq.Shape._bool_op.__defaults__ or ()))

    from OCP.Quantity import Quantity_Color, Quantity_TOC_RGB

    ed = types.ModuleType("cq_editor")
    ed.__path__ = []
    cu = types.ModuleType("cq_editor.cq_utils")

    def to_occ_color(c):
        i = zlib.crc32(str(c).encode())
        return Quantity_Color((i % 7) / 7.0, (i % 11) / 11.0, (i % 13) / 13.0, Quantity_TOC_RGB)

    cu.to_occ_color = to_occ_color
    ed.cq_utils = cu
    sys.modules["cq_editor"] = ed
    sys.modules["cq_editor.cq_utils"] = cu

    import cq_cam

    if not os.path.realpath(cq_cam.__file__).startswith(SRC):
        raise SystemExit("cq_cam was not imported from " + SRC)
    for m in pkgutil.walk_packages(cq_cam.__path__, "cq_cam."):
        if ".tests" in m.name or m.name.endswith("conftest"):
            continue
        importlib.import_module(m.name)


_guards = {}


def _guarded_lines(fn):
    import ast

    g = _guards.get(fn)
    if g is None:
        g = _guards[fn] = set()
        try:
            tree = ast.parse(open(fn).read())
        except (OSError, SyntaxError):
            return g
        for n in ast.walk(tree):
            # places where a failure may be handled: try bodies, suppress() and other context managers, finally
            if isinstance(n, (ast.Try, ast.With)) or type(n).__name__ == "TryStar":
                body = n.body
                g.update(range(body[0].lineno, body[-1].end_lineno + 1))
    return g


def guarded(frame):
    """Whether an exception raised here could be handled by cq_cam code."""
    while frame is not None:
        fn = frame.f_code.co_filename
        if is_target(fn) and frame.f_lineno in _guarded_lines(fn):
            return True
        frame = frame.f_back
    return False
