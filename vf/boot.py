"""Process set-up shared by every check: interpreter paths, a private bytecode
cache, a stand-in for the one missing third-party module, and the monitor that
records which functions of /repo the symbolic execution really ran."""
import logging
import os
import sys
import tempfile
import types
import warnings

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/opt/mplconfig")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

_tmp = None


def setup():
    """Import paths: /repo first (always the working tree), z3/cvc5 last."""
    global _tmp
    if _tmp is not None:
        return
    sys.dont_write_bytecode = True
    _tmp = tempfile.mkdtemp(prefix="vf_pyc_")
    sys.pycache_prefix = _tmp  # never read a stale .pyc lying in /repo
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    for cand in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        if cand not in sys.path:
            sys.path.append(cand)
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)  # the code's progress reports
    from . import hooks
    hooks.install()
    if "erised" not in sys.modules:
        try:
            import erised  # noqa: F401
        except Exception:
            _stub_erised()


def cleanup():
    global _tmp
    if _tmp and os.path.isdir(_tmp) and os.path.basename(_tmp).startswith("vf_pyc_"):
        try:
            os.rmdir(_tmp)
        except OSError:
            pass


def _stub_erised():
    """`erised` (remote-process proxies) is not installed in the sandbox.  The
    stand-in runs the wrapped object in-process, which is all the distributed
    methods need from it."""
    erised = types.ModuleType("erised")
    sub = types.ModuleType("erised.proxy")
    fut = types.ModuleType("erised.future")

    class Future:
        def __init__(self, value=None):
            self._v = value

        def get(self, timeout=None):
            return self._v

        result = get

    class LocalConnector:
        pass

    class Attribute:
        """A (nested) attribute of the remote object: callable, readable, settable."""

        def __init__(self, owner, name):
            object.__setattr__(self, "_get", lambda: getattr(owner(), name))

        def __getattr__(self, n):
            return Attribute(object.__getattribute__(self, "_get"), n)

        def __setattr__(self, n, v):
            setattr(object.__getattribute__(self, "_get")(), n, v)

        def __call__(self, *a, **k):
            return Future(object.__getattribute__(self, "_get")()(*a, **k))

        def retrieve(self):
            return Future(object.__getattribute__(self, "_get")())

    class Proxy:
        def __init__(self, obj=None, local=True, **kw):
            object.__setattr__(self, "_obj", obj)

        def __getattr__(self, n):
            return Attribute(lambda: object.__getattribute__(self, "_obj"), n)

        def __setattr__(self, n, v):
            setattr(object.__getattribute__(self, "_obj"), n, v)

        def retrieve(self):
            return Future(object.__getattribute__(self, "_obj"))

        def wait_all_futures(self):
            pass

        def terminate(self):
            pass

    erised.Proxy = sub.Proxy = Proxy
    erised.Future = fut.Future = Future
    erised.LocalConnector = LocalConnector
    for name, mod in (("erised", erised), ("erised.proxy", sub), ("erised.future", fut)):
        sys.modules[name] = mod
    erised.proxy = sub
    erised.future = fut


class Monitor:
    """Records the /repo functions entered (sys.monitoring, one event each)."""

    TOOL = 4

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        root = os.path.join(REPO, "yaocptool") + os.sep

        def start(code, _off):
            fn = code.co_filename
            if fn.startswith(root):
                self.seen.add(fn[len(REPO) + 1:] + ":" + code.co_qualname)
            return mon.DISABLE

        try:
            mon.use_tool_id(self.TOOL, "vf")
            self._own = True
        except ValueError:
            self._own = False
            return self
        mon.register_callback(self.TOOL, mon.events.PY_START, start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        if self._own:
            mon = sys.monitoring
            mon.set_events(self.TOOL, 0)
            mon.free_tool_id(self.TOOL)
        return False
