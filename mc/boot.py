"""Loads the code under test on top of the controlled primitives."""
import os
import sys
import tempfile

REPO = os.path.abspath(os.environ.get("MC_REPO", "/repo"))
_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    # never run stale bytecode of the code under test
    sys.pycache_prefix = tempfile.gettempdir() + "/mc-no-pycache-%d" % os.getpid()
    import warnings
    warnings.simplefilter("ignore")
    import asyncio, concurrent.futures, concurrent.futures.thread, queue, socketserver, selectors  # noqa
    import http.client, urllib.request  # noqa
    from . import explore   # captures the real primitives  # noqa
    from . import sched, vsock, http, vloop
    import requests, six, attr, opentracing  # noqa
    import logging
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    sys.modules["uvloop"] = None
    sched.install()
    vsock.install()
    http.install()
    sched.REPO_PREFIX[:] = [REPO + os.sep]
    sys.path.insert(0, REPO)
    asyncio.set_event_loop_policy(vloop.VPolicy())
    try:
        import anthunder, mysockpool, mytracer   # noqa
        import anthunder.mesh.mesh_client        # noqa
        import mysockpool.utils                  # noqa
    except BaseException as e:
        import traceback
        traceback.print_exc()
        raise RepoBroken("the code under test cannot be imported: %r" % (e,))
    for m in (anthunder, mysockpool, mytracer):
        if not os.path.abspath(m.__file__).startswith(REPO + os.sep):
            raise RepoBroken("%s was not imported from %s" % (m.__name__, REPO))
    asyncio.set_event_loop_policy(vloop.VPolicy())
    # a chatty print in the code under test must not mix with our own lines
    _snapshot()


class RepoBroken(Exception):
    pass


# ---- process-global state of the code under test, put back before every execution ----------------------------
_saved = []
_ITER = ("itertools", "range_iterator", "list_iterator", "tuple_iterator", "count", "cycle", "chain")


def _repo_modules():
    for name, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if f and os.path.abspath(f).startswith(REPO + os.sep):
            yield m


def _snapshot():
    import collections
    import copy
    import types
    seen = {}

    def is_iter(v):
        return type(v).__module__ in ("itertools",) or type(v).__name__ in _ITER

    def visit_ns(holder, ns, depth):
        for k, v in list(ns.items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            if isinstance(v, (dict, list, set, collections.deque)):
                if id(v) in seen:
                    continue
                seen[id(v)] = v
                _saved.append(("cont", v, copy.copy(v) if not isinstance(v, dict) else dict(v.items())))
            elif v is None or isinstance(v, (int, str, bytes, float, tuple)):
                _saved.append(("attr", holder, k, v))
            elif is_iter(v):
                if id(v) not in seen:
                    try:
                        seen[id(v)] = copy.deepcopy(v)
                    except Exception:
                        seen[id(v)] = None
                if seen[id(v)] is not None:
                    _saved.append(("iter", holder, k, seen[id(v)]))
            elif isinstance(v, type):
                if v.__module__ and v.__module__ in names and id(v) not in seen:
                    seen[id(v)] = v
                    visit_ns(v, vars(v), depth)
            elif isinstance(v, types.ModuleType) or callable(v) and not hasattr(v, "__dict__"):
                pass
            elif getattr(type(v), "__module__", None) in names and depth < 2 and hasattr(v, "__dict__"):
                if id(v) not in seen:
                    seen[id(v)] = v
                    visit_ns(v, vars(v), depth + 1)
    mods = list(_repo_modules())
    names = set(m.__name__ for m in mods)
    for m in mods:
        visit_ns(m, vars(m), 0)


_iter_memo = {}


def reset():
    """Put the process-global state of the code under test back to what it was after import."""
    import copy
    memo = {}
    for e in _saved:
        try:
            if e[0] == "cont":
                _, obj, val = e
                if isinstance(obj, dict):
                    if dict.__ne__(obj, val) or list(dict.keys(obj)) != list(val):
                        dict.clear(obj)
                        dict.update(obj, val)
                elif obj != val:
                    if isinstance(obj, set):
                        set.clear(obj)
                        set.update(obj, val)
                    else:
                        obj.clear()
                        obj.extend(val)
            elif e[0] == "attr":
                _, h, k, v = e
                cur = vars(h).get(k, e)
                if cur is not v and cur is not e:
                    setattr(h, k, v)
            else:
                _, h, k, v = e
                n = memo.get(id(v))
                if n is None:
                    n = memo[id(v)] = copy.deepcopy(v)
                setattr(h, k, n)
        except Exception:
            pass
