"""Processes of one check share a fresh numba cache.  This makes them compile one kernel once: whoever comes second to the
same (function, signature) waits for the first and then loads it from the cache.  Saves time only."""
import fcntl
import hashlib
import os
import time


def install():
    d = os.environ.get("NUMBA_CACHE_DIR")
    if not d or os.environ.get("VERIF_NOJITLOCK") or os.environ.get("NUMBA_DISABLE_JIT") == "1":
        return
    try:
        from numba.core.caching import NullCache
        from numba.core.compiler_lock import global_compiler_lock
        from numba.core.dispatcher import Dispatcher

        orig = Dispatcher.compile
    except Exception:  # noqa: BLE001
        return
    locks = os.path.join(d, "locks")
    os.makedirs(locks, exist_ok=True)

    def compile(self, sig):
        if isinstance(self._cache, NullCache):
            return orig(self, sig)
        key = hashlib.sha1(f"{self.py_func.__module__}.{self.py_func.__qualname__}{sig}".encode()).hexdigest()
        with global_compiler_lock:
            f = open(os.path.join(locks, key), "w")
            try:
                t = time.time()
                while time.time() - t < 90:
                    try:
                        fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                        break
                    except OSError:
                        time.sleep(0.02)
                return orig(self, sig)
            finally:
                f.close()

    Dispatcher.compile = compile
