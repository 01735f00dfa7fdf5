"""A clock the checks can stop.  Installed before anything of IKBT is imported, so that it is found whichever clock the
code reads, and however it imports it."""
import time

_now = None      # the virtual clock in use: an object with time()
_REAL = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'time_ns', 'monotonic_ns',
                                       'perf_counter_ns', 'process_time_ns')}


def _make(name, real):
    if name.endswith('_ns'):
        return lambda: real() if _now is None else int(round(_now.time() * 1e9))
    return lambda: real() if _now is None else _now.time()


def install():
    for n, f in _REAL.items():
        setattr(time, n, _make(n, f))


class running:
    """with running(clock): every clock shows clock.time()"""

    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        global _now
        self.old, _now = _now, self.clock

    def __exit__(self, *a):
        global _now
        _now = self.old
