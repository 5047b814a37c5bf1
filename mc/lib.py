"""What the explorations share inside a worker process: the recorder.

A worker explores one job of one property in one configuration of the code
under test.  It reports to the driver through a result file and through a
small shared file that holds the current case, so that a crash or a hang of
the interpreter can be attributed to the case that caused it.
"""
import collections
import hashlib
import json
import mmap
import os
import struct
import traceback

BEACON_SIZE = 1 << 16


class Stop(Exception):
    """Enough violations: end this job."""


class Beacon:
    """progress counter and current case, readable by the driver."""

    def __init__(self, path):
        self.n = 0
        self.mem = None
        if path:
            fd = os.open(path, os.O_RDWR | os.O_CREAT)
            os.ftruncate(fd, BEACON_SIZE)
            self.mem = mmap.mmap(fd, BEACON_SIZE)
            os.close(fd)

    def set(self, case):
        self.n += 1
        if self.mem is None:
            return
        b = json.dumps(case).encode()[:BEACON_SIZE - 16]
        self.mem[0:16] = struct.pack('QQ', self.n, len(b))
        self.mem[16:16 + len(b)] = b

    @staticmethod
    def read(path):
        try:
            with open(path, 'rb') as f:
                data = f.read()
            n, size = struct.unpack('QQ', data[:16])
            return n, (json.loads(data[16:16 + size]) if size else None)
        except (OSError, ValueError, struct.error):
            return 0, None


class Rec:
    MAX_VIOLATIONS = int(os.environ.get('VERIF_MAXV') or 3)
    MAX_SAMPLES = 3

    def __init__(self, job, beacon=None, replaying=False):
        self.job = job
        self.beacon = beacon or Beacon(None)
        self.replaying = replaying
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.extra = {}
        self.current = None
        self.capped = None

    # exploration bookkeeping

    def case(self, case):
        """The next execution starts: *case* must suffice to repeat it."""
        self.current = case
        self.beacon.set(case)

    def alive(self):
        self.beacon.set(self.current)

    def state(self, key):
        """Note a state; true if it is new."""
        k = key if isinstance(key, (str, bytes, int)) else repr(key)
        h = hashlib.blake2b(k.encode('utf-8', 'surrogatepass')
                            if isinstance(k, str) else
                            repr(k).encode(), digest_size=12).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, outcome=None, sample=None):
        """An execution was completed and compared with its oracle."""
        self.traces += 1
        if outcome is not None:
            self.outcomes[str(outcome)] += 1
        if sample is not None and len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(sample)

    def violation(self, msg, case=None, fingerprint=None):
        case = self.current if case is None else case
        self.violations.append(dict(
            case=case, message=msg, job=self.job,
            fingerprint=fingerprint or msg))
        known = sum(1 for v in self.violations
                    if v['fingerprint'] in self.job.get('known', ()))
        if len(self.violations) - known >= self.MAX_VIOLATIONS:
            raise Stop()

    def result(self):
        return dict(
            job={k: v for k, v in self.job.items() if k != 'known'},
            states=len(self.states), transitions=self.transitions,
            traces=self.traces, outcomes=dict(self.outcomes),
            samples=self.samples, violations=self.violations,
            extra=self.extra, capped=self.capped)


def describe_exception(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))


def shard(items, job):
    """The items of this job's shard (n-th of m), in order."""
    n, m = job.get('shard', (0, 1))
    for i, item in enumerate(items):
        if i % m == n:
            yield item


def shards(m, **kw):
    return [dict(kw, shard=(i, m)) for i in range(m)]


MODES = {
    'c': {'PURE_PYTHON': '0'},
    'cdebug': {'PURE_PYTHON': '0', 'PYTHONMALLOC': 'debug'},
    'pure': {'PURE_PYTHON': '1'},
    'watch': {'PURE_PYTHON': '0', 'ZOPE_WATCH_CHECKERS': '1'},
    'watch2': {'PURE_PYTHON': '0', 'ZOPE_WATCH_CHECKERS': '2'},
    'purewatch': {'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': '1'},
    'purewatch2': {'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': '2'},
}
