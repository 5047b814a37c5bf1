"""C08: the checker registry always answers from the latest registrations.

All sequences of registry calls up to the bound, and the closure of the
registry's reachable states over fewer values, on the real module; after every
call each probe object is asked for its checker in every way there is and the
answer compared with a reference registry.
"""
import itertools

from mc import checkers
from mc import lib

ASSUMPTIONS = [
    'registered values are checkers, the no-proxy marker, or factories that '
    'end in one of these, in None, or in an exception; basic types are added '
    'and removed by item assignment, item deletion and update',
]


class Boom(Exception):
    pass


class A:
    pass


class B(A):
    pass


class Meta(type):
    pass


class M(metaclass=Meta):
    pass


class Liar:
    """Claims to be an A; the registry goes by the real type."""

    @property
    def __class__(self):
        return A


class SubInt(int):
    pass


class FakeModule:
    pass


# values a key can be defined with: name -> (how selection ends)
VALUES = {
    'K1': 'K1', 'K2': 'K2', 'NoProxy': None, 'f->K1': 'K1', 'f->NoProxy': None,
    'f->None': None, 'f->f->K2': 'K2', 'f->f->NoProxy': None, 'f->boom': 'boom',
    'combined': 'combined', 'f->f->f->combined': 'combined',
    # the restrictive default explicitly, one that is false and equal to
    # everything
    'f->default': 'default', 'odd': 'odd', 'f->odd': 'odd',
}
SMALL = ['K1', 'NoProxy', 'f->f->K2']
KEYS = ['A', 'B', 'list', 'int', 'module', 'Meta', 'type', 'module2']


def actions(values, keys):
    out = []
    for k in keys:
        for v in values:
            out.append(('define', k, v))
        out.append(('undefine', k))
    for k in keys:
        if k in ('A', 'list', 'int'):
            for v in ('K2', 'NoProxy'):
                out.append(('basic', k, v))
            out.append(('unbasic', k))
    out += [('update', 'B', 'K1'), ('define bad', 'int', 'K1'),
            ('define bad', 'none', 'K1'), ('define bad', 'instance', 'K1'),
            ('define bad', 'fake', 'K1'), ('clear',), ('basic clear',),
            ('cleanup',)]
    return out


class Sut:
    world = None

    def __init__(self):
        from zope.testing import cleanup

        from zope.security import checker as zc
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security import proxy as zp
        self.zc, self.zp = zc, zp
        self.cleanup = cleanup.cleanUp
        self.Forbidden = ForbiddenAttribute
        import types
        self.types = types
        self.c_watch = (zc.WATCH_CHECKERS and zp.Proxy is not zp.ProxyPy)
        self.snapshot = dict(zc._checkers)
        self.basic_snapshot = dict(zc.BasicTypes)
        self.keys = {'A': A, 'B': B, 'list': list, 'int': int, 'Meta': Meta,
                     'type': type, 'module': types.ModuleType('m'),
                     'module2': types.ModuleType('m')}
        self.asked = asked = []
        K1 = zc.Checker({'one': zc.CheckerPublic})
        K2 = zc.Checker({'two': zc.CheckerPublic})
        combined = zc.CombinedChecker(K1, K2)

        class Odd(zc.Checker):
            def __bool__(self):
                return False

            def __eq__(self, other):
                return True

            __hash__ = None
        odd = Odd({})
        self.checkers = {'K1': K1, 'K2': K2, 'combined': combined,
                         'default': zc._defaultChecker, 'odd': odd}
        self.boom = Boom()

        def factory(then):
            def f(obj):
                asked.append(obj)
                if then is self.boom:
                    raise then
                return then
            return f
        self.values = {
            'K1': K1, 'K2': K2, 'NoProxy': zc.NoProxy, 'f->K1': factory(K1),
            'f->NoProxy': factory(zc.NoProxy), 'f->None': factory(None),
            'f->f->K2': factory(factory(K2)),
            'f->f->NoProxy': factory(factory(zc.NoProxy)),
            'f->boom': factory(self.boom), 'combined': combined,
            'f->f->f->combined': factory(factory(factory(combined))),
            'f->default': factory(zc._defaultChecker), 'odd': odd,
            'f->odd': factory(odd)}
        self.probes = [
            ('A', A()), ('B', B()), ('list', [1]), ('int', 5), ('Meta', M),
            ('type', A), ('module', self.keys['module']),
            ('module2', self.keys['module2']), (None, Liar()),
            (None, SubInt(3)), (None, FakeModule())]
        self.builtin = {  # what the untouched registry answers
            'list': zc._default_checkers[list],
            'type': zc._default_checkers[type]}
        self.default = zc._defaultChecker
        self.named = zc.selectChecker(types.ModuleType('other'))

    def reset(self):
        zc = self.zc
        dict.clear(zc.BasicTypes)
        dict.update(zc.BasicTypes, self.basic_snapshot)
        zc._checkers.clear()
        zc._checkers.update(self.snapshot)
        del self.asked[:]
        # the model: key -> name of value
        self.reg = {'list': 'builtin', 'type': 'builtin', 'int': 'NoProxy'}
        self.basic = {'int': 'NoProxy'}

    def do(self, action):
        zc = self.zc
        op = action[0]
        key = self.keys.get(action[1]) if len(action) > 1 else None
        try:
            if op == 'define':
                r = zc.defineChecker(key, self.values[action[2]])
            elif op == 'undefine':
                r = zc.undefineChecker(key)
            elif op == 'basic':
                zc.BasicTypes[key] = self.values[action[2]]
                r = None
            elif op == 'update':
                r = zc.BasicTypes.update({key: self.values[action[2]]})
            elif op == 'unbasic':
                r = None
                del zc.BasicTypes[key]
            elif op == 'define bad':
                bad = {'int': 5, 'none': None, 'instance': A(),
                       'fake': FakeModule()}[action[1]]
                r = zc.defineChecker(bad, self.values[action[2]])
            elif op == 'clear':
                r = zc._clear()
            elif op == 'cleanup':
                r = self.cleanup()
            elif op == 'basic clear':
                r = zc.BasicTypes.clear()
            error = None
        except Exception as e:
            error, r = e, None
        if r is not None:
            return 'returned %r' % (r,)
        # the model
        want = None
        k = action[1] if len(action) > 1 else None
        if op == 'define':
            if k in self.reg:
                want = zc.DuplicationError
            else:
                self.reg[k] = action[2]
        elif op == 'undefine':
            if k in self.reg:
                del self.reg[k]
            else:
                want = KeyError
        elif op in ('basic', 'update'):
            self.basic[k] = self.reg[k] = action[2]
        elif op == 'unbasic':
            if k not in self.basic:
                want = KeyError
            elif k not in self.reg:
                want = (KeyError, type(None))   # either answer will do
                del self.basic[k]
            else:
                del self.basic[k], self.reg[k]
        elif op == 'define bad':
            want = TypeError
        elif op in ('clear', 'cleanup'):
            self.reg = {'list': 'builtin', 'type': 'builtin'}
            self.reg.update(self.basic)
        elif op == 'basic clear':
            want = NotImplementedError
        if want is None:
            if error is not None:
                return 'raised %r' % (error,)
        elif not isinstance(error, want):
            return 'expected %r, got %r' % (want, error)
        return None

    def expected(self, key, obj):
        """What selection must give: a checker, None, or the exception; and
        how often factories are asked."""
        v = self.reg.get(key)
        if v is None:
            if key in ('module', 'module2'):
                return self.named, 0
            return self.default, 0
        if v == 'builtin':
            return self.builtin[key], 0
        end = VALUES[v]
        n = v.count('->')
        if end is None:
            return None, n
        if end == 'boom':
            return self.boom, 1
        return self.checkers[end], n

    def ask(self, fn, want, n, obj):
        del self.asked[:]
        try:
            got = fn(obj)
        except Boom as e:
            got = e
        if got is not want:
            return 'gives %r, not %r' % (got, want)
        if len(self.asked) != n or any(a is not obj for a in self.asked):
            return 'asked factories for %r' % (self.asked,)
        return None

    def made(self, fn, obj):
        p = fn(obj)
        if p is obj:
            return None
        if type(p) is not self.zp.Proxy or self.zp.getObject(p) is not obj:
            return 'not a proxy of it'
        return self.zp.getChecker(p)

    def compare(self):
        zc = self.zc
        for key, obj in self.probes:
            want, n = self.expected(key, obj)
            for name, fn in (
                    ('selectChecker', zc.selectChecker),
                    ('ProxyFactory',
                     lambda o: self.made(zc.ProxyFactory, o)),
                    ('Checker.proxy',
                     lambda o: self.made(self.default.proxy, o)),
                    ('CheckerPy.proxy', lambda o: self.made(
                        zc.CheckerPy({}).proxy, o)),
                    ('selectCheckerPy', zc.selectCheckerPy)):
                if name == 'selectCheckerPy' and self.c_watch:
                    continue    # not in use, and knows only its own kind
                msg = self.ask(fn, want, n, obj)
                if msg:
                    return '%s for %s %s' % (name, key or type(obj), msg)
        for key in KEYS:
            v = self.reg.get(key)
            if v is None:
                want = None
            elif v == 'builtin':
                want = self.builtin[key]
            else:
                want = self.values[v]
            k = self.keys[key]
            if key.startswith('module'):
                if zc.moduleChecker(k) is not want:
                    return 'moduleChecker gives %r' % (zc.moduleChecker(k),)
            if zc.getCheckerForInstancesOf(k) is not want:
                return 'getCheckerForInstancesOf(%s) gives %r' % (
                    key, zc.getCheckerForInstancesOf(k))
            if (key in self.basic) != (k in zc.BasicTypes) or \
                    key in self.basic and zc.BasicTypes[k] is not \
                    self.values[self.basic[key]]:
                return 'BasicTypes has %r for %s' % (
                    zc.BasicTypes.get(k), key)
        # what no action touches stays
        for k in (dict, str, tuple, self.types.FunctionType):
            if zc.getCheckerForInstancesOf(k) is not self.snapshot[k]:
                return 'checker of %r changed' % (k,)
        # an undefined type exposes nothing
        p = zc.ProxyFactory(FakeModule())
        for name in ('one', 'two', '__dict__', '__str__'):
            try:
                getattr(p, name)
            except self.Forbidden:
                continue
            return 'default checker grants %s' % name
        return None

    def key(self):
        return tuple(sorted(self.reg.items())), tuple(
            sorted(self.basic.items()))


def sut():
    if Sut.world is None:
        Sut.world = Sut()
    checkers.cleanup()
    Sut.world.reset()
    return Sut.world


def run(history, rec, every=True):
    s = sut()
    try:
        if not history:
            msg = s.compare()
            if msg:
                rec.violation('initially: ' + msg)
        for i, action in enumerate(history):
            msg = s.do(action)
            if msg is None and (every or i == len(history) - 1):
                msg = s.compare()
            rec.step()
            if msg:
                rec.violation('%s after %s' % (msg, history[:i + 1]),
                              fingerprint='%s: %s' % (action[0], msg[:40]))
                return None
        return s.key()
    finally:
        s.reset()


def crowd(size, k, rec):
    """*size* types registered, the one at *k* undefined, defined again, as a
    basic type and by a factory; all are asked after each step."""
    s = sut()
    zc = s.zc
    classes = [type('T%d' % i, (), {}) for i in range(size)]
    objs = [cls() for cls in classes]
    checks = [zc.NamesChecker(['n%d' % i]) for i in range(size)]
    want = [None] * size

    def compare(step):
        for i in range(size):
            got = zc.selectChecker(objs[i])
            w = want[i]
            if got is not (zc._defaultChecker if w is None else
                           None if w is zc.NoProxy else w):
                rec.violation('type %d of %d after %s: %r' % (
                    i, size, step, got), fingerprint='crowd ' + step)
                return False
            if (zc.getCheckerForInstancesOf(classes[i]) is None) != (
                    w is None):
                rec.violation('type %d of %d after %s is %s' % (
                    i, size, step, 'forgotten' if w else 'still known'),
                    fingerprint='crowd ' + step)
                return False
        rec.step()
        return True
    new = zc.NamesChecker(['new'])
    try:
        for i, cls in enumerate(classes):
            zc.defineChecker(cls, checks[i])
            want[i] = checks[i]
        if not compare('define'):
            return
        try:
            zc.defineChecker(classes[k], new)
            rec.violation('type %d of %d defined twice' % (k, size),
                          fingerprint='crowd twice')
        except zc.DuplicationError:
            pass
        zc.undefineChecker(classes[k])
        want[k] = None
        if not compare('undefine'):
            return
        zc.defineChecker(classes[k], lambda ob: new)
        want[k] = new
        if not compare('factory'):
            return
        zc.undefineChecker(classes[k])
        zc.BasicTypes[classes[k]] = zc.NoProxy
        want[k] = zc.NoProxy
        if not compare('basic'):
            return
        del zc.BasicTypes[classes[k]]
        want[k] = None
        if not compare('basic removed'):
            return
        zc._clear()
        want[:] = [None] * size
        compare('clear')
    finally:
        for cls in classes:
            zc.BasicTypes.pop(cls, None)
            zc._checkers.pop(cls, None)
        s.reset()


SIZES = [1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 513]


def crowds():
    for size in SIZES:
        for k in sorted({0, 1, size // 2, size - 1} & set(range(size))):
            yield ['crowd', size, k]


def bounds(tier):
    t = tier == 'thorough'
    return ('up to 513 types registered at once; '
            'all sequences of %d of %d registry calls (and of %d of %d with '
            'fewer values); closure of the registry states over %d keys' % (
                2, len(actions(list(VALUES), KEYS)), 4 if t else 3,
                len(actions(SMALL, ['A', 'list', 'int'])), 4 if t else 3))


def jobs(tier):
    t = tier == 'thorough'
    out = []
    for mode in ('c', 'pure') + (('watch', 'purewatch') if t else ()):
        out += lib.shards(2, mode=mode, part='pairs')
        out += lib.shards(4 if t else 1, mode=mode, part='sequences',
                          depth=4 if t else 3)
        out.append(dict(mode=mode, part='crowd'))
        out.append(dict(mode=mode, part='closure', keys=4 if t else 3))
    if not t:
        out += [dict(mode=m, part='sequences', depth=2)
                for m in ('watch', 'purewatch')]
    return out


def explore(job, rec):
    if job['part'] == 'crowd':
        for case in crowds():
            rec.case(case)
            crowd(case[1], case[2], rec)
            rec.state(case)
            rec.trace('crowd', case)
        return
    if job['part'] in ('pairs', 'sequences'):
        if job['part'] == 'pairs':
            acts, depth = actions(list(VALUES), KEYS), 2
        else:
            acts = actions(SMALL, ['A', 'list', 'int'])
            depth = job['depth']
        for h in lib.shard(itertools.product(acts, repeat=depth), job):
            rec.case(h)
            key = run(h, rec, every=depth <= 3)
            if key:
                rec.state(key)
            rec.trace(h[-1][0] + (' bad' if key is None else ''), h)
        return
    acts = actions(['K1', 'NoProxy', 'f->K1', 'f->boom'],
                   KEYS[:job['keys']])
    seen = set()
    frontier = [()]
    depth = 0
    run((), rec)
    while frontier:
        depth += 1
        nxt = []
        for h in frontier:
            for a in acts:
                h2 = h + (a,)
                rec.case(h2)
                key = run(h2, rec, every=False)
                rec.trace('closure depth %d' % depth, h2)
                if key is None or key in seen:
                    continue
                seen.add(key)
                rec.state(key)
                nxt.append(h2)
        frontier = nxt
    rec.extra['closure_complete'] = 1


def replay(case, rec, job):
    if case and case[0] == 'crowd':
        return crowd(case[1], case[2], rec)
    rec.trace(run([tuple(a) for a in case], rec))
