"""C10: proxying is idempotent, unspoofable and never swaps a checker.

All sequences up to the bound of proxying, unproxying and changing what is
registered, on every kind of object, with a reference stack of checkers
compared after every step; the table of all ways to construct a proxy without
a checker; and security-aware isinstance for every object x class.
"""
import collections.abc
import itertools
import types

from mc import checkers
from mc import lib

ASSUMPTIONS = [
    'an own checker, where there is one, is a checker; looking at it fails '
    'with AttributeError only',
]


class Base:
    pass


class Other:
    pass


class Thing(Base):
    one = two = three = 1


class Slotted(Base):
    __slots__ = ('__Security_checker__',)
    one = two = three = 1


class PropOwn(Base):
    one = two = three = 1

    @property
    def __Security_checker__(self):
        return type(self).own


class PropMissing(Base):
    one = two = three = 1

    @property
    def __Security_checker__(self):
        raise AttributeError('__Security_checker__')


class Iterable:
    one = two = three = 1

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None


class Callable(Base):
    one = two = three = 1

    def __call__(self):
        return 1


class SubInt(int):
    pass


OBJECTS = ['thing', 'class own', 'instance own', 'slot own', 'prop own',
           'prop missing', 'iterable', 'callable', 'liar proxy', 'liar int',
           'liar raising', 'liar exception', 'int', 'none', 'subint', 'str', 'list', 'tuple',
           'class', 'own class', 'module', 'function', 'public', 'Proxy class',
           'location', 'exception class', 'meta']
OPS = ['factory', 'factory K1', 'factory K2', 'factory same', 'factory twice',
       'result', 'result K2', 'remove', 'raw K1', 'raw K2', 'sub K1',
       'reg K1', 'reg NoProxy', 'reg f->K2', 'unreg', 'own K2', 'unown']


FLAVOURS = ['plain', 'falsy', 'equal', 'failing']


def flavoured(zc, flavour):
    """A class of checkers with truth and equality of its own."""
    if flavour == 'plain':
        return zc.Checker

    class Falsy(zc.Checker):
        def __len__(self):
            return 0

        def __call__(self, *args):
            raise AssertionError('a checker is no factory')

    class Equal(zc.Checker):
        def __eq__(self, other):
            return True

        def __ne__(self, other):
            return False

        __hash__ = None

    class Failing(zc.Checker):
        def __bool__(self):
            raise RuntimeError('truth of a checker')

        def __eq__(self, other):
            raise RuntimeError('equality of a checker')

        __ne__ = __eq__

        def __hash__(self):
            raise RuntimeError('hash of a checker')
    return {'falsy': Falsy, 'equal': Equal, 'failing': Failing}[flavour]


class World:
    def __init__(self, flavour='plain'):
        from zope.location.location import LocationProxy

        from zope.security import checker as zc
        from zope.security import proxy as zp
        from zope.security.interfaces import ForbiddenAttribute
        self.zc, self.zp = zc, zp
        self.Forbidden = ForbiddenAttribute
        self.Location = LocationProxy
        C = flavoured(zc, flavour)
        self.K = {
            'K1': C({'one': zc.CheckerPublic}),
            'K2': C({'two': zc.CheckerPublic}),
            'K3': C({'three': zc.CheckerPublic})}
        self.snapshot = dict(zc._checkers)
        self.pure = zp.Proxy is zp.ProxyPy

        class Sub(zp.Proxy):
            __slots__ = ()
        self.Sub = Sub

    def make(self, kind):
        """An object of that kind (fresh, where possible) and its own
        checker."""
        K3 = self.K['K3']
        zp = self.zp
        if kind == 'thing':
            return Thing(), None
        if kind == 'class own':
            class Own(Thing):
                __Security_checker__ = K3
            return Own(), K3
        if kind == 'own class':
            class Own(Thing):
                __Security_checker__ = K3
            return Own, K3
        if kind == 'instance own':
            o = Thing()
            o.__Security_checker__ = K3
            return o, K3
        if kind == 'slot own':
            o = Slotted()
            o.__Security_checker__ = K3
            return o, K3
        if kind == 'prop own':
            class Own(PropOwn):
                own = K3
            return Own(), K3
        if kind == 'prop missing':
            return PropMissing(), None
        if kind == 'iterable':
            return Iterable(), None
        if kind == 'callable':
            return Callable(), None
        if kind.startswith('liar'):
            class Liar(Thing):
                claim = {'liar proxy': zp.Proxy, 'liar int': int,
                         'liar exception': ValueError}.get(kind)

                @property
                def __class__(self):
                    if self.claim is None:
                        raise AttributeError('__class__')
                    return self.claim
                _wrapped = 5
                _checker = K3
            return Liar(), None
        if kind == 'meta':
            class Meta(type):
                pass

            class M(metaclass=Meta):
                one = two = three = 1
            return M, None
        if kind == 'location':
            return self.Location(Thing()), None
        return {'int': 5, 'none': None, 'subint': SubInt(5), 'str': 'x',
                'list': [1], 'tuple': (), 'class': Thing,
                'module': types.ModuleType('m'), 'function': lib.shard,
                'Proxy class': zp.Proxy, 'exception class': ValueError,
                }[kind], None


class Sut:
    """One object, the values made of it, and the reference stack."""

    def __init__(self, w, kind):
        self.w = w
        zc = w.zc
        zc._checkers.clear()
        zc._checkers.update(w.snapshot)
        if kind == 'public':
            # the public marker is proxied from the start
            self.o = w.zp.getObject(zc.CheckerPublic)
            self.own = None
            self.values = [self.o, zc.CheckerPublic]
            self.stack = [w.zp.getChecker(zc.CheckerPublic)]
        else:
            self.o, self.own = w.make(kind)
            self.values = [self.o]
            self.stack = []         # checkers, innermost first
        self.kind = kind
        self.reg = zc._checkers.get(type(self.o), zc._defaultChecker)
        if kind == 'location':
            # protected like what it is around
            self.own = 'location'

    def select(self):
        """The registered checker, or None for no proxy."""
        reg, zc = self.reg, self.w.zc
        if reg is zc.NoProxy:
            return None
        if isinstance(reg, types.FunctionType):
            return reg(self.o)
        return reg

    def chosen(self):
        if isinstance(self.own, str):
            # the object's own is the default checker
            return ('combined' if self.select() is not None
                    else self.w.zc._defaultChecker)
        if self.own is not None:
            return self.own
        return self.select()

    def push(self, got, want):
        """*got* must be a new proxy of the top with checker *want*."""
        zp = self.w.zp
        v = self.values[-1]
        if want is None:
            return None if got is v else 'is %s, not the object' % type(got)
        if got is v:
            return 'is the object itself'
        if type(got) not in (zp.Proxy, self.w.Sub):
            return 'is a %s' % type(got)
        if zp.getObject(got) is not v:
            return 'is a proxy of something else'
        c = zp.getChecker(got)
        if isinstance(want, str):
            if type(c) is not self.w.zc.CombinedChecker:
                return 'has checker %r' % (c,)
        elif c is not want:
            return 'has checker %r, not %r' % (c, want)
        self.values.append(got)
        self.stack.append(c)
        return None

    def do(self, op):
        w = self.w
        zc, zp = w.zc, w.zp
        v = self.values[-1]
        word, _, arg = op.partition(' ')
        if word == 'factory':
            if arg == 'twice':
                a = zc.ProxyFactory(v)
                b = zc.ProxyFactory(a)
                if a is not b:
                    return 'proxying a proxy made another'
                if self.stack:
                    return None if a is v else 'proxy of the proxy'
                return self.push(a, self.chosen())
            if arg == '':
                got = zc.ProxyFactory(v)
                if self.stack:
                    return None if got is v else 'proxy of the proxy'
                return self.push(got, self.chosen())
            if arg == 'same':
                if not self.stack:
                    return None
                c = self.stack[-1]
            else:
                c = w.K[arg]
            if self.stack and self.stack[-1] is not c:
                try:
                    got = zc.ProxyFactory(v, c)
                except TypeError:
                    return None
                return 'the checker was changed'
            got = zc.ProxyFactory(v, c)
            if self.stack:
                return None if got is v else 'proxy of the proxy'
            return self.push(got, c)
        if word == 'result':
            # what a checker makes of a result
            for C in ((zc.Checker, zc.CheckerPy) if arg else (zc.Checker,)):
                c = C({}) if not arg else zc.CombinedChecker(
                    C({}), w.K[arg])
                got = c.proxy(v)
                if self.stack:
                    if got is not v:
                        return 'proxy of the proxy'
                else:
                    n = len(self.values), len(self.stack)
                    msg = self.push(got, self.chosen())
                    if msg:
                        return msg
                    del self.values[n[0]:], self.stack[n[1]:]
            return None
        if word == 'remove':
            for fn in (zp.removeSecurityProxy, zp.getObject,
                       zp.getObjectPy if w.pure else zp.getObject):
                got = fn(v)
                if self.stack:
                    if got is not self.values[-2]:
                        return '%s gives %r' % (fn, type(got))
                elif got is not v:
                    return 'removed what is not there'
            if self.stack:
                self.stack.pop()
                self.values.pop()
            return None
        if word == 'raw':
            return self.push(zp.Proxy(v, w.K[arg]), w.K[arg])
        if word == 'sub':
            return self.push(w.Sub(v, w.K[arg]), w.K[arg])
        if word in ('reg', 'unreg'):
            zc._checkers.pop(type(self.o), None)
            self.reg = zc._defaultChecker
            if word == 'reg':
                value = {'NoProxy': zc.NoProxy, 'f->K2':
                         lambda o: w.K['K2']}.get(arg) or w.K[arg]
                zc.defineChecker(type(self.o), value)
                self.reg = value
            return None
        if word in ('own', 'unown'):
            if self.kind not in ('thing', 'instance own', 'callable',
                                 'slot own'):
                return None
            if word == 'own':
                self.o.__Security_checker__ = self.own = w.K[arg]
            elif self.own is not None:
                del self.o.__Security_checker__
                self.own = None
            return None
        raise AssertionError(op)

    def compare(self):
        zc, zp = self.w.zc, self.w.zp
        # every layer is as it was
        for i, c in enumerate(self.stack):
            v = self.values[i + 1]
            if zp.getChecker(v) is not c:
                return 'layer %d changed its checker' % i
            if zp.getObject(v) is not self.values[i]:
                return 'layer %d changed its object' % i
        if not self.stack:
            for fn in (zp.getChecker, zp.getCheckerPy):
                try:
                    fn(self.o)
                except TypeError:
                    continue
                return 'an object has a checker'
            return None
        # the topmost checker decides
        if self.kind in ('thing', 'class own', 'callable', 'liar proxy') \
                and len(self.stack) == 1:
            v = self.values[-1]
            for key, name in (('K1', 'one'), ('K2', 'two'), ('K3', 'three')):
                try:
                    getattr(v, name)
                    ok = True
                except self.w.Forbidden:
                    ok = False
                if ok != (self.stack[-1] is self.w.K[key]):
                    return 'reading %s: %s' % (name, ok)
        return None

    def key(self):
        def label(c):
            for k, x in self.w.K.items():
                if c is x:
                    return k
            if c is self.w.zc.NoProxy:
                return 'NoProxy'
            return type(c).__name__
        return (self.kind, tuple(label(c) for c in self.stack),
                tuple(type(v) is self.w.Sub for v in self.values),
                label(self.reg), label(self.own))


def run(w, kind, history, rec):
    s = Sut(w, kind)
    msg = s.compare()
    for i, op in enumerate(history):
        msg = msg or s.do(op) or s.compare()
        rec.step()
        if msg:
            rec.violation('%s on %s: %s' % (history[:i + 1], kind, msg),
                          fingerprint='%s %s: %s' % (kind, op, msg[:40]))
            return None
    return s.key()


def construct(w, rec):
    """No proxy without a checker."""
    zp, zc = w.zp, w.zc
    o = Thing()
    c = w.K['K1']
    P, S = zp.Proxy, w.Sub
    ways = {
        'P(o, None)': lambda: P(o, None),
        'P()': lambda: P(),
        'P(o)': lambda: P(o),
        'P(o, c, c)': lambda: P(o, c, c),
        'P.__new__(P)': lambda: P.__new__(P),
        'P.__new__(P, o)': lambda: P.__new__(P, o),
        'P.__new__(P, o, None)': lambda: P.__new__(P, o, None),
        'S(o, None)': lambda: S(o, None),
        'S(o)': lambda: S(o),
        'S.__new__(S, o, None)': lambda: S.__new__(S, o, None),
        'object.__new__(P)': lambda: object.__new__(P),
        'type(o)(o, None)': lambda: type(P(o, c))(o, None),
        'ProxyPy(o, None)': lambda: zp.ProxyPy(o, None),
        'ProxyPy.__new__(ProxyPy, o, None)':
            lambda: zp.ProxyPy.__new__(zp.ProxyPy, o, None),
        'P(o, checker=None)': lambda: P(o, checker=None),
        'P(checker=c)': lambda: P(checker=c),
    }
    for name, fn in ways.items():
        rec.case(['construct', name])
        try:
            got = fn()
        except (TypeError, ValueError):
            rec.trace('no proxy', name)
            continue
        if name == 'object.__new__(P)' and w.pure:
            rec.trace('bare slots')     # needs the class, not reachable
            continue
        rec.violation('%s made a %r' % (name, type(got)),
                      fingerprint='construct ' + name)
    # a second initialization changes nothing
    for cls in (P, S):
        rec.case(['reinit', cls.__name__])
        p = cls(o, c)
        for args in ((5, w.K['K2']), (o, w.K['K2']), (o, None), (), (o,)):
            try:
                cls.__init__(p, *args)
            except (TypeError, ValueError):
                pass
            if zp.getObject(p) is not o or zp.getChecker(p) is not c:
                rec.violation('__init__%r changed the proxy' % (args,),
                              fingerprint='reinit')
        rec.trace('reinit')


CLASSES = [Base, Thing, Other, Iterable, object, type, int, str, list, tuple,
           collections.abc.Iterable, collections.abc.Sized,
           collections.abc.Callable, collections.abc.Hashable,
           collections.abc.Sequence, types.ModuleType, types.FunctionType,
           (int, Base), (), (list, (Other, Thing)), int | Thing, BaseException,
           type(None)]


def instances(w, rec):
    zp, zc = w.zp, w.zc
    classes = CLASSES + [zp.Proxy, w.Location]
    for kind in OBJECTS:
        if kind == 'public':
            continue
        for layers in (0, 1, 3):
            for i, cls in enumerate(classes):
                rec.case(['isinstance', kind, layers, i])
                o, own = w.make(kind)
                v = o
                if layers == 3:
                    v = zc.ProxyFactory(o)
                else:
                    for k in ('K1',)[:layers]:
                        v = zp.Proxy(v, w.K[k])

                def ask(fn, x):
                    try:
                        return fn(x, cls)
                    except Exception as e:
                        return type(e).__name__
                want = ask(isinstance, o)
                got = ask(zp.isinstance, v)
                rec.step()
                if got is not want and got != want:
                    rec.violation('isinstance of %s in %d layers and %r '
                                  'gives %r, not %r' % (
                                      kind, layers, cls, got, want),
                                  fingerprint='isinstance %s' % kind)
                rec.trace('isinstance %s' % got)


def bounds(tier):
    return ('all sequences of %d of %d operations on %d kinds of objects, '
            'one less with checkers that are false, equal or uncomparable; '
            'isinstance of bare and proxied objects' % (
                5 if tier == 'thorough' else 4, len(OPS), len(OBJECTS)))


def jobs(tier):
    t = tier == 'thorough'
    out = []
    for mode in ('c', 'pure'):
        out += lib.shards(8 if t else 4, mode=mode, part='sequences',
                          depth=5 if t else 4)
        out.append(dict(mode=mode, part='table'))
        for flavour in FLAVOURS[1:]:
            out.append(dict(mode=mode, part='table', flavour=flavour))
            out.append(dict(mode=mode, part='sequences', flavour=flavour,
                            depth=4 if t else 3))
    for mode in ('watch', 'purewatch'):
        out.append(dict(mode=mode, part='sequences', depth=3 if t else 2))
        out.append(dict(mode=mode, part='table'))
    return out


def explore(job, rec):
    flavour = job.get('flavour', 'plain')
    w = World(flavour)
    try:
        if job['part'] == 'table':
            construct(w, rec)
            instances(w, rec)
            return
        for kind, h in lib.shard(itertools.product(
                OBJECTS, itertools.product(OPS, repeat=job['depth'])), job):
            rec.case(['sequence', kind, h, flavour])
            key = run(w, kind, h, rec)
            if key:
                rec.state((flavour, key))
            rec.trace(h[-1] + (' bad' if key is None else ''), rec.current)
    finally:
        w.zc._checkers.clear()
        w.zc._checkers.update(w.snapshot)
        checkers.cleanup()


def replay(case, rec, job):
    w = World(job.get('flavour', 'plain'))
    if case[0] == 'sequence':
        rec.trace(run(w, case[1], case[2], rec))
    elif case[0] == 'isinstance':
        instances(w, rec)
    else:
        construct(w, rec)
