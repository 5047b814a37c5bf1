"""C02: results of permitted operations are themselves protected.

Every value-returning operation x every kind of result x every kind of
checker; every builtin that consumes a proxy; every history of in-place
operations up to the bound; every change of the registrations between two
operations.  What is expected of a result follows from how the value was made
and registered here, not from the code's own answer.
"""
import collections
import datetime
import decimal
import itertools

from mc import lib
from mc import ops

ASSUMPTIONS = [
    'result kinds are the catalogue in c02.py; exceptions as results are left '
    'out (documented difference of the implementations)',
    'for built-in types the expected checker is the registered one',
]

PRIM = {op.name: op for op in ops.primitives()}
NOT_VALUES = {'hash', 'bool', 'not', 'length_hint', 'int', 'float', 'complex',
              'index', 'num_index', 'hex', 'item_of_list', 'chr',
              'slice_of_list', 'contains', 'seq_contains', 'len', 'seq_size',
              'map_size', 'str', 'repr', 'setattr', 'delattr', 'setitem',
              'delitem', 'seq_setitem', 'obj_setitem', 'seq_delitem'}
VALUE_OPS = [n for n in PRIM if n not in NOT_VALUES]
CHECKERS = ['names', 'sub', 'combined', 'multi', 'namesfactory',
            'proxyfactory']
INPLACE = ['i' + n for n in ops.INPLACE]


class Trouble(Exception):
    pass


class Holder:
    """Every operation returns the given value."""

    def __init__(self, value):
        self.__dict__['value'] = value
        self.__dict__['behaviour'] = 'value'

    def __setattr__(self, name, value):
        pass

    def __delattr__(self, name):
        pass

    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        return self.__dict__['value']


def _add_methods():
    def method(name):
        def special(self, *args, **kw):
            b = self.__dict__['behaviour']
            if b == 'self':
                return self
            if b == 'ni':
                return NotImplemented
            return self.__dict__['value']
        special.__name__ = name
        return special
    for op in PRIM.values():
        for c in set(op.checks.values()):
            if c and c[:2] == '__' and op.name in VALUE_OPS:
                setattr(Holder, c, method(c))
    for n in ops.COMPARE:
        setattr(Holder, ops.dunder(n), method(ops.dunder(n)))
    Holder.__hash__ = object.__hash__


_add_methods()


class X:
    """An operand that leaves every operation to the other one."""
    __hash__ = object.__hash__

    def __eq__(self, other):
        return NotImplemented

    __ne__ = __eq__


class World:
    """The kinds of values, and what each must arrive as."""

    def __init__(self):
        from zope.i18nmessageid import Message

        from zope.security import checker as zc
        from zope.security.proxy import Proxy
        self.zc = zc
        self.names = sorted(set(ops.all_names('c') + ops.all_names('pure')
                                + ['attr', 'other']))
        self.kinds = kinds = collections.OrderedDict()
        Checker = zc.Checker

        def rock(name, v):
            kinds[name] = (v, 'same', None)
        for name, v in [
                ('int', 2 ** 70), ('zero', 0), ('true', True),
                ('false', False), ('none', None), ('float', 2.5),
                ('complex', 1j), ('str', 'a long string'), ('empty', ''),
                ('bytes', b'bytes'), ('date', datetime.date(2000, 1, 1)),
                ('datetime', datetime.datetime(2000, 1, 1)),
                ('timedelta', datetime.timedelta(1)),
                ('time', datetime.time(1)), ('object', object()),
                ('message', Message('m', 'd'))]:
            rock(name, v)
        c_obj, c_reg, c_fac, c_own, c_type, c_iter, c_call = (
            Checker({}) for i in range(7))
        self.checkers = dict(reg=c_reg, own=c_own, fac=c_fac)

        class Plain:
            def __hash__(self):
                return 1

        class Registered:
            pass

        class Sub(Registered):
            pass

        class Own:
            __Security_checker__ = c_own

        class OwnReg(Own):
            pass

        class OwnNone:
            __Security_checker__ = None

        class Factory:
            pass

        class Factory2:
            pass

        class FactoryNone:
            pass

        class FactoryNoProxy:
            pass

        class Rocky:
            pass

        class OwnRocky:
            __Security_checker__ = c_own

        class MyInt(int):
            pass

        class MyStr(str):
            pass

        class Iter:
            def __iter__(self):
                return self

            def __next__(self):
                return Plain()

        class Getitem:
            def __getitem__(self, i):
                return i

        class Meta(type):
            pass

        class WithMeta(metaclass=Meta):
            pass

        class Slots:
            __slots__ = ()

        class Falsy:
            def __bool__(self):
                return False

            def __len__(self):
                return 0

            def __eq__(self, other):
                return True

            __hash__ = object.__hash__

        class BadBool:
            def __bool__(self):
                raise RuntimeError

            __eq__ = __hash__ = __bool__

        class LikeTrue:
            def __eq__(self, other):
                return True

            __hash__ = object.__hash__

        trouble = self.trouble = Trouble()

        def fail(self):
            raise trouble

        class OwnRaises:
            __Security_checker__ = property(fail)

        class OwnRaisesRocky:
            __Security_checker__ = property(fail)

        class GetattrRaises:
            def __getattr__(self, name):
                if name == '__Security_checker__':
                    raise trouble
                raise AttributeError(name)

        class FactoryRaises:
            pass

        class OwnMissing:
            @property
            def __Security_checker__(self):
                raise AttributeError('__Security_checker__')
        class LiarException:
            __class__ = ValueError

        class LiarInt:
            __class__ = int

        class LiarProxy:
            __class__ = Proxy

        class LiarBad:
            __class__ = property(fail)
        self.classes = locals()
        zc.defineChecker(Registered, c_reg)
        zc.defineChecker(OwnReg, c_reg)
        zc.defineChecker(Factory, lambda o: c_fac)
        zc.defineChecker(Factory2, lambda o: lambda o2: c_fac)
        zc.defineChecker(FactoryNone, lambda o: None)
        zc.defineChecker(FactoryNoProxy, lambda o: zc.NoProxy)
        zc.defineChecker(Rocky, zc.NoProxy)
        zc.defineChecker(OwnRocky, zc.NoProxy)
        zc.defineChecker(Iter, c_iter)
        zc.defineChecker(OwnRaisesRocky, zc.NoProxy)
        zc.defineChecker(FactoryRaises, fail)
        zc.defineChecker(OwnMissing, c_reg)
        # what cannot be proxied does not arrive at all
        for cls in OwnRaises, OwnRaisesRocky, GetattrRaises, FactoryRaises:
            kinds[cls.__name__] = (cls(), 'raise', trouble)
        default = zc._defaultChecker
        inst_own = Plain()
        inst_own.__Security_checker__ = c_own

        def registered(name, v, checker):
            kinds[name] = (v, 'proxy', checker)
        for cls, c in [(Plain, default), (Registered, c_reg), (Sub, default),
                       (Own, c_own), (OwnReg, c_own),
                       (Factory, c_fac), (Factory2, c_fac),
                       (OwnRocky, c_own), (Iter, c_iter),
                       (Getitem, default), (Slots, default),
                       (Falsy, default), (BadBool, default),
                       (LikeTrue, default), (OwnMissing, c_reg),
                       (LiarException, default), (LiarInt, default),
                       (LiarProxy, default), (LiarBad, default)]:
            registered(cls.__name__, cls(), c)
        registered('inst_own', inst_own, c_own)
        registered('MyInt', MyInt(5), default)
        registered('MyStr', MyStr('x'), default)
        registered('WithMeta', WithMeta, default)
        for cls in (FactoryNone, FactoryNoProxy, Rocky):
            kinds[cls.__name__] = (cls(), 'same', None)

        def gen():
            yield Plain()
        reg = zc.getCheckerForInstancesOf
        for name, v in [
                ('list', [Plain()]), ('emptylist', []), ('tuple', (Plain(),)),
                ('emptytuple', ()), ('dict', {'k': Plain()}),
                ('set', {Plain()}), ('frozenset', frozenset([1])),
                ('view', {1: 2}.values()),
                ('decimal', decimal.Decimal(1)), ('class', Plain),
                ('builtin class', int), ('function', gen),
                ('lambda', lambda: 1), ('method', Iter().__iter__),
                ('builtin', len), ('wrapper', (1).__add__),
                ('generator', gen()), ('listiter', iter([Plain()])),
                ('dictiter', iter({1: 2})), ('count', itertools.count())]:
            registered(name, v, reg(type(v)))
        registered('module', itertools,
                   zc.selectChecker(type(itertools)("other")))
        for name, v in [
                ('bytearray', bytearray(b'x')), ('range', range(3)),
                ('slice', slice(1)), ('ellipsis', Ellipsis),
                ('mappingproxy', Plain.__dict__), ('property', property()),
                ('memoryview', memoryview(b'x')), ('code', gen.__code__),
                ('deque', collections.deque([1])), ('map', map(int, '1')),
                ('defaultdict', collections.defaultdict(int)),
                ('ordereddict', collections.OrderedDict()),
                ('counter', collections.Counter())]:
            kinds[name] = (v, 'proxy', default)
        some = Plain()
        kinds['proxy'] = (Proxy(some, c_own), 'same', None)
        kinds['proxied rock'] = (Proxy(5, c_own), 'same', None)
        kinds['proxied proxy'] = (Proxy(Proxy(some, c_own), c_reg), 'same',
                                  None)
        kinds['public'] = (zc.CheckerPublic, 'same', None)

    def holders(self):
        """Register the classes of objects that return themselves."""
        if 'holders' not in self.checkers:
            self.checkers['holders'] = True
            self.zc.defineChecker(RegisteredHolder, self.checkers['reg'])
            OwnHolder.__Security_checker__ = self.checkers['own']


def check_result(world, r, b, how, checker):
    """Compare the result *r* of the proxy with the bare result *b*."""
    from zope.security.proxy import Proxy
    from zope.security.proxy import getChecker
    from zope.security.proxy import getObject
    if how == 'same':
        if r is not b:
            return 'harmless %s arrived as %s' % (type(b), type(r))
        return None
    if type(r) is not Proxy:
        return 'unprotected %s' % type(r)
    if getObject(r) is not b:
        return 'protects something else: %s' % type(getObject(r))
    if getChecker(r) is not checker:
        return 'protected by another checker: %r instead of %r' % (
            getChecker(r), checker)
    return None


def make_subject(world, kind, target):
    """A proxy for *target* that grants everything."""
    zc = world.zc
    from zope.security.proxy import Proxy
    names = world.names
    grants = dict.fromkeys(names, zc.CheckerPublic)
    if kind == 'names':
        c = zc.Checker(grants, {'attr': zc.CheckerPublic})
    elif kind == 'multi':
        c = zc.MultiChecker([(names, zc.CheckerPublic)])
    elif kind == 'sub':
        class Sub(zc.Checker):
            pass
        c = Sub(grants, {})
    elif kind == 'combined':
        c = zc.CombinedChecker(zc.Checker({}), zc.Checker(grants, {}))
    elif kind == 'namesfactory':
        c = zc.NamesChecker(names)
    elif kind == 'proxyfactory':
        return zc.ProxyFactory(target, zc.Checker(grants))
    return Proxy(target, c)


def outcome(fn, *args):
    try:
        return 'ret', fn(*args)
    except Exception as e:
        if type(e) is lib.Stop:
            raise
        return 'exc', e


# part 'results'

# results that have something to do with the object, the operand or the proxy
RELATED = ['itself', 'itself registered', 'itself own', 'its class',
           'its attributes', 'its method', 'the operand',
           'the operand proxied', 'the proxy', 'its checker', 'equal itself']


def result_cases(kinds):
    for o in VALUE_OPS:
        for k in list(kinds) + RELATED:
            for c in CHECKERS:
                yield dict(part='results', op=o, kind=k, checker=c)


class RegisteredHolder(Holder):
    pass


class OwnHolder(Holder):
    pass


class EqualHolder(Holder):
    def __eq__(self, other):
        return True

    __hash__ = object.__hash__


def related(world, kind, target, x, c):
    """Value, how it must arrive and under which checker."""
    zc = world.zc
    if kind.startswith('itself'):
        return target, 'proxy', {
            'itself': zc._defaultChecker,
            'itself registered': world.checkers['reg'],
            'itself own': world.checkers['own']}[kind]
    if kind == 'its class':
        return type(target), 'proxy', zc.getCheckerForInstancesOf(type)
    if kind == 'its attributes':
        return target.__dict__, 'proxy', zc.getCheckerForInstancesOf(dict)
    if kind == 'its method':
        m = target.__setattr__
        return m, 'proxy', zc.getCheckerForInstancesOf(type(m))
    if kind == 'equal itself':
        return EqualHolder(1), 'proxy', zc._defaultChecker
    if kind == 'its checker':
        return c, 'proxy', zc._defaultChecker
    return x, 'proxy', zc._defaultChecker


def run_results(world, case, rec, mode):
    from zope.security.proxy import getChecker
    op = PRIM[case['op']]
    kind = case['kind']
    x = operand = X()
    if kind in RELATED:
        cls = {'itself registered': RegisteredHolder,
               'itself own': OwnHolder,
               'equal itself': EqualHolder}.get(kind, Holder)
        target = cls(None)
        world.holders()
        p = make_subject(world, case['checker'], target)
        if kind == 'the proxy':
            v, how, checker = p, 'same', None
        else:
            v, how, checker = related(world, kind, target, x, getChecker(p))
        target.__dict__['value'] = v
        if kind == 'the operand proxied':
            operand = make_subject(world, 'names', x)
        if v is target and case['op'] in INPLACE:
            v, how = p, 'same'
            got = outcome(op.fn, p, operand)
            rec.step()
            if got[0] == 'exc' or got[1] is not p:
                rec.violation('%s giving the object itself: %r' % (
                    op.name, type(got[1])),
                    fingerprint='%s/%s' % (mode, op.name))
                return 'bad'
            return 'in place'
    else:
        v, how, checker = world.kinds[kind]
        target = Holder(v)
        p = None
    bare = outcome(op.analog(mode), target, x)
    if p is None:
        p = make_subject(world, case['checker'], target)
    got = outcome(op.fn, p, operand)
    rec.step()
    if op.name in ('next',) and bare[0] == 'exc':
        return 'n/a'
    if bare[0] == 'exc':
        if got[0] != 'exc' or type(got[1]) is not type(bare[1]):
            rec.violation('%s: bare %r, proxy %r' % (op.name, bare, got),
                          fingerprint='%s/%s' % (mode, op.name))
        return 'exc'
    if how == 'raise' and bare[1] is v:
        if got[0] != 'exc' or got[1] is not checker:
            rec.violation('%s of %s: %s, not %r' % (
                op.name, case['kind'],
                got[1] if got[0] == 'exc' else type(got[1]), checker),
                fingerprint='%s/%s' % (mode, op.name))
            return 'bad'
        return how
    if got[0] == 'exc':
        rec.violation('%s of %s: raised %r' % (op.name, case['kind'], got[1]),
                      fingerprint='%s/%s' % (mode, op.name))
        return 'bad'
    if bare[1] is not v:
        # the interpreter made something of the value (!=, not ...)
        if bare[1] is True or bare[1] is False:
            how, checker = 'same', None
            if got[1] is bare[1]:
                return 'bool'
    msg = check_result(world, got[1], bare[1], how, checker)
    if msg:
        rec.violation('%s giving %s: %s' % (op.name, case['kind'], msg),
                      fingerprint='%s/%s' % (mode, op.name))
        return 'bad'
    return how


# part 'consume'

def consumers():
    def star(p):
        return (lambda *a: a)(*p)

    def unpack(p):
        a, *b = p
        return [a] + b

    def loop(p):
        out = []
        for x in p:
            out.append(x)
        return out

    def yieldfrom(p):
        def g():
            yield from p
        return list(g())

    def nexts(p):
        i = iter(p)
        out = []
        while True:
            try:
                out.append(next(i))
            except StopIteration:
                return out

    def nexts2(p):
        i = iter(iter(p))
        return [x for x in i]

    def index(p):
        return [p[i] for i in range(len(p))]

    def match(p):
        # (proxies are no sequences to match statements)
        match p:
            case [a, *b]:
                return [a] + b
        return None

    def extend(p):
        out = []
        out.extend(p)
        return out

    def slice_assign(p):
        out = [1]
        out[:] = p
        return out

    def iadd(p):
        out = []
        out += p
        return out

    def asyncish(p):
        import asyncio  # noqa: F401
        return [x for x in p]

    def deque(p):
        return list(collections.deque(p))

    def mapped(p):
        return list(map(lambda x: x, p))

    def filtered(p):
        return list(filter(lambda x: True, p))

    def zipped(p):
        return [x for x, in zip(p)]

    def enumerated(p):
        return [x for i, x in enumerate(p)]

    def callargs(p):
        return list(itertools.starmap(lambda *a: a[0], [(x,) for x in p]))

    def chain(p):
        return list(itertools.chain(p))

    def fromiter(p):
        return list(itertools.chain.from_iterable([p]))

    def islice(p):
        return list(itertools.islice(p, 10))

    def tee(p):
        return list(itertools.tee(p)[0])

    def product(p):
        return [x for x, in itertools.product(p)]

    def setof(p):
        return list(set(p))

    def fset(p):
        return list(frozenset(p))

    def fromkeys(p):
        return list(dict.fromkeys(p))

    def minkey(p):
        seen = []
        min(p, key=lambda x: seen.append(x) or 1)
        return seen

    def sortkey(p):
        seen = []
        sorted(p, key=lambda x: seen.append(x) or 1)
        return seen

    def reduced(p):
        import functools
        return functools.reduce(lambda a, b: a + [b], p, [])

    return {f.__name__: f for f in [
        list, tuple, star, unpack, loop, yieldfrom, nexts, nexts2, index,
        match, extend, slice_assign, iadd, asyncish, deque, mapped, filtered,
        zipped, enumerated, callargs, chain, fromiter, islice, tee, product,
        setof, fset, fromkeys, minkey, sortkey, reduced]}


class Container:
    """Iterates like a user's class."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class OldContainer:
    """Iterable by indices only."""

    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)


class GenContainer:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        for i in self.items:
            yield i


CONTAINERS = {
    'list': list, 'tuple': tuple,
    'set': set, 'frozenset': frozenset,
    'dict': lambda xs: dict.fromkeys(xs),
    'keys': lambda xs: dict.fromkeys(xs).keys(),
    'values': lambda xs: dict(enumerate(xs)).values(),
    'listiter': iter, 'generator': lambda xs: (x for x in xs),
    'map': lambda xs: itertools.chain(xs),
    'deque': collections.deque, 'Container': Container,
    'OldContainer': OldContainer, 'GenContainer': GenContainer,
}


def consume_cases(kinds):
    for c in CONTAINERS:
        for f in consumers():
            for k in kinds:
                yield dict(part='consume', container=c, consumer=f, kind=k)


def run_consume(world, case, rec, mode):
    from zope.security.proxy import Proxy
    zc = world.zc
    v, how, checker = world.kinds[case['kind']]
    make = CONTAINERS[case['container']]
    fn = consumers()[case['consumer']]
    try:
        bare = outcome(fn, make([v]))
        target = make([v])
    except Exception:
        return 'unhashable'
    c = zc.NamesChecker(['__iter__', '__next__', '__len__', '__getitem__',
                         '__length_hint__'])
    # iterators of the container need to be usable
    it = type(iter(make([])))
    added = []
    if it in (map, type(iter(collections.deque()))):
        zc.defineChecker(it, c)
        added.append(it)
    try:
        got = outcome(fn, Proxy(target, c))
    finally:
        for t in added:
            zc.undefineChecker(t)
    rec.step()
    fp = '%s/consume %s' % (mode, case['consumer'])
    if case['consumer'] == 'match':
        if got[0] == 'ret' and got[1]:
            pass
        else:
            return 'no match'
    if got[0] == 'exc' and isinstance(got[1], TypeError):
        return 'typeerror'          # e.g. unhashable in a set
    if bare[0] == 'exc' or case['container'] == 'dict' \
            and case['consumer'] == 'index':
        return 'n/a'
    if how == 'raise' and (got[0] == 'exc' or got[1]):
        if got[0] == 'exc' and (
                got[1] is checker
                or type(got[1]).__name__ == 'ForbiddenAttribute'):
            return how
        rec.violation('%s of %s with %s: %r, not %r' % (
            case['consumer'], case['container'], case['kind'], got, checker),
            fingerprint=fp)
        return 'bad'
    if got[0] == 'exc':
        if type(got[1]).__name__ in ('ForbiddenAttribute',):
            # granted operations only are of interest here
            return 'refused'
        rec.violation('%s of %s with %s raised %r' % (
            case['consumer'], case['container'], case['kind'], got[1]),
            fingerprint=fp)
        return 'bad'
    if len(got[1]) != 1:
        rec.violation('%s of %s with %s gave %d items' % (
            case['consumer'], case['container'], case['kind'], len(got[1])),
            fingerprint=fp)
        return 'bad'
    for r in got[1]:
        msg = check_result(world, r, v, how, checker)
        if msg:
            rec.violation('%s of %s with %s: %s' % (
                case['consumer'], case['container'], case['kind'], msg),
                fingerprint=fp)
            return 'bad'
    return how


# part 'inplace': histories on one proxy

def inplace_cases(depth):
    steps = list(itertools.product(
        INPLACE, ['self', 'value', 'ni', 'rock', 'proxy']))
    for n in range(1, depth + 1):
        for h in itertools.product(steps, repeat=n):
            for c in ('names', 'combined') if n < 2 else ('names',):
                yield dict(part='inplace', history=h, checker=c)


def run_inplace(world, case, rec, mode):
    from zope.security.proxy import getChecker
    from zope.security.proxy import getObject
    v, how, checker = world.kinds['Registered']
    pv = world.kinds['proxy'][0]
    target = Holder(v)
    x = X()
    p = make_subject(world, case['checker'], target)
    c = getChecker(p)
    for opname, behaviour in case['history']:
        value = {'value': v, 'rock': 5, 'proxy': pv}.get(behaviour, v)
        target.__dict__['value'] = value
        target.__dict__['behaviour'] = \
            behaviour if behaviour in ('self', 'ni') else 'value'
        r = outcome(PRIM[opname].fn, p, x)
        rec.step()
        msg = None
        if behaviour == 'ni':
            if r[0] != 'exc' or type(r[1]) is not TypeError:
                msg = 'unsupported operation gave %r' % (r,)
        elif r[0] == 'exc':
            msg = 'raised %r' % (r[1],)
        elif behaviour == 'self':
            if r[1] is not p:
                msg = 'did not return the proxy but %s' % type(r[1])
        elif behaviour == 'value':
            msg = check_result(world, r[1], v, how, checker)
        else:
            msg = check_result(world, r[1], value, 'same', None)
        if not msg and getObject(p) is not target:
            msg = 'the proxy now guards something else'
        if not msg and getChecker(p) is not c:
            msg = 'the proxy now has another checker'
        if msg:
            rec.violation('%s: %s' % (opname, msg),
                          fingerprint='%s/%s' % (mode, opname))
            return 'bad'
    return [b for _, b in case['history']]


BUILTIN_INPLACE = {
    'list+': ([1], 'iadd', [2]), 'list*': ([1], 'imul', 2),
    'set|': ({1}, 'ior', {2}), 'set&': ({1, 2}, 'iand', {2}),
    'set-': ({1, 2}, 'isub', {2}), 'set^': ({1, 2}, 'ixor', {2}),
    'dict|': ({1: 2}, 'ior', {2: 3}),
    'bytearray+': (bytearray(b'a'), 'iadd', b'b'),
    'tuple+': ((1,), 'iadd', (2,)), 'tuple*': ((1,), 'imul', 2),
    'int+': (1, 'iadd', 2), 'str+': ('a', 'iadd', 'b'),
    'int<<': (1, 'ilshift', 2), 'str%': ('%s', 'imod', 'b'),
    'list+2': ([], 'iadd', ()), 'frozenset|': (frozenset([1]), 'ior', {2}),
}


def builtin_cases():
    for k in BUILTIN_INPLACE:
        for n in (1, 2, 3):
            yield dict(part='builtin', what=k, times=n)


def run_builtin(world, case, rec, mode):
    from zope.security.proxy import Proxy
    from zope.security.proxy import getChecker
    from zope.security.proxy import getObject
    import copy
    value, opname, x = BUILTIN_INPLACE[case['what']]
    bare = copy.deepcopy(value)
    target = copy.deepcopy(value)
    zc = world.zc
    grants = dict.fromkeys(ops.all_names('c'), zc.CheckerPublic)
    c = zc.Checker(grants)
    p = q = Proxy(target, c)
    fn = PRIM[opname].fn
    for i in range(case['times']):
        res = fn(bare, x)
        same = res is bare
        got = fn(q, x)
        rec.step()
        msg = None
        if same:
            if got is not q:
                msg = 'not the same proxy'
            elif getObject(q) is not target or getChecker(q) is not c:
                msg = 'the proxy was changed'
            elif target != bare:
                msg = 'wrong value %r' % (target,)
        else:
            if getObject(p) is not target or getChecker(p) is not c:
                msg = 'the proxy was changed'
            elif target != value:
                msg = 'the object was changed'
            elif type(res) in (int, str):
                if got != res or type(got) is not type(res):
                    msg = 'wrong result %r' % (got,)
                case = dict(case, times=1)
            elif type(got) is not Proxy:
                msg = 'unprotected result'
            elif getObject(got) != res or getChecker(got) is not \
                    zc.getCheckerForInstancesOf(type(res)):
                msg = 'wrong result or checker'
        if msg:
            rec.violation('%s: %s' % (case['what'], msg),
                          fingerprint='%s/%s' % (mode, opname))
            return 'bad'
        if not same:
            break
    return same


# part 'changes': the registrations change between two operations

CHANGES = ['define', 'redefine', 'undefine', 'noproxy', 'factory',
           'basic', 'own', 'clear']


def change_cases():
    for o in VALUE_OPS:
        for h in itertools.product(CHANGES, repeat=2):
            yield dict(part='changes', op=o, history=h)


def run_changes(world, case, rec, mode):
    zc = world.zc
    op = PRIM[case['op']]

    class V:
        def __iter__(self):
            return self

        def __next__(self):
            return self
    v = V()
    target = Holder(v)
    x = X()
    bare = op.analog(mode)(target, x)
    if bare is not v and (bare is True or bare is False):
        return 'bool'
    p = make_subject(world, 'names', target)
    expected = ('proxy', zc._defaultChecker)
    registered = own = None

    def compare(when):
        if own is not None:
            want = ('proxy', own)
        elif registered is None:
            want = ('proxy', zc._defaultChecker)
        else:
            want = registered
        r = outcome(op.fn, p, x)
        rec.step()
        if r[0] == 'exc':
            msg = 'raised %r' % (r[1],)
        else:
            msg = check_result(world, r[1], bare, *want)
        if msg:
            rec.violation('%s after %s: %s' % (case['op'], when, msg),
                          fingerprint='%s/%s' % (mode, case['op']))
            raise StopIteration
    try:
        compare('start')
        for change in case['history']:
            if change in ('define', 'factory', 'noproxy') \
                    and registered is not None:
                zc.undefineChecker(V)
                registered = None
            if change == 'define':
                c = zc.Checker({})
                zc.defineChecker(V, c)
                registered = ('proxy', c)
            elif change == 'redefine':
                if registered is not None:
                    zc.undefineChecker(V)
                c = zc.NamesChecker(['a'])
                zc.defineChecker(V, c)
                registered = ('proxy', c)
            elif change == 'undefine':
                if registered is not None:
                    zc.undefineChecker(V)
                    zc.BasicTypes.pop(V, None)
                registered = None
            elif change == 'noproxy':
                zc.defineChecker(V, zc.NoProxy)
                registered = ('same', None)
            elif change == 'factory':
                c = zc.Checker({})
                zc.defineChecker(V, lambda o, c=c: c)
                registered = ('proxy', c)
            elif change == 'basic':
                zc.BasicTypes[V] = zc.NoProxy
                registered = ('same', None)
            elif change == 'own':
                own = V.__Security_checker__ = zc.Checker({})
            elif change == 'clear':
                basic = V in zc.BasicTypes
                zc._clear()
                registered = ('same', None) if basic else None
            compare(change)
    except StopIteration:
        return 'bad'
    finally:
        zc.BasicTypes.pop(V, None)
        zc._clear()
    return case['history'][-1]


def bounds(tier):
    return ('%d value-returning operations x %d kinds of results x %d ways to '
            'the proxy; %d consuming constructs x %d containers; in-place '
            'histories of length %d; two registration changes' % (
                len(VALUE_OPS), 83, len(CHECKERS), len(consumers()),
                len(CONTAINERS), 2 if tier == 'quick' else 3))


def jobs(tier):
    out = []
    for mode in ('c', 'pure'):
        out += lib.shards(2, mode=mode, part='results')
        for part in ('consume', 'builtin', 'changes'):
            out.append(dict(mode=mode, part=part))
        if tier == 'quick':
            out.append(dict(mode=mode, part='inplace', depth=2))
        else:
            out += lib.shards(4, mode=mode, part='inplace', depth=3)
    for mode in ('watch', 'purewatch'):
        out.append(dict(mode=mode, part='results'))
        out.append(dict(mode=mode, part='builtin'))
        out.append(dict(mode=mode, part='inplace', depth=1))
        if tier == 'thorough':
            out.append(dict(mode=mode, part='consume'))
            out.append(dict(mode=mode, part='changes'))
    return out


RUN = dict(results=run_results, consume=run_consume, inplace=run_inplace,
           builtin=run_builtin, changes=run_changes)


def explore(job, rec):
    world = World()
    kinds = list(world.kinds)
    rec.extra['kinds'] = len(kinds) if job['part'] == 'results' else 0
    part = job['part']
    if part == 'results':
        cases = result_cases(kinds)
    elif part == 'consume':
        cases = consume_cases(kinds)
    elif part == 'inplace':
        cases = inplace_cases(job['depth'])
    elif part == 'builtin':
        cases = builtin_cases()
    else:
        cases = change_cases()
    for case in lib.shard(cases, job):
        rec.case(case)
        rec.state((job['mode'], case))
        rec.trace('%s %s' % (part, RUN[part](world, case, rec, job['mode'])),
                  case)


def replay(case, rec, job):
    rec.trace(RUN[case['part']](World(), case, rec, job['mode']))
