"""C22: no operation on a proxy can crash or leak; garbage is reclaimed.

Parts.  ops: every operation with every behaviour of the object, every
operand and every way in which a checker, the policy or the protection of
results can answer or fail, repeated while the reference counts of everything
involved and the number of allocated blocks are watched.  calls: the
functions and constructors of the modules with every combination of odd
arguments, likewise.  memory: the operations with every single allocation
failing in turn.  cycles: every cycle up to the bound through proxies and
checkers, dropped, and with each of its members still in use.  chains: long
chains of every kind of link, freed with a small stack.  reentrant: in every
place where the code calls back, every sequence up to the bound of actions that
take away what it is using, with a memory allocator that overwrites what is
freed.
"""
import gc
import itertools
import operator
import sys
import threading
import weakref

from mc import lib
from mc import ops

ASSUMPTIONS = [
    'a leak shows in the reference counts of the objects involved or in the '
    'number of allocated blocks, the same each time an operation is repeated; '
    'immortal objects (None, small integers) have no reference counts',
    'checkers and policies may change the declarations, the registry and '
    'the proxies in use while they are asked, but not the wrapped object of '
    'the proxy in use (zope.proxy.setProxiedObject)',
]

REPEAT = 12
ops.INDEX = 1234567      # an object of its own each time
PRIM = {op.name: op for op in ops.primitives()}


class Boom(Exception):
    pass


class Interrupt(BaseException):
    pass


class Thing:
    """A value that needs protection."""


class Bad:
    """Of no use as a result."""

    def __bool__(self):
        raise Boom

    def __index__(self):
        return 'x'


ERRORS = {'raise': Boom, 'stop': StopIteration, 'attr': AttributeError,
          'interrupt': Interrupt, 'type': TypeError}
BEHAVIOURS = ['ret', 'self', 'ni', 'bad'] + list(ERRORS)
OPERANDS = ['thing', 'rock', 'proxy', 'same', 'target']
CACHE = {}


def target_class(behaviour, thing):
    names = {ops.dunder(n) for n in ops.UNSUPPORTED}
    names |= {ops.dunder(p + n) for n in ops.BINARY for p in ('', 'r', 'i')}
    names |= {ops.dunder(n) for n in ops.COMPARE + ops.UNARY}
    names -= {'__reduce_ex__', '__reduce__', '__sizeof__', '__getstate__',
              '__dir__', '__get__', '__set__', '__delete__', '__set_name__',
              '__instancecheck__', '__subclasscheck__', '__mro_entries__'}
    if behaviour == 'bare':
        names = {'__hash__'}        # supports nothing
    bad = Bad()

    def method(name):
        def special(self, *args, **kw):
            if behaviour in ERRORS:
                raise ERRORS[behaviour]
            if behaviour == 'self':
                return self
            if behaviour == 'ni':
                return NotImplemented
            if behaviour == 'bad':
                return bad
            if name == '__iter__':
                return iter([thing, 1])
            return ops.VALUES.get(name, thing)
        return special
    ns = {n: method(n) for n in names}

    def getattribute(self, name):
        if name.startswith('__'):
            return object.__getattribute__(self, name)
        if behaviour in ERRORS:
            raise ERRORS[behaviour]
        return thing

    def setattribute(self, name, value=None):
        if behaviour in ERRORS:
            raise ERRORS[behaviour]
    if behaviour != 'bare':
        ns.update(__getattribute__=getattribute, __setattr__=setattribute,
                  __delattr__=setattribute)
    return type('Target', (), ns)


# checkers

class Duck:
    """Has no operator shortcuts."""

    def __init__(self, fault):
        self.fault = fault

    def check(self, obj, name):
        if self.fault in ERRORS:
            raise ERRORS[self.fault]
        if self.fault == 'refuse-forbidden':
            from zope.security.interfaces import ForbiddenAttribute
            raise ForbiddenAttribute(name, obj)
        if self.fault == 'collect':
            gc.collect(0)
        return name

    check_getattr = check_setattr = check

    def proxy(self, value):
        if self.fault == 'proxy-raise':
            raise Boom
        if self.fault == 'proxy-checker':
            return self
        if self.fault == 'proxy-none':
            return None
        if self.fault == 'proxy-number':
            return 3
        return value


class MapDuck(Duck):
    def __setitem__(self, obj, name):
        self.check(obj, name)

    def __getitem__(self, value):
        return self.proxy(value)

    def __delitem__(self, obj):
        raise Boom


DUCK_FAULTS = ['ok', 'collect', 'refuse-forbidden', 'proxy-raise',
               'proxy-checker', 'proxy-none', 'proxy-number'] + list(ERRORS)


class Policy:
    """An interaction."""

    def __init__(self, fault):
        self.fault = fault
        self.checker = None

    def checkPermission(self, permission, obj):
        fault = self.fault
        if fault in ERRORS:
            raise ERRORS[fault]
        if fault == 'badbool':
            return Bad()
        if fault == 'object':
            return Thing()
        perms = self.checker.get_permissions, self.checker.set_permissions
        if fault.startswith('drop'):
            for d in perms:
                d.clear()
        if fault.startswith('reinit'):
            self.checker.__init__({}, {})
        if fault.startswith('replace'):
            for d in perms:
                for k in d:
                    d[k] = Permission(k)
        if fault == 'collect':
            gc.collect(0)
        return fault in ('ok', 'droptrue', 'reinittrue', 'replacetrue',
                         'collect')


class Permission(str):
    pass


POLICY_FAULTS = ['ok', 'no', 'badbool', 'object', 'dropfalse', 'droptrue',
                 'reinitfalse', 'reinittrue', 'replacefalse', 'replacetrue',
                 'collect'] + list(ERRORS)
RESULT_FAULTS = ['default', 'checker', 'noproxy', 'none', 'factory-raise',
                 'factory-none', 'factory-noproxy', 'factory-factory',
                 'factory-unregister', 'factory-notchecker', 'own-checker',
                 'own-none', 'own-raise', 'own-attr']


class Setup:
    """One checker with a way to answer or fail, and how to arm it."""

    def __init__(self, kind, fault):
        from zope.security import checker as zc
        from zope.security._definitions import thread_local
        self.kind, self.fault = kind, fault
        self.policy = self.thing = None
        self.arm = None
        self.thing_class = type('Result', (Thing,), {})
        self.registered = None
        names = sorted({n for op in PRIM.values()
                        for n in op.checks.values() if n}
                       | {'attr', 'other', '__3pow__'})
        public = dict.fromkeys(names, zc.CheckerPublic)
        if kind == 'duck':
            self.checker = Duck(fault)
        elif kind == 'mapduck':
            self.checker = MapDuck(fault)
        elif kind == 'nochecker':
            self.checker = Thing()
        elif kind in ('policy', 'sub', 'combined'):
            self.policy = Policy(fault)
            thread_local.interaction = self.policy
            cls = zc.Checker
            if kind == 'sub':
                cls = type('Sub', (zc.Checker,), {})
            perm = Permission('perm')
            perms = dict.fromkeys(names, perm)
            self.checker = cls(dict(perms), dict(perms))
            real = self.policy.checker = self.checker
            if kind == 'combined':
                self.checker = zc.CombinedChecker(zc.Checker({}), real)

            def arm():
                # permissions that nothing else keeps alive
                real.__init__({n: Permission(n) for n in names},
                              {n: Permission(n) for n in names})
            if fault.startswith(('drop', 'reinit', 'replace')):
                self.arm = arm
        elif kind == 'interaction':
            for n in ('interaction', 'previous_interaction'):
                if hasattr(thread_local, n):
                    delattr(thread_local, n)
            if fault == 'odd':
                thread_local.interaction = Thing()
            elif fault == 'none':
                thread_local.interaction = None
            self.checker = zc.Checker(dict.fromkeys(names, 'p'),
                                      dict.fromkeys(names, 'p'))
        elif kind == 'empty':
            self.checker = zc.Checker({}) if fault == 'get' else \
                zc.Checker({}, {}) if fault == 'set' else \
                zc.Checker.__new__(zc.Checker)
        elif kind == 'result':
            self.checker = zc.Checker(dict(public), dict(public))
            self.protect(zc, fault)
        self.thing = self.thing_class()
        self.own(zc, fault)

    def protect(self, zc, fault):
        c = zc.NamesChecker(['x'])
        cls = self.thing_class

        def unregister(obj):
            zc._checkers.pop(cls, None)
            return c

        def fail(obj):
            raise Boom
        value = {
            'checker': c, 'noproxy': zc.NoProxy, 'factory-raise': fail,
            'factory-none': lambda obj: None,
            'factory-noproxy': lambda obj: zc.NoProxy,
            'factory-factory': lambda obj: lambda obj: c,
            'factory-unregister': unregister,
            'factory-notchecker': lambda obj: Thing(),
        }.get(fault)
        if value is not None:
            zc._checkers[cls] = value
            self.registered = cls
            if fault == 'factory-unregister':
                def arm():
                    zc._checkers[cls] = unregister
                self.arm = arm
        if fault.startswith('own'):
            if fault == 'own-checker':
                cls.__Security_checker__ = c
            elif fault == 'own-none':
                cls.__Security_checker__ = None
            elif fault == 'own-raise':
                def own(self):
                    raise Boom
                cls.__Security_checker__ = property(own)
            elif fault == 'own-attr':
                def own(self):
                    raise AttributeError
                cls.__Security_checker__ = property(own)

    def own(self, zc, fault):
        pass

    def done(self):
        from zope.security import checker as zc
        from zope.security._definitions import thread_local
        for n in ('interaction', 'previous_interaction'):
            if n in thread_local.__dict__:
                delattr(thread_local, n)
        if self.registered is not None:
            zc._checkers.pop(self.registered, None)
        if self.policy is not None:
            self.policy.checker = None


SETUPS = ([('duck', f) for f in DUCK_FAULTS]
          + [('mapduck', f) for f in DUCK_FAULTS]
          + [('nochecker', '')]
          + [(k, f) for k in ('policy', 'sub', 'combined')
             for f in POLICY_FAULTS]
          + [('interaction', f) for f in ('missing', 'odd', 'none')]
          + [('empty', f) for f in ('get', 'set', 'uninit')]
          + [('result', f) for f in RESULT_FAULTS])
CALM = {('duck', 'ok'), ('mapduck', 'ok'), ('policy', 'ok'),
        ('policy', 'no'), ('combined', 'ok'), ('duck', 'raise'),
        ('mapduck', 'raise')}


# watching

def shared():
    """What every operation may use, with labels."""
    from zope.security import checker as zc
    from zope.security import interfaces
    from zope.security._definitions import thread_local
    if 'shared' not in CACHE:
        CACHE['shared'] = [
            ('the public marker', zc.CheckerPublic),
            ('the thread-local state', thread_local),
            ('the registry', zc._checkers),
            ('the default registry', zc._default_checkers),
            ('the default checker', zc._defaultChecker),
            ('the error for the forbidden', interfaces.ForbiddenAttribute),
            ('the error for the unauthorized', interfaces.Unauthorized),
        ] + [('the string ' + n, sys.intern(n)) for n in (
            'checkPermission', '__Security_checker__', '__getitem__',
            'interaction', 'check', 'check_getattr', 'check_setattr',
            'proxy', '__iter__', '__class__', '__str__', '__repr__',
            '__len__', '__call__', '__add__', 'attr', '__setitem__')]
    return CACHE['shared'] + [
        ('the interaction', getattr(thread_local, 'interaction', None))]


def leaks(fn, tracked, arm=None):
    """What repeating fn leaves behind or takes away, or None."""
    tracked = tracked + [o for _, o in shared()]
    for _ in range(3):
        if arm is not None:
            arm()
        fn()
    spare = [[o] * 100 for o in tracked]    # survive a reference too few
    found = None
    for attempt in range(4):
        if attempt:     # garbage in cycles and cached names are no leaks
            settle()
        before = [sys.getrefcount(o) for o in tracked]
        blocks = sys.getallocatedblocks()
        for _ in range(REPEAT):
            if arm is not None:
                arm()
            fn()
        if attempt:
            settle()
        blocks = sys.getallocatedblocks() - blocks
        after = [sys.getrefcount(o) for o in tracked]
        diff = [b - a for a, b in zip(before, after)]
        if not any(abs(d) >= REPEAT - 2 for d in diff) \
                and blocks < REPEAT - 2:
            del spare
            return None
        if any(d <= -(REPEAT - 2) for d in diff):
            spare.append([[o] * 1000 for o in tracked])
            CACHE.setdefault('keep', []).append(spare)
        found = (diff, blocks)
    return found


def settle():
    gc.collect()
    sys._clear_type_cache()


def judge(found, tracked, what, case, rec, mode):
    if found is None:
        return 'clean'
    diff, blocks = found
    parts = ['%+d references to %s' % (d, label)
             for (label, _), d in zip(tracked + shared(), diff)
             if abs(d) >= REPEAT - 2]
    rec.violation('%s, %d times: %s, %+d blocks' % (
        what, REPEAT, ', '.join(parts), blocks), case,
        fingerprint='%s/leak/%s' % (mode, what))
    return 'leak'


# part ops

def op_cases(job):
    for kind, fault in SETUPS:
        for b in BEHAVIOURS + ['bare']:
            if (kind, fault) not in CALM and b in ('stop', 'attr', 'type',
                                                   'interrupt', 'self') \
                    and job.get('tier') == 'quick':
                continue
            for n, op in PRIM.items():
                opnds = OPERANDS if op.operand else ['thing']
                if kind == 'result' or kind == 'policy' and \
                        job.get('tier') == 'quick':
                    opnds = opnds[:1]
                for x in opnds:
                    yield dict(part='ops', kind=kind, fault=fault,
                               behaviour=b, op=n, operand=x)


def run_op(case, rec, mode):
    from zope.security.proxy import Proxy
    setup = Setup(case['kind'], case['fault'])
    try:
        thing = setup.thing
        target = target_class(case['behaviour'], thing)()
        checker = setup.checker
        proxy = Proxy(target, checker)
        x = {'thing': Thing(), 'rock': 2, 'proxy': Proxy(Thing(), checker),
             'same': proxy, 'target': target}[case['operand']]
        op = PRIM[case['op']].fn

        def fn():
            try:
                op(proxy, x)
            except (Exception, Interrupt):
                pass
        tracked = [('the object', target), ('the checker', checker),
                   ('the proxy', proxy), ('the result', thing)]
        if case['operand'] in ('thing', 'proxy'):
            tracked.append(('the operand', x))
        found = leaks(fn, [o for _, o in tracked], setup.arm)
        if found is not None and case['behaviour'] in ('self', 'bad', 'ni'):
            # does Python itself leak for such an object?
            def bare():
                try:
                    op(target, x if x is not proxy else target)
                except (Exception, Interrupt):
                    pass
            if leaks(bare, [o for _, o in tracked], setup.arm) == found:
                found = None
        rec.step(REPEAT)
        return judge(found, tracked, case['op'], case, rec, mode)
    finally:
        setup.done()


# part attrs: what the code looks up on the objects themselves

HOOKS = ['__iter__', '__Security_checker__', '__class__', '__module__',
         '__name__', '__length_hint__', '__len__', '__hash__', '__str__',
         '__repr__', '__call__', '__add__', '__iadd__', '__getattr__', 'attr',
         '__bool__', '__int__', '__index__', '__getitem__', '__contains__']
HOOK_VALUES = ['none', 'thing', 'callable', 'checker', 'proxied', 'class',
               'text', 'attr', 'raise', 'interrupt', 'fresh']
HOOK_PLACES = ['class', 'property', 'instance', 'meta']


def hook_actions():
    from zope.security import checker as zc
    from zope.security import proxy as zp
    out = {}
    for n in ('__iter__', 'attr', '__x', '__add__'):
        out['check ' + n] = lambda t, c, p, n=n: c.check(t, n)
        out['check_setattr ' + n] = \
            lambda t, c, p, n=n: c.check_setattr(t, n)
    out.update({
        'iter': lambda t, c, p: iter(p), 'str': lambda t, c, p: str(p),
        'repr': lambda t, c, p: repr(p), 'len': lambda t, c, p: len(p),
        'hint': lambda t, c, p: operator.length_hint(p),
        'hash': lambda t, c, p: hash(p), 'call': lambda t, c, p: p(),
        'add': lambda t, c, p: p + 1, 'iadd': lambda t, c, p:
        operator.iadd(p, 1), 'bool': lambda t, c, p: bool(p),
        'int': lambda t, c, p: int(p), 'index': lambda t, c, p:
        operator.index(p), 'item': lambda t, c, p: p[0],
        'in': lambda t, c, p: 0 in p, 'get': lambda t, c, p: p.attr,
        'set': lambda t, c, p: setattr(p, 'attr', 1),
        'class': lambda t, c, p: p.__class__,
        'proxy': lambda t, c, p: c.proxy(t),
        'factory': lambda t, c, p: zc.ProxyFactory(t),
        'select': lambda t, c, p: zc.selectChecker(t),
        'canAccess': lambda t, c, p: zc.canAccess(p, 'attr'),
        'canWrite': lambda t, c, p: zc.canWrite(p, 'attr'),
        'isinstance': lambda t, c, p: zp.isinstance(p, int),
        'unproxied': lambda t, c, p: zp.removeSecurityProxy(t),
        'getChecker': lambda t, c, p: zp.getChecker(t),
        'new': lambda t, c, p: zp.Proxy(t, c)})
    return out


def attr_cases(job):
    for hook, value, place in itertools.product(HOOKS, HOOK_VALUES,
                                                HOOK_PLACES):
        if hook == '__hash__' and value in ('callable', 'class'):
            continue        # Python itself leaks what is no number
        for grants in (True, False):
            yield dict(part='attrs', hook=hook, value=value, place=place,
                       grants=grants)


def run_attr(case, rec, mode):
    from zope.security import checker as zc
    from zope.security.proxy import Proxy
    hook, place = case['hook'], case['place']
    own = zc.Checker({})
    value = {'none': lambda: None, 'thing': Thing, 'text': lambda: 'a text',
             'callable': lambda: lambda *a: value,
             'checker': lambda: own, 'class': lambda: Thing,
             'proxied': lambda: Proxy(Thing(), own)}.get(
                 case['value'], Thing)()

    def produce(self, *args):
        what = case['value']
        if what == 'attr':
            raise AttributeError('produced')
        if what == 'raise':
            raise Boom
        if what == 'interrupt':
            raise Interrupt
        if what == 'fresh':
            return Thing()
        return value
    attribute = property(produce) if place == 'property' or case['value'] in (
        'attr', 'raise', 'interrupt', 'fresh') else value
    ns, meta = {'attr': 1, '__slots__': ('__dict__', '__weakref__')}, {}
    if place == 'meta':
        meta[hook] = attribute
    elif place != 'instance':
        ns[hook] = attribute
    try:
        M = type('M', (type,), meta)
        C = M('C', (), ns)
        t = C()
        if place == 'instance':
            object.__getattribute__(t, '__dict__')[hook] = value
        grants = dict.fromkeys(ops.all_names('c') + [
            'attr', '__length_hint__', '__iter__', '__str__', '__repr__'],
            zc.CheckerPublic) if case['grants'] else {}
        c = zc.Checker(grants, {'attr': zc.CheckerPublic} if grants else {})
        p = Proxy(t, c)
    except (Exception, Interrupt):
        return 'no such class'
    for name, action in hook_actions().items():
        if name == 'in' and hook == '__getitem__':
            continue        # endless

        def fn():
            try:
                action(t, c, p)
            except (Exception, Interrupt):
                pass
        tracked = [('the object', t), ('the checker', c), ('the proxy', p),
                   ('its class', C), ('its own checker', own)]
        if value is not None:
            tracked.append(('the attribute', value))
        found = leaks(fn, [o for _, o in tracked])
        err = probe(lambda: action(t, c, p))
        rec.step(REPEAT)
        what = '%s with %s' % (name, hook)
        if err:
            rec.violation('%s: %s' % (what, err), case,
                          fingerprint='%s/system error' % mode)
            return 'system error'
        if judge(found, tracked, what, case, rec, mode) != 'clean':
            return 'leak'
    return 'clean'


# part calls: the modules' functions

class Raising(str):
    __slots__ = ()
    on = True

    def __hash__(self):
        raise Boom

    def __eq__(self, other):
        raise Boom


class RaisingEq(str):
    __slots__ = ()

    def __eq__(self, other):
        raise Boom

    __hash__ = str.__hash__


class OddClass:
    def __init__(self, how):
        object.__setattr__(self, 'how', how)

    @property
    def __class__(self):
        how = object.__getattribute__(self, 'how')
        if how == 'raise':
            raise Boom
        if how == 'attr':
            raise AttributeError
        if how == 'int':
            return 3
        if how == 'nomodule':
            return Nameless(None, 'n')
        if how == 'surrogate':
            return Nameless('\ud800', '\udfff')
        if how == 'numbers':
            return Nameless(1, 2)
        if how == 'badstr':
            return Nameless(BadStr(), 'n')
        if how == 'exception':
            return ValueError
        from zope.security.proxy import Proxy
        return Proxy


class BadStr:
    def __str__(self):
        raise Boom


class Nameless:
    def __init__(self, module, name):
        if module is not None:
            self.__dict__['__module__'] = module
        self.__dict__['__name__'] = name

    def __getattribute__(self, name):
        try:
            return object.__getattribute__(self, '__dict__')[name]
        except KeyError:
            raise AttributeError(name)


ODD_CLASSES = ['raise', 'attr', 'int', 'nomodule', 'surrogate', 'numbers',
               'badstr', 'exception', 'proxy']

NAME_MAKERS = {
    'plain': lambda: ''.join(['at', 'tr']),
    'dunder': lambda: ''.join(['__', 'add__']),
    'available': lambda: ''.join(['__', 'class__']),
    'iter': lambda: ''.join(['__', 'iter__']),
    'short': lambda: '_', 'empty': lambda: '', 'two': lambda: '__',
    'surrogate': lambda: '\ud800x', 'surrogate2': lambda: '__\udfff',
    'wide': lambda: '__\U0001f600',
    'nul': lambda: 'a\0b', 'long': lambda: 'n' * 100000,
    'raising': lambda: Raising('attr'), 'raising2': lambda: Raising('__x'),
    'raisingeq': lambda: RaisingEq('__x__'),
    'sub': lambda: Permission('attr'), 'sub2': lambda: Permission('__x__'),
    'bytes': lambda: b'attr', 'number': lambda: 10 ** 20,
    'none': lambda: None, 'list': lambda: ['attr'],
    'tuple': lambda: ('attr',), 'thing': Thing,
    'liar': lambda: ops.Liar('attr', 'other', 1),
}


def values():
    """The odd arguments."""
    from zope.security import checker as zc
    from zope.security.proxy import Proxy
    from zope.security.management import thread_local  # noqa: F401
    out = {k: OddClass(k) for k in ODD_CLASSES}
    out.update(
        none=None, thing=Thing(), number=10 ** 20, text='some text',
        names={'attr': zc.CheckerPublic, 'a': 'p'}, empty={}, nones={'a': None},
        items=[('a', 'p')], checker=zc.Checker({'attr': zc.CheckerPublic}),
        proxy=Proxy(Thing(), zc.Checker({})), cls=Thing, error=Boom(),
        oddkeys={Raising.__mro__[1]('q'): 1, 5: 6, ('x',): None},
        proxied_dict=Proxy({'a': 'p'}, zc.Checker({})))
    return out


def call_table():
    """(name, function of a list of arguments, number of arguments)"""
    from zope.security import checker as zc
    from zope.security import proxy as zp
    Proxy, Checker = zp.Proxy, zc.Checker
    out = []

    def add(name, fn, n):
        out.append((name, fn, n))
    for n in range(4):
        add('Proxy/%d' % n, lambda a: Proxy(*a), n)
    add('Proxy kw', lambda a: Proxy(object=a[0], checker=a[1]), 2)
    add('Proxy kw2', lambda a: Proxy(a[0], chequer=a[1]), 2)
    add('Proxy.__new__', lambda a: Proxy.__new__(Proxy, *a), 2)
    add('Proxy.__new__ odd', lambda a: Proxy.__new__(a[0], a[1], a[1]), 2)
    add('Proxy.__init__', lambda a: Proxy.__init__(
        Proxy(a[0], Checker({})), *a[1:]), 2)
    for n in range(4):
        add('Checker/%d' % n, lambda a: Checker(*a), n)
    add('Checker kw', lambda a: Checker(get_permissions=a[0],
                                        set_permissions=a[1]), 2)

    def reinit(a):
        c = Checker({'z': 1}, {'y': 2})
        c.__init__(*a)
        return c.get_permissions, c.set_permissions
    add('reinit/1', reinit, 1)
    add('reinit/2', reinit, 2)
    for n in ('getChecker', 'getObject', 'removeSecurityProxy',
              'getTestProxyItems'):
        add(n, lambda a, f=getattr(zp, n): f(*a), 1)
    for n in ('selectChecker', 'ProxyFactory', 'getCheckerForInstancesOf'):
        add(n, lambda a, f=getattr(zc, n): f(*a), 1)
    add('ProxyFactory/2', lambda a: zc.ProxyFactory(*a), 2)
    add('isinstance', lambda a: zp.isinstance(*a), 2)
    add('canAccess', lambda a: zc.canAccess(a[0], 'attr'), 1)
    add('canWrite', lambda a: zc.canWrite(a[0], 'attr'), 1)

    def uninitialised(name):
        def fn(a):
            c = Checker.__new__(Checker)
            r = getattr(c, name)
            return r(*a) if callable(r) else r
        return fn
    for n, k in (('get_permissions', 0), ('set_permissions', 0),
                 ('proxy', 1), ('check', 2), ('permission_id', 1)):
        add('uninitialised ' + n, uninitialised(n), k)
    add('checker[value]', lambda a: Checker({})[a[0]], 1)

    def setitem(a):
        Checker({'attr': zc.CheckerPublic})[a[0]] = a[1]
    add('checker[a]=b', setitem, 2)

    def delitem(a):
        del Checker({'attr': zc.CheckerPublic})[a[0]]
    if zc.Checker is not zc.CheckerPy:
        add('del checker[a]', delitem, 1)
    add('checker.proxy', lambda a: Checker({}).proxy(a[0]), 1)
    for n in ('check', 'check_getattr', 'check_setattr'):
        add('checker.%s/1' % n, lambda a, n=n: getattr(
            Checker({'attr': 'p'}), n)(*a), 1)
        add('checker.%s/3' % n, lambda a, n=n: getattr(
            Checker({'attr': 'p'}), n)(*a), 3)
    add('combined', lambda a: zc.CombinedChecker(*a), 2)
    add('combined check', lambda a: zc.CombinedChecker(
        Checker({}), Checker({'attr': 'p'})).check(a[0], 'attr'), 1)
    add('length_hint', lambda a: zp.Proxy.__length_hint__(*a), 1)
    for n in ('__str__', '__repr__'):
        add('refused ' + n, lambda a, n=n: getattr(Proxy, n)(
            Proxy(a[0], Duck('raise'))), 1)
    for n in ('__add__', '__radd__', '__iadd__', '__pow__', '__getitem__',
              '__contains__', '__call__', '__eq__', '__getattribute__'):
        add('slot ' + n, lambda a, n=n: getattr(Proxy, n)(*a), 2)
    return out


class Yes:
    def checkPermission(self, permission, obj):
        return True


def call_cases(job):
    vals = list(values())
    for name, fn, n in call_table():
        for args in itertools.product(vals, repeat=min(n, 2)):
            if n == 3:
                args += (args[0],)
            yield dict(part='calls', call=name, args=list(args))
    for who in ('names', 'duck', 'mapduck', 'combined', 'public', 'uninit'):
        for how in ('get', 'set', 'del', 'check', 'check_getattr',
                    'check_setattr', 'permission_id', 'setitem',
                    'setattr_permission_id', 'get3', 'hasattr'):
            for name in NAME_MAKERS:
                for target in ('thing', 'raise', 'ret'):
                    for decision in ('ok', 'no', 'raise'):
                        yield dict(part='names', who=who, how=how, name=name,
                                   target=target, decision=decision)


def run_call(case, rec, mode):
    from zope.security._definitions import thread_local
    fn = {n: f for n, f, _ in call_table()}[case['call']]
    thread_local.interaction = Yes()
    try:
        vals = values()
        args = [vals[a] for a in case['args']]

        def once():
            try:
                fn(args)
            except (Exception, Interrupt):
                pass
        tracked = [(k, v) for k, v in vals.items()
                   if k in case['args'] and v is not None]
        try:
            found = leaks(once, [o for _, o in tracked])
        except SystemError as e:
            rec.violation('%s: %r' % (case['call'], e), case,
                          fingerprint='%s/system error' % mode)
            return 'system error'
        sysErr = probe(lambda: fn(args))
        rec.step(REPEAT)
        if sysErr:
            rec.violation('%s: %s' % (case['call'], sysErr), case,
                          fingerprint='%s/system error' % mode)
            return 'system error'
        return judge(found, tracked, case['call'], case, rec, mode)
    finally:
        del thread_local.interaction


def probe(fn):
    """A SystemError means a C function broke the rules."""
    try:
        fn()
    except SystemError as e:
        return repr(e)
    except (Exception, Interrupt):
        pass
    return None


def run_name(case, rec, mode):
    from zope.security import checker as zc
    from zope.security._definitions import thread_local
    from zope.security.proxy import Proxy
    name = NAME_MAKERS[case['name']]()
    policy = Policy(case['decision'])
    thread_local.interaction = policy
    try:
        perms = {'attr': Permission('p'), '__add__': Permission('p'),
                 '__x': Permission('q')}
        real = zc.Checker(perms, dict(perms))
        policy.checker = real
        checker = {
            'names': lambda: real,
            'duck': lambda: Duck(case['decision']),
            'mapduck': lambda: MapDuck(case['decision']),
            'combined': lambda: zc.CombinedChecker(zc.Checker({}), real),
            'public': lambda: zc.Checker(
                dict.fromkeys(perms, zc.CheckerPublic)),
            'uninit': lambda: zc.Checker.__new__(zc.Checker),
        }[case['who']]()
        target = (Thing() if case['target'] == 'thing'
                  else target_class(case['target'], Thing())())
        proxy = Proxy(target, checker)
        how = case['how']

        def setitem():
            checker[target] = name
        fn = {
            'get': lambda: getattr(proxy, name),
            'get3': lambda: getattr(proxy, name, 3),
            'hasattr': lambda: hasattr(proxy, name),
            'set': lambda: setattr(proxy, name, target),
            'del': lambda: delattr(proxy, name),
            'setitem': setitem,
            'permission_id': lambda: checker.permission_id(name),
            'setattr_permission_id':
                lambda: checker.setattr_permission_id(name),
        }.get(how) or (lambda: getattr(checker, how)(target, name))

        def once():
            try:
                fn()
            except (Exception, Interrupt):
                pass
        tracked = [('the object', target), ('the checker', checker),
                   ('the proxy', proxy)]
        if type(name) is not str or len(name) > 1:
            tracked.append(('the name', name))
        found = leaks(once, [o for _, o in tracked])
        err = probe(fn)
        rec.step(REPEAT)
        if err:
            rec.violation('%s of %s: %s' % (how, case['name'], err), case,
                          fingerprint='%s/system error' % mode)
            return 'system error'
        return judge(found, tracked, how, case, rec, mode)
    finally:
        policy.checker = None
        del thread_local.interaction


# part memory

def memory_cases(job):
    for n, op in PRIM.items():
        for subject in ('list', 'dict', 'number', 'instance', 'function',
                        'iterator', 'error', 'text'):
            for kind in ('granted', 'policy', 'refused', 'forbidden',
                         'duck'):
                yield dict(part='memory', op=n, subject=subject, kind=kind)
    for call in ('Proxy', 'Checker', 'selectChecker', 'ProxyFactory',
                 'get_permissions', 'set_permissions', 'check',
                 'check_setattr', 'proxy'):
        yield dict(part='memory', call=call)


class Instance:
    attr = ()
    other = ()

    def __init__(self):
        self.x = ()

    def __add__(self, other):
        return self

    __radd__ = __call__ = __iadd__ = __getitem__ = __add__

    def __iter__(self):
        return iter(())

    def __setitem__(self, k, v):
        pass


class Refusing:
    def checkPermission(self, permission, obj):
        return False


def run_memory(case, rec, mode):
    import _testcapi
    from zope.security import checker as zc
    from zope.security._definitions import thread_local
    from zope.security.proxy import Proxy
    names = ['attr', 'other', '__3pow__'] + sorted(
        {ops.dunder(p + n) for n in ops.BINARY for p in ('', 'r', 'i')}
        | {ops.dunder(n) for n in ops.UNARY + ops.UNSUPPORTED}
        - {'__class__'})
    untouched = None
    if 'call' in case:
        d = {'attr': 'p'}
        thing = Instance()
        ck = zc.Checker(d, d)
        thread_local.interaction = Refusing()

        def uninit():
            return zc.Checker.__new__(zc.Checker)
        fn = {
            'Proxy': lambda: Proxy(thing, ck),
            'Checker': lambda: zc.Checker(d, d),
            'selectChecker': lambda: zc.selectChecker(thing),
            'ProxyFactory': lambda: zc.ProxyFactory(thing),
            'get_permissions': lambda: uninit().get_permissions,
            'set_permissions': lambda: uninit().set_permissions,
            'check': lambda: ck.check(thing, 'attr'),
            'check_setattr': lambda: ck.check_setattr(thing, 'attr'),
            'proxy': lambda: ck.proxy(thing),
        }[case['call']]
        tracked = [('the object', thing), ('the checker', ck),
                   ('the permissions', d)]

        def call():
            return fn()
        refusing = case['call'] in ('check', 'check_setattr')
    else:
        kind = case['kind']
        if kind == 'granted':
            ck = zc.Checker(dict.fromkeys(names, zc.CheckerPublic),
                            dict.fromkeys(names, zc.CheckerPublic))
        elif kind == 'forbidden':
            ck = zc.Checker({}, {})
        elif kind == 'duck':
            ck = Duck('raise')
        else:
            ck = zc.Checker(dict.fromkeys(names, 'p'),
                            dict.fromkeys(names, 'p'))
            thread_local.interaction = (Yes() if kind == 'policy'
                                        else Refusing())
        target = {'list': lambda: [1, 2, 3], 'dict': lambda: {1: 2},
                  'number': lambda: 1000, 'instance': Instance,
                  'function': lambda: lambda *a, **k: a,
                  'iterator': lambda: iter([(), ()] * 1000),
                  'error': lambda: ValueError(1),
                  'text': lambda: 'some text'}[case['subject']]()
        if kind in ('refused', 'forbidden', 'duck'):
            target = Watched()
            untouched = target
        p = Proxy(target, ck)
        x = 2
        op = PRIM[case['op']].fn

        def call():
            return op(p, x)
        tracked = [('the object', target), ('the checker', ck),
                   ('the proxy', p)]
        refusing = PRIM[case['op']].kind not in ('public', 'text') \
            and case['op'] != 'getattr3' and untouched is not None
    try:
        # warm up
        for _ in range(3):
            try:
                call()
            except Exception:
                pass
        blocks = refs = None
        k = 0
        while k < 200:
            rounds = []
            for _ in range(2):
                before = [sys.getrefcount(o) for _, o in tracked]
                Watched.touched = 0
                got = None
                _testcapi.set_nomemory(k, k + 1)
                try:
                    call()
                    got = 'ret'
                except MemoryError:
                    got = 'memory'
                except Exception as e:
                    # Python itself, too, fails with SystemErrors at times
                    got = 'exc'
                    err = e
                    del e
                finally:
                    _testcapi.remove_mem_hooks()
                after = [sys.getrefcount(o) for _, o in tracked]
                if got == 'exc':
                    err = None
                    after = [sys.getrefcount(o) for _, o in tracked]
                rounds.append([b - a for a, b in zip(before, after)])
            rec.step(2)
            if refusing and got == 'ret':
                rec.violation('allocation %d failed, and the operation was '
                              'not refused' % k, case,
                              fingerprint='%s/memory/granted' % mode)
                return 'bad'
            if untouched is not None and Watched.touched \
                    and refusing:
                rec.violation('allocation %d failed, and the object was '
                              'touched' % k, case,
                              fingerprint='%s/memory/touched' % mode)
                return 'bad'
            if all(any(r) for r in rounds):
                rec.violation('allocation %d failed: references %r to %r' % (
                    k, rounds, [n for n, _ in tracked]), case,
                    fingerprint='%s/memory/leak' % mode)
                return 'bad'
            if got != 'memory' and k > 12:
                break
            k += 1
        rec.extra['failed_allocations'] = rec.extra.get(
            'failed_allocations', 0) + k
        return got
    finally:
        if hasattr(thread_local, 'interaction'):
            del thread_local.interaction


class Watched:
    """Must not be touched."""
    touched = 0


def _touch(name):
    def special(self, *args):
        Watched.touched += 1
        return self
    return special


for _n in [ops.dunder(p + n) for n in ops.BINARY for p in ('', 'r', 'i')] + [
        '__call__', '__getitem__', '__setitem__', '__delitem__', '__iter__',
        '__next__', '__neg__', '__contains__', '__len__', '__int__',
        '__index__', '__float__']:
    setattr(Watched, _n, _touch(_n))


# part cycles

class Node:
    """Shows whether it was freed."""

    def __init__(self, alive):
        self.alive = alive
        alive.append(1)
        self.next = None

    def __del__(self):
        self.alive.pop()


def link_kinds():
    from zope.security import checker as zc
    from zope.security.proxy import Proxy

    class SubProxy(Proxy):
        __slots__ = ('extra',) if Proxy is not zc_pure_proxy() else ()

    class SubChecker(zc.Checker):
        pass
    ck = zc.Checker({})

    def inst(x, alive):
        n = Node(alive)
        n.next = x
        return n

    def same_checker(x, alive):
        d = {'x': x}
        return zc.Checker(d, d)
    return {
        'proxy.object': lambda x, a: Proxy(x, ck),
        'proxy.checker': lambda x, a: Proxy(Node(a), x),
        'proxy.both': lambda x, a: Proxy(x, zc.Checker({'x': x})),
        'subproxy.object': lambda x, a: SubProxy(x, ck),
        'subproxy.checker': lambda x, a: SubProxy(Node(a), x),
        'checker.get': lambda x, a: zc.Checker({'x': x}),
        'checker.set': lambda x, a: zc.Checker({}, {'x': x}),
        # one object in both places
        'checker.same': same_checker,
        'proxy.same': lambda x, a: Proxy(x, x),
        'combined.same': lambda x, a: zc.CombinedChecker(
            *[zc.Checker({'x': x})] * 2),
        'subchecker.get': lambda x, a: SubChecker({'x': x}, {'x': x}),
        'combined.1': lambda x, a: zc.CombinedChecker(
            zc.Checker({'x': x}), ck),
        'combined.2': lambda x, a: zc.CombinedChecker(
            ck, zc.Checker({}, {'x': x})),
        'instance': inst,
        'list': lambda x, a: [x, Node(a)],
        'method': lambda x, a: inst(x, a).__init__,
        'iterator': lambda x, a: iter([x]),
        'proxied list': lambda x, a: zc.ProxyFactory([x]),
        'proxied dict': lambda x, a: zc.ProxyFactory({1: x}),
        'proxied values': lambda x, a: zc.ProxyFactory({1: x}).values(),
        'proxied iterator': lambda x, a: iter(zc.ProxyFactory([x])),
    }


def zc_pure_proxy():
    from zope.security.proxy import ProxyPy
    return ProxyPy


CLOSERS = ['instance', 'list', 'dict', 'checker.get', 'checker.set',
           'proxied list']


def close(kind, alive):
    """An object that can be made to refer to another one later."""
    from zope.security import checker as zc
    if kind == 'instance':
        n = Node(alive)
        return n, lambda x: setattr(n, 'next', x)
    if kind == 'list':
        v = [Node(alive)]
        return v, v.append
    if kind == 'dict':
        d = {1: Node(alive)}
        return d, lambda x: d.__setitem__(2, x)
    if kind == 'proxied list':
        v = [Node(alive)]
        return zc.ProxyFactory(v), v.append
    c = zc.Checker({'n': Node(alive)}, {'n': 1})
    d = c.get_permissions if kind == 'checker.get' else c.set_permissions
    return c, lambda x: d.__setitem__('y', x)


def cycle_cases(job):
    kinds = list(link_kinds())
    depth = 2 if job.get('tier') == 'quick' else 3
    for n in range(depth + 1):
        for links in itertools.product(kinds, repeat=n):
            for closer in CLOSERS:
                for hold in [None] + list(range(n + 1)):
                    yield dict(part='cycles', links=list(links),
                               closer=closer, hold=hold)


def run_cycle(case, rec, mode):
    alive = []
    made = build_cycle(case, alive)
    total = len(alive)
    if case['hold'] is not None:
        # a member still in use keeps everything, intact
        held = made[case['hold']]
        del made
        gc.collect()
        if len(alive) != total:
            rec.violation('%d of %d objects in use were collected' % (
                total - len(alive), total), case,
                fingerprint='%s/collected in use' % mode)
            return 'bad'
        bad = broken(held, set(), 0)
        if bad:
            rec.violation(bad, case, fingerprint='%s/broken in use' % mode)
            return 'bad'
        del held
    else:
        del made
    gc.collect()
    rec.step(len(case['links']) + 1)
    if alive:
        rec.violation('%d of %d objects are never freed' % (
            len(alive), total), case, fingerprint='%s/uncollectable' % mode)
        return 'bad'
    return 'freed %d' % total


def build_cycle(case, alive):
    x, closer = close(case['closer'], alive)
    made = [x]
    kinds = CACHE.get('links') or CACHE.setdefault('links', link_kinds())
    for k in case['links']:
        x = kinds[k](x, alive)
        made.append(x)
    closer(x)
    return made


def broken(x, seen, depth):
    """Is something of what is in use not usable any more?"""
    from zope.security.proxy import getChecker
    from zope.security.proxy import getObject
    from zope.security.proxy import Proxy
    if id(x) in seen or depth > 12:
        return None
    seen.add(id(x))
    if issubclass(type(x), Proxy):
        for part in (getObject(x), getChecker(x)):
            if part is None:
                return 'a proxy in use lost its parts'
            r = broken(part, seen, depth + 1)
            if r:
                return r
        try:
            repr(x)
        except Exception:
            pass                # its "checker" may be no checker at all
    elif type(x) is Node:
        return broken(x.next, seen, depth + 1)
    elif type(x).__name__ in ('Checker', 'SubChecker', 'CheckerPy'):
        if not (x.get_permissions or x.set_permissions
                or depth and True):
            return 'a checker in use lost its permissions'
        for v in (*x.get_permissions.values(), *x.set_permissions.values()):
            r = broken(v, seen, depth + 1)
            if r:
                return r
    return None


# part finalizers: collections and inspections while something is freed

def _look():
    for x in gc.get_objects():
        type(x)


def _reuse():
    from zope.security import checker as zc
    keep = [zc.ProxyFactory([i]) for i in range(50)]
    keep += [zc.Checker({'a': 1}, {'b': 2}) for i in range(50)]
    gc.collect()


FINAL = {'collect': gc.collect, 'young': lambda: gc.collect(0),
         'look': _look, 'reuse': _reuse}


class Reaper(Node):
    def __init__(self, alive, act):
        super().__init__(alive)
        self.act = act

    def __del__(self):
        self.alive.pop()
        act, self.act = self.act, None
        FINAL[act]()


def final_cases(job):
    kinds = list(link_kinds())
    for n in (1, 2):
        for links in itertools.product(kinds, repeat=n):
            for act in FINAL:
                for cyclic in (False, True):
                    yield dict(part='finalizers', links=list(links),
                               act=act, cyclic=cyclic)


def run_final(case, rec, mode):
    alive = []
    kinds = CACHE.get('links') or CACHE.setdefault('links', link_kinds())
    r = x = Reaper(alive, case['act'])
    for k in case['links']:
        x = kinds[k](x, alive)
    if case['cyclic']:
        r.next = x
    r = None
    rec.step()
    x = None
    gc.collect()
    if alive:
        rec.violation('%d objects are never freed' % len(alive), case,
                      fingerprint='%s/finalizers' % mode)
        return 'bad'
    return 'freed'


# part referents: what the collector sees of a proxy or checker

def run_referents(case, rec, mode):
    from zope.security import checker as zc
    from zope.security.proxy import Proxy
    o, c = Thing(), zc.Checker({'a': 1}, {'b': 2})

    def sees(x, *want):
        # the class counts only for some kinds of classes
        return sorted(id(r) for r in gc.get_referents(x)
                      if r is not type(x)) == sorted(map(id, want))
    for o, c in ((o, c), (c, c)):
        p = Proxy(o, c)
        if not sees(p, o, c):
            rec.violation('the collector sees %r of a proxy' % (
                gc.get_referents(p),), case, fingerprint='referents')
    d = {'a': 1}
    for args in (({'a': 1},), ({'a': 1}, {'b': 2}), (d, d)):
        c = zc.Checker(*args)
        if 'pure' not in mode and not sees(c, *args):
            rec.violation('the collector sees %r of a checker' % (
                gc.get_referents(c),), case, fingerprint='referents')
    if not gc.is_tracked(p) or not gc.is_tracked(c):
        rec.violation('not tracked', case, fingerprint='tracked')
    rec.step(3)
    return 'ok'


# part reentrant: whatever is called back pulls the rug away

class Result:
    pass


class Hashed(str):
    """A name that is noticed when it is looked up."""

    fire = None

    def __hash__(self):
        if self.fire is not None and FIRE[0] is not None:
            FIRE[0](self.fire + ' hash')
        return str.__hash__(self)

    def __eq__(self, other):
        if self.fire is not None and FIRE[0] is not None:
            FIRE[0](self.fire + ' eq')
        return str.__eq__(self, other)


FIRE = [None]
POINTS = ['policy yes', 'policy no', 'policy fails', 'answer yes',
          'answer no', 'interaction', 'name hash', 'name eq', 'key eq',
          'lookup', 'method', 'setting', 'own', 'own none', 'class',
          'factory', 'factories', 'meta hash', 'meta eq', 'default eq',
          'duck check', 'duck proxy']
RUGS = ['drop get', 'drop set', 'reinit', 'forget', 'redefine', 'unregister',
        'collect', 'end', 'new interaction', 'no own', 'no attributes',
        'no methods', 'other class', 'no defaults', 'replace', 'grow']


def reentrant_ops():
    from zope.security import checker as zc
    out = {}
    for n in ('attr', '__iter__', '__getitem__', '__x__', '__class__'):
        out['check ' + n] = lambda c, p, r, name, n=n: c.check(p(), name(n))
        out['check_getattr ' + n] = lambda c, p, r, name, n=n: \
            c.check_getattr(p(), name(n))
        out['check_setattr ' + n] = lambda c, p, r, name, n=n: \
            c.check_setattr(p(), name(n))
        out['permission_id ' + n] = lambda c, p, r, name, n=n: \
            c.permission_id(name(n))
        out['setattr_permission_id ' + n] = lambda c, p, r, name, n=n: \
            c.setattr_permission_id(name(n))

    def setitem(c, p, r, name):
        c[p()] = name('attr')
    out.update({
        'c[]=': setitem,
        'proxy': lambda c, p, r, name: c.proxy(r()),
        'c[]': lambda c, p, r, name: c[r()],
        'select': lambda c, p, r, name: zc.selectChecker(r()),
        'factory': lambda c, p, r, name: zc.ProxyFactory(r()),
        'instances': lambda c, p, r, name:
            zc.getCheckerForInstancesOf(type(r())),
        'get': lambda c, p, r, name: getattr(p.p, name('attr')),
        'set': lambda c, p, r, name: setattr(p.p, name('attr'), 1),
        'del': lambda c, p, r, name: delattr(p.p, name('attr')),
        'canAccess': lambda c, p, r, name: zc.canAccess(p.p, name('attr')),
        'canWrite': lambda c, p, r, name: zc.canWrite(p.p, name('attr')),
        'str': lambda c, p, r, name: str(p.p),
        'repr': lambda c, p, r, name: repr(p.p),
        'len': lambda c, p, r, name: len(p.p),
        'iter': lambda c, p, r, name: iter(p.p),
        'next': lambda c, p, r, name: next(p.p),
        'call': lambda c, p, r, name: p.p(),
        'item': lambda c, p, r, name: p.p[0],
        'setitem': lambda c, p, r, name: operator.setitem(p.p, 0, 1),
        'delitem': lambda c, p, r, name: operator.delitem(p.p, 0),
        'in': lambda c, p, r, name: 0 in p.p,
        'add': lambda c, p, r, name: p.p + 1,
        'radd': lambda c, p, r, name: 1 + p.p,
        'iadd': lambda c, p, r, name: operator.iadd(p.p, 1),
        'pow': lambda c, p, r, name: pow(p.p, 2),
        'neg': lambda c, p, r, name: -p.p,
        'eq': lambda c, p, r, name: p.p == 1,
        'hash': lambda c, p, r, name: hash(p.p),
        'bool': lambda c, p, r, name: bool(p.p),
        'int': lambda c, p, r, name: int(p.p),
        'index': lambda c, p, r, name: operator.index(p.p),
        'hint': lambda c, p, r, name: operator.length_hint(p.p)})
    return out


REENTRANT_NAMES = ['attr', '__str__', '__repr__', '__len__', '__iter__',
                   '__next__', '__call__', '__getitem__', '__setitem__',
                   '__delitem__', '__contains__', '__add__', '__radd__',
                   '__iadd__', '__pow__', '__neg__', '__int__', '__index__',
                   '__float__', '__x__']


class Wobble:
    """Everything that is called back, made afresh for each case."""

    def __init__(self, point, rugs, mode):
        from zope.security import checker as zc
        from zope.security._definitions import thread_local
        from zope.security.proxy import Proxy
        self.zc, self.tl = zc, thread_local
        self.point, self.rugs, self.fired = point, rugs, 0
        self.saved = (dict(zc._checkers), list(zc._available_by_default))
        fire = self.fire
        kind = point.split()[0]

        def method(name):
            def special(*args):
                fire('method')
                return {'__str__': 's', '__repr__': 'r', '__len__': 1,
                        '__int__': 1, '__index__': 1, '__float__': 1.0,
                        '__contains__': True, '__hash__': 5,
                        '__bool__': True}.get(
                            name) or (iter([1]) if name == '__iter__'
                                      else self.result())
            return special
        ns = {n: method(n) for n in REENTRANT_NAMES + ['__eq__', '__hash__',
                                                       '__bool__']
              if n.startswith('__')}
        if kind == 'lookup':
            def __getattribute__(s, name):
                fire('lookup')
                return object.__getattribute__(s, name)
            ns['__getattribute__'] = __getattribute__
            del ns['__iter__']
        if kind == 'setting':
            def __setattr__(s, name, value=None):
                fire('setting')
            ns['__setattr__'] = ns['__delattr__'] = __setattr__
        self.Target = type('Target', (), ns)
        self.Other = type('Other', (), dict(ns))

        class Meta(type):
            if kind == 'meta':
                def __hash__(cls):
                    fire('meta hash')
                    return 77

                def __eq__(cls, other):
                    fire('meta eq')
                    return cls is other
        ns = {}
        if kind == 'class':
            ns['__class__'] = property(
                lambda s: (fire('class'), Result)[1])
        elif kind == 'own':
            ns['__Security_checker__'] = property(
                lambda s: (fire(point), None if point == 'own none'
                           else zc.NamesChecker(['a']))[1])
        elif kind in ('lookup', 'interaction'):
            ns['__Security_checker__'] = zc.NamesChecker(['b'])
        self.Result = Meta('Result', (), ns)

        def factory(obj):
            fire('factory')
            return zc.NamesChecker(['c'])

        def factories(obj):
            fire('factories')
            return lambda obj: (fire('factories'), factory)[1]
        if kind == 'factory':
            zc._checkers[self.Result] = factory
        elif kind == 'factories':
            zc._checkers[self.Result] = factories
        elif kind in ('meta', 'class', 'method'):
            zc._checkers[self.Result] = zc.NamesChecker(['d'])

            class Same(Meta):
                pass
            if kind == 'meta':
                for i in range(3):
                    zc._checkers[Meta('Result%d' % i, (), {})] = \
                        zc.NamesChecker(['e'])
        del factory, factories

        class Answer:
            def __bool__(s):
                fire(point)
                return point == 'answer yes'

        def check(permission, obj):
            fire(point)
            if point == 'policy fails':
                raise Boom(permission)
            return Answer() if kind == 'answer' else point != 'policy no'

        class Interaction:
            @property
            def checkPermission(s):
                if kind == 'interaction':
                    fire('interaction')
                return check
        self.tl.interaction = Interaction()
        self.Interaction = Interaction
        if kind == 'duck':
            class Duck:
                def check(s, obj, name):
                    fire('duck check')

                check_getattr = check_setattr = check

                def proxy(s, value):
                    fire('duck proxy')
                    return Proxy(value, s)

                def permission_id(s, name):
                    return None

                setattr_permission_id = permission_id
            checker = Duck()
        else:
            checker = zc.Checker(self.perms(), self.perms())
        if point == 'default eq':
            zc._available_by_default[:] = [self.name('__x'), '__class__']
        self.p = Proxy(self.target(), checker)
        self.c = checker

    def name(self, n):
        if self.point.startswith('name') or self.point == 'default eq':
            x = Hashed(n)
            x.fire = self.point.split()[0]
            return x
        return n

    def perms(self):
        d = {}
        for n in REENTRANT_NAMES:
            if self.point.startswith('name eq'):
                n = Permission(n)       # equal but not identical
            elif self.point == 'key eq':
                n = Hashed(n)
                n.fire = 'key'
            d[n] = Permission('permission')
        if self.point in ('lookup', 'default eq'):
            for n in ('__iter__', '__x__'):
                d.pop(n, None)
        return d

    def target(self):
        t = self.Target()
        t.__dict__['attr'] = self.result()
        return t

    def result(self):
        return self.Result()

    def __call__(self):
        from zope.security.proxy import getObject
        return getObject(self.p)

    def fire(self, point):
        if point != self.point or self.fired or not self.live:
            return
        self.fired = 1
        for rug in self.rugs:
            try:
                self.pull(rug)
            except (AttributeError, KeyError, TypeError):
                pass

    live = False

    def pull(self, rug):
        from zope.security.proxy import getObject
        zc = self.zc
        if rug == 'drop get':
            self.c.get_permissions.clear()
        elif rug == 'drop set':
            self.c.set_permissions.clear()
        elif rug == 'reinit':
            self.c.__init__({}, {})
        elif rug == 'replace':
            for d in self.c.get_permissions, self.c.set_permissions:
                for k in list(d):
                    d[k] = Permission('new')
        elif rug == 'grow':
            for d in self.c.get_permissions, self.c.set_permissions, \
                    zc._checkers:
                for k in range(1000):
                    d[Permission(k)] = zc.NoProxy
        elif rug == 'forget':
            del zc._checkers[self.Result]
        elif rug == 'redefine':
            zc._checkers[self.Result] = zc.NamesChecker(['z'])
        elif rug == 'unregister':
            zc._checkers.clear()
        elif rug == 'collect':
            gc.collect()
        elif rug == 'end':
            del self.tl.interaction
        elif rug == 'new interaction':
            self.tl.interaction = self.Interaction()
        elif rug == 'no own':
            del self.Result.__Security_checker__
        elif rug == 'no attributes':
            getObject(self.p).__dict__.clear()
        elif rug == 'no methods':
            for n in list(self.Target.__dict__):
                if n[2:-2] in ('len', 'iter', 'next', 'add', 'radd', 'iadd',
                               'str', 'repr', 'int', 'call', 'getitem',
                               'eq', 'bool', 'getattribute'):
                    delattr(self.Target, n)
        elif rug == 'other class':
            getObject(self.p).__class__ = self.Other
        elif rug == 'no defaults':
            del zc._available_by_default[:]

    def restore(self):
        zc = self.zc
        FIRE[0] = None
        zc._checkers.clear()
        zc._checkers.update(self.saved[0])
        zc._available_by_default[:] = self.saved[1]
        for n in ('interaction', 'previous_interaction'):
            if n in self.tl.__dict__:
                delattr(self.tl, n)


def reentrant_cases(job):
    depth = 3 if job.get('tier') == 'thorough' else 2
    for point in POINTS:
        for op in reentrant_ops():
            yield dict(part='reentrant', point=point, op=op, depth=depth)


def all_rugs(depth):
    yield ()
    for n in range(1, depth + 1):
        for rugs in itertools.permutations(RUGS, n):
            if n < 3 or 'collect' in rugs or 'end' in rugs:
                yield rugs


def run_reentrant(case, rec, mode):
    op = CACHE.get('reentrant')
    if op is None:
        op = CACHE['reentrant'] = reentrant_ops()
    op = op[case['op']]
    fired = 0
    for rugs in case.get('rugs') or all_rugs(case['depth']):
        rec.case(dict(case, rugs=[rugs]))
        w = Wobble(case['point'], rugs, mode)
        name = w.name
        try:
            w.live = True
            FIRE[0] = w.fire
            try:
                x = op(w.c, w, w.result, name)
                w.live = False
            except Exception as e:
                w.live = False
                # what it names has to be alive
                repr([(type(a), a if isinstance(a, str) else 0)
                      for a in e.args])
                e = None
            else:
                repr(type(x))
                x = None
        finally:
            w.live = False
            w.restore()
        rec.step()
        fired += w.fired
        if not w.fired:
            break           # it never is called back here
    return 'fired' if fired else 'quiet'


# part chains

def chain_cases(job):
    kinds = [k for k in link_kinds()
             if k not in ('method', 'proxied values')]
    for a in kinds:
        yield dict(part='chains', links=[a])
        for b in kinds:
            if a < b:
                yield dict(part='chains', links=[a, b])


CHAIN = 30000
STACK = 256 * 1024


def run_chain(case, rec, mode):
    # with a small stack, so that recursion shows soon
    result = []

    def work():
        try:
            result.append(do_chain(case, rec, mode))
        except BaseException as e:
            result.append(e)
    old = threading.stack_size(STACK)
    try:
        t = threading.Thread(target=work)
        t.start()
        t.join()
    finally:
        threading.stack_size(old)
    if isinstance(result[0], BaseException):
        raise result[0]
    return result[0]


def do_chain(case, rec, mode):
    if any('iterator' in k for k in case['links']) and \
            len(case['links']) == 1 and case['links'][0] == 'iterator':
        return 'skipped'       # Python's own
    alive = []
    kinds = CACHE.get('links') or CACHE.setdefault('links', link_kinds())
    x = Node(alive)
    fns = [kinds[k] for k in case['links']]
    if 'pure' in mode and set(case['links']) <= {'x'}:
        return 'skipped'
    for i in range(CHAIN // len(fns)):
        for f in fns:
            x = f(x, alive)
    rec.alive()
    x = None
    rec.step(CHAIN)
    gc.collect()
    if alive:
        rec.violation('%d objects are never freed' % len(alive), case,
                      fingerprint='%s/chain' % mode)
        return 'bad'
    return 'freed'


RUN = {'ops': run_op, 'attrs': run_attr, 'calls': run_call, 'names': run_name,
       'memory': run_memory, 'cycles': run_cycle, 'chains': run_chain,
       'referents': run_referents, 'reentrant': run_reentrant,
       'finalizers': run_final}
CASES = {'ops': op_cases, 'attrs': attr_cases, 'calls': call_cases, 'memory': memory_cases,
         'cycles': cycle_cases, 'chains': chain_cases,
         'finalizers': final_cases,
         'referents': lambda job: [dict(part='referents')],
         'reentrant': reentrant_cases}


def bounds(tier):
    return ('%d operations, %d ways of a checker, policy or result '
            'protection to answer or fail, %d behaviours of the object, %d '
            'operands; odd arguments to all functions; %d attributes '
            'of the objects with %d values in %d places; every allocation '
            'failing in turn; cycles through up to %d of %d kinds of links; '
            'chains of %d links; operations called back in %d places that '
            'do up to %d of %d things' % (
                len(PRIM), len(SETUPS), len(BEHAVIOURS) + 1, len(OPERANDS),
                len(HOOKS), len(HOOK_VALUES), len(HOOK_PLACES),
                3 if tier == 'quick' else 4, 21, CHAIN,
                len(POINTS), 2 if tier == 'quick' else 3, len(RUGS)))


def jobs(tier):
    out = []
    for mode, n in (('c', 10), ('pure', 6)):
        out += lib.shards(n, mode=mode, part='ops')
        out += lib.shards(2, mode=mode, part='calls')
        out += lib.shards(2, mode=mode, part='attrs')
        out += lib.shards(4, mode=mode, part='cycles')
        out += lib.shards(2, mode=mode, part='chains')
        out.append(dict(mode=mode, part='referents'))
    out += lib.shards(2, mode='c', part='memory')
    out += lib.shards(2, mode='cdebug', part='finalizers')
    out.append(dict(mode='c', part='finalizers'))
    out += lib.shards(6, mode='cdebug', part='reentrant')
    return out


def explore(job, rec):
    gc.disable()
    gc.collect()
    gc.freeze()
    mode, part = job['mode'], job['part']
    n = 0
    for case in lib.shard(CASES[part](job), job):
        n += 1
        if part != 'cycles' and n % 500 == 0:
            gc.collect()
        rec.case(case)
        rec.state((mode, sorted(case.items(), key=str)))
        rec.trace('%s %s' % (case['part'],
                             RUN[case['part']](case, rec, mode)), case)


def replay(case, rec, job):
    gc.disable()
    rec.trace(RUN[case['part']](case, rec, job['mode']))
