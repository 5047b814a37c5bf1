"""C21: the C and the pure-Python implementation behave identically.

Every operation program of the bound (an operation on every kind of target,
checker, grants and operand; sequences of operations on a small object graph
in which every result can be operated on; calls of the public functions and
constructors with every combination of ordinary and odd arguments) is run step
by step in two processes, one with the C and one with the Python
implementation, and everything observable is compared: what the checker was
asked, what was done to the object, what was returned and how it is protected,
or what was raised.
"""
import itertools
import json
import os
import re
import subprocess
import sys

from mc import checkers
from mc import lib
from mc import ops

ASSUMPTIONS = [
    'not compared are the texts of errors raised by Python itself, how often '
    'a name is asked for within one operation, and the documented '
    'differences, which are listed in DESIGN.md',
]


# Describing what is observed

class Desc:
    def __init__(self):
        from zope.security import checker as zc
        from zope.security import interfaces
        from zope.security import proxy as zp
        self.zc, self.zp, self.zi = zc, zp, interfaces
        self.known = {id(c): 'default for ' + t.__name__
                      for t, c in zc._default_checkers.items()
                      if isinstance(c, zc.Checker)}
        self.known[id(zc.NoProxy)] = 'NoProxy'
        for n in ('_typeChecker', '_iteratorChecker', '_callableChecker',
                  '_namedCallableChecker', '_basicTypeChecker'):
            if hasattr(zc, n):
                self.known.setdefault(id(getattr(zc, n)), n)

    def checker(self, c):
        if c is None:
            return None
        if id(c) in self.known:
            return self.known[id(c)]
        kind = type(c).__name__
        if kind in ('Checker', 'CheckerPy', 'WatchingChecker'):
            return ['Checker', self.perms(c.get_permissions),
                    self.perms(c.set_permissions)]
        return kind

    def perms(self, d):
        return sorted((str(k), 'public' if v is self.zc.CheckerPublic
                       else repr(v)) for k, v in d.items())

    def value(self, v, label, depth=3):
        t = type(v)
        if v is self.zc.CheckerPublic:
            return 'CheckerPublic'
        if issubclass(t, self.zp.Proxy):
            return ['proxy', self.checker(self.zp.getChecker(v)),
                    self.value(self.zp.removeSecurityProxy(v), label, depth)]
        l = label(v) if label else None
        if l is not None and not (isinstance(l, str) and l[:1] == '<'):
            return l
        if v is NotImplemented:
            return 'NotImplemented'
        if t in (list, tuple) and depth:
            return [t.__name__] + [self.value(x, label, depth - 1)
                                   for x in v]
        if t is dict and depth:
            return ['dict'] + [[self.value(k, label, depth - 1),
                                self.value(x, label, depth - 1)]
                               for k, x in v.items()]
        if t in (set, frozenset) and depth:
            return [t.__name__] + sorted(
                repr(self.value(x, label, depth - 1)) for x in v)
        if t in ops.ROCKS or t in (slice, range, bytearray):
            r = repr(v)
            return [t.__name__, re.sub('0x[0-9a-fA-F]+', '0x', r)]
        if isinstance(v, type):
            return ['class', v.__name__]
        if id(v) in self.known or t.__name__ in (
                'Checker', 'CheckerPy', 'WatchingChecker'):
            return self.checker(v)
        if isinstance(v, BaseException):
            return self.error(v, label)
        return '<%s>' % t.__name__

    def error(self, e, label):
        t = type(e)
        if t in (self.zi.Unauthorized, self.zi.ForbiddenAttribute,
                 self.zi.Forbidden):
            return [t.__name__] + [self.value(a, label) for a in e.args]
        if isinstance(e, self.zc.DuplicationError):
            return 'DuplicationError'
        return t.__name__


# Part 1: every operation

class Obj:
    """An ordinary object; nothing is recorded."""
    cls_attr = 1

    def __init__(self):
        self.attr = ops.Thing('attr')
        self.other = [1]

    def __call__(self, *args, **kw):
        return [args, sorted(kw)]


class Num(int):
    pass


class Faker:
    """Claims to be an Obj."""
    __class__ = Obj


class IntFaker:
    __class__ = int


class OddModule:
    __module__ = 'm\xf6d'


class NoModule:
    __module__ = None


ODD_NAME = type('N\xe4me with blank', (), {})


class Meta(type):
    @property
    def __name__(cls):
        return 'named by its class'

    @property
    def __module__(cls):
        return 'module'


class Seq:
    """Old-style sequence protocol."""

    def __getitem__(self, i):
        if i == 0:
            return 'a'
        if i == 1:
            return []
        raise IndexError(i)

    def __len__(self):
        return 2


def targets():
    return {
        'list': [1, [2], 'c'], 'empty': [], 'dict': {'k': 1, 1: [3]},
        'tuple': (1, [2]), 'set': {1, 2}, 'frozenset': frozenset([1]),
        'int': 5, 'float': 2.5, 'complex': 1 + 2j, 'str': 'abc',
        'bytes': b'abc', 'none': None, 'bool': True, 'num': Num(7),
        'range': range(3), 'gen': (x for x in [1, [2]]),
        'iter': iter([1, [2]]), 'obj': Obj(), 'class': Obj,
        'function': targets, 'builtin': len, 'method': [].append,
        'module': os.path, 'slice': slice(1, 2), 'seq': Seq(),
        'exception': KeyError('k'), 'excclass': KeyError,
        'bytearray': bytearray(b'ab'), 'property': property(len),
        'object': object(), 'notimplemented': NotImplemented,
        'type': type, 'faker': Faker(), 'intfaker': IntFaker(),
        'odd module': OddModule(), 'no module': NoModule(), 'odd name':
        ODD_NAME(), 'meta': Meta('WithMeta', (), {})(),
    }


BEHAVIOURS = ['ret', 'raise', 'ni', 'self']
OPERANDS = ['thing', 'one', 'key', 'none', 'proxied', 'list', 'self', 'spy']
GRANTS = ['all', 'none', 'but']
KINDS = ['names', 'sub', 'combined', 'plain']


def grants_of(g, name):
    if g == 'all':
        return lambda n: True
    if g == 'none':
        return lambda n: False
    if g == 'but':
        return lambda n: n != name
    return lambda n: n == g


def operand(env, d, name, p):
    if name == 'proxied':
        t = ops.Thing('other')
        env.name(t, 'OTHER')
        return d.zp.Proxy(t, d.zc.Checker({}))
    if name == 'spy':
        e = ops.Env('ret')
        e.log = env.log
        s = ops.make_spy(e, 'S')
        env.name(s, 'S')
        return s
    return {'thing': lambda: env.name(ops.Thing('other'), 'OTHER'),
            'one': lambda: 1, 'key': lambda: 'k', 'none': lambda: None,
            'list': lambda: env.name([7], 'LIST'), 'self': lambda: p}[name]()


def table():
    prim, comp = ops.primitives(), ops.composites()
    return {o.name: o for o in prim + comp}, [o.name for o in prim], [
        o.name for o in comp]


def op_cases(part, tier):
    t, prim, comp = table()
    deep = tier == 'thorough'
    if part == 'spy':
        for op in prim:
            for b, k, g in itertools.product(BEHAVIOURS, KINDS, GRANTS):
                for o in OPERANDS if t[op].operand else ['thing']:
                    yield 'op', op, 'spy ' + b, k, g, o
        for op in comp:
            for b, k in itertools.product(BEHAVIOURS,
                                          KINDS if deep else ['names',
                                                              'plain']):
                for g in ['all', 'none', '__iter__', '__len__',
                          '__getitem__', '__class__', '__index__',
                          '__reduce_ex__', '__str__', '__call__']:
                    yield 'op', op, 'spy ' + b, k, g, 'thing'
    else:
        for op in prim:
            for tg, k, g in itertools.product(targets(), KINDS, GRANTS):
                for o in OPERANDS if t[op].operand else ['thing']:
                    yield 'op', op, tg, k, g, o
        for op in comp:
            for tg, k, g in itertools.product(
                    targets(), KINDS if deep else ['names'],
                    ['all', 'none']):
                yield 'op', op, tg, k, g, 'thing'


NAME_OPS = {
    'get': lambda s, n: getattr(s, n), 'get3': lambda s, n: getattr(
        s, n, 'default'), 'has': lambda s, n: hasattr(s, n),
    'set': lambda s, n: setattr(s, n, 1), 'del': lambda s, n: delattr(s, n),
}


class Str(str):
    pass


def names():
    out = set(dir(object)) | set(dir(Obj)) | set(dir(int)) | set(
        dir(list)) | {'attr', 'other', 'missing', '_wrapped', '_checker',
                      '__Security_checker__', '__provides__', '__next__',
                      '__providedBy__', '__parent__', '__name__', '__self__',
                      '__slots__', '__weakref__', '__bases__', '__mro__',
                      '__func__', '__code__', '__closure__', '__globals__',
                      '__file__', '', 'a b', '__', '_private', '__private',
                      '\ud800', 'e\u0301', '__getattr__', '__set__',
                      '__get__', '__del__', '__call__', '__wrapped__',
                      '_ProxyPy__wrapped', '_Proxy__checker', 'mro'}
    return sorted(out)


def name_cases():
    for t, g, k in itertools.product(
            ['obj', 'list', 'class', 'module', 'function', 'int', 'spy ret',
             'exception'], ['all', 'none', 'but'], ['real', 'plain']):
        for n, w, o in itertools.product(names(), ('', 'sub'), NAME_OPS):
            if w and (t != 'obj' or g == 'but'):
                continue
            if k == 'plain' and t not in ('obj', 'list', 'spy ret'):
                continue
            if o in ('set', 'del') and t in ('module', 'function', 'class'):
                continue
            yield 'name', t, g, k, n, w, o


def run_name(d, case):
    _, target, g, kind, name, sub, o = case
    env = ops.Env('ret')
    if target == 'spy ret':
        obj = ops.make_spy(env)
    else:
        obj = env.name(targets()[target], 'T')
    grants = grants_of(g, name)
    checkers.cleanup()
    n = Str(name) if sub else name
    try:
        if kind == 'real':
            every = {x: d.zc.CheckerPublic for x in names() if grants(x)}
            c = d.zc.Checker(every, dict(every))
        else:
            c = checkers.make(kind, env, grants, ops.Refused('no'), names())
        p = d.zp.Proxy(obj, c)
        try:
            r = NAME_OPS[o](p, n)
        except BaseException as e:
            out = ['raised', d.error(e, env.label)]
        else:
            out = ['returned', 'itself' if r is p else d.value(r, env.label)]
    finally:
        checkers.cleanup()
    log = []
    for e in env.log:
        e = list(e)
        if e not in log:
            log.append(e)
    return out + [log]


SKIP = {
    # they damage or leave the process, or are about it
    'exec', 'eval', 'print', 'weakref', 'stat', 'id', 'sizeof',
}


def run_op(d, t, case):
    _, opname, target, kind, g, oname = case
    op = t[opname]
    env = ops.Env(target[4:] if target.startswith('spy ') else 'ret')
    if target.startswith('spy '):
        obj = ops.make_spy(env)
    else:
        obj = env.name(targets()[target], 'T')
    refusal = ops.Refused('no')
    checkers.cleanup()
    try:
        c = checkers.make(kind, env, grants_of(g, op.check('c')), refusal,
                          ops.all_names('c') + ['attr', 'other'])
        p = d.zp.Proxy(obj, c)
        x = operand(env, d, oname, p)
        try:
            r = op.fn(p, x)
        except BaseException as e:
            out = ['raised', d.error(e, env.label),
                   'boom' if e is env.boom else
                   'refusal' if e is refusal else '']
        else:
            if opname == 'hash':
                out = ['returned', r == hash(obj)]
            elif r is p:
                out = ['returned', 'itself']
            else:
                out = ['returned', d.value(r, env.label)]
    finally:
        checkers.cleanup()
    log = []
    for e in env.log:
        e = list(e)
        if e not in log:
            log.append(e)
    return out + [log]


# Part 2: sequences on a graph

class Node:
    def __init__(self, name, child=None):
        self.name = name
        self.child = child
        self.items = [1, [2], {'k': child}]
        self.table = {'a': child, 'b': (1, child)}
        self.n = 3

    def method(self, *args):
        return self.items, args

    def grow(self):
        self.items.append(len(self.items))
        return self.items

    def gen(self):
        yield 1
        yield self.child
        yield [self.name]

    def fail(self):
        raise KeyError(self.child)

    def same(self, x):
        return x

    def __len__(self):
        return 2

    def __iter__(self):
        return iter([self.child, 1])

    def __getitem__(self, k):
        return self.table[k]

    def __setitem__(self, k, v):
        self.table[k] = v

    def __add__(self, other):
        return [self, other]

    def __radd__(self, other):
        return [other, self]

    def __iadd__(self, other):
        self.n += 1
        return self

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return 7

    def __contains__(self, x):
        return x is self.child

    def __str__(self):
        return 'Node ' + self.name

    @property
    def prop(self):
        return [self.child]

    @property
    def broken(self):
        raise AttributeError('broken')


def _del(s):
    del s.n


def _set(s, v):
    s.n = v


def _setitem(s, v):
    s['new'] = v


def _append(s, v):
    s.append(v)


def _iadd(s, o):
    s += o
    return s


STEPS = {
    'name': lambda s, o: s.name, 'child': lambda s, o: s.child,
    'items': lambda s, o: s.items, 'table': lambda s, o: s.table,
    'n': lambda s, o: s.n, 'prop': lambda s, o: s.prop,
    'broken': lambda s, o: s.broken, 'missing': lambda s, o: s.missing,
    'set n': lambda s, o: _set(s, o), 'del n': lambda s, o: _del(s),
    'method': lambda s, o: s.method, 'call': lambda s, o: s(o),
    'call method': lambda s, o: s.method(o), 'grow': lambda s, o: s.grow(),
    'gen': lambda s, o: s.gen(), 'fail': lambda s, o: s.fail(),
    'same': lambda s, o: s.same(o), 'len': lambda s, o: len(s),
    'list': lambda s, o: list(s), 'next': lambda s, o: next(s),
    'iter': lambda s, o: iter(s), '[0]': lambda s, o: s[0],
    '[1]': lambda s, o: s[1], '[2]': lambda s, o: s[2],
    "['a']": lambda s, o: s['a'], "['b']": lambda s, o: s['b'],
    'set item': lambda s, o: _setitem(s, o),
    'append': lambda s, o: _append(s, o), '+': lambda s, o: s + o,
    'r+': lambda s, o: o + s, '+=': lambda s, o: _iadd(s, o),
    '==': lambda s, o: s == o, 'hash': lambda s, o: hash(s) == hash(o),
    'in': lambda s, o: o in s, 'str': lambda s, o: str(s),
    'bool': lambda s, o: bool(s), 'keys': lambda s, o: s.keys(),
    'values': lambda s, o: s.values(), 'get': lambda s, o: s.get('a'),
    'pop': lambda s, o: s.pop(), 'class': lambda s, o: s.__class__,
    'dict': lambda s, o: s.__dict__, 'raw dict': lambda s, o: vars(s),
    'slice': lambda s, o: s[:2], 'func': lambda s, o: s.__func__,
    'self': lambda s, o: s.__self__, 'sorted': lambda s, o: sorted(s),
    'unpack': lambda s, o: [*s], 'tb': lambda s, o: s.args,
    'copy': lambda s, o: s.copy(), '*': lambda s, o: s * 2,
    'index': lambda s, o: [5, 6, 7][s], 'int': lambda s, o: int(s),
}
FEW = ['child', 'items', 'table', 'prop', 'set n', 'del n', 'method', 'call',
       'grow', 'gen', 'fail', 'same', 'list', 'next', 'iter', '[1]', '[2]',
       "['b']", 'set item', 'append', '+', 'r+', '+=', '==', 'values', 'pop',
       'class', 'slice', 'self', 'n']
WORLDS = ['open', 'read', 'permission', 'combined', 'sub', 'watch child']


class Graph:
    """A fresh graph, its registrations and its root proxy."""

    def __init__(self, d, world):
        zc = d.zc
        self.d = d

        class K(Node):
            pass
        K.__name__ = 'Node'

        class Other(Node):
            pass
        Other.__name__ = 'Other'
        self.classes = [K, Other]
        names = [n for n in dir(Node) if not n.startswith('__')] + [
            'name', 'child', 'items', 'table', 'n', 'missing', '__len__',
            '__iter__', '__getitem__', '__setitem__', '__add__', '__radd__',
            '__iadd__', '__contains__', '__str__', '__dict__']
        every = {n: zc.CheckerPublic for n in names}
        if world == 'open':
            c = zc.Checker(every, {'n': zc.CheckerPublic})
            o = zc.Checker(every, {'n': zc.CheckerPublic})
        elif world == 'read':
            c = zc.Checker(every, {})
            o = zc.Checker({'items': zc.CheckerPublic}, {})
        elif world == 'permission':
            c = zc.Checker({n: 'P' if len(n) % 2 else 'Q' for n in names},
                           {'n': 'P'})
            o = zc.Checker({n: 'P' for n in names}, {'n': 'Q'})
        elif world == 'combined':
            c = zc.CombinedChecker(
                zc.Checker({n: 'Q' for n in names[::2]}, {}),
                zc.Checker({n: 'P' for n in names[1:]}, {'n': 'P'}))
            o = zc.CombinedChecker(c, zc.Checker(every, {}))
        elif world == 'sub':
            class Sub(zc.Checker):
                def check(self, obj, name):
                    if name in ('gen', '__add__'):
                        raise d.zi.ForbiddenAttribute(name, obj)
                    super().check(obj, name)
                # as the C implementation wants it
                check_getattr = __setitem__ = check
            c = Sub(every, {'n': zc.CheckerPublic})
            o = zc.NamesChecker(names)
        else:
            c = zc.Checker(every, {'n': 'Q'})
            o = None
        zc.defineChecker(K, c)
        if o is not None:
            zc.defineChecker(Other, o)
        else:
            Other.__Security_checker__ = zc.Checker({'items': 'P'}, {})
        self.child = Other('child', None)
        self.root = K('root', self.child)
        self.log = log = []
        labels = self.labels = {}
        labels[id(self.child)] = 'CHILD'
        labels[id(self.root)] = 'ROOT'
        self.keep = []

        class Interaction:
            def checkPermission(self, permission, obj):
                log.append([permission, labels.get(id(obj), '?')])
                return permission == 'P'
        checkers.cleanup()
        from zope.security._definitions import thread_local
        thread_local.interaction = Interaction()
        self.p = zc.ProxyFactory(self.root)

    def label(self, v):
        return self.labels.get(id(v), '<')

    def close(self):
        for k in self.classes:
            if k in self.d.zc._checkers:
                self.d.zc.undefineChecker(k)
        checkers.cleanup()


def run_seq(d, world, steps):
    g = Graph(d, world)
    regs = [g.p]
    out = []
    try:
        for name, subject, other in steps:
            s = regs[0] if subject == 'root' else regs[-1]
            o = regs[0] if other == 'root' else regs[-1]
            del g.log[:]
            try:
                r = STEPS[name](s, o)
            except BaseException as e:
                v = ['raised', d.error(e, g.label)]
            else:
                v = ['returned', d.value(r, g.label)]
                if r is not None:
                    regs.append(r)
                g.keep.append(r)
            log = []
            for x in g.log:
                if x not in log:
                    log.append(x)
            out.append(v + [log])
        out.append([d.value(vars(g.root), g.label),
                    d.value(vars(g.child), g.label)])
    finally:
        g.close()
    return out


def seq_cases(tier):
    ways = [(s, o) for s in ('root', 'last') for o in ('root', 'last')]
    first = [(n, 'root', 'root') for n in STEPS]
    second = [(n, s, o) for n in STEPS for s, o in ways]
    third = [(n, s, 'last') for n in (STEPS if tier == 'thorough' else FEW)
             for s in ('root', 'last')]
    for w in WORLDS:
        for a in itertools.product(first, second):
            yield 'seq', w, a
    few = [(n, 'root', 'root') for n in FEW]
    mid = [(n, 'last', o) for n in FEW for o in ('root', 'last')]
    for w in WORLDS if tier == 'thorough' else WORLDS[:4]:
        for a in itertools.product(few, mid, third):
            yield 'seq', w, a


# Part 3: the functions

class Own:
    pass


class Prop:
    @property
    def __Security_checker__(self):
        raise AttributeError('x')


class Trouble(Exception):
    pass


class PropBad:
    @property
    def __Security_checker__(self):
        raise Trouble


class ExceptionFaker:
    __class__ = ValueError


class BadClass:
    @property
    def __class__(self):
        raise Trouble


class Unhashable:
    __hash__ = None


def arguments(d):
    zc, zp = d.zc, d.zp
    c = zc.Checker({'a': zc.CheckerPublic, 'b': 'P'}, {'a': 'P'})
    own = Own()
    own.__Security_checker__ = c

    class Reg:
        a = 1

    class Fac:
        pass

    class NoneFac:
        pass

    class SubP(zp.Proxy):
        __slots__ = ()
    zc.defineChecker(Reg, c)
    zc.defineChecker(Fac, lambda ob: zc.NamesChecker(['f']))
    zc.defineChecker(NoneFac, lambda ob: None)

    class BadFac:
        pass

    class IntFac:
        pass

    def bad(ob):
        raise Trouble
    zc.defineChecker(BadFac, bad)
    zc.defineChecker(IntFac, lambda ob: 1)
    out = dict(
        none=None, one=1, text='a', b='b', missing='zz', odd='__len__',
        bytes=b'a', sub=Str('a'), dict={'a': 'P'}, empty={},
        perms={'a': zc.CheckerPublic}, names=('a', 'b'), list=['a'],
        checker=c, combined=zc.CombinedChecker(c, zc.NamesChecker(['z'])),
        obj=Obj(), own=own, prop=Prop(), propbad=PropBad(),
        faker=ExceptionFaker(), badclass=BadClass(), badfac=BadFac(),
        intfac=IntFac(), reg=Reg(), fac=Fac(),
        nonefac=NoneFac(), cls=Reg, type=type, func=arguments, gen=iter([1]),
        proxy=zp.Proxy(Obj(), c), proxied_list=zc.ProxyFactory([1]),
        public=zc.CheckerPublic, bare=zp.removeSecurityProxy(zc.CheckerPublic),
        module=os, surrogate='\ud800', nul='a\0b', noproxy=zc.NoProxy,
        unhashable=Unhashable(), tuple=(1,), empty_text='',
        subproxy=SubP(Obj(), c), iface=None,
    )
    from zope.interface import Interface
    out['iface'] = Interface
    return out


def functions(d):
    zc, zp = d.zc, d.zp

    def meth(name):
        return lambda c, *a: getattr(c, name)(*a)

    def kw(fn, **k):
        return lambda *a: fn(*a, **k)
    fn = {
        'Proxy': (zp.Proxy, 0, 3), 'Checker': (zc.Checker, 0, 3),
        'CombinedChecker': (zc.CombinedChecker, 0, 3),
        'ProxyFactory': (zc.ProxyFactory, 0, 2),
        'selectChecker': (zc.selectChecker, 1, 1),
        'getChecker': (zp.getChecker, 0, 2),
        'getObject': (zp.getObject, 0, 2),
        'removeSecurityProxy': (zp.removeSecurityProxy, 0, 2),
        'isinstance': (zp.isinstance, 2, 2),
        'canAccess': (zc.canAccess, 2, 2), 'canWrite': (zc.canWrite, 2, 2),
        'NamesChecker': (zc.NamesChecker, 0, 2),
        'getCheckerForInstancesOf': (zc.getCheckerForInstancesOf, 1, 1),
        'moduleChecker': (zc.moduleChecker, 1, 1),
        'getTestProxyItems': (zp.getTestProxyItems, 1, 1)
        if hasattr(zp, 'getTestProxyItems') else (len, 1, 1),
    }
    for n in ('check', 'check_getattr', 'check_setattr', 'proxy',
              'permission_id', 'setattr_permission_id'):
        fn['.' + n] = meth(n), 1, 3
    fn['getattr'] = getattr, 2, 3
    fn['setattr'] = setattr, 3, 3
    fn['delattr'] = delattr, 2, 2
    return fn


BIND = ['check', 'check_getattr', 'check_setattr', 'proxy', 'permission_id',
        'setattr_permission_id']
# positions may be restricted to keep the products small
SELF = {'.' + n: ['checker', 'combined', 'noproxy'] for n in BIND}
SELF.update({n: ['proxy', 'proxied_list', 'public', 'subproxy', 'obj', 'own']
             for n in ('getattr', 'setattr', 'delattr')})


def api_cases(d):
    args = list(arguments_names())
    for name, (fn, lo, hi) in functions(d).items():
        for n in range(lo, hi + 1):
            pools = [args] * n
            if name in SELF and n:
                pools[0] = SELF[name]
            if n == 3:
                pools[-1] = ['none', 'one', 'text', 'dict', 'obj', 'checker',
                             'proxy']
            for a in itertools.product(*pools):
                yield 'api', name, a


def arguments_names():
    return [
        'none', 'one', 'text', 'b', 'missing', 'odd', 'bytes', 'sub', 'dict',
        'empty', 'perms', 'names', 'list', 'checker', 'combined', 'obj',
        'own', 'prop', 'reg', 'fac', 'nonefac', 'cls', 'type', 'func', 'gen',
        'proxy', 'proxied_list', 'public', 'bare', 'module', 'surrogate',
        'nul', 'noproxy', 'unhashable', 'tuple', 'empty_text', 'subproxy',
        'iface']


def run_api(d, name, names):
    checkers.cleanup()
    from zope.security._definitions import thread_local

    class Interaction:
        def checkPermission(self, permission, obj):
            return permission == 'P'
    thread_local.interaction = Interaction()
    table = arguments(d)
    try:
        args = [table[n] for n in names]
        labels = {id(v): 'arg ' + n for n, v in table.items()
                  if n not in ('one', 'none', 'noproxy', 'type')
                  and type(v) is not d.zp.Proxy}

        def label(v):
            if isinstance(v, (str, bytes)):
                return '<'
            return labels.get(id(v), '<')
        try:
            r = functions(d)[name][0](*args)
        except BaseException as e:
            return ['raised', d.error(e, label)]
        for n, v in table.items():
            if r is v and n == 'proxy':
                return ['returned', 'the same proxy']
        return ['returned', d.value(r, label)]
    finally:
        for k in ('reg', 'fac', 'nonefac'):
            d.zc._checkers.pop(type(table[k]), None)
        checkers.cleanup()


# Documented differences

def excused(case, a, b):
    """True if the difference between the C (a) and the Python (b) behaviour
    is a documented one."""
    if case[0] == 'op':
        op, operand = case[1], case[5]
        if op == 'complex':
            return True
        if op.startswith('pow3'):
            return op != 'pow3' or operand in ('proxied', 'self')
        if op == 'next' or case[2] in ('str', 'bytes', 'bytearray'):
            # the type of the error of an object that does not have it
            return a[0] == b[0] == 'raised' and a[2:] == b[2:] and {
                a[1], b[1]} <= {'TypeError', 'AttributeError', 'ValueError'}
        if case[2] == 'excclass':
            # exceptions are not proxied by the C implementation
            return a[0] == b[0] == 'returned' and a[2:] == b[2:] and (
                strip(a[1]) == strip(b[1]))
    if case[0] == 'name':
        _, target, g, kind, name, sub, o = case
        if name in ('_wrapped', '_checker'):
            return b[0] == 'raised' or b[1] in ('False', "'default'")
        # what the Python proxy's own type has comes first there, and the
        # comparisons are not checked
        return o in ('get', 'get3', 'has') and name in OWN and (
            g == 'all' or name in ops.PUBLIC or name == '__iter__')
    if case[0] == 'api':
        name, args = case[1:]
        if set(args) & UNHASHABLE and name in ASKING:
            # not a name at all: refused by both
            return b[0] == 'raised' and a in (
                ['returned', ['NoneType', 'None']], ['raised', a[1]])
        if name == 'Checker' and args[1:] == ('none',):
            return True
    return False


OWN = {'__slots__', '__doc__', '__getattr__', '__abs__', '__bool__',
       '__call__', '__contains__', '__delitem__', '__getitem__',
       '__setitem__', '__hash__', '__invert__', '__iter__', '__len__',
       '__neg__', '__next__', '__pos__', '__float__', '__int__', '__index__'}
OWN |= {ops.dunder(p + n) for n in ops.BINARY for p in ('', 'r', 'i')}
OWN |= {ops.dunder(n) for n in ops.COMPARE}

ASKING = ('canAccess', 'canWrite', '.check', '.check_getattr',
          '.check_setattr', '.permission_id', '.setattr_permission_id')
UNHASHABLE = {'dict', 'empty', 'perms', 'list', 'unhashable', 'proxied_list'}


def strip(v):
    """Without the proxies around exceptions."""
    if isinstance(v, list):
        if len(v) == 3 and v[0] == 'proxy' and v[2] == 'KeyError':
            return v[2]
        return [strip(x) for x in v]
    return v


def cases(d, job):
    part, tier = job['part'], job['tier']
    if part in ('spy', 'values'):
        return (c for c in op_cases(part, tier) if c[1] not in SKIP)
    if part == 'seq':
        return seq_cases(tier)
    if part == 'name':
        return name_cases()
    return api_cases(d)


def outcome(d, t, case):
    if case[0] == 'op':
        return run_op(d, t, case)
    if case[0] == 'seq':
        return run_seq(d, case[1], case[2])
    if case[0] == 'name':
        return run_name(d, case)
    return run_api(d, case[1], case[2])


NAMES = {'ProxyPy': '_Proxy', 'CheckerPy': 'Checker',
         'CombinedCheckerPy': 'CombinedChecker'}


def norm(x):
    s = re.sub('0x[0-9a-f]+', '0x', json.dumps(x))
    for a, b in NAMES.items():
        s = s.replace(a, b)
    return json.loads(s)


class Peer:
    """The same cases in a process with the Python implementation."""

    def __init__(self, job, case=None, module='mc.props.c21'):
        env = dict(os.environ)
        env.pop('ZOPE_WATCH_CHECKERS', None)
        env.update(**lib.MODES[job.get('peer', 'pure')])
        self.proc = subprocess.Popen(
            [sys.executable, '-m', module,
             json.dumps([{k: v for k, v in job.items() if k != 'known'},
                         case])],
            env=env, stdout=subprocess.PIPE, stdin=subprocess.DEVNULL)

    def next(self):
        line = self.proc.stdout.readline()
        if not line:
            rc = self.proc.wait()
            return None, 'the Python implementation died (%s)' % rc
        return json.loads(line), None

    def close(self):
        self.proc.kill()
        self.proc.stdout.close()
        self.proc.wait()


def compare(case, mine, theirs, rec):
    if mine == theirs:
        return 'same'
    if excused(case, mine, theirs):
        return 'documented difference'
    rec.violation('%r\n  C:      %s\n  Python: %s' % (
        case, json.dumps(mine), json.dumps(theirs)),
        fingerprint='%s %s' % (case[0], ' '.join(
            str(x) for x in case[1:4])[:60]))
    return 'different'


def bounds(tier):
    return dict(operations=len(table()[0]), targets=len(targets()) + 4,
                operands=len(OPERANDS), checkers=len(KINDS),
                steps=3, step_operations=len(STEPS), worlds=len(WORLDS))


def jobs(tier):
    out = []
    for part, n in (('spy', 4), ('values', 4), ('name', 2), ('seq', 8), ('api', 2)):
        out += lib.shards(n, mode='c', part=part)
    return out


def explore(job, rec):
    d, t = Desc(), table()[0]
    peer = Peer(job)
    try:
        for case in lib.shard(cases(d, job), job):
            rec.case(norm(case))
            mine = norm(outcome(d, t, case))
            theirs, died = peer.next()
            rec.step(2 * (len(case[2]) if case[0] == 'seq' else 1))
            if died:
                rec.violation(died, fingerprint=died)
                return
            r = compare(case, mine, theirs, rec)
            rec.state(json.dumps(mine))
            rec.trace('%s: %s' % (case[0], r), rec.current)
    finally:
        peer.close()


def replay(case, rec, job):
    d, t = Desc(), table()[0]
    peer = Peer(job, case)
    try:
        theirs, died = peer.next()
        if died:
            rec.violation(died)
            return
        compare(case, norm(outcome(d, t, case)), theirs, rec)
    finally:
        peer.close()


def main(cases=cases):
    job, case = json.loads(sys.argv[1])
    d, t = Desc(), table()[0]
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    todo = [case] if case else lib.shard(cases(d, job), job)
    for case in todo:
        out.write(json.dumps(norm(outcome(d, t, case))) + '\n')
    out.flush()


if __name__ == '__main__':
    from mc.props import c21
    c21.main()
