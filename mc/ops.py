"""The operations of Python, an instrumented target, and recording checkers.

Every operation is a function of a subject (the proxy, or for the reference
run the bare target) and another operand.
"""
import bisect
import ctypes
import functools
import math
import operator

BINARY = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'divmod', 'pow',
          'lshift', 'rshift', 'and', 'xor', 'or']
INPLACE = [n for n in BINARY if n != 'divmod']
COMPARE = ['lt', 'le', 'eq', 'ne', 'gt', 'ge']
UNARY = ['neg', 'pos', 'abs', 'invert']
UNSUPPORTED = [
    'matmul', 'rmatmul', 'imatmul', 'round', 'trunc', 'floor', 'ceil',
    'reversed', 'enter', 'exit', 'bytes', 'sizeof', 'format', 'dir', 'copy',
    'deepcopy', 'reduce', 'reduce_ex', 'getstate', 'fspath', 'await', 'aiter',
    'anext', 'aenter', 'aexit', 'get', 'set', 'delete', 'set_name',
    'instancecheck', 'subclasscheck', 'mro_entries', 'buffer',
    'release_buffer', 'missing', 'class_getitem', 'index', 'int', 'float',
    'complex', 'len', 'contains', 'iter', 'next', 'getitem', 'setitem',
    'delitem', 'call', 'bool', 'hash', 'str', 'repr', 'length_hint']


def dunder(n):
    return '__%s__' % n


PUBLIC = {dunder(n) for n in COMPARE + ['hash', 'bool', 'length_hint']}


class Boom(Exception):
    """Raised by a target."""


class Refused(Exception):
    """Raised by a checker."""


class RefusedAttr(AttributeError):
    """Raised by a checker, and looking like a missing attribute."""


class Thing:
    """A value that needs protection."""
    __slots__ = ('tag', '__weakref__')

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Thing(%r)' % (self.tag,)


ROCKS = (int, float, complex, bool, str, bytes, type(None))


def is_rock(v):
    return type(v) in ROCKS


class Env:
    """The log and the labels of one execution."""

    def __init__(self, behaviour='ret'):
        self.log = []
        self.labels = []
        self.behaviour = behaviour
        self.boom = Boom('boom')
        self.thing = Thing('result')

    def name(self, obj, label):
        self.labels.append((obj, label))
        return obj

    def label(self, obj):
        for o, l in self.labels:
            if o is obj:
                return l
        if obj is self.thing:
            return 'RESULT'
        if obj is self.boom:
            return 'BOOM'
        if is_rock(obj):
            return repr(obj)
        if type(obj) is tuple:
            return tuple(self.label(x) for x in obj)
        if type(obj) is dict:
            return {k: self.label(v) for k, v in obj.items()}
        if type(obj) is slice:
            return repr(obj)
        return '<%s>' % type(obj).__name__

    def event(self, *what):
        self.log.append(what)


VALUES = {
    '__len__': 3, '__bool__': True, '__hash__': 12345, '__str__': 'text',
    '__repr__': 'repr', '__bytes__': b'bytes', '__format__': 'fmt',
    '__int__': 7, '__float__': 2.5, '__complex__': 1j, '__index__': 5,
    '__length_hint__': 4, '__contains__': True, '__sizeof__': 99,
    '__fspath__': 'path', '__exit__': False, '__instancecheck__': True,
    '__subclasscheck__': True, '__setitem__': None, '__delitem__': None,
    '__set__': None, '__delete__': None, '__mro_entries__': (),
}


def make_spy_class():
    """A class whose instances log everything that is done to them."""
    ns = {}
    names = {dunder(n) for n in UNSUPPORTED}
    names |= {dunder(p + n) for n in BINARY for p in ('', 'r', 'i')}
    names |= {dunder(n) for n in COMPARE + UNARY}
    names -= {'__reduce_ex__', '__reduce__'}

    def method(name):
        def special(self, *args, **kw):
            env = object.__getattribute__(self, 'env')
            env.event('touch', name, tuple(env.label(a) for a in args),
                      env.label(kw))
            b = env.behaviour
            if b == 'raise':
                raise env.boom
            if name in env_self and b == 'self':
                return self
            if name in may_ni and b == 'ni':
                return NotImplemented
            if name == '__iter__':
                return iter((env.thing, 1))
            if name in VALUES:
                return VALUES[name]
            return env.thing
        special.__name__ = name
        return special

    may_ni = {dunder(p + n) for n in BINARY for p in ('', 'r', 'i')}
    may_ni |= {dunder(n) for n in COMPARE}
    env_self = {dunder('i' + n) for n in INPLACE} | {
        '__neg__', '__pos__', '__add__', '__iter__', '__eq__', '__lt__',
        '__getitem__', '__call__', '__next__'}
    for n in names:
        ns[n] = method(n)

    def __reduce_ex__(self, proto):
        env = object.__getattribute__(self, 'env')
        env.event('touch', '__reduce_ex__', (repr(proto),), {})
        return (Thing, ('copy',))

    def __getattribute__(self, name):
        if name == '__class__' or name == '__Security_checker__':
            return object.__getattribute__(self, name)
        env = object.__getattribute__(self, 'env')
        if not (name.startswith('__') and name.endswith('__')):
            env.event('touch', 'get:' + name)
            if env.behaviour == 'raise':
                raise env.boom
            if env.behaviour == 'ni':
                raise AttributeError(name)
            if env.behaviour == 'self':
                return self
            return env.thing
        return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        env = object.__getattribute__(self, 'env')
        env.event('touch', 'set:' + name, env.label(value))
        if env.behaviour == 'raise':
            raise env.boom

    def __delattr__(self, name):
        env = object.__getattribute__(self, 'env')
        env.event('touch', 'del:' + name)
        if env.behaviour == 'raise':
            raise env.boom

    ns.update(__reduce_ex__=__reduce_ex__, __getattribute__=__getattribute__,
              __setattr__=__setattr__, __delattr__=__delattr__,
              __slots__=('env', '__weakref__'))
    return type('Spy', (), ns)


Spy = make_spy_class()


def make_spy(env, label='T'):
    spy = Spy()
    object.__setattr__(spy, 'env', env)
    return env.name(spy, label)


class Op:
    """kind: 'obj' protected result; 'raw' plain result; 'text' str/repr;
    'public' unchecked; 'none' no result."""

    def __init__(self, name, fn, check, kind='obj', how='get', c=None,
                 py=None, analog=None, operand=True):
        self.name = name
        self.fn = fn
        self.checks = {'c': check if c is None else c,
                       'pure': check if py is None else py}
        self.kind = kind
        self.how = how
        self.analogs = analog or {}
        self.operand = operand

    def check(self, mode):
        return self.checks['pure' if 'pure' in mode else 'c']

    def analog(self, mode):
        return self.analogs.get('pure' if 'pure' in mode else 'c', self.fn)

    def __repr__(self):
        return 'Op(%s)' % self.name


# for operations through the sequence protocol
INDEX = 1

_api = ctypes.pythonapi
_O, _S, _I = ctypes.py_object, ctypes.c_ssize_t, ctypes.c_int


def _capi(name, res, *args):
    f = ctypes.PYFUNCTYPE(res, *args)((name, _api))
    return f


seq_getitem = _capi('PySequence_GetItem', _O, _O, _S)
seq_setitem = _capi('PySequence_SetItem', _I, _O, _S, _O)
seq_delitem = _capi('PySequence_DelItem', _I, _O, _S)
seq_contains = _capi('PySequence_Contains', _I, _O, _O)
seq_repeat = _capi('PySequence_Repeat', _O, _O, _S)
seq_size = _capi('PySequence_Size', _S, _O)
map_size = _capi('PyMapping_Size', _S, _O)
obj_getiter = _capi('PyObject_GetIter', _O, _O)
obj_setitem = _capi('PyObject_SetItem', _I, _O, _O, _O)
num_index = _capi('PyNumber_Index', _O, _O)
num_as_ssize = _capi('PyNumber_AsSsize_t', _S, _O, _O)


def _binops():
    fns = dict(add=operator.add, sub=operator.sub, mul=operator.mul,
               truediv=operator.truediv, floordiv=operator.floordiv,
               mod=operator.mod, divmod=divmod, pow=operator.pow,
               lshift=operator.lshift, rshift=operator.rshift,
               xor=operator.xor)
    fns['and'] = operator.and_
    fns['or'] = operator.or_
    return fns


BINFN = _binops()
CMPFN = {n: getattr(operator, n) for n in COMPARE}


def _aug(n):
    sym = dict(add='+', sub='-', mul='*', truediv='/', floordiv='//',
               mod='%', pow='**', lshift='<<', rshift='>>', xor='^')
    sym['and'] = '&'
    sym['or'] = '|'
    ns = {}
    exec('def aug(s, x):\n    s %s= x\n    return s' % sym[n], ns)
    return ns['aug']


def _delitem(s, k):
    del s[k]


def _setitem(s, k):
    s[k] = 'v'


def _delattr(s, x):
    del s.attr


def _setattr(s, x):
    s.attr = x


def _next(s, x):
    return next(s)


def primitives():
    """The operations the proxies mediate, with what the checker is asked."""
    ops = []

    def add(*args, **kw):
        ops.append(Op(*args, **kw))
    add('getattr', lambda s, x: s.attr, 'attr', operand=False)
    add('getattr3', lambda s, x: getattr(s, 'other', x), 'other')
    add('setattr', _setattr, 'attr', 'none', 'set')
    add('delattr', _delattr, 'attr', 'none', 'set', operand=False)
    add('call', lambda s, x: s(x, 1, key=x), '__call__')
    add('call0', lambda s, x: s(), '__call__', operand=False)
    add('getitem', lambda s, x: s[x], '__getitem__')
    add('getslice', lambda s, x: s[1:2], '__getitem__', operand=False)
    add('seq_getitem', lambda s, x: seq_getitem(s, INDEX), '__getitem__',
        operand=False)
    add('setitem', _setitem, '__setitem__', 'none')
    add('seq_setitem', lambda s, x: seq_setitem(s, INDEX, x), '__setitem__',
        'raw')
    add('obj_setitem', lambda s, x: obj_setitem(s, 'k', x), '__setitem__',
        'raw')
    add('delitem', _delitem, '__delitem__', 'none')
    add('seq_delitem', lambda s, x: seq_delitem(s, INDEX), '__delitem__', 'raw',
        operand=False)
    add('contains', lambda s, x: x in s, '__contains__', 'raw')
    add('seq_contains', lambda s, x: seq_contains(s, x), '__contains__',
        'raw')
    add('iter', lambda s, x: iter(s), '__iter__', operand=False)
    add('getiter', lambda s, x: obj_getiter(s), '__iter__', operand=False)
    add('next', _next, '__next__', operand=False)
    add('len', lambda s, x: len(s), '__len__', 'raw', operand=False)
    add('seq_size', lambda s, x: seq_size(s), '__len__', 'raw',
        operand=False)
    add('map_size', lambda s, x: map_size(s), '__len__', 'raw',
        operand=False)
    add('str', lambda s, x: str(s), '__str__', 'text', operand=False)
    add('repr', lambda s, x: repr(s), '__repr__', 'text', operand=False)
    for n in UNARY:
        fn = {'abs': abs, 'neg': operator.neg, 'pos': operator.pos,
              'invert': operator.invert}[n]
        add(n, lambda s, x, fn=fn: fn(s), dunder(n), operand=False)
    add('int', lambda s, x: int(s), '__int__', operand=False)
    add('float', lambda s, x: float(s), '__float__', operand=False)
    add('complex', lambda s, x: complex(s), '__complex__', c='__float__',
        analog={'c': lambda s, x: complex(float(s))}, operand=False)
    add('index', lambda s, x: operator.index(s), '__index__', operand=False)
    add('num_index', lambda s, x: num_index(s), '__index__', operand=False)
    add('hex', lambda s, x: hex(s), '__index__', operand=False)
    add('item_of_list', lambda s, x: ['a', 'b', 'c', 'd', 'e', 'f'][s],
        '__index__', operand=False)
    add('slice_of_list', lambda s, x: list(range(9))[:s], '__index__',
        kind='raw', operand=False)
    add('chr', lambda s, x: chr(s), '__index__', operand=False)
    for n in BINARY:
        add(n, lambda s, x, fn=BINFN[n]: fn(s, x), dunder(n))
        add('r' + n, lambda s, x, fn=BINFN[n]: fn(x, s), dunder('r' + n))
    for n in INPLACE:
        add('i' + n, _aug(n), dunder('i' + n))
    add('pow3', lambda s, x: pow(s, x, 5), '__pow__')
    add('hash', lambda s, x: hash(s), None, 'public', operand=False)
    add('bool', lambda s, x: bool(s), None, 'public', operand=False)
    add('not', lambda s, x: not s, None, 'public', operand=False)
    add('length_hint', lambda s, x: s_length_hint(s), None, 'public',
        operand=False)
    for n in COMPARE:
        add(n, lambda s, x, fn=CMPFN[n]: fn(s, x), None, 'public')
        add('r' + n, lambda s, x, fn=CMPFN[n]: fn(x, s), None, 'public')
    return ops


def s_length_hint(s):
    # as list(s) and the like ask for it, but without len() coming first
    return type(s).__length_hint__(s)


def composites():
    """Operations not mediated as such: only what they are composed of may
    reach the object."""
    import copy
    import os
    import pickle
    import sys

    def with_(s, x):
        with s:
            pass

    def async_(src):
        ns = {}
        exec(src, ns)

        def run(s, x):
            c = ns['f'](s)
            try:
                return c.send(None)
            except StopIteration as e:
                return e.value
            finally:
                c.close()
        return run

    def raising(s, x):
        raise s

    def except_(s, x):
        try:
            raise KeyError
        except s:
            pass

    def star(s, x):
        return (lambda *a: len(a))(*s)

    def starstar(s, x):
        return (lambda **k: len(k))(**s)

    def unpack(s, x):
        a, b = s

    def yieldfrom(s, x):
        def g():
            yield from s
        return next(g())

    def match_seq(s, x):
        match s:
            case [a, *b]:
                return 1

    def match_map(s, x):
        match s:
            case {'k': v}:
                return 1

    def match_cls(s, x):
        match s:
            case Thing(tag=1):
                return 1

    def class_attr(s, x):
        C = type('C', (), {'a': s})
        C().a
        C.a

    def instance_set(s, x):
        c = type('C', (), {'a': s})()
        c.a = 1
        del c.a

    def matmul(s, x):
        return s @ x

    def rmatmul(s, x):
        return x @ s

    def imatmul(s, x):
        s @= x
        return s

    fns = dict(
        matmul=matmul, rmatmul=rmatmul, imatmul=imatmul,
        round=lambda s, x: round(s), round1=lambda s, x: round(s, 1),
        trunc=lambda s, x: math.trunc(s), floor=lambda s, x: math.floor(s),
        ceil=lambda s, x: math.ceil(s), sqrt=lambda s, x: math.sqrt(s),
        gcd=lambda s, x: math.gcd(s, 2),
        reversed=lambda s, x: reversed(s),
        reversed_list=lambda s, x: list(reversed(s)), bytes=lambda s, x: bytes(s),
        bytearray=lambda s, x: bytearray(s),
        memoryview=lambda s, x: memoryview(s),
        sizeof=lambda s, x: sys.getsizeof(s),
        sizeof2=lambda s, x: s.__sizeof__(),
        format=lambda s, x: format(s), fmt=lambda s, x: format(s, '>10'),
        fstring=lambda s, x: f'{s!r}{s!s}{s}',
        percent_s=lambda s, x: '%s' % s, percent_d=lambda s, x: '%d' % s,
        percent_r=lambda s, x: '%r' % (s,),
        percent_m=lambda s, x: '%(a)s' % s,
        percent_x=lambda s, x: '%x' % s, percent_f=lambda s, x: '%f' % s,
        percent_c=lambda s, x: '%c' % s, ascii=lambda s, x: ascii(s),
        dir=lambda s, x: dir(s), vars=lambda s, x: vars(s),
        dict_=lambda s, x: s.__dict__,
        copy=lambda s, x: copy.copy(s), deepcopy=lambda s, x: copy.deepcopy(s),
        pickle=lambda s, x: pickle.dumps(s),
        pickle0=lambda s, x: pickle.dumps(s, 0),
        replace=lambda s, x: s.__reduce_ex__(2),
        reduce=lambda s, x: s.__reduce__(),
        fspath=lambda s, x: os.fspath(s), stat=lambda s, x: os.stat(s),
        with_=with_, await_=async_('async def f(s): return await s'),
        aiter=lambda s, x: aiter(s), anext=lambda s, x: anext(s),
        afor=async_('async def f(s):\n async for x in s: pass'),
        awith=async_('async def f(s):\n async with s: pass'),
        isinstance=lambda s, x: isinstance(1, s),
        issubclass=lambda s, x: issubclass(int, s),
        isinstance2=lambda s, x: isinstance(s, int),
        issubclass2=lambda s, x: issubclass(s, int),
        subclass=lambda s, x: type('X', (s,), {}),
        metaclass=lambda s, x: type('X', (), {}, metaclass=s),
        raising=raising, except_=except_, star=star, starstar=starstar,
        unpack=unpack, yieldfrom=yieldfrom, match_seq=match_seq,
        match_map=match_map, match_cls=match_cls, class_attr=class_attr,
        instance_set=instance_set,
        list=lambda s, x: list(s), tuple=lambda s, x: tuple(s),
        set=lambda s, x: set(s), frozenset=lambda s, x: frozenset(s),
        dict=lambda s, x: dict(s), enumerate=lambda s, x: list(enumerate(s)),
        zip=lambda s, x: list(zip(s, s)), map=lambda s, x: list(map(s, [1])),
        filter=lambda s, x: list(filter(s, [1])),
        sum=lambda s, x: sum(s), max=lambda s, x: max(s),
        min=lambda s, x: min(s, s), any=lambda s, x: any(s),
        all=lambda s, x: all(s), sorted=lambda s, x: sorted(s),
        sortkey=lambda s, x: sorted([1], key=s),
        join=lambda s, x: ''.join(s), range=lambda s, x: range(s),
        repeat=lambda s, x: [1] * s, strrepeat=lambda s, x: 'a' * s,
        repeat2=lambda s, x: seq_repeat(s, 2),
        concat=lambda s, x: operator.concat(s, [1]),
        concat2=lambda s, x: operator.concat([1], s),
        iconcat=lambda s, x: operator.iconcat(s, [1]),
        extend=lambda s, x: [].extend(s), update=lambda s, x: {}.update(s),
        setupdate=lambda s, x: set().update(s),
        strin=lambda s, x: s in 'abc', listin=lambda s, x: s in [1],
        dictin=lambda s, x: s in {1: 2}, setin=lambda s, x: s in {1},
        dictkey=lambda s, x: {s: 1}[s],
        startswith=lambda s, x: 'abc'.startswith(s),
        int_str=lambda s, x: int('12', s), round_nd=lambda s, x: round(1.5, s),
        bisect=lambda s, x: bisect.bisect(s, 2),
        bisect_left=lambda s, x: bisect.bisect_left(s, 2),
        slice_step=lambda s, x: 'abcdef'[::s],
        callable=lambda s, x: callable(s), id=lambda s, x: id(s),
        type=lambda s, x: type(s), hint=lambda s, x: operator.length_hint(s),
        print=lambda s, x: print(s, file=_Null()),
        exec=lambda s, x: exec(s), eval=lambda s, x: eval(s),
        compile=lambda s, x: compile(s, 'a', 'exec'),
        getattr_name=lambda s, x: getattr(1, s, 5),
        setattr_name=lambda s, x: setattr(Thing(1), s, 5),
        iter2=lambda s, x: iter(s, 1), super=lambda s, x: super(s, s),
        slice=lambda s, x: slice(s, s).indices(3),
        divmod3=lambda s, x: divmod(divmod(s, 1), 1),
        weakref=lambda s, x: __import__('weakref').ref(s),
        pow3r=lambda s, x: pow(2, s, 5), pow3m=lambda s, x: pow(2, 3, s),
        pow3rs=lambda s, x: pow(x, s, 5), pow3ms=lambda s, x: pow(x, 3, s),
        hasattr=lambda s, x: hasattr(s, 'attr'),
        ns_import=lambda s, x: __import__('os', s),
        str_maketrans=lambda s, x: str.maketrans(s),
        translate=lambda s, x: 'abc'.translate(s),
        fmt_attr=lambda s, x: '{0.attr} {0[k]}'.format(s),
        fmt_map=lambda s, x: '{k}'.format_map(s),
        struct=lambda s, x: __import__('struct').pack('i', s),
        array=lambda s, x: __import__('array').array('i', s),
        json=lambda s, x: __import__('json').dumps(s),
        np_index=lambda s, x: num_as_ssize(s, OverflowError),
        itemgetter=lambda s, x: operator.itemgetter('k')(s),
        attrgetter=lambda s, x: operator.attrgetter('attr')(s),
        methodcaller=lambda s, x: operator.methodcaller('attr')(s),
        partial=lambda s, x: __import__('functools').partial(s)(),
        reduce_=lambda s, x: __import__('functools').reduce(
            operator.add, [1, s]),
        chain=lambda s, x: next(__import__('itertools').chain(s)),
        islice=lambda s, x: list(__import__('itertools').islice(s, 1)),
        deque=lambda s, x: __import__('collections').deque(s),
        throw=lambda s, x: (i for i in ()).throw(s),
        prop=lambda s, x: type('C', (), {'p': property(s)})().p,
        cm=lambda s, x: classmethod(s).__get__(1)(),
        timedelta=lambda s, x: __import__('datetime').timedelta(s),
        date=lambda s, x: __import__('datetime').date(s, 1, 1),
        decimal=lambda s, x: __import__('decimal').Decimal(s),
        fraction=lambda s, x: __import__('fractions').Fraction(s),
    )
    return [Op(n, fn, None, 'composite') for n, fn in sorted(fns.items())]


class _Null:
    def write(self, s):
        pass


# What a granted name lets through to the target.
COVERS = {
    '__contains__': {'__contains__', '__iter__', '__getitem__', '__eq__',
                     '__next__'},
    '__str__': {'__str__', '__repr__'},
    '__iter__': {'__iter__', '__getitem__'},
    '__int__': {'__int__', '__index__', '__trunc__'},
    '__float__': {'__float__', '__index__'},
    '__complex__': {'__complex__', '__float__', '__index__'},
    '__reduce_ex__': {'__reduce_ex__', '__reduce__', '__getstate__'},
    '__reduce__': {'__reduce__', '__reduce_ex__', '__getstate__'},
    '__format__': {'__format__', '__str__', '__repr__'},
    '__pow__': {'__pow__', '__rpow__'},
    '__3pow__': {'__pow__', '__rpow__'},
    '__rpow__': {'__pow__', '__rpow__'},
    # repetition of a sequence counts with the other operand's __index__
    '__mul__': {'__mul__', '__index__'},
    '__rmul__': {'__rmul__', '__index__'},
}
for _n in INPLACE:
    COVERS[dunder('i' + _n)] = {dunder('i' + _n), dunder(_n)}
COVERS['__imul__'].add('__index__')


class Liar(str):
    """A name: to the first so many that compare it, it is another one."""

    def __new__(cls, text, pretence, times):
        self = str.__new__(cls, text)
        self.pretence = pretence
        self.times = times
        self.asked = 0
        return self

    def now(self):
        self.asked += 1
        return (self.pretence if self.asked <= self.times
                else str.__str__(self))

    def __hash__(self):
        return hash(self.now())

    def __eq__(self, other):
        return self.now() == other

    def __ne__(self, other):
        return self.now() != other

    def __str__(self):
        return self.now()

    def __len__(self):
        return len(self.now())

    def __getitem__(self, i):
        return self.now()[i]

    def startswith(self, *args):
        return self.now().startswith(*args)


def covers(name, touch):
    if touch in PUBLIC:
        return True
    if touch == name or touch in ('get:' + name, 'set:' + name,
                                  'del:' + name):
        return True
    return touch in COVERS.get(name, ())


@functools.lru_cache(None)
def all_names(mode):
    names = set()
    for op in primitives():
        if op.checks['c']:
            names.add(op.checks['c'])
        if op.checks['pure']:
            names.add(op.checks['pure'])
    names.update(['__3pow__', '__reduce__', '__reduce_ex__', '__class__',
                  '__module__', '__dict__', '__call__', '__bases__', 'keys',
                  '__sizeof__', '__format__', '__length_hint__', '__name__',
                  '__round__', '__bytes__', '__reversed__'])
    return sorted(names)
