"""C11: built-in values are readable but immutable by default.

For every kind of built-in value with default protection, every operation
(operators with every operand, every attribute name the value has or its type
suggests: read, set, deleted, called with every small argument list) is
executed on a fresh proxied value; afterwards nothing in the world may have
changed, and what was delivered must be protected or harmless.  Protected
results of new kinds are expanded in turn.  The documented reading operations
are compared with the bare value, instances of other classes must refuse
everything.
"""
import abc
import array
import collections
import datetime
import decimal
import fractions
import functools
import io
import itertools
import types
import warnings
import weakref

from mc import lib
from mc import ops

warnings.simplefilter('ignore')

ASSUMPTIONS = [
    'iterators may be advanced by iterating; calling a function or a method '
    'does what that function does; interfaces keep book of subscriptions, '
    'which are not looked at',
    'operands are harmless values, proxies of built-in values, and fresh '
    'containers',
]

PRIVATE = ['__dict__', '__init__', '__setstate__', '__reduce__',
           '__reduce_ex__', '__self__', '__func__', '__globals__',
           '__defaults__', '__closure__', '__code__', '__setitem__',
           '__delitem__', '__iadd__', '__imul__', '__ior__', '__iand__',
           '__ixor__', '__isub__', 'append', 'extend', 'insert', 'pop',
           'remove', 'reverse', 'sort', 'clear', 'update', 'popitem',
           'setdefault', 'add', 'discard', 'send', 'throw', 'close',
           'gi_frame', 'setTaggedValue', '__setattr__', '__delattr__',
           '__class__', '__wrapped__', 'declared', 'inherit', 'dependents',
           '__new__', '__subclasses__', 'mro', 'register', '__getstate__',
           '__sizeof__', '__format__', '__dir__', '__doc__', '__bases__',
           '__name__', '__qualname__', '__module__', '__call__', 'next',
           '__next__', 'x', 'secret', 'intersection_update',
           'difference_update', 'symmetric_difference_update',
           'move_to_end', '__implemented__', '__provides__', '_implied',
           'changed', 'subscribe', 'unsubscribe', 'attr', 'mutate',
           '_v_attrs', '_bases', '__copy__', '__deepcopy__']


class Vault:
    def __init__(self):
        self.x = 1
        self.secret = [1]

    def mutate(self, *args):
        self.x += 1

    def __repr__(self):
        return 'Vault'


class Seq:
    """An old-style sequence."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class AbcClass(metaclass=abc.ABCMeta):
    attr = 5


def interfaces():
    from zope.interface import Interface
    from zope.interface import Attribute

    class IBase(Interface):
        def method(a, b=1):
            "doc"
        attr = Attribute('attr')
    IBase.setTaggedValue('tag', ['value'])
    IBase['method'].setTaggedValue('tag', ['value'])

    class I(IBase):
        def other():
            "doc"
    return IBase, I


ITERTOOLS = {
    'count': lambda t, v: t.count(3),
    'cycle': lambda t, v: t.cycle([v, 1]),
    'dropwhile': lambda t, v: t.dropwhile(lambda x: x is None, [v, 1, 2]),
    'islice': lambda t, v: t.islice([v, 1, 2], 2),
    'permutations': lambda t, v: t.permutations([v, 1, 2], 2),
    'product': lambda t, v: t.product([v, 1], [2]),
    'repeat': lambda t, v: t.repeat(v, 3),
    'starmap': lambda t, v: t.starmap(lambda a, b: a, [(v, 1), (2, 3)]),
    'takewhile': lambda t, v: t.takewhile(lambda x: x is not None, [v, 1]),
    'tee': lambda t, v: t.tee([v, 1])[0],
    'zip_longest': lambda t, v: t.zip_longest([v, 1], [2]),
    'accumulate': lambda t, v: t.accumulate([v, 1], lambda a, b: a),
    'compress': lambda t, v: t.compress([v, 1, 2], [1, 0, 1]),
    'combinations': lambda t, v: t.combinations([v, 1, 2], 2),
    'combinations_with_replacement':
        lambda t, v: t.combinations_with_replacement([v, 1], 2),
    'groupby': lambda t, v: t.groupby([v, v, 1]),
    'grouper': lambda t, v: next(t.groupby([v, v, 1]))[1],
}


class World:
    """Fresh values of every kind around one secret object."""

    def __init__(self):
        self.vault = v = Vault()
        self.list = [v, 1, 'a', [v]]
        self.dict = {'k': v, 1: 'r', 'l': [v]}
        self.set = {v, 1}
        self.odict = collections.OrderedDict(self.dict)

    def make(self, kind):
        v = self.vault
        word, _, arg = kind.partition(' ')
        if kind == 'list':
            return self.list
        if kind == 'dict':
            return self.dict
        if kind == 'empty':
            return []
        if kind == 'set':
            return self.set
        if kind == 'frozenset':
            return frozenset(self.set)
        if kind == 'tuple':
            return (v, 1, self.list)
        if word == 'view':
            return getattr(self.dict, arg)()
        if word == 'oview':
            return getattr(self.odict, arg)()
        if word == 'iter':
            if arg == 'list':
                return iter(self.list)
            if arg == 'tuple':
                return iter((v, 1))
            if arg == 'set':
                return iter({v})
            if arg == 'seq':
                return iter(Seq([v, 1]))
            if arg == 'gen':
                return (x for x in (v, 1, 2))
            if arg.startswith('view'):
                return iter(getattr(self.dict, arg.split()[1])())
            if arg.startswith('oview'):
                return iter(getattr(self.odict, arg.split()[1])())
            return ITERTOOLS[arg](itertools, v)
        if word in ('btree', 'biter'):
            import BTrees
            from BTrees.OOBTree import OOBTree
            self.btree = OOBTree({'a': v, 'b': 1})
            r = self.btree if arg == 'iter' else getattr(self.btree, arg)()
            return iter(r) if word == 'biter' else r
        if kind == 'function':
            extra = [v]

            def function(a=extra, *args, kw=v):
                return extra
            function.attr = [v]
            return function
        if kind == 'method':
            self.bound = Bound(v)
            return self.bound.method
        if kind == 'builtin':
            return len
        if kind == 'builtin method':
            return self.dict.get
        if kind == 'c method':
            self.io = io.BytesIO(b'abc')
            return self.io.getbuffer
        if kind == 'method wrapper':
            return self.list.__len__
        if kind == 'class':
            class C:
                attr = [v]

                def method(self):
                    return v
            return C
        if kind == 'abc class':
            class D(AbcClass):
                attr = [v]
            return D
        if kind == 'module':
            m = types.ModuleType('m')
            m.attr = v
            m.x = 1
            return m
        if kind == 'decimal':
            return decimal.Decimal('3.25')
        if kind == 'weakref':
            return weakref.ref(v)
        if kind == 'interface':
            self.ibase, self.iface = interfaces()
            return self.ibase
        if kind == 'subinterface':
            self.ibase, self.iface = interfaces()
            return self.iface
        if kind == 'imethod':
            self.ibase, self.iface = interfaces()
            return self.ibase['method']
        if kind == 'declaration':
            from zope.interface import Declaration
            self.ibase, self.iface = interfaces()
            return Declaration(self.ibase)
        if kind == 'classprovides':
            from zope.interface import directlyProvides
            self.ibase, self.iface = interfaces()

            class C:
                pass
            directlyProvides(C, self.ibase)
            return C.__provides__
        if kind in OTHERS:
            return OTHERS[kind](v)
        raise AssertionError(kind)


class Bound:
    def __init__(self, v):
        self.v = v

    def method(self, *args):
        return [self.v]


class L(list):
    pass


class D(dict):
    pass


class S(set):
    pass


class T(tuple):
    pass


class It:
    def __iter__(self):
        return self

    def __next__(self):
        return 1

    def __call__(self):
        return 1

    def __getitem__(self, i):
        return 1


NT = collections.namedtuple('NT', 'a b')
OTHERS = {
    'instance': lambda v: v,
    'list subclass': lambda v: L([v, 1]),
    'dict subclass': lambda v: D(k=v),
    'set subclass': lambda v: S([v]),
    'tuple subclass': lambda v: T((v,)),
    'named tuple': lambda v: NT(v, 1),
    'own iterator': lambda v: It(),
    'bytearray': lambda v: bytearray(b'abc'),
    'array': lambda v: array.array('i', [1]),
    'deque': lambda v: collections.deque([v]),
    'odict': lambda v: collections.OrderedDict(k=v),
    'defaultdict': lambda v: collections.defaultdict(list, k=v),
    'range': lambda v: range(3),
    'slice': lambda v: slice(1),
    'memoryview': lambda v: memoryview(b'abc'),
    'property': lambda v: property(lambda s: 1),
    'cell': lambda v: (lambda: v).__closure__[0],
    'code': lambda v: (lambda: v).__code__,
    'mappingproxy': lambda v: types.MappingProxyType({'k': v}),
    'bytesio': lambda v: io.BytesIO(b'abc'),
    'int subclass': lambda v: type('I', (int,), {})(5),
    'str subclass': lambda v: type('T', (str,), {})('abc'),
    'decimal subclass': lambda v: type('De', (decimal.Decimal,), {})(5),
    'object subclass': lambda v: type('O', (object,), {'a': 1})(),
    'namespace': lambda v: types.SimpleNamespace(a=v),
    'metaclassed': lambda v: type('M', (type,), {})('X', (), {'a': v}),
    'enumerate': lambda v: enumerate([v]),
    'claims to be an exception': lambda v: type(
        'C', (), {'__class__': ValueError, 'a': v})(),
    'claims to be an int': lambda v: type(
        'C', (), {'__class__': int, 'a': v})(),
    'claims to be a list': lambda v: type(
        'C', (), {'__class__': list, 'a': v, '__len__': lambda s: 1,
                  '__getitem__': lambda s, i: [v][i]})(),
    'timezone': lambda v: datetime.timezone.utc,
    'date subclass': lambda v: type('Da', (datetime.date,), {})(2000, 1, 1),
    'bytes subclass': lambda v: type('B', (bytes,), {})(b'abc'),
    'float subclass': lambda v: type('F', (float,), {})(5),
    'user list': lambda v: collections.UserList([v]),
    'user dict': lambda v: collections.UserDict(k=v),
    'chain map': lambda v: collections.ChainMap({'k': v}),
    'partial': lambda v: functools.partial(It(), v),
    'static method': lambda v: staticmethod(It()),
    'class method': lambda v: classmethod(It()),
    'weak dictionary': lambda v: weakref.WeakValueDictionary(),
    'fraction': lambda v: fractions.Fraction(1, 2),
    'zip': lambda v: zip([v]),
    'coroutine wrapper': lambda v: type((lambda: (yield))()),
}
del OTHERS['coroutine wrapper']

KINDS = ['list', 'empty', 'dict', 'set', 'frozenset', 'tuple', 'view keys',
         'view values', 'view items', 'oview keys', 'oview values',
         'oview items', 'iter list', 'iter tuple', 'iter set', 'iter seq',
         'iter gen', 'iter view keys', 'iter view values', 'iter view items',
         'iter oview keys', 'iter oview items', 'btree keys', 'btree values',
         'btree items', 'biter iter', 'function', 'method', 'builtin',
         'builtin method', 'c method', 'method wrapper', 'class', 'abc class',
         'module', 'decimal', 'weakref', 'interface', 'subinterface',
         'imethod', 'declaration', 'classprovides'] + [
             'iter ' + n for n in ITERTOOLS]
# (the keys of an ordered dictionary, ... are iterated only)

VOLATILE = {'__implemented__', '__provides__', '__providedBy__',
            '__abstractmethods__', '_abc_impl', '__weakref__', '__dict__',
            '__builtins__'}


def is_iterator(kind):
    return kind.startswith(('iter ', 'biter'))


def snap(o, seen=None):
    """Everything that could be changed in *o*, by identity."""
    seen = seen or ()
    if any(o is s for s in seen) or type(o) in ops.ROCKS:
        return id(o)
    seen = seen + (o,)
    t = type(o)
    if isinstance(o, (list, tuple, collections.deque)):
        r = [snap(x, seen) for x in o]
    elif isinstance(o, (dict, types.MappingProxyType)):
        r = [(snap(k, seen), snap(x, seen)) for k, x in o.items()]
    elif isinstance(o, (set, frozenset)):
        r = sorted(id(x) for x in o)
    elif t is types.FunctionType:
        r = [id(o.__code__), snap(o.__defaults__, seen), o.__name__,
             snap(o.__kwdefaults__, seen), snap(o.__dict__, seen),
             [snap(c.cell_contents, seen) for c in o.__closure__ or ()]]
    elif t is types.MethodType:
        r = [id(o.__func__), snap(o.__self__, seen)]
    elif t.__name__ == 'InterfaceClass':
        r = [id(b) for b in o.__bases__], o.__name__, sorted(
            (n, id(d)) for n, d in o.namesAndDescriptions(True)), [
                (g, snap(o.getTaggedValue(g), seen))
                for g in sorted(o.getTaggedValueTags())]
    elif t.__name__ == 'Method':
        r = o.__name__, repr(o.getSignatureInfo()), [
            (g, snap(o.getTaggedValue(g), seen))
            for g in sorted(o.getTaggedValueTags())]
    elif t.__name__ in ('Declaration', 'ClassProvides', 'Implements',
                        'Provides'):
        r = [id(b) for b in o.__bases__]
    elif isinstance(o, type):
        r = sorted((k, snap(x, seen)) for k, x in vars(o).items()
                   if k not in VOLATILE), o.__bases__
    elif isinstance(o, types.ModuleType):
        r = sorted((k, snap(x, seen)) for k, x in vars(o).items()
                   if k not in VOLATILE)
    elif isinstance(o, (bytearray, array.array, decimal.Decimal)):
        r = repr(o)
    elif isinstance(o, io.BytesIO):
        try:
            r = o.getvalue(), o.tell()
        except ValueError:
            r = 'closed'
    elif t.__name__ == 'OOBTree':
        r = [(k, id(x)) for k, x in o.items()]
    elif hasattr(o, '__dict__'):
        r = [(k, snap(x, seen)) for k, x in sorted(vars(o).items())]
    else:
        r = None
    return id(o), r


def consume(it, n=8):
    out = []
    for x in itertools.islice(it, n):
        if type(x).__name__ == '_grouper':
            x = '_grouper'
        elif isinstance(x, tuple):
            x = tuple('_grouper' if type(y).__name__ == '_grouper' else id(y)
                      for y in x)
        else:
            x = id(x)
        out.append(x)
    return out


class Run:
    """One execution: a fresh world, a proxied value, operations on it."""

    def __init__(self, kind):
        from zope.security import checker as zc
        from zope.security import proxy as zp
        self.zc, self.zp = zc, zp
        self.world = World()
        self.obj = self.world.make(kind)
        self.kind = kind
        self.p = zc.ProxyFactory(self.obj)
        self.peer = None

    def operand(self, name):
        w = self.world
        if name == 'proxy':
            return self.p
        if name == 'secret':
            return self.zc.ProxyFactory(w.vault)
        if name == 'plist':
            return self.zc.ProxyFactory(w.list)
        if name == 'pdict':
            return self.zc.ProxyFactory(w.dict)
        if name == 'same':
            return World().make(self.kind)
        if name == 'class':
            return Vault
        if name == 'fn':
            return lambda *a: 1
        return {'0': 0, '1': 1, 'k': 'k', 'a': 'a', 'tag': 'tag', 'list': [5],
                'dict': {'k': 9}, 'set': {5}, 'none': None, 'slice': slice(
                    None), 'method': 'method', 'tuple': (5,), 'float': 2.5,
                'd': decimal.Decimal(2)}[name]


OPERANDS = ['0', 'k', 'proxy', 'same', 'list', 'secret', 'set', 'none',
            'slice', 'dict', 'd', 'tuple']
ARGS1 = ['0', 'k', 'proxy', 'list', 'secret', 'tag', 'fn', 'dict', 'none',
         'method', 'same']
ARGS2 = [('0', '0'), ('k', '1'), ('k', 'secret'), ('tag', '1'), ('0', 'list'),
         ('proxy', 'secret'), ('0', 'secret'), ('k', 'list'), ('none', '1'),
         ('list', '1')]
CONSUMING = {'next', 'iter', 'getiter', '__next__', 'call __next__', 'getattr'}

PRIMS = {o.name: o for o in ops.primitives()}
# Built-in functions and unbound methods that change their argument, or take
# it apart.
FOREIGN = {
    'list.append': lambda p, x: list.append(p, x),
    'list.sort': lambda p, x: list.sort(p),
    'list.__init__': lambda p, x: list.__init__(p, [5]),
    'list.__setitem__': lambda p, x: list.__setitem__(p, 0, x),
    'dict.update': lambda p, x: dict.update(p, {'k': x}),
    'dict.clear': lambda p, x: dict.clear(p),
    'set.add': lambda p, x: set.add(p, x),
    'setattr type': lambda p, x: type.__setattr__(p, 'attr', x),
    'insort': lambda p, x: __import__('bisect').insort(p, 0),
    'heappush': lambda p, x: __import__('heapq').heappush(p, 0),
    'shuffle': lambda p, x: __import__('random').Random(1).shuffle(p),
    'unpack': lambda p, x: [].extend(p),
    'setTagged': lambda p, x: type(p).setTaggedValue(p, 'tag', x),
    'alsoProvides': lambda p, x: __import__(
        'zope.interface').interface.alsoProvides(p),
    'vars': lambda p, x: vars(p),
    'dir': lambda p, x: dir(p),
    'sorted': lambda p, x: sorted(p, key=id),
    'reversed': lambda p, x: reversed(p),
    'exec in': lambda p, x: exec('attr = 5', p),
    'copy': lambda p, x: __import__('copy').copy(p),
    'deepcopy': lambda p, x: __import__('copy').deepcopy(p),
    'type call': lambda p, x: type(p)(x),
    'class body': lambda p, x: types.new_class('X', (p,)),
    'matmul': lambda p, x: p @ x,
    'with': lambda p, x: p.__enter__(),
}
FRESH = {'copy', 'deepcopy', 'dir', 'sorted', 'unpack', 'type call',
         'reversed', 'setattr type', 'class body'}


def operations(kind):
    """All operations on a value of that kind, as JSON-able labels."""
    for name, op in PRIMS.items():
        if op.operand:
            for x in OPERANDS:
                yield ('op', name, x)
        else:
            yield ('op', name, '0')
    for name in FOREIGN:
        if kind in ('iter count', 'iter cycle') and name in (
                'unpack', 'sorted'):
            continue        # endless
        yield ('foreign', name, 'k')
    r = Run(kind)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        names = sorted(set(dir(r.obj)) | set(dir(type(r.obj))) | set(PRIVATE))
    for name in names:
        yield ('get', name)
        yield ('set', name, '0')
        yield ('set', name, 'list')
        yield ('del', name)
        yield ('call', name)
        if refuses(r.p, name):
            continue        # calling starts with reading
        for x in ARGS1:
            yield ('call', name, x)
        for x in ARGS2:
            yield ('call', name) + x
        yield ('callkw', name)


def refuses(p, name):
    from zope.security.interfaces import ForbiddenAttribute
    try:
        getattr(p, name)
    except ForbiddenAttribute:
        return True
    except Exception:
        pass
    return False


def perform(run, p, op):
    """Returns (kind of result, value)."""
    what = op[0]
    if what == 'op':
        o = PRIMS[op[1]]
        x = run.operand(op[2])
        r = o.fn(p, x)
        if r is x or o.name[0] == 'r' and o.name[1:] in PRIMS and type(
                x) is not run.zp.Proxy:
            # the caller's own value, or what that one's operator made
            return 'raw', r
        return o.kind, r
    if what == 'foreign':
        r = FOREIGN[op[1]](p, run.operand(op[2]))
        return ('raw' if op[1] in FRESH else 'obj'), r
    if what == 'get':
        return 'obj', getattr(p, op[1])
    if what == 'set':
        setattr(p, op[1], run.operand(op[2]))
        return 'none', None
    if what == 'del':
        delattr(p, op[1])
        return 'none', None
    if what in ('call', 'callkw'):
        m = getattr(p, op[1])
        if what == 'callkw':
            return 'obj', m(k=5, attr=6)
        return 'obj', m(*[run.operand(x) for x in op[2:]])
    raise AssertionError(op)


class Judge:
    def __init__(self):
        from zope.security import checker as zc
        from zope.security import proxy as zp
        from zope.security.interfaces import ForbiddenAttribute
        self.zc, self.zp = zc, zp
        self.Forbidden = ForbiddenAttribute

    def guarded(self, v):
        """Protected, harmless, or a declaration (see the finding)."""
        if type(v) is self.zp.Proxy or type(v) in ops.ROCKS:
            return True
        if v is NotImplemented or v is Ellipsis:
            return True
        return self.zc.BasicTypes.get(type(v)) is self.zc.NoProxy

    def value(self, path, rec):
        """A run at the end of *path*: (run, value) or None."""
        run = Run(path[0])
        v = run.p
        for op in path[1:]:
            try:
                _, v = perform(run, v, tuple(op))
            except Exception:
                return None
        return run, v


def step(j, path, op, rec):
    """Execute *op* on the value at the end of *path*."""
    got = j.value(path, rec)
    if got is None:
        return None
    run, v = got
    before = snap(run.world), snap(run.obj)
    kind = path[0]
    try:
        how, result = perform(run, v, op)
        outcome = 'value'
    except Exception as e:
        if type(e) is lib.Stop:
            raise
        how, result = 'none', None
        outcome = type(e).__name__
    rec.step()
    after = snap(run.world), snap(run.obj)
    where = '%s on %s' % (list(op), ' '.join(map(str, path)))
    if before != after:
        called = op[0] == 'op' and op[1].startswith('call')
        rec.violation('%s changed something' % where,
                      fingerprint='changed %s %s' % (kind, op[:2]))
        return None
    if is_iterator(kind) and len(path) == 1:
        want = consume(World.make(run.world, kind), 40)
        rest = consume(run.obj, 6)
        consuming = op[1] in ('next', '__next__', 'unpack', 'sorted') or (
            op[0] == 'foreign')
        ok = any(rest == want[k:k + 6] for k in range(
            34 if consuming else 1))
        if not ok:
            rec.violation('%s changed the iterator' % where,
                          fingerprint='iterator %s %s' % (kind, op[:2]))
            return None
    if how == 'obj' and not j.guarded(result):
        t = type(result)
        if t.__name__ in ('Implements', 'Provides') and \
                t.__module__.startswith('zope.interface'):
            rec.violation(
                '%s delivers a bare declaration' % where,
                fingerprint='interface declarations are delivered bare')
            return None
        rec.violation('%s delivers a bare %s' % (where, t),
                      fingerprint='bare %s %s' % (kind, op[:2]))
        return None
    rec.trace(outcome)
    return result if outcome == 'value' else None


def label(zp, v, depth=4):
    """A proxied or bare value, comparable."""
    v = zp.getObject(v)
    if isinstance(v, (list, tuple)):
        return [label(zp, x, depth - 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(map(str, (label(zp, x, depth - 1) for x in v)))
    if isinstance(v, dict):
        return [(label(zp, k), label(zp, x, depth - 1))
                for k, x in v.items()]
    if type(v) in (type({}.keys()), type({}.values()), type({}.items())) or \
            hasattr(v, '__next__'):
        return [label(zp, x, depth - 1) for x in itertools.islice(v, 9)]
    if isinstance(v, Vault):
        return 'Vault'
    if type(v) in ops.ROCKS:
        return v
    if isinstance(v, decimal.Decimal):
        return repr(v)
    if hasattr(v, '__name__'):
        return v.__name__
    return type(v).__name__


_SEQ = ['s[0]', 's[1:]', 'len(s)', 'list(iter(s))', '1 in s', '7 in s',
        'str(s)', 's + other', 'other + s']
_IT = ['next(s)', 'iter(s)', '[x for x, _ in zip(s, range(9))]',
       's.__next__()']
_SET = ['list(sorted(map(id, map(bare, s)))) and 1', 'len(s)', '1 in s',
        's.copy()', 's.difference({1})', 's.intersection({1})',
        's.issubset({1})', 's.issuperset({1})', 's.union({7})',
        's.symmetric_difference({1})', 's & {1}', 's | {7}', 's - {1}',
        's ^ {1}', '{1} & s', '{7} | s', '{1} - s', '{1} ^ s',
        's == {1}', 's != {1}', 's < {1}', 's <= {1}', 's > {1}', 's >= {1}']
_IFACE = ['s.names()', 's.names(all=True)', 's["method"]', '"method" in s',
          's.get("method")', 's.getTaggedValue("tag")',
          's.queryTaggedValue("no")', 's.getTaggedValueTags()',
          's.namesAndDescriptions()', 's.direct("attr")', 's.__bases__',
          's.__name__', 's.extends(s)', 's.isOrExtends(s)',
          's.__iro__', 'list(s)', 's.__module__', 'str(s)']
READS = {
    'list': _SEQ + ['s.index(1)', 's.count(1)', 's[3]', 's[-1]'],
    'empty': ['len(s)', 'list(s)', 'str(s)', '1 in s', 's == []'],
    'tuple': _SEQ,
    'dict': ['s["k"]', 'len(s)', 'list(iter(s))', 's.get("k")',
             's.get("no", 5)', 's.copy()', 'str(s)', 's.keys()', 's.values()',
             's.items()', '"k" in s', '"no" in s', 'list(s.items())',
             'list(s.values())', 'list(s.keys())', 's == {}'],
    'set': _SET, 'frozenset': _SET,
    'view keys': ['list(s)', 'len(s)', '"k" in s', 's & {"k"}', 'str(s)'],
    'view values': ['list(s)', 'len(s)', 'str(s)', '"r" in s'],
    'view items': ['list(s)', 'len(s)', 'str(s)'],
    'oview keys': ['list(s)', 'len(s)'],
    'oview values': ['list(s)', 'len(s)'],
    'oview items': ['list(s)', 'len(s)'],
    'btree keys': ['list(s)', 'len(s)'],
    'btree values': ['list(s)', 'len(s)'],
    'btree items': ['list(s)', 'len(s)'],
    'biter iter': _IT,
    'function': ['s()', 's.__name__', 'str(s) and 1', 's(5, kw=6)'],
    'method': ['s()', 's(5)', 's.__name__', 'str(s) and 1'],
    'builtin': ['s("abc")', 's.__name__', 'str(s)'],
    'builtin method': ['s("k")', 's.__name__'],
    'c method': ['s.__name__'],
    'method wrapper': ['s()', 's.__name__'],
    'class': ['s.__name__', 's.__module__', 's.__bases__', 's.__mro__',
              'str(s) and 1'],
    'abc class': ['s.__name__', 's.__module__', 's.__bases__', 's.__mro__'],
    'module': ['s.__name__'],
    'weakref': ['s()'],
    'decimal': ['bool(s)', 's == 1', 's != 1', 'hash(s)', 'str(s)', '-s',
                '+s', 'abs(s)', 's + 1', '1 + s', 's - 1', '1 - s', 's * 2',
                '2 * s', 's / 2', '2 / s', 'divmod(s, 2)', 'divmod(9, s)',
                's % 2', '9 % s', 's // 2', '9 // s', 'float(s)', 'int(s)',
                's ** 2', '2 ** s', 's.adjusted()', 's.as_tuple()',
                's.compare(D(1))', 's.max(D(1))', 's.min(D(1))',
                's.normalize()', 's.quantize(D(1))', 's.sqrt()',
                's.remainder_near(D(2))', 's.same_quantum(D(1))',
                's.to_eng_string()', 's.to_integral()', 's < 4', 's >= 4'],
    'interface': _IFACE, 'subinterface': [
        's.names()', 's.names(all=True)', 's["method"]', 's.extends(base)',
        's.__bases__', 's.getTaggedValue("tag")', 'list(s)'],
    'imethod': ['s.getSignatureInfo()', 's.getSignatureString()',
                's.__name__', 's.getTaggedValue("tag")',
                's.interface', 's.getTaggedValueTags()'],
    'declaration': ['[x for x in s]', 's.flattened()', 's.__bases__', 'base in s',
                    's.extends(base)', 's.get("attr")'],
    'classprovides': ['[x for x in s]', 's.__bases__', 'base in s'],
}
for _k in KINDS:
    if _k not in READS:
        assert _k.startswith('iter '), _k
        READS[_k] = _IT


def reads(j, kind, expr, rec):
    zp = j.zp
    code = compile(expr, 'read', 'eval')

    def go(proxied):
        run = Run(kind)
        s = run.p if proxied else run.obj
        ns = dict(s=s, other=[5] if kind == 'list' else (5,),
                  D=decimal.Decimal, bare=zp.getObject,
                  base=getattr(run.world, 'ibase', None))
        r = eval(code, ns)
        got = r
        if proxied and expr not in ('str(s)',) and 'map(' not in expr:
            # whatever is inside must be protected, too
            items = [r]
            if type(r) is list:
                items = r
            for x in items:
                if not j.guarded(x):
                    raise AssertionError('bare %s delivered' % type(x))
        return label(zp, got)
    want = go(False)
    try:
        got = go(True)
    except Exception as e:
        rec.violation('reading %s of a %s: %r' % (expr, kind, e),
                      fingerprint='read %s %s' % (kind, expr))
        return
    if got != want and repr(got) != repr(want):
        rec.violation('reading %s of a %s gives %r, not %r' % (
            expr, kind, got, want),
            fingerprint='read %s %s' % (kind, expr))


ALWAYS = {'__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__',
          '__hash__', '__bool__', '__class__', '__providedBy__',
          '__implements__', '__repr__', '__conform__', '__name__',
          '__parent__', '__length_hint__'}


def other(j, kind, op, rec):
    """An instance of another class refuses all but the always available."""
    run = Run(kind)
    before = snap(run.world), snap(run.obj)
    if type(run.p) is not j.zp.Proxy:
        rec.violation('a %s is not protected' % kind,
                      fingerprint='unprotected ' + kind)
        return 'bad'
    try:
        how, r = perform(run, run.p, op)
        outcome = 'value'
    except j.Forbidden:
        outcome = 'forbidden'
    except Exception as e:
        if type(e) is lib.Stop:
            raise
        outcome = 'error'
    if (snap(run.world), snap(run.obj)) != before:
        rec.violation('%s changed a %s' % (op, kind),
                      fingerprint='changed %s %s' % (kind, op[:2]))
    if outcome != 'value':
        return outcome
    name = op[1]
    if op[0] == 'op':
        o = PRIMS[name]
        if o.kind in ('text', 'public'):
            return 'always'
        if name in ('getattr3',):
            return 'always'
        # what the other operand does with a proxy it is given
        if name.startswith('r') or name in (
                'radd', 'item_of_list') or how == 'raw' or \
                op[2] in ('same', 'proxy', 'secret', 'list', 'set', 'dict',
                          'tuple', 'd', 'slice', 'none'):
            touched = j.guarded(r) or type(r) in (list, tuple, set, dict)
            if how != 'raw' and touched:
                return 'operand'
        if name == 'rmod' or (how == 'raw' and name in (
                'radd', 'rmul', 'rsub')):
            # formatting and the like by the caller's own bare operand
            return 'operand'
    if op[0] in ('get', 'call', 'callkw') and name in ALWAYS:
        return 'always'
    if op[0] == 'foreign' and name in ('type call', 'dir', 'copy',
                                       'deepcopy'):
        return 'foreign'
    if op[0] == 'foreign' and name in ('unpack', 'sorted') and not hasattr(
            run.obj, '__iter__'):
        return 'foreign'
    rec.violation('%s on a %s is not refused' % (list(op), kind),
                  fingerprint='exposed %s %s' % (kind, op[:2]))
    return 'bad'


def rocks(j, rec):
    """Harmless values are not proxied."""
    import datetime
    zc = j.zc
    values = [5, 2.5, 1j, None, 'x', b'x', True, object(),
              datetime.timedelta(3), datetime.datetime(2003, 1, 1),
              datetime.date(2003, 1, 1), datetime.time(1),
              zc.Message('m', domain='d')]
    import pytz
    values.append(pytz.UTC)
    for v in values:
        rec.case(['rock', repr(v)])
        for made in (zc.ProxyFactory(v), zc.Checker({}).proxy(v),
                     zc.ProxyFactory([v])[0],
                     zc.ProxyFactory({1: v})[1],
                     zc.ProxyFactory(lambda: v)(),
                     next(zc.ProxyFactory(iter([v]))),
                     next(iter(zc.ProxyFactory({v})))):
            if made is not v:
                rec.violation('%r is proxied' % (v,),
                              fingerprint='rock %s' % type(v).__name__)
        if zc.selectChecker(v) is not None:
            rec.violation('%r has a checker' % (v,),
                          fingerprint='rock %s' % type(v).__name__)
        rec.step()
        rec.trace('rock', repr(v))


def bounds(tier):
    return ('%d kinds of built-in values x all operations; results expanded '
            'to depth %d, once per kind of value; %d kinds of other '
            'instances x all operations; %d reading operations' % (
                len(KINDS), 3 if tier == 'thorough' else 2, len(OTHERS),
                sum(map(len, READS.values()))))


def jobs(tier):
    t = tier == 'thorough'
    out = []
    for mode in ('c', 'pure'):
        out += lib.shards(8, mode=mode, part='kinds', depth=3 if t else 2)
        out += lib.shards(2, mode=mode, part='others')
        out.append(dict(mode=mode, part='reads'))
    for mode in ('watch', 'purewatch'):
        out.append(dict(mode=mode, part='reads'))
    return out


def explore(job, rec):
    j = Judge()
    if job['part'] == 'reads':
        for kind in KINDS:
            for expr in READS[kind]:
                rec.case(['read', kind, expr])
                reads(j, kind, expr, rec)
                rec.step()
                rec.trace('read', rec.current)
        rocks(j, rec)
        return
    if job['part'] == 'others':
        for kind in lib.shard(OTHERS, job):
            for op in operations(kind):
                rec.case(['other', kind, op])
                r = other(j, kind, op, rec)
                rec.step()
                rec.trace('other: ' + r)
        return
    for kind in lib.shard(KINDS, job):
        seen = {kind}
        frontier = [(kind,)]
        for depth in range(job['depth']):
            nxt = []
            for path in frontier:
                if j.value(path, rec) is None:
                    continue
                for op in operations(kind) if depth == 0 else \
                        operations2(j, path, rec):
                    rec.case(['kind', path, op])
                    r = step(j, path, op, rec)
                    if type(r) is not j.zp.Proxy:
                        continue
                    o = j.zp.getObject(r)
                    key = type(o).__name__ + (
                        ' vault' if isinstance(o, Vault) else '')
                    rec.state((kind, key))
                    if key not in seen:
                        seen.add(key)
                        nxt.append(path + (op,))
            frontier = nxt


def operations2(j, path, rec):
    """The operations on what a path leads to."""
    run, v = j.value(path, rec)
    o = j.zp.getObject(v)
    for name, op in PRIMS.items():
        if op.operand:
            for x in OPERANDS:
                yield ('op', name, x)
        else:
            yield ('op', name, '0')
    names = sorted(set(dir(type(o))) | set(PRIVATE))
    for name in names:
        yield ('get', name)
        yield ('set', name, 'list')
        yield ('del', name)
        yield ('call', name)
        if refuses(v, name):
            continue
        for x in ('0', 'k', 'list', 'secret'):
            yield ('call', name, x)
        for x in ARGS2[:4]:
            yield ('call', name) + x


def replay(case, rec, job):
    j = Judge()
    if case[0] == 'read':
        reads(j, case[1], case[2], rec)
    elif case[0] == 'other':
        other(j, case[1], tuple(case[2]), rec)
    elif case[0] == 'rock':
        rocks(j, rec)
    else:
        step(j, tuple(case[1]), tuple(case[2]), rec)
