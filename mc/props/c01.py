"""C01: a refused operation never reaches the protected object.

Every operation x checker kind x decision x behaviour of the target x kind of
operand, the reference being the same operation on the bare target; every
single-name grant; every ordered pair of operations on one proxy with every
pair of decisions.
"""
import array
import collections
import datetime
import decimal
import functools
import itertools
import operator
import types
import warnings

from mc import checkers
from mc import lib
from mc import ops

ASSUMPTIONS = [
    'operations are those of the catalogue in mc/ops.py (all Python syntax '
    'and C-API entry points that reach a type slot, plus composites)',
    'the target logs special methods and non-dunder attribute access; a '
    'touch that Python code of the target cannot see is not observed',
    'pure Python proxies repeat the check of an attribute whose read raised '
    'AttributeError and raise a fresh AttributeError (documented there)',
]

PRIM = {op.name: op for op in ops.primitives()}
COMP = {op.name: op for op in ops.composites()}
KINDS = ['plain', 'mapping', 'names', 'sub', 'combined']
BEHAVIOURS = ['ret', 'raise', 'ni', 'self']
OPERANDS = ['thing', 'rock', 'spy', 'proxy', 'same']


def bounds(tier):
    return ('all %d mediated and %d composite operations; histories of '
            'length 1%s; %d checker kinds, %d target behaviours, %d operand '
            'kinds' % (len(PRIM), len(COMP),
                       ' and 2' if tier == 'quick' else ', 2 and 3',
                       len(KINDS), len(BEHAVIOURS), len(OPERANDS)))


def jobs(tier):
    out = []
    for mode in ('c', 'pure'):
        for part in ('single', 'grants', 'composite', 'names', 'liars',
                     'builtin', 'ternary'):
            out.append(dict(mode=mode, part=part))
        out += lib.shards(4, mode=mode, part='partial')
        n = 2 if tier == 'quick' else 4
        out += lib.shards(n, mode=mode, part='pairs')
        if tier == 'thorough':
            out += lib.shards(8, mode=mode, part='triples')
    return out


def refusals():
    from zope.security.interfaces import ForbiddenAttribute
    from zope.security.interfaces import Unauthorized
    return {'refused': ops.Refused('no'), 'attr': ops.RefusedAttr('no'),
            'forbidden': ForbiddenAttribute('n', 'o'),
            'unauthorized': Unauthorized('o', 'n', 'p'),
            'base': KeyboardInterrupt('no')}


def operand(kind, env, proxy, names):
    """Another operand and, for 'same', None to be replaced by the proxy."""
    if kind == 'thing':
        return env.name(ops.Thing('x'), 'X')
    if kind == 'rock':
        return 2
    if kind == 'spy':
        env2 = ops.Env(env.behaviour)     # logs elsewhere
        return env.name(ops.make_spy(env2), 'X')
    if kind == 'proxy':
        from zope.security.proxy import Proxy
        env2 = ops.Env(env.behaviour)
        chk = checkers.Plain(env2, lambda n: True, None)
        return env.name(Proxy(ops.make_spy(env2), chk), 'X')
    return proxy


def outcome(fn, s, x, env):
    try:
        return 'ret', fn(s, x)
    except BaseException as e:
        if type(e) is lib.Stop:
            raise
        return 'exc', e


def same_exception(a, b, env):
    if a is b:
        return True
    if a is env.boom or b is env.boom:
        return False
    # raised by the interpreter: a bare run names the other type
    return type(a) is type(b)


def touches(log):
    return [e for e in log if e[0] == 'touch']


def setup(kind, behaviour, opnd, grants, refusal, names):
    from zope.security.proxy import Proxy
    env = ops.Env(behaviour)
    target = ops.make_spy(env)
    checker = checkers.make(kind, env, grants, refusal, names)
    proxy = env.name(Proxy(target, checker), 'P')
    x = operand(opnd, env, proxy, names)
    return env, target, checker, proxy, x


def judge(op, mode, kind, granted, refusal, env, target, proxy, x, got, log,
          label='T'):
    """None, or what is wrong with the outcome of one operation."""
    from zope.security.interfaces import Unauthorized
    from zope.security.proxy import Proxy
    from zope.security.proxy import getObject
    name = op.check(mode)
    checks = [e for e in log if e[0] == 'check']
    if op.kind == 'public':
        granted = True
    elif not checks or log[0][0] != 'check':
        return 'the checker was not asked first: %r' % (log,)
    elif (log[0][1], log[0][2], log[0][3]) != (op.how, name, label):
        return 'the checker was asked %r instead of %r' % (
            log[0], (op.how, name, label))
    if not granted:
        if touches(log):
            return 'the object was touched though refused: %r' % (log,)
        if len(log) > 1 and not (op.name.startswith('getattr')
                                 and 'pure' in mode):
            return 'more than one check though refused: %r' % (log,)
        if op.kind == 'text':
            if got[0] != 'ret' or type(got[1]) is not str \
                    or 'security proxied' not in got[1]:
                return 'refused %s gave %r' % (op.name, got)
            return None
        if got[0] != 'exc':
            if op.name == 'getattr3' and isinstance(refusal, AttributeError):
                return None if got[1] is x else 'default lost: %r' % (got,)
            return 'no refusal: %r' % (got,)
        if kind in ('names', 'combined'):
            if type(got[1]) is not Unauthorized \
                    or got[1].args[0] is not target \
                    or got[1].args[1] != name \
                    or not str(got[1].args[2]).endswith(':' + name):
                return 'wrong refusal: %r' % (got,)
        elif got[1] is not refusal:
            return 'the refusal was changed: %r' % (got,)
        return None
    # granted: like the bare operation
    del env.log[:]
    bare = outcome(op.analog(mode), target, x, env)
    want = [e for e in env.log if e[0] != 'proxy']
    rest = [e for e in log if e[0] != 'proxy']
    if op.kind != 'public':
        rest = rest[1:]
    proxied = [e for e in log if e[0] == 'proxy']
    dup = (op.how == 'get' and op.name.startswith('getattr')
           and 'pure' in mode and bare[0] == 'exc'
           or op.name == 'getattr3' and 'pure' in mode)
    if dup:
        rest = [e for e in rest if e[0] != 'check']
    if rest != want:
        return 'the object saw %r, a bare object %r' % (rest, want)
    if bare[0] != got[0]:
        if kind != 'plain' and got[0] == 'exc' and op.kind != 'raw' and \
                type(got[1]) is TypeError and not ops.is_rock(bare[1]):
            # a protected result where Python insists on a builtin type
            return None
        return 'outcome %r, bare outcome %r' % (got, bare)
    if got[0] == 'exc':
        if dup and isinstance(got[1], AttributeError):
            return None
        if not same_exception(got[1], bare[1], env):
            return 'raised %r, the bare object %r' % (got[1], bare[1])
        return None
    r, b = got[1], bare[1]
    if op.kind in ('raw', 'none', 'text'):
        if type(r) is not type(b) or r != b:
            return 'returned %r, the bare object %r' % (r, b)
        return None
    if op.name[0] == 'i' and op.name[1:] in ops.INPLACE and b is target:
        return None if r is proxy else \
            'in-place operation returned %r, not the proxy' % (type(r),)
    if ops.is_rock(b):
        return None if type(r) is type(b) and r == b else \
            'returned %r, the bare object %r' % (r, b)
    if op.name == 'getattr3' and b is x:
        return None if r is x else 'default changed'
    if kind in ('plain', 'mapping'):
        if type(r) is not checkers.Wrapped:
            return 'result %r was not given to the checker to protect' % (r,)
        r = r.value
        if len(proxied) != 1:
            return 'result protected %d times' % len(proxied)
    else:
        if isinstance(b, Proxy):
            if r is not b:
                return 'protected result was replaced'
            return None
        if type(r) is not Proxy:
            return 'unprotected result %r' % (r,)
        r = getObject(r)
    if r is not b and not (type(b) is type(r) and op.kind == 'obj'
                           and type(b) in (list, tuple, type(iter(())))):
        return 'result %r is not that of the bare object %r' % (r, b)
    return None


def skip(op, mode, kind, behaviour, opnd):
    if kind == 'combined' and op.name == 'repr':
        return True     # the first checker makes it available by default
    # these need a result of a builtin type: only 'ret' and 'raise' make sense
    if op.kind in ('raw', 'text') or op.name in (
            'hash', 'bool', 'not', 'length_hint', 'int', 'float', 'complex',
            'index', 'num_index', 'hex', 'item_of_list', 'chr',
            'slice_of_list', 'iter', 'getiter', 'contains', 'next'):
        if behaviour in ('ni', 'self'):
            return True
    if not op.operand and opnd != 'thing':
        return True
    reflected = op.name[0] == 'r' and op.name[1:] in ops.BINARY + ops.COMPARE
    if reflected and opnd == 'rock' and op.name == 'rmod':
        return False
    if reflected and opnd in ('spy', 'proxy', 'same'):
        # the other operand's forward method comes first; covered by the
        # operand's own entries (as subject)
        return True
    return False


def one(case, rec, mode):
    """Run one single-operation case; return the outcome's name."""
    op = PRIM[case['op']]
    names = ops.all_names(mode)
    refusal = refusals()[case['refusal']]
    allowed = case['allowed']
    if allowed == 'none':
        def grants(n):
            return False
    elif allowed == 'all':
        def grants(n):
            return True
    elif allowed == 'own':
        def grants(n):
            return n == op.check(mode)
    elif allowed == 'others':
        def grants(n):
            return n != op.check(mode)
    else:
        def grants(n):
            return n == allowed
    env, target, checker, proxy, x = setup(
        case['kind'], case['behaviour'], case['operand'], grants, refusal,
        names)
    try:
        got = outcome(op.fn, proxy, x, env)
        log = list(env.log)
        rec.step()
        granted = op.kind == 'public' or grants(op.check(mode))
        msg = judge(op, mode, case['kind'], granted, refusal, env, target,
                    proxy, x, got, log)
    finally:
        checkers.cleanup()
    if msg:
        rec.violation('%s: %s' % (op, msg), case,
                      fingerprint='%s/%s' % (mode, op.name))
    return '%s-%s' % ('granted' if granted else 'refused', got[0])


def singles(mode):
    for op in PRIM.values():
        for kind, b, o, allowed in itertools.product(
                KINDS, BEHAVIOURS, OPERANDS, ['none', 'own', 'others', 'all']):
            if skip(op, mode, kind, b, o):
                continue
            for refusal in ('refused', 'attr', 'forbidden', 'unauthorized',
                            'base'):
                if refusal != 'refused' and (
                        allowed not in ('none', 'others')
                        or kind in ('names', 'combined') or o != 'thing'):
                    continue
                yield dict(part='single', op=op.name, kind=kind, behaviour=b,
                           operand=o, allowed=allowed, refusal=refusal)


def grants_cases(mode):
    names = ops.all_names(mode)
    for op in PRIM.values():
        for kind in ('plain', 'names', 'sub'):
            for n in names:
                yield dict(part='grants', op=op.name, kind=kind,
                           behaviour='ret', operand='thing', allowed=n,
                           refusal='refused')


def composite_cases(mode):
    names = ops.all_names(mode)
    for op in COMP.values():
        for kind in ('plain', 'names'):
            for b in BEHAVIOURS:
                for allowed in ['none', 'all']:
                    yield dict(part='composite', op=op.name, kind=kind,
                               behaviour=b, allowed=allowed)
            for n in names:
                yield dict(part='composite', op=op.name, kind=kind,
                           behaviour='ret', allowed=n)


def composite(case, rec, mode):
    op = COMP[case['op']]
    allowed = case['allowed']

    def grants(n):
        return allowed == 'all' or n == allowed
    env, target, checker, proxy, x = setup(
        case['kind'], case['behaviour'], 'thing', grants,
        ops.RefusedAttr('no'), ops.all_names(mode))
    try:
        got = outcome(op.fn, proxy, x, env)
        rec.step()
    finally:
        checkers.cleanup()
    granted = set()
    for e in env.log:
        if e[0] == 'check':
            if e[3] == 'T' and grants(e[2]):
                granted.add(e[2])
        elif e[0] == 'touch':
            if e[1] in ops.PUBLIC or e[1] == 'get:__Security_checker__':
                continue
            if not any(ops.covers(g, e[1]) for g in granted):
                rec.violation('%s reached %s with %r granted; log %r' % (
                    op.name, e[1], sorted(granted), env.log), case,
                    fingerprint='%s/%s' % (mode, op.name))
                break
    if got[0] == 'ret' and got[1] is target:
        rec.violation('%s returned the bare object' % op.name, case,
                      fingerprint='%s/%s leak' % (mode, op.name))
    return '%s-%s' % (len([e for e in env.log if e[0] == 'touch']), got[0])


def sequence(case, rec, mode):
    """Several operations on one proxy, with a decision for each."""
    names = ops.all_names(mode)
    current = [None]

    def grants(n):
        return current[0]
    refusal = ops.Refused('no')
    env, target, checker, proxy, x = setup(
        case['kind'], 'ret', 'thing', grants, refusal, names)
    from zope.security.proxy import Proxy
    target2 = ops.make_spy(env, 'T2')
    subjects = [(target, proxy, 'T'),
                (target2, env.name(Proxy(target2, checker), 'P2'), 'T2')]
    try:
        for opname, granted, which in case['ops']:
            op = PRIM[opname]
            target, proxy, label = subjects[which]
            current[0] = granted
            del env.log[:]
            got = outcome(op.fn, proxy, x, env)
            log = list(env.log)
            rec.step()
            msg = judge(op, mode, case['kind'], granted, refusal, env,
                        target, proxy, x, got, log, label)
            if msg:
                rec.violation('%s after %s: %s' % (op, case['ops'], msg),
                              case, fingerprint='%s/%s' % (mode, op.name))
                return 'bad'
    finally:
        checkers.cleanup()
    return ''.join('gr'[not g] for _, g, _ in case['ops'])


NAMES = ['x', '_x', '__x', '__x__', '_', '', 'a b', 'caf\xe9', '__call__',
         '__len__', '__dict__', '__doc__', '__module__', '__init__',
         '__getattribute__', '__setattr__', '__str__', '__eq__', '__hash__',
         '__bool__', '__reduce__', '__reduce_ex__', '__slots__', '__new__',
         '__class_getitem__', '__annotations__', '__weakref__', '__del__',
         '__qualname__', '__conform__', '__provides__', '__implemented__',
         '__providedBy__', '__parent__', '__name__', '__call', 'a\x00b',
         'Proxy', 'obj', 'checker', 'object', 'proxy_checker', '_checker_',
         'getObject', 'wrapped', '__3pow__', '__index__', '\u0130']


def make_subject_class():
    """Attribute access of every name is logged and answered."""
    class Subject:
        def __getattribute__(self, name):
            env = object.__getattribute__(self, 'env')
            if name in ('__class__', '__Security_checker__'):
                return object.__getattribute__(self, name)
            env.event('touch', 'get:' + name)
            if env.behaviour == 'raise':
                raise env.boom
            return env.thing

        def __setattr__(self, name, value):
            env = object.__getattribute__(self, 'env')
            env.event('touch', 'set:' + name)
            if env.behaviour == 'raise':
                raise env.boom

        def __delattr__(self, name):
            env = object.__getattribute__(self, 'env')
            env.event('touch', 'del:' + name)
            if env.behaviour == 'raise':
                raise env.boom
    return Subject


def name_cases():
    for n in NAMES:
        for how in ('get', 'set', 'del'):
            for kind in KINDS:
                for b in ('ret', 'raise'):
                    for ds in itertools.product([True, False], repeat=2):
                        yield dict(part='names', name=n, how=how, kind=kind,
                                   behaviour=b, decisions=ds)


def attribute(case, rec, mode):
    """Access to an attribute of any name."""
    from zope.security.proxy import Proxy
    from zope.security.proxy import getObject
    name, how, kind = case['name'], case['how'], case['kind']
    current = [None]
    env = ops.Env(case['behaviour'])
    refusal = refusals()['refused']
    target = make_subject_class()()
    object.__setattr__(target, 'env', env)
    env.name(target, 'T')
    checker = checkers.make(kind, env, lambda n: current[0], refusal, [name])
    proxy = Proxy(target, checker)
    fn = {'get': lambda: getattr(proxy, name),
          'set': lambda: setattr(proxy, name, 5),
          'del': lambda: delattr(proxy, name)}[how]
    kindof = 'get' if how == 'get' else 'set'
    soft = 'pure' in mode and hasattr(type(proxy), name)
    if how == 'get' and (
            'pure' in mode and name in ops.PUBLIC
            or kind == 'combined' and name[:2] == name[-2:] == '__'):
        checkers.cleanup()      # not asked, or available by default
        return 'skipped'
    try:
        for granted in case['decisions']:
            current[0] = granted
            del env.log[:]
            try:
                got = 'ret', fn()
            except Exception as e:
                if type(e) is lib.Stop:
                    raise
                got = 'exc', e
            rec.step()
            log = [e for e in env.log if e[0] != 'proxy']
            want = [('check', kindof, name, 'T')]
            if granted and soft and how == 'get':
                # Python proxies have some of their own class's attributes
                # take precedence
                if log[:1] != want or touches(log[:1]) \
                        or got[0] == 'ret' and got[1] is target:
                    rec.violation('%r happened, got %r' % (log, got), case,
                                  fingerprint='%s/name/%s' % (mode, how))
                continue
            if granted:
                want.append(('touch', '%s:%s' % (how, name)))
            msg = None
            if log != want:
                msg = '%r happened, not %r' % (log, want)
            elif not granted:
                if got[0] == 'ret':
                    msg = 'no refusal: %r' % (got,)
                elif kind not in ('names', 'combined') \
                        and got[1] is not refusal:
                    msg = 'refused with %r' % (got,)
            elif case['behaviour'] == 'raise':
                if got[1] is not env.boom:
                    msg = 'boom became %r' % (got,)
            elif how == 'get':
                v = got[1]
                if kind in ('plain', 'mapping'):
                    v = getattr(v, 'value', v)
                elif type(v) is Proxy:
                    v = getObject(v)
                if got[0] != 'ret' or v is got[1] or v is not env.thing:
                    msg = 'got %r' % (got,)
            if msg:
                rec.violation('%s of %r: %s' % (how, name, msg), case,
                              fingerprint='%s/name/%s' % (mode, how))
                return 'bad'
    finally:
        checkers.cleanup()
    return '%s-%s' % (how, case['decisions'])


class Dossier:
    """What the liars are after."""
    ok = 'ok'
    secret = 'class secret'

    def __init__(self):
        self.ok2 = 'ok2'
        self.hidden = 'instance secret'


LIES = ('secret', 'hidden', '_wrapped', '_checker', '__dict__', 'fresh')


def liar_cases():
    for n in LIES:
        for how in ('get', 'set', 'del', 'get3', 'hasattr'):
            for kind in KINDS:
                for pretence in ('ok', 'ok2', '__hash__', '__class__'):
                    if pretence == n:
                        continue
                    for times in range(12):
                        for swap in (False, True):
                            yield dict(part='liars', name=n, how=how,
                                       kind=kind, pretence=pretence,
                                       times=times, swap=swap)


def liar(case, rec, mode):
    """A name that is not the same to everyone opens no other attribute."""
    from zope.security.proxy import Proxy
    name, pretence, how = case['name'], case['pretence'], case['how']
    good = ['ok', 'ok2'] + [n for n in (pretence,) if n[:2] == '__']
    env = ops.Env('ret')
    refusal = refusals()['refused']
    target = Dossier()
    env.name(target, 'T')
    before = dict(vars(target))
    checker = checkers.make(case['kind'], env, lambda n: n in good,
                            refusal, good + [name])
    proxy = Proxy(target, checker)
    words = (pretence, name) if case['swap'] else (name, pretence)
    n = ops.Liar(words[0], words[1], case['times'])
    try:
        got = ('ret', {'get': lambda: getattr(proxy, n),
                       'get3': lambda: getattr(proxy, n, None),
                       'hasattr': lambda: hasattr(proxy, n),
                       'set': lambda: setattr(proxy, n, 'new'),
                       'del': lambda: delattr(proxy, n)}[how]())
    except Exception as e:
        if type(e) is lib.Stop:
            raise
        got = 'exc', type(e).__name__
    rec.step()
    try:
        after = dict(object.__getattribute__(target, '__dict__'))
        bad = None
        if got[0] == 'ret' and how != 'hasattr':
            v = getattr(got[1], 'value', got[1])
            if type(v) is Proxy:
                from zope.security.proxy import getObject
                v = getObject(v)
            loot = ('class secret', 'instance secret')
            if v in loot or v is target or v is checker \
                    or v is vars(target):
                bad = 'got %r' % (v,)
        for k in {*before, *after} - {*good}:
            if before.get(k) != after.get(k):
                bad = 'changed %s' % k
        if type(target) is not Dossier:
            bad = 'changed the class'
        if bad:
            rec.violation('%s with a name that lies: %s' % (how, bad), case,
                          fingerprint='%s/liar/%s' % (mode, how))
    finally:
        checkers.cleanup()
    return '%s %s' % (how, got[0])


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyInt(int):
    pass


class MyStr(str):
    pass


class Odd:
    """An object of attributes only."""

    def __init__(self):
        self.attr = 1
        self.other = 2

    def __repr__(self):
        return 'Odd()'


def a_function(*args, **kw):
    return len(args) + len(kw)


# the contents are such that none of them turns up by accident
BUILTINS = {
    'list': lambda: [4711, 4712, 4713],
    'emptylist': lambda: [],
    'tuple': lambda: (4711, 4712, 4713),
    'dict': lambda: {'k': 4711, 1: 4712, 5: 4713},
    'set': lambda: {4711, 'k', 1},
    'frozenset': lambda: frozenset([4711, 'k', 1]),
    'bytearray': lambda: bytearray(b'abcdef'),
    'bytes': lambda: b'abcdef',
    'str': lambda: 'abcdef',
    'int': lambda: 4711,
    'zero': lambda: 0,
    'float': lambda: 47.5,
    'complex': lambda: 47j,
    'bool': lambda: True,
    'none': lambda: None,
    'range': lambda: range(4711, 4715),
    'slice': lambda: slice(1, 4711),
    'memoryview': lambda: memoryview(b'abcdef'),
    'listiter': lambda: iter([4711, 4712]),
    'dictkeys': lambda: {'k': 1, 4711: 2}.keys(),
    'dictvalues': lambda: {'k': 4711}.values(),
    'generator': lambda: (i for i in (4711, 4712)),
    'function': lambda: lambda *args, **kw: len(args) + len(kw),
    'builtin': lambda: len,
    'method': lambda: [4711].index,
    'class': lambda: type('Fresh', (int,), {}),
    'type': lambda: list,
    'module': lambda: types.ModuleType('fresh'),
    'mylist': lambda: MyList([4711, 4712, 4713]),
    'mydict': lambda: MyDict({'k': 4711, 1: 4712}),
    'myint': lambda: MyInt(4711),
    'mystr': lambda: MyStr('abcdef'),
    'odd': Odd,
    'exception': lambda: ValueError(4711),
    'decimal': lambda: decimal.Decimal('47.11'),
    'deque': lambda: collections.deque([4711, 4712, 4713]),
    'ordereddict': lambda: collections.OrderedDict(k=4711),
    'array': lambda: array.array('i', [4711, 4712, 4713]),
    'date': lambda: datetime.date(1, 2, 3),
    'partial': lambda: functools.partial(a_function, 1),
}
B_OPERANDS = {
    'zero': lambda t: 0,
    'one': lambda t: 1,
    'key': lambda t: 'k',
    'alike': lambda t: BUILTINS[t](),
    'thing': lambda t: ops.Thing('x'),
}
NO_BUILTIN = {'length_hint'}     # as a method of the type


def snapshot(v):
    """What a value looks like, and what is in it."""
    if isinstance(v, checkers.Wrapped):
        return snapshot(v.value)
    if isinstance(v, (list, tuple, collections.deque)):
        return type(v).__name__, [snapshot(x) for x in v]
    if isinstance(v, dict):
        return type(v).__name__, [(snapshot(k), snapshot(x))
                                  for k, x in v.items()]
    if isinstance(v, (set, frozenset)):
        return type(v).__name__, sorted(map(repr, v))
    if type(v) is Odd:
        return 'Odd', repr(sorted(vars(v).items()))
    if isinstance(v, (int, float, complex, str, bytes, bytearray, range,
                      slice, array.array, ops.Thing, decimal.Decimal)):
        return type(v).__name__, repr(v)
    if type(v) in (type(iter([])), type(iter(()))):
        return type(v).__name__, operator.length_hint(v)
    return type(v).__name__


def builtin_cases():
    for op in PRIM.values():
        if op.name in NO_BUILTIN:
            continue
        for t in BUILTINS:
            reflected = op.name[0] == 'r' and \
                op.name[1:] in ops.BINARY + ops.COMPARE
            for x in B_OPERANDS if op.operand else ('one',):
                if reflected and x in ('key', 'alike'):
                    continue    # the operand's own operation comes first
                if op.name in ('pow', 'rpow', 'ipow', 'lshift', 'rlshift',
                               'ilshift', 'pow3') and x == 'alike' \
                        or op.name.startswith('seq_') and t in (
                            'dict', 'mydict', 'ordereddict'):
                    continue
                for kind in ('plain', 'mapping', 'names', 'sub'):
                    for granted in (False, True):
                        yield dict(part='builtin', op=op.name, target=t,
                                   operand=x, kind=kind, granted=granted)
    for op in COMP.values():
        for t in BUILTINS:
            if t in ('bool', 'none'):
                continue        # indistinguishable from an answer
            for kind in ('plain', 'names'):
                yield dict(part='builtin', op=op.name, target=t,
                           operand='zero', kind=kind, granted=False)


def contains_secret(v, depth=3):
    if isinstance(v, checkers.Wrapped) or depth < 0:
        return False
    if type(v) in (list, tuple, set, frozenset, collections.deque):
        return any(contains_secret(x, depth - 1) for x in v)
    if type(v) is dict:
        return any(contains_secret(x, depth - 1)
                   for kv in v.items() for x in kv)
    if isinstance(v, (int, float, complex)) and type(v) is not bool:
        return v in (4711, 4712, 4713, 4714, 47.5, 47j, 47.11)
    if isinstance(v, (str, bytes, bytearray)):
        return v in ('abcdef', b'abcdef', 'abcdefabcdef', 'bc', b'bc') \
            or '471' in str(v) and 'proxied' not in str(v)
    return False


def builtin(case, rec, mode):
    """An operation on an object of a class of Python's own."""
    from zope.security.proxy import Proxy
    granted, kind = case['granted'], case['kind']
    refusal = refusals()['refused']
    op = PRIM.get(case['op']) or COMP[case['op']]
    env = ops.Env('ret')
    target = env.name(BUILTINS[case['target']](), 'T')
    checker = checkers.make(kind, env, lambda n: granted, refusal,
                            ops.all_names(mode))
    proxy = Proxy(target, checker)
    x = B_OPERANDS[case['operand']](case['target'])
    before = snapshot(target)
    try:
        got = outcome(op.fn, proxy, x, env)
    finally:
        checkers.cleanup()
    rec.step()
    checks = [e for e in env.log if e[0] == 'check']
    msg = None
    composite = op.kind == 'composite'
    if composite:
        if snapshot(target) != before:
            msg = 'changed the object to %r' % (snapshot(target),)
        elif got[0] == 'ret' and (got[1] is target
                                  or contains_secret(got[1])):
            msg = 'gave %r' % (got[1],)
    elif op.kind == 'public':
        granted = True
    elif not checks or checks[0][1:] != (op.how, op.check(mode), 'T'):
        msg = 'the checker was asked %r, not %r first' % (
            checks, (op.how, op.check(mode), 'T'))
    if msg is None and not granted and not composite:
        if snapshot(target) != before:
            msg = 'changed the object to %r' % (snapshot(target),)
        elif len(checks) > 1 and not (op.name == 'getattr3'
                                      and 'pure' in mode):
            msg = 'more than one check though refused: %r' % (checks,)
        elif op.kind == 'text':
            if got[0] != 'ret' or 'security proxied' not in got[1]:
                msg = 'refused %s gave %r' % (op.name, got)
        elif got[0] == 'ret':
            msg = 'no refusal: %r' % (got,)
        elif got[1] is not refusal and kind != 'names':
            msg = 'the refusal was changed: %r' % (got,)
    elif msg is None and not composite:
        target2 = BUILTINS[case['target']]()
        if op.name in ('eq', 'ne', 'req', 'rne', 'lt', 'le', 'gt', 'ge'):
            target2 = target        # identity counts
        want = outcome(op.analog(mode), target2,
                       B_OPERANDS[case['operand']](case['target']), env)
        if op.name == 'getattr3' and got[0] == 'ret' and got[1] is x:
            if case['target'] == 'odd':
                msg = 'the default replaced the attribute'
        else:
            msg = differs(op, mode, kind, got, want, proxy, target, target2)
    if msg:
        rec.violation('%s on %s: %s' % (op.name, case['target'], msg), case,
                      fingerprint='%s/builtin/%s' % (mode, op.name))
    return '%s-%s' % ('granted' if granted else 'refused', got[0])


def differs(op, mode, kind, got, want, proxy, target, target2):
    from zope.security.proxy import Proxy
    from zope.security.proxy import getObject
    if snapshot(target) != snapshot(target2):
        return 'left the object as %r, bare as %r' % (
            snapshot(target), snapshot(target2))
    if want[0] != got[0]:
        if want[0] == 'exc' and op.name in ('seq_getitem', 'seq_size',
                                            'seq_setitem', 'seq_delitem',
                                            'map_size'):
            return None     # the wrong protocol for a bare one only
        if got[0] == 'exc' and type(got[1]) is TypeError \
                and not ops.is_rock(want[1]):
            # a protected result where Python insists on a builtin type
            return None
        return 'outcome %r, bare outcome %r' % (got, want)
    if got[0] == 'exc':
        a, b = type(got[1]), type(want[1])
        if a is b or {a, b} <= {TypeError, AttributeError}:
            return None
        if op.name in ('int', 'float', 'complex') and a is TypeError:
            return None     # documented: only what has the method
        return 'raised %r, the bare object %r' % (got[1], want[1])
    r, b = got[1], want[1]
    if op.name[0] == 'i' and op.name[1:] in ops.INPLACE and b is target2 \
            and type(b) is type(target):
        # (an immutable one's operation can return the object as well)
        return None if r is proxy else 'not the proxy'
    if ops.is_rock(b) or op.kind in ('raw', 'none', 'text'):
        if op.name in ('str', 'repr') and ' at 0x' in b:
            return None
        if op.name == 'hash':
            return None
        if type(b) is str and type(r) is not str:
            return 'returned %r, the bare object %r' % (r, b)
        return None if type(r) is type(b) and (r == b or r != r) else \
            'returned %r, the bare object %r' % (r, b)
    if kind in ('plain', 'mapping'):
        if type(r) is not checkers.Wrapped:
            return 'result %r was not given to the checker to protect' % (r,)
        r = r.value
    elif type(r) is Proxy:
        r = getObject(r)
    elif type(r) is not type(b):
        return 'returned %r, the bare object %r' % (r, b)
    if snapshot(r) != snapshot(b):
        return 'returned %r, the bare object %r' % (r, b)
    return None


# one operation per mediated name and mechanism, for longer sequences
SHORT = ['getattr', 'setattr', 'delattr', 'call', 'getitem', 'setitem',
         'delitem', 'contains', 'iter', 'next', 'len', 'str', 'neg', 'int',
         'index', 'add', 'radd', 'iadd', 'pow', 'eq', 'hash']


def sequences(part):
    if part == 'pairs':
        for a, b in itertools.product(PRIM, PRIM):
            for da, db in itertools.product([True, False], repeat=2):
                for kind in ('plain', 'names'):
                    yield dict(part='sequence', kind=kind,
                               ops=[[a, da, 0], [b, db, 0]])
        for a in PRIM:
            for ds in itertools.product([True, False], repeat=3):
                for kind in KINDS:
                    if skip(PRIM[a], '', kind, 'ret', 'thing'):
                        continue
                    yield dict(part='sequence', kind=kind,
                               ops=[[a, d, n] for d, n in zip(ds, (0, 1, 0))])
    else:
        for abc in itertools.product(SHORT, repeat=3):
            for d in itertools.product([True, False], repeat=3):
                for kind in ('plain', 'names'):
                    yield dict(part='sequence', kind=kind,
                               ops=[list(p) for p in zip(abc, d, (0, 0, 0))])


# part 'partial': objects that have some of the methods of a protocol only, so
# that Python makes do with the others; every method that is called must have
# been granted, or be what Python falls back to for a granted one

FAMILIES = {
    'iteration': ['__iter__', '__getitem__', '__len__', '__contains__',
                  '__next__', '__reversed__'],
    'number': ['__int__', '__float__', '__index__', '__trunc__',
               '__complex__', '__round__'],
    'text': ['__str__', '__format__', '__bytes__', '__fspath__', '__index__',
             '__iter__'],
    'inplace': ['__iadd__', '__add__', '__radd__', '__len__', '__getitem__'],
    'multiply': ['__imul__', '__mul__', '__rmul__', '__len__', '__index__'],
    'or': ['__ior__', '__or__', '__ror__', 'keys', '__getitem__', '__iter__'],
    'mapping': ['__getitem__', '__setitem__', '__delitem__', 'keys',
                '__missing__', '__len__'],
    'manager': ['__enter__', '__exit__', '__aenter__', '__await__',
                '__aiter__', '__anext__'],
    'copying': ['__reduce__', '__reduce_ex__', '__copy__', '__deepcopy__',
                '__getstate__', '__sizeof__'],
    'other': ['__call__', '__get__', '__set_name__', '__mro_entries__',
              '__instancecheck__', '__dir__'],
}
FALLBACK = {
    '__iter__': ['__getitem__'], '__contains__': ['__iter__', '__getitem__'],
    '__iadd__': ['__add__'], '__imul__': ['__mul__'], '__ior__': ['__or__'],
    '__int__': ['__index__', '__trunc__'], '__float__': ['__index__'],
    '__complex__': ['__float__', '__index__'],
    '__rmul__': ['__index__'],      # [1] * target repeats the list
    '__reduce_ex__': ['__reduce__', '__getstate__'],
    '__reduce__': ['__getstate__'], '__dir__': [],
}
UNCHECKED = {'__bool__', '__hash__', '__repr__', '__length_hint__'}


def partial_class(has, log):
    def method(name):
        def call(self, *args):
            log.append(name)
            n = log.count(name)
            if name == '__getitem__':
                if isinstance(args[0], int) and not -3 < args[0] < 3:
                    raise IndexError
                return 'ab'
            if name == '__next__':
                if n > 3:
                    raise StopIteration
                return 'cd'
            if name in ('__iter__', '__reversed__', 'keys'):
                return iter(['a', 'b'])
            if name == '__setitem__' and n > 9 or name == '__await__':
                raise IndexError
            return {'__len__': 2, '__contains__': False, '__int__': 3,
                    '__float__': 3.0, '__index__': 2, '__trunc__': 3,
                    '__complex__': 3j, '__str__': 's', '__format__': 'f',
                    '__bytes__': b'b', '__fspath__': 'path',
                    '__reduce__': 'copied', '__reduce_ex__': 'copied',
                    '__sizeof__': 5, '__dir__': ['a'], '__exit__': False,
                    '__setitem__': None, '__delitem__': None,
                    '__set_name__': None, '__mro_entries__': ()}.get(
                        name, 7)
        return call
    d = {n: method(n) for n in has}
    # for what is not checked anyway
    d['__bool__'] = lambda self: True
    d['__repr__'] = lambda self: 'T'
    return type('Target', (), d)


def subsets(names):
    return itertools.chain.from_iterable(
        itertools.combinations(names, n) for n in range(len(names) + 1))


def partial_ops(family, mode):
    """The operations that have to do with the methods of the family."""
    names = FAMILIES[family]
    out = []
    for op in (*PRIM.values(), *COMP.values()):
        for has in [names] + [[n] for n in names]:
            log = []
            partial_run(op, partial_class(has, log)(), names, mode)
            if log:
                out.append(op.name)
                break
    return out


def partial_run(op, target, granted, mode):
    from zope.security import checker as zc
    from zope.security.proxy import Proxy
    p = Proxy(target, zc.NamesChecker(granted))
    env = ops.Env('ret')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return outcome(op.fn, p, 1, env)


def partial_cases(mode):
    for family, names in FAMILIES.items():
        for op in partial_ops(family, mode):
            for has in subsets(names):
                for granted in subsets(names):
                    yield dict(part='partial', family=family, op=op,
                               has=has, granted=granted)


def partial(case, rec, mode):
    log = []
    op = PRIM.get(case['op']) or COMP[case['op']]
    granted = case['granted']
    partial_run(op, partial_class(case['has'], log)(), granted, mode)
    rec.step()
    fine = set(granted) | UNCHECKED
    for n in granted:
        fine.update(FALLBACK.get(n, ()))
        if n in ('__iter__', '__getitem__') and '__iter__' not in case['has']:
            fine.add('__len__')     # the length hint of the iterator
    wrong = [n for n in log if n not in fine]
    if wrong:
        rec.violation('%s called %s of an object that has %s, granted %s' % (
            op.name, wrong, list(case['has']), list(granted)), case,
            fingerprint='%s/partial/%s' % (mode, op.name))
        return 'bad'
    return 'called' if log else 'not called'


class Powerful:
    """An object with a power of its own."""

    def __init__(self, env, label):
        self.env, self.at = env, label

    def __pow__(self, other, modulus=None):
        self.env.event('touch', self.at, other, modulus)
        return self.env.thing


T_VALUES = {
    'int': lambda env, i: (4711, 4713, 4721)[i],
    'decimal': lambda env, i: decimal.Decimal((4711, 4713, 4721)[i]),
    'str': lambda env, i: ('aaa', 'bbb', 'ccc')[i],
    'own': lambda env, i: Powerful(env, 'T%d' % i),
    'list': lambda env, i: [i],
}
T_NAMES = '__pow__', '__rpow__', '__3pow__'


def ternary_cases():
    for values in itertools.product(('int', 'decimal', 'str', 'own', 'list'),
                                    ('int', 'decimal', 'own'),
                                    ('int', 'decimal', 'str')):
        for where in range(1, 8):
            for kind in ('plain', 'mapping', 'names', 'sub'):
                for granted in range(8):
                    if granted & ~where:
                        continue
                    yield dict(part='ternary', values=list(values),
                               where=where, kind=kind, granted=granted)


def ternary(case, rec, mode):
    """pow() with three operands, any of which may be protected."""
    from zope.security.proxy import Proxy
    from zope.security.proxy import getObject
    where, kind = case['where'], case['kind']
    refusal = refusals()['refused']
    env = ops.Env('ret')
    values = [env.name(T_VALUES[v](env, i), 'T%d' % i)
              for i, v in enumerate(case['values'])]
    allowed = {n for i, n in enumerate(T_NAMES) if case['granted'] >> i & 1}
    checker = checkers.make(kind, env, lambda n: n in allowed, refusal,
                            ops.all_names(mode))
    args = [Proxy(v, checker) if where >> i & 1 else v
            for i, v in enumerate(values)]
    try:
        got = outcome(lambda s, x: pow(*args), None, None, env)
    finally:
        checkers.cleanup()
    rec.step()
    log = [e for e in env.log if e[0] in ('check', 'touch')]
    del env.log[:]
    want = outcome(lambda s, x: pow(*values), None, None, env)
    touched = [e for e in env.log if e[0] == 'touch']
    # what is asked: one protected operand after the other, from the left,
    # unless an operation of their own deals with them
    expect = []
    refused = False
    for i in range(3):
        if where >> i & 1:
            expect.append(('check', 'get', T_NAMES[i], 'T%d' % i))
            if T_NAMES[i] not in allowed:
                refused = True
                break
        if i == 0 and case['values'][0] == 'own':
            expect.append(('touch', 'T0'))
            break
    checks = [e if e[0] == 'check' else e[:2] for e in log]
    msg = None
    if 'pure' in mode and where != 1:
        # documented: only the first operand may be protected
        if checks != expect[:len(checks)] or got[0] == 'ret' and (
                refused or checks != expect):
            msg = 'asked %r, not %r, and got %r' % (checks, expect, got)
    elif checks != expect:
        msg = 'asked %r, not %r' % (checks, expect)
    elif refused:
        if got[0] != 'exc' or got[1] is not refusal and kind != 'names':
            msg = 'refused, but %r' % (got,)
    elif got[0] != want[0]:
        msg = 'outcome %r, bare %r' % (got, want)
    elif got[0] == 'exc':
        if type(got[1]) is not type(want[1]):
            msg = 'raised %r, bare %r' % (got, want)
    else:
        r = got[1]
        if not ops.is_rock(want[1]) and expect[0][0] == 'check' \
                and type(r) not in (Proxy, checkers.Wrapped):
            msg = 'result %r is not protected' % (r,)
        while type(r) in (Proxy, checkers.Wrapped):
            r = getObject(r) if type(r) is Proxy else r.value
        if r != want[1] or type(r) is not type(want[1]):
            msg = 'result %r, bare %r' % (r, want[1])
        elif touched and (log[-1][2] is not args[1]
                          or log[-1][3] is not args[2]):
            msg = 'called with %r' % (log[-1],)
    if msg:
        rec.violation('pow of %s: %s' % (case['values'], msg), case,
                      fingerprint='%s/ternary/%s/%s' % (
                          mode, where, case['values']))
        return 'bad'
    return 'refused' if refused else got[0]


def run(case, rec, mode):
    return {'single': one, 'grants': one, 'composite': composite,
            'names': attribute, 'liars': liar, 'builtin': builtin,
            'partial': partial, 'ternary': ternary,
            'sequence': sequence}[case['part']](case, rec, mode)


def explore(job, rec):
    mode = job['mode']
    part = job['part']
    if part == 'single':
        cases = singles(mode)
    elif part == 'grants':
        cases = grants_cases(mode)
    elif part == 'composite':
        cases = composite_cases(mode)
    elif part == 'names':
        cases = name_cases()
    elif part == 'liars':
        cases = liar_cases()
    elif part == 'builtin':
        cases = builtin_cases()
    elif part == 'ternary':
        cases = ternary_cases()
    elif part == 'partial':
        cases = lib.shard(partial_cases(mode), job)
    else:
        cases = lib.shard(sequences(part), job)
    for case in cases:
        rec.case(case)
        rec.state((mode, case.get('op'), case.get('kind'),
                   case.get('behaviour'), case.get('allowed'),
                   case.get('name'), case.get('how'), case.get('target'),
                   str(case.get('ops'))))
        rec.trace('%s %s' % (part, run(case, rec, mode)), case)


def replay(case, rec, job):
    rec.trace(run(case, rec, job['mode']))
