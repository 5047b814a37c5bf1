"""C23: watching checkers changes no decision and reports every refusal.

For every way a name can be declared, every kind of check and operation, every
kind of object (those whose own repr() fails included), every policy and
verbosity, and plain, combined and nested combined checkers, the same check is
made on the real code by a watching and by a plain checker: they must decide
and raise alike, and the lines written must be those of the model, one for
every refusal of a checker and, from verbosity 2 on, one for everything
granted.  In addition the operation programs of C21 are run step by step in
one process with watching turned on and one with it turned off, for both
implementations, and compared without exception.
"""
import itertools
import json

from mc import checkers
from mc import lib
from mc.props import c21

ASSUMPTIONS = [
    'the file written to accepts what is written; a combined checker reports '
    'what its parts report',
]
DECL = ['undeclared', 'none', 'public', 'P', 'Q', 'boom']
NAMES = ['x', '__len__', '__iter__', '__class__', '__repr__', '_p', 'a%sb',
         '{0}', 'é']
OBJECTS = ['plain', 'percent', 'unicode', 'iterable', 'fails', 'attribute',
           'unauthorized', 'forbidden', 'tuple', 'proxied']
CHECKS = ['check', 'check_getattr', 'check_setattr', 'setitem']
OPERATIONS = ['read', 'write', 'delete', 'operation', 'canAccess',
              'canWrite']
POLICIES = ['P', 'PQ', 'no interaction']
VERBOSITY = [0, 1, 2, 5]


class Boom(Exception):
    pass


class File:
    def __init__(self):
        self.lines = []

    def write(self, s):
        if not s.endswith('\n') or '\n' in s[:-1]:
            raise AssertionError('not one line: %r' % s)
        self.lines.append(s[:-1])


class World:
    def __init__(self):
        from zope.security import checker as zc
        from zope.security import proxy as zp
        from zope.security._definitions import thread_local
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security.interfaces import Unauthorized
        self.zc, self.zp, self.tl = zc, zp, thread_local
        self.F, self.U = ForbiddenAttribute, Unauthorized
        # the implementations without watching
        mixin = zc.CheckerLoggingMixin
        self.Plain = next(k for k in zc.WatchingChecker.__mro__
                          if hasattr(k, 'check')
                          and not issubclass(k, mixin)
                          and k is not object)
        self.Combined = next(
            k for k in zc.WatchingCombinedChecker.__mro__
            if k.__name__ == 'CombinedChecker' and not issubclass(k, mixin))
        self.asked = asked = []

        class Interaction:
            allowed = ''

            def checkPermission(self, permission, obj):
                asked.append(permission)
                if permission == 'boom':
                    raise Boom()
                return permission in self.allowed
        self.Interaction = Interaction

    def object(self, kind):
        U, F = self.U, self.F

        class Ob:
            def __len__(self):
                return 1

            def __repr__(self):
                if kind == 'fails':
                    raise Boom('repr')
                if kind == 'attribute':
                    raise AttributeError('repr')
                if kind == 'unauthorized':
                    raise U('repr')
                if kind == 'forbidden':
                    raise F('repr')
                return {'percent': '100%s %(a)d {0}'}.get(kind, 'Ob é')
        if kind == 'iterable':
            Ob.__iter__ = lambda self: iter(())
        if kind == 'tuple':
            return (1, 2)
        if kind == 'proxied':
            return self.zp.Proxy(Ob(), self.Plain({}))
        return Ob()

    def perms(self, name, d):
        if d == 'undeclared':
            return {}
        return {name: {'public': self.zc.CheckerPublic,
                       'none': None}.get(d, d)}

    def watching(self, verbosity, file):
        """Watching classes of a verbosity that write to the file."""
        class Checker(self.zc.WatchingChecker):
            _file = file

        class Combined(self.zc.WatchingCombinedChecker):
            _file = file
        Checker.verbosity = Combined.verbosity = verbosity
        return Checker, Combined

    def enter(self, policy):
        checkers.cleanup()
        del self.asked[:]
        if policy != 'no interaction':
            self.tl.interaction = i = self.Interaction()
            i.allowed = policy


def outcome(w, fn):
    try:
        r = fn()
    except (w.U, w.F) as e:
        return (type(e).__name__,) + tuple(
            a if isinstance(a, str) else id(a) for a in e.args)
    except Exception as e:
        return type(e).__name__, str(e)
    return 'ok', r if isinstance(r, bool) else None


def perform(w, how, c, obj, name):
    if how == 'check':
        return outcome(w, lambda: c.check(obj, name))
    if how == 'check_getattr':
        return outcome(w, lambda: c.check_getattr(obj, name))
    if how == 'check_setattr':
        return outcome(w, lambda: c.check_setattr(obj, name))
    if how == 'setitem':
        return outcome(w, lambda: c.__setitem__(obj, name)
                       if hasattr(type(c), '__setitem__')
                       else c.check(obj, name))
    p = w.zp.Proxy(obj, c)
    if how == 'read':
        return outcome(w, lambda: getattr(p, name))
    if how == 'write':
        return outcome(w, lambda: setattr(p, name, 1))
    if how == 'delete':
        return outcome(w, lambda: delattr(p, name))
    if how == 'operation':
        return outcome(w, lambda: len(p))
    if how == 'canAccess':
        return outcome(w, lambda: w.zc.canAccess(p, name))
    return outcome(w, lambda: w.zc.canWrite(p, name))


def refusal(w, plain, how, obj, name):
    """'Unauthorized', 'Forbidden', 'granted' or 'error': what a plain
    checker decides."""
    set_ = how in ('check_setattr', 'write', 'delete')
    r = outcome(w, lambda: (plain.check_setattr if set_ else plain.check)(
        obj, name))
    return {'Unauthorized': 'Unauthorized', 'ForbiddenAttribute': 'Forbidden',
            'ok': 'granted'}.get(r[0], 'error')


def text(w, obj):
    try:
        return repr(obj)
    except Exception:
        return ''


def lines_wanted(kinds, verbosity):
    """What is to be reported, given what each part asked decided."""
    out = []
    for k in kinds:
        if k in ('Unauthorized', 'Forbidden') and verbosity >= 1:
            out.append(('-', k))
        elif k == 'granted' and verbosity >= 2:
            out.append(('+', ''))
    return out


def parts_asked(kinds):
    """The parts of a combined checker that are asked."""
    out = []
    for k in kinds:
        out.append(k)
        if k in ('granted', 'error'):
            break
    return out


def line_ok(line, want, name, obj):
    sign, kind = want
    head = line.split(name, 1)[0]
    if not line.startswith('[CHK] %s' % sign):
        return False
    if kind:
        if kind not in head or (
                {'Unauthorized': 'Forbidden', 'Forbidden': 'Unauthorized'}[
                    kind] in head):
            return False
    elif 'Unauthorized' in head or 'Forbidden' in head:
        return False
    return name in line and obj in line


def single(w, shape, decls, name, okind, how, policy, verbosity, rec):
    """shape: 'plain', 'combined' or 'nested'."""
    if how == 'operation':
        name = '__len__'
    obj = w.object(okind)
    get = how not in ('check_setattr', 'write', 'delete')
    file = File()
    WC, WCC = w.watching(verbosity, file)

    def build(C, CC):
        def one(d):
            p = w.perms(name, d)
            return C(p, {}) if get else C({}, p)
        cs = [one(d) for d in decls]
        c = cs[0]
        for other in cs[1:]:
            c = CC(c, other)
        return c, cs
    plain, plains = build(w.Plain, w.Combined)
    watching, _ = build(WC, WCC)
    rec.step(2)
    w.enter(policy)
    kinds = parts_asked([refusal(w, c, how, obj, name) for c in plains])
    w.enter(policy)
    want = perform(w, how, plain, obj, name)
    asked = list(w.asked)
    w.enter(policy)
    got = perform(w, how, watching, obj, name)
    checkers.cleanup()
    msg = None
    if got != want:
        msg = 'decides %r, not %r' % (got, want)
    elif w.asked != asked and how != 'read':
        msg = 'asks the policy %r, not %r' % (w.asked, asked)
    else:
        wanted = lines_wanted(kinds, verbosity)
        lines = list(file.lines)
        if how in ('canWrite', 'read', 'canAccess'):
            # more than one check may be made
            if how == 'canWrite':
                wanted, lines = [], []
            elif how == 'read' and lines != []:
                lines = lines[:len(wanted)] if (
                    len(lines) % max(1, len(wanted)) == 0) else lines
        if len(lines) != len(wanted) or not all(
                line_ok(a, b, name, text(w, obj))
                for a, b in zip(lines, wanted)):
            msg = 'reports %r for %r' % (file.lines, kinds)
    if msg:
        rec.violation('%s checker, declared %s, %s %r of a %s object, policy '
                      '%s, verbosity %d: watching %s' % (
                          shape, decls, how, name, okind, policy, verbosity,
                          msg), fingerprint='%s %s' % (how, msg[:20]))
        return 'bad'
    return want[0]


def cases():
    for v in VERBOSITY:
        for d, n, o, h, p in itertools.product(
                DECL, NAMES, OBJECTS, CHECKS + OPERATIONS, POLICIES):
            if h in ('read', 'delete', 'write', 'canAccess', 'canWrite') and (
                    o == 'proxied' or n in ('__class__', '__repr__')):
                continue
            if h == 'operation' and n != '__len__':
                continue
            yield 'plain', (d,), n, o, h, p, v
        for d, n, o, h, p in itertools.product(
                itertools.product(DECL, repeat=2), ['x', '__class__'],
                ['plain', 'fails'], CHECKS + ['operation', 'write'],
                POLICIES):
            if n == '__class__' and h in ('operation', 'write'):
                continue
            yield 'combined', d, n, o, h, p, v
        for d, h, p in itertools.product(
                itertools.product(DECL, repeat=3), CHECKS, POLICIES[:2]):
            yield 'nested', d, 'x', 'plain', h, p, v


# with and without, in two processes

c21.NAMES.update(WatchingCombinedChecker='CombinedChecker',
                 WatchingChecker='Checker')


class Sink:
    def write(self, s):
        pass


def without_repr(x):
    """Watching calls repr()."""
    if isinstance(x, list):
        return [without_repr(y) for y in x
                if not (isinstance(y, list) and y[:2] == ['touch',
                                                          '__repr__'])]
    return x


def compare(case, mine, theirs, rec):
    if case[0] in ('op', 'name') and 'spy' in str(case):
        mine, theirs = without_repr(mine), without_repr(theirs)
    if mine == theirs:
        return 'same'
    rec.violation('%r\n  watching:     %s\n  not watching: %s' % (
        case, json.dumps(mine), json.dumps(theirs)),
        fingerprint='%s %s' % (case[0], ' '.join(
            str(x) for x in case[1:4])[:60]))
    return 'different'


def bounds(tier):
    return dict(table=sum(1 for _ in cases()), verbosities=VERBOSITY,
                c21=c21.bounds(tier))


PEERS = {'watch': 'c', 'purewatch': 'pure', 'watch2': 'c',
         'purewatch2': 'pure'}


def jobs(tier):
    out = []
    for mode in ('watch', 'purewatch', 'c', 'pure'):
        out += lib.shards(2, mode=mode, part='table')
    for mode in PEERS if tier == 'thorough' else ('watch', 'purewatch2'):
        for part in ('spy', 'name', 'api', 'values', 'seq'):
            n = 8 if tier == 'thorough' and part in ('seq', 'values') else 2
            out += lib.shards(n, mode=mode, peer=PEERS[mode], part=part)
    return out


def peer_cases(d, job):
    it = c21.cases(d, job)
    if job['tier'] != 'thorough':
        # pairs of steps; one kind of checker
        it = (c for c in it if not (
            c[0] == 'seq' and len(c[2]) > 2 or job['part'] == 'values'
            and c[3] not in ('names', 'combined')))
    return it


def explore(job, rec):
    if job['part'] == 'table':
        w = World()
        for case in lib.shard(cases(), job):
            rec.case(['table'] + list(case))
            r = single(w, *case, rec)
            rec.state(case)
            rec.trace('table: %s' % r, rec.current)
        return
    d, t = c21.Desc(), c21.table()[0]
    d.zc.CheckerLoggingMixin._file = Sink()
    peer = c21.Peer(job, module='mc.props.c23')
    try:
        for case in lib.shard(peer_cases(d, job), job):
            rec.case(c21.norm(case))
            mine = c21.norm(c21.outcome(d, t, case))
            theirs, died = peer.next()
            rec.step(2)
            if died:
                rec.violation(died, fingerprint=died)
                return
            r = compare(case, mine, theirs, rec)
            rec.state(json.dumps(mine))
            rec.trace('%s: %s' % (case[0], r), rec.current)
    finally:
        peer.close()


def replay(case, rec, job):
    if case[0] == 'table':
        single(World(), case[1], tuple(case[2]), *case[3:], rec)
        return
    d, t = c21.Desc(), c21.table()[0]
    d.zc.CheckerLoggingMixin._file = Sink()
    peer = c21.Peer(job, case, module='mc.props.c23')
    try:
        theirs, died = peer.next()
        if died:
            rec.violation(died)
            return
        compare(case, c21.norm(c21.outcome(d, t, case)), theirs, rec)
    finally:
        peer.close()


if __name__ == '__main__':
    from mc.props import c23
    c21.main(c23.peer_cases)
