"""C06: the interaction life cycle follows its contract in every history.

All sequences of management calls up to the bound on the real module, with a
reference state machine (current, remembered, policy, open scopes) compared
after every step by every query there is; and the closure of the state
machine's states, each transition replayed on the real module.
"""
import itertools

from mc import checkers
from mc import lib

ASSUMPTIONS = [
    'policies return objects that are not None; the body of a scope '
    'may do anything, at its end the scope ends what is current then',
]


class Boom(Exception):
    pass


class Participation:
    interaction = None
    principal = None


ACTIONS = ['new', 'new1', 'new2', 'end', 'restore', 'policy A', 'policy B',
           'policy boom', 'policy paranoid', 'policy falsy', 'clear', 'enter',
           'exit', 'raise', 'create', 'bound', 'cleanup']


EXITS = {'leave by ' + e.__name__: e for e in (
    KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, ValueError,
    RuntimeError, StopAsyncIteration, BaseException, MemoryError)}
SCOPES = ['new', 'end', 'restore', 'policy falsy', 'enter', 'exit', 'abandon',
          *EXITS]


class Sut:
    """The real module and the reference model, side by side."""

    def __init__(self):
        from zope.testing import cleanup

        from zope.security import management
        from zope.security import testing
        from zope.security import checker as zc
        from zope.security.interfaces import NoInteraction
        from zope.security.interfaces import Unauthorized
        from zope.security.proxy import Proxy
        from zope.security.simplepolicies import ParanoidSecurityPolicy
        self.m = management
        self.testing = testing
        self.Paranoid = ParanoidSecurityPolicy
        self.NoInteraction = NoInteraction
        self.Unauthorized = Unauthorized
        self.cleanup = cleanup.cleanUp
        checkers.cleanup()
        management.setSecurityPolicy(ParanoidSecurityPolicy)
        self.made = made = []
        self.asked = asked = []

        class Interaction:
            def __init__(self, policy, participations):
                self.policy = policy
                self.participations = list(participations)
                self.n = len(made)

            def checkPermission(self, permission, obj):
                asked.append((self, permission, obj))
                return permission == 'yes'

        def A(*participations):
            made.append(Interaction('A', participations))
            return made[-1]

        def B(*participations):
            made.append(Interaction('B', participations))
            return made[-1]

        class Falsy(Interaction):
            # e.g. a container of the participations added to it later

            def __len__(self):
                return 0

            def __eq__(self, other):
                return True

            def __ne__(self, other):
                return False
            __hash__ = None

        def falsy(*participations):
            made.append(Falsy('falsy', participations))
            return made[-1]
        self.boom = Boom()

        def boom(*participations):
            raise self.boom
        self.policies = {'A': A, 'B': B, 'boom': boom, 'falsy': falsy,
                         'paranoid': ParanoidSecurityPolicy}
        self.target = Participation()
        self.proxy = Proxy(self.target, zc.Checker(
            {'interaction': 'yes', 'principal': 'no'}))
        # the model
        self.cur = self.prev = None
        self.policy = 'paranoid'
        self.scopes = []            # (context manager, started?)

    def start(self, fn, args):
        """Expectations about starting with *args*."""
        n = len(self.made)
        try:
            r = fn()
        except Exception as e:
            if type(e) is lib.Stop:
                raise
            if self.cur is not None:
                if type(e) is not self.m.ExistingInteraction:
                    return 'starting twice raised %r' % (e,)
                if len(self.made) != n:
                    return 'the policy was asked though one is current'
                return None
            if self.policy == 'boom':
                return None if e is self.boom else 'error became %r' % (e,)
            if self.policy == 'paranoid' and any(
                    a.interaction is not None for a in args or ()):
                return None if type(e) is ValueError else 'raised %r' % (e,)
            return 'starting failed with %r' % (e,)
        if self.cur is not None:
            return 'started though one is current'
        new = self.m.queryInteraction()
        if self.policy == 'boom':
            return 'started though the policy failed'
        if self.policy == 'paranoid':
            if type(new) is not self.Paranoid:
                return 'not made by the policy: %r' % (new,)
        elif len(self.made) != n + 1 or new is not self.made[-1] \
                or new.policy != self.policy:
            return 'not made by the policy: %r' % (new,)
        if args is not None and (
                len(new.participations) != len(args) or any(
                    a is not b for a, b in zip(new.participations, args))):
            return 'participations %r' % (new.participations,)
        if args is not None and r is not None:
            return 'newInteraction returned %r' % (r,)
        self.cur = new
        return None

    def do(self, action):
        m = self.m
        if action in ('new', 'new1', 'new2', 'bound'):
            args = [Participation() for i in range(
                {'new': 0, 'new1': 1, 'new2': 2, 'bound': 1}[action])]
            if action == 'bound':
                args[0].interaction = object()
            return self.start(lambda: m.newInteraction(*args), args)
        if action == 'create':
            return self.start(
                lambda: self.testing.create_interaction('id'), None)
        if action == 'end':
            r = m.endInteraction()
            self.model_end()
            return None if r is None else 'returned %r' % (r,)
        if action == 'restore':
            r = m.restoreInteraction()
            self.cur = self.prev
            return None if r is None else 'returned %r' % (r,)
        if action.startswith('policy '):
            name = action[7:]
            old = m.setSecurityPolicy(self.policies[name])
            if old is not self.policies[self.policy]:
                return 'previous policy %r' % (old,)
            self.policy = name
            return None
        if action == 'clear':
            m._clear()
            self.policy = 'paranoid'
            return None
        if action == 'cleanup':
            self.cleanup()
            self.policy = 'paranoid'
            self.model_end()
            return None
        if action == 'enter':
            cm = self.testing.interaction('someone')
            had = self.cur is not None
            box = []
            if had:
                value = cm.__enter__()
                if value is not None:
                    return 'scope gave %r' % (value,)
                self.scopes.append((cm, False))
                return None
            msg = self.start(lambda: box.append(cm.__enter__()), None)
            if not msg and self.cur is not None:
                self.scopes.append((cm, True))
                p = self.cur.participations
                if len(p) != 1 or p[0].principal is not box[0] \
                        or box[0].id != 'someone':
                    return 'scope of %r' % (p,)
            return msg
        if action in ('exit', 'raise', 'abandon') or action in EXITS:
            if not self.scopes:
                return None
            cm, started = self.scopes.pop()
            if action == 'exit':
                r = cm.__exit__(None, None, None)
                if r:
                    return 'exit gave %r' % (r,)
            elif action == 'abandon':
                cm.gen.close()
            else:
                error = EXITS.get(action) or self.boom
                if isinstance(error, type):
                    error = error('left')
                try:
                    # (an error already known may also be raised afresh)
                    if cm.__exit__(type(error), error, None):
                        return 'scope swallowed the exception'
                except BaseException as e:
                    if e is not error:
                        raise
            if started:
                self.model_end()
            return None
        raise AssertionError(action)

    def model_end(self):
        self.prev, self.cur = self.cur, None

    def compare(self):
        """Ask every query."""
        m = self.m
        if m.queryInteraction() is not self.cur:
            return 'queryInteraction gives %r' % (m.queryInteraction(),)
        if m.getSecurityPolicy() is not self.policies[self.policy]:
            return 'getSecurityPolicy gives %r' % (m.getSecurityPolicy(),)
        if self.cur is None:
            for fn in (m.getInteraction,
                       lambda: m.checkPermission('yes', 5)):
                try:
                    r = fn()
                except self.NoInteraction:
                    pass
                else:
                    return 'no interaction, but %r' % (r,)
            try:
                self.proxy.interaction
            except AttributeError:
                pass
            else:
                return 'access without interaction'
            return None
        if m.getInteraction() is not self.cur:
            return 'getInteraction gives %r' % (m.getInteraction(),)
        if type(self.cur) is self.Paranoid:
            want = not self.cur.participations
            got = m.checkPermission('yes', self.target)
            return None if got is want else 'checkPermission gives %r' % got
        del self.asked[:]
        if m.checkPermission('yes', self.target) is not True \
                or m.checkPermission('no', self.target) is not False:
            return 'checkPermission'
        try:
            self.proxy.interaction
            ok = True
        except self.Unauthorized:
            ok = False
        try:
            self.proxy.principal
            ok = False
        except self.Unauthorized:
            pass
        if not ok:
            return 'access through a proxy'
        want = [(self.cur, p, self.target) for p in ('yes', 'no') * 2]
        if len(self.asked) != 4 or any(
                a[0] is not b[0] or a[1] != b[1] or a[2] is not b[2]
                for a, b in zip(self.asked, want)):
            return 'asked %r' % (self.asked,)
        return None

    def key(self):
        """The model's state, up to the identity of interactions."""
        def label(i):
            if i is None:
                return None
            return type(i).__name__, getattr(i, 'policy', None), \
                len(i.participations)
        return (label(self.cur), label(self.prev), self.cur is self.prev,
                self.policy, tuple(s for _, s in self.scopes))

    def close(self):
        for cm, _ in reversed(self.scopes):
            cm.gen.close()
        self.m.setSecurityPolicy(self.Paranoid)
        checkers.cleanup()


def run(history, rec):
    s = Sut()
    try:
        for i, action in enumerate(history):
            msg = s.do(action) or s.compare()
            rec.step()
            if msg:
                rec.violation('%s after %s' % (msg, history[:i + 1]),
                              fingerprint='%s: %s' % (action, msg[:30]))
                return s, None
        return s, s.key()
    finally:
        s.close()


PRINCIPALS = [
    ('how', ['create', 'scope', 'create twice', 'scope in create']),
    ('title', ['-', None, '', 'T']),
    ('description', ['-', '', 'D']),
    ('groups', ['-', None, [], (), ['g'], {'g', 'h'}])]


def principal(case, rec):
    """The principal of the interaction started by the test support."""
    from zope.security.interfaces import IGroupAwarePrincipal
    from zope.security.interfaces import IParticipation
    from zope.security.interfaces import IPrincipal
    s = Sut()
    how, *values = (dict(PRINCIPALS)[k][n]
                    for (k, _), n in zip(PRINCIPALS, case))
    kw = {k: v for (k, _), v in zip(PRINCIPALS[1:], values) if v != '-'}

    def start(i):
        p = s.testing.create_interaction(i, **kw)
        return p, s.m.getInteraction()

    def scope(i):
        with s.testing.interaction(i, **kw) as p:
            return p, s.m.getInteraction()

    def wrong():
        p, i = (scope if how == 'scope' else start)('first')
        (part,) = i.participations
        if part.principal is not p or part.interaction is not i:
            return 'the participation is of %r in %r' % (
                part.principal, part.interaction)
        if not IParticipation.providedBy(part) \
                or not IPrincipal.providedBy(p):
            return 'interfaces'
        if (p.id, p.title, p.description) != (
                'first', kw.get('title') or 'first',
                kw.get('description', '')):
            return 'the principal is %r' % vars(p)
        g = kw.get('groups')
        if IGroupAwarePrincipal.providedBy(p) is not (g is not None) \
                or getattr(p, 'groups', None) is not g:
            return 'groups'
        if how == 'scope':
            return s.m.queryInteraction() is not None and 'left open'
        if how == 'create twice':
            try:
                start('second')
            except s.m.ExistingInteraction:
                pass
            else:
                return 'started twice'
        elif how == 'scope in create' and scope('second') != (None, i):
            return 'a scope of its own'
        return s.m.queryInteraction() is not i and 'not current'
    try:
        rec.step()
        msg = wrong()
        if msg:
            rec.violation('%s with %r: %s' % (how, kw, msg),
                          fingerprint='principal ' + msg[:20])
    finally:
        s.m.endInteraction()
        s.close()
    return 'bad' if msg else 'ok'


def principals():
    return itertools.product(*(range(len(v)) for _, v in PRINCIPALS))


def bounds(tier):
    return ('all sequences of %d of %d actions; sequences of %d with scopes '
            'left in %d ways; closure of the states with '
            'at most 2 open scopes, to depth %d; 288 principals' % (
                5 if tier == 'quick' else 6, len(ACTIONS),
                4 if tier == 'quick' else 5, len(EXITS) + 3,
                7 if tier == 'quick' else 12))


def jobs(tier):
    out = lib.shards(8, mode='c', part='sequences',
                     depth=5 if tier == 'quick' else 6)
    out.append(dict(mode='pure', part='sequences', depth=3))
    out += lib.shards(2, mode='c', part='scopes',
                      depth=4 if tier == 'quick' else 5)
    out.append(dict(mode='pure', part='scopes', depth=3))
    for mode in ('c', 'pure'):
        out.append(dict(mode=mode, part='principals'))
        out.append(dict(mode=mode, part='closure',
                        depth=7 if tier == 'quick' else 12))
    return out


def explore(job, rec):
    if job['part'] == 'principals':
        for case in principals():
            rec.case(case)
            rec.trace(principal(case, rec), case)
        return
    if job['part'] in ('sequences', 'scopes'):
        actions = ACTIONS if job['part'] == 'sequences' else SCOPES
        for h in lib.shard(itertools.product(actions, repeat=job['depth']),
                           job):
            rec.case(h)
            s, key = run(h, rec)
            if key:
                rec.state(key)
            rec.trace(h[-1] + (' bad' if key is None else ''), h)
        return
    seen = {}
    frontier = [()]
    for depth in range(job['depth']):
        nxt = []
        for h in frontier:
            for a in ACTIONS:
                h2 = h + (a,)
                rec.case(h2)
                s, key = run(h2, rec)
                rec.trace('closure depth %d' % (depth + 1), h2)
                if key is None or len(s.scopes) > 2 or key in seen:
                    continue
                seen[key] = h2
                rec.state(key)
                nxt.append(h2)
        frontier = nxt
    rec.extra['closure_frontier_left'] = len(frontier)


def replay(case, rec, job):
    if job['part'] == 'principals':
        principal(case, rec)
        return
    rec.trace(run(case, rec))
