"""Recording checkers of every kind the proxies distinguish."""
from mc import ops


class Recording:
    """A duck-typed checker: no operator shortcuts."""

    def __init__(self, env, grants, refusal):
        self.env = env
        self.grants = grants
        self.refusal = refusal

    def _check(self, how, obj, name):
        if name == '__class__':     # always available, often looked at
            return
        self.env.event('check', how, name, self.env.label(obj))
        if not self.grants(name):
            raise self.refusal

    def check(self, obj, name):
        self._check('get', obj, name)

    check_getattr = check

    def check_setattr(self, obj, name):
        self._check('set', obj, name)

    def proxy(self, value):
        if ops.is_rock(value):
            return value
        if value is not ops.Spy:        # its __class__: see _check
            self.env.event('proxy', self.env.label(value))
        return Wrapped(value)


class Wrapped:
    """What a Recording checker makes of a result."""

    def __init__(self, value):
        self.value = value

    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration


class Plain(Recording):
    kind = 'plain'


class Mapping(Recording):
    """A duck-typed checker that has the operator shortcuts as well."""
    kind = 'mapping'

    def __setitem__(self, obj, name):
        self._check('get', obj, name)

    def __getitem__(self, value):
        return Recording.proxy(self, value)


class RecordingInteraction:
    """Grants a permission named like the checked name."""

    def __init__(self, env, grants):
        self.env = env
        self.grants = grants

    def checkPermission(self, permission, obj):
        how, name = permission.split(':', 1)
        self.env.event('check', how, name, self.env.label(obj))
        return self.grants(name)


def permissions(names):
    names = [n for n in names if n != '__class__']
    return ({n: 'get:' + n for n in names}, {n: 'set:' + n for n in names})


def make(kind, env, grants, refusal, names):
    """A recording checker of the given kind.

    'plain', 'mapping': duck-typed.  'names': the real Checker, decided by a
    recording interaction, which this sets up.  'sub': a subclass of the real
    Checker with overridden checks.  'combined': the second part of a
    CombinedChecker decides.
    """
    if kind == 'plain':
        return Plain(env, grants, refusal)
    if kind == 'mapping':
        return Mapping(env, grants, refusal)
    from zope.security import checker as zc
    if kind == 'sub':
        class Sub(zc.Checker):
            def check(self, obj, name):
                if name == '__class__':
                    return
                env.event('check', 'get', name, env.label(obj))
                if not grants(name):
                    raise refusal

            check_getattr = __setitem__ = check

            def check_setattr(self, obj, name):
                env.event('check', 'set', name, env.label(obj))
                if not grants(name):
                    raise refusal
        return Sub({}, {})
    from zope.security._definitions import thread_local
    thread_local.interaction = RecordingInteraction(env, grants)
    real = zc.Checker(*permissions(names))
    if kind == 'names':
        return real
    assert kind == 'combined'
    return zc.CombinedChecker(zc.Checker({}, {}), real)


REAL = ('names', 'sub', 'combined')


def cleanup():
    from zope.security._definitions import thread_local
    for n in ('interaction', 'previous_interaction'):
        try:
            delattr(thread_local, n)
        except AttributeError:
            pass
