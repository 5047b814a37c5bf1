"""Executing generated configurations with the directives under test.

The directives come from the real meta.zcml of the tree under test, loaded
once per worker; each configuration runs on a fresh machine that shares them.
Included files are served from memory.  What the configurations name lies in a
module made here, with fresh classes and modules for every configuration.
"""
import io
import sys
import types

HEAD = ('<configure xmlns="http://namespaces.zope.org/zope" '
        'xmlns:meta="http://namespaces.zope.org/meta" i18n_domain="mc">')


class Zcml:
    def __init__(self):
        import zope.component
        import zope.security
        from zope.configuration import config
        from zope.configuration import xmlconfig
        self.config, self.xmlconfig = config, xmlconfig
        m = config.ConfigurationMachine()
        xmlconfig.registerCommonDirectives(m)
        xmlconfig.include(m, 'meta.zcml', zope.component)
        xmlconfig.include(m, 'meta.zcml', zope.security)
        m.execute_actions()
        self.base = m
        self.files = {}
        config._bootstrap = lambda context: None
        plain = xmlconfig.openInOrPlain

        def open_(path):
            if path in self.files:
                f = io.StringIO(self.files[path])
                f.name = path
                return f
            return plain(path)
        xmlconfig.openInOrPlain = open_
        self.fix = types.ModuleType('mcfix')
        sys.modules['mcfix'] = self.fix

    def machine(self):
        m = self.config.ConfigurationMachine()
        m._registry = self.base._registry
        m._docRegistry = self.base._docRegistry
        m.info = ''
        return m

    def run(self, text, files=None):
        """Execute; ('ok', None), ('conflict', e), ('undefined', e) when an
        action failed for an undefined permission, or ('refused', e) when
        the configuration could not be read."""
        self.files = files or {}
        m = self.machine()
        try:
            self.xmlconfig.string(text, m, 'main.zcml', execute=False)
        except self.config.ConfigurationError as e:
            return 'refused', e
        try:
            m.execute_actions()
        except self.config.ConfigurationConflictError as e:
            return 'conflict', e
        except self.config.ConfigurationExecutionError as e:
            cause = getattr(e, 'evalue', None)
            if isinstance(cause, ValueError) and 'Undefined permission' in \
                    str(cause):
                return 'undefined', e
            raise
        return 'ok', None

    def clean(self):
        from zope.testing.cleanup import cleanUp
        cleanUp()


def attrs(d):
    from xml.sax.saxutils import quoteattr
    return ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in d.items())
