"""Bounded exhaustive exploration of zope.security (see /verif/DESIGN.md)."""
