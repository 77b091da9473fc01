"""Subclasses of the classes of the library, as a program would define them.

They have names of their own in a module of their own; the names are as long as those of the library, so that texts break their lines at the same places.
"""
import re
import sys
import types

from .core import CLASSES, api

NAME = 'shapes_of_a_program'
NAMES = {name: name[:-1] + 'x' for name in CLASSES}
_back = {own: name for name, own in NAMES.items()}
_pattern = re.compile(r'(?<![A-Za-z_])(' + '|'.join(sorted(_back, key=len, reverse=True)) + r')(?![A-Za-z_])')


def make():
    if NAME not in sys.modules:
        module = types.ModuleType(NAME)
        for name, own in NAMES.items():
            setattr(module, own, type(own, (api(name),), {'__module__': NAME, '__doc__': 'A subclass.'}))
        sys.modules[NAME] = module
    return {name: getattr(sys.modules[NAME], own) for name, own in NAMES.items()}


def renamed(text):
    """A text about subclasses as it would be about the classes of the library."""
    return _pattern.sub(lambda m: _back[m[1]], text)
