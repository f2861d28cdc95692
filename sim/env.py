"""Loads the code under test, behind the simulator's seams"""
import builtins
import io
import os
import sys

from . import core

pygcode = None
SCRIPT_CODE = {}


def setup():
    """import pygcode (never using it), and compile the scripts"""
    global pygcode
    from . import locks
    locks.install()
    src = os.path.join(core.REPO, 'src')
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    import pygcode as p
    if not os.path.abspath(p.__file__).startswith(core.SRC):
        raise RuntimeError("wrong pygcode: %s" % p.__file__)
    pygcode = p
    # everything the scripts and checks import
    import pygcode.machine, pygcode.gcodes, pygcode.transform, pygcode.utils  # noqa
    import pygcode.words, pygcode.block, pygcode.line, pygcode.comment, pygcode.exceptions  # noqa
    import argparse, re, collections, contextlib, copy, inspect, gettext, locale  # noqa
    import encodings.utf_8, encodings.ascii, encodings.latin_1  # noqa
    for name in ('pygcode-norm', 'pygcode-crop'):
        path = core.SCRIPTS + name
        with open(path, 'rb') as f:
            SCRIPT_CODE[name] = compile(f.read(), path, 'exec', dont_inherit=True)
