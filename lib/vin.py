"""Inputs and constants for generated scripts; the same source runs in CPython and compiled."""
from sonolus.script.internal.context import ctx
from sonolus.script.internal.impl import validate_value
from sonolus.script.internal.meta_fn import meta_fn
from sonolus.script.num import Num
from sonolus.script.pointer import _deref

IN_BLOCK = 2000  # level memory: writable in play mode, so reads are real run-time reads
IN_BASE = 3000  # above the level memory a program declares
INPUTS = []
CONS = []


@meta_fn
def inp(i):
    """Run-time input i."""
    if ctx():
        return _deref(IN_BLOCK, IN_BASE + i, Num)._get_()
    return INPUTS[int(i)]


@meta_fn
def con(i):
    """Constant i, known at compile time."""
    if ctx():
        return Num._accept_(CONS[int(validate_value(i)._as_py_())])
    return CONS[int(i)]
