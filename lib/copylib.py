"""The real library, under the names generated programs use."""
from typing import Literal  # noqa: F401

from sonolus.script.array import Array  # noqa: F401
from sonolus.script.containers import VarArray  # noqa: F401
from sonolus.script.debug import debug_log  # noqa: F401
from sonolus.script.globals import level_memory  # noqa: F401
from sonolus.script.record import Record  # noqa: F401
from sonolus.script.values import copy, freeze, swap, zeros  # noqa: F401
from vin import con, inp  # noqa: F401


def start():
    pass
