"""The real collection types, under the names generated programs use."""
from sonolus.script.array import Array
from sonolus.script.containers import ArrayMap, ArraySet, Box, FrozenNumSet, Pair, VarArray
from sonolus.script.debug import debug_log, error, require
from sonolus.script.maybe import Maybe, Nothing, Some
from sonolus.script.record import Record
from vin import con, inp
