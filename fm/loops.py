"""Counts loop iterations and calls inside fides between objective evaluations."""
import gc
import sys
import types

import fides

MON = sys.monitoring
TOOL = 4
import os

FIDES_DIR = os.path.dirname(os.path.abspath(fides.__file__)) + os.sep


class Runaway(BaseException):
    """raised into the code under test once the limit is exceeded"""


def codes():
    todo, seen = [], set()
    for name, mod in list(sys.modules.items()):
        if name == 'fides' or name.startswith('fides.'):
            todo.append(mod)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(FIDES_DIR):
            stack = [o.__code__]
            while stack:
                c = stack.pop()
                if c in seen:
                    continue
                seen.add(c)
                stack += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return seen


class Counter:
    def __init__(self, limit):
        self.limit = limit
        self.n = 0
        self.max = 0
        self.total = 0

    def reset(self):
        self.total += self.n
        if self.n > self.max:
            self.max = self.n
        self.n = 0

    def event(self, *a):
        self.n += 1
        if self.n > self.limit:
            self.n = 0
            self.max = self.limit
            raise Runaway(f'more than {self.limit} branches taken between two evaluations, in {a[0].co_qualname}')

    def __enter__(self):
        MON.use_tool_id(TOOL, 'fm')
        E = MON.events
        self.ev = (E.JUMP, E.BRANCH, E.PY_START)
        for e in self.ev:
            MON.register_callback(TOOL, e, self.event)
        self.codes = codes()
        for c in self.codes:
            MON.set_local_events(TOOL, c, E.JUMP | E.BRANCH | E.PY_START)
        return self

    def __exit__(self, *a):
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)
        for e in self.ev:
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)
        self.reset()
