"""Points of a run at which CPython itself can switch threads, deliver an interrupt or fail.

Built on sys.monitoring.  In CPython 3.12 the interpreter checks for pending signals and for a
request to give up the GIL only when a Python function starts, after a call to a C function and
at a backward jump; C code that computes on arrays releases the GIL inside binary operations and
subscript stores.  `Monitor` turns exactly those places, in petrofit frames and in functions
called directly from petrofit frames, into numbered points handed to a callback.  Nothing in
petrofit is edited.

kinds:  "start"   a petrofit function, or one called directly from petrofit, is entered
        "cret"    a C function called from petrofit has returned (or raised)
        "jump"    backward jump in petrofit code
        "call"    petrofit is about to call something (used for injected call failures)
        "op"      binary/subscript operation in petrofit code (thread switches only)
"""
import ast
import dis
import os
import sys

from . import env

mon = sys.monitoring
EV = mon.events
TOOL = 4

_OPS = {"BINARY_OP", "COMPARE_OP", "BINARY_SUBSCR", "STORE_SUBSCR", "BINARY_SLICE", "STORE_SLICE"}

# CPython 3.12 frees the argument sequence twice when a CALL callback raises at this instruction
_EX = dis.opmap["CALL_FUNCTION_EX"]

_in_pf = {}


def in_petrofit(filename):
    r = _in_pf.get(filename)
    if r is None:
        real = os.path.realpath(filename)
        r = real.startswith(env.PF_DIR) and (os.sep + "tests" + os.sep) not in real
        _in_pf[filename] = r
    return r


class CleanupLines:
    """Lines of petrofit files inside finally/except bodies: an injected failure there would be a
    failure of the recovery itself, which no Python code can survive in general."""

    _cache = {}

    @classmethod
    def of(cls, filename):
        s = cls._cache.get(filename)
        if s is None:
            s = set()
            try:
                with open(filename) as f:
                    tree = ast.parse(f.read())
                for node in ast.walk(tree):
                    if isinstance(node, ast.Try):
                        bodies = list(node.finalbody)
                        for h in node.handlers:
                            bodies += h.body
                        for st in bodies:
                            s.update(range(st.lineno, (st.end_lineno or st.lineno) + 1))
            except (OSError, SyntaxError):
                pass
            cls._cache[filename] = s
        return s


class Monitor:
    def __init__(self, on_point, kinds, owns=None, extra=()):
        """on_point(kind, code, offset, callee) may raise or block; owns(): is this thread ours?
        extra: further source files whose function starts are points."""
        self.extra = frozenset(extra)
        self.on_point = on_point
        self.kinds = set(kinds)
        self.owns = owns
        self.codes = []
        self._opsets = {}
        self._due = None

    # -- set up / tear down -------------------------------------------------
    def __enter__(self):
        mon.use_tool_id(TOOL, "pfsim")
        mon.register_callback(TOOL, EV.PY_START, self._start)
        mon.register_callback(TOOL, EV.C_RETURN, self._cret)
        mon.register_callback(TOOL, EV.C_RAISE, self._cret)
        mon.register_callback(TOOL, EV.CALL, self._call)
        mon.register_callback(TOOL, EV.JUMP, self._jump)
        mon.register_callback(TOOL, EV.INSTRUCTION, self._instr)
        mon.set_events(TOOL, EV.PY_START)
        # frames of petrofit that are already running do not exist at this point
        return self

    def __exit__(self, *exc):
        mon.set_events(TOOL, 0)
        for c in self.codes:
            mon.set_local_events(TOOL, c, 0)
        for e in (EV.PY_START, EV.C_RETURN, EV.C_RAISE, EV.CALL, EV.JUMP, EV.INSTRUCTION):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
        return False

    def _arm(self, code):
        if code in self._opsets:
            return
        ops = frozenset()
        ev = 0
        if "cret" in self.kinds or "call" in self.kinds:
            ev |= EV.CALL
        if "jump" in self.kinds:
            ev |= EV.JUMP
        if "op" in self.kinds:
            ops = frozenset(i.offset for i in dis.get_instructions(code) if i.opname in _OPS)
            if ops:
                ev |= EV.INSTRUCTION
        self._opsets[code] = ops
        self.codes.append(code)
        if ev:
            mon.set_local_events(TOOL, code, ev)

    def _mine(self):
        return self.owns is None or self.owns()

    # -- events -------------------------------------------------------------
    def _start(self, code, offset):
        if self._due is not None:
            due, self._due = self._due, None
            if due[0] is code:
                if in_petrofit(code.co_filename):
                    self._arm(code)
                self.on_point("call", *due[1:])
        if in_petrofit(code.co_filename):
            self._arm(code)
            if "start" in self.kinds and self._mine():
                self.on_point("start", code, offset, None)
            return
        if "start" not in self.kinds:
            return
        if code.co_filename in self.extra and self._mine():
            self.on_point("start", code, offset, None)
            return
        f = sys._getframe(1).f_back
        if f is not None and in_petrofit(f.f_code.co_filename) and self._mine():
            if code.co_name in ("__exit__", "__enter__"):
                return
            self.on_point("start", f.f_code, f.f_lasti, code.co_name)

    def _cret(self, code, offset, callee, arg0):
        if "cret" in self.kinds and self._mine():
            n = getattr(callee, "__name__", "")
            if n in ("__exit__", "__enter__", "acquire", "release"):
                return
            self.on_point("cret", code, offset, callee)

    def _call(self, code, offset, callee, arg0):
        if "call" in self.kinds and self._mine():
            n = getattr(callee, "__name__", "")
            if n in ("__exit__", "__enter__", "acquire", "release"):
                return
            if code.co_code[offset] == _EX:
                # delivered when the callee starts, if it is a Python function
                self._due = (getattr(getattr(callee, "__func__", callee), "__code__", None), code, offset, callee)
                return
            self.on_point("call", code, offset, callee)

    def _jump(self, code, offset, dest):
        if "jump" in self.kinds and dest < offset and self._mine():
            self.on_point("jump", code, offset, None)

    def _instr(self, code, offset):
        if offset not in self._opsets.get(code, ()):
            return mon.DISABLE
        if self._mine():
            self.on_point("op", code, offset, None)


def off():
    """In a fork: stop observing what the parent was observing."""
    if mon.get_tool(TOOL) is not None:
        mon.set_events(TOOL, 0)
        for e in (EV.PY_START, EV.C_RETURN, EV.C_RAISE, EV.CALL, EV.JUMP, EV.INSTRUCTION):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)


def where(code, offset):
    """file:function:line of a point, for logs."""
    line = code.co_firstlineno
    for start, end, ln in code.co_lines():
        if start <= offset < end and ln is not None:
            line = ln
    return "%s:%s:%d" % (os.path.basename(code.co_filename), code.co_name, line)


def line_of(code, offset):
    for start, end, ln in code.co_lines():
        if start <= offset < end and ln is not None:
            return ln
    return code.co_firstlineno
