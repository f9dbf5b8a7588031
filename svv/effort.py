"""Counts the work done inside the package: source lines executed, and text handled."""
import os
import sys

from . import core

TOOL = 3


class TooMuch(BaseException):
    pass


class Meter:
    """with Meter(cap) as m: ...; m.lines; raises TooMuch beyond the cap"""

    def __init__(self, cap):
        self.cap, self.lines = cap, 0
        self.home = os.path.join(core.REPO, "sqlvalidator") + os.sep

    def _line(self, code, line):
        if not code.co_filename.startswith(self.home):
            return sys.monitoring.DISABLE
        self.lines += 1
        if self.lines > self.cap:
            self.cap = float("inf")
            raise TooMuch
        return None

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "effort")
        m.register_callback(TOOL, m.events.LINE, self._line)
        m.restart_events()
        m.set_events(TOOL, m.events.LINE)
        return self

    def __exit__(self, *exc):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)
        return False


def measure(call, cap):
    """(lines executed, outcome): the outcome is 'result', an exception's name or 'too much'"""
    with Meter(cap) as meter:
        try:
            call()
            end = "result"
        except TooMuch:
            end = "too much"
        except Exception as e:
            end = type(e).__name__
    return meter.lines, end
