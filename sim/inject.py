"""Failures at arbitrary lines of the library (main thread only)."""
import os
import sys

REPO = os.environ.get("PMM_REPO", "/repo")
PKG = os.path.join(REPO, "parametricmatrixmodels") + os.sep


def in_callback(frame):
    """Is this code running inside a callback from compiled code?  (Which
    thread runs those is not ours to decide.)"""
    n = 0
    while frame is not None and n < 60:
        f = frame.f_code.co_filename
        if f.endswith(("jax/_src/debugging.py", "jax/_src/callback.py")) and frame.f_code.co_name in (
            "_flat_callback", "_callback", "callback", "debug_callback_impl", "_debug_callback", "pure_callback_impl", "io_callback_impl"):
            return True
        frame = frame.f_back
        n += 1
    return False


class Lines:
    """Counts the lines of the library executed; raises at a given one, or
    when it first comes to a place (file, line)."""

    def __init__(self, at=None, exc=None, skip=(), place=None):
        self.at, self.exc, self.skip = at, exc, skip
        self.place = place
        self.n = 0
        self.where = None

    def _call(self, frame, event, arg):
        co = frame.f_code
        if not co.co_filename.startswith(PKG) or co.co_name in self.skip:
            return None
        if co.co_filename.endswith(("progressbar.py",)) or in_callback(frame):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at or (
                self.place is not None and frame.f_lineno == self.place[1] and frame.f_code.co_filename == PKG + self.place[0]
            ):
                self.place = None
                self.where = f"{os.path.relpath(frame.f_code.co_filename, PKG)}:{frame.f_code.co_name}:{frame.f_lineno}"
                self.at = None
                sys.settrace(None)
                raise self.exc
        return self._line

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False
