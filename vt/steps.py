"""
Points of a call of the real code, and what happens when something happens at
one of them: an exception, or another thread.

A point is a line of the code under test and the number of a visit to it.
"""
import collections
import os
import sys
import threading

from vt.core import REPO

CODE = os.path.join(REPO, "taupy") + os.sep


def ours(code):
    return code.co_filename.startswith(CODE) and \
        "/tests/" not in code.co_filename


def profile(f):
    """{(file, line): visits} of the lines visited by f(), in order."""
    seen = collections.OrderedDict()

    def local(frame, event, arg):
        if event == "line":
            k = (frame.f_code.co_filename, frame.f_lineno)
            seen[k] = seen.get(k, 0) + 1
        return local

    def glob(frame, event, arg):
        return local if ours(frame.f_code) else None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        f()
    finally:
        sys.settrace(old)
    return seen


def entries(seen):
    """The lines among those seen where a function begins."""
    out = []
    firsts = {}
    for fn, line in seen:
        firsts.setdefault(fn, set()).add(line)
    for fn, lines in firsts.items():
        with open(fn) as f:
            co = compile(f.read(), fn, "exec")
        todo = [co]
        while todo:
            c = todo.pop()
            todo += [x for x in c.co_consts if hasattr(x, "co_code")]
            body = sorted(set(l for _, _, l in c.co_lines() if l)
                          - {c.co_firstlineno})
            for l in body:
                if l in lines:
                    out.append((fn, l))
                    break
    return [k for k in seen if k in set(out)]


def at(point, visit, action):
    """
    A trace function (for sys.settrace) that calls action() at this visit of
    the point.
    """
    fn, line = point
    left = [visit]

    def local(frame, event, arg):
        if event == "line" and frame.f_lineno == line and left[0] > 0:
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                action()
        return local if left[0] > 0 else None

    def glob(frame, event, arg):
        c = frame.f_code
        if left[0] > 0 and c.co_filename == fn and \
                c.co_firstlineno <= line <= last_line(c):
            return local
        return None
    glob.left = left
    return glob


LAST = {}


def last_line(code):
    if code not in LAST:
        LAST[code] = max([l for _, _, l in code.co_lines() if l] or [0])
    return LAST[code]


def interrupted(f, point, visit, error):
    """(result, exception, whether the point was reached)."""
    def action():
        raise error

    tr = at(point, visit, action)
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        r, e = f(), None
    except BaseException as x:
        r, e = None, x
    finally:
        sys.settrace(old)
    return r, e, tr.left[0] == 0


class Task(threading.Thread):
    """Runs f, and stops once at a point until it may go on."""

    def __init__(self, f, point=None, visit=1):
        threading.Thread.__init__(self)
        self.daemon = True
        self.f, self.point, self.visit = f, point, visit
        self.stopped = threading.Event()
        self.go_on = threading.Event()
        self.reached = False
        self.result = self.error = None

    def stop(self):
        self.reached = True
        self.stopped.set()
        self.go_on.wait()

    def run(self):
        if self.point is not None:
            sys.settrace(at(self.point, self.visit, self.stop))
        try:
            self.result = self.f()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.stopped.set()

    def until_stop(self, limit=None):
        """True if it stopped or ended; False if it is blocked."""
        return self.stopped.wait(limit)


BLOCKED = 5.
TOO_LONG = 120.


def schedule(f, g, point_f, visit_f=1, point_g=None, visit_g=1):
    """
    f runs up to its point, g up to its own or the end, then f to the end,
    then g to the end. Returns the two tasks, or None if they never end. A
    task that waits for the other one lets the other one go on.
    """
    a = Task(f, point_f, visit_f)
    a.start()
    if not a.until_stop(TOO_LONG):
        return None
    b = Task(g, point_g, visit_g)
    b.start()
    b.until_stop(BLOCKED)
    a.go_on.set()
    a.join(BLOCKED if b.is_alive() else TOO_LONG)
    b.go_on.set()
    b.join(TOO_LONG)
    a.join(TOO_LONG)
    if a.is_alive() or b.is_alive():
        return None
    return a, b
