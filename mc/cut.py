"""Controlled scheduling of one process at the granularity of executed source lines of the code under test.

`locations(f)` runs f and returns, for every line of the code under test that was executed, the numbers of its first, middle and last
execution. `at(f, n, act)` runs f and calls act at the n-th executed line, which is a preemption by another thread that runs to its end
(act runs a program) or an interruption (act raises)."""
import sys


def inside(frame):
    return '/PyNite/' in frame.f_code.co_filename


def locations(f):
    """[(location, first, middle, last)] in the order of first execution"""
    seen, n = {}, 0

    def local(frame, event, arg):
        nonlocal n
        if event == 'line':
            n += 1
            seen.setdefault((frame.f_code.co_filename.rsplit('/', 1)[1], frame.f_lineno), []).append(n)
        return local

    def glob(frame, event, arg):
        return local if inside(frame) else None
    sys.settrace(glob)
    try:
        f()
    finally:
        sys.settrace(None)
    return [('%s:%d' % k, v[0], v[len(v)//2], v[-1]) for k, v in seen.items()]


def at(f, n, act):
    """run f with act at its n-th line; (its value, whether the line was reached)"""
    left, hit = n, False

    def local(frame, event, arg):
        nonlocal left, hit
        if hit:
            return None
        if event == 'line':
            left -= 1
            if not left:
                hit = True
                sys.settrace(None)
                act()
                return None
        return local

    def glob(frame, event, arg):
        return local if inside(frame) and not hit else None
    sys.settrace(glob)
    try:
        return f(), hit
    finally:
        sys.settrace(None)
