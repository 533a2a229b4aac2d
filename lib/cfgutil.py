"""Queries shared by the call-site analyses."""
import re
import jx


def is_log_error(P, i, mod, LOG_ERROR):
    if i.op != 'call' or not isinstance(i.x, str): return False
    d = P.dem(i.x, mod)
    return 'AxionsLog::Logger::operator()' in d and len(i.ops) > 1 and i.ops[1] == ['ci', 32, LOG_ERROR]


def prints_error(P, i, mod):
    """printf-style report whose text announces an error"""
    if i.op != 'call' or i.x not in ('printf', 'puts', 'fprintf', 'perror', 'putchar'): return False
    for o in i.ops:
        s = jx.gstr(mod, o)
        if s is not None:
            return bool(re.match(r'\W*(\[\w+\]\s*)?(fatal\s+)?error\b', s, re.I))
    return False


def const(o):
    return o[2] if isinstance(o, list) and o and o[0] == 'ci' else None


def fkey(f):
    """name of a function for finding keys: independent of line numbers, argument lists and template arguments"""
    return re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', f.short)).replace(' ', '')
