"""Generic minimisation of a JSON plan: drop list elements and keys, simplify numbers, keep the violation class."""
import copy
import time


def paths(x, pre=()):
    """Every (path, container) of lists, longest lists first"""
    out = []
    if isinstance(x, dict):
        for k in sorted(x):
            out += paths(x[k], pre + (k,))
    elif isinstance(x, list):
        out.append(pre)
        for k, v in enumerate(x):
            out += paths(v, pre + (k,))
    return out


def at(x, p):
    for k in p:
        x = x[k]
    return x


PROTECTED = {"l", "r", "u", "expr", "in", "out", "tref", "t", "ast"}


def candidates(plan, mod):
    own = getattr(mod, "shrink", None)
    if own is not None:
        yield from own(copy.deepcopy(plan))
    lists = [p for p in paths(plan) if not any(isinstance(k, str) and k in PROTECTED for k in p)]
    lists.sort(key=lambda p: -len(at(plan, p)))
    for p in lists:
        n = len(at(plan, p))
        size = n
        while size >= 1:
            for i in range(0, n, size):
                c = copy.deepcopy(plan)
                l = at(c, p)
                del l[i:i + size]
                yield c
            size //= 2


def minimise(plan, mod, still_fails, budget_s=60.0, max_tries=400):
    t0 = time.monotonic()
    tries = 0
    best = plan
    progress = True
    while progress:
        progress = False
        for c in candidates(best, mod):
            if time.monotonic() - t0 > budget_s or tries >= max_tries:
                return best, tries
            if c == best:
                continue
            tries += 1
            if still_fails(c):
                best = c
                progress = True
                break
    return best, tries
