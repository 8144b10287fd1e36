"""Stateless model checker for the real pystrata code.

A *section* is a closed driver: a function ``run(ch)`` that builds real pystrata
objects, performs operations on them, and compares what they do with a reference
model.  Every nondeterministic decision of the driver (which input, which operation,
which answer of the random number generator) is taken by ``ch``.  The explorer then
enumerates *every* execution of the driver:

``ch.all(name, options)``     all options are explored, always (full product);
``ch.choose(name, options)``  option 0 is the default; taking another one costs one
                              deviation; all executions with at most ``bound``
                              deviations are explored.

This is the CHESS-style search: execute with a prefix of forced choices, take the
default afterwards, then branch on every choice point after the prefix.  It is
exhaustive within the bound and visits each execution exactly once.  Any choice point
that does not reappear when a prefix is replayed is a hard error.
"""

import hashlib
import multiprocessing
import os
import signal
import time
import traceback

import numpy as np

EXEC_TIMEOUT = 120  # seconds for a single execution: then "does not terminate"


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class Prune(Exception):
    """The combination of choices is outside the domain of the property."""


class Diverged(Exception):
    """A prefix could not be replayed: the driver is not deterministic."""


class ExecTimeout(Exception):
    pass


def canon(x, sig=7):
    """Canonical, hashable rendering of an observation."""
    if x is None or isinstance(x, (str, bool, bytes)):
        return repr(x)
    if isinstance(x, (int, np.integer)):
        return repr(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x == 0:
            return "0"
        return f"{x:.{sig}g}"
    if isinstance(x, (complex, np.complexfloating)):
        return canon(x.real, sig) + "+j" + canon(x.imag, sig)
    if isinstance(x, np.ndarray):
        return f"{x.shape}[" + ",".join(canon(v, sig) for v in x.ravel().tolist()) + "]"
    if isinstance(x, dict):
        return "{" + ",".join(f"{k!r}:{canon(v, sig)}" for k, v in sorted(x.items(), key=lambda i: str(i[0]))) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(v, sig) for v in x) + "]"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(canon(v, sig) for v in x)) + "}"
    return repr(x)


def label(x):
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0].startswith("#"):
        return x[0][1:]
    if isinstance(x, np.ndarray):
        return f"array{x.shape}" if x.size > 8 else repr(x.tolist())
    if callable(x) and hasattr(x, "__name__"):
        return x.__name__
    s = repr(x)
    return s if len(s) <= 100 else s[:97] + "..."


class Chooser:
    def __init__(self, prefix, bound, tier):
        self.prefix = list(prefix)
        self.bound = bound
        self.tier = tier
        self.points = []  # (name, n_options, chosen index, free)
        self.labels = []
        self.ops = 0
        self.states = set()
        self.last_state = None
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def _take(self, name, options, free):
        options = list(options)
        if not options:
            raise RuntimeError(f"choice point {name} has no options")
        pos = len(self.points)
        if pos < len(self.prefix):
            i = self.prefix[pos]
            if i >= len(options):
                raise Diverged(f"choice {pos} ({name}): option {i} of {len(options)}")
        else:
            i = 0
        self.points.append((name, len(options), i, free))
        self.labels.append(f"{name}={label(options[i])}")
        return options[i]

    def choose(self, name, options):
        return self._take(name, options, False)

    def all(self, name, options):
        return self._take(name, options, True)

    def op(self, n=1):
        """Count transitions: operations of the real code that were checked."""
        self.ops += n

    def state(self, *vals):
        h = hashlib.blake2b(canon(vals).encode(), digest_size=8).digest()
        self.states.add(h)
        self.last_state = h

    def prune(self):
        raise Prune()

    # ---- oracles -------------------------------------------------------------
    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg, key)

    def same(self, actual, expected, what, key=None):
        ok = actual == expected
        if isinstance(ok, np.ndarray):
            ok = ok.all()
        if not ok:
            raise Violation(f"{what}: got {actual!r}, expected {expected!r}", key)

    def close(self, actual, expected, what, rtol=1e-8, atol=0.0, scale=None, key=None):
        """Compare numbers/arrays; ``scale`` adds rtol*scale to the tolerance.

        ``scale='max'`` uses the largest finite magnitude of the expected value.
        """
        a = np.asarray(actual)
        e = np.asarray(expected)
        if a.dtype == object:
            try:
                a = a.astype(complex) if e.dtype.kind == "c" else a.astype(float)
            except (TypeError, ValueError):
                raise Violation(f"{what}: got {actual!r}, expected {expected!r}", key)
        if e.dtype == object:
            e = e.astype(float)
        if a.shape != e.shape:
            raise Violation(
                f"{what}: shape {a.shape}, expected {e.shape}; got "
                f"{_short(a)}, expected {_short(e)}", key)
        if a.size == 0:
            return
        tol = atol + rtol * np.abs(e)
        if scale is not None:
            if isinstance(scale, str):
                fin = np.abs(e[np.isfinite(e)])
                s = fin.max() if fin.size else 0.0
            else:
                s = scale
            tol = tol + rtol * s
        with np.errstate(all="ignore"):
            bad = ~(np.abs(a - e) <= tol)
            bad &= ~(np.isnan(a) & np.isnan(e))
            bad &= ~(np.isinf(a) & np.isinf(e) & (a == e))
        if np.any(bad):
            idx = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(bad)))
            av, ev = np.atleast_1d(a)[idx], np.atleast_1d(e)[idx]
            raise Violation(
                f"{what}: at {idx if a.ndim else ''} got {av!r}, expected {ev!r} "
                f"({int(np.sum(bad))} of {a.size} differ)", key)


def _short(a):
    s = np.array2string(np.asarray(a), threshold=8, precision=6)
    return s.replace("\n", " ")[:160]


def _on_alarm(signum, frame):
    raise ExecTimeout()


def execute(fn, prefix, bound, tier):
    """One execution.  Returns (chooser, status, message, key)."""
    ch = Chooser(prefix, bound, tier)
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(EXEC_TIMEOUT)
    try:
        with np.errstate(all="ignore"):
            fn(ch)
        status, msg, key = "ok", None, None
    except Violation as v:
        status, msg, key = "violation", v.msg, v.key
    except Prune:
        status, msg, key = "pruned", None, None
    except Diverged as d:
        status, msg, key = "diverged", str(d), None
    except ExecTimeout:
        status, msg, key = "violation", f"no result within {EXEC_TIMEOUT} s", None
    except MemoryError:
        raise
    except Exception as exc:  # the real code raised where a result is required
        tb = traceback.extract_tb(exc.__traceback__)
        where = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-4:][::-1])
        status = "violation"
        msg = f"unexpected {type(exc).__name__}: {exc} [{where}]"
        key = None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if status != "violation" and len(ch.points) < len(ch.prefix):
        status, msg = "diverged", f"only {len(ch.points)} of {len(ch.prefix)} choices were taken"
    return ch, status, msg, key


def children(ch, n_prefix):
    """The prefixes that branch off this execution after its forced prefix."""
    out = []
    cost = sum(1 for (_, _, i, free) in ch.points[:n_prefix] if i and not free)
    vec = [p[2] for p in ch.points]
    for pos in range(n_prefix, len(ch.points)):
        _, n, _, free = ch.points[pos]
        if not free and cost + 1 > ch.bound:
            continue
        for alt in range(1, n):
            out.append(vec[:pos] + [alt])
    return out


class Stats:
    def __init__(self):
        self.executions = 0
        self.pruned = 0
        self.nodes = 0
        self.ops = 0
        self.states = set()
        self.outcomes = set()
        self.violations = []  # dicts
        self.known = {}
        self.diverged = []
        self.samples = []
        self.by_cost = {}
        self.max_points = 0

    def merge(self, o):
        self.executions += o.executions
        self.pruned += o.pruned
        self.nodes += o.nodes
        self.ops += o.ops
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.violations += o.violations
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        self.diverged += o.diverged
        self.samples += o.samples
        for k, v in o.by_cost.items():
            self.by_cost[k] = self.by_cost.get(k, 0) + v
        self.max_points = max(self.max_points, o.max_points)


MAX_VIOLATIONS = 20


def _record(st, ch, status, msg, key, n_prefix, known, order):
    st.nodes += len(ch.points) - n_prefix + (1 if n_prefix else 0)
    st.max_points = max(st.max_points, len(ch.points))
    if status == "pruned":
        st.pruned += 1
        return
    st.executions += 1
    st.ops += ch.ops
    st.states |= ch.states
    if ch.last_state is not None:
        st.outcomes.add(ch.last_state)
    cost = sum(1 for (_, _, i, free) in ch.points if i and not free)
    st.by_cost[cost] = st.by_cost.get(cost, 0) + 1
    if len(st.samples) < 2 or (len(st.samples) < 4 and st.executions % 97 == 0):
        st.samples.append("; ".join(ch.labels))
    if status == "violation":
        if key is not None and key in known:
            st.known[key] = st.known.get(key, 0) + 1
        else:
            st.violations.append(dict(vector=[p[2] for p in ch.points], cost=cost, msg=msg, key=key,
                                      choices=list(ch.labels), order=list(order[-400:])))
    elif status == "diverged":
        st.diverged.append(dict(prefix=list(ch.prefix), msg=msg))


_CTX = {}


def _subtree(prefix):
    fn, bound, tier, known = _CTX["ctx"]
    st = Stats()
    stack = [prefix]
    order = _CTX.setdefault("order", [])
    while stack:
        p = stack.pop()
        ch, status, msg, key = execute(fn, p, bound, tier)
        _record(st, ch, status, msg, key, len(p), known, order)
        order.append(p)
        if status in ("violation", "diverged") and len(st.violations) >= MAX_VIOLATIONS:
            break
        # branch also below a failing execution: its choices up to the failure are valid
        stack.extend(children(ch, len(p)))
    return st


def explore(fn, bound, tier, known, workers):
    """Explore every execution of ``fn`` with at most ``bound`` deviations."""
    _CTX["ctx"] = (fn, bound, tier, known)
    _CTX["order"] = []
    total = Stats()
    frontier = [[]]
    # Expand breadth first until there is enough work to share.
    t0 = time.time()
    while frontier and (workers == 1 or len(frontier) < 24 * workers):
        p = frontier.pop(0)
        ch, status, msg, key = execute(fn, p, bound, tier)
        _record(total, ch, status, msg, key, len(p), known, _CTX["order"])
        _CTX["order"].append(p)
        frontier.extend(children(ch, len(p)))
        if len(total.violations) >= MAX_VIOLATIONS:
            return total
        if workers > 1 and time.time() - t0 > 3.0 and len(frontier) >= workers:
            break
    if not frontier:
        return total
    if workers == 1:
        for p in frontier:
            total.merge(_subtree(p))
        return total
    ctx = multiprocessing.get_context("fork")
    chunk = max(1, min(64, len(frontier) // (workers * 8)))
    with ctx.Pool(workers) as pool:
        for st in pool.imap_unordered(_subtree, frontier, chunksize=chunk):
            total.merge(st)
            if len(total.violations) >= 10 * MAX_VIOLATIONS:
                pool.terminate()
                break
    return total
