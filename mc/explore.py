"""Exhaustive stateless exploration of a tree of choices, by re-execution.

A scenario is a function body(ch) which makes every nondeterministic decision
through ch.choose(n).  The explorer runs it once per leaf of the resulting tree
(within a bound on the accumulated deviation cost), spreading sub-trees over
worker processes.  Nothing is sampled: a run either enumerates the whole
(bounded) tree or reports that it was cut.
"""
import hashlib
import os
import pickle
import select
import signal
import struct
import time as _time

_now = _time.monotonic  # bound before any virtual clock is installed


class Violation(Exception):
    """The property is broken in this execution."""


class Prune(BaseException):
    """This execution is outside the explored space (no verdict needed)."""


class Divergence(BaseException):
    """A recorded prefix could not be replayed."""


def digest(obj) -> int:
    return struct.unpack(
        "<Q", hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()
    )[0]


class Chooser:
    """Decides choices: first from a recorded prefix, then always 0."""

    def __init__(self, prefix=(), keep_log=False):
        self.prefix = prefix
        self.taken = []  # choices made
        self.arity = []  # number of alternatives
        self.costs = []  # cost vector (tuple) or None
        self.log = []
        self.keep_log = keep_log
        self.steps = 0
        self.states = set()
        self.outcomes = set()

    def choose(self, n, costs=None, label=None):
        """A number below n; costs[i] is the deviation cost of taking i."""
        assert n >= 1
        if n == 1:
            return 0
        i = len(self.taken)
        if i < len(self.prefix):
            pick = self.prefix[i]
            if pick >= n:
                raise Divergence(f"choice {i}: {pick} of {n}")
        else:
            pick = 0
        self.taken.append(pick)
        self.arity.append(n)
        self.costs.append(costs)
        if self.keep_log and label is not None:
            self.log.append(f"{label} -> {pick}/{n}")
        return pick

    def pick(self, items, label=None):
        """One of the items (simplest first)."""
        items = list(items)
        val = items[self.choose(len(items))]
        self.steps += 1
        if self.keep_log:
            self.log.append(f"{label or 'pick'}: {val!r}")
        return val

    def flag(self, label=None):
        """False, then True."""
        return self.pick((False, True), label)

    def note(self, text):
        if self.keep_log:
            self.log.append(str(text))

    def step(self, n=1):
        self.steps += n

    def state(self, obj):
        self.states.add(digest(obj))

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, got, want, what):
        if got != want:
            raise Violation(f"{what}: got {got!r}, expected {want!r}")


class Scenario:
    """A named body with a bound."""

    def __init__(self, name, body, bound=None, around=None, cap=None):
        self.name = name
        self.body = body
        self.bound = bound  # None: every choice is free (full enumeration)
        self.around = around
        self.cap = cap


class Result:
    """What one sub-tree exploration found (picklable)."""

    def __init__(self):
        self.execs = 0
        self.steps = 0
        self.points = 0
        self.pruned = 0
        self.diverged = 0
        self.states = set()
        self.outcomes = set()
        self.violations = []  # (scenario, choices, message)
        self.errors = []
        self.frontier = []
        self.maxdepth = 0


EXEC_LIMIT_S = 20.0


class Hang(Violation):
    """An execution does not end."""


def _alarm(*_):
    raise Hang(
        f"execution does not terminate ({EXEC_LIMIT_S:.0f} s for what takes "
        "milliseconds)"
    )


def execute(scn, prefix, keep_log=False):
    """Run one execution. Returns (chooser, status, message)."""
    ch = Chooser(prefix, keep_log)
    status, msg = "ok", ""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S)
    try:
        scn.body(ch)
        if len(ch.taken) < len(prefix):
            status, msg = "diverged", "fewer choices than the prefix"
    except Violation as exc:
        status, msg = "violation", str(exc)
    except Prune as exc:
        status, msg = "pruned", str(exc)
    except Divergence as exc:
        status, msg = "diverged", str(exc)
    except Exception as exc:  # an exception the scenario did not expect
        import traceback

        status = "violation"
        msg = f"unexpected {type(exc).__name__}: {exc}\n" + "".join(
            traceback.format_tb(exc.__traceback__)[-6:]
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ch, status, msg


def children(ch, start, bound):
    """Prefixes of the unexplored siblings beyond position start."""
    out = []
    cost = 0
    cum = []
    for i, pick in enumerate(ch.taken):
        cum.append(cost)
        if ch.costs[i] is not None:
            cost += ch.costs[i][pick]
    for i in range(len(ch.taken) - 1, start - 1, -1):
        vec = ch.costs[i]
        for alt in range(ch.arity[i] - 1, 0, -1):
            if bound is not None and vec is not None:
                if cum[i] + vec[alt] > bound:
                    continue
            out.append(tuple(ch.taken[:i]) + (alt,))
    return out


def explore_some(scn, stack, budget, deadline):
    """Depth-first over the given prefixes until the budget is used."""
    res = Result()
    stack = list(stack)
    while stack:
        if res.execs >= budget or (deadline and _now() > deadline):
            break
        prefix = stack.pop()
        for _ in range(4):
            # sockets of the kernel may be late: not met, tried again
            ch, status, msg = execute(scn, prefix)
            if status != "diverged":
                break
        res.execs += 1
        res.steps += ch.steps
        res.points += len(ch.taken)
        res.states |= ch.states
        res.outcomes |= ch.outcomes
        res.maxdepth = max(res.maxdepth, len(ch.taken))
        if status == "violation":
            res.violations.append((scn.name, list(ch.taken), msg))
            if len(res.violations) >= 3 or "does not terminate" in msg:
                break
        elif status == "pruned":
            res.pruned += 1
        elif status == "diverged":
            res.diverged += 1
            continue
        if msg.startswith("horizon: "):
            continue  # endless: so are most of its siblings
        stack.extend(children(ch, len(prefix), scn.bound))
    res.frontier = stack
    return res


# ---------------------------------------------------------------- processes


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<I", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def need(count):
        buf = b""
        while len(buf) < count:
            part = os.read(fd, count - len(buf))
            if not part:
                raise EOFError
            buf += part
        return buf

    size = struct.unpack("<I", need(4))[0]
    return pickle.loads(need(size))


class Pool:
    """Forked workers exploring sub-trees; no threads in the parent."""

    def __init__(self, scenarios, workers):
        self.scenarios = {s.name: s for s in scenarios}
        assert len(self.scenarios) == len(scenarios), "duplicate names"
        self.workers = []
        for _ in range(workers):
            down_r, down_w = os.pipe()
            up_r, up_w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(down_w)
                os.close(up_r)
                for _, w_fd, r_fd in self.workers:
                    os.close(w_fd)
                    os.close(r_fd)
                self._serve(down_r, up_w)
                os._exit(0)
            os.close(down_r)
            os.close(up_w)
            self.workers.append((pid, down_w, up_r))

    def _serve(self, r_fd, w_fd):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        while True:
            try:
                job = _recv(r_fd)
            except EOFError:
                os._exit(0)
            if job is None:
                os._exit(0)
            name, stack, budget, left = job
            try:
                res = explore_some(
                    self.scenarios[name], stack, budget, _now() + left
                )
            except BaseException as exc:  # pylint: disable=broad-except
                import traceback

                res = Result()
                res.errors.append(
                    f"{name}: worker {type(exc).__name__}: {exc}\n"
                    + traceback.format_exc()
                )
            _send(w_fd, (name, res))

    def close(self, kill=False):
        for pid, w_fd, r_fd in self.workers:
            if kill:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            os.close(w_fd)
            os.close(r_fd)
        for pid, _, __ in self.workers:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        self.workers = []


class Totals:
    """Aggregated over a whole check."""

    def __init__(self):
        self.per = {}
        self.violations = []
        self.errors = []
        self.cut = []


class Per:
    def __init__(self):
        self.execs = self.steps = self.points = self.pruned = 0
        self.diverged = self.maxdepth = 0
        self.states = set()
        self.outcomes = set()
        self.violations = 0
        self.bad_sigs = set()


def explore(scenarios, workers=8, budget_s=600.0, stop_after=3, quantum=None,
            known=None, hang_s=120.0):
    """Explore every scenario completely (or until the time budget is spent).

    Violations for which known(msg) is true do not count for stopping."""
    tot = Totals()
    start = _now()
    pool = Pool(scenarios, workers)
    queue = [(s.name, [()], 1) for s in scenarios]
    queue.reverse()
    for s in scenarios:
        tot.per[s.name] = Per()
    idle = list(range(workers))
    busy = {}
    fds = {pool.workers[i][2]: i for i in range(workers)}
    stopped = False
    try:
        while queue or busy:
            left = budget_s - (_now() - start)
            if left <= 0 or stopped:
                names = {q[0] for q in queue}
                if not stopped:
                    tot.cut.extend(sorted(names))
                queue = []
            while queue and idle:
                name, stack, quant = queue.pop()
                idx = idle.pop()
                _send(
                    pool.workers[idx][1],
                    (name, stack, quant, max(0.05, left)),
                )
                busy[idx] = (name, stack, _now())
            if not busy:
                break
            ready, _, __ = select.select(
                [pool.workers[i][2] for i in busy], [], [], 1.0
            )
            for i, (name, stack, since) in list(busy.items()):
                if _now() - since > max(hang_s, left + hang_s):
                    tot.errors.append(
                        f"{name}: worker unresponsive, prefixes {stack[:2]}"
                    )
                    raise _Abort()
            for fd in ready:
                idx = fds[fd]
                try:
                    name, res = _recv(fd)
                except EOFError:
                    tot.errors.append(f"worker died in {busy[idx][0]}")
                    raise _Abort() from None
                job = busy.pop(idx)
                idle.append(idx)
                per = tot.per[name]
                per.execs += res.execs
                per.steps += res.steps
                per.points += res.points
                per.pruned += res.pruned
                per.diverged += res.diverged
                per.states |= res.states
                per.outcomes |= res.outcomes
                per.maxdepth = max(per.maxdepth, res.maxdepth)
                tot.errors.extend(res.errors)
                for v in res.violations:
                    per.violations += 1
                    if len(tot.violations) < 200:
                        tot.violations.append(v)
                unknown = [
                    v for v in tot.violations if not (known and known(v))
                ]
                if len(unknown) >= stop_after or len(tot.violations) >= 200:
                    stopped = True
                if any("does not terminate" in v[2] for v in unknown):
                    raise _Abort()  # threads may be spinning in the workers
                del job
                front = res.frontier
                if front and not stopped:
                    if left <= 0:
                        tot.cut.append(name)
                        continue
                    # spread: shallow prefixes root the bigger sub-trees
                    front.sort(key=len)
                    want = max(1, min(len(front), 2 * workers - len(queue)))
                    parts = [front[k::want] for k in range(want)]
                    quant = 60 if len(queue) < 2 * workers else 600
                    if quantum:
                        quant = quantum
                    for part in parts:
                        part.reverse()
                        queue.insert(0, (name, part, quant))
    except _Abort:
        pool.close(kill=True)
        tot.cut = sorted(set(tot.cut))
        return tot
    pool.close()
    tot.cut = sorted(set(tot.cut))
    return tot


class _Abort(Exception):
    pass
