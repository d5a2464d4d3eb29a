"""One interface to drive every kind of receiver (z3-free).

A source knows what its receiver has to deliver: `expected` is a list of groups; the next
message must be one of the first non-empty group (groups of more than one message: sets of
file changes, merged receivers).
"""
import asyncio
import functools
import pathlib

from ._fake import SourceError, fake_class, source_error


class Source:
    """Base: one receiver, the messages pushed into it, and whether it was stopped."""

    can_err = False      # the receiver can fail with an error that is not a stop

    def __init__(self, env, name):
        self.env, self.name = env, name
        self.stopped = False
        self.npush = 0
        self.groups = []      # [[(kind, value), ...], ...]: still to be delivered
        self.optional = []    # ditto, but may also not be delivered (ticks of stopped timers)
        self.recv = None

    # -- scenario side
    def push(self):
        v = self.env.msg(f"{self.name}.m{self.npush}")
        self.npush += 1
        self.groups.append([("msg", v)])
        self._push(v)

    def error(self):
        v = source_error(self.env, f"{self.name}.e{self.npush}")
        self.npush += 1
        self.groups.append([("err", v)])
        self._error(v)

    def stop(self):
        self.stopped = True
        self._stop()

    # -- oracle
    def pending(self):
        return any(self.groups)

    def noptional(self):
        return len(self.optional)

    def matches(self, item, v):
        return item[1] is v

    def front(self):
        """The candidates for the next message."""
        while self.groups and not self.groups[0]:
            self.groups.pop(0)
        return self.groups[0] if self.groups else []

    def take(self, kind, v):
        """Account for a delivered message or error."""
        env = self.env
        env.check(bool(self.front()), "more messages than were sent")
        for i, item in enumerate(self.front()):
            if self.matches(item, v):
                env.check(item[0] == kind, "a message instead of an error, or vice versa")
                del self.groups[0][i]
                return
        env.check(False, "wrong message, or wrong order")

    def check_stop_cause(self, exc):
        """The causes of a stop lead to the original error."""

    def chain(self, exc):
        out = []
        while exc is not None and len(out) < 20:
            out.append(exc)
            exc = exc.__cause__
        return out


class ChannelSource(Source):
    def __init__(self, env, name, kind):
        super().__init__(env, name)
        ch = env.ch
        self.chan = (ch.Anycast(name=name, limit=100) if kind == "anycast"
                     else ch.Broadcast(name=name, resend_latest=kind == "resend"))
        self.recv = self.orig = self.chan.new_receiver()
        self.sender = self.chan.new_sender()

    def _push(self, v):
        self.env.spawn(self.sender.send(v))

    def _stop(self):
        self.env.spawn(self.chan.close())

    def check_stop_cause(self, exc):
        ch = self.env.ch
        c = [e for e in self.chain(exc) if isinstance(e, ch.ChannelClosedError)]
        self.env.check(len(c) > 0 and c[-1].channel is self.chan,
                       "the stop does not lead to the closing of the channel")
        c = [e for e in self.chain(exc) if isinstance(e, ch.ReceiverStoppedError)]
        self.env.check(c[-1].receiver is self.orig,
                       "the stop does not lead to the receiver that stopped")


class FakeSource(Source):
    can_err = True

    def __init__(self, env, name):
        super().__init__(env, name)
        self.recv = self.orig = fake_class(env)(name)

    def _push(self, v):
        self.recv_push("msg", v)

    def recv_push(self, kind, v):
        self.orig.push(kind, v)

    def _error(self, v):
        self.orig.push("err", v)

    def _stop(self):
        self.orig.stop()

    def check_stop_cause(self, exc):
        c = [e for e in self.chain(exc)
             if isinstance(e, self.env.ch.ReceiverStoppedError)]
        self.env.check(len(c) > 0 and c[-1].receiver is self.orig,
                       "the stop does not lead to the receiver that stopped")


class EventSource(Source):
    def __init__(self, env, name):
        super().__init__(env, name)
        self.recv = self.orig = env.ns.event.Event(name=name)

    eager = False     # somebody may consume at any time: setting it again may count again

    def push(self):
        self.npush += 1
        if not self.pending():
            self.groups.append([("msg", None)])
        elif self.eager:
            self.optional.append(("msg", None))
        self.recv.set()

    def take(self, kind, v):
        if not self.pending() and self.optional:
            self.env.check(kind == "msg" and v is None, "wrong message")
            self.optional.pop()
            return
        super().take(kind, v)

    def front(self):
        return super().front() or self.optional

    def _stop(self):
        self.recv.stop()


class Awatch:
    """Model of watchfiles.awatch: batches of raw changes given by the scenario.

    Filters, timeouts, the stop event, recursion and cancellation behave as documented
    (and implemented) by watchfiles; only the file system is replaced.
    """

    def __init__(self, env):
        self.env = env
        self.calls = []       # (paths, stop_event, options)
        self.raw = []         # ("changes", [(change, path)]) | ("timeout",) | ("end",) | ("fail", e)
        self.ended = False
        self.cancelled = False     # the generator was cancelled while it waited
        self._fut = None
        env.awatch_impl = self.awatch

    def add(self, *what):
        self.raw.append(what)
        self.wake()

    def wake(self):
        if self._fut is not None and not self._fut.done():
            self._fut.set_result(None)

    def awatch(self, *paths, stop_event=None, watch_filter=None, yield_on_timeout=False,
               recursive=True, **other):
        self.calls.append((paths, stop_event, dict(other, recursive=recursive)))
        return self._gen(stop_event, watch_filter, yield_on_timeout, recursive)

    async def _gen(self, stop_event, watch_filter, yield_on_timeout, recursive):
        while True:
            while not self.raw:
                if stop_event is not None and stop_event.is_set():
                    self.ended = True
                    return
                self._fut = asyncio.get_running_loop().create_future()
                try:
                    await self._fut
                except asyncio.CancelledError:
                    if stop_event is not None:
                        stop_event.set()
                    self.ended = self.cancelled = True
                    raise
            what = self.raw.pop(0)
            if what[0] == "changes":
                keep = []
                for change, path in what[1]:
                    if not recursive and "/sub/" in path:
                        continue
                    if watch_filter is None or watch_filter(change, path):
                        keep.append((change, path))
                if keep:
                    yield self.env.pset(keep, "batch")
            elif what[0] == "timeout":
                if yield_on_timeout:
                    yield set()
            elif what[0] == "fail":
                self.ended = True
                raise what[1]
            else:
                self.ended = True
                return


PATHS = ["/w/a", "/w/sub/b", "/w/c"]
ODD = [["/w/.hidden", "/w/sub/b~", "/w/c.swp"],
       ["/w/__pycache__/m.cpython-312.pyc", "/w/sub/.git/index.lock", "/elsewhere/x y.tmp"],
       ["/w", "relative/\u00fc.bak", "/w/C"],
       ["/w/a/", "/w/sub/../a", "/w//c.part"]]


class FileSource(Source):
    """A file watcher; `push` is a batch of one or two changes."""

    def __init__(self, env, name):
        self.setup(env, name, ["/w"], None, None)

    def setup(self, env, name, paths, types, types_arg, sizes=(1, 2)):
        """`types`: the selected types (None: the default); `types_arg`: as given."""
        Source.__init__(self, env, name)
        fw = env.ns.file_watcher
        self.aw = Awatch(env)
        self.changes = [fw.EventType.CREATE, fw.EventType.MODIFY, fw.EventType.DELETE]
        self.types = self.changes if types is None else types
        self.sizes, self.free_types, self.same_path = sizes, False, False
        self.paths, self.names = paths, PATHS
        if types is None:
            self.recv = self.orig = fw.FileWatcher(self.paths)
        else:
            self.recv = self.orig = fw.FileWatcher(self.paths, event_types=types_arg)
        self.fail_with = None

    def push(self):
        env = self.env
        # (long histories: the sizes in turn)
        n = self.sizes[self.npush % len(self.sizes) if env.p.get("in_turn")
                       else env.choice(f"{self.name}.size{self.npush}", len(self.sizes))]
        batch = []
        one_path = n > 1 and self.same_path and env.flag(f"{self.name}.path{self.npush}")
        for i in range(n):
            t = self.changes[(self.npush + i) % 3]
            if self.free_types:
                t = self.changes[env.choice(f"{self.name}.type{self.npush}.{i}", 3)]
            b = (t, self.names[0 if one_path else i])
            if b not in batch:
                batch.append(b)
        self.npush += 1
        self.push_batch(batch)

    def push_batch(self, batch):
        self.groups.append([("msg", b) for b in batch
                            if any(b[0] is t for t in self.types)])
        self.aw.add("changes", [(t.value, p) for t, p in batch])

    def matches(self, item, v):
        if type(item[1]) is not tuple or not isinstance(v, self.env.ns.file_watcher.Event):
            return False
        t, p = item[1]
        return v.type is t and v.path == pathlib.Path(p)

    def _stop(self):
        if self.fail_with is not None:
            self.aw.add("fail", self.fail_with)
        else:
            self.aw.add("end")

    def check_stop_cause(self, exc):
        c = self.chain(exc)
        stop = [e for e in c if isinstance(e, self.env.ch.ReceiverStoppedError)]
        self.env.check(stop[-1].receiver is self.orig,
                       "the stop does not lead to the receiver that stopped")
        want = StopAsyncIteration if self.fail_with is None else type(self.fail_with)
        self.env.check(isinstance(stop[-1].__cause__, want),
                       "the end of the watcher is not the cause of the stop")


class TimerSource(Source):
    """A trigger-all-missed timer; `push` lets time pass until one more tick is due.

    A scenario may have one of them: time passes for all.
    """

    INTERVAL = 10**6

    def __init__(self, env, name):
        super().__init__(env, name)
        t = env.ns.timer
        self.clock = env.clock or env.make_clock("us", 2**40)
        self.recv = self.orig = t.Timer(env.td(self.INTERVAL), t.TriggerAllMissed())
        self.start = self.clock.n
        self.marks = []       # the times of the pushes

    def _push(self, _v):
        raise NotImplementedError

    def push(self):
        env = self.env
        self.npush += 1
        sched = self.start + self.npush * self.INTERVAL
        self.clock.busy(f"{self.name}.busy{self.npush}", 2 * self.INTERVAL)
        env.assume(env.all([self.clock.n >= sched, self.clock.n < sched + self.INTERVAL]))
        self.marks.append(self.clock.n)
        self.groups.append([("msg", self.npush)])

    def _stop(self):
        self.recv.stop()
        self.optional, self.groups = self.groups, []

    def matches(self, item, v):
        return self.env.is_td(v)

    def take(self, kind, v):
        env = self.env
        env.check(kind == "msg" and env.is_td(v), "not a tick")
        src = self.optional if self.stopped else self.groups
        env.check(bool(src), "more ticks than were due")
        k = src.pop(0)[0][1]
        r = self.start + k * self.INTERVAL + env.us(v)
        env.check(env.any([r == m for m in self.marks[k - 1:]]), "the lateness is wrong")

    def front(self):
        return (self.optional or [[]])[0] if self.stopped else super().front()

    def check_stop_cause(self, exc):
        c = [e for e in self.chain(exc)
             if isinstance(e, self.env.ch.ReceiverStoppedError)]
        self.env.check(len(c) > 0 and c[-1].receiver is self.orig,
                       "the stop does not lead to the timer")


class MapSource(Source):
    """map() of another source, with a function that returns another object."""

    def __init__(self, env, name, inner):
        super().__init__(env, name)
        self.inner = inner
        self.can_err = inner.can_err
        self.made = []
        f = self._f
        if env.p.get("callables"):
            f = functools.partial(self._f)      # (has no name)
        self.recv = inner.recv.map(f)

    def _f(self, v):
        if self.env.p.get("ferr") and self.env.flag(f"{self.name}.ferr"):
            e = source_error(self.env, f"{self.name}.f")
            self.made.append((e, v))
            raise e
        w = ("mapped", v)
        self.made.append(w)
        return w

    def push(self):
        self.npush += 1
        self.inner.push()

    def error(self):
        self.inner.error()

    def stop(self):
        self.stopped = True
        self.inner.stop()

    def pending(self):
        return self.inner.pending()

    def noptional(self):
        return self.inner.noptional()

    def front(self):
        return self.inner.front()

    def matches(self, item, v):
        for w in self.made:
            if v is w or v is w[0]:
                return self.inner.matches(item, w[1])
        return isinstance(v, SourceError) and self.inner.matches(item, v)

    def take(self, kind, v):
        if kind == "msg":
            self.env.check(any(v is w for w in self.made), "not a result of the function")
            v = v[1]
        else:
            for w in self.made:
                if w[0] is v:
                    kind, v = "msg", w[1]
                    break
        self.inner.take(kind, v)

    def check_stop_cause(self, exc):
        self.inner.check_stop_cause(exc)


class MergeSource(Source):
    """merge() of sources; which one gets a message is an input."""

    def __init__(self, env, name, inner):
        super().__init__(env, name)
        self.inner = inner
        for i in inner:
            while isinstance(i, MapSource):
                i = i.inner
            i.eager = True
        self.can_err = any(i.can_err for i in inner)
        self.recv = env.ch.merge(*[i.recv for i in inner])

    def push(self):
        """A message for one source that is not stopped, or (`partial`) one source stops."""
        live = [s for s in self.inner if not s.stopped]
        opts = [(s.push,) for s in live]
        if self.env.p.get("partial") and len(live) > 1:
            opts += [(s.stop,) for s in live]
        o = opts[self.npush % len(opts) if self.env.p.get("in_turn")
                 else self.env.choice(f"{self.name}.src{self.npush}", len(opts))]
        self.npush += 1
        o[0]()

    def error(self):
        s = [i for i in self.inner if i.can_err and not i.stopped]
        if not s:
            return
        s = s[0]
        self.npush += 1
        s.error()

    def stop(self):
        self.stopped = True
        for i in self.inner:
            if not i.stopped:
                i.stop()

    def pending(self):
        return any(i.pending() for i in self.inner)

    def noptional(self):
        return sum(i.noptional() for i in self.inner)

    def front(self):
        return [item for i in self.inner for item in i.front()]

    def take(self, kind, v):
        env = self.env
        for s in self.inner:
            if any(s.matches(item, v) for item in s.front()):
                s.take(kind, v)
                return
        env.check(False, "wrong message, or wrong order")

    def check_stop_cause(self, exc):
        stop = [e for e in self.chain(exc)
                if isinstance(e, self.env.ch.ReceiverStoppedError)]
        self.env.check(len(stop) > 0, "no stop error")


def make(env, kind, name="s"):
    if kind in ("anycast", "broadcast", "resend"):
        return ChannelSource(env, name, kind)
    if kind == "fake":
        return FakeSource(env, name)
    if kind == "event":
        return EventSource(env, name)
    if kind == "file":
        return FileSource(env, name)
    if kind == "timer":
        return TimerSource(env, name)
    if kind.startswith("map:"):
        return MapSource(env, name, make(env, kind[4:], name))
    if kind.startswith("merge:"):
        kinds = kind[6:].split("+")
        return MergeSource(env, name, [make(env, k, f"{name}{i}")
                                       for i, k in enumerate(kinds)])
    raise ValueError(kind)
