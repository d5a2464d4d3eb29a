"""A scripted receiver: the most general source allowed by the Receiver protocol."""
import asyncio


class SourceError(Exception):
    """An error of a source (not a stop)."""

    def __init__(self, tag):
        super().__init__(tag)
        self.tag = tag


def source_error(env, tag):
    """An error that a receiver or a function raises; its type is an input."""
    n = env.p.get("errtypes", 2)
    cls = getattr(env, "errtype", None)
    if cls is None:
        ch = env.ch

        class ReceiverSourceError(SourceError, ch.ReceiverError):
            def __init__(self, tag):
                ch.ReceiverError.__init__(self, tag, None)
                self.tag = tag

        class AnySourceError(SourceError, KeyError, IndexError, ValueError, TypeError,
                             RuntimeError, ArithmeticError, AssertionError, EOFError,
                             ReferenceError, BufferError):
            """Every handler of a usual error handles it."""

        class TimeoutSourceError(SourceError, TimeoutError):
            pass

        class FalsySourceError(SourceError):
            def __len__(self):
                return 0

            __eq__ = None            # not to be compared, and so not hashable either

        cls = [SourceError, ReceiverSourceError, AnySourceError, TimeoutSourceError,
               FalsySourceError][
            env.choice("errtype", n) if n > 1 else 0]
        env.errtype = cls
    return cls(tag)


def fake_class(env):
    """The scripted receiver class (it derives from the package's Receiver)."""
    ch = env.ch

    class Fake(ch.Receiver):
        """Items are pushed by the scenario; they become available in order."""

        def __init__(self, name):
            self.name = name
            self.items = []       # ("msg", m) | ("err", e) | ("rerr", e)
            self.stopped = False
            self.taken = []       # items handed out, in order
            self.misuse = None
            self.ready_calls = 0
            self._futs = []

        # -- scenario side
        def push(self, kind, value):
            self.items.append((kind, value))
            self._wake()

        def stop(self):
            self.stopped = True
            self._wake()

        def _wake(self):
            futs, self._futs = self._futs, []
            for f in futs:
                if not f.done():
                    f.set_result(None)

        # -- receiver protocol
        async def ready(self):
            self.ready_calls += 1
            while not self.items and not self.stopped:
                fut = asyncio.get_running_loop().create_future()
                self._futs.append(fut)
                await fut
            if self.items and self.items[0][0] == "rerr":
                item = self.items.pop(0)
                self.taken.append(item)
                raise item[1]
            return bool(self.items)

        def consume(self):
            if not self.items:
                if not self.stopped:
                    self.misuse = "consume() without a message"
                    assert False, "consume() must be preceded by a call to ready()"
                raise ch.ReceiverStoppedError(self)
            item = self.items.pop(0)
            self.taken.append(item)
            if item[0] != "msg":
                raise item[1]
            return item[1]

        def __str__(self):
            return self.name

        __repr__ = __str__

    return Fake
