"""An asyncio event loop in simulated time: its only blocking call is a simulated wait."""
import asyncio
import threading
from asyncio import base_events


class _Selector:
    def __init__(self):
        self.cv = threading.Condition(threading.Lock())
        self.woken = False

    def select(self, timeout=None):
        if timeout is not None and timeout <= 0:
            return []
        with self.cv:
            if not self.woken:
                self.cv.wait(timeout)
            self.woken = False
        return []

    def wake(self):
        with self.cv:
            self.woken = True
            self.cv.notify_all()

    def close(self):
        pass


class SimLoop(base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._selector = _Selector()

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        self._selector.wake()

    def close(self):
        super().close()


def run(main):
    """Run a coroutine to completion in a new simulated loop of this thread."""
    loop = SimLoop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(main)
    finally:
        try:
            pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pend:
                t.cancel()
            if pend:
                loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
        finally:
            asyncio.set_event_loop(None)
            loop.close()
