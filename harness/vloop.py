"""Event loop with virtual time: sleeping costs nothing, runs are
deterministic."""
import asyncio
import heapq


class Deadlock(Exception):
    pass


class VirtualLoop(asyncio.SelectorEventLoop):
    vnow = 1000.0
    limit = None

    def time(self):
        return self.vnow

    def _run_once(self):
        if not self._ready:
            while self._scheduled and self._scheduled[0]._cancelled:
                h = heapq.heappop(self._scheduled)
                h._scheduled = False
            if self._scheduled:
                self.vnow = max(self.vnow, self._scheduled[0]._when)
            elif len(self._selector.get_map()) <= 1 and not self._stopping:
                raise Deadlock("nothing left to run")
        super()._run_once()


def run(coro_fn, *args):
    loop = VirtualLoop()
    loop.set_exception_handler(lambda l, c: None)
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(coro_fn(*args))
    finally:
        try:
            tasks = asyncio.all_tasks(loop)
            for t in tasks:
                t.cancel()
            if tasks:
                loop.run_until_complete(asyncio.wait(tasks, timeout=5))
        except BaseException:
            pass
        asyncio.set_event_loop(None)
        loop.close()
