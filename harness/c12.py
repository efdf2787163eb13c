"""Random schedules of producers, consumers, delays, cancellations and closing
on the real WorkQueue under virtual time."""
import asyncio
import random

from dask_gateway_server.workqueue import Backoff, WorkQueue, WorkQueueClosed

from . import vloop

PARALLEL = 4
EPS = 1e-6


def cases(tier, seed):
    rng = random.Random(seed)
    n = {"quick": 6000, "deep": 20000, "thorough": 120000}[tier]
    for k in range(n):
        items = rng.choice([1, 2, 3])
        ops = []
        p_close = rng.choice([0, 0, 0.04])
        for _ in range(rng.randrange(3, 40)):
            if rng.random() < p_close:
                ops.append(["close"])
                continue
            ops.append(
                rng.choice(
                    [
                        lambda: ["put", rng.randrange(items)],
                        lambda: ["put", rng.randrange(items)],
                        lambda: ["after", rng.randrange(items), rng.choice([0, 1, 2, 3, 5])],
                        lambda: ["backoff", rng.randrange(items)],
                        lambda: ["get"],
                        lambda: ["get"],
                        lambda: ["get"],
                        lambda: ["done", rng.randrange(4)],
                        lambda: ["done", rng.randrange(4)],
                        lambda: ["cancel", rng.randrange(6)],
                        lambda: ["tick", rng.choice([1, 1, 1, 2, 3])],
                        lambda: ["sleep", rng.choice([0.511307, 1.073119, 1.517741, 2.039113])],  # never a tie with a delay
                        lambda: ["reset", rng.randrange(items)],
                        lambda: ["fail", rng.randrange(4)],
                    ]
                )()
            )
        yield {"kind": "sched", "ops": ops, "base": rng.choice([0.25, 1]), "max": rng.choice([1, 4])}


def run(case):
    if case.get("kind") != "sched":
        return []
    try:
        return vloop.run(sched, case)
    except vloop.Deadlock:
        return [("WorkQueue.get::waits-only-while-open-and-empty", "every task is stuck")]


class Item:
    """Equal items are merged even if they are not the same object."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Item) and self.n == other.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"item{self.n}"


async def sched(case):
    out = []
    loop = asyncio.get_running_loop()
    base, mx = case["base"], case["max"]
    q = WorkQueue(backoff=Backoff(base_delay=base, max_delay=mx))
    held = []  # items handed out and not done
    need = {}  # item -> put and not handed out since
    due = {}  # item -> earliest requested time of a delayed put
    nfail = {}
    getters = []
    closed = [False]
    told = []

    def bad(clause, msg):
        out.append((clause, msg))

    def settle():
        for n, t in list(due.items()):
            if t <= loop.time() + EPS:
                need[n] = True
                del due[n]

    async def getter():
        try:
            item = await q.get()
        except WorkQueueClosed:
            told.append(1)
            if not closed[0]:
                bad("WorkQueue.get::closed-only-when-closed", "told the queue is closed while it is open")
            return
        except Exception as e:
            bad("WorkQueue::no-exception", f"get() raised {e!r}")
            return
        settle()
        n = item.n
        if n in held:
            bad("WorkQueue.get::no-two-holders", f"{item} handed out while held")
        if not need.get(n):
            bad("WorkQueue.put::duplicates-merged", f"{item} handed out without having been put since it was last handed out")
        need[n] = False
        held.append(n)

    def live():
        return [g for g in getters if not g.done()]

    async def quiesce():
        for _ in range(30):
            await asyncio.sleep(0)
        settle()

    def check(where):
        if closed[0]:
            if live():
                bad("WorkQueue.close::wakes-everyone", f"{where}: a consumer of the closed queue was never told")
            return
        avail = [n for n in need if need[n] and n not in held]
        late = [n for n in due if due[n] < loop.time() - EPS and not need.get(n)]
        if late:
            bad("WorkQueue.put_after::not-late", f"{where}: {late}")
        if avail and live():
            bad("WorkQueue.get::queued-items-wake-consumers", f"{where}: items {avail} were put but {len(live())} consumer(s) keep waiting")

    def call(f, *a):
        try:
            f(*a)
        except Exception as e:
            bad("WorkQueue::no-exception", f"{getattr(f, '__name__', f)}{a} raised {e!r}")

    def delayed(n, d):
        if d <= 0:
            # immediate, unless something sooner is already scheduled
            need[n] = True
            due.pop(n, None)
        else:
            due[n] = min(due.get(n, 1e18), loop.time() + d)

    for op in case["ops"]:
        settle()
        k = op[0]
        if k == "put":
            call(q.put, Item(op[1]))
            need[op[1]] = True
        elif k == "after":
            call(q.put_after, Item(op[1]), op[2])
            delayed(op[1], op[2])
        elif k == "backoff":
            f = nfail.get(op[1], 0)
            call(q.put_backoff, Item(op[1]))
            nfail[op[1]] = f + 1
            delayed(op[1], min(mx, base * 2**f))
            if q.failures(Item(op[1])) != f + 1:
                bad("WorkQueue.failures::counts", "failures not counted")
        elif k == "reset":
            call(q.reset_backoff, Item(op[1]))
            nfail[op[1]] = 0
        elif k == "get":
            getters.append(asyncio.ensure_future(getter()))
        elif k == "done" and held:
            n = held.pop(op[1] % len(held))
            call(q.task_done, Item(n))
        elif k == "fail" and held:
            n = held.pop(op[1] % len(held))
            f = nfail.get(n, 0)
            call(q.put_backoff, Item(n))
            nfail[n] = f + 1
            delayed(n, min(mx, base * 2**f))
            call(q.task_done, Item(n))
        elif k == "cancel" and live():
            g = live()
            g[op[1] % len(g)].cancel()
        elif k == "tick":
            for _ in range(op[1]):
                await asyncio.sleep(0)
        elif k == "sleep":
            await asyncio.sleep(op[1])
            await quiesce()
            check("after a pause")
        elif k == "close":
            closed[0] = True
            call(q.close)
        if out:
            return out
    await quiesce()
    check("at the end")
    if out:
        return out
    await asyncio.sleep(20)
    await quiesce()
    check("after all delays")
    if not closed[0]:
        for _ in range(4):
            for g in range(4):
                getters.append(asyncio.ensure_future(getter()))
            await quiesce()
            check("while draining")
            while held:
                call(q.task_done, Item(held.pop()))
            await quiesce()
        lost = [n for n in need if need[n]]
        if lost:
            bad("WorkQueue.put::handed-out-eventually", f"items {lost} were put but never handed out")
        q.close()
        closed[0] = True
    n0 = len(told)
    g = asyncio.ensure_future(getter())
    getters.append(g)
    await quiesce()
    check("after closing")
    if len(told) == n0 and not out:
        bad("WorkQueue.get::raises-closed", "get() on a closed queue did not raise WorkQueueClosed")
    return out
