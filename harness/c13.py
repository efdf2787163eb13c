import asyncio
import math
import random
from fractions import Fraction

import dask_gateway_server.utils as U
from dask_gateway_server.workqueue import Backoff


def cases(tier, seed):
    rng = random.Random(seed)
    n = {"quick": 300, "deep": 3000, "thorough": 5000}[tier]
    yield {"kind": "backoff", "base": 0.005, "max": 300, "n": 1100, "m": 3}
    yield {"kind": "backoff", "base": 0.1, "max": 30, "n": 2200, "m": 0}
    for _ in range(n):
        yield {"kind": "backoff", "base": rng.choice([0.001, 0.005, 0.1, 1.0, 7.3]), "max": rng.choice([0.5, 2, 30, 300, 1e6]), "n": rng.choice([0, 1, 2, 3, 5, 9, 20]), "m": rng.randrange(4)}
        rate = rng.choice([0.5, 1, 3, 10, 50])
        burst = rng.choice([1, 2, 5, 100])
        steps = []
        for _ in range(rng.randrange(5, 60)):
            steps.append(rng.choice([0, 0, 0, 0.001, 0.01, 0.3 / rate, 1 / rate, 2.5 / rate, burst / rate, 10 * burst / rate, 3.7]))
        yield {"kind": "rl", "rate": rate, "burst": burst, "steps": steps}


def run(c):
    if c["kind"] == "backoff":
        return backoff(c)
    return rl(c)


def backoff(c):
    out = []
    b = Backoff(base_delay=c["base"], max_delay=c["max"])
    for _ in range(c.get("m", 0)):
        b.backoff("other")
    n = c["n"]
    for i in range(min(n, 3000) + 1):
        try:
            d = b.backoff("x")
        except Exception as e:
            return [("Backoff.backoff::no-exception", f"failure number {i + 1}: {e!r}")]
        exp = Fraction(c["base"]) * 2**i
        want = float(exp) if exp < c["max"] else c["max"]
        if not math.isclose(d, want, rel_tol=1e-9):
            out.append(("Backoff.backoff::exponential-until-max", f"failure {i}: delay {d}, expected {want}"))
            break
        if b.failures("x") != i + 1:
            out.append(("Backoff.backoff::counts-failure", f"{b.failures('x')} != {i + 1}"))
            break
    if b.failures("other") != c.get("m", 0):
        out.append(("Backoff.backoff::other-items-unaffected", f"{b.failures('other')}"))
    b.reset("x")
    if b.failures("x") != 0 or not math.isclose(b.backoff("x"), min(c["base"], c["max"])):
        out.append(("Backoff.reset::reset-to-zero", "not reset"))
    if b.failures("other") != c.get("m", 0):
        out.append(("Backoff.reset::reset-other-unaffected", "other item reset"))
    return out


def rl(c):
    """Drives the real limiter with a scripted clock; every acquire is a task
    whose release time is recorded."""
    clock = [1000.0]
    real_mono, real_sleep = U.time.monotonic, U.asyncio.sleep
    rate, burst = c["rate"], c["burst"]
    rel = []
    waits = []

    class T:
        def __getattr__(self, n):
            return getattr(_t, n)

        def monotonic(self):
            return clock[0]

    import time as _t

    class A:
        def __getattr__(self, n):
            return getattr(asyncio, n)

        async def sleep(self, d, *a):
            waits.append(d)

    old_t, old_a = U.time, U.asyncio
    U.time, U.asyncio = T(), A()
    try:
        lim = U.RateLimiter(rate=rate, burst=burst)

        async def main():
            for s in c.get("steps", [0.0] * (3 * int(min(burst, 50)) + 5)):
                clock[0] += s
                waits.clear()
                await lim.acquire()
                rel.append((clock[0], clock[0] + sum(waits)))

        asyncio.run(main())
    finally:
        U.time, U.asyncio = old_t, old_a
    out = []
    rels = sorted(r for _, r in rel)
    for i in range(len(rels)):
        for j in range(i, len(rels)):
            t = rels[j] - rels[i]
            if j - i + 1 > burst + rate * t + 1e-6:
                return [("RateLimiter::window-bound", f"{j - i + 1} permits in {t}s, burst {burst} rate {rate}")]
    # exact token bucket: no needless waiting
    tok, last = float(burst), 1000.0
    for now, r in rel:
        # the bucket never credits more than one full burst per idle period
        tok = min(burst, tok + min(now - last, burst / rate) * rate)
        last = now
        if tok >= 1 + 1e-6 and r > now + 1e-9:
            out.append(("RateLimiter::no-wait-when-token-available", f"waited {r - now} with {tok} tokens"))
            break
        tok -= 1
        if tok < 0 and r > now - tok / rate + 1e-6 + 0.0:
            out.append(("RateLimiter::waits-no-longer-than-needed", f"waited {r - now}, needed {-tok / rate}"))
            break
    return out
