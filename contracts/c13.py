"""C13: retry backoff and rate limiting."""
import z3

from pyvc.verify import *

WQ = "dask_gateway_server.workqueue"
UT = "dask_gateway_server.utils"


def mk_backoff(v):
    base = v.real("base")
    mx = v.real("maxd")
    v.assume(z3.And(base.t > 0, mx.t > 0))
    n = v.int("n", 0)
    m = v.int("m", 0)
    item, other = v.str("item"), v.str("other")
    v.assume(item.t != other.t)
    d = VDict()
    d.default = int
    if v.ctx.branch(z3.Bool("known")):
        d.d[hk(item)] = (item, n)
        v.assume(n.t >= 1)
    else:
        v.assume(n.t == 0)
    d.d[hk(other)] = (other, m)
    o = v.obj(WQ + ".Backoff", base_delay=base, max_delay=mx, _failures=d)
    v.case(lambda ev: {"kind": "backoff", "base": ev(base), "max": ev(mx), "n": ev(n), "m": ev(m)})
    return o, base, mx, n, m, item, other


@contract("C13", WQ + ".Backoff.backoff", assumes=["float arithmetic treated as real arithmetic; 2**k for integer k is exact and converting it to float overflows from k=1024"])
def backoff_value(v):
    o, base, mx, n, m, item, other = mk_backoff(v)
    out = v.run(WQ + ".Backoff.backoff", o, item)
    if not v.ok_or(out, "no-exception"):
        return
    v.cover("returns")
    r = out.val
    p2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
    t = v.it._nt(v.it.num_or_none(r), True)
    v.assume(p2(z3.IntVal(0)) == 1)
    full = base.t * z3.ToReal(p2(n.t))
    v.prove("at-most-max", t <= mx.t)
    v.prove("exponential-until-max", z3.Implies(z3.And(n.t < 1024), t == z3.If(full <= mx.t, full, mx.t)))
    v.prove("max-when-huge", z3.Implies(n.t >= 1024, z3.Or(t == mx.t, t == full)))
    f1 = v.run(WQ + ".Backoff.failures", o, item)
    v.prove("counts-failure", v.eq(f1.val, SInt(n.t + 1)))
    f2 = v.run(WQ + ".Backoff.failures", o, other)
    v.prove("other-items-unaffected", v.eq(f2.val, m))


@contract("C13", WQ + ".Backoff.reset")
def backoff_reset(v):
    o, base, mx, n, m, item, other = mk_backoff(v)
    out = v.run(WQ + ".Backoff.reset", o, item)
    if not v.ok_or(out, "no-exception"):
        return
    v.prove("reset-to-zero", v.eq(v.run(WQ + ".Backoff.failures", o, item).val, 0))
    v.prove("reset-other-unaffected", v.eq(v.run(WQ + ".Backoff.failures", o, other).val, m))
    out = v.run(WQ + ".Backoff.backoff", o, item)
    if v.ok_or(out, "backoff-after-reset"):
        t = v.it._nt(v.it.num_or_none(out.val), True)
        v.prove("base-delay-after-reset", t == z3.If(base.t <= mx.t, base.t, mx.t))


def mk_rl(v):
    rate, burst, tok, last, le = (v.real(x) for x in ("rate", "burst", "tokens", "last", "last_event"))
    v.assume(z3.And(rate.t > 0, burst.t >= 1, tok.t <= burst.t))
    o = v.obj(UT + ".RateLimiter", rate=rate, burst=burst, _tokens=tok, _last=last, _last_event=le, _max_elapsed=SReal(burst.t / rate.t))
    v.ctx.state["clock:monotonic"] = last.t
    v.case(lambda ev: {"kind": "rl", "rate": ev(rate), "burst": ev(burst), "tokens": ev(tok)})
    return o, rate, burst, tok, last


@contract("C13", UT + ".RateLimiter._delay", assumes=["time.monotonic() never decreases", "float arithmetic treated as real arithmetic"])
def limiter_step(v):
    """Virtual time V = last - tokens/rate. Every permit raises V by at least
    1/rate and is released no earlier than V: with the bucket-size bound this
    gives <= burst + rate*t permits in any window of length t."""
    o, rate, burst, tok, last = mk_rl(v)
    out = v.run(UT + ".RateLimiter._delay", o)
    if not v.ok_or(out, "no-exception"):
        return
    v.cover("returns")
    num = lambda x: v.it._nt(v.it.num_or_none(x), True)
    now = v.ctx.state["clock:monotonic"]
    d = num(out.val)
    t1, l1 = num(o.attrs["_tokens"]), num(o.attrs["_last"])
    # avoid division: all quantities multiplied by rate
    V0 = rate.t * last.t - tok.t
    V1 = rate.t * l1 - t1
    e1 = rate.t * (now + d)
    v.prove("inv-tokens-at-most-burst", t1 <= burst.t)
    v.prove("inv-clock", l1 <= now)
    v.prove("permit-costs-one-token", V1 >= V0 + 1)
    v.prove("burst-bound", V1 >= rate.t * now - burst.t + 1)
    v.prove("release-not-before-token", e1 >= V1)
    v.prove("delay-nonnegative", d >= 0)
    v.prove("release-now-or-at-token", z3.Or(d == 0, e1 == V1))
    refill = tok.t + (now - last.t) * rate.t
    v.prove("no-wait-when-token-available", z3.Implies(z3.And(refill >= 1, tok.t >= 0), d == 0))


@contract("C13", UT + ".RateLimiter.__init__")
def limiter_init(v):
    rate, burst = v.int("rate", 1), v.int("burst", 1)
    o = v.obj(UT + ".RateLimiter")
    out = v.run(UT + ".RateLimiter.__init__", o, rate, burst)
    if not v.ok_or(out, "no-exception"):
        return
    num = lambda x: v.it._nt(v.it.num_or_none(x), True)
    v.prove("starts-full", num(o.attrs["_tokens"]) == z3.ToReal(burst.t))
    v.prove("max-elapsed", num(o.attrs["_max_elapsed"]) * z3.ToReal(rate.t) == z3.ToReal(burst.t))
    v.prove("rate", num(o.attrs["rate"]) == z3.ToReal(rate.t))


@contract("C13", UT + ".RateLimiter.acquire")
def limiter_acquire(v):
    o, rate, burst, tok, last = mk_rl(v)
    d = v.real("delay")
    v.assume(d.t >= 0)
    v.it.overrides[UT + ".RateLimiter._delay"] = lambda it, a, k: (it.ctx.event("token", d), d)[1]
    out = v.run(UT + ".RateLimiter.acquire", o)
    if not v.ok_or(out, "no-exception"):
        return
    v.cover("returns")
    v.prove("one-token-per-permit", len(v.events("token")) == 1)
    sl = v.events("sleep")
    tot = z3.RealVal(0)
    for e in sl:
        tot = tot + v.it._nt(v.it.num_or_none(e[1]), True)
    v.prove("waits-for-token", tot == d.t)


@contract("C13", "lemma", name="window_lemma")
def window_lemma(v):
    """m permits inside a window [s, s+t]: from the step contract, by induction
    on the number of permits after the first one in the window."""
    V1, Vk, Vk1, e1, now1, s, t, ek1, burst, rate = (z3.Real(x) for x in "V1 Vk Vk1 e1 now1 s t ek1 burst rate".split())
    k = z3.Real("k")
    v.assume(z3.And(rate > 0, burst >= 1, t >= 0))
    # first permit in the window (quantities scaled by rate)
    first = z3.And(V1 >= now1 - burst + 1, z3.Or(e1 == now1, e1 == V1), e1 >= rate * s)
    v.prove("base", z3.Implies(first, V1 >= rate * s - burst + 1))
    v.prove("step", z3.Implies(z3.And(Vk >= rate * s - burst + k, Vk1 >= Vk + 1), Vk1 >= rate * s - burst + (k + 1)))
    v.prove("bound", z3.Implies(z3.And(Vk >= rate * s - burst + k, ek1 >= Vk, ek1 <= rate * (s + t)), k <= burst + rate * t))
