"""A mapping with arbitrary contents, for the state a function finds."""
import z3

from pyvc.verify import *

GONE = Obj(Fake("absent"), {})


class SymMap:
    """has(t): whether the key is there, at(t): its value (created once for
    each key looked at), default(t): value of missing keys (defaultdict)."""

    def __init__(self, v, has, at, default=None, name="mapping"):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        self.has, self.at, self.default = has, at, default
        self.log = []  # (key, value, written)
        n = v.native
        it, ctx = v.it, v.ctx
        self.key = lambda x: it.sterm(it.resolve(x))
        self.empty_hook = None

        def getitem(it2, a, k):
            t = self.key(a[0])
            x = self.lookup(t)
            if x is GONE:
                if self.default is None:
                    it.raise_(KeyError, a[0])
                x = self.default(t)
                self.write(t, x)
            return x

        def pop(it2, a, k):
            t = self.key(a[0])
            x = self.lookup(t)
            if x is GONE:
                if len(a) > 1:
                    return a[1]
                it.raise_(KeyError, a[0])
            self.write(t, GONE)
            return x

        def setdefault(it2, a, k):
            t = self.key(a[0])
            x = self.lookup(t)
            if x is GONE:
                x = a[1]
                self.write(t, x)
            return x

        def get(it2, a, k):
            x = self.lookup(self.key(a[0]))
            return (a[1] if len(a) > 1 else k.get("default")) if x is GONE else x

        def delete(it2, a, k):
            t = self.key(a[0])
            if self.lookup(t) is GONE:
                it.raise_(KeyError, a[0])
            self.write(t, GONE)

        def nonempty(it2, a, k):
            return self.empty_hook() if self.empty_hook else it.unsupported("truth of a mapping")

        self.o = v.fake(name, __getitem__=n(getitem), get=n(get), pop=n(pop), setdefault=n(setdefault), __setitem__=n(lambda it2, a, k: self.write(self.key(a[0]), it.resolve(a[1]))), __delitem__=n(delete),
                        __contains__=n(lambda it2, a, k: self.lookup(self.key(a[0])) is not GONE), __bool__=n(nonempty), values=n(lambda it2, a, k: self.parts(1)), items=n(lambda it2, a, k: self.parts(2)), keys=n(lambda it2, a, k: self.parts(0)), __iter__=n(lambda it2, a, k: self.parts(0)))

    def parts(self, what):
        if any(w for _, _, w in self.log):
            self.it.unsupported("iteration over a changed mapping")
        f = {0: lambda t: SStr(t), 1: lambda t: self.at(t), 2: lambda t: (SStr(t), self.at(t))}[what]
        return VList([Part(("Str",), lambda t: self.has(t), f)])

    def write(self, t, x):
        self.ctx.mut_append(self.log, (t, x, True))

    def lookup(self, t):
        for y, x, _ in reversed(self.log):
            if y.eq(t) or self.ctx.branch(y == t):
                return x
        if not self.ctx.branch(self.has(t)):
            return GONE
        x = self.at(t)
        self.ctx.mut_append(self.log, (t, x, False))
        return x

    def lookup_first(self, t):
        """The value found there at first."""
        for y, x, w in self.log:
            if not w and y.eq(t):
                return x
        return self.at(t)

    def before(self, t):
        """What was there at first (of a key looked at already, the same value)."""
        for y, x, w in self.log:
            if not w and self.ctx.branch(y == t):
                return x
        return self.at(t) if self.ctx.branch(self.has(t)) else GONE

    def written(self, t):
        """Whether the key has been assigned or removed."""
        return z3.Or([y == t for y, _, w in self.log if w] + [z3.BoolVal(False)])
