"""Documents with arbitrary contents (an API object whose fields a function may
look at although its contract does not depend on them): every field is an
uninterpreted function of the document, present or not, null or not."""
import z3

from pyvc.core import SRef, ref_sort
from pyvc.verify import *


def opaque_docs(v, cls, always=("metadata",)):
    it, ctx = v.it, v.ctx
    val = Fake("DocValue")
    VAL = ref_sort("DocValue")

    def key(k):
        k = it.resolve(k)
        return k if isinstance(k, str) else it.unsupported(f"field {k!r} of a document")

    def fns(o, k):
        s = o.t.sort()
        n = f"{s.name()}[{k}]"
        return z3.Function("has_" + n, s, z3.BoolSort()), z3.Function("null_" + n, s, z3.BoolSort()), z3.Function("at_" + n, s, VAL)

    def value(o, k):
        _, null, at = fns(o, k)
        if k not in always and ctx.branch(null(o.t)):
            return None
        return SRef(val, at(o.t))

    def has(o, k):
        return True if k in always else fns(o, k)[0](o.t)

    def present(o, k):
        return k in always or ctx.branch(has(o, k))

    def getitem(it2, o, k):
        k = key(k)
        if not present(o, k):
            it.raise_(KeyError, k)
        return value(o, k)

    def get(it2, o, n):
        def fn(it3, a, kw):
            k = key(a[0])
            if present(o, k):
                return value(o, k)
            return a[1] if len(a) > 1 else kw.get("default")

        return Native("get", fn)

    def contains(it2, o, x):
        h = has(o, key(x))
        return h if isinstance(h, bool) else SBool(h)

    for c in (cls.name, val.name):
        it.attr_hooks["getitem:" + c] = getitem
        it.attr_hooks[c + ".get"] = get
        it.attr_hooks["contains:" + c] = contains
    it.attr_hooks["truth:" + val.name] = lambda it2, o: z3.Function("truth_DocValue", VAL, z3.BoolSort())(o.t)

    def eq(it2, o, c):
        if c is None:
            return False
        if not isinstance(c, (bool, int, float, str)):
            it.unsupported("comparison of a field of a document")
        return z3.Function(f"equals_{type(c).__name__}_{c}", VAL, z3.BoolSort())(o.t)

    it.attr_hooks["eq:" + val.name] = eq
