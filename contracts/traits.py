"""Traits of configurable classes: the storage, type validation, cross
validation, dynamic defaults and observers of traitlets, for one object whose
traits have arbitrary values.  The class's own methods are the real code."""
import ast

import z3

from pyvc.models import LazyAttr
from pyvc.verify import *

A_TRAITS = [
    "traitlets: assignment of a trait applies its type's validation, then its @validate method (not for None), stores the value and calls its "
    "@observe methods when it changed; an unset trait gets its @default method's value on first use; Configurable.__init__ sets each trait given "
    "by keyword or configuration, running its @validate method",
]


def trait_node(it, ci, name):
    """The declaration of a trait, and the class it is in."""
    x, owner = ci.lookup(name)
    if isinstance(x, LazyAttr) and isinstance(x.node, ast.Call):
        return x.node, owner
    return None, None


def marked(ci, kind, name):
    """Methods decorated with @kind(..., name, ...)."""
    out, seen = [], set()
    for c in ci.mro():
        for n, f in c.attrs.items():
            if n in seen or not isinstance(f, FuncV):
                continue
            for d in getattr(f, "deco", []):
                try:
                    e = ast.parse(d, mode="eval").body
                except SyntaxError:
                    continue
                if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) == kind:
                    if any(isinstance(a, ast.Constant) and a.value == name for a in e.args):
                        out.append(f)
                        seen.add(n)
    return out


class Traits:
    """obj: instance of `ci`; vals: trait -> value (missing: unset)."""

    def __init__(self, v, ci, vals):
        self.v, self.it, self.ci, self.vals = v, v.it, ci, vals
        self.o = Obj(ci, {})
        ctx = v.ctx
        ctx.state["trait_hook"] = self.get
        ctx.state["trait_set_hook"] = self.set

    def kw(self, name):
        node, owner = trait_node(self.it, self.ci, name)
        out = {}
        for k in node.keywords:
            if k.arg in ("min", "max", "allow_none") and isinstance(k.value, ast.Constant):
                out[k.arg] = k.value.value
        f = node.func
        out["type"] = f.id if isinstance(f, ast.Name) else f.attr
        return out

    def get(self, it, o, cls, owner, name, vn):
        if o is not self.o or name not in self.vals and not marked(self.ci, "default", name):
            return POISON
        if name not in self.vals:
            val = it.call(marked(self.ci, "default", name)[0], [self.o])
            val = self.convert(name, val)
            it.ctx.mut_dict(self.vals, name, val)
        return self.vals[name]

    def convert(self, name, val):
        """The trait type's own validation."""
        it, kw = self.it, self.kw(name)
        val = it.resolve(val)
        if val is None:
            if not kw.get("allow_none"):
                self.bad(name)
            return None
        t = kw["type"]
        if t == "Integer":
            if not isinstance(val, (bool, int, SInt, SBool)):
                self.bad(name)
        elif t == "Float":
            if isinstance(val, (int, SInt)):
                val = it.call(float, [val])
            elif not isinstance(val, (float, SReal)):
                self.bad(name)
        elif t == "MemoryLimit":
            f = it.get_class("dask_gateway_server.traitlets.MemoryLimit").lookup("validate")[0]
            return it.call(f, [Obj(it.get_class("dask_gateway_server.traitlets.MemoryLimit"), {}), self.o, val])
        else:
            it.unsupported(f"trait type {t} of {name}")
        if kw.get("min") is not None and it.truth(it.mkbool(it.compare("<", val, kw["min"]))):
            self.bad(name)
        return val

    def bad(self, name):
        raise PyRaise(self.it.make_exc(ExtV("traitlets.TraitError"), name))

    def set(self, it, o, name, val):
        if o is not self.o:
            return POISON
        if trait_node(it, self.ci, name)[0] is None:
            return POISON
        val = it.resolve(self.convert(name, val))
        if val is not None:
            for f in marked(self.ci, "validate", name)[:1]:
                prop = Obj(Fake("Proposal"), {"value": val, "owner": self.o, "trait": None})
                val = it.resolve(it.call(f, [self.o, prop]))
        old = self.vals.get(name)
        it.ctx.mut_dict(self.vals, name, val)
        obs = marked(self.ci, "observe", name)
        if obs:
            same = (old is None) == (val is None) and (val is None or it.truth(it.mkbool(it.eq(old, val))))
            if not same:
                for f in obs:
                    it.call(f, [self.o, Obj(Fake("Change"), {"new": val, "old": old, "name": name, "owner": self.o})])
        return None

    def passive(self, names):
        """Whether @validate and @observe methods change nothing while the
        object is being constructed: then the order of construction is
        irrelevant, and each trait has the value it was given."""
        it, ctx = self.it, self.v.ctx
        before = dict(self.vals)
        for n in names:
            if n not in self.vals:
                continue
            val = it.resolve(self.vals[n])
            try:
                if val is not None:
                    for f in marked(self.ci, "validate", n)[:1]:
                        r = it.resolve(it.call(f, [self.o, Obj(Fake("Proposal"), {"value": val, "owner": self.o, "trait": None})]))
                        if r is not val:
                            it.unsupported(f"the validator of {n} acts during construction")
                for f in marked(self.ci, "observe", n):
                    it.call(f, [self.o, Obj(Fake("Change"), {"new": val, "old": None, "name": n, "owner": self.o})])
            except PyRaise:
                it.unsupported(f"the validator of {n} refuses values during construction")
            if dict(self.vals) != before and any(self.vals.get(k) is not before.get(k) for k in set(self.vals) | set(before)):
                it.unsupported(f"the observer of {n} acts during construction")
