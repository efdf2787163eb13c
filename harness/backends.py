"""The real backends without a server: random clusters and configurations."""
import asyncio
import logging
import os
import sys
import types

from dask_gateway_server import models
from dask_gateway_server.utils import FrozenAttrDict

if "skein" not in sys.modules:
    sk = types.ModuleType("skein")

    class Rec:
        def __init__(self, *a, **k):
            self.args, self.kw = a, k
            self.__dict__.update(k)

        @classmethod
        def from_dict(cls, d):
            return cls(d)

        @classmethod
        def new_credentials(cls):
            return cls()

    for n in ("Master", "Resources", "Service", "ApplicationSpec", "Security", "File", "Client", "ApplicationClient"):
        setattr(sk, n, type(n, (Rec,), {}))
    sys.modules["skein"] = sk

from dask_gateway_server.backends import inprocess, local, yarn  # noqa: E402
from dask_gateway_server.backends.jobqueue import base as jqbase  # noqa: E402
from dask_gateway_server.backends.jobqueue import pbs, slurm  # noqa: E402

CLASSES = {"local": (local.LocalBackend, local.LocalClusterConfig), "pbs": (pbs.PBSBackend, pbs.PBSClusterConfig),
           "slurm": (slurm.SlurmBackend, slurm.SlurmClusterConfig), "yarn": (yarn.YarnBackend, yarn.YarnClusterConfig),
           "inprocess": (inprocess.InProcessBackend, local.LocalClusterConfig)}


def make(name, **kw):
    b = CLASSES[name][0](**kw)
    b.log = logging.getLogger("quiet")
    b.log.setLevel(logging.CRITICAL + 1)
    b.log.propagate = False
    return b


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def cluster(rng, name, i=0, state=None, **cfg):
    c = FrozenAttrDict(CLASSES[name][1](**cfg).to_dict())
    n = f"cl{i}{rng.randint(0, 99)}"
    return Obj(name=n, username=f"user{i}", token=f"token-{n}", config=c, state=dict(state or {}), scheduler_address=f"tls://10.0.0.{i}:{rng.randint(1, 9)}",
               tls_cert=f"cert-{n}".encode(), tls_key=f"key-{n}".encode(), workers={})


class Proc:
    def __init__(self, returncode=0, out=b"", err=b"", pid=4242):
        self.returncode, self.out, self.err, self.pid = returncode, out, err, pid
        self.sent = None

    async def communicate(self, data=None):
        self.sent = data
        return self.out, self.err


class Spawn:
    """Replaces asyncio.create_subprocess_exec: records, never starts."""

    def __init__(self, proc):
        self.proc, self.calls = proc, []

    async def __call__(self, *cmd, **kw):
        self.calls.append((cmd, kw))
        p = self.proc(cmd, kw) if callable(self.proc) else self.proc
        if isinstance(p, BaseException):
            raise p
        return p

    def __enter__(self):
        self.old = asyncio.create_subprocess_exec
        asyncio.create_subprocess_exec = self
        return self

    def __exit__(self, *a):
        asyncio.create_subprocess_exec = self.old


class Patch:
    def __init__(self, obj, **kw):
        self.obj, self.kw = obj, kw

    def __enter__(self):
        self.old = {k: getattr(self.obj, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.obj, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.obj, k, v)
