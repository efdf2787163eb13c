"""The Kubernetes API as seen by the controller and the backend."""
from pyvc.verify import *

APIEXC = ExtV("kubernetes_asyncio.client.rest.ApiException")


def setup(it):
    for alias in ("kubernetes_asyncio.client.ApiException", "kubernetes_asyncio.client.exceptions.ApiException"):
        it.lib[alias] = APIEXC


def api_error(it, status):
    e = it.make_exc(APIEXC)
    e.attrs["status"] = status
    return PyRaise(e)
