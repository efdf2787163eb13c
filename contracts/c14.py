"""C14: the routing table served to the proxy."""
import z3

from pyvc.verify import *
from .proxymodel import *


@contract("C14", PX + ".add_route", "add_route", weight=2, assumes=A)
def add_route(v):
    change(v, "add_route", True)


@contract("C14", PX + ".remove_route", "remove_route", weight=2, assumes=A)
def remove_route(v):
    change(v, "remove_route", False)


@contract("C14", PX + ".routes_handler", "routes_handler", weight=2, assumes=A)
def routes_handler(v):
    serve(v, "C14")


@contract("C14", PX + ".setup", "setup", assumes=A)
def proxy_setup(v):
    setup(v, "C14")
