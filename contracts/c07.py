"""C07: see dbmodel.py (invariant, interference) and dbfuncs.py (contracts)."""
from contracts.dbfuncs import register

register("C07")
