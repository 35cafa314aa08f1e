"""C02: extraction from a packet stays inside its data."""
from .pktspec import *
def jobs(): return read_jobs() + [vread(t) for t in VT] + [j for j in pair_jobs() if j.name[0] == ">"] + [mread(t) for t in MT]
