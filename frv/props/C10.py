"""C10: HTTP header and body size limits."""
from .http import *
def jobs(): return res_jobs(LIMITS) + req_jobs(LIMITS)
