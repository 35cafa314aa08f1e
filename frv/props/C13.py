"""C13: chunked response bodies."""
from . import http
def jobs(): return http.res_jobs(http.CHUNKS)
