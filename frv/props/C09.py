"""C09: hostile HTTP input cannot crash the parser.  Every function of the parser is verified without any assumption about the bytes: accesses stay inside
their objects, no exception leaves parse(), every loop terminates, and the statuses are those listed; what makes a first line or a length acceptable is in the
postconditions of parse_header ('accepted exactly if ...') and parse ('never complete with a bad header')."""
from .http import *
def jobs(): return res_jobs(HOSTILE) + req_jobs(HOSTILE) + text_jobs()
