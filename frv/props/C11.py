"""C11: HTTP messages are parsed to what they say."""
from .http import text_jobs, acc_jobs
def jobs(): return text_jobs() + acc_jobs()
