"""python3-vt -m frv.replay PROP SEED CASE: rebuild the native monitor from /repo and run one of its cases, verbosely."""
import sys, os, tempfile, shutil, subprocess
from . import build
from .check import Monitor, write_dict
def main(prop, seed, case):
    tmp = tempfile.mkdtemp(prefix='frv-')
    try:
        mon = Monitor(prop, tmp, int(seed), 0)
        irdir = os.path.join(tmp, 'ir'); os.makedirs(irdir)
        from .llir import Module
        write_dict(Module(build.ir(irdir)), mon.dict); mon.dict_ready.set()
        mon.case = case; mon.run()
        print(mon.out or mon.error); return 1 if mon.rc == 1 else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__': sys.exit(main(*sys.argv[1:4]))
