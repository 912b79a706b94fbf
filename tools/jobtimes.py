"""Time of each job of a check: jobtimes.py C20 [thorough]"""
import sys, time, os, importlib, multiprocessing as mp, logging
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
logging.disable(50)
from vlib import build, mc
build.install()
chk = importlib.import_module('checks.' + sys.argv[1].lower()).CHECK
def one(job):
    t = time.time(); r = mc.Recorder(job); 
    try: chk.run(job, r)
    except Exception as e: r.fail('job', str(e))
    return time.time() - t, job, r.n, r.transitions, r.nfails, r.outcomes
with mp.Pool(8, maxtasksperchild=1) as p:
    res = sorted(p.imap_unordered(one, chk.jobs('thorough' if 'thorough' in sys.argv else 'quick')), key=lambda t: t[0], reverse=True)
print('total %.1f' % sum(r[0] for r in res))
for r in res[:25]: print('%.1f' % r[0], *r[1:])
