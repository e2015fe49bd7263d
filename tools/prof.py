"""debugging aid: run one harness in-process under the profiler.  usage: prof.py C02 'name' secs"""
import sys,os,time,cProfile,pstats,signal,traceback
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
prop,name,secs=sys.argv[1],sys.argv[2],float(sys.argv[3])
from symx import run as R
R.setup_paths()
from symx import fakec
fakec.install()
cases=[c for c in R.load_cases(prop) if c.name==name]
if any(c.cpp for c in cases):
    fakec.prebuild([x for c in cases if c.cpp for x in c.cpp])
class Stop(BaseException): pass
def al(*a):
    traceback.print_stack(limit=25); raise Stop()
signal.signal(signal.SIGALRM,al); signal.alarm(int(secs))
pr=cProfile.Profile(); pr.enable()
try:
    r=R.run_case_symbolic(cases[0],1,time.time()+1000)
    print({k:r[k] for k in r if k not in('samples',)})
except Stop: pass
pr.disable(); pstats.Stats(pr).sort_stats('cumulative').print_stats(35)
