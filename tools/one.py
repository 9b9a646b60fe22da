import sys,os,time
sys.path.insert(0,'/verif')
from dst import runner, core
pid=sys.argv[1]; seed=int(sys.argv[2]); n=int(sys.argv[3])
runner.boot_for(pid); prop=runner.load(pid)
if '-p' in sys.argv: os.sched_setaffinity(0,{3})
root=runner.scratch_root()
try:
  runner.warm(prop,root)
  last=None
  for k in range(n):
    t=time.time()
    r=runner.execute(prop,core.Choices(seed=runner.seed_of(pid,1,seed)),root)
    print(k,r['hash'][:8],r['violation'],r['harness'],round(runner._clock()-t,2))
    if r['violation'] or '-v' in sys.argv :
      print('\n'.join(r['trace'])); break
finally:
  import shutil; shutil.rmtree(root,ignore_errors=True)
os._exit(0)
