import sys,os,time,threading,collections
sys.path.insert(0,'/verif')
from dst import core as _c
RL=_c._real_lock
from dst import runner, core
pid=sys.argv[1]; seeds=range(int(sys.argv[2]),int(sys.argv[2])+int(sys.argv[3]))
import _thread
real_sleep=time.sleep
runner.boot_for(pid); prop=runner.load(pid)
root=runner.scratch_root()
cnt=collections.Counter(); cum=collections.Counter(); stop=[False]; N=[0]
def samp():
  me=_thread.get_ident()
  while not stop[0]:
    real_sleep(0.002)
    for tid,f in sys._current_frames().items():
      if tid==me: continue
      g=f; stk=[]
      while g: stk.append(f'{g.f_code.co_filename[-40:]}:{g.f_code.co_name}'); g=g.f_back
      if any(x in stk[0] for x in ('core.py:_handoff','core.py:main','core.py:_ctrl_wait','threading.py:wait','core.py:run','core.py:yield_point')): continue
      N[0]+=1
      cnt[stk[0]]+=1
      for x in set(stk): cum[x]+=1
runner.warm(prop,root)
_thread.start_new_thread(samp,())
t=runner._clock()
for s in seeds:
  r=runner.execute(prop,core.Choices(seed=runner.seed_of(pid,1,s)),root)
print('per run',(runner._clock()-t)/len(seeds))
stop[0]=True
print(N[0]); 
for k,v in cnt.most_common(12): print('self',v,k)
for k,v in cum.most_common(60): print('cum',v,k)
import shutil; shutil.rmtree(root,ignore_errors=True)
os._exit(0)
