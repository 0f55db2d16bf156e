import sys
sys.path[:0]=['/verif/harness','/repo']
import common, gen, observe, feats, traceback
feat=sys.argv[1]; key=eval(sys.argv[2]); t0=float(sys.argv[3]) if len(sys.argv)>3 else 0
a=gen.build(common.rng_for(*key),**feats.F[feat])
from prodsys import runner as R
orig=R.Runner.run
def run(self,h):
    try: return orig(self,h)
    except Exception: traceback.print_exc(); raise
R.Runner.run=run
r=observe.run(a,3000)
print(r.error)
for x in a.resource_data: print(x.ID,x.capacity,x.process_ids,x.process_capacities,x.location,x.state_ids, getattr(x,'input_queues',''),getattr(x,'output_queues',''))
for e in r.ev:
    if e['t']>=t0*1000 and e['e']!='snap': print({k:v for k,v in e.items() if v not in ('',0,-1)})
