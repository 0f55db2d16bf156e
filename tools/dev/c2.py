import sys,time
sys.path[:0]=['/verif/harness','/repo']
import common, simcheck, observe
import feats; F=feats.F

mods=dict(flow="T_Flow",plan="T_Plan",rework="T_Rework",buffer="T_Buffer",capacity="T_Capacity",setup="T_Setup",interrupt="T_Interrupt",move="T_Move",policy="T_Policy",route="T_Route",batch="T_Batch",aux="T_Aux",charge="T_Charge",progress="T_Progress",log="T_Log",arrive="T_Arrive",shop="T_Shop")
proj=sys.argv[1]; n=int(sys.argv[2]); sel=sys.argv[3:] or list(F)
chk=common.Check("X"); 
t=time.time()
simcheck.run(chk,proj,mods[proj],{k:F[k] for k in sel},n)
import collections
cn=collections.Counter(s for s,_,_ in chk.violations)
print(proj,chk.cov['traces_validated_against_impl'],chk.cov['states'],round(time.time()-t,1))
for s,k in cn.most_common(): print("  ",k,s)
seen=set(); nx=0
for s,tx,_ in chk.violations:
    if s not in seen and nx<6: seen.add(s); nx+=1; print("   ex:",s,tx[:300])
