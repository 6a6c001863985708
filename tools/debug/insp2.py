import sys,os
sys.path.insert(0,'/verif')
import importlib.util
import dv.engine as E, dv.nf as N
spec=importlib.util.spec_from_file_location('c',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
con=[c for c in E.CONTRACTS if c.name==sys.argv[2]][0]
n=[0]
class P(E.Prover):
    def prove(self,o):
        r=super().prove(o)
        if r[0]!='proved':
            print("PATH", self.ex.paths, self.c.choices,r,{k:(float(a),float(b)) for k,(a,b) in self.c.vars.items()}); 
            for f in self.c.facts: print("   FACT",str(f)[:300])
            print("   OBL",o.name, o.kind,'\n      A',str(o.a)[:600],'\n      B',str(o.b)[:600])
            n[0]+=1
            if n[0]>2: sys.exit()
        return r
E.Prover=P
con.max_paths=int(sys.argv[3])
E.Explorer(con).run()
