import sys,os
sys.path.insert(0,'/verif')
import importlib.util
import dv.engine as E, dv.nf as N
spec=importlib.util.spec_from_file_location('c',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
con=[c for c in E.CONTRACTS if c.name==sys.argv[2]][0]
class P(E.Prover):
    def discharge(self):
        print("PATH", self.ex.paths, self.c.choices); 
        for f in self.c.facts: print("   FACT",str(f)[:400])
        for o in self.c.obls:
            if len(sys.argv)>4 and sys.argv[4] not in o.name: continue
            print("   OBL",o.name, o.kind,'\n      A',str(o.a)[:600],'\n      B',str(o.b)[:600])
            if o.kind=='eq':
                r=N.nf(o.a-o.b); print("      NF", str(N.term_of_poly(r.n))[:1500])
E.Prover=P
con.max_paths=int(sys.argv[3])
E.Explorer(con).run()
