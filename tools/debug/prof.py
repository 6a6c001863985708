import sys,os
sys.path.insert(0,'/verif')
os.environ.setdefault('DV_REPO','/repo')
import cProfile,pstats,importlib.util,signal,threading
import dv.engine as E
spec=importlib.util.spec_from_file_location('c',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
con=[c for c in E.CONTRACTS if c.name==sys.argv[2]][0]
con.samples=(1,1)
con.max_paths=int(sys.argv[3])
pr=cProfile.Profile()
try:
    pr.enable(); ex=E.Explorer(con); r=ex.run(); pr.disable()
    for x in r: print(x[:5])
    print(ex.paths,len(ex.queue))
except KeyboardInterrupt:
    pr.disable()
pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
