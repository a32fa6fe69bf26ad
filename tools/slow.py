import sys,json,traceback
sys.path.insert(0,'/verif/engine')
import z3, loops, sym, worker, threading, time, os
threading.stack_size(1<<30); sys.setrecursionlimit(100000)
T0=time.time()
opts={'timeout':20,'budget':int(sys.argv[3]) if len(sys.argv)>3 else 200}
for a in sys.argv[4:]:
    k,v=a.split('='); opts[k]=int(v) if v.isdigit() else v
def f():
    oc=sym.Engine.check
    def chk(self,*a,**k):
        t=time.time(); r=oc(self,*a,**k); d=time.time()-t
        if os.environ.get('DUMP') and d>2:
            S=z3.Solver(); self.feed(S,a[0]); open('/tmp/q_%d.smt2'%int(time.time()*10),'w').write(S.to_smt2())
        if d>2:
            rr=r if isinstance(r,str) else r[0]
            st=[x for x in traceback.extract_stack() if 'engine' in x.filename][-7:-1]
            print('%.1f slow %.2f %s n=%d'%(time.time()-T0,d,rr,len(a[0])),' < '.join('%s:%d'%(x.name,x.lineno) for x in st[::-1]),self.loc(),flush=True)
        return r
    sym.Engine.check=chk
    r=worker.verify(sys.argv[1],'H_'+sys.argv[2],opts)
    print(r['error'],[(o['name'],o['loc'],o['status']) for o in r['obs'] if o['status']!='discharged'])
t=threading.Thread(target=f);t.start();t.join()
