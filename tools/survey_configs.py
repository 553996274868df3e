import json,time,signal,sys,multiprocessing as mp,os
sys.path.insert(0,'/verif')
from vlib import boot, geo
class TO(BaseException): pass
def h(*a): raise TO()
AFF={1:([[ '3/2']],['1/2']),2:([[2,1],['-1/2',3]],['1','-1/2']),3:([[2,1,0],['-1/2',3,1],[0,'1/2','3/2']],['1','-1/2',2])}
def run(r):
    import symfem
    boot.private_cache_dir()
    cell,n,o,v=r['cfg']
    signal.signal(signal.SIGALRM,h)
    out={'cell':cell,'name':n,'order':o,'kwargs':v}
    def lim(f,s=30):
        signal.alarm(s)
        t=time.time()
        try: x=f(); return x,time.time()-t
        except TO: return 'TIMEOUT',time.time()-t
        except BaseException as e: return 'ERR:'+type(e).__name__+':'+str(e)[:80],None
        finally: signal.alarm(0)
    e,tc=lim(lambda: symfem.create_element(cell,n,o,**v))
    if isinstance(e,str): out['err']=e; return out
    b,tb=lim(lambda:e.get_basis_functions())
    if isinstance(b,str): out['err']=b; return out
    out.update(dim=e.space_dim,cost=round(tc+tb,3),continuity=e.continuity,cls=type(e).__name__,
      map=sorted({str(d.mapping) for d in e.dofs}) if hasattr(e,'dofs') else getattr(e,'_basis_functions',None) and 'direct', doft=sorted({type(d).__name__ for d in e.dofs}) if hasattr(e,'dofs') else None)
    f=b[0]
    out['value']='scalar' if f.is_scalar else ('vector' if f.is_vector else 'matrix')
    out['pw']=any(hasattr(g,'pieces') for g in b)
    A,bb=AFF[geo.TDIM[cell]]
    vs=geo.Affine(A,bb).verts(cell)
    import sympy
    vs=tuple(tuple(sympy.Rational(c.numerator,c.denominator) for c in p) for p in vs)
    m,tm=lim(lambda:e.map_to_cell(vs))
    out['mapto']=round(tm,3) if isinstance(m,list) else m
    e2,_=lim(lambda:symfem.create_element(cell,n,o,vertices=vs,**v))
    if isinstance(e2,str): out['verts']=e2
    else:
        b2,t2=lim(lambda:e2.get_basis_functions())
        out['verts']=round(t2,3) if isinstance(b2,list) else b2
    t,_=lim(lambda:e.get_tensor_factorisation()); out['tf']=isinstance(t,list)
    for k in ('lagrange_subdegree','lagrange_superdegree','polynomial_subdegree','polynomial_superdegree'):
        x,_=lim(lambda:getattr(e,k)); out[k]=x if (x is None or isinstance(x,(int,str))) else str(x)
    return out
TR=[("triangle",{"edge_orders":eo,"variant":va},o) for eo in ([1,2,3],[2,1,2],[3,1,1],[2,2,2]) for va in ("equispaced",) for o in (1,2,3)]
TR+=[("tetrahedron",{"edge_orders":[1,2,1,2,1,2],"face_orders":[1,2,1,2],"variant":"equispaced"},o) for o in (1,2)]
TR+=[("tetrahedron",{"edge_orders":[2,1,2,1,1,2],"face_orders":[2,1,2,2],"variant":"equispaced"},2)]
if __name__=='__main__':
    rs=[json.loads(l) for l in open('/tmp/work/survey2.jsonl')]
    rs=[r for r in rs if 'err' not in r and r['basis']<=8 and r['cfg'][1]!='transition']
    rs+=[{'cfg':[c,'transition',o,k]} for c,k,o in TR]
    rs+=[{'cfg':['triangle','KMV',3,{}]}]
    rs.sort(key=lambda r:-r.get('basis',0))
    done={json.dumps([d['cell'],d['name'],d['order'],d['kwargs']]) for d in map(json.loads,open('/tmp/work/survey3a.jsonl'))}
    rs=[r for r in rs if 'dual' not in r['cfg'][0] and json.dumps(r['cfg']) not in done]
    print(len(rs))
    with mp.Pool(8,maxtasksperchild=8) as p, open('/tmp/work/survey3b.jsonl','w') as f:
        for r in p.imap_unordered(run,rs,chunksize=1):
            f.write(json.dumps(r)+'\n'); f.flush()
