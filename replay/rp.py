"""Bounded replay of properties on the real code (run with /opt/venv/bin/python, PYTHONPATH=/repo).
gen_<ID>(rng,tier) yields JSON cases; chk_<ID>(case) returns None or a description of the failure."""
import sys, os, json, math, itertools, random, time, traceback, contextlib, io
import numpy as np
os.environ.setdefault('OMP_NUM_THREADS','1'); os.environ.setdefault('MPLBACKEND','Agg')
import warnings; warnings.filterwarnings('ignore')
import torch
torch.set_num_threads(1)
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import oracle as O
from deepquantum.gates import qoperator as QO, qmath as QM, qtensornetwork as QT, qcircuit as QC
from deepquantum.layers import qlayers as QL
PI=math.pi
class Bad(Exception): pass
def npc(t): return np.asarray(t.detach().resolve_conj().numpy() if isinstance(t,torch.Tensor) else t)
def ct(v): return torch.tensor(np.asarray(v),dtype=torch.complex64)
def close(a,b,tol=2e-4,what=''):
    a=npc(a); b=np.asarray(b)
    if a.shape!=b.shape: return f'{what}: shape {a.shape}, expected {b.shape}'
    if a.size==0: return None
    if not np.all(np.isfinite(a)): return f'{what}: non-finite result'
    s=max(1.0,float(np.max(np.abs(b)))); d=float(np.max(np.abs(a-b)))
    if d>tol*s: return f'{what}: differs from the expected value by {d:.3g} (tolerance {tol*s:.1g})'
def first(*xs):
    for x in xs:
        if x: return x
def pform(p,form,scalar):
    if form=='float': return float(p[0]) if scalar else [float(x) for x in p]
    t=torch.tensor([float(x) for x in p],dtype=torch.float32)
    if form=='grad': t.requires_grad_(True)
    if form=='gradnl': t.requires_grad_(True); t=t*1.0
    return t[0] if scalar and form!='one' else t
def build(op,N,wires,params,form='tensor',repeat=1):
    wires=wires if isinstance(wires,int) else list(wires)
    if op in O.GATES:
        np_,k,_,_=O.GATES[op]; w=wires
        if k==1: w=wires[0] if not isinstance(wires,int) else wires
        cls=getattr(QO,op)
        return cls(N,w) if np_==0 else cls(pform(params,form,np_==1),N,w)
    cls=getattr(QL,op)
    if O.lnp(op,wires,repeat)==0: return cls(N,wires)
    if op=='BasicEntangleLayer': return cls(N,wires,pform(params,form,False),repeat)
    return cls(N,wires,pform(params,form,False))
def dense(op,N,wires,params,repeat=1):
    return O.gate_op(op,N,wires,params) if op in O.GATES else O.layer_op(op,N,wires,params,repeat)
def nparams(op,wires,repeat=1): return O.GATES[op][0] if op in O.GATES else O.lnp(op,wires,repeat)
def hasTN(op): return O.GATES[op][3] if op in O.GATES else O.LTN[op]
SPECIAL=[0.0,PI,-PI,PI/2,-PI/2,2*PI,3*PI,4*PI,1e-3,7.3,-11.7,100.25]
def rp(rng,n,k=0):
    if k%4==1 : return [rng.choice(SPECIAL) for _ in range(n)]
    if k%4==2 : return [rng.uniform(-13,13) for _ in range(n)]
    return [rng.uniform(-PI,PI) for _ in range(n)]
# ---- matrix product states, independently
def mps_of(vec,N,rng=None,pad=0,cut=1e-9):
    r=np.random.default_rng(rng if rng is not None else 0)
    c=np.asarray(vec,complex).reshape(1,-1); out=[]
    for i in range(N-1):
        D=c.shape[0]; c=c.reshape(D*2,-1)
        U,S,V=np.linalg.svd(c,full_matrices=False); k=max(1,int((S>cut*max(1e-30,S[0])).sum()))
        U,S,V=U[:,:k],S[:k],V[:k]
        out.append(U.reshape(D,2,k)); c=(S[:,None]*V)
    out.append(c.reshape(c.shape[0],2,1))
    if pad:   # enlarge bonds with an invertible random gauge: same state, non-canonical, rank-deficient bonds
        for i in range(N-1):
            k=out[i].shape[2]; m=k+pad
            G=r.normal(size=(k,m))+1j*r.normal(size=(k,m)); Gi=np.linalg.pinv(G)
            out[i]=np.tensordot(out[i],G,axes=(2,0)); out[i+1]=np.tensordot(Gi,out[i+1],axes=(1,0))
    return [ct(t.transpose(1,0,2)) for t in out]
def vec_of(mps):
    c=None
    for t in mps:
        t=npc(t).transpose(1,0,2)
        c=t if c is None else np.tensordot(c,t,axes=(c.ndim-1,0))
    return c.reshape(-1)
def mps_valid(mps,N):
    if not isinstance(mps,list) or len(mps)!=N: return f'result is not a list of {N} sites'
    D=1
    for i,t in enumerate(mps):
        if t.dim()!=3 or t.shape[0]!=2: return f'site {i} has shape {tuple(t.shape)}'
        if t.shape[1]!=D: return f'bond mismatch at site {i}: {D} vs {t.shape[1]}'
        D=t.shape[2]
    if D!=1: return f'right boundary bond is {D}'
def perms(N,k,rng,limit):
    a=list(itertools.permutations(range(N),k)); 
    if len(a)>limit: a=rng.sample(a,limit)
    return [list(x) for x in a]
def gate_cases(rng,tier,maxN=5,lim=60,names=None,tn=False,big=True):
    for op in (names or O.GATES):
        np_,k,_,t=O.GATES[op]
        if tn and not t: continue
        c=0
        for N in range(1,maxN+1+(1 if tier=='thorough' else 0)):
            ks=[k] if k else range(2,N+1)
            for kk in ks:
                if kk>N: continue
                for w in perms(N,kk,rng,lim if tier!='thorough' else 10*lim):
                    c+=1
                    yield dict(op=op,N=N,wires=w,params=rp(rng,np_,c),form=['tensor','float','grad'][c%3])
def layer_cases(rng,tier,maxN=5,lim=40,names=None,tn=False):
    for op in (names or O.LAYERS):
        if tn and not O.LTN[op]: continue
        c=0
        for N in range(1,maxN+1+(1 if tier=='thorough' else 0)):
            mn=2 if ('ring' in op or 'Basic' in op) else 1
            ws=[]
            for k in range(mn,N+1): ws+=perms(N,k,rng,max(3,lim//max(1,N)) if tier!='thorough' else 3*lim)
            if N>=mn: ws.append(list(range(N)))
            if len(ws)>lim: ws=rng.sample(ws,lim)+[list(range(N))]
            for w in ws:
                c+=1; rep=1+(c%3) if op=='BasicEntangleLayer' else 1
                yield dict(op=op,N=N,wires=w,params=rp(rng,O.lnp(op,w,rep),c),form=['tensor','float','grad'][c%3],repeat=rep)
def mk(c): return build(c['op'],c['N'],c['wires'],c['params'],c.get('form','tensor'),c.get('repeat',1))
def ex(c): return dense(c['op'],c['N'],c['wires'],c['params'],c.get('repeat',1))
# ------------------------------------------------------------------ C01
def gen_C01(rng,tier): 
    yield from gate_cases(rng,tier)
    for op in O.GATES:
        for i,s in enumerate(SPECIAL):
            n,k,_,_=O.GATES[op]
            if n==0: continue
            yield dict(op=op,N=k+1,wires=list(range(k,0,-1)),params=[s]*n if i%2 else [s]+[0.3*j+s for j in range(1,n)],form=['tensor','float'][i%2])
    for op in O.GATES:
        n,k,_,_=O.GATES[op]
        for N in (7,8): yield dict(op=op,N=N,wires=rng.sample(range(N),k or 4),params=rp(rng,n),form='tensor')
def chk_C01(c):
    g=mk(c); r=close(g.U_expand(),ex(c),what='dense operator')
    if r: return r
    if c['op']!='multi_control_cnot':
        return close(g.matrix,O.gate_mat(c['op'],c['wires'],c['params']),what='gate matrix')
# ------------------------------------------------------------------ C02
def tn_contract(c,g,D):
    N=c['N']; o=[]
    for kind in c.get('kinds',['random','sparse']):
        v=O.state(kind,N,c.get('seed',1))
        t=ct(v).view([2]*N); t0=t.clone()
        r=g.TN_contract(t)
        o.append(close(r,(D@v).reshape([2]*N),what=f'rank-N contraction ({kind})'))
        if not torch.equal(t,t0): o.append('input tensor modified')
    for B in c.get('batches',[1,3]):
        vs=np.stack([O.state('random',N,7*b+c.get('seed',1)) for b in range(B)])
        t=ct(vs).view([B]+[2]*N)
        r=g.TN_contract(t,batch_mod=True)
        o.append(close(r,(vs@D.T).reshape([B]+[2]*N),what=f'batched contraction (B={B})'))
    return first(*o)
def gen_C02(rng,tier):
    i=0
    for c in gate_cases(rng,tier,tn=True,maxN=5):
        i+=1; c['seed']=i%9; c['batches']=[[1,3],[2],[4,5]][i%3]; yield c
    for op in O.GATES:
        n,k,_,t=O.GATES[op]
        if t:
            for N in (7,8): yield dict(op=op,N=N,wires=rng.sample(range(N),k),params=rp(rng,n),form='tensor')
def chk_C02(c): return tn_contract(c,mk(c),ex(c))
# ------------------------------------------------------------------ C03
def mps_apply(c,g,D):
    N=c['N']; o=[]
    for kind in c.get('kinds',['random','product','ghz']):
        for pad in c.get('pads',[0]):
            v=O.state(kind,N,c.get('seed',1)); m=mps_of(v,N,3,pad)
            sc=max(1,float(np.abs(v).max()))
            r=g.TN_operation(m)
            e=mps_valid(r,N)
            if e: return f'{kind}: {e}'
            o.append(close(vec_of(r),D@v,tol=5e-4,what=f'MPS application ({kind},pad={pad})'))
            o.append(close(QT.MPS2StateVec(r).view(-1),D@v,tol=5e-4,what=f'MPS application ({kind}), read back'))
    return first(*o)
def gen_C03(rng,tier):
    i=0
    for c in gate_cases(rng,tier,tn=True,maxN=5,lim=24):
        i+=1; c['seed']=i%9; c['kinds']=[['random','zero'],['product','ghz'],['sparse','unnorm'],['w','bell'],['basis','random']][i%5]; c['pads']=[i%2*2] ; yield c
    for op in O.GATES:
        n,k,_,t=O.GATES[op]
        if t:
            for N in (7,8): yield dict(op=op,N=N,wires=rng.sample(range(N),k),params=rp(rng,n),form='tensor',kinds=['random','ghz'])
            if k>1: yield dict(op=op,N=8,wires=[7,0]+[4][:k-2],params=rp(rng,n),form='tensor',kinds=['random'])
def chk_C03(c): return mps_apply(c,mk(c),ex(c))
# ------------------------------------------------------------------ C04
DAG=[x for x in O.GATES]+[l for l in O.LAYERS if l not in('ring_of_cnot2','BasicEntangleLayer')]
def same_params(g,p0,what):
    q=getattr(g,'params',None)
    if p0 is None: return None
    return close(q,p0,tol=1e-6,what=what)
def snap(g):
    q=getattr(g,'params',None); return None if q is None else npc(q).copy()
def gen_C04(rng,tier):
    i=0
    for c in itertools.chain(gate_cases(rng,tier,maxN=4,lim=24),layer_cases(rng,tier,maxN=4,lim=24,names=[l for l in O.LAYERS if l in DAG])):
        i+=1
        if c['form']=='grad' and i%2: c['form']='gradnl'
        if i%4==0: c['upd']=rp(rng,len(c['params']),2) 
        if c['op']=='ring_of_cnot_dagger' or c['N']>=1: yield c
def chk_C04(c):
    g=mk(c); p=c['params']
    if c.get('upd') and nparams(c['op'],c['wires'],1): 
        p=c['upd']; n=O.GATES[c['op']][0] if c['op'] in O.GATES else 9
        g.params_update(pform(p,'tensor',n==1))
    D=dense(c['op'],c['N'],c['wires'],p,c.get('repeat',1)); s=snap(g); w=repr(g.wires)
    d=g.operation_dagger()
    if d is None: return 'no adjoint returned'
    o=[close(d.U_expand(),D.conj().T,what='adjoint operator'),same_params(g,s,'parameters of the original'),
       close(g.U_expand(),D,what='original after taking the adjoint'),None if repr(g.wires)==w else 'wires changed',
       None if d.nqubits==c['N'] else 'register size changed', None if d.supportTN==g.supportTN else 'tensor-network support changed']
    if g.supportTN and ('ring' not in c['op'] or c['wires']==list(range(c['N']))):
        v=O.state('random',c['N'],5)
        o.append(close(d.TN_contract(ct(v).view([2]*c['N'])),(D.conj().T@v).reshape([2]*c['N']),what='adjoint, tensor contraction'))
        r=d.TN_operation(mps_of(v,c['N'])); o.append(mps_valid(r,c['N']) or close(vec_of(r),D.conj().T@v,tol=5e-4,what='adjoint, MPS application'))
    dd=d.operation_dagger(); o.append(close(dd.U_expand(),D,what='double adjoint'))
    d.info()
    return first(*o)
# ------------------------------------------------------------------ C05
OPS5=['U','C','B','M','D','I','P']
def gen_C05(rng,tier):
    cs=[c for c in itertools.chain(gate_cases(rng,tier,maxN=4,lim=6),layer_cases(rng,tier,maxN=4,lim=8))]
    for i,c in enumerate(cs):
        h=[rng.choice(OPS5+['P']) for _ in range(rng.randint(2,7))]
        if 'P' not in h: h.insert(rng.randint(0,len(h)),'P')
        if i%3==0: h+=['U','Q']
        n=nparams(c['op'],c['wires'],c.get('repeat',1))
        c['hist']=[[x,rp(rng,n,j) if x in 'PQ' else None] for j,x in enumerate(h)]; yield c
def info_eq(a,b):
    for k in ('label','contral_lst','target_lst'):
        if repr(a[k])!=repr(b[k]): return f'info[{k}] {a[k]} vs {b[k]}'
    if (a['params'] is None)!=(b['params'] is None): return 'info params'
    if a['params'] is not None: return close(a['params'],npc(b['params']),1e-6,'info params')
def chk_C05(c):
    g=mk(c); p=list(c['params']); n=nparams(c['op'],c['wires'],c.get('repeat',1)); sc=(c['op'] in O.GATES and n==1); N=c['N']
    tnok=hasTN(c['op']) and ('ring' not in c['op'] or c['wires']==list(range(N)))
    def final():
        D=dense(c['op'],N,c['wires'],p,c.get('repeat',1)); f=build(c['op'],N,c['wires'],p,'tensor',c.get('repeat',1))
        o=[close(g.U_expand(),D,what='dense operator')]
        if hasattr(f,'matrix'): o.append(close(g.matrix,npc(f.matrix),what='gate matrix'))
        if tnok:
            o.append(tn_contract(dict(N=N,batches=[2],kinds=['random']),g,D)); o.append(mps_apply(dict(N=N,kinds=['random']),g,D))
        if c['op'] in DAG: o.append(close(g.operation_dagger().U_expand(),D.conj().T,what='adjoint'))
        o.append(info_eq(g.info(),f.info()))
        if n: o.append(close(g.params,np.array(p[0] if sc else p,dtype=np.float32),1e-6,'parameters')); o.append(None if g.num_params==n else 'num_params')
        if list(np.atleast_1d(g.wires))!=list(np.atleast_1d(f.wires)) or g.nqubits!=N: o.append('wires or register changed')
        return first(*o)
    e=final() if len(c['hist'])%2 else None
    if e: return 'before history: '+e
    last=None
    for x,q in c['hist']:
        if x=='Q' and n and last is not None:      # the tensor given before, with new contents, given again
            last[0].data.copy_(pform(q,'tensor',sc)); g.params_update(last[0]); p=list(q); last=(last[0],last[0].clone())
        elif x in 'PQ':
            t=pform(q,'tensor',sc) if n else None; t0=None if t is None else t.clone()
            g.params_update(t); p=list(q) if n else p
            if t is not None: last=(t,t0)
        elif x=='U': g.U_expand()
        elif x=='I': g.info()
        elif x=='D' : g.operation_dagger()
        elif tnok and x=='C': g.TN_contract(ct(O.state('random',N,3)).view([2]*N))
        elif tnok and x=='B': g.TN_contract(ct(O.state('random',N,3)).view([1]+[2]*N),batch_mod=True)
        elif tnok and x=='M': g.TN_operation(mps_of(O.state('random',N,3),N))
    e=final()
    if e: return 'after history: '+e
    if n and any(x=='P' for x,_ in c['hist']) and not torch.equal(last[0],last[1]): return "caller's parameter tensor modified"
# ------------------------------------------------------------------ C06/C07
def gen_C06(rng,tier):
    yield from layer_cases(rng,tier,maxN=5,lim=40)
    for op in O.LAYERS:
        for N in (6,7): 
            for w in (list(range(N)),rng.sample(range(N),N-2),list(range(N))[::-1]):
                rep=2 if op=='BasicEntangleLayer' else 1
                yield dict(op=op,N=N,wires=w,params=rp(rng,O.lnp(op,w,rep)),form='tensor',repeat=rep)
def chk_C06(c): return close(mk(c).U_expand(),ex(c),what='layer operator')
def gen_C07(rng,tier):
    i=0
    for c in layer_cases(rng,tier,maxN=5,lim=24,tn=True):
        i+=1; c['seed']=i%9; c['kinds']=[['random'],['product','ghz'],['sparse','unnorm'],['w','bell']][i%4]; c['batches']=[[1],[3],[2]][i%3]; c['pads']=[i%2*2]; yield c
    for op in O.LAYERS:
        if not O.LTN[op]: continue
        for N in (6,7,8): yield dict(op=op,N=N,wires=list(range(N)),params=rp(rng,O.lnp(op,list(range(N)))),form='tensor',kinds=['random'],batches=[2])
def chk_C07(c):
    l=mk(c); D=ex(c); N=c['N']
    if 'ring' in c['op'] and c['wires']!=list(range(N)):
        for f,what in ((lambda:l.TN_contract(ct(O.state('random',N,1)).view([2]*N)),'contraction'),(lambda:l.TN_operation(mps_of(O.state('random',N,1),N)),'MPS application')):
            try: r=f()
            except Exception: continue
            v=npc(r).reshape(-1) if isinstance(r,torch.Tensor) else vec_of(r)
            e=close(v,D@O.state('random',N,1),5e-4,f'unsupported wire list accepted by {what} and')
            if e: return e
        return None
    return first(tn_contract(c,l,D),mps_apply(c,l,D))
# ------------------------------------------------------------------ C08/C09
BUILD={**{k:k for k in O.GATES},**{k:k for k in O.LAYERS if k not in('HLayer','ring_of_cnot_dagger')},'HLayer':'Hadamard'}
def rand_item(rng,N,tn=None):
    while True:
        op=rng.choice(list(O.GATES)+O.LAYERS)
        if tn is not None and hasTN(op)!=tn: continue
        rep=rng.randint(1,2) if op=='BasicEntangleLayer' else 1
        if op in O.GATES: k=O.GATES[op][1] or rng.randint(2,N) if N>=2 else O.GATES[op][1]
        elif 'ring' in op or 'Basic' in op: k=rng.randint(2,N) if N>=2 else 99
        else: k=rng.randint(1,N)
        if k is None or k>N: continue
        w=rng.sample(range(N),k)
        if op in('ring_of_cnot','ring_of_cnot_dagger') and tn: w=list(range(N))
        return dict(op=op,wires=w,params=rp(rng,nparams(op,w,rep),rng.randint(0,3)),repeat=rep)
def add_item(cir,it,via,form='tensor'):
    op=it['op']; n=nparams(op,it['wires'],it['repeat'])
    if via=='add' or op=='ring_of_cnot_dagger':
        g=build(op,cir.nqubits,it['wires'],it['params'],form,it['repeat']); cir.add(g); return g
    w=list(it['wires']); 
    if op in O.GATES and O.GATES[op][1]==1: w=w[0]
    f=getattr(cir,BUILD[op]); sc=op in O.GATES and n==1
    if it.get('as')=='tuple': w=tuple(w)
    if it.get('as')=='range' and w==list(range(w[0],w[0]+len(w))): w=range(w[0],w[0]+len(w))
    p=pform(it['params'],form,sc) if n else None
    if n==0: f(w)
    elif op in O.GATES: f(p,w)
    elif op=='BasicEntangleLayer': f(w,p,it['repeat']) if it['repeat']!=1 else f(w,p)
    else: f(w,p)
def cir_dense(N,items,l2r=True):
    U=np.eye(2**N,dtype=complex)
    for it in items:
        D=dense(it['op'],N,it['wires'],it['params'],it['repeat']); U=D@U if l2r else U@D
    return U
def gen_C08(rng,tier):
    for i in range(80 if tier!='thorough' else 600):
        N=rng.randint(1,5); tn=[True,None,True][i%3]
        if N==1 and tn is None: tn=True
        yield dict(N=N,items=[rand_item(rng,N,tn) for _ in range(rng.randint(0,6))],via=['builder','add'][i%2],kind=O.KINDS[i%len(O.KINDS)],seed=i)
def chk_C08(c):
    N=c['N']; cir=QC.Circuit(N)
    for it in c['items']: add_item(cir,it,c['via'])
    ok=all(hasTN(it['op']) and ('ring' not in it['op'] or it['wires']==list(range(N))) for it in c['items'])
    U=cir_dense(N,c['items']); o=[]
    before=[npc(getattr(g,'params',torch.zeros(1))).copy() if not callable(getattr(g,'params',None)) else 0 for g in cir.gate]; gl=list(cir.gate)
    o.append(close(cir.U(),U,what='circuit unitary')); o.append(close(cir.U(left_to_right=False),cir_dense(N,c['items'],False),what='reversed product'))
    v=O.state(c['kind'],N,c['seed']); vf=U@v
    r=np.random.default_rng(c['seed']); A=r.normal(size=(2**N,2**N))+1j*r.normal(size=(2**N,2**N)); M=(A+A.conj().T)/2
    e=float((vf.conj()@M@vf).real)
    if cir.TN_check()!=all(hasTN(it['op']) for it in c['items']): o.append('TN_check disagrees with the parts')
    if ok:
        res=cir.TN_evolution(mps_of(v,N)); o.append(mps_valid(res,N) or close(vec_of(res),vf,5e-4,'MPS evolution'))
        o.append(close(cir.TN_contract_evolution(ct(v).view([2]*N)),vf.reshape([2]*N),what='rank-N evolution'))
        B=2; vs=np.stack([O.state('random',N,9*b+c['seed']) for b in range(B)])
        o.append(close(cir.TN_contract_evolution(ct(vs).view([B]+[2]*N),batch_mod=True),(vs@U.T).reshape([B]+[2]*N),what='batched evolution'))
        o.append(close(cir.cir_expectation(ct(v).view(1,-1),ct(M)),e,1e-3,'expectation (tensor network)'))
    elif not all(hasTN(it['op']) for it in c['items']):
        for f,wh in ((lambda:cir.TN_evolution(mps_of(v,N)),'TN_evolution'),(lambda:cir.TN_contract_evolution(ct(v).view([2]*N)),'TN_contract_evolution')):
            try: f()
            except Exception: pass
            else: o.append(wh+' accepted a circuit with an unsupported part')
        o.append(close(cir.cir_expectation(ct(v).view(1,-1),ct(M)),e,1e-3,'expectation (fallback)'))
    o.append(close(cir.cir_expectation(ct(v).view(1,-1),ct(M),TN=False),e,1e-3,'expectation (dense)'))
    after=[npc(getattr(g,'params',torch.zeros(1))) if not callable(getattr(g,'params',None)) else 0 for g in cir.gate]
    if len(cir.gate)!=len(gl) or any(a is not b for a,b in zip(cir.gate,gl)) or any(not np.array_equal(a,b) for a,b in zip(before,after)): o.append('evaluation altered the circuit')
    o.append(close(cir.U(),U,what='circuit unitary after evaluation'))
    return first(*o)
def gen_C09(rng,tier):
    for i in range(60 if tier!='thorough' else 400):
        N=rng.randint(2,4); h=[]
        for _ in range(rng.randint(1,8)):
            h.append('clear' if rng.random()<0.18 else dict(it=rand_item(rng,N),via=rng.choice(['add','builder','builder'])))
        yield dict(N=N,hist=h)
    for op in list(O.GATES)+O.LAYERS:
        N=4; k=O.GATES[op][1] or 3 if op in O.GATES else 3; w=rng.sample(range(N),k)
        it=dict(op=op,wires=w,params=rp(rng,nparams(op,w,1)),repeat=1)
        it2=rand_item(rng,N); yield dict(N=N,hist=[dict(it=it2,via='add'),'clear',dict(it=it,via='builder'),dict(it=it2,via='builder')])
    for a,w in (('tuple',[2,0]),('range',[1,2,3]),('range',[0,1,2,3])):
        yield dict(N=4,hist=[dict(it=dict(op='HLayer',wires=w,params=[],repeat=1,**{'as':a}),via='builder'),dict(it=dict(op='cnot',wires=[2,1],params=[],repeat=1),via='builder')])
def info_ok(g,it,k):
    d=g.info(); op=it['op']; w=list(it['wires']); L=len(w)
    nc={'cnot':1,'cz':1,'cphase':1,'cu3':1,'toffoli':2,'multi_control_cnot':L-1}.get(op,0); cw,tw=w[:nc],w[nc:]
    if 'ring' in op: st=2 if op=='ring_of_cnot2' else 1; cw,tw=(w[:1],w[1:]) if L==2 else (w,[w[(i+st)%L] for i in range(L)])
    if d['label']!=g.label or list(d['contral_lst'])!=cw or list(d['target_lst'])!=tw: return f'info of {op} on {w}: {d}'
    if k==0: return None if d['params'] is None else f'info of {op}: parameters {d["params"]}'
    return close(torch.as_tensor(d['params']).reshape(-1),np.array(it['params'],dtype=np.float32),1e-6,f'parameters in the info of {op}')
def chk_C09(c):
    N=c['N']; cir=QC.Circuit(N); model=[]
    if cir.gate!=[] or cir.cir_params!={} or cir.cir_num_params!=0: return 'new circuit is not empty'
    for h in c['hist']:
        if h=='clear': cir.clear(); model=[]
        else: 
            n0=len(cir.gate); old=list(cir.gate); add_item(cir,h['it'],h['via']); model.append(h['it'])
            if len(cir.gate)!=n0+1 or any(a is not b for a,b in zip(old,cir.gate)): return 'not exactly one operation appended'
        if len(cir.gate)!=len(model): return f'{len(cir.gate)} operations recorded, expected {len(model)}'
        n=sum(nparams(it['op'],it['wires'],it['repeat']) for it in model)
        if cir.cir_num_params!=n: return f'cir_num_params={cir.cir_num_params}, expected {n}'
        if sorted(cir.cir_params)!=list(range(len(model))): return f'parameter table keys {sorted(cir.cir_params)}'
        for i,it in enumerate(model):
            g=cir.gate[i]; k=nparams(it['op'],it['wires'],it['repeat'])
            if type(g).__name__!=it['op'] or g.nqubits!=N or list(np.atleast_1d(g.wires))!=list(it['wires']): return f'operation {i} is {type(g).__name__} on {g.wires}'
            e=info_ok(g,it,k)
            if e: return e
            if k==0:
                if cir.cir_params[i] is not None: return f'parameter table entry {i} should be None'
            else:
                p=it['params']; e=close(torch.as_tensor(cir.cir_params[i]).reshape(-1),np.array(p,dtype=np.float32),1e-6,f'parameter table entry {i}') or close(torch.as_tensor(g.params).reshape(-1),np.array(p,dtype=np.float32),1e-6,f'parameters of operation {i}')
                if e: return e
    s=np.zeros(2**N); s[0]=1
    return first(close(cir.state_init(),s,what='initial state'),close(cir.U(),cir_dense(N,model),what='unitary'))
# ------------------------------------------------------------------ C10/C11
def gen_C10(rng,tier):
    for N in range(1,8 if tier!='thorough' else 11):
        for k in O.KINDS:
            for s in range(2 if tier!='thorough' else 6): yield dict(N=N,kind=k,seed=s)
    for N in (2,3,5):
        for s in range(3): yield dict(N=N,weak=s)
    for N in (2,3): 
        for b in range(2**N): yield dict(N=N,vec=[[1.0 if i==b else 0.0,0.0] for i in range(2**N)])
    for sh in ([4],[2,4],[4,1],[1,3],[1,8],[1,1,4]): yield dict(N=2,shape=sh)
def chk_C10(c):
    N=c['N']
    if 'shape' in c:
        for f in (QT.StateVec2MPS,QT.MatrixProductState):
            try: f(torch.ones(c['shape'])+0j,N)
            except Exception: continue
            return f'{f.__name__} accepted shape {c["shape"]} for N={N}'
        return None
    v=np.array([complex(*x) for x in c['vec']]) if 'vec' in c else O.weak(N,c['weak']) if 'weak' in c else O.state(c['kind'],N,c['seed'])
    t=ct(v).view(1,-1); t0=t.clone(); m=QT.StateVec2MPS(t,N); o=[mps_valid(m,N)]
    if 'weak' in c: o.append(close(QT.MPS2StateVec(m),v.reshape(1,-1),2e-5,'round trip of a weakly entangled state'))
    if o[0]: return o[0]
    o.append(close(vec_of(m),v,what='sites of the matrix product state'))
    m0=[x.clone() for x in m]
    o.append(close(QT.MPS2StateVec(m),v.reshape(1,-1),what='round trip'))
    o.append(close(QT.MPS2StateVec(m,return_sv=False),v.reshape([2]*N),what='round trip (rank-N)'))
    o.append(close(QT.MatrixProductState(t,N),v.reshape([2]*N),what='rank-N view'))
    mp=mps_of(v,N,3,2); o.append(close(QT.MPS2StateVec(mp),v.reshape(1,-1),5e-4,'contraction of a given chain')); o.append(close(QT.MPS2StateVec(mp,return_sv=False),v.reshape([2]*N),5e-4,'rank-N contraction of a given chain'))
    if not torch.equal(t,t0): o.append('input vector modified')
    if len(m)!=len(m0) or any(not torch.equal(a,b) for a,b in zip(m,m0)): o.append('chain modified')
    return first(*o)
def gen_C11(rng,tier):
    for N in range(1,5 if tier!='thorough' else 7):
        for k in O.RKINDS: yield dict(N=N,kind=k,seed=rng.randint(0,99))
    for N in (1,2,3):
        for s in range(3): yield dict(N=N,weak=s,seed=s)
    for sh in ([4],[2,4],[8,8],[4,2],[4,4,1]): yield dict(N=2,shape=sh)
def chk_C11(c):
    N=c['N']
    if 'shape' in c:
        for f in (QT.Rho2MPS,QT.MatrixProductDensityOperator):
            try: f(torch.ones(c['shape'])+0j,N)
            except Exception: continue
            return f'{f.__name__} accepted shape {c["shape"]} for N={N}'
        return None
    if 'weak' in c: v=O.weak(N,c['weak']); u=O.weak(N,c['weak']+7); r=(1-3e-3)*np.outer(v,v.conj())+3e-3*np.outer(u,u.conj()); r/=np.trace(r)
    else: r=O.rho(c['kind'],N,c['seed'])
    t=ct(r); t0=t.clone()
    m=QT.Rho2MPS(t,N); o=[None if len(m)==N else 'wrong number of sites']
    o.append(close(QT.MPS2Rho(m),r,2e-5 if 'weak' in c else 2e-4,what='round trip')); o.append(close(QT.MatrixProductDensityOperator(t,N),r.reshape([2]*(2*N)),what='rank-2N form'))
    if not torch.equal(t,t0): o.append('input modified')
    return first(*o)
# ------------------------------------------------------------------ C12/C13
def gen_C12(rng,tier):
    for N in range(1,5 if tier!='thorough' else 7):
        subs=[list(s) for k in range(N+1) for s in itertools.permutations(range(N),k)]
        if len(subs)>70 and tier!='thorough': subs=rng.sample(subs,70)
        for i,s in enumerate(subs): yield dict(N=N,lst=s,kind=(O.RKINDS+['unittrace'])[(i*3+N)%10],seed=i)
    yield dict(N=7,lst=[1,5],kind='random',seed=1); yield dict(N=6,lst=[5,0,3],kind='random',seed=2)
    for b in ('dim','trace','hi','neg'): yield dict(N=2,bad=b)
def chk_C12(c):
    N=c['N']
    if 'bad' in c:
        r=O.rho('random',2,1); l=[0]; n=2
        if c['bad']=='dim': n=3
        if c['bad']=='trace': r=r*1.5
        if c['bad']=='hi': l=[2]
        if c['bad']=='neg': l=[-1]
        if 'lst' in c:
            r=O.rho('random',c.get('M',N),1)*(1.5 if c['bad']=='trace' else 1); l=c['lst']; n=N
        for f in (QM.partial_trace,QM.partial_trace_old):
            try: f(ct(r),n,list(l))
            except Exception: continue
            return f'{f.__name__} accepted a bad input ({c["bad"]})'
        return None
    r=O.rho(c['kind'],N,c['seed']); t=ct(r); t0=t.clone(); e=O.ptrace(r,N,sorted(c['lst'])); o=[]
    for f in (QM.partial_trace,)+((QM.partial_trace_old,) if N<6 else ()): 
        o.append(close(f(t,N,list(c['lst'])),e,what=f.__name__))
        if not torch.equal(t,t0): o.append(f.__name__+': input modified')
    k=len(c['lst']); 
    if N<6:
        o.append(close(QM.ptrace(t,N-k,k),O.ptrace(r,N,list(range(N-k,N))),what='ptrace'))
        if not torch.equal(t,t0): o.append('ptrace: input modified')
    return first(*o)
def gen_C13(rng,tier):
    for N in range(1,6):
        sels=['all']+list(range(N))+[[q] for q in range(N)]+perms(N,min(N,3),rng,6)+[list(range(N))]
        for i,s in enumerate(sels):
            for kd in (['random','unnorm'],['mixed_full','prodmix'],['ghz'],['w','random'],['mixed_rank2'])[(i+N)%5]+['random','mixed_full']: yield dict(N=N,sel=s,kind=kd,seed=i,shape=i%3)
def chk_C13(c):
    N=c['N']; isr=c['kind'] in('mixed_full','prodmix','mixed_rank2'); o=[]
    if isr: st=O.rho(c['kind'],N,c['seed']); t=ct(st)
    else: st=O.state(c['kind'],N,c['seed']); t=ct(st).view([(2**N,),(2**N,1),(1,2**N)][c['shape']])
    A=np.random.default_rng(c['seed']).normal(size=(2,2**N,2**N)); M=A[0]+1j*A[1]; M=M+M.conj().T
    ev=lambda K:(np.trace(st@K) if isr else st.conj()@K@st).real
    t0=t.clone(); Mt=ct(M); M0=Mt.clone()
    o.append(close(QM.expval(t,Mt,rho=isr),ev(M),1e-3,'expval'))
    sel=c['sel']; qs=list(range(N)) if sel=='all' else ([sel] if isinstance(sel,int) else sel)
    e=[ev(O.embed(O.Z,[q],N)) for q in qs]
    r=QM.measure(N,t) if sel=='all' else QM.measure(N,t,sel if isinstance(sel,int) else list(sel))
    o.append(close(r,e,1e-3,f'measure({sel})'))
    if not torch.equal(t,t0) or not torch.equal(Mt,M0): o.append('input modified')
    if isr:
        try: QM.expval(ct(1.3*st),Mt,rho=True)
        except Exception: pass
        else: o.append('non-unit trace accepted')
    return first(*o)
# ------------------------------------------------------------------ C14/C15
def true_grad(N,items,v,M):
    """exact derivative: d/dp of <psi|M|psi> by complex-step-free central differences in float64 with Richardson."""
    ps=[list(it['params']) for it in items]; out=[]
    def f():
        U=np.eye(2**N,dtype=complex)
        for it,p in zip(items,ps): U=dense(it['op'],N,it['wires'],p,it['repeat'])@U
        w=U@v; return float((w.conj()@M@w).real)
    for i,it in enumerate(items):
        for j in range(len(ps[i])):
            x=ps[i][j]; d=[]
            for h in (2e-3,1e-3):
                ps[i][j]=x+h; a=f(); ps[i][j]=x-h; b=f(); d.append((a-b)/(2*h))
            ps[i][j]=x; out.append((4*d[1]-d[0])/3)
    return out
def gen_C14(rng,tier):
    ops=[o for o in list(O.GATES)+O.LAYERS if nparams(o,[0,1,2],1)]
    for i,op in enumerate(ops*(2 if tier!='thorough' else 8)):
        N=3; k=(O.GATES[op][1] if op in O.GATES else rng.randint(2,3)); w=rng.sample(range(N),k); rep=1+(i>=len(ops)) if op=='BasicEntangleLayer' else 1
        it=dict(op=op,wires=w,params=rp(rng,nparams(op,w,rep)),repeat=rep)
        pre=[rand_item(rng,N) for _ in range(rng.randint(0,2))]; post=[rand_item(rng,N) for _ in range(rng.randint(0,2))]
        yield dict(N=N,items=pre+[it]+post,kind='random',seed=i,form=['tensor','grad','float','gradnl','one'][i%5],upd=i%3==0)
    for i in range(10 if tier!='thorough' else 80):
        N=rng.randint(1,3); yield dict(N=N,items=[rand_item(rng,N,tn=True if N==1 else None) for _ in range(rng.randint(1,5))],kind='random',seed=i,form='tensor',upd=i%2==0)
def mkcir(c):
    N=c['N']; cir=QC.Circuit(N); items=c['items']
    for it in items:
        if c.get('upd'):
            it0=dict(it,params=[0.37*(j+1) for j in range(len(it['params']))]); add_item(cir,it0,'add',c['form'])
        else: add_item(cir,it,'add',c['form'])
    if c.get('upd'):
        for g,it in zip(cir.gate,items):
            n=len(it['params'])
            if n: g.params_update(pform(it['params'],'tensor' if c['form']=='float' else c['form'],it['op'] in O.GATES and n==1))
    return cir
def gcmp(g,e,what): return close(g,np.array(e),5e-3,what)
def pcheck(cir,items):
    for i,(g,it) in enumerate(zip(cir.gate,items)):
        if it['params']:
            r=close(torch.as_tensor(g.params).reshape(-1),np.array(it['params'],dtype=np.float32),1e-5,f'parameters of operation {i} after the call')
            if r: return r
    return close(cir.U(),cir_dense(cir.nqubits,items),what='circuit unitary after the call')
def chk_C14(c):
    N=c['N']; cir=mkcir(c); v=O.state('random',N,c['seed']); r=np.random.default_rng(c['seed']); A=r.normal(size=(2**N,2**N))+1j*r.normal(size=(2**N,2**N)); M=(A+A.conj().T)/(2*2**N)
    ok=all(hasTN(it['op']) and ('ring' in it['op'] and it['wires']!=list(range(N))) for it in c['items'])
    if any('ring' in it['op'] and hasTN(it['op']) and it['wires']!=list(range(N)) for it in c['items']) and all(hasTN(it['op']) for it in c['items']): return None
    g=QC.parameter_shift(cir,ct(v).view(1,-1),ct(M)).cal_params_grad(); e=true_grad(N,c['items'],v,M)
    return gcmp(g,e,'parameter-shift gradient') or pcheck(cir,c['items'])
def gen_C15(rng,tier):
    ops=[o for o in list(O.GATES)+O.LAYERS if nparams(o,[0,1,2],1) and hasTN(o)]
    for i,op in enumerate(ops*(3 if tier!='thorough' else 10)):
        N=3; k=(O.GATES[op][1] if op in O.GATES else rng.randint(1,3)); w=rng.sample(range(N),k)
        it=dict(op=op,wires=w,params=rp(rng,nparams(op,w,1)),repeat=1)
        a=i%3; pre=[rand_item(rng,N,True) for _ in range([0,1,2][a])]; post=[rand_item(rng,N,True) for _ in range([1,0,2][a])]
        yield dict(N=N,items=pre+[it]+post,seed=i,form=['tensor','grad','gradnl','one'][(i+i//9)%4],q=rng.randrange(N),P=rng.choice('XYZ'),upd=i%4==0)
    for i in range(8):
        N=rng.randint(1,4); yield dict(N=N,items=[rand_item(rng,N,True) for _ in range(rng.randint(1,5))],seed=i,form='tensor',q=rng.randrange(N),P=rng.choice('XYZ'),upd=i%2==0)
def chk_C15(c):
    N=c['N']; cir=mkcir(c); v=O.state('random',N,c['seed']); Mo=getattr(QO,'Pauli'+c['P'])(N,c['q']); M=O.embed(O.PM[c['P']],[c['q']],N)
    if not any(it['params'] for it in c['items']): return None
    ps=QC.parameter_shift(cir,ct(v).view(1,-1),ct(M)); sd,sv=ps.save_mid_MPS(Mo); g=ps.cal_params_grad2(sd)
    return first(close(sv.reshape(-1),cir_dense(N,c['items'])@v,5e-4,'final state'),gcmp(g,true_grad(N,c['items'],v,M),'adjoint gradient'),pcheck(cir,c['items']))
# ------------------------------------------------------------------ C16
def gen_C16(rng,tier):
    ops=[o for o in list(O.GATES)+O.LAYERS if nparams(o,[0,1,2],1)]
    for i,op in enumerate(ops):
        for j in range(2 if tier!='thorough' else 8):
            N=rng.randint(2,3); k=O.GATES[op][1] if op in O.GATES else 2
            w=rng.sample(range(N),k)
            for path in ('U','C','B','M','D','upd','cir','cirN','matrix'):
                yield dict(op=op,N=N,wires=w,params=rp(rng,nparams(op,w,1)),path=path,seed=i+j,leaf=bool((i+j)%2))
    for path in ('U','C','M'): 
        for pa in 'XYZ': yield dict(op='PauliEncoding',N=3,wires=[2,0],params=[0.4,1.1],pauli=pa,path=path,seed=1,leaf=True)
    for s in range(4): yield dict(op='measure',N=2,wires=[0],params=[0.3+s],path=['m','m0','ml','e'][s],seed=s,leaf=True)
    yield dict(op='AmplitudeEncoding',N=2,wires=[0],params=[0.3,1.2,-0.4],path='A',seed=3,leaf=True)
def lossN(op,N,w,p,path,v,W,extra=None):
    if op=='PauliEncoding':
        D=np.eye(2**N,dtype=complex)
        for i,q in enumerate(w): D=O.embed(O.R(O.PM[extra],p[i%len(p)]),[q],N)@D
    else: D=dense(op,N,w,p,1)
    if path=='D': D=D.conj().T
    if path in('cir','cirN'): s=D@v; return float((s.conj()@W@s).real)
    if path in('U','D','upd'): return float((D*W).sum().real)
    if path=='matrix': return float((O.gate_mat(op,w,p)*W[:2**len(w),:2**len(w)]).sum().real)
    return float(((D@v)*W[0]).sum().real)
def numgrad(f,p):
    out=[]
    for j in range(len(p)):
        d=[]
        for h in (2e-3,1e-3):
            a=list(p);a[j]+=h;b=list(p);b[j]-=h; d.append((f(a)-f(b))/(2*h))
        out.append((4*d[1]-d[0])/3)
    return out
def chk_C16(c):
    op,N,w,p,path=c['op'],c['N'],c['wires'],c['params'],c['path']
    sc=op in O.GATES and len(p)==1
    leaf=torch.tensor(p,dtype=torch.float32,requires_grad=True); x=leaf if c['leaf'] else leaf*1.0
    par=x[0] if sc else x
    r=np.random.default_rng(c['seed']); v=O.state('random',N,c['seed']); W=r.normal(size=(2**N,2**N))+1j*r.normal(size=(2**N,2**N)); W=W+W.conj().T; Wt=ct(W)
    if op=='measure':
        g=QO.ry(par[0] if par.dim() else par,N,0); s=g.U_expand()@ct(O.state('zero',N,0)); f=lambda q:(lambda u:[float((u.conj()@O.embed(O.Z,[k],N)@u).real) for k in range(N)])(O.gate_op('ry',N,[0],q)@O.state('zero',N,0))
        if path=='e': L=QM.expval(s,ct(O.embed(O.Z,[0],N))); e=numgrad(lambda q:f(q)[0],p)
        else:
            sel={'m':None,'m0':0,'ml':[0,1]}[path]; L=QM.measure(N,s,sel).sum(); e=numgrad(lambda q:sum(f(q)[:1] if sel==0 else f(q)),p)
    elif op=='AmplitudeEncoding':
        from deepquantum.embeddings.qembedding import AmplitudeEncoding
        s=AmplitudeEncoding(N,x).encoded_state(); L=(s*Wt[0]).sum().real
        def fa(q): 
            a=np.zeros(2**N); a[:len(q)]=q; return float((a/np.linalg.norm(a)*W[0]).sum().real)
        e=numgrad(fa,p)
    else:
        if op=='PauliEncoding':
            from deepquantum.embeddings.qembedding import PauliEncoding
            g=PauliEncoding(N,x,list(w),c['pauli'])
        else:
            ww=w[0] if op in O.GATES and O.GATES[op][1]==1 else list(w)
            if op in O.GATES: mkg=lambda q:getattr(QO,op)(q,N,ww)
            else: mkg=lambda q:getattr(QL,op)(N,ww,q)
            if path=='upd': g=mkg(torch.zeros_like(par).detach()); g.params_update(par)
            else: g=mkg(par)
            tn=hasTN(op)
            if path in('C','B','M') and not tn: return None
            if path=='D' and op=='BasicEntangleLayer': return None
            if path=='matrix' and not hasattr(g,'matrix'): return None
        if path in('U','upd'): L=(g.U_expand()*Wt).sum().real
        elif path=='matrix': k=2**len(w); L=(g.matrix*Wt[:k,:k]).sum().real
        elif path=='C': L=(g.TN_contract(ct(v).view([2]*N)).reshape(-1)*Wt[0]).sum().real
        elif path=='B': L=(g.TN_contract(ct(v).view([1]+[2]*N),batch_mod=True).reshape(-1)*Wt[0]).sum().real
        elif path=='M': L=(QT.MPS2StateVec(g.TN_operation(mps_of(v,N))).reshape(-1)*Wt[0]).sum().real
        elif path=='D': L=(g.operation_dagger().U_expand()*Wt).sum().real
        else:
            cir=QC.Circuit(N); cir.add(g); L=cir.cir_expectation(ct(v).view(1,-1),Wt,TN=(path=='cir'))
        if path=='upd' and hasattr(g,'matrix') and not g.matrix.requires_grad: return 'matrix detached after a parameter update'
        e=numgrad(lambda q:lossN(op,N,w,q,path,v,W,c.get('pauli')),p)
    if not L.requires_grad: return f'result of path {path} is not connected to the parameters'
    L.backward()
    if leaf.grad is None: return f'no gradient reaches the parameters on path {path}'
    return close(leaf.grad,np.array(e),1e-2,f'gradient on path {path}')
# ------------------------------------------------------------------ C17
def gen_C17(rng,tier):
    for n in (1,2,3,4,5,8):
        for t in ('unitary','near','row','phase','perm','nonorth_last','scaled','diag_im','herm','herm_bad_im','herm_diag_im','herm_last','near_herm'): 
            for s in range(2): yield dict(k='mat',n=n,t=t,s=s)
    for n in (1,2,3,7,8):
        for t in ('norm','off','near','imag','last'): yield dict(k='vec',n=n,t=t)
    for a,b in ((1,1),(2,3),(3,2),(4,4),(1,5)): yield dict(k='dag',a=a,b=b)
    for sh in ([3],[2,2,2]): yield dict(k='dagbad',sh=sh)
    for L in (1,2,3,4,5): yield dict(k='kron',L=L)
    for sh in ([2,3],[3,2]): yield dict(k='nonsq',sh=sh)
    for sh in ([2,2],[1,1],[2,1]): yield dict(k='nonvec',sh=sh)
def chk_C17(c):
    r=np.random.default_rng(c.get('s',0)+17*c.get('n',1)); k=c['k']
    if k=='mat':
        n,t=c['n'],c['t']; Q,_=np.linalg.qr(r.normal(size=(n,n))+1j*r.normal(size=(n,n))); A=r.normal(size=(n,n))+1j*r.normal(size=(n,n)); Hh=(A+A.conj().T)/4
        m=Q.copy()
        if t=='near': m=Q*(1+2e-8)
        if t=='row': m[-1]*=1.01
        if t=='phase': m=np.exp(0.7j)*Q
        if t=='perm': m=np.eye(n)[r.permutation(n)].astype(complex)
        if t=='nonorth_last' and n>1: m[-1]=m[0]*1j
        if t=='scaled': m=Q*0.999
        if t=='diag_im': m=np.diag(np.exp(1j*r.normal(size=n)))
        if t in('herm','near_herm'): m=Hh.copy()
        if t=='near_herm' and n>1: m[0,-1]+=3e-8
        if t=='herm_bad_im' : m=Hh.copy(); m[0,-1]+=0.01j
        if t=='herm_diag_im': m=Hh.copy(); m[-1,-1]+=0.01j
        if t=='herm_last' and n>1: m=Hh.copy(); m[-1,-2]+=0.01
        eu=bool(np.abs(m@m.conj().T-np.eye(n)).max()<1e-5); eh=bool(np.abs(m-m.conj().T).max()<1e-6*0.9)
        tt=torch.tensor(m,dtype=torch.complex128); t0=tt.clone()
        if bool(QM.IsUnitary(tt))!=eu: return f'IsUnitary is {not eu} for {t} n={n}'
        if bool(QO.Operation.IsUnitary(tt))!=eu: return f'Operation.IsUnitary is {not eu} for {t} n={n}'
        if bool(QO.Observable.IsHermitian(tt))!=eh: return f'Observable.IsHermitian is {not eh} for {t} n={n}'
        if bool(QM.IsHermitian(tt))!=eh: return f'IsHermitian is {not eh} for {t} n={n}'
        if not torch.equal(tt,t0): return 'input modified'
    elif k=='vec':
        n,t=c['n'],c['t']; v=r.normal(size=n)+1j*r.normal(size=n); v/=np.linalg.norm(v)
        if t=='off': v=v*1.001
        if t=='near': v=v*(1+1e-8)
        if t=='imag': v=1j*v
        if t=='last': v[-1]+=0.01*v[-1]+0.01
        e=abs(np.sum(np.abs(v)**2)-1)<1e-6
        if bool(QM.IsNormalized(torch.tensor(v)))!=bool(e): return f'IsNormalized is {not e} for {t} n={n}'
    elif k=='dag':
        m=r.normal(size=(c['a'],c['b']))+1j*r.normal(size=(c['a'],c['b'])); t=ct(m); t0=t.clone(); e=close(QM.dag(t),m.conj().T,1e-6,'dag')
        return e or (None if torch.equal(t,t0) else 'input modified')
    elif k=='kron':
        ms=[r.normal(size=(1+(i*7+c['L'])%3,1+(i+c['L'])%3))+1j*r.normal(size=(1+(i*7+c['L'])%3,1+(i+c['L'])%3)) for i in range(c['L'])]; e=np.ones((1,1))
        for m in ms: e=np.kron(e,m)
        ts=[ct(m) for m in ms]; n0=len(ts); o=close(QM.multi_kron(ts),e,1e-4,'multi_kron')
        return o or (None if len(ts)==n0 and all(np.array_equal(npc(a),m.astype(np.complex64)) for a,m in zip(ts,ms)) else 'inputs modified')
    else:
        fs={'dagbad':[QM.dag],'nonsq':[QM.IsUnitary,QM.IsHermitian],'nonvec':[QM.IsNormalized]}[k]
        for f in fs:
            try: f(torch.ones(c['sh'])+0j)
            except Exception: continue
            return f'{f.__name__} accepted shape {c["sh"]}'
# ------------------------------------------------------------------ C18
def gen_C18(rng,tier):
    for N in range(1,5):
        for n in sorted({1,2,2**N-1,2**N,min(3,2**N)}):
            if 0<n<=2**N: yield dict(k='amp',N=N,n=n,cx=n%2==0); yield dict(k='amp',N=N,n=n,cx=n%2==1)
        yield dict(k='ampbad',N=N,n=2**N+1)
        for n in range(1,N+1):
            for w in perms(N,rng.randint(1,N),rng,4)+[list(range(N))]:
                for pa in 'XYZ': yield dict(k='pauli',N=N,p=rp(rng,n),w=w,pauli=pa)
        yield dict(k='paulibad',N=N,p=rp(rng,N+1),w=[0],pauli='X'); yield dict(k='paulibad',N=N,p=rp(rng,1),w=[0],pauli='W')
    for n in (1,2,4,8):
        for t in ('real','norm','cx','cxnorm','unit','cxunit'): yield dict(k='gram',n=n,t=t)
        for t in ('real','cx'): yield dict(k='prep',n=n,t=t)
def chk_C18(c):
    from deepquantum.embeddings import qembedding as QE, qstate as QS
    k=c['k']; r=np.random.default_rng(5)
    if k in('amp','ampbad'):
        n=c['n']; v=r.normal(size=n)+(1j*r.normal(size=n) if c.get('cx') else 0)
        t=torch.tensor(v,dtype=torch.complex64 if c.get('cx') else torch.float32); t0=t.clone()
        if k=='ampbad':
            try: QE.AmplitudeEncoding(c['N'],t)
            except Exception: return None
            return 'too long input accepted'
        A=QE.AmplitudeEncoding(c['N'],t); e=np.zeros(2**c['N'],complex); e[:n]=v/np.linalg.norm(v)
        o=close(A.encoded_state(),e,1e-4,'encoded state') or close(A.encoded_state(),e,1e-4,'encoded state (second call)')
        return o or (None if torch.equal(t,t0) else 'input modified')
    if k in('pauli','paulibad'):
        N=c['N']; t=torch.tensor(c['p'],dtype=torch.float32)
        if k=='paulibad':
            try: QE.PauliEncoding(N,t,list(c['w']),c['pauli']).U_expand()
            except Exception: return None
            return 'bad input accepted'
        E=QE.PauliEncoding(N,t,list(c['w']),c['pauli']); D=np.eye(2**N,dtype=complex)
        for i,q in enumerate(c['w']): D=O.embed(O.R(O.PM[c['pauli']],c['p'][i%len(c['p'])]),[q],N)@D
        return first(close(E.U_expand(),D,what='Pauli encoding'),tn_contract(dict(N=N,batches=[2],kinds=['random']),E,D),mps_apply(dict(N=N,kinds=['random']),E,D))
    if k=='gram':
        n,t=c['n'],c['t']; v=r.normal(size=n)+(1j*r.normal(size=n) if 'cx' in t else 0)
        if 'norm' in t: v=v/np.linalg.norm(v)
        if t=='unit': v=np.zeros(n); v[-1]=1
        if t=='cxunit': v=np.zeros(n,complex); v[0]=1j if n==1 else 0.6j; v[-1]+=0.8 if n>1 else 0
        x=torch.tensor(v.reshape(1,-1),dtype=torch.complex64 if 'cx' in t else torch.float32); g=npc(QE.gram_encoding(x))
        if g.shape!=(n,n): return f'shape {g.shape}'
        if np.abs(g-g.conj().T).max()>1e-5: return 'not Hermitian'
        if abs(np.trace(g)-1)>1e-4: return f'trace {np.trace(g)}'
        if np.linalg.eigvalsh(g).min()<-1e-5: return 'not positive semidefinite'
        return close(np.abs(g),np.abs(np.outer(v,v.conj()))/np.linalg.norm(v)**2,1e-4,'magnitudes of the encoding')
    v=r.normal(size=c['n'])+(1j*r.normal(size=c['n']) if c['t']=='cx' else 0); l=[complex(x) if c['t']=='cx' else float(x) for x in v]
    return first(close(QS.PrepareState(l),v,1e-5,'PrepareState'),close(QS.PrepareRho(l),np.outer(v,v.conj()),1e-4,'PrepareRho'))
# ------------------------------------------------------------------ C19
def gen_C19(rng,tier):
    i=0
    for (k,st,h,w,b) in ((2,2,4,4,1),(2,1,3,3,1),(2,1,2,4,2),(2,2,5,4,1),(2,3,5,6,1),(2,2,3,3,2),(2,1,4,3,1),(2,3,7,5,1),(2,4,6,6,2)):
        i+=1; yield dict(k=k,st=st,h=h,w=w,b=b,seed=i)
    yield dict(k=2,st=1,h=3,w=2,b=2,c=3,seed=17)
    yield dict(k=2,st=2,h=4,w=3,b=1,seed=18,span=[-1.5,2.5],wspan=[-9.0,15.0])
    if tier=='thorough': yield dict(k=3,st=2,h=4,w=3,b=1,seed=5)
    yield dict(k=2,bad=5); yield dict(k=2,bad=3)
def chk_C19(c):
    from deepquantum.nn.modules.quanv import QuanConv2D
    if 'bad' in c:
        try: QuanConv2D(c['bad'],1,c['k'])
        except Exception: return None
        return 'mismatching qubit count accepted'
    torch.manual_seed(c['seed']); k,st=c['k'],c['st']; n=k*k; q=QuanConv2D(n,st,k); x=torch.rand(c['b'],c.get('c',1),c['h'],c['w'])
    if 'span' in c: x=c['span'][0]+(c['span'][1]-c['span'][0])*x; q.weight.data=c['wspan'][0]+(c['wspan'][1]-c['wspan'][0])*torch.rand(3*n)
    x0=x.clone(); w0=npc(q.weight).copy()
    out=q(x); W=npc(q.weight)*q.w_mul; xs=npc(x)
    ho,wo=(c['h']-k)//st+1,(c['w']-k)//st+1; e=np.zeros((c['b'],n,ho,wo))
    A=np.eye(2**n,dtype=complex)
    for a in range(n):
        for P,j in ((O.X,0),(O.Z,1),(O.X,2)): A=O.embed(O.R(P,W[3*a+j]),[a],n)@A
    if n>1:
        for a in range(n): A=O.embed(O.ctrl(O.X),[a,(a+1)%n],n)@A
    for b in range(c['b']):
        for i in range(ho):
            for j in range(wo):
                px=xs[b,0,i*st:i*st+k,j*st:j*st+k].reshape(-1); v=np.zeros(2**n,complex); v[0]=1
                for a in range(n): v=O.embed(O.R(O.Y,math.pi*px[a]),[a],n)@v
                v=A@v
                for a in range(n): e[b,a,i,j]=(v.conj()@O.embed(O.Z,[a],n)@v).real
    o=close(out,e,1e-3,'quanvolution output')
    if not torch.equal(x,x0) or not np.array_equal(npc(q.weight),w0): o=o or 'input or weights modified'
    if len(q.M_lst)!=n: return o or 'number of observables'
    return o or first(*[close(q.M_lst[a],O.embed(O.Z,[a],n),1e-5,f'observable {a}') for a in range(n)])
# ------------------------------------------------------------------ C20
def gen_C20(rng,tier):
    for op in O.GATES:
        np_,k,_,_=O.GATES[op]
        for N in (1,2,3,4):
            for kk in ([k] if k else [2,3]):
                rngv=range(-2,N+3) if kk<3 else range(-1,N+1)
                ws=list(itertools.product(rngv,repeat=kk))
                if len(ws)>70 and tier!='thorough': ws=rng.sample(ws,70)
                for w in ws: yield dict(k='gate',op=op,N=N,wires=list(w),params=rp(rng,np_))
        yield dict(k='none',op=op,params=rp(rng,np_))
    for op in O.LAYERS:
        if op in O.LROT:
            c=len(O.LROT[op])
            for N in (1,2,3):
                for L in range(1,N+2):
                    for d in (-1,0,1,c): yield dict(k='layer',op=op,N=N,L=L,n=c*L+d,ok=(d==0 and L<=N))
        elif op=='HLayer':
            for N in (1,2,3):
                for L in range(1,N+3): yield dict(k='layer',op=op,N=N,L=L,n=0,ok=L<=N)
        elif 'ring' in op:
            for N in (1,2,3,4):
                for L in range(0,N+3): yield dict(k='layer',op=op,N=N,L=L,n=0,ok=2<=L<=N)
        else:
            for N in (1,2,3):
                for L in range(0,N+2):
                    for rep in (-1,0,1,2):
                        for d in (-3,0,1): yield dict(k='layer',op=op,N=N,L=L,n=max(0,3*L*rep+d),rep=rep,ok=(2<=L<=N and rep>=1 and d==0))
def chk_C20(c):
    if c['k']=='none':
        op=c['op']; np_,k,_,_=O.GATES[op]
        for a in ((),(3,),(-1,[0,1,2][:k or 3] if k!=1 else 0)):
            try:
                p=pform(c['params'],'tensor',np_==1) if np_ else None
                g=getattr(QO,op)(*( (() if np_==0 else (p,))+a)); g.U_expand()
            except Exception: continue
            return f'{op}{a} expanded without register or wires'
        return None
    if c['k']=='gate':
        w=c['wires']; N=c['N']; op=c['op']; inr=all(0<=x<N for x in w); 
        distinct=len(set(w))==len(w)
        if inr and not distinct and (op in('toffoli','multi_control_cnot')) and w[-1] not in w[:-1]: return None # repeated controls: unspecified
        try: U=build(op,N,w,c['params']).U_expand()
        except Exception as e:
            return f'valid wires {w} refused for N={N}: {type(e).__name__}: {e}' if inr and distinct else None
        return None if inr and distinct else f'{op} on wires {w} with N={N} returned an operator'
    op=c['op']; N,L=c['N'],c['L']; w=list(range(L)); n=c['n']; p=torch.rand(n) if n else torch.zeros(0)
    try:
        if O.lnp(op,[0,1],1)==0: getattr(QL,op)(N,w)
        elif op=='BasicEntangleLayer': getattr(QL,op)(N,w,p,c['rep'])
        else: getattr(QL,op)(N,w,p)
    except Exception as e: return f'valid layer refused: {e}' if c['ok'] else None
    return None if c['ok'] else f'{op}(N={N}, {L} wires, {n} parameters{", repeat=%s"%c.get("rep") if "rep" in c else ""}) accepted'
# ------------------------------------------------------------------ C21
LEG={'rx':(1,1,lambda t:O.R(O.X,t)),'ry':(1,1,lambda t:O.R(O.Y,t)),'rz':(1,1,lambda t:O.R(O.Z,t)),'x_gate':(1,0,lambda t:O.X),'y_gate':(1,0,lambda t:O.Y),'z_gate':(1,0,lambda t:O.Z),
 'Hadamard':(1,0,lambda t:O.H),'cnot':(2,0,lambda t:O.ctrl(O.X)),'cz':(2,0,lambda t:O.ctrl(O.Z)),'rxx':(2,1,lambda t:O.R(np.kron(O.X,O.X),t)),'ryy':(2,1,lambda t:O.R(np.kron(O.Y,O.Y),t)),'rzz':(2,1,lambda t:O.R(np.kron(O.Z,O.Z),t))}
LNAME={'x_gate':'X','y_gate':'Y','z_gate':'Z','Hadamard':'H'}
def gen_C21(rng,tier):
    for m,(k,np_,_) in LEG.items():
        for N in range(k,5):
            for i,w in enumerate(perms(N,k,rng,20)): yield dict(N=N,calls=[[m,w,rp(rng,1,i)[0],['t','f','i'][i%3]]])
    for i in range(40):
        N=rng.randint(2,4); cs=[]
        for _ in range(rng.randint(0,6)):
            m=rng.choice(list(LEG)+['mcx']); k=LEG[m][0] if m!='mcx' else rng.randint(2,N); cs.append([m,rng.sample(range(N),k),rp(rng,1,i)[0],rng.choice('tfi')])
        yield dict(N=N,calls=cs)
    for m,(k,np_,_) in LEG.items():
        for w in (([3],[-1],[4]) if k==1 else ([0,3],[3,0],[-1,0],[0,-1],[1,1],[4,1],[0,0])): yield dict(N=3,bad=[m,w])
    for w in ([0,3],[3,0],[-1,0],[0,1,1],[0,1,-1],[0,0]): yield dict(N=3,badmc=w)
    for N in (1,2,3): yield dict(N=N,meas=1)
def chk_C21(c):
    from deepquantum.gates.qgate import Circuit as LC
    N=c['N']; cir=LC(N)
    if 'bad' in c:
        m,w=c['bad']; k,np_,_=LEG[m]
        try: getattr(cir,m)(*w,*([0.3] if np_ else []))
        except Exception: return None
        return f'{m}{w} accepted on {N} qubits'
    if 'badmc' in c:
        w=c['badmc']
        try: cir.multi_control_cnot(list(w[:-1]),w[-1])
        except Exception: return None
        return f'multi_control_cnot({w[:-1]}, {w[-1]}) accepted on {N} qubits'
    if 'meas' in c:
        r=O.rho('mixed_full',N,3)
        with contextlib.redirect_stdout(io.StringIO()):
            e=[np.trace(r@O.embed(O.Z,[q],N)).real for q in range(N)]
            return first(*[close(cir.expecval_ZI(ct(r),N,q),e[q],1e-4,f'expecval_ZI({q})') for q in range(N)],close(cir.measure(ct(r),N).reshape(-1),e,1e-4,'measure'))
    U=np.eye(2**N,dtype=complex); Ul=U.copy()
    for i,(m,w,t,f) in enumerate(c['calls']):
        if m=='mcx': D=O.embed(O.ctrl(O.X,len(w)-1),w,N); cir.multi_control_cnot(list(w[:-1]),w[-1]); q=list(w)
        else:
            k,np_,mf=LEG[m]; tv=float(round(t)) if f=='i' else t; a=[] if not np_ else [torch.tensor(t) if f=='t' else (int(round(t)) if f=='i' else t)]
            getattr(cir,m)(*w,*a); D=O.embed(mf(tv),w,N); q=w[0] if k==1 else list(w)
        if len(cir.gate_list)!=i+1 or len(cir.u)!=i+1: return f'{m}: {len(cir.gate_list)} entries and {len(cir.u)} matrices after {i+1} calls'
        g=cir.gate_list[-1]
        if m!='mcx' and (g['gate']!=LNAME.get(m,m) or g['which_qubit']!=q): return f'{m}{w} recorded as {g}'
        if m!='mcx' and np_ and abs(float(g['theta'])-tv)>1e-5: return 'recorded angle'
        r=close(cir.u[-1],D,what=f'matrix of {m}{w}')
        if r: return r
        U=D@U; Ul=Ul@D
    return first(close(cir.U(),U,what='unitary'),close(cir.gate_sequence_product(left_to_right=False),Ul,what='reversed product'),close(cir.U(),U,what='unitary (again)'))
# ------------------------------------------------------------------ C22
def gen_C22(rng,tier):
    for N in range(1,6 if tier!='thorough' else 8):
        for i,a in enumerate(O.KINDS):
            b=O.KINDS[(i*2+N)%len(O.KINDS)]; yield dict(N=N,a=a,b=b,seed=i,pad=i%2*2,wires=rng.sample(range(N),rng.randint(1,N)))
        yield dict(N=N,a='product',b='product',seed=1,pad=0,wires=[N-1]); yield dict(N=N,a='zero',b='zero',seed=1,pad=0,wires=[0])
def chk_C22(c):
    N=c['N']; a=O.state(c['a'],N,c['seed']); b=O.state(c['b'],N,c['seed']+50); A=mps_of(a,N,1,c['pad']); B=mps_of(b,N,2,0)
    A0=[t.clone() for t in A]; B0=[t.clone() for t in B]; o=[]
    o.append(close(QT.MPS_inner_product(A,B),np.vdot(b,a),1e-3,'inner product')); o.append(close(QT.MPS_inner_product(A,A),np.vdot(a,a),1e-3,'squared norm'))
    r=np.random.default_rng(c['seed']); obs=[(lambda m:m+m.conj().T)(r.normal(size=(2,2))+1j*r.normal(size=(2,2))) for _ in c['wires']]
    M=np.eye(2**N,dtype=complex)
    for q,m in zip(c['wires'],obs): M=O.embed(m,[q],N)@M
    o.append(close(QT.MPS_expec(A,list(c['wires']),[ct(m) for m in obs]),(a.conj()@M@a).real,1e-3,'local expectation'))
    if len(A)!=N or len(B)!=N or any(x.shape!=y.shape or not torch.equal(x,y) for x,y in zip(A+B,A0+B0)): o.append('a given state was modified')
    return first(*o)
# ------------------------------------------------------------------ driver
def meets_pre(pid,c):
    '''a solver model is replayed only when it meets the preconditions (wires are distinct qubits of the register)'''
    N,w=c.get('N'),c.get('wires')
    if pid=='C12' and 'lst' in c and isinstance(N,int): return 1<=N<=8 and ('bad' in c or all(0<=q<N for q in c['lst']) and len(set(c['lst']))==len(c['lst']))
    if pid=='C20' or not isinstance(w,(list,tuple)) or not isinstance(N,int): return True
    return 1<=N<=10 and all(isinstance(q,int) and 0<=q<N for q in w) and len(set(w))==len(w)
def run(pid,seed,tier,budget,extra=()):
    rng=random.Random(f'{seed}-{pid}'); gen=globals()['gen_'+pid]; chk=globals()['chk_'+pid]
    t0=time.time(); n=0; fails=[]; samples=[]; keys=set(); complete=True
    with torch.no_grad() if False else contextlib.nullcontext():
        for src,c in itertools.chain((('witness',x) for x in extra),(('sweep',x) for x in gen(rng,tier))):
            if time.time()-t0>budget: complete=False; break
            if src=='witness' and not meets_pre(pid,c): continue
            try:
                with contextlib.redirect_stdout(io.StringIO()): r=chk(c)
            except Exception as e:
                tb=traceback.extract_tb(e.__traceback__); where=[f'{os.path.relpath(f.filename,"/repo")}:{f.lineno}' for f in tb if '/repo/' in f.filename]
                r=f'raised {type(e).__name__}: {e} at {where[-1:] or "replay harness"}'
            n+=1; k=json.dumps(c,sort_keys=True); keys.add(k)
            if n%97==1 and len(samples)<5: samples.append(c)
            if r:
                fails.append(dict(case=c,detail=r,source=src))
                if len(fails)>=5: break
    return dict(property=pid,evaluations=n,distinct=len(keys),fails=fails,samples=samples,complete=complete,wall=time.time()-t0)
if __name__=='__main__':
    import argparse
    a=argparse.ArgumentParser(); a.add_argument('pid'); a.add_argument('--seed',type=int,default=1); a.add_argument('--tier',default='quick'); a.add_argument('--budget',type=float,default=60); a.add_argument('--case'); a.add_argument('--extra'); a.add_argument('--out')
    x=a.parse_args()
    import deepquantum; assert os.path.realpath(deepquantum.__file__).startswith(os.environ.get('DV_REPO','/repo')+'/'),deepquantum.__file__
    if x.case:
        d=json.load(open(x.case)); c=d.get('case',d); 
        try: r=globals()['chk_'+x.pid](c)
        except Exception as e: r=f'raised {type(e).__name__}: {e}'; traceback.print_exc()
        print('FAILS: '+r if r else 'holds'); sys.exit(1 if r else 0)
    extra_cases=json.load(open(x.extra)) if x.extra else []
    res=run(x.pid,x.seed,x.tier,x.budget,extra_cases)
    js=json.dumps(res,default=str)
    if x.out: open(x.out,'w').write(js)
    else: print(js)
