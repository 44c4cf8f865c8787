"""Independent numpy oracle: textbook matrices and their embedding, states, reductions.
Shares no code with /repo and none with /verif/dv."""
import numpy as np, itertools, math
I2=np.eye(2,dtype=complex); X=np.array([[0,1],[1,0]],dtype=complex); Y=np.array([[0,-1j],[1j,0]]); Z=np.diag([1,-1]).astype(complex)
H=np.array([[1,1],[1,-1]],dtype=complex)/math.sqrt(2)
def R(P,t): return math.cos(t/2)*np.eye(P.shape[0])-1j*math.sin(t/2)*P
def U1(t): return np.diag([1,np.exp(1j*t)])
def U3(p):
    th,ph,la=p
    return R(Z,ph)@R(X,-math.pi/2)@R(Z,th)@R(X,math.pi/2)@R(Z,la)
def ctrl(U,n=1):
    d=U.shape[0]; k=d*(2**n); M=np.eye(k,dtype=complex); M[-d:,-d:]=U; return M
SW=np.eye(4)[[0,2,1,3]].astype(complex)
# name -> (number of params, number of wires, p -> matrix, supports TN)
GATES={
 'Hadamard':(0,1,lambda p:H,True),'PauliX':(0,1,lambda p:X,True),'PauliY':(0,1,lambda p:Y,True),'PauliZ':(0,1,lambda p:Z,True),
 'rx':(1,1,lambda p:R(X,p[0]),True),'ry':(1,1,lambda p:R(Y,p[0]),True),'rz':(1,1,lambda p:R(Z,p[0]),True),
 'u1':(1,1,lambda p:U1(p[0]),True),'u3':(3,1,lambda p:U3(p),True),
 'rxx':(1,2,lambda p:R(np.kron(X,X),p[0]),True),'ryy':(1,2,lambda p:R(np.kron(Y,Y),p[0]),True),'rzz':(1,2,lambda p:R(np.kron(Z,Z),p[0]),True),
 'cnot':(0,2,lambda p:ctrl(X),True),'cz':(0,2,lambda p:ctrl(Z),True),'cphase':(1,2,lambda p:ctrl(U1(p[0])),True),
 'cu3':(3,2,lambda p:ctrl(U3(p)),True),'SWAP':(0,2,lambda p:SW,True),'toffoli':(0,3,lambda p:ctrl(X,2),True),
 'multi_control_cnot':(0,None,None,False)}
def embed(G,wires,N):
    """dense operator of G acting on wires (in that order) of N qubits, wire 0 most significant."""
    k=len(wires); T=np.eye(2**N,dtype=complex).reshape([2]*(2*N))
    Gt=np.asarray(G,dtype=complex).reshape([2]*(2*k))
    T=np.tensordot(Gt,T,axes=(list(range(k,2*k)),list(wires)))
    rest=[i for i in range(N) if i not in wires]
    order=list(wires)+rest
    inv=[order.index(i) for i in range(N)]+list(range(N,2*N))
    return T.transpose(inv).reshape(2**N,2**N)
def gate_op(name,N,wires,p):
    if name=='multi_control_cnot': G=ctrl(X,len(wires)-1)
    else: G=GATES[name][2](p)
    return embed(G,wires,N)
def gate_mat(name,wires,p):
    return ctrl(X,len(wires)-1) if name=='multi_control_cnot' else GATES[name][2](p)
LROT={'XYZLayer':'XYZ','ZYXLayer':'ZYX','YZYLayer':'YZY','XZXLayer':'XZX','XZLayer':'XZ','ZXLayer':'ZX'}
PM={'X':X,'Y':Y,'Z':Z}
def layer_op(name,N,wires,p,repeat=1):
    D=np.eye(2**N,dtype=complex)
    if name in LROT:
        s=LROT[name]; c=len(s)
        for i,w in enumerate(wires):
            for j,a in enumerate(s): D=embed(R(PM[a],p[c*i+j]),[w],N)@D
    elif name=='HLayer':
        for w in wires: D=embed(H,[w],N)@D
    elif name in('ring_of_cnot','ring_of_cnot2','ring_of_cnot_dagger'):
        L=len(wires); st=2 if name=='ring_of_cnot2' else 1
        if L==2: prs=[(wires[0],wires[1])]
        else: prs=[(wires[i],wires[(i+st)%L]) for i in range(L)]
        if name=='ring_of_cnot_dagger': prs=prs[::-1]
        for c,t in prs: D=embed(ctrl(X),[c,t],N)@D
    elif name=='BasicEntangleLayer':
        L=3*len(wires)
        for r in range(repeat):
            D=layer_op('ring_of_cnot',N,wires,[])@layer_op('YZYLayer',N,wires,p[r*L:(r+1)*L])@D
    else: raise KeyError(name)
    return D
LAYERS=list(LROT)+['HLayer','ring_of_cnot','ring_of_cnot_dagger','ring_of_cnot2','BasicEntangleLayer']
LTN={n:(n not in('ring_of_cnot2','BasicEntangleLayer')) for n in LAYERS}
def lnp(name,wires,repeat=1):
    if name in LROT: return len(LROT[name])*len(wires)
    if name=='BasicEntangleLayer': return 3*len(wires)*repeat
    return 0
def state(kind,N,seed,batch=None):
    r=np.random.default_rng(seed+1000*N+hash(kind)%1 )
    d=2**N
    if kind=='random': v=r.normal(size=d)+1j*r.normal(size=d); v/=np.linalg.norm(v)
    elif kind=='unnorm': v=3*(r.normal(size=d)+1j*r.normal(size=d))
    elif kind=='zero': v=np.zeros(d,complex); v[0]=1
    elif kind=='basis': v=np.zeros(d,complex); v[r.integers(d)]=1
    elif kind=='ghz': v=np.zeros(d,complex); v[0]=1/math.sqrt(2); v[-1]+=1/math.sqrt(2) ; v/=np.linalg.norm(v)
    elif kind=='product':
        v=np.ones(1,complex)
        for _ in range(N): v=np.kron(v,r.normal(size=2)+1j*r.normal(size=2))
        v/=np.linalg.norm(v)
    elif kind=='sparse':
        v=np.zeros(d,complex); k=max(1,d//4); ix=r.choice(d,k,replace=False); v[ix]=r.normal(size=k)+1j*r.normal(size=k); v/=np.linalg.norm(v)
    elif kind=='w':
        v=np.zeros(d,complex)
        for i in range(N): v[1<<i]=1
        v/=np.linalg.norm(v)
    elif kind=='bell':   # far-apart pairs
        v=np.zeros(d,complex)
        v[0]=1; m=1|(1<<(N-1)); v[m]=1j; v/=np.linalg.norm(v)
    return v
def weak(N,seed):
    """a product state plus a small entangled part: one large and several small (but not negligible) Schmidt values"""
    r=np.random.default_rng(seed+31*N); v=state('product',N,seed)
    for a in (8e-4,3e-3)[seed%2:] or (8e-4,): v=v+a*state('random',N,seed+3)
    return v/np.linalg.norm(v)
KINDS=['random','zero','basis','ghz','product','sparse','unnorm','w','bell']
def rho(kind,N,seed):
    r=np.random.default_rng(seed+77*N); d=2**N
    if kind in KINDS:
        v=state(kind,N,seed); v=v/np.linalg.norm(v); return np.outer(v,v.conj())
    if kind=='mixed_full':
        A=r.normal(size=(d,d))+1j*r.normal(size=(d,d)); A=A@A.conj().T; return A/np.trace(A)
    if kind=='mixed_rank2':
        a=state('random',N,seed);b=state('sparse',N,seed+5); A=0.7*np.outer(a,a.conj())+0.3*np.outer(b,b.conj()); return A
    if kind=='maxmixed': return np.eye(d,dtype=complex)/d
    if kind=='diag': p=r.random(d); return np.diag(p/p.sum()).astype(complex)
    if kind=='prodmix':
        A=np.ones((1,1),complex)
        for _ in range(N):
            B=r.normal(size=(2,2))+1j*r.normal(size=(2,2)); B=B@B.conj().T; A=np.kron(A,B/np.trace(B))
        return A
    if kind=='unittrace':  # non-Hermitian but unit trace
        A=r.normal(size=(d,d))+1j*r.normal(size=(d,d)); return A/np.trace(A)
RKINDS=['random','ghz','product','sparse','mixed_full','mixed_rank2','maxmixed','diag','prodmix']
def ptrace(rh,N,trace):
    T=rh.reshape([2]*(2*N)); keep=[i for i in range(N) if i not in trace]
    perm=keep+list(trace)+[N+i for i in keep]+[N+i for i in trace]
    dk,dt=2**len(keep),2**len(trace)
    return np.einsum('abcb->ac',T.transpose(perm).reshape(dk,dt,dk,dt))
