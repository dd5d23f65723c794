# Cornish-Fisher (Edgeworth inverse) for Binomial with continuity & Sheppard: find x(w) s.t. P(X<=x-1/2 lattice) = Phi(w)
import sympy as sp
w,p,s,t=sp.symbols('w p s t')
q=1-p
# cumulants of X + U(-1/2,1/2): smooth density; cumulant k_r of binomial + uniform cumulants B_r/r
# with npq = s^2 ; binomial cumulants: k1=np, k_{r+1}=pq d k_r/dp
n=s**2/(p*q)
P=sp.symbols('P')
kap=[None]
e=n_=sp.symbols('N')
k=n_*P
ks=[]
for r in range(1,9):
    ks.append(sp.factor(k.subs(P,p).subs(n_,s**2/(p*q))))
    k=P*(1-P)*sp.diff(k,P)
# P(X<=m)=P(X+U<=m+1/2) exactly with U in (-1/2,1/2)
ks=[sp.expand(x) for x in ks]
for r in range(2,9,2):
    ks[r-1]-= sp.bernoulli(r)/r
# Standardise with respect to s: Z=(Y-np)/s, cumulants l_r=k_r/s^r; l_2=1+1/(12 s^2)
# epsilon=1/s. Edgeworth: Phi(w)=F_Z(z). Solve z=w+sum eps^i z_i(w)
eps=sp.symbols('e')
l={r: sp.expand((ks[r-1]/s**r).subs(s,1/eps)) for r in range(2,9)}
l={r: sp.simplify(v) for r,v in l.items()}
# F_Z(z)=exp(sum_r>=2 (l_r - delta_r2) (-D)^r/r!) Phi(z)
# operator expansions in eps to order 5
N=5
D=sp.symbols('D')
expo=sum((l[r]-(1 if r==2 else 0))*(-D)**r/sp.factorial(r) for r in range(2,9))
expo=sp.expand(sp.series(sp.expand(expo),eps,0,N+1).removeO())
ser=sp.Integer(1); term=sp.Integer(1)
for i in range(1,N+1):
    term=sp.expand(term*expo)
    term=sum(term.coeff(eps,j)*eps**j for j in range(0,N+1))
    ser+=term/sp.factorial(i)
ser=sp.expand(ser)
# D^k Phi = (-1)^(k-1) He_{k-1}(z) phi(z)
def He(n):
    x=w
    return sp.expand(sp.exp(x**2/2)*(-1)**n*sp.diff(sp.exp(-x**2/2),x,n)).simplify() if n>0 else sp.Integer(1)
H={i: sp.expand(He(i)) for i in range(0,20)}
# correction c(z): F=Phi(z)+phi(z)*G(z,eps)
G=0
poly=sp.Poly(ser,D,eps)
for (d,j),c in poly.terms():
    if d>0: G+= c*eps**j*(-1)**(d-1)*H[d-1]
G=sp.expand(G)
# find z=w+delta : Phi(w+delta)+phi(w+delta)G(w+delta)=Phi(w)
# Phi(w+d)-Phi(w)=phi(w)*sum d^k/k! (-1)^(k-1)He_{k-1}(w)
# phi(w+d)/phi(w)=sum d^k/k! (-1)^k He_k(w)
zs=[sp.symbols('z%d'%i) for i in range(1,N+1)]
delta=0; 
def trunc(e,n):
    e=sp.expand(e); return sum(e.coeff(eps,j)*eps**j for j in range(n+1))
d=sp.Integer(0)
for order in range(1,N+1):
    # evaluate residual at order with current d
    dk=[sp.Integer(1)]
    for i in range(order): dk.append(trunc(dk[-1]*d,order))
    A=sum(dk[k_]/sp.factorial(k_)*(-1)**(k_-1)*H[k_-1] for k_ in range(1,order+1))
    R=sum(dk[k_]/sp.factorial(k_)*(-1)**k_*H[k_] for k_ in range(0,order+1))
    Gs=sum(dk[k_]/sp.factorial(k_)*sp.diff(G,w,k_) for k_ in range(0,order+1))
    res=trunc(A+trunc(R,order)*trunc(Gs,order),order)
    d=d-sp.expand(res.coeff(eps,order))*eps**order
d=sp.expand(d)
out=[]
for j in range(1,N+1):
    print('sigma^-%d:'%(j-1), sp.collect(sp.factor(d.coeff(eps,j)) if j<3 else sp.expand(d.coeff(eps,j)),w,sp.factor))
