"""Executable side of the contracts: reference state, generators, observation.

A *spec* is a plain Python literal describing how a network is built through the
public interface; `build` executes it on the real library, `Ref` is the abstract
state (nodes, layers, node-layers, weighted edges) the contracts talk about.
"""
import itertools,random,sys,os
sys.path.insert(0,os.environ.get("VERIF_REPO","/repo"))
os.environ.setdefault("MPLBACKEND","Agg")
import warnings; warnings.filterwarnings("ignore")
import pymnet
from pymnet import net as pnet

class Violation(Exception): pass
def require(c,*msg):
    if not c: raise Violation(" ".join(str(m) for m in msg))

def eqv(a,b):
    try:
        return a==b or (a is b)
    except Exception: return a is b
def close(a,b,tol=1e-9):
    if a is None or b is None: return a is b
    return abs(a-b)<=tol*max(1.0,abs(a),abs(b))

# ---------------------------------------------------------------- reference
class Ref(object):
    def __init__(s,spec):
        s.kind=spec["kind"]; s.aspects=spec["aspects"]; s.directed=spec["directed"]
        s.noEdge=spec.get("noEdge",0); s.fic=spec["fic"] if s.aspects>0 else True
        s.couplings=spec.get("couplings")
        s.slices=[set() for _ in range(s.aspects+1)]
        s._nls=set(); s.e={}
    def clone(s):
        import copy; return copy.deepcopy(s)
    # --- operations
    def add_layer(s,l,a):
        s.slices[a].add(l)
    def add_node(s,n,layer=None):
        s.slices[0].add(n)
        if layer is not None and not s.fic:
            for a,l in enumerate(layer): s.slices[a+1].add(l)
            s._nls.add((n,)+tuple(layer))
    def set(s,n1,n2,w):
        for n in (n1,n2):
            for a,x in enumerate(n): s.slices[a].add(x)
            if not s.fic: s._nls.add(n)
        if eqv(w,s.noEdge):
            s.e.pop((n1,n2),None)
            if not s.directed: s.e.pop((n2,n1),None)
        else:
            s.e[(n1,n2)]=w
            if not s.directed: s.e[(n2,n1)]=w
    # --- observations
    def grid(s): return set(itertools.product(*s.slices))
    def nls(s): return s.grid() if s.fic else set(s._nls)
    def coupling(s,n1,n2):
        """weight of the coupling edge or None; both node-layers must exist"""
        d=[i for i in range(s.aspects+1) if n1[i]!=n2[i]]
        if s.kind!="mx" or len(d)!=1 or d[0]==0: return None
        pol=s.couplings[d[0]-1]
        if pol[0]=="none": return None
        w=pol[1] if len(pol)>1 else 1.0
        if pol[0]=="categorical": return w
        if pol[0]=="ordinal": return w if abs(n1[d[0]]-n2[d[0]])==1 else None
        raise Exception(pol)
    def W(s,n1,n2):
        if (n1,n2) in s.e: return s.e[(n1,n2)]
        if s.kind=="mx":
            nls=s.nls()
            if n1 in nls and n2 in nls:
                c=s.coupling(n1,n2)
                if c is not None: return c
        return s.noEdge
    def edges(s):
        """all edges as dict (n1,n2)->w, both orientations when undirected"""
        r=dict(s.e)
        if s.kind=="mx":
            nls=s.nls()
            for n1 in nls:
                for n2 in nls:
                    c=s.coupling(n1,n2)
                    if c is not None and not eqv(c,s.noEdge): r[(n1,n2)]=c
        return r
    def content(s):
        return (s.kind,s.aspects,s.directed,s.noEdge,s.fic,tuple(frozenset(x) for x in s.slices),frozenset(s.nls()),frozenset(s.edges().items()))

def apply_ref(r,op):
    k=op[0]
    if k in("set","seti","setA"): r.set(op[1],op[2],op[3])
    elif k=="add_node": r.add_node(op[1])
    elif k=="add_nl": r.add_node(op[1][0],op[1][1:])
    elif k=="add_layer": r.add_layer(op[1],op[2])
    else: raise Exception(op)
def ref(spec):
    r=Ref(spec)
    for op in spec["ops"]: apply_ref(r,op)
    return r

# ---------------------------------------------------------------- real network
def interleave(n1,n2): return fresh(tuple(itertools.chain(*zip(n1,n2))))
def short_ok(n1,n2): return n1[1:]==n2[1:]
def key(t): return t if len(t)!=1 else t[0]
def nlkey(net,nl): return nl if net.aspects>0 else nl[0]
def new(spec):
    if spec["kind"]=="ml":
        return pymnet.MultilayerNetwork(aspects=spec["aspects"],noEdge=spec.get("noEdge",0),directed=spec["directed"],fullyInterconnected=spec["fic"])
    return pymnet.MultiplexNetwork(couplings=list(spec["couplings"]),directed=spec["directed"],noEdge=spec.get("noEdge",0),fullyInterconnected=spec["fic"])
def write(net,n1,n2,w,form):
    """assign through one of the accepted index forms (falls back to the full form)"""
    d=net.aspects
    if form==1 and short_ok(n1,n2): net[(n1[0],n2[0])+n1[1:]]=w
    elif form==2: net[nlkey(net,n1)][nlkey(net,n2)]=w
    else: net[interleave(n1,n2)]=w
def fresh(x):
    """an equal object which is not the same object, where Python allows it"""
    if type(x) is str: return "".join(list(x)) if len(x)!=1 else x
    if type(x) is float: return float(repr(x))
    if type(x) is int: return int(str(x))
    if type(x) is tuple: return tuple([fresh(y) for y in x])
    return x
def apply_real(net,op):
    op=(op[0],)+tuple(fresh(x) for x in op[1:])
    k=op[0]
    if k in("set","seti"): write(net,op[1],op[2],op[3],op[4] if len(op)>4 else 0)
    elif k=="setA":
        L=op[1][1:]; A=net.A[L[0] if net.aspects==1 else L]
        A[op[1][0],op[2][0]]=op[3]
    elif k=="add_node": net.add_node(op[1])
    elif k=="add_nl":
        L=op[1][1:]; net.add_node(op[1][0],layer=(L[0] if len(L)==1 else (list(L) if len(op)>2 and op[2] else tuple(L))))
    elif k=="add_layer": net.add_layer(op[1],op[2])
    else: raise Exception(op)
def build(spec):
    net=new(spec)
    for op in spec["ops"]: apply_real(net,op)
    return net

def read_nls(net):
    out=list(net.iter_node_layers())
    return out
def readW(net,n1,n2): return net[interleave(n1,n2)]
def snapshot(net):
    """complete observable content, read through the public interface"""
    sl=tuple(frozenset(x) for x in net.slices)
    g=list(itertools.product(*net.slices))
    nls=frozenset(net.iter_node_layers())
    if not net.fullyInterconnected and isinstance(net,pymnet.MultiplexNetwork): g=list(nls)
    e={}
    for n1 in g:
        for n2 in g:
            w=readW(net,n1,n2)
            if not eqv(w,net.noEdge): e[(n1,n2)]=w
    ls=None
    if isinstance(net,pymnet.MultiplexNetwork):
        ls=tuple(sorted((repr(l),frozenset(net.A[l]),) for l in net.A))
    return (type(net).__name__,net.aspects,net.directed,repr(net.noEdge),net.fullyInterconnected,sl,nls,frozenset((k,w) for k,w in e.items()),ls,
            repr(getattr(net,"couplings",None)))
def degsnap(net):
    """degrees and strengths of all node-layers (catches corrupted internal counters)"""
    out=[]
    for nl in sorted(net.iter_node_layers(),key=repr):
        v=net[nlkey(net,nl)]
        out.append((nl,v.deg(),v.deg_in(),v.deg_out(),v.deg_total(),tuple(sorted(map(repr,v)))))
    return tuple(out)
def content(net):
    s=snapshot(net)
    kind="mx" if isinstance(net,pymnet.MultiplexNetwork) else "ml"
    return (kind,net.aspects,net.directed,net.noEdge,net.fullyInterconnected,s[5],s[6],s[7])
def check_content(net,r,what,kind=True):
    """the real network has exactly the content of the reference"""
    if kind:
        require(isinstance(net,pymnet.MultiplexNetwork)==(r.kind=="mx"),what,": wrong kind of network",type(net))
    require(net.aspects==r.aspects,what,": aspects",net.aspects,r.aspects)
    require(bool(net.directed)==bool(r.directed),what,": directed flag")
    require(bool(net.fullyInterconnected)==bool(r.fic),what,": fullyInterconnected flag")
    for a in range(r.aspects+1):
        require(set(net.slices[a])==r.slices[a],what,": elementary layers of aspect",a,"are",net.slices[a],"expected",r.slices[a])
    nls=list(net.iter_node_layers())
    require(len(nls)==len(set(nls)) and set(nls)==r.nls(),what,": node-layers",nls,"expected",r.nls())
    check_edges(net,r,what)
def check_edges(net,r,what):
    E=r.edges(); g=sorted(r.nls() if (r.kind=="mx" and not r.fic) else r.grid(),key=repr)
    for n1 in g:
        for n2 in g:
            w=readW(net,n1,n2); x=E.get((n1,n2),r.noEdge)
            require(eqv(w,x),what,": edge",n1,n2,"reads",w,"expected",x)
    L=list(net.edges); seen={}
    for e in L:
        n1=(e[0],)+tuple(e[2:-1][0::2]); n2=(e[1],)+tuple(e[2:-1][1::2])
        require((n1,n2) in E and eqv(E[(n1,n2)],e[-1]),what,": listed edge",e,"is not an edge with that weight")
        k=(n1,n2) if r.directed else frozenset((n1,n2))
        require(k not in seen,what,": edge listed twice",e); seen[k]=1
    want=set(E) if r.directed else set(frozenset(k) for k in E)
    require(set(seen)==want,what,": edges missing from the list",want-set(seen))
    for n1 in g:
        v=net[nlkey(net,n1)]
        outn=[tuple(x) if r.aspects>0 else (x,) for x in v.iter_out()]
        require(sorted(map(repr,outn))==sorted(repr(b) for (a,b) in E if a==n1),what,": out-neighbours of",n1,outn)
        require(v.deg_out()==len(outn),what,": out-degree of",n1)

# ---------------------------------------------------------------- generators
HINTS={"nums":[],"strs":[]}
NODEPOOLS=[[0,1,2,3,4],[1,2,3,4,5,6,7],["a","b","c","d"],["x","y","z"],[1,"one",2.5,(7,8)],list(range(-3,9)),list(range(14)),[1000,1001,1002,7777],["node1","node2","node3"]]
LAYERPOOLS=[["A","B","C"],[0,1,2],["l1","l2"],[1,2,3,4],["X"],[("t",1),"u"],[-1,0,1],[10,20,"q"],[300,301,302],["layer1","layer2"]]
def rweights(rng,kind,noEdge):
    ws={"pos":[1,2,3,0.5,7],"one":[1],"num":[1,2,-1,0.5,3,-2.5,10**6,1e-3,0,-7],"any":[1,2,"w",(1,2),-1,0.25,None,True]}[kind]
    ws=[w for w in ws if kind not in("pos","one") or w!=noEdge]
    if kind in("num",) and HINTS["nums"] and rng.random()<.3: ws=ws+rng.sample(HINTS["nums"],min(4,len(HINTS["nums"])))
    if kind=="pos" and HINTS["nums"] and rng.random()<.2: ws=ws+[abs(x) for x in rng.sample(HINTS["nums"],min(3,len(HINTS["nums"]))) if x!=0 and x!=noEdge]
    return ws
def pick_nodes(rng,n=None,sortable=False,ints=False):
    while True:
        p=rng.choice(NODEPOOLS)
        if ints: p=NODEPOOLS[0]
        if sortable and p is NODEPOOLS[4]: continue
        break
    p=list(p)
    if HINTS["strs"] and isinstance(p[0],str) and rng.random()<.2: p=p+rng.sample(HINTS["strs"],1)
    if HINTS["nums"] and all(type(x) is int for x in p) and rng.random()<.15: p=p+[x for x in rng.sample(HINTS["nums"],min(2,len(HINTS["nums"]))) if type(x) is int and x not in p]
    k=n if n else rng.choice([1,2,2,3,3,4,5,6,8])
    rng.shuffle(p)
    return p[:max(1,min(k,len(p)))]
def pick_layers(rng,aspects,ordinal=(),sortable=False,maxl=3):
    out=[]
    for a in range(aspects):
        while True:
            p=LAYERPOOLS[1] if a in ordinal and rng.random()<.5 else rng.choice(LAYERPOOLS)
            if a in ordinal and not all(type(x) is int for x in p): continue
            if sortable and (p is LAYERPOOLS[5] or p is LAYERPOOLS[7]): continue
            break
        p=list(p); rng.shuffle(p); out.append(p[:rng.choice([1,2,2,maxl])])
    return out
def rand_spec(rng,kind=None,aspects=None,directed=None,fic=None,noEdge=None,weights="num",couplings=None,sortable=False,nops=None,selfedges=True,removals=True,nn=None,prelayers=False,interlayer=True,pairs="mix",unsets=True,tuplelayers=True):
    kind=kind or rng.choice(["ml","ml","mx"])
    if aspects is None: aspects=rng.choice([0,0,1,1,1,1,2,2,3,4]) if kind=="ml" else rng.choice([1,1,1,1,2,2,2,3])
    elif isinstance(aspects,(list,tuple)): aspects=rng.choice(list(aspects))
    directed=rng.random()<.5 if directed is None else directed
    fic=rng.random()<.5 if fic is None else fic
    if noEdge is None: noEdge=rng.choice([0,0,0,-1])
    elif isinstance(noEdge,(list,tuple)): noEdge=rng.choice(list(noEdge))
    spec={"kind":kind,"aspects":aspects,"directed":directed,"noEdge":noEdge,"fic":fic,"ops":[]}
    ordinal=()
    if kind=="mx":
        if couplings is None:
            cs=[]
            for a in range(aspects):
                c=rng.choice(["categorical","ordinal","none"])
                cs.append(("none",) if c=="none" else (c,rng.choice([1.0,1.0,2,0.5])))
            couplings=cs
        elif callable(couplings): couplings=couplings(rng,aspects)
        spec["couplings"]=couplings
        ordinal=[a for a,c in enumerate(couplings) if c[0]=="ordinal"]
    nodes=pick_nodes(rng,nn,sortable); layers=pick_layers(rng,aspects,ordinal,sortable)
    if aspects==0 or kind=="mx": nodes=[x for x in nodes if not isinstance(x,tuple)] or [0]
    if aspects==1 or not tuplelayers: layers=[[x for x in l if not isinstance(x,tuple)] or ["u"] for l in layers]
    ws=rweights(rng,weights,noEdge)
    if not ws: ws=[1]
    grid=list(itertools.product(nodes,*layers)); rng.shuffle(grid)
    ops=spec["ops"]
    if prelayers or rng.random()<.4:
        for a in range(aspects):
            for l in layers[a]: ops.append(("add_layer",l,a+1))
    n=nops if nops is not None else rng.choice([0,1,2,3,5,8,12,20,30])
    have=set()
    for _ in range(n):
        x=rng.random()
        if x<.08: ops.append(("add_node",rng.choice(nodes)))
        elif x<.13 and aspects>0: a=rng.randrange(aspects); ops.append(("add_layer",rng.choice(layers[a]),a+1))
        elif x<.22 and aspects>0: ops.append(("add_nl",rng.choice(grid),rng.random()<.3))
        else:
            if have and rng.random()<.3:
                n1,n2=rng.choice(sorted(have,key=repr))
                if rng.random()<.4: n1,n2=n2,n1
            else:
                n1=rng.choice(grid)
                if kind=="mx" or (aspects and rng.random()<.5) or not interlayer: n2=(rng.choice(nodes),)+n1[1:]
                else: n2=rng.choice(grid)
            if n1==n2 and (kind=="mx" or not selfedges): continue
            if removals and have and rng.random()<.2: w=noEdge
            else: w=rng.choice(ws)
            if eqv(w,noEdge) and not removals: continue
            have.add((n1,n2))
            ops.append(("set",n1,n2,w,rng.choice([0,0,1,2])))
    return spec
def shuffle_build(rng,r,spec):
    """another history with the same final content"""
    s={k:v for k,v in spec.items() if k!="ops"}; ops=[]
    for a in range(1,r.aspects+1):
        for l in r.slices[a]: ops.append(("add_layer",l,a))
    for n in r.slices[0]: ops.append(("add_node",n))
    if not r.fic:
        for nl in r._nls: ops.append(("add_nl",nl,False))
    for (n1,n2),w in r.e.items():
        if rng.random()<.3: ops.append(("set",n1,n2,7 if not eqv(r.noEdge,7) else 8,0)); 
        ops.append(("set",n1,n2,w,rng.choice([0,1,2])))
    pre=[o for o in ops if o[0]!="set"]; sets=[o for o in ops if o[0]=="set"]
    rng.shuffle(pre)
    # keep order of duplicates: shuffle by edge groups
    groups={}
    for o in sets: groups.setdefault((o[1],o[2]),[]).append(o)
    if not r.directed:
        g2={}
        for k,v in groups.items(): g2.setdefault(tuple(sorted(k,key=repr)),[]).extend(v)
        groups=g2
    gl=list(groups.values()); rng.shuffle(gl)
    s["ops"]=pre+[o for g in gl for o in g]
    return s
