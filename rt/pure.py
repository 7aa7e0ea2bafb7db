"""Bounded companion of the frame conditions (C14): no function changes its arguments, results share no storage."""
from core import *
from trans import dense,selections
import copy,tempfile,shutil
from pymnet import nx as NX
from pymnet import cc as CC, diagnostics as D, models as M, netio as IO, transforms as T
from pymnet.sampling import esu as ESU, dumb as DUMB, reqs as REQS
from pymnet.isomorphisms import nxbackend as NB
import importlib
GM=importlib.import_module("pymnet.graphlets.graphlet_measures"); LA=importlib.import_module("pymnet.visuals.layouts")

def any_(r): return True
def mx(r): return r.kind=="mx"
def mx1(r): return r.kind=="mx" and r.aspects==1
def mono(r): return r.aspects==0 and not r.directed
def und(r): return not r.directed
def a1(r): return r.aspects==1
def und1(r): return r.aspects==1 and not r.directed
def asp(r): return r.aspects>=1
def srt(r): return all(type(x) is int for s in r.slices for x in s)
def node(c): return c.rng.choice(c.nodes)
def layer(c,a=1): return c.rng.choice(c.layers[a-1])
class Ctx(object): pass

def tmp(f):
    def g(c):
        d=tempfile.mkdtemp(prefix="vp_c14_")
        try: return f(c,d)
        finally: shutil.rmtree(d)
    return g
def names(c):
    n={x:"r%r"%(x,) for x in c.nodes if c.rng.random()<.6}; l=[{x:"L%r"%(x,) for x in L if c.rng.random()<.6} for L in c.layers]
    return c.p(n),c.p(l)
def relabel(c):
    n,l=names(c); k=c.rng.random()
    if k<.2: return T.relabel(c.net,nodeNames=n)
    if k<.4: return T.relabel(c.net,layerNames=(l if c.r.aspects!=1 else c.p(l[0])))
    return T.relabel(c.net,n,l if c.r.aspects!=1 else c.p(l[0]))
def query(c):
    net=c.net; out=[]
    for nl in c.rng.sample(c.nls,min(4,len(c.nls))):
        v=net[nlkey(net,nl)]
        out.append([list(v),list(v.iter_in()),list(v.iter_out()),list(v.iter_total()),v.deg(),v.deg_in(),v.deg_out(),v.deg_total(),nl[0] in net])
        try: out.append([v.str(),v.str_in(),v.str_out(),v.str_total()])
        except Exception: pass
        for n2 in c.rng.sample(c.nls,min(4,len(c.nls))): out.append(readW(net,nl,n2))
        x=[slice(None) if c.rng.random()<.5 else y for y in nl]
        try:
            u=net[interleave(nl,tuple(x))]; list(u); u.deg()
        except Exception: pass
    out+=[list(net.edges),len(net.edges),list(net),len(net),list(net.iter_nodes()),list(net.iter_node_layers())]
    for a in range(c.r.aspects+1): out+=[list(net.get_layers(a)) if a or True else 0,list(net.iter_layers(a)) if a else 0]
    if c.r.aspects==1:
        for l in c.layers[0]: out.append(list(net.iter_nodes(layer=l)))
    # names that do not exist
    u=tuple("?none" for _ in range(c.r.aspects+1))
    for f in(lambda:net[nlkey(net,u)].deg(),lambda:list(net[nlkey(net,u)]),lambda:readW(net,u,c.nls[0]) if c.nls else 0,lambda:"?none" in net):
        try: f()
        except Exception: pass
    return None
def compare(c): c.net==c.net2; c.net!=c.net2; c.net==c.net; return None
def threshold(c): return T.threshold(c.net,c.rng.choice([0,1,2,.5]),method=c.rng.choice([">=","<=",">","<"]),**({"ignoreCouplingEdges":c.rng.random()<.5} if c.r.kind=="mx" else {}))
def aggregate(c):
    a=c.p(c.rng.sample(range(1,c.r.aspects+1),c.rng.randint(1,c.r.aspects)))
    return T.aggregate(c.net,a if c.rng.random()<.7 else a[0],selfEdges=c.rng.random()<.5)
def subnet(c):
    s=[c.p(x) for x in selections(c.rng,c.r)]; return T.subnet(c.net,*s)
def subiter(c):
    if len(c.r.edges())>8: return None
    return list(itertools.islice(T.subnet_iter(c.net,remove_elayers=c.p([0]),remove_edges=c.rng.random()<.5),6))
def dij(c,f=None):
    s=c.p([x for x in c.rng.sample(c.nls,1)] if c.r.aspects else [node(c)]); return D.dijkstra(c.net,s)
def dijp(c): return D.dijkstra_mlayer_prune(c.net,c.p([(node(c),None)]),c.p([1]))
def esu(c):
    res=[]; ESU.sample_multilayer_subgraphs_esu(c.net,res,nnodes=c.rng.randint(1,3),nlayers=c.rng.randint(1,2),copy_network=c.rng.random()<.5,p=None); return None
def esu2(c):
    res=[]; ESU.sample_multilayer_subgraphs_esu(c.net,res,sizes=c.p([2,1]),intersections=c.p([1]),copy_network=c.rng.random()<.5,p=c.p([1,1,1,1])); return None
def dumb(c): res=[]; DUMB.dumb_enumeration(c.net,res,sizes=c.p([2,1]),intersections=c.p([1])); return None
def reqs(c):
    V=c.p(c.rng.sample(c.nodes,min(2,len(c.nodes)))); L=c.p(list(c.layers[0])); return REQS.relaxed_check_reqs(c.net,V,L)
def reqs2(c):
    V=c.p(c.rng.sample(c.nodes,min(2,len(c.nodes)))); L=c.p(list(c.layers[0])); n=len(L)
    return REQS.default_check_reqs(c.net,V,L,c.p([1]*n),c.p([None]*(2**n-n-1)),nnodes=len(V),nlayers=n)
def iso(c):
    aa=c.p(c.rng.sample(range(c.r.aspects+1),c.rng.randint(1,c.r.aspects+1)))
    pymnet.is_isomorphic(c.net,c.net2,allowed_aspects=aa); pymnet.get_isomorphism(c.net,c.net2,allowed_aspects=aa); pymnet.get_isomorphism(c.net,c.net,allowed_aspects=aa); return None
def cc1(c):
    n=node(c); l=layer(c); anet=c.anet=T.aggregate(c.net,1); b=snapshot(anet)
    for f in(lambda:CC.cc_barrett(c.net,n,anet),lambda:CC.cc_barrett_optimized(c.net,n,anet),lambda:CC.cc_sequence(c.net,n),lambda:CC.lcc_brodka(c.net,n),lambda:CC.lcc_brodka(c.net,n,anet=anet),lambda:CC.lcc_criado(c.net,n),lambda:CC.lcc_criado(c.net,n,anet=anet),lambda:CC.lcc_battiston1(c.net,n),lambda:CC.lcc_battiston2(c.net,n),
        lambda:CC.cc_cycle_vector_bf(c.net,n,l),lambda:CC.cc_cycle_vector_anet(c.net,n,l,anet),lambda:CC.cc_cycle_vector_anet(c.net,n,None,anet),lambda:CC.cc_cycle_vector_adj(c.net,n,l),lambda:CC.lcc_aw(c.net,n,l),lambda:CC.sncc_aw(c.net,n,anet=anet),lambda:CC.gcc_aw(c.net),lambda:CC.avg_lcc_aw(c.net,anet=anet),lambda:CC.gcc_moreno2(c.net),lambda:CC.gcc_contraction_o2(c.net) if len(c.nls)<12 else 0,lambda:CC.gcc_super_graph(c.net),lambda:CC.gcc_aw_seplayers_adj(c.net)):
        try: f()
        except (AssertionError,ZeroDivisionError,TypeError,ValueError,IndexError): pass
    require(snapshot(anet)==b,"aggregated network changed"); return None
def cc0(c):
    n=node(c)
    for f in(lambda:CC.lcc(c.net,n),lambda:CC.cc_zhang(c.net,n),lambda:CC.gcc_zhang(c.net),lambda:CC.cc_onnela(c.net,n),lambda:CC.cc_barrat(c.net,n),lambda:CC.gcc_from_lcc(c.net,CC.lcc)):
        try: f()
        except (ZeroDivisionError,TypeError): pass
    return None
def nxfun(c):
    f,a=c.rng.choice([("connected_components",()),("shortest_path",(node(c),node(c))),("minimum_spanning_tree",()),("degree_centrality",()),("pagerank",()),("clustering",()),("is_connected",()),("degree_assortativity_coefficient",()),("complement",()),("to_numpy_array",()),("adjacency_matrix",())])
    try: NX_RES=getattr(NX,f)(c.net,*a)
    except Exception: return None
    if isinstance(NX_RES,pymnet.MultilayerNetwork): return NX_RES
    try: list(NX_RES)
    except Exception: pass
    return None
def layout(c):
    lay=c.rng.choice(["circular","shell","spring","random","fr"]); LA.get_layout(lay,c.net,alignedNodes=c.rng.random()<.7 or lay not in("random","fr")); return None
def fr(c):
    nc=c.p({n:(c.rng.random(),c.rng.random()) for n in c.nodes if c.rng.random()<.5}); fx=c.p(set(list(nc)[:1]))
    LA.get_fruchterman_reingold_multilayer_layout(c.net,nodeCoords=nc,fixedNodes=fx,iterations=3,boxSize=c.p([1.0,2.0])); return None
def norm(c): return LA.normalize_coordinates(c.p({n:(c.rng.random(),c.rng.random()) for n in c.nodes}),c.p([1.0,2.0])) and None
def drawmpl(c):
    import matplotlib.pyplot as plt
    d={"layerColorDict":c.p({l:"red" for l in c.layers[0][:1]}),"layerLabelRule":c.p({"rule":"name"}),"nodeColorDict":c.p({nl:"blue" for nl in c.nls[:1]}),"nodeSizeRule":c.p({"rule":"degree","scaleby":.01}),"edgeColorRule":c.p({"rule":"edgetype","intra":"g","inter":"b"}),"edgeWidthDict":c.p({}),"nodeCoords":c.p({n:(c.rng.random(),c.rng.random()) for n in c.nodes[:1]}),"nodelayerCoords":c.p({nl:(.1,.2) for nl in c.nls[:1]}),"layerOrderRule":c.p({"rule":"order","sequence":[1,2,3,4,5,6,7,8]})}
    try: pymnet.draw(c.net,layout="random",show=False,**d)
    finally: plt.close("all")
def js(c): IO.write_json(c.net); return None
@tmp
def jsf(c,d): IO.write_json(c.net,os.path.join(d,"x.json")); return None
@tmp
def edgef(c,d): IO.write_edge_files(c.net,os.path.join(d,"e_"),weights=c.rng.random()<.5,numericNodes=c.rng.random()<.5,masterFile=c.rng.random()<.5); return None
@tmp
def web(c,d): pymnet.webplot(c.net,os.path.join(d,"w.html")); return None
def confnet(c): return M.conf(c.net)
def confdeg(c):
    d=c.p({l:dict(zip(c.rng.sample(range(8),8),c.rng.choice([[1,1,0,0,1,1,0,0],[2,1,1,1,1,0,0,2],[1]*8]))) for l in "AB"})
    return M.conf(d,degstype="nodes")
def confdist(c):
    d=c.p({l:{1:c.rng.choice([6,8]),2:c.rng.choice([1,2])} for l in "AB"}); return M.conf(d,degstype="distribution")
def slconf(c):
    net=pymnet.MultilayerNetwork(aspects=0); d=c.p({0:1,1:2,2:1,3:1,4:1,5:1,6:1,7:0}); M.single_layer_conf(net,d,degstype="nodes"); return None
def slconfd(c):
    net=pymnet.MultilayerNetwork(aspects=0); d=c.p({1:4,2:3}); M.single_layer_conf(net,d); return None
def overlapc(c): return M.conf_overlaps(c.p(OD()))
def OD(): return {("A",):{0:1,1:1},("B",):{2:1,3:1},("A","B"):{0:0,1:1,2:1}}
def erp(c): return M.er_partially_interconnected(c.p([c.p(list(range(3))),c.p(list(range(2,5)))]),c.p([.5,.7]))
def er2(c): return M.er(5,p=c.p([.3,.6])) if c.rng.random()<.5 else M.er(4,edges=c.p([2,3]))
def fulln(c): return M.full(len(c.nodes),c.p(["A","B"]))
def fullm(c): return M.full_multilayer(len(c.nodes),c.p(["A","B"]))
def erm(c): return M.er_multilayer(len(c.nodes),c.p(["A","B"]),.5)
def ba(c): return M.ba_total_degree(6,c.p([1,2]))
def erov(c): return M.er_overlaps_match_aggregated(6,c.p([3,3]),c.p({(0,1):.3} if False else [.5,.5]))
def touch(c): GM.touching_orbit_nodes(node(c),c.net,c.rng.randint(1,3)); return None
def gcd(c):
    import numpy
    a=numpy.random.rand(3,3); b=numpy.random.rand(3,3); k=(a.copy(),b.copy()); GM.GCD(a,b); GM.GCD_matrix(c.p([a.tolist(),b.tolist()])) if False else GM.GCD_matrix([a,b])
    require((a==k[0]).all() and (b==k[1]).all(),"matrices changed"); return None
def normalize(c):
    return T.normalize(c.net,nodesToIndices=c.rng.choice([None,True,False]),layersToIndices=c.rng.choice([None,True,False]),nodeStart=c.rng.choice([0,1]),layerStart=c.rng.choice([0,5]))
def iterlayers(c):
    for l in c.net.A: list(c.net.A[l]); list(c.net.A[l].edges); c.net.A[l]==c.net.A[l]
    return None
def newnet(c):
    """copying into a supplied network leaves the source alone"""
    n2=new(c.spec); T.subnet(c.net,*[c.p(list(s)) for s in c.r.slices],newNet=n2); return n2
def setlayer(c):
    """replacing a layer by a given network leaves the given network alone"""
    m=new(c.spec)
    for a in range(c.r.aspects):
        for l in c.layers[a]: m.add_layer(l,a+1)
    k=c.rng.choice(list(c.net.A)); src=c.net.A[k]; b=(list(map(repr,sorted(src,key=repr))),sorted(map(repr,src.edges)))
    m.A[k]=src
    require((list(map(repr,sorted(src,key=repr))),sorted(map(repr,src.edges)))==b,"given layer network changed"); return m
TABLE=[("queries",any_,query,3),("comparison",any_,compare,2),("threshold",any_,threshold,3),("aggregate",asp,aggregate,3),("overlay",a1,lambda c:T.overlay_network(c.net),2),("subnet",any_,subnet,3),("subnet_iter",any_,subiter,2),
 ("relabel",any_,relabel,3),("normalize",srt,normalize,2),("supra_adjacency",srt,lambda c:(c.net.get_supra_adjacency_matrix(includeCouplings=c.rng.random()<.5),T.supra_adjacency_matrix(c.net))and None,2),
 ("underlying_graph",any_,lambda c:T.get_underlying_graph(c.net),2),("randomize_nodes_by_layer",mx1,lambda c:T.randomize_nodes_by_layer(c.net),2),
 ("degs",any_,lambda c:(D.degs(c.net),D.degs(c.net,degstype="nodes"),D.density(c.net))and None,2),("multiplex_degs",mx,lambda c:(D.multiplex_degs(c.net),D.multiplex_degs(c.net,degstype="nodes"),D.multiplex_density(c.net))and None,2),
 ("overlap_degs",lambda r:mx1(r) and und(r) and len(r.slices[1])<4,lambda c:D.overlap_degs(c.net) and None,1),("dijkstra",any_,dij,2),("dijkstra_prune",a1,dijp,2),
 ("esu",und1,esu,2),("esu sizes",und1,esu2,2),("dumb",und1,dumb,1),("relaxed_check_reqs",und1,reqs,1),("default_check_reqs",und1,reqs2,1),("isomorphism",und,iso,3),
 ("multiplex cc",lambda r:mx1(r) and und(r),cc1,4),("cc",mono,cc0,2),("networkx",mono,nxfun,3),("layout",lambda r:a1(r) and und(r),layout,2),("fr layout",lambda r:a1(r) and und(r),fr,2),("normalize_coordinates",any_,norm,1),("draw",lambda r:a1(r) and und(r),drawmpl,1),
 ("write_json",mx1,js,1),("write_json file",mx1,jsf,1),("write_edge_files",mx1,edgef,2),("webplot",mx1,web,1),("conf of a network",lambda r:mx(r) and und(r),confnet,2),("conf degrees",any_,confdeg,1),("conf distribution",any_,confdist,1),("single_layer_conf",any_,slconf,1),("single_layer_conf distribution",any_,slconfd,1),
 ("conf_overlaps",any_,overlapc,1),("er_partially_interconnected",any_,erp,1),("er",any_,er2,1),("full",any_,fulln,1),("full_multilayer",any_,fullm,1),("er_multilayer",any_,erm,1),("ba_total_degree",any_,ba,1),("touching_orbit_nodes",a1,touch,2),("GCD",any_,gcd,1),("layer iteration",mx,iterlayers,1),("subnet into a given network",any_,newnet,2),("replacing a layer",mx,setlayer,2)]
FUN={t[0]:t for t in TABLE}

def full(net):
    s=snapshot(net)
    try: d=degsnap(net)
    except Exception: d=None
    return (s,d)
def nets_in(x):
    if isinstance(x,pymnet.MultilayerNetwork): return [x]
    if isinstance(x,(list,tuple)): return [y for z in x for y in nets_in(z)]
    if isinstance(x,dict): return [y for z in x.values() for y in nets_in(z)]
    return []
def scramble(net,rng):
    """change edges and add names through the public interface"""
    nls=sorted(net.iter_node_layers(),key=repr); mxn=isinstance(net,pymnet.MultiplexNetwork)
    prs=[(a,b) for a in nls for b in nls if a!=b and (not mxn or a[1:]==b[1:])]
    for a,b in prs[:12]:
        try: net[interleave(a,b)]=net.noEdge if not eqv(readW(net,a,b),net.noEdge) and rng.random()<.7 else rng.choice([11,12])
        except Exception: pass
    try: net.add_node("?added")
    except Exception: pass
    for a in range(1,net.aspects+1):
        try: net.add_layer(990,a)
        except Exception: pass
@register
class C14(Prop):
    quick=6000; thorough=80000; timeout=2; hang_is_violation=False
    bound="%d public functions and methods x seeded random networks (up to 30 operations) and parameters; every result network scrambled afterwards, and the input afterwards"%len(TABLE)
    def rand(self,rng,tier):
        for _ in range(50):
            t=rng.choices(TABLE,[x[3] for x in TABLE])[0]
            s=rand_spec(rng,weights=rng.choice(["pos","pos","one"]),noEdge=[0,0,0,-1],nops=rng.choice([2,4,8,14,22]),selfedges=rng.random()<.3)
            r=ref(s)
            if t[1](r) and r.slices[0] and all(r.slices) and r.nls():
                if t[0] in("layout","fr layout","draw","conf of a network") and any(isinstance(n,tuple) for n in r.slices[0]): continue
                return {"spec":s,"f":t[0],"seed":rng.randrange(10**6)}
        return {"spec":{"kind":"ml","aspects":0,"directed":False,"noEdge":0,"fic":True,"ops":[("add_node",1)]},"f":"queries","seed":1}
    def valid(self,case):
        r=ref(case["spec"]); return FUN[case["f"]][1](r) and all(r.slices) and bool(r.nls())
    def check(self,case):
        c=Ctx(); c.spec=case["spec"]; c.rng=rng=random.Random(case["seed"]); c.r=r=ref(c.spec); c.net=build(c.spec)
        s2=shuffle_build(rng,r,c.spec)
        if s2["ops"] and rng.random()<.6: s2["ops"]=s2["ops"][:-1]
        c.net2=build(s2)
        c.nodes=sorted(r.slices[0],key=repr); c.layers=[sorted(s,key=repr) for s in r.slices[1:]]; c.nls=sorted(r.nls(),key=repr); c.params=[]
        def p(x): c.params.append((x,copy.deepcopy(x))); return x
        c.p=p
        a,b=full(c.net),full(c.net2); name=case["f"]
        try: res=FUN[name][2](c)
        except Violation: raise
        except Exception as e:
            if isinstance(e,(NameError,AttributeError)): pass
            return
        require(full(c.net)==a,name,"changed the network it was given")
        require(full(c.net2)==b,name,"changed the other network")
        for x,y in c.params: require(x==y and repr(x)==repr(y) if not isinstance(x,set) else x==y,name,"changed its parameter",y,"to",x)
        rs=nets_in(res)
        for q in rs: require(q is not c.net,name,"returned its argument")
        try: snaps=[snapshot(q) for q in rs]
        except Exception: return
        if not rs: return
        scramble(c.net,rng)
        for q,s in zip(rs,snaps): require(snapshot(q)==s,name,": changing the input changed the result")
        a=full(c.net)
        for q in rs: scramble(q,rng)
        require(full(c.net)==a,name,": changing the result changed the input")
