"""Loads the functions under contract from /repo's current source (nothing is dropped except docstrings)."""
import ast,os
REPO=os.environ.get("VERIF_REPO","/repo")
class FuncInfo(object):
    def __init__(s,node,module,cls=None,qual=None): s.node,s.module,s.cls,s.name=node,module,cls,node.name; s.qual=qual or "%s.%s%s"%(module.name,(cls.name+".") if cls else "",node.name); s.is_gen=has_yield(node)
class ClassInfo(object):
    def __init__(s,name,module,bases,node): s.name,s.module,s.bases,s.node=name,module,bases,node; s.methods={}; s.props={}; s.attrs={}
    def mro(s):
        out=[s]
        for b in s.bases:
            c=s.module.lookup_class(b)
            if c:
                for x in c.mro():
                    if x not in out: out.append(x)
        return out
    def find(s,name):
        for c in s.mro():
            if name in c.methods: return c.methods[name]
        return None
    def findprop(s,name):
        for c in s.mro():
            if name in c.props: return c.props[name],c
        return None
    def findattr(s,name):
        for c in s.mro():
            if name in c.attrs: return c.attrs[name],c
        return None
    def issub(s,other): return any(c.name==other.name and c.module.name==other.module.name for c in s.mro())
    def __repr__(s): return "<class %s>"%s.name
def has_yield(f):
    st=list(f.body)
    while st:
        n=st.pop()
        if isinstance(n,(ast.FunctionDef,ast.Lambda,ast.ClassDef,ast.GeneratorExp,ast.ListComp,ast.SetComp,ast.DictComp)): continue
        if isinstance(n,(ast.Yield,ast.YieldFrom)): return True
        st.extend(ast.iter_child_nodes(n))
    return False
class Module(object):
    def __init__(s,name,path,repo):
        s.name,s.path,s.repo=name,path,repo; s.funcs={}; s.classes={}; s.imports={}; s.consts={}
        s.tree=ast.parse(open(path,encoding="utf-8").read())
        s.load(s.tree.body)
    def load(s,body):
        for n in body:
            if isinstance(n,ast.FunctionDef): s.funcs[n.name]=FuncInfo(n,s)
            elif isinstance(n,ast.ClassDef):
                c=ClassInfo(n.name,s,[b.id if isinstance(b,ast.Name) else b.attr for b in n.bases if isinstance(b,(ast.Name,ast.Attribute))],n)
                for m in n.body:
                    if isinstance(m,ast.FunctionDef): c.methods[m.name]=FuncInfo(m,s,c)
                    elif isinstance(m,ast.Assign) and len(m.targets)==1 and isinstance(m.targets[0],ast.Name): c.attrs[m.targets[0].id]=m.value
                s.classes[n.name]=c
            elif isinstance(n,ast.Import):
                for a in n.names: s.imports[a.asname or a.name.split(".")[0]]=("module",a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n,ast.ImportFrom):
                for a in n.names: s.imports[a.asname or a.name]=("from",("."*n.level)+(n.module or ""),a.name)
            elif isinstance(n,ast.Assign) and len(n.targets)==1:
                t=n.targets[0]
                if isinstance(t,ast.Name): s.consts[t.id]=n.value
                elif isinstance(t,ast.Attribute) and isinstance(t.value,ast.Name) and t.value.id in s.classes and isinstance(n.value,ast.Call) and isinstance(n.value.func,ast.Name) and n.value.func.id=="property":
                    s.classes[t.value.id].props[t.attr]=n.value.args[0]
            elif isinstance(n,ast.Try): s.load(n.body)
            elif isinstance(n,ast.If): pass
    def lookup_class(s,name):
        if name in s.classes: return s.classes[name]
        if name in s.imports:
            r=s.repo.resolve(s,name)
            return r if isinstance(r,ClassInfo) else None
        return None
class Repo(object):
    def __init__(s,root=REPO):
        s.root=root; s.mods={}
    def module(s,name):
        """dotted name inside pymnet"""
        if name not in s.mods:
            p=os.path.join(s.root,*name.split("."))
            if os.path.isdir(p): p=os.path.join(p,"__init__.py")
            else: p=p+".py"
            if not os.path.exists(p): return None
            m=Module.__new__(Module); s.mods[name]=m; m.__init__(name,p,s)
        return s.mods[name]
    def ispkg(s,name): return os.path.isdir(os.path.join(s.root,*name.split(".")))
    def resolve(s,mod,name):
        """what an imported name means: ClassInfo, FuncInfo, Module or ('ext',name)"""
        k=mod.imports[name]
        if k[0]=="module":
            if k[1].split(".")[0]=="pymnet": return s.module(k[1])
            return ("ext",k[1])
        _,frm,what=k
        lvl=len(frm)-len(frm.lstrip(".")); frm=frm.lstrip(".")
        if lvl:
            base=mod.name.split(".")
            if not s.ispkg(mod.name): base=base[:-1]
            base=base[:len(base)-(lvl-1)]
            full=".".join(base+([frm] if frm else []))
        else: full=frm
        if full.split(".")[0]!="pymnet": return ("ext",full+"."+what)
        m=s.module(full)
        if m is None: return ("ext",full+"."+what)
        return s.member(m,what)
    def member(s,m,what):
        if what in m.classes: return m.classes[what]
        if what in m.funcs: return m.funcs[what]
        if what in m.imports: return s.resolve(m,what)
        sub=s.module(m.name+"."+what)
        if sub: return sub
        if what in m.consts: return ("const",m,what)
        for n in m.tree.body:   # from x import *
            if isinstance(n,ast.ImportFrom) and n.names[0].name=="*":
                m.imports["*"]=("from",("."*n.level)+(n.module or ""),"*")
        return ("ext",m.name+"."+what)
    def func(s,qual):
        """pymnet.net.MultilayerNetwork._get_link -> FuncInfo"""
        parts=qual.split(".")
        for i in range(len(parts)-1,0,-1):
            m=s.module(".".join(parts[:i])) if os.path.exists(os.path.join(s.root,*parts[:i])+".py") or os.path.isdir(os.path.join(s.root,*parts[:i])) else None
            if m is None: continue
            rest=parts[i:]
            if len(rest)==1: return m.funcs.get(rest[0])
            if len(rest)==2 and rest[0] in m.classes: return m.classes[rest[0]].find(rest[1])
        return None
