"""All cases and the groups of cases each property rests on (with the groups of the functions it calls)."""
import cases_net,cases_trans,cases_mplex,cases_diag,cases_mat,cases_cc
REG=cases_net.REG
GROUPS=sorted(set(c[0] for c in REG))
PROPS={
 "C01":["store","item"],
 "C02":["nbr","node","item","store"],
 "C03":["str","nodestr","nbr","store","item"],
 "C04":["nodes","item","store"],
 "C05":["edges","node","nbr","nodes","item","store"],
 "C07":["mplex","mplexl","mplexi","mplexw","item","node"],
 "C08":["mplexw","mplexi","mplexc","mplex","store"],
 "C09":["mplexs","mplexc","mplexw","subnet","node","edges","nodes","nbr","item","store"],
 "C10":["aggregate","edges","nodes","nbr","item","store"],
 "C11":["threshold","edges","nodes","nbr","item","store"],
 "C12":["relabel","norm","edges","nodes","nbr","item","store"],
 "C13":["under","supra","edges","nodes","nbr","item","store"],
 "C14":["threshold","relabel","aggregate","subnet","mplexs","diag","under","norm","supra","cc"],
 "C15":["diag","str","nodes","nbr","edges","item","store","mplexi","mplexw"],
 "C22":["cc","str","nbr","node","nodestr","edges","nodes","item","store"],
 "C06":["eq","edges","node","nbr","nodes","item","store"],
}
SAME=set()
EXTRA={}
def assumptions(pid): return EXTRA.get(pid,[])
def weight(c):
    k=c[1]; return (8 if "_set_link" in k else 4 if "add_node" in k else 2 if "edges" in k or "__eq__" in k else 1)*(1+sum(("d=%d"%i in k)*i for i in range(5)))
