"""C04: catch/throw — innermost active matching catcher, ball copied, bindings undone."""
from vlib.report import Check
from vlib.ctl import Job, bodies, run_modes

SHARED = """
m(1). m(2).
n(1). n(2).
late(1). late(2) :- throw(f(l)).
late(3).
deep(X) :- m(X), catch(late(_),b,true), X == 2, throw(f(X)).
"""


def main():
    ck = Check("C04")
    job = Job(SHARED, goal="catch((n(W),%s),B,(W=c(B)))", maxsol=20)
    modes = [("native", ()), ("consult", ()), ("assert", ()), ("call", ()), ("dynamic", ())]
    un = ["catch(%s,a,tr(ra))", "catch(%s,f(Y),tr(Y))", "catch(%s,_,X=2)"]
    la = ["throw(a)", "throw(f(X))", "m(X)", "!", "fail", "X=1", "late(Y)", "deep(Y)"]
    b = [x for k in (1, 2, 3) for x in bodies(la, [",", ";"], un, k)]
    run_modes(ck, job, "A", b, modes)
    lb = ["throw(a)", "throw(f(X))", "m(X)", "tr(x)"]
    run_modes(ck, job, "B", bodies(lb, [",", ";"], ["catch(%s,a,m(Y))", "catch(%s,f(Y),throw(a))"], 4), modes)
    lc = ["throw(g(X,Y,X))", "X=h(Y)", "Y=1", "call(undefd(X))", "call(1)", "call((fail,1))", "Y", "atom_length(X,Y)"]
    b = [x for k in (1, 2, 3) for x in bodies(lc, [","], ["catch(%s,g(X,_,Z),true)", "catch(%s,error(Z,_),tr(Z))", "findall(X,%s,Z)",
                                                        "\\+(%s)"], k)]
    run_modes(ck, Job(SHARED, head_vars=("X", "Y", "Z"), goal="catch((n(W),%s),B,((B=error(E,_)->true;E=B),W=c(E)))"), "C", b, modes)
    if ck.thorough:
        run_modes(ck, job, "D", bodies(la[:6], [",", ";"], un, 4), modes[:3])
        run_modes(ck, job, "E", bodies(["throw(a)", "m(X)", "tr(x)"], [",", ";"], ["catch(%s,a,m(Y))", "\\+(%s)"], 5), modes[:2])
    return ck.finish(rule="every body of the grammar up to the bound, in each execution mode, under an outer catch/3")
