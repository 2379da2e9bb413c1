"""C46: internal tables implement their abstract maps.

C harnesses linked with the real sources (address and undefined-behaviour sanitizers on): every red-black tree reachable
over N keys and every observer in each, larger trees by schedule; every sequence of hash-table operations up to a depth.
Then, through the system: tables of predicates, operators, aliases... at every size around their growths."""
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import lines
from vlib.build import get_build
from vlib.lines import run_lines
from vlib.report import Check
from vlib.runner import die_with_parent

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = {"rb": ["Tools/rbtree.c"], "ht": ["EnginePl/hash_tbl.c", "Tools/hash_fct.c"]}


def harness(ck, name, jobs):
    b = get_build()
    d = os.path.join(b.root, "rng-%s-%d" % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    x = os.path.join(d, name)
    cmd = ["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-w"]
    cmd += ["-I" + os.path.join(b.src, q) for q in ("Tools", "EnginePl", "BipsPl")]
    cmd += ["-o", x, os.path.join(HERE, "c46", name + ".c")] + [os.path.join(b.src, q) for q in SRC[name]] + ["-Wl,--unresolved-symbols=ignore-all", "-lm"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        ck.violate(name + ": compile", p.stdout[-3000:])
        return

    def one(a):
        try:
            return a, subprocess.run([x] + [str(q) for q in a], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600, preexec_fn=die_with_parent)
        except subprocess.TimeoutExpired:
            return a, None
    with ThreadPoolExecutor(8) as ex:
        for a, r in ex.map(one, jobs):
            key = "%s %s" % (name, a)
            if r is None or r.returncode or "DONE" not in r.stdout or "bad=0" not in r.stdout:
                ck.violate(key, "run %s: %s" % (a, "no end" if r is None else "exit %d\n%s" % (r.returncode, r.stdout[:3000])))
                continue
            kv = dict(w.split("=") for w in r.stdout.split("DONE")[1].split() if "=" in w)
            ck.add(states=int(kv["states"]), transitions=int(kv.get("trans", kv["states"])), traces_validated_against_impl=int(kv.get("trans", kv["states"])))
            ck.sample("%s: %s" % (key, r.stdout.strip()))
            if "reach" in kv:
                ck.outcome("red-black trees reachable over %s keys: %s" % (kv["small"], kv["reach"]))


DRV = r"""
mt(In) :- catch(read_term(In, T, []), E, (ln_put(E), fail)), T \== end_of_file,
	catch((mt_do(T, R) -> true ; R = failed), E2, R = ball(E2)), ln_put(R).
mt_nm(P, I, A) :- number_codes(I, L), append(P, L, M), atom_codes(A, M).
% N entries created, in an order; all looked up; enumerated; the odd ones removed; looked up and enumerated again; refilled; removed
mt_do(t(K, N, D), R) :-
	mt_base(K, B0), msort(B0, B),
	mt_up(D, N, I), ( between(1, N, J), call(I, J, X), mt_add(K, X), fail ; true ),
	mt_chk(K, N, 1, B),
	( between(1, N, J), call(I, J, X), X mod 2 =:= 1, mt_del(K, X), fail ; true ),
	mt_chk(K, N, 2, B),
	( between(1, N, J), call(I, J, X), X mod 2 =:= 1, mt_add(K, X), fail ; true ),
	mt_chk(K, N, 1, B),
	( between(1, N, J), mt_del(K, J), fail ; true ),
	mt_chk(K, 0, 1, B), R = ok.
mt_up(up, _, mt_id).
mt_up(down, N, mt_rev(N)).
mt_up(mix, N, mt_mix(N)).
mt_id(X, X).
mt_rev(N, J, X) :- X is N+1-J.
mt_mix(N, J, X) :- ( J mod 2 =:= 0 -> X is J//2 ; X is N - J//2 ).
mt_chk(K, N, S, B) :-
	( between(1, N, J), X = J, ( S =:= 2, X mod 2 =:= 1 -> mt_has(K, X), throw(present(X)) ; \+ mt_has(K, X), throw(absent(X)) ) ; true ),
	mt_base(K, L0), msort(L0, L),
	findall(Y, (between(1, N, J), (S =:= 2 -> J mod 2 =:= 0 ; true), mt_ent(K, J, Y)), M0), append(B, M0, M1), msort(M1, M),
	( L == M -> true ; mt_dif(L, M, D1), mt_dif(M, L, D2), throw(extra(D1, D2)) ).
mt_dif(L, M, D) :- findall(X, (member(X, L), \+ memberchk(X, M)), D).
mt_ent(pred, J, A/1) :- mt_nm("mp", J, A).
mt_ent(ar, J, mar/J).
mt_ent(op, J, o(A, 700, xfx)) :- mt_nm("mo", J, A).
mt_ent(opx, J, o(A, 300, fy)) :- mt_nm("mx", J, A).
mt_ent(alias, J, A) :- mt_nm("ma", J, A).
mt_add(pred, J) :- mt_nm("mp", J, A), X =.. [A,J], assertz(X).
mt_add(ar, J) :- functor(H, mar, J), assertz(H).
mt_add(op, J) :- mt_nm("mo", J, A), op(700, xfx, A).
mt_add(opx, J) :- mt_nm("mx", J, A), op(300, fy, A), op(300, xfx, A), op(0, xfx, A).
mt_add(alias, J) :- mt_nm("ma", J, A), open_input_atom_stream(x, S), set_stream_alias(S, A).
mt_del(pred, J) :- mt_nm("mp", J, A), abolish(A/1).
mt_del(ar, J) :- abolish(mar/J).
mt_del(op, J) :- mt_nm("mo", J, A), op(0, xfx, A).
mt_del(opx, J) :- mt_nm("mx", J, A), op(0, fy, A).
mt_del(alias, J) :- mt_nm("ma", J, A), catch(close_input_atom_stream(A), _, true).
mt_has(pred, J) :- mt_nm("mp", J, A), X =.. [A,V], catch(call(X), _, fail), V == J.
mt_has(ar, J) :- functor(H, mar, J), catch(call(H), _, fail).
mt_has(op, J) :- mt_nm("mo", J, A), current_op(P, T, A), P-T == 700-xfx.
mt_has(opx, J) :- mt_nm("mx", J, A), findall(P-T, current_op(P, T, A), [300-fy]).
mt_has(alias, J) :- mt_nm("ma", J, A), stream_property(S, alias(A)), peek_char(S, x), peek_char(A, x).
mt_base(pred, L) :- findall(P, current_predicate(P), L).
mt_base(ar, L) :- findall(P, current_predicate(P), L).
mt_base(op, L) :- findall(o(A, P, T), current_op(P, T, A), L).
mt_base(opx, L) :- findall(o(A, P, T), current_op(P, T, A), L).
mt_base(alias, L) :- findall(A, (stream_property(_, alias(A)), \+ memberchk(A, [user_input, user_output, user_error])), L).
"""


def fam(i, n, tier):
    sizes = {"pred": list(range(1, 60)) + [100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1024, 2047, 2048, 2049, 4000, 4096, 4097],
             "op": list(range(1, 60)) + [100, 127, 128, 129, 200, 255, 256, 257, 512, 513, 1000, 1024, 1025, 2048, 2100],
             "opx": list(range(1, 60, 3)) + [100, 127, 128, 129, 255, 256, 257, 512, 513],
             "ar": list(range(1, 256, 7)) + [255],
             "alias": list(range(1, 60)) + [62, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257]}
    k = 0
    for t, ss in sizes.items():
        for d in ("up", "down", "mix"):
            if tier == "quick":
                ss2 = ss if d == "up" else ss[::3] + ss[-3:]
            else:
                ss2 = sorted(set(ss) | set(range(1, 300))) if t != "ar" else range(1, 256)
            ss2 = [x for x in ss2]
            cs = [("t(%s,%d,%s)." % (t, x, d), "ok") for x in ss2][i::n]
            yield "table %s %s" % (t, d), "driver(mt).\n", cs


def main():
    ck = Check("C46")
    harness(ck, "rb", [(ck.pick(9, 11), s, 8) for s in range(8)] + [(q, 0, 1000) for q in range(1, ck.pick(9, 11))])
    harness(ck, "ht", [(ck.pick(3, 4), s, 8) for s in range(8)])
    run_lines(ck, "tables", lines.exe(DRV), fam, env={"MAX_ATOM": "100000"}, timeout=300)
    return ck.finish(rule="states = structures reached (red-black trees, hash tables, tables of the system); transitions = operations applied and compared with the abstract map")
