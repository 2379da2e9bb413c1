"""C40: processes, pipes and sockets carry all data and status.

Every exit status and signal through every predicate that starts a process; every short argument list over awkward
atoms; every combination of redirections of the three standard streams (pipe, null, file, alias, merged) x amounts of
data around the buffer and pipe sizes x orders of closing and waiting; pipes and sockets between processes and inside
one; select/5 on every state of up to three pipes; after each case the descriptors open and the children left are
counted."""
import itertools
import os
import shutil
import subprocess
import tempfile

from vlib.build import VERIF, WORK
from vlib.lines import exe, run_lines
from vlib.report import Check

D = os.path.join(VERIF, "checks", "c40")
SIZES = [0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193]
BIG = [16384, 65535, 65536, 65537]
SIGS = [1, 2, 3, 4, 6, 8, 9, 10, 11, 12, 14, 15, 16, 24, 25, 26, 27, 31]
KID = None
TMP = None


def pay(n, step=7):
    return [i * step % 251 + 1 for i in range(n)]


def dig(b):
    h = 0
    for c in b:
        h = (h * 31 + c) & 0xfffffff
    return "%d/%d" % (len(b), h)


def DG(n):
    return dig(pay(n))


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") + "'"


def k(*a):
    """shell command running the child"""
    return q(" ".join([KID] + [str(x) for x in a]))


def canon(x):
    """the canonical text of the template instance: the cases build it directly"""
    return x


def ok(x, fds=0, kids=0):
    return "r(%s,%d,%d)" % (x, fds, kids)


def C(goal, tmpl, exp, fds=0, kids=0):
    return "c((%s),%s)." % (goal, tmpl), (ok(exp, fds, kids) if isinstance(exp, str) else {ok(e, fds, kids) for e in exp})


def lst(l):
    return "'.'(" + l[0] + "," + lst(l[1:]) + ")" if l else "[]"


def t(*a):
    return "t(" + ",".join(str(x) for x in a) + ")"


def d2(n):
    """the canonical text of N/H"""
    b = DG(n).split("/")
    return "/(%s,%s)" % (b[0], b[1])


SETUP = "pc_init. pc_clean(_). driver(pc_case)."
SETUP = "pc_init.\ndriver(pc_case)."


def fam_status(tier):
    codes = [c for c in (range(256) if tier != "quick" else [0, 1, 2, 3, 7, 42, 63, 64, 100, 125, 128, 129, 137, 200, 254, 255]) if c not in (126, 127)]
    cs = []
    for c in codes:
        cs.append(C("spawn(%s,[e,'%d'],S)" % (q(KID), c), "S", str(c)))
        cs.append(C("spawn(%s,[e,'%d'],%d)" % (q(KID), c, c), "y", "y"))
        cs.append(C("spawn(%s,[e,'%d'],%d)" % (q(KID), c, c + 1), "y", "no"))
        cs.append(C("spawn(%s,[e,'%d'])" % (q(KID), c), "y", "y" if c == 0 else "no"))
        cs.append(C("shell(%s,S)" % k("e", c), "S", str(c)))
        cs.append(C("shell(%s)" % k("e", c), "y", "y" if c == 0 else "no"))
        cs.append(C("system(%s,S)" % k("e", c), "S", str(c << 8)))
        cs.append(C("system(%s)" % k("e", c), "y", "y" if c == 0 else "no"))
        cs.append(C("exec(%s,null,null,null,P), wait(P,S)" % k("e", c), "S", str(c)))
        cs.append(C("exec(%s,null,null,null,P), wait(P,%d)" % (k("e", c), c + 1), "S", "no"))
        cs.append(C("exec(%s,null,null,null)" % k("e", c), "y", "y"))
        cs.append(C("forkx(true,%d,P), wait(P,S)" % c, "S", str(c)))
        cs.append(C("popen(%s,read,S), rd(S,R), close(S)" % k("e", c), "R", "/(0,0)"))
        cs.append(C("popen(%s,write,S), close(S)" % k("e", c), "y", "y"))
    yield "status", cs
    cs = []
    for s in SIGS:
        cs.append(C("spawn(%s,[k,'%d'],S)" % (q(KID), s), "S", str(s)))
        cs.append(C("exec('exec %s k %d',null,null,null,P), wait(P,S)" % (KID, s), "S", str(s)))
        cs.append(C("exec('exec %s z',null,O,null,P), get_char(O,z), send_signal(P,%d), close(O), wait(P,S)" % (KID, s), "S", str(s)))
        cs.append(C("fork_prolog(P), ( P = 0 -> sleep(5), pc_exit(3) ; true ), send_signal(P,9), wait(P,S)", "S", "9"))
    for n, s in (("SIGINT", 2), ("SIGKILL", 9), ("SIGTERM", 15), ("SIGHUP", 1), ("SIGUSR1", 10), ("SIGUSR2", 12), ("SIGALRM", 14), ("SIGQUIT", 3)):
        cs.append(C("exec('exec %s z',null,O,null,P), get_char(O,z), send_signal(P,%s), close(O), wait(P,S)" % (KID, q(n)), "S", str(s)))
    cs.append(C("exec(true,null,null,null,P), wait(P,S), wait(P,T)", "S", "e(system)"))
    cs.append(C("wait(999999,S)", "S", "e(system)"))
    cs.append(C("send_signal(999999,0)", "y", "e(system)"))
    cs.append(C("exec('exec %s z',null,O,null,P), get_char(O,z), close(O), send_signal(P,0), send_signal(P,'SIGKILL'), wait(P,S)" % KID, "S", "9"))
    cs.append(C("exec('exec %s s 100 5',null,null,null,P), exec('exec %s s 30 6',null,null,null,Q), wait(P,S), wait(Q,T)" % (KID, KID), "S-T", "-(5,6)"))
    cs.append(C("exec('exec %s s 100 5',null,null,null,P), exec('exec %s s 30 6',null,null,null,Q), wait(Q,S), wait(P,T)" % (KID, KID), "S-T", "-(6,5)"))
    yield "signal", cs


WORDS = ["", "a", "b c", "\"", "'", "\\", "$HOME", "*", ";", "|", "-x", "\n", "\xe9", "~", " ", "`x`", "%d", "x" * 200]


def fam_args(tier):
    cs = []
    f = "args"
    for n in range(0, 3 if tier == "quick" else 4):
        for l in itertools.product(WORDS if n < 3 else WORDS[:8], repeat=n):
            e = "".join("".join("%02x" % ord(c) for c in w) + "." for w in l)
            cs.append(C("spawn(%s,[a,%s%s],S), args(%s,A)" % (q(KID), f, "".join("," + q(w) for w in l), f), "S-A", "-(0,%s)" % ("''" if not e else e if not e.strip(".") and e != "." else q(e))))
    yield "args", cs
    cs = []
    for n in (10, 100, 1000, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2000, 5000):
        cs.append(C("length(L,%d), maplist(=(a),L), spawn(%s,[a,%s|L],S), args(%s,A), atom_length(A,N)" % (n, q(KID), f, f), "S-N", ["-(0,%d)" % (3 * n), "e(system)", "e(resource_error(too_many_args))"] if n > 1000 else "-(0,%d)" % (3 * n)))
    for n in (20, 40, 41, 60, 100, 255, 1000, 4000):
        cmd = "/nodir/" + "n" * n
        cs.append(C("spawn(%s,[],S)" % q(cmd), "S", "e(system)"))
        cs.append(C("spawn(%s,[a,b],S)" % q(cmd), "S", "e(system)"))
        cs.append(C("exec(%s,null,null,null,P), wait(P,S), S =\\= 0" % q(cmd), "y", ["y", "e(system)"]))
        cs.append(C("popen(%s,read,S), rd(S,D), close(S)" % q(cmd + " 2>/dev/null"), "D", "/(0,0)"))
        # a long command that exits with the status of a command not executable
        c2 = "." + "/" * n + os.path.relpath(KID, TMP) if False else "/" * n + KID
        cs.append(C("spawn(%s,[e,'127'],S)" % q(c2), "y", ["y", "e(system)"]))
        cs.append(C("spawn(%s,[e,'3'],S)" % q(c2), "S", "3"))
        cs.append(C("exec(%s,null,O,null,P), rd(O,D), close(O), wait(P,S)" % q(c2 + " w 100 0 4"), "D-S", "-(%s,4)" % d2(100)))
        cs.append(C("popen(%s,read,O), rd(O,D), close(O)" % q(c2 + " w 100 0 4"), "D", d2(100)))
    yield "long", cs
    cs = []
    for g, e in (("spawn(_,[],S)", "e(instantiation_error)"), ("spawn(1,[],S)", "e(type_error(atom,1))"), ("spawn(a,_,S)", "e(instantiation_error)"), ("spawn(a,[_],S)", "e(instantiation_error)"), ("spawn(a,[b|_],S)", "e(instantiation_error)"),
                 ("spawn(a,b,S)", "e(type_error(list,b))"), ("spawn(a,[1],S)", "e(type_error(atom,1))"), ("spawn(a,[],b)", "e(type_error(integer,b))"), ("popen(_,read,S)", "e(instantiation_error)"), ("popen(true,_,S)", "e(instantiation_error)"),
                 ("popen(true,x,S)", "e(domain_error(io_mode,x))"), ("popen(true,append,S)", "e(domain_error(io_mode,append))"), ("popen(true,1,S)", "e(type_error(atom,1))"), ("popen(true,read,a)", "e(uninstantiation_error(a))"), ("exec(_,null,null,null)", "e(instantiation_error)"),
                 ("exec(1,null,null,null)", "e(type_error(atom,1))"), ("exec(true,null,null,null,a)", "e(uninstantiation_error(a))"), ("exec(true,1,null,null)", "e(domain_error(stream_or_alias,1))"), ("exec(true,null,1,null)", "e(domain_error(stream_or_alias,1))"),
                 ("exec(true,null,null,1)", "e(domain_error(stream_or_alias,1))"), ("exec(true,nostm,null,null)", "e(existence_error(stream,nostm))"), ("exec(true,user_output,null,null)", "e(permission_error(input,stream,user_output))"),
                 ("exec(true,null,user_input,null)", "e(permission_error(output,stream,user_input))"), ("exec(true,null,null,user_input)", "e(permission_error(output,stream,user_input))"), ("fork_prolog(1)", "e(uninstantiation_error(1))"),
                 ("create_pipe(a,_)", "e(uninstantiation_error(a))"), ("create_pipe(_,a)", "e(uninstantiation_error(a))"), ("wait(_,S)", "e(instantiation_error)"), ("wait(a,S)", "e(type_error(integer,a))"), ("wait(1,a)", "e(type_error(integer,a))"),
                 ("send_signal(_,1)", "e(instantiation_error)"), ("send_signal(a,1)", "e(type_error(integer,a))"), ("send_signal(999999,_)", "e(instantiation_error)"), ("send_signal(999999,1.5)", "e(type_error(integer,1.5))"), ("sleep(_)", "e(instantiation_error)"),
                 ("sleep(a)", "e(type_error(number,a))"), ("sleep(-1)", "e(domain_error(not_less_than_zero,-1))"), ("socket(_,S)", "e(instantiation_error)"), ("socket(1,S)", "e(type_error(atom,1))"), ("socket(a,S)", "e(domain_error(socket_domain,a))"),
                 ("socket('AF_UNIX',a)", "e(uninstantiation_error(a))"), ("socket_close(_)", "e(instantiation_error)"), ("socket_close(a)", "e(type_error(integer,a))"), ("socket_close(150)", "e(system)"), ("socket_bind(150,_)", "e(instantiation_error)"),
                 ("socket_bind(150,a)", "e(domain_error(socket_address,a))"), ("socket_bind(150,'AF_UNIX'(_))", "e(instantiation_error)"), ("socket_bind(150,'AF_UNIX'(1))", "e(type_error(atom,1))"), ("socket_bind(150,'AF_INET'(h,a))", "e(type_error(integer,a))"),
                 ("socket_bind(150,'AF_INET'(1,2))", "e(type_error(atom,1))"), ("socket_bind(_,'AF_INET'(h,2))", "e(instantiation_error)"), ("socket_connect(150,_,_,_)", "e(instantiation_error)"), ("socket_connect(150,'AF_INET'(_,1),_,_)", "e(instantiation_error)"),
                 ("socket_connect(150,'AF_INET'(localhost,_),_,_)", "e(instantiation_error)"), ("socket_connect(150,'AF_INET'(localhost,a),_,_)", "e(type_error(integer,a))"), ("socket_connect(150,'AF_UNIX'(x),a,_)", "e(uninstantiation_error(a))"),
                 ("socket_connect(150,'AF_UNIX'(x),_,a)", "e(uninstantiation_error(a))"), ("socket_listen(_,1)", "e(instantiation_error)"), ("socket_listen(150,_)", "e(instantiation_error)"), ("socket_listen(150,1)", "e(system)"), ("socket_listen(a,1)", "e(type_error(integer,a))"),
                 ("socket_accept(_,_,_)", "e(instantiation_error)"), ("socket_accept(150,a,_,_)", "e(uninstantiation_error(a))"), ("socket_accept(150,_,_)", "e(system)"), ("hostname_address(_,_)", "e(instantiation_error)"), ("hostname_address(1,_)", "e(type_error(atom,1))"),
                 ("hostname_address('127.0.0.1','127.0.0.1')", "y"), ("hostname_address('127.0.0.1','127.0.0.2')", "no"), ("select(_,_,[],_,1)", "e(instantiation_error)"), ("select([_],_,[],_,1)", "e(instantiation_error)"), ("select(a,_,[],_,1)", "e(type_error(list,a))"),
                 ("select([],a,[],_,1)", "e(type_error(list,a))"), ("select([],_,a,_,1)", "e(type_error(list,a))"), ("select([],_,[],a,1)", "e(type_error(list,a))"), ("select([a],_,[],_,1)", "e(existence_error(stream,a))"), ("select([f(a)],_,[],_,1)", "e(domain_error(stream_or_alias,f(a)))"),
                 ("select([-1],_,[],_,1)", "e(domain_error(not_less_than_zero,-1))"), ("select([user_output],_,[],_,1)", "e(permission_error(input,stream,user_output))"), ("select([],_,[user_input],_,1)", "e(permission_error(output,stream,user_input))"),
                 ("select([],_,[],_,_)", "e(instantiation_error)"), ("select([],_,[],_,a)", "e(type_error(number,a))"), ("select([5000],_,[],_,1)", "e(system)"), ("select([],[],[],[],1)", "y"),
                 ("open_input_atom_stream(abc,S), select([S],_,[],_,1)", None)):
        if e:
            cs.append(C(g, "y", e))
    yield "errors", cs


def fam_popen(tier):
    cs = []
    for n in SIZES + BIG + ([200000] if tier != "quick" else []):
        cs.append(C("popen(%s,read,S), rd(S,R), get_code(S,E), close(S)" % k("w", n, 0, 3), "R-E", "-(%s,-1)" % d2(n)) if False else C("popen(%s,read,S), rd(S,R), close(S)" % k("w", n, 0, 3), "R", d2(n)))
        cs.append(C("popen(%s,write,S), wb(S,%d), close(S), ro(o1,R)" % (k("r", 0, "o1"), n), "R", d2(n)))
        cs.append(C("popen(%s,write,S), wr(S,%d), close(S), ro(o1,R)" % (k("r", 5, "o1"), n), "R", d2(n)))
        cs.append(C("popen(%s,write,S), set_stream_buffering(S,none), wb(S,%d), close(S), ro(o1,R)" % (k("r", 0, "o1"), min(n, 9000)), "R", d2(min(n, 9000))))
        for j in (0, 1, 500):
            if j <= n:
                cs.append(C("popen(%s,read,S), rn(S,%d,R), close(S)" % (k("w", n, 0, 3), j), "R", d2(j)))
        cs.append(C("popen(%s,read,S), popen(%s,read,T), rd(T,Q), rd(S,R), close(S), close(T)" % (k("w", n, 0, 0), k("w", n, 0, 0)), "Q-R", "-(%s,%s)" % (d2(n), d2(n))))
        # several writers at once, in both orders of closing
        for o in ("S,T", "T,S"):
            cs.append(C("popen(%s,write,S), popen(%s,write,T), wb(S,%d), wb(T,%d), cl([%s]), ro(o1,Q), ro(o2,R)" % (k("r", 0, "o1"), k("r", 0, "o2"), n, n // 2, o), "Q-R", "-(%s,%s)" % (d2(n), d2(n // 2))))
    for i in (1, 10, 5000):
        cs.append(C("popen('%s x %d 2>&1',read,S), rd(S,N/_), close(S)" % (KID, i), "N", str(2 * i)))
    # what was written before is written before
    for b in ("none", "line", "block"):
        for how in ("shell('echo b >>f1')", "system('echo b >>f1')", "spawn(sh,['-c','echo b >>f1'])", "exec('echo b >>f1',null,null,null)", "popen('echo b >>f1',write,P), close(P)", "exec('echo b >>f1',null,null,null,P), wait(P,_)", "exec('echo b',null,S,null)",
                    "exec('echo b',null,S,null,P), wait(P,_)", "exec('echo b >&2',null,null,S)", "exec('echo b >&2',null,S,S)", "exec('echo b',null,S,S)", "popen('cat >>f1',write,P), write(P,'b\\n'), close(P)"):
            cs.append(C("( file_exists(f1) -> unlink(f1) ; true ), open(f1,append,S,[buffering(%s)]), write(S,'a.\\n'), %s, write(S,'c.\\n'), close(S), open(f1,read,T), rl(T,L), close(T), atom_codes(A,L)" % (b, how), "A", "'a.\\nb\\nc.\\n'"))
    yield "popen", cs


def fam_exec(tier):
    # In x Out x Err redirections
    cs = []
    sizes = [0, 1, 600, 4096, 8193] if tier == "quick" else SIZES
    for n in sizes:
        m = n // 2
        for i, o, e in itertools.product(("var", "null", "file", "alias"), ("var", "null", "file", "alias", "same"), ("var", "null", "file", "alias")):
            if o == "same" and e not in ("var", "file"):
                continue
            pre, post, res, exp = [], [], [], []
            inn = {"var": "I", "null": "null", "file": "I", "alias": "al_i"}[i]
            if i in ("file", "alias"):
                pre += ["mk(fi,%d)" % n, "open(fi,read,I%s)" % (",[alias(al_i)]" if i == "alias" else "")]
            out = {"var": "O", "null": "null", "file": "O", "alias": "al_o", "same": "E" if e == "var" else "O"}[o]
            er = {"var": "E", "null": "null", "file": "E", "alias": "al_e"}[e]
            if o == "same":
                if e == "file":
                    pre.append("open(fo,write,O)")
                    er = "O"
            elif o in ("file", "alias"):
                pre.append("open(fo,write,O%s)" % (",[alias(al_o)]" if o == "alias" else ""))
            if e in ("file", "alias") and o != "same":
                pre.append("open(fe,write,E%s)" % (",[alias(al_e)]" if e == "alias" else ""))
            nin = 0 if i == "null" else n
            # the child copies its input, then says m bytes on its error output
            cmd = q("%s c 0; %s w 0 %d 7" % (KID, KID, m))
            call = "exec(%s,%s,%s,%s,P)" % (cmd, inn, out, er)
            if i == "var":
                post.append("wb(I,%d), close(I)" % n)
            elif i in ("file", "alias"):
                post.append("close(I)")
            both = dig(pay(nin) + pay(m, 3)).split("/")
            both = "/(%s,%s)" % (both[0], both[1])
            dm = dig(pay(m, 3)).split("/")
            dm = "/(%s,%s)" % (dm[0], dm[1])
            if o == "same":
                if e == "var":
                    post.append("rd(E,R1), close(E)")
                    w = ["wait(P,S)"]
                else:
                    post += ["wait(P,S)", "close(O)", "rc(fo,R1)"]
                    w = []
                goal = ", ".join(pre + [call] + post + w)
                cs.append(C(goal, "t(R1,S)", t(both, 7)))
                continue
            late = []
            if o == "var":
                post.append("rd(O,R1), close(O)")
                exp.append(d2(nin))
                res.append("R1")
            elif o != "null":
                late.append("close(O), rc(fo,R1)")
                res.append("R1")
                exp.append(d2(nin))
            if e == "var":
                post.append("rd(E,R2), close(E)")
                res.append("R2")
                exp.append(dm)
            elif e != "null":
                late.append("close(E), rc(fe,R2)")
                res.append("R2")
                exp.append(dm)
            goal = ", ".join(pre + [call] + post + ["wait(P,S)"] + late)
            cs.append(C(goal, t(*(res + ["S"])), t(*(exp + ["7"]))))
            if i != "var":      # exec/4 waits for the end of the process
                goal = ", ".join(pre + [call.replace(",P)", ")")] + post + late)
                cs.append(C(goal, t(*(res + ["z"])), t(*(exp + ["z"]))))
    yield "exec", cs
    cs = []
    # order of the two outputs, of closing and waiting
    for n, m in ((10, 10), (5000, 3000), (30000, 30000)):
        a, b = d2(n), "/(%s,%s)" % tuple(dig(pay(m, 3)).split("/"))
        for p in itertools.permutations(["rd(O,A), close(O)", "rd(E,B), close(E)", "wait(P,S)"]):
            cs.append(C("exec(%s,null,O,E,P), %s" % (k("w", n, m, 9), ", ".join(p)), "t(A,B,S)", t(a, b, 9)))
        cs.append(C("exec(%s,null,O,E), rd(E,B), rd(O,A), close(O), close(E)" % k("w", n, m, 9), "t(A,B)", t(a, b)))
    for n in BIG + [100000, 300000]:
        a = d2(n)
        cs.append(C("exec(%s,null,O,null,P), rd(O,A), close(O), wait(P,S)" % k("w", n, n, 1), "t(A,S)", t(a, 1)))
        cs.append(C("exec(%s,I,null,null,P), wb(I,%d), close(I), wait(P,S), ro(o1,A)" % (k("r", 2, "o1"), n), "t(A,S)", t(a, 2)))
        cs.append(C("exec(%s,I,O,null,P), wb(I,%d), close(I), rt(O,A), close(O), wait(P,S)" % (k("r", 2), n), "t(A,S)", t(a, 2)))
    # echo in small pieces, both ways
    for j in (1, 2, 10):
        for n in (1, 10, 1000):
            g = "exec(%s,I,O,null,P), rep(%d,(wr(I,%d), rn(O,%d,R), R = %s)), close(I), rd(O,Z), close(O), wait(P,S)" % (k("c", 6), j, n, n, DG(n))
            cs.append(C(g, "t(Z,S)", t("/(0,0)", 6)))
    # several children at once: the end of file of each is its own
    for perm in itertools.permutations((1, 2, 3)):
        s = ", ".join("exec(%s,I%d,O%d,null,P%d)" % (k("c", j), j, j, j) for j in (1, 2, 3))
        w = ", ".join("wr(I%d,%d)" % (j, 10 * j) for j in (1, 2, 3))
        e = ", ".join("close(I%d), rd(O%d,R%d), close(O%d), wait(P%d,S%d)" % ((j,) * 6) for j in perm)
        cs.append(C("%s, %s, %s" % (s, w, e), "t(R1,R2,R3,S1,S2,S3)", t(d2(10), d2(20), d2(30), 1, 2, 3)))
        e = ", ".join("close(I%d)" % j for j in perm) + ", " + ", ".join("rd(O%d,R%d), close(O%d), wait(P%d,S%d)" % ((j,) * 5) for j in (1, 2, 3))
        cs.append(C("%s, %s, %s" % (s, w, e), "t(R1,R2,R3,S1,S2,S3)", t(d2(10), d2(20), d2(30), 1, 2, 3)))
    for a, b in itertools.product(("exec(%s,I,O,null,P)" % k("c", 4), "popen(%s,write,I)" % k("r", 0, "o1"), "create_pipe(O,I)"), repeat=2):
        # a first process or pipe ends its input although a second one lives
        def ren(x, n):
            return x.replace("(O,I)", "(O%d,I%d)" % (n, n)).replace(",I,O,null,P)", ",I%d,O%d,null,P%d)" % (n, n, n)).replace(",write,I)", ",write,I%d)" % n).replace("o1", "o%d" % n)

        def fin(x, n):
            if x.startswith("exec"):
                return "wr(I%d,5), close(I%d), rd(O%d,R%d), close(O%d), wait(P%d,_)" % ((n,) * 6)
            if x.startswith("popen"):
                return "wr(I%d,5), close(I%d), ro(o%d,R%d)" % ((n,) * 4)
            return "wr(I%d,5), close(I%d), rd(O%d,R%d), close(O%d)" % ((n,) * 5)
        for o in ((1, 2), (2, 1)):
            if a.startswith("create") and not b.startswith("create") and o == (1, 2):
                continue    # the child started later has the pipe too: left open
            f = {1: fin(a, 1), 2: fin(b, 2)}
            cs.append(C("%s, %s, %s, %s" % (ren(a, 1), ren(b, 2), f[o[0]], f[o[1]]), "t(R1,R2)", t(d2(5), d2(5))))
    # a standard stream of Prolog given to a child
    for g, e in (("exec('echo a; echo b >&2',null,user_error,O,P), rn(O,2,R), close(O), wait(P,S)", None),):
        pass
    cs.append(C("exec('exec %s w 0 5 3',null,user_error,O,P), rd(O,R), close(O), wait(P,S)" % KID, "t(R,S)", t("/(%s,%s)" % tuple(dig(pay(5, 3)).split("/")), 3)))
    cs.append(C("exec('exec %s w 5 0 3',null,O,user_error,P), rd(O,R), close(O), wait(P,S)" % KID, "t(R,S)", t(d2(5), 3)))
    cs.append(C("exec('exec %s w 5 0 3',null,O,user_output,P), rd(O,R), close(O), wait(P,S)" % KID, "t(R,S)", t(d2(5), 3)))
    # a standard stream for another one
    for o, e in itertools.product(("null", "O", "user_output", "user_error"), ("null", "E", "user_output", "user_error")):
        for n, m in ((10, 7), (0, 7), (10, 0)):
            g = "exec(%s,null,%s,%s,P)" % (k("w", n, m, 7), o, e)
            r, x = ["S"], ["7"]
            for v, c, dd in (("O", o, d2(n)), ("E", e, "/(%s,%s)" % tuple(dig(pay(m, 3)).split("/")))):
                if c == v:
                    g += ", rd(%s,R%s), close(%s)" % (v, v, v)
                    r.append("R" + v)
                    x.append(dd)
            cs.append(C(g + ", wait(P,S)", t(*r), t(*x)))
    yield "exec more", cs


def fam_pos(tier):
    """starting processes does not disturb the streams of Prolog"""
    cs = []
    hows = ["spawn('/nodir/none',[],_)", "spawn(none_such_command,[],_)", "spawn(true,[])", "spawn(%s,[e,'3'],_)" % q(KID), "shell(true)", "shell('none_such_command 2>/dev/null',_)", "system('exit 1',_)", "exec(true,null,null,null)", "exec('/nodir/none',null,null,null)",
            "exec(none_such_command,null,null,null,P), wait(P,_)", "exec(true,null,null,null,P), wait(P,_)", "popen(true,read,P), close(P)", "popen('none_such_command 2>/dev/null',write,P), close(P)", "fork_prolog(P), ( P = 0 -> pc_exit(0) ; true ), wait(P,_)",
            "exec('%s c 0',H,O,null,P), close(H), rd(O,_), close(O), wait(P,_)" % KID]
    for n in (10, 5000, 20000):
        for j in (0, 1, 4096, 4100):
            if j > n:
                continue
            for h in hows:
                if "halt" in h and n > 4096:
                    pass
                cs.append(C("mk(f1,%d), open(f1,read,S), rn(S,%d,_), catch(( %s ; true ),_,true), rd(S,_/_), close(S), open(f1,read,S2), rn(S2,%d,_), catch(( %s ; true ),_,true), rd(S2,R), close(S2)" % (n, j, h, j, h), "R", "/(%s,%s)" % tuple(dig(pay(n)[j:]).split("/")))
                          if False else C("mk(f1,%d), open(f1,read,S), rn(S,%d,_), catch(( %s ; true ),_,true), rd(S,R), close(S)" % (n, j, h), "R", "/(%s,%s)" % tuple(dig(pay(n)[j:]).split("/"))))
    for h in [h for h in hows if "halt" not in h]:      # and what is buffered for output goes out once
        for b in ("line", "block"):
            cs.append(C("open(f1,write,S,[buffering(%s)]), write(S,abc), catch(( %s ; true ),_,true), write(S,def), close(S), open(f1,read,T), rl(T,L), close(T), atom_codes(A,L)" % (b, h), "A", "abcdef"))
    yield "positions", cs


def fam_fork(tier):
    cs = []
    for n in SIZES[:9] + [4096, 30000] + BIG + [200000]:
        cs.append(C("create_pipe(I,O), fork((close(I), wr(O,%d), close(O)),P), close(O), rd(I,R), close(I), wait(P,S)" % n, "t(R,S)", t(d2(n), 0)))
        cs.append(C("create_pipe(I,O), fork((close(O), rd(I,R), R = %s),P), close(I), wb(O,%d), close(O), wait(P,S)" % (DG(n), n), "S", "0"))
        cs.append(C("create_pipe(I,O), create_pipe(I2,O2), fork((close(O), close(I2), rd(I,R), write(O2,R), write(O2,'.\\n'), close(O2)),P), close(I), close(O2), wb(O,%d), close(O), rt(I2,R), close(I2), wait(P,S)" % n, "t(R,S)", t(d2(n), 0)))
        if n <= 30000:
            cs.append(C("create_pipe(I,O), wr(O,%d), close(O), rd(I,R), close(I)" % n, "R", d2(n)))
            cs.append(C("create_pipe(I,O), wr(O,%d), rn(I,%d,R), close(O), rd(I,Z), close(I)" % (n, n), "t(R,Z)", t(d2(n), "/(0,0)")))
            cs.append(C("create_pipe(I,O), wr(O,%d), close(O), exec(%s,I,X,null,P), close(I), rd(X,R), close(X), wait(P,S)" % (n, k("c", 8)), "t(R,S)", t(d2(n), 8)))
            cs.append(C("create_pipe(I,O), exec(%s,null,O,null,P), close(O), rd(I,R), close(I), wait(P,S)" % k("w", n, 0, 8), "t(R,S)", t(d2(n), 8)))
            cs.append(C("create_pipe(I,O), exec(%s,null,O,null,P), close(O), exec(%s,I,X,null,Q), close(I), rd(X,R), close(X), wait(Q,T), wait(P,S)" % (k("w", n, 0, 8), k("c", 9)), "t(R,S,T)", t(d2(n), 8, 9)))
        if n:
            cs.append(C("create_pipe(I,O), peek_it(I,O,%d,R)" % n, "R", "no") if False else C("create_pipe(I,O), wr(O,1), peek_code(I,X), rn(I,1,R), wr(O,%d), close(O), rd(I,Q), close(I)" % min(n, 30000), "t(X,R,Q)", t(1, d2(1), d2(min(n, 30000)))))
    # reading again after the end of file (eof_action(reset))
    cs.append(C("create_pipe(I,O), close(O), get_code(I,A), get_code(I,B), peek_code(I,E), rd(I,R), close(I)", "t(A,B,E,R)", t(-1, -1, -1, "/(0,0)")))
    # both children of one parent, ended in the two orders
    for o in ("wait(P,S), wait(Q,T)", "wait(Q,T), wait(P,S)"):
        cs.append(C("forkx(true,3,P), forkx(sleep(0.05),4,Q), %s" % o, "t(S,T)", t(3, 4)))
    # a child of a child
    cs.append(C("forkx((forkx(true,7,Q), wait(Q,7)),3,P), wait(P,S)", "S", "3"))
    # the child has the state of the parent, the parent that of before
    cs.append(C("X = f(Y), g_assign(v,1), forkx((X == f(Y), g_read(v,1), g_assign(v,2), Y = 1),5,P), wait(P,S), g_read(v,V)", "t(X,V,S)", "t(f('_G'(0)),1,5)"))
    cs.append(C("fork_prolog(P), ( P = 0 -> prolog_pid(Q), ( Q > 0 -> pc_exit(6) ; true ) ; true ), prolog_pid(Q), Q =\\= P, wait(P,S)", "S", "6"))
    yield "fork", cs


def fam_select(tier):
    cs = []
    ST = ("empty", "data", "eof", "dataeof")
    for n in (1, 2, 3):
        for st in itertools.product(ST, repeat=n):
            for form in ("stream", "alias") if n > 1 else ("stream", "alias"):
                for to in (("1", "20.5") if n < 3 else ("1",)):
                    g, name = [], []
                    for j, s in enumerate(st):
                        g.append("create_pipe(I%d,O%d), set_stream_buffering(I%d,none)" % (j, j, j))
                        if "data" in s:
                            g.append("wr(O%d,3)" % j)
                        if "eof" in s:
                            g.append("close(O%d)" % j)
                        if form == "alias":
                            g.append("set_stream_alias(I%d,ps%d)" % (j, j))
                        name.append("I%d" % j if form == "stream" else "ps%d" % j)
                    ready = [j for j, s in enumerate(st) if s != "empty"]
                    end = ", ".join("close(I%d)%s" % (j, "" if "eof" in s else ", close(O%d)" % j) for j, s in enumerate(st))
                    want = "[%s]" % ",".join(name[j] for j in ready)
                    cs.append(C("%s, select([%s],R,[],W,%s), R == %s, %s" % (", ".join(g), ",".join(name), to, want, end), "W", "[]"))
                    if n < 3:
                        for ws in itertools.chain.from_iterable(itertools.combinations([j for j, s in enumerate(st) if "eof" not in s], r) for r in (1, 2)):
                            wl = "[%s]" % ",".join("O%d" % j for j in ws)
                            cs.append(C("%s, select([%s],R,%s,W,%s), R == %s, W == %s, %s" % (", ".join(g), ",".join(name), wl, to, want, wl, end), "y", "y"))
                    if ready and n < 3:     # no time limit: something is ready
                        cs.append(C("%s, select([%s],R,[],W,0), R == %s, %s" % (", ".join(g), ",".join(name), want, end), "W", "[]"))
                        cs.append(C("%s, select([%s],R,[],W,-1), R == %s, %s" % (", ".join(reversed(g[:0])) + ", ".join(g), ",".join(reversed(name)), "[%s]" % ",".join(name[j] for j in reversed(ready)), end), "W", "[]"))
    # a full pipe is not ready for writing; descriptors as integers
    cs.append(C("create_pipe(I,O), set_stream_buffering(O,none), create_pipe(J,Q), wr(O,65536), select([I],R,[O,Q],W,5), R == [I], W == [Q], cl([I,O,J,Q])", "y", "y"))
    cs.append(C("create_pipe(I,O), stream_property(I,file_no(F)) -> true ; true", "y", "y", 2) if False else C("select([],R,[1],W,5)", "t(R,W)", "t([],'.'(1,[]))"))
    cs.append(C("create_pipe(I,O), wr(O,1), select([I],[],[],_,5)", "y", "no", 2))
    cs.append(C("create_pipe(I,O), wr(O,1), select([I],[X],[],[],5), X == I, cl([I,O])", "y", "y"))
    # data arriving while waiting
    cs.append(C("create_pipe(I,O), fork((sleep(0.05), wr(O,4)),P), select([I],R,[],_,5000), R == [I], rn(I,4,D), wait(P,S), cl([I,O])", "t(D,S)", t(d2(4), 0)))
    cs.append(C("create_pipe(I,O), fork((sleep(0.05), wr(O,4)),P), select([I],R,[],_,0), R == [I], rn(I,4,D), wait(P,S), cl([I,O])", "t(D,S)", t(d2(4), 0)))
    yield "select", cs


def fam_socket(tier):
    cs = []
    sizes = [0, 1, 500, 4096, 4097, 30000] if tier == "quick" else SIZES + [16384, 30000]
    for dom in ("AF_UNIX", "AF_INET"):
        mk = "socket('AF_UNIX',L), socket_bind(L,'AF_UNIX'(sock1)), socket_listen(L,4), A = 'AF_UNIX'(sock1)" if dom == "AF_UNIX" else "socket('AF_INET',L), socket_bind(L,'AF_INET'(_,P)), socket_listen(L,4), A = 'AF_INET'('127.0.0.1',P)"
        con = "socket('%s',C), socket_connect(C,A,CI,CO)" % dom
        for acc in ("socket_accept(L,SI,SO)", "socket_accept(L,W,SI,SO), %s" % ("W == '127.0.0.1'" if dom == "AF_INET" else "var(W)")):
            for n in sizes:
                base = "%s, %s, %s, " % (mk, con, acc)
                cs.append(C(base + "wr(CO,%d), close(CO), close(CI), rd(SI,R), cl([SI,SO]), socket_close(L)" % n, "R", d2(n)))
                cs.append(C(base + "wr(SO,%d), cl([SO,SI]), rd(CI,R), cl([CI,CO]), socket_close(L)" % n, "R", d2(n)))
                cs.append(C(base + "wr(SO,%d), wr(CO,%d), rn(CI,%d,R), rn(SI,%d,Q), cl([CI,CO,SI,SO]), socket_close(L)" % (n, n, n, n), "t(R,Q)", t(d2(n), d2(n))))
                if n:
                    cs.append(C(base + "wr(CO,%d), select([SI],X,[SO],Y,1000), X == [SI], Y == [SO], rn(SI,%d,R), set_stream_buffering(SI,none), select([SI],Z,[],_,1), cl([CI,CO,SI,SO]), socket_close(L)" % (n, n), "t(R,Z)", t(d2(n), "[]")) if False else
                              C(base + "wr(CO,%d), select([SI,CI],X,[SO],Y,1000), X == [SI], Y == [SO], rn(SI,%d,R), cl([CI,CO,SI,SO]), socket_close(L)" % (n, n), "R", d2(n)))
                for b, w in (("none", 100), ("line", 5000), ("block", 5000)):
                    cs.append(C(base + "set_stream_buffering(CO,%s), wb(CO,%d), flush_output(CO), rn(SI,%d,R), cl([CI,CO,SI,SO]), socket_close(L)" % (b, min(n, w), min(n, w)), "R", d2(min(n, w))))
            for p in itertools.permutations(["close(CI)", "close(CO)", "close(SI)", "close(SO)", "socket_close(L)"]):
                cs.append(C(base + "wr(CO,7), rn(SI,7,R), " + ", ".join(p), "R", d2(7)))
        # the server in a child
        for n in sizes + [100000]:
            cs.append(C("%s, fork((socket_accept(L,SI,SO), rn(SI,%d,R), write(SO,R), write(SO,'.\\n'), cl([SI,SO])),K), %s, wr(CO,%d), rt(CI,R), cl([CI,CO]), wait(K,S), socket_close(L)" % (mk, n, con, n), "t(R,S)", t(d2(n), 0)))
            cs.append(C("%s, fork((socket_accept(L,SI,SO), wr(SO,%d), cl([SI,SO])),K), %s, rd(CI,R), cl([CI,CO]), wait(K,S), socket_close(L)" % (mk, n, con), "t(R,S)", t(d2(n), 0)))
        # clients waiting in the queue are accepted in order
        cs.append(C("%s, socket('%s',C), socket_connect(C,A,I1,O1), socket('%s',D), socket_connect(D,A,I2,O2), wr(O1,3), wr(O2,4), socket_accept(L,I3,O3), socket_accept(L,I4,O4), rn(I3,3,R), rn(I4,4,Q), cl([I1,I2,I3,I4,O1,O2,O3,O4]), socket_close(L)" % (mk, dom, dom), "t(R,Q)", t(d2(3), d2(4))))
        cs.append(C("%s, select([L],X,[],_,1), %s, select([L],Y,[],_,1), Y == [L], socket_accept(L,SI,SO), cl([CI,CO,SI,SO]), socket_close(L)" % (mk, con), "X", "[]"))
        cs.append(C("socket('%s',S), socket_close(S)" % dom, "y", "y"))
        cs.append(C("socket('%s',S), catch(socket_connect(S,%s,_,_),E,true), nonvar(E), socket_close(S)" % (dom, "'AF_UNIX'(no_such_sock)" if dom == "AF_UNIX" else "'AF_INET'('127.0.0.1',1)"), "y", "y"))
        cs.append(C("socket('%s',S), socket_close(S), socket_close(S)" % dom, "y", "e(system)"))
        cs.append(C("socket('%s',S), socket_close(S), socket_listen(S,1)" % dom, "y", "e(system)"))
    # names of every length around the limit of the system
    base = "/tmp/" if False else TMP + "/"
    for n in list(range(95, 125)) + [200, 250, 255]:
        name = base + "s" * max(1, n - len(base))
        if len(name) < n:
            continue
        good = len(name) <= 107
        g = "socket('AF_UNIX',L), catch((socket_bind(L,'AF_UNIX'(%s)), socket_listen(L,1), socket('AF_UNIX',C), socket_connect(C,'AF_UNIX'(%s),CI,CO), socket_accept(L,SI,SO), wr(CO,3), rn(SI,3,R), cl([CI,CO,SI,SO])),error(system_error(_),_),R = sys), socket_close(L)" % (q(name), q(name))
        cs.append(C(g, "R", d2(3) if good else ["sys", d2(3)]))
    yield "socket", cs


FAMS = (fam_status, fam_args, fam_popen, fam_exec, fam_pos, fam_fork, fam_select, fam_socket)


def gen(i, n, tier):
    """every family cut in chunks"""
    j = 0
    for f in FAMS:
        for key, cs in f(tier):
            for a in range(0, len(cs), 25):
                if j % n == i:
                    yield key, SETUP, cs[a:a + 25]
                j += 1


def main():
    global KID, TMP
    ck = Check("C40")
    x = exe(open(os.path.join(D, "drv.pl")).read(), files=(os.path.join(D, "pc.c"),))
    TMP = tempfile.mkdtemp(prefix="tmp-c40-", dir=WORK)
    try:
        KID = os.path.join(TMP, "kid")
        subprocess.run(["gcc", "-O1", "-o", KID, os.path.join(D, "kid.c")], check=True)
        run_lines(ck, "process", x, gen, shards=16, timeout=25)
    finally:
        shutil.rmtree(TMP, ignore_errors=True)
    return ck.finish(rule="every exit status and signal x every predicate starting a process; every argument list up to a length; every combination of redirections x sizes; every state of up to 3 pipes under select; every order of closing")
