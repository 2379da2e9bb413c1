"""C18: stream positions are exact and restorable.

Input: every sequence of reads, peeks, ungets, position saves, restores, line/column moves and seeks up to a depth on
every short source, against an abstract stream that prints the same counters after each operation. Output: every
sequence of writes and moves; the counters after each and the final content of the file."""
import itertools
from vlib import streams, lines
from vlib.lines import run_lines
from vlib.report import Check
from checks.c17_input import contents, scen, seqs


def fam_text(i, n, tier):
    k = 0
    q = tier == "quick"
    for data in contents("a\n", 3 if q else 4) + ["aa\na", "\n\na\n", "a\n\na", "aaa\n", "a.a.", "a.\na", ".a\n.", "a.\n."]:
        for eof in ("error", "eof_code", "reset"):
            for repos in (True, False):
                for how in ("arg-pos", "cur-pos"):
                    k += 1
                    if k % n != i or (not repos and how[0] == "c"):
                        continue
                    ops = "gpustACDG" + ("r" if "." in data else "e" if eof != "reset" else "") if how[0] == "a" else "gpurstCG"
                    yield scen(data, True, eof, repos, how, "", ops, (4 if q else 5) if repos and how[0] == "a" and eof != "error" else 3, pos=True)
                    yield scen(data, True, eof, repos, how, "", "gstBHruE" if eof != "reset" else "gstBHru", 3, pos=True)


def fam_binary(i, n, tier):
    k = 0
    q = tier == "quick"
    for data in contents("a\n", 3 if q else 4):
        for eof in ("error", "eof_code", "reset"):
            for repos in (True, False):
                k += 1
                if k % n == i:
                    yield scen(data, False, eof, repos, "arg-pos", "", "bqvst0246", 4 if repos else 3, pos=True)
                    yield scen(data, False, eof, repos, "arg-pos", ",buffering(none)", "bqvst135D", 3, pos=True)


def fam_const(i, n, tier):
    k = 0
    for data in contents("a.\n", 3):
        for mode in ("codes", "chars", "atom"):
            k += 1
            if k % n == i:
                l = ["'\\n'" if c == "\n" else "'%s'" % c for c in data]
                src = {"codes": "[" + ",".join(str(ord(c)) for c in data) + "]", "chars": "[" + ",".join(l) + "]", "atom": "'" + data.replace("\n", "\\n") + "'"}[mode]
                yield scen(data, True, "eof_code", False, "arg-pos", "", "gpuerst", 4, pos=True, mode=mode, src=src)


OUT = streams.DRV + r"""
so(In) :-
	lx_line(In, L),
	st_opt(F, M, O, C),
	( st_init(I) -> st_file(F, I) ; true ),
	open(F, M, S, O), st_pos(S), put_char(' '),
	g_assign(st_p, []),
	so_ops(L, S),
	close(S),
	open(F, read, S2, [type(binary)]), so_cat(S2), close(S2), nl.
:- dynamic(st_init/1).
so_ops([], _).
so_ops([O|L], S) :- ( catch(so_do(O, S), E, st_err(E)) -> true ; write(no) ), st_pos(S), put_char(' '), so_ops(L, S).
so_cat(S) :- get_byte(S, B), ( B =:= -1 -> true ; B =:= 10 -> put_char('$'), so_cat(S) ; B =:= 0 -> put_char(^), so_cat(S) ; put_byte_(B), so_cat(S) ).
put_byte_(B) :- char_code(C, B), put_char(C).
so_do(0'x, S) :- put_char(S, x).
so_do(0'y, S) :- put_code(S, 0'y).
so_do(0'n, S) :- nl(S).
so_do(0'w, S) :- write(S, ab).
so_do(0'q, S) :- writeq(S, 'c\n').
so_do(0'T, S) :- write_term(S, ' ', []), put_char(S, ' ').
so_do(0'f, S) :- format(S, "~w~n~a", [z,z]).
so_do(0'o, S) :- put_byte(S, 0'o).
so_do(0'N, S) :- put_byte(S, 10).
so_do(0'F, S) :- flush_output(S).
so_do(O, S) :- st_x(O, [], S).
"""

TXT = dict(x="x", y="y", n="\n", w="ab", q="'c\\n'", T="  ", f="z\nz", o="o", N="\n")


def out_case(w, init, mode, text, repos):
    d = list(init) if mode == "append" else []
    pos = 0
    cc = lc = lp = 0
    saved = None
    a = ""
    ok = True

    def cnt():
        return "@%d" % cc + (":%d:%d" % (lc, lp) if text else "")
    a += cnt() + " "
    for o in w:
        r = ""
        if o in TXT:
            if (o in "oN") == text:
                r = "!text_stream" if text else "!binary_stream"
            else:
                for c in TXT[o]:
                    if mode == "append":
                        d.append(c)
                    else:
                        while len(d) < pos:
                            d.append("\0")
                        d[pos:pos + 1] = [c]
                        pos += 1
                    cc += 1
                    if c == "\n":
                        lc += 1
                        lp = 0
                    else:
                        lp += 1
        elif o == "F":
            pass
        elif o == "s":
            if mode == "append":
                return None
            saved = (pos, cc, lc, lp)
            r = "s"
        elif o == "t":
            if saved is None or mode == "append":
                return None
            if not repos:
                r = "!stream"
            else:
                pos, cc, lc, lp = saved
                r = "t"
        elif o in "0123456":
            if mode == "append":
                return None
            if not repos:
                r = "!stream"
            elif text:
                r = "!text_stream"
            else:
                wh, k = (("bof", 0), ("bof", 1), ("cur", 0), ("cur", 1), ("cur", -1), ("eof", 0), ("eof", -1))[int(o)]
                p = dict(bof=0, cur=pos, eof=len(d))[wh] + k
                if p < 0:
                    r = "no"
                else:
                    pos = cc = p
                    r = str(p)
        a += r + cnt() + " "
    return "".join(w), a + "".join(d).replace("\n", "$").replace("\0", "^")


def fam_out(i, n, tier):
    k = 0
    q = tier == "quick"
    for text in (True, False):
        ops = "xynwqTfstF" if text else "oNst01246F"
        for repos in (True, False):
            for mode in ("write", "append"):
                for buf in ("none", "line", "block"):
                    for first in ops:
                        k += 1
                        if k % n != i:
                            continue
                        cs = []
                        for w in seqs(ops + ("o" if text else "x"), 3 if q else 4):
                            if w[0] == first or not first:
                                c = out_case(w, "k\n", mode, text, repos)
                                if c:
                                    cs.append(c)
                        yield "%s %s %s %s" % ("text" if text else "binary", repos, mode, buf), "assertz(st_init([107,10])).\nst_set('f', %s, [type(%s),reposition(%s),buffering(%s)], x).\ndriver(so).\n" % (mode, "text" if text else "binary", str(repos).lower(), buf), cs


def main():
    ck = Check("C18")
    x = streams.exe()
    run_lines(ck, "text input", x, fam_text)
    run_lines(ck, "binary input", x, fam_binary)
    run_lines(ck, "constant streams", x, fam_const)
    run_lines(ck, "output", lines.exe(OUT), fam_out)
    return ck.finish(rule="every operation sequence up to the depth: the counters after each operation, the data after a restore, the file content")
