"""C17: stream input delivers every character once, in order.

Every operation sequence up to a depth on every short source, for each kind of stream, end-of-file action, buffering
and way of naming the stream, against an abstract input stream."""
import itertools
from vlib import streams
from vlib.cases import run_cases, server_exe
from vlib.lines import run_lines
from vlib.report import Check
from vlib.streams import case, Skip


def contents(alpha, n):
    return ["".join(x) for l in range(n + 1) for x in itertools.product(alpha, repeat=l)]


def seqs(ops, n):
    for l in range(1, n + 1):
        yield from itertools.product(ops, repeat=l)


def scen(data, text, eof, repos, how, opts, ops, depth, pos=False, mode="read", src=None):
    cs = []
    for w in seqs(ops, depth):
        try:
            cs.append(case(data, w, text, eof, repos, pos))
        except Skip:
            pass
    codes = "[" + ",".join(str(ord(c)) for c in data) + "]"
    if mode == "read":
        o = "[type(%s),eof_action(%s)%s%s]" % ("text" if text else "binary", eof, ",reposition(false)" if not repos else "", opts)
        setup = "st_file('f', %s).\nst_set('f', read, %s, %s).\n" % (codes, o, how)
    else:
        setup = "st_set(%s, %s, [], %s).\n" % (src, mode, how)
    return "%r %s %s%s %s%s %s" % (data, "text" if text else "binary", eof, "" if repos else " no reposition", how, opts, mode if mode != "read" else ""), setup + "driver(st).\n", cs


def fam_text(i, n, tier):
    ops = "gcpkuUerfF"
    k = 0
    for data in contents("a.\n", 3 if tier == "quick" else 4):
        for eof in ("error", "eof_code", "reset"):
            for how, opts, d in (("arg-nopos", "", 4 if tier == "quick" else 5), ("cur-nopos", ",buffering(none)", 3), ("arg-nopos", ",buffering(none)", 3), ("arg-nopos", ",buffering(line)", 3)):
                for repos in (True, False):
                    k += 1
                    if k % n == i and (repos or how != "cur-nopos"):
                        yield scen(data, True, eof, repos, how, opts, ops + ("E" if d < 4 else ""), d if repos else 3)


def fam_wrong(i, n, tier):
    """character operations on binary streams and the converse leave the stream as it was"""
    k = 0
    for data in contents("a\n", 3):
        for eof in ("error", "eof_code", "reset"):
            for how in ("arg-nopos", "cur-nopos"):
                k += 1
                if k % n == i:
                    yield scen(data, True, eof, True, how, "", "gpubqve", 4)
                    yield scen(data, False, eof, True, how, "", "bqvgpukre", 4)


def fam_const(i, n, tier):
    """constant streams"""
    k = 0
    for data in contents("a.\n", 3 if tier == "quick" else 4):
        for mode in ("codes", "chars", "atom"):
            for how in ("arg-nopos", "cur-nopos"):
                k += 1
                if k % n == i:
                    l = ["'\\n'" if c == "\n" else "'%s'" % c for c in data]
                    src = {"codes": "[" + ",".join(str(ord(c)) for c in data) + "]", "chars": "[" + ",".join(l) + "]", "atom": "'" + data.replace("\n", "\\n") + "'"}[mode]
                    yield scen(data, True, "eof_code", False, how, "", "gcpkuUer", 4 if how[0] == "a" else 3, mode=mode, src=src)


def fam_long(i, n, tier):
    """sources larger than the buffers: reading with peeks and ungets at every alignment"""
    k = 0
    for size in (4095, 4096, 4097, 8192, 8193, 20000):
        for opts in ("", ",buffering(none)", ",buffering(line)"):
            for pat in ("g", "pg", "gug", "ggg" + "uuu" + "ggg", "gpugg"):
                k += 1
                if k % n != i:
                    continue
                data = "".join("abc\n"[j * 7 % 4] if j % 3 else chr(97 + j % 26) for j in range(size))
                ops = (pat * size)[:size * 2 + 10]
                t, a = case(data, ops)
                codes = "[" + ",".join(str(ord(c)) for c in data) + "]"
                yield "%d %s %s" % (size, pat, opts), "st_file('f', %s).\nst_set('f', read, [type(text)%s], arg-nopos).\ndriver(st).\n" % (codes, opts), [(t, a)]


def fam_dec10(i, n, tier):
    """get/1, get0/1 and skip/1 on the current input"""
    k = 0
    for data in contents("a \n", 3):
        for eof in ("error", "eof_code"):
            for w in seqs(("g", "0", "s"), 3):
                k += 1
                if k % n != i:
                    continue
                pos, past, out, gs = 0, False, [], []
                err = None
                for j, o in enumerate(w):
                    gs.append({"g": "get(X%d)", "0": "get0(X%d)", "s": "skip(0'a),X%d=s"}[o] % j)
                    if err:
                        continue
                    while True:
                        if pos == len(data):
                            if past and eof == "error":
                                err = "permission"
                                break
                            past = True
                            c = -1
                        else:
                            c = ord(data[pos])
                            pos += 1
                        if o == "s" and c == -1 and eof == "eof_code":
                            err = "loop"
                            break
                        if o == "0" or (o == "g" and (c == -1 or c > 32)) or (o == "s" and c == 97):
                            out.append("s" if o == "s" else str(c))
                            break
                    if err:
                        continue
                if err == "loop":
                    continue
                codes = "[" + ",".join(str(ord(c)) for c in data) + "]"
                g = "(open(f,write,S0),(member(C,%s),put_code(S0,C),fail;true),close(S0),open(f,read,S,[eof_action(%s)]),set_input(S),catch((%s),error(E,_),true),set_input(user_input),close(S),(nonvar(E)->E=permission_error(A,B,_);true))" % (codes, eof, ",".join(gs))
                yield "%r %s %s" % (data, eof, "".join(w)), 2, "t(A,B%s)" % "".join(",X%d" % j for j in range(len(w))), g, \
                    (("=t(input,past_end_of_stream" if err else "=t('_G'(0),'_G'(1)") + "".join("," + x for x in out) if not err else "") + ")\tno" if not err else None


def match_dec10(e, g):
    return g.startswith("=t(input,past_end_of_stream") if e is None else e == g


def main():
    ck = Check("C17")
    run_cases(ck, "get, get0, skip", server_exe(), fam_dec10, 8, match=match_dec10)
    x = streams.exe()
    run_lines(ck, "text files", x, fam_text)
    run_lines(ck, "wrong kind", x, fam_wrong)
    run_lines(ck, "constant streams", x, fam_const)
    run_lines(ck, "long sources", x, fam_long)
    return ck.finish(rule="every operation sequence up to the depth on every source, against an abstract stream")
