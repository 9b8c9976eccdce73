"""Carries out histories of operations with the Python bindings; see C20.cpp.

One history per input line, a Python literal; the reply is what happened, as
text, ended by a line holding a dot."""
import ast, gc, mmap, sys
import lightgrep as lg


def kind(data, how):
    if how == 1:
        return bytearray(data)
    if how == 2:
        return memoryview(data)
    if how == 3 and data:
        m = mmap.mmap(-1, len(data))
        m[:] = data
        return m
    return data


def hitline(h):
    return "hit %d %d %d %s %s" % (h["start"], h["end"], h["keywordIndex"], h["pattern"].encode().hex().upper(), h["encChain"])


def flush(out, acc):
    for h in acc.Hits:
        out.append(hitline(h))
    want = {}
    for h in acc.Hits:
        want[h["pattern"]] = want.get(h["pattern"], 0) + 1
    out.append("counts %s" % ("ok" if dict(acc.KeyCounts) == want else "wrong"))
    acc.reset()


def tryit(out, what, fn):
    try:
        return fn()
    except (RuntimeError, IndexError) as e:
        out.append("%s raised %s" % (what, str(e).encode().hex().upper()))
        return None


def run(h):
    out = []
    if h["bulk"]:
        def mk():
            pl = [(p.decode(), [e for e in encs], lg.KeyOpts(*o)) for p, encs, o in h["list"]]
            return lg.make_program_from_patterns(pl, lg.ProgOpts(h["depth"]))
        prog = tryit(out, "make", mk)
        if prog is None:
            return out
    else:
        fsm = lg.Fsm(0, 0)
        pat = lg.Pattern()
        for p, enc, o, user in h["adds"]:
            def add():
                pat.parse(p.decode(), lg.KeyOpts(*o))
                return fsm.add_pattern(pat, enc, user)
            i = tryit(out, "add", add)
            if i is not None:
                out.append("add %d" % i)
        out.append("count %d" % fsm.count())
        if h["closeearly"]:
            pat.close()
            tryit(out, "closed", lambda: pat.parse("a", lg.KeyOpts()))
        prog = tryit(out, "program", lambda: lg.Program(fsm, lg.ProgOpts(h["depth"])))
        if h["closeearly"]:
            fsm.close()
            tryit(out, "closed", lambda: fsm.count())
        if prog is None:
            return out
    out.append("patterns %d" % prog.count())
    if h["image"]:
        buf = prog.write()
        out.append("image %s" % ("ok" if len(buf) == prog.size() else "wrong"))
        if h["image"] == 2:
            buf = bytes(buf)
        prog.close()
        tryit(out, "closed", lambda: prog.count())
        prog = lg.Program(buf)
        del buf
        gc.collect()
        junk = [bytes(64) for _ in range(100)]          # what was let go will be overwritten
        del junk
        out.append("patterns %d" % prog.count())
    acc = lg.HitAccumulator()
    dec = lg.HitDecoder()
    with lg.Context(prog, lg.CtxOpts()) as ctx:
        for op in h["ops"]:
            what = op[0]
            if what == "search":
                out.append("ret %s" % ctx.search(kind(op[1], op[3]), op[2], acc))
            elif what == "starts":
                ctx.startswith(kind(op[1], op[3]), op[2], acc)
            elif what == "closeout":
                ctx.closeout(acc)
            elif what == "reset":
                ctx.reset()
            elif what == "buffer":
                out.append("n %d" % ctx.searchBuffer(kind(op[1], op[3]), acc))
            elif what == "startsbuffer":
                out.append("n %d" % ctx.searchBufferStartswith(kind(op[1], op[3]), acc))
            elif what == "context":
                ctx.search(kind(op[1], op[3]), op[2], acc)
                ctx.closeout(acc)
                ctx.reset()
                hits = list(acc.Hits)
                flush(out, acc)
                win = (op[4],) if op[4] >= 0 else ()
                for x in hits:
                    r = dec.full_hit_context(kind(op[1], op[3]), op[2], x, *win)
                    s = r["hit_context"]
                    if dec.hit_context(kind(op[1], op[3]), op[2], x, *win) != s:
                        out.append("hit_context differs")
                    out.append("context %d %d %d %d %s" % (r["context_begin"], r["context_end"], r["context_hit_begin"], r["context_hit_end"], s.encode().hex().upper()))
            flush(out, acc)
    tryit(out, "closed", lambda: ctx.reset())
    if h["closeprog"]:
        with lg.Context(prog, lg.CtxOpts()) as c2:
            prog.close()
            tryit(out, "closed", lambda: c2.search(b"a", 0, acc))
    return out


for line in sys.stdin:
    try:
        o = run(ast.literal_eval(line))
    except BaseException as e:                          # nothing else is expected to be raised
        o = ["unexpected %s: %s" % (type(e).__name__, e)]
    sys.stdout.write("".join(x.replace("\n", " ") + "\n" for x in o) + ".\n")
    sys.stdout.flush()
