"""C34: damaged logs, every point of damage."""
import contextlib, io, os, shutil
import explore, impl, worlds
from core import Outcome, check
from game import document

DOCS, REF = [], {}


def setup(tier):
    ws = worlds.general(ks=(0,), horizon=4)
    DOCS[:] = [document([ws[0].run(()).xml()], 169), document([ws[1].run(()).xml(), ws[2].run(()).xml()], 169),
               '<?xml version="1.0" encoding="UTF-8"?>\n' + document([ws[3].run(()).xml()], 161).replace("/><", "/>\n<") + "\n"]
    long = worlds.whole(ks=range(8), rounds=(8,))
    DOCS.append(document([w.run(()).xml() for w in long], 169))


def damages(i, tier):
    """(name, bytes): every way to damage document i"""
    b = DOCS[i].encode()
    end = b.index(b"</mjloggm>") + len(b"</mjloggm>")
    n = len(b)
    big = n > 20000
    step = 1 if tier != "quick" or not big else 29
    for k in range(0, end, step):
        yield "cut at byte %d" % k, b[:k]
    for k in range(0, end, step * 3):
        yield "zeros from byte %d" % k, b[:k] + bytes(n - k)
    for size in (1, 16, 512, 4096):
        for k in range(0, end, max(size, step) if size > 1 else step * 7):
            if b[k:k + size].strip():
                yield "%d zero bytes at byte %d" % (size, k), (b[:k] + bytes(size) + b[k + size:])[:n]
    for k in range(0, n, step * 5):
        # written again from the start, or another file's beginning after the end
        yield "followed by its first %d bytes" % (k + 1), b + b[:k + 1].rstrip() + b"<"
    yield "twice", b[:end] + b
    yield "twice with a line between", b + b"\n" + b
    for k in range(0, end, step * 7):
        yield "first %d bytes, then from the start" % k, b[:k] + b if not b[:k].strip() == b"" else b"<" + b


def _convert(job):
    i, lo, hi, tier = job
    n, bad = 0, []
    for j, (name, data) in enumerate(damages(i, tier)):
        if not lo <= j < hi:
            continue
        p = impl.write("torn.xml", data)
        n += 1
        try:
            with impl.watchdog(60):
                kind, x = impl.try_convert(p)
        except impl.Hang:
            bad.append("document %d, %s: the conversion does not end" % (i, name))
            break
        if kind == "ok":
            bad.append("document %d (%d bytes), %s: converted, with %d rounds" % (i, len(DOCS[i]), name, len(x[0])))
            break
        if isinstance(x, SystemExit):
            bad.append("document %d, %s: ends the process" % (i, name))
            break
    return n, bad


def _load(job):
    i, lo, hi, tier = job
    from MahjongAI.utils.dataloader import DataLoader
    root = os.path.join(impl.scratch(), "torn")
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    names = ["a.xml", "b.xml", "c.xml"]
    good = [DOCS[0], DOCS[2]]
    for nm, g in zip(("a.xml", "c.xml"), good):
        with open(os.path.join(root, nm), "w") as f:
            f.write(g)
    def fz(doc):
        kind, x = impl.try_convert(impl.write("whole.xml", doc))
        return impl.freeze(x)
    ref = {fz(g): k for k, g in enumerate(good)}
    n, bad = 0, []
    for j, (name, data) in enumerate(damages(i, tier)):
        if not lo <= j < hi or j % (11 if tier == "quick" else 3):
            continue
        with open(os.path.join(root, "b.xml"), "wb") as f:
            f.write(data)
        want = [k for k in ({"a.xml": 0, "c.xml": 1}.get(x) for x in os.listdir(root)) if k is not None]
        for bs in (1, 3):
            n += 1
            got = []
            try:
                with impl.watchdog(60), contextlib.redirect_stdout(io.StringIO()):
                    for games, toks in DataLoader(root, bs, log_func=lambda *a: None):
                        got += [ref.get(impl.freeze(x), "something else") for x in zip(games, toks)]
            except (Exception, SystemExit, impl.Hang) as ex:
                got = "%s: %s" % (type(ex).__name__, ex)
            if got not in (want, [0, 1]):
                bad.append("a directory with two whole logs and document %d, %s: delivers %s" % (i, name, got))
                return n, bad
    shutil.rmtree(root, ignore_errors=True)
    return n, bad


def _work(job):
    return job[0], (_convert if job[0] == "convert" else _load)(job[1:])


@check("C34", "model_checking", "exhaustive enumeration of damage points (truncation at every byte, zeroed tails and blocks, repeated beginnings) of log files, each converted and loaded by the real code")
def c34(tier, seed):
    setup(tier)
    jobs = []
    for i in range(len(DOCS)):
        if impl.try_convert(impl.write("whole.xml", DOCS[i]))[0] != "ok":
            return Outcome(dict(states=1, transitions=1, traces_validated_against_impl=0), [dict(ident="whole", message="whole log %d is not converted" % i, replay={})])
        total = sum(1 for _ in damages(i, tier))
        size = 1500
        jobs += [("convert", i, lo, lo + size, tier) for lo in range(0, total, size)]
        if i < 3:
            jobs += [("load", i, lo, lo + size, tier) for lo in range(0, total, size)]
    conv = load = 0
    out = []
    for kind, (n, bad) in explore.pmap(_work, jobs):
        if kind == "convert":
            conv += n
        else:
            load += n
        out += [dict(ident="torn", message=m, replay={}) for m in bad]
        if len(out) > 5:
            break
    return Outcome(dict(states=conv, transitions=conv + load, traces_validated_against_impl=conv, damaged_files_converted=conv, directories_loaded=load, documents=len(DOCS), exhaustive=True,
                        bounds="three short logs damaged at every byte, a whole-length game (%d bytes) at every %s byte: cut, zeroed to the end, zeroed blocks of 1, 16, 512 and 4096 bytes, begun again" % (len(DOCS[3]), "29th" if tier == "quick" else "single"),
                        samples=["cut at byte 1000", "512 zero bytes at byte 512"]), out,
                   ["damage that leaves well-formed XML is a different log, not a torn one"])
