"""C24, C25: the data scripts on every small directory, page and sequence of answers. They run
as an unprivileged user inside a scratch directory."""
import gzip, itertools, json, os, shutil, signal, subprocess, sys, tempfile, traceback
import explore, impl
from core import Outcome, check

NOBODY = 65534


def box():
    """a scratch directory that belongs to nobody"""
    base = impl.scratch()
    os.chmod(base, 0o711)
    d = tempfile.mkdtemp(prefix="box", dir=base)
    os.chmod(d, 0o755)
    return d


def give(d):
    if os.getuid() == 0:
        for root, dirs, files in os.walk(d):
            for x in [root] + [os.path.join(root, y) for y in files]:
                os.lchown(x, NOBODY, NOBODY)


def drop():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


def tree(d):
    """everything below d"""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            p = os.path.join(root, x)
            out[os.path.relpath(p, d)] = ("link", os.readlink(p)) if os.path.islink(p) else "dir"
        for x in files:
            p = os.path.join(root, x)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, d)] = f.read()
    return out


# ------------------------------------------------------------------ C24
RAW = "raw/2021/"
gz = lambda b: gzip.compress(b, mtime=0)
# kinds of entries of the raw folder: name -> content
ENTRIES = [
    ("scc2021010100.html", b"page"),
    ("scc2021010101.html.gz", gz(b"packed page")),
    ("scc.gz", gz(b"only the prefix")),
    ("sca2021010100.log.gz", gz(b"other")),
    ("scb2021.log", b"other"),
    ("xscc2021.html", b"prefix inside"),
    ("SCC2021.html", b"capitals"),
    ("scc with blank.html.gz", gz(b"blank")),
    ("other with blank.txt", b"blank"),
    ("sc", b"short"),
    ("scc2021.tar.GZ", b"capital suffix"),
    ("scc2021gz", b"no dot"),
    ("-rf", b"dash"),
    ("scc*.html", b"star in the name"),
    ("*", b"star"),
    ("[s]cc", b"brackets"),
    ("sccbroken.gz", b"not compressed"),
    ("scc2021010100.html.gz", gz(b"newer page")),
    ("other.gz", gz(b"other packed")),
    ("scc$(touch hacked).gz", gz(b"dollar")),
    ("a\nscc.html", b"newline"),
]
FIXED = {  # around the raw folder
    "keep.txt": b"1", "sccfile": b"2", "outside.gz": gz(b"3"), "raw/notes.txt": b"4", "raw/2020/sca.log": b"5", "raw/2020/scc.html.gz": gz(b"6"),
    "raw/2021x/other.txt": b"7", "processed/2021/sca.log": b"8", "processed/2021/a.gz": gz(b"9"),
}
SUB = {"none": (), "dirs": ("scc_dir", "other_dir")}


def filtered(names):
    """the raw folder afterwards"""
    E = dict(ENTRIES)
    out = {n: E[n] for n in names if n.startswith("scc")}
    for n in sorted(out):
        if n.endswith(".gz"):
            try:
                b = gzip.decompress(out[n])
            except Exception:
                continue
            if n[:-3] in out:
                continue  # the name is taken: nothing is overwritten
            del out[n]
            out[n[:-3]] = b
    return out


def run_filter(d, script):
    pid = os.fork()
    if pid == 0:
        try:
            os.chdir(d)
            drop()
            nul = os.open("/dev/null", os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(nul, fd)
            signal.alarm(240)
            os.execve("/bin/bash", ["bash", script], {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8"})
        finally:
            os._exit(99)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def _filter(job):
    names, sub, link = job
    d = box()
    try:
        script = os.path.join(d, "..", "filter.sh")
        if not os.path.exists(script):
            shutil.copy(os.path.join(impl.REPO, "MahjongAI", "data", "filter_raw.sh"), script)
            os.chmod(script, 0o644)
        w = os.path.join(d, "data")
        os.makedirs(os.path.join(w, RAW))
        E = dict(ENTRIES)
        for p, b in list(FIXED.items()) + [(RAW + n, E[n]) for n in names]:
            p = os.path.join(w, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
        for s in SUB[sub]:
            os.makedirs(os.path.join(w, RAW, s))
            for n, b in (("scc.html.gz", gz(b"in")), ("other.txt", b"in")):
                with open(os.path.join(w, RAW, s, n), "wb") as f:
                    f.write(b)
        if link:
            os.symlink("../../keep.txt", os.path.join(w, RAW, "link.txt"))
        give(d)
        before = tree(w)
        exp = {k: v for k, v in before.items() if not (k.startswith(RAW) and "/" not in k[len(RAW):] and v != "dir")}
        for n, b in filtered(names).items():
            exp[RAW + n] = b
        for turn in (1, 2):
            rc = run_filter(w, script)
            if rc in (99, 127, 126, -14):
                return job, "the script does not run (exit %d)" % rc
            got = tree(w)
            if got != exp:
                gone = sorted(k for k in exp if k not in got)
                more = sorted(k for k in got if k not in exp)
                diff = sorted(k for k in exp if k in got and exp[k] != got[k])
                return job, "raw folder with %s%s%s, run %d: missing afterwards %s, unexpected %s, changed %s" % (
                    list(names), ", directories" if sub != "none" else "", ", a link" if link else "", turn, gone, more, diff)
        return job, None, hash(tuple(sorted(exp.items(), key=str)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


@check("C24", "model_checking", "exhaustive enumeration of folder contents over a pool of names; the real script runs on each, twice")
def c24(tier, seed):
    names = [n for n, _ in ENTRIES]
    jobs, seen = [], set()

    def add(sel, sub, link):
        k = (tuple(sel), sub, link)
        if k not in seen:
            seen.add(k)
            jobs.append(k)
    core = names[:12] if tier == "quick" else names[:15]
    for k in range(len(core) + 1):
        for s in itertools.combinations(core, k):
            add(s, "none", False)
    for k in range(0, 3 if tier == "quick" else 4):
        for s in itertools.combinations(names, k):
            add(s, "none", False)
            if k < 2:
                add(s, "dirs", False)
                add(s, "none", True)
    for n in names:
        add([x for x in names if x != n], "dirs", True)
    add(names, "dirs", True)
    out, n = [], 0
    ends = set()
    for job, bad, *end in explore.pmap(_filter, jobs, chunk=8):
        n += 1
        ends.update(end)
        if bad:
            out.append(dict(ident="dir:%s" % (job,), message=bad, replay=dict(names=job[0], directories=job[1], link=job[2])))
            if len(out) > 8:
                break
    cov = dict(states=n + len(ends), transitions=2 * n, traces_validated_against_impl=n, exhaustive=True,
               bounds="every subset of %d names and every subset of up to %d of %d names, with and without subdirectories and a link; two runs each" % (len(core), 2 if tier == "quick" else 3, len(names)),
               samples=[list(jobs[len(jobs) // 2][0])])
    return Outcome(cov, out, ["hidden files are not generated (the shell does not list them)", "an unpacked name that is already taken stays as it is",
                              "the script runs as an unprivileged user"])


# ------------------------------------------------------------------ C25
G = ["2021010100gm-00a9-0000-0a1b2c3d", "2021010100gm-0029-0000-ffffffff", "2021123123gm-00e1-0000-00000000"]
HREF = "http://tenhou.net/0/?log=%s"
# (html, id or None)
LINKS = [
    ('<a href="' + HREF % G[0] + '">A</a>', G[0]),
    ("<a href='" + HREF % G[1] + "'>B</a>", G[1]),
    ('<a class="x" target=_blank href="' + HREF % G[2] + '" title="t">C</a>', G[2]),
    ('<a\n  href="' + HREF % G[0] + '&tw=2">seat</a>', G[0]),
    ('<a href="http://tenhou.net/0/?wg=0000">watch</a>', None),
    ('<a href="http://example.com/0/?log=' + G[1] + '">elsewhere</a>', None),
    ('<a href="/0/log/?' + G[2] + '">raw</a>', None),
    ('text ' + HREF % G[1] + ' without a link', None),
    ('<a name="top">top</a>', None),
    ('<area href="' + HREF % G[2] + '">', None),
    ('<a href="http://tenhou.net/0/?log=../../../escape">bad</a>', None),
]
BODIES = [b"<mjloggm/>", b"\r\n\x00\xff\xfe\x80", b"", b"\x1f\x8b\x08not really"]
STATUS = [200, 404, 500, 403]
OTHER = {"raw/2021/list.txt": ('<a href="' + HREF % "2021010100gm-0000-0000-notapage" + '">').encode(),
         "raw/2021/scc.html.bak": ('<a href="' + HREF % "2021010100gm-0000-0000-backup00" + '">').encode(),
         "raw/2020/scc.html": ('<a href="' + HREF % "2020010100gm-0000-0000-otheryear" + '">').encode(),
         "processed/2021/old.log": b"old", "keep.txt": b"keep"}


class Net:
    """stands in for the requests library"""

    def __init__(self, answers):
        self.answers, self.log = answers, []

    def get(self, url, params=None, **kw):
        if params:
            from urllib.parse import urlencode
            url += ("&" if "?" in url else "?") + (params if isinstance(params, str) else urlencode(params))
        st, body = self.answers[len(self.log)] if len(self.log) < len(self.answers) else (200, BODIES[0])
        self.log.append((url, st, body))
        return Answer(st, body)


class HTTPError(Exception):
    pass


class Answer:
    def __init__(self, st, body):
        self.status_code, self.content, self.ok = st, body, st < 400
        self.text = body.decode("utf-8", "replace")
        self.headers, self.encoding, self.reason = {}, "utf-8", ""

    def raise_for_status(self):
        if not self.ok:
            raise HTTPError(self.status_code)

    def iter_content(self, chunk_size=1, **k):
        n = chunk_size or len(self.content) or 1
        return (self.content[i:i + n] for i in range(0, len(self.content), n))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def run_scraper(d, answers):
    """the script as a program in d: (requests made, error)"""
    src = open(os.path.join(impl.REPO, "MahjongAI", "data", "scrape_data.py")).read()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        net, err = Net(answers), None
        try:
            import types
            signal.alarm(240)
            os.chdir(d)
            drop()
            m = types.ModuleType("requests")
            m.get = net.get

            class Session:
                def __init__(self):
                    self.headers = {}
                get = staticmethod(net.get)

                def close(self):
                    pass

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    pass
            m.Session = m.session = Session
            m.exceptions = types.SimpleNamespace(RequestException=HTTPError, HTTPError=HTTPError, ConnectionError=HTTPError, Timeout=HTTPError)
            m.RequestException = m.HTTPError = HTTPError
            m.codes = types.SimpleNamespace(ok=200)
            sys.modules["requests"] = m
            nul = os.open("/dev/null", os.O_RDWR)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            sys.stdout = sys.stderr = open("/dev/null", "w")
            sys.argv = ["scrape_data.py"]
            exec(compile(src, "scrape_data.py", "exec"), {"__name__": "__main__", "__file__": os.path.join(d, "scrape_data.py")})
        except SystemExit as ex:
            err = None if not ex.code else "exit %s" % ex.code
        except BaseException as ex:
            err = "%s: %s" % (type(ex).__name__, ex)
        try:
            os.write(w, json.dumps(dict(log=[(u, s, b.hex()) for u, s, b in net.log], err=err)).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return [], "the script was ended"
    o = json.loads(data)
    return [(u, s, bytes.fromhex(b)) for u, s, b in o["log"]], o["err"]


def _scrape(job):
    pages, answers, old = job
    d = box()
    try:
        w = os.path.join(d, "data")
        for p in ("raw/2021", "processed/2021", "raw/2020"):
            os.makedirs(os.path.join(w, p))
        files = dict(OTHER)
        for i, sel in enumerate(pages):
            files["raw/2021/scc20210101%02d.html" % i] = ("<html>牌譜\n" + "".join(LINKS[j][0] + ("\n" if j % 2 else " | ") for j in sel) + "</html>").encode()
        if old:
            files["processed/2021/%s.log" % G[0]] = b"an earlier download"
        for p, b in files.items():
            with open(os.path.join(w, p), "wb") as f:
                f.write(b)
        give(d)
        before = tree(w)
        log, err = run_scraper(w, [(STATUS[s], BODIES[b]) for s, b in answers])
        what = "pages %s, answers %s" % ([[LINKS[j][0] for j in sel] for sel in pages], [(STATUS[s], BODIES[b]) for s, b in answers])
        if err:
            return job, "%s: the script fails: %s" % (what, err)
        ids = [LINKS[j][1] for sel in pages for j in sel if LINKS[j][1]]
        addr = {"https://tenhou.net/0/log/?" + i: i for i in ids}
        asked = [u for u, _, _ in log]
        if set(asked) != set(addr):
            return job, "%s: requests %s, expected %s" % (what, sorted(asked), sorted(addr))
        if any(asked.count(u) > ids.count(addr[u]) for u in asked):
            return job, "%s: a link is requested more than once: %s" % (what, asked)
        after = tree(w)
        for i in set(ids):
            p = "processed/2021/%s.log" % i
            good = [b for u, s, b in log if addr[u] == i and s == 200]
            if good:
                if after.get(p) not in good:
                    return job, "%s: %s holds %r, the answer was %r" % (what, p, after.get(p), good)
            elif after.get(p) != before.get(p):
                return job, "%s: %s is written although no answer was good" % (what, p)
            after.pop(p, None)
            before.pop(p, None)
        if after != before or sorted(os.listdir(d)) != ["data"]:
            return job, "%s: other files changed: %s" % (what, sorted(set(after.items()) ^ set(before.items()), key=str)[:3])
        return job, None, len(log)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@check("C25", "model_checking", "exhaustive enumeration of index pages and of sequences of answers; the real script runs on each with a stand-in for the network")
def c25(tier, seed):
    N = range(len(LINKS))
    jobs = []
    fine = [(0, 0)] * 6
    deep = tier != "quick"
    for k in (0, 1, 2, 3, 4) if deep else (0, 1, 2, 3):
        for sel in itertools.product(N, repeat=k):
            jobs.append(((sel,), tuple(fine), False))
    for sel in itertools.permutations(range(4), 3):      # all links are logs
        for st in itertools.product(range(len(STATUS)), repeat=3):
            jobs.append(((sel,), tuple((s, (i + sum(sel)) % 4) for i, s in enumerate(st)), sum(st) % 2 == 1))
            if sel[0] == 0:
                jobs.append(((sel[:1], sel[1:]), tuple((s, 1) for s in st), sum(st) % 2 == 0))
    for b in itertools.product(range(len(BODIES)), repeat=2):
        for st in itertools.product((0, 1), repeat=2):
            jobs.append((((0, 2),), tuple(zip(st, b)), True))
            jobs.append((((1,), (2,)), tuple(zip(st, b)), False))
    for a in N:                                          # across pages
        for b in N:
            jobs.append((((a,), (b,)), tuple(fine), True))
            for c in N if deep else (1, 4, 9):
                jobs.append((((a,), (), (b, c)), tuple(fine), False))
    jobs.append((((),), (), False))
    jobs.append(((), (), True))
    jobs.append(((tuple(N),), tuple(fine), False))
    out, n = [], 0
    asked = 0
    for job, bad, *k in explore.pmap(_scrape, jobs, chunk=16):
        n += 1
        asked += sum(k)
        if bad:
            out.append(dict(ident="pages:%s" % (job,), message=bad, replay=dict(pages=job[0], answers=job[1], old=job[2])))
            if len(out) > 8:
                break
    cov = dict(states=len({j[0] for j in jobs}), transitions=asked, traces_validated_against_impl=n, exhaustive=True,
               bounds="every sequence of up to %d of %d link shapes on a page, spread over up to three pages; every sequence of answers from %s for three logs; every pair of %d bodies" % (
                   4 if deep else 3, len(LINKS), STATUS, len(BODIES)), samples=[jobs[100][0]])
    return Outcome(cov, out, ["a stand-in for the requests library answers", "pages are UTF-8 with lower-case tags"])
