"""A process under the shim: forks runs of the training script that die at a chosen change of
the checkpoint directory. Reads jobs and writes results as JSON lines."""
import ctypes, json, os, shutil, signal, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
root, shim = sys.argv[1], ctypes.CDLL(os.environ["MC_SHIM"])
shim.shim_kind.restype = ctypes.c_char
shim.shim_len.restype = ctypes.c_long
shim.shim_count.restype = ctypes.c_long
shim.shim_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_long]
shim.shim_kind.argtypes = shim.shim_len.argtypes = [ctypes.c_long]
os.chdir(root)
import train_world as tw
tw.load()
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)


def run(job):
    d = os.path.join(root, "saved_models")
    shutil.rmtree(d, ignore_errors=True)
    if job["src"]:
        shutil.copytree(job["src"], d)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            signal.alarm(240)
            shim.shim_arm(b"saved_models", job["op"], job["torn"])
            tw.train(job["name"], job["iters"])
            shim.shim_disarm()
            n = shim.shim_count()
            ops = [(shim.shim_kind(i).decode(), shim.shim_len(i)) for i in range(n)]
            os.write(w, json.dumps({"ops": ops}).encode())
            code = 0
        except BaseException:
            shim.shim_disarm()
            os.write(w, json.dumps({"error": traceback.format_exc()[-1500:]}).encode())
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    res = dict(rc=os.waitstatus_to_exitcode(st), info=json.loads(data) if data else None)
    res["files"] = {}
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            c = tw.read_ckpt(os.path.join(d, f))
            res["files"][f] = [c, os.path.getsize(os.path.join(d, f))]
    if job["dst"]:
        shutil.rmtree(job["dst"], ignore_errors=True)
        if os.path.isdir(d):
            shutil.copytree(d, job["dst"])
        else:
            os.makedirs(job["dst"])
            res["nodir"] = True
    return res


for line in sys.stdin:
    out.write(json.dumps(run(json.loads(line))) + "\n")
    out.flush()
