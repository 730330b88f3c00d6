"""Runs client, cloud and verify as a user would and judges what they print and leave behind."""
import hashlib, json, os, random, re, resource, shutil, struct, subprocess, sys, tempfile, threading, zlib
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
a = sys.argv[1:]
opt = {a[i]: a[i + 1] for i in range(0, len(a), 2)}
CLIENT, CLOUD, VERIFY, DUMP, OUT = (opt["--" + x] for x in ("client", "cloud", "verify", "dump", "out"))
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
thorough = os.environ.get("VERIF_TIER") == "thorough"
sanit = opt.get("--sanit") == "1"
R = random.Random(7100 + seed)
fails, counts, metrics, samples = {}, {}, {}, []
lock = threading.Lock()
distinct, evals = set(), 0


def fail(key, detail):
    with lock:
        f = fails.setdefault(key, {"key": key, "detail": detail, "times": 0})
        f["times"] += 1


def tally(n, k=1):
    with lock:
        counts[n] = counts.get(n, 0) + k


def lim():   # the stack an ordinary user has
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(exe, d, text, who):
    try:
        p = subprocess.run([exe], cwd=d, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, preexec_fn=None if sanit else lim)
    except subprocess.TimeoutExpired:
        fail("hang:" + who, "%s does not end" % who)
        return None
    err = p.stderr.decode(errors="replace")
    if "Sanitizer" in err or "runtime error" in err:
        fail("sanitizer:" + who, err[:1500])
    if p.returncode:
        fail("exit:" + who, "%s exits with %s; %s" % (who, p.returncode, err[-600:]))
        return None
    return p.stdout.decode(errors="replace")


def verdict(s):
    """the last line verify prints, as 0 equal, 1 client, -1 cloud"""
    hits = [x for x in ((0, r"equal"), (1, r"client"), (-1, r"cloud")) if re.search(x[1], s or "", re.I)]
    return hits[0][0] if len(hits) == 1 else None


def windows(key):
    """ways in which consecutive key elements may sit in a file"""
    n = 40
    for at in (0, len(key) // 3, len(key) - 128):
        w = key[at:at + n]
        for nm, f in (("bytes", "b"), ("16 bit", "h"), ("32 bit", "i"), ("64 bit", "q"), ("float", "f"), ("double", "d")):
            for sgn in (1, -1):
                if nm == "bytes" and sgn < 0 and not any(w):
                    continue
                yield nm, struct.pack("<%d%s" % (n, f), *[sgn * x for x in w])
                if f in "hiq":
                    yield nm + " big endian", struct.pack(">%d%s" % (n, f), *[sgn * x for x in w])
        bits = [x & 1 for x in key[at // 8 * 8:at // 8 * 8 + 96]]
        for order in (lambda i: i, lambda i: 7 - i):
            yield "bits", bytes(sum(bits[8 * b + i] << order(i) for i in range(8)) for b in range(12))
        yield "text", "".join("01"[x & 1] for x in w).encode()


JUNK = os.urandom(1 << 16)


def junk(path, n):
    with open(path, "wb") as f:
        for _ in range(n >> 16):
            f.write(JUNK)


files_seen, scans = {}, []


def digest(path):
    h = hashlib.blake2b()
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 22), b""):
            h.update(b)
    return h.hexdigest()


def scan(n, path, k, levels=("lvl0", "lvlhalf", "lvl1", "lvl2", "lvl3")):
    """what is in a file that the cloud sees: (failures, evaluations, bytes, least block compression)"""
    b, bad, ev, least = open(path, "rb").read(), [], 0, 9
    for lvl in levels:
        for how, w in windows(k[lvl]):
            ev += 1
            if w in b:
                bad.append(("leak:" + n, "%s contains consecutive elements of the %s secret key as %s" % (n, lvl, how)))
    for o in range(0, max(1, len(b) - (1 << 16)), 1 << 16 if len(b) < 1 << 22 else 13 << 16):
        blk = b[o:o + (1 << 16)]
        r = len(zlib.compress(blk, 1)) / len(blk)
        least = min(r, least)
        if r < 0.6:
            bad.append(("structure:" + n, "a block of %s compresses to %.0f %%: not a file of ciphertexts" % (n, 100 * r)))
            break
    return n, bad, ev, len(b), least


def absorb(res):
    global evals
    n, bad, ev, size, least = res
    for x in bad:
        fail(*x)
    with lock:
        evals += ev
        m = "least compressed size of a block of " + n
        metrics[m] = min(least, metrics.get(m, 9))
    tally("bytes of files scanned", size)


def chain(ci, value, clouds, root, leftover):
    global evals
    d, c, v = (os.path.join(root, "%s%d" % (x, ci)) for x in ("client", "cloud", "verify"))
    for x in (d, c, v):
        os.makedirs(x, exist_ok=True)
    if leftover == "junk":      # longer files of the same names lie there already
        for n in ("secret.key", "cloud.key", "cloud.data"):
            junk(os.path.join(d, n), 100 << 20 if n == "cloud.key" else 1 << 18)
        junk(os.path.join(c, "result.data"), 1 << 18)
    before = set(os.listdir(d))
    out = run(CLIENT, d, "%d\n" % value, "client")
    if out is None:
        return None
    for n in ("secret.key", "cloud.key", "cloud.data"):
        if not os.path.exists(os.path.join(d, n)):
            fail("missing:" + n, "the client does not write %s" % n)
            return None
    extra = set(os.listdir(d)) - {"secret.key", "cloud.key", "cloud.data"} - before
    # what reaches the cloud
    for n in ("cloud.key", "cloud.data"):
        os.rename(os.path.join(d, n), os.path.join(c, n))
    if leftover == "reuse-verify":
        junk(os.path.join(v, "result.data"), 1 << 16)
    shutil.copy(os.path.join(d, "secret.key"), v)
    for cv in clouds:
        out = run(CLOUD, c, "%d\n" % cv, "cloud")
        if out is None:
            continue
        try:
            shutil.copy(os.path.join(c, "result.data"), v)
        except OSError:
            fail("missing:result.data", "the cloud does not write result.data")
            continue
        if os.path.exists(os.path.join(c, "secret.key")):
            fail("cloud-secret", "a secret key lies in the cloud's directory")
        s = run(VERIFY, v, "", "verify")
        want = (value > cv) - (value < cv)
        got = verdict(s)
        if got != want:
            fail("verdict", "client %d, cloud %d: verify prints %r" % (value, cv, (s or "")[:80]))
        with lock:
            evals += 1
            distinct.add((value, cv))
        tally({0: "equal", 1: "client larger", -1: "cloud larger"}[want])
    # the client's files
    shutil.copy(os.path.join(d, "secret.key"), os.path.join(c, "secret.key"))
    p = subprocess.run([DUMP, c, str(value)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        fail("unreadable", "the client's files cannot be read back: %s" % p.stderr.decode(errors="replace")[-400:])
        return None
    k = json.loads(p.stdout)
    if k["count"] != 16 or k["wrong"]:
        fail("data", "cloud.data holds %d ciphertexts, wrong bits %s of %d" % (k["count"], k["wrong"], value))
    scan_small = [(n, os.path.join(c, n)) for n in ("cloud.data", "result.data")]
    for n, f in scan_small:
        absorb(scan(n, f, k))
    scans.append((os.path.join(c, "cloud.key"), k))
    for n in extra:
        if n.startswith("cloud") or n.startswith("result"):
            fail("extra:" + n, "the client also writes %s" % n)
    with lock:
        for n, f in (("cloud.key", c), ("cloud.data", c), ("secret.key", d)):
            h = digest(os.path.join(f, n))
            if h in files_seen:
                fails.setdefault("repeat:" + n, {"key": "repeat:" + n, "detail": "two client runs wrote the same %s" % n, "times": 1})
            files_seen[h] = n
    tally("client runs")
    return k


def main():
    root = tempfile.mkdtemp(prefix="vh-c22-", dir=os.environ.get("VH_WORK") or None)
    try:
        vals = [0, 65535, 1, 32768, 0x5555, 0xaaaa, 256] + [R.randrange(65536) for _ in range(30 if thorough else 4)]
        if sanit:
            vals = [R.randrange(65536)]
        jobs = []
        for i, v in enumerate(vals):
            cl = [v, v ^ (1 << R.randrange(16)), R.randrange(65536), (v + 1) & 65535, (v - 1) & 65535]
            if v in (0, 65535):
                cl += [0, 65535, v ^ 1, v ^ 0x8000]
            if thorough:
                cl += [v ^ (1 << b) for b in range(16)] + [R.randrange(65536) for _ in range(8)]
            if sanit:
                cl = cl[:2]
            R.shuffle(cl)
            jobs.append((i, v, cl, root, ["", "junk", "reuse-verify"][i % 3]))
        with ThreadPoolExecutor(1 if sanit else 6) as ex:
            ks = list(ex.map(lambda j: chain(*j), jobs))
        todo = [x + (l,) for x in scans[:16 if thorough else 2] for l in (("lvl0", "lvlhalf"), ("lvl1",), ("lvl2",), ("lvl3",))]
        with ProcessPoolExecutor(8) as ex:
            for r in ex.map(scan, ["cloud.key"] * len(todo), [x[0] for x in todo], [x[1] for x in todo], [x[2] for x in todo]):
                absorb(r)
        # a second client in the same directory: nothing of the first may matter
        if not sanit:
            for i, (j, v) in enumerate(((0, R.randrange(65536)), (1, 0))):
                for n in ("secret.key", "result.data"):
                    p = os.path.join(root, "cloud%d" % j, n)
                    if n == "secret.key" and os.path.exists(p):
                        os.remove(p)
                ks.append(chain(j, v, [v, v ^ 1, R.randrange(65536)], root, ""))
        ks = [k for k in ks if k]
        keys = set()
        for k in ks:
            for l in ("lvl0", "lvl1"):
                h = (l, tuple(k[l]))
                if h in keys:
                    fail("key-repeat", "two client runs drew the same %s key" % l)
                keys.add(h)
        for what in ("noise", "ksk"):
            x = [y for k in ks for y in k[what]]
            if len(x) >= 150:
                rms = (sum(y * y for y in x) / len(x)) ** .5
                metrics["noise of the " + ("ciphertexts" if what == "noise" else "key switching key") + " relative to the parameters"] = rms
                tol = 6 / (2 * len(x)) ** .5 + 0.02
                # a 16-bit word holds few units of noise: cutting the fraction off makes it a little smaller
                low = 0.93 if what == "ksk" else 1
                if not low - tol < rms < 1 + tol:
                    fail("noise:" + what, "noise is %.3f of the configured one over %d values" % (rms, len(x)))
        samples.append("client values %s" % vals[:12])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    json.dump({"evals": evals, "distinct": len(distinct), "counts": counts, "metrics": metrics, "samples": samples, "fails": list(fails.values())}, open(OUT, "w"))
    return 0


sys.exit(main())
