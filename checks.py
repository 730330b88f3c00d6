"""The registered checks: which monitors, built how, decide which property."""
SPQLIOS = ["spqlios-fft-fma.s", "spqlios-ifft-fma.s", "fft_processor_spqlios.cpp", "spqlios-fft-impl.cpp"]
PAR = 8
ASSUMPTIONS = [
    "the toolchain (gcc 13, libstdc++, sanitizer runtimes) and the x86-64 AVX2/FMA/AES CPU of the sandbox",
    "the reference models and noise bounds in /verif/harness",
]
COMMON = ["-std=c++20", "-march=x86-64-v3", "-maes", "-mpclmul", "-fopenmp", "-w"]


def variant(name, repo, verif):
    inc = ["-I" + repo + "/include", "-I" + repo + "/thirdparties/spqlios",
           "-I" + repo + "/thirdparties/randen", "-I" + verif + "/harness"]
    cc, fl, ld = "g++", list(COMMON) + ([] if "+NO_RANDEN" in name else ["-DUSE_RANDEN"]), ["-fopenmp", "-pthread"]
    parts = name.split("+")
    base = parts[0]
    if base == "plain":
        fl += ["-O2"]
    elif base == "o3":
        fl += ["-O3", "-funroll-loops"]
    elif base == "asan":
        fl += ["-g1"]
        s = ["-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
        fl += ["-O1", "-D_GLIBCXX_ASSERTIONS"] + s
        ld += s
    elif base == "tsan":
        fl += ["-g1", "-O1", "-fsanitize=thread"]
        ld = ["-fsanitize=thread", "-pthread"]
    elif base == "plainc":
        fl += ["-g1", "-O2", "-ffp-contract=off"]
    elif base == "initp":
        fl += ["-O2", "-ffp-contract=off", "-ftrivial-auto-var-init=pattern"]
    else:
        raise KeyError(name)
    for p in parts[1:]:
        fl += ["-D" + p]
    return cc, fl + inc, ld


def variant_extra(name):
    return ["minigomp.cpp"] if name.startswith("tsan") else []


def job(name, src=None, variant="plain", **kw):
    d = {"name": name, "src": ["vh.cpp"] + (src if src else [name + ".cpp"]), "variant": variant}
    d.update(kw)
    return d


CHECKS = {}
OPS = ["ops_world.cpp", "ops_base.cpp", "ops_rings1.cpp", "ops_rings2.cpp", "ops_gates.cpp", "ops_big.cpp"]
CHECKS["C01"] = {
    "jobs": [job("c01")],
    "rule": "one case = one fresh encryption (or one row of a gadget encryption) of a generated message under a generated or extreme key; "
            "non-trivial: distinct (kind, level, key class, message) combination whose whole phase vector was compared",
}

CHECKS["C04"] = {
    "jobs": [job("c04", lib=False, variant="o3")],
    "rule": "one case = one operation on one operand tuple compared with 128-bit integer arithmetic; "
            "counted as distinct: a hash of every 1024th operand pair, every (shift amount, single-bit/boundary value) pair and every exponentiation",
}

CHECKS["C03"] = {
    "jobs": [job("c03")],
    "rule": "one case = one transform round trip or product of two generated polynomials (8 coefficient distributions, including all words, extreme words, "
            "sparse and every monomial) compared coefficient by coefficient with exact ring arithmetic; distinct: hash of the operands",
}

CHECKS["C05"] = {
    "jobs": [job("c05")],
    "rule": "one case = one map applied with one exponent/automorphism index/coefficient index to random and extreme words, compared in every coefficient with "
            "index arithmetic modulo 2N; distinct: (parameter set, map, index)",
}

CHECKS["C06"] = {
    "jobs": [job("c06", variant="o3"), job("c06opt", src=["c06.cpp"], variant="o3+USE_OPTIMAL_DECOMPOSITION")],
    "rule": "one case = one coefficient word decomposed; every digit and the recomposed value checked exactly; words come from a strided sweep of all 2^32 (thorough: all), "
            "every carry boundary and random words, for 20 gadget shapes; distinct: hash of each generated polynomial",
}

CHECKS["C07"] = {
    "jobs": [job("c07", variant="o3")],
    "rule": "one case = one external product, selection or rotation by one engine of a generated gadget plaintext and ciphertext, every coefficient compared with exact "
            "digit-times-row arithmetic (engine error bound) and its phase with the plaintext product (noise bound); distinct: hash of the operands",
}

CHECKS["C08"] = {
    "jobs": [job("c08", variant="o3")],
    "rule": "one case = one blind rotation/bootstrapping of a generated ciphertext with a generated table; the phase index is recomputed exactly from the input and the "
            "table entry (within one rounding step) compared with the decrypted output; every one of the 2N phases for noiseless inputs; distinct: hash of (input, engine, level)",
}

CHECKS["C09"] = {
    "jobs": [job("c09", variant="o3")],
    "rule": "one case = one scalar ciphertext switched (random, fresh, extreme, rounding-edge words, or a single non-zero coefficient at each index) under a generated or extreme "
            "key pair; the phase under the target key is compared with the source phase against the predicted noise, batches with single switching bit for bit; distinct: hash of the input",
}

CHECKS["C10"] = {
    "jobs": [job("c10", variant="o3")],
    "rule": "one case = one switching, packing, automorphism or annihilation of generated inputs (dense, extreme, single word), every coefficient of the resulting phase compared "
            "with the specified function of the exact input phases; distinct: hash of the input and the parameters",
}

CHECKS["C02"] = {
    "jobs": [job("c02", variant="o3"), job("c02e", src=["c02.cpp"], variant="o3", flags=["-DVH_REAL_ENTROPY"])],
    "rule": "one case = one ciphertext, gadget row, key, thread or process whose mask words, noise terms or key elements entered a population; populations are tested for uniformity "
            "(bits, bytes, neighbours, positions), configured standard deviation, mean, shape, correlation and repetition; distinct: hash of the mask or key",
}

CHECKS["C11"] = {
    "jobs": [job("c11", variant="o3")],
    "rule": "one case = one gate of a generated circuit (complete truth tables over fresh, constant, negated, copied, bootstrapped and multiplexed operands, in place and not, random "
            "circuits and long chains in six level/order combinations, and every ring-result selector); the phase of every result is compared with the plaintext circuit's bit within "
            "the predicted noise; distinct: hash of the result",
}

NOTES = {
"C02": ("population monitor over masks, noise, keys and entropy draws", "Statistical oracle: populations of mask words, noise terms and key elements collected from the real encryption functions are tested against uniformity and the configured deviation at a false-alarm level below 1e-12; every entropy draw is flipped to observe that it reaches the output."),
"C10": ("exact input-phase oracle and noise-budget monitor", "Every coefficient of every result is compared with the specified function of the exactly decrypted inputs, within the predicted noise."),
"C11": ("plaintext-circuit oracle and noise-budget monitor on every gate result", "Every gate of generated circuits is checked for the plaintext bit and for the exact message position of its phase, complete truth tables over every kind of operand included."),
}

CHECKS["C12"] = {
    "jobs": [job("c12", variant="o3")],
    "rule": "one case = one circuit bootstrapping (every form: switched or direct, plain, transform domain, inverted, pair, shared-prefix key) of a fresh, constant, extreme-mask or "
            "arbitrary-phase ciphertext of a generated bit; every coefficient of every row's phase is compared with bit times gadget times (negated key | 1) and the result is used as a "
            "selector; distinct: hash of the result",
}
NOTES["C12"] = ("row-phase oracle and noise-budget monitor over every form of circuit bootstrapping", "Every row of every produced gadget ciphertext is decrypted exactly and compared with its specification within the predicted noise; inputs cover the admissible phase range.")

CHECKS["C13"] = {
    "jobs": [job("c13", variant="o3")],
    "rule": "one case = one read or one cell update at an encrypted address of a memory with generated (random, extreme, fresh) contents, compared with the addressed cell in every "
            "coefficient; and histories of reads and conditional writes through bootstrapped addresses compared with an array model, every cell after every operation; distinct: hash of the value read",
}
NOTES["C13"] = ("array-model monitor over memory histories and exact-phase oracle for every read and cell update", "Every word read or kept is compared in every coefficient with the addressed cell's exact phase; histories compare every cell with the model after every operation.")

CHECKS["C14"] = {
    "jobs": [job("c14", variant="o3")],
    "rule": "one case = one output digit of one decomposed ciphertext (generated, extreme digit patterns, extreme masks, fresh; seven level/base/count combinations), whose phase is "
            "compared with the exact shifted input phase and the correction decided by the digit below, and whose value with the message digit; distinct: hash of the input",
}
CHECKS["C15"] = {
    "jobs": [job("c15", variant="o3")],
    "rule": "one case = one tensor product (each component against the exact scaled product), relinearization (phase against the exact quadratic phase), whole polynomial product or "
            "scalar product (against the exact scaled product of the integer phases, and the message) of generated, extreme and sparse operands under generated and extreme keys; "
            "distinct: hash of the operands",
}
NOTES["C14"] = ("exact digit and phase oracle over message patterns", "Every digit's phase is compared step by step with the exact shifted phase plus the specified correction; decisions closer than 7.5 predicted deviations to their boundary are judged as a population only.")
NOTES["C15"] = ("exact integer product oracle and noise-budget monitor", "Tensor components must be within 1.2 units of the exact scaled product; relinearized and whole products within the predicted noise of the exact product.")

CHECKS["C17"] = {
    "jobs": [job("c17" + x, src=["c17.cpp"], variant="o3", args=[x]) for x in ("bootstrapping", "switching", "direct")],
    "par": 3,
    "rule": "one case = one element of a generated evaluation key (every index, digit and value of every key kind in every representation), decrypted exactly and compared with the "
            "specified multiple of the source secret, its noise with the configured one, its mask with every other; or one generation request observed to change only its slot; "
            "distinct: hash of the mask",
}
NOTES["C17"] = ("exact-phase oracle over every key element, noise populations, and container-state monitor", "Every element of every kind of key is decrypted exactly; noise is tested per element and per gadget position; requests are checked to change only their slot.")

CHECKS["C16"] = {
    "jobs": [job("c16" + x, src=["c16.cpp"], args=[x]) for x in ("small", "keys0", "keys1", "keys2", "keys3")],
    "rule": "one case = one object with generated contents saved, loaded (into an empty or occupied object, in this or another process), compared field by field, saved again and compared "
            "byte by byte; or one truncated stream that must be rejected; every serialisable type, every optional part alone and random combinations, every parameter field changed; "
            "distinct: hash of the object",
}
NOTES["C16"] = ("round-trip and fault-injection (truncation) monitor with field-by-field comparison", "Every serialisable type and every member is saved, loaded, compared and saved again; single changes must change the bytes; truncated streams must raise; loaded objects are used in another process.")

CHECKS["C20"] = {
    "jobs": [job("c20" + x, src=["c20.cpp"] + OPS, variant="o3", args=[x]) for x in ("base", "big")],
    "par": 2,
    "rule": "one case = one operation of the catalogue (every homomorphic operation at every level) executed on prepared inputs under one arrangement (repeated after other operations, "
            "result object holding ones or random words, operands relocated, stack filled with patterns, result in place of each operand of its type) and compared bit for bit with its first "
            "execution on a fresh thread, or under a second set of keys and compared with a process that never used the first; operands compared before and after; distinct: (operation, input set) results",
}
NOTES["C20"] = ("bitwise differential monitor over arrangements of results, operands and histories", "Every operation is repeated under poisoned results, relocated operands, scribbled stacks, mixed histories, a change of keys and every in-place form, and must reproduce its bits; operands and keys are hashed before and after.")

CHECKS["C18"] = {
    "jobs": [job("c18small", src=["c18.cpp"] + OPS, variant="o3", args=["small"]), job("c18big", src=["c18.cpp"] + OPS, variant="o3", args=["big"]),
             job("c18race", src=["c18.cpp"] + OPS, variant="tsan", args=["race"], env={"OMP_NUM_THREADS": "4"})],
    "par": 3,
    "rule": "one case = one evaluation, encryption or key generation performed while other threads use the same keys and inputs (same operation at once, mixed operations, short-lived threads, "
            "parallel regions of 1-16 threads), compared bit for bit with the result computed alone or decrypted; the same program also runs under the ThreadSanitizer race detector with an "
            "instrumented OpenMP runtime; distinct: reference results and masks",
}
NOTES["C18"] = ("ThreadSanitizer race detection plus bitwise comparison of concurrent with sequential results", "Mixed workloads on shared keys with injected delays, short-lived threads and nested parallel regions; every evaluation is compared bit for bit with its sequential result and the instrumented build reports any data race.")

def c19_post(results, workdir, seed, tier):
    """the builds that fill locals and heap blocks with different patterns must agree"""
    fails, n = [], 0
    for size in ("small", "big"):
        try:
            a, b = [dict(l.rsplit(" ", 1) for l in open("%s/%s-%s.digest" % (workdir, x, size)).read().splitlines()) for x in ("plain", "filled")]
        except OSError as e:
            return [{"job": "c19compare", "rc": 1, "wall": 0, "res": None, "cmd": [], "env": {}, "fails": [{"key": "nodigest:" + size, "detail": str(e), "times": 1}]}]
        for k in a:
            n += 1
            if a[k] != b.get(k):
                fails.append({"key": "uninitialised:" + k.split("#")[0], "detail": "%s depends on the content of memory that was never written" % k, "times": 1})
    res = {"evals": n, "distinct": 0, "counts": {"results compared between differently filled builds": n}, "metrics": {}, "samples": [], "fails": []}
    return [{"job": "c19compare", "rc": 0, "wall": 0, "res": res, "cmd": [], "env": {}, "fails": fails}]


MEMCHECK = ["valgrind", "--error-exitcode=0", "--leak-check=no", "--max-stackframe=300000000", "--main-stacksize=300000000", "--redzone-size=64", "--num-callers=8", "-q"]
CHECKS["C19"] = {
    "jobs": [job("c19" + s, src=["c19.cpp"] + OPS, variant="asan", args=["asan", s], group="1") for s in ("big", "small")]
          + [job("c19" + n + s, src=["c19.cpp"] + OPS, variant=v, args=["digest", s, n], env=dict({"MALLOC_PERTURB_": "170"} if n == "filled" else {}, OMP_NUM_THREADS=1), group="2") for n, v in (("plain", "plainc+VH_MEMCHECK"), ("filled", "initp")) for s in ("small", "big")]
          + [job("c19memcheck%d" % i, src=["c19.cpp"] + OPS, variant="plainc+VH_MEMCHECK", args=["memcheck", "small", str(i), "4"], wrap=MEMCHECK, group="3") for i in range(4)]
          + [job("c19grow" + s, src=["c19.cpp"] + OPS, variant="plainc+VH_MEMCHECK", args=["grow", s], group="2") for s in ("small", "big")]
          + [job("c19client", variant="asan", group="1")]
          + [job("c19x" + x, src=[x + ".cpp"], variant="asan", group="1", sanonly=True) for x in ("c03", "c04", "c05", "c06")],
    "post": c19_post,
    "rule": "one case = one operation executed on operands in heap blocks that end with the object (or in place) under AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and checked "
            "std::array indices; or compared between builds filling locals and heap blocks with different patterns; or run under memcheck with its result checked for definedness; distinct: results",
}
NOTES["C19"] = ("AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, valgrind memcheck and differently initialised builds", "A workload calling every homomorphic operation, key generator and client operation with exactly placed operands; memcheck also sees the hand-written assembly.")

# ---- C21: every parameter set and build option --------------------------------
CONFIGS = {"default": "", "80bit": "+USE_80BIT_SECURITY", "cggi19": "+USE_CGGI19", "concrete": "+USE_CONCRETE", "tfhers": "+USE_TFHE_RS", "ternary": "+USE_TERNARY",
           "ternarycmux": "+USE_TERNARY+USE_TERNARY_CMUX", "bundle": "+USE_KEY_BUNDLE", "bundleconcrete": "+USE_KEY_BUNDLE+USE_CONCRETE", "optimal": "+USE_OPTIMAL_DECOMPOSITION",
           "norandomengine": "+NO_RANDEN"}


def uniform_secret_security(n, log2alpha, log2q, values):
    """bits: cost 0.292 beta + 16.4 + log2 8d of the primal attack (uSVP) under the GSA"""
    import math
    sv = {2: 0.25, 3: 2 / 3}[values]
    log2s = log2alpha + log2q
    for beta in range(40, 1500):
        delta = ((math.pi * beta) ** (1 / beta) * beta / (2 * math.pi * math.e)) ** (1 / (2 * (beta - 1)))
        for m in range(max(beta - n, 20), 3 * n, max(1, n // 60)):
            d = n + m + 1
            lvol = m * log2q + n * (log2s - 0.5 * math.log2(sv))
            if log2s + .5 * math.log2(beta) <= (2 * beta - d - 1) * math.log2(delta) + lvol / d:
                return .292 * beta + 16.4 + math.log2(8 * d)
    return float("inf")


def c21_post(results, workdir, seed, tier):
    """README: the default parameters give 128-bit security, USE_80BIT_SECURITY 80"""
    fails, metrics, n = [], {}, 0
    for r in results:
        if not r["job"].startswith("c21-c21-") or not r["res"]:
            continue
        cfg = r["job"].rsplit("-", 1)[1]
        m = r["res"].get("metrics", {})
        for lvl in ("lvl0", "lvlhalf", "lvl1", "lvl2"):
            try:
                bits = uniform_secret_security(*[int(m["lwe %s dimension" % lvl])] + [m["lwe %s log2 noise" % lvl], m["lwe %s log2 modulus" % lvl], int(m["lwe %s alphabet" % lvl])])
            except KeyError as e:
                fails.append({"key": "security:%s:%s" % (cfg, lvl), "detail": "not reported: %s" % e, "times": 1})
                continue
            n += 1
            metrics["estimated security of %s in %s" % (lvl, cfg)] = round(bits, 1)
            want = {"80bit": 80, "default": 128, "bundle": 128, "optimal": 128, "norandomengine": 128}.get(cfg, 0)
            if bits < want:
                fails.append({"key": "security:%s:%s" % (cfg, lvl), "detail": "the primal attack on %s costs 2^%.1f, the documentation promises 2^%d" % (lvl, bits, want), "times": 1})
    res = {"evals": n, "distinct": 0, "counts": {"security estimates": n}, "metrics": metrics, "samples": [], "fails": []}
    return [{"job": "c21security", "rc": 0, "wall": 0, "res": res, "cmd": [], "env": {}, "fails": fails}]


def c21_jobs():
    quick = {"c21": "default 80bit cggi19 concrete tfhers ternary ternarycmux bundle bundleconcrete optimal norandomengine",
             "c01": "80bit concrete tfhers norandomengine",
             "c08": "concrete ternary ternarycmux bundleconcrete",
             "c11": "tfhers ternary 80bit concrete",
             "c12": "concrete ternary",
             "c10": "concrete", "c07": "concrete optimal", "c09": "concrete"}
    more = {"c01": "cggi19 ternary ternarycmux bundle optimal bundleconcrete", "c08": "80bit cggi19 tfhers bundle optimal", "c11": "cggi19 ternarycmux optimal bundle bundleconcrete",
            "c12": "80bit cggi19 tfhers ternarycmux bundle optimal bundleconcrete", "c10": "80bit cggi19 tfhers ternary bundle", "c07": "tfhers ternary 80bit cggi19 ternarycmux bundle bundleconcrete",
            "c09": "80bit cggi19 tfhers ternary", "c13": "80bit concrete ternary bundle", "c14": "80bit concrete ternary bundle",
            "c02": "concrete ternary norandomengine", "c06": "80bit concrete tfhers"}
    out = []
    for tier, tab in (("quick", quick), ("thorough", more)):
        for h, cs in tab.items():
            for c in cs.split():
                kw = {"env": {"VH_LIGHT": "1"}, "config": c}
                if tier == "thorough":
                    kw["tier"] = "thorough"
                out.append(job("c21-%s-%s" % (h, c), src=[h + ".cpp"], variant="plain" + CONFIGS[c], **kw))
    return out


CHECKS["C21"] = {
    "jobs": c21_jobs(),
    "par": 5,
    "post": c21_post,
    "rule": "one case = one monitored operation (encryption, bootstrapping, gate, key switch, gadget product, circuit bootstrapping) or one parameter relation in one of 11 builds "
            "(parameter sets 128-bit, CGGI16, CGGI19, Concrete, TFHE-rs, ternary; ternary CMUX, key bundling, optimal decomposition, no random engine); distinct: as for the monitor used",
}
NOTES["C21"] = ("the monitors of C01 and C07 to C12 rebuilt in every configuration, plus a monitor of parameter relations and budgets", "Every shipped parameter set and build option that compiles with the installed tools is built and driven through encryption, bootstrapping, gates, key switching and circuit bootstrapping with the same oracles, whose noise bounds follow the parameters; digit lengths, message spacing, gate margins and the documented security level are checked from the compiled-in parameters.")


# ---- C22: the example programs ------------------------------------------------
def prog(name, variant, **kw):
    d = job(name, src=[], variant=variant, aux=True, **kw)
    d["src"] = []
    return d


def c22_jobs():
    out = []
    for v, tag, tier in (("o3", "", None), ("asan", "san", "thorough")):
        kw = {"tier": tier} if tier else {}
        for p in ("client", "cloud", "verify"):
            out.append(prog("c22%s%s" % (tag, p), v, reposrc=["tutorial/%s.cpp" % p], **kw))
        d = prog("c22%sdump" % tag, v, **kw)
        d["src"] = ["c22dump.cpp"]
        out.append(d)
        a = []
        for p in ("client", "cloud", "verify", "dump"):
            a += ["--" + p, "@c22%s%s" % (tag, p)]
        out.append({"name": "c22" + tag, "src": [], "variant": v, "script": "c22.py", "args": a + (["--sanit", "1"] if tag else []), **kw})
    return out


CHECKS["C22"] = {
    "jobs": c22_jobs(),
    "rule": "one case = one run of cloud and verify on the files of a client run whose verdict was compared with the integers, or one search for consecutive secret key elements in one encoding in one file; "
            "distinct: (client value, cloud value) pairs",
    "par": 1,
}
NOTES["C22"] = ("end-to-end trace monitor over the three programs, their files and leftovers", "The programs built from the tree are run in separate directories with equal, adjacent, extreme and random numbers, in fresh and reused directories; verdicts are compared with the integers and every file that leaves the client is searched for key material, structure, repeated content and missing noise.")
