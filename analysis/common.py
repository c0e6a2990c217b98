"""Shared machinery: building the dump of /repo, reporting, evidence, known findings."""
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
DRIVER = os.path.join(BUILD, "driver", "release", "rpds-mirdump")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class CheckError(Exception):
    """The check could not run (not a verdict)."""


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return p.returncode, p.stdout, p.stderr


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for root, dirs, files in sorted(os.walk(p)):
                dirs.sort()
                for f in sorted(files):
                    fp = os.path.join(root, f)
                    h.update(os.path.relpath(fp, p).encode())
                    with open(fp, "rb") as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def repo_hash():
    return tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")])


def nightly_lib():
    rc, out, err = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc != 0:
        raise CheckError("no nightly toolchain: " + err)
    return os.path.join(out.strip(), "lib")


def build_driver():
    l = lock("driver")
    try:
        want = tree_hash([os.path.join(VERIF, "driver", "src"), os.path.join(VERIF, "driver", "Cargo.toml")])
        stamp = os.path.join(BUILD, "driver.stamp")
        if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == want:
            return want
        rc, out, err = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
                          cwd=os.path.join(VERIF, "driver"))
        if rc != 0:
            raise CheckError("driver build failed:\n" + err[-4000:])
        with open(stamp, "w") as f:
            f.write(want)
        return want
    finally:
        l.close()


def dump(features="all"):
    """Type-check /repo's working tree with the driver and load the dump. features: all | none | default."""
    dh = build_driver()
    key = hashlib.sha256((dh + repo_hash() + features + "-ub").encode()).hexdigest()[:24]
    out = os.path.join(BUILD, f"dump-{features}-{key}.json")
    l = lock("dump-" + features)
    try:
        if not os.path.exists(out):
            tmp = out + ".tmp"
            flags = {"all": ["--all-features"], "none": ["--no-default-features"], "default": [],
                     "none-serde": ["--no-default-features", "--features", "serde"]}[features]
            env = {
                "MIRDUMP_CRATE": "rpds",
                "MIRDUMP_OUT": tmp,
                "RUSTC_WORKSPACE_WRAPPER": DRIVER,
                "LD_LIBRARY_PATH": nightly_lib(),
                "CARGO_INCREMENTAL": "0",
            }
            rc, o, err = sh(
                ["cargo", "+nightly", "rustc", "--lib", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                 "--target-dir", os.path.join(BUILD, "t-" + features)] + flags
                + ["--", "-Zub-checks=no", "--cfg", f'verif_nonce="{key}{time.time_ns()}"'],
                env=env)
            if rc != 0 or not os.path.exists(tmp):
                raise CheckError("could not analyse /repo:\n" + err[-4000:])
            os.replace(tmp, out)
            olds = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD) if f.startswith(f"dump-{features}-"))
            for _, f in olds[:-4]:
                os.remove(os.path.join(BUILD, f))
    finally:
        l.close()
    with open(out) as f:
        return json.load(f)


def load_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            if line.startswith("known:"):
                # known: property=<id> key=<key> :: <what fails>
                head, what = line[len("known:"):].split(" :: ", 1)
                kv = dict(x.split("=", 1) for x in head.split())
                known[(kv["property"], kv["key"])] = what.strip()
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known, fixed


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []  # (key, message)
        self.obligations = 0
        self.discharged = 0
        self.unknown = []
        self.info = {}
        self.samples = []
        self.assumptions = []
        self.floors = []

    def violate(self, key, msg):
        key = "".join(key.split())
        if (key, msg) not in self.violations and key not in [k for k, _ in self.violations]:
            self.violations.append((key, msg))

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def count(self, name, n=1):
        self.info[name] = self.info.get(name, 0) + n

    def note_unknown(self, what):
        self.obligations += 1
        self.unknown.append(what)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, name, n):
        """Fail closed: the number of instances named `name` must reach n."""
        got = self.info.get(name, 0)
        self.floors.append((name, got, n))
        if got < n:
            raise CheckError(f"{self.pid}: only {got} instances of '{name}', expected at least {n}: an anchor is missing")


def finish(rep, tier, seed, t0, rule, trusted, level="other"):
    known, _ = load_known()
    os.makedirs(EVID, exist_ok=True)
    active, shown = [], []
    for key, msg in rep.violations:
        if (rep.pid, key) in known:
            shown.append(f"KNOWN-FINDING: property={rep.pid} {known[(rep.pid, key)]} [{key}]")
        else:
            active.append((key, msg))
    cov = dict(rep.info)
    cov.update({
        "explanation": rule,
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "undecided": len(rep.unknown),
        "undecided_list": [str(u)[:400] for u in rep.unknown[:60]],
        "samples": rep.samples[:12] or ["(none)"],
        "trusted_base": trusted,
        "checker_cmd": f"python3 analysis/run.py {rep.pid}",
        "floors": [f"{n}: {g} >= {m}" for n, g, m in rep.floors],
        "violation_keys": [k for k, _ in rep.violations],
    })
    ev = {
        "property": rep.pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(active),
    }
    with open(os.path.join(EVID, rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s in shown:
        print(s)
    if active:
        rp = os.path.join(EVID, rep.pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, m in active:
                f.write(f"[{k}]\n{m}\n\n")
        for k, m in active:
            print(f"--- {k}\n{m}")
        print(f"VIOLATION property={rep.pid} replay={rp}")
        return 1
    print(f"ok property={rep.pid} obligations={rep.obligations} discharged={rep.discharged} undecided={len(rep.unknown)} wall={ev['wall_s']}s")
    return 0
