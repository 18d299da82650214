"""Engine K: contract harnesses over the crate's own source files, discharged by Kani/CBMC.

The crate that is verified is /repo/yamux/src copied byte for byte on every run. At the end of some
files a `#[cfg(kani)] mod` declaration is appended (harnesses need access to private items), and two
`extern crate` lines at the end of lib.rs. Nothing in the copied text is edited, except that private
items that were renamed get back the names the harnesses know (names.py).
The external crates are replaced by the stand-ins in /verif/models.
"""
import json, os, re, shutil, subprocess, time
import names

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("YAMUX_SRC", "/repo/yamux/src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

ACCESS = [
    ("connection/stream.rs", "acc_stream", "verif_acc"),
    ("connection/stream/flow_control.rs", "acc_fc", "verif_acc"),
    ("connection/rtt.rs", "acc_rtt", "verif_acc"),
    ("frame.rs", "acc_frame", "verif_acc"),
    ("frame/io.rs", "acc_io", "verif_acc"),
    ("tagged_stream.rs", "acc_tagged", "verif_acc"),
    ("chunks.rs", "acc_chunks", "verif_acc"),
    ("connection/closing.rs", "acc_closing", "verif_acc"),
    ("connection.rs", "acc_conn", "verif_acc"),
]
MODELS = ["futures", "log", "nohash-hasher", "parking_lot", "web-time", "std-shim", "vsupport"]

FLAGS = ["--no-memory-safety-checks", "--no-assertion-reach-checks", "-Z", "stubbing",
         "-Z", "unstable-options", "--solver", "minisat"]


def make_crate(d, attach, playback=False, extra_test=None):
    """Build the crate in directory d. attach: [(source file, harness file, module name)]."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(REPO_SRC, os.path.join(d, "src"))
    names.restore(os.path.join(d, "src"))
    hd = os.path.join(d, "harness")
    os.makedirs(hd)
    for f in os.listdir(os.path.join(VERIF, "kani")):
        if f.endswith(".rs"):
            shutil.copy(os.path.join(VERIF, "kani", f), hd)
    if extra_test:
        for f, text in extra_test.items():
            with open(os.path.join(hd, f + ".rs"), "a") as fh:
                fh.write(text)
    if playback:
        # The crate's own unit tests are switched off: they need crates that the stand-ins lack.
        for root, _, files in os.walk(os.path.join(d, "src")):
            for f in files:
                p = os.path.join(root, f)
                s = open(p).read()
                s = s.replace("cfg(test)", "cfg(any())").replace("cfg_attr(test", "cfg_attr(any()")
                open(p, "w").write(s)
    done = set()
    for src, harness, mod in ACCESS + list(attach):
        if (src, harness) in done:
            continue
        done.add((src, harness))
        p = os.path.join(d, "src", src)
        with open(p, "a") as fh:
            fh.write('\n#[cfg(kani)] #[path = "%s/%s.rs"] pub(crate) mod %s;\n' % (hd, harness, mod))
    with open(os.path.join(d, "src/lib.rs"), "a") as fh:
        fh.write("\n#[cfg(kani)] extern crate alloc;\n#[cfg(kani)] extern crate std_shim as std;\n")
    with open(os.path.join(d, "Cargo.toml"), "w") as fh:
        fh.write('[package]\nname = "yamux"\nversion = "0.14.0"\nedition = "2021"\n[workspace]\n[features]\nslow = []\n[dependencies]\n')
        for m in MODELS:
            fh.write('%s = { path = "%s/models/%s" }\n' % (m, VERIF, m))
        fh.write('static_assertions = "1"\npin-project = "1"\n')
        fh.write('[lints.rust]\nunused = "allow"\nunexpected_cfgs = "allow"\nlinker_messages = "allow"\n')


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def classify(check):
    """What a failed check means: 'violation', or a limit of the tool or of the stand-ins."""
    d, cat = check.get("description", ""), check.get("category", "")
    if "unwind" in cat or d.startswith("unwinding assertion"):
        return "unwinding"
    if "recursion" in cat:
        return "unwinding"
    if "verification model:" in d:
        return "model-limit"
    if "not currently supported by Kani" in d or cat in ("unsupported_construct", "unsupported_struct"):
        return "unsupported"
    return "violation"


class Result:
    def __init__(self, name):
        self.name = name
        self.full = name
        self.status = "missing"      # proved / violated / undecided / missing
        self.reason = ""
        self.checks = 0
        self.ok = 0
        self.failed = []
        self.covers = {}
        self.seconds = 0.0


def run(d, target, harnesses, jobs, timeout, log, extra=()):
    """Run the named harnesses (module path suffixes); returns {name: Result}."""
    out = os.path.join(d, "out.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = ["cargo", "kani", "--target-dir", target] + FLAGS
    for h in harnesses:
        cmd += ["--harness", h]
    cmd += ["-j", str(jobs), "--output-format", "terse", "--export-json", out, "--harness-timeout", "%ds" % timeout]
    cmd += list(extra)
    t = time.time()
    with open(log, "w") as fh:
        fh.write("$ " + " ".join(cmd) + "\n")
        fh.flush()
        try:
            rc = subprocess.run(cmd, cwd=d, env=env(), stdout=fh, stderr=subprocess.STDOUT, timeout=timeout + 200).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    res = {h: Result(h) for h in harnesses}
    if not os.path.exists(out):
        text = open(log, errors="replace").read()
        m = re.search(r"^error.*(?:\n.*){0,6}", text, re.M)
        for r in res.values():
            r.reason = "no result from Kani (exit %s): %s" % (rc, m.group(0) if m else text[-400:])
        return res, time.time() - t
    j = json.load(open(out))
    for r in j.get("verification_results", {}).get("results", []):
        hid = r["harness_id"]
        for h in harnesses:
            if hid == h or hid.endswith("::" + h):
                x = res[h]
                x.full = hid
                fill(x, r)
    return res, time.time() - t


def fill(x, r):
    x.seconds = r.get("duration_ms", 0) / 1000.0
    x.checks = x.ok = 0
    x.failed, x.covers = [], {}
    for c in r.get("checks", []):
        st = c.get("status", "")
        if c.get("category") == "cover":
            x.covers.setdefault(c["description"], False)
            if st.lower() in ("satisfied",):
                x.covers[c["description"]] = True
            continue
        x.checks += 1
        if st.lower() in ("success", "unreachable"):
            x.ok += 1
        elif st.lower() == "failure":
            x.failed.append(c)
    # Harnesses of what must be refused: the panics are expected, reaching a "never:" cover is not.
    never = [k for k in x.covers if k.startswith("never:")]
    if never:
        expected = [c for c in x.failed if classify(c) == "violation"]
        x.failed = [c for c in x.failed if classify(c) != "violation"]
        x.ok += len(expected)
        x.failed += [dict(description=k, category="cover", location={}) for k in never if x.covers[k]]
        if r.get("status") != "Success" and not x.failed:
            x.status, x.reason = "undecided", "nothing is refused"
            return
    kinds = {classify(c) for c in x.failed}
    if "violation" in kinds:
        x.status = "violated"
        x.failed = [c for c in x.failed if classify(c) == "violation"]
        x.reason = x.failed[0]["description"]
    elif kinds:
        x.status = "undecided"
        x.reason = "; ".join(sorted(kinds)) + ": " + x.failed[0]["description"]
    elif r.get("status") == "Success" and x.ok == x.checks and x.checks > 0:
        bad = [k for k, v in x.covers.items() if not v and not k.startswith(("opt:", "never:"))]
        if bad:
            # A precondition that excludes the case it is about proves nothing.
            x.status = "vacuous"
            x.reason = "not reachable: " + "; ".join(bad)
        else:
            x.status = "proved"
    else:
        x.status = "undecided"
        x.reason = "Kani: %s (%d of %d checks)" % (r.get("status"), x.ok, x.checks)


def merge(name, parts):
    """One contract that was decided in several cases."""
    x = Result(name)
    x.full = name + " (" + ", ".join(p.name for p in parts) + ")"
    x.checks, x.ok = sum(p.checks for p in parts), sum(p.ok for p in parts)
    x.seconds = max(p.seconds for p in parts)
    for p in parts:
        for k, v in p.covers.items():
            x.covers[k] = x.covers.get(k, False) or v
    bad = [p for p in parts if p.status == "violated"]
    open_ = [p for p in parts if p.status not in ("proved", "violated", "vacuous")]
    if bad:
        x.status, x.reason, x.failed, x.full, x.name = "violated", bad[0].reason, bad[0].failed, bad[0].full, name
    elif open_:
        x.status, x.reason = "undecided", open_[0].name + ": " + open_[0].reason
    else:
        miss = [k for k, v in x.covers.items() if not v and not k.startswith(("opt:", "never:"))]
        x.status = "vacuous" if miss else "proved"
        x.reason = "not reachable: " + "; ".join(miss) if miss else ""
    return x


def counterexample(d, target, full, timeout, log, extra=()):
    """Ask Kani for the concrete values of the counterexample; returns the generated test or None."""
    cmd = ["cargo", "kani", "--target-dir", target] + FLAGS + [
        "-Z", "concrete-playback", "--concrete-playback=print", "--harness", full, "--exact",
        "--harness-timeout", "%ds" % timeout] + list(extra)
    with open(log, "w") as fh:
        try:
            subprocess.run(cmd, cwd=d, env=env(), stdout=fh, stderr=subprocess.STDOUT, timeout=timeout + 60)
        except subprocess.TimeoutExpired:
            return []
    text = open(log, errors="replace").read()
    tests = []
    for m in re.finditer(r"Concrete playback unit test for `([^`]*)`:\n```\n(.*?)```", text, re.S):
        body = m.group(2)
        if "Check for `cover`" in body and "never:" not in body:
            continue
        tests.append(body[body.index("#[test]"):])
    return tests


def replay(d, target, attach, harness_file, tests, log, timeout=240, extra=()):
    """Compile the generated tests natively and run them. Returns (confirmed test, its output)."""
    names = []
    text = "\n"
    for t in tests:
        names.append(re.search(r"fn (\w+)\(", t).group(1))
        text += t + "\n"
    make_crate(d, attach, playback=True, extra_test={harness_file: text})
    out = ""
    for n in names:
        cmd = ["cargo", "kani", "playback", "-Z", "concrete-playback"] + list(extra) + ["--", n, "--nocapture"]
        e = env()
        e["CARGO_TARGET_DIR"] = target + "_pb"
        try:
            p = subprocess.run(["bash", "-c", "ulimit -v 16000000; exec \"$@\"", "-"] + cmd, cwd=d, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            continue
        out += "$ " + " ".join(cmd) + "\n" + p.stdout[-6000:]
        if p.returncode != 0 and re.search(r"test .*%s .*FAILED|panicked at" % n, p.stdout):
            if re.search(r"panicked at", p.stdout) and "kani::assume should always hold" not in p.stdout \
                    and "memory allocation of" not in p.stdout and "Not enough det vals" not in p.stdout:
                open(log, "w").write(out)
                return n, out
    open(log, "w").write(out)
    return None, out
