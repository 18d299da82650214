"""Engine V: the crate's functions, extracted mechanically (extract.py) and proved by Verus/Z3.

A unit is a template in /verif/verus: stand-ins, specifications, lemmas, and directives that paste the
crate's own items and function bodies. Nothing of what is pasted is written here.
"""
import os, re, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
import extract
import names
import kani_engine as K

DIR = os.path.join(K.VERIF, "verus")


def result(name, status, reason="", obligations=1, seconds=0.0, output="", twins=()):
    return dict(name=name, status=status, reason=reason, obligations=obligations, seconds=round(seconds, 1),
                output=output, twins=list(twins))


def verus(path):
    t = time.time()
    try:
        p = subprocess.run(["verus", "--crate-type=lib", "--rlimit", "60", "--multiple-errors", "4", path], cwd=os.path.dirname(path),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        return p.stdout, time.time() - t
    except (subprocess.TimeoutExpired, OSError) as e:
        return "error: %s" % e, time.time() - t


def errors(out):
    """[(message, line of the primary location or 0, text)]"""
    r = []
    for b in re.split(r"\n(?=error|warning|note: |verification results)", "\n" + out):
        b = b.lstrip("\n")
        m = re.match(r"error(?:\[E\d+\])?: (.*)", b)
        if not m or m.group(1).startswith("aborting due to"):
            continue
        l = re.search(r"--> (\S+?):(\d+):", b)
        r.append((m.group(1), int(l.group(2)) if l and "/" not in l.group(1).replace(DIR, "") or l and l.group(1).endswith(".rs") and "std_specs" not in l.group(1) else 0, b))
    return r


def run(targets, d, pid):
    """targets: [(unit, {function: [complete Kani contracts with the same postcondition]}, part)]

    part: the property's clauses of the unit are proved apart from each other; each part has its own tag."""
    src = d + "_src"
    if targets:
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(K.REPO_SRC, src)
        names.restore(src)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    base = d

    def one(unit, fns, *part):
        res, tag, d = [], part[0] if part else pid, os.path.join(base, (part[0] if part else pid) + "_" + unit)
        os.makedirs(d)
        template = open(os.path.join(DIR, unit + ".rs")).read()
        path, vpath = os.path.join(d, unit + ".rs"), os.path.join(d, unit + "_vacuity.rs")
        opaque, sec, m, why, second = {}, 0.0, None, "", []
        # A function that the extraction or Verus does not accept is left to K; the others are still decided.
        for _ in range(6):
            try:
                text, where = extract.expand(template, src, tag, opaque=opaque)
                vac, _ = extract.expand(template, src, tag, vacuity=True, opaque=opaque)
            except Exception as e:
                why = "extraction: %s: %s" % (type(e).__name__, e)
                break
            ranges = {f: (a, b) for f, a, b in where}
            open(path, "w").write(text)
            open(vpath, "w").write(vac)
            vacuity, second = threading.Thread(target=lambda: second.append(verus(vpath))), []
            vacuity.start()
            out, s = verus(path)
            sec += s
            vacuity.join()
            open(os.path.join(K.BUILD, "%s.%s.verus.log" % (tag, unit)), "w").write(out)
            m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
            if m:
                break
            e = errors(out)
            why = "Verus: " + (e[0][0] if e else out[-200:])
            new = {f: "Verus: " + msg for msg, line, _ in e for f, (a, z) in ranges.items() if a <= line <= z and f not in opaque}
            if not new:
                break
            opaque.update(new)
        if not m:
            return [result(f, "undecided", why, seconds=sec) for f in fns]
        bad, odd = {}, []
        for msg, line, b in errors(out):
            hit = [f for f, (a, z) in ranges.items() if a <= line <= z]
            if re.search(r"rlimit|resource limit|timed? ?out", b, re.I):
                odd += hit or list(fns)
            elif hit:
                bad.setdefault(hit[0], []).append(b)
            else:
                # A lemma of the template that does not hold any more: nothing that uses it is decided.
                odd += list(fns)
        vout, vsec = second[0]
        reached = set(re.findall(r"assert\(false\); // VACUITY (\w+)", "\n".join(b for _, _, b in errors(vout))))
        lost = sorted(f for f in bad if f not in fns)
        per = (sec + vsec) / max(1, len(fns))
        for f, twins in fns.items():
            name = f.split("::")[-1]
            if f not in ranges:
                res.append(result(f, "undecided", "not in the unit", seconds=per))
            elif f in opaque:
                res.append(result(f, "undecided", opaque[f], seconds=per))
            elif f in odd:
                res.append(result(f, "undecided", "Verus: no answer", seconds=per))
            elif f in bad:
                res.append(result(f, "failed", bad[f][0].split("\n")[0], seconds=per, output="\n".join(bad[f]), twins=twins))
            elif name not in reached:
                res.append(result(f, "undecided", "vacuous: false is provable at its start", seconds=per))
            elif lost:
                res.append(result(f, "undecided", "relies on the contract of " + ", ".join(lost) + ", which fails", seconds=per))
            else:
                res.append(result(f, "proved", seconds=per))
        if "prelude" not in reached:
            for r in res:
                r.update(status="undecided", reason="the stand-ins of the unit are contradictory")
        return res

    with ThreadPoolExecutor(3) as pool:
        return [r for rs in pool.map(lambda t: one(*t), targets) for r in rs]


def notes():
    used = []
    for f in sorted(os.listdir(DIR)):
        t = open(os.path.join(DIR, f)).read()
        used.append(dict(template=f, external_body=t.count("verifier::external_body"), assume_specification=t.count("assume_specification"),
                         uninterpreted=t.count("uninterp spec"), assume=len(re.findall(r"\b(assume|admit)\(", t))))
    return dict(rewriting=extract.RULES, trusted_items=used)
