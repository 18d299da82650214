"""Renamed private items: the crate's copy gets the names back under which the contracts know them.

names.json records, for the tree the contracts were written for, the fields of the structs and the functions.
A field (a function) that is gone while exactly one new one of the same type (signature and, nearly, body) has
appeared is taken for it, if the old name occurs nowhere else and the new one nowhere in the recorded tree: then
putting the old name back everywhere changes nothing but names.

python3 lib/names.py records /repo's tree.
"""
import difflib, json, os, re
import extract

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")


def sources(src):
    for root, _, files in sorted(os.walk(src)):
        for f in sorted(files):
            if f.endswith(".rs"):
                yield os.path.relpath(os.path.join(root, f), src)


def fields(text):
    """{struct: [[field, type]]} of the structs with named fields."""
    r = {}
    for m in re.finditer(r"\bstruct\s+(\w+)[^;{(]*\{", text):
        try:
            body = text[m.end():extract.closing(text, m.end() - 1)]
        except extract.Lost:
            continue
        found, depth, last = [], 0, 0
        for i, c in enumerate(body + ","):
            depth += (c in "<([{") - (c in ">)]}")
            if c == "," and depth == 0:
                f = re.match(r"\s*(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$", body[last:i], re.S)
                if f:
                    found.append([f.group(1), extract.norm(f.group(2))])
                last = i + 1
        r[m.group(1)] = found
    return r


def functions(text):
    """{impl header: {function: [signature without the name, body]}}"""
    r = {}
    for m in re.finditer(r"\bimpl\b", text):
        try:
            j = text.index("{", m.start())
            block = text[j + 1:extract.closing(text, j)]
            fns = r.setdefault(extract.norm(text[m.end():j]), {})
            for n in re.finditer(r"\bfn\s+(\w+)", block):
                sig, body = extract.function("impl X {" + block + "}", "X", n.group(1))
                fns[n.group(1)] = [extract.norm(re.sub(r"^fn\s+\w+", "", sig)), extract.norm(body)]
        except (extract.Lost, ValueError, IndexError):
            continue
    return r


def describe(src):
    d, words = {}, set()
    for f in sources(src):
        t = extract.load(os.path.join(src, f))
        d[f] = dict(fields=fields(t), functions=functions(t))
        words |= set(re.findall(r"\w+", t))
    return dict(files=d, words=sorted(words))


def renamed(old, new):
    """{new name: old name}"""
    r = {}

    def match(o, n, same):
        gone, come = [x for x in o if x not in n], [x for x in n if x not in o]
        for g in gone:
            hits = [c for c in come if same(o[g], n[c])]
            if len(hits) == 1 and sum(same(o[x], n[hits[0]]) for x in gone) == 1:
                r.setdefault(hits[0], g)

    def alike(a, b):
        return a[0] == b[0] and difflib.SequenceMatcher(None, re.findall(r"\w+|\W", a[1]), re.findall(r"\w+|\W", b[1])).ratio() > 0.8
    for f, o in old["files"].items():
        n = new["files"].get(f)
        if n:
            for s in o["fields"]:
                if s in n["fields"]:
                    match(dict(o["fields"][s]), dict(n["fields"][s]), lambda a, b: a == b)
            for s in o["functions"]:
                if s in n["functions"]:
                    match(o["functions"][s], n["functions"][s], alike)
    ow, nw = set(old["words"]), set(new["words"])
    return {n: o for n, o in r.items() if o not in nw and n not in ow}


def restore(src):
    """Put the recorded names back into the copy of the crate in src."""
    try:
        m = renamed(json.load(open(FILE)), describe(src))
    except (OSError, ValueError, extract.Lost, IndexError):
        return {}
    if m:
        for f in sources(src):
            p = os.path.join(src, f)
            s = open(p).read()
            t = re.sub(r"\b(%s)\b" % "|".join(m), lambda x: m[x.group(1)], s)
            if t != s:
                open(p, "w").write(t)
    return m


if __name__ == "__main__":
    import kani_engine
    with open(FILE, "w") as fh:
        json.dump(describe(kani_engine.REPO_SRC), fh, indent=0, sort_keys=True)
