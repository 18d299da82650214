"""Mechanical extraction of items and function bodies from the crate, for Verus.

What is dropped or rewritten is exactly what the functions below do; RULES names every rewriting.
Anything that does not look as expected raises Lost: the unit is then not decided by Verus.
"""
import os
import re


class Lost(Exception):
    pass


def skip_literal(s, i):
    """If a string, char literal or comment starts at i, the index after it; else i."""
    c = s[i]
    if s.startswith("//", i):
        j = s.find("\n", i)
        return len(s) if j < 0 else j
    if s.startswith("/*", i):
        d, j = 1, i + 2
        while d and j < len(s):
            if s.startswith("/*", j):
                d, j = d + 1, j + 2
            elif s.startswith("*/", j):
                d, j = d - 1, j + 2
            else:
                j += 1
        return j
    m = re.compile(r'b?r(#*)"').match(s, i)
    if m and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
        j = s.find('"' + m.group(1), m.end())
        return j + 1 + len(m.group(1))
    if c == '"':
        j = i + 1
        while s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j + 1
    m = re.compile(r"'(\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.|[^\\'])'").match(s, i)
    if m:
        return m.end()
    return i


def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        j = skip_literal(s, i)
        if j > i:
            if s[i] == "/":
                out.append(" ")
            else:
                out.append(s[i:j])
            i = j
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def closing(s, i):
    """Index of the bracket that closes the one at i."""
    pair, stack = {"(": ")", "[": "]", "{": "}"}, []
    while i < len(s):
        j = skip_literal(s, i)
        if j > i:
            i = j
            continue
        c = s[i]
        if c in pair:
            stack.append(pair[c])
        elif c in ")]}":
            if not stack or stack.pop() != c:
                raise Lost("brackets")
            if not stack:
                return i
        i += 1
    raise Lost("brackets")


def strip_attributes(s):
    while True:
        m = re.search(r"#!?\[", s)
        if not m:
            return s
        j = closing(s, m.end() - 1)
        s = s[:m.start()] + s[j + 1:]


def load(path):
    s = strip_comments(open(path).read())
    s = re.split(r"#\[cfg\(test\)\]\s*mod\s", s)[0]
    return strip_attributes(s)


def norm(s):
    s = re.sub(r"\s+", " ", s.strip()).replace("<'_>", "")
    s = re.sub(r"\s*([(){}<>,:;&=])\s*", r"\1", s)
    s = re.sub(r",([)>}])", r"\1", s)
    return s.replace("(mut self", "(self").replace("pub(crate)", "").replace("pub ", "").strip()


def item(src, kind, name):
    m = re.search(r"\b%s\s+%s\b" % (kind, re.escape(name)), src)
    if not m:
        raise Lost("no %s %s" % (kind, name))
    i = m.start()
    j = m.end()
    while src[j] not in "{;(":
        j += 1
    if kind in ("const", "static", "type"):
        return src[i:src.index(";", m.end()) + 1]
    if src[j] == "(":
        j = closing(src, j)
        return src[i:src.index(";", j) + 1]
    return src[i:closing(src, j) + 1] if src[j] == "{" else src[i:j + 1]


def impl_block(src, header):
    for m in re.finditer(r"\bimpl\b", src):
        j = src.index("{", m.start())
        if norm(header) == norm(re.sub(r"^impl\s*(<[^{]*?>)?\s+", "", src[m.start():j])) or norm(header) == norm(src[m.end():j]):
            yield src[j + 1:closing(src, j)]


def function(src, header, name):
    """(signature, body with braces) of fn name in `impl header`, or a free function."""
    blocks = list(impl_block(src, header)) if header else [src]
    for b in blocks:
        m = re.search(r"\bfn\s+%s\b" % name, b)
        if not m:
            continue
        j = b.index("(", m.end())
        j = closing(b, j)
        while b[j] != "{":
            if b[j] == ";":
                raise Lost("fn %s has no body" % name)
            j += 1
        return b[m.start():j], b[j:closing(b, j) + 1]
    raise Lost("no fn %s in impl %s" % (name, header))


def balanced_replace(s, start_re, f):
    """Replace each match of start_re, which ends with an open bracket, up to its closing one by f(m, inside)."""
    pos = 0
    while True:
        m = re.compile(start_re).search(s, pos)
        if not m:
            return s
        j = closing(s, m.end() - 1)
        r = f(m, s[m.end():j])
        s = s[:m.start()] + r + s[j + 1:]
        pos = m.start() + (len(r) if m.re.search(r) else 0)


def receiver_start(s, i):
    """Start of the method chain that ends before i."""
    while i > 0:
        c = s[i - 1]
        if c.isalnum() or c in "_.:":
            i -= 1
        elif c.isspace() and re.match(r"\s*\.", s[i - 1:]):
            i -= 1
        elif c == ")":
            d, j = 0, i - 1
            while True:
                if s[j] == ")":
                    d += 1
                elif s[j] == "(":
                    d -= 1
                    if d == 0:
                        break
                j -= 1
            i = j
        else:
            break
    while s[i].isspace():
        i += 1
    return i


def map_or(s):
    """R.map(|x| E).unwrap_or(D) is match R { Some(x) => E, None => D } (D is a constant)."""
    while True:
        m = re.search(r"\s*\.map\(\|(\w+)\|", s)
        if not m:
            return s
        j = closing(s, s.index("(", m.start()))
        u = re.compile(r"\s*\.unwrap_or\(").match(s, j + 1)
        if not u:
            raise Lost("map without unwrap_or")
        k = closing(s, u.end() - 1)
        d = s[u.end():k].strip()
        if not re.fullmatch(r"\d+|false|true|usize::MAX|u32::MAX", d):
            raise Lost("unwrap_or of " + d)
        b = receiver_start(s, m.start())
        s = s[:b] + "(match %s { Some(%s) => %s, None => %s })" % (s[b:m.start()], m.group(1), s[m.end():j], d) + s[k + 1:]


def ready(s, name):
    def f(m, inside):
        return "%s!(%s)" % (name, inside)
    s = re.sub(r"\bready!\(", "READY!(", s)
    pos = 0
    while True:
        m = re.compile(r"READY!\(").search(s, pos)
        if not m:
            return s
        j = closing(s, m.end() - 1)
        inside = s[m.end():j]
        t = re.compile(r"\s*\?").match(s, j + 1)
        q = re.search(r"\.map_err\(\|_\|\s*(self\.write_zero_err\(\))\s*\)\s*\?\s*$", inside)
        if q:
            # ready!(P.map_err(|_| E)?): P is a Poll<Result<..>>
            r = "ready_or!(%s, %s)" % (inside[:q.start()].strip(), q.group(1))
            s = s[:m.start()] + r + s[j + 1:]
        elif t:
            s = s[:m.start()] + "%s!(%s)" % (name, inside) + s[t.end():]
        else:
            s = s[:m.start()] + "ready!(%s)" % inside + s[j + 1:]
        pos = m.start() + 5


RULES = {
    "names": "private items that were renamed have the names of the reference tree again (names.py)",
    "pin": "Pin<&mut Self> is &mut self (the types are Unpin): Pin::into_inner(self), self.get_mut(), &mut *self are self; Pin::new(&mut x) is &mut x",
    "log": "log::*! does nothing; format! gives an unspecified text",
    "take": "std::mem::take of a Vec by its contract",
    "guard": "the mutex is erased (sequential execution): self.shared() and self.shared.lock() are &mut self.shared; drop(x) does nothing",
    "arc": "Arc<Config> is Config, Arc<Mutex<Shared>> is Shared (one stream, sequential execution)",
    "vec": "Vec::from(slice) by its contract",
    "min": "cmp::min, cmp::max of usize, by verified functions of the prelude",
    "ready": "ready!(P)? is the match that it abbreviates; so is ready!(P.map_err(|_| e)?), R.map_err(|_| e)?",
    "map": "R.map(|x| e).unwrap_or(c) is match R { Some(x) => e, None => c }",
    "range": "&mut x[a..b] is x.range_mut(a, b), a verified function of the prelude",
    "unit": "the type parameters of Header and Frame are left out",
    "conn": "in functions of the connection: E? is the match that it abbreviates (errors converted by the From impls of error.rs); "
            "x.into() and map(Into::into) on frames (which only drop the type parameter) are left out; R.or_else(|| e) is match R { Some(x) => Some(x), None => e }; "
            "A.into_iter().chain(B).collect::<VecDeque<..>>() of two options is two(A, B); s.lock() of a stream in the table is self.streams.at(&s); "
            "w.wake() is self.woken.wake(w), a log; for .. in x.drain() and for .. in x.iter() (with filter and count) are loops over the entries, "
            "in any order; for x in R.iter_mut() { x.inner_mut().close(); } is R.close_all(); what is left of the connection (the table, the log) goes into Closing::new and Cleanup::new as well; mut self is a local variable",
    "fields": "Fuse<Io>, the table of streams and the set of their queues are the stand-ins Socket, Streams and Receivers",
}


def conversions(s, macro):
    """E? is macro!(E)."""
    i = 0
    while i < len(s):
        j = skip_literal(s, i)
        if j > i:
            i = j
            continue
        if s[i] == "?":
            k = i
            while s[k - 1].isspace():
                k -= 1
            b = receiver_start(s, k)
            s = s[:b] + "%s!(%s)" % (macro, s[b:k]) + s[i + 1:]
            i = b + len(macro)
        i += 1
    return s


def or_else(s):
    while True:
        m = re.search(r"\s*\.or_else\(\|\|", s)
        if not m:
            return s
        j = closing(s, s.index("(", m.start()))
        b = receiver_start(s, m.start())
        s = s[:b] + "(match %s { Some(x) => Some(x), None => %s })" % (s[b:m.start()], s[m.end():j]) + s[j + 1:]


def drained(s):
    """for (id, s) in R.drain() { B }: a loop, if B does not leave it."""
    m = re.search(r"\bfor\s*\((\w+),\s*(mut\s+)?(\w+)\)\s*in\s*([\w.]+?)\s*\.drain\(\)\s*\{", s)
    if not m:
        return s
    j = closing(s, m.end() - 1)
    if re.search(r"\b(break|return|continue)\b|\?", s[m.end():j]):
        raise Lost("a drain that may stop early")
    return s[:m.start()] + "while let Some((%s, %s)) = %s.drain_next() {" % (m.group(1), m.group(3), m.group(4)) + s[m.end():]


def counted(s):
    """R.iter().filter(|(id, _)| A).filter(|(_, s)| B).count(): a loop that counts."""
    m = re.search(r"([\w.]+?)\s*\.iter\(\)(?=\s*\.filter\()", s)
    if not m:
        return s
    e, tests = m.end(), []
    while True:
        f = re.compile(r"\s*\.filter\(\|\((\w+),\s*(\w+)\)\|").match(s, e)
        if not f:
            break
        j = closing(s, s.index("(", f.start()))
        names = [n for n in f.groups() if n != "_"]
        inside = s[f.end():j].strip()
        if re.search(r"\b(return|break)\b|\?", inside):
            raise Lost("a filter that may stop early")
        tests.append((f.group(1), f.group(2), inside))
        e = j + 1
    c = re.compile(r"\s*\.count\(\)").match(s, e)
    if not c or not tests:
        raise Lost("filter without count")
    code = "{ let keys = %s.keys(); let mut at: usize = 0; let mut found: usize = 0; while at < keys.len() { let key = &keys[at]; " % m.group(1)
    cond = " && ".join("{ let %s = key; let %s = %s.entry(key); %s }" % (a if a != "_" else "_k", b if b != "_" else "_s", m.group(1), t) for a, b, t in tests)
    code += "if %s { found = found + 1; } at = at + 1; } found }" % cond
    return s[:m.start()] + code + s[c.end():]


def conn(s, opts):
    s = re.sub(r"\.map\(Into::into\)", "", s)
    s = re.sub(r"\s*\.into\(\)", "", s)
    s = or_else(s)
    s = re.sub(r"\bw(aker)?\.wake\(\)", lambda m: "self.woken.wake(w%s)" % (m.group(1) or ""), s)
    s = re.sub(r"\bstream\s*\.\s*shared\(\)", "(&mut stream.shared)", s)
    s = re.sub(r"\blet stream = self", "let mut stream = self", s)
    s = re.sub(r"for (\w+) in ([\w.]+)\.iter_mut\(\)\s*\{\s*\1\s*\.inner_mut\(\)\s*\.close\(\);\s*\}", r"\2.close_all();", s)
    s = re.sub(r"((?:\w+\s*\.\s*)*?\w+)\s*\.into_iter\(\)\s*\.chain\(([\w.]+)\)\s*\.collect::<VecDeque<Frame>>\(\)", r"two(\1, \2)", s)
    s = balanced_replace(s, r"\b(Closing|Cleanup)::new\(", lambda m, x: "%s::begin(%s, self.streams, self.woken)" % (m.group(1), x))
    s = drained(s)
    s = counted(s)
    s = re.sub(r"(?<!debug_)\b(debug_)?assert!\(", "must!(", s)
    s = re.sub(r"\b(\w+)\s*\.\s*lock\(\)", lambda m: m.group(0) if m.group(1) == "shared" else ("%s" if "filter" in opts else "self.streams.at(&%s)") % m.group(1), s)
    if "own" in opts:
        s = re.sub(r"\bself\b", "this", s)
    return conversions(s, "tri_poll" if "poll" in opts else "tri")


def rewrite(s, opts):
    s = re.sub(r"\bPin::into_inner\(\s*self\s*\)|\bself\.get_mut\(\)|&mut \*self\b", "self", s)
    s = re.sub(r"\bPin::new\(", "(", s)
    s = s.replace("poll_ready_unpin", "poll_ready").replace("poll_flush_unpin", "poll_flush").replace("poll_close_unpin", "poll_close")
    s = re.sub(r"\bformat!", "format_!", s)
    s = re.sub(r"\b((std::)?mem::)?drop\(\w+\);", "();", s)
    s = balanced_replace(s, r"\blog::(trace|debug|info|warn|error)!\s*\(", lambda m, x: "()")
    s = re.sub(r"\b(std::)?mem::take\(", "mem_take(", s)
    s = re.sub(r"\b(Header|Frame)\s*(::)?<(\(\)|Either<Data, WindowUpdate>|Data|WindowUpdate|Ping|GoAway)>", r"\1", s)
    s = s.replace("std::io::", "io::").replace("stream::Shared", "Shared").replace("rtt::Rtt", "Rtt")
    s = re.sub(r"\bArc::new\(Mutex::new\((.*?)\)\)(?=,\s*\})", r"\1", s, flags=re.S)
    s = re.sub(r"&mut (\w+)\[([^\[\]]*?)\.\.([^\[\]=]+)\]", lambda m: "%s.range_mut(%s, %s)" % (m.group(1), m.group(2).strip() or "0", m.group(3).strip()), s)
    s = s.replace("Fuse<frame::Io<T>>", "Socket").replace("SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>", "Receivers")
    s = re.sub(r"\b(Active|Closing)<T>", r"\1", s).replace("poll_next_unpin", "poll_next").replace("start_send_unpin", "start_send")
    s = ready(s, "ready_item" if "item" in opts else "ready_conv" if "conn" in opts else "ready_try")
    g = "(&self.shared)" if "ref" in opts else "(&mut self.shared)"
    s = re.sub(r"\bself\s*\.\s*(shared\(\)|shared\s*\.\s*lock\(\))", g, s)
    s = s.replace("Arc<Mutex<usize>>", "Counter").replace("Arc<Mutex<Shared>>", "Shared").replace("Arc<Config>", "Config")
    s = s.replace("Arc::new(cfg)", "cfg").replace("IntMap<StreamId, Shared>", "Streams")
    if "conn" in opts:
        s = conn(s, opts)
    s = re.sub(r"\b(std::)?cmp::min\(", "min_usize(", s)
    s = re.sub(r"\b(std::)?cmp::max\(", "max_usize(", s)
    s = re.sub(r"\bVec::from\(", "vec_from(", s)
    # R.map_err(|_| e)?
    while True:
        m = re.search(r"\s*\.map_err\(\|_\|\s*self\.write_zero_err\(\)\s*\)\s*\?", s)
        if not m:
            break
        b = receiver_start(s, m.start())
        s = s[:b] + "result_or!(%s, self.write_zero_err())" % s[b:m.start()].strip() + s[m.end():]
    m = re.search(r"\s*\.map_err\(\|_\|\s*self\.write_zero_err\(\)\s*\)", s)
    if m:
        b = receiver_start(s, m.start())
        s = s[:b] + "poll_or!(%s, self.write_zero_err())" % s[b:m.start()].strip() + s[m.end():]
    return map_or(s)


def with_loops(body, clauses, before=""):
    """Insert the clauses before the bodies of the loops, in order (and ghost code before the loops)."""
    found, i = [], 0
    while i < len(body):
        j = skip_literal(body, i)
        if j > i:
            i = j
            continue
        m = re.compile(r"\b(loop|while|for)\b").match(body, i)
        if m and (i == 0 or not (body[i - 1].isalnum() or body[i - 1] in "_.")):
            k = m.end()
            while body[k] != "{":
                k = closing(body, k) + 1 if body[k] in "([" else k + 1
            found.append((i, k))
            i = m.end()
            continue
        i += 1
    if len(found) != len(clauses):
        raise Lost("%d loops, expected %d" % (len(found), len(clauses)))
    for (a, k), c in reversed(list(zip(found, clauses))):
        body = body[:a] + before + "#[verifier::loop_isolation(false)] " + ("#[verifier::allow_complex_invariants] " if "ensures" in c else "") + body[a:k] + "\n" + c + "\n" + body[k:]
    return body


def expand(template, srcdir, pid, vacuity=False, opaque=None):
    """The Verus text of a template for property pid. Returns (text, [(function, first line, last line)]).

    opaque: {function: reason}: functions that are left without their body (their contract is then assumed in
    the others, and they are not decided here); those that could not be extracted are added to it."""
    out, names, cache = [], [], {}
    opaque = {} if opaque is None else opaque

    def src(f):
        if f not in cache:
            try:
                cache[f] = load("%s/%s" % (srcdir, f))
            except OSError:
                raise Lost("no file " + f)
        return cache[f]

    lines = template.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i].strip()
        if l.startswith("//@include "):
            inc = open("%s/%s" % (os.path.dirname(os.path.abspath(__file__)) + "/../verus", l.split()[1])).read()
            lines[i:i + 1] = inc.split("\n")
            continue
        if l.startswith("//@item "):
            f, kind, name = l.split()[1:4]
            t = rewrite(item(src(f), kind, name), [])
            w = re.search(r" with (.*)$", l)
            if w:
                t = t[:t.rindex("}")].rstrip().rstrip(",") + ", " + w.group(1) + " }"
            if "pub" in l.split()[4:]:
                t = re.sub(r"\((\w+)\);", r"(pub \1);", t) if kind == "struct" else t
            out.append("pub " + t if "pub" in l.split()[4:] else t)
        elif l.startswith("//@fn "):
            m = re.match(r'//@fn (\S+) "([^"]*)" (\w+)((?: \w+)*)$', l)
            f, header, name, opts = m.group(1), m.group(2), m.group(3), m.group(4).split()
            parts, cur = {}, None
            i += 1
            while lines[i].strip() != "//@end":
                m = re.match(r"\s*//@(\w+)((?: \w+)*):(.*)$", lines[i])
                if m:
                    cur = m.group(1)
                    if m.group(2) and pid not in m.group(2).split():
                        cur = "other"
                    if cur == "and":
                        # more invariants of the last loop
                        cur = "loop"
                        parts[cur][-1] += m.group(3)
                    else:
                        parts.setdefault(cur, []).append(m.group(3))
                else:
                    parts[cur][-1] += "\n" + lines[i]
                i += 1
            full = re.sub(r"[\s<].*$", "", header.split(" for ")[-1]) + "::" + name if header else name
            try:
                sig, body = function(src(f), header, name)
                if norm(sig) not in [norm(x) for x in parts["sig"]]:
                    raise Lost("the signature of %s changed: %s" % (name, norm(sig)))
                body = with_loops(rewrite(body, opts), parts.get("loop", []), "\n".join(parts.get("before", [])))
            except (Lost, IndexError) as e:
                opaque.setdefault(full, "extraction: %s" % e)
            start = "\n".join(parts.get("start", []))
            if vacuity:
                start = "assert(false); // VACUITY %s\n" % name + start
            spec = "\n".join(parts.get("spec", []))
            if "ensures" in parts:
                spec += "\nensures\n" + "\n".join(parts["ensures"])
            if full in opaque:
                out.append("#[verifier::external_body]\n" + parts["as"][0] + "\n" + spec + "\n{ unimplemented!() }")
            else:
                out.append(parts["as"][0] + "\n" + spec + "\n{ proof { " + start + " }\n" + "".join(parts.get("start_exec", [])) + body[1:])
            first = sum(x.count("\n") + 1 for x in out[:-1]) + 1
            names.append((full, first, first + out[-1].count("\n")))
        elif vacuity and "// VACUITY prelude" in l:
            out.append("assert(false); // VACUITY prelude")
        else:
            out.append(lines[i])
        i += 1
    return "\n".join(out), names


if __name__ == "__main__":
    import sys
    skipped = {}
    print(expand(open(sys.argv[1]).read(), sys.argv[2], sys.argv[3], len(sys.argv) > 4, skipped)[0])
    print(skipped, file=sys.stderr)
