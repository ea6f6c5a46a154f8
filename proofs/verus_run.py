"""Builds a Verus file from a template (proofs/verus/*.rs) and the functions it names, extracted from /repo on every run, and runs Verus.

Template directives (everything else is copied):
  //@src ALIAS PATH            a source file of /repo
  //@sub PATTERN ==> TEXT      token-level rewrite of extracted text (a space in PATTERN matches any white space)
  //@item ALIAS const:NAME     a const/struct/enum/type item, as it stands
  //@spec ALIAS NAME : SIG    a function that is a single expression, as a specification with signature SIG
  //@include FILE              text shared by several templates
  //@heap g : &mut Db : f1 f2   shared state behind handles, passed explicitly: calls of f1, f2.. get g as first argument, and
                               functions flagged `heap` take it
  //@sql                       where the contracts compiled from the SQL statements go (proofs/sqlmini.py)
  //@fn ALIAS NAME [mut] [as=NEWNAME] [spinoff]   a function; sections until //@endfn:
      //@contract  //@begin  //@end  //@inv K  //@before K  //@top K  //@bot K  //@after K  //@local PATTERN ==> TEXT
      //@map TEXT               what x.map(|y| e) means here: $0, $1, $2 stand for x, y, e
      //@result                 map! closures are applied to a Result rather than an Option
"""
import json, os, re, subprocess, time
from . import procs, sqlmini

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TOOL = os.path.join(VERIF, "tools", "extract")
TARGET = os.path.join(VERIF, "work", "extract-target")


class Lost(Exception):
    pass


def tool():
    b = os.path.join(TARGET, "release", "extract")
    src = os.path.join(TOOL, "src", "main.rs")
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        e = dict(os.environ)
        e.pop("RUSTUP_TOOLCHAIN", None)
        e["CARGO_TARGET_DIR"] = TARGET
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"], cwd=TOOL, env=e, capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("extract tool: " + p.stderr[-1500:])
    return b


_cache = {}


def items(path):
    full = os.path.join(REPO, path)
    key = (full, os.path.getmtime(full) if os.path.exists(full) else 0)
    if key not in _cache:
        if not os.path.exists(full):
            raise Lost(f"{path} is gone")
        p = subprocess.run([tool(), full], capture_output=True, text=True)
        if p.returncode:
            raise Lost(f"{path} does not parse: {p.stderr[-300:]}")
        d = {}
        for it in json.loads(p.stdout):
            d.setdefault(it["name"], it)
        _cache[key] = d
    return _cache[key]


def pat(s):
    return "".join(r"\s*" if c == " " else c for c in s)


def args_of(text, i):
    """text[i] is '(': -> (list of top-level comma-separated parts, index after the closing parenthesis)"""
    depth, parts, cur, j = 0, [], "", i
    ins = None
    while j < len(text):
        c = text[j]
        if ins:
            cur += c
            if c == "\\":
                cur += text[j + 1]
                j += 1
            elif c == ins:
                ins = None
        elif c == '"':
            ins = c
            cur += c
        elif c in "([{":
            depth += 1
            if depth > 1:
                cur += c
        elif c in ")]}":
            depth -= 1
            if depth == 0:
                if cur.strip():
                    parts.append(cur.strip())
                return parts, j + 1
            cur += c
        elif c == "," and depth == 1:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += c
        j += 1
    raise Lost("unbalanced text")


def expand(text, name, f):
    """Replaces every name ! (args) by f(args), innermost last."""
    rx = re.compile(r"\b" + name + r"\s*!\s*\(")
    while True:
        ms = list(rx.finditer(text))
        if not ms:
            return text
        m = ms[-1]
        parts, end = args_of(text, m.end() - 1)
        text = text[:m.start()] + f(parts) + text[end:]


class Unit:
    def __init__(self, name, tmpl):
        self.name, self.tmpl = name, tmpl
        self.srcs, self.subs, self.sql_out, self.fns, self.dropped, self.seen_subs = {}, [], [], [], [], set()
        self.uncallable = set()
        self.shapes = {}

    def fn(self, line, sections, probe):
        parts = line.split()
        alias, name, flags = parts[0], parts[1], parts[2:]
        its = items(self.srcs[alias])
        if name not in its:
            raise Lost(f"{name} is no longer in {self.srcs[alias]}")
        it = its[name]
        self.dropped += it["dropped"]
        fid = re.sub(r"\W+", "_", name)
        body, inputs, output, where, gen = it["body"], it["inputs"], it["output"].strip(), it["where"], it["generics"]
        for k, (text, how, n) in enumerate(it["sql"]):
            m = f"__sql_{fid}_{k}"
            try:
                self.sql_out.append(sqlmini.compile(m, text, how, n))
            except sqlmini.Unsupported as e:
                raise Lost(f"{name}: SQL outside the grammar ({e}): {' '.join(text.split())}")
            # __sql_k (__db ! (X), a, b)  ->  X.m(a, b)
            mm = re.search(r"__sql_%d\s*\(" % k, body)
            parts_, end = args_of(body, mm.end() - 1)
            db = re.match(r"__db\s*!\s*\((.*)\)$", parts_[0], re.S)[1].strip()
            body = body[:mm.start()] + f"{db}.{m}({', '.join(parts_[1:])})" + body[end:]
        for k, (text, n) in enumerate(it["fmt"]):
            body = body.replace(f"__fmt_{k} (", f"__fmt_{fid}_{k}(")
        how = [s[4:] for s in sections if s.startswith("map ")]
        if how:
            mapf = lambda a: how[0].replace("$0", a[0]).replace("$1", a[1]).replace("$2", ",".join(a[2:]))
        elif any(s.startswith("result") for s in sections):
            mapf = lambda a: f"(match {a[0]} {{ Ok({a[1]}) => Ok({','.join(a[2:])}), Err(__e) => Err(__e) }})"
        else:
            mapf = lambda a: f"(match {a[0]} {{ Some({a[1]}) => Some({','.join(a[2:])}), None => None }})"
        body = expand(body, "__map", mapf)
        body = expand(body, "__map_err", lambda a: f"(match {a[0]} {{ Ok(__v) => Ok(__v), Err({a[1]}) => Err({','.join(a[2:])}) }})")
        if "mut" in flags:
            inputs = re.sub(r"^&\s*self", "&mut self", inputs)
        local = []
        for s in sections:
            if s.startswith("local "):
                a, b = s[6:].split("==>")
                local.append((a.strip(), b.strip()))
        body = re.sub(r"__drop ! \((\w+)\);", lambda m: f"{m[1]}.drop_impl ();", body)
        body = re.sub(r"__guard ! \((\w+)\);", lambda m: sections.get(f"guard {m[1]}", sections.get("guard", "")), body)
        if self.heap:
            hname, hty, called = self.heap
            body = re.sub(r"(\.\s*|::\s*|(?<![\w.:]))\b(%s)((?:\s*::\s*<(?:[^()<>]|\(\))*>)?)\s*\((\s*\))?" % "|".join(called),
                          lambda m: f"{m[1]}{m[2]}{m[3]}({hname}" + (")" if m[4] else ", "), body)
            if "heap" in flags:
                m = re.match(r"(&\s*(?:'\s*\w+\s*)?(?:mut\s+)?self|mut self|self)\s*,?", inputs)
                inputs = (m[1] + ", " if m else "") + f"{hname}: {hty}, " + (inputs[m.end():] if m else inputs)
        owned = re.match(r"mut\s+self\b", inputs)
        if owned:
            inputs = inputs[owned.end() - 4:]
            body = re.sub(r"\bself\b", "this", body)
        blob = "\x01".join([gen, inputs, output, where, body])
        for a, b in local + self.subs:
            blob, n = re.subn(pat(a), b, blob)
            if n:
                self.seen_subs.add((a, b))
        gen, inputs, output, where, body = blob.split("\x01")
        self.fmts += [(f"__fmt_{fid}_{k}", text, n) for k, (text, n) in enumerate(it["fmt"]) if f"__fmt_{fid}_{k}" in body]
        nl = it["loops"]
        want = sorted({int(s.split()[1]) for s in sections if s.startswith("inv ")})
        if want != list(range(nl)):
            raise Lost(f"{name} has {nl} loops, the contract expects {len(want)}")

        def sec(key):
            return sections.get(key, "")
        contract = sec("contract")
        probe_txt = {"begin": " assert(false);", "end": ""}.get(probe, "") if probe else ""
        body = re.sub(r"^\s*\{\s*__contract ! \(\);", lambda m: f"\n{contract}\n{{\n{'let mut this = self;' if owned else ''}{sec('begin')}{probe_txt}", body, count=1)
        for k in range(nl):
            # `{ __inv!(k);` -> invariant before the brace
            body, n = re.subn(r"\{\s*__inv ! \(%d\);" % k, lambda m: f"\n{sec('inv %d' % k)}\n{{", body)
            if n != 1:
                raise Lost(f"{name}: loop {k}")
            for mk in ("before", "top", "bot", "after"):
                body = re.sub(r"__%s ! \(%d\);" % (mk, k), lambda m: sec(f"{mk} {k}"), body)
        body = re.sub(r"__end ! \(\);", lambda m: sec("end"), body)
        fname = it["fn"]
        for fl in flags:
            if fl.startswith("as="):
                fname = fl[3:]
        attr = "".join(f"#[verifier::{fl}]\n" for fl in flags if fl in ("spinoff_prover", "loop_isolation(false)"))
        ret = f"-> (r: {output})" if output else ""
        if name in self.fns:
            base, k = f"{name} ({alias})", 2
            name = base
            while name in self.fns:
                name = f"{base} #{k}"
                k += 1
        self.fns.append(name)
        self.shapes[name] = it["shapes"]
        if "uncallable" in flags:  # its precondition is meant to be false
            self.uncallable.add(name)
        vis = "" if "trait" in flags else "pub "
        return f"//#BEGIN {name}\n{attr}{vis}fn {fname}{gen}({inputs}) {ret} {where}{body}\n//#END\n"

    def build(self, probe=None):
        self.srcs, self.subs, self.sql_out, self.fns, self.dropped, self.fmts, self.heap = {}, [], [], [], [], [], None
        tmpl = re.sub(r"^//@include (\S+)$", lambda m: open(os.path.join(VERIF, "proofs", "verus", m[1])).read(), self.tmpl, flags=re.M)
        out, lines, i = [], tmpl.split("\n"), 0
        while i < len(lines):
            l = lines[i].strip()
            if l.startswith("//@src "):
                _, a, p = l.split()
                self.srcs[a] = p
            elif l.startswith("//@require "):
                _, p, rx = l.split(" ", 2)
                if not re.search(rx, open(os.path.join(REPO, p)).read()):
                    raise Lost(f"{p} no longer has {rx}")
            elif l.startswith("//@heap "):
                # //@heap g : &mut Db : f1 f2 ...
                _, a, b, c = re.match(r"(//@heap) (\w+) : (.*?) : (.*)", l).groups()
                prev = self.heap[2] if self.heap else []
                self.heap = (a, b, prev + c.split())
            elif l.startswith("//@sub "):
                a, b = l[7:].split("==>")
                self.subs.append((a.strip(), b.strip()))
            elif l.startswith("//@only "):
                # //@only PATH REGEX : names    everything REGEX captures in PATH is one of names
                m = re.match(r"//@only (\S+) (.*) : (.*)", l)
                full = os.path.join(REPO, m[1])
                if not os.path.exists(full):
                    raise Lost(f"{m[1]} is gone")
                found = re.findall(pat(m[2]), open(full).read())
                odd = [f for f in found if f not in m[3].split()]
                if odd or not found:
                    raise Lost(f"{m[1]} registers {odd or 'nothing'}")
            elif l.startswith("//@item ") or l.startswith("//@item-eq "):
                _, a, n = l.split()
                its = items(self.srcs[a])
                if n not in its:
                    raise Lost(f"{n} is no longer in {self.srcs[a]}")
                t = its[n]["text"]
                for x, y in self.subs:
                    t = re.sub(pat(x), y, t)
                out.append(("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" if l.startswith("//@item-eq") else "") + t)
            elif l.startswith("//@spec "):
                # //@spec ALIAS NAME : SIGNATURE     the function's only expression, as a specification
                m = re.match(r"//@spec (\S+) (\S+) : (.*)", l)
                it = items(self.srcs[m[1]]).get(m[2])
                if not it:
                    raise Lost(f"{m[2]} is no longer in {self.srcs[m[1]]}")
                b = re.fullmatch(r"\s*\{\s*__contract ! \(\);\s*let __result = ([^;{}]*);\s*__end ! \(\);\s*__result\s*\}\s*", it["body"])
                if not b:
                    raise Lost(f"{m[2]} is no longer a single expression")
                out.append(f"pub open spec fn {m[3]} {{ {b[1]} }}")
            elif l == "//@sql":
                out.append("\x00SQL\x00")
            elif l == "//@fmt":
                out.append("\x00FMT\x00")
            elif l.startswith("//@fn "):
                secs, cur = {}, None
                i += 1
                while lines[i].strip() != "//@endfn":
                    s = lines[i].strip()
                    if s.startswith("//@"):
                        cur = s[3:].strip()
                        if cur.startswith("local ") or cur.startswith("map ") or cur == "result":
                            secs[cur] = ""
                            cur = None
                        else:
                            secs.setdefault(cur, "")
                    elif cur:
                        secs[cur] += lines[i] + "\n"
                    i += 1
                out.append(self.fn(l[6:], secs, probe))
            else:
                out.append(lines[i])
            i += 1
        text = "\n".join(out)
        sql = "impl Db {\n" + "\n".join(self.sql_out) + "}\n"
        return text.replace("\x00SQL\x00", sql).replace("\x00FMT\x00", self.fmt_text())

    def fmt_text(self):
        out = []
        for f, text, n in self.fmts:
            ps = "".join(f"a{i}: &A{i}, " for i in range(n))
            gs = ", ".join(f"A{i}: FmtArg" for i in range(n))
            lits = re.split(r"\{[^{}]*\}", text)
            if len(lits) != n + 1 or re.search(r"\{[^{}]+\}", text) or "{{" in text:
                raise Lost(f"format string {text!r}")
            # byte view: literal pieces around the arguments
            pieces = []
            for j, lit in enumerate(lits):
                pieces.append("seq![" + ", ".join(f"{b}u8" for b in lit.encode()) + "]" if lit else "Seq::<u8>::empty()")
                if j < n:
                    pieces.append(f"a{j}.shown()")
            sp = ", ".join(f"a{i}: Seq<u8>" for i in range(n))
            out.append(f"pub open spec fn {f}_spec({sp}) -> Seq<u8> {{ {' + '.join(pieces).replace('.shown()', '')} }}\n"
                       f"#[verifier::external_body]\npub fn {f}<{gs}>({ps}) -> (r: Key)\n    ensures r.bytes() == {f}_spec({', '.join(f'a{i}.shown()' for i in range(n))}),\n{{ unimplemented!() }}\n")
        return "\n".join(out)


def locate(text, line):
    name = None
    for n, l in enumerate(text.split("\n"), 1):
        if l.startswith("//#BEGIN "):
            name = l[9:]
        if n == line:
            return name
        if l.startswith("//#END"):
            name = None
    return None


def fn_at(text, line):
    """Name of the enclosing function (extracted or not) of a line."""
    e = locate(text, line)
    if e:
        return e
    ls = text.split("\n")
    for n in range(min(line, len(ls)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub )?(?:broadcast )?(?:proof |exec )?fn (\w+)", ls[n])
        if m:
            return m[1]
    return f"line {line}"


def verus(path, extra=(), limit=600):
    cmd = ["verus", path, "--output-json", "--time", "--multiple-errors", "20", "--num-threads", "4", "--triggers-mode", "silent", *extra]
    t0 = time.time()
    p = procs.run2(cmd, timeout=limit)
    return p, time.time() - t0, " ".join(cmd)


LOOPS = os.path.join(VERIF, "proofs", "loops.json")


def loops():
    return json.load(open(LOOPS)) if os.path.exists(LOOPS) else {}


def record():
    """Write down the kinds of the loops the invariants are written for (from the tree they were written against)."""
    out = {}
    for f in sorted(os.listdir(os.path.join(VERIF, "proofs", "verus"))):
        if f.endswith(".rs"):
            un = Unit(f[:-3], open(os.path.join(VERIF, "proofs", "verus", f)).read())
            un.build()
            out[f[:-3]] = {n: sh for n, sh in sorted(un.shapes.items()) if sh}
    json.dump(out, open(LOOPS, "w"), indent=1)


def run(name, only=None, params=(), assumptions=(), extra=(), probe=True):
    """only: the functions whose obligations belong to the property (None: all); params: values for /*?name*/ places."""
    params = dict(params)
    tag = name + "".join(f"_{k}_{v}" for k, v in sorted(params.items()))
    u = dict(name="verus-" + tag, backend="Verus 0.2026.09.13 (Z3)", cmd="", functions=[], obligations=0, discharged=0, failed=[], detail="",
             status="lost", assumptions=list(assumptions), secs=0.0, bound=None, kind="verus")
    tmpl = open(os.path.join(VERIF, "proofs", "verus", name + ".rs")).read()
    for k, v in params.items():
        tmpl, n = re.subn(r"/\*\?%s\*/\w+" % k, str(v), tmpl)
        assert n, k
    un = Unit(name, tmpl)
    work = os.path.join(VERIF, "work", "verus")
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, tag + ".rs")
    try:
        text = un.build()
    except Lost as e:
        u["detail"] = str(e)
        return u
    open(path, "w").write(text)
    (rc, out, err), secs, cmd = verus(path, extra)
    u.update(cmd=cmd, secs=round(secs, 1), functions=[f"{n}" for n in un.fns if only is None or n in only], text_rewrites=sorted(f"{a} ==> {b}" for a, b in un.seen_subs),
             dropped=un.dropped)
    try:
        js = json.loads(out[out.index("{"):])
        vr = js["verification-results"]
    except Exception:
        u["detail"] = "no result from verus: " + (out + err)[-1500:]
        return u
    if vr.get("encountered-vir-error") or vr.get("encountered-error") or rc not in (0, 1) and not vr.get("errors"):
        if not vr.get("errors"):
            u["detail"] = "the extracted text is outside the verifier's language: " + err[-3000:]
            return u
    try:
        u["smt_ms"] = js["times-ms"]["smt"]["total"]
    except Exception:
        pass
    u["obligations"] = vr["verified"] + vr["errors"]
    u["discharged"] = vr["verified"]
    if vr["errors"] == 0 and vr.get("success"):
        u["status"] = "proved"
    elif vr["errors"]:
        errs, other, hard = [], [], False
        # an invariant speaks about the loop it was written for: where a loop has become one of another kind (a range for an
        # iterator, say), a failed obligation of that function says nothing about the code
        want = loops().get(name, {})
        reshaped = {f for f, sh in un.shapes.items() if sh and want.get(f, sh) != sh}
        blocks = re.split(r"\n(?=error)", "\n" + err)
        for b in blocks:
            m = re.search(r"^error(?:\[\w+\])?: (.*)", b.strip())
            if not m or m[1].startswith("aborting"):
                continue
            lm = re.search(r"--> \S+?:(\d+):", b)
            where = fn_at(text, int(lm[1])) if lm else "?"
            if only is not None and where not in only and where in un.fns:
                other.append(f"{where}: {m[1]}")
                continue
            errs.append(f"{where}: {m[1]}")
            if where in reshaped:
                errs[-1] += " (a loop here is no longer of the kind its invariant is written for)"
            elif not re.search(r"rlimit|Resource limit|timed? ?out", m[1]):
                hard = True
        u["failed"] = errs
        u["detail"] = err[-6000:]
        u["status"] = "refuted" if hard else "undecided" if errs else "proved"
        if other:
            u["failed_elsewhere"] = other
    else:
        u["detail"] = err[-3000:]
    if probe and u["status"] == "proved":
        # no contract is vacuous: `assert(false)` at the start of every function must fail
        pp = os.path.join(work, tag + "_probe.rs")
        t2 = un.build(probe="begin")
        open(pp, "w").write(t2)
        (rc, out, err), s2, _ = verus(pp, extra)
        u["secs"] = round(u["secs"] + s2, 1)
        hit = set()
        for m in re.finditer(r"error: assertion failed\s*\n\s*--> \S+?:(\d+):", err):
            w = locate(t2, int(m[1]))
            if w:
                hit.add(w)
        vac = [f for f in un.fns if f not in hit and f not in un.uncallable]
        u["vacuity_probes"] = f"{len(hit)} of {len(un.fns)} preconditions satisfiable"
        if vac:
            u["status"] = "undecided"
            u["detail"] = "vacuous contracts: " + ", ".join(vac)
    return u


if __name__ == "__main__":
    import sys
    if sys.argv[1] == "--record-loops":
        record()
        sys.exit(0)
    r = run(sys.argv[1], probe="--probe" in sys.argv)
    d = r.pop("detail")
    print(d)
    for k in ("functions", "text_rewrites", "dropped", "assumptions"):
        r.pop(k, None)
    print(json.dumps(r))
