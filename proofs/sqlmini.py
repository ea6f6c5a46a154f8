"""Compiles the SQL statements found in the extracted text into Verus contracts.

Database model: Map<int, LayerRow{fp, complete, vals: Map<key, value>}> - a row of "layers" with the rows of "values" that refer
to it (the schema's foreign key, with ON DELETE CASCADE, makes this faithful; proofs/verus_run.py checks the schema says so).
Anything outside this small grammar raises Unsupported: the unit is then undecided, never refuted.
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'\s*("(?:[^"]*)"|\?\d*|<=|>=|<>|!=|==|[<>=(),.*;]|\d+|[A-Za-z_][A-Za-z_0-9]*)')
LCOLS = {"id": "id", "fingerprint": "row.fp", "complete": "row.complete"}
VCOLS = {"key_hash": "key", "value": "val", "layer_id": "id"}


class P:
    def __init__(self, text):
        self.t, i = [], 0
        text = text.strip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise Unsupported("token at " + text[i:i + 20])
            self.t.append(m[1])
            i = m.end()
            while i < len(text) and text[i].isspace():
                i += 1
        if self.t and self.t[-1] == ";":
            self.t.pop()
        self.i, self.auto = 0, 0

    def peek(self):
        return self.t[self.i].upper() if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Unsupported("end of statement")
        self.i += 1
        return self.t[self.i - 1]

    def kw(self, *w):
        save = self.i
        for x in w:
            if self.peek() != x:
                self.i = save
                return False
            self.i += 1
        return True

    def need(self, *w):
        if not self.kw(*w):
            raise Unsupported(f"expected {' '.join(w)}, found {self.peek()}")

    def ident(self):
        x = self.next()
        if x.startswith('"'):
            return x[1:-1]
        if re.match(r"[A-Za-z_]\w*$", x):
            return x
        raise Unsupported("identifier " + x)

    def param(self, x):
        if x == "?":
            self.auto += 1
            return self.auto - 1
        self.auto = max(self.auto, int(x[1:]))
        return int(x[1:]) - 1

    # operands: (kind, spec text); kind is int, blob or param
    def operand(self, cols):
        x = self.next()
        if x.startswith("?"):
            return ("param", f"a{self.param(x)}")
        if x.isdigit():
            return ("int", f"{x}int")
        if x.startswith('"') or re.match(r"[A-Za-z_]\w*$", x):
            name = x.strip('"')
            if self.kw("."):
                name = (name, self.ident())
            if name not in cols:
                raise Unsupported(f"column {name}")
            return ("blob" if cols[name] in ("key", "val", "row.fp") else "int", cols[name])
        raise Unsupported("operand " + x)

    def cond(self, cols):
        parts = [self.conj(cols)]
        while self.kw("OR"):
            parts.append(self.conj(cols))
        return "(" + " || ".join(parts) + ")" if len(parts) > 1 else parts[0]

    def conj(self, cols):
        parts = [self.cmp(cols)]
        while self.kw("AND"):
            parts.append(self.cmp(cols))
        return "(" + " && ".join(parts) + ")"

    def cmp(self, cols):
        if self.kw("("):
            c = self.cond(cols)
            self.need(")")
            return c
        if self.kw("NOT"):
            return "!" + self.cmp(cols)
        l = self.operand(cols)
        if self.kw("IN"):
            # "layer_id" IN (SELECT "id" FROM "layers" WHERE ...): the subquery's row is the layer of that id
            self.need("(", "SELECT")
            if self.ident() != "id":
                raise Unsupported("subquery")
            self.need("FROM")
            if self.ident() != "layers" or l[1] != "id":
                raise Unsupported("subquery")
            self.need("WHERE")
            c = self.cond(LCOLS)
            self.need(")")
            return c
        if self.kw("BETWEEN"):
            lo = self.operand(cols)
            self.need("AND")
            hi = self.operand(cols)
            return f"({val(lo, 'int')} <= {val(l, 'int')} <= {val(hi, 'int')})"
        op = self.next()
        op = {"=": "==", "<>": "!=", "==": "==", "!=": "!="}.get(op, op)
        if op not in ("==", "!=", "<", "<=", ">", ">="):
            raise Unsupported("operator " + op)
        r = self.operand(cols)
        kind = "blob" if "blob" in (l[0], r[0]) else "int"
        if kind == "blob" and op not in ("==", "!="):
            raise Unsupported("blob comparison")
        return f"({val(l, kind)} {op} {val(r, kind)})"

    def done(self):
        if self.i != len(self.t):
            raise Unsupported("trailing " + " ".join(self.t[self.i:]))


def val(o, kind):
    return f"{o[1]}.as_{kind}()" if o[0] == "param" else o[1]


def compile(name, text, how, nbinds):
    """-> Verus source of one method of Db."""
    gen = "".join(f"A{i}: SqlArg, " for i in range(nbinds)).rstrip(", ")
    args = "".join(f", a{i}: A{i}" for i in range(nbinds))
    gen = f"<{gen}>" if gen else ""
    head = f"    // {' '.join(text.split())}\n    #[verifier::external_body]\n    pub fn {name}{gen}"
    body = " { unimplemented!() }\n"
    if text == "@SQL_SCHEMA":
        if how != "execute":
            raise Unsupported("schema")
        return (f"{head}(&mut self) -> (r: core::result::Result<QueryResult, StorageError>)\n"
                f"        ensures final(self).allowed@ == old(self).allowed@, final(self).st@ == old(self).st@,\n   {body}")
    p = P(text)

    def write(post, guard="true"):
        return (f"{head}(&mut self{args}) -> (r: core::result::Result<QueryResult, StorageError>)\n"
                f"        requires {guard} ==> (old(self).allowed@)({post}),\n"
                f"        ensures final(self).allowed@ == old(self).allowed@,\n"
                f"            r is Ok ==> {guard} && final(self).st@ == ({post}),\n"
                f"            r is Err ==> final(self).st@ == old(self).st@,\n   {body}")
    st = "old(self).st@"
    if p.kw("INSERT", "INTO"):
        table = p.ident()
        p.need("(")
        cols = [p.ident()]
        while p.kw(","):
            cols.append(p.ident())
        p.need(")", "VALUES", "(")
        vals = [p.operand({})]
        while p.kw(","):
            vals.append(p.operand({}))
        p.need(")")
        p.done()
        if len(cols) != len(vals):
            raise Unsupported("insert arity")
        row = dict(zip(cols, vals))
        if table == "layers" and set(row) == {"id", "fingerprint", "complete"} and how == "execute":
            i = val(row["id"], "int")
            return write(f"{st}.insert({i}, LayerRow {{ fp: fpv({val(row['fingerprint'], 'blob')}), complete: {val(row['complete'], 'int')}, vals: Map::empty() }})",
                         f"!{st}.contains_key({i})")
        if table == "values" and set(row) == {"key_hash", "value", "layer_id"}:
            i, k, v = val(row["layer_id"], "int"), val(row["key_hash"], "blob"), val(row["value"], "blob")
            if how == "pending":
                return (f"{head}(&self{args}) -> (r: PendingInsert)\n"
                        f"        ensures r.layer@ == {i}, r.key@ == {k}, r.value@ == {v},\n   {body}")
            if how == "execute":
                # a second row for the same key and layer is outside the model: nothing is known then
                return (f"{head}(&mut self{args}) -> (r: core::result::Result<QueryResult, StorageError>)\n"
                        f"        requires {st}.contains_key({i}) ==> !{st}[{i}].vals.contains_key({k}) && (old(self).allowed@)(db_put({st}, {i}, {k}, {v})),\n"
                        f"        ensures final(self).allowed@ == old(self).allowed@,\n"
                        f"            r is Ok ==> {st}.contains_key({i}) && final(self).st@ == db_put({st}, {i}, {k}, {v}),\n"
                        f"            r is Err ==> final(self).st@ == {st},\n   {body}")
        raise Unsupported("insert")
    if p.kw("UPDATE"):
        if p.ident() != "layers" or how != "execute":
            raise Unsupported("update")
        p.need("SET")
        sets = {}
        while True:
            c = p.ident()
            p.need("=")
            sets[c] = p.operand(LCOLS)
            if not p.kw(","):
                break
        cond = "true"
        if p.kw("WHERE"):
            cond = p.cond(LCOLS)
        p.done()
        if set(sets) - {"fingerprint", "complete"}:
            raise Unsupported("update columns")
        fp = f"fpv({val(sets['fingerprint'], 'blob')})" if "fingerprint" in sets else "row.fp"
        co = val(sets["complete"], "int") if "complete" in sets else "row.complete"
        return write(f"Map::new({st}.dom(), |id: int| {{ let row = {st}[id]; if {cond} {{ LayerRow {{ fp: {fp}, complete: {co}, vals: row.vals }} }} else {{ row }} }})")
    if p.kw("DELETE", "FROM"):
        table = p.ident()
        cond = "true"
        if how != "execute":
            raise Unsupported("delete")
        if table == "layers":
            if p.kw("WHERE"):
                cond = p.cond(LCOLS)
            p.done()
            return write(f"{st}.restrict({st}.dom().filter(|id: int| {{ let row = {st}[id]; !{cond} }}))")
        if table == "values":
            if p.kw("WHERE"):
                cond = p.cond({"layer_id": "id"})
            p.done()
            return write(f"Map::new({st}.dom(), |id: int| {{ let row = {st}[id]; if {cond} {{ LayerRow {{ fp: row.fp, complete: row.complete, vals: Map::empty() }} }} else {{ row }} }})")
        raise Unsupported("delete")
    if p.kw("SELECT"):
        agg = None
        if p.kw("MAX", "("):
            agg = "max"
        col = p.ident()
        if agg:
            p.need(")")
        p.need("FROM")
        table = p.ident()
        cols = dict(LCOLS) if table == "layers" else dict(VCOLS) if table == "values" else None
        if cols is None or agg:
            raise Unsupported("select")
        cond, joined = [], False
        if p.kw("INNER", "JOIN") or p.kw("JOIN"):
            other = p.ident()
            if {table, other} != {"layers", "values"}:
                raise Unsupported("join")
            joined = True
            cols = {**LCOLS, **VCOLS}
            del cols["id"]
            cols[("layers", "id")] = "id"
            cols[("values", "layer_id")] = "id"
            for c in ("fingerprint", "complete"):
                cols[("layers", c)] = LCOLS[c]
            for c in ("key_hash", "value"):
                cols[("values", c)] = VCOLS[c]
            p.need("ON")
            c = p.cond(cols)
            if "(id == id)" not in c:
                raise Unsupported("join without its key")
            cond.append(c)
        if p.kw("WHERE"):
            cond.append(p.cond(cols))
        order = None
        if p.kw("ORDER", "BY"):
            o = p.operand(cols)
            if o[1] != "id":
                raise Unsupported("order")
            order = ">" if p.kw("DESC") else "<"
            if order == "<":
                p.kw("ASC")
        if p.kw("LIMIT"):
            if p.next() != "1":
                raise Unsupported("limit")
        p.done()
        if col not in cols:
            raise Unsupported("column")
        out = cols[col]
        cond = " && ".join(cond) or "true"
        st = "self.st@"
        if table == "layers" and not joined:
            q, inst, match = "id: int", "id", f"{st}.contains_key(id) && {{ let row = {st}[id]; {cond} }}"
            trig = f"#[trigger] {st}.contains_key(id)"
        else:
            q, inst = "id: int, key: Seq<u8>", "id, key"
            match = f"{st}.contains_key(id) && {st}[id].vals.contains_key(key) && {{ let row = {st}[id]; let val = row.vals[key]; {cond} }}"
            trig = f"#[trigger] {st}[id].vals.contains_key(key)"
        ty, view = ("i64", "x.0 as int") if out == "id" else ("Vec<u8>", "x.0@")
        if out == "row.complete":
            raise Unsupported("select complete")
        if out == "row.fp":
            view = "fpv(x.0@)"
        outx = {"row.fp": f"{st}[id].fp", "val": f"{st}[id].vals[key]"}.get(out, out)
        best = ""
        if order:
            q2 = q.replace("id:", "id2:").replace("key:", "key2:")
            m2 = re.sub(r"\bid\b", "id2", re.sub(r"\bkey\b", "key2", match))
            t2 = re.sub(r"\bid\b", "id2", re.sub(r"\bkey\b", "key2", trig))
            m2 = m2.replace(f"{st}.contains_key(id2)", f"#[trigger] {st}.contains_key(id2)", 1) if "key2" not in q2 else m2.replace(f"{st}[id2].vals.contains_key(key2)", f"#[trigger] {st}[id2].vals.contains_key(key2)", 1)
            best = f" && forall|{q2}| {m2} ==> !(id2 {order} id)"
        mt = match.replace(f"{st}.contains_key(id)", f"#[trigger] {st}.contains_key(id)", 1) if "key" not in q else match.replace(f"{st}[id].vals.contains_key(key)", f"#[trigger] {st}[id].vals.contains_key(key)", 1)
        some = f"exists|{q}| {mt} && {view} == {outx}{best}"
        none = f"forall|{q}| !({mt})"
        if how == "fetch_one":
            return (f"{head}(&self{args}) -> (r: core::result::Result<({ty},), StorageError>)\n"
                    f"        ensures r matches Ok(x) ==> {some},\n   {body}")
        if how == "fetch_optional":
            return (f"{head}(&self{args}) -> (r: core::result::Result<Option<({ty},)>, StorageError>)\n"
                    f"        ensures r matches Ok(Some(x)) ==> {some},\n"
                    f"            r matches Ok(None) ==> {none},\n   {body}")
    raise Unsupported("statement")


def is_write(text):
    return text == "@SQL_SCHEMA" or bool(re.match(r"\s*(INSERT|UPDATE|DELETE|REPLACE|CREATE|DROP)", text, re.I))
