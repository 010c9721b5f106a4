"""Random queries as abstract syntax (see spec/Scope.tla) and their rendering in the two dialects."""

NOEXPR = {"refs": [], "subs": [], "plain": False}


# a subquery at any place of an expression
SUBP = ["{0} BETWEEN {1} AND 3", "{0} BETWEEN 3 AND {1}", "{1} BETWEEN {0} AND 3", "COALESCE({1}, {0}) = 1", "CASE WHEN EXISTS {1} THEN {0} ELSE 2 END = 2", "CASE {0} WHEN {1} THEN 1 ELSE 2 END = 2",
        "CASE {0} WHEN 1 THEN 2 ELSE {1} END = 2", "CASE WHEN {0} = 1 THEN {1} END = 2", "NOT ({0} = {1})", "NOT EXISTS {1} AND {0} = 1", "{1} IS NULL AND {0} = 2", "{0} + {1} > 2", "{1} = {0}", "- {1} = {0}",
        "({0}, {1}) = (1, 2)", "{0} IN (1, {1})", "{1} IN (1, {0})", "NULLIF({0}, {1}) = 1", "LOWER({1}) = {0}", "{0} LIKE {1}", "{0} <> ALL {1}", "CAST({1} AS CHAR) = {0}", "{0} = 3 OR {1} IS NOT NULL"]
SUBPG = ["{1}::text = {0}", "{0} = ANY (ARRAY[{1}, 2])", "{0} IS DISTINCT FROM {1}", "{0} ILIKE {1}", "{0} BETWEEN SYMMETRIC {1} AND 2", "({1} COLLATE \"C\") = {0}", "{0} ~ {1}", "{0} > SOME {1}", "GREATEST({0}, {1}) = 1"]
SUBMY = ["{0} <=> {1}", "{1} XOR {0}", "{0} REGEXP {1}", "GREATEST({0}, {1}) = 1", "IF({0}, {1}, 2) = 1"]
SUBV = ["COALESCE({1}, 1)", "CASE WHEN 1 = {1} THEN 2 END", "NULLIF(1, {1})", "(- {1})", "(1 + {1})", "CASE 2 WHEN 3 THEN {1} ELSE 4 END", "(EXISTS {1})"]
SUBA = {"mysql": ["SUM(1) OVER (ORDER BY {1})", "SUM(1) OVER (PARTITION BY {1})", "GROUP_CONCAT(1 ORDER BY {1} SEPARATOR ',')", "SUM({1})"],
        "pg": ["sum(1) OVER (ORDER BY {1})", "sum(1) OVER (PARTITION BY {1})", "count(*) FILTER (WHERE 1 = {1})", "array_agg(1 ORDER BY {1})", "sum({1})",
               "sum(1) OVER (ORDER BY 1 ROWS {1} PRECEDING)", "sum(1) OVER (ORDER BY 1 ROWS BETWEEN 1 PRECEDING AND {1} FOLLOWING)"]}
SUBVPG = ["{1}::text", "ARRAY[{1}]", "GREATEST(1, {1})"]


class Gen:
    """Generates queries the analysers support and a database would accept. Classes left out on purpose (see DESIGN.md):
    outputs without any column, and the recorded known findings."""

    def __init__(self, rng, dialect, tables):
        self.r, self.d, self.tables = rng, dialect, tables      # tables: {name: {"cols": [...], "pk": [...]}}
        self.seq = 0

    def chance(self, p):
        return self.r.random() < p

    # ---- names --------------------------------------------------------------------------------------------
    def alias(self, used, base=None, env=()):
        outer = [e["as"] for f in env for e in f]
        for _ in range(50):
            c = self.r.random()
            if c < 0.15 and outer:
                a = self.r.choice(outer)                     # an alias that hides one of an outer query
            elif c < 0.4 and base:
                a = base[0]
            elif c < 0.5:
                a = self.r.choice(list(self.tables))         # an alias that is the name of a table
            elif c < 0.6 and base:
                a = self.r.choice(self.tables[base]["cols"])   # ... or of a column
            else:
                self.seq += 1
                a = "%s%d" % (self.r.choice(["t", "x", "sub", "a_", "Tx"]), self.seq)
            if a not in used and a != base:
                return a
        self.seq += 1
        return "z%d" % self.seq

    def refs_of(self, env, only=None, bare=True):
        """All references valid in env: (q, c). only = indexes of the innermost frame that may be used."""
        res = []
        fr = env[0]
        for i, e in enumerate(fr):
            if only is not None and i not in only:
                continue
            for c in e["outs"]:
                res.append((e["as"], c))
        hidden, known = {e["as"] for e in fr}, set()
        if only is None:
            for f in env[1:]:
                for e in f:
                    if e["as"] not in hidden:
                        for c in e["outs"]:
                            res.append((e["as"], c))
                hidden |= {e["as"] for e in f}
        if bare:
            for d, f in enumerate(env if only is None else env[:1]):
                cnt = {}
                for e in f:
                    for c in set(e["outs"]) | e["poison"]:
                        cnt.setdefault(c, []).append(e)
                for c, es in cnt.items():
                    one = len(es) == 1 or all(c in e.get("merged", ()) for e in es)     # joined by USING: one column
                    if c not in known and one and c in es[0]["outs"] and (only is None or all(f.index(e) in only for e in es)):
                        res.append(("", c))
                known |= set(cnt)
        return res

    def ref(self, env, only=None, inner=0.75):
        rs = self.refs_of(env, only)
        mine = [x for x in rs if x in set(self.refs_of([env[0]], only))]
        pool = mine if mine and self.chance(inner) else rs
        if self.chance(0.25):
            pool = [x for x in pool if x[0] == ""] or pool
        q, c = self.r.choice(pool)
        x = {"q": q, "c": c}
        if q and self.chance(0.08):
            es = [e for f in env for e in f if e["as"] == q]
            if es[0].get("own"):
                x["sch"] = True
        return x

    def expr(self, env, n, depth, only=None, subs=0.15, usubs=True):
        e = {"refs": [self.ref(env, only) for _ in range(n)], "subs": [], "plain": n == 1 and self.chance(0.6)}
        if not e["plain"] and depth > 0 and usubs and self.chance(subs) and only is None:
            e["subs"].append(self.query(depth - 1, env, "expr"))
        return e

    # ---- queries ------------------------------------------------------------------------------------------
    def query(self, depth, env, kind):
        """kind: root, derived, expr. env: frames visible from outside."""
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4]) if kind == "root" else r.choice([1, 1, 2] if kind == "derived" else [1, 1, 1, 2])
        frm, frame, used = [], [], set()
        group = 0
        nest = None                                          # items nest[0]..nest[1] stand in parentheses, as one operand
        if self.d == "mysql" and n > 2 and self.chance(0.4):
            nest = r.choice([(a, b) for a in range(1, n - 1) for b in range(a + 1, n)])
        for i in range(n):
            how = "first" if i == 0 else r.choice(["join", "join", "left", "right", "cross", "comma", "inner"])
            lat = False
            if self.d == "pg" and depth > 0 and self.chance(0.35 if kind == "root" else 0.2):
                lat = i > 0 and how in ("join", "left", "cross", "comma", "inner") and self.chance(0.6)
                sub = self.query(depth - 1, ([frame] + env) if lat else env, "derived")
                a = self.alias(used, env=env)
                it = {"k": "d", "sub": sub, "as": a, "lat": lat}
                ent = {"as": a, "outs": self.outs(sub, ([frame] + env) if lat else env), "poison": set()}
                ent["poison"] = self.poison(sub) - set(ent["outs"])
            else:
                t = r.choice(list(self.tables))
                a = "" if (t not in used and self.chance(0.45)) else self.alias(used, t, env)
                it = {"k": "b", "name": t, "as": a, "lat": False}
                ent = {"as": a or t, "outs": list(self.tables[t]["cols"]), "poison": set(), "own": not a}
            used.add(ent["as"])
            if nest and i == nest[0]:
                outer = i if how == "comma" else group
                it.update(end=nest[1], lo=outer)
                group = i
            elif how in ("first", "comma"):
                group = i
            it.setdefault("lo", group)
            it.setdefault("end", i)
            if nest and i == nest[1]:
                group = outer
            frame.append(ent)
            it.update(on=NOEXPR, using=[], how=how)
            frm.append(it)
        env2 = [frame] + env
        merged = {}
        order = sorted(range(n), key=lambda i: (frm[i]["end"], -i))      # conditions from the inside
        for i in order:
            it = frm[i]
            if it["how"] in ("first", "cross", "comma"):
                continue
            only = set(range(it["lo"], it["end"] + 1))
            if self.d == "mysql" and self.chance(0.3):
                left, right = set(range(it["lo"], i)), set(range(i, it["end"] + 1))
                ok = []
                for c in sorted({c for e in frame for c in e["outs"]}):
                    has = {k for k in range(n) if c in frame[k]["outs"]}
                    sides = [has & left, has & right]
                    if all(x and (len(x) == 1 or x <= merged.get(c, set())) for x in sides) and (has <= only if nest and nest[0] <= i <= nest[1] else len(only) == 2 or has <= only):
                        ok.append(c)
                if ok:
                    it["using"] = r.sample(ok, 1 if len(ok) == 1 else r.choice([1, 2]))
                    for c in it["using"]:
                        m = merged.setdefault(c, set())
                        m |= {k for k in only if c in frame[k]["outs"]}
                        for k in m:
                            frame[k].setdefault("merged", set()).add(c)
                    continue
            part = [e if k in only else dict(e, outs=[], poison=set(e["outs"]) | e["poison"]) for k, e in enumerate(frame)]
            if self.d == "pg" and self.chance(0.12) and depth > 0:
                e = self.expr(env2, r.choice([1, 2]), 0, only=only)
                e["subs"] = [self.query(depth - 1, [part] + env, "expr")]
            else:
                e = self.expr(env2, r.choice([1, 2, 2, 2, 3, 4]), 0, only=only)
            e["plain"] = False
            it["on"] = e
        sel, names = [], set()
        m = 1 if kind == "expr" else r.choice([1, 2, 2, 3, 5])
        shadow = []                                          # a starred output with the name of a column in a condition
        if kind == "derived" and n > 1 and self.chance(0.4):
            e = r.choice(frame)
            shadow = [{"q": f["as"], "c": c} for f in frame if f is not e for c in f["outs"] if c in e["outs"]]
            if shadow and len(set(e["outs"])) == len(e["outs"]):
                sel.append({"k": "*", "q": e["as"]})
                names |= set(e["outs"])
                m = r.choice([0, 0, 1])
            else:
                shadow = []
        for _ in range(m):
            x = r.random()
            if x < 0.15 and kind != "expr":
                q = "" if self.chance(0.5) else r.choice(frame)["as"]
                cand = [c for e in frame if q in ("", e["as"]) for c in e["outs"]]
                if kind != "derived" or (len(cand) == len(set(cand)) and not (set(cand) & names)):
                    sel.append({"k": "*", "q": q})
                    names |= set(cand)
                    continue
            if kind == "expr" and x < 0.2:
                sel.append({"k": "e", "e": NOEXPR, "as": ""})
                continue
            e = self.expr(env2, r.choice([1, 1, 1, 2, 3, 5]), depth, subs=0.12)
            a = ""
            if kind == "derived" and self.d == "pg" and self.chance(0.05):
                ds = [f["as"] for f, it in zip(frame, frm) if it["k"] == "d"]
                ds = [d for d in ds if not any(d in f["outs"] or d in f["poison"] for fr in env2 for f in fr)]
                if ds:
                    e = {"refs": [{"q": "", "c": r.choice(ds), "row": True}], "subs": [], "plain": True}
            if not e["plain"] or e["refs"][0].get("row") or self.chance(0.35):
                if kind == "derived" or self.chance(0.5):
                    self.seq += 1
                    a = r.choice(["c%d" % self.seq, self.r.choice(self.r.choice(list(self.tables.values()))["cols"])])
            nm = a or (e["refs"][0]["c"] if e["plain"] else "")
            if nm in names:
                if kind != "expr":
                    self.seq += 1
                    nm = a = "c%d" % self.seq
            if nm:
                names.add(nm)
            sel.append({"k": "e", "e": e, "as": a})
        q = {"sel": sel, "from": frm, "where": NOEXPR, "grp": [], "hav": NOEXPR, "ord": [], "distinct": self.chance(0.06),
             "limit": r.choice(["", "", "", "LIMIT 5", "LIMIT 5 OFFSET 2"])}
        if self.chance(0.75):
            q["where"] = self.expr(env2, r.choice([1, 1, 2, 2, 3, 4, 6]), depth, subs=0.3)
            q["where"]["plain"] = False
        if shadow and self.chance(0.8):
            q["where"] = {"refs": [r.choice(shadow)], "subs": [], "plain": False}
        if self.chance(0.15):
            q["grp"] = [self.expr(env2, r.choice([1, 1, 1, 2]), depth, subs=0.08) for _ in range(r.choice([1, 2, 3, 5]))]
            if self.chance(0.5):
                q["hav"] = self.expr(env2, r.choice([1, 1, 2, 3]), depth, subs=0.2)
                q["hav"]["plain"] = False
        if self.chance(0.25):
            for _ in range(r.choice([1, 1, 2, 4])):
                ns = sorted(x for x in names)
                if ns and self.chance(0.4):
                    q["ord"].append({"refs": [{"q": "", "c": r.choice(ns)}], "subs": [], "plain": True})
                    nm = q["ord"][-1]["refs"][0]["c"]
                    outs = [s for s in sel if s["k"] == "e" and (s["as"] or (s["e"]["plain"] and s["e"]["refs"][0]["c"])) == nm]
                    if len(outs) != 1 or any(s["k"] == "*" for s in sel):
                        q["ord"].pop()
                else:
                    e = self.expr(env2, r.choice([1, 1, 2]), depth, subs=0.1)
                    if e["plain"] and e["refs"][0]["q"] == "" and any(s["k"] == "e" and s["as"] == e["refs"][0]["c"] for s in sel):
                        continue
                    q["ord"].append(e)
        if self.d == "pg" and not q["grp"] and self.chance(0.06):
            e = self.expr(env2, r.choice([1, 1, 2]), 0)
            if not any(x["q"] == "" and s["k"] == "e" and s["as"] == x["c"] for s in sel for x in e["refs"]):
                q["don"], q["distinct"] = [e], False
                q["ord"] = [] if self.chance(0.5) else [e] + q["ord"]
        if self.d == "mysql":
            # GROUP BY / HAVING / ORDER BY expressions over a bare alias of the select list are left out
            al = {s["as"] for s in sel if s["k"] == "e" and s["as"]}
            bad = lambda e: any(x["q"] == "" and x["c"] in al for x in e["refs"]) and not e["plain"]
            q["ord"] = [e for e in q["ord"] if not bad(e)]
            q["grp"] = [e for e in q["grp"] if not any(x["q"] == "" and x["c"] in al for x in e["refs"])]
            if any(x["q"] == "" and x["c"] in al for x in q["hav"]["refs"]):
                q["hav"] = NOEXPR
        if self.d == "pg" and kind != "derived" and self.chance(0.06):
            q["fn"] = self.expr(env2, r.choice([0, 1, 1, 2]), depth, subs=0.2)
        if self.d == "pg" and self.chance(0.03):
            q["limsub"] = Gen(r, self.d, self.tables).query(0, [], "expr")
            q["limit"] = ""
        if kind == "derived" and any(s["k"] == "*" for s in sel):
            # known finding: these would hide the starred output of the same name
            hides = lambda e: len(e["refs"]) == 1 and not e["subs"] and e["refs"][0]["c"] in names
            q["grp"] = [e for e in q["grp"] if not hides(e)]
            q["ord"] = [e for e in q["ord"] if not hides(e)]
            q["don"] = [e for e in q.get("don", []) if not hides(e)]
            if hides(q["hav"]):
                q["hav"] = NOEXPR
        return q

    def outs(self, q, env):
        res = []
        for s in q["sel"]:
            if s["k"] == "*":
                for it in q["from"]:
                    a = it["as"] or it["name"]
                    if s["q"] in ("", a):
                        res += self.tables[it["name"]]["cols"] if it["k"] == "b" else self.outs(it["sub"], env)
            else:
                n = s["as"] or (s["e"]["refs"][0]["c"] if s["e"]["plain"] else "")
                if n:
                    res.append(n)
        return list(dict.fromkeys(res))

    def poison(self, q):
        """Names the analyser wrongly takes for outputs (known finding)."""
        res = set()
        for e in q["grp"] + q["ord"] + q.get("don", []) + [q["hav"]]:
            if len(e["refs"]) + len(e["subs"]) == 1 and e["refs"]:
                res.add(e["refs"][0]["c"])
        for s in q["sel"]:
            if s["k"] == "*":
                for it in q["from"]:
                    if it["k"] == "d" and s["q"] in ("", it["as"]):
                        res |= self.poison(it["sub"])
            elif not s["as"] and not s["e"]["plain"] and len(s["e"]["refs"]) == 1:
                res.add(s["e"]["refs"][0]["c"])
        return res


# ---- rendering ------------------------------------------------------------------------------------------------
P1 = ["{0} = 1", "{0} <> 'x'", "{0} IS NULL", "{0} IS NOT NULL", "LOWER({0}) = 'a'", "{0} IN (1, 2, 3)", "{0} BETWEEN 1 AND 5", "{0} LIKE 'a%'",
      "NOT ({0} = 3)", "COALESCE({0}, 1) = 2", "CASE WHEN {0} = 1 THEN 2 ELSE 3 END = 2", "CAST({0} AS CHAR) = 'x'", "{0} + 1 > 4", "- {0} < 0", "NULLIF({0}, 0) = 1",
      "LENGTH(UPPER({0})) > 2", "{0} NOT IN (7)", "1 < {0}", "(({0} >= 0))"]
P2 = ["{0} = {1}", "{0} < {1}", "({0}, {1}) = (1, 2)", "{0} BETWEEN 1 AND {1}", "{0} + {1} > 2", "COALESCE({0}, {1}) = 3", "CONCAT({0}, {1}) = 'z'",
      "CASE WHEN {0} = 1 THEN {1} ELSE 3 END = 2", "{0} IN (1, {1})", "CASE {0} WHEN 1 THEN 2 ELSE {1} END = 1", "NULLIF({0}, {1}) = 3", "NULLIF(1, {0}) <> {1}",
      "{0} BETWEEN {1} AND 5", "1 BETWEEN {0} AND {1}", "{0} NOT BETWEEN {1} AND 9", "{0} LIKE {1}", "{0} NOT LIKE {1}", "1 IN ({0}, 2, {1})", "CASE {0} WHEN {1} THEN 1 ELSE 2 END = 1",
      "CASE WHEN 1 = 2 THEN {0} ELSE {1} END = 4", "COALESCE(NULL, 1, {0}, {1}) = 2", "(1, {0}) = ({1}, 2)", "NOT ({0} IS NULL OR {1} IS NULL)", "{0} - - {1} = 1", "LOWER(CONCAT({0}, 'x', {1})) = 'z'",
      "({0} = 1 OR {1} = 2) AND 1 = 1", "({0} IS NOT NULL) = ({1} IS NULL)"]
V1 = ["LOWER({0})", "{0} + 1", "COALESCE({0}, 0)", "CASE WHEN {0} = 1 THEN 2 ELSE 3 END", "({0})", "CAST({0} AS CHAR)"]
A1 = ["COUNT({0})", "MAX({0})", "SUM({0} + 1)", "COUNT(DISTINCT {0})"]
V2 = ["NULLIF({0}, {1})", "{0} BETWEEN 1 AND {1}", "CASE {0} WHEN 1 THEN 2 ELSE {1} END", "{0} IN (1, {1})", "SUM({0}) OVER (ORDER BY 1, {1})", "{0} + {1}", "CONCAT({0}, {1})", "COALESCE({0}, {1})", "CASE WHEN {0} = 1 THEN {1} END", "SUM({0}) OVER (PARTITION BY {1})", "RANK() OVER (ORDER BY {0}, {1})"]
V3 = ["{0} + {1} * {2}", "COALESCE({0}, {1}, {2})", "SUM({0}) OVER (PARTITION BY {1} ORDER BY {2})", "CASE WHEN {0} = 1 THEN {1} ELSE {2} END"]

# constructs of one dialect only
MORE = {
    "mysql": {
        "P1": ["{0} REGEXP 'a'", "{0} IS TRUE", "{0} IS NOT FALSE", "{0} COLLATE utf8mb4_bin = 'x'", "LOWER({0} COLLATE utf8mb4_bin) = 'x'", "MATCH({0}) AGAINST ('x')",
               "DATE_ADD({0}, INTERVAL 3 DAY) > NOW()", "{0} + INTERVAL 1 DAY > NOW()", "EXTRACT(YEAR FROM {0}) = 2020", "TRIM(LEADING 'x' FROM {0}) = ''", "TRIM({0}) = ''",
               "CONVERT({0} USING utf8mb4) = 'x'", "CONVERT({0}, CHAR) = 'x'", "{0} DIV 2 = 1", "BINARY {0} = 'x'", "SUBSTRING({0} FROM 2 FOR 3) = 'x'", "CHAR({0} USING utf8mb4) = 'x'",
               "{0} LIKE 'a|%' ESCAPE '|'", "{0} NOT LIKE 'b_'", "! {0}", "~{0} = 1", "{0} % 2 = 0", "LEFT({0}, 1) = 'a'", "ISNULL({0})", "{0} = DATE '2020-01-01'", "{0} = x'41'",
               "{0} = TRUE", "{0} = @v", "(@x := {0}) > 1", "{0}->'$.a' = 1", "{0}->>'$.a' = 'x'", "STRCMP('a', {0}) = 0", "GREATEST(1, 2, {0}) = 3", "CAST({0} AS UNSIGNED) = 1", "FIND_IN_SET('a', {0})", "{0} << 2 > 1", "{0} NOT BETWEEN 1 AND 2", "IF({0}, 1, 0)", "JSON_CONTAINS({0}, '1')"],
        "P2": ["{0} RLIKE {1}", "{0} <=> {1}", "{0} XOR {1}", "POSITION({0} IN {1}) > 0", "{0} NOT LIKE {1}", "ROW({0}, {1}) = (1, 2)", "({0}, {1}) IN ((1, 2), (3, 4))", "IFNULL({0}, {1}) = 1",
               "INTERVAL({0}, 1, {1}) = 1", "TIMESTAMPDIFF(DAY, {0}, {1}) > 1", "{0} & {1}", "{0} && {1}", "REPLACE({0}, 'a', {1}) = 'x'", "DATE_ADD({0}, INTERVAL {1} DAY) > NOW()",
               "MATCH({0}, {1}) AGAINST ('x' IN BOOLEAN MODE)", "{0} COLLATE utf8mb4_bin = {1}", "IF({0}, {1}, 3)"],
        "V1": ["(@x := {0})", "CHAR({0} USING utf8)", "RAND({0})", "{0} COLLATE utf8mb4_bin", "BINARY {0}", "DATE_FORMAT({0}, '%Y')", "IF({0} > 1, 2, 3)"],
        "A1": ["BIT_AND({0})", "STDDEV({0})", "GROUP_CONCAT({0} SEPARATOR ',')", "LAG({0}) OVER (ORDER BY 1)"],
        "V2": ["GROUP_CONCAT({0} ORDER BY {1} SEPARATOR ',')", "COUNT(DISTINCT {0}, {1})", "JSON_OBJECTAGG({0}, {1})", "LAST_VALUE({0}) OVER (ORDER BY {1} ROWS BETWEEN 1 PRECEDING AND CURRENT ROW)"],
        "V3": ["GROUP_CONCAT(DISTINCT {0} ORDER BY {1} DESC, {2})", "LAG({0}, 1, {1}) OVER (ORDER BY {2})", "IF({0}, {1}, {2})", "{0} BETWEEN {1} AND {2}"]},
    "pg": {
        "P1": ["{0}::text = 'x'", "{0} ~ 'a'", "{0} ILIKE 'A%'", "{0} SIMILAR TO 'x'", "{0} !~* 'x'", "{0} = ANY (ARRAY[1, 2])", "EXTRACT(year FROM {0}) = 2020", "{0} IS DISTINCT FROM 3",
               "{0} IS NOT DISTINCT FROM NULL", "{0} ISNULL", "{0} NOTNULL", "{0} BETWEEN SYMMETRIC 5 AND 1", "{0} NOT BETWEEN 1 AND 2", "SUBSTRING({0} FROM 1 FOR 2) = 'x'", "TRIM(BOTH 'x' FROM {0}) = ''",
               "{0} COLLATE \"C\" = 'x'", "{0} -> 'a' IS NULL", "{0} ->> 'a' = 'x'", "{0} @> '[1]'", "NOT {0}", "{0} IS TRUE", "{0} % 2 = 0", "{0} || 'x' = 'yx'", "CAST({0} AS int8) = 1", "{0} LIKE 'a!%' ESCAPE '!'"],
        "P2": ["{0} IS DISTINCT FROM {1}", "GREATEST({0}, {1}) > 1", "ROW({0}, {1}) = (1, 2)", "({0}, {1}) IN ((1, 2), (3, 4))", "{0} || {1} = 'x'", "{0} = ANY (ARRAY[{1}, 1])", "{0} NOT ILIKE {1}",
               "{0} ~ {1}", "OVERLAY({0} PLACING {1} FROM 1) = 'x'", "POSITION({0} IN {1}) > 0", "{0}::int4 < {1}::int4", "{0} AT TIME ZONE {1} IS NULL"],
        "V1": ["{0}::text", "EXTRACT(epoch FROM {0})", "{0} COLLATE \"C\"", "ARRAY[{0}]"],
        "A1": ["count(*) FILTER (WHERE {0} > 1)", "array_agg({0})", "string_agg({0}, ',')", "row_number() OVER (ORDER BY {0} ROWS UNBOUNDED PRECEDING)"],
        "V2": ["array_agg({0} ORDER BY {1})", "sum({0}) FILTER (WHERE {1} = 1)", "ROW({0}, {1})", "{0} || {1}"],
        "V3": ["GREATEST({0}, {1}, {2})", "ARRAY[{0}, {1}, {2}]", "{0} BETWEEN {1} AND {2}", "string_agg({0}, {1} ORDER BY {2})"]},
}
AGGV2 = {x for x in V2 if "OVER" in x} | set(MORE["mysql"]["V2"]) | set(MORE["pg"]["V2"])
AGGV3 = {x for x in V3 + MORE["mysql"]["V3"] + MORE["pg"]["V3"] if "OVER" in x or "GROUP_CONCAT" in x or "_agg" in x}


class Render:
    def __init__(self, rng, dialect, plain=False, own=None):
        self.r, self.d, self.simple = rng, dialect, plain
        self.own = own                                       # the configured schema, where it may be spelled out
        more = {} if plain else MORE["mysql" if dialect == "mysql" else "pg"]
        self.t = {k: (v, more.get(k, [])) for k, v in (("P1", P1), ("P2", P2), ("V1", V1), ("A1", A1), ("V2", V2), ("V3", V3))}
        self.kwcase = rng.choice([str, str, str.lower])

    def kw(self, s):
        return s if self.simple else self.kwcase(s)

    def ident(self, n):
        if self.d == "mysql":
            if not self.simple and self.r.random() < 0.3:
                return "`%s`" % n
            return n
        if n != n.lower():
            return '"%s"' % n
        if self.simple or self.r.random() < 0.6:
            return n if self.simple or self.r.random() < 0.8 else n.upper()
        return '"%s"' % n

    def col(self, n):
        if self.d == "mysql" and not self.simple and self.r.random() < 0.2:
            return n.upper()
        return self.ident(n)

    def ref(self, x, tuple_=False):
        if x.get("wrap"):
            return x["wrap"] % ((self.ident(x["q"]) + "." if x["q"] else "") + self.col(x["c"]))
        if x.get("sch") and self.own:
            return self.ident(self.own) + "." + self.ident(x["q"]) + "." + self.col(x["c"])
        if tuple_ and x["q"] and self.d == "pg" and not self.simple and self.r.random() < 0.06:
            return "(" + self.ident(x["q"]) + ")." + self.ident(x["c"])
        return (self.ident(x["q"]) + "." if x["q"] else "") + self.col(x["c"])

    def many(self, refs):
        """A value over any number of columns."""
        x = self.r.random()
        if x < 0.25:
            return " + ".join(refs)
        if x < 0.55:
            return self.r.choice(["COALESCE", "CONCAT", "GREATEST", "LEAST"]) + "(" + ", ".join(refs) + ")"
        k = len(refs) // 2
        w = " ".join("WHEN %s = %d THEN %s" % (refs[2 * i], i, refs[2 * i + 1]) for i in range(k))
        last = " ELSE " + refs[-1] if len(refs) % 2 else ""
        if x < 0.8 or len(refs) < 3:
            return "CASE " + w + last + " END"
        return "CASE " + refs[0] + " " + " ".join("WHEN %d THEN %s" % (i, y) for i, y in enumerate(refs[1:])) + " END"

    def many_pred(self, refs):
        x = self.r.random()
        if x < 0.3:
            return refs[0] + self.kw(self.r.choice([" IN ", " NOT IN "])) + "(" + ", ".join(["1"] + refs[1:]) + ")"
        if x < 0.5:
            return "(" + ", ".join(refs) + ") = (" + ", ".join(str(i) for i in range(len(refs))) + ")"
        if x < 0.6 and len(refs) == 3:
            return "%s BETWEEN %s AND %s" % tuple(refs)
        return self.many(refs) + " = 1"

    def paren(self, s):
        return s if self.simple or self.r.random() < 0.8 else "(" + s + ")"

    def pred(self, e):
        """A boolean expression with exactly e's references."""
        r = self.r
        refs = [self.ref(x, True) for x in e["refs"]]
        parts = []
        subs = list(e["subs"])
        while subs:
            s = subs.pop()
            t = "(" + self.query(s, sub=True) + ")"
            how = r.random()
            if not self.simple and r.random() < 0.35:
                x = refs.pop() if refs else "1"
                parts.append(r.choice(SUBP + (SUBPG if self.d == "pg" else SUBMY)).replace("{0}", x).replace("{1}", t))
            elif how < 0.35:
                parts.append(self.kw("EXISTS ") + t)
            elif refs and how < 0.8:
                parts.append(refs.pop() + self.kw(r.choice([" IN ", " = ", " > ", " NOT IN ", " > ANY "])) + t)
            else:
                parts.append("1 < " + t)
        while refs:
            n = min(len(refs), r.choice([1, 2]) if self.simple or r.random() < 0.8 else r.choice([3, 4, 5]))
            take, refs = refs[:n], refs[n:]
            parts.append(self.many_pred(take) if n > 2 else self.pick("P1" if n == 1 else "P2").format(*take))
        r.shuffle(parts)
        if not parts:
            return "1 = 1"
        s = self.paren(parts[0])
        for p in parts[1:]:
            s = self.paren(s + " " + self.kw(r.choice(["AND", "AND", "OR"])) + " " + self.paren(p))
        return s

    def value(self, e, agg=True):
        r = self.r
        refs = [self.ref(x) for x in e["refs"]]
        if e["plain"]:
            return refs[0]
        if e["subs"]:
            t = "(" + self.query(e["subs"][0], sub=True) + ")"
            if not self.simple and r.random() < 0.35:
                t = r.choice(SUBV + (SUBVPG if self.d == "pg" else []) + (SUBA[self.d] if agg else [])).replace("{1}", t)
            return (" + ".join(refs + [t])) if refs else t
        if not refs:
            return "1"
        if len(refs) > 3:
            return self.many(refs)
        k = "V%d" % len(refs)
        if agg and k == "V1" and r.random() < 0.4:
            k = "A1"
        return self.pick(k, () if agg else AGGV2 | AGGV3).format(*refs)

    def pick(self, k, no=()):
        base, more = self.t[k]
        l = more if more and self.r.random() < 0.4 else base
        return self.r.choice([x for x in l if x not in no] or base[:1])

    def query(self, q, sub=False):
        r = self.r
        if "raw" in q:
            return q["raw"]
        sel = []
        for s in q["sel"]:
            if s["k"] == "*":
                n = self.ident(s["q"]) + "." if s["q"] else ""
                if n and self.d == "pg" and not self.simple and r.random() < 0.15:
                    n = "(" + n[:-1] + ")."
                elif n and self.own and self.d == "pg" and r.random() < 0.2 and any(it["k"] == "b" and not it["as"] and it["name"] == s["q"] for it in q["from"]):
                    n = self.ident(self.own) + "." + n
                sel.append(n + "*")
            else:
                sel.append(self.value(s["e"]) + ((self.kw(" AS ") + self.ident(s["as"])) if s["as"] else ""))
        mods = "" if self.simple or q.get("don") or q.get("distinct") or r.random() < 0.94 else r.choice(["ALL "] + (["SQL_NO_CACHE ", "STRAIGHT_JOIN ", "/*+ NO_ICP(x) */ "] if self.d == "mysql" else []))
        out = self.kw("SELECT ") + mods + (self.kw("DISTINCT ") if q.get("distinct") else "") + \
            ((self.kw("DISTINCT ON ") + "(" + ", ".join(self.value(e, False) for e in q["don"]) + ") ") if q.get("don") else "") + ", ".join(sel) + self.kw(" FROM ")
        # parentheses around the first joins of the list (MySQL only): a rendering choice
        fr = q["from"]
        lp = 0
        if self.d == "mysql" and not self.simple and len(fr) > 1 and all("end" in it for it in fr) and r.random() < 0.25:
            lp = r.choice([i for i in range(1, len(fr)) if all(it.get("end", j) <= i for j, it in enumerate(fr[:i + 1]))] or [0])
            if any(it["how"] == "comma" for it in fr[1:lp + 1]):
                lp = 0
        closing = {}
        for i, it in enumerate(fr):
            if it["k"] == "raw":
                out += it["text"]
                continue
            if it["k"] == "b":
                t = self.ident(it["name"]) + ((self.kw(r.choice([" AS ", " "])) + self.ident(it["as"])) if it["as"] else "")
                if self.own and self.d == "pg" and r.random() < 0.1:
                    t = self.ident(self.own) + "." + t
                if not self.simple and r.random() < 0.03:
                    if self.d == "pg":
                        t = self.kw("ONLY ") + t
                    else:
                        t += self.kw(r.choice([" USE INDEX (i1)", " FORCE INDEX (i1, i2)", " IGNORE INDEX (PRIMARY)"]))
            else:
                t = (self.kw("LATERAL ") if it["lat"] else "") + "(" + self.query(it["sub"], sub=True) + ")" + self.kw(r.choice([" AS ", " "])) + self.ident(it["as"])
            how = it.get("how") or ("first" if i == 0 else "join" if it["on"] != NOEXPR or it["using"] else "comma")
            j = {"first": "", "comma": ", ", "join": self.kw(" STRAIGHT_JOIN " if self.d == "mysql" and not it["using"] and not self.simple and r.random() < 0.15 else " JOIN "), "inner": self.kw(" INNER JOIN "), "left": self.kw(r.choice([" LEFT JOIN ", " LEFT OUTER JOIN "])),
                 "right": self.kw(r.choice([" RIGHT JOIN ", " RIGHT OUTER JOIN "] + ([" FULL JOIN ", " FULL OUTER JOIN "] if self.d == "pg" else []))), "cross": self.kw(" CROSS JOIN ")}[how]
            end = it.get("end", i)
            out += j + ("(" if end > i or (i == 0 and lp) else "") + t
            cond = ""
            if how in ("join", "inner", "left", "right"):
                if it["using"]:
                    cond = self.kw(" USING ") + "(" + ", ".join(self.col(c) for c in it["using"]) + ")"
                else:
                    cond = self.kw(" ON ") + self.pred(it["on"])
            if end > i:
                closing[end] = ")" + cond
            else:
                out += cond + closing.get(i, "")
            if lp and i == lp:
                out += ")"
        if q.get("raw_fn"):
            out += q["raw_fn"]
        elif q.get("fn"):
            a = self.value(q["fn"], False)
            n = self.ident("fn_%d" % r.randrange(9))
            out += self.kw(r.choice([", ", ", LATERAL ", " CROSS JOIN ", " CROSS JOIN LATERAL "])) + \
                r.choice(["generate_series(1, %s)", "unnest(ARRAY[%s, 1])", "ROWS FROM (generate_series(1, 2), generate_series(%s, 9))", "jsonb_each(%s)"]) % a + \
                self.kw(r.choice([" AS ", " "])) + n
        if q["where"]["refs"] or q["where"]["subs"]:
            out += self.kw(" WHERE ") + self.pred(q["where"])
        if q["grp"]:
            out += self.kw(" GROUP BY ") + ", ".join(self.value(e, False) for e in q["grp"])
        if q["hav"]["refs"]:
            out += self.kw(" HAVING ") + self.pred(q["hav"])
        out += q.get("raw_tail", "")
        if q["ord"]:
            out += self.kw(" ORDER BY ") + ", ".join(self.value(e, False) + self.kw(r.choice(["", " ASC", " DESC"])) for e in q["ord"])
        if q.get("limsub"):
            out += self.kw(r.choice([" LIMIT ", " LIMIT 3 OFFSET ", " OFFSET "])) + "(" + self.query(q["limsub"], sub=True) + ")"
        if q.get("limit"):
            l = q["limit"]
            if not self.simple and r.random() < 0.2:
                l = "LIMIT 2, 5" if self.d == "mysql" else r.choice(["LIMIT ALL", "FETCH FIRST 3 ROWS ONLY", "OFFSET 2", "OFFSET 2 LIMIT 5"])
            out += " " + self.kw(l)
        elif not sub and not self.simple and r.random() < 0.04:
            out += self.kw(r.choice([" FOR UPDATE"] + ([" LOCK IN SHARE MODE"] if self.d == "mysql" else [" FOR SHARE"])))
        return out


def strip(q):
    """The AST without rendering hints, as spec/Scope.tla wants it."""
    def ex(e):
        return {"refs": [{"q": x["q"], "c": x["c"]} for x in e["refs"]], "subs": [strip(s) for s in e["subs"]], "plain": bool(e["plain"])}
    fr = []
    for i, it in enumerate(q["from"]):
        f = {"k": it["k"], "as": it["as"], "lat": bool(it.get("lat")), "conds": []}
        if it["k"] == "b":
            f["name"] = it["name"]
        else:
            f["sub"] = strip(it["sub"])
        fr.append(f)
    if q.get("fn"):
        fr.append({"k": "f", "as": "fn_1", "lat": True, "conds": [], "e": ex(q["fn"])})
    if all("lo" in it for it in q["from"]):
        for i, it in enumerate(q["from"]):
            if it["using"] or it["on"]["refs"] or it["on"]["subs"]:
                fr[it["end"]]["conds"].append({"lo": it["lo"] + 1, "e": ex(it["on"]), "using": list(it["using"])})
    else:
        lo = 0
        for i, it in enumerate(q["from"]):
            lo = i if it.get("how") == "comma" else lo
            if it["using"] or it["on"]["refs"] or it["on"]["subs"]:
                fr[i]["conds"].append({"lo": lo + 1, "e": ex(it["on"]), "using": list(it["using"])})
    return {"sel": [dict(k="*", q=s["q"]) if s["k"] == "*" else dict(k="e", e=ex(s["e"]), **{"as": s["as"]}) for s in q["sel"]],
            "from": fr, "where": ex(q["where"]), "grp": [ex(e) for e in q["grp"]], "hav": ex(q["hav"]), "ord": [ex(e) for e in q["ord"] + q.get("don", []) + ([{"refs": [], "subs": [q["limsub"]], "plain": False}] if q.get("limsub") else [])]}


def walk(q, f):
    f(q)
    es = [s["e"] for s in q["sel"] if s["k"] == "e"] + [q["where"], q["hav"]] + q["grp"] + q["ord"] + q.get("don", []) + [it["on"] for it in q["from"]] + [q.get("fn", NOEXPR)]
    for e in es:
        for s in e["subs"]:
            walk(s, f)
    for it in q["from"]:
        if it["k"] == "d":
            walk(it["sub"], f)
    if q.get("limsub"):
        walk(q["limsub"], f)


def reads(q):
    res = set()
    walk(q, lambda x: res.update(it["name"] for it in x["from"] if it["k"] == "b"))
    return res


def names_of(q):
    res = set()

    def f(x):
        for it in x["from"]:
            res.update([it["as"], it.get("name", "")] + it["using"])
    walk(q, f)
    return res - {""}


def rename(q, rng, env=(), seq=None):
    """The same query with other aliases."""
    seq = seq if seq is not None else [0]
    q = dict(q, **{"from": list(q["from"])})
    frame = {}
    for i, it in enumerate(q["from"]):
        it = dict(it)
        if it["k"] == "d":
            it["sub"] = rename(it["sub"], rng, ((frame.copy(),) + env) if it["lat"] else env, seq)
        old = it["as"] or it["name"]
        if it["as"] and rng.random() < 0.8:
            seq[0] += 1
            it["as"] = "%s%d" % (rng.choice(["zz", "q_", "w"]), seq[0])
        frame[old] = it["as"] or it["name"]
        q["from"][i] = it
    env2 = (frame,) + env

    def ref(x):
        if x["q"]:
            for f in env2:
                if x["q"] in f:
                    return {"q": f[x["q"]], "c": x["c"]}
        elif x["c"] in frame and x.get("row"):
            return dict(x, c=frame[x["c"]])
        return x

    def ex(e):
        return dict(e, refs=[ref(x) for x in e["refs"]], subs=[rename(s, rng, env2, seq) for s in e["subs"]])
    for it in q["from"]:
        it["on"] = ex(it["on"])
    q["sel"] = [dict(s, q=frame.get(s["q"], s["q"])) if s["k"] == "*" else dict(s, e=ex(s["e"])) for s in q["sel"]]
    for k in ("where", "hav", "fn"):
        if k in q:
            q[k] = ex(q[k])
    for k in ("grp", "ord", "don"):
        q[k] = [ex(e) for e in q.get(k, [])]
    return q


def shuffled(q, rng):
    """The same query with its conditions in another order."""
    q = dict(q)

    def ex(e, cond):
        rs = list(e["refs"])
        if cond:
            rng.shuffle(rs)
        return dict(e, refs=rs, subs=[shuffled(s, rng) for s in e["subs"]])
    q["from"] = [dict(it, on=ex(it["on"], True), **({"sub": shuffled(it["sub"], rng)} if it["k"] == "d" else {})) for it in q["from"]]
    q["sel"] = [s if s["k"] == "*" else dict(s, e=ex(s["e"], False)) for s in q["sel"]]
    q["where"] = ex(q["where"], True)
    q["hav"] = ex(q["hav"], False)
    if "fn" in q:
        q["fn"] = ex(q["fn"], False)
    for k in ("grp", "ord", "don"):
        q[k] = [ex(e, False) for e in q.get(k, [])]
    return q


def unstrip(q):
    """The AST of spec/Scope.tla as this module's (each item ends at most one condition)."""
    def ex(e):
        return dict(e, subs=[unstrip(s) for s in e["subs"]])
    fr = []
    more = {"fn": ex(it["e"]) for it in q["from"] if it["k"] == "f"}
    for i, it in enumerate(x for x in q["from"] if x["k"] != "f"):
        c = it["conds"][0] if it["conds"] else None
        f = {"k": it["k"], "as": it["as"], "lat": it["lat"], "how": "first" if i == 0 else "join" if c else "comma", "lo": c["lo"] - 1 if c else i, "end": i,
             "on": ex(c["e"]) if c else NOEXPR, "using": list(c["using"]) if c else []}
        if it["k"] == "b":
            f["name"] = it["name"]
        else:
            f["sub"] = unstrip(it["sub"])
        fr.append(f)
    return dict(q, sel=[s if s["k"] == "*" else dict(s, e=ex(s["e"])) for s in q["sel"]], where=ex(q["where"]), hav=ex(q["hav"]), grp=[ex(e) for e in q["grp"]],
                ord=[ex(e) for e in q["ord"]], **{"from": fr}, **more)
