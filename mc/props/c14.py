"""Attribute tables: any history of edits and joins leaves exactly the rows and fields a plain list of records would hold."""
import itertools, json
import numpy as np
from karta.vector.table import Table, Indexer, NumpyAwareJSONEncoder, merge
from karta.vector.geometry import Multipoint
from karta.crs import Cartesian

RULE = ("a case is an initial table and the first operations of a history; every continuation is executed on real tables and on a list of records, "
        "comparing every way of reading after every step, and checking that no other table changed; non-trivial = one table compared")
BOUNDS = {"quick": "all histories of up to 4 operations from 14, from 9 initial tables of 0..3 rows and 0..3 fields; all joins of up to 3 of 8 "
                   "tables and records; all ways of constructing tables from 0..3 rows",
          "thorough": "histories of up to 5 operations"}
ASSUMPTIONS = ["the order of fields after a join is not constrained, and equality of tables is only required for equal order of fields"]

class Model(object):
    """A list of fields and a list of records."""
    def __init__(self, fields, rows):
        self.fields = list(fields)
        self.rows = [dict(zip(fields, r)) for r in rows]
    def copy(self):
        return Model(self.fields, [[r[f] for f in self.fields] for r in self.rows])

INIT = [((), 0), (("a",), 0), (("a",), 1), (("a",), 3), (("a", "b"), 1), (("a", "b"), 2), (("b", "a", "c"), 2), (("c",), 2), ((), 2)]

def initial(k):
    fields, n = INIT[k]
    rows = [tuple((f, i) for f in fields) for i in range(n)]
    rows = [tuple("%s%d" % v if v[0] != "b" else 10*v[1] + 1 for v in r) for r in rows]
    return Table(data=rows, fields=fields) if n else Table(size=0, fields=fields), Model(fields, rows)

OTHERS = [(("a",), [("x",)]), (("b", "a"), [(7, "y"), (8, None)]), (("d",), [(1.5,)]), (("c", "b", "a"), [("q", 1, "r")]), (("a", "b"), [])]
OPS = ([("set", f) for f in ("a", "b", "d")] + [("setrow", i) for i in (0, -1)] + [("del", i) for i in (0, -1)] +
       [("extend", k) for k in (0, 1, 2, 3)] + [("extend", "self")] + [("updated", k) for k in (0, 1)] + [("copy",)])

def cases(tier):
    t = tier == "thorough"
    for k in range(len(INIT)):
        for first in itertools.product(range(len(OPS)), repeat=2):
            yield ["history", k, first, 5 if t else 4]
    for n in range(4):
        for k in range(4):
            yield ["make", n, k]
    for n in (1, 2, 3):
        for first in range(8):
            yield ["join", n, first]
    for k in range(6):
        yield ["json", k]

def check(ctx, t, m, what):
    n = len(m.rows)
    ctx.eq(len(t), n, what + ": length")
    ctx.eq(set(t.fields), set(m.fields), what + ": fields")
    ctx.eq(len(t._fields), len(m.fields), what + ": number of fields")
    for f in ("a", "b", "c", "d"):
        ctx.eq(f in t, f in m.fields, what + ": contains " + f)
        if f in m.fields:
            ctx.eq(t.getfield(f), [r[f] for r in m.rows], what + ": field " + f)
            ctx.eq(Indexer(t)[f], [r[f] for r in m.rows], what + ": column " + f)
        else:
            ctx.raises(KeyError, lambda: t.getfield(f), what + ": missing field " + f)
    for i in range(-n, n):
        ctx.eq(t.get(i), m.rows[i], what + ": row %d" % i)
        ctx.eq(sorted(t[i], key=str), sorted(m.rows[i].values(), key=str), what + ": row %d" % i)
    for i in (n, -n-1):
        ctx.raises(IndexError, lambda: t[i], what + ": row %d" % i)
    for s in (slice(None), slice(1, None), slice(None, None, -1), slice(0, 0), slice(-1, None), slice(None, None, 2)):
        ctx.eq(Indexer(t)[s], dict((f, [r[f] for r in m.rows[s]]) for f in m.fields), what + ": rows %r" % s)
    ctx.eq([sorted(r, key=str) for r in t], [sorted(r.values(), key=str) for r in m.rows], what + ": iteration")
    for r in t:
        ctx.true(isinstance(r, tuple), "%s: a row is %r", what, type(r))
    ctx.state((tuple(sorted(m.fields)), n))

def other(k):
    fields, rows = OTHERS[k]
    return Table(data=list(rows), fields=fields) if rows else Table(size=0, fields=fields), Model(fields, rows)

def extend(m, o):
    rows = [dict((f, r.get(f) if f in o.fields else None) for f in m.fields) for r in o.rows]
    m.rows.extend(rows)

def apply(ctx, t, m, op, step):
    """Returns the table and model that continue the history."""
    n = len(m.rows)
    if op[0] == "set":
        vals = ["s%d%d" % (step, i) for i in range(n)]
        if n == 0:
            # a table without rows takes its rows from the first field it is given
            if set(m.fields) <= {op[1]}:
                vals = ["new%d" % i for i in range(step)]
                t.setfield(op[1], vals)
                m.fields = [op[1]]
                m.rows = [{op[1]: v} for v in vals]
                return t, m
            ctx.raises(ValueError, lambda: t.setfield(op[1], ["bad"]), "values for a table without rows")
            return t, m
        ctx.raises(ValueError, lambda: t.setfield(op[1], vals + ["bad"]), "too many values")
        ctx.raises(ValueError, lambda: t.setfield(op[1], vals[1:]), "too few values")
        t.setfield(op[1], vals)
        vals[0] = "changed afterwards"
        vals = ["s%d%d" % (step, i) for i in range(n)]
        if op[1] not in m.fields:
            m.fields.append(op[1])
        for r, v in zip(m.rows, vals):
            r[op[1]] = v
    elif op[0] == "setrow":
        if n == 0:
            ctx.raises(IndexError, lambda: t.__setitem__(op[1], ()), "row of an empty table")
            return t, m
        row = tuple("r%d%s" % (step, f) for f in t._fields)
        t[op[1]] = row
        m.rows[op[1]] = dict(zip(t._fields, row))
    elif op[0] == "del":
        if n == 0:
            ctx.raises(IndexError, lambda: t.__delitem__(op[1]), "row of an empty table")
            return t, m
        del t[op[1]]
        del m.rows[op[1]]
    elif op[0] == "extend":
        if op[1] == "self":
            if n > 12:
                return t, m
            o, om = t, m.copy()
        else:
            o, om = other(op[1])
        t.extend(o)
        extend(m, om)
        if op[1] != "self":
            check(ctx, o, om, "the table extended from")
    elif op[0] == "updated":
        fields, rows = OTHERS[op[1]]
        vals = dict((f, ["u%d%s%d" % (step, f, i) for i in range(n)]) for f in fields)
        if n == 0:
            return t, m
        new = t.updated(vals) if step % 2 else t.updated(Table(data=vals))
        check(ctx, t, m, "original after updated()")
        ctx.raises(ValueError, lambda: t.updated({"a": [1]*(n+1)}), "update of unequal length")
        m2 = m.copy()
        for f in fields:
            if f not in m2.fields:
                m2.fields.append(f)
            for r, v in zip(m2.rows, vals[f]):
                r[f] = v
        check(ctx, new, m2, "updated()")
        # later changes of the original do not show in the new table
        if n:
            del t[0]
        return new, m2
    elif op[0] == "copy":
        new = Table(t)
        check(ctx, new, m, "copy")
        ctx.true(new == t, "a copy of a table differs from it")
        before = m.copy()
        if n:
            t[0] = tuple("lost" for _ in t._fields)
            t.extend(Table(data=[tuple(None for _ in t._fields)], fields=t._fields))
            if t._fields:
                ctx.true(not (new == t), "a changed table equals its old copy")
        if n:
            t.setfield("z", [0]*len(t))
        check(ctx, new, before, "copy after changing the original")
        return new, before
    return t, m

def run(case, ctx):
    ctx.trace()
    globals()["run_" + case[0]](case, ctx)

def run_history(case, ctx):
    _, k, first, length = case
    for rest in itertools.product(range(len(OPS)), repeat=length - len(first)):
        t, m = initial(k)
        hist = tuple(first) + rest
        for step, i in enumerate(hist):
            ctx.op()
            t, m = apply(ctx, t, m, OPS[i], step + 1)
            if step >= len(first) - 1:
                check(ctx, t, m, "after %r from %r" % ([OPS[j] for j in hist[:step+1]], INIT[k]))

def run_make(case, ctx):
    _, n, k = case
    fields = ("a", "b", "c")[:k]
    rows = [tuple("%s%d" % (f, i) for f in fields) for i in range(n)]
    m = Model(fields, rows)
    ctx.op()
    check(ctx, Table(data=list(rows), fields=fields), m, "rows and fields")
    src = list(rows)
    t = Table(data=src, fields=list(fields))
    if src:
        src[0] = tuple("x" for _ in fields)
    src.append(tuple("x" for _ in fields))
    check(ctx, t, m, "rows and fields after changing the list")
    if k and n:
        src = dict((f, [r[j] for r in rows]) for j, f in enumerate(fields))
        check(ctx, Table(data=src), m, "lists by field")
        check(ctx, Table(data=dict((f, tuple(v)) for f, v in src.items())), m, "tuples by field")
        t = Table(data=src)
        for f in src:
            src[f][0] = "changed"
        check(ctx, t, m, "lists by field after changing the lists")
    if k and n == 1:
        check(ctx, Table(data=dict(zip(fields, rows[0]))), m, "scalars by field")
        check(ctx, Table(data=dict((f, i) for i, f in enumerate(fields))), Model(fields, [tuple(range(k))]), "numbers by field")
        check(ctx, Table(data=dict((f, None) for f in fields)), Model(fields, [(None,)*k]), "None by field")
    if k:
        check(ctx, Table(size=n, fields=fields), Model(fields, [(None,)*k]*n), "size and fields")
    check(ctx, Table(size=n), Model((), [()]*n), "size")
    if k == 1:
        v = ["v%d" % i for i in range(n)]
        for src in (v, tuple(v)) + ((np.array(v),) if n else ()):
            t = Table(data=src)
            ctx.eq(len(t), n, "list of values")
            ctx.eq(t.getfield("value") if n else [], v, "list of values")
        for scalar in (5, 2.5, "word", None)[:3]:
            t = Table(data=scalar)
            ctx.eq(len(t), 1, "scalar")
            ctx.eq(t.get(0), {"value": scalar}, "scalar")
        check(ctx, Table(data={}), Model((), []), "empty dictionary")
        if n:
            a = np.arange(n)*1.5
            ctx.eq(Table(data={"a": a}).getfield("a"), list(a), "numpy column")
    if k > 1 and n:
        ctx.raises(ValueError, lambda: Table(data=list(rows), fields=fields[1:]), "rows longer than fields")
        ctx.raises(TypeError, lambda: Table(data=[(1,), ("x",)], fields=("a",), checktypes=True), "mixed types")
        ctx.eq(Table(data=[(1,), (2,)], fields=("a",), checktypes=True).types, (int,), "types")
    ctx.raises(ValueError, lambda: Table(), "nothing")
    ctx.raises(KeyError, lambda: Indexer(None), "no table")

PARTS = [("table", ("a", "b"), [("x", 1), ("y", 2)]), ("table", ("b", "a"), [(3, "z")]), ("dict", ("a", "b"), [("w", 4)]),
         ("dict", ("c", "a", "b"), [("no", "v", 5)]), ("table", ("a", "c"), [("u", "no")]), ("table", ("a", "b"), []),
         ("dict", ("d",), [(1,)]), ("table", ("b", "c", "a", "d"), [(9, 8, 7, 6), (5, 4, 3, 2)])]

def run_join(case, ctx):
    _, n, first = case
    for rest in itertools.product(range(8), repeat=n-1):
        parts, models = [], []
        for k in (first,) + rest:
            kind, f, rows = PARTS[k]
            models.append(Model(f, rows))
            if kind == "dict":
                parts.append(dict(zip(f, rows[0])))
            else:
                parts.append(Table(data=list(rows), fields=f) if rows else Table(size=0, fields=f))
        keys = set.intersection(*[set(m.fields) for m in models])
        out = Model(sorted(keys), [])
        for m in models:
            extend(out, m)
        ctx.op()
        check(ctx, merge(parts), out, "join of %r" % ((first,) + rest,))
        for p, m in zip(parts, models):
            if isinstance(p, Table):
                check(ctx, p, m, "a joined table")

def flatten(v):
    while isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
        v = v[0]
    return v

def run_json(case, ctx):
    k = case[1]
    ctx.op()
    if k == 0:
        for rows in ([(1, "x"), (2, "y")], [(1.5, None), (-2, True)]):
            d = json.loads(Table(data=list(rows), fields=("a", "b")).asjson())
            ctx.eq(set(d), {"a", "b"}, "fields as JSON")
            ctx.eq(flatten(d["a"]), [r[0] for r in rows], "column as JSON")
            ctx.eq(flatten(d["b"]), [r[1] for r in rows], "column as JSON")
    elif k == 1:
        for dt in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool"):
            a = np.array([1, 0], dtype=dt)
            d = json.loads(Table(data={"a": a}).asjson())
            ctx.eq(flatten(d["a"]), [1, 0], "column of type %s as JSON" % dt)
            ctx.eq(json.loads(json.dumps({"v": a[0]}, cls=NumpyAwareJSONEncoder)), {"v": 1}, "value of type %s as JSON" % dt)
            ctx.eq(json.loads(json.dumps(a[:1], cls=NumpyAwareJSONEncoder)), 1, "array of one value of type %s as JSON" % dt)
        big = np.array([2**63 + 1], dtype="uint64")
        ctx.eq(json.loads(json.dumps(big[0], cls=NumpyAwareJSONEncoder)), 2**63 + 1, "large unsigned value as JSON")
    elif k == 2:
        ctx.raises(TypeError, lambda: json.dumps({"v": object()}, cls=NumpyAwareJSONEncoder), "an object")
    elif k == 3:
        for bad in (1.5, ("a",), None):
            ctx.raises(KeyError, lambda: Indexer(Table(data=[1, 2]))[bad], "index %r" % (bad,))
    else:
        a, b = Table(data=[(1, 2)], fields=("a", "b")), Table(data=[(1, 2)], fields=("a", "b"))
        ctx.true(a == b and not (a != b), "equal tables differ")
        for c in (Table(data=[(1, 3)], fields=("a", "b")), Table(data=[(1, 2)], fields=("a", "c")), Table(data=[(1, 2)]*2, fields=("a", "b"))):
            ctx.true(a != c and not (a == c), "different tables are equal")
