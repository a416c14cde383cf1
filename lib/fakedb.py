"""Stand-in for psycopg2 on sqlite: the few PostgreSQL forms that the programs of desimeter use are translated."""
import collections, datetime, re, sqlite3, sys, types

Col = collections.namedtuple("Col", "name")
UTC = datetime.timezone.utc
BOOLS = {"ctrl_enabled", "device_classified_nonfunctional", "fiber_intact", "classified_as_retracted"}


def date(minutes, start=datetime.datetime(2020, 3, 1, tzinfo=UTC)):
    return start+datetime.timedelta(minutes=minutes)


class Cursor:
    def __init__(self, db):
        self.db, self.description, self.rows, self.closed = db, None, None, False

    def execute(self, op, params=None):
        assert not self.closed
        self.db.log.append(op if params is None else (op, params))
        if "pg_class" in op:
            self.description = [Col("relname")]
            self.rows = [(t,) for t in self.db.names if not t.startswith(("pg_", "sql_"))]
            return
        if params is not None:
            assert op.count("%s") == len(params)
            for p in params:
                op = op.replace("%s", str(p) if isinstance(p, (int, float)) else "'%s'" % p, 1)
        op = op.replace("posmovedb.", "")
        op = re.sub(r"\bdate\s+'(\d+)-(\d+)-(\d+)'", lambda m: "'%04d-%02d-%02d 00:00:00+00:00'" % tuple(int(v) for v in m.groups()), op)
        cur = self.db.sql.execute(op)
        names = [d[0] for d in cur.description]
        self.description = [Col(n) for n in names]

        def conv(n, v):
            if v is None: return None
            if n == "time_recorded": return datetime.datetime.fromisoformat(v)
            if n in BOOLS: return bool(v)
            return v
        self.rows = [tuple(conv(n, v) for n, v in zip(names, r)) for r in cur.fetchall()]

    def fetchall(self):
        r, self.rows = self.rows, []
        return r

    def close(self):
        self.closed = True


class Database:
    """tables: {name: list of dicts}; rows inserted in the given order"""
    def __init__(self, tables, extra=()):
        self.sql = sqlite3.connect(":memory:")
        self.sql.execute("pragma case_sensitive_like = on")
        self.log, self.names, self.cursors, self.args = [], list(tables)+list(extra), [], None
        for t, rows in tables.items():
            cols = list(rows[0]) if isinstance(rows, list) and rows else list(rows)
            self.sql.execute("create table %s (%s)" % (t, ", ".join(cols)))
            if isinstance(rows, list):
                for r in rows:
                    self.sql.execute("insert into %s values (%s)" % (t, ",".join("?"*len(cols))),
                                     [str(r[c]) if isinstance(r[c], datetime.datetime) else r[c] for c in cols])

    def cursor(self):
        c = Cursor(self); self.cursors.append(c)
        return c

    def module(self):
        m = types.ModuleType("psycopg2")

        def connect(**kw):
            self.args = kw
            return self
        m.connect = connect
        return m
