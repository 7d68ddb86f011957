"""A stand-in for psycopg and psycopg_pool, so that the importer of libloc runs without a
PostgreSQL server: the same statements are executed by SQLite after their PostgreSQL
peculiarities have been translated (inet operators, DISTINCT ON, CTEs that hide a table of
the same name, column types with their ranges, TRUNCATE, intervals, ...).

Columns keep PostgreSQL's types: a network that is none, a number out of the range of its
column or text in a number column is an error and ends the transaction, as it would there."""
import contextlib, ipaddress, json, re, sqlite3, sys, time, types

class Error(Exception):
    pass

LIMITS = []

class Unsupported(BaseException):
    """a statement that cannot be translated: a limit of this stand-in, not an error of the importer"""
    def __init__(self, text):
        super().__init__(text)
        LIMITS.append(text)

# ------------------------------------------------------------------ tokens
TOKEN = re.compile(r"""\s+ | --[^\n]* | /\*.*?\*/ | '(?:[^']|'')*' | "(?:[^"]|"")*" | %s | %% |
    [A-Za-z_][A-Za-z_0-9$]* | \d+(?:\.\d+)? | >>= | <<= | << | >> | <> | != | <= | >= | && | \|\| | :: | . """, re.X | re.S)

def tokens(sql):
    out = []
    for t in TOKEN.findall(sql):
        if t.isspace() or t.startswith("--") or t.startswith("/*"):
            continue
        out.append(t)
    return out

def is_name(t):
    return bool(re.match(r'[A-Za-z_"]', t))

def up(t):
    return t.upper()

def closing(ts, i):
    """the index of the parenthesis that closes the one at i"""
    d = 0
    for j in range(i, len(ts)):
        if ts[j] == "(":
            d += 1
        elif ts[j] == ")":
            d -= 1
            if not d:
                return j
    raise Unsupported("unbalanced parentheses")

def split_top(ts, sep):
    out, cur, d = [], [], 0
    for t in ts:
        if t == "(":
            d += 1
        elif t == ")":
            d -= 1
        if t == sep and not d:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    out.append(cur)
    return out

def find_top(ts, *words, start=0):
    d = 0
    for i in range(len(ts)):
        if ts[i] == "(":
            d += 1
        elif ts[i] == ")":
            d -= 1
        elif not d and i >= start and all(i + k < len(ts) and up(ts[i + k]) == w for k, w in enumerate(words)):
            return i
    return -1

def text(ts):
    return " ".join(ts).replace(" . ", ".")

# ------------------------------------------------------------- inet values
def net(v):
    return ipaddress.ip_network(v, strict=False)

def inet_ok(v):
    try:
        ipaddress.ip_interface(v)
        return 1
    except Exception:
        return 0

def sub(a, b, strict):
    """a is contained in b"""
    if a is None or b is None:
        return None
    a, b = net(a), net(b)
    if a.version != b.version:
        return 0
    return int(a.subnet_of(b) and (not strict or a != b))

FUNCS = {
    "pg_sube": (2, lambda a, b: sub(a, b, False)),
    "pg_sub": (2, lambda a, b: sub(a, b, True)),
    "masklen": (1, lambda a: None if a is None else ipaddress.ip_interface(a).network.prefixlen),
    "family": (1, lambda a: None if a is None else ipaddress.ip_interface(a).version),
    "pg_inet": (1, inet_ok),
    "pg_overlaps": (2, lambda a, b: None if a is None or b is None else int(bool(sub(a, b, False) or sub(b, a, False)))),
    "host": (1, lambda a: None if a is None else str(ipaddress.ip_interface(a).ip)),
    "network": (1, lambda a: None if a is None else str(net(a))),
    "broadcast": (1, lambda a: None if a is None else "%s/%d" % (net(a).broadcast_address, net(a).prefixlen)),
    "greatest": (-1, lambda *v: max((x for x in v if x is not None), default=None)),
    "least": (-1, lambda *v: min((x for x in v if x is not None), default=None)),
    "now": (0, lambda: time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime())),
}

# ------------------------------------------------------------- translation
TYPES = {
    "INET": ("TEXT", "pg_inet(%s)"), "CIDR": ("TEXT", "pg_inet(%s)"),
    "INTEGER": ("INTEGER", "typeof(%s) = 'integer' AND %s BETWEEN -2147483648 AND 2147483647"),
    "INT": ("INTEGER", "typeof(%s) = 'integer' AND %s BETWEEN -2147483648 AND 2147483647"),
    "BIGINT": ("INTEGER", "typeof(%s) = 'integer'"),
    "SMALLINT": ("INTEGER", "typeof(%s) = 'integer' AND %s BETWEEN -32768 AND 32767"),
    "BOOLEAN": ("INTEGER", "%s IN (0, 1)"), "TEXT": ("TEXT", None), "TIMESTAMP": ("TIMESTAMP", None),
    "VARCHAR": ("TEXT", None),
}

def column(ts):
    """one entry of the column list of CREATE TABLE or ADD COLUMN"""
    if up(ts[0]) in ("PRIMARY", "UNIQUE", "CONSTRAINT", "FOREIGN", "CHECK"):
        return text(ts)
    name, typ, rest = ts[0], up(ts[1]), ts[2:]
    if typ in ("SERIAL", "BIGSERIAL"):
        return "%s INTEGER %s" % (name, text(rest))
    if typ not in TYPES:
        raise Unsupported("type %s" % typ)
    if rest[:1] == ["("]:
        rest = rest[closing(rest, 0) + 1:]
    array = rest[:2] == ["[", "]"]
    if array:
        rest = rest[2:]
    r = text(rest)
    r = re.sub(r"(?i)\bwith(out)? time zone\b", "", r)
    st, chk = ("TEXT", None) if array else TYPES[typ]
    if chk:
        r += " CHECK (%s IS NULL OR (%s))" % (name, chk.replace("%s", name))
    return "%s %s %s" % (name, st, r)

def operand_left(ts, i):
    """the operand that ends before position i: its first index"""
    j = i - 1
    if ts[j] == ")":
        d = 0
        while True:
            if ts[j] == ")":
                d += 1
            elif ts[j] == "(":
                d -= 1
                if not d:
                    break
            j -= 1
        if j and is_name(ts[j - 1]) and up(ts[j - 1]) not in ("AND", "OR", "NOT", "ON", "WHERE", "IN"):
            j -= 1
    while j >= 2 and ts[j - 1] == ".":
        j -= 2
    return j

def operand_right(ts, i):
    """the operand that starts after position i: the index behind it"""
    j = i + 1
    if ts[j] == "(":
        return closing(ts, j) + 1
    j += 1
    while j + 1 < len(ts) and ts[j] == ".":
        j += 2
    if j < len(ts) and ts[j] == "(":
        j = closing(ts, j) + 1
    while j + 1 < len(ts) and ts[j] == "::":
        j += 2
    return j

OPS = {">>=": ("pg_sube", True), "<<=": ("pg_sube", False), ">>": ("pg_sub", True), "<<": ("pg_sub", False), "&&": ("pg_overlaps", False)}

def operators(ts):
    i = 0
    while i < len(ts):
        if ts[i] in OPS:
            f, swap = OPS[ts[i]]
            a, b = operand_left(ts, i), operand_right(ts, i)
            x, y = ts[a:i], ts[i + 1:b]
            if swap:
                x, y = y, x
            new = [f, "("] + x + [","] + y + [")"]
            ts = ts[:a] + new + ts[b:]
            i = a + 1
        else:
            i += 1
    return ts

def casts(ts):
    out, i = [], 0
    while i < len(ts):
        if ts[i] == "::":
            i += 2
            continue
        out.append(ts[i])
        i += 1
    return out

def intervals(ts):
    i = 0
    while i < len(ts):
        if up(ts[i]) == "INTERVAL" and i > 1 and ts[i - 1] in "-+":
            m = re.match(r"'(\d+) (second|minute|hour|day|week|month|year)s?'$", ts[i + 1])
            if not m:
                raise Unsupported("interval %s" % ts[i + 1])
            n, u = int(m.group(1)), m.group(2)
            if u == "week":
                n, u = 7 * n, "day"
            a = operand_left(ts, i - 1)
            ts = ts[:a] + ["datetime", "("] + ts[a:i - 1] + [",", "'%s%d %ss'" % (ts[i - 1], n, u), ")"] + ts[i + 2:]
            i = a
        i += 1
    return ts

def offsets(ts):
    """OFFSET needs a LIMIT here"""
    i = 0
    while i < len(ts):
        if up(ts[i]) == "OFFSET" and not (i > 1 and up(ts[i - 2]) == "LIMIT"):
            ts = ts[:i] + ["LIMIT", "-1"] + ts[i:]
            i += 2
        i += 1
    return ts

def anys(ts):
    i = 0
    while i < len(ts):
        if ts[i] == "=" and i + 1 < len(ts) and up(ts[i + 1]) == "ANY":
            e = closing(ts, i + 2)
            ts = ts[:i] + ["IN", "(", "SELECT", "value", "FROM", "json_each", "("] + ts[i + 3:e] + [")", ")"] + ts[e + 1:]
        i += 1
    return ts

CLAUSES = ("WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET", "UNION", "EXCEPT", "INTERSECT")

def distinct_on(ts):
    """SELECT DISTINCT ON (k) list FROM ... [ORDER BY o]: the first row of each k"""
    i = 0
    while i < len(ts):
        if up(ts[i]) == "SELECT" and i + 2 < len(ts) and up(ts[i + 1]) == "DISTINCT" and up(ts[i + 2]) == "ON":
            k1 = closing(ts, i + 3)
            key = ts[i + 4:k1]
            # the end of this SELECT
            d, e = 0, len(ts)
            for j in range(i, len(ts)):
                if ts[j] == "(":
                    d += 1
                elif ts[j] == ")":
                    d -= 1
                    if d < 0:
                        e = j
                        break
            body = ts[k1 + 1:e]
            if find_top(body, "LIMIT") >= 0 or find_top(body, "UNION") >= 0 or find_top(body, "GROUP") >= 0:
                raise Unsupported("DISTINCT ON")
            conf = find_top(body, "ON", "CONFLICT")
            tail = []
            if conf >= 0:
                body, tail = body[:conf], body[conf:]
            f = find_top(body, "FROM")
            o = find_top(body, "ORDER", "BY")
            items = split_top(body[:f], ",")
            frm = body[f:o] if o >= 0 else body[f:]
            order = body[o:] if o >= 0 else []
            names, cols = [], []
            for n, it in enumerate(items):
                if len(it) > 2 and up(it[-2]) == "AS":
                    nm = it[-1]
                elif is_name(it[-1]):
                    nm = it[-1]
                elif is_name(it[0]) and it[1] == "(":
                    nm = it[0]
                else:
                    nm = "column%d" % n
                bare = it[:-2] if len(it) > 2 and up(it[-2]) == "AS" else it
                names.append(nm)
                cols.append(bare + ["AS", nm])
            new = ["SELECT"]
            for n, nm in enumerate(names):
                new += ([","] if n else []) + [nm]
            new += ["FROM", "(", "SELECT"]
            for n, c in enumerate(cols):
                new += ([","] if n else []) + c
            new += [",", "ROW_NUMBER", "(", ")", "OVER", "(", "PARTITION", "BY"] + key + order + [")", "AS", "pg_rownum"]
            new += frm + [")", "WHERE", "pg_rownum", "=", "1"]
            ts = ts[:i] + new + tail + ts[e:]
        i += 1
    return ts

class Translator:
    def __init__(self, db):
        self.db = db                # an sqlite3 connection, to look tables up

    def schema(self, name):
        for s in ("temp", "main"):
            if self.db.execute("SELECT 1 FROM %s.sqlite_master WHERE type = 'table' AND lower(name) = ?" % s,
                               (name.strip('"').lower(),)).fetchone():
                return s
        return None

    def ctes(self, ts):
        """a CTE sees the tables that later CTEs and it itself hide"""
        if not ts or up(ts[0]) != "WITH":
            return ts
        if up(ts[1]) == "RECURSIVE":
            return ts
        i, parts = 1, []
        while True:
            name = ts[i]
            j = i + 1
            if ts[j] == "(":
                j = closing(ts, j) + 1
            if up(ts[j]) != "AS":
                raise Unsupported("WITH")
            j += 1
            while up(ts[j]) in ("NOT", "MATERIALIZED"):
                j += 1
            e = closing(ts, j)
            parts.append((i, name, j, e))
            i = e + 1
            if ts[i] == ",":
                i += 1
                continue
            break
        out, names = ["WITH"], [p[1].lower() for p in parts]
        for n, (i0, name, j, e) in enumerate(parts):
            hidden = set(names[n:])
            body = list(ts[j:e + 1])
            for k in range(1, len(body)):
                if body[k].lower() in hidden and up(body[k - 1]) in ("FROM", "JOIN", ","):
                    if body[k - 1] == "," and not self.from_list(body, k):
                        continue
                    s = self.schema(body[k])
                    if s:
                        body[k] = "%s.%s" % (s, body[k])
            out += ([","] if n else []) + ts[i0:j] + body
        return out + ts[parts[-1][3] + 1:]

    def from_list(self, ts, k):
        """is this comma between the tables of a FROM clause?"""
        d = 0
        for j in range(k - 2, -1, -1):
            if ts[j] == ")":
                d += 1
            elif ts[j] == "(":
                d -= 1
                if d < 0:
                    return False
            elif not d and up(ts[j]) == "FROM":
                return True
            elif not d and up(ts[j]) in ("SELECT", "ON", "BY", "SET", "WHERE"):
                return False
        return False

    def conflict(self, ts):
        """INSERT ... SELECT ... ON CONFLICT needs a WHERE clause here"""
        c = find_top(ts, "ON", "CONFLICT")
        if c < 0:
            return ts
        i = find_top(ts, "INSERT")
        s = find_top(ts, "SELECT", start=max(i, 0))
        if s < 0 or s > c:
            return ts
        w = find_top(ts, "WHERE", start=s)
        if w >= 0 and w < c:
            return ts
        return ts[:c] + ["WHERE", "1"] + ts[c:]

    def one(self, ts):
        """the statements that do the same here"""
        w = [up(t) for t in ts[:8]]
        if w[0] == "ANALYZE":
            return []
        if w[0] == "TRUNCATE":
            names = ts[2:] if w[1] == "TABLE" else ts[1:]
            return ["DELETE FROM %s" % text(n) for n in split_top(names, ",")]
        if w[0] == "CREATE" and "INDEX" in w[:3]:
            if w[1] != "UNIQUE":
                return []
            u = find_top(ts, "USING")
            if u >= 0:
                ts = ts[:u] + ts[u + 2:]
            return [text(ts)]
        if w[0] == "CREATE" and "TABLE" in w[:3]:
            o = ts.index("(")
            e = closing(ts, o)
            tail = [up(t) for t in ts[e + 1:]]
            self.dropped = tail[-3:] == ["ON", "COMMIT", "DROP"]
            self.name = ts[o - 1]
            head = ["TEMPORARY" if up(t) == "TEMP" else t for t in ts[:o]]
            return ["%s (%s)" % (text(head), ", ".join(column(c) for c in split_top(ts[o + 1:e], ",")))]
        if w[:2] == ["ALTER", "TABLE"]:
            tbl = ts[2]
            out = []
            for act in split_top(ts[3:], ","):
                a = [up(t) for t in act]
                have = {r[1].lower() for r in self.db.execute("PRAGMA table_info(%s)" % tbl)}
                if a[:2] == ["ADD", "COLUMN"]:
                    c = act[5:] if a[2:5] == ["IF", "NOT", "EXISTS"] else act[2:]
                    if c[0].lower() not in have:
                        d = column(c)
                        if re.search(r"(?i)\bnot null\b", d) and not re.search(r"(?i)\bdefault\b", d):
                            # the tables are empty when columns are added
                            d = d + " DEFAULT 'unset'"
                        out.append("ALTER TABLE %s ADD COLUMN %s" % (tbl, d))
                elif a[:2] == ["DROP", "COLUMN"]:
                    c = act[4] if a[2:4] == ["IF", "EXISTS"] else act[2]
                    if c.lower() in have:
                        out.append("ALTER TABLE %s DROP COLUMN %s" % (tbl, c))
                elif a[:2] == ["ALTER", "COLUMN"]:
                    pass
                else:
                    raise Unsupported("ALTER TABLE %s" % text(act))
            return out
        ts = casts(ts)
        ts = self.ctes(ts)
        ts = distinct_on(ts)
        ts = intervals(ts)
        ts = anys(ts)
        ts = offsets(ts)
        ts = operators(ts)
        ts = self.conflict(ts)
        ts = ["?" if t == "%s" else "%" if t == "%%" else t for t in ts]
        return [text(ts)]

# -------------------------------------------------------------- the driver
def value(v):
    if isinstance(v, (list, tuple)):
        return json.dumps(list(v))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (ipaddress.IPv4Network, ipaddress.IPv6Network, ipaddress.IPv4Address, ipaddress.IPv6Address)):
        return str(v)
    if isinstance(v, str) and "\0" in v:
        raise Error("PostgreSQL text fields cannot contain NUL (0x00) bytes")
    return v

PATH = [None]

class Connection:
    def __init__(self):
        self.sq = sqlite3.connect(PATH[0], isolation_level=None, timeout=5, check_same_thread=False)
        self.sq.execute("PRAGMA foreign_keys = ON")
        self.sq.execute("PRAGMA synchronous = OFF")
        for n, (k, f) in FUNCS.items():
            self.sq.create_function(n, k, f, deterministic=n != "now")
        self.autocommit, self.row_factory = False, None
        self.depth, self.begun, self.failed, self.drops = 0, False, False, []
        self.piped = 0
        self.closed = False

    def cursor(self, *a, **k):
        return Cursor(self)

    def execute(self, query, params=None):
        return Cursor(self).execute(query, params)

    @contextlib.contextmanager
    def transaction(self, *a, **k):
        outer = self.depth == 0
        self.depth += 1
        name = None
        if not outer:
            self.begin()
            name = "pg_sp%d" % self.depth
            self.sq.execute("SAVEPOINT %s" % name)
        try:
            yield self
        except BaseException:
            self.depth -= 1
            if outer:
                if self.begun:
                    self.sq.execute("ROLLBACK")
                self.begun, self.failed, self.drops = False, False, []
            else:
                self.sq.execute("ROLLBACK TO %s" % name)
                self.failed = False
            raise
        else:
            self.depth -= 1
            if outer:
                if self.begun:
                    if self.failed:
                        self.sq.execute("ROLLBACK")
                    else:
                        for t in self.drops:
                            self.sq.execute("DROP TABLE IF EXISTS temp.%s" % t)
                        self.sq.execute("COMMIT")
                self.begun, self.failed, self.drops = False, False, []
            else:
                self.sq.execute("RELEASE %s" % name)

    def begin(self):
        if self.depth and not self.begun:
            self.sq.execute("BEGIN")
            self.begun = True

    @contextlib.contextmanager
    def pipeline(self):
        self.piped += 1
        try:
            yield self
        finally:
            self.piped -= 1

    def commit(self):
        pass

    def rollback(self):
        pass

    def close(self):
        self.sq.close()

class Cursor:
    def __init__(self, conn):
        self.conn, self.rows = conn, []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def execute(self, query, params=None):
        c = self.conn
        c.begin()
        if c.failed:
            raise Error("current transaction is aborted, commands ignored until end of transaction block")
        if isinstance(params, dict):
            if params:
                raise Unsupported("named parameters")
            params = ()
        params = [value(p) for p in params or ()]
        self.rows, cols = [], None
        try:
            for ts in split_top(tokens(query), ";"):
                if not ts:
                    continue
                t = Translator(c.sq)
                t.dropped = False
                want = ts.count("%s")
                for sql in t.one(ts):
                    args, params = params[:want], params[want:]
                    if len(args) < want:
                        raise Error("the query has %d placeholders but %d parameters were passed" % (want, len(args)))
                    try:
                        cur = c.sq.execute(sql, args)
                    except sqlite3.OperationalError as e:
                        raise Unsupported("%s: %s" % (e, sql))
                    cols = [d[0] for d in cur.description] if cur.description else None
                    self.rows = [dict(zip(cols, r)) for r in cur.fetchall()] if cols else []
                    if t.dropped:
                        c.drops.append(t.name)
            if params:
                raise Error("too many parameters were passed")
        except (Error, sqlite3.Error) as e:
            if c.depth:
                c.failed = True
            raise e if isinstance(e, Error) else Error(str(e))
        return self

    def executemany(self, query, seq):
        for p in seq:
            self.execute(query, p)

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchall(self):
        r, self.rows = self.rows, []
        return r

    def __iter__(self):
        while self.rows:
            yield self.rows.pop(0)

class ConnectionPool:
    def __init__(self, conninfo="", **kw):
        self.configure, self.free = kw.get("configure"), []

    def getconn(self, *a, **k):
        if self.free:
            return self.free.pop()
        c = Connection()
        if self.configure:
            self.configure(c)
        return c

    def putconn(self, c):
        self.free.append(c)

    def open(self, *a, **k):
        pass

    def close(self, *a, **k):
        pass

def install(path):
    PATH[0] = path
    pg, rows, pool = types.ModuleType("psycopg"), types.ModuleType("psycopg.rows"), types.ModuleType("psycopg_pool")
    rows.dict_row = "dict_row"
    pg.rows, pg.Error, pg.DatabaseError, pg.IntegrityError, pg.DataError = rows, Error, Error, Error, Error
    pool.ConnectionPool = ConnectionPool
    sys.modules.update({"psycopg": pg, "psycopg.rows": rows, "psycopg_pool": pool})

def age(path, days):
    """moves every time stamp into the past"""
    c = sqlite3.connect(path, isolation_level=None)
    for (t,) in c.execute("SELECT name FROM sqlite_master WHERE type = 'table'").fetchall():
        for r in c.execute("PRAGMA table_info(%s)" % t).fetchall():
            if r[2].upper() == "TIMESTAMP":
                c.execute("UPDATE %s SET %s = datetime(%s, '-%d days')" % (t, r[1], r[1], days))
    c.close()
