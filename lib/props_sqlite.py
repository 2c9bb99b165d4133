"""C01, C10, C11, C16 against SQLite: a real database decides what a query means.

Queries of SQLite's dialect that the supported grammar covers.  Formatting must keep the program SQLite compiles them
to; where all sources are subqueries, validation must agree with SQLite's name resolution.
"""
import re
import sqlite3

from lib import props_format as pf
from lib import sut
from lib.harness import Leg, Violation

COLUMNS = "a b c d e k".split()
TABLES = {"t": COLUMNS, "t2": ["a", "b", "x"], "t3": ["c", "x", "y"]}
_DB = None


def database():
    global _DB
    if _DB is None:
        _DB = sqlite3.connect(":memory:")
        for name, columns in TABLES.items():
            _DB.execute("create table {} ({})".format(name, ", ".join(columns)))
        for name in ("f", "g", "my_func"):
            _DB.create_function(name, -1, lambda *args: None)
    return _DB


def compiled(sql):
    """(program, names of the result columns that have an alias) or the error message."""
    cursor = database().cursor()
    try:
        return cursor.execute("explain " + sql).fetchall()
    except sqlite3.Error as e:
        return str(e)


class Source:
    def __init__(self, alias, columns):
        self.alias, self.columns = alias, columns


class SqliteGen:
    """wrong: percent of the columns drawn without looking whether they are in scope."""

    def __init__(self, ch, budget, wrong=0, tables=True, aliased=85, twins=0):
        self.aliased, self.twins = aliased, twins
        self.hidden = []  # scopes that SQLite does not know here, but others do
        self.ch, self.budget, self.wrong, self.tables = ch, budget, wrong, tables
        self.scopes = []  # [sources, merged columns, own aliases]
        self.counter = 0
        self.depth = 0
        self.late = 0
        self.loose = set()
        self.kept = set()  # names in ORDER BY and the like that may be items of the select list
        self.known = dict(TABLES)
        self.drawn = set()  # maybe wrong
        self.noted = []
        self.quirk = False  # SQLite does not follow the standard here

    def spend(self):
        self.budget -= 1
        return self.budget > 0 and self.depth < 8

    def fresh(self, stem):
        self.counter += 1
        return stem + str(self.counter)

    # -- columns -----------------------------------------------------------------------------------------------------

    def column(self):
        ch = self.ch
        own = set().union(*(s[2] for s in self.scopes)) if self.scopes else set()
        if self.wrong and ch.chance(self.wrong):
            beyond = {c for s in self.hidden for source in s[0] for c in source.columns}
            names = [n for n in COLUMNS + ["x", "y", "zz"] if n not in own and n not in beyond]
            name = ch.pick(names)
            if ch.chance(30):
                text = ch.pick(self.visible_aliases() or ["nope"]) + "." + name
                self.drawn.add(text)
                return text
            self.drawn.add(name)
            return self.note(name)
        if self.twins and self.scopes and ch.chance(self.twins):
            sources, merged, _ = self.scopes[-1]
            given = [c for s in sources for c in s.columns if c not in merged]
            twins = sorted({c for c in given if given.count(c) > 1})
            if twins:
                name = ch.pick(twins)
                self.drawn.add(name)
                return self.note(name)
        options = []
        for sources, merged, _ in self.scopes[-1:] if ch.below(5) else self.scopes:
            counts = {}
            for s in sources:
                for c in s.columns:
                    counts[c] = counts.get(c, 0) + 1
                    if s.alias:
                        options.append(s.alias + "." + c)
            options += [c for c, n in counts.items() if n == 1 or c in merged]
        if not options:
            return str(ch.below(50))
        pick = ch.pick(options)
        return pick if "." in pick else self.note(pick)

    def note(self, name):
        if self.late:
            self.loose.add(name)
        self.noted.append(name)
        return name

    def visible_aliases(self):
        return [s.alias for sources, _, _ in self.scopes for s in sources if s.alias]

    # -- expressions -------------------------------------------------------------------------------------------------

    def literal(self):
        return "'" + "".join(self.ch.pick(("x", " ", "and", "(", ",", "''", "from", '"', "é", "\n", "--"))
                             for _ in range(self.ch.below(4))) + "'"  # fmt: skip

    def value(self, agg=False):
        ch = self.ch
        self.depth += 1
        try:
            if not self.spend():
                return self.column()
            kind = ch.weighted(((14, "column"), (4, "number"), (3, "literal"), (6, "arith"), (3, "paren"), (3, "fn"),
                                (3, "case"), (2, "cast"), (2, "scalar"), (1, "null"), (2, "neg"), (1, "bool"),
                                (3 if agg else 0, "agg"), (2 if agg else 0, "over")))  # fmt: skip
            if kind == "column":
                return self.column()
            if kind == "number":
                return ch.pick(("0", "1", "42", "3.14", "1e5", "2.5E-3", ".5", "10."))
            if kind == "literal":
                return self.literal()
            if kind == "arith":
                op = ch.pick(("+", "-", "*", "/", "%", "||", "<<", ">>", "&", "|"))
                return "{} {} {}".format(self.value(), op, self.value())
            if kind == "paren":
                return "({})".format(self.value())
            if kind == "neg":
                return ch.pick(("-", "+", "- ", "- -")) + self.column()
            if kind == "fn":
                name = ch.pick(("f", "my_func", "coalesce", "upper", "Length", "ifnull", "abs", "replace"))
                n = {"upper": 1, "Length": 1, "abs": 1, "ifnull": 2, "coalesce": 2, "replace": 3}.get(name, ch.below(4))
                return "{}({})".format(name, ", ".join(self.value() for _ in range(n)))
            if kind == "case":
                base = " " + self.column() if ch.chance(30) else ""
                whens = "".join(
                    " when {} then {}".format(self.value() if base else self.condition(), self.value())
                    for _ in range(ch.between(1, 2))
                )
                return "case{}{}{} end".format(base, whens, " else " + self.value() if ch.chance(50) else "")
            if kind == "cast":
                return "cast({} as {})".format(self.value(), ch.pick(("int", "text", "numeric")))
            if kind == "scalar":
                return "({})".format(self.select(1)[0])
            if kind == "null":
                return "null"
            if kind == "bool":
                return "({})".format(self.condition())
            inner = ch.pick(("sum({})", "max({})", "count({})", "count(distinct {})", "min({})")).format(self.column())
            if ch.chance(20):
                inner = "count(*)"
            if kind == "over" and "distinct" not in inner:
                if ch.chance(20):
                    inner += " filter (where {})".format(self.condition())
                parts = []
                if ch.chance(60):
                    parts.append("partition by " + self.column())
                if ch.chance(60):
                    parts.append("order by " + self.column() + ch.pick(("", " desc", " asc")))
                    if ch.chance(30):
                        parts.append(ch.pick(("rows unbounded preceding", "rows between 1 preceding and current row")))
                return inner + " over ({})".format(" ".join(parts))
            return inner
        finally:
            self.depth -= 1

    def condition(self):
        ch = self.ch
        self.depth += 1
        try:
            if not self.spend():
                return "{} = {}".format(self.column(), self.column())
            kind = ch.weighted(((8, "compare"), (4, "chain"), (2, "null"), (2, "in"), (2, "between"), (2, "not"),
                                (2, "exists"), (2, "insub"), (2, "like"), (2, "paren")))  # fmt: skip
            if kind == "compare":
                op = ch.pick(("=", "<", ">", "<=", ">=", "<>", "!="))
                return "{} {} {}".format(self.value(), op, self.value())
            if kind == "chain":
                n = ch.between(2, 4)
                return "".join(
                    (" {} ".format(ch.pick(("and", "or"))) if i else "") + self.condition() for i in range(n)
                )
            if kind == "null":
                return "{} is {}null".format(self.value(), ch.pick(("", "not ")))
            if kind == "in":
                items = [self.column() if ch.chance(20) else ch.pick(("1", "2.5", "'x'")) for _ in range(ch.between(1, 3))]
                return "{} {}in ({})".format(self.column(), ch.pick(("", "not ")), ", ".join(items))
            if kind == "insub":
                return "{} {}in ({})".format(self.column(), ch.pick(("", "not ")), self.select(1)[0])
            if kind == "between":
                high = str(ch.below(99)) if ch.chance(50) else self.column()
                return "{} {}between {} and {}".format(self.column(), ch.pick(("", "not ")), self.column(), high)
            if kind == "not":
                return "not ({})".format(self.condition())
            if kind == "exists":
                return "exists ({})".format(self.select(1)[0])
            if kind == "like":
                return "{} {}like {}".format(self.column(), ch.pick(("", "not ")), self.literal())
            return "({})".format(self.condition())
        finally:
            self.depth -= 1

    # -- queries -----------------------------------------------------------------------------------------------------

    def source(self):
        ch = self.ch
        alias = self.fresh(ch.pick(("s", "q", "T"))) if ch.chance(self.aliased) else None
        if self.tables and (not self.spend() or ch.chance(50)):
            name = ch.pick(sorted(self.known))
            return name + (ch.pick((" ", " as ")) + alias if alias else ""), Source(alias or name, self.known[name])
        if not self.spend() or ch.chance(40):
            names = [c for c in COLUMNS if ch.below(2)] or ["a"]
            text = "select {} from t".format(", ".join(names))
        else:
            late, self.late = self.late, 0
            text, names = self.without(self.scopes, self.select)
            self.late = late
        text = "({})".format(text)
        return text + (ch.pick((" ", " as ")) + alias if alias else ""), Source(alias, names)

    def without(self, hidden, make, *args):
        scopes, self.scopes = self.scopes, self.scopes[len(hidden) :]
        before, self.hidden = self.hidden, self.hidden + hidden
        try:
            return make(*args)
        finally:
            self.scopes, self.hidden = scopes, before

    def sources(self):
        ch = self.ch
        text, first = self.source()
        sources, merged = [first], set()
        if ch.below(10) < 6 or not self.spend():
            return text, sources, merged
        comma = ch.chance(15)
        ons = []
        for _ in range(ch.weighted(((5, 1), (2, 2), (1, 3)))):
            node, more = self.source()
            if comma:
                text += ", " + node
                sources.append(more)
                continue
            word = ch.pick(("join", "inner join", "left join", "left outer join", "cross join", "right join",
                            "full join"))  # fmt: skip
            text += " {} {}".format(word, node)
            if word != "cross join":
                left = [c for s in sources for c in s.columns]
                both = sorted(c for c in set(more.columns) if left.count(c) == 1 and more.columns.count(c) == 1)
                if self.wrong and ch.chance(self.wrong):
                    name = ch.pick(left + more.columns) if left + more.columns and ch.chance(70) else ch.pick(COLUMNS)
                    text += " using ({})".format(name)
                    self.drawn.add(name)
                    merged = merged | {name}
                    sources.append(more)
                    continue
                if both and ch.chance(30):
                    name = ch.pick(both)
                    text += " using ({})".format(name)
                    merged = merged | {name}
                    sources.append(more)
                    continue
                self.scopes.append([sources + [more], merged, set()])
                noted, self.noted = self.noted, []
                text += " on " + self.condition()
                ons.append((len(sources) + 1, self.noted))
                self.noted = noted + self.noted
                self.scopes.pop()
            sources.append(more)
        for seen, names in ons:
            # SQLite's ON knows the sources that follow
            if any(n in s.columns for s in sources[seen:] for n in names):
                self.quirk = True
        # merged on the way, but provided again by a later source
        merged = {m for m in merged if sum(m in s.columns for s in sources) == 2}
        return text, sources, merged

    def select(self, columns=None, branch=False):
        """branch: what follows a set operator"""
        ch = self.ch
        self.depth += 1
        late, self.late = self.late, 0
        loose, self.loose = self.loose, set()
        try:
            text, sources, merged = self.sources()
            own = set()
            self.scopes.append([sources, merged, own])
            n = columns or ch.weighted(((3, 1), (3, 2), (2, 3), (1, 5)))
            grouped = ch.chance(20)
            items, names, aliases = [], [], []
            for _ in range(n):
                item = self.value(agg=True)
                plain = re.fullmatch(r"(?:\w+\.)?([a-z]\w*)", item)
                if plain and plain.group(1) not in names and plain.group(1) not in ("null",) and ch.below(3):
                    names.append(plain.group(1))
                else:
                    alias = self.fresh("z")
                    item += ch.pick((" as ", " ")) + alias
                    names.append(alias)
                    aliases.append(alias)
                items.append(item)
            # sub queries of the items must not see aliases; what comes now may
            own.update(aliases)
            out = "select {}{} from {}".format(ch.pick(("", "", "", "distinct ")), ", ".join(items), text)
            if ch.chance(45):
                out += " where " + self.condition()
            self.late += 1
            if grouped:
                keys = [
                    self.without(self.scopes[:-1], self.key, aliases, n, merged) for _ in range(ch.between(1, 2))
                ]
                out += " group by " + ", ".join(keys)
                if ch.chance(40):
                    out += " having " + self.condition()
            combined = not branch and ch.chance(12) and self.spend()
            if combined:
                late, self.late = self.late, 0
                scope = self.scopes.pop()
                for _ in range(ch.between(1, 2)):
                    words = ch.pick(("union all", "union", "except", "intersect"))
                    out += " {} {}".format(words, self.select(n, branch=True)[0])
                self.scopes.append(scope)
                self.late = late
            if not branch and ch.chance(25):
                keys = [
                    (ch.pick(aliases + [str(ch.between(1, n))]) if combined
                     else self.without(self.scopes[:-1], self.key, aliases, n, merged)) + ch.pick(("", " asc", " desc"))
                    for _ in range(ch.between(1, 2))
                ]
                out += " order by " + ", ".join(keys)
            if not branch and ch.chance(15):
                out += " limit " + str(ch.below(50))
                if ch.chance(40):
                    out += " offset " + str(ch.below(50))
            self.scopes.pop()
            self.kept |= {name for name in self.loose if name in names}
            self.loose = loose
            return out, names
        finally:
            self.depth -= 1
            self.late = late

    def key(self, aliases, n, merged):
        ch = self.ch
        r = ch.below(10)
        if r == 0:
            return str(ch.between(1, n))
        if r == 1 and self.wrong:
            return str(n + ch.between(1, 3))
        if r < 4 and aliases:
            return ch.pick(aliases)
        return self.column()

    def statement(self):
        ch = self.ch
        if self.tables and ch.chance(15):
            parts = []
            for _ in range(ch.between(1, 2)):
                name = self.fresh("cte")
                body, names = self.select()
                parts.append("{} as ({})".format(name, body))
                self.known = dict(self.known, **{name: names})
            return "with {} {}".format(", ".join(parts), self.select()[0])
        return self.select()[0]


class SqliteLeg(Leg):
    wrong = (0,)
    tables = (True, False)
    aliased = 85
    twins = 0

    def gen(self, ch, tier):
        g = SqliteGen(ch, ch.between(4, 50), ch.pick(self.wrong), ch.pick(self.tables), self.aliased, self.twins)
        sql = g.statement()
        if g.quirk or any(
            len(re.findall(r"\b{}\b".format(name), sql)) == 1 for name in g.known if name.startswith("cte")
        ):
            # SQLite does not look at a CTE that is not used
            return None
        program = compiled(sql)
        if isinstance(program, str):
            kind = self.accepts(program, g)
            return kind and dict(kind, sql=sql, sqlite=program)
        return {"sql": sql, "sqlite": "ok"}

    def accepts(self, message, g):
        return None

    def key(self, case):
        return case["sql"]

    def nontrivial(self, case):
        return len(case["sql"]) > 60

    def sample(self, case):
        return {k: v[: pf.SAMPLE] if isinstance(v, str) else v for k, v in case.items()}

    def labels(self, case):
        words = re.findall(r"[a-z]+", case["sql"].lower())
        found = {w for w in ("join", "using", "group", "having", "order", "with", "case", "over", "exists", "union")
                 if w in words}  # fmt: skip
        if words.count("select") > 1:
            found.add("nested select")
        if words.count("select") > 3:
            found.add("four selects or more")
        found.add("sqlite: " + re.sub(r":.*|\d.*", "", case["sqlite"]).strip())
        return found


class SameProgram(SqliteLeg):
    """SQLite compiles the query and its formatted text to the same program."""

    name = "sqlite program"
    quick = 6000
    thorough = 300000

    def check(self, case):
        out = sut.fmt(case["sql"])
        first, second = compiled(case["sql"]), compiled(out)
        if first != second:
            raise Violation(
                "SQLite reads the formatted text differently ({})\n{}\n->\n{}".format(
                    second if isinstance(second, str) else "other program", case["sql"], out
                )
            )


class AcceptedBySqlite(SqliteLeg):
    """A query SQLite compiles for some schema is valid."""

    name = "accepted by sqlite"
    quick = 8000
    thorough = 300000
    wrong = (0, 0, 10)

    def check(self, case):
        valid, errors = sut.verdict(case["sql"])
        if not valid:
            raise Violation("SQLite accepts it, reported invalid: {}\n{}".format(errors, case["sql"]))


class RejectedBySqlite(SqliteLeg):
    """Name resolution among subqueries only, as SQLite reports it."""

    wrong = (2, 5)
    tables = (False,)
    pattern = ""

    def accepts(self, message, g):
        m = re.fullmatch(self.pattern, message)
        if not m:
            return None
        name = m.group(m.lastindex)
        if (name in g.kept and m.lastindex == 1) or name not in g.drawn:
            # SQL may take it for an item of the select list
            return None
        return {"name": name.rsplit(".", 1)[-1]}

    def check(self, case):
        if case["sqlite"] == "ok":
            valid, errors = sut.verdict(case["sql"])
            if not valid:
                raise Violation("SQLite accepts it, reported invalid: {}\n{}".format(errors, case["sql"]))
            return
        valid, errors = sut.verdict(case["sql"], "validating the query raised")
        if valid or not any(re.search(self.error(case["name"]), e) for e in errors):
            raise Violation("SQLite: {}; reported {}\n{}".format(case["sqlite"], errors, case["sql"]))


class MissingForSqlite(RejectedBySqlite):
    name = "missing for sqlite"
    quick = 8000
    thorough = 300000
    pattern = r"no such column: ([\w.]+)|cannot join using column (\w+) - column not present in both tables"

    def error(self, name):
        return r"(?<![\w.]){}(?!\w)".format(name)


class AmbiguousForSqlite(RejectedBySqlite):
    name = "ambiguous for sqlite"
    wrong = (0,)
    aliased = 100
    twins = 5
    quick = 8000
    thorough = 300000
    pattern = r"ambiguous column name: ([\w.]+)"

    def error(self, name):
        return r"(?i)(?<![\w.]){}(?!\w).*ambiguous".format(name)
