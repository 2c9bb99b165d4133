"""C08: work grows polynomially."""
import sys

from lib import sqlgen, sut
from lib.harness import Leg, Violation

import sqlvalidator

# every {} is replaced by the next level
EXPRESSIONS = (
    "({})", "f({}, a)", "case when {} then 1 else 0 end", "case a when 1 then {} else 0 end",
    "case when a then 1 else {} end", "a + ({})", "({}) * 2", "not ({})", "(select {} from t)", "cast({} as int)",
    "coalesce({})", "sum({}) over (partition by a)", "max(a) over (order by {})", "array_agg({} order by a)",
    "array_agg(a order by {})", "[{}]", "a in ({}, 2)", "(a and ({} or b))", "a = 1 and ({})",
    "exists(select a from t where {})", "b[{}]", "count(distinct {})", "f(a) filter (where {})", "-({})",
    "(a, {}, c)", "a between ({}) and 3", "({}) is null", "concat('x', {}, 'y')", "extract(day from {})",
    "sum(a) over (partition by {} order by b rows current row)", "f(x)[{}]", "a || ({})", "a not like ({})",
    "(a or b or c and ({}))", "if({}, 1, 2)", "f(distinct {})", "{}[0]", "({})[0]", "[{}][0]", "f({}).x", "a.f({})",
    "date(timestamp_trunc({}, day))", "case {} when 1 then 2 end", "count(*) filter (where {}) over (order by b)",
    "f(a, b).g({}, c)", "array_agg(distinct {} ignore nulls order by b limit 3)", "b[1, {}]", "a like ({})", "- ({})",
    "a = ({}) or b", "(({}))", "count({}, b)", "count(distinct {}, b) over (partition by a)", "not {}",
)  # fmt: skip
QUERIES = (
    "select a from ({}) t", "select a, b from ({})", "select a from t where a in ({})", "with c as ({}) select a from c",
    "select a from t join ({}) u on t.a = u.a", "select a from ({}) t join u using (a)",
    "select a from t, ({}) u", "select a from t cross join ({}) u", "select a from ({}) union all (select 1)",
    "select a from (select 1) union all ({})", "select ({}) from t", "select f(({})), b from t",
    "select a from t order by ({})", "select a from t group by ({})", "select a from t having a = ({})",
    "select a from (({}))", "select a from (t join ({}) u on t.a = u.a) v", "select * from unnest(({}))",
    "select case when a then ({}) end from t", "select a from t where a = 1 and b in ({})",
    "select a from t left join ({}) u on a and (b or c)",
    "select * from ({}) s", "select s.* from ({}) s where x = 1", "select * except (b) from ({}) s", "select *, x as y from ({}) s group by x",
    "with c as ({}) select * from c", "select * from ({}) s join t using (x)", "select s.x from ({}) s order by s.x limit 3",
    "select distinct on (x) x, 1 as z from ({}) as s where s.x and x having x", "select * replace (x as x) from ({}) s",
    "select * from (select x from t) r, ({}) s where r.x = s.x", "select x from t where exists (select * from ({}) s where x)",
    "select a from t join u on a in ({})", "select distinct on (({})) a from t", "select * replace (({}) as a) from t",
    "select a from t limit ({})", "select a from t offset ({})", "select array_agg(a order by ({})) from t",
    "select a from t join u on a = 1 and exists({})", "select a from t group by rollup (({}))", "select a from t union all {}",
    "select sum(a) over (partition by ({})) from t", "select a from t where not exists({})", "select count(distinct ({})) from t",
    "with c as (with d as ({}) select a from d) select a from c", "select a from t where a between ({}) and 2", "select [({})][0] from t",
    "select * from t union all select * from ({}) s", "select x.y from unnest(a) as x join ({}) s on x.y = s.x",
)  # fmt: skip
LISTS = (
    ("select a from t where ", "a{} = 1", " and "), ("select a from t where ", "a{} = 1", " or "),
    ("select a from t where ", "(a{} = 1 or b)", " and "), ("select ", "a{}", ", "), ("select ", "f(a{0}) as b{0}", ", "),
    ("select f(", "a{}", ", "), ("select ", "a{}", " + "), ("select ", "'a{}'", " || "),
    ("select a from t ", "join u{0} on t.a = u{0}.a", " "), ("select a from ", "t{}", ", "),
    ("select a from ", "t{}", " cross join "), ("select a from t group by ", "a{}", ", "),
    ("select a from t order by ", "a{} desc", ", "), ("select a from t where a in (", "{}", ", "),
    ("select case ", "when a = {} then b", " "), ("select ", "case when a{} then b end", ", "),
    ("select a from ", "(select a from t{})", " union all "), ("select a from ", "t{}", " union all "), ("select ", "a{}", "."), ("select [", "{}", ", "),
    ("select ", "'x{}'", ", "), ("select ", "-", " "), ("select a from t where ", "not", " "),
    ("select * except (", "a{}", ", "), ("select a from t where ", "{{a}}", " and "), ("select ", "%s", ", "),
    ("select '", "x{}''", " "), ("select ", "1.5e{}", " + "), ("select a from t where ", "a{} between 1 and 2", " and "),
    ("select count(distinct ", "a{}", ", "), ("select sum(a) over (partition by ", "a{}", ", "),
    ("select a0 from (select ", "a{0}, b{0} as c{0}", ", "), ("select * from ", "(select a{0}, b from t) s{0}", ", "),
    ("select * from t ", "join (select a, b{0} from t) s{0} using (a)", " "),
    ("with ", "c{0} as (select a{0} from t)", ", "), ("select a from (select a from t) where ", "a = {}", " or "),
    ("select a0 from (select a0 from t) group by ", "a0 + {}", ", "), ("select * replace (", "a as b{}", ", "),
    ("select a.b", "[{}]", ""), ("select f(x)", "[{}]", ""), ("select f(x)", ".g({})", ""), ("select a.", "f{}(b)", "."),
    ("select a from t where ", "not a{}", " and "), ("select a from t group by rollup (", "a{}", ", "),
    ("select distinct on (", "a{}", ", "), ("select sum(a) over (order by ", "a{}", ", "), ("select array_agg(a order by ", "a{}", ", "),
    ("select ", "sum(a) over (partition by b{})", ", "), ("select ", "(select a{} from t)", ", "), ("select a from t where ", "a in ({})", " or "),
    ("select ", "a{}", " & "), ("select ", "cast(a{} as int)", ", "), ("select ", "f(a)[{}]", ", "), ("select a from t where a like ", "'%{}'", " or a like "),
    ("select a from t ", "left join (select a, b{0} from v) u{0} on t.a = u{0}.a and u{0}.b{0} > 1", " "),
    ("select a from t, ", "unnest(a{0}) as u{0} with offset as o{0}", ", "),
    ("select (", "a{}", ", "), ("select a from t where ", "a{} in (select b from u)", " or "),
)  # fmt: skip
CLOSERS = {"(": ")", "[": "]"}
LIMIT = 60_000_000


class _Stop(BaseException):
    pass


def calls(action, limit=LIMIT):
    """Number of Python and C function calls made; None when the limit was hit."""
    count = 0

    def hook(frame, event, arg):
        nonlocal count
        if event == "call" or event == "c_call":
            count += 1
            if count > limit:
                sys.setprofile(None)
                raise _Stop()

    sys.setprofile(hook)
    try:
        action()
    except _Stop:
        return None
    except Exception:
        pass  # whether it is accepted is the business of C01 and C18
    finally:
        sys.setprofile(None)
    return count


def nest(patterns, n, base):
    text = base
    for i in reversed(range(n)):
        text = patterns[i % len(patterns)].replace("{}", text)
    return text


def listed(family, n):
    head, item, sep = LISTS[family]
    closer = "".join(CLOSERS.get(c, "") for c in reversed(head)) if head.count("(") > head.count(")") or "[" in head else ""
    if head.startswith("select sum"):
        closer = ")"
    if head.startswith("select '"):
        closer = "'"
    tail = ""
    if head.startswith("select case"):
        tail = " end"
    if item in ("-", "not"):
        tail = " a"
    text = head + sep.join(item.format(i, i) for i in range(n)) + tail + closer
    if head == "with ":
        text += " select {} from {}".format(", ".join("c{0}.a{0}".format(i) for i in range(n)), ", ".join("c%d" % i for i in range(n)))
    elif " from " not in head:
        text += " from t"
    return text


def family(case, n):
    kind = case["kind"]
    if kind == "list":
        return listed(case["family"], n)
    if kind == "generated":
        return nest([case["pattern"]], n, "x")
    if kind == "expr":
        return case["place"].replace("{}", nest([EXPRESSIONS[i] for i in case["patterns"]], n, "x"))
    if kind == "query":
        return nest([QUERIES[i] for i in case["patterns"]], n, case.get("base", "select x from t"))
    raise AssertionError(kind)


BASES = ("select x from t", "select x, y as z, 'a' from (select x, y from t)", "select *")
PLACES = ("select {} from t", "select a from t where {}", "select a, {} from t join u on {}".replace("on {}", "on a = b"),
          "select a from t join u on {}", "select a from t group by {}", "select a from t order by {}, b",
          "select a from t having {}")  # fmt: skip


class Work(Leg):
    """Doubling the depth of a nest of constructs multiplies the number of function calls by a bounded factor."""

    name = "nesting"
    quick = 700
    thorough = 14000
    small, large = 8, 16
    factor = 12

    def gen(self, ch, tier):
        if ch.below(3):
            n = ch.weighted(((5, 1), (3, 2), (1, 3)))
            return {
                "kind": "expr",
                "place": ch.pick(PLACES),
                "patterns": [ch.below(len(EXPRESSIONS)) for _ in range(n)],
            }
        n = ch.weighted(((5, 1), (3, 2), (1, 3)))
        return {"kind": "query", "patterns": [ch.below(len(QUERIES)) for _ in range(n)], "base": ch.pick(BASES)}

    def labels(self, case):
        return (case["kind"], "%d constructs" % len(set(case["patterns"])))

    def sample(self, case):
        return family(case, 3)

    def check(self, case):
        for what, action in (
            ("formatting", lambda sql: sqlvalidator.format_sql(sql)),
            ("validating", lambda sql: sqlvalidator.parse(sql).is_valid()),
        ):
            few = calls(lambda: action(family(case, self.small)))
            if few is None:
                raise Violation("{} needs more than {} calls\n{}".format(what, LIMIT, family(case, self.small)))
            bound = self.factor * max(few, 500)
            many = calls(lambda: action(family(case, self.large)), bound)
            if many is None:
                raise Violation(
                    "{}: {} calls at size {}, more than {} times as many at size {}\n{}".format(
                        what, few, self.small, self.factor, self.large, family(case, self.small)
                    )
                )


class EveryNest(Work):
    """Each construct nested in itself, in each place."""

    name = "each-construct"

    def gen(self, ch, tier):
        raise AssertionError

    def exhaustive(self, tier):
        for i in range(len(EXPRESSIONS)):
            for place in PLACES:
                yield {"kind": "expr", "place": place, "patterns": [i]}
        for i in range(len(QUERIES)):
            for base in BASES:
                yield {"kind": "query", "patterns": [i], "base": base}


class GeneratedNest(Work):
    """A generated statement nested in itself, in the place of any of its names or literals."""

    name = "generated"
    quick = 250
    thorough = 6000

    def gen(self, ch, tier):
        g = sqlgen.Gen(ch, ch.between(1, 12))
        tokens = g.statement().tokens()
        places = [i for i, (kind, _) in enumerate(tokens) if kind not in ("kw", "op", "fn")]
        if not places:
            return None
        words = [t.replace("{", "[").replace("}", "]") if kind == "ph" else t.replace("{}", "") for kind, t in tokens]
        words[ch.pick(places)] = ch.pick(("({})", "({})", "(a and ({}))", "f(({}), b)"))
        return {"kind": "generated", "pattern": " ".join(words)}

    def labels(self, case):
        return (case["kind"],)

    def key(self, case):
        return case["pattern"]

    def check(self, case):
        self.observed = ["refused" if sut.try_fmt(family(case, 3))[0] == "raise" else "accepted"]
        super().check(case)


class EveryList(Work):
    """Each repeating construct."""

    name = "each-list"
    small, large = 20, 40
    factor = 10

    def exhaustive(self, tier):
        for i in range(len(LISTS)):
            yield {"kind": "list", "family": i}

    def labels(self, case):
        return ("list",)
