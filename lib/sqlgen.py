"""Generates queries of the supported grammar as sqlast trees, and spells them."""
from lib import sqlast as A
from lib.words import OTHER_WORDS

RESERVED = set(
    """select from where group having order limit offset with as on using join inner left right full cross outer each
    union intersect except all distinct and or not is like in contains between case when then else end null true false
    yes no over partition by rows range asc desc nulls filter ignore respect cast count array_agg unnest replace rollup
    first last unbounded preceding following current row timestamp_trunc exists
    int float day month timestamp int64 string date microsecond second minute hour week quarter year second_microsecond
    minute_microsecond minute_second hour_microsecond hour_second hour_minute day_microsecond day_second day_minute
    day_hour year_month dayofmonth dayofweek dayofyear _table_suffix _partitiondate nfc nfkc nfd nfkd monday tuesday
    wednesday thursday friday saturday sunday current_date current_time current_timestamp localtime localtimestamp
    current_user session_user""".split()
)
NAMES = (
    "a b c x y id col1 name user_id Amount fooBar ORDERS_2 is_active totalPrice e n r _private x1 Z selected fromage "
    "order_by group_id notes orders android casey ending island inner_id limits l_imit andy"
).split()
SOFT_NAMES = "date day year count first last timestamp month string row current".split()
TABLES = "t users Orders my_table db s1 T2 log_2020 schema_x".split()
FUNCTIONS = (
    "sum max min avg lower upper Coalesce if ifnull concat date_trunc safe_divide LENGTH to_char f my_func row_number "
    "rank date replace offset generate_series struct any_value nullif json_extract broadcast castle account countif "
    "array_agg_if unnested extract_all not_in trim selectivity"
).split()
TYPES = "int float timestamp int64 string date numeric bool varchar TEXT".split()
PARTS = (
    "microsecond second minute hour day week month quarter year second_microsecond minute_microsecond minute_second "
    "hour_microsecond hour_second hour_minute day_microsecond day_second day_minute day_hour year_month dayofmonth "
    "dayofweek dayofyear date"
).split()
WEEK_DAYS = "monday tuesday wednesday thursday friday saturday sunday".split()
NORMAL_FORMS = "nfc nfkc nfd nfkd".split()
ARITH = ("+", "-", "*", "/", "%", "||", "&", "|", "^", "#", "<<", ">>")
COMPARE = ("=", "<", ">", "<=", ">=", "!=", "<>", "like", "not like", "is", "is not", "in", "not in", "contains",
           "not contains")  # fmt: skip
JOINS = ("join", "inner join", "left join", "left outer join", "right join", "full join", "full outer join",
         "right outer join", "join each", "left join each", "inner join each")  # fmt: skip
SETOPS = ("union all", "union", "intersect", "except", "intersect all", "except all")
SELECT_SETOPS = SETOPS + ("union distinct", "intersect distinct", "except distinct")
FRAMES = (
    "rows unbounded preceding",
    "rows between unbounded preceding and current row",
    "range between current row and unbounded following",
    "rows between 3 preceding and 12 following",
    "rows current row",
    "rows between {n} preceding and current row",
    "rows between Width preceding and %(n)s following",
    "rows between :n preceding and unbounded following exclude current row",
    "rows ? preceding",
)
FUNCTION_PLACEHOLDERS = ("{}", "{fn}", "udf_{x}", "%(fn)s", "%s", "{f.name}")
PLACEHOLDERS = ("%s", "%(name)s", "{}", "{value}", "{a.b}", "{items[0]}", ":name", "@param", "?", "$1", "tbl_{x}",
                "{a}_{b}")  # fmt: skip
NUMBERS = "0 1 2 42 007 1000000 3.14 0.50 .5 10. 1e5 2.5E-3 1E+10".split()
LITERAL_PIECES = (
    "x", " ", "abc", "select", "FROM", " from ", "where", "and", " or ", "(", ")", "[", "]", ",", ";", ".", "''", '""',
    "``", "'", '"', "`", "\\'", '\\"', "\\\\", "\\n", "\n", "\n  ", "\t", "  ", "--", "/*", "*/", "%s", "{x}", "%(a)s",
    "=", "<", ">", "||", "<=", "as", "case", "END", "then", "-", "1e5", "é", "日本", "union all", "limit 1", "\r\n", "#",
    "null", "b'", "join", "ON", "unnest(", "in (", "))", "((", "\x0b", "\f", "\x1c", "\x85", "\u2028", "\xa0", "\u200b",
    "\U0001f600", "e\u0301", "\ufeff", "\x00", "\x7f", "\ue000", "\ud7ff", "\uffff", "\r", "\n\n", "ſ", "K", "İ",
)  # fmt: skip
WORD_CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"


class Gen:
    """typed: conditions are of boolean type (needed for validity); scopes are left to subclasses."""

    typed = False
    join_chance = 5
    using_chance = 25

    combine_chance = 10

    def __init__(self, ch, budget=30):
        self.ch = ch
        self.budget = budget
        self.depth = 0
        self.in_fn = 0
        self.in_on = 0
        self.big = self.deep = self.long = 0  # how many very long lists, deep nests and long words may come
        self.soft_in_fn = ch.below(5) == 0  # words of TIMESTAMP_TRUNC as names in functions; not both at once

    # -- words -------------------------------------------------------------------------------------------------------

    def oversize(self):
        """A few of the queries have something very large."""
        r = self.ch.below(40)
        self.big, self.deep, self.long = (r in (37, 39)) + (r == 39), int(r == 38), 2 * (r == 36)

    def many(self, n, most=100):
        if self.big and self.ch.below(4) == 3:
            self.big -= 1
            return self.ch.between(12, most)
        return n

    def bare_name(self, pool=NAMES):
        ch = self.ch
        if self.long and ch.below(6) == 5:
            self.long -= 1
            return ch.pick(pool) + "_" + ch.pick(("x", "Ab", "select", "_9")) * ch.between(10, 120)
        r = ch.below(20)
        if r < 16:
            return ch.pick(pool)
        if r == 16 and (self.soft_in_fn or not self.in_fn):
            return ch.pick(SOFT_NAMES)
        if r == 17:
            return ch.pick(("é", "naïve", "Größe", "名前", "_", "__x", "a1b2", "ı"))
        if r == 18 and ch.below(2):
            word = ch.pick(OTHER_WORDS)
            return ch.pick((word, word.upper(), word.title()))
        name = "".join(ch.pick(WORD_CHARS) for _ in range(ch.between(1, 9)))
        if r == 18:
            name += str(ch.below(100))
        if name.lower() in RESERVED or name.lower() in ("rb", "br"):
            return "x"
        return name

    def name(self, pool=NAMES):
        """A bare or quoted name."""
        if self.ch.chance(8):
            return A.Tok("q", self.quoted('"`'))
        return A.Tok("id", self.bare_name(pool))

    def quoted(self, quotes):
        quote = self.ch.pick(quotes)
        body = self.ch.pick(("x", "my col", "Select", "a.b", "a-b", "from", "(", "a,b", "a'b", " "))
        return quote + body + quote

    def literal(self):
        ch = self.ch
        quote = ch.weighted(((8, "'"), (2, '"')))
        prefix = "" if ch.below(10) < 9 else ch.pick(("r", "b", "R", "e", "N", "x", "rb", "Br"))
        body = ""
        for _ in range(ch.below(6)):
            piece = ch.pick(LITERAL_PIECES)
            if piece in ("b'", "'", '"', "`", "''", '""', "``") and quote in piece:
                piece = quote * 2
            body += piece
        if ch.chance(3):
            body += "long text " * ch.between(3, 9)
        if self.long and ch.below(3) == 2:
            self.long -= 1
            body = ch.pick(("x", "long text ", "(", ", ", "\n", " and ")) * ch.between(50, 1500) + body
        return A.Tok("q", prefix + quote + body + quote)

    def number(self):
        if self.long and self.ch.below(3) == 2:
            self.long -= 1
            digits = self.ch.pick(("1", "90", "123")) * self.ch.between(10, 100)
            return A.Tok("num", digits + self.ch.pick(("", "", ".5", "." + digits)))
        if self.ch.chance(60):
            return A.Tok("num", str(self.ch.below(100)))
        return A.Tok("num", self.ch.pick(NUMBERS))

    # -- expressions -------------------------------------------------------------------------------------------------

    def spend(self):
        self.budget -= 1
        return self.budget > 0 and self.depth < 9

    def column(self, want="any"):
        ch = self.ch
        r = ch.below(10)
        if r < 7:
            return A.Tok("id", self.bare_name())
        if r < 9:
            return A.Chain([self.name(TABLES), self.name()])
        return A.Chain([self.name(TABLES), self.name(), self.name()])

    def expr(self, want="any"):
        """What ExpressionParser accepts without alias."""
        self.depth += 1
        try:
            ch = self.ch
            if not self.spend():
                return self.atom(want)
            if want == "any":
                kind = ch.weighted(((12, "operands"), (3, "pred"), (2, "bool")))
            else:
                kind = ch.weighted(((2, "operands"), (10, "pred"), (5, "bool")))
            if kind == "operands":
                return self.operands(want)
            if kind == "pred":
                return self.predicate()
            return self.bool_chain()
        finally:
            self.depth -= 1

    def bool_want(self):
        return "bool" if self.typed or self.ch.chance(85) else "any"

    def bool_chain(self, most=5):
        ch = self.ch
        items = []
        n = self.many(ch.between(2, most) if ch.below(8) < 7 else ch.between(2, 9))
        for i in range(n):
            items.append((ch.pick(("and", "or")) if i else "", self.bool_item()))
        return A.Bool(items)

    def bool_item(self):
        want = self.bool_want()
        if not self.spend():
            return self.atom(want)
        if want == "bool" and self.ch.below(10) < 7:
            return self.predicate()
        return self.operands(want)

    def predicate(self):
        ch = self.ch
        self.depth += 1
        try:
            if not self.spend():
                return A.Cond(self.atom(), "=", self.atom())
            kind = ch.weighted(((10, "cond"), (3, "null"), (3, "in"), (3, "between"), (2, "not")))
            if kind == "not":
                arg = self.operands("bool" if self.typed else "any")
                if ch.chance(25) and not self.typed:
                    return A.Cond(A.Neg(arg), ch.pick(COMPARE[:7]), self.operands())
                return A.Neg(arg)
            left = self.operands()
            if kind == "null":
                right = A.Tok("kw", ch.pick(("null", "null", "true", "false")))
                return A.Cond(left, ch.pick(("is", "is not")), right)
            if kind == "in":
                right = self.in_list()
                return A.Cond(left, ch.pick(("in", "not in")), right)
            if kind == "between":
                op = ch.pick(("between", "not between"))
                return A.Between(left, op, self.operands(), self.operands())
            op = ch.pick(COMPARE)
            return A.Cond(left, op, self.operands())
        finally:
            self.depth -= 1

    def in_list(self):
        ch = self.ch
        if ch.chance(25) and self.spend():
            return A.Paren([self.nested_query(1)])
        if ch.chance(10):
            return A.Fn("unnest", [self.column()])
        return A.Paren([self.atom_simple() for _ in range(self.many(ch.between(1, 4)))])

    def operands(self, want="any"):
        ch = self.ch
        self.depth += 1
        try:
            if want == "bool":
                return self.atom("bool")
            n = ch.weighted(((12, 1), (4, 2), (2, 3), (1, 5)))
            if not self.spend():
                n = 1
            if n > 1:
                n = self.many(n)
            items = []
            for i in range(n):
                op = ch.pick(ARITH) if i else ""
                signs = []
                if ch.chance(5):
                    signs.append(ch.pick(("-", "-", "+")))
                    if ch.chance(10):
                        signs.append(ch.pick("-+"))
                items.append((op, signs, self.atom(last=i == n - 1)))
            if n == 1 and not items[0][1]:
                return items[0][2]
            return A.Operands(items)
        finally:
            self.depth -= 1

    def atom_simple(self):
        kind = self.ch.below(10)
        if kind < 4:
            return self.number()
        if kind < 7:
            return self.literal()
        return self.column()

    def atom(self, want="any", last=False):
        """last: nothing of an arithmetic chain follows"""
        ch = self.ch
        if self.deep and ch.below(6) == 5:
            return self.deep_atom(want, last)
        self.depth += 1
        try:
            if not self.spend():
                return self.column(want)
            if want == "bool":
                kind = ch.weighted(
                    ((6, "column"), (3, "true"), (4, "paren"), (4, "fn"), (2, "not"), (2, "case"), (2, "exists"))
                )
            else:
                kind = ch.weighted(
                    (
                        (16, "column"), (8, "number"), (6, "literal"), (5, "paren"), (10, "fn"), (2, "true"),
                        (4, "case"), (3, "cast"), (3, "count"), (2, "array_agg"), (2, "extract"), (3, "index"),
                        (2, "array"), (2, "null"), (3, "placeholder"), (2, "scalar"), (2, "over"), (1, "filter"),
                        (1, "tuple"), (1, "trunc"), (1, "chainfn"), (1, "exists"), (1, "fnindex"), (1, "constant"),
                    )  # fmt: skip
                )
            return getattr(self, "atom_" + kind)(want, last)
        finally:
            self.depth -= 1

    def deep_atom(self, want, last):
        ch = self.ch
        self.deep = 0
        n = ch.between(8, 32)
        kinds = ch.pick((("paren",), ("fn",), ("fn", "paren"), ("array", "case", "select", "tuple", "fn", "paren")))
        if want == "bool":
            kinds = ("paren",)
        elif self.typed:
            kinds = [k for k in kinds if k in ("paren", "fn")]
        self.in_fn += 1
        in_on, self.in_on = self.in_on, 0
        try:
            node = self.atom(want)
            for _ in range(n):
                node = self.wrap(ch.pick(kinds), node)
            return node
        finally:
            self.in_fn -= 1
            self.in_on = in_on

    def wrap(self, kind, node):
        if kind == "paren":
            return A.Paren([node])
        if kind == "array":
            return A.Arr([node])
        other = A.Tok("id", self.ch.pick(NAMES)) if not self.typed else A.Tok("num", "1")
        if kind == "fn":
            return A.Fn(self.ch.pick(("f", "coalesce", "abs")), [other, node] if self.ch.below(4) == 3 else [node])
        if kind == "tuple":
            return A.Paren([node, other])
        if kind == "case":
            whens = [(other, node)] if self.ch.below(2) else [(node, other)]
            return A.Case(None, whens, node if self.ch.below(3) == 2 and len(node.tokens()) < 12 else None)
        select = A.Select([node])
        select.source = A.Tok("id", "t")
        return A.Paren([select])

    def atom_column(self, want, last):
        return self.column(want)

    def atom_number(self, want, last):
        return self.number()

    def atom_literal(self, want, last):
        return self.literal()

    def atom_true(self, want, last):
        return A.Tok("kw", self.ch.pick(("true", "false", "true", "false", "yes", "no")))

    def atom_null(self, want, last):
        return A.Tok("kw", "null")

    def atom_placeholder(self, want, last):
        return A.Tok("ph", self.ch.pick(PLACEHOLDERS))

    def atom_constant(self, want, last):
        """Words that are written like names but upper-cased."""
        ch = self.ch
        kind = ch.below(4)
        if kind == 0:
            return A.Fn("normalize", [self.column(), A.Tok("kw", ch.pick(NORMAL_FORMS))])
        if kind == 1 and not self.typed:
            return A.Tok("kw", ch.pick(("_table_suffix", "_partitiondate")))
        week = A.Fn("week", [A.Tok("kw", ch.pick(WEEK_DAYS))])
        return A.Fn(ch.pick(("date_trunc", "date_diff")), [self.column(), week])

    def atom_paren(self, want, last):
        in_on, self.in_on = self.in_on, 0
        try:
            return A.Paren([self.expr(want)], self.ch.chance(2))
        finally:
            self.in_on = in_on

    def atom_tuple(self, want, last):
        return A.Paren([self.expr() for _ in range(self.many(self.ch.between(2, 3)))])

    def atom_scalar(self, want, last):
        return A.Paren([self.nested_query(1)])

    def atom_exists(self, want, last):
        return A.Fn("exists", [self.nested_query(1)])

    def atom_not(self, want, last):
        return A.Neg(self.atom("bool", last))

    def function_name(self):
        if self.ch.below(40) == 0:
            return self.ch.pick(FUNCTION_PLACEHOLDERS)
        name = self.ch.pick(FUNCTIONS) if self.ch.below(8) else self.ch.pick(OTHER_WORDS)
        if self.in_on and name == "replace":
            return "f"
        if name == "offset":
            return "f"
        return name

    def fn_args(self, most=4):
        ch = self.ch
        self.in_fn += 1
        in_on, self.in_on = self.in_on, 0
        try:
            n = self.many(ch.between(0, most) if ch.below(10) < 9 else ch.between(5, 12))
            return [self.expr() for _ in range(n)]
        finally:
            self.in_fn -= 1
            self.in_on = in_on

    def atom_fn(self, want, last):
        args = self.fn_args()
        distinct = bool(args) and self.ch.chance(5)
        return A.Fn(self.function_name(), args, distinct, bool(args) and self.ch.chance(2))

    def atom_chainfn(self, want, last):
        return A.Chain([A.Tok("id", self.ch.pick(("safe", "net", "Lib")))] + [A.Fn("my_func", self.fn_args(2))])

    def atom_trunc(self, want, last):
        if self.soft_in_fn:
            return self.atom_fn(want, last)
        trunc = A.Fn("timestamp_trunc", [self.trunc_column(), A.Tok("ty", self.ch.pick(("day", "month", "DAY")))])
        return A.Fn(self.ch.pick(("date", "f", "max")), [trunc])

    def trunc_column(self):
        return A.Tok("id", self.ch.pick(("x", "created_at")))

    def atom_case(self, want, last):
        ch = self.ch
        value = self.operands() if ch.chance(30) else None
        whens = [
            (self.expr("any" if value or not self.typed else "bool"), self.expr())
            for _ in range(self.many(ch.weighted(((6, 1), (4, 2), (1, 4)))))
        ]
        default = self.expr() if ch.chance(60) else None
        return A.Case(value, whens, default)

    def atom_cast(self, want, last):
        return A.Cast(self.operands(), self.ch.pick(TYPES if self.ch.below(12) else FUNCTION_PLACEHOLDERS))

    def atom_count(self, want, last):
        ch = self.ch
        if ch.chance(40):
            return A.Count([A.Tok("op", "*")])
        self.in_fn += 1
        try:
            args = [self.expr() for _ in range(self.many(ch.weighted(((8, 1), (1, 2)))))]
        finally:
            self.in_fn -= 1
        return A.Count(args, ch.chance(40))

    def order_items(self, most=3):
        return [self.order_item() for _ in range(self.many(self.ch.between(1, most)))]

    def order_item(self):
        ch = self.ch
        return A.OrderItem(
            self.order_key(),
            ch.weighted(((5, ""), (2, "asc"), (3, "desc"))),
            ch.weighted(((8, ""), (1, "first"), (1, "last"))),
        )

    def order_key(self):
        return self.operands()

    def atom_array_agg(self, want, last):
        ch = self.ch
        self.in_fn += 1
        try:
            return A.ArrayAgg(
                self.expr(),
                ch.chance(30),
                ch.weighted(((6, ""), (2, "ignore"), (2, "respect"))),
                [A.OrderItem(self.operands(), ch.pick(("", "asc", "desc"))) for _ in range(self.many(ch.between(1, 2)))]
                if ch.chance(40)
                else None,
                str(ch.below(20)) if ch.chance(30) else None,
            )
        finally:
            self.in_fn -= 1

    def atom_extract(self, want, last):
        part = self.ch.pick(PARTS)
        self.in_fn += 1
        try:
            return A.Fn("extract", [A.PartFrom(part, self.expr())])
        finally:
            self.in_fn -= 1

    def index_items(self):
        ch = self.ch
        if ch.chance(50):
            return [A.Fn(ch.pick(("offset", "ordinal", "safe_offset")), [A.Tok("num", str(ch.below(5)))])]
        return [self.operands() for _ in range(self.many(ch.weighted(((6, 1), (1, 2)))))]

    def index_base(self):
        return A.Tok("id", self.bare_name())

    def atom_index(self, want, last):
        base = self.index_base()
        node = A.Index(base, self.index_items())
        if last and self.ch.chance(15):
            node = A.Index(node, self.index_items())
        return node

    def atom_fnindex(self, want, last):
        if not last:
            return self.atom_index(want, last)
        return A.Index(A.Fn(self.function_name(), self.fn_args(2)), self.index_items())

    def atom_array(self, want, last):
        return A.Arr([self.expr() for _ in range(self.many(self.ch.between(1, 4)))])

    def aggregate(self):
        ch = self.ch
        if ch.chance(30):
            return self.atom_count("any", False)
        self.in_fn += 1
        try:
            return A.Fn(ch.pick(("sum", "max", "row_number", "lag")), [self.expr() for _ in range(ch.below(3))])
        finally:
            self.in_fn -= 1

    def atom_filter(self, want, last):
        return A.Filtered(self.aggregate(), self.expr("bool"))

    def atom_over(self, want, last):
        ch = self.ch
        fn = self.aggregate()
        if ch.chance(10):
            fn = A.Filtered(fn, self.expr("bool"))
        partition = [self.operands() for _ in range(self.many(ch.between(1, 3)))] if ch.chance(60) else None
        order = [A.OrderItem(self.operands(), ch.pick(("", "asc", "desc")), ch.pick(("", "", "", "last")))
                 for _ in range(self.many(ch.between(1, 2)))] if ch.chance(60) else None  # fmt: skip
        frame = A.Frame(ch.pick(FRAMES)) if ch.chance(30) else None
        return A.Over(fn, partition, order, frame)

    # -- sources -----------------------------------------------------------------------------------------------------

    def table(self):
        ch = self.ch
        r = ch.below(12)
        if r < 7:
            return A.Tok("id", self.bare_name(TABLES))
        if r < 9:
            return A.Chain([A.Tok("id", self.bare_name(TABLES)) for _ in range(self.many(ch.between(2, 3)))])
        if r == 9:
            return A.Tok("q", self.quoted("`\""))
        if r == 10:
            return A.Chain([A.Tok("q", self.quoted("`\"")), self.name(TABLES)])
        return A.Tok("ph", ch.pick(("tbl_{x}", "{table}", "%s", "%(t)s")))

    def alias(self, node, percent=60):
        if self.ch.chance(percent):
            return A.Aliased(node, self.ch.chance(50), self.alias_name())
        return node

    def alias_name(self):
        return self.name(("t", "u", "s", "T1", "sub", "x", "b", "r"))

    def source(self, joins=True):
        ch = self.ch
        self.depth += 1
        try:
            kind = ch.weighted(((10, "one"), (self.join_chance, "join"), (1, "setop")))
            if kind == "one" or not joins or not self.spend():
                return self.simple_source()
            if kind == "setop":
                return self.set_operation()
            first = self.simple_source()
            items = []
            for _ in range(self.many(ch.weighted(((6, 1), (3, 2), (1, 4))), 30)):
                items.append(self.join_item(first, items))
            return A.Join(first, items)
        finally:
            self.depth -= 1

    def join_item(self, first, items):
        ch = self.ch
        words = ch.weighted(((7, None), (2, "cross join"), (2, ",")))
        node = self.join_source(first, items)
        if words:
            return (words, node, "", None)
        words = ch.pick(JOINS)
        if ch.chance(self.using_chance):
            cols = self.using_columns(first, items, node)
            if cols:
                return (words, node, "using", A.Paren(cols))
        self.in_on += 1
        try:
            cond = self.on_condition(first, items, node)
        finally:
            self.in_on -= 1
        return (words, node, "on", cond)

    def join_source(self, first, items):
        return self.simple_source()

    def using_columns(self, first, items, node):
        return [A.Tok("id", self.bare_name()) for _ in range(self.many(self.ch.between(1, 3)))]

    def on_condition(self, first, items, node):
        return self.expr("bool")

    def set_operation(self):
        ch = self.ch
        items = []
        for i in range(self.many(ch.between(2, 4), 30)):
            op = ch.pick(SETOPS) if i else ""
            if ch.chance(25):
                items.append((op, A.Tok("id", self.bare_name(TABLES))))
            else:
                items.append((op, self.alias(A.FromParen(self.subselect()), 20)))
        return A.SetOp(items)

    def simple_source(self):
        ch = self.ch
        if self.deep and ch.below(3) == 2:
            self.deep = 0
            node = self.table()
            for _ in range(ch.between(5, 25)):
                select = A.Select([A.Tok("op", "*")])
                select.source = node
                node = self.alias(A.FromParen(select), 30)
            return node
        kind = ch.weighted(((12, "table"), (6, "select"), (1, "with"), (1, "paren"), (1, "unnest"), (1, "brackets")))
        if kind == "table" or not self.spend():
            return self.alias(self.table(), 40)
        if kind == "select":
            node = A.FromParen(self.subselect())
            while ch.below(8) == 7:
                node = A.FromParen(node)
            return self.alias(node)
        if kind == "with":
            return self.alias(A.FromParen(self.with_statement()))
        if kind == "paren":
            return self.alias(A.FromParen(self.source()), 50)
        if kind == "brackets":
            parts = [A.Tok("id", p) for p in self.ch.pick((("proj:data", "tbl"), ("Data", "tbl"), ("data", "Tbl"), ("P:d", "t_1")))]
            table = A.Chain(parts) if self.ch.below(2) else self.table()
            return self.alias(A.Brackets(table), 50)
        return self.unnest()

    def unnest(self):
        ch = self.ch
        alias = (ch.chance(50), self.name(("u", "El", "x"))) if ch.chance(60) else None
        offset = None
        if ch.chance(40):
            offset = (ch.chance(50), A.Tok("id", self.bare_name(("off", "Pos", "p")))) if ch.chance(60) else (False, None)
        return A.Unnest([self.operands()], alias, offset)

    # -- statements --------------------------------------------------------------------------------------------------

    def nested_query(self, columns=None):
        if self.ch.chance(8) and self.spend():
            return self.with_statement(columns)
        return self.subselect(columns)

    def subselect(self, columns=None):
        return self.select(columns)

    def select_item(self):
        ch = self.ch
        r = ch.below(20)
        if r == 0:
            return self.column()
        if r == 19:
            return self.star()
        node = self.expr()
        if ch.chance(40):
            return self.select_alias(node)
        return node

    def select_alias(self, node):
        ch = self.ch
        with_as = ch.chance(65)
        name = self.name()
        if name.kind == "q" and not with_as and node.tokens()[-1][0] == "q":
            # not after a literal
            name = A.Tok("id", self.bare_name())
        return A.Aliased(node, with_as, name)

    def star(self):
        ch = self.ch
        star = A.Tok("op", "*")
        if ch.chance(30):
            star = A.Chain([A.Tok("id", self.bare_name(TABLES)), star])
        if ch.chance(25):
            star = A.StarBut(star, "except", [A.Tok("id", self.bare_name()) for _ in range(self.many(ch.between(1, 3)))])
        if ch.chance(20):
            star = A.StarBut(
                star,
                "replace",
                [A.Aliased(self.column(), True, A.Tok("id", self.bare_name())) for _ in range(self.many(ch.between(1, 2)))],
            )
        return star

    def select(self, columns=None, branch=False):
        """branch: what follows a set operator"""
        ch = self.ch
        self.depth += 1
        in_on, self.in_on, in_fn, self.in_fn = self.in_on, 0, self.in_fn, 0
        try:
            n = columns or self.many(ch.weighted(((5, 1), (5, 2), (3, 3), (1, 6))))
            node = A.Select([])
            if ch.chance(90) or not self.spend():
                node.source = self.source() if self.spend() else self.table()
            self.enter(node)
            node.quantifier = ch.weighted(((16, ""), (2, "distinct"), (1, "all"), (1, "distinct on")))
            if node.quantifier == "distinct on":
                node.quantifier = "distinct"
                node.distinct_on = [self.operands() for _ in range(self.many(ch.between(1, 2)))]
            node.items = [self.select_item() for _ in range(n)]
            node.trailing = ch.chance(3)
            if ch.chance(45):
                node.where = self.expr("bool" if self.typed or ch.chance(90) else "any")
            if ch.chance(20):
                node.each = ch.chance(5)
                if ch.chance(10):
                    node.rollup = True
                    node.group = [A.Paren([self.group_key() for _ in range(self.many(ch.between(1, 3)))])]
                else:
                    node.group = [self.group_key() for _ in range(self.many(ch.weighted(((5, 1), (3, 2), (1, 4)))))]
            if ch.chance(12):
                node.having = self.having()
            if branch:
                self.leave(node)
                return node
            if ch.chance(self.combine_chance) and self.spend():
                for _ in range(self.many(ch.weighted(((6, 1), (3, 2), (1, 3))), 30)):
                    node.combined.append((ch.pick(SELECT_SETOPS), self.branch(node)))
            if ch.chance(25):
                node.order = self.order_items()
            if ch.chance(20):
                node.limit = self.limit()
            if ch.chance(10):
                node.offset = self.offset()
            self.leave(node)
            return node
        finally:
            self.depth -= 1
            self.in_on, self.in_fn = in_on, in_fn

    def branch(self, node):
        return self.select(len(node.items), branch=True)

    def enter(self, node):
        pass

    def leave(self, node):
        pass

    def having(self):
        return self.expr("bool" if self.typed or self.ch.chance(90) else "any")

    def group_key(self):
        return self.operands()

    def limit(self):
        ch = self.ch
        if ch.chance(10):
            return A.Tok("kw", "all")
        if ch.chance(10):
            return A.Paren([A.Tok("num", str(ch.below(50)))])
        if not self.typed and ch.chance(10):
            return self.operands()
        return A.Tok("num", str(ch.below(1000)))

    def offset(self):
        if not self.typed and self.ch.chance(10):
            return self.operands()
        return A.Tok("num", str(self.ch.below(1000)))

    def with_statement(self, columns=None):
        ch = self.ch
        items = []
        for _ in range(self.many(ch.weighted(((6, 1), (3, 2), (1, 3))), 30)):
            body = self.with_statement() if ch.chance(5) and self.spend() else self.subselect()
            items.append((self.bare_name(("cte", "w1", "Tmp", "x")), body))
        return A.With(items, self.subselect(columns))

    def statement(self):
        ch = self.ch
        node = self.with_statement() if ch.chance(12) else self.select()
        last = node.select if isinstance(node, A.With) else node
        last.semicolon = ch.chance(15)
        return node


# -- spelling --------------------------------------------------------------------------------------------------------

SPACES = (" ", " ", " ", " ", "\n", "  ", "\t", "\n  ", "\r\n", " \n\n ", "\f", "\v")
PREFIXES = ("b", "e", "n", "r", "x", "rb", "br")
SPACED = ("%", "&", "|", "^", "#")
WORDY = ("kw", "fn", "ty", "id", "num", "ph")


def needs_space(left, right):
    """Two adjacent tokens that would be split differently without white space in between."""
    (lk, lt), (rk, rt) = left, right
    lw, rw = lk in WORDY, rk in WORDY
    if lw and rw:
        return True
    if lt in SPACED or rt in SPACED:
        return True
    if lk == "q" and rk == "q":
        return True
    if lw and rk == "q":
        return lt.lower() in PREFIXES or rt[0] not in "'\"`"
    if lk == "q" and rw:
        return False
    if lk == "ph" and rt == "(" and lt[-1] == "}":
        return False
    if lk == "ph" and rt in "[.(" or lk == "num" and rt in ".":
        return True
    if lt == "." and rk == "num" or lt == "." and rt[:1].isdigit():
        return True
    if lk == "op" and rk == "op":
        joined = lt + rt
        return any(m in joined for m in ("--", "/*", "*/", "<>", "<=", ">=", "<<", ">>", "||", "!="))
    if lt in "+-" and lk == "op" and rk == "num":
        return False
    if lk == "num" and rt in "+-" and lt[-1] in "eE":
        return True
    if rk == "num" and rt[0] == "." and (lw or lt == "."):
        return True
    if lk == "ph" or rk == "ph":
        return lt == "%" or lw or rw and lw
    return False


def recase(ch, word):
    r = ch.below(4)
    if r == 0:
        return word
    if r == 1:
        return word.upper()
    if r == 2:
        return word.lower()
    return "".join(c.upper() if ch.below(2) else c.lower() for c in word)


def spell(ch, tokens, style=None):
    """Source text for the tokens: random case of keywords and random white space.

    style: 'plain' one space everywhere it is allowed, else drawn."""
    style = style or ch.weighted(((3, "plain"), (3, "wild"), (2, "tight"), (1, "lines")))
    fixed_case = ch.pick((None, str.lower, str.upper)) if style != "wild" else None
    out = []
    prev = None
    for kind, text in tokens:
        tok = (kind, text)
        if kind in ("kw", "fn", "ty"):
            text = fixed_case(text) if fixed_case and text.isascii() else recase(ch, text)
        if prev is not None:
            must = needs_space(prev, tok)
            if style == "tight":
                space = " " if must else ""
            elif style == "plain":
                space = " "
                if not must and (tok[1] in (",", ")", ".", "]", ";") or prev[1] in ("(", ".", "[")):
                    space = ""
                elif not must and tok[1] in ("(", "[") and prev[0] in ("fn", "id"):
                    space = ""
            elif style == "lines":
                space = "\n"
            else:
                space = ch.pick(SPACES) if must or ch.below(3) == 0 else ""
        else:
            space = ""
        out.append(space)
        out.append(text)
        prev = tok
    text = "".join(out)
    if style == "wild":
        text = ch.pick(("", "", " ", "\n", "\t")) + text + ch.pick(("", "", " ", "\n", " \n "))
    return text


def expected_tokens(tokens):
    return [t for t in tokens if t[0] != "tc"]
