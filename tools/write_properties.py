"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os

F = "sqlvalidator/sql_formatter.py"
LX = "sqlvalidator/grammar/lexer.py"
TK = "sqlvalidator/grammar/tokeniser.py"
SQ = "sqlvalidator/grammar/sql.py"
SV = "sqlvalidator/sql_validator.py"
FH = "sqlvalidator/file_handler.py"
MN = "sqlvalidator/main.py"

SUPPORTED = (
    "every query of the supported SELECT grammar (select list with aliases, DISTINCT/ALL/DISTINCT ON, "
    "* EXCEPT/REPLACE, FROM tables/subqueries/joins/UNNEST/set operators, WHERE, GROUP BY, HAVING, ORDER BY, "
    "LIMIT, OFFSET, WITH, and every expression form the parser has a node for, nested to any depth)"
)


def p(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    return {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe or ["sqlvalidator.format_sql(sql)"],
            "hook_needed": None,
        },
    }


PROPS = [
    p(
        "C01",
        "Formatting preserves the query's token sequence",
        "For every query of the supported SELECT grammar, formatting returns a query with exactly the same sequence of "
        "SQL tokens: nothing is lost, invented, duplicated, reordered, merged or split. Only white space, the letter "
        "case of keywords, type names and function names, and a superfluous comma at the end of a list may "
        "differ.",
        ["inputs"],
        SUPPORTED + ", written with any white space and keyword case",
        "Tests compare some 200 fixed queries with fixed outputs; a loss of tokens shows only for particular nestings "
        "and combinations of clauses, operators and literals that no fixed list reaches.",
        [F, TK, LX, SQ],
        [
            ("to_tokens / merge_stream split the text into tokens", TK),
            ("recursive descent parsers hand token iterators and a look-ahead token to each other", LX),
            ("transform / __str__ of every node prints it back", SQ),
        ],
    ),
    p(
        "C02",
        "String literals, names, numbers and placeholders survive byte for byte",
        "Formatting reproduces each string literal (quotes, prefix, escapes and everything in between, including line "
        "breaks, brackets, commas and SQL keywords), quoted or bare identifier, number and placeholder exactly as "
        "written, in the same order. What a literal contains never influences how the rest of the query is formatted: "
        "replacing the content of a literal by other content of the same length, on one line, changes the output "
        "only inside that literal.",
        ["inputs"],
        "every supported query, with literal contents, identifiers, number spellings and placeholders drawn from "
        "adversarial alphabets (quotes of the other kinds, doubled quotes, backslashes, keywords, brackets, newlines)",
        "Tests use a handful of tame literals; the contents that confuse a splitter or a stop-word scan are "
        "combinations of content and position.",
        [TK, LX, SQ],
        [
            ("split_tokens / _split_on_string_token isolate literals", TK),
            ("StringParser, String, Integer, Float, Column keep the spelling", LX + ", " + SQ),
        ],
    ),
    p(
        "C03",
        "Formatting is idempotent",
        "Formatting a formatted query changes nothing: for every query of the supported SELECT grammar, the formatter "
        "accepts its own output and returns it unchanged.",
        ["inputs"],
        SUPPORTED,
        "No test feeds an output back; stability depends on every pair of nested node layouts and on the 88 column "
        "decisions.",
        [F, SQ, LX],
        [("layout decisions are functions of the parsed tree only", SQ)],
    ),
    p(
        "C04",
        "The output depends only on the tokens, not on the input's layout",
        "Two spellings of a supported query that differ only in white space between tokens (spaces, tabs, line breaks "
        "of any convention, none at all where tokens allow it) and in the letter case of keywords, type names and "
        "function names are both accepted and formatted to the same text. Two spellings of any other text are both "
        "refused or both formatted alike.",
        ["inputs"],
        SUPPORTED + " x pairs of layouts and keyword cases",
        "Each test fixes one spelling of its query; the case- and space-sensitive paths (a keyword compared without "
        "lower-casing, an operator recognised only with spaces around it) show on other spellings.",
        [TK, LX, SQ],
        [("lower() comparisons and white-space splitting", TK), ("keyword look-ups", LX)],
    ),
    p(
        "C05",
        "The output has the canonical layout",
        "Every supported query is formatted, and into the one canonical layout: each clause starts its own line, several "
        "items of a SELECT, GROUP BY or ORDER BY list stand one per line, nested queries and broken brackets are "
        "indented by one more space, boolean chains and argument lists stay on one line while they fit in 88 "
        "characters and are broken completely otherwise. There are no trailing or doubled spaces and no tabs outside "
        "literals.",
        ["inputs"],
        SUPPORTED,
        "Layout rules compose; tests pin single compositions and almost never the 88 column boundary or three levels "
        "of nesting.",
        [SQ],
        [
            ("transform methods of SelectStatement, Join, CombinedQueries, Case, FunctionCall, BooleanCondition", SQ),
            ("DEFAULT_LINE_LENGTH", SQ),
        ],
    ),
    p(
        "C06",
        "Keywords and functions are upper-cased, names never are",
        "Every supported query is formatted, and in the formatted text every keyword, operator word, type name and function name is in "
        "upper case, and every column, table and alias name keeps the letter case it was written with.",
        ["inputs"],
        SUPPORTED + " x letter case of every word",
        "Tests write keywords in one case at one position each.",
        [SQ, LX],
        [("upper() in the node printers", SQ), ("Column.KEYWORDS, Type.VALUES, DatePartExtraction.PARTS", SQ)],
    ),
    p(
        "C07",
        "Input outside the supported grammar is never silently truncated",
        "For any sequence of SQL tokens whatever, formatting either raises an exception or returns a text with the same "
        "tokens in the same order (up to keyword and function case and a superfluous comma at the end of a "
        "list). It never returns a text that lost, gained or changed some token, so an unsupported construct can not "
        "be deleted from a user's query.",
        ["inputs"],
        "token sequences obtained from random token soup, from supported queries by inserting, deleting, duplicating "
        "or swapping tokens, and from clauses the tool does not know",
        "Tests only contain supported syntax.",
        [LX, TK, SQ],
        [("every parser must consume or reject all of its tokens", LX)],
    ),
    p(
        "C08",
        "Work grows polynomially with the query",
        "Formatting and validating a query of n tokens takes a number of steps bounded by a low-degree polynomial of n: "
        "doubling the length of an AND/OR chain, an argument list, an arithmetic chain, a join list or a nesting "
        "depth multiplies the work by a bounded factor.",
        ["inputs"],
        "families of queries scaled by length and by nesting depth, for every repeating or nesting construct of the "
        "grammar",
        "Test queries are short; repeated re-formatting of sub-trees is invisible at their size and takes hours at "
        "30 conditions.",
        [SQ, LX],
        [("transform computes each child a bounded number of times", SQ)],
        observe=["number of function calls made by format_sql / is_valid (profile hook), not wall-clock time"],
    ),
    p(
        "C09",
        "Results do not depend on the history of calls",
        "On one parsed query object, format(), is_valid() and errors give the same answers in whatever order and "
        "however often they are called, and the same answers a fresh object gives; validity is exactly the absence of "
        "errors. Queries parsed or formatted before, in between or meanwhile in other threads (each with query objects of "
        "its own), including ones that raised, have no influence.",
        ["histories", "schedules"],
        "sequences of parse / format / is_valid / errors / format_sql calls over several query objects, and interleavings "
        "of such calls in several threads",
        "Tests call one method once on a fresh object.",
        [SV, F, SQ],
        [("lazy parsing, the validated flag and the errors list", SV)],
        observe=["sqlvalidator.parse(sql): format(), is_valid(), errors; sqlvalidator.format_sql(sql)"],
        state=[("SQLQuery._sql_query / validated / errors", "cached parse and verdict", SV)],
    ),
    p(
        "C10",
        "A column missing from the FROM sources is reported wherever it is used",
        "If all FROM sources in scope (those of a SELECT and of the queries around it) are subqueries with explicit "
        "column lists, then using, in that SELECT, the bare name of a column that none of them provides (or, with an "
        "alias, one that the subquery of that alias does not provide, or an alias that no source has) makes the query invalid with an error that "
        "names the column. This holds wherever the use is: in the select list, a join condition, WHERE, GROUP BY, "
        "HAVING or ORDER BY, at any depth inside an expression, and in nested subqueries. A column in USING must be "
        "provided by both sides of the join, each if it consists of such subqueries. Several missing columns are each reported.",
        ["inputs"],
        "queries over closed sources x every position at which a column can be used",
        "Tests use the missing column as a bare select item or bare condition operand; each expression form and clause "
        "has its own validation code.",
        [SQ, SV],
        [("validate(known_fields) of every node", SQ), ("known_fields of SelectStatement, Alias, Join", SQ)],
        observe=["sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C11",
        "Valid queries are never rejected",
        "A query that is valid SQL for some database schema (every used column may exist, LIMIT and OFFSET are non "
        "negative integers or placeholders, positions are in range, conditions are boolean, joins have their condition, "
        "and what it uses of a subquery is a column name or alias of that subquery's select list) is reported valid "
        "with no errors, whatever the number and kind of its subqueries, joins and aliases: validation is schemaless.",
        ["inputs"],
        "queries valid by construction, generated with scopes",
        "Tests have a dozen valid queries; false alarms appear for combinations of alias kinds, star expansion, join "
        "nesting and clause.",
        [SQ, SV],
        [("known_fields propagation", SQ), ("Column / ChainedColumns / GroupBy / OrderBy validation", SQ)],
        observe=["sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C12",
        "GROUP BY and ORDER BY positions are checked against the select list",
        "In GROUP BY and ORDER BY, an integer item (also negative, or in parentheses) that is not between 1 and the number of select "
        "items makes the query invalid with an error naming that position, for an explicit select list; integers in "
        "range never do. This holds for the outermost query and for each subquery, and for each of several such items.",
        ["inputs"],
        "select lists of any length x positions around its bounds x item forms and nesting",
        "Tests try one or two positions for one length.",
        [SQ],
        [("GroupByClause.validate / OrderByItem.validate", SQ)],
        observe=["sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C13",
        "LIMIT and OFFSET accept exactly non-negative integers",
        "A LIMIT or OFFSET whose argument is a negative number, a decimal number, a string, a column, an arithmetic "
        "expression, a function call or a list makes the query invalid; a non-negative integer of any size, also in "
        "parentheses, a placeholder and LIMIT ALL do not. This holds for the outermost query and for each subquery.",
        ["inputs"],
        "argument expressions x clause x nesting",
        "Tests try a few arguments at top level.",
        [SQ, LX],
        [("LimitClause.validate / OffsetClause.validate", SQ)],
        observe=["sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C14",
        "Non-boolean conditions are reported, boolean ones never",
        "WHERE, HAVING, and each operand of AND and OR must be boolean: an operand that is a number, a string or an "
        "arithmetic expression, or a column that a subquery in FROM defines directly as one of these, makes the query "
        "invalid with an error naming the construct and the type, each such operand its own. Comparisons, NOT, BETWEEN, IN, IS NULL, LIKE, boolean literals, AND/OR chains, "
        "function calls and columns of unknown type are accepted, in parentheses or not.",
        ["inputs"],
        "boolean expressions with one operand of known non-boolean type planted anywhere in the AND/OR structure",
        "Tests plant one literal at one place.",
        [SQ],
        [("return_type / resolve_return_type", SQ), ("WhereClause, HavingClause, BooleanCondition .validate", SQ)],
        observe=["sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C15",
        "Every join except CROSS and comma needs ON or USING",
        "A join of any kind other than CROSS JOIN or a comma that has neither ON nor USING makes the query invalid, "
        "wherever in a chain of joins, in parentheses or in a subquery it stands; joins with a condition, CROSS JOIN and "
        "comma joins do not.",
        ["inputs"],
        "join chains of any length and mix of kinds x the set of joins that lack their condition",
        "Tests have one join.",
        [SQ, LX],
        [("Join.validate", SQ), ("FromStatementParser join loop", LX)],
        observe=["sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C16",
        "Ambiguous columns are reported, qualified ones are not",
        "When all sources in scope are subqueries and two or more aliased ones, joined together without USING that "
        "column, provide a column of the same name, using that name without an alias makes the query invalid with an "
        "error that says it is ambiguous, in any clause and at any depth of an expression. Using it with its alias, or "
        "naming a column only one of them provides, does not. (A name the select list itself defines is that item where "
        "SQL lets it be.)",
        ["inputs"],
        "joins of closed subqueries with overlapping column lists x use positions",
        "Tests have one ambiguous select item and one GROUP BY.",
        [SQ],
        [("Column.validate / GroupByClause.validate ambiguity look-up", SQ)],
        observe=["sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C17",
        "The verdict depends on the query only, not on how it is written",
        "Validating a supported query, validating any re-spelling of it (white space, keyword case) and validating its "
        "formatted text give the same verdict and the same errors.",
        ["inputs"],
        "valid and invalid queries x layouts and keyword cases",
        "Tests validate one spelling.",
        [SQ, LX, TK],
        [("validate works on the parsed tree", SQ)],
        observe=["sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C18",
        "Validation always answers",
        "For every query of the supported SELECT grammar is_valid() returns a boolean and errors is a list of "
        "strings, empty exactly if the query is valid; neither raises. A statement that starts with another word than SELECT "
        "or WITH, or in which GROUP, ORDER or PARTITION lack their BY, BETWEEN its AND, CASE its END, NULLS its FIRST or "
        "LAST, an item of REPLACE its AS, or OVER or the EXCEPT or REPLACE of a star its bracket, or in which GROUP, ORDER, "
        "LIMIT or OFFSET is repeated, or ORDER BY, LIMIT or OFFSET stands before a set operator, or a parenthesis is not closed, is never reported valid.",
        ["inputs"],
        SUPPORTED,
        "Many node kinds have validation code only reached by particular nestings; the tests validate few node kinds.",
        [SQ, SV],
        [("validate / known_fields / return_type of every node", SQ)],
        observe=["sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C20",
        "--format changes nothing in a file but its SQL strings",
        "Formatting a Python file changes only string literals whose text starts with SELECT followed by something, and "
        "that are not part of an implicit concatenation: every other byte (code, comments, white space, indentation, "
        "line ends, other strings) stays as it was, and the file still compiles to the same program up to the values "
        "of those literals.",
        ["inputs"],
        "Python files of any layout with any number of SQL strings between any other tokens",
        "Tests have files of a few lines and compare with one expected text.",
        [FH],
        [("compute_file_content collects tokens and untokenizes them", FH), ("is_select_string", FH)],
        observe=["file content before and after `sqlvalidator --format FILE`"],
    ),
    p(
        "C21",
        "An embedded query is replaced by exactly its formatted text",
        "After --format, the value of each SQL string of a file is the formatted text of its previous value, surrounded "
        "by one line break on each side exactly if the literal is triple-quoted and the text has several lines or ends "
        "with the quote character. The string prefix and quote character are kept, and a single-quoted literal becomes "
        "triple-quoted exactly if the formatted text has several lines. Its line breaks are line breaks in the file.",
        ["inputs"],
        "SQL strings x prefixes x quote styles x contexts in the file",
        "Tests pin about ten combinations.",
        [FH, F],
        [("handle_sql_string", FH)],
        observe=["ast of the file before and after `sqlvalidator --format FILE`"],
    ),
    p(
        "C22",
        "--check-format never writes and predicts --format",
        "--check-format leaves every file untouched and exits 1 exactly if --format would change some file; the files it "
        "names as to be reformatted and the numbers it prints are those that --format on the same input then "
        "changes and prints.",
        ["inputs", "configurations"],
        "directory trees of Python files x flag combinations",
        "Tests exercise the computation on single in-memory files, never the command line on trees.",
        [FH, MN],
        [("handle_inputs / analyse_file", FH), ("argument parsing", MN)],
        observe=["exit code, standard output, file system before and after"],
    ),
    p(
        "C23",
        "--format converges in one run",
        "After one successful --format run, a second run on the same inputs reports that nothing was reformatted and "
        "changes no byte, --check-format exits 0, and the same files can be analysed as before.",
        ["histories", "inputs"],
        "directory trees x sequences of runs",
        "No test runs the tool twice.",
        [FH, SQ],
        [("fixed point of handle_sql_string", FH)],
        observe=["exit code, standard output, file system"],
    ),
    p(
        "C24",
        "nosqlformat and nosqlvalidation opt a string out, and only that string",
        "A SQL string whose next comment, with no other string in between, contains nosqlformat is never changed, "
        "counted or reported by formatting; if it contains nosqlvalidation the string is never counted or reported by "
        "validation. Each mark has only its own effect, and all other SQL strings of the file are treated as if there "
        "were no comments.",
        ["inputs"],
        "files mixing marked and unmarked strings, comments and other tokens in any order",
        "Tests have one string and one comment.",
        [FH],
        [("look-ahead for the next comment in compute_file_content", FH)],
        observe=["file content, counts"],
    ),
    p(
        "C25",
        "Every Python file given or found is processed exactly once",
        "Given any list of files and directories, each existing file that is named, and each .py file below a named "
        "directory, is analysed exactly once, however often and under however many overlapping inputs it is reached, "
        "and files that are not Python files are not touched unless named. The summary counts files and queries once.",
        ["inputs", "configurations"],
        "directory trees x lists of overlapping, repeated, relative and absolute inputs",
        "Tests do not cover the command line's input handling.",
        [FH],
        [("seen_files, analyse_dir, handle_one_input", FH)],
        observe=["exit code, standard output, file system"],
        state=[("InputSQLAnalyseInfo.seen_files", "absolute names already analysed", FH)],
    ),
    p(
        "C26",
        "One bad file neither stops the run nor is damaged",
        "A file that can not be analysed (not decodable, not Python, containing SQL that can not be parsed or is nested "
        "too deeply, or not readable, or that should be rewritten but can not be) is left byte for byte as it was and named in an error message, and every other "
        "file is treated exactly as if the bad one were not there. A name that the output's encoding can not show is "
        "no reason to stop either.",
        ["fault_sequences", "inputs"],
        "trees with faulty files of each kind at any place in the processing order",
        "No test has a faulty file.",
        [FH],
        [("exception handlers of analyse_dir and handle_one_input", FH)],
        observe=["exit code, standard output, file system"],
    ),
    p(
        "C27",
        "--validate reports exactly the invalid queries and never writes",
        "--validate counts exactly the SQL strings whose query is invalid and the files having one, exits 1 exactly if "
        "there is one, and changes no file; --verbose-validate also lists the line and the error messages of each. "
        "Validation and formatting flags given together each act as alone, and what is counted and the exit code do not "
        "depend on the encoding of the output.",
        ["inputs", "configurations"],
        "trees with valid and invalid queries x flag combinations",
        "Tests check counts for single in-memory files.",
        [FH, MN, SV],
        [("errors_locations and counts", FH), ("print_validation_summary", FH)],
        observe=["exit code, standard output, file system"],
    ),
    p(
        "C28",
        "A query means the same wherever it stands",
        "A supported query has the same layout (moved to the right), the same verdict and the same errors whether it is the "
        "whole statement, a subquery in FROM, a join, IN, EXISTS, a comparison, CASE, an argument, the select list or any other expression, a CTE, "
        "the main query of a WITH or a branch of a set operation, as long as its surroundings bring no columns into its "
        "scope; and a statement made of two such queries has the errors of both.",
        ["inputs"],
        "supported and faulty queries x surroundings, nested",
        "Each surrounding is a separate code path with its own layout and validation; tests pair few queries with few of them.",
        [SQ, LX, TK],
        [("transform(is_subquery), Parenthesis, Join.transform_element, WithStatement, combined queries", SQ),
         ("ExpressionListParser, FromStatementParser, split_on_set_operators", LX)],
        observe=["sqlvalidator.format_sql(sql)", "sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C29",
        "Names are only names",
        "Replacing the table, column and alias names of a supported query one-to-one by other names of the same length that are "
        "not reserved (though they may contain keywords) changes nothing but the names: the formatted text has the same "
        "layout, and the verdict and the error messages are the same up to the names. Likewise, other contents of its string literals leave the verdict and the errors as they are, up to these contents.",
        ["inputs"],
        "supported and faulty queries x renamings",
        "Tests use a handful of names; keyword tests by prefix, substring or letter case fail for particular names only.",
        [SQ, LX, TK],
        [("keyword comparisons of the parser", LX), ("Column and its keyword tables", SQ)],
        observe=["sqlvalidator.format_sql(sql)", "sqlvalidator.parse(sql).is_valid() / .errors"],
    ),
    p(
        "C30",
        "The command line means the same in any order and refuses what it does not know",
        "Flags act the same wherever they stand among the inputs and however often they are repeated. A command line without a "
        "flag, without an input, with contradictory flags (--format with --check-format, --validate with "
        "--verbose-validate) or with an unknown flag is refused with exit code 2 before anything is printed on standard output or written.",
        ["inputs", "configurations"],
        "trees x command lines: order, repetition, contradiction, unknown and missing parts",
        "Tests call the functions behind the command line, hardly ever the command line itself.",
        [MN, FH],
        [("_main, argument parser", MN), ("handle_inputs", FH)],
        observe=["exit code, standard output, file system"],
    ),
]

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in PROPS:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(PROPS))
