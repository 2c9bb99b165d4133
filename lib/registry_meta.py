"""What the evidence and the manifest say about each check."""

QUERY = (
    "Statements are drawn as syntax trees of the supported grammar (choice sequences, VERIF_SEED) and spelled with "
    "varied white space and letter case; "
)
SCOPED = (
    "Statements are drawn together with their scopes (which source provides which column with which type) by a "
    "generator that models SQL's name resolution independently of the code under test; "
)
FILES = (
    "Python files and directory trees are generated in a scratch directory from token sequences with SQL strings at "
    "known places, some with names that the output's encoding (UTF-8, ASCII or cp1252) can not show, and the command line is "
    "run on them in-process; "
)
GRAMMAR = "the generator covers the supported grammar as DESIGN.md describes it; nothing is said about other syntax"
MODEL = "the scope model of lib/scopegen.py is right; its limits are in DESIGN.md"
PLATFORM = "Python 3.12, where f-strings are no plain string tokens and so are never processed"

META = {
    "C01": {
        "rule": QUERY + "the tokens of the output, read by an independent lexer, must be those of the tree. Non-trivial: 12 "
        "tokens or more, distinct by spelling. Plus every query of the repository's tests and README.",
        "assumptions": [GRAMMAR],
    },
    "C02": {
        "rule": QUERY + "literals, names, numbers and placeholders come from adversarial alphabets; the same bytes must come "
        "out, and replacing a literal's content must change only that. Non-trivial: holds a literal, a quoted name, a "
        "placeholder or an unusual number.",
        "assumptions": [GRAMMAR],
    },
    "C03": {
        "rule": QUERY + "format(format(q)) must be format(q). Non-trivial: 12 tokens or more. Plus the tests' queries, "
        "and whatever is accepted of the token sequences of C07.",
        "assumptions": [GRAMMAR],
    },
    "C04": {
        "rule": QUERY + "two spellings of one tree must be formatted to one text. Non-trivial: the spellings differ and have 12 "
        "tokens or more. Plus re-spellings of the tests' queries, and of the token sequences of C07.",
        "assumptions": [GRAMMAR],
    },
    "C05": {
        "rule": QUERY + "the output must be byte for byte what an independent pretty-printer makes of the tree; a second leg aims "
        "at the 88 column limit. Non-trivial: 12 tokens or more.",
        "assumptions": [GRAMMAR, "the pretty-printer of lib/sqlast.py is the canonical layout (it was written from the tests)"],
    },
    "C06": {
        "rule": QUERY + "each word of the output must have the letter case that its kind in the tree asks for. Non-trivial: 12 "
        "tokens or more.",
        "assumptions": [GRAMMAR],
    },
    "C07": {
        "rule": "Random token sequences, and supported queries mutated by deleting, doubling, swapping, inserting tokens and "
        "unknown clauses; formatting must raise or keep the tokens. Non-trivial: 6 words or more; the labels count how "
        "many were accepted.",
        "assumptions": ["a token sequence is compared up to letter case and superfluous commas at the end of a list"],
    },
    "C08": {
        "rule": "Each nesting and each repeating construct, random mixtures of up to three, and generated statements nested in "
        "themselves in the place of any of their names or literals, at size n and 2n; function calls "
        "are counted (no clock), and may grow 12-fold (10-fold for lists) at most. All cases are non-trivial.",
        "assumptions": ["doubling from 8 to 16 levels, or 20 to 40 items, shows a super-polynomial growth"],
    },
    "C09": {
        "rule": "Histories of parse, format, is_valid, errors and format_sql over up to four queries (valid, invalid, unsupported); "
        "each answer must be that of a process that was never asked before. Second leg: calls in two or three threads that a "
        "schedule interleaves line by line (deterministic: the schedule is part of the case). Third leg: processes with other "
        "hash seeds give the same answers. Non-trivial: 4 different operations or more; two different queries or more; two "
        "SELECTs or more.",
        "assumptions": ["a forked process that only imported the package stands for a fresh one"],
    },
    "C10": {
        "rule": SCOPED + "one column use (in a quarter of the cases two to four) is given a name no source in scope provides, or becomes the last of many parts of an expression; an error must name it. Second leg: the "
        "alias of a column or star becomes one that no source has. Third leg: a column of a USING is given a name one side of the "
        "join does not provide. Non-trivial: 40 characters or more; the "
        "labels count the clauses used.",
        "assumptions": [GRAMMAR, MODEL],
    },
    "C11": {
        "rule": SCOPED + "it must be reported valid. Non-trivial: 40 characters or more.",
        "assumptions": [GRAMMAR, MODEL],
    },
    "C12": {
        "rule": SCOPED + "a position in or out of range is put into the GROUP BY or ORDER BY of one of its SELECTs, in a quarter of the cases with more out of range. Non-trivial: 40 "
        "characters or more.",
        "assumptions": [GRAMMAR, MODEL],
    },
    "C13": {
        "rule": SCOPED + "an acceptable or unacceptable argument is put into LIMIT or OFFSET of one of its SELECTs. Non-trivial: 40 "
        "characters or more.",
        "assumptions": [GRAMMAR, MODEL],
    },
    "C14": {
        "rule": SCOPED + "a WHERE, HAVING or AND/OR operand anywhere in it is replaced by a non-boolean; an error must name "
        "construct and type. Non-trivial: 40 characters or more. (That boolean ones are accepted: C11's leg, run here too.)",
        "assumptions": [GRAMMAR, MODEL],
    },
    "C15": {
        "rule": SCOPED + "one join loses its condition; an error must say so. Non-trivial: 40 characters or more. (That joins with "
        "a condition are accepted: C11's leg, run here too.)",
        "assumptions": [GRAMMAR, MODEL],
    },
    "C16": {
        "rule": SCOPED + "one unqualified use is renamed to a column that two joined sources provide; an error must say it is "
        "ambiguous. Second leg: qualified and unique uses are accepted. Non-trivial: 40 characters or more.",
        "assumptions": [GRAMMAR, MODEL],
    },
    "C17": {
        "rule": "Valid, faulty and arbitrary generated queries in two spellings and formatted; all three must have the same verdict "
        "and errors. Non-trivial: 40 characters or more and the spellings differ.",
        "assumptions": [GRAMMAR],
    },
    "C18": {
        "rule": QUERY + "validation must return a boolean and a matching list. Also for queries with a planted fault and for the "
        "tests' queries; and queries whose first word is replaced, a BY, an END or the AND of a BETWEEN is taken out, NULLS, OVER or a star list are broken or a clause's word is doubled, must be refused. Non-trivial: 12 tokens or 40 characters or more.",
        "assumptions": [GRAMMAR],
    },
}

META.update(
    {
        "C20": {
            "rule": FILES + "after --format everything outside the SQL strings must be the same bytes, and the syntax tree the same "
            "up to string values. Non-trivial: holds a SQL string.",
            "assumptions": [PLATFORM],
        },
        "C21": {
            "rule": FILES + "the value, prefix and quotes of every SQL string after --format must be those the formatted text asks for "
            "(read with Python's own parser). Non-trivial: holds a SQL string.",
            "assumptions": [PLATFORM, "format_sql itself is right (C01 to C07)"],
        },
        "C22": {
            "rule": FILES + "--check-format is followed by --format; reports, numbers and exit code are compared with what changes, and "
            "with the model. Second leg: no combination of flags with --check-format writes. Non-trivial: holds a SQL string.",
            "assumptions": [PLATFORM, "format_sql itself is right (C01 to C07)"],
        },
        "C23": {
            "rule": FILES + "sequences of runs with any flags, then --format, --format, --check-format; after the first --format nothing "
            "may change or be left to do. Non-trivial: holds a SQL string.",
            "assumptions": [PLATFORM],
        },
        "C24": {
            "rule": FILES + "most lines end with a comment, many of them marks; strings changed, counted and reported must be those the "
            "marks leave. Non-trivial: holds a marked SQL string.",
            "assumptions": [PLATFORM],
        },
        "C25": {
            "rule": FILES + "inputs overlap, repeat, are spelled in several ways or do not exist; files, messages, summaries and exit code "
            "must be those of a model that visits each file once. Non-trivial: holds a SQL string.",
            "assumptions": [PLATFORM, "format_sql and is_valid themselves are right", "hard links to one file count as several files"],
        },
        "C26": {
            "rule": FILES + "half of the trees hold files of ten faulty kinds; these must be untouched and named, and everything else must "
            "be as in a run without them. Second leg: files that may not be read or written, without the rights of root. Non-trivial: holds "
            "a faulty file and a good one; two files or more.",
            "assumptions": [PLATFORM, "the check runs as root and may become another user (else the second leg says it was not possible)"],
        },
        "C30": {
            "rule": FILES + "its flags stand before, behind or around the inputs, some repeated: the model of C20 to C27 must hold; or they "
            "are none, contradictory or unknown, or there is no input: exit code 2, no output, nothing written. Non-trivial: holds a SQL string.",
            "assumptions": [PLATFORM],
        },
        "C27": {
            "rule": FILES + "counts, lines, messages and exit code must be those of a model that asks is_valid about each SQL string; nothing "
            "may be written without --format; flags together act as each alone. Non-trivial: holds a SQL string.",
            "assumptions": [PLATFORM, "is_valid itself is right (C10 to C18)"],
        },
    }
)

META["C28"] = {
    "rule": "Generated queries put into one to four surroundings of 27 kinds (subquery of each kind, CTE, branch of a set operation): the "
    "layout must be that of the query alone, moved to the right; the verdict and errors those of the query alone; two queries in "
    "one statement must have the errors of both. Non-trivial: 12 tokens or 40 characters or more.",
    "assumptions": [GRAMMAR, "what surrounds the query brings no columns that the query could see"],
}
META["C29"] = {
    "rule": "Generated queries whose names are replaced by others of the same length, half of them with a keyword inside: the layout must be "
    "the same up to the names, and so must the verdict and the errors. Third leg: the same verdict and errors for two sets of "
    "contents of the string literals (keywords, numbers, brackets, placeholders, ...). Non-trivial: 12 tokens or 40 characters, and two names or more.",
    "assumptions": [GRAMMAR, "names that are keywords or date parts anywhere are left alone"],
}

for _id in META:
    META[_id].setdefault("level", "exploration")

SQLITE = (
    " Differential leg: queries of SQLite's dialect from a generator of its own, {} (SQLite {} in the same process). "
    "Non-trivial there: 60 characters or more."
)
META["C01"]["rule"] += SQLITE.format("whose formatted text must compile to the same program", "EXPLAIN")
META["C10"]["rule"] += SQLITE.format("where a column SQLite does not find must be reported", "name resolution")
META["C11"]["rule"] += SQLITE.format("which must be valid if SQLite compiles them", "compilation")
META["C16"]["rule"] += SQLITE.format("where a column SQLite calls ambiguous must be reported so", "name resolution")
META["C07"]["rule"] += (
    " Second leg: characters deleted, inserted, doubled, swapped, replaced, or the text cut off; literals and the other "
    "characters must be the same. Non-trivial there: 20 characters or more."
)
