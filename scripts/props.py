"""The properties, in one place: properties.jsonl and MANIFEST.json are generated from here (gen_manifest.py)."""


def P(id, title, statement, over, qtext, why, files, mech, note):
    mech = [{"name": a.split(" @ ")[0], "where": a.split(" @ ")[1]} for a in mech]
    assert len(title) <= 80, title
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors={"files": files, "mechanism": mech}, note=note)


B = " Exhaustive over all values within those bounds; nothing is claimed outside them."
PROPS = [
    P("C01", "No input makes the library panic",
      "Reading, parsing, rendering and error reporting never panic, abort or hang, whatever text is in the ledger. Malformed input is reported as errors instead.",
      ["inputs"], "every ledger text, including arbitrary Unicode and arithmetic that cannot be evaluated",
      "The tests parse a few hundred fixed files; a panic needs one particular character, digit or operand at one particular position.",
      ["src/lexer.rs", "src/parsers.rs", "src/types.rs", "src/sources.rs", "src/lib.rs"],
      ["tokens are matched by a generated lexer, bad ones become error tokens @ src/lexer.rs", "validators return errors instead of unwrapping @ src/types.rs", "expression evaluation is checked @ src/types.rs", "span trimming respects character boundaries @ src/sources.rs"],
      "Bounds: 32 ledger positions with 1-2 arbitrary ASCII bytes or one arbitrary multi-byte character, all 24 options, dates, times, numbers of up to 29+29 digits, expressions." + B),
    P("C02", "Directives come back by date, opens and balances first, none lost or repeated",
      "A successful parse returns every directive of the ledger exactly once, in ascending order of date; on one date opens come first, then balances, then everything else, and otherwise directives keep the order in which they were written. Nothing else has any influence on the order.",
      ["inputs", "histories"], "every sequence of directives with any dates, including equal ones",
      "An order is a relation over all permutations of dates and kinds; the tests have a few files whose directives mostly come already sorted.",
      ["src/lib.rs"], ["stable sort by date after parsing @ src/lib.rs, BeancountParser::parse"],
      "Bounds: up to 5 directives of all kinds with symbolic years, months and days." + B),
    P("C03", "Number literals are read exactly",
      "A number in a ledger, with optional sign, thousands separators and fraction, is read as exactly the decimal value written, with exactly the number of decimal places written, wherever a number may stand. Badly grouped or unrepresentable numbers are errors, never a different number.",
      ["inputs"], "every number of up to 28 digits, at every place where a number may stand",
      "There are 10^n numbers of n digits; grouping, sign, scale and overflow bugs need specific digit patterns.",
      ["src/lexer.rs", "src/parsers.rs", "src/types.rs"], ["number token and its parsing @ src/lexer.rs, parse_number", "Decimal arithmetic @ rust_decimal"],
      "Bounds: up to 9 integer and 6 fractional symbolic digits in one number, 28 with some fixed, commas at every position." + B),
    P("C04", "Arithmetic expressions evaluate with the usual precedence",
      "An expression evaluates to the value that ordinary arithmetic gives: * and / bind tighter than + and -, equal operators group to the left, parentheses and unary signs as written; the result is exact where decimals allow. Division by zero and overflow are errors.",
      ["inputs", "programs"], "every expression tree and every operand value",
      "The tests evaluate a handful of expressions; precedence or associativity bugs show only for certain operator combinations and operand values.",
      ["src/types.rs", "src/parsers.rs"], ["precedence climbing in the expression parser @ src/parsers.rs, expr", "Expr::evaluate @ src/types.rs"],
      "Bounds: up to 4 operands (5 in thorough) with all operators, signs and parenthesisations, operands of 1-2 symbolic digits. With a division present a quotient of 28 digits may be rounded either way at an exact tie." + B),
    P("C05", "Spans and reported positions are those of the source text",
      "The span of every parsed element resolves to exactly the text from which the element was read, with the right line numbers; errors and warnings point into the text that caused them, and a written report names that line and column. Multi-byte characters anywhere before do not shift positions.",
      ["inputs"], "every element of every directive, after any preceding text",
      "Positions depend on everything that comes before; the tests have almost only ASCII and compare few spans.",
      ["src/parsers.rs", "src/sources.rs", "src/types.rs", "src/lib.rs"], ["token spans mapped to element spans @ src/parsers.rs", "trim_trailing_whitespace, resolve_span, report writing @ src/sources.rs"],
      "Bounds: 20+ ledger templates with every element marked, holes filled with symbolic characters of 1 to 4 bytes." + B),
    P("C06", "Any span can be resolved; synthetic spans show what was added",
      "Resolving or reporting any span never fails, even one that lies outside the text or inside a character. A span made for synthetic content resolves to exactly that content, whatever other content was added before.",
      ["inputs", "histories"], "every span value, every sequence of synthetic additions",
      "Spans come from callers, so start, end and source are arbitrary; the tests use spans the parser made.",
      ["src/sources.rs", "src/types.rs"], ["range clamping and char/byte conversion @ src/sources.rs", "SyntheticSources @ src/sources.rs"],
      "Bounds: symbolic 8-bit start and end over texts of up to 12 characters of 1-4 bytes; up to 4 synthetic additions." + B),
    P("C07", "Pushed tags and metadata apply exactly while they are in effect",
      "A directive carries exactly its own tags and metadata plus those pushed before it and not yet popped; its own value for a key wins over a pushed one, and a later push over an earlier one. Popping what is not pushed, or leaving something pushed at the end, is an error.",
      ["histories"], "every interleaving of pushtag, poptag, pushmeta, popmeta and directives",
      "The state is a history of pushes and pops; the tests have a few sequences.",
      ["src/parsers.rs", "src/lib.rs"], ["push/pop processing while directives are read @ src/lib.rs, PragmaProcessor", "ParserState @ src/parsers.rs"],
      "Bounds: histories of up to 5 steps (6 in thorough) over 2 tags or keys, chosen by the solver, all kinds of directive." + B),
    P("C08", "Duplicates are errors exactly where they are not allowed",
      "Repeating a tag, link, metadata key, currency in an open, or cost component within one element is reported as an error; a repetition in another element is not. What is accepted holds every item that was written, once.",
      ["inputs"], "every combination of items, equal or different, in every order",
      "Equality of symbolic names over every pair of positions is a relation the tests sample in a few places.",
      ["src/parsers.rs", "src/types.rs"], ["duplicate detection while building metadata, cost specs and currencies @ src/parsers.rs"],
      "Bounds: up to 3-4 items with symbolic letters in every position that takes several." + B),
    P("C09", "Options set exactly the value written; bad ones are errors",
      "Each option sets its own setting to the value written and nothing else; settings not given stay unset. An unknown option, a malformed value, or a second value for a single-valued option is an error at that place.",
      ["inputs", "configurations"], "every option, value and pair of options",
      "23 options with pairs and values; the tests set some of them to one value.",
      ["src/options.rs", "src/types.rs"], ["BeancountOption::parse, Options::assimilate @ src/options.rs"],
      "Bounds: all pairs of 14 single-valued options; values of 1-5 symbolic characters; every name with a symbolic character." + B),
    P("C10", "Account type names follow the name_ options from where they are set",
      "An account is accepted exactly if its first component is a current name of one of the five types, and it has that type; a name_ option changes the name of its own type for everything after it and nothing before. Taking a name that another type has is an error.",
      ["histories", "configurations"], "every sequence of renames and accounts",
      "Renaming is state; the interesting cases are swaps, reuse and repeats in particular orders.",
      ["src/options.rs", "src/parsers.rs", "src/types.rs"], ["AccountTypeNames::update @ src/options.rs", "account parsing with the current names @ src/parsers.rs"],
      "Bounds: histories of up to 3 renames over 5 types and 8 names, symbolic letters in names, accounts of all types after each step." + B),
    P("C11", "Costs and prices mean what was written",
      "A posting has exactly the cost and price written: per unit, total and both forms, currency, date, label and merge marker in any order, and price per unit or total, with number and currency each possibly left out. Nothing else in the posting changes with them.",
      ["inputs"], "every combination and order of cost and price components, every value",
      "Components may come in any order and any subset; the tests have a few orders with fixed values.",
      ["src/parsers.rs", "src/types.rs"], ["cost spec and price annotation parsers, CostSpecBuilder @ src/parsers.rs, src/types.rs"],
      "Bounds: every subset and order of up to 4 components, every amount shape, symbolic digits and letters." + B),
    P("C12", "Strings are read verbatim, escapes decoded, long ones warned about",
      "A string holds exactly the characters between its quotes, with the escapes for newline, tab, return, quote and backslash decoded, in every place that takes a string. A string of more lines than the limit causes a warning at the string, and no other string does.",
      ["inputs"], "every string content, every limit",
      "Content is arbitrary and escapes interact with quotes and backslashes; the tests use plain words.",
      ["src/lexer.rs", "src/parsers.rs", "src/lib.rs"], ["string token and unescaping @ src/lexer.rs", "long string warning @ src/lib.rs, src/parsers.rs"],
      "Bounds: up to 4-5 symbolic characters including escapes and multi-byte ones; limits and line counts 0-4 and around 64." + B),
    P("C13", "Layout and comments do not change the meaning",
      "Blank lines, comment lines, section headings, trailing comments and spaces, the amount of white space between elements and before indented lines, CRLF line ends instead of LF, and a missing newline at the end leave every directive, option, plugin, warning and error as it is, apart from positions and the white space within a quoted position.",
      ["inputs"], "every placement of layout in every ledger",
      "Layout may be inserted between any two tokens or lines; the tests have fixed layouts.",
      ["src/lexer.rs", "src/parsers.rs"], ["white space, comment and end-of-line tokens @ src/lexer.rs"],
      "Bounds: any of 4 spaces, 4 indents, 22 line ends, 9 starts and 15 ends in one gap (two in thorough) or in all gaps of ledgers with every kind of directive, posting and pragma; up to 3 symbolic characters per comment. Indented lines starting with a colon only with a plain word." + B),
    P("C14", "Every error is reported, and a bad declaration spoils only itself",
      "A parse succeeds exactly if every declaration is good. Otherwise an error is reported within each malformed declaration, of several adjacent ones at least within the first, and none within a good one, however good and bad ones are mixed, over one file or several. Unmatched pops and missing includes may go unreported until malformed declarations are repaired.",
      ["inputs", "histories"], "every mixture of good and bad declarations",
      "Recovery depends on what follows an error; the tests have one error per file.",
      ["src/parsers.rs", "src/lib.rs"], ["recovery to the next declaration @ src/parsers.rs, file", "collection of errors @ src/lib.rs"],
      "Bounds: 18 good and 64 bad kinds with symbolic letters, all pairs, all patterns of 6 declarations (11 in thorough), 24 errors in one ledger, two files." + B),
    P("C15", "Includes bring in exactly the named files, once each, wherever they are",
      "Parsing a file gives the declarations of it and of every file it includes, directly or not, by relative or absolute path or by pattern, each once and in place of the first include of it; the order of the files of one pattern is open. Tags and metadata pushed hold across the files. A file that cannot be read, a pattern without matches, including the root file again, or including a file again while other tags or metadata are pushed is an error at the include; including it again with the same ones has no effect.",
      ["histories", "fault_sequences"], "every include graph and set of existing files",
      "Include graphs have cycles, diamonds and missing files; the tests have a few fixed trees.",
      ["src/sources.rs", "src/lib.rs"], ["include following and bookkeeping of read paths @ src/sources.rs", "pragma processing per included source @ src/lib.rs"],
      "Bounds: every include relation of 4 files in 2 directories with 6 includes (7 in thorough), 8 spellings of a path, 19 patterns over 7 files present or not, chains of 8 files (14), any 5 pragmas around includes (6), files missing, directories or not UTF-8; in a modelled file system without symbolic links, replayed on a real one." + B),
    P("C16", "Names are valid exactly by the rules, through the API and in a ledger alike",
      "Creating a currency, account name, subaccount, account type name, metadata key, tag, link or flag letter from text succeeds exactly if the text follows the documented rule, and gives back exactly that text. A ledger accepts no name that the API rejects, and rejects no ASCII name of two or more characters that the API accepts, words reserved for true, false and null aside.",
      ["inputs"], "every short text",
      "The rules are about every character in every position; the tests try a few names.",
      ["src/types.rs", "src/lexer.rs"], ["TryFrom implementations @ src/types.rs", "identifier tokens @ src/lexer.rs"],
      "Bounds: texts of up to 4 symbolic ASCII characters (6 in thorough), names of up to 65 characters with a symbolic one at any position, and one multi-byte character; 18 places in a ledger." + B),
    P("C17", "Equal elements are equal wherever they stand",
      "Equality and hashing of spanned elements depend on the element only and not on its position, so that elements read from different places, directives included, compare and hash alike; different elements are unequal. Mapping, borrowing, cloning or reporting an element keeps its position.",
      ["inputs"], "every pair of elements and spans",
      "It is a relation over pairs of elements and all span values.",
      ["src/types.rs"], ["PartialEq, Eq, Hash of Spanned @ src/types.rs"],
      "Bounds: every pair of the 12 kinds of directive, 14 postings, 13 values, 7 shapes of metadata and headers with symbolic letters and digits, at 4 distances; symbolic 8-bit spans." + B),
    P("C18", "Dates are accepted exactly if they are in the calendar",
      "A date is accepted exactly if the month and day exist in that year, leap years included, with either separator, in every place that takes a date; the value is the one written. Any other date is an error at that place.",
      ["inputs"], "every year, month and day",
      "There are 10^8 digit combinations; leap-year and separator bugs need specific ones.",
      ["src/lexer.rs", "src/parsers.rs"], ["date token and its parsing @ src/lexer.rs, parse_date"],
      "Bounds: all 8 digits symbolic (in pieces), both separators, all contexts." + B),
    P("C19", "Every directive holds what was written, and no more",
      "Each kind of directive, transaction header, posting, metadata value, plugin and flag is returned with exactly the parts written, in the order written; parts left out are absent. Keywords may be used as metadata keys.",
      ["inputs"], "every combination of optional parts, every value",
      "Optional parts combine; the tests check a few combinations with fixed values.",
      ["src/parsers.rs", "src/types.rs"], ["directive parsers @ src/parsers.rs", "accessors @ src/types.rs"],
      "Bounds: every combination of optional parts of the 12 directives, up to 3 postings, each kind of metadata value; symbolic letters and digits." + B),
    P("C20", "Rendering a directive and parsing it again gives the same directive",
      "The text form of a parsed directive is itself a ledger, and parsing it gives an equal directive; the same holds for plugins.",
      ["inputs"], "every directive of every kind with any parts",
      "Every optional part has its own rendering; no test parses what was rendered.",
      ["src/types.rs", "src/format.rs"], ["Display implementations @ src/types.rs, src/format.rs"],
      "Bounds: every combination of optional parts of the 12 directives, symbolic letters and digits." + B),
    P("C21", "The result does not depend on hash order",
      "Parsing the same ledger again gives the same directives, plugins and warnings in the same order, the same option values and the same set of errors, whatever order the hash tables happen to have. The order of tags, links, metadata and currencies within one directive or option is open.",
      ["inputs", "schedules"], "every hash seed",
      "Each test run draws one seed per table and compares with one expectation that rarely spans files.",
      ["src/lib.rs", "src/sources.rs", "src/types.rs"], ["ordered processing of sources @ src/lib.rs", "include bookkeeping @ src/sources.rs"],
      "Bounds: 14 ledgers of 4 files and 16 of one; in one hash table at a time, the hash value of each file, tag, link, metadata key, currency or name is one of 4 (5 in thorough), chosen by the solver; other tables have one fixed seed." + B),
]
NOT_APPLICABLE = []
