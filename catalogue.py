"""the properties, as given to properties.jsonl"""

WHY = "The tests parse a handful of hand-picked strings with a handful of grammars; the claim is over every input and every way of composing grammars, of which they sample a vanishing part."

PROPERTIES = [
    dict(
        id="C01", title="Ordered choice takes the first alternative that matches",
        statement=(
            "For any list of alternatives (literals, keywords, caseless variants, words, sequences, named, grouped or with actions), a first-match choice returns exactly what its first "
            "matching alternative would return at that position, and fails only when every alternative fails. "
            "How alternatives are written (`|`, MatchFirst, nested choices), how many share prefixes, the letter case of the text, and any acceleration used to skip alternatives, make no difference to the result."
        ),
        quantifier="all strings within the length bound, all alternative lists of the skeletons and generated grammars, arbitrary sub-parsers",
        why=WHY + " Which alternatives share prefixes decides which accelerated path is taken; tests cover few combinations.",
        files=["expressions.py", "core.py", "tokens.py", "utils.py"],
        mechanism=[("MatchFirst.parse_impl, streamline", "mo_parsing/expressions.py"), ("faster, Fast lookup", "mo_parsing/expressions.py"), ("expecting, min_length", "mo_parsing/tokens.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C02", title="Longest choice takes the longest match, the earliest listed on a tie",
        statement=(
            "A longest-match choice (`^`, Or) returns the result of the alternative that reaches furthest into the input, the earliest listed one among equals, and fails only when every alternative fails. "
            "Conditions attached to alternatives take part in the choice; nesting, names, groups, actions and acceleration of the alternatives do not change it."
        ),
        quantifier="all strings within the length bound, all alternative lists of the skeletons and generated grammars, arbitrary sub-parsers",
        why=WHY,
        files=["expressions.py"],
        mechanism=[("Or.parse_impl, streamline", "mo_parsing/expressions.py"), ("Fast.get_short_list", "mo_parsing/expressions.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C03", title="A sequence matches its parts in order, with whitespace between",
        statement=(
            "A sequence (`+`, And) matches exactly when its parts match one after the other, skipping whitespace only between parts that consumed something, and returns the parts' results in order with the extent from the first part to the last. "
            "The whitespace skipped is the one in force where that sequence was written, also when it is used inside a sequence written under other whitespace; flattening of nested sequences is invisible."
        ),
        quantifier="all strings within the length bound, all sequences of the skeletons and generated grammars, arbitrary sub-parsers, several whitespace settings",
        why=WHY,
        files=["expressions.py", "whitespaces.py", "core.py"],
        mechanism=[("And.parse_impl, streamline", "mo_parsing/expressions.py"), ("Whitespace.skip", "mo_parsing/whitespaces.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C04", title="Repetition is greedy, stays within its limits, and terminates",
        statement=(
            "A repetition (ZeroOrMore, OneOrMore, Many, `*`, `[min:max]`, Optional) consumes as many consecutive matches as its maximum allows, whitespace skipped between them, fails exactly when there are fewer than its minimum, and stops before a token given as stop_on. "
            "It terminates for every element, also one that matches nothing; an absent Optional yields its default, and consumes nothing."
        ),
        quantifier="all strings within the length bound, minimum 0..3, maximum 0..4 or none, arbitrary elements",
        why=WHY + " Limits and non-consuming elements multiply the cases; non-termination is never observed by a passing test.",
        files=["enhancement.py", "core.py"],
        mechanism=[("Many.parse_impl, streamline", "mo_parsing/enhancement.py"), ("Optional.parse_impl", "mo_parsing/enhancement.py"), ("ParserElement.__mul__, __getitem__", "mo_parsing/core.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C05", title="Unordered collection matches every required part in any order",
        statement=(
            "`&` (MatchAll) matches when each required element matches, in whatever order they come: at each point the first listed element that still may come and consumes something is taken; optional and repeated elements come within their own limits. "
            "It fails when a required element never comes, and its result holds the elements' results in the order met, followed by what absent elements supply (such as the default of an Optional); whitespace after the last is not part of it."
        ),
        quantifier="all strings within the length bound, collections of two or three required, optional and repeated elements and generated grammars, arbitrary elements",
        why=WHY,
        files=["expressions.py"],
        mechanism=[("MatchAll.parse_impl, streamline, _all_limits", "mo_parsing/expressions.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C06", title="Lookaround decides without consuming",
        statement=(
            "Lookahead succeeds exactly when its expression matches here, negative lookahead exactly when it does not, and lookbehind exactly when its expression matches text ending here; none of them consumes input or adds tokens (lookahead and lookbehind keep the names found inside). "
            "What follows continues from the same position."
        ),
        quantifier="all strings within the length bound, arbitrary looked-at expressions, generated grammars",
        why=WHY,
        files=["enhancement.py"],
        mechanism=[("LookAhead, NotAny, PrecededBy parse_impl", "mo_parsing/enhancement.py"), ("NotAny regex shortcut", "mo_parsing/enhancement.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C07", title="SkipTo stops at the first place its target matches",
        statement=(
            "SkipTo returns the text up to the first position at which its target matches (target included when asked), fails when there is none, fails when fail_on matches before the target, and does not look for the target inside text that matches ignore. "
            "It terminates for every target and ignore expression, also ones that match nothing."
        ),
        quantifier="all strings within the length bound, targets, fail_on and ignore expressions from a list, arbitrary ones, and generated grammars",
        why=WHY,
        files=["enhancement.py"],
        mechanism=[("SkipTo.parse_impl", "mo_parsing/enhancement.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C08", title="Literals and keywords match exactly their text",
        statement=(
            "A literal matches exactly its text, whatever characters that text has; caseless forms match it with every letter in either case and return the text as defined; keyword forms match only when not followed by one of the keyword characters. "
            "Keyword characters and the kind of literal made from plain strings are those of the whitespace context in which the element was created."
        ),
        quantifier="every literal text of one or two characters (all of Unicode for case-sensitive forms), every string of up to three or four characters",
        why=WHY + " Texts with regular-expression metacharacters and characters with irregular case mappings are not tested.",
        files=["tokens.py", "utils.py", "whitespaces.py"],
        mechanism=[("Literal, CaselessLiteral, Keyword, CaselessKeyword", "mo_parsing/tokens.py"), ("regex_caseless, regex_range", "mo_parsing/utils.py"), ("Whitespace.normalize, set_literal, set_keyword_chars", "mo_parsing/whitespaces.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C09", title="Character-set tokens match exactly their sets and lengths",
        statement=(
            "Word, Char, CharsNotIn, White, AnyChar and CloseMatch consume the longest run allowed by their character sets (initial, body, excluded) and by min, max and exact, and fail when it is shorter than their minimum. "
            "This holds for every character set, including those with characters special to regular expressions and contiguous runs; CloseMatch accepts at most the given number of mismatches and reports their positions."
        ),
        quantifier="every set of one to four characters over several alphabets (single characters over all of Unicode), limits 1..4, every string of up to three to five characters",
        why=WHY + " Character sets are compiled to regular expressions; the tests use letters and digits.",
        files=["tokens.py", "utils.py", "enhancement.py"],
        mechanism=[("Word, Char, CharsNotIn, White, CloseMatch", "mo_parsing/tokens.py"), ("regex_range", "mo_parsing/utils.py"), ("Many.__regex__", "mo_parsing/enhancement.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C10", title="Positional tokens match at their positions and nowhere else",
        statement=(
            "LineStart, LineEnd, StringStart, StringEnd, WordStart and WordEnd match exactly at line, text and word boundaries (a line ends at newline, carriage return and newline, or end of text), at every position, "
            "for every set of word characters; only LineEnd and StringEnd consume (the line break, the trailing line breaks). Annotating or copying them does not change that."
        ),
        quantifier="all strings within the length bound, every position, every set of one or two word characters, generated grammars",
        why=WHY,
        files=["tokens.py"],
        mechanism=[("LineStart, LineEnd, StringStart, StringEnd, WordStart, WordEnd", "mo_parsing/tokens.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C11", title="Whitespace and ignored text follow the context of definition",
        statement=(
            "Whitespace.skip gives the end of the longest run of whitespace characters and ignored expressions from a position, whatever was asked before, about this string or others. "
            "Elements keep the whitespace, ignored expressions, literal class and keyword characters of the context they are created in; contexts nest, and leaving one, also by exception, restores the one around it; settings do not leak. Whitespace given to an element takes the place of that of the context. "
            "Ignored expressions may come wherever whitespace may."
        ),
        quantifier="every set of whitespace characters of up to two, all strings within the length bound, every history of up to three or four skips, every program of up to three context operations",
        why=WHY + " skip() caches by string and position, and contexts are global state: histories matter.",
        files=["whitespaces.py", "core.py", "expressions.py"],
        mechanism=[("Whitespace.skip, add_ignore, __enter__, __exit__, use, release", "mo_parsing/whitespaces.py"), ("Parser.__init__, _parseString", "mo_parsing/core.py")],
        observe=["Whitespace.skip", "ParserElement.parse"],
        over=["inputs", "programs", "histories"],
    ),
    dict(
        id="C12", title="Regex matches what Python's re matches",
        statement=(
            "Regex(pattern) matches at a position exactly when re matches there (dot includes newline), returns the whole matched text, names its named groups, also when used among alternatives; "
            "with capture_groups it returns the groups' texts as nested results, each once; sub and replace_with substitute groups as re does."
        ),
        quantifier="patterns of a list and generated patterns of depth two or three, all strings within the length bound",
        why=WHY,
        files=["tokens.py", "regex.py", "core.py"],
        mechanism=[("Regex", "mo_parsing/regex.py"), ("replace_with", "mo_parsing/core.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C13", title="The regular expression of an element agrees with the element",
        statement=(
            "Where an element gives a regular expression (`__regex__`, used to accelerate lookups, negation and stop_on), that expression matches at a position exactly when the element does, and the same text, whitespace settings aside. "
            "The minimum length and expected prefixes an element declares are never more than what it can match."
        ),
        quantifier="tokens of every kind, their compositions in generated grammars, all strings within the length bound",
        why=WHY,
        files=["tokens.py", "expressions.py", "enhancement.py", "utils.py"],
        mechanism=[("__regex__, min_length, expecting of each class", "mo_parsing/expressions.py"), ("regex_iso, regex_range", "mo_parsing/utils.py")],
        observe=["ParserElement.__regex__", "ParserElement.min_length"],
    ),
    dict(
        id="C14", title="Results keep the structure, order, names and extent of the match",
        statement=(
            "A result lists tokens in the order matched; Group nests and nothing else does; Suppress drops; Combine joins the text. Names refer to what the named element matched, visible in the nearest enclosing group only; "
            "len, iteration, index, slice, truth, as_list, as_string, value, keys, values, items, get, in and comparison (with a list of the items, or with the text) agree with one another about it; start and end are the extent of the match."
        ),
        quantifier="hand-written structures over arbitrary sub-parsers and generated grammars, all strings within the length bound, every index",
        why=WHY,
        files=["results.py", "enhancement.py", "core.py"],
        mechanism=[("ParseResults", "mo_parsing/results.py"), ("Group, Suppress, Combine, Forward", "mo_parsing/enhancement.py")],
        observe=["ParseResults"],
    ),
    dict(
        id="C15", title="Setting or deleting a name changes that name only",
        statement=(
            "`r[name] = value` makes value what r[name] gives, new or not, and `del r[name]` (or setting None) removes the name with its tokens; other names, other tokens, and what is inside groups stay. "
            "A result equals the list of its tokens and their text, and nothing else, longer or shorter; `reversed` gives its items from the last to the first; the sum of results has the tokens and names of all, in order; "
            "a copy can be changed without changing the original."
        ),
        quantifier="every sequence of one to three changes over three names, hand-written grammars over arbitrary sub-parsers and tokens, all strings within the length bound",
        why=WHY,
        files=["results.py"],
        mechanism=[("ParseResults.__setitem__, __delitem__, __eq__, __copy__", "mo_parsing/results.py")],
        observe=["ParseResults"],
        over=["inputs", "histories"],
    ),
    dict(
        id="C16", title="Parse actions and conditions run in order on what was matched",
        statement=(
            "Actions run once per match of their element, in the order attached, with (tokens, start, string) or as many of these as they accept; what an action returns replaces the tokens (None keeps them, a list or tuple is tokens, a result is the result, anything else is one token; returning the result it was given is as good as None, also where actions are nested deep; a result that ends elsewhere than the match is refused), "
            "the next action sees it, and `/ constant` yields the constant. A condition whose answer is false rejects the match, with its message, and other alternatives are tried, as when an action raises ParseException; a fatal condition, and an action that raises anything else, end the parse. "
            "Negation and SkipTo do not run them, unless callDuringTry."
        ),
        quantifier="eleven kinds of callables, eleven effects, up to three in a row, hand-written grammars over arbitrary sub-parsers, generated grammars, all strings within the length bound",
        why=WHY,
        files=["core.py", "utils.py"],
        mechanism=[("ParserElement._parse, add_parse_action, add_condition, __truediv__", "mo_parsing/core.py"), ("wrap_parse_action", "mo_parsing/utils.py")],
        observe=["ParserElement.parse"],
    ),
    dict(
        id="C17", title="Making an element out of others leaves the others as they were",
        statement=(
            "Naming, adding an action or condition, grouping, suppressing, copying, repeating, or combining elements, or giving them to a helper, gives a new element and never changes what the elements it was made of (or ones made of those before) match or return, "
            "no matter in what order elements are made, parsed, finalized or streamlined. Names for messages (set_parser_name) do not change what is matched."
        ),
        quantifier="all programs of two construction steps over two elements and a fixed family of longer ones, with and without uses in between, all strings within the length bound",
        why="Aliasing between elements shows only for particular orders of construction and use; tests build each grammar once, in one order.",
        files=["core.py", "expressions.py", "enhancement.py"],
        mechanism=[("copy, __call__, add_parse_action, add_condition, suppress", "mo_parsing/core.py"), ("streamline, append", "mo_parsing/expressions.py"), ("copy, streamline", "mo_parsing/enhancement.py")],
        observe=["ParserElement.parse"],
        over=["programs", "histories"],
    ),
    dict(
        id="C18", title="A parse does not depend on the parses before or between",
        statement=(
            "What parse returns or raises depends on the element and the string only: not on earlier parses (that succeeded, failed, raised from an action, or were scans left unfinished), not on other strings, not on parses made inside parse actions, "
            "and not on other scans going on at the same time. The whitespace context in effect is as it was after each."
        ),
        quantifier="all histories of two to four events over two parsers and two symbolic strings, nested and interleaved parses, generated grammars",
        why="The library keeps state across parses (contexts, streamlining, lookups made on first use); the orders in which it is touched are beyond a handful of tests.",
        files=["core.py", "whitespaces.py", "expressions.py", "enhancement.py"],
        mechanism=[("Parser, entrypoint, finalize", "mo_parsing/core.py"), ("Whitespace contexts, skip", "mo_parsing/whitespaces.py"), ("lookups made on first use", "mo_parsing/expressions.py")],
        observe=["ParserElement.parse", "ParserElement.scan_string"],
        over=["histories", "inputs"],
    ),
    dict(
        id="C19", title="Scanning finds the leftmost matches, and the text between them is kept",
        statement=(
            "scan_string gives the leftmost matches one after the other (every start position with overlap), at most max_matches of them, with their extent; search_string gives the same results; split gives the text between matches (and the matches, with include_separators), "
            "and joins back to the text; transform_string replaces each match by its result and leaves all else, whitespace included."
        ),
        quantifier="hand-written grammars over arbitrary sub-parsers, generated grammars, all strings within the length bound, all limits 0 to 3",
        why=WHY,
        files=["core.py", "whitespaces.py"],
        mechanism=[("scan_string, search_string, transform_string, split", "mo_parsing/core.py")],
        observe=["ParserElement.scan_string", "ParserElement.transform_string", "ParserElement.split"],
    ),
    dict(
        id="C20", title="parse_all accepts a match that is followed by whitespace only",
        statement=(
            "parse(string) returns the match at the start of the string (after whitespace); parse(string, parse_all=True) returns the same result when nothing but whitespace or ignored expressions follows, and raises otherwise. "
            "parse_string and matches agree with it, on elements and on Parser objects."
        ),
        quantifier="hand-written grammars over arbitrary sub-parsers, generated grammars, all strings within the length bound",
        why=WHY,
        files=["core.py", "whitespaces.py"],
        mechanism=[("Parser.parse, parse_string, matches", "mo_parsing/core.py")],
        observe=["ParserElement.parse", "ParserElement.matches"],
    ),
    dict(
        id="C21", title="A failed parse says how far it got, and where that is",
        statement=(
            "A parse that does not match raises ParseException, with the string and a location inside it: for grammars of tokens, sequences, choices, repetition, groups, names and Forward it is the furthest position at which something failed to match. "
            "line, lineno, col, the marked line and the message describe that position: 1-based line and column, counting newlines before it."
        ),
        quantifier="hand-written grammars over arbitrary sub-parsers, generated grammars, all strings within the length bound, every location in them",
        why="Which of the many failures of a parse is reported depends on the grammar, the text and the accelerations; tests pin a few messages.",
        files=["exceptions.py", "core.py", "expressions.py", "utils.py"],
        mechanism=[("ParseException.cause, loc, line, col", "mo_parsing/exceptions.py"), ("col, line, lineno", "mo_parsing/utils.py")],
        observe=["ParseException"],
    ),
    dict(
        id="C22", title="infix_notation builds the tree precedence and associativity call for",
        statement=(
            "For a table of unary (prefix, suffix), binary and ternary operators listed from tightest to loosest, infix_notation matches terms with prefix and suffix operators, joined by operators, parentheses included, and nests them so that tighter operators bind first, "
            "left associative ones group to the left and right associative ones to the right; every term and operator (unless suppressed) is in the tree once, in the order of the text. "
            "The level's action is called once per application with its operands and its location. The same symbol may be unary and binary."
        ),
        quantifier="hand-written and generated operator tables of up to four levels, all strings of up to five to seven characters over operators, parentheses and operands",
        why="A table of operators and an expression interact in ways that show only for particular mixtures of levels; tests evaluate a few expressions.",
        files=["infix.py"],
        mechanism=[("infix_notation, make_tree", "mo_parsing/infix.py")],
        observe=["infix_notation"],
    ),
    dict(
        id="C23", title="one_of takes the longest word; lists and counted arrays have all elements",
        statement=(
            "one_of(words) matches the longest of the words that is at that position, whatever the order, repeats or special characters they are given with (text, list or tuple), caseless or as keywords too, and gives the word as listed; with no words it never matches. "
            "delimited_list(expr, separator) matches expr, then every separator that is followed by another expr, and drops the separators (or joins all, with combine). counted_array reads a number, then exactly that many expr, as one group, and fails when there are fewer; other matches before or after make no difference."
        ),
        quantifier="all lists of two or three words of a vocabulary, grammars of tokens, groups and arbitrary sub-parsers, all strings within the length bound",
        why=WHY,
        files=["infix.py", "helpers.py", "utils.py"],
        mechanism=[("one_of, delimited_list", "mo_parsing/infix.py"), ("counted_array", "mo_parsing/helpers.py")],
        observe=["one_of", "delimited_list", "counted_array"],
    ),
    dict(
        id="C24", title="Quoted strings end at their closing quote and give the text between",
        statement=(
            "QuotedString(quote, ...) matches from the opening quote to the first closing quote that is neither escaped nor doubled; without multiline a line break ends the attempt; an unterminated text does not match. "
            "It gives the text between the quotes, with escapes replaced once, left to right (escape character dropped, doubled quotes made one, \\t \\n \\f \\r converted when asked for), or the text as written with unquote_results=False. "
            "dblQuotedString, sglQuotedString, quoted_string and unicode_string match string literals in their quotes, as written."
        ),
        quantifier="a list of option combinations, all strings of up to 4 to 6 characters over the characters that matter, up to 3 characters of Unicode between the quotes",
        why="Escapes, doubled quotes and quotes of several characters interact; tests try single examples.",
        files=["helpers.py", "expressions.py", "tokens.py", "regex.py", "utils.py"],
        mechanism=[("QuotedString and the ready made quoted strings", "mo_parsing/helpers.py")],
        observe=["QuotedString", "quoted_string", "dblQuotedString", "sglQuotedString", "unicode_string"],
    ),
    dict(
        id="C25", title="Ready made numbers, identifiers, addresses, dates and comments match",
        statement=(
            "integer, hex_integer, signed_integer, real, sci_real, fnumber, number, fraction, mixed_integer and identifier match exactly the longest text of their kind and give its value; ipv4_address, ipv6_address, mac_address and uuid match texts of their form only; "
            "iso8601_date and iso8601_datetime match and name the parts of a date; cStyleComment, cppStyleComment, dblSlashComment, pythonStyleComment, html_comment and restOfLine end where their comments end."
        ),
        quantifier="all strings of up to 5 characters over the characters that matter; for addresses and dates full length texts with any window of two or three characters arbitrary",
        why="A regular expression that is a bit too wide or too narrow shows for particular texts only; tests list a few dozen examples.",
        files=["helpers.py", "regex.py", "tokens.py"],
        mechanism=[("the expressions at the end of helpers", "mo_parsing/helpers.py")],
        observe=["mo_parsing.helpers"],
    ),
    dict(
        id="C26", title="Nested lists, original text and locations are those of the match",
        statement=(
            "nested_expr(opener, closer, content, ignore_expr) matches balanced delimiters, and gives the content (what is matched by content, or runs of text without whitespace or delimiters) as lists nested the same way; delimiters inside of what ignore_expr matches do not count. "
            "originalTextFor(expr) gives, as a group, exactly the text from start to end of the match of expr, without space before or after, and keeps its names; located_expr(expr) gives locn_start, the value and locn_end of exactly that match. "
            "ungroup(Group(expr)) gives what expr gives, without the group."
        ),
        quantifier="ten kinds of delimiters and content, grammars over tokens and arbitrary sub-parsers, alone, repeated and among others, all strings within the length bound",
        why="Space before, between and after, adjacent delimiters, unbalanced text and quotes interact; tests show a few tidy examples.",
        files=["helpers.py", "enhancement.py", "results.py"],
        mechanism=[("nested_expr, originalTextFor, located_expr, ungroup", "mo_parsing/helpers.py")],
        observe=["nested_expr", "originalTextFor", "located_expr", "ungroup"],
    ),
    dict(
        id="C27", title="Repeats of what was matched before, and fixed columns",
        statement=(
            "matchPreviousLiteral(expr) matches exactly the tokens that expr matched last, one after the other; matchPreviousExpr(expr) matches what expr matches if the tokens are equal to those; also in repetition, after backtracking, and when the parser was used before. "
            "matchOnlyAtCol(n), as an action, rejects matches that do not begin at the 1-based column n."
        ),
        quantifier="eleven expressions in seven contexts, with and without a parse before, columns 1 to 4, all strings within the length bound",
        why=WHY,
        files=["helpers.py", "enhancement.py"],
        mechanism=[("matchPreviousLiteral, matchPreviousExpr, matchOnlyAtCol", "mo_parsing/helpers.py")],
        observe=["matchPreviousLiteral", "matchPreviousExpr", "matchOnlyAtCol"],
        over=["inputs", "histories"],
    ),
    dict(
        id="C28", title="Dict makes every pair available by its key",
        statement=(
            "Dict(expr), OpenDict(expr) and dict_of(key, value) match what they are made of and keep the tokens; the result of every group in expr is there by its key (first token), with the rest of its tokens as value, all of them in order when a key repeats; keys() lists the keys in order. "
            "A Dict is a group, with its own keys; OpenDict adds them to those of the surrounding result."
        ),
        quantifier="thirty grammars of pairs, alone, named, grouped, nested, next to other names, and over arbitrary sub-parsers, all strings within the length bound",
        why=WHY,
        files=["enhancement.py", "results.py", "helpers.py"],
        mechanism=[("Dict, OpenDict", "mo_parsing/enhancement.py"), ("dict_of", "mo_parsing/helpers.py")],
        observe=["Dict", "OpenDict", "dict_of"],
    ),
    dict(
        id="C29", title="HTML tags, attributes and comma separated values are read as written",
        statement=(
            "makeHTMLTags(tag), anyOpenTag and anyCloseTag match opening tags with any attributes, in either case, with or without values or quotes, and closing tags; the result has tag, every attribute (lower case) with its value, and whether it is empty, under the name start or end and the tag's words capitalized. with_attribute and with_class accept tags that have the attribute with that value (or at all) and no others. "
            "comma_separated_list gives the items between commas, stripped, quoted ones as written, empty text for missing ones. stripHTMLTags, replaceHTMLEntity, remove_quotes, upcase_tokens, downcase_tokens and token_map change what they name, and nothing else."
        ),
        quantifier="tags with every window of four characters arbitrary, all strings of up to 5 characters over the characters that matter",
        why="Each odd spelling of a tag or list is one of many; tests have a few documents.",
        files=["helpers.py", "infix.py", "enhancement.py"],
        mechanism=[("makeHTMLTags, with_attribute, comma_separated_list, token_map", "mo_parsing/helpers.py")],
        observe=["makeHTMLTags", "with_attribute", "with_class", "comma_separated_list"],
    ),
    dict(
        id="C30", title="A Debugger does not change what is parsed",
        statement=(
            "Inside of `with Debugger():` parse and scan_string give the same results, names, failures and exceptions, and call the same actions and conditions with the same arguments, as without; parse_count and max_stack_depth are counted. "
            "A silent Debugger prints nothing. Debuggers nest, and however the block is left the parser is as it was before."
        ),
        quantifier="all operators over arbitrary sub-parsers and generated grammars, silent and talking, nested, with actions that raise, all strings within the length bound",
        why="The Debugger has its own copy of the parse step; that the two agree on every path is not what a test of one looks at.",
        files=["debug.py", "core.py"],
        mechanism=[("Debugger, _debug_parse", "mo_parsing/debug.py"), ("_parse", "mo_parsing/core.py")],
        observe=["Debugger", "parse", "scan_string"],
    ),
    dict(
        id="C31", title="Recursive grammars parse as written, left recursion is refused",
        statement=(
            "A grammar that refers to itself through Forward, directly or through other Forwards and below any operator, matches what the reference parser of its definition matches, and gives those results. "
            "A definition by which a Forward would be tried again where it is being tried (left recursion, also through optional parts, lookahead, &, ^ and the fail_on and ignore of SkipTo) raises RecursiveGrammarException when it is made; "
            "definitions that are not left recursive are accepted, a Forward without a definition counting as one that can match nothing."
        ),
        quantifier="sixty hand-written recursive grammars and generated ones of one and two Forwards, all strings within the length bound",
        why="Whether a grammar loops depends on what each part can match, and the results on how deep the text nests; tests show a handful of each.",
        files=["enhancement.py", "expressions.py", "core.py"],
        mechanism=[("Forward", "mo_parsing/enhancement.py"), ("check_recursion, min_length", "mo_parsing/expressions.py")],
        observe=["Forward", "RecursiveGrammarException", "parse"],
    ),
    dict(
        id="C32", title="indented_block follows the columns of its statements",
        statement=(
            "indented_block(expr, indent_stack) matches one or more statements that all begin in the same column: further right than the column of the block it stands in (indent=True), or that same column (indent=False), one group per statement. "
            "The block ends before the first statement that begins in the column of a block that is open around it, or at the end of the text; blocks nest, and when an inner block ends the outer one goes on. "
            "A block that fails leaves nothing behind for the alternatives and the parses that follow."
        ),
        quantifier="blocks in sequences, alternatives, repetitions and in each other, over tokens and arbitrary statements, all strings of letters, blanks and line ends within the length bound",
        why="The stack of columns is state shared between actions of several elements and backtracking; a test shows well formed programs only.",
        files=["helpers.py"],
        mechanism=[("indented_block", "mo_parsing/helpers.py")],
        observe=["indented_block", "parse"],
    ),
    dict(
        id="C33", title="Python operators, ... and text make the elements they stand for",
        statement=(
            "a + b, a | b, a ^ b, a & b, a - b, ~a, a * n, n * a, a * (n, m) and a[n], a[n, m], a[n, ...], a[..., n], a[n:m], a[...] parse as the sequence, choice, longest choice, any order, negative lookahead and repetition they stand for, however they are combined, with text on either side standing for the current literal class, and also as augmented assignment. "
            "a + ... + b and ... + b (and ... in And([...])) skip to the nearest b, the skipped text named _skipped. No operator changes its operands. Negative multipliers raise ValueError; a maximum below the minimum, and what is no number, TypeError. "
            "matches(s) is whether parse(s) succeeds; parse_file gives what parse gives for the content; replace_with puts the named results where \\\\g<name> and \\\\1 stand."
        ),
        quantifier="every expression of two operators and generated ones of up to four, over tokens and arbitrary sub-parsers; all strings within the length bound",
        why="The operators combine, flatten and complete each other; the tests write a few dozen of them.",
        files=["core.py", "expressions.py"],
        mechanism=[("ParserElement operators, _PendingSkip, replace_with", "mo_parsing/core.py"), ("And", "mo_parsing/expressions.py")],
        observe=["parse", "matches", "parse_file", "replace_with"],
    ),
    dict(
        id="C34", title="An error stop (the - operator) ends the parse",
        statement=(
            "In a sequence, once what is before a - has matched, everything after it in that sequence has to match: if it does not, the parse (or scan, after the matches before it) raises ParseSyntaxException, at a location no less than where the part that did not match was tried, and no alternative, option, repetition or lookahead around it makes up for it; "
            "the alternatives of ^ are all tried, and it raises if none matches. What is before the - failing is an ordinary failure, and a - b matches what a + b matches, with the same results. A stop in the parse of an action of another parse is a failure of that inner parse alone. The parser is as good as new afterwards."
        ),
        quantifier="- below every operator over arbitrary sub-parsers and tokens, and generated grammars; all strings within the length bound",
        why="Each operator has its own way to catch failures, and each has to let this one pass.",
        files=["expressions.py", "core.py", "exceptions.py"],
        mechanism=[("And.SyntaxErrorGuard, ErrorStop", "mo_parsing/expressions.py")],
        observe=["-", "parse", "scan_string", "ParseSyntaxException"],
    ),
    dict(
        id="C35", title="Unicode sets have the characters of their ranges",
        statement=(
            "parsing_unicode.Greek, Cyrillic, CJK and the other sets, under each of their names, have as alphas exactly the letters of their documented ranges, as nums the digits, as alphanums both, as printables all but white space, in order and each once. "
            "A unicode_set that a user defines has the characters of its ranges and of the sets it is derived from, whatever was asked of these before; a Word or Char of such a set matches exactly those characters."
        ),
        quantifier="every set, name and kind, user defined sets in four shapes of inheritance, every character of Unicode",
        why=WHY + " The tests parse three words.",
        files=["utils.py", "tokens.py"],
        mechanism=[("unicode_set, parsing_unicode, _lazyclassproperty", "mo_parsing/utils.py"), ("regex_range", "mo_parsing/utils.py")],
        observe=["unicode_set", "ParserElement.parse"],
    ),
]

NOT_APPLICABLE = [
    dict(
        property=dict(
            id="N01", title="Parses in several threads do not disturb each other",
            statement="When several threads parse, scan, or build elements at the same time, each gets the outcome it gets alone.",
            quantifier="all schedules of threads", over=["schedules"], why="A test runs a few schedules.", files=["core.py", "whitespaces.py"], mechanism=[("entrypoint, locker", "mo_parsing/core.py")],
        ),
        reason="The library claims no more than one RLock around entry points; the whitespace context, and every element while it is built, is plain shared state, so the property is false by design outside of the lock, and inside it is C18. Schedules at the granularity of CPython bytecode are out of reach of the engine, which runs one thread.",
    ),
    dict(
        property=dict(
            id="N02", title="Parsing takes time in proportion to what the grammar requires",
            statement="The optimizations (lookup of alternatives, streamlining, regular expressions) never make a parse slower than the grammar as written by more than a constant factor.",
            quantifier="all grammars and strings", why="Tests do not measure.", files=["expressions.py", "regex.py"], mechanism=[("faster", "mo_parsing/expressions.py")],
        ),
        reason="Time is not an observable of the symbolic execution, and the time of re is that of C code which is modelled, not executed.",
    ),
    dict(
        property=dict(
            id="N03", title="The Profiler counts every parse and changes none",
            statement="Inside of with Profiler(file): parsing gives the same outcomes, and the file has the calls and times of each element.",
            quantifier="all grammars and strings", why="Not tested at all.", files=["profile.py"], mechanism=[("Profiler", "mo_parsing/profile.py")],
        ),
        reason="mo_parsing.profile replaces _parse by one with another signature (it needs tokens of an older version, and jx packages that are not installed here): it can not be run at all in this environment.",
    ),
    dict(
        property=dict(
            id="N04", title="convertToDate and convertToDatetime read what strptime reads",
            statement="The actions convertToDate(fmt) and convertToDatetime(fmt) give the date the text stands for, or fail as a ParseException.",
            quantifier="all formats and texts", why="A test has three dates.", files=["helpers.py"], mechanism=[("convertToDate", "mo_parsing/helpers.py")],
        ),
        reason="The whole of it is datetime.strptime, of the standard library: the regular expressions it makes, and C code; there is nothing of mo-parsing to decide.",
    ),
    dict(
        property=dict(
            id="N05", title="reverse() matches the mirrored text",
            statement="element.reverse() matches the mirror image of every text the element matches.",
            quantifier="all elements and strings", why="Not tested.", files=["tokens.py", "expressions.py"], mechanism=[("reverse", "mo_parsing/tokens.py")],
        ),
        reason="Half implemented (most elements raise NotImplementedError, enhancements have none), undocumented and used by nothing: there is no behaviour that is promised.",
    ),
]

