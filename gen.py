#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
LX, RD, TK, WD, CH, TR, ER = ["crates/joker/src/%s.rs" % x for x in ("lexer", "reader", "token", "word", "char", "track", "error")]
P = []
NA = []
AI = ("abstract interpretation of the compiled MIR to a fixpoint, with the lexical grammar run as an observer "
      "on the same symbolic input")
AINOTE = ("Every abstract state between two API calls and every further input is covered; loops and calls are summarised by joins, "
          "so a report names a reachable-in-the-abstraction path. Trusts the MIR semantics in sa/engine.py, the std models in "
          "sa/models.py, the grammar in sa/lexspec.py; constructs the engine cannot model are reported UNDECIDED, not as violations.")


def p(id, title, statement, over, text, why, files, mech, technique=AI, note=AINOTE, observe=None, level="other"):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, note, level))


def na(id, title, statement, over, text, why, files, mech, reason):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    P.append((d, None, None, None))
    NA.append({"property": id, "reason": reason})


WHY = "The single test replays a fixed list of short sources; the claim is about every character sequence%s."

p("C01", "The tokenizer never panics",
  "For every sequence of characters and every sequence of documented calls to the tokenizer, each call returns a token or an error; "
  "it never aborts with a panic, a failed assertion, an arithmetic overflow or an out-of-range index.",
  ["inputs", "histories"], "all character sequences, all interleavings of read/peek/skip/unread/reread calls within the lookahead capacity",
  WHY % " and every call sequence, in particular inputs that end in the middle of a lexeme",
  [LX, RD, TK], [("end-of-input cases of every scanning loop", LX), ("reader lookahead buffer", RD)])
p("C02", "Token locations are exact",
  "The start and end of every token are the offset, line and column of its first character and of the character after its last one, "
  "counting every character before it once, and counting LF, CR, CR LF, U+2028 and U+2029 each as one line break; the tokenizer's reported current position advances accordingly.",
  ["inputs", "histories"], "all character sequences and call histories", WHY % "; the test ignores locations altogether",
  [RD, LX, TR], [("position counters", RD + " Reader::next"), ("span tracker", LX + " SpanTracker")])
p("C03", "The newline flag marks exactly the tokens preceded by a line break",
  "A token's newline flag is set if and only if a line terminator occurs between the previous token and it, whether bare or inside a comment.",
  ["inputs", "histories"], "all token sequences with all mixtures of white space and comments between them",
  WHY % " and every mixture of trivia between tokens", [LX], [("trivia loop", LX + " read_next_token"), ("block comments", LX + " skip_block_comment")])
p("C04", "Punctuators are recognised by longest match",
  "Every ECMAScript punctuator in the input is returned as its own token kind, always taking the longest punctuator that matches, and consuming exactly its characters.",
  ["inputs"], "all characters sequences starting with a punctuator, in every lexer state", WHY % "; the test has no adjacent punctuators",
  [LX], [("dispatch on two characters of lookahead", LX + " read_next_token"), ("read_punc*", LX)])
p("C05", "A slash starts a regular expression exactly when no operator is expected",
  "When the caller does not expect an operator, a slash that starts no comment begins a regular expression literal whose reported pattern and flags are the characters between and after the delimiters (classes and backslashes respected, no line terminators); when it does, the slash is a division operator.",
  ["inputs"], "all regular expression bodies, flags and both operator modes", WHY % ", every nesting of classes and escapes",
  [LX], [("read_regexp*", LX), ("operator flag", LX + " read_next_token")])
p("C06", "Reserved and contextual words are classified exactly",
  "An identifier-shaped lexeme is returned as a reserved word or contextual keyword if and only if its text is that word and it was written without escapes; an escaped reserved word is an error and an escaped contextual word is an ordinary identifier.",
  ["inputs"], "all words, plain and escaped", WHY % "; the words are an open set and escapes multiply them", [WD, LX],
  [("word tables", WD + " Map"), ("tokenize", WD)])
p("C07", "Identifiers are scanned to their full extent and decoded",
  "An identifier token extends over the longest run of identifier characters and unicode escapes of such characters, its name is the decoded text, and malformed or illegal escapes are reported as errors.",
  ["inputs"], "all sequences of identifier characters and escapes", WHY % "; escapes are barely tested", [LX, CH],
  [("read_word, read_word_escape", LX), ("identifier classes", CH)])
p("C08", "String literals report their source and their cooked value",
  "A string literal ends at its matching unescaped quote; its source is the exact text and its value is the text with every escape sequence and line continuation replaced by what ECMAScript prescribes; unterminated or malformed literals are reported as errors.",
  ["inputs"], "all string bodies over all escapes", WHY % "; the escape combinations are unbounded", [LX],
  [("read_string, read_string_escape", LX), ("read_unicode_escape_seq", LX)])
p("C09", "Numeric literals report their structure and denote its value",
  "A numeric literal is split into radix, integer, fraction and exponent digits exactly as written (legacy octal included), its value is computed from that same text in that same radix, and it is an error for an identifier or digit to follow it directly or for its digits to be missing.",
  ["inputs"], "all digit sequences in all radixes with all fraction and exponent forms", WHY % "; the digit strings are unbounded", [LX, TK],
  [("read_number and helpers", LX), ("NumberSource::value", TK)])
p("C10", "Comments and white space produce no tokens",
  "White space, line terminators, line comments, block comments and the HTML-like comments are skipped completely and nothing else is: no character of a comment reaches a token, and no character of a token is lost to a comment.",
  ["inputs"], "all mixtures of trivia in all lexer states", WHY % " and every white space character", [LX, CH],
  [("trivia loop", LX + " read_next_token"), ("comment skipping", LX), ("white space classes", CH)])
p("C11", "Lexical errors are raised where, and only where, the grammar calls for them",
  "The tokenizer reports an error only at a character that cannot continue any lexeme (or at the end of an incomplete one), and the error's kind and the character it carries describe that situation; well-formed input is never rejected.",
  ["inputs"], "all malformed and well-formed character sequences", WHY % "; each error has many positions in which it can arise", [LX, ER],
  [("error returns", LX)])
p("C12", "Lookahead is transparent",
  "Peeking, re-reading, skipping and un-reading tokens never changes which tokens a caller sees or in which order: a peeked token is the next one read, an un-read token is returned first, and buffered tokens consume no input.",
  ["histories"], "all sequences of peek/read/skip/reread/repeek/unread calls over all inputs", "The test only ever reads and peeks once in a row; the claim is about every call history.",
  [LX], [("token buffer", LX + " Lexer::lookahead")])
p("C13", "Tokenization always makes progress",
  "Every call to the tokenizer terminates: no loop in it can iterate without consuming input, and at the end of input every call returns.",
  ["inputs", "histories"], "all inputs and call histories", WHY % ", including truncated ones", [LX, RD], [("scanning loops", LX)])

UA, UE, UT = ["crates/unjson/src/%s.rs" % x for x in ("unjson", "error", "ty")]
CT = "exhaustive path enumeration of each function's MIR on opaque arguments (abstract interpretation), compared with a contract"
CN = ("Every abstract path of each function is enumerated (the functions are loop-free on opaque arguments) and its result compared with the "
      "contract; trusts the MIR semantics in sa/engine.py and the map/string models. Constructs the engine cannot model are UNDECIDED.")
WU = "unjson has no tests at all; the claim is about every value of every type and every object."

p("J01", "JSON accessors return exactly the requested kind of value",
  "Each typed accessor of unjson succeeds if and only if the value has the requested type (null too, as None, for the _opt forms; number accepts every numeric "
  "representation; get_i64, get_u64 and get_f64 accept the other integer representation when it fits), returns the contained value unchanged, and otherwise reports a "
  "type mismatch naming the requested type and the actual type.",
  ["inputs"], "all JSON values, all accessors, all field names", WU, [UA], [("Unjson, GetField, ExtractField", UA)], CT, CN)
p("J02", "JSON field access touches exactly the named field",
  "Reading or extracting a field returns the value stored under exactly that name; extraction removes that field and no other, reading removes nothing, and "
  "an absent field is reported as missing under its name.",
  ["inputs"], "all objects and field names", WU, [UA], [("get_field, extract_field", UA)], CT, CN)
p("J03", "JSON types and errors are named for what they are",
  "The type reported for a value is its JSON type, every type is displayed by its own name, error constructors record their arguments, and error texts show each recorded part in its role "
  "(expected before actual, index as the index, length as the length).",
  ["inputs"], "all values, types and errors", WU, [UE, UT], [("TyOf", UT), ("Display", UE)], CT, CN)
p("D01", "Literals compare by meaning, not by spelling",
  "Two number literals are equal if and only if their values are, two string literals if and only if their cooked values are, whatever their sources; two regular expression "
  "literals if and only if their patterns are equal and they have the same flags in any order.",
  ["inputs"], "all pairs of literals", "No test compares literals with different sources.", [TK], [("PartialEq impls", TK)], CT, CN)
p("D02", "Word names and words correspond one to one",
  "Every reserved word and contextual word has its ECMAScript spelling as its name, converting a text to a name yields the contextual word exactly when the text is its name, and converting "
  "back yields the same text.",
  ["inputs"], "all texts and all words", "The set of texts is infinite; the test covers a few words.", [WD], [("Reserved::name, Atom::name, Name::from", WD)], CT, CN)
p("D03", "Locations combine and erase exactly; every error kind has its own text",
  "The combination of two locations runs from the start of the first to the end of the second and is absent if either is; untracking a location removes it; each lexical error kind is displayed with a text of its own.",
  ["inputs"], "all pairs of locations, all errors", "No test looks at locations or error texts.", [TR, ER], [("span, Untrack", TR), ("Display for Error", ER)], CT, CN)

ES, EE, EO, EU, EC, EN, EP = ["crates/easter/src/%s.rs" % x for x in ("stmt", "expr", "obj", "punc", "cover", "decl", "patt")]
WE = "The syntax tree crate cannot even be built by the test suite here; the claim is about every node of every kind, at any depth."
CA = ("Each node kind's implementation is checked on opaque children with calls on children replaced by their contract, so the result holds for trees of any "
      "depth by induction; trusts the MIR semantics in sa/engine.py and the shims that build easter and its derive macros offline. UNDECIDED constructs are listed.")
CTA = "compositional contract checking: path enumeration of every node type's MIR (abstract interpretation), recursive calls replaced by their contract"

p("A01", "Untracking removes every location and nothing else",
  "After untrack, no location remains anywhere in a syntax tree (inserted and explicit semicolons become the same), and everything that is not a location is unchanged.",
  ["inputs"], "all syntax trees", WE, [ES, EE, EO, EU, EC], [("Untrack impls and derive", "crates/derive, crates/easter")], CTA, CA)
p("A02", "Every node gives access to its own location",
  "tracking_ref and tracking_mut of every syntax node give the location recorded for that node (the one of the single child for nodes that only wrap one), never another one.",
  ["inputs"], "all syntax trees", WE, [ES, EE, EO, EU, EC], [("TrackingRef, TrackingMut impls and derives", "easter")], CTA, CA)
p("A03", "Trees are equal exactly when they are structurally the same",
  "Two syntax nodes compare equal if and only if they are of the same kind and all their parts, in order, are equal.",
  ["inputs"], "all pairs of syntax trees", WE, [ES, EE, EO, EU, EN, EP], [("PartialEq of node types", "easter")], CTA, CA)
p("A04", "Operators are spelled and ranked as in ECMAScript",
  "Every operator is displayed with its ECMAScript spelling, compound assignments denote the operator they are spelled with, and binary operators are ordered by the precedence levels of the grammar.",
  ["inputs"], "all operators and pairs of operators", WE, [EU], [("Display, precedence, to_op", EU)], CTA, CA)
p("A05", "Reinterpreting an expression as an assignment pattern is exact",
  "An expression becomes an assignment target, or an array or object literal an assignment pattern, exactly when the cover grammar allows it, with every part, order, hole and location preserved; anything else "
  "is rejected at the location of the offending part.",
  ["inputs"], "all expressions", WE, [EC], [("IntoAssignTarget, IntoAssignPatt, IntoAssignProp", EC)], CTA, CA)
p("A06", "Tree builders record what they are given",
  "Constructors of identifiers, declarators and directives record exactly their arguments, declarators span from pattern to initializer, and a directive is recognised exactly for an expression statement that is a string literal.",
  ["inputs"], "all arguments", WE, [EN, ES, "crates/easter/src/id.rs"], [("builders", EN)], CTA, CA)

XP, XS, XC, XL, XE, XT, XR = ["src/%s.rs" % x for x in ("parser", "state", "context", "lib", "expr", "tokens", "atom")]
XA = "src/stack.rs"
WP = "The parser crate is not built by the test suite here, and programs are of any size: the claim is about every procedure on every token stream."
CB = ("Each procedure of the parser is executed abstractly on an opaque token stream with calls to the other procedures replaced by their contracts, so the result composes "
      "to programs of any nesting. Loops are followed a bounded number of times per procedure (the evidence counts the continuations beyond). Trusts sa/engine.py, the "
      "contracts in sa/parseng.py, the token-queue model of the lexer and the shims that build the crate offline. UNDECIDED constructs are listed.")
CTB = "assume/guarantee contract checking of the parser's MIR: path enumeration per procedure (abstract interpretation), matched against the grammar's forms of each node"
p("P01", "An expression is parsed into the tree its tokens spell",
  "Whenever an expression, literal, object member or pattern is accepted, the tree returned is, part by part and in order, one whose written form in the ECMAScript grammar is exactly the "
  "tokens consumed: operators keep their operands, precedence and associativity, and members, calls and arguments belong to the operand they are attached to.",
  ["inputs"], "all token streams, all expression procedures", WP, [XP, XE, XT, XA], [("expression procedures", XP), ("suffixes", XE), ("operator stack", XA)], CTB, CB)
p("P02", "A statement is parsed into the tree its tokens spell",
  "Whenever a statement, declaration, function, body, script or module is accepted, the tree returned is, part by part and in order, one whose written form is exactly the tokens consumed; "
  "a script or module is accepted only when the input ends there.",
  ["inputs"], "all token streams, all statement procedures", WP, [XP, XL], [("statement procedures", XP), ("script, program, module", XL)], CTB, CB)
p("P03", "Every part is parsed in the context the grammar gives it",
  "Each part of a statement or expression is parsed with the right notion of: 'in' as an operator, enclosing function, loop and switch, labels in scope; a procedure leaves the context as it "
  "found it, and a script, module or program is started in its own mode.",
  ["inputs"], "all token streams, all procedures and entry contexts", WP, [XP, XC, XL], [("context set-up and restoration", XP), ("Context", XC)], CTB, CB)
p("P04", "Misplaced jumps, returns and line breaks are rejected",
  "break and continue are accepted only inside what they can leave or to a label in scope (a loop's for continue), return only in a function; a semicolon is inserted only before a line break, a "
  "closing brace or the end of input; no line break is accepted in a restricted production; a second default clause and an invalid declaration are rejected.",
  ["inputs"], "all token streams and contexts", WP, [XP, XS, XC], [("jump statements", XP), ("has_arg_same_line and semicolons", XS)], CTB, CB)
p("P05", "Every token is read with the lexical goal its position calls for",
  "A slash starts a regular expression exactly where an expression may start and is a division exactly where an operator may follow; a token pushed back or looked at is read again unchanged under "
  "the same goal, and the lookahead is never exceeded or read when empty.",
  ["inputs"], "all token streams, all points at which a token is fetched", WP, [XP, XS, XC], [("lookahead", XS), ("lexical goal", XC)], CTB, CB)
p("P06", "A parser error is never swallowed, and the parser does not panic",
  "If the lexer or a part of a construct fails, the construct fails with that error; on no token stream does a procedure panic.",
  ["inputs"], "all token streams, all procedures", WP, [XP, XS, "src/error.rs"], [("error propagation", XP)], CTB, CB)
p("P07", "Every form the language defines is accepted",
  "Each form of expression, statement, clause and declaration supported by the tree is accepted by the procedure for it, with semicolons optional exactly where automatic insertion applies and "
  "with contexts no narrower than the grammar's.",
  ["inputs"], "all forms in the table of sa/props_parse.py, any operands", WP, [XP, XS], [("the procedure of each form", XP)], CTB, CB)
p("P08", "Names and directives follow strict mode",
  "In strict code the strict reserved words are rejected as identifiers and eval and arguments as the names of bindings, and both are accepted otherwise; a use strict directive, however quoted but not "
  "with escapes, makes the rest of its body strict; checks that only matter once the goal is known are deferred and then made.",
  ["inputs"], "all names, modes and directive prologues", WP, [XP, XR, XC, XS, ES], [("binding checks", XR), ("directives", XP), ("pragma", ES), ("deferred checks", XC)], CTB, CB)

XX, XN, XM, XO, XG, XD, XF, XI = ["crates/estree/src/%s.rs" % x for x in ("expr", "node", "stmt", "obj", "tag", "decl", "fun", "lit")]
WX = "The ESTree crate is not built by the test suite here and has no tests; the claim is about every JSON tree of any depth."
CX = ("Each reader is executed abstractly on an opaque JSON object with the fields it takes and the readers it calls answered symbolically, so the result composes to trees of any "
      "depth; lists are followed up to three elements. Trusts sa/engine.py, the reference reader in sa/props_estree.py and the shims that build the crate offline. UNDECIDED constructs are listed.")
CTX = "contract checking of the ESTree readers' MIR: path enumeration per reader (abstract interpretation), each path compared with a reference reader given the same answers"
p("E01", "An ESTree expression becomes the expression it describes",
  "Whenever an ESTree expression, literal, identifier, pattern or object member is accepted, the node returned is the one its type, operator and flags name, made of exactly the parts stored in the fields "
  "ESTree gives them (lists in order, holes kept, absent optional parts absent), and every form the reader knows is accepted.",
  ["inputs"], "all JSON trees", WX, [XX, XN, XO, XI, "crates/estree/src/id.rs"], [("into_expr, into_lit", XX), ("field extraction", XN), ("into_prop", XO)], CTX, CX)
p("E02", "An ESTree statement becomes the statement it describes",
  "Whenever an ESTree statement, declaration, loop head, clause, function or script is accepted, the node returned is the one its type and kind name, made of exactly the parts stored in the fields ESTree gives "
  "them; the leading string-literal statements of a body, and only those, become its directives; and every form the reader knows is accepted.",
  ["inputs"], "all JSON trees", WX, [XM, XN, XD, XF], [("into_stmt_list_item, loop heads", XM), ("extract_script, extract_params", XN), ("into_const", XD)], CTX, CX)
p("E03", "Nothing but an ESTree tree is accepted, and nothing of one is refused",
  "A JSON tree is accepted only if every part it must have is present and is itself accepted: unknown types, operators, kinds and misplaced declarations or initializers are errors, and no reader panics; it is refused "
  "only because of a part its form has, and the error of a nested reader is the one reported.",
  ["inputs"], "all JSON trees", WX, [XG, XX, XM, XN, XO, "crates/estree/src/error.rs"], [("Tag", XG), ("error propagation", XN)], CTX, CX)

na("N01", "Number literals are rounded correctly",
   "The value of a number literal is the double nearest to the number it spells.",
   ["inputs"], "all number literals", "The set of literals is infinite and the rounding boundary cases are not hit by samples.", [LX], [("numeric conversion", LX)],
   "The decimal-to-binary rounding happens inside std's str::parse::<f64> and in floating-point sums of arbitrary length; no static argument in reach bounds the rounding error. C02/C09 decide which characters the value is computed from.")
na("N02", "Parser locations cover exactly the text of a node",
   "The location of a tree node runs from the first character of its first token to the last character of its last token.",
   ["inputs"], "all programs", "Trees of any size.", [XP], [("span computation", XP)],
   "The code takes the start position after the lookahead has been filled, so nearly every node's start is off; a rule that demanded exactness would report most procedures for one design decision, and a weaker rule would decide nothing a user relies on.")
na("N03", "Parsing terminates in time proportional to the input",
   "Lexing and parsing of n characters takes O(n) steps and bounded stack per nesting level.",
   ["inputs"], "all inputs", "Any size.", [XP, LX], [("recursive descent", XP)],
   "Needs a bound on recursion depth and on the re-reading of arrow function covers as a function of the input; the abstraction joins paths and keeps no count of the steps taken.")

SETUP = "python3 sa/build.py"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _, _, _ in P:
            f.write(json.dumps(d) + "\n")
    checks = []
    for d, t, n, l in P:
        if t:
            checks.append({"property": d["id"], "quick_cmd": "python3 check.py %s --tier quick" % d["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"],
                           "technique": t, "level": l, "level_note": n})
    m = {"version": 1, "setup_cmd": SETUP, "checks": checks, "not_applicable": NA}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for d, _, _, _ in P:
        assert len(d["title"]) <= 80, d["id"]


if __name__ == "__main__":
    main()
