#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the list below."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.dont_write_bytecode = True
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
L = "domain/languages/lexers/"
AT = L + "asts/tokens/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))


LEXNOTE = ("TLC enumerates a universe of small grammars and scripts, checks the properties of the specified semantics in every state and each outcome is replayed in the real code; "
           "random larger grammars executed by the real code are validated by TLC against the same operators. Bounded: grammars of at most 4 tokens, scripts of at most 18 characters. "
           "Trusted: TLC, the text renderer of the grammars, the harness' projection of the syntax tree.")
LEXTECH = "TLA+ specification of the matching semantics, TLC: exhaustive replay of small universes and trace validation of random executions"
RULEF = [L + "asts/results/adapter.go", L + "containers/patterns/adapter.go", L + "containers/rules/adapter.go"]

prop("X01", "Cardinalities mean what they say",
     "An element of a grammar line matches exactly as many adjacent occurrences as its cardinality allows: ?, +, *, {n}, {n,} and {n,m} accept an amount if and only if it is inside the declared range, the occurrences are taken greedily up to the maximum, and no cardinality means exactly one. An element whose occurrences don't satisfy its cardinality is skipped when zero is allowed and makes its line fail otherwise.",
     ["inputs", "programs"], "every grammar line, every cardinality text and every script", "the tests use a handful of cardinalities on fixed scripts; the boundaries of ranges, the greedy maximum and the interplay of adjacent elements quantify over all grammars and scripts",
     [L + "cardinality/adapter.go", L + "cardinality/cardinality.go", L + "cardinality/range.go", L + "cardinality/specific_adapter.go", AT + "adapter.go"],
     [("the texts of cardinalities are parsed", L + "cardinality/adapter.go"), ("repetition of rules and tokens", AT + "adapter.go")], ["the syntax tree and the verdict of the lexer"], LEXTECH, LEXNOTE)
prop("X02", "Patterns match their declared groups and reversals",
     "A pattern matches its choices one after the other: a serie matches one option of each of its groups, the longest option that is present, and a reversed serie matches the text up to the first place where the serie occurs (or the end of the text). A pattern never matches text that its choices don't describe, and it keeps what the choices before the first failing one have matched.",
     ["inputs", "programs"], "every pattern declaration and every text", "the tests cover a few patterns; overlapping options, failing tails and reversed series quantify over all declarations and texts",
     RULEF, [("search of groups, series and reversals", L + "asts/results/adapter.go")], ["the matched text of rules in the syntax tree"], LEXTECH, LEXNOTE)
prop("X03", "Rules match exactly their constant or their repeated patterns",
     "A constant rule matches its constant and nothing else; a pattern rule matches adjacent repetitions of the first of its patterns that applies, at the current position only, as many as its cardinality allows, and it doesn't match when the amount is outside of the cardinality. The text that a rule reports is exactly the text that it consumed.",
     ["inputs", "programs"], "every rule declaration and every script", "the tests use single rules on matching text; minimum amounts, adjacency and position need all combinations of rules and scripts",
     RULEF + [AT + "adapter.go"], [("rule evaluation", L + "asts/results/adapter.go"), ("repetition of a rule in a line", AT + "adapter.go")], ["the matched text of rules in the syntax tree, the verdict"], LEXTECH, LEXNOTE)
prop("X04", "The longest alternative of a token wins, the first one on ties",
     "A token matches if at least one of its mandatory lines matches some text at the current position; among those, the line that matches the most text is selected, and the first declared one when several match the same amount. The syntax tree names the selected line and contains its elements.",
     ["inputs", "programs"], "every list of alternatives, in every order, and every script", "the tests have few alternatives and no ties; the choice depends on every alternative and on the script",
     [AT + "adapter.go"], [("selection of the best line", AT + "adapter.go")], ["the index of the line in the syntax tree, the matched text"], LEXTECH, LEXNOTE)
prop("X05", "Not blocks reject, and only reject, what they match",
     "A token that declares a not block is refused wherever one of the lines of that block matches at the position of the token, and it is accepted wherever its mandatory lines match and no line of the not block does. Both hold for root tokens and for tokens referenced by others.",
     ["inputs", "programs"], "every token with a not block and every script", "the tests have one or two not blocks; the interaction of mandatory and not lines needs all of their overlaps",
     [AT + "adapter.go", AT + "tokencontent.go", L + "asts/mistakes/adapter.go"], [("evaluation of the not block", AT + "adapter.go"), ("rejection", L + "asts/mistakes/adapter.go")], ["the verdict of the lexer"], LEXTECH, LEXNOTE)
prop("X06", "Specifiers constrain the contents of the referenced token",
     "A reference to a token with specifiers matches only if the occurrences of every specified container, counted over all the matches of the reference, satisfy the specifier's cardinality. When they don't, the reference is skipped if zero occurrences are allowed and makes its line fail otherwise.",
     ["inputs", "programs"], "every reference with specifiers and every script", "one specifier is tested; the counting over several matches and its cardinalities quantify over all scripts",
     [AT + "adapter.go", AT + "specifier.go", AT + "tokenmatch.go"], [("counting of the containers", AT + "specifier.go")], ["the verdict of the lexer and the syntax tree"], LEXTECH, LEXNOTE)
prop("X07", "Channels are skipped where they are active, and only there",
     "Text that a channel matches may precede any element while the channels are active: it is consumed, kept in the syntax tree and never changes which elements match. A channel switch turns the channels off, and the next one on again, for the following elements of its line, wherever it is written; trailing channel text is not consumed.",
     ["inputs", "programs"], "every set of channels, every placement of the switches and every script", "the tests put whitespace in few places; every position of channel text and of switches matters",
     [AT + "adapter.go", L + "containers/tokens/adapter.go"], [("matching of channels", AT + "adapter.go"), ("parsing of switches", L + "containers/tokens/adapter.go")], ["the verdict of the lexer and the syntax tree"], LEXTECH, LEXNOTE)
prop("X08", "Recursive tokens terminate and match what they derive",
     "A token that refers to itself, directly or through other tokens, on either side of its lines, is evaluated to a verdict for every script, and matches the texts that its lines derive. Evaluating a recursive token at a position where it is already being evaluated matches nothing, and has no effect on its evaluation elsewhere.",
     ["inputs", "programs"], "every recursive grammar and every script", "the tests have a couple of recursive tokens; nesting depth, left recursion and mutual recursion quantify over all grammars",
     [AT + "adapter.go", L + "asts/paths/adapter.go"], [("detection of the recursion", L + "asts/paths/adapter.go"), ("guard of the evaluations under way", AT + "adapter.go")], ["the verdict of the lexer and the syntax tree"], LEXTECH, LEXNOTE)
prop("X09", "Syntax trees contain the whole matched text, in order",
     "The leaves of the syntax tree of an accepted script, in order, are exactly the text that was matched, and that text starts the script. Every node of the tree is an instance of a declared token, of the line it names, with the elements of that line in their order.",
     ["inputs", "programs"], "every grammar and every accepted script", "tests compare a few trees; loss or duplication of text depends on the grammar and on the script",
     [L + "asts/adapter.go", AT + "adapter.go", L + "asts/token.go"], [("conversion of matches to nodes", L + "asts/adapter.go")], ["the syntax tree"],
     "TLA+ predicates on recorded syntax trees (losslessness, derivability, equality with the specified tree), evaluated by TLC", "Trees that the real code built on random grammars with every feature are validated by TLC. Bounded like the other lexer checks.")
prop("X10", "The answer on a script depends on the script and the grammar only",
     "Evaluating a script gives the same answer whatever was evaluated before with the same application, in whatever order, with other scripts, grammars, mistakes and prefixes in between. Evaluating it again, in the same process or in another one, gives the same answer.",
     ["histories", "inputs"], "every sequence of evaluations", "the tests evaluate each script once, in a fixed order; state that leaks from one evaluation to another needs particular histories",
     ["applications/languages/lexers/application.go", L + "asts/adapter.go", AT + "adapter.go"], [("per script state of the evaluation", AT + "adapter.go")], ["the verdicts and the trees of the lexer"],
     "TLC validates recorded histories of one application against the history-free specification", "Random histories of up to 14 scripts over 3 grammars on one application, validated step by step by TLC; repeated in new processes.")
prop("X11", "Every script gets exactly one verdict, the one of its grammar",
     "For a well formed grammar and any script, the lexer answers with either a syntax tree or a mistake, never both, never neither, and without an error, a crash or an endless evaluation. It is a tree exactly when the root token of the grammar matches at the start of the script.",
     ["inputs", "programs"], "every grammar with every combination of features, every script", "the tests use well behaved scripts; arbitrary text on arbitrary grammars is out of their reach",
     ["applications/languages/lexers/application.go", L + "asts/adapter.go", L + "asts/mistakes/adapter.go", AT + "adapter.go"], [("verdict", L + "asts/adapter.go"), ("mistakes", L + "asts/mistakes/adapter.go")], ["the verdict of the lexer"], LEXTECH,
     "Random grammars that mix every feature, with matching, mutated and hostile scripts; verdicts and trees validated by TLC. Bounded like the other lexer checks.")
prop("X18", "A legal prefix is skipped only to find a match of the rest",
     "When a prefix is declared legal, a script that matches from its start is answered as without prefix; otherwise it is accepted only if what follows some prefix matches, with the tree of that rest. A text that precedes the mandatory constant with which a grammar begins is skipped when the rest matches. Declaring a suffix legal doesn't change the answer: what follows the match is left over either way.",
     ["inputs", "programs"], "every grammar and every script with a legal prefix", "two prefixes are tested; which prefix is skipped depends on the grammar and on the whole script",
     [L + "asts/adapter.go", L + "asts/mistakes/adapter.go", AT + "adapter.go"], [("prefixes are skipped", L + "asts/adapter.go")], ["the verdict of the lexer and the syntax tree"],
     "TLC validates recorded executions against the set of outcomes that the specification allows for prefixes", "Random grammars and scripts with prefixes. Bounded like the other lexer checks.")
prop("X19", "Mistakes name a requirement that the script does not meet",
     "When the lexer answers a mistake, what it says is true of the script and of the root token of the grammar: the element that it says is there n times is there n times where it is required, and its cardinality forbids n; the specifier doesn't hold; the text ends where a mandatory element that can begin with the expected constant or pattern is required; the line of the not block that it reports matches; the text that it reports as prefix precedes the rule; or no token matches where one is required. A script has such a reason if and only if it has no syntax tree.",
     ["inputs", "programs"], "every grammar and every script without match", "the tests verify the kind of seven mistakes; what a mistake says depends on the grammar and on where the script departs from it",
     [L + "asts/mistakes/adapter.go", AT + "adapter.go", AT + "specifier.go"], [("mistakes", L + "asts/mistakes/adapter.go"), ("next element", AT + "adapter.go")], ["the mistakes of the lexer: kind, element, amount, cardinality, text"],
     "TLA+ specification of the reasons of a mistake, TLC: trace validation of recorded mistakes against the set of true reasons", "Random grammars with scripts of their mutated and truncated texts; every mistake is validated by TLC against the reasons of the specification. The position, and which of the true reasons is reported, are not specified. Bounded like the other lexer checks.")
prop("X13", "References reach the tokens of the included grammars",
     "A reference to a token of an included grammar matches what that token matches in its own file, with its own rules and the patterns of the including grammar, at any depth of inclusions; a replaced token is the replacing one, in the included file and the files it includes, and nowhere else; the paths that an application is given for some names (of tokens of other grammars) are what references to those names match, unless a file replaces them. Unknown files and tokens, and includes that include themselves, are refused with an error.",
     ["inputs", "programs"], "every set of files, every inclusion, reference and replacement, every script", "the tests have one include; names shared by files, depths, replacements and damaged references quantify over all libraries",
     [L + "references/adapter.go", "applications/languages/lexers/application.go", AT + "adapter.go", L + "containers/tokens/adapter.go"],
     [("parsing of the references", L + "references/adapter.go"), ("resolution of the references", "applications/languages/lexers/application.go")], ["the verdict of the lexer and the syntax tree, or the error"],
     "TLA+ specification of references between grammars, TLC: trace validation of random libraries of files", "Random libraries of 1 to 5 files, some with given paths, executed by the real code are validated by TLC. Bounded: each file is included once; recursive or replaced names are distinct between files (see the known finding).")
prop("X14", "Embedded test suites report the verdict of the lexer",
     "The suites of a grammar are those of its tokens that declare tests, and each has its test lines, in order, with success exactly where the token accepts the text of the line.",
     ["inputs", "programs"], "every grammar with test lines", "the tests have a couple of suites; the verdicts and the order quantify over all grammars and lines",
     ["applications/languages/lexers/application.go", L + "containers/tokens/adapter.go", L + "suites/suite.go", L + "suites/line.go"], [("execution of the tests", "applications/languages/lexers/application.go"), ("parsing of the tests", L + "containers/tokens/adapter.go")], ["the suites"],
     "TLA+ specification of the matching semantics, TLC: trace validation of the suites of random grammars", "Bounded: grammars of at most 4 tokens, test lines of at most 18 characters.")
prop("X15", "Root trees hold the elements of the syntax tree under their names",
     "The root tree of an accepted script has, under the name of each element of the selected line, the occurrences of that element in order, with their texts and their own trees, and its content is the matched text. Searching a name finds the tree itself, or else its elements of that name, or else the first ones found below its elements (taken in the order of their names), and gives an error when there are none.",
     ["inputs", "programs"], "every grammar, every accepted script and every searched name", "the tests look at one tree; repeated elements, nesting and searches quantify over all trees",
     [L + "roots/adapter.go", L + "roots/root.go", L + "roots/node.go", L + "roots/container.go", L + "roots/nodes.go"], [("conversion of the syntax tree", L + "roots/adapter.go"), ("search", L + "roots/root.go")], ["the root tree, the results of the searches"],
     "TLA+ specification of root trees, TLC: trace validation of the trees and searches of random executions", "Every name of every tree is searched. Bounded: grammars of at most 4 tokens, scripts of at most 20 characters.")

prop("X12", "Grammar files mean what they declare, and meaningless ones are refused",
     "The grammar that is loaded from the files of rules, patterns, tokens and channels is the one that they declare, however the text is spaced and whatever the order of its declarations: it evaluates every script as declared, constants, options and escaped characters included. Files that have no meaning (an undeclared rule, token, pattern or root, a name that is declared twice where it must not be, an empty section, a channel on an unknown token) are refused with an error, and loading never crashes.",
     ["inputs", "programs"], "every set of grammar files", "the tests load a handful of hand-written files; which texts are accepted, and as what, quantifies over all declarations, spacings, orders and damages",
     RULEF + [L + "containers/tokens/adapter.go", L + "containers/channels/adapter.go", "applications/languages/lexers/application.go"],
     [("parsing of the rules", L + "containers/rules/adapter.go"), ("parsing of the patterns", L + "containers/patterns/adapter.go"), ("parsing of the tokens", L + "containers/tokens/adapter.go"), ("assembly", "applications/languages/lexers/application.go")],
     ["whether the files are loaded, the verdict of the lexer and the syntax tree"],
     "TLA+ specification of the meaning of grammar files, TLC: replay of the small damaged grammars and trace validation of random files and damages",
     "TLC enumerates small grammars with each kind of damage and says which load; random grammars, rendered in random layouts and orders and damaged at random, are loaded by the real code and what they answer is validated by TLC. Bounded like the other lexer checks; the texts that the format can't express (listed in DESIGN.md) are left out.")
prop("X20", "The application reports the declarations of a grammar as they are written",
     "Without any script, the application gives the tokens of the files of a grammar in their order, each with its lines, the elements of a line with their bounds and specifiers, its negated lines and the lines of its suite; the path of a root token, which is its lines in which every token is replaced by its own element, or by its name alone where the token is inside of itself, with the elements of all the tokens; and the references and replacements of a file, each with its include and the paths of that include. What is missing is not found, and files without meaning are refused with an error: a token, rule, root or include that is not declared, a wrong number of paths, a line that is only the token it belongs to.",
     ["inputs", "programs"], "every set of grammar files, every root token and every list of links", "the tests read a handful of hand-written files and mostly look whether there is an error; what is read from a text quantifies over all declarations, spacings, bounds and recursions",
     [L + "containers/tokens/adapter.go", L + "asts/paths/adapter.go", L + "references/adapter.go", "applications/languages/lexers/application.go"],
     [("tokens", L + "containers/tokens/adapter.go"), ("paths", L + "asts/paths/adapter.go"), ("links", L + "references/adapter.go")],
     ["the tokens, their lines and suites, the path and its dependencies, the links"],
     "TLA+ specification of the declared tokens, of the unfolding of a path and of links, TLC: enumeration of damaged grammars, trace validation of what the application says about them and about random files",
     "Random sources in random layouts, with suites and recursive tokens, and random heads of includes, references and replacements; what Tokens, Path and References return is compared with the specification by TLC. Bounded: at most 7 tokens, paths of at most 1500 elements.")
prop("X16", "Parsers build the instance that the events of the tree define",
     "The parser application gives the root tree to the first event of its token that doesn't fail, in their order; an event that triggers a name gets what the events of that name give for each element found below it, in order and all or none, or the texts of the elements that have no tree. Events are called exactly in that order, an event that fails changes nothing but the calls, and the result is an error when no event succeeds or when nothing is built.",
     ["inputs", "programs", "histories"], "every tree, every set of events, every pattern of failures", "the tests trigger a couple of events on one tree; fallbacks, nested triggers, several elements and partial failures quantify over all trees and events",
     ["applications/languages/parsers/application.go", "applications/languages/parsers/manager.go", "applications/languages/parsers/manager_builder.go", "applications/languages/parsers/result.go", "applications/languages/parsers/result_builder.go"],
     [("dispatch of the events", "applications/languages/parsers/manager.go"), ("results", "applications/languages/parsers/result.go")], ["the instance, the results seen by the events and the order of the calls"],
     "TLA+ specification of the dispatch of events, TLC: trace validation of random event tables on the trees of random executions, and laws of the dispatch on each of them",
     "Random tables of events (that fail, label, trigger, pair, prefer) run by the real code on the trees of random grammars, with the journal of their calls. Bounded: grammars of at most 4 tokens, scripts of at most 20 characters.")
prop("X17", "Scripts of the base language become the program they say",
     "A script written in the base language is read as the program that it says, whatever its spaces, comments and redundant parentheses: its header, its declarations, assignments, conditions, loops, calls, operations, lists, slices and fetches with their names, types, operators and values. Whatever text is accepted, the program says exactly the text that was read; a number is kept exactly, or the script is refused when it doesn't fit the words of the parsers.",
     ["inputs", "programs"], "every program of the base language, every way to write it", "the tests parse one sample per construct; nesting, combinations of constructs, names that look like keywords and numbers at the limits quantify over all programs",
     ["domain/languages/scripts/resources/base/tokens.alex", "domain/languages/scripts/resources/base/rules.alex", "domain/languages/scripts/resources/base/patterns.alex", "domain/languages/scripts/resources/base/channels.alex",
      "domain/languages/scripts/base/parsers/sdk.go", "domain/languages/scripts/base/parsers/helper.go", "domain/languages/scripts/test_helper.go", "applications/languages/parsers/manager.go", AT + "adapter.go"],
     [("the grammar", "domain/languages/scripts/resources/base/tokens.alex"), ("the events that build the program", "domain/languages/scripts/base/parsers/helper.go")], ["the program that is built, or the error"],
     "TLA+ specification of the base language (programs, their texts and their meaning), TLC: replay of all the small programs and trace validation of random programs and texts",
     "TLC enumerates every program of a small universe (unambiguous: no two have the same text), each is read by the real code (a rotating seventh of them in the quick tier) and the instance is compared with its meaning; random larger programs and damaged texts are validated by TLC. Bounded: at most 4 instructions nested twice; two known findings are listed.")

T = "domain/hashtree/"
TREENOTE = ("TLC verifies the abstract tree (injective roots, unique order of the blocks) on every list of at most 4 blocks over a small alphabet and each of them is replayed; trees of random blocks built by the real code "
            "are validated by TLC. Bounded: 1025 blocks. Trusted: TLC, SHA-512.")
TREETECH = "TLA+ specification of the tree with abstract hashes, TLC: exhaustive replay of small lists and trace validation of random trees"
prop("H01", "Roots of hash trees identify their blocks",
     "Two lists of the same number of blocks have the same root hash if and only if they have the same blocks in the same order; lists of different lengths have different roots unless they only differ by the empty blocks with which a list is padded to a power of two. Blocks of exactly 64 bytes, which stand for hashes, are excluded.",
     ["inputs"], "every pair of lists of blocks", "the tests compare few trees; that no change, swap, split or duplication of a block goes unnoticed quantifies over all lists",
     [T + "hashtree.go", T + "builder.go", T + "leaf.go", "domain/hash/adapter.go"], [("the blocks become leaves", T + "builder.go"), ("hash of the nodes", T + "leaves.go")], ["the root of the tree"], TREETECH, TREENOTE)
prop("H02", "Blocks are put back in the order of their hash tree",
     "Given the blocks of a tree in any order, with any of them left out, reordering them gives them in the order of the tree, each as many times as it was given. Data with a block that the tree doesn't have, or more copies of a block than it has, is refused.",
     ["inputs"], "every tree and every arrangement of its blocks, complete or not, with foreign blocks or not", "the tests shuffle one list without duplicates; the duplicates, the missing and the foreign blocks need every arrangement",
     [T + "hashtree.go", T + "compact.go", T + "leaves.go"], [("order of the blocks", T + "hashtree.go")], ["the reordered blocks, or the error"], TREETECH, TREENOTE)
prop("H03", "Hash trees have the shape of their number of blocks",
     "A tree has one leaf per block in their order, padded with empty blocks up to a power of two, every parent being determined by its two children up to a single root; its height, its length and its compact form say so. Building a tree neither modifies the blocks it is given nor depends on anything but them.",
     ["inputs"], "every list of blocks", "the tests count the leaves of a few trees; padding and shape depend on the number of blocks",
     [T + "hashtree.go", T + "builder.go", T + "compact.go", T + "leaves.go"], [("padding of the blocks", T + "builder.go"), ("levels", T + "leaves.go")], ["the levels, the height, the length and the compact form of the tree"], TREETECH, TREENOTE)

LEDNOTE = ("TLC enumerates every assignment of candidate values to the fields of the 23 kinds of instances (and, for the histories, every short sequence of settings and re-creations) on a world of two instances of each kind, "
           "verifies that the specified identities are injective, and each case is replayed in the real builders; random histories executed by the real builders are validated step by step by TLC. "
           "Trusted: TLC, the collision resistance of SHA-512, the table of accessors of the harness.")
LEDTECH = "TLA+ state machine of the builders and their instances, TLC: exhaustive replay of small universes and step by step trace validation of random histories"
LEDFILES = ["domain/chains/builder.go", "domain/chains/block_builder.go", "domain/genesis/builder.go", "domain/genesis/unitcontent_builder.go", "domain/transactions/content_builder.go", "domain/transactions/secrets/secret_builder.go",
            "domain/rings/ring_builder.go", "domain/identities/builder.go", "domain/peers/peer_builder.go"]
prop("L01", "Hashes of ledger entities identify their contents",
     "Two ledger entities of one kind have the same hash if and only if all their contents are the same: every amount, nonce, owner, origin, authorization, order of a list and moment (in seconds for transaction contents, blocks and chains) is bound by the hash, whether an optional content is present or not. The hash depends on nothing else, in particular not on time zones nor on the order in which the values were set.",
     ["inputs"], "every pair of instances of every kind", "the tests compare one or two instances per kind; that no pair of different contents shares a hash quantifies over all pairs",
     LEDFILES + ["domain/hash/adapter.go"], [("values are hashed when an instance is built", "domain/chains/block_builder.go"), ("hash of several values", "domain/hash/adapter.go")], ["the hash of the instances"], LEDTECH, LEDNOTE)
prop("L02", "Ledger entities are built if and only if they are valid, with their values",
     "An entity is built exactly when all its mandatory values are present and valid: non-zero amounts, heights and nonces, non-empty names and lists, rings within their declared sizes, units activated no earlier than created, genesis units created no earlier than the genesis, and an origin for every content. It then answers exactly the values it was given; optional values are answered only when they were given.",
     ["inputs"], "every combination of values, present or absent, of every kind of entity", "the tests omit one value at a time; combinations of absent, zero and boundary values need all of the assignments",
     LEDFILES, [("validation", "domain/genesis/builder.go"), ("validation of rings", "domain/rings/ring_builder.go")], ["the entity or the error, the accessors"], LEDTECH, LEDNOTE)
prop("L03", "Builders can be reused without affecting what they built",
     "A builder that is used again, after it built or refused an entity, builds what the last value of each of its fields describes, and a builder created from it starts empty with the same settings. An entity never changes after it was built, whatever its builder does next.",
     ["histories"], "every sequence of settings, builds and re-creations", "each test uses a fresh builder once; leftovers of former builds need histories",
     LEDFILES, [("state of the builders", "domain/chains/block_builder.go")], ["the entities that the builders build, before and after"], LEDTECH, LEDNOTE)
prop("L04", "Peers are read from their text exactly",
     "A text makes a peer if and only if it is a non-empty host, the delimiter once and a port that is a decimal unsigned 64-bit number; the peer then answers that host, that port and the text they form, and that text makes the same peer again. Without a text, a peer needs a host and a port.",
     ["inputs"], "every text and every delimiter", "the tests read a couple of addresses; malformed ports, repeated delimiters and boundaries quantify over all texts",
     ["domain/peers/peer_builder.go", "domain/peers/peer.go"], [("parsing", "domain/peers/peer_builder.go")], ["the peer or the error, its accessors"], LEDTECH, LEDNOTE)

C = "domain/cryptography/keys/signature/"
SIGNOTE = ("Symbolic model (what isn't known isn't guessed). TLC verifies the algebra of the scheme in a small field for every hash function (Schnorr.tla), enumerates every ring of at most 3 of 3 keys with every signer and every list of hashes "
           "and every signature assembled from the parts of others, each replayed in the real code, and validates random histories of the real keys step by step. Trusted: TLC, the curve and hash implementations, the splitting of the texts by the harness.")
SIGTECH = "symbolic TLA+ model of keys and signatures, TLC: algebra of the scheme in a small field, exhaustive replay of small universes, trace validation of random histories"
SIGF = [C + "privatekey.go", C + "signature.go", C + "ringsignature.go", C + "ringsignature_adapter.go", C + "adapter.go", C + "helper.go"]
prop("L05", "Hashes identify the data they are made of",
     "Two pieces of data have the same hash if and only if they are the same, and so do two lists of pieces of data: the order of a list, its empty pieces and the places where its pieces end are bound. Data of 64 bytes stands for the hash that it is. A hash is read back from its text and from its bytes, a text that isn't hexadecimal is refused, two hashes compare as equal if and only if all of their bytes are, and hashing doesn't modify the data.",
     ["inputs"], "every piece of data, every list and every text", "nothing tests that lists are divided the same way; that no two lists share a hash quantifies over all pairs",
     ["domain/hash/adapter.go", "domain/hash/hash.go"], [("hashing of lists", "domain/hash/adapter.go"), ("comparison", "domain/hash/hash.go")], ["the hashes, their texts and their comparisons"],
     "TLA+ terms for hashes, TLC: trace validation of recorded hashes, whose equalities must be those of the terms", "Lists that a careless encoding confuses (moved boundaries, encoded lengths inside of the data, truncated lengths) are hashed by the real code, and TLC compares all the hashes of a row with the terms of the specification. Bounded: some ten thousand lists, of at most 65536 bytes. Trusted: TLC, the collision resistance of SHA-512.")
prop("S01", "Signatures give back the key of their signer, for their message only",
     "Every message can be signed with every key, and the signature gives back the public key of that key for that message. For another message, or when a part of the signature is replaced, it never gives back a key that didn't sign that message.",
     ["inputs", "histories"], "every key, every message and every signature made from the parts of others", "the tests sign one message; other messages and altered signatures quantify over all of them",
     SIGF, [("signature of a message", C + "privatekey.go"), ("recovery of the key", C + "signature.go")], ["the recovered public keys"], SIGTECH, SIGNOTE)
prop("S02", "Ring signatures verify what a member of their ring signed, and nothing else",
     "A key signs a message in a ring if and only if it is in the ring, whatever its position, the size of the ring and the repetitions of its keys; the ring keeps its order. A ring signature verifies a message if and only if a member signed exactly that message in exactly that ring: another message, another, missing, additional or moved key, or an altered value make it invalid.",
     ["inputs", "histories"], "every ring, every signer, every message and every alteration of a signature", "the tests sign with one ring of two keys; positions, sizes, duplicates and alterations quantify over all rings",
     SIGF, [("signature in a ring", C + "privatekey.go"), ("verification", C + "ringsignature.go")], ["the verdicts of the verifications"], SIGTECH, SIGNOTE)
prop("S03", "Ring signatures are accepted for exactly the announced keys",
     "A ring signature is accepted for a message and a list of hashes of public keys if and only if it verifies that message and the list has the hash of every key of its ring, in the same order, and nothing more. It is refused with an error otherwise.",
     ["inputs", "histories"], "every ring signature and every list of hashes", "the tests use the right list; wrong, shorter, longer and permuted lists quantify over all lists",
     [C + "ringsignature_adapter.go", C + "ringsignature.go", "domain/hash/adapter.go"], [("comparison of the hashes", C + "ringsignature_adapter.go")], ["the verdicts of the verifications"], SIGTECH, SIGNOTE)
prop("S04", "Secret values are never used twice",
     "Every new key is new, and every ring signature commits to new random values, even for the same key, message and ring, in the same process or in another one; signatures of different messages or by different keys share no value. A value that is used twice would give a private key away or tell who signed.",
     ["histories"], "every sequence of signatures and keys", "no test compares two signatures; reuse only shows in histories of several signatures",
     [C + "privatekey.go", C + "helper.go", C + "privatekey_factory.go"], [("choice of the random values", C + "privatekey.go")], ["the texts of the keys and of the signatures, the points that the signatures commit to"], SIGTECH, SIGNOTE)
prop("S05", "Keys and signatures are read back from their texts, malformed texts are refused",
     "The text of every key, public key, signature and ring signature reads back to the same one. A text that is badly encoded, has another number of sections, or has values that are not points or scalars where they are expected is refused with an error, without a crash.",
     ["inputs"], "every key and signature, and every text", "the tests read back one of each; malformed texts are not tested",
     [C + "adapter.go", C + "ringsignature_adapter.go", C + "helper.go", C + "publickey_adapter.go", C + "privatekey_adapter.go"], [("parsing", C + "ringsignature_adapter.go"), ("points and scalars", C + "helper.go")], ["the objects read, or the errors"], SIGTECH, SIGNOTE)
prop("E01", "Messages encrypted with a password are decrypted with that password only",
     "Every message that is encrypted with a password is decrypted with it to the same message, by any instance made from that password in any way, and not with another password. Every encryption uses a new initialization vector, texts that are malformed or too short are refused, and so is an encryption without a password.",
     ["inputs", "histories"], "every message, every password and every sequence of encryptions", "no test covers it; sizes, passwords and repetitions quantify over all of them",
     ["domain/cryptography/encryption.go", "domain/cryptography/builder.go", "domain/cryptography/sdk.go"], [("encryption and decryption", "domain/cryptography/encryption.go")], ["the texts and the decrypted messages"],
     "symbolic TLA+ model of encryption, TLC: exhaustive replay of short sequences, trace validation of random histories", "Symbolic model; every sequence of 3 (4) operations with 2 passwords and 2 messages is replayed, random histories with messages up to 1000 bytes are validated. Trusted: TLC, AES, SHA-256.")
prop("E02", "Messages encrypted for a key are decrypted by that key only",
     "Every message that fits is encrypted with a public key and decrypted by its private key to the same message, every longer one is refused; another key, or altered data, gives an error, and the same message is never encrypted to the same data. Keys read from their bytes or texts are the same keys, the hash of a public key identifies it, and malformed keys are refused.",
     ["inputs", "histories"], "every message, every key, every alteration and every sequence of operations", "no test covers it; sizes, wrong keys and alterations quantify over all of them",
     ["domain/cryptography/keys/encryption/privatekey.go", "domain/cryptography/keys/encryption/publickey.go", "domain/cryptography/keys/encryption/adapter.go", "domain/cryptography/keys/encryption/publickey_adapter.go"],
     [("encryption", "domain/cryptography/keys/encryption/publickey.go"), ("decryption", "domain/cryptography/keys/encryption/privatekey.go")], ["the data, the decrypted messages and the errors"],
     "symbolic TLA+ model of encryption, TLC: exhaustive replay of short sequences, trace validation of random histories", "Symbolic model; every sequence of 3 (4) operations with 2 keys, their copies and 2 messages is replayed, random histories with keys of 1024 and 2048 bits are validated. Trusted: TLC, RSA-OAEP.")


def main():
    import checks
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"]}}) + "\n")
    claimed = [p for p in sorted(P, key=lambda p: p["id"]) if p["id"] in checks.CHECKS]
    others = [p for p in sorted(P, key=lambda p: p["id"]) if p["id"] not in checks.CHECKS]
    manifest = {"version": 1, "setup_cmd": "sh ./setup.sh",
                "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in claimed],
                "not_applicable": [{"property": p["id"], "reason": p.get("reason") or "its check is not built yet"} for p in others],
                "notes": "Specifications in TLA+ (spec/), checked with TLC; harness/ drives the real code through its public API (built with a go overlay, no hooks in /repo)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(claimed), "claimed", [p["id"] for p in others])


if __name__ == "__main__":
    main()
