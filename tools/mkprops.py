#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "A successful parse is a derivation of the input in the grammar",
  "Whenever a parse succeeds, the nodes and tokens reported to node hooks form a derivation of the consumed non-side tokens in the grammar description the parser was made from: the children of every node match that node's definition, in source order, nothing skipped, repeated or invented.",
  ["programs", "inputs"], "every accepted grammar description, every source text the parser accepts",
  "The tests check a few dozen hand-written grammar/input pairs; soundness is a statement about every grammar (nested optional, repeated and alternative parts, shared prefixes, recursion) and every input.",
  ["langdef/chunks.go", "langdef/result.go", "parser/parser.go"],
  [("state construction", "langdef/chunks.go BuildStates"), ("rule application", "parser/parser.go applyRule/popNode")],
  ["node hooks: NewNode, HandleToken, HandleNode, EndNode", "result of Parser.Parse"])
p("C02", "Predictive grammars: exact acceptance, first offending token, termination",
  "For a grammar where one token always determines the next step (nodes other than the root matching no empty text), a parse consumes tokens as long as they continue a derivation of the root and then succeeds exactly if the root is complete at that point; otherwise it fails reporting the first token that cannot continue the derivation (its type, text and position, or end of input) and an expected token that really would have been acceptable there. Every parse terminates without a panic, for any grammar and input.",
  ["programs", "inputs"], "every one-token-lookahead grammar description and every source text over its tokens; termination for every grammar",
  "The tests sample successful inputs and a few error codes; that nothing in the language is rejected, that the reported token is the first wrong one, and that no table loops forever needs all grammars and inputs.",
  ["langdef/chunks.go", "langdef/parser.go", "parser/parser.go", "parser/errors.go"],
  [("first token sets", "langdef/parser.go resolveDependencies"), ("rule lookup", "parser/parser.go findRules"), ("error reports", "parser/parser.go getExpectedToken")],
  ["error code, message and position returned by Parser.Parse", "node hook calls"])
p("C03", "Ambiguity is resolved in favour of the longest surviving variant, unseen",
  "When several grammar variants match the next token, the parser follows all of them and commits to the one that consumes the longest run of tokens inside the node that caused the ambiguity; if all of them fail, the one that got furthest is reported. While variants are explored no node hook is called and afterwards exactly the tokens and rules of the committed variant are replayed, each token handed out once and in order.",
  ["programs", "inputs"], "every grammar description with conflicting variants (including conflicts nested in conflicts) and every input",
  "Existing tests use three small ambiguous grammars; nested splits, ties, exhausted input and conflicts that reach into child nodes appear only for specific grammar/input combinations.",
  ["parser/parser.go", "parser/misc.go"],
  [("branch exploration", "parser/parser.go resolveConflict"), ("replay", "parser/parser.go nextRule, nextToken")],
  ["order of token hook and node hook calls", "syntax tree"],
  [("branches", "node stack and applied rules of every variant still alive", "parser/misc.go parsingBranch"),
   ("tokens / appliedRules", "tokens fetched ahead and rules waiting for replay", "parser/parser.go ParseContext")])
p("C04", "Node hooks follow the node protocol",
  "Each hooked node sees its first token at creation, then its own tokens and child notifications in source order, then exactly one end call whose result is handed to the parent hook of the same layer (or returned from the parse for the root); a hook registered for any node is the fallback for nodes without their own hook. With side tokens enabled each one up to the end of the root node is delivered exactly once, in order, to a node open at that point, never before the tokens preceding it and never after the tokens following it.",
  ["programs", "inputs", "configurations"], "every grammar, input, assignment of hooks to nodes and hook layers, with and without side tokens",
  "Tests look at a few fixed trees with one hook for all nodes; which hook sees what under partial hooks, several layers and buffered side tokens is combinatorial.",
  ["parser/parser.go", "parser/hooks.go"],
  [("push/pop with hooks", "parser/parser.go pushNode/popNode"), ("side token buffering", "parser/parser.go handleNodeSides"), ("pass-through default hook", "parser/hooks.go defaultHookInstance")],
  ["calls received by NodeHook and NodeHookInstance", "result of Parser.Parse"])
p("C05", "Lexing covers the source exactly, in definition order, by token group",
  "Tokens are cut off the source contiguously and in order, each being the first defined token type (in its group) that matches at the current position, with its exact text, type and position; every byte belongs to a token or an insignificant lexeme, one end-of-file mark per source is followed by the next source and one end-of-input mark follows the last one. A failed or unwanted fetch leaves the position unchanged (insignificant lexemes aside), and text matching no token or an error token gives a lexical error at exactly that position.",
  ["inputs", "configurations"], "every list of token patterns, group assignment, expected type set and source text, including several sources",
  "Unit tests fetch a few tokens from short strings; coverage of every byte, group fallback, and position bookkeeping depend on the pattern set and input.",
  ["lexer/lexer.go", "lexer/token.go", "parser/parser.go"],
  [("matching", "lexer/lexer.go matchToken"), ("fetch and skip", "lexer/lexer.go fetch/Next/NextOf"), ("group order", "parser/parser.go fetchToken")],
  ["lexer.Next / NextOf results", "source.Queue position"])
p("C06", "Token hooks transform the token stream layer by layer, exactly as asked",
  "Each token passes the layers from the first one listed in the grammar to the user's hooks; in each layer the hook chosen is that of the literal text, else the token type, else any type; it sees the token once and its keep/drop decision and extra tokens, in order, are what the next layer and the grammar see. Looking ahead from a hook has no effect on what is parsed, end-of-file and end-of-input marks cannot be dropped, and tokens of invalid types cannot be emitted.",
  ["programs", "configurations", "inputs"], "every stack of hook layers, every hook program (keep, drop, add, replace, look ahead, fail) and input",
  "Tests exercise one layer with a handful of hooks; ordering of extra tokens across layers, fallback priority and look-ahead with buffered extras are combinations.",
  ["parser/parser.go", "parser/hooks.go"],
  [("layer pipeline", "parser/parser.go pullToken/handleToken"), ("look-ahead", "parser/hooks.go PeekToken/restore"), ("hook registration", "parser/parser.go newHookLayer")],
  ["token hook calls", "tokens reaching node hooks"],
  [("tokenHooks[].tokens", "extra tokens emitted by a layer and not fetched yet", "parser/parser.go tokenHookRec")])
p("C07", "Source queue: current source and position follow the documented list model",
  "After any sequence of operations the queue shows the same sources, order, current source, position, emptiness and end flags as an ideal list of sources with saved positions; positions stay within the content and empty sources never hide others. Restoring a snapshot brings back exactly the state in which it was taken, however the queue was used in between and any number of times.",
  ["histories"], "every sequence of queue operations on every set of sources (empty ones included)",
  "Unit tests apply short fixed sequences; interference between prepend, discard, seek and snapshots shows up only in particular histories.",
  ["source/source.go", "internal/queue/queue.go"],
  [("queue operations", "source/source.go Queue"), ("ring buffer", "internal/queue/queue.go")],
  ["Source, Pos, IsEmpty, Eof, ContentPos, NextSource"],
  [("q, source, pos", "waiting sources, current source and position in it", "source/source.go Queue")])
p("C08", "Line and column numbers are right for every position and query order",
  "For every source text and byte offset the reported line and column are the 1-based line number and rune count defined by the newlines before that offset, whatever positions were asked for earlier; out-of-range offsets are clamped to the start or end. Converting a line and column back gives the same offset (clamped to the line), and newline normalization turns every CR LF and CR into one LF and changes nothing else.",
  ["inputs", "histories"], "every source text (multi-byte and invalid UTF-8 included), offset and sequence of earlier queries",
  "The answer depends on a cached line index left by earlier queries and on where newlines and multi-byte runes fall; tests use one text and ascending queries.",
  ["source/source.go"],
  [("cached line search", "source/source.go findLineIndex"), ("newline normalization", "source/source.go NormalizeNls")],
  ["Source.LineCol, Source.Pos, Pos.LineCol, NormalizeNls"],
  [("prevLineIndex", "line index found by the previous query", "source/source.go Source")])
p("C09", "A parse stops exactly after its last consumed token and can be resumed",
  "After a successful parse the queue stands at the first token that was not consumed (only side tokens may have been skipped), even if the parser looked further ahead or crossed into the next source, so another parse of the same queue continues as if the first one had never looked further. With the full-source option the parse succeeds exactly when nothing but side tokens is left.",
  ["programs", "inputs", "histories"], "every grammar, every queue of sources, every sequence of parses of one queue",
  "Tests consume whole sources; the resume position depends on the look-ahead distance and on source boundaries.",
  ["parser/parser.go", "source/source.go"],
  [("giving tokens back", "parser/parser.go parse"), ("rest of source check", "parser/parser.go parse fullSource")],
  ["source.Queue state after Parse", "tokens consumed by the next Parse"])
p("C10", "Indent layer: indent and dedent tokens describe the indentation structure",
  "The indent layer emits one indent token per deeper line and one dedent token per closed level, before the first token of the line, so that indents and dedents are always balanced by the end of input, levels are compared as exact space strings, and blank or comment-only lines change nothing. A line whose indentation matches no open level, or that has a side token before its first token, is rejected, and all other tokens pass unchanged and in order. Wrong configurations of the layer are rejected when the parser is created.",
  ["inputs"], "every arrangement of lines, indentations, blank and comment lines, and space token shapes",
  "Tests list some layouts; the layer is a state machine over arbitrary sequences of space, side and common tokens.",
  ["parser/layers/indent/indent.go"],
  [("line state machine", "parser/layers/indent/indent.go handle*"), ("level stack", "parser/layers/indent/indent.go indent/dedent")],
  ["token stream after the layer", "errors of Parser.Parse"],
  [("indentStack, validIndent", "open indentation levels", "parser/layers/indent/indent.go layerState")])
p("C11", "Convert layer replaces exactly the configured tokens",
  "The convert layer replaces a token of the input type whose text is listed by one token with the given text and output type (position kept only on request) and passes every other token through untouched, in order. Configurations that name unknown types, repeat a conversion or have wrong argument counts are rejected when the parser is created.",
  ["configurations", "inputs"], "every layer configuration and token stream",
  "Tests use a few configurations; the options interact (input type, output type, position, repeated commands).",
  ["parser/layers/convert/convert.go"],
  [("replacement hook", "parser/layers/convert/convert.go Setup")],
  ["token stream after the layer", "error of parser.New"])
p("C12", "Restrict layer forbids nodes exactly by their closest special ancestor",
  "With the restrict layer a restricted node is an error exactly if the closest ancestor listed in the layer is a forbidding one; nodes with an allowing closest ancestor or no listed ancestor, and all unlisted nodes, are accepted exactly as without the layer. Wrong configurations are rejected when a parser or parse is set up.",
  ["configurations", "inputs"], "every grammar, tree shape and set of restricted, allowing and forbidding nodes",
  "Tests have two or three nesting shapes; the decision depends on the whole ancestor chain.",
  ["parser/layers/restrict/restrict.go", "parser/hooks.go"],
  [("ancestor search", "parser/layers/restrict/restrict.go hook"), ("open node stack", "parser/hooks.go NodeStack")],
  ["error of Parser.Parse"])
p("C13", "Tree editing keeps the tree well linked and changes only what was asked",
  "After any sequence of tree edits (append, prepend, add child, replace, detach, remove) the parent, sibling and first/last child links agree with each other and with an ideal ordered tree on which the same edits were made; elements not involved keep their places. Edits with nil or unrelated arguments do nothing.",
  ["histories"], "every sequence of edits of every tree, with every choice of operands (neighbours, first/last children, roots, detached elements) short of inserting an element into its own subtree",
  "Link corruption needs specific operand relations (adjacent siblings, only child, detached chains) that fixed tests do not combine.",
  ["tree/tree.go"],
  [("linking", "tree/tree.go AddChild/RemoveChild/Detach"), ("sibling edits", "tree/tree.go AppendSibling/PrependSibling/Replace")],
  ["Parent, Prev, Next, FirstChild, LastChild, Children"],
  [("links", "parent, prev, next, firstChild, lastChild of each element", "tree/tree.go nodeElement")])
p("C14", "Walkers, token navigation and selectors visit exactly the right elements",
  "A walker visits every element of its subtree once, in the documented order, with the right level, minus exactly the subtrees its visitor asked to skip, and never leaves the subtree. Token and sibling navigation and selectors return exactly the elements defined by that order, without duplicates when asked for unique output.",
  ["inputs", "histories"], "every tree (with empty nodes), starting element, direction, sequence of skip flags and selector expression",
  "Tests walk two fixed trees; skip flags combine with the position in the tree at every step.",
  ["tree/tree.go"],
  [("step", "tree/tree.go Walker.Step"), ("navigation", "tree/tree.go First/Last/Next/PrevTokenElement"), ("selectors", "tree/tree.go Selector")],
  ["Walker.Step, Walk, Selector.Apply, *TokenElement"])
p("C15", "The syntax tree mirrors the parse and, with side tokens, the whole source",
  "A tree built with the tree node hook has one node element per parsed node and one token element per token it received, in order. With side tokens and the full-source option enabled the concatenated texts of its token elements reproduce the source byte for byte, up to side tokens that follow the end of the root node.",
  ["programs", "inputs"], "every grammar without insignificant lexemes and every accepted source text",
  "Tests compare a few trees; losslessness must hold for every grammar shape and every placement of side tokens.",
  ["tree/tree.go", "parser/parser.go"],
  [("tree hook", "tree/tree.go HookInstance"), ("side token delivery", "parser/parser.go handleNodeToken/popNode")],
  ["tree returned by Parser.Parse", "token texts and positions"])
p("C16", "Compiled parsing tables denote exactly the language of the description",
  "For every node definition the compiled transition table accepts exactly the sequences of tokens and child nodes described by its EBNF body (as a nondeterministic automaton whose fallback rules consume nothing), starts child nodes on exactly their possible first tokens, marks exactly the acceptable token types in each state, and has no cycle of rules that consume nothing.",
  ["programs"], "every accepted grammar description",
  "Tests compare tables of about twenty grammars with expected ones; equality of languages is a statement about every nesting of groups, options, repeats and variants.",
  ["langdef/chunks.go", "langdef/result.go", "langdef/parser.go", "grammar/grammar.go"],
  [("state construction", "langdef/chunks.go BuildStates"), ("table layout", "langdef/result.go BuildGrammar, dropUnusedStates"), ("token masks", "langdef/parser.go assignStateTokenTypes")],
  ["grammar.Grammar returned by langdef.Parse"])
p("C17", "Invalid grammar descriptions are rejected with the right error, valid accepted",
  "A description that is well-formed and breaks no documented static rule (undefined, unused, redefined or left-recursive nodes, unresolvable references, undefined or misused token types, literals no token can produce, regrouped tokens, unknown directives or templates, bad escapes and patterns) is accepted; one that breaks a rule is rejected with the code of a rule it breaks, a syntax error at the position of the offending lexeme. Parsing a description never hangs or panics, whatever the text.",
  ["programs", "inputs"], "every description text, well-formed or not (truncated and mutated ones included)",
  "Tests have one sample per code; the graph conditions (reachability, left recursion through optional parts) and combinations of rules are unbounded.",
  ["langdef/parser.go", "langdef/errors.go"],
  [("static checks", "langdef/parser.go findUndefinedNodes, findUnusedNodes, resolveDependencies, findRecursions, assignTokenGroups")],
  ["error code of langdef.Parse*"])
p("C18", "A grammar depends on what the description says, not on how it is written",
  "Layout, comments, quoting and escaping style, splitting patterns into templates, splitting or merging directives, redundant parentheses around one item and the order of definitions after the first node do not change the grammar a description denotes. Definitions, flags, groups, literals and layer commands appear in the result exactly as written, with the documented meaning of escapes and of the literal and reserved directives.",
  ["programs"], "every accepted description and every meaning-preserving rewriting of it",
  "Tests fix one spelling per construct; invariance quantifies over all spellings.",
  ["langdef/parser.go"],
  [("description parser", "langdef/parser.go Parse"), ("string escapes", "langdef/parser.go processStringToken"), ("directives", "langdef/parser.go parseDir")],
  ["grammar.Grammar returned by langdef.Parse"])
p("C19", "Generated Go and JSON files reproduce the grammar exactly",
  "For every accepted description the grammar generator writes a Go file that compiles and a JSON file that loads, and both give the same grammar the description parser returns (tokens, patterns, flags, groups, layers with commands, nodes, tables). For a rejected description, for names that Go does not allow and for texts that JSON cannot hold it fails without writing a file.",
  ["programs", "configurations"], "every accepted description (layers, special characters in patterns and names included) and generator option",
  "There are no tests of the generator.",
  ["cmd/llxgen/llxgen.go", "grammar/grammar.go"],
  [("Go output", "cmd/llxgen/llxgen.go makeGo"), ("JSON output", "cmd/llxgen/llxgen.go makeJson")],
  ["files written by llxgen"])
p("C20", "Parses do not influence each other",
  "A parser is immutable: any number of parses with one parser, one after another, nested inside hooks, interleaved or concurrent, each give exactly the result and hook calls they would give alone, whatever earlier ones did (fail, stop early, register hooks for new literals). Sources and grammars are never modified by parsing.",
  ["schedules", "histories"], "every set of parses and every interleaving of their hook calls",
  "Tests run single parses; shared state between parses shows only under particular interleavings or histories.",
  ["parser/parser.go", "parser/hooks.go", "lexer/lexer.go", "source/source.go"],
  [("per-parse context", "parser/parser.go newParseContext"), ("immutable lexers", "lexer/lexer.go")],
  ["hook calls and results of concurrent parses", "grammar and source content afterwards"])
p("C21", "Errors from hooks and cancellation stop the parse and reach the caller",
  "If any token, node or layer hook returns an error, at whichever call and phase of the parse (look-ahead included), the parse returns that very error and calls no further hook. If the context is cancelled during a parse, the parse returns the context's error after at most the current token's processing instead of a result.",
  ["fault_sequences"], "every grammar, input, hook and call number at which the failure or cancellation happens",
  "A failure can strike at every hook call of every parse; tests fail one or two hooks.",
  ["parser/parser.go"],
  [("error propagation", "parser/parser.go parse, pullToken, pushNode, popNode, resolveConflict"), ("context checks", "parser/parser.go parse, handleToken")],
  ["error of Parser.Parse", "hook calls after the failure"])
p("C22", "Internal containers behave as an ideal deque and an ideal set",
  "The double-ended queue returns exactly the items put into it, in order from both ends, through growth, shrinking, refill and indexed peeking, and the integer set behaves as a mathematical set of integers of any sign, copies being independent and listings ascending.",
  ["histories"], "every sequence of operations, crossing every capacity boundary",
  "Ring-buffer and bit-chunk boundaries are reached only by particular histories.",
  ["internal/queue/queue.go", "internal/ints/intset.go"],
  [("ring buffer", "internal/queue/queue.go"), ("chunked bit set", "internal/ints/intset.go")],
  ["results of container operations"])
p("C23", "A parser offers exactly what its grammar names",
  "A parser's answers about token types (type of a name, validity, special and side types, list of tokens, artificial tokens) agree with the description it was made from. Hook layers are set up once per parser, in the order of the description and with exactly the commands written there, from templates given to the parser before registered ones, and are initialised once per parse with its own context. Unknown layers, templates registered twice and hook keys naming no token type or node are refused with their codes before any hook is called. Parsing a string is the same as parsing a queue of one source, and an error with a known place states the place in its message.",
  ["descriptions", "registration_histories"], "every grammar, set of layer templates, order of registration and set of hook keys",
  "Names, templates and keys combine freely; tests sample a handful of correct ones.",
  ["parser/parser.go", "parser/hooks.go", "parser/errors.go", "llx.go"],
  [("token type answers", "parser/parser.go TokenType, IsValidType, IsSpecialType, IsSideType, MakeToken, Tokens"), ("layers", "parser/hooks.go RegisterHookLayer, parser/parser.go New"), ("hook keys", "parser/parser.go newHookLayer"), ("errors", "llx.go Error, parser/errors.go")],
  ["answers of Parser methods", "Setup and Init calls of layer templates", "errors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
if __name__ == "__main__":
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for d in P: jsonschema.validate(d, s)
        print(len(P), "properties, schema ok")
    except ImportError:
        print(len(P), "properties")
