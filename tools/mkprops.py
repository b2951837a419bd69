#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Accepted calls with validation on yield well-formed XML",
  "With validation on and no raw strings, whatever sequence of calls the writer accepts (returns no error for), once every open node has been ended and the writer flushed, the bytes in the sink are well-formed XML: balanced and correctly nested tags, legal names and characters, properly delimited and escaped attribute values, text, comments, CDATA sections, processing instructions and DTD declarations. This holds for documents and for the parentless fragments the API allows; free-form declaration bodies (element content models, attribute types, entity replacement text, forced XML versions) and duplicate attribute names are the caller's responsibility.",
  ["histories", "inputs", "configurations"],
  "every accepted call history over every node type, any strings, any nesting depth, with or without indenting",
  "The tests check a few dozen literal outputs; no test parses the output of arbitrary accepted histories, splits content across calls, or nests beyond a handful of levels.",
  ["writer.go", "node.go", "elem.go", "attr.go", "nodes.go", "dtd.go", "printer.go", "check.go"],
  [("node life cycle open/opened/end", "node.go:open,opened,end"), ("parent checks", "writer.go:checkParent"),
   ("escaping", "printer.go:EscapeString,EscapeAttrString"), ("content checks", "check.go, nodes.go:CommentContent.write,CDataContent.write,PI.write")],
  [("node stack", "open nodes, innermost last", "writer.go:Writer.nodes,current")], ["bytes received by the io.Writer"])
p("C02", "Reading the output back gives exactly the tree that was written",
  "Parsing the output of any accepted, validated history without raw strings gives back exactly what was written, in order: the same elements with the same names, attributes and nesting, the same character data, CDATA sections, comments, processing instructions and declarations, with nothing lost, duplicated, reordered or merged across nodes. Characters XML cannot carry come back as U+FFFD, and line ends inside comments, CDATA and processing instructions are subject only to XML's own normalisation.",
  ["histories", "inputs"],
  "every accepted history over all node types and strings, through the step-by-step and the structured API",
  "Tests compare single hand-written outputs and never parse them back.",
  ["writer.go", "node.go", "elem.go", "attr.go", "nodes.go", "dtd.go", "printer.go"],
  [("content written when the node opens", "elem.go:opened, nodes.go:Comment.opened,CData.opened"), ("closing tag decision", "elem.go:end"), ("escaping", "printer.go")],
  [("node stack", "open nodes and their pending content", "writer.go:Writer.nodes")], ["bytes received by the io.Writer"])
p("C03", "Text and attribute values survive escaping for every string",
  "For every string passed as text or as an attribute value, the written form contains no raw '<', '&' or '>' (nor a raw double quote in attribute values) and decodes (entity and character references resolved, XML line-end and attribute normalisation applied) to exactly that string, except that each character XML forbids and each byte of invalid UTF-8 becomes U+FFFD. In particular carriage returns survive in text, and tabs, newlines and carriage returns survive in attribute values, at any position and length.",
  ["inputs"],
  "every string: all 0x110000 code points, invalid UTF-8, every position, lengths around and beyond the buffer size",
  "printer_test.go and writer_test.go sample a few strings; neither every code point nor every position/length combination of the fast and slow paths is tried.",
  ["printer.go", "nodes.go", "attr.go"],
  [("text escaping", "printer.go:EscapeString"), ("attribute escaping with an ASCII fast path", "printer.go:EscapeAttrString,attrStringEscaped"), ("legal characters", "printer.go:isInCharacterRange")],
  [], ["bytes received by the io.Writer"])
p("C04", "Nodes are accepted exactly where the documented hierarchy allows",
  "With validation on, starting or writing a node is accepted exactly when the innermost open node may contain it according to the documented hierarchy (or nothing is open), attributes only while the element's start tag is still open, and raw strings anywhere. A call rejected for its placement returns an error, writes nothing, leaves the nesting depth alone, and has no influence on the output of any later call.",
  ["histories"],
  "every stack of open nodes reachable by any history x every node type, started or written, singly, in lists and in blocks",
  "TestEnforceParent style tests sample a few pairs from a fresh writer, not the whole parent/child matrix from every reachable state, nor the continuation after a rejection.",
  ["writer.go", "node.go", "nodekind.go", "elem.go", "attr.go", "nodes.go", "dtd.go"],
  [("parent check before any effect", "writer.go:checkParent,pushBegin"), ("per-kind parent masks", "elem.go, attr.go, nodes.go, dtd.go"), ("documented hierarchy", "doc.go")],
  [("flag of the innermost node", "its kind as a bit mask", "node.go:node.flag")], ["error result", "Depth()", "bytes received by the io.Writer"])
p("C05", "The End family closes exactly the nodes it names",
  "Each end call closes exactly the open nodes its documentation says, innermost first, each with its own closing markup: one node for the plain forms, everything for EndAll, down to the document for EndDoc, down to the given level for EndToDepth; the depth rises by exactly one per node started and falls by one per node ended. An end call whose kind or name does not match the innermost node, or that finds nothing open, returns an error and changes neither output nor depth nor how the node is later closed.",
  ["histories"],
  "every reachable stack (any depth) x every end call with every kind and zero, one, two or more names",
  "Tests cover a few shallow stacks; mismatching kinds/names at each depth, and what happens after a rejected end call, are not covered.",
  ["writer.go", "node.go", "elem.go"],
  [("name and kind matching", "writer.go:End,pop"), ("bulk ends", "writer.go:EndAll,EndDoc,EndToDepth,EndAllFlush"), ("full close", "writer.go:EndElemFull")],
  [("current", "index of the innermost open node", "writer.go:Writer.current")], ["error result", "Depth()", "bytes received by the io.Writer"])
p("C06", "Start tags are completed exactly once, at the right moment, in the right form",
  "An element's start tag stays open for attributes and raw strings until the first child is written, Next is called or the element is ended, and is completed exactly once at that moment. The element is closed with the short form exactly when nothing was put in it (no child, no Next, no inline content) and the full form was not requested; otherwise the start tag is followed by exactly one matching closing tag, at every nesting depth.",
  ["histories"],
  "every interleaving of attributes, raw strings, Next, children and end calls over nested elements of any depth",
  "Tests cover straight-line examples at depth <= 4; not raw/Next/attribute interleavings at each depth or stack growth during inline content.",
  ["elem.go", "node.go", "writer.go", "nodes.go"],
  [("opened transition", "writer.go:Next, node.go:opened"), ("short/full close", "elem.go:opened,end"), ("raw bypasses Next", "nodes.go:Raw.write")],
  [("node.state/children", "open, opened, ended; number of children", "node.go:node")], ["bytes received by the io.Writer"])
p("C07", "Namespace declarations appear once per element and conflicts are refused",
  "Whenever an element has a prefix and URI, or attributes with URIs are written on it, its start tag carries exactly one namespace declaration per distinct prefix (the default declaration for an attribute with a URI and no prefix), binding it to the URI given. An attribute that would bind a prefix to a different URI on the same element is refused without being written; declarations never leak to parents, children, siblings or later elements.",
  ["histories", "inputs"],
  "any number of elements and attributes with any combination of prefixes and URIs, nested or sequential, inline or step by step",
  "Tests cover one or two attributes on one element; not reuse of stack slots by later elements, many prefixes, or conflicts between element and attribute declarations.",
  ["elem.go", "attr.go", "node.go"],
  [("declaration bookkeeping", "attr.go:write, elem.go:open,opened"), ("slot clearing", "node.go:clear")],
  [("elem.namespaces", "declarations pending or written for the element", "elem.go:Elem.namespaces")], ["bytes received by the io.Writer", "error result"])
p("C08", "The structured and the step-by-step API write the same bytes",
  "Writing a node with its attributes, content or members supplied inline produces byte for byte the same output, errors and resulting depth as issuing the equivalent individual start, attribute, content and end calls; likewise Block, Start and Write with several nodes equal the corresponding sequence of single calls, stopping at the first error. This holds at any starting depth and any nesting of inline content, with or without indenting.",
  ["programs", "histories"],
  "every tree of inline content (any depth and width) written at every starting depth, against its expansion into single calls",
  "Tests only use trees two or three levels deep near the root and compare each to a literal.",
  ["elem.go", "nodes.go", "dtd.go", "node.go", "writer.go"],
  [("inline content written during opened", "elem.go:opened, nodes.go, dtd.go:DTDAttList.opened"), ("stack growth", "writer.go:pushBegin"), ("list forms", "writer.go:Block,Start,Write,WriteAttr")],
  [("nodes", "growable stack, nodes referenced while it grows", "writer.go:Writer.nodes")], ["bytes received by the io.Writer", "Depth()"])
p("C09", "Sink failures are never lost",
  "If the sink fails at any point, the call during which it fails returns an error, every later writing call and every Flush returns an error as well, and the error is the sink's own. What the sink accepted is always a prefix of the bytes a healthy sink would have received, with nothing skipped, repeated or written after the failure.",
  ["fault_sequences", "histories"],
  "every history x every byte position at which the sink fails (error or short write) x buffer sizes, with and without indenting",
  "No test injects a failing io.Writer.",
  ["printer.go", "writer.go", "nodes.go", "elem.go", "attr.go", "dtd.go", "indenter.go"],
  [("sticky buffered error", "printer.go:cachedWriteError"), ("errors returned from each write", "nodes.go, elem.go, dtd.go"), ("errors propagated through Next", "writer.go:Next,writeBeginNext")],
  [("bufio.Writer sticky error", "first sink error", "printer.go:printer")], ["error results", "bytes accepted by the io.Writer"])
p("C10", "Output does not depend on buffer size or on when Flush is called",
  "For any history, the total bytes delivered to the sink after a final Flush, and the result of every call, are the same whatever the initial buffer size and wherever additional Flush calls are inserted. After a successful Flush everything accepted so far has reached the sink; between flushes the sink always holds a prefix of it, which lags behind what was accepted by no more than the buffer size asked for (when no encoder is in use).",
  ["histories", "configurations"],
  "every history x buffer sizes from the minimum upwards x every placement of Flush calls",
  "Tests use the default buffer and flush once at the end.",
  ["writer.go", "printer.go"],
  [("buffered printer", "writer.go:newWriter, printer.go"), ("Flush / EndAllFlush", "writer.go:Flush,EndAllFlush")],
  [("bufio.Writer", "pending bytes", "printer.go:printer")], ["bytes received by the io.Writer over time"])
p("C11", "Indenting adds only newlines and indentation, and only where allowed",
  "With the standard indenter, the output differs from the unindented output of the same history only by inserted line breaks, each the configured newline string followed by one indent string per enclosing element, DTD or attribute list, plus one newline when a document ends. They are inserted only between pieces of markup (elements, comments, DTD parts): never next to or inside text, CDATA, comments, processing instructions or attributes, never inside an empty element, and errors and depth are unaffected.",
  ["histories", "configurations"],
  "every history over all node types x indent strings x newline strings, including mixed content and DTDs",
  "indenter_test.go compares about fifteen literal documents.",
  ["indenter.go", "node.go", "writer.go"],
  [("standard indenter", "indenter.go:StandardIndenter.Indent"), ("event emission", "node.go, writer.go:writeBeginCur")],
  [("indenter stack", "indent level and number of indents written at it", "indenter.go:StandardIndenter.stack,depth"), ("last", "previous event", "writer.go:Writer.last")], ["bytes received by the io.Writer"])
p("C12", "Custom indenters see every node transition exactly once, in order",
  "A custom indenter is told of every transition of every node: open, opened and ended for startable nodes and one open event for each other node, exactly once and in document order, each time with the immediately preceding event, the right node kind and the right child count. Every text and comment content passes through its Wrap exactly once before being checked and written, and an error returned by it is returned by the call that caused the event.",
  ["histories", "configurations"],
  "every history over all node types with a recording, wrapping or failing custom indenter",
  "No test installs a custom Indenter.",
  ["indenter.go", "node.go", "writer.go", "nodes.go", "attr.go", "dtd.go"],
  [("event emission", "node.go:open,opened,end; writer.go:writeBeginCur"), ("Wrap", "nodes.go:Text.write,CommentContent.write")],
  [("last", "previous event", "writer.go:Writer.last")], ["calls received by the Indenter"])
p("C13", "Content that would break the markup is rejected with validation on",
  "With validation on, comment content that would form '--' or end in '-', CDATA content that would form ']]>', processing instructions with target 'xml' in any case or content containing '?>', forbidden (and in strict mode discouraged) characters or invalid UTF-8 in any of these, invalid or empty names, identifiers with illegal characters or unquotable literals, and inconsistent declarations are refused with an error, even when the offending sequence is split over several calls; everything else is accepted. A refused content call writes nothing of that content.",
  ["inputs", "histories"],
  "every content string and every way of splitting it over consecutive calls, for every validated field of every node type, strict or not",
  "Tests try one bad string per check, always in one piece.",
  ["nodes.go", "dtd.go", "elem.go", "attr.go", "printer.go", "check.go"],
  [("comment and CDATA checks", "nodes.go:CommentContent.write,CDataContent.write"), ("PI checks", "nodes.go:PI.write"), ("external ids and literals", "printer.go:writeExternalID,writeSystemID,writeEntityValue,writePublicID"), ("declaration checks", "dtd.go")],
  [], ["error result", "bytes received by the io.Writer"])
p("C14", "Turning validation off removes checks and changes nothing else",
  "With validation off no call is refused for placement, names, characters or content: the markup is written as asked, in the same form. Any history that is accepted with validation on produces the same bytes, results and depth with it off, and validation can be switched on and off at any point between calls, taking effect from the next call.",
  ["histories", "configurations"],
  "every history, accepted or not, x on/off x every switching point",
  "Tests turn validation off in a handful of fixed cases.",
  ["writer.go", "elem.go", "attr.go", "nodes.go", "dtd.go", "printer.go"],
  [("Enforce tests", "writer.go:pushBegin and every node's write/open")],
  [("Enforce", "validation switch", "writer.go:Writer.Enforce")], ["error result", "bytes received by the io.Writer"])
p("C15", "DTD declarations are written with the right keywords, quoting and brackets",
  "Every DTD declaration is written as the corresponding XML declaration: the external identifier as SYSTEM or PUBLIC with literals in a quote style that does not clash with their content, the attribute default as the documented choice of literal, #FIXED, #REQUIRED or #IMPLIED with escaped values, parameter entities and NDATA as asked. The internal subset brackets appear exactly when the DTD has at least one child, and each declaration and attribute list is closed exactly once.",
  ["inputs", "histories"],
  "all combinations of names, identifiers, contents, default kinds and values, quotes and members, inline or step by step, in any order in a DTD or on their own",
  "Tests give one example per declaration form.",
  ["dtd.go", "printer.go"],
  [("declarations", "dtd.go"), ("literal quoting", "printer.go:writeExternalID,writeSystemID,writeEntityValue"), ("subset brackets", "dtd.go:DTD.opened,end")],
  [("children of the DTD node", "whether [ was written", "node.go:node.children")], ["bytes received by the io.Writer"])
p("C16", "The XML declaration reflects the document and writer settings",
  "Starting a document writes one XML declaration followed by the newline string, with version, encoding and standalone in that order: the version is the forced one, else the writer's, else 1.0, unless suppressed; the encoding is the forced one, else the one the writer was opened with, unless suppressed or empty; standalone appears as yes or no exactly when set. Under validation an illegal encoding name is refused, and a document may only be started when nothing is open.",
  ["configurations", "inputs"],
  "all combinations of suppress, force, standalone, writer version, newline string and opening encoding",
  "Tests cover about ten combinations.",
  ["nodes.go", "writer.go", "check.go"],
  [("declaration", "nodes.go:Doc.open"), ("encoding names", "check.go:CheckEncoding")],
  [("Version, encoding, NewlineString", "writer settings", "writer.go:Writer")], ["bytes received by the io.Writer"])
p("C17", "Writing in another encoding preserves the document",
  "With a writer opened for another encoding, decoding the sink's bytes from that encoding gives exactly the document the UTF-8 writer would have produced for the same history, apart from the declared encoding name; characters of text and attribute values the encoding cannot represent appear as numeric character references to them. This does not depend on buffer size or flush placement, even when a multi-byte character straddles a buffer boundary.",
  ["inputs", "configurations", "histories"],
  "every history and string x single-byte and multi-byte encodings x buffer sizes and flush points",
  "encoding_test.go encodes two short documents.",
  ["writer.go", "printer.go"],
  [("transcoding writer", "writer.go:OpenEncoding")],
  [("transform.Writer", "undecoded tail", "golang.org/x/text/transform")], ["bytes received by the io.Writer"])
p("C18", "An error collector keeps the first error of its whole lifetime",
  "However many times Do is called and with whatever lists of results, an error collector holds the first non-nil error it was ever given, with the 1-based position in its list and the file and line of that call, and Do never replaces or loses a retained error. Set, Panic, Error and unwrapping report the retained error and do nothing when there is none; Must does nothing for a list without errors, and otherwise panics with the collector, which then holds the first error of that list with its position, file and line.",
  ["histories"],
  "every sequence of Do, Must, Set and Panic calls with any lists of nil and non-nil errors",
  "errs_test.go uses one Do call per collector.",
  ["errs.go"],
  [("first error retained", "errs.go:Do,Must"), ("reporting", "errs.go:Set,Panic,Error,Unwrap")],
  [("Err, Index, File, Line", "the retained error", "errs.go:ErrCollector")], ["fields and results of ErrCollector"])
p("C19", "The character and name checks decide exactly the documented productions",
  "For every string, the exported checks for names, characters (strict and not), encoding names and public identifiers accept exactly the strings of the XML productions they document (the empty string included), whatever the position of the deciding character; invalid UTF-8 is never accepted as valid characters, and strict character checking additionally excludes exactly the discouraged characters XML lists.",
  ["inputs"],
  "every Unicode code point at the first, middle and last position, and every invalid byte, for each check",
  "check_test.go samples a dozen strings.",
  ["check.go", "tables_gen.go", "gentables.go"],
  [("checks", "check.go"), ("name table", "tables_gen.go, gentables.go")],
  [("nameChar", "name character classes", "tables_gen.go:nameChar")], ["error results of the Check functions"])
p("C20", "Writers are independent of each other and of their own past",
  "What a writer writes depends only on its own configuration and calls: interleaving or running concurrently any number of writers, even ones built from the same option values, gives each the output it would produce alone, without data races. Node values passed in are never modified and may be reused for any number of writes, and a node's output never depends on what earlier, already ended nodes contained.",
  ["schedules", "histories"],
  "every interleaving of several writers' histories, concurrent runs, shared options and node values, and any earlier history in the same writer",
  "Tests use one writer at a time with fresh values.",
  ["writer.go", "node.go", "elem.go", "indenter.go"],
  [("per-writer state", "writer.go:newWriter,WithIndent,WithIndentString"), ("slot clearing", "node.go:clear"), ("value copies of nodes", "elem.go:start,open")],
  [("Writer.nodes", "reused stack slots", "writer.go:Writer")], ["bytes received by each io.Writer", "node values after the call"])
p("C21", "Typed attribute values read back as the value given",
  "Setting an attribute from a boolean, any signed or unsigned integer or a float gives a value whose text reads back as exactly that value, for the whole range of each type: plain decimal for integers, true/false for booleans, for floats the fewest significant digits that identify the value at its own precision, in full for decimal exponents from -4 to 5 and with an exponent otherwise. The attribute's name, prefix and URI, and the value it was derived from, are left as they were.",
  ["inputs"],
  "every value of every supported type, in particular extremes, sign changes, powers and random bit patterns",
  "writer_test.go uses one small value per setter.",
  ["attr.go"],
  [("setters", "attr.go:Bool,Int*,Uint*,Float*")],
  [], ["Attr value and the written attribute"])
p("C22", "The script runner does what the equivalent API calls do",
  "Running a gotester script produces exactly the output of the corresponding sequence of writer calls, for every command, parameter and white-space mode (ws=\"strip\" trims and collapses XML white space, anything else leaves content alone), and the debugging parameters line, pos and fn never have an effect. A script with an unknown action, kind or parameter, an invalid boolean, or a command the writer rejects makes it exit with a failure status.",
  ["programs"],
  "every script over all commands, parameters and content, with and without indenting",
  "The package has no tests; its shell suite needs tools and data that are not part of the repository.",
  ["tester/gotester/main.go", "tester/gotester/xwrunner.go"],
  [("command dispatch", "tester/gotester/xwrunner.go:writers,starters,enders,Exec"), ("content cleaning", "tester/gotester/xwrunner.go:CleanContent")],
  [("XWRunner.active", "writer created lazily, by the document's encoding", "tester/gotester/xwrunner.go:XWRunner")], ["stdout and exit status"])
p("C23", "No sequence of calls makes the writer panic or hang",
  "Whatever sequence of calls with non-nil arguments is made on a writer, in any order, with any strings, kinds, depths and settings, including after errors, after sink failures and with everything already ended, each call returns (with or without an error); none panics or loops forever. Afterwards the nesting depth is within what the call can have changed: a refused call never closes more than it was asked to close, and ending everything always ends up with nothing open unless it fails.",
  ["histories", "inputs", "fault_sequences"],
  "every call sequence, valid or not, over every node type and end call, any configuration, healthy or failing sink",
  "Tests only make calls that are expected to make sense.",
  ["writer.go", "node.go", "nodekind.go", "indenter.go", "nodes.go", "dtd.go", "elem.go", "attr.go"],
  [("stack guards", "writer.go:pop,End,EndAny"), ("kind names", "nodekind.go:Name,names"), ("indenter stack", "indenter.go:Indent")],
  [("nodes/current", "stack and its top", "writer.go:Writer")], ["return of each call"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
