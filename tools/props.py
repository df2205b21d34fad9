#!/usr/bin/env python3
"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "Every client of a running server gets exactly its own complete response",
  "While the server runs, every client that connects and sends a well-formed request receives exactly one complete response, produced by the handler its own request selects from its own request bytes, followed by end of stream - never another client's bytes, never a truncated or interleaved response, never silence. This holds for any number of worker threads, any number of simultaneous clients and any response sizes, including many large responses in flight at once, whatever signals the application handles and whatever other servers start on the machine, even with the same queue names. Clients that send malformed requests, disconnect mid-request or vanish before reading their response never stop or corrupt the service of other clients, nor make the server leak connections.",
  ["schedules", "histories", "inputs"],
  "all thread counts, all sets of concurrent well-formed clients and response sizes, all interleavings with misbehaving clients",
  "No existing test starts the server; they only call two parsing functions. Concurrency, queue-full and misbehaving-client behaviour need many simultaneous connections.",
  ["src/server.c", "src/grengine.c"],
  [("acceptor/handler/responder threads joined by two message queues", "src/server.c"), ("chunked sending, re-queueing unfinished responses", "src/server.c, src/grengine.c")],
  ["client TCP sockets on loopback", "file descriptors of the server process"])

p("C02", "The first route whose verb and regular expression match handles the request",
  "A request is handled by the first registered route whose verb equals the request's verb exactly and whose POSIX extended regular expression matches the request's path; the handler sees the request's own verb and path, and the requested number of match groups delimit exactly the substrings that expression matched. When no route qualifies, or a handler returns 404 with an empty body, the response comes from the custom 404 handler if one was installed and from the built-in 404 page otherwise. The clean-up function of the route that produced the response is the one that runs, and it runs exactly once.",
  ["inputs", "configurations"],
  "all route tables, verbs, paths and 404-handler configurations",
  "No existing test dispatches a request to a route; routing depends on the whole table, its order and every path.",
  ["src/grengine.c", "src/server.c"],
  [("linear scan over the route table with strcmp and regexec", "src/grengine.c"), ("404 fallback", "src/grengine.c"), ("installing a custom 404 handler / cleanup", "src/server.c")],
  ["which handler is called, with which request and match groups", "bytes on the socket"])

p("C03", "A response on the wire is well-formed and carries the handler's exact body",
  "Outside partial (206) responses, for every supported status code the bytes a client receives are the status line of the code the handler returned, a Content-Type equal to the handler's mimetype (text/html when it set none), a Content-Length equal to the body size, Connection: close, every custom header the handler added exactly once, in order and verbatim, one blank line, and then exactly the handler's body bytes, followed by end of stream. This holds for every body size and content, including empty, binary and larger than any send buffer, for every number and length of custom headers, and however few bytes each write to the socket accepts and however often writes are interrupted by signals.",
  ["inputs", "fault_sequences"],
  "all status codes, mimetypes, custom headers, body sizes and contents, and all sequences of partial socket writes",
  "No existing test produces a response. Size arithmetic, header formatting and short writes depend on unbounded sizes and on what the kernel accepts per call.",
  ["src/grengine.c"],
  [("header size computed from the format strings and numbers", "src/grengine.c"), ("custom header list", "src/grengine.c"), ("sending in chunks and tracking how much was sent", "src/grengine.c")],
  ["bytes read from the peer socket until EOF"])

p("C04", "A range request returns exactly the requested bytes with consistent framing",
  "When a request has a Range header asking for a satisfiable range of a successful (200) non-empty response, the reply is 206 and its body is exactly that slice of the full body - from the first requested byte to the last requested byte or the end of the body, whichever comes first - with a Content-Length equal to the number of bytes sent and a Content-Range naming exactly those bytes and the full size. If the requested range starts beyond the end of the body or cannot be parsed, the whole body is delivered with equally consistent framing. The Content-Type is the handler's in either case. Responses other than 200 and empty bodies are never turned into partial responses.",
  ["inputs"],
  "all body sizes, status codes and Range header values",
  "One existing test parses two Range headers; no test asks for a partial response. Off-by-one and underflow errors depend on the relation between offset, limit and body size.",
  ["src/grengine.c", "src/parse.c"],
  [("206 branch of response generation", "src/grengine.c"), ("range header parser", "src/parse.c")],
  ["bytes read from the peer socket until EOF"])

p("C05", "A request is understood the same however its bytes are segmented",
  "The response to a request depends only on the request's bytes: splitting them into any sequence of writes, at any boundaries - inside the request line, a header, the blank line or the body - and of any total size up to the documented maximum request size yields the same request for the handler and the same response. The same holds when reads return fewer bytes than have arrived or are interrupted by signals. In particular no request hangs the worker because its size happens to match a read-buffer boundary, and no header or body byte is lost or duplicated.",
  ["schedules", "inputs"],
  "all well-formed requests and all ways TCP can deliver their bytes",
  "No existing test reads a request from a socket. The defect class lies in the segmentation, of which there are exponentially many.",
  ["src/grengine.c", "src/parse.c"],
  [("reading from the socket until the request is complete", "src/grengine.c"), ("Content-Length driven body completion", "src/grengine.c")],
  ["request seen by the handler", "bytes on the socket"])

p("C06", "Hostile or broken input never corrupts memory or stops the server process",
  "Whatever bytes a client sends - empty input, truncated or malformed request lines, oversized paths or verbs, missing or absurd headers, arbitrary binary data, or a connection that is closed or reset at any point - request processing performs no out-of-bounds access and no use of freed memory, never aborts, never hangs and does not take seconds of computing for a request within the documented maximum size. It either invokes a handler or rejects the request cleanly, and the next request on a new connection is served normally.",
  ["inputs", "fault_sequences"],
  "all byte strings a client may send and all points at which the connection may end or fail",
  "Existing tests feed six hand-written valid requests to the parser.",
  ["src/grengine.c", "src/parse.c", "src/utils.c"],
  [("request-line and header bounds checks", "src/parse.c"), ("error paths of response generation", "src/grengine.c")],
  ["sanitizer reports", "process liveness", "a follow-up well-formed request"])

p("C07", "Serving a request releases every resource it acquired",
  "After a connection has been processed - answered completely, answered with an error, rejected as malformed, or aborted by the peer before or during the response - no heap memory, memory mapping or file descriptor acquired for it remains, and the route's clean-up function ran exactly once if and only if a handler produced a response for it, with the status code that response carried. This holds for every kind of handler body (raw buffers, heap buffers, mapped files, rendered templates), with or without form data, ranges and custom headers.",
  ["histories", "fault_sequences", "inputs"],
  "all requests, handlers and connection failures, in any order and number",
  "Existing tests never look at resources; leaks show up only over histories of requests, in particular failing ones.",
  ["src/grengine.c", "src/server.c", "src/parse.c"],
  [("cleanup and error labels of response generation and sending", "src/grengine.c"), ("cleanup helpers for heap and mapped bodies", "src/grengine.c")],
  ["allocator statistics", "/proc/self/fd", "/proc/self/maps", "calls of the clean-up function"])

p("C08", "The handler sees the request's verb, path, headers and body exactly",
  "For every well-formed request, parsing yields exactly its verb, its path, its complete header block up to and including the blank line, and its body - byte for byte, including NUL and non-ASCII bytes, with its exact length - where the body is as long as the declared Content-Length or the bytes actually received, whichever is smaller. Input without a terminated header block, without the two spaces that delimit a path, or with a path of 512 bytes or more is rejected.",
  ["inputs"],
  "all verbs, paths, header blocks and bodies within the documented size limits",
  "Existing tests parse a handful of fixed requests with text bodies.",
  ["src/parse.c", "src/grengine.c"],
  [("request-line scanner and header terminator search", "src/parse.c"), ("body extraction from Content-Length and bytes received", "src/parse.c")],
  ["the parsed request structure"])

p("C09", "Header lookup returns exactly the named field's value",
  "Looking up a header field returns the complete value of the first header line whose field name equals the requested name, ignoring case, and nothing when there is no such line. Text that merely contains the name - in the path, in another field's name or in another field's value - is never mistaken for the field.",
  ["inputs"],
  "all header blocks and field names",
  "No existing test looks up a header on its own; confusion needs adversarial placement of the name.",
  ["src/parse.c", "src/grengine.c"],
  [("header search", "src/parse.c")],
  ["return value of the lookup"])

p("C10", "Form-encoded bodies decode to the submitted fields",
  "For a form-encoded request, looking up a submitted key yields the URL-decoded value that was submitted for it (the last one when the key repeats), for any number of fields and any field contents, including '=' signs inside values, long values and long keys. Keys that were not submitted are absent, malformed fields are skipped without affecting the others, and parsing the form leaves the raw body available to the handler unchanged.",
  ["inputs"],
  "all lists of fields, encodings of their values and malformed fields between them",
  "One existing test parses one fixed two-field form.",
  ["src/parse.c", "src/utils.c", "src/simple_sparsehash.c"],
  [("splitting on & and =", "src/parse.c"), ("URL decoding of values", "src/utils.c"), ("dictionary of fields", "src/simple_sparsehash.c")],
  ["dictionary lookups on the parsed request", "the raw body"])

p("C11", "URL decoding inverts URL encoding and rejects malformed escapes",
  "Decoding any percent-encoded text yields the original bytes, with '+' decoded to a space and hexadecimal digits accepted in either case, and reports the length of the decoded text including its terminator. A '%' that is not followed by two hexadecimal digits is reported as an error. Decoding never reads beyond the end of the input and never writes more bytes than the input is long.",
  ["inputs"],
  "all strings without NUL, all choices of which bytes are escaped, all malformed escapes",
  "Only one fixed string is decoded, indirectly, by existing tests.",
  ["src/utils.c"],
  [("URL decoder", "src/utils.c")],
  ["decoded buffer and return value"])

p("C12", "Cookie lookup returns exactly the named cookie's value",
  "Looking up a cookie by name in a Cookie header value returns exactly the value of the first cookie with that exact name, without the separator, and nothing when no cookie has that name. Cookies whose name or value merely contains the requested name are never confused with it, wherever they appear.",
  ["inputs"],
  "all cookie lists and names",
  "No existing test reads cookies.",
  ["src/utils.c"],
  [("cookie scanner", "src/utils.c")],
  ["return value of the lookup"])

p("C13", "Range header values parse to the numbers they state",
  "A Range value of the form bytes=A-B with B at least A parses to offset A and limit B, and bytes=A- (or a B smaller than A or too large to represent) parses to offset A with no limit. A value without the bytes= prefix, without a dash, or whose first number cannot be represented parses to 'no range' (zero offset, zero limit). The result depends on the value alone, not on anything parsed before it.",
  ["inputs", "histories"],
  "all numbers and malformed values, in any sequence",
  "Existing test: two fixed values.",
  ["src/parse.c"],
  [("range header parser", "src/parse.c")],
  ["the parsed offset and limit"])

p("C14", "Static files and rendered files are delivered byte for byte",
  "Serving a file delivers exactly its bytes for every size, including zero and multiples of the page size, with a mimetype determined by the file name's extension of up to 14 characters (text/html for names without one, application/octet-stream for unknown ones) unless the handler chose another. Rendering a file as a template delivers exactly what rendering its text gives. A file that is missing or cannot be opened yields 404 with a non-empty explanatory body, and no resources remain in any case. The file helpers report a file's size and the time it last changed, 0 for a missing one. None of this depends on which descriptors the process has open, standard input included.",
  ["inputs", "configurations"],
  "all file contents, sizes and names, existing or not",
  "No existing test serves a file.",
  ["src/grengine.c"],
  [("mapping a file into the response", "src/grengine.c"), ("mimetype table", "src/grengine.c"), ("rendering a mapped file", "src/grengine.c")],
  ["response body, size, mimetype and status code", "bytes on the socket"])

p("C15", "Rendering replaces variables by their values and nothing else",
  "Rendering a template replaces every variable reference, including references to members of sub-contexts, by the value bound to that name - the first binding added in the innermost context that has one - and leaves every other byte of the template unchanged, whatever the lengths, positions and number of references, lines and bindings. A template without directives renders to itself. Names are matched in full, so a name that is a prefix of another is never confused with it.",
  ["programs", "inputs"],
  "all templates built from literal text and references, all contexts with values free of template syntax",
  "Existing tests render about six fixed templates.",
  ["src/greshunkel.c"],
  [("line interpolation with regular expressions", "src/greshunkel.c"), ("name lookup through parent contexts", "src/greshunkel.c")],
  ["rendered text"])

p("C16", "Loops render their body once per item, in order",
  "A loop block renders its body once for each item of the array, in insertion order, with the loop name bound to the item (shadowing outer names inside the body only), whether items are strings, integers or sub-contexts; an empty array renders nothing. The text before and after the block is unaffected, each block ends at the nearest end marker, and a template may contain any number of loops over any number of items, over the same array as often as it likes.",
  ["programs", "inputs"],
  "all templates with loops, all arrays",
  "Existing tests loop over fixed arrays of three and six items.",
  ["src/greshunkel.c"],
  [("loop interpolation", "src/greshunkel.c"), ("child context per item", "src/greshunkel.c")],
  ["rendered text"])

p("C17", "Conditional blocks render exactly when their condition says so",
  "An UNLESS block on a plain name renders its body exactly when the name is unbound, is the string FALSE, is an empty string or is an empty array, and an UNLESS NOT block exactly when the name is bound to anything else; for one name - plain, or the bound member of a sub-context - exactly one of the two forms renders. The body is rendered like any other template text, including loops and includes inside it, and the other form leaves no trace of it. Each block ends at the nearest end marker and does not affect text before or after it.",
  ["programs", "inputs"],
  "all conditional templates, names and bindings (the empty string only for the complementarity)",
  "Existing tests use a fixed set of three names.",
  ["src/greshunkel.c"],
  [("conditional interpolation, truthiness predicates", "src/greshunkel.c")],
  ["rendered text"])

p("C18", "Filters receive their argument and their result replaces the call",
  "Every filter call in a template invokes the registered filter of exactly that name with exactly the argument text written in the template, after variables in it have been replaced, or with no argument when none is written, and the call is replaced by exactly the filter's result. Several calls on one line are evaluated independently, filters are found through enclosing contexts, and the filter's clean-up function, if any, receives each result exactly once after it has been used.",
  ["programs", "inputs"],
  "all templates with filter calls, all filters whose results contain no template syntax",
  "Existing tests use constant filters that ignore their argument.",
  ["src/greshunkel.c"],
  [("filter interpolation", "src/greshunkel.c")],
  ["rendered text", "arguments and clean-up calls recorded by the filters"])

p("C19", "Includes insert the whole rendered file",
  "An include directive is replaced by the complete rendered content of the named file, for files of any size, with the including template's variables, arrays, filters and sub-contexts available to it, and included files may themselves include others. An include inside a loop or conditional body behaves the same way.",
  ["programs", "inputs"],
  "all file sizes and contents, nesting of includes, contexts",
  "Existing tests include one 150-byte file.",
  ["src/greshunkel.c"],
  [("include interpolation", "src/greshunkel.c")],
  ["rendered text"])

p("C20", "Rendering is pure, bounded, exact in size and leak-free",
  "Rendering reads only the given template bytes (the buffer need not be terminated), does not change the template or the context, and gives the same result every time it is repeated with the same context; the returned text is terminated and its reported size is exactly its length. Rendering and then freeing the context, with any mix of strings, arrays and sub-contexts in it, releases all memory.",
  ["programs", "histories", "inputs"],
  "all valid templates and contexts, repeated renderings, any buffer placement",
  "Existing tests render once, from terminated buffers, and check neither sizes nor memory.",
  ["src/greshunkel.c", "src/vector.c"],
  [("line reader, output assembly", "src/greshunkel.c"), ("context ownership", "src/greshunkel.c")],
  ["rendered text and size", "sanitizer reports", "allocator statistics"])

p("C21", "Strings, integers and names are stored faithfully in template contexts",
  "Every value added to a context or array renders as exactly what was added: strings byte for byte up to 512 bytes and cut to their first 512 bytes beyond that, integers as their decimal form over the whole integer range, for any number of bindings and items. Names of up to 31 characters are kept apart in full. Adding values never disturbs values added earlier.",
  ["inputs", "histories"],
  "all values, integers, names and numbers of bindings",
  "Existing tests add fewer than ten short values.",
  ["src/greshunkel.c", "src/vector.c"],
  [("context and array insertion", "src/greshunkel.c"), ("growing vector", "src/vector.c")],
  ["rendered text"])

p("C22", "The vector behaves as a sequence under every history of operations",
  "After any sequence of appends (of values, shorter values or pointers), reversals and reads, a vector's length and every element equal those of a plain list subjected to the same operations, for every element size and initial capacity including zero. Reading an index at or beyond the length yields nothing, appending an item larger than the element size is refused and changes nothing, and an append that fails for lack of memory leaves the vector unchanged and usable.",
  ["histories", "fault_sequences"],
  "all operation sequences, element sizes, initial capacities and allocation failures",
  "Existing tests append a fixed number of items to one vector of each kind.",
  ["src/vector.c"],
  [("amortised growth", "src/vector.c")],
  ["length and elements"])

p("C23", "The dictionary behaves as a map under every history of operations",
  "After any sequence of insertions and overwrites, looking up a key yields the value most recently stored for exactly that key, with its exact size, and nothing for a key never stored - for any number of entries (through every growth of the table), any key and value bytes and lengths, keys that are prefixes of one another, and keys with equal hash values. Insertions always succeed while memory lasts, an insertion that fails for lack of memory leaves every other entry as it was, stored values are independent copies, and freeing the dictionary releases everything.",
  ["histories", "inputs"],
  "all operation sequences, keys and values",
  "No existing test uses the dictionary except through one two-field form.",
  ["src/simple_sparsehash.c"],
  [("open addressing with quadratic probing, rehash on growth", "src/simple_sparsehash.c")],
  ["lookup results and sizes"])

p("C24", "The sparse array behaves as a bounded array of optional elements",
  "After any sequence of stores, reading an index yields the bytes and size most recently stored there, and nothing for an index never stored, whatever the order in which indices are filled and however many groups they span. Indices at or beyond the declared maximum and elements larger than the element size are refused without any effect, and a store that fails for lack of memory leaves every other element as it was.",
  ["histories"],
  "all operation sequences, maxima and element sizes",
  "No existing test uses the sparse array.",
  ["src/simple_sparsehash.c"],
  [("bitmap with popcount ranks", "src/simple_sparsehash.c")],
  ["stored elements and sizes"])

p("C25", "String helpers agree with their definitions for all lengths",
  "Bounded substring search finds the first occurrence that lies entirely within the given number of characters, including one that ends exactly at the bound, and nothing otherwise; the suffix test holds exactly when the string ends with the suffix; and the string hash equals the 64-bit FNV-1a hash, printed in upper-case hexadecimal without padding, for inputs of every length (several gigabytes included) and any bytes.",
  ["inputs"],
  "all strings, bounds and lengths",
  "No existing test calls these helpers directly.",
  ["src/utils.c"],
  [("bounded search, suffix test, FNV-1a", "src/utils.c")],
  ["return values"])

p("C26", "The Python binding renders like the C library",
  "For every template and context expressible in Python - strings with any Unicode text, integers of the C int range, lists, nested dictionaries and filter functions - rendering through the Python binding gives exactly the text the C library's semantics prescribe for them, every time it is repeated.",
  ["programs", "inputs"],
  "all templates and Python contexts",
  "The existing Python test renders one ASCII template and asserts nothing.",
  ["python/greshunkel.py", "src/greshunkel.c"],
  [("ctypes declarations and conversions", "python/greshunkel.py")],
  ["rendered text in Python"])

p("C27", "Every log message appears whole, once, in its place, with its own time",
  "A message passed to the logging function appears as exactly one line - local date and time at which it was logged, the coloured symbol of its level, and its text, cut after 799 bytes - on standard error for errors and on standard output otherwise, and it is there when the call returns. This also holds when many threads log at once: lines are never mixed, lost, repeated or stamped with another message's time, and each thread's lines stay in order. The server logs every request it answers with exactly one line naming the X-Real-IP header (NOIP without one), verb, path, status and body size of the response sent, and the User-Agent (NOUSERAGENT without one), whatever bytes these contain and whatever the sizes; rejected input gets none.",
  ["schedules", "inputs"],
  "all messages, levels, times, numbers of threads and interleavings; all requests and responses",
  "No existing test looks at what is logged; the tests log a few fixed lines from one thread.",
  ["src/logging.c", "src/grengine.c"],
  [("formatting into a bounded buffer, one fprintf per message, flush", "src/logging.c"), ("request line of the log", "src/grengine.c")],
  ["standard output and standard error of the process"])

p("C28", "Threads that use objects of their own do not affect one another",
  "A call gives, in any number of threads at once, exactly what the same call gives alone, as long as the threads use separate objects: parsing requests, bodies and forms, looking up headers and cookies, decoding, reading ranges, searching and hashing text, vectors, dictionaries and sparse arrays, rendering templates (also with one context shared by all, as handlers do that render a context built at start-up), answering whole requests from separate applications on separate connections, and delivering files. The library keeps no state between calls that one thread could see of another.",
  ["schedules", "inputs"],
  "all inputs, all combinations of calls in different threads and all interleavings of them",
  "The existing tests run in one thread; a static buffer or a cache passes all of them.",
  ["src/parse.c", "src/utils.c", "src/greshunkel.c", "src/grengine.c", "src/vector.c", "src/simple_sparsehash.c"],
  [("no mutable static data in the request, template and container code", "src/"), ("regular expressions compiled per rendering", "src/greshunkel.c"), ("the worker pool that makes this necessary", "src/server.c")],
  ["callers of the library in several threads", "simultaneous requests"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
