TECH = "deterministic simulation with fault injection: "
def q(over, text): return {"over": over.split(), "text": text}
def anchors(files, *mech, observe=None, state=None):
    a = {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return a
NA = {}
NOTES = "One binary (harness/, package detsim) runs the real code of /repo under a simulated libc: scheduler, clock, entropy, disk, sockets, pipes. See DESIGN.md."
PROPS = [
 dict(id="M01", title="Loads acknowledged by the MCP server survive any crash",
  statement="When the stdio MCP server answers a data load with success, every triple of that load is served again after the server is restarted, whether it was stopped cleanly, killed, or lost power at any later moment. A restarted server never serves a triple that no client loaded, and always starts.",
  quantifier=q("crash_points histories schedules", "every sequence of concurrent or sequential loads, every moment at which the process is killed or power is lost, over several restarts"),
  why_tests_cant="The existing tests save and restore a state file once, with no crash: they never stop the process between a write and its rename or before data reaches the disk, and never load from two requests at once.",
  anchors=anchors("rudof_mcp/src/service/state.rs rudof_mcp/src/service/tools/data_tools_impl.rs rudof_mcp/src/service/mcp_service.rs rudof_mcp/src/server/stdio_server.rs",
    ("state written to a temporary file, synced, then renamed over the old one", "rudof_mcp/src/service/state.rs"),
    ("state persisted before the tool answers", "rudof_mcp/src/service/tools/data_tools_impl.rs"),
    observe=["tool answers on stdout", "export_rdf_data after restart"]),
  technique=TECH + "crash points over a volatile/durable disk model", level="fault_enumeration",
  note="Seeded search over schedules and crash points of the real server (thousands of process lives per run); not exhaustive. The disk model drops any subset of writes, truncations and directory entries that were not synced, including torn pages."),
 dict(id="M02", title="A failing or interrupted save never harms MCP state saved before",
  statement="If saving the MCP server's state fails part way (disk full, I/O error, refused open or rename, crash or power loss), the state saved earlier stays complete: a restarted server serves at least everything the last successful save contained, and nothing that was never loaded.",
  quantifier=q("fault_sequences crash_points histories", "every sequence of disk faults during saves, with a crash or clean stop afterwards, over several restarts"),
  why_tests_cant="No test injects a disk error into a save; the all-success path is the only one they run.",
  anchors=anchors("rudof_mcp/src/service/state.rs rudof_mcp/src/service/tools/data_tools_impl.rs",
    ("write to a temporary file and rename", "rudof_mcp/src/service/state.rs"),
    observe=["export_rdf_data after restart"]),
  technique=TECH + "disk faults and crashes during state saves", level="fault_enumeration",
  note="Seeded search; faults: EIO, ENOSPC, EMFILE, EACCES, short writes, EINTR on open/write/fsync/rename, then kill or power loss. The oracle is the set of triples the last fault-free save must hold."),
 dict(id="M03", title="Concurrent MCP tool calls behave as if executed one after another",
  statement="Tool calls sent to one MCP session without waiting for each other give the answers, and leave the dataset, that some one-at-a-time order of the calls would give, an order that respects which calls had been answered before others were sent. A load adds all its sources or none of them; a rejected load changes nothing; a cancelled call has its whole effect or none; exports, queries, node inspection and validation see the data of exactly the loads before them.",
  quantifier=q("schedules histories", "every interleaving of up to about ten overlapping load, export, query, node inspection, ShEx and SHACL calls, with cancellations at any moment"),
  why_tests_cant="The tests call one tool at a time and wait for it. The embedded SPARQL store, the shared lock and multi-source loads only go wrong when calls overlap or follow each other in particular orders.",
  anchors=anchors("rudof_mcp/src/service/tools/data_tools_impl.rs rudof_mcp/src/service/tools/query_tools_impl.rs rudof_mcp/src/service/tools/node_tools_impl.rs rudof_mcp/src/service/mcp_service.rs rudof_lib/src/api/data/implementations/load_data.rs rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs",
    ("one RwLock around the Rudof instance", "rudof_mcp/src/service/mcp_service.rs"),
    ("multi-source load with roll back", "rudof_lib/src/api/data/implementations/load_data.rs"),
    ("lazily built embedded store", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"),
    observe=["tool answers on stdout"]),
  technique=TECH + "linearizability of recorded tool-call histories against a set-of-triples model", level="exploration",
  note="Seeded random schedules, bounded to about twelve calls over 24 triples; histories are judged with an exact linearizability search. Not exhaustive."),
 dict(id="M04", title="Every MCP request is answered exactly once and the server never wedges",
  statement="Whatever mix of requests, valid or not, known or not, arrives, each request the client does not cancel gets exactly one well-formed answer with its id, and standard output carries nothing but protocol messages. A tool that fails or panics, a sampling request the client never answers, a cancellation, or a client that reads slowly holds up no other request. When the client hangs up, the server process ends.",
  quantifier=q("inputs schedules histories", "every sequence of pipelined requests, notifications, cancellations, delayed or missing sampling answers and hang-ups, under every schedule"),
  why_tests_cant="The tests call handler functions directly and in turn; they never run the stdio server, never have two requests outstanding, and never let a tool panic inside the server.",
  anchors=anchors("rudof_mcp/src/service/handlers.rs rudof_mcp/src/server/stdio_server.rs rudof_mcp/src/service/mcp_service.rs rudof_mcp/src/service/tools/query_tools_impl.rs rudof_mcp/src/service/tools/tools_impl.rs rudof_mcp/src/service/resources/resources_impl.rs",
    ("tool calls routed with panics turned into error answers", "rudof_mcp/src/service/handlers.rs"),
    ("sampling before the shared lock is taken", "rudof_mcp/src/service/tools/query_tools_impl.rs"),
    observe=["stdout of the server", "end of the server process"]),
  technique=TECH + "seeded request mixes and schedules against the running server, with bounded-time progress checks", level="exploration",
  note="Seeded search; 'never' means within one hour of simulated time (twenty minutes for the exit). A line that is not JSON ends the session by design of the rmcp transport, so only the exit is checked after one."),
 dict(id="M05", title="MCP log messages respect the client's level and the rate limit",
  statement="The server sends a log message only when its severity is at or above the level the client set last (info until it sets one), and at most fifty per second-long window. Every tool call answered with a protocol error is reported with an error message unless the level or the limit suppresses it, and after a flood reporting resumes with the next window.",
  quantifier=q("schedules histories", "every sequence of bursts of failing and succeeding calls, level changes and pauses around the window, under every schedule and clock"),
  why_tests_cant="The limiter and filter are tested with one caller and the real clock; overlapping calls, level changes in flight and window boundaries are not.",
  anchors=anchors("rudof_mcp/src/service/logging.rs rudof_mcp/src/service/handlers.rs",
    ("level filter and fixed-window limiter", "rudof_mcp/src/service/logging.rs"), observe=["notifications/message on stdout"]),
  technique=TECH + "simulated clock and schedules, history oracle for level, rate and completeness", level="exploration",
  note="Seeded search. A window may start anywhere, so 50*(elapsed seconds+2) messages are tolerated in an interval; level changes in flight permit either level."),
 dict(id="C01", title="A command that exits with success has written its whole output",
  statement="When a rudof command exits with status 0, its result is complete wherever it was sent: standard output, the -o file, the precompiled schema cache and the map-state file hold exactly what they hold when no write fails. When output cannot be written (disk full, I/O error, closed pipe, refused open) the command ends with a non-zero status; it never hangs.",
  quantifier=q("fault_sequences inputs", "every sequence of short, interrupted and failing writes and opens, for every command, result format and data set"),
  why_tests_cant="The tests run commands on healthy disks and pipes and look at the output, so an ignored write error or a buffer that is never flushed is invisible to them.",
  anchors=anchors("rudof_cli/src/main.rs rudof_cli/src/output/writer.rs rudof_cli/src/commands/shex.rs rudof_cli/src/commands/shex_validate.rs rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs ",
    ("buffered writer flushed before exit", "rudof_cli/src/main.rs"), ("cache and map-state files", "rudof_cli/src/commands/shex_validate.rs"),
    observe=["exit status", "standard output", "files written"]),
  technique=TECH + "write and open faults against a fault-free reference execution", level="fault_enumeration",
  note="Seeded search over about 60 command/format combinations on generated data; outputs are compared byte for byte, then up to order and blank node names. Formats that are not implemented (todo!) end with a panic status and are not explored further."),
 dict(id="C02", title="A read failure never silently changes a command's answer",
  statement="When reading an input file or standard input fails part way, is interrupted, or returns few bytes at a time, a rudof command either gives the same result as an undisturbed run or ends with a non-zero status; it never reports success for a part of its input, in strict or lax mode, and never reads for ever.",
  quantifier=q("fault_sequences inputs", "every sequence of short, interrupted and failing reads and opens of data, schema, shape map, query, cache and configuration inputs"),
  why_tests_cant="No test makes a read fail or return less than asked; partial input looks like a smaller valid input to every parser.",
  anchors=anchors("rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs rudof_lib/src/api/data/implementations/load_data.rs rudof_lib/src/formats/input_spec.rs shex_ast/src/ir/schema_ir.rs",
    ("parsers reading from buffered readers, lax mode skipping errors", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"),
    observe=["exit status", "standard output", "files written"]),
  technique=TECH + "read faults against an undisturbed reference execution", level="fault_enumeration",
  note="Seeded search; inputs in Turtle, N-Triples, N-Quads, RDF/XML, JSON-LD, ShExC, ShExJ, SHACL, shape maps, SPARQL, CSV, property graphs, caches, TOML."),
 dict(id="C03", title="Without --force-overwrite a command never changes an existing output file",
  statement="If the file named with -o exists, or another process creates or renames a file to that name at any moment before the command has created it itself, then without --force-overwrite that file keeps its content and the command fails; if the command did create the file, its result is complete. The same holds for commands run inside the interactive shell.",
  quantifier=q("schedules inputs", "every interleaving of the command with another process that creates the same file, for every command"),
  why_tests_cant="The race between looking for the file and opening it needs another process at exactly that moment; the tests run one process.",
  anchors=anchors("rudof_cli/src/output/writer.rs rudof_cli/src/shell/repl.rs", ("exclusive creation", "rudof_cli/src/output/writer.rs"), observe=["content of the output file", "exit status"]),
  technique=TECH + "interleavings with a competing process on the simulated disk", level="exploration",
  note="Seeded search over schedules at system-call granularity."),
 dict(id="C04", title="Results do not depend on hash seeds, thread schedules or CPU count",
  statement="The same rudof command on the same files always ends with the same status and the same result: validation verdicts, SHACL results, query solutions and RDF graphs are equal whatever the hash seeds, thread interleavings and number of CPUs, and for the schemas and queries of the reference model they are the results that model computes.",
  quantifier=q("schedules inputs", "every hash seed, interleaving of the validation threads and CPU count, over generated data sets and a range of commands"),
  why_tests_cant="Each test sees one hash seed and one schedule and expects one hand-picked result; parallel SHACL validation and hash-ordered ShEx search are only wrong under particular orders.",
  anchors=anchors("shacl/src/validator/processor/mod.rs shex_validation/src/engine.rs shex_ast/src/ir/schema_ir.rs rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs rudof_lib/src/api/shacl/implementations/validate_shacl.rs",
    ("parallel evaluation of shapes", "shacl/src/validator/processor/mod.rs"), observe=["exit status", "standard output"]),
  technique=TECH + "two executions under different seeds compared with each other and with an executable reference model", level="exploration",
  note="Seeded search. Explanatory texts and the order of results may vary; compared are verdicts, results, solutions and graphs (up to blank node names)."),
 dict(id="V01", title="SHACL validation reports what the shapes imply, on every schedule",
  statement="For SHACL shapes graphs built from targets (implicit class targets included), node and property shapes, property paths, sh:not/and/or/xone/node/property/qualifiedValueShape, value, class (with subclasses), pair, language and cardinality constraints, closed shapes, SELECT-based SPARQL constraints, severities and deactivation, the report that rudof gives in either validation mode holds exactly the results (focus node, component, path, value, source shape, severity) that the SHACL definitions give for the data, and says conforms exactly when there are none; whatever the hash seeds, the thread schedule and the number of CPUs.",
  quantifier=q("inputs schedules", "every acyclic shapes graph of the fragment, every data graph, every hash seed, interleaving of the validation threads and number of CPUs"),
  why_tests_cant="The tests check a few hand-written shapes graphs on one schedule; results lost or invented because cached results of nested shapes are shared between threads, or because two constraints meet on one shape, only show for particular combinations and orders.",
  anchors=anchors("shacl/src/validator/processor/mod.rs shacl/src/validator/engine/validate.rs shacl/src/validator/cache shacl/src/validator/constraints shacl/src/rdf/parsers rudof_rdf/src/rdf_core/neighs_rdf.rs",
    ("shapes validated in parallel with a shared result cache", "shacl/src/validator/processor/mod.rs"),
    ("shapes graph parser", "shacl/src/rdf/parsers"),
    observe=["SHACL validation report", "sh:conforms"]),
  technique=TECH + "seeded thread schedules and hash seeds over generated shapes and data, against an executable model of SHACL", level="exploration",
  note="Seeded search: up to 6 data nodes, 8 properties' worth of triples and 6 shapes per run; sets of results are compared (rudof merges equal results). Property paths are nested up to three deep; SPARQL constraints come from three query templates ($PATH, ?path and ?value included). Recursive shapes (also by way of disjoint siblings), SPARQL constraints at blank nodes and rules are outside the model; blank nodes appear in native mode only."),
 dict(id="V02", title="ShEx validation answers as the ShEx semantics define",
  statement="For ShEx schemas built from triple constraints with cardinalities, EachOf, OneOf and grouped expressions, node constraints (kinds, datatypes, facets, value sets with stems, language tags and exclusions), AND, OR, NOT, references (recursive ones included, under stratified negation), EXTRA, CLOSED, inverse constraints, named triple expressions, EXTENDS, start and imports (cyclic ones included), rudof reports each node of the shape map as conformant exactly when the ShEx definitions say so, whatever the hash seeds, the order of nodes in the shape map and the order of triples in the data; every pair asked for is answered. A schema in which a shape refers to its own negation is rejected.",
  quantifier=q("inputs histories", "every schema of the fragment spread over one or more files, every data graph, shape map and hash seed"),
  why_tests_cant="The tests compare hand-written schemas with expected answers. The validator decides bags of triples with interval arithmetic on derivatives, caches hypotheses of recursive shapes, and compiles imports into one table; it goes wrong only where particular features meet (a nullable group with a rejected value, EXTRA with references, an import cycle) or nodes are visited in a particular order.",
  anchors=anchors("shex_validation/src/engine.rs shex_ast/src/ir/ast2ir.rs shex_ast/src/ir/schema_ir.rs shex_ast/src/ir/shape.rs rbe/src/rbe.rs rbe/src/feasibility.rs rbe/src/rbe_table.rs",
    ("regular bag expressions decided by intervals or derivatives", "rbe/src"),
    ("hypotheses and typing cache for recursive shapes", "shex_validation/src/engine.rs"),
    ("imports compiled into one schema", "shex_ast/src/ir/ast2ir.rs"),
    observe=["result shape map"]),
  technique=TECH + "seeded hash orders and file layouts over generated schemas and data, against an executable model of ShEx", level="exploration",
  note="Seeded search: up to 6 shapes, 7 triples per node and 8 nodes per run, stratified recursion of any depth; node constraints are also tried against a fixed set of unusual values. EXTRA or CLOSED on extended bases, semantic actions and START actions are outside the model; negation by way of EXTRA or EXTENDS is not counted as negation. Runs whose matching blows up beyond the step budget are counted as inconclusive."),
 dict(id="E01", title="Commands on a SPARQL endpoint answer as on the same data in a file, or fail",
  statement="A query, a ShEx validation or a SHACL validation (native or SPARQL mode) run against a SPARQL endpoint that holds a graph gives the answer that the same command gives on that graph in a file. When the endpoint cannot be reached, answers with an error status, cuts an answer short or resets the connection, the command fails with a non-zero status: it never takes a failed request for an empty answer, and it does not fail when every request was answered (a refusal with status 429 followed by an answer to the retry included).",
  quantifier=q("fault_sequences inputs schedules", "every sequence of refused connections, delays, splits, resets, error statuses, refusals with retry advice and truncated answers, over generated graphs, queries, ShEx schemas and SHACL shapes"),
  why_tests_cant="The tests that use an endpoint need the network and are not run; no test has an endpoint that fails part way through a validation, where one lost answer looks like a node without triples.",
  anchors=anchors("rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs rudof_rdf/src/rdf_impl/sparql_service/rdf_data.rs shacl/src/validator shex_validation/src/engine.rs",
    ("queries sent over HTTP with retries", "rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs"),
    ("neighbourhoods of nodes cached", "rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs"),
    observe=["exit status", "output file", "requests the endpoint received"]),
  technique=TECH + "network and server faults on a simulated endpoint, compared with the same command on a file", level="fault_enumeration",
  note="Seeded search. The endpoint is a simulated HTTP server answering with a reference store (oxigraph). Answers that are wrong but well formed are outside the property, and so is anything but IRIs and literals (an endpoint renames blank nodes)."),
 dict(id="E02", title="Requests to a SPARQL endpoint are paced, retried as advised, and never for ever",
  statement="However fast or slow the endpoint answers, rudof starts a new query no sooner than 1.1 seconds after it started the one before. A query refused with status 429 is sent again only after the time that Retry-After names (one second if it names none, five at most), at most three times; if one of these is answered the command succeeds with the right answer, and after the fourth refusal it fails.",
  quantifier=q("histories schedules", "every sequence of refusals, advice and delays, over the queries that SPARQL, ShEx and SHACL commands send"),
  why_tests_cant="Nothing in the tests observes when requests are sent; with real clocks such a test would take minutes.",
  anchors=anchors("rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs",
    ("rate limiter", "rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs"), ("retries after refusals", "rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs"),
    observe=["times at which requests arrive at the endpoint", "exit status", "output file"]),
  technique=TECH + "simulated clock and scripted refusals, timing oracle over the recorded request history", level="exploration",
  note="Seeded search; arrival times are compared with a tolerance of 10 ms. Retry-After as a date counts as no advice, as in the code."),
 dict(id="E03", title="An input fetched over HTTP is read completely or the command fails",
  statement="A command whose data, schema, shape map, query or imported schema is named by an http: URL, or which dereferences a node, gives the result it gives when these inputs are files. When the server cannot be reached, answers with an error status (even one whose page parses as the expected format), redirects for ever, is too slow, stops in the middle of an answer, cuts the body short or resets the connection, the command fails with a non-zero status; it never waits for ever.",
  quantifier=q("fault_sequences inputs", "every sequence of server and network faults over the inputs of every command"),
  why_tests_cant="The tests have no network; error pages and truncated bodies that still parse are accepted without notice.",
  anchors=anchors("rudof_lib/src/formats/input_spec.rs rudof_iri/src/iri/iris.rs rudof_lib/src/api/data/implementations/dereference.rs shex_ast/src/ir/ast2ir.rs",
    ("URL inputs opened", "rudof_lib/src/formats/input_spec.rs"), ("imports dereferenced", "rudof_iri/src/iri/iris.rs"),
    observe=["exit status", "standard output", "files written"]),
  technique=TECH + "network and server faults on a simulated web server, compared with the same command on files", level="fault_enumeration",
  note="Seeded search; bodies sent with Content-Length, chunked, or ended by closing (which is then never cut, as no client can tell)."),
 dict(id="S01", title="A shell session holds what its successful commands loaded",
  statement="In a session of the interactive shell each command gives the result it gives on the resources (data, ShEx schema, SHACL shapes, shape map, query and its last results) that the commands before it loaded, replaced, merged or reset. A command that fails (wrong syntax, missing file, a read error part way through a file, an output file that exists) leaves every resource as it was or as if exactly that resource had been loaded, never lost and never in part, and the session goes on.",
  quantifier=q("histories fault_sequences", "every sequence of shell commands, including failing ones, and every sequence of read faults, over generated data sets, schemas, shapes, maps and queries"),
  why_tests_cant="The tests run short sessions in which all files can be read; what a session still holds after a command failed half way depends on which resources the command had already touched and on stores derived from them.",
  anchors=anchors("rudof_cli/src/shell/repl.rs rudof_cli/src/commands rudof_lib/src/rudof.rs rudof_lib/src/api/data rudof_lib/src/api/shex rudof_lib/src/api/shacl rudof_lib/src/api/query",
    ("command dispatch, replace or merge", "rudof_cli/src/shell/repl.rs"),
    ("resources held between commands", "rudof_lib/src/rudof.rs"),
    observe=["standard output of each command", "output files", "exit status of the session"]),
  technique=TECH + "random command histories with disk and pipe faults, refinement against an executable model of the session", level="exploration",
  note="Seeded search over sessions of up to 10 commands (24 in the thorough tier), each optionally followed by five that show what is held. Only the resources are modelled, not settings, prefixes or history."),
 dict(id="G01", title="A seed decides the data the generator makes",
  statement="Two runs of `rudof generate` with the same schema, the same generation settings and the same seed (in the configuration file or as an option) make the same set of triples and the same statistics, whatever the thread and task schedule, the number of CPUs and worker threads, the hash seeds of the process, the output format and the splitting of the output over parallel files.",
  quantifier=q("schedules inputs", "every ShEx or SHACL schema of the supported subset, every generation setting and every schedule, hash seed, CPU count and output setting"),
  why_tests_cant="Hash map iteration orders and schedules differ from process to process; a test compares two runs inside one process, if it compares at all.",
  anchors=anchors("rudof_generate/src/parallel_generation.rs rudof_generate/src/random.rs rudof_generate/src/field_generators rudof_generate/src/output.rs rudof_lib/src/api/generate rudof_cli/src/commands",
    ("seeded generators per entity and relationship", "rudof_generate/src/random.rs"),
    ("order of shapes and properties", "rudof_generate/src/parallel_generation.rs"),
    observe=["generated data files", "statistics file"]),
  technique=TECH + "random schemas and settings, each generated twice under different schedules, CPU counts, hash seeds and output settings, and compared", level="exploration",
  note="Seeded search over pairs of runs of the whole command. Schemas of up to 4 shapes with up to 5 properties, up to 400 entities (3000 in the thorough tier)."),
 dict(id="G02", title="A generate run that succeeds has written all the data it was asked for",
  statement="When `rudof generate` exits with 0, the output file, or the files that the manifest of a parallel output lists, parse, are disjoint and together hold the generated data, and the statistics file describes exactly these. Numbers of entities follow the configured distribution; each entity has the type of its shape; literals have the declared datatype, a valid lexical form and lie within the declared numeric bounds; mandatory literal properties are present, maximum cardinalities of literal properties hold, excluded properties and properties beyond the configured maximum are absent; references lead to entities of the target shape. Under read and write faults a run exits with an error or is complete, also over the files of an earlier run.",
  quantifier=q("inputs fault_sequences", "every ShEx or SHACL schema of the supported subset, every generation and output setting, every sequence of read and write faults, and files of an earlier run in place"),
  why_tests_cant="The tests generate from a few schemas on a working disk into empty directories; a failed, short or missing write of one part file, or a part file left from an earlier run, needs faults and histories.",
  anchors=anchors("rudof_generate/src/output.rs rudof_generate/src/parallel_generation.rs rudof_generate/src/config.rs rudof_generate/src/converters rudof_generate/src/field_generators rudof_lib/src/api/generate",
    ("sequential and parallel writing, manifest, statistics", "rudof_generate/src/output.rs"),
    ("distribution, cardinalities, values", "rudof_generate/src/parallel_generation.rs"),
    observe=["exit status", "generated data files", "manifest file", "statistics file"]),
  technique=TECH + "random schemas and settings with disk faults, the files judged against the schema, the configuration and a faultless run", level="fault_enumeration",
  note="Seeded search; faults are drawn by rate or aimed at one operation of a faultless run of the same command. Not modelled: value sets, patterns, length facets, maximum cardinalities of references (relationships are added to nested entities) and conformance metrics."),
]
