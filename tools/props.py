#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The single place where the property texts live.
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

GEN=["pkg/golang/gloang.go","pkg/dart/dart.go","pkg/java/java.go","pkg/typescript/typescript.go"]
NOTEST="The stable tests only cross-compile the command and exercise one regular expression; no test runs the generator, let alone "

p("C01","A build that reports success has written every output file in full",
 "When a build reports success, the output directory holds every file that an undisturbed build of the same sources with the same options produces, each byte for byte complete, whatever older content those files had before. This holds even if the disk filled up, or creating, writing or closing a file failed or wrote short at any moment of the build: then the build must report failure instead. The same holds for each target language.",
 ["fault_sequences","inputs","configurations"],"every set of valid sources, target language, prior content of the output directory, and every sequence of storage errors (full disk, I/O error, short write, failed mkdir/create/close) at any operation of the build",
 NOTEST+"one whose disk fails at a chosen operation.",
 GEN+["pkg/build/build.go"],
 [("per-language file writer","writerFile in each language package"),("build loop stops at the first failing file","pkg/build/build.go Build")],
 observe=["error returned by build.Build","exit status of cmd","content of the output directory"])

p("C02","The command's exit status tells whether the build was done",
 "The command line program exits with status zero if and only if it carried out the build it was asked for completely. If an option is missing or names an unknown target, or if reading, parsing, checking, generating or writing fails, it exits with a non-zero status after printing a diagnostic; an undisturbed build of valid sources exits with status zero.",
 ["fault_sequences","inputs","configurations"],"every command line, every source tree (valid or not) and every sequence of storage errors during the run",
 NOTEST+"looks at the exit status of a failed build.",
 ["cmd/main.go","pkg/build/build.go","pkg/parser/interface.go"],
 [("exit after the diagnostic","cmd/main.go main")],observe=["process exit status","standard output/error"])

p("C03","The same sources always give byte-identical output and diagnostics",
 "Two builds of the same sources with the same options produce byte-identical output trees, or fail with the same diagnostic. Nothing else may influence the result: not map iteration order, the order in which the file system lists directories, the time, host, process or environment of the build, nor what an earlier build left in the output directory.",
 ["schedules","inputs","configurations"],"every source tree (valid or invalid), target language, map iteration order, directory listing order, clock, host identity and earlier content of the output directory",
 "A test run sees one map iteration order out of many and no test compares two builds.",
 ["pkg/build/build.go","pkg/build/writer.go","pkg/build/language.go","pkg/golang/gloang.go","pkg/dart/dart.go","pkg/dart/language.go","pkg/java/java.go","pkg/typescript/typescript.go","pkg/typescript/language.go"],
 [("imports and languages are sorted before printing","writerFile / printLanguge in the language packages"),("files are visited in sorted order","pkg/build/build.go Build, checkFiles")],
 observe=["output directory","error of build.Build"])

p("C04","A build interrupted at any point is repaired by running it again",
 "If a build is killed, or the machine loses power, at any point, running the same build again succeeds and leaves exactly the output an uninterrupted build would have left. No leftover of the interrupted run (missing, empty, torn or stale files) survives or blocks the second run.",
 ["crash_points","fault_sequences","inputs"],"every storage operation at which the process can die, every loss of not yet durable data, every source tree and language, any number of repeated interruptions",
 NOTEST+"kills it half way.",
 GEN+["pkg/build/build.go"],
 [("outputs are created with truncation and written from scratch","writerFile in each language package"),("output directories are created if missing and accepted if present","os.MkdirAll calls")],
 observe=["output directory after the second run","exit status of the second run"])

p("C05","A build with faulty sources fails before it touches any output",
 "If any source file that the build needs cannot be read, does not parse, or fails the semantic checks (unknown, duplicate or reserved names, missing imports, invalid types), the build fails with a diagnostic. In that case every file that was in the output directory stays byte for byte as it was and no new file appears.",
 ["fault_sequences","inputs"],"every source tree with at least one such error in any of its files, every read error at any operation, every map iteration order, any earlier content of the output directory",
 NOTEST+"gives it broken sources.",
 ["pkg/build/build.go","pkg/build/data.go","pkg/build/server.go","pkg/build/enum.go","pkg/parser/interface.go","pkg/parser/parser.go"],
 [("all sources are parsed, then all are checked, before the first one is generated","pkg/build/build.go Build")],
 observe=["error of build.Build","output directory"])

p("C06","A build never alters its sources and writes only under the output directory",
 "Whatever happens during a build (success, failure, storage errors, crash), the source files and every file outside the chosen output directory keep their content, and nothing is created, renamed, truncated or removed outside the output directory. This includes builds whose output directory lies inside the source directory or is the source directory itself: there the sources still stay untouched.",
 ["fault_sequences","crash_points","inputs","configurations"],"every source tree, placement of output directory, language, storage error sequence and crash point",
 NOTEST+"watches what else the process touches.",
 ["pkg/parser/interface.go"]+GEN,
 [("sources are opened read-only","pkg/parser/interface.go readSource"),("output paths are joined from the output directory and the source's base name","pkg/build/build.go Build and the language packages' Build")],
 observe=["every file system operation of the process"])

p("C07","Damaged source files are diagnosed; they never crash or hang the build",
 "For any bytes a source file may hold, for example a file torn, zero-filled, mixed from two versions or corrupted by a storage failure, the build ends within a bounded number of steps and either succeeds or reports an error naming the problem. It never panics, overflows its stack or loops.",
 ["fault_sequences","inputs"],"every damage (truncation, zeroed or garbage blocks, lost or mixed block writes, flipped or repeated ranges) to any file of any source tree, for every target language",
 NOTEST+"feeds it damaged input; the parser test package does not even compile.",
 ["pkg/scanner/scanner.go","pkg/parser/parser.go","pkg/parser/interface.go","pkg/build/build.go","pkg/build/data.go","pkg/build/server.go"],
 [("parse errors are collected and reported before any later phase runs","pkg/parser/interface.go ParseFile"),("error recovery in the parser always makes progress","pkg/parser/parser.go advance/expect")],
 observe=["panic, exit status, number of steps"])

p("C08","Builds running concurrently in one process do not influence each other",
 "When several builds with different sources, targets or output directories run concurrently in one process, each produces exactly the result (files or diagnostic) it produces when run alone, under every interleaving.",
 ["schedules","inputs"],"every interleaving of the steps of two or more builds over all source trees and languages, including builds that fail",
 "No test runs two builds at once, and interleavings cannot be sampled by ordinary tests.",
 ["pkg/build/build.go","pkg/build/writer.go","pkg/parser/parser.go","pkg/token/position.go"]+GEN,
 [("all state of a build hangs off its own Builder, FileSet and Package","pkg/build/build.go NewBuilder"),("package level tables are only read after start-up","_types, _keys, buildInits and the language tables")],
 state=[("buildInits","registered targets","pkg/build/build.go")],
 observe=["output directories, returned errors","accesses to package level variables"])

p("C09","A source position set can be shared by concurrent parsers",
 "When several files are parsed concurrently into one shared position set while others look positions up, every file gets its own range, no two ranges overlap, and every position resolves to the file, line and column it was recorded for. This holds under every interleaving, and all parsers and lookups finish.",
 ["schedules","inputs"],"every interleaving of concurrent parses and position lookups over all file contents",
 "No test parses concurrently; the documented synchronisation is only observable under chosen interleavings.",
 ["pkg/token/position.go","pkg/scanner/scanner.go","pkg/parser/interface.go"],
 [("FileSet and File are guarded by their mutexes","pkg/token/position.go")],
 state=[("FileSet.base/files/last","next free base, registered files, lookup cache","pkg/token/position.go"),("File.lines","line table","pkg/token/position.go")],
 observe=["positions returned by FileSet/File"])

SVC=["pkg/golang/database.go","pkg/golang/gloang.go","pkg/build/database.go"]
p("C10","Generated writes change exactly the addressed rows, once, or nothing",
 "A generated insert, bulk insert, update, set, delete or remove that reports success has had its effect exactly once on exactly the rows its conditions address, storing each field's value in that field's column: update leaves columns of unset optional fields alone, set overwrites them with null, delete marks rows of soft-delete tables and removes rows otherwise, remove always removes. If the operation reports an error it has had either its whole effect or none, and never touches other rows, columns or tables. This holds for every history of operations and database failures.",
 ["histories","fault_sequences","programs"],"every schema (field types, optional fields, key position, custom names and set expressions, soft delete on or off, requests against another type's table, cached or not), every history of operations and every database error, lost connection or lost acknowledgement",
 NOTEST+"compiles or runs the code it generates.",
 SVC,[("one statement per operation","printInsertData, printInsertListData, printUpdateData, printSetData, printDeleteData, printRemoveData in pkg/golang/database.go"),("optional fields are guarded in updates","printSet in pkg/golang/database.go")],
 observe=["rows of the simulated database","results of the generated methods"])

p("C11","Generated reads return exactly the live rows that match",
 "A generated get, list, map or count that reports success returns exactly the rows that match the request's conditions, every field read from its own column, leaving out rows that were deleted from a soft-delete table; unset optional conditions do not restrict, list honours requested order, offset and limit, and map indexes each row by the chosen field. If the database fails, an error is returned rather than wrong rows. This holds after every history of writes and database failures.",
 ["histories","fault_sequences","programs"],"every schema and request type (conditions, array conditions, paging, ordering, map keys, own or other type's table, cached or not), every history of writes and every database error",
 NOTEST+"compiles or runs the code it generates.",
 SVC,[("select list and scan list are built together","getItemAndValue in pkg/golang/database.go"),("conditions are emitted per set field","getParamWhere, printParam in pkg/golang/database.go"),("soft delete filter","db.Fake branches in pkg/golang/database.go")],
 observe=["results of the generated methods against the model's rows"])

p("C12","Concurrent operations of generated code on a table are linearizable",
 "Operations that several clients or nodes issue concurrently through generated code on a table without cache behave as if each took effect at one instant between its call and its return: no update is lost, increments add up, and nobody sees part of a bulk insert. This holds under every interleaving and with clients or connections failing at any point.",
 ["schedules","histories","fault_sequences"],"every interleaving of the database requests of concurrent clients, with lost acknowledgements, dropped connections and client crashes",
 "Needs control over the interleaving of several clients; nothing in the tests runs generated code.",
 SVC,[("each operation is one SQL statement; increments are evaluated by the database","pkg/golang/database.go")],
 observe=["recorded call/return history"])

p("C13","Operations inside a transaction commit or vanish together",
 "Generated operations on tables without cache that are issued with a context which carries an open transaction take part in that transaction: others see none of them before commit and all of them after, operations inside see the earlier ones, and after rollback or a crash before commit none of them has any effect. If the commit fails or the node crashes during it, either all of them take effect or none.",
 ["crash_points","schedules","fault_sequences"],"every sequence of generated operations inside a transaction, interleaved with other clients, ending by commit, rollback, connection loss or client crash at any point",
 "Needs crashes and concurrent observers; nothing in the tests runs generated code.",
 SVC,[("operations obtain their connection from the caller's context","Query(ctx)/Exec(ctx) calls emitted by pkg/golang/database.go")],
 observe=["rows of the simulated database, reads of other clients"])

p("C14","A cached read never misses a write that completed before it",
 "On a table with caching, every read issued by any node after a write outside a transaction has completed reflects that write (and all earlier ones), unless another read was in flight while a write was. This holds for every mix of generated read and write operations on the table, whichever request type they go through, and also when reads or writes failed or crashed along the way, or the cache lost its content.",
 ["histories","fault_sequences","crash_points"],"every history of non-overlapping operations of several nodes over all generated operations of a table, with cache and database errors, cache evictions and restarts, node crashes and elapsed time",
 "Needs several nodes sharing one cache and faults at chosen points; nothing in the tests runs generated code.",
 SVC,[("every write invalidates the table's cache entries before it executes","cache.DbDel calls emitted by pkg/golang/database.go"),("reads go through the cache only with the table's name in the key","cache.DbGet/DbSet calls")],
 state=[("cache entries db:<table>:*","cached query results","simulated cache server"),("db:cache:lock:<table>","invalidate lock","simulated cache server")],
 observe=["read results against the table's history"])

p("C15","A cached result is never older than the configured expiry",
 "On a table with caching, every read returns a result the table had at some moment no earlier than the configured maximum cache time (plus the time the query took whose result was kept) before the read began; entries are kept at least the configured minimum time if nothing invalidates or evicts them, and for a value between two and three hours if no times are configured. This holds under every interleaving of concurrent readers and writers on several nodes and under cache failures.",
 ["schedules","histories","fault_sequences","configurations"],"every interleaving of concurrent reads and writes of several nodes, every configured range of cache times (also equal bounds), cache errors, node crashes and elapsed time",
 "Needs a simulated clock running over hours and chosen interleavings; nothing in the tests runs generated code.",
 ["pkg/golang/database.go"],[("expiry drawn from the configured range","DbSet calls emitted by pkg/golang/database.go"),("range read from the cache tag","getCache in pkg/golang/database.go")],
 observe=["read results with simulated timestamps","expiry times in the simulated cache"])

p("C16","A cached result only answers the query it was stored for",
 "With caching, a read answers from the cache only with the result of the same query (same operation, conditions, parameters and table), and the answer equals field for field what the database would have returned. Invalidation by a write to one table does not disturb cached results of other tables.",
 ["histories","programs","schedules"],"every set of tables and request types, every history of reads with different operations and parameters against several tables on several nodes",
 "Collisions and mix-ups only show when many different queries share a cache; nothing in the tests runs generated code.",
 SVC,[("cache key built from table, statement text and parameters","cache.DbGet/DbSet calls emitted by pkg/golang/database.go"),("JSON form of the data types","pkg/golang/data.go")],
 observe=["read results with caching against reads without"])

p("C17","Cache trouble never breaks a read and never lets a write skip invalidation",
 "While the cache server is unreachable or returns errors, generated reads on cached tables still succeed with correct results straight from the database. A generated write on a cached table either has invalidated the table's cached results before it changes the table, or fails with an error and leaves the table unchanged.",
 ["fault_sequences","histories"],"every sequence of cache connection failures, timeouts and error replies at any cache command of any operation",
 "Needs a failing cache server; nothing in the tests runs generated code.",
 ["pkg/golang/database.go"],[("cache errors are ignored in reads","cache.DbGet/DbSet results in printGetData, printListData, printMapData, printCountData"),("writes return the invalidation error before executing","cache.DbDel in the write printers")],
 observe=["results and errors of generated methods, rows of the table, commands seen by the cache"])

p("C18","Caching recovers by itself after failures and no lock is left behind",
 "Every generated operation on a cached table, whether it succeeds or fails, leaves no invalidation lock behind once it has returned with the cache reachable; and after crashes and cache failures stop and broken connections have timed out, within three reads of a query the query is answered from the cache again without touching the database.",
 ["crash_points","fault_sequences","histories"],"every crash point inside an operation, every cache failure sequence, followed by a fault-free period",
 "Liveness after crashes needs injected crashes; nothing in the tests runs generated code.",
 ["pkg/golang/database.go"],[("unlock deferred right after locking","cache.DbUnlock calls emitted by pkg/golang/database.go")],
 state=[("db:cache:lock:<table>","invalidate lock","simulated cache server")],
 observe=["keys in the simulated cache, statements seen by the database"])

RPC=["pkg/golang/server.go","pkg/golang/data.go","pkg/build/build.go"]
p("C19","A remote call reaches the called method with its arguments and its own reply",
 "A call through a generated client runs the called method of the called service (inherited methods included), with a request equal field for field to the one passed, with the method's declared tags set in the call's context, and returns a response equal to the one that very call's execution produced (an empty list or map equals an absent one). This holds for all field types and for any number of concurrent calls over a network that delays, reorders, duplicates and loses messages.",
 ["schedules","fault_sequences","programs"],"every set of services, methods and data types, every interleaving of concurrent calls, and every delay, reordering, duplication and loss of messages",
 "Needs generated clients and servers connected by a controllable network; nothing in the tests runs generated code.",
 RPC,[("method names are derived the same way on both sides","printClient, printServerRouter in pkg/golang/server.go"),("JSON form of the data types","pkg/golang/data.go"),("inherited methods are enumerated","EnumMethod in pkg/build/build.go")],
 observe=["requests seen by handlers, responses seen by callers"])

p("C20","A remote call reports success only if the method ran and succeeded",
 "A call through a generated client reports success only if the service's method ran for this call and returned no error; an error from the method, an unknown method, a lost message or a crashed node is reported to the caller as an error, never as an empty result. Calls of methods without result follow the same rules and work like any other call, and no request makes client or server panic.",
 ["fault_sequences","crash_points","schedules"],"every failure of a method, node or message at any point, for methods with and without result",
 "Needs a failing network and crashing nodes; nothing in the tests runs generated code.",
 ["pkg/golang/server.go"],[("errors are passed on by client and router","printClient, printServerRouter in pkg/golang/server.go"),("router entries for methods without result","printServerRouter in pkg/golang/server.go")],
 observe=["results seen by callers, executions seen by handlers"])

p("C21","Looking up and forwarding to services works while they come and go",
 "Looking up a service always yields something callable: the registered service if one is available, otherwise a stand-in whose every method (inherited ones included) returns an error and does nothing else. A method bound to another service validates its request first if the request type is declared to be verified and, only if valid, calls that service exactly once with the contained request and returns its result or error. This holds while services register, crash and disappear at any moment.",
 ["schedules","fault_sequences","programs"],"every set of services and bindings, every sequence of services appearing, crashing and disappearing around calls, valid and invalid requests",
 "Needs a changing set of nodes; nothing in the tests runs generated code.",
 ["pkg/golang/server.go","pkg/build/binding.go","pkg/golang/verify.go"],
 [("stand-in returned when nothing is registered","printGetServerRouter, printServerDefault in pkg/golang/server.go"),("binding","printBinding in pkg/golang/server.go")],
 observe=["results of calls, executions seen by handlers"])

p("C22","Generated code compiles for every schema the checker accepts",
 "For every schema that passes the checks, the code generated for each target language compiles against that language's hbuf runtime library.",
 ["programs"],"every accepted schema","No test compiles generated code.",
 GEN,[("code printers","the language packages")])
p("C23","Values keep their meaning between services written in different languages",
 "A value encoded by the code generated for one language and decoded by the code generated for another is the same value, for every data type and every field type.",
 ["programs","inputs"],"every schema and value, every pair of languages","No test generates or runs code for two languages.",
 ["pkg/golang/data.go","pkg/dart/data.go","pkg/typescript/data.go","pkg/java/data.go"],[("same JSON field names in every language","StringToUnderlineName uses in the data printers")])
p("C24","Generated validation accepts exactly the values its rules allow",
 "A generated validation method accepts a value if and only if it satisfies the declared bounds, length, pattern and null rules, in every target language.",
 ["programs","inputs"],"every rule set and value","No test runs generated validation code.",
 ["pkg/golang/verify.go","pkg/dart/verify.go","pkg/typescript/verify.go"],[("rule printers","printVerifyFieldCode")])
p("C25","A diagnostic names the file, line and column of the mistake",
 "Every syntax or semantic error that a build reports names the source file, line and column at which the mistake is.",
 ["inputs"],"every invalid source","No test checks a diagnostic.",
 ["pkg/scanner/scanner.go","pkg/build/error.go","pkg/build/data.go"],[("positions carried through the AST","pkg/ast, pkg/token")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
