package main

var rules = map[string]string{
	"C01": "case = random schema + target + older output + 1-3 storage faults placed on operations of a recorded build; non-trivial if the build writes files and a fault fired or older content was there",
	"C02": "case = random schema + command line (valid, damaged options, faulty sources, storage faults); all are non-trivial; exit status compared with what was written",
	"C03": "case = random schema (valid, same file names, several mistakes) built twice under different map orders, directory orders, clocks, hosts, process ids, environments, older outputs",
	"C04": "case = random schema + older output + 1-3 runs killed at an operation, half of them with power loss, then a final run; non-trivial if a kill happened",
	"C05": "case = random schema with one mistake (63 kinds of semantic mistakes; edited tokens that a reference recogniser of the language refuses, and 8 fixed kinds; read faults); non-trivial unless a planned read fault did not fire",
	"C06": "case = random schema, output directories that overlap the source directory, hostile package names, faults and kills; non-trivial if the build changed the file system",
	"C07": "case = random schema with 1-12 corruptions of bytes, tokens, lines or quoted values, built for all four targets",
	"C08": "case = 2-3 builds run concurrently under a random schedule, or one after the other, in one process, each compared with a run alone in a fresh process; data races are reported by the race detector",
	"C10": "case = rows, then 3-12 operations (mostly writes) of one client on 1-2 nodes with database faults, each result and the tables' content compared with the model; non-trivial if a write changed rows or failed by a fault",
	"C11": "case = rows, then 3-12 operations (mostly reads) of one client on 1-2 nodes with database faults, each result compared with the model; non-trivial if a read had rows to find or failed by a fault",
	"C12": "case = rows, then 2-4 clients on 1-3 nodes with up to 11 operations on one table under a random schedule with faults; a linearization that explains all results and the final content is searched; non-trivial if operations overlapped",
	"C13": "case = rows, then 1-3 clients with up to 7 operations or transactions of up to 4 operations under a random schedule with faults; a serial order that explains all results and the final content is searched; non-trivial if a transaction ran",
	"C14": "case = rows, then 4-12 phases, each of concurrent reads, concurrent writes, or elapsed time or loss of the cache's content, on 1-3 nodes with cache, database and crash faults, then plain reads; every read that met no database fault compared with the model on the table's content; non-trivial if a read was answered from the cache after a write, or an operation failed or crashed",
	"C15": "case = rows, then either one client reading, editing the rows behind the cache's back and letting time pass around the configured bounds, or 2-4 clients with reads, writes, edits and sleeps under a random schedule with faults; every result compared with every state the table had within the allowed age; non-trivial if a result came from the cache after the table had changed or a bound was tried",
	"C16": "case = rows, then 3-9 phases of concurrent reads from a pool of queries that differ in little, with writes to other tables between; every answer compared with the model; non-trivial if a read was answered from the cache",
	"C17": "case = rows, then 4-13 operations of one client on 1-2 nodes with cache faults and times when the cache is away; reads compared with the model, cached results counted when a write executes; non-trivial if an operation met cache trouble",
	"C18": "case = rows, then 1-5 phases of concurrent operations with cache, database and crash faults, then quiet and four reads of one query; locks looked for after every phase without cache trouble, the fourth read must not reach the database; non-trivial if a phase without trouble ran or the query was answered from the cache in the end",
	"C19": "case = 1-5 clients with 1-4 calls each of few methods on 1-3 servers, one of which lacks services and methods, under a random schedule with message, server and client faults; every execution's method, request and tags and every answer compared with what the call and its executions gave; non-trivial if a call returned",
	"C20": "case = 1-5 clients with 1-4 calls each, many of methods that fail or requests no client would send, on 1-3 servers under a random schedule with message, server and client faults; every call's outcome compared with its executions; non-trivial if a call returned",
	"C21": "case = services in a registry that is changed while 1-4 clients look services up and call them, directly or through bound methods, with valid requests and requests that break one rule, and servers crash; lookups, executions and outcomes compared with what the registry said; non-trivial if a call returned",
	"C23": "case = 1-14 calls, with random requests and responses of the schema's types, from generated Go clients to generated TypeScript servers and the other way round, on 1-3 servers, with message faults, partitions, crashes and restarts, failing methods and servers that lack a service; every execution's method and request and every outcome compared with what was passed, in a form that neither language's code has a part in; non-trivial if a method ran",
	"C26": "case = 1-14 calls through generated TypeScript clients, with random requests and responses of the schema's types, on 1-3 servers of generated TypeScript routers, with message faults, partitions, crashes and restarts, failing methods and servers that lack a service; every execution's method, request and context, every outcome and every clone compared with what was passed; non-trivial if a method ran",
	"C09": "case = 2-5 tasks parsing, adding files and looking positions up on one position set under a random schedule",
}
