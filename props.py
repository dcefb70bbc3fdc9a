"""The properties, as data; mk.py writes properties.jsonl, MANIFEST.json and checks/table.json from it."""
NOTES = "All checks are static: they compile /repo's current sources to LLVM IR (clang -O0, never linked or run) or parse its Python, and inspect the result. See DESIGN.md."
NA = []
PROPS = []
def P(id, title, statement, over, text, why, files, mech, check=None, technique=None, note=None, na=None, observe=None):
	d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
		anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
	if observe: d["anchors"]["observe_at"] = [observe]
	if check: d.update(check=check, technique=technique, level_note=note)
	else: d["na"] = na
	assert len(title) <= 80, title
	PROPS.append(d)

LIB = ["src/address.c", "src/as.c", "src/as-list.c", "src/country.c", "src/country-list.c", "src/database.c", "src/libloc.c",
	"src/network.c", "src/network-list.c", "src/network-tree.c", "src/resolv.c", "src/stringpool.c", "src/writer.c"]

P("P01", "Every object and buffer the C library acquires is released exactly once",
	"Whatever a call into the C library allocates, opens, maps or takes a reference to is released exactly once: by the call itself, by the object that keeps it, or by the caller it is handed to, and this also holds when any allocation or any inner call fails. Nothing is used, stored or handed out after its release, nothing is released twice, an object that keeps another one holds its own reference to it, and releasing the last reference to an object releases everything the object holds.",
	["inputs", "fault_sequences", "histories"], "every call of every public function, on every path through it, with every allocation and inner call succeeding or failing",
	"The tests never make an allocation or an inner call fail, and a leak or a stale pointer on a path they do run changes nothing they observe.",
	LIB, [("reference counting (*_ref, *_unref, *_free)", "src/*.c"), ("error labels that release partial results", "src/database.c, src/network.c, src/writer.c"), ("containers that keep references", "src/as-list.c, src/country-list.c, src/network-list.c, src/network-tree.c")],
	["ownership", "balance"], "interprocedural ownership typestate by abstract interpretation of LLVM IR",
	"Path-partitioned abstract interpretation of every public function and callback; callees by contract, each contract checked against its body. Sound up to the listed assumptions and the engine's models of libc; not a machine-checked proof.",
	observe="double frees, leaks, stale pointers under valgrind with failing malloc")

P("P02", "A failing call hands nothing out",
	"When a function of the C library that delivers an object through a pointer argument reports failure, that pointer afterwards does not refer to a released object, and no reference has been handed over that the caller would have to release.",
	["inputs", "fault_sequences"], "every failing return of every function that delivers an object through an argument",
	"The failing returns need corrupt databases or failing allocations at a particular point; tests reach almost none of them.",
	LIB, [("out-parameters of constructors, lookups and enumerators", "src/libloc/*.h"), ("error labels", "src/*.c")],
	["ownership", "failing"], "typestate of out-parameters by abstract interpretation of LLVM IR",
	"All returns of all public functions on all abstract paths.",
	observe="value of the out-parameter after a non-zero return")

P("P03", "No NULL pointer is dereferenced and no uninitialised value is used",
	"For valid arguments, no call into the C library dereferences a NULL pointer or acts on an uninitialised value, whatever allocation fails, whatever lookup finds nothing, and whatever optional part of an object is absent.",
	["inputs", "fault_sequences"], "every path through every public function, with every allocation failing or succeeding and every optional field present or absent",
	"Each missing check only shows when exactly that allocation fails or exactly that optional value is missing.",
	LIB, [("NULL checks after allocations and lookups", "src/*.c")],
	["ownership", "nullundef"], "nullness and definite-initialisation dataflow (abstract interpretation of LLVM IR)",
	"All abstract paths of all public functions and callbacks; callees that reject NULL are found by analysing them with NULL.",
	observe="crash under allocation failure")

P("P04", "No input makes the C library read or write outside an object",
	"Whatever a database file, a DNS reply, an address or a string contains, and however many elements an object holds, the C library never reads or writes outside the memory of an object: every offset, length and index taken from a file or a reply is checked against the extent of what it points into before it is used. Lengths and counts an object keeps about its storage always describe storage that exists.",
	["inputs", "histories"], "every database file, DNS reply, address and string, and every sequence of calls on a list, string pool, enumerator or database",
	"Only a particular corrupt offset, count or length leaves its section; the tests open one valid database.",
	LIB, [("bounds of database sections", "src/database.c"), ("terminator of the string pool", "src/stringpool.c"), ("growth of containers", "src/*-list.c"), ("parsing of TXT replies", "src/resolv.c"), ("bit access in addresses", "src/libloc/address.h")],
	["bounds_check", "memory"], "relational (affine) abstract interpretation of LLVM IR with checked data-structure invariants",
	"All abstract paths of all public functions and callbacks except two named in the evidence; invariants assumed on entry are checked on exit.",
	observe="AddressSanitizer reports on hostile databases and replies")

P("P05", "A failure inside the C library is never reported as success",
	"When an allocation, a read, write or seek, a cryptographic operation or an inner call fails while the C library carries out a request, the request as a whole reports failure. In particular a database that could not be written completely, a lookup that hit a broken record and a list that could not be filled completely are never returned as if they were complete.",
	["inputs", "fault_sequences"], "every path through every function that reports a status, with every fallible call failing or succeeding",
	"Tests never make an inner call fail, so a dropped error code is invisible to them.",
	LIB, [("status returns and error labels", "src/*.c"), ("checks of what fwrite, fseek and fflush return", "src/writer.c, src/stringpool.c"), ("OpenSSL return values", "src/database.c, src/writer.c")],
	["errors_check", "swallowed"], "failure-taint typestate by abstract interpretation of LLVM IR",
	"All abstract paths of all status functions; every modelled fallible call has a failing successor and the failure must reach the return value.",
	observe="return value with an injected failure")

P("P06", "Verification succeeds only for a signature over the whole database file",
	"Verifying a database reports success only when one of the signatures stored in it was accepted, in full, with the public key given by the caller, over every byte of the file from the first to the last, with only the signature fields blanked. Any other outcome, an error in between included, is reported as failure.",
	["inputs", "fault_sequences"], "every database file, every key and every outcome of every read and every cryptographic operation",
	"Tests verify one good file; they do not see bytes that are left out of the digest, nor outcomes of OpenSSL other than accepted and rejected.",
	["src/database.c"], [("loc_database_verify", "src/database.c"), ("header with signature fields", "src/libloc/format.h")],
	["signature_check", "verifying"], "typestate analysis (abstract interpretation of LLVM IR)",
	"All abstract paths of the verifying function with its helpers inlined.", observe="result of verifying a file in which one byte was changed")

P("P07", "A database that was written carries signatures that cover all of it",
	"When writing a database succeeds, a signature was made with every private key given, each over the complete file with blank signature fields, exactly as verification reads it; each is stored in full in its own place in the header, and nothing that was signed is changed afterwards.",
	["inputs", "fault_sequences"], "every content, every combination of keys and every outcome of every read, write and cryptographic operation",
	"Tests sign one small database; what is left out of a signature or changed later shows only for other sizes, keys and contents.",
	["src/writer.c"], [("loc_writer_write, loc_writer_create_signature", "src/writer.c"), ("header with signature fields", "src/libloc/format.h")],
	["signature_check", "signing"], "typestate analysis (abstract interpretation of LLVM IR)",
	"All abstract paths of the writing function with its helpers inlined.", observe="verification of what was written")

P("P08", "What is written to a database is what is read from it",
	"Every value that is stored in a database file is read back into the place it came from, with the same width and the same byte order: every number in the file is big-endian and is converted, at its full width, each time it is written or read, on every machine. The offsets and lengths the header states are those of the sections that were written, and each section is read as the records it was written from.",
	["inputs", "configurations"], "every content of every record, every number and size of records, every access to a field of the file",
	"A swapped or unconverted field, a length that is off for some contents or a value that loses its upper bits agrees with itself on the small values tests use.",
	["src/writer.c", "src/database.c", "src/as.c", "src/country.c", "src/network.c", "src/libloc/format.h"], [("records and their conversions (*_to_database_v1, *_new_from_database_v1)", "src/as.c, src/country.c, src/network.c"), ("sections", "src/writer.c, src/database.c"), ("format", "src/libloc/format.h")],
	["format_check", "fields"], "provenance dataflow, byte-order typing and abstract interpretation of the file layout over LLVM IR",
	"All record fields, all header fields and sections, every access to a multi-byte field; the placement of nodes and networks inside their sections is not decided.",
	observe="fields of an object before writing and after reading")

P("P09", "Every byte that is written or signed has been set",
	"Every byte the library writes to a database file or hands to a digest has been set to a definite value before, padding, reserved fields and the unused rest of signatures included. A database therefore depends on its content alone, and a signature made over what is in memory is a signature over what is in the file.",
	["inputs", "configurations"], "every buffer written or signed, on every path to the call that does it",
	"What an unset byte happens to hold is the same in most runs, and every test reads back only the fields.",
	["src/writer.c", "src/as.c", "src/country.c", "src/network.c", "src/libloc/format.h"], [("records and header on the stack", "src/writer.c"), ("conversions of records", "src/as.c, src/country.c, src/network.c")],
	["format_check", "initialised"], "definite-initialisation dataflow per byte (abstract interpretation of LLVM IR)",
	"All buffers handed to fwrite and the digest functions on all abstract paths of the writing function.",
	observe="bytes of the file under MemorySanitizer")

P("P10", "Every record that was written is found again",
	"Every AS and every country of a writer is written to the database, once, in the order of its key, and the lookup by AS number or country code, which bisects the section in this order, finds every record that is there, wherever it is and however many there are. The nodes of the network tree and the networks they refer to are numbered in the order in which they are written.",
	["inputs"], "every number of records, every key and every position of the wanted record",
	"A bisection or an order that is wrong for the first or last record, for large numbers or for some lengths of the section still finds the few records tests ask for.",
	["src/writer.c", "src/database.c", "src/as.c", "src/as-list.c", "src/country.c", "src/country-list.c"], [("loc_database_get_as, loc_database_get_country", "src/database.c"), ("sorting and comparing", "src/as-list.c, src/country-list.c, src/as.c, src/country.c"), ("sections", "src/writer.c")],
	["format_check", "findable"], "loop invariants by relational abstract interpretation of LLVM IR",
	"All abstract paths of the writer, the comparisons and both bisections for a record at a symbolic position; the descent in the tree is decided by P11.",
	observe="lookups of every record of a database")

P("P11", "A lookup returns the most specific network that contains the address",
	"Looking up an address in a database that was written returns, of all networks in it that contain the address, the one with the longest prefix, with the address and prefix it was added with; nothing is returned only if no network contains the address, and the lookup does not fail. This holds for every shape of the tree: when more specific networks next to the address exist, when the search has to fall back to an enclosing network, for host addresses and for IPv4 addresses below an IPv6 network. Whether a network contains an address, its first and last address included, follows from its prefix alone.",
	["inputs", "histories"], "every address, every set of networks with any prefixes, nested or not, in any order of insertion",
	"Tests look up a few addresses in a small tree; a wrong bit, level or fallback shows only for the prefix lengths and neighbours they do not have.",
	["src/database.c", "src/network-tree.c", "src/network.c", "src/libloc/address.h"], [("loc_database_lookup", "src/database.c"), ("loc_network_tree_add_network", "src/network-tree.c"), ("loc_network_new, loc_network_matches_address", "src/network.c"), ("bits and masks", "src/libloc/address.h")],
	["lookup_check", "lookups"], "abstract interpretation of LLVM IR (induction over levels) and bit provenance dataflow",
	"All abstract paths of lookup, insertion and construction of networks; clean-up of the tree before writing is not decided.",
	observe="lookups against a linear search over the same networks")

P("P12", "Enumerating a database returns exactly what matches the filters",
	"An enumeration of networks visits every network of the database once and in order of their addresses, and returns those that match the filters and no others: the family must match if one was set, and one of the countries, AS numbers or flags if any were set; a list of countries or AS numbers that is empty matches nothing. Enumerations of ASes and countries return every matching record once, in order; one that is flattened replaces a network by its subnets and what is left of it, and loses neither.",
	["inputs", "histories", "configurations"], "every database, every combination of filters, every state an enumeration can be in",
	"Tests enumerate one small database with a handful of filters; a child that is skipped or a filter that is ignored shows only for particular shapes and combinations.",
	["src/database.c", "src/libloc/address.h"], [("loc_database_enumerator_next_network", "src/database.c"), ("loc_database_enumerator_match_network", "src/database.c"), ("next AS, next country", "src/database.c"), ("filters of an enumerator", "src/database.c")],
	["lookup_check", "enumeration"], "abstract interpretation of LLVM IR: one step from every state, decision table over all filters",
	"All 144 combinations of filters; one step of every enumeration from an arbitrary state, by induction. Which networks are left when subnets are cut out, and bogons, are not decided.",
	observe="enumerations of a database with filters against a linear scan")

PY = ["src/python/as.c", "src/python/country.c", "src/python/database.c", "src/python/locationmodule.c", "src/python/network.c", "src/python/writer.c"]
P("P14", "The Python module keeps references and pointers sound on every path",
	"Every call from Python into the module, failing ones included, ends with each reference it acquired, to a Python object or to an object of the library, released once or handed over to an object that releases it in turn; nothing borrowed is released, nothing of the caller's is closed. No call, whatever its arguments and the state of the objects, makes the interpreter crash on a NULL, uninitialised or wrongly typed pointer.",
	["inputs", "fault_sequences", "histories"], "every function Python can call, on every path through it, with each fallible call of the C API and of the library failing or succeeding",
	"A leaked or stolen reference changes nothing a test looks at, and most failing paths need allocations or reads to fail at a particular point.",
	PY, [("type objects, methods and getters", "src/python/*.c"), ("constructors and destructors of the objects", "src/python/*.c: *_init, *_dealloc"), ("log callback", "src/python/locationmodule.c")],
	["bindings_check", "references"], "interprocedural reference-count typestate by abstract interpretation of LLVM IR",
	"All entry functions of the extension module; the rules of CPython's C API are modelled per function, library calls by their contracts.",
	observe="reference counts and crashes of the extension module")

P("P15", "The Python module raises an exception if and only if it fails",
	"Every function of the Python module that reports an error to the interpreter has an exception pending, and every function that reports success has none. A failure of the library, an allocation or the operating system is never returned to the program as the result of a success, such as None or a default value.",
	["inputs", "fault_sequences"], "every return of every function Python can call, on every path through it",
	"A missing or stray exception only shows on failing paths, which tests with a sound database and enough memory do not take.",
	PY, [("checks of library results and PyErr_*", "src/python/*.c"), ("iterators", "src/python/database.c: DatabaseEnumerator_next")],
	["bindings_check", "exceptions"], "exception-state typestate by abstract interpretation of LLVM IR",
	"All entry functions of the extension module on all abstract paths; getters and predicates of the library are taken to be infallible.",
	observe="SystemError: returned a result with an exception set; None in place of an exception")

P("P16", "The Lua and Perl modules stay sound when calls fail, raise or croak",
	"Every function of the Lua and Perl modules releases whatever it acquired from the library exactly once on every path, including those left by raising an error or by croaking, and crashes on no NULL or uninitialised pointer whatever is or is not in the database. A Lua object only becomes collectable with its fields set and with the metatable of its own class, and a failed call is not reported as a success.",
	["inputs", "fault_sequences"], "every registered Lua function and every Perl function, on every path through it, with every fallible call failing or succeeding",
	"Tests call these modules with a sound database, for entries that exist; paths left by an error are all but never taken, and leaks are invisible.",
	["src/lua/as.c", "src/lua/country.c", "src/lua/database.c", "src/lua/location.c", "src/lua/network.c", "src/perl/Location.xs", "src/perl/typemap"],
	[("userdata and metatables", "src/lua/*.c"), ("luaL_error and lua_call", "src/lua/*.c"), ("croak", "src/perl/Location.xs")],
	["bindings_check", "scripts"], "interprocedural ownership typestate by abstract interpretation of LLVM IR",
	"All registered Lua functions and all XSUBs on all abstract paths; Lua's and Perl's C APIs are modelled per function.",
	observe="leaks and crashes under Lua and Perl")

P("P20", "AS numbers cross the language bindings unchanged over all 32 bits",
	"An AS number handed to a Python program, or to a Lua or Perl script, is the unsigned 32-bit number the library holds. A number a Python program hands in reaches the library unchanged if it fits into 32 bits, and is refused with an exception if it does not.",
	["inputs"], "every AS number from 0 to 4294967295, and every integer outside of that range",
	"Real AS numbers are small; sign or truncation errors show for numbers from 2^31 or 2^32 only.",
	PY + ["src/lua/as.c", "src/lua/network.c", "src/perl/Location.xs"], [("AS(), get_as(), add_as(), Network.asn", "src/python"), ("AS.get_number, Network.get_asn, __tostring", "src/lua"), ("lookup_asn", "src/perl/Location.xs")],
	["bindings_check", "asn"], "value-range and provenance dataflow by abstract interpretation of LLVM IR",
	"Every conversion of an AS number between the library and the three languages, except those the languages' own number conversions make on input in Lua and Perl.",
	observe="AS numbers of 2^31, 2^32-1, 2^32 and -1")

PYS = ["src/python/location/__init__.py", "src/python/location/database.py", "src/python/location/downloader.py", "src/python/location/export.py", "src/python/location/logger.py", "src/scripts/location.in", "src/scripts/location-importer.in"]
P("P21", "No Python code path uses a name, attribute, argument or option that is not there",
	"Wherever the Python library, the command line tool and the importer refer to a name, an attribute, a method of the extension module or a formatted value, that exists and is called with arguments it accepts, so that no branch, error handling above all, ends in a NameError, AttributeError or TypeError. Every command reads only options its parser defines, and every option a command accepts has an effect on it.",
	["inputs", "configurations"], "every statement of every Python source, every command and every option",
	"Python looks names up when a statement runs; handlers of rare errors, feeds and output formats are not run by any test.",
	PYS, [("module interface: method, getter and type tables", "src/python/*.c"), ("commands and options", "src/scripts/location.in, src/scripts/location-importer.in"), ("output formats", "src/python/location/export.py")],
	["python_check", "names"], "type checking against the interface extracted from LLVM IR, and syntax-tree queries",
	"Every name, attribute and call of all Python sources; values whose type cannot be inferred are given the benefit of the doubt.",
	observe="NameError, AttributeError, TypeError at run time; options without effect")

P("P17", "An update installs only a verified, current database, whatever the mirrors do",
	"The updater replaces the installed database, in one step, only by a file that one mirror has delivered entirely, that verifies with the configured public key and that is not older than asked for; a database that fulfils this is not refused. A mirror that is unreachable, breaks off, or delivers anything else has no influence on what the next mirror delivers; no temporary file is left behind, and the exit status says whether the database has been installed or verified.",
	["inputs", "fault_sequences", "histories"], "every sequence of mirrors, each failing at any point or delivering any content, and every failure of a file operation",
	"No test contacts a mirror; the paths differ in which mirror fails when, how much has been written by then, and which exception that raises.",
	["src/python/location/downloader.py", "src/scripts/location.in"], [("Downloader.download", "src/python/location/downloader.py"), ("Downloader._check_database", "src/python/location/downloader.py"), ("CLI.handle_update, CLI.handle_verify, CLI.run", "src/scripts/location.in")],
	["download_check", "downloads"], "path-sensitive typestate by abstract interpretation of the Python syntax tree",
	"All paths, loops to a fixed point; files, connections, databases and keys as typestates. Operations of the standard library are modelled.",
	observe="the file that is installed; files left in the directory; exit status")

P("P22", "An import replaces the data of a source as a whole or leaves them as they were",
	"When the importer reads a registry, a feed, a geofeed, the overrides or the list of countries, everything this source had contributed before and what it contributes now are exchanged in one transaction: if the source breaks off or anything fails, the previous data stay, and the data of other sources are not touched. A source that cannot be fetched, is cut short or cannot be decompressed does not keep the others from being imported, and the failure is recorded with the source or reported by the exit status.",
	["inputs", "fault_sequences", "crash_points"], "every sequence of sources, each failing to be fetched, breaking off at any point, or making a statement fail",
	"No test runs the importer, and none can make a download break off, or a statement fail, at each point of each import.",
	["src/scripts/location-importer.in", "src/python/location/database.py"], [("CLI._process_source, CLI._process_feed, CLI._fetch_geofeed, CLI.handle_update_overrides, CLI.handle_import_countries", "src/scripts/location-importer.in"), ("Connection.transaction", "src/python/location/database.py")],
	["import_check", "replacement"], "path-sensitive typestate by abstract interpretation of the Python syntax tree and of the SQL statements it executes",
	"All paths of every command; statements are parsed, transactions and deletions are typestates. The database server is taken to roll back a transaction that is left by an exception.",
	observe="the rows of a source in the importer's database; exit status")

P("P23", "A malformed record is skipped and does not end the import",
	"Whatever text a single record of a registry, feed, geofeed or override file contains (something that is not a number, address, network, range or valid encoding, a missing or surplus field), the record is skipped and all others of the source are still imported.",
	["inputs"], "every content of every record",
	"No test imports anything, and each of the many conversions fails for its own kind of malformed text only.",
	["src/scripts/location-importer.in"], [("CLI._parse_inetnum_block, CLI._parse_line, CLI._import_arin_as_names, CLI._import_aws_ip_ranges, CLI._import_spamhaus_drop, CLI._import_spamhaus_asndrop, CLI._fetch_geofeed, read_blocks", "src/scripts/location-importer.in")],
	["records_check", "records"], "taint and exception escape analysis over the syntax tree",
	"All loops over records and the functions called from them; conversions, unpacking and indexing of values that stem from records. Documents in JSON are taken to have their documented shape.",
	observe="the records that have been imported; exit status")

P("P24", "The importer's SQL fits its schema, and values stay in their columns",
	"Every statement the importer executes is a constant text that receives what comes from sources only as parameters, as many as it has placeholders, and refers only to tables and columns the importer has set up. A value goes into the column that is named after it, from the source to the written database, and AS numbers go through columns that hold all 32 bits.",
	["inputs", "programs"], "every statement and every value that is passed through it",
	"No test runs the importer, which needs a database server; a value in the wrong column is valid SQL.",
	["src/scripts/location-importer.in"], [("CLI._setup_database, CLI.handle_write and every other call of execute, executemany, query and get", "src/scripts/location-importer.in")],
	["importer_check", "statements"], "query over the syntax tree with constant propagation; parsing of the SQL texts; schema and name agreement",
	"Every call site; texts built from constants are resolved. Agreement of values and columns is decided by name.",
	observe="the rows of the importer's database; exceptions of the database driver")

P("P25", "The most specific record about a network wins, and overrides have the last word",
	"When a database is compiled, country, AS and flags of a network are taken from the most specific record of each source that contains it. Geofeeds take precedence over registries, feeds over geofeeds, and overrides over everything else; a record that does not say anything about a value leaves what other sources said about it, and every flag any of them sets is written.",
	["inputs", "programs"], "every set of records of all sources",
	"No test compiles a database from sources; whether a rule is right depends on which records exist for one network.",
	["src/scripts/location-importer.in"], [("CLI.handle_write", "src/scripts/location-importer.in")],
	["importer_check", "precedence"], "structural rules over the parsed SQL statements and the order in which they are executed",
	"Windows, joins, assigned expressions and order of the UPDATE statements; a statement of another shape is not judged.",
	observe="country, AS and flags of networks in the written database")

P("P30", "What is left when networks are cut out of a network is exactly the rest",
	"Cutting a network out of one that contains it leaves, at every level on the way down, the half that does not contain it, each part once and with the country, AS and flags of the whole. Where several networks are cut out, a part is dropped only if it lies in one of them, broken down only by one that lies inside of it, and all other parts are returned.",
	["inputs"], "every network, every network inside of it at any depth, every list of networks with any overlap",
	"How parts nest depends on every pair of prefixes; tests cut a handful of networks out.",
	["src/network.c", "src/libloc/address.h"], [("loc_network_exclude", "src/network.c"), ("loc_network_exclude_list", "src/network.c"), ("loc_network_subnets", "src/network.c"), ("loc_network_overlaps", "src/network.c")],
	["cut_check", "check"], "abstract interpretation of LLVM IR: table of all relations of two networks, induction over levels, typestate of the parts; bit provenance",
	"All order relations of two networks; every path of one level of the recursion and of one step of the list of parts. That a part which is kept overlaps none of the networks it was not compared with rests on the order of the list and is assumed.",
	observe="networks and what is left of them without others, against sets of addresses")

P("P34", "Summaries, flattened enumerations and bogons cover exactly what they should",
	"Summarising a range of addresses yields networks that cover exactly the range, each address once; flattened enumerations and bogons cover exactly the addresses that the database gives that property.",
	["inputs"], "every range of addresses, every database",
	"The sets have up to 2^128 elements and the results depend on how prefixes nest; tests compare a handful of lists.",
	["src/network-list.c", "src/database.c"], [("loc_network_list_summarize", "src/network-list.c"), ("bogons", "src/database.c")],
	na="The result is a set of unbounded size computed by a loop whose steps depend on 128-bit arithmetic with data-dependent shifts; a static argument would need an inductive invariant over sets of address ranges, which no abstract domain in reach expresses. P30 decides the cutting out of networks, P12 that none is lost between the lists of an enumeration.")

P("P31", "Cleaning up the tree before writing changes no answer of a lookup",
	"Before a database is written, a network is dropped as redundant only if the closest network around it has the same country, AS and flags, and two networks are joined only if they are the two halves of the joint one and have the same country, AS and flags, which it gets. A network is removed only once the one that replaces it is in its place, and no part of the tree that still leads to a network is removed, so that the answer for every address stays what it was.",
	["inputs", "histories"], "every set of networks, every pair of networks that can be neighbours or nested, every state of the tree and of the lists of what came before",
	"Which networks are redundant depends on all that surround them; tests write small databases and look up a handful of addresses.",
	["src/network-tree.c", "src/network.c", "src/libloc/address.h"], [("loc_network_tree_cleanup", "src/network-tree.c"), ("loc_network_merge", "src/network.c"), ("loc_network_properties_cmp", "src/network.c"), ("loc_network_is_subnet", "src/network.c")],
	["cleanup_check", "tree"], "abstract interpretation of LLVM IR: decision tables over abstract networks, typestate of the step functions; bit provenance",
	"Every combination of what two networks have in common; every path of one step of each walk, by induction over the walk. That lists are sorted is P10's part; that the walk visits outer networks first is assumed.",
	observe="lookups of every boundary address in databases written from random nested networks, against the longest match among the networks added")

P("P26", "Exports contain every network that was asked for, in complete files",
	"An export writes each network of the database to the file of every country, AS and flag it has that was asked for, once, and to no other file; nothing is missing because of what else was asked for. Every file, empty ones included, is complete and in the form its format demands: ipset, nftables and xt_geoip can load it, and what is written once all networks are known does not damage what is there already.",
	["inputs", "configurations"], "every set of networks, every combination of countries, ASes, flags and address families that may be asked for, every format, every kind of output",
	"There are no tests of exports; what goes wrong depends on the combination of what was asked for with what the networks are.",
	["src/python/location/export.py"], [("Exporter.export", "src/python/location/export.py"), ("IpsetOutputWriter", "src/python/location/export.py"), ("OutputWriter.finish", "src/python/location/export.py")],
	["export_check", "exports"], "abstract interpretation of the syntax tree: networks and requests by what can be told apart, unknown counts; texts as templates",
	"Every kind of network against every kind of request; each format with no, one and more networks to each kind of output. What the search in the database returns is P12's part.",
	observe="exported files of generated databases against what lookups say, loaded with ipset and nft")

P("P27", "The command line tool reports what the database says about all it is asked",
	"Each command prints everything that the database has about each address, AS, country or network it was asked for, and nothing that is not so; what cannot be answered is said, does not keep the rest from being answered, and makes the exit status nonzero. Lists and dumps contain each network, AS and country once, with its attributes, in the format, for the family and to the output asked for.",
	["inputs", "configurations"], "every kind of network, AS and country (with and without country, name, continent, AS, each flag; known to the database or not), every combination of arguments",
	"There are no tests of the command line tool.",
	["src/scripts/location.in"], [("CLI.handle_lookup", "src/scripts/location.in"), ("CLI.handle_dump", "src/scripts/location.in"), ("CLI.handle_export", "src/scripts/location.in"), ("CLI.handle_list_networks_by_flags", "src/scripts/location.in")],
	["cli_check", "tool"], "abstract interpretation of the syntax tree: tokens for networks, ASes and countries by what can be told apart; expected output per combination",
	"Each command over every combination of what a network, AS or country may have and every kind of argument. Updates and verification are P17's part, what the database's methods return P11's and P12's.",
	observe="output and exit status of the tool for generated databases")

P("P28", "Python, Lua and Perl return what the library says",
	"Each attribute, method, comparison and iterator of the Python, Lua and Perl modules hands out the library's answer for exactly the object and the arguments it was used with: None or False only where the library has no answer or says no, every search criterion given (and no other) is searched for, and what is set or added reaches the library as it was given. Constants have the library's values.",
	["inputs"], "every object, argument and answer of the library, for every member of every type",
	"Tests use a few members with a few values; an attribute that answers for another one, or a criterion that is dropped when two are given, shows only with values that differ.",
	["src/python/network.c", "src/python/database.c", "src/python/as.c", "src/python/country.c", "src/python/writer.c", "src/lua/as.c", "src/lua/country.c", "src/lua/database.c", "src/lua/network.c", "src/perl/Location.xs"], [("Network_get_first_address", "src/python/network.c"), ("Database_search_networks", "src/python/database.c"), ("DatabaseEnumerator_next", "src/python/database.c"), ("Network_richcompare", "src/python/network.c"), ("Network_subnets", "src/lua/network.c")],
	["member_check", "check"], "abstract interpretation of the binding's LLVM IR over tokens: all paths, results as terms over the library's answers, compared with a table of what each member stands for",
	"Every path through each member of the Python types and the Lua classes and each function of the Perl module, lists of up to two elements. References, NULL and exceptions are P14's and P15's; the library's answers are the other properties'.",
	observe="values of attributes and methods of objects for databases whose fields all differ")

P("P32", "Threads that use their own objects do not disturb each other",
	"Threads that each use objects of their own, made from contexts of their own, get the results they would get alone: the library keeps nothing that exists once per process and changes, and calls no function of the system that does.",
	["schedules"], "every interleaving of any number of threads that share no object of the library",
	"A race shows only under rare schedules; tests run one thread.",
	["src/address.c", "src/libloc.c", "src/country.c", "src/as.c", "src/resolv.c", "src/network.c"], [("loc_address_str", "src/address.c"), ("loc_new", "src/libloc.c")],
	["threads_check", "check"], "interprocedural dataflow over LLVM IR: where pointers to variables of the process get to; effect analysis of calls",
	"Every store and every call of every function of the library, whatever the schedule. Objects used by several threads at once are not covered: reference counts are plain integers.",
	observe="strings made by several threads at once")

P("P33", "The library reads databases of real size within bounded time and memory",
	"Loading, looking up, enumerating and writing take time in proportion to the size of the database or the length of an address, and memory in proportion to what is loaded.",
	["inputs"], "every database",
	"Tests use tiny databases.",
	["src/database.c", "src/writer.c", "src/network-list.c"], [("loops over records and nodes", "src/*.c")],
	na="A bound on running time quantifies over the sizes of inputs and the order of operations on lists; static cost analysis of these loops needs ranking arguments over heap structures that are not available here.")
