# prop(id, title, statement, over, text, why, files, mechanism, technique, level note, reason if not claimed)
UNIT = "Explores generated inputs only (counts in the evidence file); trusts the reference model in the check, clang's AddressSanitizer and the stand-in configuration headers."

prop("C20", "The ordered key index is an ordered map from keys to values",
 "After any sequence of insertions, replacing or not, deletions and searches, the ordered key index returns for every key exactly the value last stored under it, and reports its size, minimum and maximum correctly. Full listings visit every stored key once in unsigned byte order, prefix listings visit exactly the stored keys that start with the prefix, and a listing stops when the visitor asks it to. No operation reads outside the key it is given.",
 ["histories", "inputs"], "all operation histories on keys of any length and byte content, including keys that share long prefixes or are prefixes of one another's terminated forms",
 "the tests only insert a few ASCII words; node growth, shrinkage, long compressed paths and bytes above 0x7f depend on the whole history of keys",
 ["src/commons/collections/art.c", "src/commons/collections/include/art.h"],
 [("node growth and shrinkage", "art.c add_child*/remove_child*"), ("path compression with a bounded stored prefix", "art.c check_prefix/prefix_mismatch"), ("ordered traversal", "art.c recursive_iter, art_iter_prefix")],
 "stateful property-based testing against std::map", UNIT)

prop("C23", "Hash tables and sets behave as the abstract map and set",
 "After any sequence of insertions, overwrites, lookups, removals, iterations and set combinations, every hash table and set of the library holds exactly the pairs the abstract map or set would hold, whatever the key type, collisions or growth, and reports its size correctly. Keys that compare equal hash equal, and the comparison functions are consistent orders. Each key and value handed over is released exactly once, when it is overwritten or removed or when its container is freed. An insertion or set combination that cannot get memory reports failure and leaves its containers as they were.",
 ["histories", "inputs"], "all operation histories over string, case-insensitive string, integer, floating and pointer keys with arbitrary collisions",
 "the tests insert a handful of distinct keys; rehashing, tombstone reuse and ownership depend on the order of operations and on collisions",
 ["src/commons/collections/pdc_hash_table.c", "src/commons/collections/pdc_set.c", "src/commons/collections/pdc_hash.c", "src/commons/collections/pdc_compare.c", "src/commons/profiling/pdc_hashtab.c", "src/server/pdc_hash-table.c"],
 [("chained hash table with enlargement", "pdc_hash_table.c hash_table_insert/hash_table_enlarge"), ("set on a chained table", "pdc_set.c"), ("open addressing with tombstones", "pdc_hashtab.c htab_find_slot_with_hash/htab_expand")],
 "stateful property-based testing against std::map/std::set; algebraic laws on generated key triples", UNIT)

prop("C24", "Sequence containers behave as the abstract sequence",
 "After any sequence of operations a deque, stack, vector or linked list of the library holds exactly the elements, in order, that the abstract sequence would hold, and reports its size and emptiness correctly. Growing, shrinking and wrapping around never lose, duplicate or reorder an element. A search for an element that is not there finds nothing.",
 ["histories"], "all operation histories, including long runs of pushes and pops at both ends",
 "tests push a few elements; the ring buffer's wrap-around, growth and shrink thresholds need particular run lengths at both ends",
 ["src/commons/collections/pdc_deque.c", "src/commons/collections/pdc_stack.c", "src/commons/collections/pdc_vector.c", "src/commons/utils/include/pdc_linkedlist.h"],
 [("ring buffer resize", "pdc_deque.c"), ("capacity growth", "pdc_stack.c, pdc_vector.c"), ("intrusive list macros", "pdc_linkedlist.h")],
 "stateful property-based testing against std::deque/std::vector", UNIT)

prop("C25", "An approximate filter never denies an item it holds",
 "After any sequence of additions and of removals of items currently held, a counting or scaling membership filter admits every item it still holds, whatever its capacity, error rate and growth. An item that was never added, or was removed again, is admitted with about the configured error probability, and not more.",
 ["histories", "inputs", "configurations"], "all histories of adds and matching removes for any capacity and error rate",
 "tests never overflow a counter, grow a scaling filter, or measure the error rate",
 ["src/server/dablooms/pdc_dablooms.c", "src/server/dablooms/pdc_murmur.c"],
 [("4-bit counters", "bitmap_increment/bitmap_decrement"), ("scaling by appending filters", "scaling_bloom_add/bitmap_resize")],
 "stateful property-based testing against a multiset, plus a statistical bound", UNIT)

prop("C26", "Region geometry agrees with element-by-element enumeration",
 "For any two hyperslabs of the same dimensionality, overlap, intersection, containment and equality tests agree with enumerating their elements. Copying the common part between two buffers, or a sub-region out of or into a region buffer, moves exactly the elements in the intersection to their places and touches nothing else.",
 ["inputs"], "all pairs of 1-3 dimensional regions and element sizes",
 "tests exercise a few aligned regions; the arithmetic depends on every combination of offsets and sizes per dimension",
 ["src/utils/pdc_region_utils.c", "src/api/pdc_region/include/pdc_region.h"],
 [("overlap arithmetic", "pdc_region_utils.c PDC_region_overlap_detect, check_overlap, detect_region_contained"), ("strided copies", "memcpy_overlap_subregion, memcpy_subregion")],
 "property-based testing against brute-force enumeration", UNIT)

prop("C21", "A partitioned index sends every query to a server that holds the matching keys",
 "Whatever the number of servers, alphabet, replication and load, every stored key is placed on the requested number of existing servers, its copies at different places of the partition. The servers named for an exact, prefix, suffix or infix query on any part of a stored key always include one that holds it, and a deletion names every server an insertion may have used. Placement depends only on the key and the configuration, never on bytes beyond the key.",
 ["inputs", "configurations", "histories"], "all server counts, alphabets, replication factors, load reports and keys of any byte content",
 "the tests print the load balance of one word list and assert nothing; a missed key only shows for particular prefixes, tree heights and server counts",
 ["src/commons/index/dart/dart_core.c", "src/commons/index/dart/dart_algo.c", "src/commons/index/dart/dart_math.c", "src/commons/index/dart/dart_utils.c"],
 [("virtual node placement", "dart_core.c dart_space_init, get_base_virtual_node_by_string, get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2"), ("query fan-out", "dart_core.c DART_hash, get_server_ids_for_query, DHT_hash"), ("token to tree path", "dart_utils.c, dart_math.c")],
 "model-based property-based testing: insert into model servers, then query", UNIT)

prop("C22", "Tag patterns, tag lists and string helpers mean what they say",
 "A pattern with an optional star at either end matches exactly the strings it denotes: equal, starting with, ending with, or containing. Looking up, matching or ranging over the values of a tag list agrees with reading the list entry by entry, and a generated query selects the tag it was generated from. String helpers agree with their plain definitions and read nothing outside their arguments.",
 ["inputs"], "all strings, patterns and tag lists, including repeated keys, empty values, values holding separators and overlapping affixes",
 "the tests check one or two strings per helper; the errors hide in empty parts, repeated keys and overlapping affixes",
 ["src/commons/utils/query_utils.c", "src/commons/utils/string_utils.c", "src/commons/utils/include/string_utils.h"],
 [("pattern matching", "string_utils.c simple_matches, determine_pattern_type"), ("tag list walk", "query_utils.c has_tag, is_value_match, k_v_matches_p"), ("query generation", "query_utils.c gen_query_key_value")],
 "property-based testing against a direct definition of the patterns and lists", UNIT)

prop("C27", "JSON documents survive parsing, printing and editing",
 "A document built through the interface or parsed from any legal spelling has exactly the value it was given. What is printed, formatted or not, is legal JSON with the same value, and minifying changes no meaning. Duplicates are equal and independent. After any edits an array or object has exactly the items the abstract list or member list would have. Text that is cut short or malformed is never read past its end. A string with half a surrogate pair, or halves that do not belong together, is rejected. Items that only refer to others never change or free what they refer to. Parsing, printing, editing and duplicating take memory only from the functions the caller chose, give all of it back, and fail cleanly when it runs out; a refused addition takes nothing.",
 ["inputs", "histories"], "all documents, all legal spellings, all mutated or truncated texts and all edit histories",
 "the repository has no test of its JSON tool code; escapes, number edges, truncation and edit order have unbounded variety",
 ["src/tools/cjson/cJSON.c", "src/tools/cjson/cJSON.h"],
 [("parser", "cJSON.c parse_value/parse_string/parse_number/parse_array/parse_object"), ("printer", "cJSON.c print_*"), ("editing", "cJSON.c add_item_to_array, cJSON_DetachItemViaPointer, cJSON_ReplaceItemViaPointer, cJSON_InsertItemInArray")],
 "structured generation, mutation fuzzing and stateful edits against an independent reader and model", UNIT)

SIM = "Explores generated cases only (counts in the evidence file). Client and server code runs unmodified, but Mercury, MPI, threads, clocks and the file system's failure modes are deterministic stand-ins (sim/), so one schedule chosen by the generator is explored per case; trusts those stand-ins, the model in the check and clang's AddressSanitizer."

prop("C01", "A region transfer reads back exactly what was last written",
 "Whatever the object's shape, element size, partitioning, consistency setting, cache limits and number of servers, a completed read of any region returns, element by element, the data of the last completed write that covers it, and touches nothing of the user's buffer outside the requested local region. This holds however requests are started, polled, waited for and closed: one by one or together, in any order, across closing and reopening the object, and after explicit or background cache flushes. Every started request completes.",
 ["histories", "inputs", "schedules", "configurations"], "all histories of overlapping writes and reads of 1-3 dimensional regions by one client, for every partitioning and server count and every order of message delivery",
 "the tests write and read back one region; partition boundaries, cache merging and eviction, and batches over several servers depend on the history and on the schedule",
 ["src/api/pdc_region/pdc_region_transfer.c", "src/server/pdc_server_region/pdc_server_region_transfer.c", "src/server/pdc_server_region/pdc_server_region_cache.c", "src/server/pdc_server_region/pdc_server_region_request_handler.h", "src/server/pdc_server_region/pdc_server_data.c"],
 [("partitioning", "pdc_region_transfer.c static_region_partition, pack_region_buffer"), ("request status list", "pdc_server_region_transfer.c PDC_check_request/PDC_try_finish_request/PDC_finish_request"), ("write-back cache", "pdc_server_region_cache.c PDC_transfer_request_data_write_out, merge_requests, PDC_region_cache_flush"), ("overlap log of stored regions", "pdc_server_data.c PDC_Server_data_write_out/read_from")],
 "stateful property-based testing of clients and servers in a deterministic simulation, against an array model", SIM)

prop("C02", "Clients that take turns see one another's completed transfers",
 "When several clients share objects, a read that starts after another client's write of the same elements completed returns that data, whichever server holds it and whatever is cached; writes of different clients to disjoint regions never disturb one another. Every started request completes and no client's close or flush loses another's data.",
 ["histories", "schedules", "configurations"], "all histories of several clients writing disjoint regions concurrently and reading after synchronising, for every partitioning, server count and message order",
 "the parallel tests write one slab per rank once; lost or stale data needs particular interleavings of cache flushes and requests of different clients",
 ["src/api/pdc_region/pdc_region_transfer.c", "src/server/pdc_server_region/pdc_server_region_cache.c", "src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c", "src/server/pdc_server_region/pdc_server_region_transfer.c"],
 [("shared cache per server", "pdc_server_region_cache.c"), ("placement of dynamic regions", "pdc_server_region_transfer_metadata_query.c transfer_request_metadata_query_parse"), ("collective object creation", "src/api/pdc_obj PDCobj_create_mpi")],
 "stateful property-based testing of several clients and servers in a deterministic simulation, against an array model", SIM)

prop("C10", "Locks are exclusive and publish what their holder's mapping holds",
 "At most one client holds the lock on a region: a request that may wait gets it once its holder released it, one that may not is refused while it is held and granted otherwise, and releasing what was never obtained fails. Releasing a write lock stores the client's own mapped buffer in the object's region, and releasing a read lock fetches into it exactly what was last released there, without touching memory outside the mapped local region. Every call completes, whatever other clients do, and unmapping never affects another mapping.",
 ["histories", "schedules", "configurations"], "all histories of several clients mapping, locking, releasing and unmapping regions of shared objects, with every message order, type, dimension and server count",
 "the tests lock and release one region per rank without anyone waiting; hand-over, refusal and several mappings of a region need contending clients",
 ["src/server/pdc_server_region/pdc_server_data.c", "src/server/pdc_client_server_common.c", "src/api/pdc_region/pdc_region.c", "src/api/pdc_client_connect.c"],
 [("lock lists of the data server", "pdc_server_data.c PDC_Data_Server_region_lock, PDC_Data_Server_region_release"), ("mappings", "pdc_server_data.c PDC_Data_Server_buf_map, PDC_Data_Server_buf_unmap"), ("data transfer at release", "pdc_client_server_common.c region_release handler")],
 "stateful property-based testing of several clients and servers in a deterministic simulation, against an array model and a table of lock holders", SIM)

prop("C04", "Objects and containers live exactly as long as their users say",
 "An object or container that was created and not deleted can be opened and listed by any client under its name, with exactly the attributes it was created with or later given; one that was deleted, or never created, cannot. A name, identity or id that is taken is refused, collectively on every rank, and deleting, renaming or resizing one entry never affects another. Container membership is what adding and removing made it. What a call reports is what happened.",
 ["histories", "configurations"], "all histories of creating, opening, updating, iterating over, adding to containers and deleting objects and containers by several clients, for every number of clients and servers, names with equal hash values included",
 "the tests create a handful of distinct names once; confusion of two entries needs equal names, equal hashes, several servers or a deletion at the right moment",
 ["src/api/pdc_obj/pdc_obj.c", "src/api/pdc_obj/pdc_cont.c", "src/api/pdc_obj/pdc_mpi.c", "src/api/pdc_client_connect.c", "src/server/pdc_server_metadata.c", "src/server/pdc_hash-table.c"],
 [("metadata hash table and its entries", "pdc_server_metadata.c PDC_insert_metadata_to_hash_table, PDC_Server_delete_metadata_by_id, delete_metadata_from_hash_table"), ("containers", "pdc_server_metadata.c PDC_Server_create_container, PDC_Server_container_add_objs"), ("collective creation", "pdc_mpi.c PDCobj_create_mpi, PDCcont_create_col")],
 "stateful property-based testing of several clients and servers in a deterministic simulation, against a reference model of the name space", SIM)

prop("C05", "Tags hold exactly the values last put on them",
 "A tag read from an object or container returns the bytes, size and type that were last put under that name on that very object or container, whichever client put them and whichever server holds them; a tag that was deleted or never put is not found, deleting one leaves all others, and tags of different owners never mix.",
 ["histories", "configurations", "inputs"], "all histories of putting, replacing, getting and deleting tags of any name, type and size on objects and containers by several clients, for every number of servers",
 "the tests put each tag once and read it back at once; mixing needs replaced values, deleted tags or owners that share a server or a hash value",
 ["src/api/pdc_obj/pdc_obj.c", "src/api/pdc_client_connect.c", "src/server/pdc_server_metadata.c"],
 [("tag storage of the server", "pdc_server_metadata.c PDC_Server_add_kvtag, PDC_Server_get_kvtag, PDC_Server_del_kvtag"), ("tag requests", "pdc_client_connect.c PDC_add_kvtag, PDC_get_kvtag, PDCtag_delete")],
 "stateful property-based testing of several clients and servers in a deterministic simulation, against a reference model of tag maps", SIM)

prop("C06", "A metadata search returns exactly the matching objects",
 "A search by tag name and value pattern, by attributes or by time-step range returns every object that matches and no other, each once, with its own id and attributes, whichever servers hold the objects, however many match, and whether one client or all of them ask. Collective searches return the same union on every rank.",
 ["inputs", "histories", "configurations"], "all populations of tagged objects after creations, updates and deletions, all search patterns and value types, for every number of clients and servers",
 "the tests search for one tag in one population on one server; omissions need several servers, duplicates, deleted objects, many matches or overlapping patterns",
 ["src/api/pdc_client_connect.c", "src/server/pdc_server_metadata.c", "src/commons/utils/query_utils.c", "src/commons/utils/string_utils.c"],
 [("tag search of one server", "pdc_server_metadata.c PDC_Server_get_kvtag_query_result"), ("attribute search of one server", "pdc_server_metadata.c PDC_Server_get_partial_query_result, is_metadata_satisfy_constraint"), ("gathering", "pdc_client_connect.c PDC_Client_query_kvtag, PDC_Client_query_kvtag_mpi, PDC_partial_query")],
 "stateful property-based testing of several clients and servers in a deterministic simulation, against filtering of a reference model", SIM)

prop("C08", "Restarted servers continue where the closed ones stopped",
 "After the servers were closed and as many restarted, every object and container, its attributes, tags, membership and stored data are what they were before, deleted ones stay deleted, new objects get ids that no earlier one has, and every operation goes on to behave as on servers that were never closed, also after several restarts.",
 ["histories", "crash_points", "configurations"], "all histories of metadata and data operations interrupted by closing and restarting the servers, once or repeatedly, for every number of clients and servers",
 "no stable test restarts a server, and what is lost shows only in the later operation that needs it",
 ["src/server/pdc_server.c", "src/server/pdc_server_metadata.c", "src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c", "src/server/pdc_server_region/pdc_server_region_transfer.c"],
 [("checkpoint and restart", "pdc_server.c PDC_Server_checkpoint, PDC_Server_restart"), ("region placement", "pdc_server_region_transfer_metadata_query.c transfer_request_metadata_query_checkpoint, transfer_request_metadata_query_init")],
 "stateful property-based testing with generated restarts in a deterministic simulation, against a reference model", SIM)

prop("C11", "A request or answer arrives with the contents it was sent with",
 "For every request PDC's processes send each other, the receiver decodes exactly the field values the sender put in, in either direction, and reads neither more nor less than was sent. Regions, object descriptions and data queries that are converted to messages and back come out equal: same dimensions, offsets and sizes, same names and attributes, same tree of conditions.",
 ["inputs", "programs"], "all registered requests, both directions, and all contents of their messages: every integer value, strings of any bytes up to the name limit, tags and histograms of any length, regions of 1-4 dimensions, query trees of any shape",
 "no test sends a message; a field encoded too narrow, left out or out of order shows only for values that need it",
 ["src/server/include/pdc_client_server_common.h", "src/server/pdc_client_server_common.c"],
 [("encoding routines", "pdc_client_server_common.h hg_proc_*"), ("region and object conversions", "pdc_client_server_common.c PDC_region_info_t_to_transfer, PDC_transfer_t_to_metadata_t"), ("query tree", "pdc_client_server_common.c PDC_serialize_query, PDC_deserialize_query")],
 "property-based round trips through the compiled encoders of client and server, with messages derived from the struct definitions", SIM)

prop("C12", "Histograms count every element exactly once in the bin that contains it",
 "A histogram made from any array, whole or piece by piece, has ordered bins without gaps that reach from the smallest to the largest element, and every bin counts exactly the elements inside it. Merging histograms counts every element once, in a bin overlapping the one it was in, and covers all of them; copies equal the original. Types that cannot be counted are refused.",
 ["inputs", "histories"], "all arrays of every countable type, constant, narrow and extreme ones included, and all merges of their histograms",
 "no test makes a histogram; gaps and lost counts show only for ranges that do not divide evenly",
 ["src/api/pdc_analysis/pdc_hist_pkg.c", "src/api/pdc_analysis/include/pdc_hist_pkg.h"],
 [("bin edges", "pdc_hist_pkg.c PDC_create_hist"), ("counting", "pdc_hist_pkg.c MACRO_HIST_INCR_ALL"), ("merging", "pdc_hist_pkg.c PDC_merge_hist")],
 "property-based testing against counting by enumeration", UNIT)

prop("C28", "The file helpers store and return exactly the given bytes",
 "Whatever bytes are written to a file, as lines, as a whole, in pieces or as an update in place, reading it back by any of the helpers returns exactly those bytes, and no other part of the file changes. Reading less, more or a line longer than the buffer behaves as described and never writes outside the buffer. A write that could not be stored, such as on a full device, is reported as a failure, and no helper leaves a file of its own open.",
 ["inputs", "histories", "faults"], "all contents (empty, unterminated last lines, any bytes, around the stream's buffer size) and all histories of writes, updates and reads",
 "no test calls these helpers",
 ["src/commons/file/common_io.c", "src/commons/file/include/common_io.h"],
 [("whole-file and line readers", "common_io.c read_file, read_text_file, read_line"), ("in-place update", "common_io.c update_binary_file")],
 "stateful property-based testing against a byte-string model, with a full device as injected fault", UNIT)

prop("C29", "A thread pool runs every job exactly once and waits for all of them",
 "Every job added to a thread pool is run exactly once by one of its threads, and waiting, by however many threads, returns when, and only when, all jobs added before it, and those they added in turn, have finished. As many jobs as there are threads make progress together. One thread takes jobs in the order they were added. Destroying a pool lets running jobs finish, starts none afterwards, leaves other pools alone, and nothing touches the pool once it is freed.",
 ["schedules", "histories"], "all interleavings of the pools' threads with the adding and waiting threads, including spurious wake-ups, for every number of threads and jobs",
 "a test sees one schedule per run; lost wake-ups and use after destruction need a switch at one particular instruction",
 ["src/commons/utils/thpool.c", "src/commons/utils/include/thpool.h"],
 [("job queue and its binary semaphore", "thpool.c jobqueue_push, jobqueue_pull, bsem_post"), ("idle detection", "thpool.c thread_do, thpool_wait"), ("shutdown", "thpool.c thpool_destroy")],
 "stateful property-based testing under generated thread schedules (a switch is possible at every memory access of the library)", UNIT)

prop("C30", "A stopwatch measures exactly the time it was running",
 "After any history of starting, pausing and resuming, a stopwatch shows the total time it has been running since it was last started, in every unit, and pausing or resuming it twice changes nothing. Timestamps in the different units agree.",
 ["histories"], "all histories of starts, pauses and resumptions at any clock readings",
 "no test pauses a stopwatch more than once",
 ["src/commons/utils/timer_utils.c", "src/commons/utils/include/timer_utils.h"],
 [("pause bookkeeping", "timer_utils.c timer_pause, timer_unpause")],
 "stateful property-based testing on a generated clock", UNIT)

prop("C31", "Type descriptors agree with the types they describe",
 "For every value type, its size, name, enumeration name and print format agree with the C type it describes, looking a name up is the inverse of naming the type, and no other name or number is taken for a type. The size of a scalar or array value, strings included, is the number of bytes it occupies.",
 ["inputs"], "all types, near-miss names and generated scalar and array values",
 "the tables are parallel lists indexed by position; no test compares them",
 ["src/commons/generic/include/pdc_generic.h"],
 [("parallel tables", "pdc_generic.h DataTypeSizes, DataTypeNames, DataTypeEnumNames, DataTypeFormat"), ("value sizes", "pdc_generic.h get_size_by_class_n_type")],
 "property-based testing against the C types", UNIT)

prop("C33", "Hash functions are functions of exactly the given bytes",
 "The digest and hash functions behind placement, filters and tables compute the published function of exactly the bytes of the given key, whatever its length, content and alignment, so that every process, on every run, places and finds a key alike. They read and write nothing outside their arguments.",
 ["inputs"], "all byte strings of any length and alignment and all seeds",
 "no test compares a hash with its definition; block boundaries and tails need particular lengths",
 ["src/commons/index/dart/dart_algo.c", "src/server/dablooms/pdc_murmur.c", "src/commons/collections/pdc_hash.c"],
 [("digest of a prefix", "dart_algo.c md5, md5_hash"), ("block and tail mixing", "dart_algo.c murmur3_32; pdc_murmur.c MurmurHash3_x64_128"), ("string hashes", "pdc_hash.c string_hash, string_nocase_hash; dart_algo.c djb2_hash")],
 "differential property-based testing against independent implementations of the published functions", UNIT)

prop("C09", "Open handles are independent values; unknown ones are refused",
 "What a property list, object, container, region or transfer request handle reports is what it was last given, independent of every other handle and of the caller's memory, from its creation to its last close; objects and containers take what their property list held when they were created. Iterations and lookups yield exactly the open ones, and no handle value is ever reused. Every call fails without effect on a handle that was closed or never issued.",
 ["histories", "inputs"], "all histories of creating, duplicating, setting, sharing, iterating, referencing and closing handles of every kind, mixed with calls on closed, unknown and arbitrary handle values",
 "the tests use each handle once, close it once and pass no invalid one; sharing between copies and use after closing show only in later operations",
 ["src/api/pdc_obj/pdc_prop.c", "src/api/pdc_obj/pdc_obj.c", "src/api/pdc_obj/pdc_cont.c", "src/api/pdc_region/pdc_region.c", "src/api/pdc_region/pdc_region_transfer.c", "src/utils/pdc_interface.c"],
 [("handle table", "pdc_interface.c PDC_id_register, PDC_find_id, PDC_dec_ref"), ("property copies", "pdc_prop.c PDCprop_obj_dup, PDC_obj_prop_get_info; pdc_obj.c PDC_obj_create"), ("iteration", "pdc_cont.c PDCcont_iter_next; pdc_obj.c PDCobj_iter_next")],
 "stateful property-based testing in a deterministic simulation, against a table of what each open handle was given", SIM)

prop("C07", "The distributed tag index finds what was indexed and not deleted",
 "A search of the distributed index by exact, prefix, suffix or infix patterns of name and value returns, to whichever client asks, each reference indexed under a matching tag exactly once, none whose tags do not match, and none after its entry was deleted; inserting again after deleting makes it found again. This holds for every placement of tags on servers, algorithm, replication and load, and a collective search gives every client the same.",
 ["histories", "inputs", "configurations"], "all histories of insertions, deletions and searches by several clients over every number of servers, placement algorithm and reference type, tags sharing parts with each other included",
 "the test inserts one tag and asks once without checking; misplaced or left-over entries need several servers, shared name parts and deletions",
 ["src/server/pdc_server_metadata_index.c", "src/api/pdc_client_connect.c", "src/commons/index/dart/dart_core.c"],
 [("server's index", "pdc_server_metadata_index.c metadata_index_create, metadata_index_delete, metadata_index_search"), ("routing and gathering", "pdc_client_connect.c dart_perform_on_servers, PDC_Client_search_obj_ref_through_dart"), ("placement", "dart_core.c DART_hash")],
 "stateful property-based testing of several clients and servers in a deterministic simulation, against a set of (name, value, reference)", SIM)

prop("C34", "The checkpoint listing shows exactly what the servers left",
 "Whatever servers and clients did before they ended, pdc_ls lists, from their checkpoint directory or files, each object that was not deleted exactly once and in its container, with its attributes and with regions that cover all its data and tell where that data lies. The filters by name and id show exactly the objects that match, the lists of names and ids and the summary agree with what is shown, and the output is well-formed JSON for every name and tag.",
 ["histories", "inputs", "configurations"], "all histories of metadata operations or region transfers of several clients on any number of servers, followed by all combinations of the tool's options on their checkpoints",
 "no test runs the tool; several servers' files, unusual names, large dimensions and options together are needed",
 ["src/tools/pdc_ls.c", "src/server/pdc_server.c", "src/tools/cjson/cJSON.c"],
 [("reading checkpoints", "pdc_ls.c pdc_ls, do_transfer_request_metadata"), ("writing checkpoints", "pdc_server.c PDC_Server_checkpoint"), ("filters and output", "pdc_ls.c pdc_ls; cJSON.c cJSON_Print")],
 "stateful property-based testing in a deterministic simulation: generated histories, then the tool with generated options, against the model of the history", SIM)

prop("C35", "Losing the servers loses nothing after the last completed checkpoint",
 "A checkpoint of the servers, requested by a client or taken by a server itself at any time, is written and changes nothing for anybody. When all servers and clients then stop at any moment without closing anything, in the middle of work or of writing another checkpoint, or when another checkpoint found no space, restarting brings back each server's last completed checkpoint: every object and container with its attributes and tags, and every element that was flushed before it, and everything works on from there.",
 ["crash_points", "histories", "schedules", "fault_sequences", "configurations"], "all histories of several clients over several generations of servers, all moments of stopping (between any two operations, after any byte of writing checkpoint files), all amounts of space, all servers' clocks",
 "no test stops the servers without closing them or takes a checkpoint while they serve; what matters is the moment",
 ["src/server/pdc_server.c", "src/api/pdc_client_connect.c", "src/server/pdc_client_server_common.c"],
 [("writing", "pdc_server.c PDC_Server_checkpoint, PDC_Server_loop"), ("restoring", "pdc_server.c PDC_Server_restart"), ("requesting", "pdc_client_connect.c PDC_Client_all_server_checkpoint; pdc_client_server_common.c server_checkpoint_rpc")],
 "stateful property-based testing with generated stopping points and faults in a deterministic simulation, against the model's state at each server's last completed checkpoint", SIM)
