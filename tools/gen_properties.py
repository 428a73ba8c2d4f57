#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as the readable source of the property texts).
import json, os
P = []
def prop(id, title, statement, over, otext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=otext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01","A lookup returns exactly the value last stored under that key",
 "Within one open session, after any sequence of stores, a lookup of a key returns byte-for-byte (and length-for-length) the value of the last successful store under that key, and a lookup of a key never stored reports not-found. This holds for every accepted key and value length (including empty values, keys of the maximum accepted length and values spanning many pages), every page size, initial bucket count, cache size and user hash/compare function, at every moment of table growth.",
 ["histories","inputs","configurations"],
 "all sequences of put/get/replace over one handle, all key/value byte strings within limits, all FFDB_HASHINFO settings",
 "The tests write one fixed list of generated strings per (page size, bucket) pair and read them back; they never use boundary key/value sizes, empty values, default bucket count, colliding hashes or tiny caches together, nor check absent keys after growth.",
 ["filehash/ffdb_hash.c","filehash/ffdb_page.c","filehash/ffdb_hash_func.c"],
 [("linear hashing: bucket choice and expansion","filehash/ffdb_hash.c:_ffdb_call_hash,_ffdb_expand_table"),
  ("chain walk / insert / replace","filehash/ffdb_page.c:ffdb_find_item,ffdb_add_pair,ffdb_add_ovflpage"),
  ("bucket split","filehash/ffdb_page.c:ffdb_split_bucket"),
  ("value spanning pages","filehash/ffdb_page.c:_ffdb_add_data,_ffdb_get_data,_ffdb_replace_data")],
 [("hdr.max_bucket/high_mask/low_mask","which bucket a hash maps to","ffdb_hash.h"),("hdr.spares","page layout per level","ffdb_hash.h")],
 ["FFDB_DB->put","FFDB_DB->get"])
prop("C02","Everything stored survives close and reopen, across any number of sessions",
 "After a handle is closed successfully, every later open of the file (read-only or read-write, with page rearrangement on or off, with any cache size) sees exactly the pairs stored so far: nothing lost, nothing altered, nothing resurrected. This holds for any number of sessions that interleave reads, inserts and replacements, whenever the close happens.",
 ["histories","configurations","crash_points"],
 "all multi-session histories, every point at which the handle is closed, all combinations of open mode and page rearrangement",
 "Tests do one create session, one append/replace session and one read session per setting; a close at an arbitrary growth point (for example right after a table doubling) or alternating rearrangement settings is never reached.",
 ["filehash/ffdb_hash.c","filehash/ffdb_page.c","filehash/ffdb_pagepool.c"],
 [("close: flush, rearrange, truncate","filehash/ffdb_hash.c:_ffdb_hdestroy; filehash/ffdb_page.c:ffdb_rearrage_pages_on_close,ffdb_reduce_filesize"),
  ("open: move pages back, locate current data page","filehash/ffdb_page.c:ffdb_rearrage_pages_on_open,ffdb_last_data_page"),
  ("dirty page write back","filehash/ffdb_pagepool.c:_ffdb_pagepool_sync_i")],
 [("hdr.num_moved_pages","pages relocated at close","ffdb_hash.h"),("curr_dpage","data page being filled","ffdb_hash.h")],
 ["ffdb_dbopen","FFDB_DB->close"])
prop("C03","A cursor visits every stored pair exactly once, forwards and backwards",
 "A cursor advanced from the beginning (or moved back from the end) until not-found returns each stored key exactly once with its current value, also when lookups on the same handle, several open cursors or caller-supplied buffers are interleaved, and on an empty database it reports not-found at once. Moving in mixed directions only ever delivers stored pairs, and repositioning to first or last restarts a complete traversal. A finished cursor stays finished, and a finished or partly used cursor can always be closed.",
 ["histories","inputs","configurations"],
 "all database contents and layouts, all interleavings of cursor movement with lookups, any number of cursors",
 "tkeyseq/DB key listing walk forward once over one populated file with the handle otherwise idle; backward walks, direction changes, empty buckets/pages, interleaved lookups and tiny caches are not sampled.",
 ["filehash/ffdb_page.c","filehash/ffdb_hash.c","src/DBCursor.h"],
 [("cursor stepping","filehash/ffdb_page.c:ffdb_cursor_find_by_key"),("cursor get/close","filehash/ffdb_hash.c:_ffdb_cursor_get,_ffdb_cursor_close"),("page pinning shared with lookups","filehash/ffdb_pagepool.c:ffdb_pagepool_get_page,ffdb_pagepool_put_page")],
 [("cursor item","current page/bucket/index, page held pinned","ffdb_hash.h")],
 ["ffdb_cursor_t->get","ffdb_cursor_t->close"])
prop("C04","A refused operation changes nothing and leaves the database usable",
 "When an operation is refused (store without overwrite on an existing key, replacement longer than the current value, key over the maximum length, store or metadata write on a read-only handle, unknown flag, value over the maximum the format can hold (2^40-1 bytes, 2^32-1 on format version 5), lookup or cursor step into a too small caller buffer, oversized user info or out-of-range configuration index, unknown cursor type or position, and the deletion and data cursors the library does not implement) it reports an error and the stored contents, metadata and later behaviour are exactly as if it had not been issued. Later stores, lookups, scans, sync and close still succeed and persist.",
 ["histories","inputs"],
 "all histories in which refused operations occur at arbitrary points, including just before sync/close",
 "Tests never issue an operation that must be refused, so neither the refusal nor its side effects (for example pages left in use and therefore never flushed) are observed.",
 ["filehash/ffdb_hash.c","filehash/ffdb_page.c"],
 [("argument and permission checks","filehash/ffdb_hash.c:_ffdb_hash_put"),("size check before replacing","filehash/ffdb_page.c:_ffdb_replace_item_on_page"),("buffer check","filehash/ffdb_page.c:_ffdb_get_data")],
 [("page pin state","pages held by an operation are skipped by flush","ffdb_pagepool.h")],
 ["FFDB_DB->put","FFDB_DB->get","ffdb_set_*"])
prop("C05","No memory error, undefined behaviour or leak in any legal use",
 "For every legal sequence of API calls the library never reads or writes outside the buffers it was given or owns, never uses freed or uninitialised memory to decide anything or to fill its output, never performs undefined arithmetic, and after the last handle and cursor are closed and returned buffers freed it holds no memory or file descriptor. Caller buffers of exactly the stated length are sufficient and are never modified beyond that length.",
 ["inputs","histories","configurations"],
 "all legal API histories, with exactly sized heap buffers for every key, value and output",
 "Tests pass C strings in large buffers and run without instrumentation; an over-read of a few bytes or an uninitialised field passes silently.",
 ["filehash/ffdb_page.c","filehash/ffdb_hash.c","filehash/ffdb_pagepool.c","filehash/ffdb_hash_func.c","src/DBFunc.h","src/AllConfStoreDB.h"],
 [("copy-length computation","filehash/ffdb_page.c:_ffdb_add_data,_ffdb_replace_data,_ffdb_get_data"),("page buffers","filehash/ffdb_pagepool.c"),("teardown","filehash/ffdb_hash.c:_ffdb_hdestroy")],
 [], ["all public entry points"])
prop("C06","After sync returns, a process death loses nothing stored before it",
 "If sync returns success and the process then dies without closing (at once, or after further lookups, scans and refused operations, but no further store), a later open of the file sees exactly the pairs and metadata present at the sync, and the file can be extended normally afterwards. This holds as well when cursors, of this or of other threads, stand anywhere in the database during the sync.",
 ["crash_points","histories"],
 "all histories ended by a kill right after any successful sync, any cache size, any growth point",
 "No test kills a writer; sync is only exercised implicitly by close.",
 ["filehash/ffdb_hash.c","filehash/ffdb_pagepool.c"],
 [("flush header then dirty pages","filehash/ffdb_hash.c:_ffdb_hash_sync"),("dirty page collection","filehash/ffdb_pagepool.c:_ffdb_pagepool_sync_i")],
 [("page dirty/pinned flags","what is written at sync","ffdb_pagepool.h")],
 ["FFDB_DB->sync","file bytes after sync"])
prop("C07","Corrupted bytes are detected, never returned as data",
 "If a byte of a closed database file is altered, every later open, lookup, scan or metadata read either returns the originally stored data or fails visibly (error return or the documented fatal exit). After larger damage (overwritten or zero-filled ranges, truncation, swapped, duplicated or stale pages) a lookup or scan still never delivers bytes that are not the ones stored under that key, and no damage leads to a memory error.",
 ["fault_sequences","inputs"],
 "all single and multiple byte corruptions at every file position, all file layouts",
 "Tests never corrupt a file, so neither the page checksums, the header checksum nor the per-value checksum verification is ever exercised.",
 ["filehash/ffdb_page.c","filehash/ffdb_hash.c","filehash/ffdb_hash_func.c"],
 [("page checksum on read","filehash/ffdb_page.c:ffdb_pgin_routine"),("header checksum","filehash/ffdb_hash.c:_ffdb_hget_header"),("value checksum","filehash/ffdb_page.c:_ffdb_get_data")],
 [], ["lookup/scan results after corruption"])
prop("C08","A read-only handle never changes the file and refuses all writes",
 "Opening a database read-only, using it in any way (lookups, scans, refused stores and metadata writes, sync) and closing it leaves the file's bytes and length identical, for every page-rearrangement setting and for files in any closed state; every attempt to store pairs or metadata through such a handle returns an error and has no visible effect.",
 ["histories","configurations"],
 "all read-only sessions over all closed files",
 "Tests open read-only but never compare the file afterwards nor attempt a write through a read-only handle.",
 ["filehash/ffdb_hash.c","filehash/ffdb_page.c"],
 [("save_file guard","filehash/ffdb_hash.c:_ffdb_flush_meta,_ffdb_hdestroy"),("permission check","filehash/ffdb_hash.c:_ffdb_hash_put; ffdb_set_config, ffdb_set_user_info")],
 [("save_file","whether the handle may write","ffdb_hash.h")],
 ["file bytes before/after"])
prop("C09","Concurrent readers get correct data, without races, deadlock or starvation",
 "Any number of threads may perform lookups and run their own cursors on one open handle at the same time (each thread either looking up or running one cursor at a time): every operation completes and returns exactly what it would return alone, with no data race, deadlock or lost wake-up, for every cache size including one smaller than the number of threads. Threads that use separate handles, each on its own file (or several read-only handles on one file), are independent of each other in the same sense, including when they construct, open and close at the same time. The same holds for threads using typed stores, and for metadata reads and syncs beside the readers. A handle may also be passed between threads: when several threads use one handle in turn, one operation at a time and stores, closes and cursors included, every operation completes and the history behaves as if one thread had performed it.",
 ["schedules","configurations"],
 "all interleavings of reader threads, all thread counts and cache sizes",
 "tread-th runs a few threads once over a warm cache; schedules with page eviction, waiting for a pinned page, cursor/lookup mixes and open races are a matter of luck and no race detector watches.",
 ["filehash/ffdb_pagepool.c","filehash/ffdb_hash.c","filehash/ffdb_hash_func.c"],
 [("page pin/wait/wake protocol","filehash/ffdb_pagepool.c:ffdb_pagepool_get_page,ffdb_pagepool_put_page"),("LRU replacement under lock","filehash/ffdb_pagepool.c:_ffdb_pagepool_reuse_bkt"),("cursor registration","filehash/ffdb_hash.c:_ffdb_hash_cursor")],
 [("page waiters queue","threads blocked on a page","ffdb_pagepool.h")],
 ["thread results, TSan reports, completion"])
prop("C10","The page cache is transparent and bounded",
 "The results of any history and the logical contents of the resulting file do not depend on the configured cache size, and the memory held for cached pages stays within the configured size (plus a small fixed number of pages) however large the database grows and however many operations, refused operations and scans are performed.",
 ["configurations","histories"],
 "the same history replayed under every cache size from one page to unlimited",
 "Tests use one large cache in which nothing is ever evicted and never measure memory.",
 ["filehash/ffdb_pagepool.c"],
 [("reuse instead of allocate when full","filehash/ffdb_pagepool.c:_ffdb_pagepool_new_bkt,_ffdb_pagepool_reuse_bkt"),("write back on eviction","filehash/ffdb_pagepool.c:_ffdb_pagepool_write")],
 [("maxcache/curcache","page quota and pages held","ffdb_pagepool.h")],
 ["heap growth","results per cache size"])
prop("C11","Every closed or synced file is a structurally sound database",
 "The bytes of a database file after any close or successful sync parse, by an independent reader of the documented page format, into exactly the stored pairs: header counts and checksums agree, every key is in the bucket its hash selects, key and value records refer to each other, page links agree in both directions, no page or byte range belongs to two owners, and pages recorded as free are not in use.",
 ["histories","configurations"],
 "all histories and all close/sync points",
 "Tests only read back through the same code, which tolerates or hides inconsistent links, stale counts, shared pages and pages leaked into the free list until a later insert destroys data.",
 ["filehash/ffdb_page.c","filehash/ffdb_page.h","filehash/ffdb_hash.c","filehash/ffdb_hash.h"],
 [("page format","filehash/ffdb_page.h"),("free page lists","filehash/ffdb_page.c:_ffdb_free_ovflpage,_ffdb_reuse_free_ovflpage"),("split and move rewriting references","filehash/ffdb_page.c:_ffdb_update_data_info,_ffdb_move_pages"),("checksums","filehash/ffdb_page.c:ffdb_pgout_routine")],
 [("hdr.nkeys","number of pairs","ffdb_hash.h"),("free_pages","free list per level","ffdb_hash.h")],
 ["file bytes"])
prop("C12","User info and configuration records round-trip independently of the data",
 "User information (any bytes up to the announced maximum) and every configuration record (all fields, any slot up to the configured number, set singly or all together) read back exactly as last written, in the same session and after any reopen; writing one slot changes no other slot, and neither metadata nor pairs ever affect one another. The announced maxima equal those requested at creation and do not change.",
 ["inputs","histories","configurations"],
 "all metadata contents and sizes, page sizes and slot counts, interleaved with pair operations and reopens",
 "Tests store a short user string and a few configuration records once with default sizes; metadata spanning pages, full-length data, slot boundaries and rewriting are not sampled.",
 ["filehash/ffdb_page.c","filehash/ffdb_hash.c","src/ConfDataStoreDB.h","src/ConfDataStoreDBSimple.h"],
 [("user info through the store classes","src/ConfDataStoreDB.h:insertUserdata,getUserdata"),("user info pages","filehash/ffdb_page.c:ffdb_set_uinfo,ffdb_get_uinfo"),("config pages","filehash/ffdb_page.c:ffdb_set_configs,ffdb_get_configs,ffdb_set_config_info,ffdb_get_config_info"),("sizing at creation","filehash/ffdb_hash.c:_ffdb_init_htab")],
 [("hdr.uinfolen/num_cfigs","announced maxima","ffdb_hash.h")],
 ["ffdb_set_user_info","ffdb_get_user_info","ffdb_set_config","ffdb_get_config","ffdb_set_all_configs","ffdb_get_all_configs"])
prop("C13","The file format is stable: existing files keep their meaning",
 "Database files written by the pinned release, of format version 5 or 6 and of either byte order, open and yield exactly their recorded pairs and metadata, both read-only and when extended further (keeping their version and byte order); files written now can be read by an independent implementation of the pinned format (hash placement, checksums, field layout, byte order included).",
 ["inputs","configurations"],
 "all files of the supported versions and byte orders",
 "Tests write and read with the same build on one machine, so any symmetric change of hash, checksum, layout or byte order goes unnoticed and foreign byte order or version 5 files are never opened.",
 ["filehash/ffdb_page.c","filehash/ffdb_hash.c","filehash/ffdb_hash_func.c","filehash/ffdb_page.h"],
 [("byte swapping in/out","filehash/ffdb_page.c:_ffdb_swap_page_metainfo_in,_ffdb_swap_page_metainfo_out; filehash/ffdb_hash.c:_ffdb_swap_header"),("version handling","filehash/ffdb_hash.c:__ffdb_hash_open"),("hash and crc","filehash/ffdb_hash_func.c")],
 [], ["reads of golden and converted files"])
prop("C14","The typed key/data store is a faithful map over serialised objects",
 "Through the typed store (with or without fixed key/data types), insert/get/exist by key, by string key and in binary form address the same pairs; a get returns an object equal to the last one inserted under an equal key, absent keys are reported as absent without touching the output, and all listing functions return each stored pair exactly once with matching positions between keys and values. Closed or never-opened stores report errors instead of misbehaving, flush/close/reopen keep everything, and copies of a store share one database.",
 ["histories","inputs","configurations"],
 "all histories over typed and binary operations, all key/data objects, all option settings",
 "Conf/SConf tests insert a fixed sequence once and read it back with the same calls; mixtures of typed/binary calls, overwriting, absent keys and empty objects are not covered.",
 ["src/ConfDataStoreDB.h","src/ConfDataStoreDBSimple.h","src/DBFunc.h","src/DBFunc.cpp","src/DBCursor.h"],
 [("serialise and store","src/DBFunc.h:insertData,getData,keyExist"),("listing","src/DBFunc.h:allKeys,allPairs; src/DBFunc.cpp:binaryAllPairs"),("shared handle","src/ConfDataStoreDB.h:DB")],
 [], ["ConfDataStoreDB","ConfDataStoreDBSimple"])
prop("C15","An ensemble record holds one element per configuration, updated independently",
 "In the ensemble store (whose elements all have one non-empty serialised size), get returns for every inserted key the vector of elements last written, in configuration order; updating one configuration's element changes only that element of only that key; a record whose elements differ in size is refused without effect, one with the wrong number of elements is refused by an error or the documented fatal exit; an update of an absent key creates a record only in a new (empty) ensemble; and the configuration list and per-configuration information persist and read back as set. All access paths (typed, string key, binary, iteration, listing) agree.",
 ["histories","inputs","configurations"],
 "all ensembles (number of configurations, element sizes, keys) and insert/update/reopen histories",
 "AllConf tests use one ensemble shape, update in one order and compare a few elements; isolation of the other elements and persistence of configuration information after mixed sessions are not checked.",
 ["src/AllConfStoreDB.h","src/ConfigInfo.cpp","src/DBCursor.h","src/DBCursor.cpp"],
 [("pack/unpack by element size","src/AllConfStoreDB.h:insert,get,update"),("configuration info","src/AllConfStoreDB.h:open,setConfigInfo,getConfigInfo")],
 [("nbin_/bytesize_","configurations per record, bytes per element","AllConfStoreDB.h")],
 ["AllConfStoreDB"])
prop("C16","Merging single-configuration stores loses and mixes nothing",
 "Merging a list of single-configuration stores into an ensemble store yields, for every key of the first store, the vector whose i-th element is that key's element in the i-th configuration's store, whatever the memory limit, number of keys and chunking; merged configurations are marked inserted with their name, a configuration without a database (N/A) keeps its unset place and is not marked, and the source stores are unchanged. A key missing from a later store, or a merged record that cannot be stored, ends the merge with the documented fatal exit instead of an incomplete result. A multi-file store answers each lookup from the first file that has the key and lists the keys of all files.",
 ["inputs","configurations"],
 "all collections of source stores, memory limits (chunk sizes) and element sizes",
 "DBMergeTest merges one fixed set with one memory limit and checks little of the result; chunk boundaries are not explored.",
 ["src/ConfDataDBMerger.h","src/ConfDataStoreMultipleDB.h","src/AllConfStoreMultipleDB.h"],
 [("chunked merge","src/ConfDataDBMerger.h:merge,initBag,populateBag,iterateSize"),("first match lookup","src/ConfDataStoreMultipleDB.h:get")],
 [], ["merged AllConfStoreDB contents"])
prop("C17","Serialised keys and data read back equal, malformed input is rejected",
 "For every StringKey, UserData and VFloatData value (any bytes, any length) reading the serialised form gives an equal object, the serialised form is the same for equal objects, different objects have different forms, and it has the same bytes on every machine; input with a wrong magic, wrong type id or too short a header is rejected by a SerializeException that leaves no partial effect and leaks nothing. Byte-order helpers and the store's hash and checksum helpers are exact for all arguments.",
 ["inputs"],
 "all strings including embedded zeros and empty ones, all malformed inputs",
 "Tests only use printable strings and never feed malformed input.",
 ["src/DBString.cpp","src/FileDB.cpp","src/VFloatData.cpp","src/HashFunc.cpp"],
 [("writeObject/readObject","src/DBString.cpp"),("byte order helpers","src/FileDB.cpp")],
 [], ["writeObject","readObject"])
prop("C18","A failed write is reported, never passed off as success",
 "If the operating system refuses or cuts short a write (disk full, file size limit, I/O error) while pairs are stored, synced or closed, then either the stores, the sync or the close report an error, or all data is in fact safely in the file: a session in which every call including the final sync or close reported success is always complete on reopen. This holds for the typed stores, the ensembles and the merging of databases as well. After a failure the file never delivers, for any key, bytes that were not stored under that key at some point, and using it neither corrupts memory nor hangs.",
 ["fault_sequences","histories"],
 "every write or group of writes failing at any point of a history",
 "Tests never make a write fail.",
 ["filehash/ffdb_pagepool.c","filehash/ffdb_hash.c"],
 [("write error detection","filehash/ffdb_pagepool.c:_ffdb_pagepool_write,_ffdb_pagepool_sync_i"),("propagation","filehash/ffdb_hash.c:_ffdb_hash_sync,_ffdb_hdestroy"),("typed stores and merging","src/DBFunc.h:insertData,insertBinaryData; src/ConfDataStoreDB.h:close; src/ConfDataDBMerger.h:merge")],
 [], ["return codes of put/sync/close vs reopened contents"])
prop("C19","Only compatible databases open, and a refused open changes nothing",
 "Opening succeeds exactly for a database of a supported version whose hash function matches, or for a new file when creation is allowed with valid parameters; in every other case (missing file, not a database, too short, unsupported version, different hash function, write-only mode, invalid page size, more metadata than the header can describe) it fails visibly (an error, or for a file whose header is damaged possibly by ending the process) without modifying, creating or truncating anything, and an open that returns an error leaks neither descriptors nor memory. Creation honours the requested parameters, and an existing file keeps its own page size and layout whatever parameters the open passes.",
 ["inputs","configurations"],
 "all file contents and open parameter combinations",
 "Tests only open well-formed files with matching parameters.",
 ["filehash/ffdb_hash.c","filehash/ffdb_db.c","src/DBFunc.h"],
 [("header validation","filehash/ffdb_hash.c:__ffdb_hash_open,_ffdb_hget_header"),("parameter validation","filehash/ffdb_hash.c:_ffdb_init_hash")],
 [], ["ffdb_dbopen"])
prop("C20","Space is accounted for: replacing never grows, page moving never loses",
 "Replacing values and sessions that store nothing leave the length of the file as it was, whatever was read meanwhile; closing with page rearrangement never gives a longer file than closing without it, and switching it off again restores exactly the length without it. Making the same stores in any number of sessions, with any cache size, any number of syncs and any replacements in between, costs in total only a few pages more than one plain session (two per doubling of the bucket count plus ten), values are packed (at most a few per cent and a few pages per doubling above their size), and no page is ever lost: each is in use, listed as reusable, deleted or blank (the pages that a long value gives up when a shorter one replaces it are not reused; they stay with it).",
 ["histories","configurations"],
 "all histories, compared between rearrangement settings and against a size bound",
 "Tests never look at file sizes.",
 ["filehash/ffdb_page.c","filehash/ffdb_hash.c"],
 [("in-place replacement","filehash/ffdb_page.c:_ffdb_replace_data"),("page allocation","filehash/ffdb_page.c:_ffdb_reuse_free_ovflpage,ffdb_last_data_page"),("rearrangement and truncation","filehash/ffdb_page.c:ffdb_rearrage_pages_on_close,ffdb_reduce_filesize")],
 [("free_pages","reusable pages","ffdb_hash.h")],
 ["file length after close"])
prop("C21","A failed read is reported, never taken for absent data",
 "If the operating system refuses or cuts short reads of the database file (I/O error, short read), no call hides it: a lookup delivers the stored bytes, or reports an error, or the process ends visibly, but it never reports a stored key as not found nor delivers other bytes; a scan never ends as if complete before it delivered every key; reading user info or configurations never delivers other bytes with success; an open never succeeds with wrong contents. A handle that survives answers everything as before once reads work again. A store that reported success while reads failed around it is complete, on that handle and after reopening, and keys other than those whose store was refused are untouched; nothing corrupts memory or hangs. The typed stores, ensembles and multi-file stores keep this as well (there an exception counts as an error): existence tests, complete key lists, element updates, the file a key is taken from, and a merge that reports nothing is complete. (The value of a key whose own store or replacement was refused is not claimed, nor is the file after the process ended in the middle of changing it.)",
 ["fault_sequences","histories"],
 "every read or group of reads failing at any point of a history of lookups, scans, metadata reads and stores",
 "Tests never make a read fail.",
 ["filehash/ffdb_pagepool.c","filehash/ffdb_page.c","filehash/ffdb_hash.c","src/DBFunc.h","src/AllConfStoreDB.h"],
 [("read error detection","filehash/ffdb_pagepool.c:_ffdb_pagepool_read"),("propagation in lookups and scans","filehash/ffdb_page.c:ffdb_find_item,_ffdb_get_data,cursor routines"),("propagation in stores, splits and page moves","filehash/ffdb_page.c:ffdb_add_ovflpage,ffdb_split_bucket,_ffdb_move_pages"),("typed stores","src/DBFunc.h:getData,keyExist,allKeys; src/AllConfStoreDB.h:open,update; src/ConfDataStoreMultipleDB.h:get; src/ConfDataDBMerger.h:merge")],
 [], ["return codes of open/get/put/cursor get vs the model"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
