import json
P=[]
MECH={
'C01':[('size computation and 7-bit group loops of the MBN codec','src/gutil_datapack.c: gutil_*_mbn_size/encode2')],
'C02':[('bit counting, sign-extension and unused-bit checks of the decoder','src/gutil_datapack.c: gutil_*_mbn_decode')],
'C03':[('work on a copy of the range, commit only on success','src/gutil_datapack.c: gutil_tlv_decode')],
'C04':[('bit mask of seen tags, pre-cleared outputs','src/gutil_datapack.c: gutil_tlvs_decode')],
'C05':[('digit tables and column loops','src/gutil_misc.c: gutil_hex2bin, gutil_bin2hex, gutil_hexdump')],
'C06':[('trim into a temporary copy, strtoll with end pointer and errno checks','src/gutil_misc.c: gutil_parse_*')],
'C07':[('size checks before memcmp, word-wise XOR with byte tail','src/gutil_misc.c')],
'C08':[('start/end indices modulo allocation size','src/gutil_ring.c')],
'C09':[('maximum size check, free function calls on removal','src/gutil_ring.c: gutil_ring_can_put, gutil_ring_clear, gutil_ring_drop*')],
'C10':[('thin layer over GArray with position clipping','src/gutil_intarray.c')],
'C11':[('atomic reference count, slice holds a reference to its source','src/gutil_ints.c')],
'C12':[('remove helper shifting the tail and shrinking the block','src/gutil_strv.c: gutil_strv_remove_impl')],
'C13':[('g_object_ref on insertion, g_object_unref on removal','src/gutil_objv.c')],
'C14':[('circular entry buffer flushed against a cutoff before each use','src/gutil_history.c: gutil_int_history_flush')],
'C15':[('batch marking before running, single idle source','src/gutil_idlequeue.c: gutil_idle_queue_run')],
'C16':[('unlink before release, source cleared when empty','src/gutil_idlequeue.c: gutil_idle_queue_cancel_*')],
'C17':[('drain loop detaching the item chain, source holding a reference','src/gutil_idlepool.c: gutil_idle_pool_drain')],
'C18':[('GPrivate slot with destructor, thread check, source attached to thread-default context','src/gutil_idlepool.c')],
'C19':[('atomic decrement-and-test','all *_unref functions')],
'C20':[('GWeakRef in a reference-counted cell','src/gutil_weakref.c')],
'C21':[('watch descriptor table, signal emission with a temporary reference','src/gutil_inotify.c: gutil_inotify_read')],
'C22':[('reference-counted singleton owning descriptor, channel and source','src/gutil_inotify.c: gutil_inotify_unref')],
'C23':[('weak-pointer singleton, timerfd cancel-on-set','src/gutil_timenotify.c')],
'C24':[('recursive walk up the parent chain','src/gutil_log.c: gutil_logv_r, gutil_log_enabled_r')],
'C25':[('stack buffer with heap fallback','src/gutil_log.c: gutil_log_format, gutil_log_stdio')],
'C26':[('prefix match over the level table','src/gutil_log.c: gutil_log_parse_level, gutil_log_parse_option')],
'C27':[('no mutable static state in per-object operations','src/*.c')],
'C28':[('guards on zero identifiers and NULL','src/gutil_misc.c')],
'C29':[('bit packing macros','include/gutil_version.h')],
'C31':[('logging, assertion and verification macros','include/gutil_log.h'),('helper macros','include/gutil_macros.h')],
'C30':[('constructor which reads the environment','src/gutil_log.c gutil_log_init'),('strict integer parser','src/gutil_misc.c gutil_parse_int')],
}
def p(id,title,statement,over,text,why,files,observe,states=None,mech=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,observe_at=observe))
    if states: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in states]
    d['anchors']['mechanism']=[dict(name=a,where=b) for a,b in MECH[id]]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Compact integers: encoding is minimal, exact and always decodes back',
 'Every signed or unsigned 64-bit value encodes into exactly as many bytes as the size query announces, which is the smallest number of 7-bit groups able to hold it, and decodes back to the same value with exactly those bytes consumed. Encoding into any wider permitted width (up to 10 bytes) also decodes to the same value. Encoding writes nothing outside those bytes, and the whole-buffer decoder accepts the encoding only when nothing follows it.',
 ['inputs'],'all 64-bit values and all permitted widths',
 'The tests encode about a dozen constants; sign/width boundaries at every multiple of 7 bits (in particular bytes 9 and 10) are input-quantified.',
 ['src/gutil_datapack.c','include/gutil_datapack.h'],['gutil_signed_mbn_size','gutil_signed_mbn_encode','gutil_signed_mbn_encode2','gutil_signed_mbn_decode','gutil_signed_mbn_decode2','gutil_unsigned_mbn_size','gutil_unsigned_mbn_encode','gutil_unsigned_mbn_encode2','gutil_unsigned_mbn_decode','gutil_unsigned_mbn_decode2'],
 mech=[('MBN codec','src/gutil_datapack.c')])
p('C02','Compact integers: decoding arbitrary bytes is total, exact and contained',
 'For any byte sequence the decoder either accepts, yielding the value denoted by the shortest terminated prefix and advancing past exactly that prefix, or refuses and leaves both the position and the output untouched. It accepts precisely the terminated sequences of at most 10 bytes whose denoted number fits 64 bits with unused high bits equal to zero (unsigned) or to the sign (signed); a sequence denoting a number outside the range is refused, never wrapped. Nothing outside the given range is read, and decoding without an output behaves the same.',
 ['inputs'],'all byte sequences, every truncation point',
 'Tests try five malformed sequences; decoders face untrusted bytes of any content and length.',
 ['src/gutil_datapack.c'],['gutil_signed_mbn_decode','gutil_unsigned_mbn_decode','gutil_signed_mbn_decode2','gutil_unsigned_mbn_decode2'])
p('C03','A single TLV decodes to what was encoded and never escapes its input',
 'Encoding a tag in 1..INT_MAX with any data produces exactly the announced number of bytes, which decode to the same tag and data and advance past exactly that entry. Decoding arbitrary bytes either yields a non-zero tag and a value lying entirely inside the input, with the position advanced past that value, or returns zero and leaves the position and output untouched; truncated entries, oversized lengths, tag zero and tags above INT_MAX are refused. Data length zero and absent data encode alike.',
 ['inputs'],'all tags, data lengths and arbitrary input bytes including huge lengths',
 'Tests use three malformed buffers; containment must hold for every hostile length field.',
 ['src/gutil_datapack.c'],['gutil_tlv_size','gutil_tlv_encode','gutil_tlv_decode'])
p('C04','Decoding a TLV table reports exactly the tags present, or the right error',
 'Decoding a buffer against a list of at most 31 expected tags returns the set of tags found, each with exactly the data of its entry, and empty values for those absent. A repeated tag, an unlisted tag (unless skipping is requested) and malformed or trailing bytes are each reported with their own error, the first problem in buffer order winning. Every returned value lies inside the input, whatever the input is; only the first 31 tags of a longer list are considered, and output slots of all listed tags are initialised.',
 ['inputs'],'all sequences of entries, tag lists (0..33 tags), flags, and corruptions of them',
 'Order/combination of known, unknown, duplicate and malformed entries is combinatorial; tests use a few.',
 ['src/gutil_datapack.c'],['gutil_tlvs_decode'])
p('C05','Hex conversion and hex dump are exact inverses and stay in their buffers',
 'Converting bytes to hex text and back yields the same bytes in either letter case, for any length. Conversion from text is accepted only for a positive even count of hexadecimal digits, refusing every other character at every position, and reads no more characters and writes no more bytes than that count implies. A hex dump line shows min(n,16) bytes in hex plus printable characters in fixed columns, always fits the documented buffer including its terminator, and returns the number of bytes shown.',
 ['inputs'],'all byte values, digit pairs, positions and lengths',
 'Tests cover a handful of strings; every one of 65536 character pairs and each column count matters.',
 ['src/gutil_misc.c'],['gutil_hex2bin','gutil_hex2bytes','gutil_bin2hex','gutil_data2hex','gutil_hexdump'])
p('C06','Number parsing accepts exactly in-range numbers and never half-parses',
 'A string is accepted as a 32/64-bit signed or unsigned number in a given base exactly when, after trimming surrounding whitespace, it is a complete non-empty integer literal of that base within the range of the type (no minus sign for unsigned types); the value stored is then exact. In every other case (empty or blank text, trailing garbage, overflow, bad base) it is refused and the output is untouched. The input string is never modified, and passing no output does not change the verdict.',
 ['inputs'],'all strings up to a bound over an alphabet of digits, signs, prefixes, blanks, garbage; all range boundaries; bases 0 and 2..36',
 'Range edges times syntax shapes times bases cannot be listed as examples.',
 ['src/gutil_misc.c'],['gutil_parse_int','gutil_parse_uint','gutil_parse_int64','gutil_parse_uint64'])
p('C07','Byte-block helpers agree with plain byte-string semantics',
 'Equality, prefix, suffix, concatenation, XOR, copying and prefix skipping on byte blocks give the result of the same operation on plain byte strings for all contents, lengths and alignments, with the documented treatment of absent and empty blocks. Results own or reference their memory independently: copies stay valid and unchanged after the source is gone, and no operation modifies its inputs or leaks. Skipping a prefix advances only when the prefix is present.',
 ['inputs'],'all pairs of blocks up to a length bound, all alignments, absent/empty combinations',
 'Tests check a few pairs; word-wise XOR, tails and alignment need every length/offset combination.',
 ['src/gutil_misc.c'],['gutil_data_equal','gutil_data_has_prefix','gutil_data_has_suffix','gutil_bytes_concat','gutil_bytes_xor','gutil_bytes_equal','gutil_bytes_has_prefix','gutil_bytes_has_suffix','gutil_data_copy','gutil_data_new','gutil_range_has_prefix','gutil_range_skip_prefix','gutil_memdup'])
p('C08','Ring buffer behaves as a bounded double-ended queue after any history',
 'After any sequence of operations (put at either end, take from either end, drop, clear, reserve, compact, flatten, resize) the ring holds exactly the elements an ideal double-ended queue would hold, in order, and reports the same size, positional access, flattened array and operation results. Storage operations (reserve, compact, flatten) never change contents. No operation reads or writes outside the storage it owns.',
 ['histories','inputs'],'all operation sequences (reachable storage layouts) up to capacity bounds',
 'Wrap position, capacity and fill level interact; tests visit a few layouts only.',
 ['src/gutil_ring.c','include/gutil_ring.h'],['gutil_ring_put','gutil_ring_put_front','gutil_ring_get','gutil_ring_get_last','gutil_ring_drop','gutil_ring_drop_last','gutil_ring_clear','gutil_ring_reserve','gutil_ring_compact','gutil_ring_flatten','gutil_ring_data_at','gutil_ring_size'],
 states=[('start/end/alloc','physical layout of the queue','src/gutil_ring.c: struct gutil_ring')])
p('C09','Ring capacity limit and element ownership are never violated',
 'A ring with a maximum size never holds more elements than that maximum, whatever was reserved and however the limit was changed: a put beyond it is refused and leaves the ring unchanged, lowering the limit drops the oldest elements, and the can-put query predicts the outcome of puts. Every element the ring discards itself (clear, drop, shrinking the limit, last release) is passed to the free function exactly once, in order of removal, and elements handed back to the caller or still inside are never freed. This holds even if the free function itself puts, takes, drops or clears elements while others are being cleared or dropped.',
 ['histories'],'all operation sequences with limits changed at any point, with and without a free function, re-entrant free functions',
 'Reserved storage larger than the limit, or a limit lowered later, is a history no test visits.',
 ['src/gutil_ring.c'],['gutil_ring_set_max_size','gutil_ring_max_size','gutil_ring_can_put','gutil_ring_new_full','gutil_ring_set_free_func','gutil_ring_unref'])
p('C10','Mutable integer array behaves as a plain sequence for all histories',
 'After any sequence of append, prepend, insert, remove (by value, by index, by range, all occurrences, fast variants), resize and sort operations the array equals the ideal sequence; fast removals may only replace the removed element by the last one. Out-of-range positions and counts, however large, remove only what exists or nothing. Sorting orders any integers, including the extreme values, ascending or descending, and find/contains report the first position or absence.',
 ['histories','inputs'],'all operation sequences up to a depth over values including INT_MIN/INT_MAX and positions including UINT_MAX',
 'Tests sort small positive values and remove in-range positions only.',
 ['src/gutil_intarray.c'],['gutil_int_array_*'])
p('C11','Immutable integer arrays keep content, ownership and ordering laws',
 'A non-empty immutable array reports exactly the integers it was made from for as long as any reference or any slice of it exists; slices are clipped to the source whatever offset and count are given, and an empty result is the absent array. The underlying data is released exactly once, when the last array or slice over it goes, and extracting the data hands the caller an independent copy (or the data itself when solely owned) in every ownership mode. Equality is content equality, equal arrays hash alike, and comparison is a total order consistent with equality in which a proper prefix precedes the longer array.',
 ['histories','inputs'],'all creation modes x slice trees x release orders; all pairs/triples of short arrays incl. extreme values',
 'Release orders of slice trees and extraction in every ownership mode are combinatorial.',
 ['src/gutil_ints.c','src/gutil_intarray.c'],['gutil_ints_new','gutil_ints_new_take','gutil_ints_new_static','gutil_ints_new_with_free_func','gutil_ints_new_from_ints','gutil_ints_ref','gutil_ints_unref','gutil_ints_unref_to_data','gutil_ints_hash','gutil_ints_equal','gutil_ints_compare','gutil_int_array_free_to_ints'])
p('C12','String vectors behave as sequences of owned strings for all histories',
 'After any sequence of add, add-many, remove (by position, one, all occurrences, duplicates), sort and strip operations the vector equals the ideal list of strings and stays terminated, with an absent vector acting as the empty one. Length, positional access, first/last index, membership, equality and binary search agree with that list, including when the string argument is one of the vector\'s own elements. Every string removed is freed exactly once unless the caller asked to keep it, and nothing leaks.',
 ['histories','inputs'],'all operation sequences up to a depth over a small string alphabet with duplicates, prefixes and blanks',
 'Positions of duplicates and the sequence of reallocation matter for every history.',
 ['src/gutil_strv.c'],['gutil_strv_*'])
p('C13','Object vectors hold exactly one reference per slot for all histories',
 'After any sequence of create, copy, add, insert, append (of another vector or itself), remove and free operations an object vector equals the ideal list of objects, with an absent vector acting as the empty one, and queries agree with that list. At every moment each object carries exactly one reference per slot it occupies in addition to its other owners, so an object dies exactly when its last slot and owner are gone. Nothing leaks and no dead object is touched.',
 ['histories'],'all operation sequences up to a depth over few objects with repeats and all positions',
 'Reference counts after every mixture of duplicate removals/insertions cannot be sampled by examples.',
 ['src/gutil_objv.c'],['gutil_objv_*'])
p('C14','Value history is an exact sliding window with a faithful time average',
 'At every moment the history contains exactly the most recent samples, at most its configured number, that are no older than its time span, where a sample submitted at the same instant as (or at a clock value before) the previous one replaces it. Size and interval report that window, and querying never changes later answers other than by expiry. The value returned by adding a sample and by the median query is the time-weighted average of the window (the single value if only one), within rounding and never outside the range of the retained values, for all integers including extremes; an empty history yields the default.',
 ['histories','inputs'],'all sequences of adds, clears, queries and clock steps up to a depth, for capacities 1..4 and extreme values',
 'Expiry, wrap-around and replacement interact over long histories; tests follow a few fixed timelines.',
 ['src/gutil_history.c'],['gutil_int_history_add','gutil_int_history_median','gutil_int_history_size','gutil_int_history_interval','gutil_int_history_clear'])
p('C15','Idle queue runs every callback once, in order, never too early',
 'Every queued callback that is not cancelled runs exactly once, from the main loop and never from inside the queueing call, in the order of submission. Callbacks submitted while a batch is running run only in a later loop iteration; while a callback is still pending its tag is reported as present, and once it has started it is not. When nothing is pending the queue leaves no source behind in the main loop.',
 ['histories','schedules'],'all sequences of add/cancel/iterate, with callbacks that themselves add, cancel, query, release',
 'Re-entrant histories (a callback that cancels or adds) are quantified over programs of callbacks; tests have two.',
 ['src/gutil_idlequeue.c'],['gutil_idle_queue_add','gutil_idle_queue_add_full','gutil_idle_queue_add_tag','gutil_idle_queue_add_tag_full','gutil_idle_queue_contains_tag'])
p('C16','Cancelling or releasing an idle queue is exact and safe at any moment',
 'Cancelling by tag removes exactly the earliest pending callback with that tag and says whether one existed; cancelling all, freeing, or dropping the last reference removes all that were pending at that moment, and cancelled callbacks never run. The data of every callback is released exactly once, right after it ran or when it is cancelled. This holds when done from within a running callback or a release function, including destroying the queue itself, with no access to freed memory and no leak.',
 ['histories','schedules'],'all sequences of operations incl. operations executed inside callbacks and release functions',
 'Destruction from inside callbacks at every point of a batch is not exercised by any test.',
 ['src/gutil_idlequeue.c'],['gutil_idle_queue_cancel_tag','gutil_idle_queue_cancel_all','gutil_idle_queue_free','gutil_idle_queue_ref','gutil_idle_queue_unref'])
p('C17','Idle pool keeps what it holds until idle or drain, then releases it once',
 'Everything placed into an idle pool stays alive until the next idle moment of the main loop, an explicit drain, or the end of the pool, and is then released exactly once, in the order it was added; adding with a reference adds exactly one reference. Items added by a release function during a drain are released by the same drain. A pool may be drained, released or added to from inside release functions at any point without touching freed memory, and a shared pool disappears, clearing the shared pointer, once it is idle and nobody else holds it.',
 ['histories','schedules'],'all sequences of add/drain/ref/unref/get-shared/iterate with re-entrant release functions',
 'Re-entrancy and shared-pool lifetime depend on the order of many small steps.',
 ['src/gutil_idlepool.c'],['gutil_idle_pool_add*','gutil_idle_pool_drain','gutil_idle_pool_get','gutil_idle_pool_ref','gutil_idle_pool_unref','gutil_idle_pool_destroy'])
p('C18','Per-thread idle pools never interfere across threads or loops',
 'Each thread\'s default pool belongs to that thread alone: items placed in it are released by that thread\'s own loop, drain or exit and by no other thread, under every interleaving. A pool used under a thread-specific main context schedules, and on drain removes, work only in that context; draining never removes or disturbs an unrelated source of any main context. When the thread exits everything still held is released exactly once.',
 ['schedules','histories'],'all interleavings up to a preemption bound of 2-3 threads adding/draining/iterating/exiting; all histories with several contexts',
 'The existing test has one fixed two-thread run; source identifiers of different contexts collide only in some histories.',
 ['src/gutil_idlepool.c'],['gutil_idle_pool_get_default','gutil_idle_pool_add','gutil_idle_pool_drain'])
p('C19','Shared objects die exactly once, under every interleaving of ref and unref',
 'For every reference-counted object the library provides (histories, idle pools, idle queues, rings, integer arrays, weak references) references may be taken and dropped from several threads at once. Under every interleaving the object stays usable while any reference exists, is destroyed exactly once when the last one goes, and its contents are released exactly once by then. No thread ever touches freed memory and nothing is leaked.',
 ['schedules'],'all interleavings up to a preemption bound of 2-3 threads taking, using and dropping references',
 'Unit tests are single-threaded for these types; a lost decrement needs a specific preemption.',
 ['src/gutil_history.c','src/gutil_idlepool.c','src/gutil_idlequeue.c','src/gutil_ring.c','src/gutil_ints.c','src/gutil_intarray.c','src/gutil_weakref.c'],['*_ref','*_unref','gutil_ints_unref_to_data'])
p('C20','Weak references yield a live strong reference or nothing, never a dead one',
 'Getting the target of a weak reference returns the last target set with one added reference if it is still alive, and nothing otherwise, under every interleaving with other threads getting, re-targeting, releasing the weak reference or dropping the object. A weak reference never keeps its target alive and never outlives its last holder; retargeting affects all holders. No thread touches freed memory and no reference is lost or leaked.',
 ['schedules','histories'],'all interleavings up to a preemption bound of 2-3 threads, and all sequential histories up to a depth',
 'The documented purpose is multi-threaded use; the tests are single-threaded.',
 ['src/gutil_weakref.c'],['gutil_weakref_new','gutil_weakref_get','gutil_weakref_set','gutil_weakref_ref','gutil_weakref_unref'])
p('C21','File watches deliver every matching event to every live handler, in order',
 'Every file system event matching the mask of a live watch is delivered, in order, exactly once to each handler connected to that watch at that time, with the right event bits, cookie and file name, and to no other watch. This holds for any number of watches, including several on the same file or directory, whatever was created or destroyed before, and when handlers add or remove handlers or create or destroy watches while events are being delivered. After a handler is removed it is not called again, and no event is delivered by a destroyed watch other than the one it is delivering at that very moment.',
 ['histories','inputs'],'all sequences of watch/handler/file operations up to a depth, incl. operations inside handlers',
 'Tests watch two directories and one rename; watches sharing a file and re-entrant destruction are history-quantified.',
 ['src/gutil_inotify.c'],['gutil_inotify_watch_new','gutil_inotify_watch_add_handler','gutil_inotify_watch_remove_handler','gutil_inotify_watch_destroy','gutil_inotify_watch_callback_new','gutil_inotify_watch_callback_free'])
p('C22','File watch resources are released exactly once, under every failure',
 'Creating a watch either succeeds or returns nothing with no residue, whichever system call fails and however it fails; a failure never affects other watches. When the last watch is gone all descriptors, kernel watches, sources and memory are released, each descriptor closed exactly once, and watching can start again afterwards. A read failure or hang-up of the event channel is survived without a crash, and releasing everything afterwards is still clean.',
 ['fault_sequences','histories'],'all placements of system-call failures in all create/reference/destroy sequences up to a depth',
 'No test injects a failing system call or checks descriptor ownership.',
 ['src/gutil_inotify.c'],['gutil_inotify_watch_new','gutil_inotify_watch_ref','gutil_inotify_watch_unref','gutil_inotify_watch_destroy','inotify_init','inotify_add_watch','inotify_rm_watch','close'])
p('C23','System time change notifications reach every handler exactly once',
 'While at least one reference is held there is a single shared notifier; each system time change (or several of them, if they happen before the first one gets delivered) is reported exactly once to every handler connected at that moment, and never to removed handlers, also when handlers add or remove handlers or drop the last reference. Notification keeps working for any number of successive changes. When the last reference goes the timer descriptor and all memory are released, a later request makes a fresh notifier, and failing system calls or channel errors are survived.',
 ['histories','fault_sequences'],'all sequences of acquire/release/handler/clock-change/failure steps up to a depth, incl. steps inside handlers',
 'There is no test at all for this module: the clock cannot be changed in a unit test.',
 ['src/gutil_timenotify.c'],['gutil_time_notify_new','gutil_time_notify_ref','gutil_time_notify_unref','gutil_time_notify_add_handler','gutil_time_notify_remove_handler'])
p('C24','A log message is emitted exactly when its level is enabled for its module',
 'For every configuration of module levels, inheritance from parent modules and from the default, disable flags, per-module and global log functions, a message is emitted exactly when its level is within the effective level of its module (or is the always-level) and neither the module nor an ancestor it inherits from is disabled. The enabled query gives precisely that verdict, for the default (absent) module too. An emitted message goes exactly once to the function responsible for that module, with the module, level, format and arguments unchanged.',
 ['configurations','inputs'],'all module chains up to depth 3 x levels x flags x log functions x message levels',
 'The cross product of levels, inheritance and flags is far larger than the few test configurations.',
 ['src/gutil_log.c'],['gutil_log','gutil_logv','gutil_log_enabled','gutil_log_dump','gutil_log_dump_bytes','gutil_log_default'])
p('C25','Log output carries the whole message, whatever its length and decoration',
 'Text written to standard output or error, syslog or the GLib log is exactly one record per message: optional thread id, timestamp in the chosen format, module name unless empty or hidden, severity prefix and the complete formatted message, for every message length and every timestamp format. A timestamp that cannot be rendered is omitted rather than replaced by garbage. A hex dump emits all bytes in order, 16 per line, with correct offsets, and messages logged from different threads never mix or corrupt each other.',
 ['inputs','configurations','schedules'],'all message lengths 0..1100 and beyond x name/prefix/timestamp/tid settings x sinks; interleavings of two logging threads',
 'Buffer boundaries (exactly 511/512 bytes) and long timestamp formats are input-quantified.',
 ['src/gutil_log.c'],['gutil_log_stdout','gutil_log_stderr','gutil_log_glib','gutil_log_syslog','gutil_log_dump','gutil_log_set_timestamp_format'])
p('C26','Log options and type settings are accepted or rejected atomically',
 'An option of the form [module:]level is accepted exactly when the level is a digit 0..5 or a leading part of a level name and the module (if any) is one of the given ones, compared by its whole name without regard to case; it then changes the level of that module (or the default) and nothing else. Any other option is refused with an error set and no level changed. Setting a known log type by name (any case) selects it and is reported back; an unknown type is refused and the current one stays; the textual description lists all levels and modules.',
 ['inputs','histories'],'all option strings up to a bound over module/level fragments; all sequences of type settings',
 'Prefix matching of level and module names over all strings is input-quantified.',
 ['src/gutil_log.c'],['gutil_log_parse_option','gutil_log_set_type','gutil_log_get_type','gutil_log_description'])
p('C27','Threads working on distinct data never influence each other',
 'Calls made at the same time from different threads on distinct objects and buffers (packing, hex, parsing, byte blocks, rings, arrays, vectors, histories) give the same results as when executed one after another, under every interleaving. No such call leaves behind state that changes the result of a later call.',
 ['schedules','histories'],'all interleavings up to a preemption bound of every pair of operation families in two threads',
 'Hidden shared scratch state shows only under a specific preemption; all such tests are single-threaded.',
 ['src/gutil_datapack.c','src/gutil_misc.c','src/gutil_ring.c','src/gutil_strv.c','src/gutil_ints.c','src/gutil_intarray.c','src/gutil_objv.c','src/gutil_history.c'],['all pure functions and per-object operations'])
p('C28','Handler, source, object and pointer-vector helpers do exactly what they say',
 'Disconnecting a list of handlers disconnects each listed handler exactly once, zeroes its slot, skips empty slots and touches nothing else. Removing or clearing a main loop source removes exactly that source, clears the stored identifier and reports whether there was one; absent identifiers, objects, strings and vectors are accepted everywhere as no-ops. Pointer-vector length, emptiness and free treat absent and empty vectors alike and free every element and the vector exactly once.',
 ['histories','inputs'],'all sequences over a few sources/handlers/objects and all absent/empty combinations',
 'Interplay of repeated clears/removals with live sources is history-quantified.',
 ['src/gutil_misc.c'],['gutil_disconnect_handlers','gutil_source_remove','gutil_source_clear','gutil_object_ref','gutil_object_unref','gutil_ptrv_length','gutil_ptrv_is_empty','gutil_ptrv_free','gutil_strlen0'])
p('C29','Version words are usable, lossless and ordered like version numbers',
 'Packing a version (major up to 127, minor and micro up to 4095) into a word and unpacking it gives the same three numbers, and words compare exactly as the versions do. The compile-time and run-time versions agree with each other and with the version string, and every published per-release constant is a usable expression equal to its version and not newer than the current one.',
 ['inputs','configurations'],'all minor/micro values per major and every published constant',
 'Tests do not use the version macros at all.',
 ['include/gutil_version.h','src/gutil_version.c'],['GUTIL_VERSION','gutil_version()','GUTIL_VERSION_1_0_*'])
p('C30','Log settings come from the environment at start-up, valid values only',
 'When a program using the library starts, GUTIL_LOG_DEFAULT_LEVEL sets the default log level exactly when its text is an integer not below the inherit marker (-1), and GUTIL_LOG_TIMESTAMP and GUTIL_LOG_TID switch the timestamp and thread id prefixes off (zero) or on (positive) exactly when their text is a non-negative integer. An absent variable or any other text leaves the corresponding built-in setting alone and affects no other setting. What is logged from then on obeys these settings, and later changes of the environment have no effect.',
 ['inputs','configurations'],'all combinations of valid, invalid and boundary texts in the three variables, each with a fresh start of the program',
 'The settings are read before main() in a constructor, where no unit test can vary the environment.',
 ['src/gutil_log.c'],['gutil_log_init (constructor)','gutil_log_default','gutil_log_timestamp','gutil_log_tid'])
p('C31','Public macros mean the same in every way an application may be compiled',
 'In code compiled against the headers, a logging macro of a level up to the compile-time maximum sends exactly one message with its level, format and arguments (and the name of the calling function in front in the underscore variants) to the module of the compilation unit or the default one; above the maximum it does nothing and evaluates none of its arguments. An assertion evaluates its expression once and reports exactly the false ones, quoting expression, file and line, or is compiled out; verification macros evaluate the expression being verified exactly once whether assertions are compiled in or not. This holds for every maximum and assertion level, with or without DEBUG, with or without a module or a parent, in C and C++, in any statement position. Alignment, structure-cast and error-text helpers give exact results for any argument expression.',
 ['inputs','configurations'],'all compile-time configurations x macros x statement shapes x run-time levels',
 'Tests are compiled in one configuration only, while each application has its own.',
 ['include/gutil_log.h','include/gutil_macros.h','src/gutil_log.c'],['GLOG_MODULE_DEFINE','GERR..GVERBOSE','GASSERT, GVERIFY_*','gutil_log_assert','G_ALIGN*, G_CAST','GERRMSG'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
