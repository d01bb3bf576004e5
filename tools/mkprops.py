#!/usr/bin/env python3
# Source of properties.jsonl (run to regenerate).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
prop('C01', 'Integer to text conversion is exact and stays in its buffer',
 'Converting any signed or unsigned 64-bit integer to text in any radix 2..36, with or without a group separator every three digits, yields exactly the canonical digits (upper-case, no leading zeros, "-" for negatives, NUL terminated) when they fit the given buffer and reports failure when they do not, and never touches memory outside the buffer. A radix outside 2..36 or a buffer under two bytes is refused.',
 ['inputs'], 'every 64-bit value, radix, separator and buffer size', 'Tests convert a handful of values in radix 10/16; the exact-fit and one-short sizes at separator positions and extreme values are never combined.',
 ['convert/convert_int.cpp', 'convert/convert_int.h'], [('right-to-left digit emission with remaining-space checks', 'Convert::Int::ToString')], ['return value and buffer of Convert::Int::ToString'])
prop('C02', 'File size formatting picks the right unit and exact digits',
 'Formatting any byte count as a human-readable size yields the unit chosen by the documented thresholds, the exact integer part (with optional separators), exactly the requested number of truncated fraction digits (none for bytes and KB), the chosen separators and unit text, NUL terminated; it reports failure when the text does not fit (buffers under 5 bytes plus the length of the byte unit may be refused outright) and never touches memory outside the buffer.',
 ['inputs'], 'every 64-bit count (signed and unsigned), fraction digit count, separators, unit text and buffer size', 'Tests use a few sizes and two fraction digits only.',
 ['convert/convert_int.cpp'], [('unit selection table, fraction and integer digit emission', 'Convert::Int::ToFilesizeString')])
prop('C03', 'Conversion to UTF-8 emits only valid UTF-8, filters, and respects the buffer',
 'Converting any sequence of UTF-8, UTF-16 or UTF-32 units produces exactly the UTF-8 encoding of the valid code points of the input in order: malformed sequences, unpaired surrogates (only themselves), non-characters, out-of-range values and a leading combining mark are dropped, nothing else is. Output never exceeds the stated capacity, the sizing call (no destination) reports exactly the size the real call produces, a code point that does not fit is omitted whole, never split, and the reported last position lies just after the last converted sequence.',
 ['inputs'], 'every input sequence of each width, every capacity', 'Tests convert a few fixed strings; malformed, truncated and boundary code points are an unbounded space.',
 ['utf8/utf8_util.cpp', 'utf8/utf8_util.h'], [('code point decoding and validation', 'UTF8::Util::ConvertToUTF8'), ('bounded append', 'UTF8::Util::AppendUTF8CodePoint')])
prop('C04', 'Wide text survives the round trip through UTF-8',
 'Converting UTF-8 to UTF-8/16/32 yields exactly the units of its decoded code points (surrogate pairs for supplementary ones) up to the first one that is not valid or does not fit, skipping malformed bytes, and never writes more than the destination capacity; valid text converted to UTF-8 and back is unchanged; the allocating forms return a complete NUL-terminated copy of the whole text in exactly the memory they allocated.',
 ['inputs'], 'every code point sequence, width and capacity', 'Tests round-trip two sample strings.',
 ['utf8/utf8_util.cpp'], [('decode and append', 'UTF8::Util::ConvertFromUTF8'), ('surrogate pair generation', 'UTF8::Util::AppendUTFCodePoint')])
prop('C05', 'UTF-8 iteration visits exactly the code points of the string',
 'Stepping through any UTF-8 string yields its code points one by one, in order, each exactly once with its true Unicode value, stops at the end or at the first malformed sequence, reports whether a combining mark follows, and never reads past the terminator. String length counts characters without combining marks, code point search succeeds exactly when an (unadorned, unless allowed) occurrence exists and reports its byte offset, and ASCII iteration yields exactly the unadorned ASCII characters.',
 ['inputs'], 'every NUL-terminated byte string', 'The existing tests never call the iteration, length or search functions.',
 ['utf8/utf8_util.cpp'], [('look-ahead decoding', 'UTF8::Util::NextCodePoint'), ('users of the iterator', 'UTF8::Util::strlen / FindCodePoint / NextASCIICodePoint')])
prop('C06', 'JSON serializer never overruns its buffer and appends all or nothing',
 'Whatever calls are made in whatever order, the JSON serializer never writes outside the buffer it was given (of at least one byte), its position never exceeds the buffer size, and a call that returns false leaves position, mode and the emitted text unchanged (only finishing may make partial progress, and can be retried after the buffer was emptied); a call whose text fits succeeds. The size it predicts for a string equals the bytes it then emits.',
 ['inputs', 'histories'], 'every call sequence, string content and buffer size', 'Tests serialise into large buffers; exact-fit and one-short buffers for every kind of value are not reachable by samples.',
 ['json/json_serializer.cpp', 'json/json_serializer.h'], [('space check before emission', 'JSON::Serializer::InternalAppendNextPrefix'), ('size prediction', 'JSON::Serializer::CalculateStrSize')])
prop('C07', 'JSON output is well formed and decodes to what was appended',
 'Concatenating the output of any accepted sequence of calls up to a successful finish (which closes what is still open) is one well-formed JSON text whose structure, keys and values (strings, integers, booleans, null) decode to exactly what was appended, in order, regardless of string content and of how streamed strings were split. Calls that would make the text ill formed (missing or superfluous key, mismatched end, too deep nesting) are refused.',
 ['inputs', 'histories'], 'every call sequence and string content', 'Tests compare two fixed documents; escaping of every byte value and every illegal call order is not sampled.',
 ['json/json_serializer.cpp'], [('mode stack', 'JSON::Serializer Start*/End*/Finish'), ('escaping', 'JSON::Serializer::InternalAppendStr')])
prop('C08', 'Static vectors and 2D arrays behave as values',
 'A fixed-size vector or two-dimensional array keeps every element independently addressable, copies (construction, assignment, including self assignment) are equal to and independent of the source, equality holds exactly when sizes and all elements match, and storage is released exactly once.',
 ['inputs', 'histories'], 'every size, content and copy/assign order', 'Tests touch one or two sizes and never assign arrays.',
 ['templates/static_vector.h', 'templates/static_2d_array.h'], [('deep copy', 'StaticVector / Static2DArray copy operations')])
prop('C09', 'Fixed-buffer mixed variables never overrun and never corrupt text',
 'Every string operation on a fixed-capacity mixed variable (setting and appending text and integers in radix 2..36, prepending) produces exactly the text a textbook string would if the result fits; setting and appending truncate at the capacity and prepending what does not fit changes nothing; the text stays NUL terminated with matching length, and memory outside the object is never touched. Values and types read back are the ones last set.',
 ['inputs', 'histories'], 'every text, position, length and operation order', 'Tests use a 8192-byte variable and short strings; the capacity edge is never reached.',
 ['templates/static_mixed_var.h'], [('capacity checks', 'StaticMixedVar string functions')])
prop('C10', 'The cache never returns a value that was not stored for that key',
 'The cache keeps one entry per slot (the hash modulo the table size): after any history of stores, lookups and removals, a lookup either misses or returns the value most recently stored for exactly that key, the most recently stored key of a slot is present until it is removed, copies are equal and independent, and no entry leaks or is freed twice.',
 ['histories', 'inputs'], 'every operation history and key collision pattern', 'Tests run one linear history.',
 ['templates/cache.h', 'templates/cache_util.h'], [('eviction by order', 'Cache')])
prop('C11', 'The detachable list is an exact doubly linked sequence',
 'After any history of insertions at head, tail, before or after a node, detachments, removals, copies and clears, forward and backward traversal give the same sequence, equal to a textbook list model, the count matches, nodes detached are no longer reachable, and every node is freed exactly once.',
 ['histories'], 'every operation history', 'Tests run one fixed history.',
 ['templates/detachable_list.h', 'templates/detachable_list_util.h'], [('link maintenance', 'List::Attach*/Detach')])
prop('C12', 'The detachable queue preserves order and loses nothing',
 'After any history of pushes, unshifts, shifts, attachments, detachments, appending of another queue, copies and clears the queue delivers exactly the values of a textbook double-ended queue in the same order, with matching count, and every node is freed exactly once.',
 ['histories'], 'every operation history', 'Tests run one fixed history.',
 ['templates/detachable_queue.h', 'templates/detachable_queue_util.h'], [('link maintenance', 'Queue')])
prop('C13', 'The detachable ordered hash is an exact ordered map',
 'After any history of stores, removals, detachments, re-attachments, clears and lookups with integer and string keys, including colliding ones and across growth, a key is found exactly when it was stored and not removed, with its value (storing an existing key again is refused and changes nothing), integer and string keys never alias, traversal in either direction yields the live entries in insertion order, and every node is freed exactly once.',
 ['histories', 'inputs'], 'every operation history and hash collision pattern', 'Tests use many random keys once; specific collision and removal orders during growth are not reached.',
 ['templates/detachable_ordered_hash.cpp', 'templates/detachable_ordered_hash.h', 'templates/detachable_ordered_hash_util.h'], [('bucket chains and order list', 'OrderedHash')])
prop('C14', 'Copies of a detachable ordered hash are complete and independent',
 'Copy construction and assignment (including over a non-empty table and to itself) of an ordered hash give a table with the same entries in the same order, in which every key is found, which can be modified, traversed and destroyed independently of the source without leaking or double freeing.',
 ['histories'], 'every source and destination history', 'The tests never copy a hash.',
 ['templates/detachable_ordered_hash_util.h'], [('copy construction and assignment', 'OrderedHash copy operations')])
prop('C15', 'The packed ordered hash is an exact ordered map',
 'After any history of stores, removals and lookups with integer and string keys, including colliding ones and across growth and compaction, a key is found exactly when it was stored and not removed, with its latest value (setting an existing key updates it in place), integer and string keys never alias, and traversal in either direction yields the live entries in insertion order.',
 ['histories', 'inputs'], 'every operation history and hash collision pattern', 'Tests use many random keys once; removal/compaction interleavings are not reached.',
 ['templates/packed_ordered_hash.cpp', 'templates/packed_ordered_hash.h', 'templates/packed_ordered_hash_util.h'], [('node array, bucket chains, compaction', 'PackedOrderedHash')])
prop('C16', 'Packed ordered hash copies are independent and storage is released once',
 'Copy construction and assignment of a packed ordered hash (also over a non-empty table, to itself, and with removed entries) give an equal, independent table; across growth, compaction, clearing, copying and destruction every key and node allocation is released exactly once.',
 ['histories'], 'every source and destination history', 'The tests never copy a packed hash and cannot see leaks.',
 ['templates/packed_ordered_hash_util.h'], [('copy operations, resize', 'PackedOrderedHash')])
prop('C17', 'String hashing is deterministic SipHash/DJB over exactly the key bytes',
 'The string hash functions read exactly the key bytes and return the reference SipHash-2-4 (or the DJB-style hash) of those bytes with the table key, for every key, and the two hash table families and the stand-alone functions agree.',
 ['inputs'], 'every byte string up to the bound and every hash key', 'Tests never compare with a reference.',
 ['templates/detachable_ordered_hash.cpp', 'templates/packed_ordered_hash.cpp', 'templates/cache.cpp'], [('SipHash rounds and tail handling', 'GetSipHashKey'), ('DJB loop', 'GetDJBX33XHashKey')])
prop('C18', 'Fast find reports exactly the occurrences',
 'For every text and pattern of any element type and equality, fast find reports the first occurrence, iterating yields exactly all occurrences in order (also overlapping ones, or only the non-overlapping ones when the match is skipped) and then stops, and nothing outside the given data is read.',
 ['inputs'], 'every text and pattern', 'Tests search fixed strings; shift-table errors only show for specific repeated-suffix patterns.',
 ['templates/fast_find_replace.h', 'templates/fast_find_replace_util.h'], [('skip tables', 'FastFind')])
prop('C19', 'Fast replace equals textbook replacement',
 'Replacing occurrences of a pattern in any text, in any of the offered forms and with any replacement limit, yields exactly the text obtained by replacing the first N non-overlapping occurrences left to right and keeping everything else, including the tail and matches the caller chose to keep; results that do not fit a fixed buffer are truncated to it without writing outside it.',
 ['inputs'], 'every text, pattern, replacement, limit and capacity', 'Tests replace in fixed strings without limits.',
 ['templates/fast_find_replace.h', 'templates/fast_find_replace_util.h', 'sync/sync_tls.h'], [('replace loop', 'FastReplace')])
prop('C20', 'The thread-local allocator hands out disjoint, intact blocks',
 'After any history of allocations, reallocations, duplications and frees of any sizes within a thread, all live blocks are large enough and pairwise disjoint, keep the bytes written to them (across reallocation up to the smaller size, and when a reallocation fails), duplication copies the whole block, and ending the thread releases everything it obtained.',
 ['histories', 'inputs', 'fault_sequences'], 'every operation history and size, and every out-of-memory point', 'Tests allocate a few sizes in one order.',
 ['sync/sync_tls.cpp', 'sync/sync_tls.h'], [('size-class caches with size header', 'Sync::TLS malloc/realloc/free')])
prop('C21', 'TLS mixed variables behave as strings and values',
 'Every operation on a thread-local mixed variable (set, append, prepend, copy, assignment, data replacement, integer formatting) yields exactly the text or value a textbook string would, grows as needed, always NUL terminated with matching length, and copies are independent and released exactly once (out-of-memory and the text of doubles excepted).',
 ['histories', 'inputs'], 'every text and operation order', 'Tests use short strings in one order.',
 ['sync/sync_tls.h', 'sync/sync_tls.cpp'], [('buffer growth and copy', 'Sync::TLS::MixedVar')])
prop('C22', 'Secure random integers are in range, unbiased and failures are reported',
 'A random integer requested in [min,max] always lies in it, every random word is either rejected or mapped so that all results have the same number of preimages, and requested random bytes are all filled from the system source: short and interrupted reads are continued, a failing or exhausted source ends in a reported failure, never in unfilled bytes reported as success or an endless loop.',
 ['inputs', 'fault_sequences'], 'every min/max, every random word, every sequence of read results', 'Tests sample the real /dev/urandom, which never fails.',
 ['security/security_csprng.cpp'], [('mask and reject', 'CSPRNG::GetInteger'), ('read loop', 'CSPRNG::GetBytes')])
prop('C23', 'A semaphore never admits more than its count in any schedule',
 'In every interleaving, with every mix of blocking and timed waits, at most the configured number of holders are admitted, each release admits one more and never raises the count above the maximum (releasing when nothing is held changes nothing), a waiter is never left blocked while capacity is free, a timed-out or failed wait takes nothing and holds no internal lock, and a timed wait ends at the requested deadline.',
 ['schedules', 'fault_sequences'], 'all schedules and timeouts within the bound', 'Tests run one uncontended thread.',
 ['sync/sync_semaphore.cpp', 'sync/sync_util.cpp'], [('counter under a process-shared mutex and condition variable', 'Util::WaitForUnixSemaphore / ReleaseUnixSemaphore')])
prop('C24', 'A mutex excludes, is re-entrant for its owner and only the owner unlocks',
 'In every interleaving of any number of lock, timed lock and unlock calls by several threads, at most one thread owns the mutex, the owner may re-lock it and must unlock as often (or once with the release-all form) before others get it, non-owners cannot unlock it, a released mutex can always be taken, a failed or timed-out lock leaves it unchanged, locking before creation fails, and re-creating or destroying it releases what was held.',
 ['schedules', 'histories'], 'all schedules and histories within the bound', 'Tests run one thread.',
 ['sync/sync_mutex.cpp', 'sync/sync_util.cpp'], [('ownership and recursion count', 'Sync::Mutex')])
prop('C25', 'Events lose no wake-up and auto-reset events release exactly one waiter',
 'In every interleaving of wait, timed wait, fire and reset, a fired manual event releases every waiter and later waits until it is reset; a fired auto event lets exactly one wait succeed and is then unsignalled; no waiter stays blocked while the event is signalled; a timed-out wait consumes nothing and holds no internal lock (a wait of zero milliseconds may fail under contention).',
 ['schedules', 'fault_sequences'], 'all schedules and timeouts within the bound', 'Tests run one thread.',
 ['sync/sync_event.cpp', 'sync/sync_util.cpp'], [('signal flag and waiter count under mutex and condition variable', 'Util::WaitForUnixEvent / FireUnixEvent / ResetUnixEvent')])
prop('C26', 'A reader-writer lock never admits a writer with anyone else',
 'In every interleaving, a writer excludes readers and other writers, readers share, a waiting writer keeps later readers out, every release re-admits waiting threads, a timed-out or failed acquisition leaves no residue (count, lock or reader share), the total time waited stays within the requested milliseconds whatever held it up (a zero wait may fail under contention), releasing a read lock nobody holds is refused, and releasing a write lock nobody holds changes nothing.',
 ['schedules', 'fault_sequences'], 'all schedules and timeouts within the bound', 'Tests run one thread.',
 ['sync/sync_readwritelock.cpp', 'sync/sync_util.cpp'], [('reader count, mutex and event', 'Sync::ReadWriteLock')])
prop('C27', 'Named shared memory is initialised exactly once and shared by name',
 'Whatever the interleaving of openers and closers, exactly one opener of each generation of a name is told to initialise it, no other opener proceeds before that initialisation is announced, distinct names (without separators, up to the length limit; longer ones are hashed, yet equally long ones that differ in one letter stay distinct), kinds or sizes never share memory, equal ones do, the memory handed out is at least the requested size and no access falls outside the mapping, the locks and conditions placed in it work across processes, the process umask is preserved, and a failed creation releases everything acquired and leaves the name usable.',
 ['schedules', 'inputs', 'fault_sequences'], 'all schedules of openers/closers, names, sizes and system call failures within the bound', 'Tests open each name once.',
 ['sync/sync_sharedmem.cpp', 'sync/sync_util.cpp'], [('mutex-protected initialisation and reference count', 'Util::InitUnixNamedMem / UnixNamedMemReady'), ('name derivation', 'Util::GetUnixNamedMemName')])
prop('C28', 'Path normalisation is exact, idempotent and bounded',
 'Making any path absolute against an absolute base or the working directory gives a path beginning with "/" without empty, "." or ".." components ("\\" counts as "/") that denotes the same location lexically, normalising twice changes nothing, control characters and * ? " < > | as well as malformed UTF-8, non-characters and a leading combining mark are refused, other valid UTF-8 names are accepted unchanged, parts reported for a path add up to the path, a result that does not fit the buffer or the 8192-byte limit is refused rather than truncated, and nothing is written beyond the result buffer.',
 ['inputs'], 'every path string, working directory and buffer size', 'Tests normalise a few paths.',
 ['utf8/utf8_file_dir.cpp', 'utf8/utf8_file_dir.h'], [('component resolution', 'UTF8::File::GetAbsoluteFilename'), ('character validation', 'UTF8::File::GetPlatformFilename'), ('splitting', 'UTF8::File::GetPlatformFilenameInfo')])
prop('C29', 'File reads, writes and seeks transfer exactly the right bytes under faults',
 'For every sequence of open, read, write and seek and every pattern of short, interrupted or failing system calls, bytes are transferred from and to exactly the given buffer range and file position (the end for appending files), each byte once and in order, reported counts and positions are the true ones, seeks land on the requested position clamped to the last known size, sharing modes are honoured by locks, and a failed open leaves no open file.',
 ['inputs', 'histories', 'fault_sequences'], 'all operation sequences, sizes and system call results within the bound', 'The real file system never returns short counts or EINTR in the tests.',
 ['utf8/utf8_file_dir.cpp'], [('retry loops and position tracking', 'UTF8::File::Read / Write / Seek / Open')])
prop('C30', 'Copy and move never lose data',
 'Copying a file produces exactly the source bytes (and, where the system permits the change, its permissions, owner and modification time) or reports failure, copying a file onto itself (also under another name) is refused, a destination locked by somebody else stays untouched, and moving never removes the source unless the complete content is at the destination, whatever the file length and whatever system call fails.',
 ['inputs', 'fault_sequences'], 'every file length within the bound and every failing call', 'Tests copy one small file on a healthy disk.',
 ['utf8/utf8_file_dir.cpp'], [('chunked copy loop', 'UTF8::File::Copy'), ('rename, else copy and delete', 'UTF8::File::Move')])
prop('C31', 'Recursive directory operations stay inside the tree',
 'Recursive removal deletes only entries reached through real directories under the given one: symbolic links are removed, never followed, "." and ".." are never descended into, nothing else is deleted, every entry with an acceptable name is removed and the result tells whether the directory is gone; non-recursive removal removes exactly an empty directory; recursive creation creates exactly the missing ancestors in order with the given mode; over-long paths are skipped, never truncated into other paths; no directory stays open.',
 ['inputs', 'fault_sequences'], 'every directory shape within the bound, every name length near the limit, every failing call', 'Tests remove one small tree without links.',
 ['utf8/utf8_file_dir.cpp'], [('lstat-guided recursion', 'UTF8::Dir::Rmdir'), ('prefix creation', 'UTF8::Dir::Mkdir')])
prop('C32', 'Whole-file and line reading return exactly the file content',
 'Loading an entire file returns exactly its bytes and their number or fails, and line-by-line reading returns exactly its lines (ended by \\r, \\n, \\r\\n or the end of the file, NUL bytes shown as spaces) whatever the lengths relative to internal buffers and the size hint and however reads are split, then an empty line at the end; storage is released exactly once.',
 ['inputs', 'fault_sequences'], 'every content within the bound and every split of reads', 'Tests read one short file.',
 ['utf8/utf8_file_dir.cpp', 'utf8/utf8_file_dir.h'], [('buffering', 'UTF8::LineInput'), ('growth', 'UTF8::File::LoadEntireFile')])
prop('C33', 'Application information is exact, never overruns and fails cleanly',
 'Looking up the system, user and temporary storage directories and the executable\'s name and path for any environment (HOME unset, empty or of any length, no user entry), application name and buffer size either yields the complete, NUL-terminated path (directories with a trailing separator) and its size or fails with size 0, without touching memory outside the buffer; any buffer larger than the path needs suffices. Process id, thread id and the wall clock in microseconds are exactly the system\'s.',
 ['inputs', 'configurations', 'fault_sequences'], 'every environment value, name and buffer size within the bound', 'Tests run with one HOME and a large buffer.',
 ['utf8/utf8_appinfo.cpp', 'environment/environment_appinfo.cpp'], [('length checks before concatenation', 'UTF8::AppInfo')])
prop('C34', 'Calls through a loaded library reach the named function unchanged',
 'A call through the shared-library templates (with or without result, cached or one-shot) succeeds exactly when the library can be opened and exports the name, then passes every argument unchanged and in order to exactly that function once and returns its result; otherwise nothing is called, the result variable keeps its value and failure is reported, and a library opened by a module object is closed exactly once, when the object ends.',
 ['inputs', 'histories', 'fault_sequences'], 'every argument value, load/unload history and lookup failure', 'The tests never load a library.',
 ['templates/shared_lib.h', 'templates/shared_lib_util.h'], [('symbol lookup and call', 'SharedLib')])
prop('C35', 'UTF-8 mixed variables convert wide text completely within capacity',
 'Setting or appending wide text to a fixed-capacity UTF-8 mixed variable yields exactly the previous text followed by the UTF-8 encoding of the valid code points when it fits, otherwise a valid NUL-terminated UTF-8 text in which a code point that does not fit is omitted whole, and never touches memory outside the object.',
 ['inputs'], 'every wide text, existing content and capacity within the bound', 'Tests set one string.',
 ['utf8/utf8_mixed_var.h'], [('conversion into remaining space', 'UTF8::UTF8MixedVar')])
prop('C36', 'JSON numbers in floating point are round-trippable JSON',
 'Appending any finite double emits a well-formed JSON number that reads back as the same value at the requested precision, and a non-finite one is refused or emitted as valid JSON.',
 ['inputs'], 'every double and precision', 'Tests format three doubles.',
 ['json/json_serializer.cpp'], [('snprintf based formatting', 'JSON::Serializer::AppendDouble')])
prop('C37', 'Link targets, canonical names and directory listings are complete or refused',
 'Reading a link, a canonical name or the working directory yields the complete NUL-terminated text exactly when the system provides it and it fits the buffer, and fails otherwise without touching memory outside it. Listing a directory yields every entry the system delivers once, in order, with its complete name (an entry that does not fit the buffer is refused), then reports the end; reading or closing what is not open is refused, re-opening replaces the listing, and every directory opened is closed exactly once.',
 ['inputs', 'histories', 'fault_sequences'], 'every text, buffer size and open/read/close history within the bound', 'Tests use large buffers and one directory.',
 ['utf8/utf8_file_dir.cpp'], [('length checks', 'UTF8::File::Readlink / Realpath / UTF8::Dir::Getcwd'), ('listing', 'UTF8::Dir::Open / Read / Close')])
prop('C38', 'Metadata operations change exactly the named file to exactly the given values',
 'Changing permissions, owner, group or times of a file, deleting it, creating a symbolic link and querying status or existence affect or report exactly the named file (and, for links, the link or its target as asked) with exactly the given values: owner and group are those of the named user and group and leave the other one alone, times are exact to the microsecond and a time not given keeps its seconds. Names that are not acceptable and unknown users and groups change nothing, and the result tells whether the system accepted the change.',
 ['inputs', 'fault_sequences'], 'every name, value and failing call within the bound', 'Tests set one mode and one time on one file.',
 ['utf8/utf8_file_dir.cpp'], [('name conversion then one system call', 'UTF8::File::Chmod / Chown / Chgrp / Delete / Stat / Symlink / SetFileTimes')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
