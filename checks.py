from vp import H
CHECKS = {}
NA = {'C36': 'Depends on floating point formatting (snprintf "%.*f"/"%1.*g" in libc) over all doubles: the conversion is libc code outside the repository, and the executor has no floating-point theory; nothing of it can be encoded faithfully.'}
SCALE = {'C03': 'texts of 255, 256, 257, 300 and 66000 units', 'C04': 'texts of 255, 256, 257, 300 and 66000 bytes', 'C05': 'strings of 255, 256, 257, 300 and 66000 bytes', 'C08': '66000 elements', 'C09': 'capacities 600 and 70000', 'C10': 'large tables', 'C11': '66000 nodes', 'C12': '66000 nodes', 'C13': '1600 (6200) keys', 'C14': '800 (6200) keys', 'C15': '1100 (4200) keys', 'C16': '1100 (4200) keys', 'C17': 'fixed keys of 31 to 65537 bytes', 'C18': 'data of 66000 and patterns of 257 elements', 'C19': 'texts of 66000, patterns of 300, replacements of 1025 elements', 'C20': '300 (1200) live blocks of up to 60 kB', 'C21': 'texts of 66000 bytes', 'C22': 'requests of 255 to 66000 bytes in pieces', 'C23': 'limits up to 1030', 'C24': 'recursion 1030 deep', 'C25': '1030 rounds', 'C26': '1030 readers', 'C29': 'every file size up to 2^62, 2 (3) operations with arbitrary 64-bit positions', 'C35': 'capacities 600 and 5000'}
def check(id, harnesses, bounds, assumptions=(), outside='', note=None):
    if id in SCALE: bounds = bounds.rstrip().rstrip('.') + '. At scale (largely fixed shape, few arbitrary values): ' + SCALE[id] + '.'
    CHECKS[id] = dict(harnesses=harnesses, bounds=bounds, assumptions=list(assumptions), outside=outside, note=note)

check('C01', [H('c01_tostring'), H('c01_refuse'), H('c01_short', q=['MAXS=9'], t=['MAXS=12'])],
    'All 2^64 values, signed and unsigned; every radix 2..36; every separator byte or none; buffer sizes: exact need, one short, one more, 30 more, and every size 2..9 (thorough 12) for numbers of any length; every invalid radix with every size 0..79.')
check('C02', [H('c02_filesize', t=['MAXFRAC=8'])],
    'All 2^64 values, signed and unsigned; fraction digits 0..4 (thorough 0..8), 23 and near SIZE_MAX; every separator byte or none; four byte-unit texts; buffer sizes exact, one to five short, one more, 40 more.',
    outside='Buffers below 5 + strlen(unit) bytes may be refused even if the text would fit (documented floor).')
check('C03', [H('c03_to_w1', 'c03_to', ['W=1', 'N=6'], ['W=1', 'N=8']), H('c03_to_w2', 'c03_to', ['W=2', 'N=4'], ['W=2', 'N=5']), H('c03_to_w4', 'c03_to', ['W=4', 'N=4'], ['W=4', 'N=5']),
    H('c03_cap_w1', 'c03_to', ['W=1', 'N=4', 'CAPS'], ['W=1', 'N=5', 'CAPS']), H('c03_cap_w2', 'c03_to', ['W=2', 'N=2', 'CAPS'], ['W=2', 'N=3', 'CAPS']), H('c03_cap_w4', 'c03_to', ['W=4', 'N=2', 'CAPS'], ['W=4', 'N=3', 'CAPS']),
    *[H('c03_%s_w%d_%s' % (a, w, n), 'c03_alloc' if a == 'allong' else 'c03_to', ['W=%d' % w, 'LONG=' + n] + x + (['CAPS'] if a == 'caplong' else []), steps=100000000) for w in (1, 2, 4) for a in ('long', 'caplong', 'allong') for n, x in (('300', ['SHORTER', 'AT=0,254,299'] if a == 'long' else ['AT=299']),)],
    *[H('c03_huge%s_w%d' % (a, w), 'c03_alloc' if a else 'c03_to', ['W=%d' % w, 'LONG=66000', 'AT=65535'], ['W=%d' % w, 'LONG=66000', 'AT=0,4094,65535'], steps=200000000) for w in (1, 2, 4) for a in ('', 'al')],
    H('c03_alloc_w1', 'c03_alloc', ['W=1', 'N=4']), H('c03_alloc_w2', 'c03_alloc', ['W=2', 'N=2']), H('c03_alloc_w4', 'c03_alloc', ['W=4', 'N=2'])], 'UTF-8 input up to 6 bytes (thorough 8), UTF-16 up to 4 units (5), UTF-32 up to 4 units (5), all contents; capacity harnesses: every capacity 0..need+1 on inputs of 4 bytes / 2 units (5 / 3); sizing call compared with the real call; allocating forms on 4 bytes / 2 units.')
check('C04', [H('c04_from_w%d' % w, 'c04_from', ['W=%d' % w, 'N=6'], ['W=%d' % w, 'N=8']) for w in (1, 2, 4)] + [H('c04_cap_w%d' % w, 'c04_from', ['W=%d' % w, 'N=5', 'CAPS'], ['W=%d' % w, 'N=7', 'CAPS']) for w in (1, 2, 4)]
    + [H('c04_alloc_w%d' % w, 'c04_from', ['W=%d' % w, 'N=5', 'ALLOC'], ['W=%d' % w, 'N=7', 'ALLOC']) for w in (1, 2, 4)] + [H('c04_%s_w%d' % (a, w), 'c04_from', ['W=%d' % w, 'LONG=' + n] + x, ['W=%d' % w, 'LONG=' + n] + x[:-1] + ['AT=0,250,254,299,4090,65530,65535'], steps=200000000) for w in (1, 2, 4) for a, n, x in (('long', '300', ['SHORTER', 'AT=0,254,299']), ('longcap', '300', ['CAPS', 'AT=250,254']), ('longal', '300', ['SHORTER', 'ALLOC', 'AT=0,254,299']), ('huge', '66000', ['AT=65530']), ('hugeal', '66000', ['ALLOC', 'AT=65530']))] + [H('c04_round_w%d' % w, 'c04_round', ['W=%d' % w, 'K=3'], ['W=%d' % w, 'K=4']) for w in (2, 4)], 'UTF-8 input up to 6 bytes (thorough 8) to each width, every capacity on inputs up to 5 (7) bytes; allocating forms on inputs up to 5 (7) bytes; round trip of every sequence of 3 (4) valid code points for widths 2 and 4.')
check('C05', [H('c05_iter', q=['N=6'], t=['N=8']), H('c05_long', 'c05_iter', ['LONG=300', 'SHORTER', 'AT=0,254,299'], steps=100000000), H('c05_huge', 'c05_iter', ['LONG=66000', 'AT=0,4094,65535'], steps=200000000)], 'Every NUL-terminated string of up to 6 bytes (thorough 8); every search code point; every start.')
check('C06', [H('c06_bounds', q=['STEPS=1', 'STRLEN=3', 'KEYLEN=1'], t=['STEPS=1', 'STRLEN=3', 'KEYLEN=2']), H('c06_seq', 'c06_bounds', ['STEPS=2', 'STRLEN=1', 'KEYLEN=0'], ['STEPS=2', 'STRLEN=2', 'KEYLEN=1']), H('c06_double')], 'Every single call from every context reachable by legal calls (object, array, string, nested) with symbolic strings up to 3 bytes and keys up to 1 (2); every sequence of 2 calls with shorter strings; buffer sizes from 1 to beyond the exact need, chosen relative to it. AppendDouble around any text of 1 to 320 characters the C library may produce.')
check('C07', [H('c07_json', q=['STEPS=2', 'STRLEN=2', 'SPL=2'], t=['STEPS=3', 'STRLEN=2', 'SPL=3']), H('c07_int'), H('c07_opts')], 'Every sequence of 2 (thorough 3) calls with symbolic strings of up to 2 bytes split arbitrarily, in every context; every 64-bit integer; result parsed by an independent JSON reader. Every splitter text of up to 2 bytes, set at construction or later; reset; depth limits 1 to 4.')
check('C08', [H('c08_scale', steps=100000000), H('c08_vec', q=['N=4', 'W=3'], t=['N=6', 'W=4'])], 'Vectors up to 4 (6) elements, 2D arrays up to 3x3 (4x4), all element values, element types with and without owned storage; copy, assignment, self assignment, comparison.')
check('C09', [H('c09_scale', steps=200000000), H('c09_mixed', q=['CAP=8', 'STEPS=3'], t=['CAP=8', 'STEPS=4']), H('c09_int'), H('c09_double', q=['CAP=24'], t=['CAP=24'])], 'Capacity 8; every sequence of 3 (4) set/prepend/append operations with symbolic text around the remaining space; every 64-bit integer in every radix; doubles: every value, any formatted text of 1 to 24 characters, capacity 24.')
check('C10', [H('c10_scale', steps=60000000), H('c10_cache', q=['STEPS=2'], t=['STEPS=3'])], 'Table sizes 1, 2, 3, 5; three keys with arbitrary symbolic 64-bit hashes; every history of 2 (3) operations, then copy or assignment and one more operation.')
check('C35', [H('c35_scale', steps=200000000), H('c35_utf8mixed', q=['CAP=9', 'K=3'], t=['CAP=9', 'K=4'])], 'Capacity 9; every sequence of up to 3 (4) operations with symbolic code points / bytes.')
check('C11', [H('c11_scale', steps=100000000), H('c11_list', q=['INIT=3', 'INIT2=2', 'STEPS=3'], t=['INIT=4', 'INIT2=2', 'STEPS=4'])], 'Lists of up to 3 (4) nodes plus a second list of 2; every history of 3 (4) operations; symbolic values.')
check('C12', [H('c12_scale', steps=100000000), H('c12_queue', q=['INIT=3', 'INIT2=2', 'STEPS=4'], t=['INIT=3', 'INIT2=2', 'STEPS=6'])], 'Queues of up to 3 nodes plus a second queue of 2; every history of 4 (6) operations; symbolic values.')
check('C13', [H('c13_scale', q=['N1=270', 'N2=1600'], t=['N1=800', 'N2=6200'], steps=100000000), H('c13_ohash', q=['INIT=6', 'STEPS=2'], t=['INIT=11', 'STEPS=3']), H('c13_symkey', q=['STEPS=2', 'SL=2', 'RS=4'], t=['STEPS=3', 'SL=2', 'RS=7'])], '(a) up to 6 (11) entries then every history of 2 (3) operations over 8 adversarial keys, both hash functions, table sizes from 1; (b) fully symbolic keys: every 64-bit integer and every string of up to 2 bytes, every history of 2 (3) operations, then a lookup of a further symbolic key.')
check('C14', [H('c14_scale', 'c13_scale', q=['N1=200', 'N2=800', 'COPY'], t=['N1=800', 'N2=6200', 'COPY'], steps=100000000), H('c14_ohcopy', q=['INIT=4', 'PRE=1', 'POST=1'], t=['INIT=6', 'PRE=2', 'POST=1']), H('c14_symkey', 'c13_symkey', q=['STEPS=2', 'SL=1', 'RS=4', 'COPY'], t=['STEPS=3', 'SL=1', 'RS=4', 'COPY'])], '(a) up to 4 (6) entries, 1 (2) operations, copy/assign/self-assign, 1 more operation on either side; (b) symbolic keys as for C13, strings up to 1 byte, copy and assignment.')
check('C15', [H('c15_scale', q=['N1=300', 'N2=1100'], t=['N1=1100', 'N2=4200'], steps=100000000), H('c15_phash', q=['INIT=5', 'STEPS=2', 'TAIL=6'], t=['INIT=9', 'STEPS=3', 'TAIL=9']), H('c15_symkey', q=['STEPS=2', 'SL=2'], t=['STEPS=3', 'SL=2'])], '(a) up to 5 (9) entries with holes, every history of 2 (3) operations over 8 adversarial keys, both hash functions, then growth by 6 (9); (b) fully symbolic keys: every 64-bit integer and every string of up to 2 bytes, every history of 2 (3) operations, then a lookup of a further symbolic key.')
check('C16', [H('c16_scale', 'c15_scale', q=['N1=260', 'N2=1100', 'COPY'], t=['N1=1100', 'N2=4200', 'COPY'], steps=100000000), H('c16_phcopy', q=['INIT=5', 'PRE=1', 'POST=1'], t=['INIT=9', 'PRE=2', 'POST=1']), H('c16_symkey', 'c15_symkey', q=['STEPS=2', 'SL=1', 'COPY'], t=['STEPS=3', 'SL=1', 'COPY'])], '(a) up to 5 (9) entries with holes, 1 (2) operations, copy/assign/self-assign, 1 more operation; (b) symbolic keys as for C15, strings up to 1 byte, copy and assignment.')
check('C17', [H('c17_scale', steps=200000000), H('c17_hash', q=['N=17'], t=['N=40'])], 'Every key content of every length 0..17 (40), every 64-bit hash key.')
check('C18', [H('c18_far', steps=200000000), H('c18_find', q=['LENS=0,1,2,3', 'EXTRA=4'], t=['LENS=0,1,2,3,4', 'EXTRA=4']), H('c18_mid', 'c18_find', q=['LENS=5', 'EXTRA=1'], t=['LENS=5,6', 'EXTRA=2']), H('c18_wide', 'c18_find', q=['LENS=1,2', 'EXTRA=2', 'TT=unsigned'], t=['LENS=1,2,5', 'EXTRA=2', 'TT=unsigned']),
    H('c18_long', 'c18_find', q=['LENS=5,9,10,15', 'EXTRA=1', 'BIG'], t=['LENS=5,7,9,10,11,14,15,16,24', 'EXTRA=2', 'BIG']), H('c18_huge')], 'Patterns of 0..3 (4) arbitrary elements, 5 (6) arbitrary elements, in every text up to 3 (4) elements longer; 32-bit elements; patterns of 5, 9, 10, 15 (up to 24) elements of four shapes (one or two odd elements anywhere, runs, all distinct) in every text; patterns of 1025..1031 elements with one arbitrary text element; four template variants, memcmp on and off, overlapping and skipping iteration, re-use of the object.')
check('C19', [H('c19_scale', steps=200000000), H('c19_replace', q=['LMIN=0', 'LMAX=2', 'NMAX=5', 'RMAX=3', 'MODES=3'], t=['LMIN=0', 'LMAX=3', 'NMAX=7', 'RMAX=3', 'MODES=3']), H('c19_step', q=['LMAX=2', 'NMAX=4', 'RMAX=3'], t=['LMAX=3', 'NMAX=6', 'RMAX=3'])], 'Every text of up to 5 (7) bytes, pattern of 0..2 (3) bytes, replacement of 0..3 bytes, limits none, 0, 1, 2; growth sizes 1024, 0, 1; fixed buffers of exact need, one to three short, one more, 30 more; four template variants; step-wise interface with any of the first two matches kept; sized and NUL-terminated pattern forms; on texts of up to 4 (6) bytes all four variants step by step with elements skipped after a match, default arguments, replacement in place, objects re-used or destroyed at any stage.')
check('C20', [H('c20_scale', q=['N2=300'], t=['N2=1200'], steps=200000000), H('c20_tls', q=['STEPS=3', 'MAXN=20', 'THREADS=0'], t=['STEPS=4', 'MAXN=20', 'THREADS=0']), H('c20_mid', 'c20_tls', q=['STEPS=2', 'MAXN=40', 'THREADS=0'], t=['STEPS=3', 'MAXN=40', 'THREADS=0']), H('c20_threads', 'c20_tls', q=['STEPS=3', 'MAXN=12', 'THREADS=1'], t=['STEPS=4', 'MAXN=12', 'THREADS=1']), H('c20_fail', 'c20_tls', q=['STEPS=3', 'MAXN=20', 'THREADS=0', 'FAIL'], t=['STEPS=4', 'MAXN=20', 'THREADS=0', 'FAIL']), H('c20_huge')], '''histories of 3 (thorough 4) operations malloc/realloc/dup_malloc/free/AutoFree with every request size 0..20 (2 operations: 0..40; single requests: any size up to 40 or above 2^41), cache depths 0, 4, 5 and 15 bits, two simulated threads, at most one failing allocation; the watched byte of each block is at an arbitrary position''', assumptions=['pthread key functions behave as specified (4 keys, 2 threads, one slot each)'], outside='longer histories; blocks handed from one thread to another (the documentation excludes it)')
check('C21', [H('c21_scale', steps=200000000), H('c21_var', q=['STEPS=3', 'LENS=1', 'INIT=0'], t=['STEPS=4', 'LENS=1', 'INIT=0']), H('c21_var6', 'c21_var', q=['STEPS=3', 'LENS=3', 'INIT=6'], t=['STEPS=4', 'LENS=3', 'INIT=6']), H('c21_replace', q=['MAXN=7', 'MAXP=3', 'MAXR=4'], t=['MAXN=10', 'MAXP=4', 'MAXR=5']), H('c21_int'), H('c21_double')],
 '''every sequence of 3 (thorough 4) of the 21 operations on two variables (own allocator, another one or none), texts of symbolic bytes whose lengths straddle the block size classes; replacement in every text of up to 7 (10) bytes, patterns of up to 3 (4) and replacements of up to 4 (5) bytes; integer text for all 64-bit values and radixes 2..36; doubles: every value, any formatted text of 1 to 24 characters''',
 assumptions=['pthread key functions behave as specified'], outside='the text snprintf produces for a double; out-of-memory (the class documents that it does no error checking); aliasing of an argument with the own text')
check('C22', [H('c22_scale', steps=200000000), H('c22_bytes', q=['MAXN=5', 'SCHED=4'], t=['MAXN=10', 'SCHED=6']), H('c22_int')],
 '''random bytes: requests of up to 5 (thorough 10) bytes under every schedule of 4 (6) read() results, each complete, short by any amount, interrupted, failing or exhausted, every outcome of open(); random integers: all 64-bit Min, Max and random words, up to two consecutive words''',
 assumptions=['read, open and close behave as POSIX specifies'], outside='quality of the system source; read() interrupted for ever')
SYNCA = ['POSIX mutexes, condition variables, clocks and shared memory objects behave as specified (modelled in harness/sync_common.h: every call is a scheduling point, waiters may wake spuriously, a timed wait may expire at any moment)', 'a sequentially consistent memory: preemption at synchronisation calls, and in the _race harnesses before every access to the shared object']
check('C23', [H('c23_scale', steps=50000000), H('c23_sem', q=['THREADS=2', 'OPS=2', 'PRE=3', 'SPUR=1', 'KEEP=1', 'NAMED=0'], t=['THREADS=2', 'OPS=3', 'PRE=4', 'SPUR=1', 'KEEP=1', 'NAMED=0']), H('c23_three', 'c23_sem', q=['THREADS=3', 'OPS=1', 'PRE=3', 'SPUR=1', 'KEEP=1', 'NAMED=0'], t=['THREADS=3', 'OPS=2', 'PRE=2', 'SPUR=1', 'KEEP=1', 'NAMED=0']), H('c23_race', 'c23_sem', tsan=True, q=['THREADS=2', 'OPS=1', 'PRE=3', 'SPUR=0', 'KEEP=1', 'NAMED=1', 'RACE'], t=['THREADS=2', 'OPS=2', 'PRE=3', 'SPUR=0', 'KEEP=1', 'NAMED=1', 'RACE']), H('c23_clock', 'c23_sem', q=['THREADS=2', 'OPS=1', 'PRE=2', 'SPUR=0', 'KEEP=1', 'NAMED=1', 'CLOCKFAIL']), H('c23_seq', q=['STEPS=3'], t=['STEPS=5']), H('c23_deadline')],
 '''2 threads x 2 operations with 3 preemptions, 3 threads x 1 operation with 3 (thorough: 2x3 with 4, 3x2 with 2), all 2^32 timeouts, counts 1 and 2, one spurious wake-up, one holder that stays, one failing clock; blocking switches are unlimited. Single thread: every initial count below 2^31, histories of 3 (5) operations; deadlines for every clock reading and every timeout below 65.536 s plus five large ones''',
 SYNCA, 'more threads, operations or preemptions; negative initial values; other failures of pthread calls; several processes (they share the same memory words the threads here share)')
check('C24', [H('c24_scale', steps=50000000), H('c24_mutex', q=['THREADS=2', 'OPS=2', 'PRE=3', 'SPUR=1', 'NAMED=0'], t=['THREADS=2', 'OPS=3', 'PRE=3', 'SPUR=1', 'NAMED=0']), H('c24_deep', 'c24_mutex', q=['THREADS=2', 'OPS=3', 'PRE=2', 'SPUR=0', 'NAMED=0'], t=['THREADS=2', 'OPS=4', 'PRE=2', 'SPUR=0', 'NAMED=0']), H('c24_three', 'c24_mutex', q=['THREADS=3', 'OPS=1', 'PRE=2', 'SPUR=0', 'NAMED=0'], t=['THREADS=3', 'OPS=2', 'PRE=2', 'SPUR=0', 'NAMED=0']), H('c24_two', 'c24_mutex', q=['THREADS=2', 'OPS=2', 'PRE=2', 'SPUR=0', 'NAMED=1', 'TWO'], t=['THREADS=2', 'OPS=2', 'PRE=3', 'SPUR=0', 'NAMED=1', 'TWO']), H('c24_race', 'c24_mutex', tsan=True, q=['THREADS=2', 'OPS=2', 'PRE=2', 'SPUR=0', 'NAMED=1', 'RACE'], t=['THREADS=2', 'OPS=3', 'PRE=2', 'SPUR=0', 'NAMED=1', 'RACE']), H('c24_seq', q=['STEPS=5', 'SYSF=0'], t=['STEPS=7', 'SYSF=0']), H('c24_sysfail', 'c24_seq', q=['STEPS=4', 'SYSF=1', 'SYSFAIL'], t=['STEPS=5', 'SYSF=1', 'SYSFAIL'])],
 '''2 threads x 2 operations with 3 preemptions, 2x3 with 2, 3x1 with 2 (thorough: 2x3 with 3, 2x4 and 3x2 with 2), all 2^32 timeouts, one spurious wake-up, through one object or one per thread sharing a name; with preemption before every access to the shared words 2x2 with 2. Single thread: histories of 5 (7) operations including (re-)creation, one failing system call and destruction while owned''',
 SYNCA, 'more threads, operations or preemptions; one thread locking two objects of the same name; other failures of pthread calls')
check('C25', [H('c25_scale', steps=50000000), H('c25_auto', 'c25_event', q=['THREADS=3', 'OPS=1', 'PRE=3', 'SPUR=1', 'NAMED=0', 'MANUAL=0', 'RESET=0'], t=['THREADS=3', 'OPS=2', 'PRE=2', 'SPUR=1', 'NAMED=0', 'MANUAL=0', 'RESET=0']), H('c25_manual', 'c25_event', q=['THREADS=3', 'OPS=1', 'PRE=3', 'SPUR=1', 'NAMED=0', 'MANUAL=1', 'RESET=1'], t=['THREADS=3', 'OPS=2', 'PRE=2', 'SPUR=0', 'NAMED=0', 'MANUAL=1', 'RESET=1']), H('c25_four', 'c25_event', q=['THREADS=4', 'OPS=1', 'PRE=1', 'SPUR=0', 'NAMED=0', 'MANUAL=0', 'RESET=0'], t=['THREADS=4', 'OPS=1', 'PRE=2', 'SPUR=0', 'NAMED=0', 'MANUAL=0', 'RESET=0']), H('c25_auto2', 'c25_event', q=['THREADS=2', 'OPS=2', 'PRE=3', 'SPUR=0', 'NAMED=0', 'MANUAL=0', 'RESET=0'], t=['THREADS=2', 'OPS=3', 'PRE=3', 'SPUR=0', 'NAMED=0', 'MANUAL=0', 'RESET=0']), H('c25_manual2', 'c25_event', q=['THREADS=2', 'OPS=2', 'PRE=3', 'SPUR=0', 'NAMED=0', 'MANUAL=1', 'RESET=1'], t=['THREADS=2', 'OPS=3', 'PRE=2', 'SPUR=0', 'NAMED=0', 'MANUAL=1', 'RESET=1']), H('c25_race', 'c25_event', tsan=True, q=['THREADS=2', 'OPS=2', 'PRE=2', 'SPUR=0', 'NAMED=1', 'MANUAL=0', 'RESET=0', 'RACE'], t=['THREADS=3', 'OPS=1', 'PRE=2', 'SPUR=0', 'NAMED=1', 'MANUAL=0', 'RESET=0', 'RACE']), H('c25_race_m', 'c25_event', tsan=True, q=['THREADS=2', 'OPS=1', 'PRE=2', 'SPUR=0', 'NAMED=1', 'MANUAL=1', 'RESET=1', 'RACE'], t=['THREADS=2', 'OPS=2', 'PRE=2', 'SPUR=0', 'NAMED=1', 'MANUAL=1', 'RESET=1', 'RACE']), H('c25_clock', 'c25_event', q=['THREADS=2', 'OPS=1', 'PRE=2', 'SPUR=0', 'NAMED=1', 'MANUAL=0', 'RESET=0', 'CLOCKFAIL']), H('c25_seq', q=['STEPS=4'], t=['STEPS=6'])],
 '''3 threads x 1 operation and 2 threads x 2 with 3 preemptions, 4x1 with 1 (thorough: 3x2 and 4x1 with 2, 2x3 with 2 or 3), all 2^32 timeouts, auto and manual events, pre-fired or not, one spurious wake-up, one failing clock; with preemption before every access to the shared words 2x2 with 2. Single thread: histories of 4 (6) operations, timed waits for every clock reading and every timeout below 65.536 s''',
 SYNCA, 'more threads, operations or preemptions; other failures of pthread calls')
check('C27', [H('c27_open', q=['THREADS=2', 'OPS=2', 'PRE=3', 'KIND=0'], t=['THREADS=3', 'OPS=2', 'PRE=3', 'KIND=0']), H('c27_sem', 'c27_open', q=['THREADS=2', 'OPS=2', 'PRE=3', 'KIND=1'], t=['THREADS=3', 'OPS=2', 'PRE=3', 'KIND=1']), H('c27_reopen', 'c27_open', q=['THREADS=3', 'OPS=1', 'PRE=2', 'KIND=0', 'PRIOR'], t=['THREADS=3', 'OPS=1', 'PRE=3', 'KIND=0', 'PRIOR']), H('c27_resem', 'c27_open', q=['THREADS=3', 'OPS=1', 'PRE=2', 'KIND=1', 'PRIOR'], t=['THREADS=3', 'OPS=1', 'PRE=3', 'KIND=1', 'PRIOR']), H('c27_first', q=['THREADS=3', 'PRE=3'], t=['THREADS=4', 'PRE=3']), H('c27_refirst', 'c27_first', q=['THREADS=3', 'PRE=3', 'PRIOR'], t=['THREADS=4', 'PRE=3', 'PRIOR']), H('c27_name', q=['LMAX=2'], t=['LMAX=4']), H('c27_long'), H('c27_fail', q=['FAILS=1'], t=['FAILS=2']), H('c27_size')],
 '''named shared memory and a named semaphore created, used and closed by 2 threads twice with 3 preemptions and by 3 threads over a previous generation with arbitrary contents with 2 (thorough: 3 threads twice with 3); exactly-one-initialiser for 3 (4) openers with 3 preemptions; name separation and derivation for arbitrary names of up to 2 (4) bytes and for names around and beyond the length limit with symbolic bytes; every size in five ranges (0.., 2^20.., 2^32.., 2^40.., SIZE_MAX..); one (two) failing system calls at any point of the creation of each kind of object''',
 SYNCA, 'more openers or preemptions; a process that dies between creating and initialising; distinct names that collide only through the hash applied beyond the length limit')
check('C26', [H('c26_scale', steps=50000000), H('c26_rw', q=['THREADS=2', 'OPS=2', 'PRE=2', 'SPUR=0', 'KEEP=0', 'NAMED=0'], t=['THREADS=2', 'OPS=2', 'PRE=3', 'SPUR=0', 'KEEP=1', 'NAMED=0']), H('c26_one', 'c26_rw', q=['THREADS=2', 'OPS=1', 'PRE=3', 'SPUR=1', 'KEEP=1', 'NAMED=0'], t=['THREADS=2', 'OPS=1', 'PRE=5', 'SPUR=1', 'KEEP=1', 'NAMED=0']), H('c26_three', 'c26_rw', q=['THREADS=3', 'OPS=1', 'PRE=1', 'SPUR=0', 'KEEP=1', 'NAMED=0'], t=['THREADS=3', 'OPS=1', 'PRE=2', 'SPUR=0', 'KEEP=1', 'NAMED=0']), H('c26_two', 'c26_rw', q=['THREADS=2', 'OPS=1', 'PRE=3', 'SPUR=0', 'KEEP=1', 'NAMED=1', 'TWO'], t=['THREADS=2', 'OPS=2', 'PRE=3', 'SPUR=0', 'KEEP=1', 'NAMED=1', 'TWO']), H('c26_race', 'c26_rw', tsan=True, q=['THREADS=2', 'OPS=1', 'PRE=2', 'SPUR=0', 'KEEP=1', 'NAMED=1', 'RACE'], t=['THREADS=2', 'OPS=1', 'PRE=3', 'SPUR=0', 'KEEP=1', 'NAMED=1', 'RACE']), H('c26_clock', 'c26_rw', q=['THREADS=2', 'OPS=1', 'PRE=2', 'SPUR=0', 'KEEP=1', 'NAMED=0', 'CLOCKFAIL']), H('c26_prio', q=['PRE=2', 'NR=2'], t=['PRE=3', 'NR=3']), H('c26_seq', q=['STEPS=4'], t=['STEPS=6']), H('c26_deadline', q=['BASE=1000', 'BITS=4', 'QUANT=131'], t=['BASE=1700000000', 'BITS=6', 'QUANT=37'])],
 '''2 threads x 2 requests with 2 preemptions, 2x1 with 3 and one holder that stays and one spurious wake-up, 3x1 with 1 (thorough: 2x2 with 3, 2x1 with 5, 3x1 with 2), reading or writing, all 2^32 timeouts, one object or two sharing a name, one failing clock; with preemption before every access to the shared words 2x1 with 2 (3). A waiting writer against 1..2 (3) earlier and one later reader. Single thread: histories of 4 (6) operations. Deadlines: timeouts and delays in steps of 131 ms (37 ms) up to about 2 s, whatever holds the request up''',
 SYNCA, 'more threads, requests or preemptions; clocks stepping backwards; unlocking by a thread that holds nothing while another one does')
FSA = ['POSIX file calls behave as specified (modelled in harness/fs_common.h)']
check('C29', [H('c29_longname', 'c38_long', ['WHAT=6']), H('c29_big', q=['STEPS=2'], t=['STEPS=3']), H('c29_file', q=['STEPS=2', 'SIZE=3', 'FAULTS=2', 'NACC=5', 'GROW=0', 'FSCOVER'], t=['STEPS=3', 'SIZE=3', 'FAULTS=2', 'NACC=5', 'GROW=0', 'FSCOVER']), H('c29_long', 'c29_file', q=['STEPS=3', 'SIZE=1', 'FAULTS=1', 'NACC=1', 'GROW=0'], t=['STEPS=4', 'SIZE=2', 'FAULTS=1', 'NACC=1', 'GROW=0']), H('c29_grow', 'c29_file', q=['STEPS=3', 'SIZE=1', 'FAULTS=0', 'NACC=2', 'GROW=1'], t=['STEPS=4', 'SIZE=3', 'FAULTS=0', 'NACC=2', 'GROW=1']), H('c29_open', q=['FAULTS=1'], t=['FAULTS=2'])],
 '''files of up to 3 bytes of arbitrary content, every sequence of 2 operations (read, write, seek to any 64-bit position in all four ways, size update) in five open modes with 2 failing, interrupted or short system calls; 3 (thorough 4) operations with 1; 3 (4) operations while another process changes the size. Opening: every access mode, sharing mode, valid, invalid and missing name, present locks, 1 (2) failing calls''',
 FSA, 'files that are not regular; larger files and buffers (sizes enter the code only through 64-bit counters); write() returning 0; errors reported only by close()')
check('C30', [H('c30_longname', 'c38_long', ['WHAT=7,8,9,10']), H('c30_copy', q=['NSIZE=5', 'FAULTS=2', 'FSCOVER'], t=['NSIZE=7', 'FAULTS=3', 'FSCOVER']), H('c30_same', q=['FAULTS=2'], t=['FAULTS=3'])],
 '''source sizes 0, 1, 8191, 8192, 8193 (thorough also 16384, 16390) with symbolic bytes at the start, end and every 4096th position, destinations missing, empty, of 3 and of 16395 bytes, same or another file system, 2 (3) failing, interrupted or short system calls at any point; source and destination the same file under one or two names; destination locked by somebody else''',
 FSA, 'errors reported only by close(); source changed by another process during the copy; destination shared by symbolic links to directories')
check('C32', [H('c32_line', q=['SIZE=6', 'FAULTS=0', 'HINTS=1,2,3,4,5,6,1024'], t=['SIZE=8', 'FAULTS=0', 'HINTS=1,2,3,4,5,6,7,1024']), H('c32_short', 'c32_line', q=['SIZE=5', 'FAULTS=1', 'HINTS=2,3,1024'], t=['SIZE=6', 'FAULTS=2', 'HINTS=2,3,1024']), H('c32_zero', 'c32_line', q=['SIZE=2', 'FAULTS=0', 'HINTS=0']), H('c32_fail', q=['SIZE=4', 'LINES=3', 'HINTS=1,2,3,1024'], t=['SIZE=6', 'LINES=4', 'HINTS=1,2,3,4,1024']), H('c32_load', q=['SIZE=6', 'FAULTS=3', 'FSCOVER'], t=['SIZE=8', 'FAULTS=4', 'FSCOVER'])],
 '''lines: every file content of up to 6 (thorough 8) bytes, size hints 0, 1..6 (7) and 1024, own and default allocator; with 1 (2) short or interrupted reads up to 5 (6) bytes. Whole files: every content of up to 6 (8) bytes, missing and invalid names, 3 (4) failing, interrupted or short calls''',
 FSA, 'failing reads during LineInput (it has no way to report them); allocator failure; a load that meets a short read may fail')
check('C28', [H('c28_plat', q=['N=6'], t=['N=8']), H('c28_info', 'c28_plat', q=['N=8', 'INFO'], t=['N=10', 'INFO']), H('c28_abs', q=['NB=3', 'NF=5'], t=['NB=4', 'NF=6']), H('c28_long')],
 '''platform names and their validity: every byte string of up to 6 (thorough 8) bytes with buffers of exact need, one short and larger; parts of a name up to 8 (10) bytes; absolute names: every base or working directory of up to 3 (4) and every name of up to 5 (6) printable bytes, every buffer size, normalised twice; names and bases of 8180..8193 bytes of four shapes around the internal limit''',
 FSA, 'the Windows half of the file; names between these lengths')
check('C31', [H('c31_rmdir', q=['NE=3', 'NLEN=1', 'FAULTS=0'], t=['NE=3', 'NLEN=2', 'FAULTS=0']), H('c31_names', 'c31_rmdir', q=['NE=2', 'NLEN=2', 'FAULTS=0'], t=['NE=2', 'NLEN=3', 'FAULTS=0']), H('c31_faults', 'c31_rmdir', q=['NE=2', 'NLEN=1', 'FAULTS=1'], t=['NE=2', 'NLEN=2', 'FAULTS=2']), H('c31_mkdir', q=['NF=6'], t=['NF=8']), H('c31_long', steps=9000000)],
 '''trees of up to 3 entries at any depth (directories, one with a file and a link in it, files, links to the outside or to the tree itself) with every one-byte name (thorough two), 2 entries with every name of up to 2 (3) bytes, 1 (2) failing system calls; the named path a directory, a link or a file, given relative or with . and a trailing separator; trees of one or two levels whose paths have 8150..8205 bytes; creation: every path of up to 6 (8) letters, periods and separators, every mode, each call succeeding or failing''',
 ['POSIX directory calls behave as specified over a tree of directories, files and links (modelled in harness/dir_common.h)'], 'trees changed by somebody else during the removal; larger trees; the Windows half of the file')
check('C34', [H('c34_lib', q=['STEPS=3'], t=['STEPS=4'])],
 '''every history of 3 (thorough 4) calls with and without result, through function objects and one-shot, over two libraries with three functions each (scalars, pointers, a structure by value), each library present or not and any one function missing; all argument and result values''',
 ['dlopen, dlsym and dlclose behave as POSIX specifies', 'a name that was missing or a library that could not be opened stays so (the templates look each up once)'], 'arguments and results of floating-point type; the Windows half of the file; destruction of a module while its functions are still in use')
check('C33', [H('c33_dirs', q=['NH=7', 'NA=6'], t=['NH=10', 'NA=8']), H('c33_time')],
 '''HOME and the home directory of the user entry unset, empty or any text of up to 7 (thorough 10) bytes, application names of up to 6 (8) bytes or none, executable links and resolved names of up to 7 (10) bytes, missing links and failing resolution, every buffer size up to one more than needed and 30 more; every wall clock reading below 2^43 s, every process and thread id''',
 ['getenv, getpwuid, readlink and realpath behave as POSIX specifies'], 'a buffer of exactly the needed size may be refused; the Windows and macOS variants')
check('C37', [H('c37_text', q=['N=8'], t=['N=14']), H('c37_list', q=['NE=2', 'NLEN=2', 'STEPS=4'], t=['NE=2', 'NLEN=2', 'STEPS=5'])],
 '''link targets, canonical names and working directories of 1..8 (thorough 14) arbitrary bytes, every buffer size from 0 to two more than the longest, failing system calls; listings of up to 2 entries with every name of up to 2 bytes besides . and .., every history of 4 (5) open/read/close operations over two directories, a missing one and a file, every read buffer size up to 6''',
 ['readlink, realpath, getcwd, opendir, readdir and closedir behave as POSIX specifies'], 'an entry that does not fit the buffer of a read is refused and skipped; read errors of the system look like the end of the listing; the Windows half of the file')
check('C38', [H('c38_meta', q=['NF=4'], t=['NF=6']), H('c38_long')],
 '''every name of up to 4 (thorough 6) bytes, all permission bits, all user and group ids, users and groups known or not, all 64-bit microsecond times given or left out, missing files and failing system calls''',
 ['chmod, chown, unlink, stat, lstat, symlink, utimes, getpwnam and getgrnam behave as POSIX specifies'], 'a time left out is preserved to the second only; the Windows half of the file')
