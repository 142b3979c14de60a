import os
# What each check runs.  Entry: name of a harness (harness/<file>, SX_HARNESS(name)); quick/thorough: bounds read by the harness.
COMMON = ['sequentially consistent single-process execution; the shared-library parts of libstdc++/libc/boost are replaced by the models in models/ (validated on replayed paths)',
          'compiled for symbolic execution by clang 18 at -O1 without vectorisation; POPCNT instruction disabled (portable popcount path)']
def E(name, **k):
    d = dict(name=name); d.update(k); return d
PROPS = {}
PROPS['H01'] = dict(harness='hash.cpp', entries=[E('h01_relations', reach=['done', 'valid']), E('h01_laws')])
PROPS['H02'] = dict(harness='hash.cpp', entries=[E('h02_fromhex', reach=['done', 'valid']), E('h02_tostring'), E('h02_stream')])
PROPS['H03'] = dict(harness='hash.cpp', entries=[E('h03_password'), E('h03_samevalue')])
PROPS['H04'] = dict(harness='hash.cpp', entries=[E('h04_write'), E('h04_read')])
PROPS['U01'] = dict(harness='util.cpp', entries=[E('u01_digit', reach=['done', 'digit']), E('u01_text', reach=['done', 'good']), E('u01_roundtrip'), E('u01_long', reach=['done', 'good'])])
PROPS['U02'] = dict(harness='util.cpp', entries=[E('u02_popcount'), E('u02_bits')])
PROPS['U04'] = dict(harness='util.cpp', entries=[E('u04_text'), E('u04_string'), E('u04_number'), E('u04_long')])
PROPS['U05'] = dict(harness='util.cpp', entries=[E('u05_terminal')])
PROPS['U06'] = dict(harness='util.cpp', entries=[E('u06_text'), E('u06_equal')])
PROPS['L01'] = dict(harness='lookup.cpp', entries=[E('l01_history', reach=['done', 'hit', 'miss']), E('l01_single'), E('l01_password', reach=['done', 'hit'])])
PROPS['L02'] = dict(harness='lookup.cpp', entries=[E('l02_history', quick=dict(n=4), thorough=dict(n=5, queries=3), reach=['done', 'hit']), E('l02_full', reach=['done', 'hit'])])
PROPS['L03'] = dict(harness='lookup.cpp', entries=[E('l03_history', quick=dict(n=2), thorough=dict(n=3, queries=2), reach=['done', 'hit']), E('l03_more', thorough=dict(n=5, bits=3), reach=['done', 'hit']), E('l03_full', reach=['done', 'hit']), E('l03_smart'), E('l03_noindex')])
PROPS['L04'] = dict(harness='index.cpp', sources=['pwned-lib/*.cpp', 'pwned-index/index.cpp'], mains={'pwned-index/index.cpp': 'sx_main_index'}, entries=[E('l04_entries'), E('l04_tail'), E('l04_bits'), E('l04_huge'), E('l04_lookup', reach=['done', 'hit'])])
PROPS['L07'] = dict(PROPS['L04'], entries=[E('l07_refused'), E('l07_faults', reach=['done', 'failed']), E('l07_read', reach=['done', 'failed']), E('l07_own')])
PROPS['L06'] = dict(harness='lookupcli.cpp', sources=['pwned-lib/*.cpp', 'pwned-lookup-cli/*.cpp'], mains={'pwned-lookup-cli/pwned-lookup-cli.cpp': 'sx_main_lookup'}, entries=[E('l06_session', thorough=dict(len=4), reach=['done', 'hit', 'two']), E('l06_large'), E('l06_index', thorough=dict(len=2), reach=['done', 'hit']), E('l06_nodatabase'), E('l06_read', reach=['done', 'failed'])])
PROPS['L05'] = dict(harness='huge.cpp', sanitize=[], entries=[E('l05_' + x, reach=['done', 'hit']) for x in ('plain', 'smart', 'index')])
for _m, _e in (('M01', [E('m01_union', reach=['done', 'several']), E('m01_full'), E('m01_files'), E('m01_long')]), ('M02', [E('m02_counts'), E('m02_full'), E('m01_files'), E('m01_long')]), ('M03', [E('m03_tails'), E('m03_remove')])):
    PROPS[_m] = dict(harness='merge.cpp', sources=['pwned-lib/*.cpp', 'pwned-merger-cli/mergeoperation.cpp'], entries=_e)
for _m, _e in (('Q01', [E('q01_exclusion', quick=dict(preempt=3), thorough=dict(threads=4), reach=['done', 'two']), E('q01_wakeup', quick=dict(preempt=4), thorough=dict(preempt=6))]),
               ('Q02', [E('q02_once', quick=dict(preempt=3), thorough=dict(ops=3), reach=['done', 'parallel']), E('q02_priority', quick=dict(cores=1, preempt=1), thorough=dict(preempt=2)), E('q02_many', quick=dict(preempt=0), thorough=dict(preempt=1)), E('q02_again', quick=dict(cores=1, preempt=3))]),
               ('Q03', [E('q03_cancel', thorough=dict(preempt=3)), E('q03_pause', quick=dict(preempt=3), thorough=dict(preempt=4)), E('q03_pausecancel', quick=dict(preempt=3), thorough=dict(preempt=4))])):
    PROPS[_m] = dict(harness='queue.cpp', threads=True, entries=_e)
PROPS['M04'] = dict(harness='mergecli.cpp', threads=True, sources=['pwned-lib/*.cpp', 'pwned-merger-cli/*.cpp'], mains={'pwned-merger-cli/pwned-merger-cli.cpp': 'sx_main_merger'}, entries=[
    E('m04_batches', quick=dict(preempt=0), reach=['done', 'staged']), E('m04_many', quick=dict(preempt=0, files=1, cores=1), thorough=dict(files=5)), E('m04_refused', quick=dict(preempt=0)), E('m04_own', quick=dict(preempt=0)), E('m04_scan', quick=dict(preempt=0)), E('m04_overwrite', quick=dict(preempt=0), reach=['done', 'yes', 'no']), E('m04_cancel', quick=dict(preempt=1)), E('m04_pause', quick=dict(preempt=1))])
PROPS['R01'] = dict(harness='reader.cpp', entries=[E('r01_text', thorough=dict(len=5), reach=['done', 'separated']), E('r01_lines', thorough=dict(len=8), reach=['done', 'separated']), E('r01_all', reach=['done', 'separated'])])
PROPS['R02'] = dict(harness='reader.cpp', entries=[E('r02_text', thorough=dict(len=5), reach=['done', 'separated']), E("r02_long"), E("r02_longer"), E('r02_many'), E('r03_md5', reach=['done', 'digest']), E('r03_auto')])
PROPS['R03'] = dict(harness='reader.cpp', entries=[E('r03_md5', reach=['done', 'digest']), E('r03_auto')])
for _m, _e in (('K01', [E('k01_limits', thorough=dict(len=7), reach=['done', 'split']), E('k01_text', quick=dict(lines=2), thorough=dict(lines=3)), E('k01_many', reach=['done', 'split']), E('k01_often', thorough=dict(times=4))]), ('K02', [E('k02_existing', thorough=dict(existing=15)), E('k02_many', thorough=dict(existing=10)), E('k02_samename', thorough=dict(b=2)), E('k02_unwritable')])):
    PROPS[_m] = dict(harness='convert.cpp', sources=['pwned-lib/*.cpp', 'pwned-converter-cli/convertoperation.cpp'], entries=_e)
PROPS['K03'] = dict(harness='convertcli.cpp', threads=True, sources=['pwned-lib/*.cpp', 'pwned-converter-cli/*.cpp'], mains={'pwned-converter-cli/pwned-converter-cli.cpp': 'sx_main_converter'}, entries=[
    E('k03_parallel', quick=dict(preempt=1)), E('k03_pause', quick=dict(preempt=1)), E('k03_cancel', quick=dict(preempt=1)), E('k03_options', quick=dict(preempt=0, cores=1), thorough=dict(all=1)), E('k03_refused', quick=dict(preempt=0))])
PROPS['F01'] = dict(PROPS['K03'], entries=[E('f01_faults', quick=dict(preempt=0, cores=1), thorough=dict(preempt=1, cores=2), reach=['done', 'hit', 'failed']), E('f01_read', quick=dict(preempt=0, cores=1), reach=['done', 'failed']), E('f01_many', quick=dict(preempt=0, cores=1))])
PROPS['F02'] = dict(PROPS['M04'], entries=[E('f02_faults', quick=dict(preempt=0, cores=1), thorough=dict(preempt=1, cores=2), reach=['done', 'hit', 'failed']), E('f02_read', quick=dict(preempt=0, cores=1), reach=['done', 'failed']), E('f02_many', quick=dict(preempt=0, cores=1))])
PROPS['U07'] = dict(harness='util.cpp', entries=[E('u07_figures'), E('u07_large')])
PROPS['X01'] = dict(harness='pipeline.cpp', sources=['pwned-lib/*.cpp', 'pwned-converter-cli/convertoperation.cpp', 'pwned-merger-cli/mergeoperation.cpp', 'pwned-index/index.cpp'], mains={'pwned-index/index.cpp': 'sx_main_index'}, entries=[E("x01_pipeline", thorough=dict(second=3), reach=['done', 'hit']), E('x01_many', reach=['done', 'split'])])
PROPS['C01'] = dict(harness='markov.cpp', entries=[E('c01_words', quick=dict(twice=1), thorough=dict(len=3, words=2, twice=1), reach=['done', 'known']), E('c01_long', reach=['done', 'known']), E('c01_updates', thorough=dict(words=4), reach=['done', 'known']), E('c01_rare', reach=['done', 'known']), E('c01_bytes', reach=['done', 'known'])])
PROPS['C02'] = dict(harness='markov.cpp', entries=[E('c02_roundtrip', reach=['done', 'known']), E('c02_format'), E('c02_large', thorough=dict(sizes=6))])
PROPS['C03'] = dict(harness='markov.cpp', entries=[E('c03_cut', reach=['done', 'whole']), E('c03_changed', reach=['done', 'whole']), E('c03_missing'), E('c03_read')])
PROPS['C04'] = dict(harness='markov.cpp', entries=[E('c04_draw'), E('c04_thirds'), E('c04_any')])
PROPS['C05'] = dict(harness='markovcount.cpp', entries=[E('c05_many'), E('c05_node')])
PROPS['C06'] = dict(harness='markovcli.cpp', sources=['pwned-lib/*.cpp', 'extras/pwned-markov-generator/*.cpp', 'extras/pwned-markov-lookup/*.cpp'], mains={'extras/pwned-markov-generator/pwned-markov-generator.cpp': 'sx_main_generator', 'extras/pwned-markov-lookup/pwned-markov-lookup.cpp': 'sx_main_markov'}, entries=[E('c06_tools', reach=['done', 'known']), E('c06_unusable', reach=['done', 'lookup']), E('c06_many'), E('c06_faults', reach=['done', 'failed']), E('c06_read', reach=['done', 'failed', 'unusable']), E('c06_own')])
for _m, _e in (('S03', [E('s03_lookup', thorough=dict(records=3, again=1), reach=['done', 'hit']), E('s03_info'), E('s03_counts'), E('s03_index', reach=['done', 'hit']), E('s03_invalid', reach=['done', 'refused']), E('s03_other', reach=['done', 'missing']), E('s03_nodatabase'), E('s03_read', reach=['done', 'failed'])]), ('S04', [E('s04_connections', quick=dict(steps=6), thorough=dict(steps=8), reach=['done', 'timeout', 'answered'])])): PROPS[_m] = dict(harness='server.cpp', defs=['-I' + os.path.dirname(os.path.abspath(__file__)) + '/models/net'], sources=['pwned-lib/*.cpp', 'pwned-server/httpworker.cpp', 'pwned-server/uri.cpp'], entries=_e)
PROPS['S05'] = dict(PROPS['S03'], threads=True, defs=PROPS['S03']['defs'] + ['-DS05'], sources=PROPS['S03']['sources'] + ['pwned-server/pwned-server.cpp'], mains={'pwned-server/pwned-server.cpp': 'sx_main_server'}, entries=[E('s05_serve', quick=dict(preempt=0)), E('s05_refused', quick=dict(preempt=0))])
for _m, _e in (('S01', [E('s01_replace', reach=['done', 'valid', 'invalid']), E('s01_again', reach=['done', 'valid', 'invalid']), E('s01_short', thorough=dict(len=3)), E('s01_port', reach=['done', 'valid', 'invalid'])]), ('S02', [E('s02_replace', reach=['done', 'query']), E('s02_target', quick=dict(len=5), thorough=dict(len=6), reach=['done', 'query'])])): PROPS[_m] = dict(harness='uri.cpp', sources=['pwned-server/uri.cpp'], entries=_e)
for _i, _src, _main, _e in (('E01', 'extras/pwned-test-set-extractor/test-set-extractor.cpp', 'sx_main_testset', [E('e01_existing', reach=['done', 'several']), E('e01_many'), E('e01_missing'), E('e01_urls'), E('e01_refused'), E('e01_faults', reach=['done', 'failed']), E('e01_read', reach=['done', 'failed']), E('e01_own')]),
                            ('E02', 'extras/pwned-password-extractor/pwned-password-extractor.cpp', 'sx_main_passwords', [E('e02_passwords', reach=['done', 'skipped']), E('e02_refused'), E('e02_faults', reach=['done', 'failed']), E('e02_crash', reach=['done', 'checked']), E('e02_read', reach=['done', 'skipped']), E('e02_own')]),
                            ('E03', 'deprecated/be2le/be2le.cpp', 'sx_main_be2le', [E('e03_swap'), E('e03_many'), E('e03_refused'), E('e03_faults', reach=['done', 'failed']), E('e03_read', reach=['done', 'failed']), E('e03_own')])):
    PROPS[_i] = dict(harness='extract.cpp', sources=['pwned-lib/*.cpp', _src], mains={_src: _main}, defs=['-D' + _i], entries=_e)

def bounds(i, b, o): PROPS[i]['bounds'] = b; PROPS[i]['outside'] = o
bounds('H01', 'all 128-bit digests and validity flags, no restriction', 'nothing')
bounds('H02', 'all texts of 0, 1, 2, 15, 16, 30 to 34 and 64 bytes, all digests', 'other text lengths; MSVC code paths')
bounds('H03', 'passwords of 0, 1, 2, 3, 7, 8, 15, 16, 17, 63, 64 and 200 arbitrary bytes, of 255, 256, 257, 1000, 1024 and 4096 bytes, 3 of them arbitrary; MD5 is an uninterpreted function', 'other lengths; the arithmetic of MD5 itself (OpenSSL)')
bounds('H04', 'up to 3 arbitrary records; files of 0 to 45 arbitrary bytes; reads at 3 odd offsets', 'larger files (see L05 for offsets); disk errors')
bounds('U01', 'all characters; all texts of 0 to 9 bytes; round trip of up to 24 arbitrary bytes; 17 longer texts up to 4096 bytes, 2 bytes of them arbitrary', 'longer texts')
bounds('U02', 'all 64-bit values', 'the POPCNT instruction (the portable path is checked)')
bounds('U04', 'formats up to 8 arbitrary characters without directives, %s with up to 24 arbitrary characters, %d for -99999 to 99999; 17 longer results up to 5000 characters, 2 of them arbitrary', 'other directives and lengths')
bounds('U05', 'all initial settings, all sequences of up to 4 calls', 'failing terminal calls')
bounds('U06', 'all identifiers', 'quality of random identifiers')
bounds('L01', 'all files of 0 to 4 records with full-width hashes and 2 successive lookups; files of 1, 2, 3, 5, 8 and 13 records (thorough: up to 33), with and without a trailing partial record, where 16 bits of each hash vary, one lookup', 'larger files; unsorted files; disk errors')
bounds('L02', 'all files of 0 to 4 records where 16 bits of each hash vary, 2 successive mixed lookups; all files of 0 to 2 records with full-width hashes, one lookup', 'larger files; unsorted files; disk errors')
bounds('L03', 'all files of 0 to 4 records and indexes of 1 or 2 bits, 16 bits of each hash varying, one lookup; 0 to 2 records and 2 lookups; full-width hashes with 0 to 2 records', 'larger files and indexes; an index that does not belong to the file')
bounds('L04', 'files of 0 to 3 records with full-width hashes and 1 to 3 prefix bits; 0 to 2 records followed by 1 to 19 arbitrary bytes; 4 records on both sides of the boundaries of prefixes of 4 to 17 bits (8 widths); files of 2 to 160 GB in which only the first and the last two records have prefixes of their own; lookups through the index built for 0 to 2 records', 'larger files; more prefix bits')
bounds('L05', '107374190, 214748370 and 4294967300 records; the queries fall into seven windows of 32 records (start, middle, end, and where positions cross 2^31 and 2^32), 8 possible hashes per record and 256 lower halves', 'other contents and sizes')
bounds('L06', 'inputs of 0 to 3 arbitrary bytes other than NUL (thorough: 4), files of 0 or 1 record; inputs of 0 or 1 byte with an index and 0 to 2 records; counts below 20; words of 31 to 5000 characters with counts up to 2^32-1 (11 lengths, 9 counts); 1 or 2 records of which those from some position on cannot be read', 'other inputs; larger files; missing files; malformed command lines')

bounds('M01', '1 to 3 files with together 0 to 4 records, at most 3 per file, 8 bits of each hash varying; 2 files with together 0 to 3 records with full-width hashes; 5 and 12 files of 2 records, 1 and 2 files of 40 records, one hash at 64 places', 'larger and unsorted inputs; disk errors (see F02)')
bounds('M02', 'as M01; arbitrary counts below 2^28', 'larger and unsorted inputs; sums of counts beyond 32 bits; disk errors (see F02)')
bounds('M03', '1 or 2 files with 0 or 1 record and a tail of 0, 1, 16 or 19 (1 file: 0 to 19) arbitrary bytes; removal: 1 to 3 files with together 0 to 2 records', 'other tail lengths; missing and unreadable files; disk errors')
bounds('M04', '1 to 3 files with 0 or 1 record (8 bits of each hash varying), batches of 2 and 3; 4 and 5 files (thorough: to 9) of fixed records with batches of 2, 3 and 4; all schedules without preemption (hand-over where a thread blocks or ends); cancel and pause keys with 1 preemption (pausing with 2 files of up to 2 records); 8 files in a directory, 3 of them inputs', 'larger inputs and batches; more preemptions; hand-over at other points than locks, waits, notifications, thread starts and list updates')
bounds('Q01', '3 threads with 3 preemptions and every capacity (thorough: 4 threads); 1 or 2 waiters and notifications with 4 preemptions (thorough: 6)', 'more threads and preemptions; weak memory; hand-over at other points than locks, waits, notifications and thread starts')
bounds('Q02', '5 operations on 2 processors without preemption; 1 or 2 operations on 2 processors with 3 preemptions (thorough: 3 operations), all priorities; 3 operations on 1 processor with 1 preemption (thorough: 2)', 'more operations and preemptions; weak memory; hand-over at other points than locks, waits, notifications, thread starts and list updates')
bounds('Q03', '1 or 2 operations cancelled at any point with 2 preemptions (thorough: 3); 1 operation paused, resumed and cancelled with 3 (thorough: 4)', 'more operations and preemptions; weak memory; hand-over at other points than locks, waits, notifications, thread starts and list updates')
bounds('R01', 'all texts of 0 to 4 arbitrary bytes (thorough: 5); texts of 1 to 7 characters out of colon, semicolon, newline and x (thorough: 8); 1 to 3 lines with two arbitrary separators each', 'longer texts; more than 500 lines with changing separators')
bounds('R02', 'all texts of 0 to 4 arbitrary bytes (thorough: 5); 2 lines, one of 198 to 202 characters, 2 of them arbitrary; lines of 203 to 4097 characters (16 lengths), 2 of them arbitrary; 500 to 502 lines, 2 characters of them arbitrary', 'other texts; read errors; MD5 is an uninterpreted function')
bounds('R03', 'one password of 31 to 33 characters, 2 of them arbitrary; $HEX[] around 0 to 4 arbitrary characters; one character of the notation replaced, removed or added; automatic detection with 3 and 302 lines; all 9 combinations of options', 'other texts; automatic detection behind line 500; MD5 is an uninterpreted function')
bounds('U07', 'numbers of 1 or 2 arbitrary digits, all units, 4 orders, any one line missing, file missing; 9 larger numbers of up to 11 digits, one of them arbitrary', 'other systems than Linux')
bounds('K01', 'texts of 0 to 5 characters out of a, b and newline (thorough: 7) with any memory limit below 400 bytes; 5, 14 and 48 passwords, many of them repeated, each of 3 at three of the places, and any memory limit from 51 (48 passwords: 251) to 999 bytes or none; one password 257 times (thorough: to 513), another one arbitrary; 0 to 2 lines with 0 to 2 arbitrary characters each (thorough: 3 lines of 1)', 'longer texts; disk errors (see F01); MD5 is an uninterpreted function')
bounds('K02', 'texts of 1 to 3 characters out of a, b and newline, memory limits below 300 bytes, all subsets of 3 existing files (thorough: 4), the first of them empty or not, or 6, 12 or 18 of them; 2 inputs of the same name with 0 to 3 and 0 to 1 characters (thorough: 2)', 'longer texts; more than 24 existing files; disk errors while writing (see F01)')
bounds('K03', '2 inputs of the same name with one arbitrary character each, all schedules with 1 preemption (hand-over at locks, waits, notifications, thread starts, list updates and before a file is created); pausing and cancelling with 1 preemption; 9 combinations of options without preemption', 'more and larger inputs; more preemptions; unreadable inputs')
bounds('F01', '2 inputs of 2 and 3 lines, one of them converted in parts or at once, two characters arbitrary: the first to fifth (eighth) opening of a file fails, or files cannot grow beyond 8 sizes of 0 to 59 bytes; 4 to 9 inputs with 3 or 4 files open at once; an input that cannot be read from some position on; no preemption (thorough: 2 processors, 1 preemption)', 'several faults at once; a process that is killed')
bounds('F02', '3 inputs of 4 records, 4 hashes arbitrary, merged in stages of 2: each opening of a file fails, or files cannot grow beyond 8 sizes of 0 to 79 bytes; an input that cannot be read from one of 10 positions on; 4, 6 and 9 inputs with 4 or 5 files open at once; no preemption (thorough: 2 processors, 1 preemption)', 'several faults at once; a process that is killed')
bounds('X01', '2 texts of 0 to 3 and 0 to 1 characters (thorough: 3) out of a, b and newline, any memory limit below 250 bytes, 2 passwords looked up in 3 ways; texts of 23 and 11 passwords with any memory limit from 251 to 999 bytes, 26 passwords looked up', 'longer texts; more inputs; MD5 is an uninterpreted function')
bounds('C01', '0 to 2 passwords of 0 to 2 symbols out of 2 (thorough: 3), with an update after each; words of 1 to 3 symbols, one of them any symbol below 65536; any 2 bytes as training text; 7 lengths up to 600 in three shapes (one long password, many passwords, many symbols); 3 passwords with an update after each or not (thorough: 4); up to 32 passwords of up to 6 symbols, each word with any symbol replaced', 'other longer and more passwords; symbols with codes of 65536 and above')
bounds('C02', '0 to 2 passwords of 1 to 2 symbols out of 2, in 1-byte or 3- and 4-byte characters; words of 1 to 2 symbols; a file with 1 first symbol and 1 transition, all 32-bit symbols and all 64-bit probabilities; 127 to 300 symbols or successors (thorough: 33000)', 'larger chains; write errors (see C06); loading without clearing')
bounds('C03', 'all sizes of a file with 2 first symbols and 2 transitions; any 4 bytes in place of each count and symbol, any byte in header and version; read errors at every position', 'other files')
bounds('C04', '4 transitions out of up to 4 (multiples of 1/4) with all numbers; 1 to 11 equally probable symbols with all numbers (within 1e-12 of the shares)', 'other distributions; the quality of the generator')
bounds('C05', '1 to 4 first symbols or transitions, each standing for 2^31 passwords', 'counts of more than 64 bits')
bounds('C06', 'lists of 0 to 2 passwords of 0 to 2 characters out of a and b, with and without user names, 2 questions; lists of 3 to 530 passwords, one of them any of up to 2 characters; 6 situations in which a tool has to refuse, any 4 bytes as chain; a list of 3 passwords with each opening of a file failing or 8 sizes at which the disk is full; lists and chains that cannot be read from some position on', 'longer lists')
bounds('L07', 'a database of 1 record and 8 situations, 4 impossible prefix lengths; databases of 0 to 2 records with each opening of a file failing or several sizes at which the disk is full; 1 or 2 records that cannot be read from some position on; the database named as index', 'prefix lengths whose index exceeds the memory')
bounds('S01', '4 URIs, each with any one character replaced by any other; parsing a second one; all texts of 0 to 2 bytes (thorough: 3); ports of 0 to 6 digits', 'longer texts (std::regex is recursive); URIs without authority')
bounds('S02', 'all targets of 0 to 5 characters out of / ? & = # ; % and x (thorough: 6), after another one or not; 4 longer targets with any one character replaced by any of 14', 'longer targets; escapes are not decoded')
bounds('S03', 'databases of 0 to 2 records (thorough: 3, two lookups) with 16 varying bits of each hash and counts below 20 or 13 larger ones up to 2^32-1, with and without index, queries of 16 varying bits, both cases; hashes of 30 to 33 characters, one of them arbitrary; targets with one arbitrary character at 15 places, of 0 to 2 arbitrary bytes, or with 1 or 2 arbitrary bytes added; 8 methods; 1 or 2 records that cannot be read from 6 positions on', 'the network and HTTP code of Boost, for which models/net stands in; main() (see S05)')
bounds('S04', 'all sequences of 6 events (thorough: 8) out of progress, failure, pause and end of the time limit; 3 targets; with and without log, the connection broken or not when a request is answered', 'several threads serving one worker at the same time; the network and HTTP code of Boost')
bounds('S05', '5 addresses, 1, 3 and 64 workers, 1 to 3 threads without preemption, with and without index and messages, a database of one record with 16 varying bits and any count below 20; two of the workers asked; 16 situations to be refused', 'the network code of Boost, for which models/net stands in; IPv6; several threads serving one worker at the same time')
bounds('E01', 'databases of 0 to 4 records, with and without incomplete record, 1 to 6 records asked for; 0 to 1 records for hashes not in it; 10, 21, 37 and 64 records with 1 to 70 asked for; 8 varying bits for addresses; 5 situations to be refused; 3 records with each opening of a file failing, 7 sizes at which the disk is full, or the database unreadable from some position on', 'larger databases')
bounds('E02', '2 files with 0 to 2 and 0 to 1 lines of 0 to 2 arbitrary characters, the list of processed files missing, used and ignored; 2 files of 1 to 2 lines with each opening of a file failing, several sizes at which the disk is full, texts that cannot be read from some position on, and the run broken off after any write', 'the compression itself (bzip2 is modelled as storing what it is given until it is closed); longer texts; what the operating system loses when it crashes')
bounds('E03', '0 to 3 records of arbitrary bytes, with and without incomplete record; 33 and 150 records, one byte arbitrary; 2 records with each opening of a file failing, 7 sizes at which the disk is full, or read errors from some position on', 'larger files')
