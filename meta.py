# The properties (source of properties.jsonl and MANIFEST.json: python3 meta.py)
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), kw))

L = 'pwned-lib/'; C = 'pwned-converter-cli/'
prop('H01', 'Comparison operators of hashes form one consistent total order',
     'Hashes compare by their 128-bit value, most significant byte first; every relational operator agrees with that order, and invalid hashes equal only invalid ones. Records compare like their hashes.',
     ['inputs'], 'all pairs and triples of 128-bit digests and validity flags', 'test_hash and test_phc compare a few fixed digests; a slip in one half or in one operator needs particular pairs to show.',
     [L + 'hash.hpp', L + 'passwordhashandcount.hpp'], [('operator==, !=, <, >', 'Hash'), ('operators of records', 'PasswordHashAndCount')])
prop('H02', 'Hex text and digests convert into each other without loss',
     'A text of exactly 32 hexadecimal digits (either case) yields the digest it denotes, any other text yields an invalid hash; printing a digest gives its 32 lower-case digits, so reading it back is the identity.',
     ['inputs'], 'all digests; all texts up to the stated lengths around 32 characters', 'tests convert a handful of well-formed strings only.',
     [L + 'hash.cpp', L + 'hash.hpp'], [('fromHex', 'hash.cpp'), ('toString', 'hash.cpp'), ('operator<<', 'hash.hpp')])
prop('H03', 'The hash of a password is the MD5 digest of exactly its bytes',
     'Hashing a password feeds precisely its bytes, none more or fewer and including zero bytes, to MD5 and interprets the 16 digest bytes most significant first; equal passwords give equal hashes.',
     ['inputs'], 'all passwords up to the stated length, MD5 being an uninterpreted function', 'tests hash a few sample passwords.',
     [L + 'hash.cpp'], [('Hash(std::string), operator()', 'hash.cpp')])
prop('H04', 'Records survive being written to and read from a file',
     'A record is 20 bytes: upper and lower half of the hash and the count, each little endian; reading at a position returns the record stored there, and reading past the end marks the record as not read instead of inventing one.',
     ['inputs', 'histories'], 'all records, all positions in small files, including truncated files', 'tests read a few records of one sample file.',
     [L + 'hash.hpp', L + 'passwordhashandcount.hpp'], [('read/dump', 'passwordhashandcount.hpp'), ('read', 'hash.hpp')])
prop('U01', 'Hexadecimal text decodes to exactly the bytes it denotes or is refused',
     'Decoding succeeds exactly for an even number of hexadecimal digits and gives the denoted bytes; every other text is refused. Decoding an encoding is the identity.',
     ['inputs'], 'all texts up to the stated length', 'test_util decodes a few well-formed strings.', [L + 'util.hpp', L + 'util.cpp'], [('hexToCharSeq', 'util.cpp'), ('hex digit conversion', 'util.cpp')])
prop('U02', 'The population count equals the number of one bits',
     'For every 64-bit value the count of one bits is exact and lies between 0 and 64.', ['inputs'], 'all 2^64 values', 'tests try a few constants.', [L + 'util.hpp'], [('popcnt64', 'util.hpp')])
prop('U04', 'Formatting returns exactly the formatted text',
     'Formatting with any format and argument returns the complete text, without truncation, trailing bytes or access outside its buffer, whatever its length.', ['inputs'], 'all texts and numbers up to the stated sizes', 'only ever called with a few fixed formats in tests.', [L + 'util.hpp'], [('string_format', 'util.hpp')])
prop('U05', 'Toggling terminal echo and line mode touches only that setting',
     'Turning echo or line breaking on or off changes exactly the flags that stand for it and leaves every other setting of the terminal as it was; leaving the scope restores the original settings.', ['inputs', 'histories'], 'all initial terminal settings and all short sequences of calls', 'no test touches the terminal code.', [L + 'util.hpp', L + 'util.cpp'], [('TermIO', 'util.cpp')])
prop('U06', 'The text of a UUID shows all 128 bits in canonical form',
     'The text of an identifier is 8-4-4-4-12 hexadecimal digits that together are its 128 bits, so different identifiers have different texts.', ['inputs'], 'all 128-bit identifiers', 'no test covers identifiers.', [L + 'uuid.hpp', L + 'uuid.cpp'], [('UUID output', 'uuid.cpp')])
prop('L01', 'A lookup returns the stored count of a hash, and zero when it is absent',
     'For every strictly sorted file, every history of lookups on one open file answers each query with the count stored for that hash, zero if it is not stored, with a logarithmic number of reads. Looking up a password is looking up its MD5 digest.',
     ['inputs', 'histories'], 'all sorted files up to the stated number of records, all hashes, all histories up to the stated length', 'the inspector tests use one sample file and its fixed list of present and absent hashes; boundaries (first, last, beyond either end, after a failed read) are not sampled.',
     [L + 'passwordinspector.cpp', L + 'passwordhashandcount.hpp'], [('binsearch', 'passwordinspector.cpp'), ('lookup', 'passwordinspector.cpp')])
prop('L02', 'The interpolating lookup answers exactly like the plain lookup',
     'Whatever the distribution of the stored hashes and wherever the interpolated start position falls, an interpolating lookup returns the stored count or zero, for every history of mixed lookups on one open file.',
     ['inputs', 'histories'], 'all sorted files up to the stated number of records, all hashes, all histories up to the stated length', 'the smart test uses the one sample file.', [L + 'passwordinspector.cpp'], [('smart_binsearch', 'passwordinspector.cpp')])
prop('L03', 'A lookup through an index answers exactly like one without',
     'For every sorted file and its index over any number of prefix bits, every history of lookups returns the stored count or zero, also when the prefix itself, all smaller or all larger prefixes do not occur.',
     ['inputs', 'histories'], 'all sorted files and all indexes up to the stated sizes', 'no test uses an index.', [L + 'passwordinspector.cpp', 'pwned-index/index.cpp'], [('index branch of binsearch', 'passwordinspector.cpp')])
prop('L04', 'The index of a file names the first record of every prefix',
     'For every sorted file the index built over k prefix bits has 2^k entries, each the byte position of the first record whose hash has that prefix, or all ones if there is none; an incomplete record at the end of the file has no effect, and lookups through the index built answer correctly.',
     ['inputs', 'configurations'], 'all sorted files and all prefix lengths up to the stated sizes, with and without an incomplete last record', 'the index builder has no test.', ['pwned-index/index.cpp'], [('scan loop', 'pwned-index/index.cpp')])
prop('L05', 'Lookups stay exact in files of any size, beyond 4 GiB as well',
     'In files whose size and record positions exceed 31 and 32 bits, plain, interpolating and indexed lookups answer exactly like in small ones.',
     ['inputs'], 'files of 2 GiB, 4 GiB and 80 GiB, all queries in windows around the boundaries', 'the sample file of the tests is small; no test can carry gigabytes.', [L + 'passwordinspector.cpp', L + 'passwordhashandcount.hpp'], [('offset arithmetic', 'passwordinspector.cpp')])
prop('L06', 'The lookup tool answers every word of its input once and then ends',
     'Each whitespace-separated word of the input is answered, in order, with the count stored for its MD5 digest or the statement that it was not found; the tool ends successfully when its input ends. An index, if given, does not change the answers. From a database it cannot open or read it answers nothing, and says so in its exit status.',
     ['inputs', 'histories', 'fault_sequences'], 'all inputs and all small files up to the stated sizes, every file that may fail to open', 'the command-line tool has no test.', ['pwned-lookup-cli/pwned-lookup-cli.cpp'], [('main loop', 'pwned-lookup-cli.cpp')])
M = 'pwned-merger-cli/'
prop('M01', 'Merging yields the strictly ascending union of the hashes of all inputs',
     'Whatever sorted files are merged, the output consists of complete records in strictly ascending order and contains exactly the hashes that occur in at least one input, each once.',
     ['inputs'], 'all sets of sorted inputs up to the stated number of files and records, repeated hashes within and across files included', 'the merger has no test.',
     [M + 'mergeoperation.cpp', M + 'mergerinput.hpp'], [('MergeOperation::execute, next', 'mergeoperation.cpp')])
prop('M02', 'Merging adds up counts without losing or doubling any',
     'The count of every hash in the output of a merge is the sum of the counts the inputs hold for it (as long as that sum fits its 32 bits).',
     ['inputs'], 'all sets of sorted inputs up to the stated number of files and records, counts below 2^28', 'the merger has no test.',
     [M + 'mergeoperation.cpp'], [('summing loop', 'mergeoperation.cpp')])
prop('M03', 'Empty and truncated inputs add nothing to a merge, and inputs stay untouched',
     'An input that is empty or ends in an incomplete record contributes exactly its complete records. Merging leaves every input file as it was, unless removal of the inputs was asked for, which removes all of them.',
     ['inputs', 'fault_sequences'], 'all inputs up to the stated size with arbitrary incomplete tails', 'the merger has no test.', [M + 'mergeoperation.cpp', M + 'mergerinput.hpp'], [('open/read/deleteFile', 'mergerinput.hpp')])
prop('M04', 'The merger leaves one result, the same for every batch size',
     'Merging in several stages of at most n files gives the union with added counts like merging at once, for every n of at least two, removes its intermediate files, keeps the inputs, which are the files of the given directory with the given extension, and never replaces an existing output without confirmation nor an input by the output; pausing does not change the result and cancelling ends the run, under every schedule.',
     ['inputs', 'schedules', 'configurations'], 'all inputs, batch sizes and schedules within the stated bounds', 'the merger has no test; staged merging needs more files than a batch holds.', [M + 'pwned-merger-cli.cpp', L + 'operationqueue.hpp', L + 'operation.cpp'], [('batch loop', 'pwned-merger-cli.cpp')])
prop('F02', 'A merge that fails anywhere says so and keeps its inputs',
     'Whichever file cannot be opened, created or read and whenever the disk is full, a run of the merger that loses anything ends with a failure status, merges nothing further from incomplete results, keeps every input unchanged, and ends; a run that reports success has left the complete result. More inputs than files can be open at once are merged in smaller batches, if the user asks for them.',
     ['fault_sequences', 'inputs'], 'every single file that fails to open, every size at which writing fails, for the inputs within the stated bounds', 'the merger has no test, and no test makes the file system fail.',
     [M + 'mergeoperation.cpp', M + 'pwned-merger-cli.cpp', M + 'mergerinput.hpp', L + 'operationqueue.hpp'], [('execute', 'mergeoperation.cpp'), ('main', 'pwned-merger-cli.cpp'), ('open', 'mergerinput.hpp')])
prop('Q01', 'The semaphore admits no more threads than its capacity and loses no notification',
     'At no time are more threads between wait and notify than the capacity; each wait that returns has used up one unit; a thread waits for ever only if no unit is available.',
     ['schedules'], 'all schedules of up to 3 threads with the stated number of preemptions, all capacities', 'no test uses threads.', [L + 'semaphore.hpp'], [('wait/notify', 'semaphore.hpp')])
prop('Q02', 'The queue executes each operation once, within its limit of parallelism',
     'After waiting for the queue to finish, each operation added has been executed exactly once and destroyed exactly once, never more at a time than there are processors, starting in order of priority, also if an operation throws; the queue can be used again.',
     ['schedules', 'inputs'], 'all schedules of up to 2 operations with the stated number of preemptions, all priorities', 'no test uses the queue.', [L + 'operationqueue.hpp', L + 'operation.cpp', L + 'semaphore.hpp'], [('execute/waitForFinished', 'operationqueue.hpp'), ('start', 'operation.cpp')])
prop('Q03', 'Pausing, resuming and cancelling never hang, lose or repeat an operation',
     'Whenever pause, resume or cancel arrives, waiting for the queue ends, no operation is executed twice, every one is destroyed once, a paused and resumed operation completes, and a cancelled queue still says so after everything has finished.',
     ['schedules'], 'all schedules of up to 2 operations and one controlling thread with the stated number of preemptions', 'no test uses the queue; a lost wakeup needs one particular interleaving.', [L + 'operationqueue.hpp', L + 'operation.cpp'], [('pause/resume/cancel', 'operationqueue.hpp'), ('cancel/waitForFinished', 'operation.cpp')])
prop('R01', 'Each line of a leak yields the password behind the most frequent separator',
     'For any input, the passwords read are, in order, those parts of the lines that follow the first occurrence of a separator no other of the four separators outnumbers among the leading lines (the whole line where it does not occur), without carriage returns; without any separator, the lines themselves.',
     ['inputs'], 'all texts within the stated bounds', 'the tests use a few well-formed leaks with one separator each.', [L + 'userpasswordreader.cpp'], [('guessSeparator', 'userpasswordreader.cpp'), ('extractPassword', 'userpasswordreader.cpp')])
prop('R02', 'Reading hashes covers every usable line exactly once',
     'Reading until the end of input yields one hash for every line of 1 to 200 characters whose password is not empty, the last line with or without newline included, none for other lines, and each is the MD5 hash of that password; looking ahead to guess the format neither consumes nor repeats lines.',
     ['inputs'], 'all texts within the stated bounds', 'the tests neither have empty or overlong lines nor input that does not end as expected.', [L + 'userpasswordreader.cpp'], [('nextPasswordHash', 'userpasswordreader.cpp'), ('nextPassword', 'userpasswordreader.cpp')])
prop('R03', 'MD5 and $HEX[] passwords are evaluated only if asked for and well formed',
     'If forced, or if automatic detection meets one, a password of exactly 32 hexadecimal digits is taken as the digest and a password in the notation $HEX[..] is decoded before it is hashed, on all lines alike; every other password, in particular an ill-formed one, is hashed as it is written.',
     ['inputs', 'configurations'], 'all combinations of options and all contents within the stated bounds', 'the tests use well-formed digests and notations only.', [L + 'userpasswordreader.cpp'], [('nextPasswordHash', 'userpasswordreader.cpp'), ('checkForMD5Hashes', 'userpasswordreader.cpp'), ('checkForHexEncodedPasswords', 'userpasswordreader.cpp')])
prop('U07', 'The memory figures are those the system reports',
     'For any content of /proc/meminfo, in any order and unit, total and available physical and virtual memory have the reported values, used and available memory add up to the total, and what is not reported, or if the file is missing, is zero; reading ends.',
     ['inputs', 'configurations'], 'all figures and orders within the stated bounds', 'the tests never read /proc/meminfo.', [L + 'util.cpp'], [('getMemoryStat', 'util.cpp')])
prop('K01', 'Conversion conserves every occurrence of every password, for any memory limit',
     'The output files of a conversion are complete records in strictly ascending order of hash within each file, and over all files the counts of a hash add up to the number of occurrences of its passwords in the text, however the memory limit splits them; the input is kept.',
     ['inputs', 'configurations'], 'all texts and memory limits within the stated bounds', 'the converter has no test; splitting depends on the memory limit.', [C + 'convertoperation.cpp', L + 'userpasswordreader.cpp'], [('execute', 'convertoperation.cpp')])
prop('K02', 'Conversion neither overwrites existing files nor loses passwords because of them',
     'Whatever files exist in the output directory keep their content, inputs of the same name get different outputs, and passwords that cannot be written are reported instead of being lost silently.',
     ['inputs', 'configurations', 'fault_sequences'], 'all combinations of existing files and texts within the stated bounds', 'the converter has no test.', [C + 'convertoperation.cpp'], [('execute', 'convertoperation.cpp')])
prop('K03', 'The converter gives the same result under every schedule and ends',
     'Under every schedule, also for inputs of the same name converted at the same time, and with pausing, a run conserves all passwords of the files found or named; cancelling ends the run and nothing is converted twice; options take effect, and command lines that make no sense are refused.',
     ['schedules', 'inputs', 'configurations'], 'all schedules with the stated number of preemptions', 'the converter has no test; a lost output needs one particular interleaving.', [C + 'pwned-converter-cli.cpp', C + 'convertoperation.cpp', L + 'operationqueue.hpp'], [('main', 'pwned-converter-cli.cpp'), ('execute', 'convertoperation.cpp')])
prop('F01', 'A conversion that fails anywhere says so and keeps its inputs',
     'Whichever file cannot be opened, created or read, whenever the disk is full, and however many more inputs there are than files may be open at once, a run of the converter that does not convert every password ends with a failure status, keeps every input unchanged, and ends; a run that reports success has converted everything.',
     ['fault_sequences', 'inputs'], 'every single file that fails to open, every size at which writing fails, for the inputs within the stated bounds', 'the converter has no test, and no test makes the file system fail.',
     [C + 'convertoperation.cpp', C + 'pwned-converter-cli.cpp', L + 'operationqueue.hpp'], [('execute', 'convertoperation.cpp'), ('main', 'pwned-converter-cli.cpp')])
prop('X01', 'A lookup answers how often a password occurs in the texts converted',
     'For texts converted with any memory limit, merged, and looked up directly, with interpolation or through an index built from the result, the count reported for any password is the number of its occurrences in all texts.',
     ['inputs', 'configurations'], 'all texts, memory limits and ways to look up within the stated bounds', 'no test runs the tools one after another.', [C + 'convertoperation.cpp', M + 'mergeoperation.cpp', 'pwned-index/index.cpp', L + 'passwordinspector.cpp'], [('execute', 'convertoperation.cpp'), ('execute', 'mergeoperation.cpp'), ('smart_binsearch', 'passwordinspector.cpp')])
CH = [L + 'markovchain.hpp', L + 'markovnode.hpp']
prop('C01', 'A Markov chain gives a word the product of the observed relative frequencies',
     'After training with any passwords, updated once or after every password, the probability of a word is the relative frequency of its first symbol times those of its transitions; words with a symbol or transition never seen have probability 0, and nothing is thrown; relative frequencies add up to 1 for any training text.',
     ['inputs', 'histories'], 'all trainings and words within the stated bounds, with any symbol in place of one of the word', 'the assertions of the only test are compiled out, and it never asks for an unseen transition.', CH, [('totalProbability', 'markovchain.hpp'), ('update', 'markovnode.hpp')])
prop('C02', 'A Markov chain survives saving and loading',
     'A chain loaded from what another one saved has the same first symbols, transitions and probabilities, whatever the loading chain held before, also if there are no transitions; a file in the format is written back as it was read, for any symbols and probabilities.',
     ['inputs', 'histories'], 'all chains within the stated bounds; all probabilities bit by bit', 'the only test saves one chain, and its assertions are compiled out.', CH, [('saveBinary', 'markovchain.hpp'), ('loadBinary', 'markovchain.hpp')])
prop('C03', 'Unusable Markov files are reported',
     'A file cut off anywhere, with any other header or version, or that cannot be opened or read is reported with an error, and nothing else than a report comes of any value of the counts and symbols in it; the former contents are gone; every error has its own name.',
     ['inputs'], 'all cuts and all values of each field of a file', 'no test loads a malformed file.', CH, [('loadBinary', 'markovchain.hpp'), ('errString', 'markovchain.hpp')])
prop('C04', 'Random symbols are drawn according to their probabilities',
     'For uniformly distributed numbers from 0 up to, but excluding, 1, random first symbols and successors have exactly the probabilities of the chain, and there is no number for which something else than a symbol of the chain is drawn.',
     ['inputs'], 'all numbers, for all chains within the stated bounds', 'no test draws symbols, and a test could only sample.', CH, [('randomSuccessor', 'markovnode.hpp'), ('randomFirstSymbol', 'markovchain.hpp')])
prop('C05', 'Relative frequencies are right for any number of passwords',
     'The relative frequencies of first symbols and of successors are right also if their counts add up to more than 32 bits can hold.',
     ['inputs'], 'all trainings with up to 4 times 2^31 passwords out of two', 'no test can train with billions of passwords.', CH, [('update', 'markovchain.hpp')])
prop('C06', 'The Markov tools generate the chain of a list of passwords and answer from it',
     'The generator stores and shows the chain trained with all passwords of a list, the lookup tool answers each password typed with its probability; missing files, files that cannot be read, unwritable outputs, unusable chains and bad command lines are reported by the exit status, without answers and without losing an existing file, also if one file is named for both input and output or the disk is full.',
     ['inputs', 'configurations', 'fault_sequences'], 'all lists, questions and files within the stated bounds', 'the tools have no test.', CH + ['extras/pwned-markov-generator/pwned-markov-generator.cpp', 'extras/pwned-markov-lookup/pwned-markov-lookup.cpp'], [('main', 'pwned-markov-generator.cpp'), ('main', 'pwned-markov-lookup.cpp')])
S = 'pwned-server/'
prop('L07', 'The index builder reports what it cannot do and keeps what is there',
     'Missing or malformed options, databases that cannot be opened or read to their end, unwritable outputs and prefix lengths of 0 or of 64 and more bits are reported by the exit status, and neither a former index nor the database is changed, also if the same file is named for both; an index that cannot be written completely is reported.',
     ['inputs', 'configurations', 'fault_sequences'], 'all situations listed; each file failing to open and every size at which the disk is full', 'the index builder has no test.', ['pwned-index/index.cpp'], [('main', 'index.cpp')])
prop('S01', 'URIs are taken apart correctly, and only well-formed ones are valid',
     'For any URI with authority, scheme, user name, password, host, port (or the default of the scheme), path, query and fragment are exactly the parts of the text; what is malformed, or has a port above 65535, is not valid; nothing is thrown for any text, and nothing remains of a URI parsed before.',
     ['inputs', 'histories'], 'all texts within the stated bounds', 'the test only has well-formed lower case URIs, and never asks whether they are valid.', [S + 'uri.cpp'], [('parse', 'uri.cpp')])
prop('S02', 'Request targets are taken apart correctly',
     'For any request target, path, the pairs of the query and fragment are exactly the parts of the text as RFC 3986 delimits them, pairs without exactly one equals sign are left out, and nothing remains of a target parsed before.',
     ['inputs', 'histories'], 'all targets within the stated bounds', 'no test parses request targets.', [S + 'uri.cpp'], [('parseTarget', 'uri.cpp')])
prop('S03', 'The server answers a lookup with the count stored for the hash',
     'For any database, GET of the lookup service answers with the hash asked for, whatever its case, and the count stored for it, 0 if there is none; the information service gives the number of hashes; a hash that is not one, any other target and any other method are refused with an error status, and from a database that cannot be opened or read no count is answered.',
     ['inputs', 'fault_sequences'], 'all databases and requests within the stated bounds', 'the server is not built for the tests, and its own test samples one database.', [S + 'httpworker.cpp', S + 'uri.cpp', L + 'passwordinspector.cpp'], [('sendResponse', 'httpworker.cpp')])
prop('S04', 'The server never stops taking connections, whatever happens to one',
     'Whatever sequence of connections, requests, errors while accepting, reading and writing, and pauses there is, a worker always waits for exactly one of them, answers each request once (with or without a log, also if the connection is already broken), keeps the answer until it is sent, limits the time of each connection, and takes the next one afterwards.',
     ['fault_sequences', 'schedules', 'histories'], 'all sequences of events within the stated bounds', 'no test breaks or stalls a connection.', [S + 'httpworker.cpp'], [('checkTimeout', 'httpworker.cpp'), ('accept', 'httpworker.cpp'), ('readRequest', 'httpworker.cpp')])
prop('S05', 'The server listens where it is told to and all its workers answer',
     'Started with a database, the server listens on exactly host and port of the address given (or the documented default), serves the services below the path of that address with as many workers and threads as asked for, and each worker answers from the database. Addresses that are not valid or not usable, missing or unreadable files and bad options end it with a failure status instead.',
     ['configurations', 'inputs', 'fault_sequences'], 'all combinations of addresses, workers, threads, verbosity and index within the stated bounds', 'the server is not built for the tests, and its own test starts it with one configuration.', [S + 'pwned-server.cpp', S + 'httpworker.cpp', S + 'uri.cpp'], [('main', 'pwned-server.cpp'), ('start', 'httpworker.cpp')])
X = 'extras/'
prop('E01', 'A test set has different hashes of the database, or none of them, as asked for',
     'The extractor yields as many different records of the database as asked for, or all, in their order, or as asked for hashes that are not in it, or addresses with the hashes; bad options, files that cannot be opened or read and results that cannot be written are reported, without changing the database, even if it is named as output, or an existing file.',
     ['inputs', 'configurations', 'fault_sequences'], 'all databases within the stated bounds', 'the extractor has no test.', [X + 'pwned-test-set-extractor/test-set-extractor.cpp', L + 'passwordinspector.cpp'], [('main', 'test-set-extractor.cpp')])
prop('E02', 'The password extractor writes each password once, and no file twice',
     'Each password of the text files below a directory, apart from those listed as processed unless told to ignore that, is written once on a line of its own and nothing else is; the files are listed as processed once, and not before their passwords are written, so that a run broken off anywhere loses no password of a listed file; an existing output is only overwritten if the user agrees, an input never; what cannot be read or written is reported.',
     ['inputs', 'configurations', 'histories', 'crash_points', 'fault_sequences'], 'all texts within the stated bounds', 'the extractor has no test.', [X + 'pwned-password-extractor/pwned-password-extractor.cpp', L + 'userpasswordreader.cpp'], [('main', 'pwned-password-extractor.cpp')])
prop('E03', 'Changing the byte order converts each record once and adds none',
     'The converted file has the records of the input in their order, both halves of each hash with their bytes reversed and the counts unchanged, and nothing else; files that cannot be opened, read or written are reported, and the input is never overwritten.',
     ['inputs', 'fault_sequences'], 'all files within the stated bounds', 'the tool has no test.', ['deprecated/be2le/be2le.cpp', L + 'passwordhashandcount.hpp'], [('main', 'be2le.cpp')])
NA = []
LEVEL_NOTE = 'Bounded: the solver decides every assertion for all values within the stated bounds; loops and paths inside the bounds are explored completely (an incomplete exploration is printed and recorded). Trusted: the executor (engine/), the library models (models/), clang 18 and Z3; every run replays a sample of completed paths and every counterexample against the compiled code.'
def main():
    import props
    here = os.path.dirname(os.path.abspath(__file__))
    with open(here + '/properties.jsonl', 'w') as f:
        for p, kw in P: f.write(json.dumps(p) + '\n')
    checks = []
    for p, kw in P:
        i = p['id']
        if i in props.PROPS:
            c = props.PROPS[i]
            checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {i} --thorough', evidence_file=f'evidence/{i}.json',
                               technique='symbolic execution of the LLVM IR of the real code, Z3 deciding every branch and assertion', level='model_checking',
                               level_note=LEVEL_NOTE + ' Bounds: ' + c.get('bounds', 'see DESIGN.md') + '. Outside: ' + c.get('outside', 'see DESIGN.md') + '.'))
    ids = [p['id'] for p, _ in P]; done = [c['property'] for c in checks]; na = {n['property'] for n in NA}
    for i in ids: assert (i in done) != (i in na), i
    for i in done: assert i in ids, i
    json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=NA, notes='No hooks: the checks compile /repo unchanged (harnesses use -fno-access-control).'), open(here + '/MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__': main()
