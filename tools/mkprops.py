#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements are reviewable as a list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
B='poppy/src/bloom.rs'; V1='poppy/src/bloom/v1.rs'; V2='poppy/src/bloom/v2.rs'; H='poppy/src/hash.rs'
FNV='poppy/src/hash/fnv.rs'; WY='poppy/src/hash/wyhash.rs'; AR='poppy/src/bitset/array.rs'; VE='poppy/src/bitset/vec.rs'
UT='poppy/src/utils.rs'; BU='poppy/src/bloom/utils.rs'; CLI='poppy/src/bin/poppy.rs'; PY='python/src/lib.rs'

p('C01','No false negatives',
 'Every value whose insertion returned success is reported as contained by every later lookup, in both filter formats, at every optimisation level, and whatever other values are inserted (or refused) afterwards. This holds for every value that can be inserted, including the empty one, and for every accepted capacity and false positive probability, including probability 1.',
 ['inputs','histories','configurations'],'all values x and y, all filter contents reached before inserting x, all accepted (format, capacity, fpp, optimisation level)',
 'The tests insert a few fixed words and integers into a few fixed configurations and never insert into a filter whose bits were set by something else; one missing bit for one value in one configuration is invisible to them.',
 [B,V1,V2,H,AR,VE],[('set k bits, check the same k bits','v2.rs insert_iter/contains_iter; v1.rs insert_bytes/contains_bytes'),('index cache bit set on insertion and required on lookup','v2.rs insert_iter/contains_iter'),('bits are only ever OR-ed in','bitset/array.rs, bitset/vec.rs set_value_nth_bit')],
 [('buckets','v2 bit storage','v2.rs BloomFilter.buckets'),('index_cache','v2 pre-filter bitset','v2.rs'),('bitset','v1 bit storage','v1.rs')],
 ['insert_bytes result','contains_bytes result'])

p('C02','A lookup answers true only if every position of the value is set',
 'A lookup reports a value as present only when every position that inserting this value would set is already set, so whenever a lookup reports a value as present, inserting it again succeeds and reports that nothing new was added. Conversely, at the optimisation levels without an index cache and in the DCSO format, inserting a value that a lookup reports as absent never reports it as already present.',
 ['inputs','histories','configurations'],'all values, all filter contents, all sample configurations of each format',
 'Tests query two or three absent words; a lookup that skips one position, or looks in the wrong bucket for some values, still answers false for them and only raises the false positive rate.',
 [V1,V2,AR,VE],[('AND over all k positions','v2.rs contains_iter, v1.rs contains_bytes'),('new-bit detection','v2.rs insert_iter, v1.rs insert_bytes')],
 observe=['contains_bytes result','insert_bytes result'])

p('C03','Union holds exactly the bits of both filters',
 'After a successful union, the result stores exactly the bitwise union of what the two filters stored (so every value either filter reported as contained is reported as contained), the other filter is unchanged, and parameters and attached data of the target are kept. A union of filters with different format, capacity, fpp, optimisation level or dimensions fails and leaves both filters unchanged.',
 ['inputs','histories'],'all pairs of filter contents of equal or different parameters, all probed values',
 'The tests merge two filters holding four words and look those four words up; a merge that drops one byte, one bucket or the index cache keeps passing.',
 [B,V1,V2,AR,VE],[('byte-wise OR of buckets and index cache','v2.rs union_merge'),('word-wise OR','v1.rs union_merge'),('parameter comparison','has_same_params')],
 observe=['contains_bytes after union_merge','serialized form of the merged filter','error of union_merge'])

p('C04','Intersection keeps exactly the common bits',
 'After a successful intersection the result stores exactly the bits stored in both filters, so every value both filters reported as contained is still reported as contained and no value that either reported absent becomes present. The other filter is unchanged, and intersecting filters of different parameters fails and changes nothing.',
 ['inputs','histories'],'all pairs of filter contents, all probed values',
 'One test intersects two filters of five words and looks up the two common ones; it never looks up the words that must disappear nor a filter with an index cache.',
 [V2,AR,VE],[('byte-wise AND of buckets and index cache','v2.rs intersection_merge'),('parameter comparison','v2.rs has_same_params')],
 observe=['contains_bytes after intersection','serialized form'])

p('C05','Writing a filter and reading it back restores it completely',
 'Reading back what a filter wrote yields a filter with the same format version, optimisation level, capacity, fpp, element count, reported size, attached data and stored bits, answering every lookup and every further insertion exactly as the original would. Writing it again produces the same bytes.',
 ['inputs','histories','configurations'],'all filter contents, counts, attached data up to the bound, all sample configurations of both formats, via the format-specific and the common entry points',
 'The tests round-trip a filter with two words and a fixed blob and then look up four words; they compare no count, no optimisation level and no other bit of the storage.',
 [B,V1,V2,UT],[('field order and little-endian encoding','v1.rs/v2.rs write and from_reader_with_flags'),('flags encoding','bloom.rs Flags::to_bytes/from_bytes')],
 observe=['bytes handed to the writer','state of the filter read back'])

p('C06','Metadata-only reading agrees with full reading',
 'For every well-formed filter file, the metadata-only reader reports the same version, capacity, fpp, element count, size in bytes and attached data as the full reader.',
 ['inputs','configurations'],'all header values, filter contents and attached data within the bound, both formats',
 'Two tests each compare one file; skipping the wrong number of bytes only shows for particular bitset and cache sizes.',
 [B,V1,V2],[('seek over the index cache and the buckets','v2.rs from_reader_with_flags(partial)'),('seek over the bitset','v1.rs from_reader_with_flags(partial)')],
 observe=['partial_from_reader accessors'])

p('C07','Write reports success only if every byte reached the writer',
 'If writing a filter returns success, the underlying writer has received the complete serialized form, in order and without duplication; if the writer refuses data at any point, the write returns an error. Short writes and interrupted calls by the writer never change what is received.',
 ['fault_sequences','inputs'],'every position at which the writer fails, every pattern of short and interrupted writes within the bound',
 'Every test writes to an in-memory cursor that accepts everything.',
 [V1,V2,B],[('write_all through a buffered writer','v1.rs write, v2.rs write')],
 observe=['result of write','bytes accepted by the writer'])

p('C08','Malformed or truncated filter files are refused, never a crash',
 'Reading a filter from arbitrary bytes returns a filter or an error: it never panics, aborts or allocates memory out of proportion to the input. The complete reader refuses a file cut short anywhere before its attached data, and both readers refuse an unknown version, an unknown optimisation level, or (Poppy format) a false positive probability outside ]0;1]; a filter that the complete reader accepted can be queried, written and inserted into without panicking.',
 ['inputs'],'all byte strings up to the bound, all header field values, all truncation points',
 'No test reads a malformed file.',
 [B,V1,V2,UT,VE],[('read_exact/`?` on every field','v1.rs/v2.rs from_reader_with_flags'),('version and opt-level checks','bloom.rs from_reader, Flags::from_bytes'),('fpp range check','v2.rs from_reader_with_flags')],
 observe=['result of from_reader / partial_from_reader','panics and allocation sizes'])

p('C09','Capacity is enforced and the element count is exact under insertion',
 'While a filter holds fewer elements than its capacity, inserting a value adds one to its element count exactly when insertion reports it as new and otherwise leaves count and filter bits alone. Once the count has reached or passed the capacity the filter reports itself full, refuses every value that would set a new bit with an error and without changing anything, and still accepts values already present; a filter of capacity zero refuses everything.',
 ['inputs','histories','configurations'],'all filter contents, counts and capacities (also counts left by merging or read from a file), all values',
 'One test fills a five-element filter with fixed words; being exactly one past the limit, or past it after a merge, is not tested.',
 [B,V1,V2],[('count/capacity comparison before the first new bit','v1.rs insert_bytes, v2.rs insert_iter'),('is_full','v1.rs, v2.rs')],
 observe=['insert_bytes result','count_estimate','is_full','serialized form'])

p('C10','Clearing a filter empties it completely',
 'After clearing, a filter is indistinguishable from a newly created one with the same parameters: no value that a new filter would report absent is reported present, its element count is zero, it can be filled to capacity again, and apart from attached data its serialized form is that of the new filter.',
 ['inputs','histories','configurations'],'all filter contents and counts, both formats, all optimisation levels',
 'One v1 test clears two words; the v2 implementation of clear is not tested at all.',
 [V1,V2,AR,VE],[('zeroing of all bit storage and the count','clear in v1.rs, v2.rs, bitset')],
 observe=['contains_bytes','count_estimate','serialized form'])

p('C11','DCSO format compatibility: positions and byte layout',
 'In DCSO format, a value sets exactly the positions given by the DCSO algorithm (64-bit FNV-1 of the bytes, reduced modulo the prime 18446744073709551557, then k times: multiply by 18446744073709550147 modulo 2^64, reduce modulo the prime, take modulo the number of bits), and the file is the DCSO layout: little-endian flags, n, p, k, m, N, the bit words, then attached data.',
 ['inputs','configurations'],'all values up to the length bound, all (k, m) of the configurations, all header values',
 'Three fixed strings and one small file are compared; an error for one residue of the input length, or for hashes above the prime, does not show.',
 [V1,FNV,B],[('Fingerprint iterator','v1.rs Fingerprint'),('FNV-1','fnv.rs Fnv1Hasher::write'),('layout','v1.rs write / from_reader_with_flags')],
 observe=['serialized form after inserting a value'])

p('C12','Poppy format stability: positions and byte layout',
 'In Poppy format, the bucket, the positions inside the bucket and the index cache bit of a value are a fixed function of its bytes, the number of buckets and the number of hashes: values of at most 8 bytes seed it with their zero-padded little-endian integer, longer ones with their seeded 64-bit WyHash; the bucket comes from the xorshift* of the seed, positions from enhanced double hashing modulo 32768. The file layout (little-endian flags, capacity, fpp, hashes, count, cache bits, cache, bucket count, buckets of 4096 bytes, data) is fixed as well, so filters written by any version of the library remain readable.',
 ['inputs','configurations'],'all values up to the length bound, all seeds, all bucket counts and hash counts of the configurations',
 'The tests only look values up with the code that inserted them, so a consistent change of the mapping passes while every existing file silently loses its entries.',
 [V2,H,WY,AR,VE],[('IndexIterator','v2.rs IndexIterator::next, bucket_hash'),('PoppyHash for byte strings','hash.rs'),('layout','v2.rs write / from_reader_with_flags')],
 observe=['serialized form after inserting a value'])

p('C13','A value is the same value through every entry point',
 'A byte string inserted as slice, string, owned string, byte vector, through the bulk-fill call, through a prepared (hash once) iterator or through the common or format-specific filter type sets the same bits and is found through every one of the lookup entry points. A prepared iterator can be used any number of times on any number of filters, and one that was never initialised from data is refused with an error, changing nothing.',
 ['inputs','programs'],'all values up to the length bound, all pairs of entry points',
 'Tests pair few entry points on few words; the lengths around the 8 byte limit and prepared iterators shared between filters are not covered.',
 [B,V2,H],[('PoppyHash implementations delegate to the slice one','hash.rs'),('build_index_iter / insert_iter / contains_iter','v2.rs'),('fill','bloom.rs')],
 observe=['contains*/insert* results','serialized form'])

p('C14','Bitset operations have set semantics',
 'Setting, unsetting and reading a bit of either bitset type affects and reports exactly that bit and returns its previous value; counts of ones and zeros add up to the length; union, intersection, common-count and clear act bit by bit on exactly the bits present; out-of-range indexes and mismatched lengths panic instead of corrupting anything.',
 ['inputs'],'all contents, all indexes, all lengths up to the bound',
 'One test sets every bit of one bucket in ascending order; unsetting, counting, union and intersection on their own are not tested.',
 [AR,VE],[('byte index / bit mask','set_value_nth_bit, get_nth_bit'),('loops over all bytes','union, intersection, count_*')],
 observe=['get_nth_bit, as_slice, counters'])

p('C15','Creation validates parameters and reports them faithfully',
 'Creating a filter succeeds exactly for a false positive probability that is a positive normal number not above 1, version 1 or 2 and optimisation level 0 to 3, and otherwise returns the corresponding error; a created filter is empty, reports the version, capacity and fpp it was asked for through every constructor, and its reported size in bytes is the size of its bit storage.',
 ['inputs','configurations'],'all fpp bit patterns, all version and opt-level bytes, the sample capacities',
 'Tests construct filters with a handful of valid parameters; NaN, infinities, subnormals, negative values and most version/opt bytes are never tried, and the DCSO size is not checked.',
 [B,V1,V2,BU],[('range check on fpp','v1.rs with_capacity, v2.rs make'),('OptLevel::try_from, version match','bloom.rs')],
 observe=['constructor results','accessors'])

p('C16','Merged element count follows the standard estimator',
 'After a union or intersection the element count equals the standard Bloom estimate computed from the number of set bits and the number of hash functions (per bucket and rounded down, summed over buckets in Poppy format), and the count of common entries is that estimate of the bits in common, symmetric in its arguments. Neither ever panics, whatever the fill of the filters.',
 ['inputs','histories'],'all filter contents within the bound, including saturated buckets',
 'Tests check two tiny merges whose estimate happens to be exact.',
 [V1,V2],[('update_count','v1.rs, v2.rs'),('count_common_entries','v1.rs, v2.rs')],
 observe=['count_estimate','count_common_entries'])

p('C17','Command line: every line of every input file ends up in the filter',
 'After `poppy create` or `poppy insert` succeeds, the written filter contains every line of every given file (and of standard input when used) together with everything it contained before, whatever the number of files, how they are split among jobs (including 0 jobs) and the order in which the jobs run. `create` from a dataset makes a filter whose capacity is the number of lines.',
 ['inputs','schedules','configurations'],'all file contents within the bound, all job counts and numbers of files within the bound',
 'There is no test of the command line at all.',
 [CLI,B,V1,V2],[('chunking of files among jobs, per-job copies, union at the end','poppy.rs parallel_insert'),('line counting','poppy.rs count_lines_parallel')],
 observe=['filter file after the command','exit status'])

p('C18','Command line: check prints exactly the contained lines',
 '`poppy check` prints exactly those input lines the filter contains, each as often as it occurs, for standard input and for files and for every job count including 0; with the verify option it prints exactly the lines that are not contained (marked `NOK`), and with the silent option nothing. It never changes the filter file.',
 ['inputs','schedules','configurations'],'all line contents within the bound, all option combinations, job counts and numbers of files within the bound',
 'There is no test of the command line at all.',
 [CLI],[('check loop over stdin and over batches of files','poppy.rs main, Command::Check')],
 observe=['standard output','exit status'])

p('C19','Command line: a failing create or insert leaves files as they were',
 'When `poppy create` or `poppy insert` fails because an input is missing or unreadable, the parameters are invalid, or an insertion is refused for lack of capacity, it comes to an end with a failure status and without panicking, and the filter file is byte for byte what it was before. `poppy create` refuses to overwrite an existing file that is not a filter.',
 ['fault_sequences','inputs','configurations'],'all failing commands within the bound, all previous contents of the output file within the bound',
 'There is no test of the command line at all.',
 [CLI],[('output file is created only after all insertions succeeded','poppy.rs main'),('validity check of an existing output file','poppy.rs Command::Create')],
 observe=['file contents','exit status'])

p('C20','Python binding: operations have the meaning of the Rust library',
 'Every Python-level operation (construct, insert, query, merge, count, save/dumps, load/loads and the properties) gives the result the Rust library gives for the same arguments: values inserted as bytes or str are found as either, loads(dumps(f)) and load(save(f)) restore f, and every library error surfaces as a Python exception.',
 ['inputs','programs'],'all byte/str values within the bound, all constructor arguments of the sample configurations, all error cases',
 'There is no test of the Python binding at all.',
 [PY,B],[('delegation to the library','python/src/lib.rs')],
 observe=['results and errors of the binding methods'])

p('C21','Byte sizes compare, hash and convert consistently',
 'Two byte sizes are equal, ordered and hashed according to the number of bytes they denote whichever unit they are kept in; conversion to bytes is lossless, the displayed unit is the largest not exceeding the size, and conversions never overflow or panic.',
 ['inputs'],'all usize values',
 'Byte sizes are only used to print, never checked.',
 [UT],[('ByteSize','poppy/src/utils.rs')],
 observe=['in_bytes, ==, <, hash, in_unit, in_mb, Display'])

p('C22','The false positive rate stays within the requested probability',
 'For entries that were never inserted, a Poppy-format filter filled up to its capacity answers lookups with true at a rate not above the requested false positive probability (up to statistical tolerance).',
 ['inputs','configurations'],'all data sets and configurations',
 'Statistical property; the only test of it is disabled in debug builds.',
 [V2,BU],[('bucket capacity and hash count from fpp','v2.rs make, bloom/utils.rs')],
 observe=['rate of true answers'])

p('C23','Command line: show prints the stored parameters',
 '`poppy show` prints the name of the file and then, one per line and in this order, version, capacity, number of elements, false positive probability, size of the attached data and size of the filter exactly as stored in the file (sizes with one decimal in the largest unit not exceeding them). It succeeds for every well-formed filter of either format and touches no file.',
 ['inputs','configurations'],'all filter contents, all counts and capacities within the bound, several false positive probabilities and sizes of attached data, both formats',
 'No test runs the command line program.',
 [CLI,B,UT],[('show_bf_properties','poppy.rs'),('metadata-only reader','bloom.rs partial_from_reader')],
 observe=['standard output','exit status'])

p('C24','Command line: bench refuses filters that do not fit the data set',
 '`poppy bench` on a filter file fails exactly when some entry of the data set given on standard input is not contained in the filter, or when the false positive rate it measures exceeds the rate of the filter by more than the tolerance. It never changes the filter file.',
 ['inputs','histories'],'all contents of a small filter, several data sets, rates and tolerances',
 'No test runs the command line program.',
 [CLI,UT],[('every entry must be contained','poppy.rs Command::Bench'),('average false positive rate against the tolerance','poppy.rs Command::Bench')],
 observe=['exit status','filter file'])

p('C25','Statistics and timing helpers count every event',
 'The statistics helper counts every reported outcome once in its total, and its false positive rate is the number of false positives among the false positives and true negatives reported. The timing helpers call the measured function exactly as often as asked for (at least once) and report a duration no longer than the whole measurement took.',
 ['histories'],'all sequences of outcomes and all numbers of runs up to the bound',
 'The only test of the timing helper looks at a duration; the statistics are not tested.',
 [UT],[('Stats','utils.rs'),('benchmark, time_it_once','utils.rs')],
 observe=['total','fp_rate','number of calls','returned duration'])
p('C26','Inspecting a filter reports exactly what it stores',
 'The numbers of set and unset bits reported by a filter of either format are those of its stored bit array (the index cache left out), and together they make up its size. A DCSO filter lists exactly its bits in order and reports the number of bits, words and hash functions it is stored with, and inspecting it changes nothing. Its estimated false positive probability is zero when empty, never decreases as the count grows, and is about the requested one at capacity.',
 ['states'],'all contents of the bit array, in windows for the counting; all parameter sets',
 'No existing test calls these accessors.',
 [V1,V2],[('bits, count_ones, count_zeros, estimated_p','bloom/v1.rs'),('count_ones, count_zeros','bloom/v2.rs')],
 observe=['bits','count_ones','count_zeros','n_bits','n_hash_fn','size_in_u64','estimated_p'])

