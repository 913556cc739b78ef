#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed='none')))
L = 'lib/bup/'
p('C01', 'Saved file content reads back byte for byte',
  'Whatever sequence of chunks and split levels a file is divided into, the stored blob or tree of chunks reads back as exactly the original bytes, in order, both sequentially and through any combination of seeks and partial reads, and the reported size is the exact length. Every stored chunk tree lists its chunks in file order under names giving their exact offsets within that tree.',
  ['inputs'], 'every sequence of chunk sizes and levels, every sequence of seek/read requests',
  'Tests store a few fixed files; the tree shape depends on the chunk/level sequence and the reader on offset arithmetic against it, so off-by-one errors need particular shapes.',
  [L+'hashsplit.py', L+'vfs.py'],
  [('chunk tree construction', 'hashsplit.split_to_blob_or_tree/_squish/_make_shalist'), ('file reader', 'vfs._FileReader/_ChunkReader/_tree_chunks'), ('size', 'vfs._normal_or_chunked_file_size'), ('join', 'vfs.join')],
  'tree and blob objects handed to the repository; bytes returned by fopen/read/seek/join')
p('C02', 'Content splitting depends only on the content',
  'Splitting a stream yields consecutive, non-empty pieces whose concatenation is exactly the stream, each no longer than the documented maximum, whatever sizes the underlying reads return. The piece boundaries and their levels are determined by the bytes alone: a boundary falls where the rolling checksum of the preceding window has its low bits all set (or at the maximum size), and the level counts the further set bits.',
  ['inputs'], 'every content and every division of it into read() results, within the stated bounds',
  'Tests sample random data with a few seeds and read sizes; deduplication silently degrades or bytes are lost only for particular alignments of reads with boundaries.',
  [L+'_hashsplit.c', L+'bupsplit.c', L+'bupsplit.h'],
  [('rolling checksum', 'bupsplit.h rollsum_roll/rollsum_digest'), ('splitter', '_hashsplit.c HashSplitter_iternext'), ('record splitter', '_hashsplit.c RecordHashSplitter')],
  'pieces and levels yielded by the splitter')
p('C03', 'Git tree objects are canonical and decode to what was encoded',
  'Encoding any list of (mode, name, object id) entries produces a git tree object whose entries are in git order (directories compare as if their name ended in a slash) with modes in canonical octal, and every decoder of tree data (full listing, iteration, single-name lookup, last entry) returns exactly the entries that were encoded.',
  ['inputs'], 'every entry list up to the bound, arbitrary names (no NUL), modes and ids',
  'Sort-order corner cases involve names that are prefixes of each other combined with kinds; ids may contain any byte including NUL and space, which confuse lax parsers.',
  [L+'git.py'],
  [('encode', 'git.tree_encode/shalist_item_sort_key'), ('decode', 'git.tree_entries/tree_iter/find_tree_entry/last_tree_entry')],
  'bytes of the tree object; decoded entries')
p('C04', 'Pack index lookup finds every object and nothing else',
  'For every set of objects written in a pack, the written pack index lists each object sorted by id exactly once with its offset and checksum, and looking an object up through any supported index version succeeds exactly for the objects in the set, returning the right offset (including offsets over 2 GiB), and the listing yields them all.',
  ['inputs'], 'every set of object ids up to the bound, every probed id, offsets up to 64 bits',
  'Tests use small random packs; fanout edges (ids sharing or skipping first bytes, 0x00 and 0xff, neighbours of absent ids) and 64-bit offsets are not reached.',
  [L+'git.py', L+'_helpers.c'],
  [('index writer', '_helpers.c write_idx; git.PackIdxV2Writer'), ('lookup', 'git.PackIdxV1/PackIdxV2/open_idx')],
  'idx file bytes; exists()/find_offset()/iteration results')
p('C05', 'A multi-pack index answers like the union of its pack indexes',
  'The merged index built from any collection of pack indexes contains exactly the object ids of those indexes in sorted order (an id once for each index that lists it) with a correct prefix lookup table and correct source attribution, and a lookup in it succeeds exactly for ids in that union, naming an index that contains the id.',
  ['inputs'], 'every small collection of id sets (including overlaps), every probed id, every table width',
  'Lookup uses interpolation search whose step depends on the id values; only specific value distributions expose a probe that skips its target.',
  [L+'midx.py', L+'_helpers.c', L+'cmd/midx.py'],
  [('merge', '_helpers.c merge_into'), ('lookup', 'midx.PackMidx.exists')],
  'midx bytes; exists() results')
p('C06', 'The bloom filter never denies an object that was added',
  'After any ids are added to a filter of any supported size and hash count, each of them is reported as possibly present (also after the filter is closed and reopened), and adding never disturbs anything outside the filter bits.',
  ['inputs'], 'every id pair, both hash counts, each supported size within the bound',
  'A false negative needs an id whose bit positions hit a boundary of the addressing arithmetic; random tests with few ids rarely do.',
  [L+'bloom.py', L+'_helpers.c'],
  [('bit addressing', '_helpers.c to_bloom_address_bitmask4/5, bloom_set_bit, bloom_get_bit'), ('file', 'bloom.BloomWriter/BloomReader')],
  'exists() results and bytes of the filter')
p('C07', 'Variable-length binary records decode to what was encoded',
  'Every unsigned and signed integer, byte vector and typed record written in the variable-length encoding decodes to the same values and consumes exactly the bytes written, identically through the native and the fallback encoder; skipping a record consumes exactly that record.',
  ['inputs'], 'all integers up to the bounded width, byte vectors up to the bound, sequences of typed fields',
  'Tests use a handful of values; errors sit at byte-length boundaries of the encoding and at sign changes.',
  [L+'vint.py', L+'_helpers.c'],
  [('python codec', 'vint.write_vuint/read_vuint/write_vint/read_vint/write_bvec/read_bvec/skip_*'), ('packing', 'vint.pack/unpack/send/recv'), ('native codec', '_helpers.c bup_vuint_encode/bup_vint_encode/bup_limited_vint_pack')],
  'encoded bytes and decoded values')
p('C08', 'File metadata survives encoding',
  'Metadata recorded for any path (mode, owner and group ids and names, device, timestamps before and after 1970, size, link target, hard link target, attributes, ACLs, extended attributes) decodes to equal values (an empty optional field counts as absent, an empty default ACL as none), and a decoder skips record kinds it does not know without disturbing the rest; an all-empty entry decodes as empty, a truncated stream is never taken for a complete entry, and the metadata kept for index entries is given back unchanged.',
  ['inputs'], 'arbitrary values of every field within bounded widths; arbitrary unknown records',
  'Tests round-trip metadata of the files in the test tree only: small ids, current times, no unknown tags, no truncation points.',
  [L+'metadata.py', L+'vint.py'],
  [('encode/decode', 'metadata.Metadata.write/read/encode'), ('records', '_encode_common/_load_common_rec etc.')],
  'decoded fields of the metadata')
p('C09', 'The filesystem index lists exactly the recorded entries in order',
  'Writing any set of entries to an index and reading it back yields each entry once with unchanged stat fields, flags and object id, in the documented order (directory contents before the directory); merging several index sources yields each path once, where an entry that is not up to date wins over one marked as saved and a real entry over a placeholder; a change made to one entry in place changes only it and un-validates its parents; and a lookup under a prefix returns exactly the entries under it.',
  ['inputs', 'histories'], 'entry sets up to the bound with arbitrary names and stat values, pairs of overlapping sources',
  'Orderings where one name is a prefix of another, negative or large timestamps, and deletions combined with re-additions are not sampled.',
  [L+'index.py'],
  [('entry codec', 'index.Entry.packed/ExistingEntry'), ('ordering', 'index.Level/Writer'), ('merge', 'index.merge/Reader.filter')],
  'entries yielded by the reader')
p('C10', 'A changed file is never treated as already saved',
  'When a recorded path is indexed again and its size, modification time, change time, inode, link count or (unless that check is disabled) device differs from what was recorded, or its recorded state is deleted or has no saved content, or its change time was not safely older than the start of the run that recorded it, the index marks it (and every directory above it) as needing to be saved again and records its current attributes; when nothing differs, its recorded content is kept valid. Paths that are gone are marked deleted, paths elsewhere are untouched, and the hard link records name exactly the existing multiply linked files.',
  ['inputs', 'histories'], 'all pairs of recorded and current attribute values',
  'Tests change one attribute at a time by seconds; sub-second differences, clamped values and combinations are not sampled.',
  [L+'index.py', L+'cmd/index.py'],
  [('staleness', 'index.ExistingEntry.stale/update_from_stat'), ('update loop', 'cmd/index.update_index')],
  'validity flag and content id of the index entry after update')
p('C11', 'Extracting an archive never writes outside the destination',
  'Extracting a metadata archive only creates, modifies or applies attributes to paths strictly relative to and below the extraction directory: an archived path that is absolute or contains parent references is either refused or mapped to a path inside it, for every byte sequence the archive may contain.',
  ['inputs'], 'every archived path up to the bound, including ".", "..", repeated and trailing slashes',
  'Tests try a few literal paths; the cleanup is textual, so escapes need specific combinations of dots and slashes.',
  [L+'metadata.py'],
  [('path cleanup', 'metadata._clean_up_extract_path/_risky_path'), ('extract', 'metadata.start_extract/finish_extract/extract')],
  'paths passed to filesystem-modifying calls')
p('C12', 'Stored names are mangled reversibly and never collide',
  'Mangling any file name for storage and demangling it gives back the same name and the right kind (plain, directory or chunked file), two distinct items never receive the same stored name, and stored names never collide with the names reserved for metadata and split directories.',
  ['inputs'], 'every name up to the bound and every kind of item',
  'Collisions need names that already end in the suffixes used for mangling, nested to some depth.',
  [L+'git.py'],
  [('mangling', 'git.mangle_name/demangle_name')],
  'mangled names, demangled names and kinds')
p('C13', 'Virtual filesystem paths resolve like a POSIX filesystem',
  'Resolving a path through a saved tree follows dots, parent references, repeated and trailing slashes and symbolic links (relative and absolute, in the middle or at the end of the path) to the same item a POSIX path walk rooted at the virtual root would reach, or fails with the same class of error (missing, not a directory, too many links).',
  ['inputs'], 'all paths of up to 4 segments over trees with links of up to 3 segments',
  'Tests resolve a fixed set of paths in one sample tree; interactions of links with remaining path segments are combinatorial.',
  [L+'vfs.py'],
  [('resolution', 'vfs._resolve_path/_decompose_path/try_resolve')],
  'resolved item or error')
p('C14', 'Printed shell quoting restores the original bytes',
  'Any byte string quoted for display or for a shell command is a single shell word that a POSIX shell reads back as exactly the original bytes and prints on one line; the archive listing\'s octal quoting and the argument quoting and splitting used for completion round-trip as well.',
  ['inputs'], 'every byte string up to the bound',
  'Quoting mode is chosen per byte class and combinations (quote, backslash, control, high bytes adjacent) are exponential.',
  [L+'io.py', L+'shquote.py', L+'helpers.py'],
  [('enc_sh', 'io.enc_sh/enc_dsq/enc_dsqs/enc_shs'), ('quotify', 'shquote.quotify_list/quotesplit')],
  'quoted bytes and their reading by a POSIX word parser')
p('C15', 'A multiplexed connection delivers the stream intact',
  'Data sent over a multiplexed connection arrives complete and in order, error-channel data is delivered separately and never mixed into it, and the end of stream is seen exactly once, whatever sizes the pieces and the underlying reads have; line and sized reads on connections return exactly the requested bytes.',
  ['schedules', 'inputs'], 'every interleaving and fragmentation of up to a bounded number of packets',
  'Fragmentation of headers and payloads across reads depends on the network; tests deliver whole packets.',
  [L+'helpers.py', L+'cmd/mux.py', L+'cmd/demux.py'],
  [('demux', 'helpers.DemuxConn'), ('mux', 'helpers.mux'), ('conn', 'helpers.BaseConn/Conn')],
  'bytes read from the connection')
p('C16', 'Remote query results and errors arrive unchanged',
  'Every request a client makes of a server (path resolution, configuration values, references and their update, object content, revision lists, index lists and files) reaches the server with the arguments given, and its result or error is received with identical contents: items with their kind, ids, metadata or mode, link targets and names, missing leaves, error number, message and terminus, values with their type, every chunk of content, missing objects as missing. Each message consumes exactly its own bytes, and the connection is ready for the next request afterwards.',
  ['inputs'], 'every item kind and request, arbitrary ids, names, modes, values and content within bounds',
  'Tests compare local and remote for one sample repository.',
  [L+'protocol.py', L+'client.py', L+'vint.py', L+'metadata.py'],
  [('codec', 'protocol.write_item/read_item/write_resolution/read_resolution/write_ioerror/read_ioerror'), ('client', 'client.Client'), ('server', 'protocol.Server')],
  'values received by the server and by the client')
p('C17', 'Pruning keeps exactly the saves the retention policy promises',
  'For every history of saves with non-decreasing dates and every combination of keep periods, pruning keeps every save within the keep-all period, and for older ones the newest save of each distinct calendar day, month or year within the respective period not already covered by a finer one, and drops only the others; saves newer than the reference time are always kept.',
  ['histories', 'configurations'], 'all histories of up to 5 saves over several years, all combinations of periods',
  'Tests use randomly generated histories; saves falling on the same day-of-year or month of different years with nothing between are rare.',
  [L+'cmd/prune_older.py', L+'helpers.py'],
  [('classification', 'cmd/prune_older.classify_saves'), ('periods', 'helpers.period_as_secs')],
  'list of kept and dropped saves')
p('C18', 'Garbage collection never loses a reachable object',
  'At every moment during a garbage collection, whatever the packs and references are and wherever the process is interrupted, every object reachable from a reference is present in some finished pack; unreachable trees and commits are gone after a completed run.',
  ['crash_points', 'histories', 'configurations'], 'all small object graphs, pack distributions (with duplicates), thresholds and interruption points',
  'Tests check end states of complete runs on one history.',
  [L+'gc.py', L+'git.py', L+'bloom.py'],
  [('mark', 'gc.find_live_objects; git.walk_object'), ('sweep', 'gc.sweep')],
  'pack files present after each filesystem effect')
p('C19', 'Removing saves leaves every other save intact and in order',
  'Removing any set of saves or branches leaves all the other saves of those branches in their original order with the same tree, author, committer, dates and message, leaves other branches untouched, refuses (changing nothing) when any requested path is invalid, and moves each reference only after the rewritten history is stored.',
  ['inputs', 'fault_sequences'], 'all branches up to the bound, all subsets removed, any failing step',
  'Tests remove a few fixed positions.',
  [L+'rm.py'],
  [('filter', 'rm.filter_branch/append_commit'), ('validation', 'rm.dead_items'), ('update', 'rm.bup_rm')],
  'resulting commit chain and reference updates')
p('C20', 'A published pack or reference never points at missing data',
  'At every crash point while objects are written, a pack index only becomes visible after its complete pack file is durably in place, and a reference is only updated after every object written before it is in a finished, indexed pack; an aborted or failed write publishes nothing.',
  ['crash_points', 'fault_sequences', 'configurations'], 'every interruption point and failing call in the pack publishing and reference updating sequence, with unsynced data possibly lost',
  'Crash and loss of unsynced data cannot be produced by the tests.',
  [L+'git.py', L+'repo/local.py', L+'helpers.py'],
  [('publish', 'git.LocalPackStore.finish_pack'), ('ref order', 'repo.local.LocalRepo.update_ref')],
  'sequence of filesystem effects')
p('C21', 'Atomic file replacement keeps the old or the complete new file',
  'Replacing a file atomically leaves, at every crash point and on any failure, either the previous file unchanged or the complete new content under the target name; on failure no temporary file is left behind and the error is reported.',
  ['crash_points', 'fault_sequences'], 'every interruption point and failing call',
  'Crash points cannot be produced by the tests.',
  [L+'helpers.py'],
  [('replace', 'helpers.atomically_replaced_file')],
  'state of the target and temporary files')
p('C22', 'A saved directory pairs every entry with its own metadata',
  'For every directory that is saved, whatever names, kinds and directory splitting, listing the stored directory yields exactly the saved names, each with its own object, kind and metadata, and the directory\'s own metadata; the same holds when only some names are requested.',
  ['inputs', 'configurations'], 'all directories up to the bound with arbitrary names and kinds, split and unsplit, full and partial listing',
  'Pairing relies on two different sort orders agreeing; only names that are prefixes of each other or that get mangled expose a shift.',
  [L+'tree.py', L+'vfs.py', L+'git.py'],
  [('store', 'tree.Stack/StackDir, _dir_metadata, _write_split_tree'), ('list', 'vfs.tree_items/_tree_items_except_dot/_split_subtree_items')],
  'names, ids, modes and metadata listed')
p('C23', 'Sparse restore writes identical content',
  'Writing any data sparsely, in any division into blocks and whatever the carried-over hole length, results in a file whose content and length are exactly the data.',
  ['inputs', 'schedules'], 'all data up to the bound, all divisions into writes, all hole thresholds, partial writes',
  'Bugs need zero runs straddling write boundaries at particular offsets.',
  [L+'_helpers.c', L+'cmd/restore.py'],
  [('hole detection', '_helpers.c bup_write_sparsely/append_sparse_region/find_non_sparse_end'), ('driver', 'cmd/restore.write_file_content_sparsely')],
  'content of the written file')
p('C24', 'The hard link table maps inodes to exactly their current paths',
  'After any sequence of adding, changing and deleting paths, also after saving and reloading, the hard link table lists for each inode exactly the paths currently recorded for it and nothing for the others.',
  ['histories'], 'all histories of up to 4 operations over few paths and inodes',
  'Tests run two fixed histories.',
  [L+'hlinkdb.py'],
  [('table', 'hlinkdb.HLinkDB.add_path/del_path/node_paths/prepare_save/commit_save')],
  'paths reported for an inode')
p('C25', 'Path stripping and grafting maps paths component-wise',
  'Stripping prefixes and grafting old to new paths rewrites a saved path exactly when the prefix is a whole-component ancestor of it, choosing the longest applicable strip prefix, and otherwise leaves the path alone; the resulting components spell the mapped path and pair each with the corresponding filesystem directory or none.',
  ['inputs'], 'all paths and prefixes up to the bound',
  'Tests use a few literal paths; sibling directories sharing a name prefix are not sampled.',
  [L+'helpers.py'],
  [('mapping', 'helpers.path_components/stripped_path_components/grafted_path_components')],
  'list of archive components with filesystem paths')
p('C26', 'Commits decode to what was recorded',
  'A commit recorded with any tree, parent, identities, dates, time zone offsets and message decodes to the same values, and appears to git as a well-formed commit.',
  ['inputs'], 'arbitrary ids, dates, offsets in minutes and messages up to the bound',
  'Tests parse a couple of commits; negative and fractional-hour offsets and messages that look like headers are not sampled.',
  [L+'commit.py', L+'git.py'],
  [('encode', 'commit.create_commit_blob'), ('decode', 'commit.parse_commit')],
  'decoded commit fields')
p('C27', 'Repository URLs are interpreted and rendered consistently',
  'Rendering any valid repository location as a URL and parsing it gives the same location (scheme, user, host, port, path), and parsing never attributes bytes of one component to another.',
  ['inputs'], 'all component strings up to the bound',
  'Percent encoding and delimiter handling interact combinatorially.',
  [L+'url.py'],
  [('render', 'url.render_url'), ('parse', 'url.parse_path_oriented_url')],
  'parsed URL fields')
p('C28', 'Sizes, periods and dates given by the user are read exactly',
  'Every documented size, keep-period and date argument is converted to exactly the documented number, and malformed arguments are rejected rather than misread.',
  ['inputs'], 'all argument strings up to the bound',
  'Tests check a few literals.',
  [L+'helpers.py'],
  [('sizes', 'helpers.parse_num'), ('periods', 'helpers.period_as_secs'), ('dates', 'helpers.parse_date_or_fatal/parse_date_arg')],
  'returned number or error')
p('C29', 'File timestamps keep nanosecond precision in every conversion',
  'Converting any file timestamp, including ones before 1970, between nanoseconds, seconds-and-nanoseconds pairs, index records and printed form loses nothing and never changes its value or its sign.',
  ['inputs'], 'all 64-bit nanosecond timestamps',
  'Negative times with fractions are not sampled.',
  [L+'xstat.py', L+'index.py', L+'metadata.py'],
  [('conversion', 'xstat.timespec_to_nsecs/nsecs_to_timespec/fstime_*')],
  'converted values')
p('C30', 'Excluded paths, and only those, are skipped',
  'A path below the requested roots is skipped when indexing exactly when it is an excluded path, lies below one, it or a directory above it matches an exclusion pattern, it is the repository or, when restricted to one filesystem, lies below a directory on another one that is not excepted; every other path is visited exactly once with children before their directory, overlapping roots once, and the exclusions are exactly the ones the options and their files give.',
  ['inputs', 'configurations'], 'all small directory trees and exclusion sets',
  'Exclusions are prefixes of siblings only in special trees.',
  [L+'drecurse.py', L+'helpers.py'],
  [('walk', 'drecurse.recursive_dirlist'), ('rules', 'helpers.should_rx_exclude_path/parse_excludes/parse_rx_excludes'), ('roots', 'index.reduce_paths')],
  'paths yielded')
p('C31', 'Merging sorted sequences yields each distinct element once, in order',
  'Merging any number of sorted sequences yields every distinct element exactly once in sorted order, whatever the elements are and wherever the duplicates lie; when elements count as the same by their key, the one given is one that no other element of that key sorts before.',
  ['inputs'], 'all families of up to 3 sequences of up to 3 elements',
  'Duplicates within and across sequences at their ends are not sampled.',
  [L+'helpers.py', L+'git.py'],
  [('merge', 'helpers.merge_iter')],
  'merged sequence')
p('C32', 'An object is only reported as present when some pack has it',
  'Whatever combination of pack indexes, multi-pack indexes and bloom filter (complete, partial or stale) is in a pack directory, and whatever was looked up before, an object is only reported present when an available pack index lists it (with that pack and its offset there when they are requested), so nothing missing is ever considered already saved; and it is always found unless the bloom filter still holds entries of removed packs.',
  ['configurations', 'histories'], 'all small combinations of index files and their coverage, before and after a refresh',
  'Stale or partially covering caches arise only from particular sequences of operations.',
  [L+'git.py'],
  [('lookup', 'git.PackIdxList.exists/refresh')],
  'answer of the lookup')
p('C33', 'The server stores exactly the objects it acknowledges',
  'Every object a client sends is either stored with exactly the received bytes or already present, an object damaged in transit is rejected and nothing of that pack is published, and after a suspension or completion both sides agree on what is stored.',
  ['inputs', 'fault_sequences', 'histories'], 'all sequences of up to 3 objects with arbitrary presence, damage and suspension',
  'Tests do not damage or truncate transfers.',
  [L+'protocol.py', L+'client.py', L+'git.py'],
  [('receive', 'protocol.Server.receive_objects_v2'), ('send', 'client.RemotePackStore.write')],
  'objects in the store, protocol replies')
p('C34', 'Checking packs reports any damage in its exit status',
  'A repository check exits with success only when every pack checked (or repaired or protected) is fine, with the documented informational status when repairs succeeded, and with an error whenever any pack is bad, in any order of packs and with any number of parallel jobs.',
  ['configurations', 'schedules'], 'all result sequences of up to 3 packs, jobs on and off, all modes',
  'Tests need damaged packs and par2; combinations and orders are not sampled.',
  [L+'cmd/fsck.py'],
  [('status', 'cmd/fsck.main/merge_exits/do_pack/attempt_repair')],
  'exit status')
p('C35', 'Fetching between repositories only moves references as requested',
  'Transferring items between repositories copies every needed object, updates a branch only by fast-forward or append unless replacement is requested, never overwrites an existing tag unless forced, and preserves the transferred commits\' trees, dates and messages.',
  ['configurations', 'inputs'], 'all combinations of method, source kind and destination kind',
  'Tests enumerate many combinations but only over one sample history.',
  [L+'cmd/get.py'],
  [('methods', 'cmd/get.resolve_*/handle_*')],
  'reference updates performed')
p('C36', 'Accepted save names are valid git reference names',
  'Every name accepted for a save is a valid git reference name by the rules of git-check-ref-format (no control characters, space, ~ ^ : ? * [ or backslash, no double dot or slash, no leading dot or trailing dot, slash or .lock in any component, no @{ and not just @), and every name made of letters, digits, dashes and underscores is accepted.',
  ['inputs'], 'all names up to the bound',
  'Tests check literals.',
  [L+'git.py', L+'cmd/save.py', L+'cmd/split.py'],
  [('check', 'helpers.valid_save_name')],
  'acceptance of the name')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
