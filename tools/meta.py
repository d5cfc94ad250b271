#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the checks do not use it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, M, C = 'lazyfs/src/lazyfs.cpp', 'lazyfs/src/main.cpp', 'libs/libpcache/src/cache.cpp'
E, D, CF, FA = 'libs/libpcache/src/engine/backends/custom/custom_cache.cpp', 'libs/libpcache/src/item/data.cpp', 'libs/libpcache/src/config/config.cpp', 'libs/libpcache/src/faults.cpp'
PG = 'libs/libpcache/src/engine/page/page.cpp'
P = []
NOTE = 'Symbolic execution of the LLVM bitcode of the repository sources with Z3; holds for every value within the stated bounds; trusts the engine, the libc/libfuse/file-system models (cross-checked by native replays on the model and the kernel file system) and clang.'
def p(id, title, statement, over, text, why, files, mech, observe, level='model_checking', note=NOTE, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), _level=level, _note=note))
SIMPLE = 'The existing tests run a few fixed scripts (single sizes, aligned blocks, large caches); the property quantifies over '
p('C01', 'Reads return the latest written data, bounded by end of file',
  'A read of any range of an open file returns exactly the bytes of the latest writes and truncates to that file (zeros where nothing was written), cut at the current end of file, and never touches the caller\'s buffer beyond that range. Successful writes return the number of bytes given and successful truncates return 0. This holds whether the data is in the cache, only underlying, or partly in both.',
  ['inputs', 'histories'], 'every initial content, every history of writes, truncates, syncs, checkpoints, cache clears and reopens, every offset, length and byte value',
  SIMPLE + 'every offset/length/alignment and every order of operations.', [L, C, E, D, PG],
  [('read', L + ':lfs_read'), ('write', L + ':write_to_cache'), ('truncate', L + ':truncate_in_cache'), ('block lookup', C + ':get_data_blocks'), ('block store', E + ':allocate_blocks')], ['FUSE read/write/truncate results and buffers'],
  state=[dict(name='Item/Data/BlockInfo', meaning='per-inode cached blocks and readable ranges', where='libs/libpcache/include/cache/item'), dict(name='Page', meaning='page of several blocks with owner and dirty bits', where=PG)])
p('C02', 'Attributes show the size, type and link count the user should see',
  'Getting the attributes of a regular file always reports the size that its latest writes and truncates give it, even when none of that has reached the underlying file system, and reports its type and its number of names. A name that does not exist is reported as missing.',
  ['inputs', 'histories'], 'every history of data and namespace operations, every size and offset', SIMPLE + 'every history that moves the visible size away from the underlying one.', [L, C],
  [('getattr', L + ':lfs_getattr'), ('metadata update', C + ':update_content_metadata')], ['FUSE getattr'])
p('C03', 'Unsynced writes and truncates do not reach the underlying file system',
  'As long as the cache has room, data written and sizes set by truncate (also by opening with truncation) stay in the cache: before an fsync, fdatasync or checkpoint the underlying file keeps exactly the content and size it had. Closing, reopening and reading a file do not persist anything either.',
  ['inputs', 'histories', 'crash_points'], 'every history of writes, truncates, reads, closes and reopens without synchronisation; the underlying content is compared after every operation, i.e. at every crash point between operations', SIMPLE + 'every crash point: any leak of unsynced data to the underlying file between two operations.', [L, C, E],
  [('write', L + ':write_to_cache'), ('open', L + ':lfs_open'), ('truncate', L + ':truncate_in_cache'), ('release', L + ':lfs_release')], ['bytes and size of the underlying file after every operation'])
p('C04', 'fsync and fdatasync make the file durable, exactly',
  'After a successful fsync or fdatasync the underlying file holds exactly the visible content and size of that file, including holes, shrinks and rewrites, and reads keep returning the same content. It does so through any name and any open handle of the file.',
  ['inputs', 'histories', 'crash_points'], 'every history of writes, truncates and reopens around synchronisations', SIMPLE + 'every dirty-block pattern at the moment of the sync, and the underlying bytes after it.', [L, C, E],
  [('fsync', L + ':lfs_fsync'), ('flush', C + ':sync_owner'), ('page write-out', E + ':sync_pages')], ['underlying file after fsync'])
p('C05', 'Clearing the cache reverts every file to its persisted content',
  'After the clear-cache command every file shows, in content and size, exactly what the underlying file system holds, i.e. what was there or synchronised last; nothing synchronised is lost and nothing unsynced survives. The underlying files are not changed by it, and later operations work on that content.',
  ['inputs', 'histories', 'crash_points'], 'every history of writes, truncates, syncs and namespace operations before, between and after cache clears', SIMPLE + 'every cache state in which the command can arrive, and the operations after it.', [L, C, M],
  [('command', M + ':fht_worker'), ('clear', C + ':clear_all_cache'), ('lock', L + ':command_fault_clear_cache')], ['reads, getattr and underlying content after the command'])
p('C06', 'Failures of the underlying file system are reported and lose nothing',
  'When an underlying call fails (open, read, write, short write, truncate, sync, rename, unlink, link, stat, set-times), the operation that needed it reports an error instead of success. Data that was visible before stays visible, the failed namespace change has no effect, and an fsync repeated once the failure is gone makes the data durable.',
  ['fault_sequences', 'inputs'], 'every operation, every underlying call it makes chosen as the failing one, with and without dirty data, with a roomy and with an evicting cache', 'The tests never make an underlying call fail.', [L, C, E],
  [('fsync', C + ':sync_owner'), ('write', L + ':lfs_write'), ('read', L + ':lfs_read'), ('rename', L + ':lfs_rename'), ('unlink', L + ':lfs_unlink')], ['return codes, reads and underlying content'], level='model_checking')
p('C07', 'A cache checkpoint makes all unsynced data of all files durable',
  'After the cache-checkpoint command the underlying file of every existing name holds exactly the content and size visible through it. Visible contents do not change, and a cache clear after it loses nothing.',
  ['inputs', 'histories'], 'every history of writes, truncates, renames, links, unlinks, clears and checkpoints', SIMPLE + 'every cache state in which the command can arrive.', [L, C, M],
  [('checkpoint', C + ':full_checkpoint'), ('command', L + ':command_checkpoint')], ['underlying files after the command'])
p('C08', 'Rename moves a file with its cached data and replaces the target',
  'After a successful rename the new name shows exactly the content the old name had (synced or not), the old name is gone, and whatever the new name held before is no longer visible. Unsynced data of the moved file can still be synchronised through the new name, and a later file under the old name starts from its own content.',
  ['histories', 'inputs'], 'every history of writes, renames (also over existing names and over links of the same file), syncs, clears and creations over three names', SIMPLE + 'the combinations of cached and uncached sources and targets, repeated and swapped names.', [L, C],
  [('rename', L + ':lfs_rename'), ('cache rename', C + ':rename_item'), ('inode map', C + ':insert_inode_mapping')], ['reads, getattr and underlying files per name'])
p('C09', 'Hard links share one file; removed names leave the others intact',
  'All names of a file show the same content and size, whichever name or handle changed it; removing one name keeps the data, also unsynced, visible and synchronisable through the others. A name created again after its removal is a new empty file.',
  ['histories', 'inputs'], 'every history of creations, writes, links, unlinks, truncates and syncs over the names', SIMPLE + 'the order of linking, writing, removing and re-creating, in which cached data is attached to an inode and its names.', [L, C],
  [('link', L + ':lfs_link'), ('unlink', L + ':lfs_unlink'), ('create', L + ':lfs_create'), ('cache removal', C + ':remove_cached_item')], ['reads, getattr and underlying files per name'])
p('C10', 'Operations on one file never change another file',
  'Writing, truncating, synchronising, removing or creating one file changes neither the visible nor the persisted content of any other file. This includes files that share cache pages over time, such as a new file using the room of a removed one.',
  ['histories', 'inputs'], 'every history of data operations and removals over two and three files, with roomy and tiny caches', SIMPLE + 'the page reuse patterns through which one file\'s data could show up in another.', [L, C, E, PG],
  [('page allocation', E + ':allocate_blocks'), ('page release', E + ':remove_cached_blocks'), ('page ownership', PG)], ['reads and underlying files of the other names'])
p('C11', 'Without eviction, a full cache loses and corrupts nothing',
  'When the cache is too small for the data and eviction is off, every write still succeeds and reads return the latest data, whichever part is cached and whichever goes straight through. After an fsync the underlying file is complete and equal to the visible content.',
  ['inputs', 'histories', 'configurations'], 'caches of one to three pages with one or two blocks per page, two files, every history of writes, truncates, reads and syncs', 'The tests use caches that never fill up.', [L, C, E],
  [('allocation', E + ':allocate_blocks'), ('write-through', L + ':write_to_cache')], ['reads, getattr, underlying files'])
p('C12', 'LRU eviction writes dirty data out and loses nothing',
  'With eviction on, a cache that is too small gives up pages only after their unsynced data has been written to the file they belong to, so reads always return the latest data and fsync leaves the underlying file complete. Evicted data goes to its own place in its own file and nowhere else.',
  ['inputs', 'histories', 'configurations'], 'caches of one to two pages with one or two blocks per page, two files, every history of writes, truncates, reads and syncs', 'The tests never evict a page.', [L, C, E],
  [('eviction', E + ':apply_lru_eviction'), ('allocation', E + ':allocate_blocks')], ['reads, getattr, underlying files'])
p('C13', 'A torn-op fault persists exactly the selected parts and then crashes',
  'With a torn-op fault on a file, from the configuration or the command FIFO, the configured occurrence of a write to that file leaves exactly the selected parts of that write on the underlying file, in their places, and LazyFS dies at that write. Parts are equal with the remainder in the last one, or of the given byte sizes; if these do not add up to the write nothing is torn. Earlier writes, other files and other operations do not trigger it.',
  ['inputs', 'fault_sequences', 'configurations'], 'every selection of parts, both ways of giving them, occurrences, write offsets, lengths and bytes', 'The tests configure no fault.', [L, FA, CF, M],
  [('tear', L + ':split_write'), ('configuration', CF + ':load_config'), ('command', L + ':add_torn_op_fault'), ('validation', FA)], ['underlying file at the crash', 'signal the process sends itself'])
p('C14', 'A torn-seq fault persists exactly the selected writes and then crashes',
  'With a torn-seq fault on a file, the configured occurrence of a group of consecutive writes (not separated by an fsync or fdatasync of that file) leaves exactly the selected writes of the group on the underlying file and LazyFS dies after the last selected one. Groups of other files, and the fsyncs in between, are counted per file. Until then nothing reaches the underlying file.',
  ['inputs', 'fault_sequences', 'histories'], 'every history of writes, syncs and writes to another file, every selection, occurrence and byte', 'The tests configure no fault.', [L, FA, CF, M],
  [('sequence', L + ':persist_write'), ('counter', L + ':restart_counter'), ('pending first write', L + ':check_and_delete_pendingwrite')], ['underlying file after every write'])
p('C15', 'A configured clear-cache fault fires exactly once, at its occurrence and moment',
  'A clear-cache fault from the configuration clears the cache (or kills LazyFS, when crash is set) at exactly the configured occurrence of its operation on its path(s), before or after the operation as configured. All other operations, occurrences and paths go on undisturbed.',
  ['fault_sequences', 'histories'], 'all eleven operations, both moments, with and without crash, occurrences, and interleaved other operations and paths', 'The tests configure no fault.', [L, FA, CF],
  [('trigger', L + ':trigger_configured_clear_fault'), ('configuration', CF + ':load_config')], ['content of a bystander file, effect of the operation, signal'])
p('C16', 'A crash command kills LazyFS at the first matching operation and only there',
  'After a crash command for an operation, moment and path pattern(s), LazyFS dies at the first operation of that kind whose path(s) match, before or after its effect as requested. Operations that do not match continue normally, and unsynced data does not survive.',
  ['fault_sequences', 'histories'], 'all eleven operations, both moments, literal and pattern paths for one and two path operations, interleaved non-matching operations', 'The tests send no fault command.', [L, M],
  [('trigger', L + ':trigger_crash_fault'), ('registration', L + ':add_crash_fault'), ('command', M + ':fht_worker')], ['signal, effect of the operation, underlying content'])
p('C17', 'Malformed FIFO commands change nothing and valid ones are still obeyed',
  'The control FIFO takes commands line by line, however the bytes arrive. A line that is not a valid command (unknown, misspelt, incomplete, or with impossible parameters) injects no fault, changes no file and stops nothing. Valid commands before and after it are obeyed, and a finished cache clear is announced on the completion FIFO when one is configured.',
  ['inputs', 'histories'], 'lines wrong in every listed way, a valid command with any one byte replaced by any value, and commands split across reads at every place', 'The tests send no command.', [M, L, FA],
  [('worker', M + ':fht_worker'), ('registration', L + ':add_crash_fault'), ('validation', FA)], ['contents, persisted data and crashes after the commands', 'bytes in the completion FIFO'])
p('C18', 'The configuration file is honoured, and wrong settings are refused or ignored',
  'The cache has the capacity the configuration gives it (block size, page size and number of pages, or a size with a unit), and evicts only when told to. Impossible sizes are refused at start. Injections with missing or impossible keys are ignored without harm; valid ones next to them work, and of two for the same file the first stays.',
  ['configurations', 'inputs'], 'geometries, size strings with all units, eviction flag, wrong injections of every kind with every wrong number, pairs of injections', 'The tests use one configuration and no injections.', [CF, FA, E],
  [('parsing', CF + ':load_config'), ('geometry', CF + ':setup_config_manually'), ('size', CF + ':setup_config_by_size'), ('validation', FA)], ['what reaches the underlying file', 'cache usage report', 'crashes'])
p('C19', 'The unsynced data report names all unsynced data and nothing else',
  'The unsynced data report lists every file with unsynced data under its names, with block and byte ranges that cover all its unsynced bytes and lie inside the file, and a total that matches; files that are synchronised or removed are not listed. When nothing is unsynced it says so. Asking for the report changes neither contents nor persisted data.',
  ['histories', 'inputs'], 'every history of writes to two files, truncates, syncs, checkpoints, clears, links, renames, removals and reports; ranges symbolic; parsed from the log lines', 'The tests never ask for a report.', [L, C, E],
  [('report', L + ':command_unsynced_data_report'), ('collection', C + ':report_unsynced_data'), ('dirty blocks', E + ':get_dirty_blocks_info')], ['log lines of the report'])
p('C20', 'No operation reads or writes memory it does not own',
  'Whatever the sizes, offsets, cache geometry and order of operations, LazyFS performs no out-of-bounds or freed memory access, uses no uninitialised value, divides by nothing zero and does not terminate by an exception. Serving a valid request never stops the file system.',
  ['inputs', 'histories', 'configurations'], 'all data, namespace and attribute operations over the geometries of the other checks, every size, offset and byte', 'Tests run without sanitizers on a few aligned sizes.', [L, C, E, D, PG],
  [('block copies', L + ':lfs_read'), ('block copies', PG), ('truncate arithmetic', D + ':truncate_blocks_after')], ['memory checks of the symbolic execution; sanitizer replays'])
p('C21', 'Concurrent operations take effect in some sequential order and never deadlock',
  'Two operations running at the same time, on the same or on different files, and also running against the commands of the control FIFO, have the effect of running one after the other in some order, as seen in their results, in the visible contents and in the underlying files. Neither blocks forever, and the file system keeps working afterwards.',
  ['schedules', 'inputs'], 'every pair of operations and commands, every schedule with one preemption at the points where locks are taken, every byte written', 'The tests are sequential.', [L, C, E, M],
  [('item locks', C + ':lockItem'), ('command lock', L + ':cache_command_lock'), ('engine lock', E)], ['results, contents, lock state'])
p('C22', 'Attribute, directory and symbolic link operations pass through unchanged',
  'Changing modes and owners, making, listing and removing directories, symbolic links, access checks and name operations give the result and the error code of the underlying file system, for LazyFS paths and for missing ones. A listing names every entry with its type and claims no attribute that is wrong. They do not disturb the contents or sizes of files, cached or not, and leave no descriptor open.',
  ['inputs', 'histories'], 'every operation and error case on files, directories and links, with and without unsynced data', 'The tests exercise file contents only.', [L],
  [('pass-through operations', L)], ['results, attributes and entries through LazyFS and underneath'])
p('C23', 'Results do not depend on block size, page size or blocks per page',
  'For every valid cache geometry (several blocks per page, block sizes other than the default), the same history of operations shows the same contents, sizes and persisted data, as long as the cache has room. Geometry is a matter of performance only.',
  ['configurations', 'inputs', 'histories'], 'geometries with one, two and three blocks per page and blocks of 1, 2 and 4 bytes, every history of operations against the geometry-free reference', 'The tests use one geometry with one block per page.', [E, PG, D, C],
  [('slots in pages', E + ':allocate_blocks'), ('block offsets', 'libs/libpcache/src/engine/page/block_offsets.cpp')], ['reads, getattr, underlying files'])
p('C24', 'Modification times follow the operations and survive synchronisation',
  'The modification time shown is the one last set explicitly or by the latest write or truncate; it never moves back through a data operation, is not changed by reading, renaming or changing the mode, and an fsync or checkpoint stores it underneath. A cache clear reverts it to the stored one, and access times set explicitly are shown.',
  ['histories', 'inputs'], 'every history of setting times (also omitted ones and "now"), writes, truncates, syncs, clears, checkpoints, reads, mode changes and renames; every time value', 'The tests do not look at times.', [L, C],
  [('set times', L + ':lfs_utimens'), ('show times', L + ':lfs_getattr'), ('store times', L + ':lfs_fsync')], ['times through getattr and underneath'])
exec(open(V + '/tools/meta_more.py').read()) if os.path.exists(V + '/tools/meta_more.py') else None
P.sort(key=lambda x: x['id'])
NA = [dict(id='N01', title='Mount and unmount scripts set up and tear down LazyFS as documented',
  statement='The mount script mounts LazyFS over the given root with the given configuration and the umount script unmounts it, for every combination of options.', quantifier=dict(over=['configurations'], text='every combination of script options'),
  why_tests_cant='No test runs the scripts.', anchors=dict(files=['lazyfs/scripts/mount-lazyfs.sh', 'lazyfs/scripts/umount-lazyfs.sh'], state=[], mechanism=[dict(name='option parsing', where='lazyfs/scripts/mount-lazyfs.sh')], observe_at=['mount table'], hook_needed=None),
  reason='Bash scripts whose effect is a kernel FUSE mount: no symbolic execution of bash is available here and the sandbox cannot mount.')]
import sys; sys.path.insert(0, V); import props
with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        if x['id'] in props.PROPS: f.write(json.dumps({k: v for k, v in x.items() if k[0] != '_'}) + '\n')
    for x in NA: f.write(json.dumps({k: v for k, v in x.items() if k != 'reason'}) + '\n')
man = dict(version=1, setup_cmd='python3 check.py --setup',
  hooks=dict(guard='LAZYFS_VERIF_HOOKS', enable='no hooks are needed: the checks compile the unmodified sources to bitcode and natively', source_commits=[]),
  checks=[dict(property=x['id'], quick_cmd='python3 check.py %s quick' % x['id'], thorough_cmd='python3 check.py %s thorough' % x['id'], technique='symbolic execution of the real code (LLVM bitcode), Z3 decides', level=x['_level'], level_note=x['_note']) for x in P if x['id'] in props.PROPS],
  not_applicable=[dict(property=x['id'], reason=x['reason']) for x in NA])
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
missing = set(props.PROPS) - {x['id'] for x in P}
assert not missing, missing
