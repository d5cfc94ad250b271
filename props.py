# Per property: the symbolic runs that decide it.  args are the quick tier's, targs (if given) the thorough tier's.
# core.seq(K, ops, asserts, cfg)   ns.names(K, ops, names, asserts)   evict.small_(K, ops, files, asserts, cfg, evict)
# faults.*   ioerr.onefault(ops, faults, budget, cache)   conc.pair(opsA, opsB, preemptions, evict)   misc.pass/times(K, ops)
VIS, DISK, ATTR, RET = 1, 2, 4, 8
ES, EK, EC = 16, 32, 64 # histories end with an fsync, a checkpoint, a cache clear
END = ES | EC
def run(h, e, *a, **k): return dict(harness=h, entry=e, args=list(a), **{'reach': ['end'], **k})
def ends(am): return ''.join(t for b, t in ((ES, ', then fsync'), (EK, ', then a checkpoint'), (EC, ', then a cache clear')) if am & b)
def seq(K, ops, am, c, **k):
    g = [(4, 4, 8), (4, 8, 5), (2, 6, 6), (1, 4, 6), (4, 12, 3)][c % 10] + ((', from offset 2^32-8 on', ', from offset 2^31-4 on', ', from offset 2^31 on')[c // 10 - 1] if c > 9 else '',)
    return run('core', 'seq', K, ops, am, c, bounds='one file of at most 3 blocks + 1 partial; every history of %d operations out of mask %d%s; block %d, page %d, %d pages%s; sizes, offsets, lengths and bytes symbolic' % ((K, ops, ends(am)) + g), **k)
def names(K, ops, nn, am, starts=7, **k):
    return run('ns', 'names', K, ops, nn, am, starts, bounds='every history of %d operations out of mask %d%s over %d names from %d start states; written bytes symbolic' % (K, ops, ends(am), nn, bin(starts).count('1')), **k)
def small(K, ops, nf, am, c, ev, **k):
    g = [(4, 4, 2), (4, 8, 1), (4, 8, 2), (4, 4, 1), (2, 4, 2)][c % 10]
    return run('evict', 'small_', K, ops, nf, am, c, ev, bounds='%d files; every history of %d operations out of mask %d; block %d, page %d, %d pages; eviction %s; ranges and bytes symbolic' % ((nf, K, ops) + g + ('on' if ev else 'off',)), **k)
def big(K, ops, where, geo, **k):
    return run('big', 'big', K, ops, where, geo, bounds='a sparse file with a window at its start and one at offset %s; every history of %d operations out of mask %d (write truncate sync clear checkpoint read), then a sync, checkpoint or clear; bytes, sizes, ranges symbolic' % (('2^31', '2^32', '2^31-4', '5 GiB')[where], K, ops), **k)
def long_(**k):
    return run('long', 'long_', 1023, 1026, targs=[1020, 1030], insns=400000000, bounds='one run of 1023 to 1026 blocks (thorough 1020 to 1030) of 1 and 2 bytes: more than one vectored write takes', **k)
def tree(K, first, later, am, ev, **k):
    return run('tree', 'tree', K, first, later, am, ev, insns=200000000, bounds='files in a directory, its subdirectory and the root, all dirty or all clean; one operation of mask %d and %d of mask %d (rename of files and directories to any place, write, fsync, clear, checkpoint, unlink, create, mkdir, rmdir, link); eviction %s; bytes symbolic' % (first, K - 1, later, ('on, %d pages' % (3 if ev & 4 else 2) if ev & 1 else 'off') + ('; one file has two names from the start' if ev & 2 else '')), **k)
def cycle(K, ops, am, block, pp, pages, ev, **k):
    return run('cycle', 'cycle', K, ops, am, block, pp, pages, ev, insns=200000000, bounds='a cache of %d pages of %d blocks of %d bytes filled completely by two files, %d times emptied in part or whole (operations of mask %d: unlink, rename over, truncate, O_TRUNC, clear, sync, unlink through a second name, hole) and filled again; eviction %s; bytes symbolic' % (pages, pp, block, K, ops, 'on' if ev else 'off'), **k)
def real(K, ops, am, geo, **k):
    return run('real', 'real_', K, ops, am, geo, insns=800000000, bounds='blocks of %s bytes; sizes, offsets and lengths around block boundaries up to 20 kB; %d operations out of mask %d (write truncate sync clear checkpoint), read, then a sync, clear or checkpoint; bytes at the ends and in the middle symbolic' % (('4096', '4096 (two per page)', '512 (two per page)', '512 (eight per page)')[geo], K, ops), **k)
def wide(K, ops, am, geo, **k):
    return run('wide', 'real_', K, ops, am, geo, insns=2000000000, bounds='single writes and reads of 64 KiB and 128 KiB + 1, blocks of %s bytes; bytes' % (4096, 4096, 512, 512, 65536)[geo] + ' at the ends and in the middle symbolic', **k)
def many(K, ops, am, ev, **k):
    return run('many', 'many', K, ops, am, ev, insns=400000000, bounds='24 files, one of them with 7 names, all with unsynced data; %d operations out of mask %d (fsync unlink rename checkpoint clear write truncate unlink-several); eviction %s; bytes symbolic' % (K, ops, 'on, 6 pages' if ev else 'off'), **k)
T = dict(thorough_only=True)
Q = dict(quick_only=True)
W, FT, PT, FS, FD, CK, CL, RO, RT, RD = (1 << i for i in range(10))   # core: write ftruncate truncate fsync fdatasync checkpoint clear reopen reopen+O_TRUNC read
ALL = 1023
NC, NW, NU, NR, NL, NS, NCL, NCK, NT = (1 << i for i in range(9))      # ns: create write unlink rename link fsync clear checkpoint truncate
NALL = 511
BASE = ['guest environment: libfuse, spdlog, toml11 front end, libc and the underlying file system are models; the file-system model and every sampled path are validated by native replay, also on the real file system',
        'the kernel part of FUSE is represented by the lookups and serialisation it guarantees']
PROPS = {
 'C01': dict(runs=[real(1, 3, VIS | RET, 0), wide(1, 1, VIS | RET, 1), real(1, 3, VIS | RET, 3, **T), real(2, 3 | 7 << 8, VIS | RET, 1, **T), 
    seq(1, ALL, VIS | RET | END, 0), seq(2, W, VIS | RET | END, 0), seq(2, W | FT, VIS | RET | END, 2), seq(2, ALL, VIS | RET | END, 3),
    seq(3, W | FT | RT, VIS | RET | END, 3), seq(1, W | FT | RD, VIS | RET | END, 10), big(1, 3, 1, 0),
    seq(2, W | FT, VIS | RET | END, 0, **T), seq(2, W | RD, VIS | RET | END, 0, **T), seq(2, ALL, VIS | RET | END, 1, **T), seq(3, ALL, VIS | RET | END, 3, **T), seq(3, W | FT, VIS | RET | END, 2, **T), big(2, 35, 0, 0, **T)]),
 'C02': dict(runs=[
    seq(1, ALL, ATTR | END, 0), seq(2, W | FT, ATTR | END, 2), seq(2, ALL, ATTR | END, 3), names(2, NALL, 3, ATTR | END), seq(1, W | FT, ATTR | END, 20),
    seq(2, W | FT | PT, ATTR | END, 0, **T), seq(2, ALL, ATTR | END, 1, **T), seq(3, ALL, ATTR | END, 3, **T), names(3, NALL, 3, ATTR | END, **T)]),
 'C03': dict(runs=[long_(), cycle(2, 63, DISK, 2, 1, 3, 0), 
    seq(1, W | FT | PT | RO | RT | RD, DISK, 0), seq(2, W, DISK, 1), seq(2, W | FT | PT | RO | RT | RD, DISK, 3), seq(3, W | FT | RT, DISK, 3),
    seq(2, W | FT | PT | RO | RT, DISK, 2), seq(1, W | FT | RD, DISK, 20), run('config', 'room', 24, targs=[30], bounds='caches of 6 to 24 pages filled to the last page by one or two files, eviction on and off; bytes symbolic'), seq(2, W | FT | PT | RO | RT | RD, DISK, 0, **T), seq(4, W | FT | RT, DISK, 3, **T)]),
 'C04': dict(runs=[real(1, 3, DISK, 2), 
    seq(2, W | FS | FD, DISK | VIS | RET | END, 2), seq(2, W | FT | FS, DISK | VIS | RET | END, 3), seq(3, W | FT | PT | FS | FD | RT, DISK | VIS | RET | END, 3), seq(2, W | FS, DISK | ES, 0), names(2, NW | NS | NR | NL | NT, 3, DISK | ES), big(1, 1, 0, 1), long_(),
    seq(2, W | FT | FS | FD, DISK | VIS | RET | END, 0, **T), seq(3, W | FT | FS, DISK | VIS | RET | END, 2, **T), seq(4, W | FT | FS, DISK | VIS | RET | END, 3, **T), seq(3, W | FS, DISK | ES, 0, **T), big(2, 7, 1, 0, **T), tree(2, 1 | 512, 4, 15, 0)]),
 'C05': dict(runs=[
    seq(2, W | CL, VIS | DISK | ATTR | EC, 2), seq(3, W | FT | FS | CL | RT, VIS | DISK | ATTR | EC, 3), seq(2, W | CL, VIS | DISK | EC, 0), names(2, NW | NT | NCL | NR | NL | NS, 3, VIS | DISK | ATTR | EC), big(1, 3, 2, 0),
    seq(2, W | FT | PT | CL | RT, VIS | DISK | ATTR | EC, 0, **T), seq(3, W | FS | CL, VIS | DISK | ATTR | EC, 2, **T), seq(4, W | FT | FS | CL, VIS | DISK | ATTR | EC, 3, **T), names(3, NW | NT | NCL | NR | NL | NS, 3, VIS | DISK | ATTR | EC, **T), tree(2, 1 | 512, 8, 15, 0)]),
 'C06': dict(runs=[run('ioerr', 'onefault', 8191, 2047, 1, 0, targs=[8191, 2047, 2, 0], bounds='13 operations x 11 kinds of underlying call, the first failing call chosen symbolically; roomy cache'),
                   run('ioerr', 'onefault', 8191, 2047, 1, 2, targs=[8191, 2047, 2, 2], bounds='the same with a 2-page cache and LRU eviction')]),
 'C07': dict(runs=[many(1, 159, 15, 0), 
    seq(2, W | CK, VIS | DISK | ATTR | EK | EC, 2), seq(3, W | FT | CK | CL | RT, VIS | DISK | ATTR | EK | EC, 3), seq(2, W | CK, VIS | DISK | EK | EC, 0), names(2, NW | NT | NCK | NR | NL | NU, 3, VIS | DISK | ATTR | EK | EC), big(1, 1, 1, 0), long_(),
    seq(2, W | FT | PT | CK | RT, VIS | DISK | ATTR | EK | EC, 0, **T), seq(3, W | CK | CL, VIS | DISK | ATTR | EK | EC, 2, **T), seq(4, W | FT | CK | CL, VIS | DISK | ATTR | EK | EC, 3, **T), names(3, NW | NT | NCK | NR | NL | NU, 3, VIS | DISK | ATTR | EK | EC, **T), tree(2, 1 | 512, 16, 15, 0)]),
 'C08': dict(runs=[names(2, NW | NR | NS | NCL | NL | NC, 3, 15 | END), names(3, NW | NR, 3, 15 | END), names(2, NW | NR | NU | NS | NCL | NCK, 3, 15 | END, 8), names(3, NW | NR | NS | NCL, 3, 15 | END, 15, **T), names(4, NW | NR, 3, 15 | END, **T), tree(2, 1, 1023, 15, 0), tree(2, 1, 2, 15, 2), tree(2, 33, 1, 15, 2, **T), tree(3, 1, 1 | 2 | 16, 15, 0, **T), tree(3, 1 | 64, 1 | 2, 15, 0, **T)]),
 'C09': dict(runs=[cycle(2, 1 | 256, 15, 2, 2, 2, 0), names(2, NC | NW | NU | NL | NS | NT, 3, 15 | END), names(3, NC | NU | NW, 2, 15 | END), names(3, NU | NW | NL, 3, 15 | END), tree(2, 32, 3, 15, 2), names(3, NC | NW | NU | NL | NS | NT, 3, 15 | END, **T), names(4, NC | NU | NW | NL, 2, 15 | END, **T)]),
 'C10': dict(runs=[many(1, 255, 15, 0), many(1, 239, 5, 1), many(2, 65535, 15, 0, **T), names(2, NW | NT | NS | NU | NCK, 3, 15 | END), names(3, NW | NU | NS, 2, 15 | END), small(1, 63, 2, 15, 2, 0),
                   names(3, NW | NT | NS | NU | NR, 3, 15 | END, **T)]),
 'C11': dict(runs=[cycle(1, 1023, 15, 2, 2, 3, 0), cycle(2, 1023, 15, 2, 1, 2, 0), cycle(3, 1023, 15, 2, 1, 2, 0, **T), small(1, 63, 2, 15, 0, 0), small(1, 63, 2, 15, 1, 0), small(2, 16 | 32, 2, 15, 0, 0), small(2, 16 | 8 | 512 | 1024, 2, 15, 1, 0), small(1, 16 | 32 | 1024, 2, 15, 10, 0),
                   small(2, 16 | 32 | 256 | 512, 2, 15, 2, 0, **T), small(3, 16 | 8 | 1024, 2, 15, 0, 0, **T), small(1, 63, 2, 15, 3, 0, **T), small(1, 63, 2, 15, 4, 0, **T)]),
 'C12': dict(runs=[cycle(1, 1023, 15, 2, 2, 3, 1), cycle(2, 1023, 15, 2, 1, 2, 1), cycle(3, 1023, 15, 2, 1, 2, 1, **T), small(1, 63, 2, 15, 0, 1), small(1, 63, 2, 15, 1, 1), small(2, 16 | 32, 2, 15, 0, 1), small(2, 16 | 512 | 1024, 2, 15, 1, 1), small(1, 16 | 32 | 1024, 2, 15, 20, 1),
                   small(2, 16 | 512 | 1024 | 8, 2, 15, 0, 1, **T), small(3, 16 | 1024 | 8, 2, 15, 0, 1, **T), small(1, 255, 2, 15, 3, 1, **T), small(1, 255, 2, 15, 4, 1, **T), tree(2, 1, 1014, 5, 1), tree(2, 33, 2, 5, 7), tree(3, 32, 66, 5, 7), tree(3, 1, 66, 5, 5), tree(3, 2, 1 | 2, 5, 1, **T)]),
 'C13': dict(runs=[run('faults', 'tornop', 0, 0, 1, 2, reach=['torn']), run('faults', 'tornop', 1, 0, 1, 2, reach=['torn']), run('faults', 'tornop', 2, 0, 2, 1, reach=['torn']), run('faults', 'tornop', 3, 1, 1, 1, reach=['torn']), run('faults', 'tornop', 0, 4, 1, 1, reach=['torn']),
                   run('faults', 'tornop', 0, 3, 2, 3, reach=['torn'], **T), run('faults', 'tornop', 1, 3, 2, 3, reach=['torn'], **T), run('faults', 'tornop', 2, 0, 2, 3, reach=['torn'], **T), run('faults', 'tornop', 3, 0, 2, 3, reach=['torn'], **T)]),
 'C14': dict(runs=[run('faults', 'tornseq', 0, 0, 3, 2, reach=['torn'], targs=[0, 0, 4, 2]), run('faults', 'tornseq', 0, 1, 3, 1, reach=['torn'], targs=[0, 1, 4, 2]), run('faults', 'tornseq', 1, 2, 3, 1, reach=['torn'], targs=[1, 2, 4, 2]), run('faults', 'tornseq', 0, 8, 2, 1, reach=['torn'], targs=[0, 8, 3, 1])]),
 'C15': dict(runs=[run('faults', 'clearf', 2047, 2, 0, 2, reach=['cleared', 'crashed']), run('faults', 'clearf', 2047, 2, 1, 2, reach=['cleared', 'crashed']), run('faults', 'clearf', 2047, 3, 1, 3, reach=['cleared', 'crashed'], **T)]),
 'C16': dict(runs=[run('faults', 'crashcmd', 2047, 1, 0, 2, reach=['survived', 'crashed']), run('faults', 'crashcmd', 2047, 2, 1, 1, reach=['survived', 'crashed']), run('faults', 'crashcmd', 2047, 2, 1, 2, reach=['survived', 'crashed'], **T), run('faults', 'crashcmd', 2047, 3, 1, 1, reach=['survived', 'crashed'], **T)]),
 'C17': dict(runs=[run('fifo', 'bad', 1, targs=[2], bounds='every number of wrong command lines up to the first argument, each of any kind from the list (garbage, truncated, misspelt, wrong numbers, wrong operations), between operations on a file'),
                   run('fifo', 'byte_', 0, bounds='a valid command line with one byte, at any place, replaced by any value'),
                   run('fifo', 'chunk', 0, bounds='two commands written in pieces split at every place'),
                   run('fifo', 'mutate', 0, bounds='valid crash, torn-op and torn-seq command lines with any one character of their fixed text replaced, missing or doubled'),
                   run('fifo', 'longcrash', 0, bounds='crash command lines with long names and patterns')]),
 'C18': dict(runs=[run('config', 'manual', 4, 8, 3, reach=['end', 'refused'], bounds='every block size 0..4, page size 0..8 and page count 0..3; written bytes symbolic'),
                   run('config', 'room', 24, targs=[30], bounds='caches of 6 to 24 pages filled to the last page by one or two files, eviction on and off; bytes symbolic'),
                   run('config', 'refuse', 2147483647, reach=['refused'], bounds='every block and page size up to 2^31 that is zero or does not divide; symbolic'),
                   run('config', 'simple', 0, reach=['end', 'refused'], bounds='29 size strings x 5 numbers of blocks per page'),
                   run('config', 'evictflag', 0, reach=['end'], bounds='eviction flag absent, off, on; logging flag on and off'),
                   run('config', 'inj', 0, reach=['end'], bounds='33 kinds of wrong injections with every wrong number of 32 bits, alone, before and after a valid one'),
                   run('config', 'args', 0, bounds='--config-path at every place of a command line of 9 arguments, 3 file names, absent or without a value'),
                   run('config', 'dup', 0, reach=['end'], bounds='two injections for one file, 4 kinds of the second')]),
 'C19': dict(runs=[run('report', 'report_', 1, 1023, 4, 4), run('report', 'report_', 2, 1023, 1, 3), run('report', 'report_', 3, 1023, 1, 1), run('report', 'report_', 2, 1537, 2, 4),
                   run('report', 'report_', 2, 1023, 2, 4, **T), run('report', 'report_', 2, 1023, 4, 4, **T), run('report', 'report_', 4, 523, 1, 2, **T)]),
 'C20': dict(runs=[seq(1, ALL, 0, 0), seq(1, ALL, 0, 1), seq(1, ALL, 0, 4), seq(2, ALL, 0, 3), names(2, NALL, 3, 0), small(1, 63, 2, 0, 1, 1), run('misc', 'pass', 1, 8191),
                   seq(2, ALL, 0, 2, **T), small(2, 16 | 32 | 512 | 1024, 2, 0, 0, 1, **T), names(3, NALL, 3, 0, **T)]),
 'C21': dict(runs=[run('conc', 'pair', 2047, 131071, 1, 0), run('conc', 'pair', 7, 127, 1, 1, targs=[2047, 130047, 1, 1])]),
 'C22': dict(runs=[run('misc', 'pass', 1, 8191, targs=[2, 8191]), tree(2, 1022, 1, 15, 0)]),
 'C23': dict(runs=[wide(1, 1, 15, 4), real(1, 3, 15, 1, **T), real(1, 3, 15, 3), wide(1, 1, 15, 2, **T), seq(2, W, 15 | END, 1), seq(1, ALL, 15 | END, 4), seq(2, W | FT, 15 | END, 2), seq(1, ALL, 15 | END, 1),
                   seq(2, W | FT | CL | FS, 15 | END, 1, **T), seq(2, W | FT, 15 | END, 4, **T), seq(2, ALL, 15 | END, 2, **T)]),
 'C24': dict(runs=[run('misc', 'times', 2, 511, targs=[3, 511])]),
}
for _p in PROPS.values(): _p.setdefault('assumptions', BASE)
