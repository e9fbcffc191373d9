"""What each check runs: harness, the repository sources it links, entry points with their bounds."""
SPECS = {}
def prop(pid, units, bounds, assumptions=(), **kw):
    SPECS[pid] = dict(units=units, bounds=bounds, assumptions=list(assumptions), **kw)
def unit(harness, quick, thorough=None, sources=(), **kw):
    return dict(harness=harness, sources=list(sources), entries={'quick': quick, 'thorough': thorough or quick}, **kw)

ORDER = 'the comparison is a total order on the keys (any 32-bit keys, ties allowed)'
RANGE = 'pushed ranges are sorted as documented (greatest first; strictly when merging equal elements)'

prop('C01', [unit('c01_heap',
    ['heap_fast:K=3,OPS=2,RL=2', 'heap_slow:K=3,OPS=1', 'heap_slow:K=2,OPS=2,RL=2', 'heap_fast:K=5,OPS=1,KINDS=7', 'heap_slow:K=5,OPS=2,KINDS=6', 'heap_move_fast', 'heap_move_slow', 'heap_grow_fast', 'heap_grow_slow', 'heap_grow_slow:N=32', 'heap_grow_fast:N=31'],
    ['heap_fast:K=3,OPS=2', 'heap_slow:K=3,OPS=2', 'heap_fast:K=6,OPS=1,KINDS=7', 'heap_slow:K=4,OPS=2,KINDS=7', 'heap_fast:K=2,OPS=3', 'heap_move_fast:K=3,OPS=2', 'heap_move_slow:K=3,OPS=2', 'heap_grow_fast:N=33', 'heap_grow_slow:N=33', 'heap_grow_slow:N=17'])],
  'K arbitrary pushes, then OPS operations of any kind (push, pop, decreaseTop, range push of 0..RL, clear; KINDS=7 restricts to push/pop/decreaseTop), then remove everything; arbitrary 32-bit keys; both index layouts; moves; growth past the first allocations around concrete fills',
  [ORDER, RANGE])
prop('C02', [unit('c02_tour', ['tour:K=3,OPS=2,RL=2', 'tour:K=2,OPS=3,KINDS=7', 'tour:K=5,OPS=1,KINDS=7', 'tour_grow:N=8', 'tour_fast:K=2,OPS=2,RL=2', 'tour_grow:N=16,OPS=1', 'tour_grow:N=32,OPS=1'],
    ['tour:K=3,OPS=2', 'tour:K=2,OPS=3', 'tour:K=6,OPS=1,KINDS=7', 'tour_fast:K=3,OPS=2', 'tour_grow:N=8,OPS=3', 'tour_grow:N=16', 'tour_grow:N=32'])],
  'K arbitrary pushes, then OPS operations of any kind, then remove everything; arbitrary 32-bit keys; growth at 8, 16 and 32 elements around concrete fills; both index layouts', [ORDER, RANGE])
GEOQ = ['geo:K=2,OPS=1', 'geo:K=3,OPS=1,MIN=3,KINDS=3', 'geo:K=2,OPS=1,MIN=2,BASE=3', 'geo_fill:N=7,OPS=1,PAT=2', 'geo_fill:N=9,OPS=1,PAT=1', 'geo_fill:N=4,OPS=1,RL=5,KINDS=8', 'geo_fill:N=12,OPS=1,PAT=2,MIN=2,RL=3,KINDS=11']
GEOT = ['geo:K=2,OPS=2', 'geo:K=3,OPS=2,KINDS=7', 'geo:K=3,OPS=1,MIN=3', 'geo:K=2,OPS=2,MIN=2,BASE=3', 'geo_fill:N=7,OPS=2,PAT=2', 'geo_fill:N=9,OPS=1,PAT=1', 'geo_fill:N=4,OPS=2,RL=5', 'geo_fill:N=12,OPS=1,PAT=2,MIN=2,RL=3', 'geo_fill:N=26,OPS=1,PAT=2,RL=3,KINDS=11', 'geo_clear:N=5,OPS=2']
prop('C03', [unit('c03_geo', GEOQ + ['geo_clear:N=5,OPS=1'], GEOT, defines=['STORAGE=%d' % s]) for s in range(3)]
  + [unit('c03_geo', ['geo:K=1,OPS=1', 'geo_fill:N=5,OPS=1,RL=3,KINDS=10'], ['geo:K=2,OPS=2,KINDS=15', 'geo_fill:N=5,OPS=2,RL=3'], defines=['STORAGE=%d' % s, 'IFACT=2']) for s in (0,)],
  'all 16 combinations of front tracking, premerge, collect-max and binary search for each of the three bucket storages (insertion factor 1; factor 2 with plain storage); K arbitrary pushes or a concrete fill of N, then OPS operations of any kind, then remove everything; base 2..3, minimum bucket 1..3', [ORDER, RANGE])
prop('C04', [unit('c04_stlset', ['stlset:K=3,OPS=2,KINDS=11', 'stlset:K=5,OPS=1,KINDS=3'], ['stlset:K=4,OPS=2,KINDS=11', 'stlset:K=2,OPS=3,KINDS=11', 'stlset:K=6,OPS=1,KINDS=3'])],
  'K arbitrary pushes, then OPS operations (push, pop, range push of 0..3), then remove everything; arbitrary 32-bit keys', [ORDER, RANGE])
prop('C05', [unit('c05_heap', ['heap_dd_fast:K=2,OPS=2', 'heap_dd_slow:K=4,OPS=1', 'heap_dd_fill_fast:K=1,OPS=1', 'heap_dd_fill_slow:K=1,OPS=1,N=9'], ['heap_dd_fast:K=3,OPS=2', 'heap_dd_slow:K=4,OPS=2', 'heap_dd_fast:K=2,OPS=3', 'heap_dd_fill_fast:K=1,OPS=2', 'heap_dd_fill_slow:K=2,OPS=1,N=9', 'heap_dd_fill_slow:K=1,OPS=1,N=18'])]
  + [unit('c05_geo', ['geo_dd:K=2,OPS=1', 'geo_dd:K=3,OPS=1,MIN=3,KINDS=3', 'geo_dd_fill:K=1,OPS=1,KINDS=7', 'geo_dd_fill:K=1,OPS=1,N=9,PAT=2,KINDS=11', 'geo_dd:K=0,OPS=2,KINDS=8,RL=4,MIN=4', 'geo_dd:K=0,OPS=2,KINDS=8,RL=3,MIN=2'], ['geo_dd:K=2,OPS=2', 'geo_dd:K=3,OPS=2,MIN=3,KINDS=7', 'geo_dd_fill:K=1,OPS=2,KINDS=15', 'geo_dd_fill:K=1,OPS=1,N=9,PAT=2', 'geo_dd_fill:K=1,OPS=1,N=12,PAT=0,MIN=2,KINDS=31'], defines=['STORAGE=%d' % s]) for s in range(3)],
  'K arbitrary pushes (after an optional concrete fill with repeated keys), then OPS operations of any kind, then remove everything; arbitrary 32-bit keys; Heap in both layouts, Geobucket in all 48 switch combinations', [ORDER, RANGE, 'deduplicate combines two equal-key elements into one carrying the sum of their weights'])
prop('C31', [unit('c31_pq', ['all_queues:K=3,OPS=1', 'all_queues:K=1,OPS=1,N=5', 'all_queues:K=0,OPS=1,N=13'], ['all_queues:K=2,OPS=2', 'all_queues:K=1,OPS=1,N=9', 'all_queues:K=4,OPS=1,MIN=2'], defines=['STORAGE=%d' % s]) for s in range(3)],
  'K arbitrary pushes after a concrete fill of N, then OPS operations (push, pop, decreaseTop, range push of 1..3), then remove everything, on Heap and TourTree in both layouts, the set-backed queue and each Geobucket configuration', [ORDER, RANGE])
PAIRS = 'pushed rows of a column are distinct, not retired and descend in the configured order, as documented'
prop('C06', [unit('c06_pairs', ['pairs:COLS=4,OPS=4', 'pairs_noretire:COLS=4,FULL=4,OPS=1', 'pairs:COLS=5,FULL=3,OPS=3,FREE=0', 'pairs_big', 'pairs_big:WIDEROWS=1,COLS=4', 'pairs:COLS=2,FILL=8,OPS=1,FREE=0', 'pairs_col:N=5', 'pairs_col:N=6'],
    ['pairs:COLS=4,OPS=5', 'pairs_noretire:COLS=5,FULL=4,OPS=3', 'pairs:COLS=5,FULL=3,OPS=5,FREE=0', 'pairs_big', 'pairs_big:WIDEROWS=1,COLS=5', 'pairs:COLS=2,FILL=8,OPS=3,FREE=0', 'pairs:COLS=5,OPS=4,FREE=1'], defines=['CATS=1'])],
  'up to 5 columns (any sequence of distinct rows each), up to 5 interleaved additions and pops, arbitrary 32-bit order keys with ties; around a fill of 8 columns (tree growth); column and row indices beyond 65535', [PAIRS])
prop('C07', [unit('c06_pairs', ['pairs_retire:COLS=3,OPS=4', 'pairs_retire:COLS=4,FULL=4,OPS=2', 'pairs_retire:COLS=5,FULL=4,OPS=3,FREE=0,RET=2', 'pairs_big:WIDEROWS=1,RET=1'],
    ['pairs_retire:COLS=4,OPS=5', 'pairs_retire:COLS=4,FULL=4,OPS=4,RET=3', 'pairs_retire:COLS=5,FULL=5,OPS=3,FREE=0,RET=2', 'pairs_big:WIDEROWS=1,RET=1,COLS=4', 'pairs_retire:FILL=7,OPS=3,COLS=1,FREE=0'], defines=['CATS=2'])],
  'up to 5 columns, up to 5 interleaved additions, pops and retirements (up to 3 retired), arbitrary 32-bit order keys with ties', [PAIRS, 'an index is retired at most once and not used afterwards, as documented'])
prop('C08', [unit('c06_pairs', ['pairs_retire:COLS=3,OPS=4,DRAIN=0', 'pairs_retire:COLS=4,FULL=4,OPS=2,DRAIN=0', 'pairs_noretire:COLS=4,FULL=3,OPS=3,DRAIN=0', 'pairs_big:WIDEROWS=1,RET=1'],
    ['pairs_retire:COLS=4,OPS=5,DRAIN=0', 'pairs_retire:COLS=4,FULL=4,OPS=4,RET=3,DRAIN=0', 'pairs_noretire:COLS=4,FULL=3,OPS=5,DRAIN=0', 'pairs_big:WIDEROWS=1,RET=1,COLS=4', 'pairs_retire:FILL=7,OPS=3,COLS=1,FREE=0,DRAIN=0'], defines=['CATS=4'])],
  'as for the pair queue histories, with destruction of the queue at any point', [PAIRS])
prop('C09', [unit('c09_faults', ['add_compute:FULL=3,POPS=1', 'add_compute:FULL=0,POPS=0', 'add_compute:FULL=1,POPS=0', 'add_compute:FULL=2,POPS=1', 'pop_compute:FULL=4', 'add_compare:FULL=2,POPS=1', 'add_compare:FULL=3,POPS=0,MORE=0', 'add_alloc:ARENA=1,FULL=2', 'add_alloc:ARENA=1,FULL=0,FILL=7,POPS=0,MORE=5', 'add_alloc:ARENA=1,FULL=0,FILL=8,POPS=0,MORE=5', 'add_alloc:ARENA=1,FULL=0,FILL=9,POPS=0,MORE=5'],
    ['add_compute:FULL=3,POPS=2', 'pop_compute:FULL=5,OPS=4', 'add_compare:FULL=3', 'add_alloc:ARENA=1,FULL=3'] + ['add_alloc:ARENA=1,FULL=0,FILL=%d,POPS=1,MORE=5' % n for n in range(5, 20)], replace_new=True, covers=['end', 'thrown@add_compute', 'thrown@add_compare', 'thrown@add_alloc', 'thrown@pop_compute'])],
  'a throw from the data computation, from each of the first comparisons, or from each of the first 6 allocations of an add, on queues of 2..3 full columns after pops or around a fill of 7..19 columns (tree growth); a throw from any computation of a pop or retirement', [PAIRS])

MONO = 'exponents are non-negative and the term order is compatible with divisibility, as documented'
LEAFC = 'masks off / on entries / on nodes too, leaf sizes 1..3'
prop('C10', [unit('c10_mask', ['mask_default', 'mask_empty', 'mask_rebuilt:K=1', 'mask_reset'], ['mask_default', 'mask_empty', 'mask_rebuilt:K=1,AGAIN=1', 'mask_reset', 'mask_bound:N=3'], defines=['VARS=1', 'EXP=int', 'BITS=31']),
  unit('c10_mask', ['mask_default', 'mask_rebuilt:K=2,AGAIN=1', 'mask_rebuilt:K=3', 'mask_bound:N=3', 'mask_reset'], ['mask_rebuilt:K=4', 'mask_bound:N=3', 'mask_rebuilt:K=3,AGAIN=1'], defines=['VARS=1', 'EXP=int', 'BITS=9']),
  unit('c10_mask', ['mask_default', 'mask_empty', 'mask_reset'], ['mask_default', 'mask_empty', 'mask_rebuilt:K=1', 'mask_reset'], defines=['VARS=3', 'EXP=unsigned', 'BITS=32']),
  unit('c10_mask', ['mask_rebuilt:K=1'], ['mask_rebuilt:K=1', 'mask_rebuilt:K=2', 'mask_bound:N=2,K=1'], defines=['VARS=3', 'EXP=unsigned', 'BITS=8']),
  unit('c10_mask', ['mask_rebuilt:K=2', 'mask_bound:N=3'], ['mask_rebuilt:K=2,AGAIN=1', 'mask_rebuilt:K=3', 'mask_bound:N=3', 'mask_bound:N=2,K=1'], defines=['VARS=2', 'EXP=int', 'BITS=8']),
  unit('c10_mask', ['mask_default:SYMV=6', 'mask_rebuilt:K=2,SYMV=0', 'mask_rebuilt:K=1,SYMV=1'], ['mask_default', 'mask_rebuilt:K=2,SYMV=0', 'mask_rebuilt:K=1,SYMV=4'], defines=['VARS=40', 'EXP=unsigned', 'BITS=16'])],
  'calculators built by default, from an empty range, or from 1..3 (thorough 4) arbitrary monomials, rebuilt again; 1, 2, 3 and 40 variables; exponents of up to 31 (signed) or 32 (unsigned) bits for small training sets, 8 and 9 bits for larger ones; lower bounds over 3 monomials', [MONO])
LISTQ = ['list:K=3,OPS=0,OPTS=2', 'list:K=2,OPS=1,OPTS=2,KINDS=7', 'list:N=4,K=1,OPS=0,OPTS=2', 'list:K=0,OPS=1,OPTS=2,KINDS=64', 'list:K=1,OPS=1,OPTS=2,KINDS=64']
prop('C11', [unit('c11_list', LISTQ, ['list:K=4,OPS=0,OPTS=2', 'list:K=2,OPS=2,OPTS=2,KINDS=135', 'list:K=3,OPS=1,OPTS=2,KINDS=7', 'list:N=7,K=1,OPS=1,OPTS=2,KINDS=7', 'list:K=1,OPS=2,OPTS=2,KINDS=193']),
  unit('c11_list', ['list:K=2,OPS=0,OPTS=2', 'list:N=4,K=1,OPS=0,OPTS=2'], ['list:K=3,OPS=0,OPTS=2', 'list:N=6,K=1,OPS=1,OPTS=2,KINDS=3'], defines=['VARS=3', 'EXP=int', 'BITS=6']),
  unit('c11_list', ['list:N=17,K=1,OPT=1,OPS=0', 'list:N=34,K=1,OPS=0,OPT=1,LIST=2,PAT=1', 'list:N=35,K=0,OPS=0,OPTS=2,PAT=0', 'list:N=35,K=1,OPS=0,OPT=1,LIST=2,PAT=0'], defines=['BITS=6', 'MAXE=40'])],
  'lists over array and linked list, with and without masks, sorted and unsorted; K arbitrary monomials of 2 or 3 variables after a concrete fill of N, up to OPS further operations (insert, range insert, removals, moving to the front), then one arbitrary query of each kind through const and non-const interface', [MONO])
prop('C12', [unit('c11_list', ['list_order:K=2,OPS=1,OPTS=2,KINDS=199', 'list_order:K=1,OPS=2,OPTS=2,KINDS=135', 'list_order:N=4,K=0,OPS=1,OPTS=2,KINDS=199', 'list_order:K=2,OPS=1,OPTS=2,KINDS=6,DUMMY=1', 'list_order:N=5,K=0,OPS=1,OPTS=2,KINDS=8'],
    ['list_order:K=3,OPS=1,OPTS=2,KINDS=199', 'list_order:K=2,OPS=2,OPTS=2,KINDS=135', 'list_order:N=4,K=1,OPS=2,OPTS=2,KINDS=134', 'list_order:K=2,OPS=2,OPTS=2,KINDS=6,DUMMY=1', 'list_order:N=9,K=0,OPS=1,OPTS=2,KINDS=135'], covers=['end', 'moved'])],
  'lists over array and linked list, with and without masks, sorted and unsorted; K arbitrary monomials after a concrete fill of N, then OPS operations of any kind with a full check of contents, order and size after each', [MONO])
KDT = {0: ('C13', 'binary'), 1: ('C14', 'packed')}
for k in (0, 1):
    prop(KDT[k][0], [unit('c13_kd', ['kd:K=3,OPS=0,OPTS=2,FINAL=7,LEAF=0', 'kd:K=2,OPS=0,OPTS=2', 'kd:N=6,K=1,OPS=0,OPTS=2,FINAL=7', 'kd_norem:K=2,OPS=0,OPTS=2', 'kd_norem:N=5,K=0,OPTS=2,OPS=0', 'kd_norem:K=0,OPS=1,KINDS=40,OPTS=2', 'kd:K=0,OPS=1,KINDS=64,OPT=0,MASK=0', 'kd:N=3,K=0,OPS=1,KINDS=96,OPT=0,FINAL=9,LEAF=1'],
        ['kd:K=3,OPS=0,OPTS=2', 'kd:K=4,OPS=0,OPTS=2,FINAL=3,MASK=0', 'kd:N=6,K=1,OPS=0,OPTS=2', 'kd:N=10,K=1,OPS=0,OPTS=2', 'kd:N=5,K=2,OPS=0,OPT=0,FINAL=3', 'kd_norem:K=3,OPS=0,OPTS=2', 'kd_norem:N=7,K=1,OPS=0,OPTS=2', 'kd:K=0,OPS=1,KINDS=64,OPTS=2,MASK=0', 'kd:N=3,K=0,OPS=1,KINDS=96,OPTS=2', 'kd:N=15,K=0,OPS=0,OPTS=2', 'kd:K=3,OPS=1,KINDS=33,OPT=0,FINAL=3,LEAF=1'], defines=['PACKED=%d' % k]),
      unit('c13_kd', ['kd:K=2,OPS=0,OPTS=2,FINAL=7'], ['kd:K=3,OPS=0,OPTS=2,FINAL=7', 'kd:N=5,K=1,OPS=0,OPTS=2,FINAL=7'], defines=['PACKED=%d' % k, 'VARS=3']),
      unit('c13_kd', ['kd:K=3,OPS=0,OPTS=2,FINAL=7'], ['kd:K=4,OPS=0,OPTS=2,FINAL=7'], defines=['PACKED=%d' % k, 'VARS=1']),
      unit('c13_kd', ['kd:K=2,OPS=0,OPTS=1,FINAL=3,LEAF=0'], ['kd:K=2,OPS=0,OPTS=2,FINAL=7'], defines=['PACKED=%d' % k, 'BITS=32']),
      unit('c13_kd', ['kd:N=20,PATS=7,K=0,OPS=1,KINDS=8,OPTS=2,LEAF=0,MASK=2,FINAL=7', 'kd:N=11,K=1,OPS=0,OPT=0,MASK=2,LEAF=0,FINAL=5', 'kd:N=14,K=1,OPS=0,OPT=0,MASK=0,LEAF=1,FINAL=2', 'kd:N=24,K=0,OPS=0,OPT=1,PATS=6,FINAL=7', 'kd:N=9,K=0,OPS=1,KINDS=8,OPT=0,PATS=5,FINAL=5'],
        ['kd:N=30,PATS=12,K=0,OPS=1,KINDS=8,OPTS=2,FINAL=7', 'kd:N=20,K=1,OPS=0,OPTS=2,MASK=2', 'kd:N=14,K=1,OPS=0,OPT=0', 'kd:N=36,K=0,OPS=0,OPTS=2,PATS=12', 'kd:N=9,K=0,OPS=1,KINDS=8,OPTS=2,PATS=9', 'kd:N=10,K=2,OPS=0,OPT=0,LEAF=0,MASK=2,FINAL=2'], defines=['PACKED=%d' % k, 'MAXE=40'])],
      KDT[k][1] + ' tree; ' + LEAFC + ', leaves sorted or not, removals allowed or not; K arbitrary inserts (one by one or as a range) after concrete fills of up to 15 entries, clears; then one arbitrary query of each kind through const and non-const interface; 1..3 variables, 4-bit exponents (32-bit for K=2)', [MONO])
prop('C15', [unit('c13_kd', ['kd:K=2,OPS=1,KINDS=38,OPTS=2,FINAL=9', 'kd:K=2,OPS=1,KINDS=6,OPT=0,FINAL=9,DUMMY=1', 'kd:K=2,OPS=2,KINDS=6,OPT=1,FINAL=9,MASK=0', 'kd:N=4,K=1,OPS=1,KINDS=6,OPT=0,FINAL=9', 'kd:N=4,K=0,OPS=2,KINDS=35,OPT=0,FINAL=9,MASK=2', 'kd:N=12,K=0,OPS=1,KINDS=6,OPT=0,LEAF=3,FINAL=9', 'kd:N=5,K=0,OPS=1,KINDS=6,OPTS=2,LEAF=3,FINAL=9,PATS=10', 'kd:N=12,K=0,OPS=1,KINDS=6,OPT=1,FINAL=9,PATS=5', 'kd:N=20,K=0,OPS=1,KINDS=6,OPT=0,LEAF=0,MASK=2,FINAL=9,PATS=5', 'kd:N=8,K=0,OPS=2,KINDS=6,OPT=0,LEAF=0,MASK=2,FINAL=1,PAT=3'],
    ['kd:K=3,OPS=1,KINDS=6,OPTS=2,FINAL=9', 'kd:K=2,OPS=2,KINDS=39,OPT=0', 'kd:K=2,OPS=2,KINDS=6,OPT=0,FINAL=9,DUMMY=1', 'kd:N=8,K=0,OPS=2,KINDS=6,OPT=0', 'kd:N=4,K=0,OPS=3,KINDS=39,OPT=1,FINAL=9,MASK=2'], defines=['PACKED=%d' % k]) for k in (0, 1)],
  'both trees; ' + LEAFC + '; K arbitrary inserts after a concrete fill of N, then OPS removals of multiples, removals of elements, clears or inserts with arbitrary monomials, then a query', [MONO])
prop('C16', [unit('c13_kd', ['kd:K=2,OPS=2,KINDS=21,OPT=2,FINAL=1,LEAF=1,MASK=0', 'kd:K=2,OPS=2,KINDS=18,OPT=2,FINAL=1,LEAF=0', 'kd:N=3,K=1,OPS=2,KINDS=52,OPT=2,FINAL=1,MASK=0,LEAF=1', 'kd:N=4,K=0,OPS=2,KINDS=58,OPT=2,FINAL=1,LEAF=1,MASK=2', 'kd:N=5,K=0,OPS=2,KINDS=26,OPT=6,RMIN=2,FINAL=1,LEAF=0'],
    ['kd:K=2,OPS=2,KINDS=21,OPT=2,FINAL=1', 'kd:K=2,OPS=3,KINDS=22,OPT=2,FINAL=1,MASK=0', 'kd:N=4,K=1,OPS=2,KINDS=54,OPT=2,FINAL=1', 'kd:N=4,K=0,OPS=4,KINDS=26,OPT=2,FINAL=1,LEAF=1', 'kd:N=3,K=1,OPS=2,KINDS=27,OPT=6,RMIN=2,FINAL=1,MASK=0', 'kd:N=5,K=0,OPS=3,KINDS=58,OPT=6,RMIN=2,FINAL=1,LEAF=0'], defines=['PACKED=%d' % k]) for k in (0, 1)],
  'both trees with the cache on; queries interleaved with inserts, removals, clears, explicit and automatic rebuilds, then a query; arbitrary monomials', [MONO])
prop('C17', [unit('c13_kd', ['kd:N=5,K=0,OPS=1,KINDS=8,OPTS=2', 'kd:N=9,K=0,OPS=1,KINDS=8,OPT=1,FINAL=9,PATS=4', 'kd:N=10,K=0,OPS=1,KINDS=8,OPT=0,FINAL=9', 'kd:N=16,K=0,OPS=1,KINDS=8,OPT=0,FINAL=9,PAT=1', 'kd:N=3,K=1,OPS=1,KINDS=8,OPT=0,FINAL=9,LEAF=1', 'kd:N=4,K=1,OPS=0,OPT=6,FINAL=9', 'kd:N=0,K=0,OPS=2,KINDS=8,OPTS=8', 'kd:N=3,K=0,OPS=2,KINDS=10,OPT=0,FINAL=9', 'kd:K=1,OPS=1,KINDS=8,OPT=0', 'kd_norem:K=0,OPS=2,KINDS=41,OPTS=2'],
    ['kd:N=5,K=0,OPS=2,KINDS=9,OPTS=8,RMIN=2', 'kd:N=3,K=1,OPS=1,KINDS=8,OPTS=2', 'kd:N=2,K=2,OPS=0,OPT=4,RMIN=2,FINAL=9', 'kd:N=9,K=1,OPS=0,OPT=6,FINAL=9', 'kd:N=0,K=0,OPS=3,KINDS=40,OPTS=8', 'kd:N=4,K=0,OPS=3,KINDS=14,OPT=0,FINAL=9', 'kd:N=5,K=0,OPS=2,KINDS=6,OPT=4,RMIN=3', 'kd:K=2,OPS=1,KINDS=8,OPT=0,FINAL=9'], defines=['PACKED=%d' % k, 'EXP=int', 'BITS=3']) for k in (0, 1)]
  + [unit('c11_list', ['list:N=5,K=1,OPS=1,KINDS=8,OPTS=2', 'list:N=3,K=1,OPS=1,KINDS=14,OPTS=2,FINAL=9', 'list:N=2,K=1,OPS=1,KINDS=6,OPT=4,RMIN=2,FINAL=9', 'list:N=0,K=0,OPS=2,KINDS=10,OPTS=8', 'list_order:N=5,K=0,OPS=2,KINDS=12,OPTS=8,RMIN=2'],
    ['list:N=5,K=1,OPS=2,KINDS=9,OPTS=2', 'list:N=3,K=1,OPS=2,KINDS=14,OPTS=2,FINAL=9', 'list:N=2,K=2,OPS=1,KINDS=6,OPT=4,RMIN=2,FINAL=9', 'list:N=0,K=1,OPS=3,KINDS=10,OPT=0', 'list_order:N=5,K=0,OPS=3,KINDS=14,OPTS=8,RMIN=2', 'list:K=2,OPS=1,OPT=0,KINDS=8'], defines=['EXP=int', 'BITS=3'])],
  'lists and both trees; explicit rebuilds of empty, one-entry, emptied, duplicate and filled structures and automatic rebuilds from inserts and removals, around concrete fills with up to 2 arbitrary monomials, then a query', [MONO])
prop('C18', [unit('c18_dup', ['copies:K=1,OPTS=2', 'copies:K=2,OPTS=2,FINAL=9', 'copies:N=5,K=1,OPT=0,FINAL=9', 'copies:K=1,OPS=1,KINDS=14,OPTS=1,FINAL=9,LEAF=1', 'copies:K=2,OPS=1,KINDS=6,OPTS=1,FINAL=9,LEAF=1,MASK=2'],
    ['copies:K=2,OPTS=4,FINAL=9', 'copies:K=3,OPTS=2,FINAL=9,LEAF=1', 'copies:N=5,K=1,OPTS=2', 'copies:K=2,OPS=1,KINDS=14,OPTS=2,FINAL=9,LEAF=1', 'copies:K=2,OPS=1,KINDS=54,OPTS=1', 'copies:N=4,K=2,OPT=0,FINAL=9'], defines=['PACKED=%d' % k], covers=['end', 'refused']) for k in (0, 1)],
  'both trees; ' + LEAFC + '; as many copies of one arbitrary monomial as a leaf holds (after a fill of N), K further arbitrary inserts, removals or a rebuild after a refusal, then a query', [MONO])
prop('C29', [unit('c29_agree', ['agree3:K=2,OPS=1,KINDS=2,OPTS=1', 'agree3:K=2,OPS=1,KINDS=4,OPTS=1', 'agree3:K=2,OPS=0,OPTS=2', 'agree3:N=4,K=0,OPS=2,KINDS=14,OPT=0', 'agree3:N=3,K=1,OPS=1,KINDS=6,OPT=1'],
    ['agree3:K=3,OPS=0,OPTS=2', 'agree3:K=2,OPS=2,KINDS=6,OPT=0', 'agree3:N=4,K=1,OPS=1,KINDS=6,OPT=1', 'agree3:N=5,K=0,OPS=3,KINDS=14,OPT=0', 'agree3:N=3,K=1,OPS=1,KINDS=8,OPT=0,CFG=3', 'agree3:N=6,K=1,OPS=0,OPTS=4'])],
  'list, binary tree and packed tree fed the same K arbitrary inserts (after a fill of N) and OPS removals or rebuilds; every combination of sorting and caching; masks off, on entries, on nodes; array and linked list', [MONO])
prop('C30', [unit('c13_kd', ['kd:K=2,OPS=1,KINDS=256,OPT=0,FINAL=7', 'kd:N=4,K=0,OPS=1,KINDS=256,OPT=0,PAT=0,MASK=0,FINAL=7', 'kd:N=5,K=0,OPS=1,KINDS=256,OPT=1,PAT=2,MASK=2,LEAF=1'],
    ['kd:K=2,OPS=2,KINDS=258,OPT=0,MASK=0', 'kd:K=3,OPS=1,KINDS=256,OPT=0', 'kd:N=6,K=0,OPS=1,KINDS=256,OPTS=2,STOPS=3', 'kd:N=4,K=1,OPS=1,KINDS=256,OPT=0,LEAF=1'], defines=['PACKED=%d' % k], covers=['end', 'thrown']) for k in (0, 1)]
  + [unit('c11_list', ['list:K=2,OPS=1,KINDS=256,OPTS=2', 'list:N=4,K=0,OPS=1,KINDS=256,OPTS=2'], ['list:K=3,OPS=1,KINDS=256,OPTS=2', 'list:K=2,OPS=2,KINDS=257,OPTS=2', 'list:N=4,K=1,OPS=1,KINDS=256,OPTS=2'], covers=['end', 'thrown'])],
  'lists and both trees; a query of each kind stopped or thrown out of at its first, second or third report, then an arbitrary query', [MONO])
prop('C19', [unit('c19_hash', ['hash_map:K=2,OPS=1', 'hash_map:K=2,OPS=2,KINDS=11,HB=1', 'hash_map:N=8,K=2,OPS=0', 'hash_map:N=17,STEP=3,K=1,OPS=1,KINDS=11,NBITS=2', 'hash_map:N=1,K=1,OPS=2,KINDS=24', 'hash_map:N=3,K=1,OPS=2,KINDS=33,HB=2', 'hash_map:N=6,STEP=4096,K=1,OPS=1,KINDS=11', 'hash_map:N=5,STEP=4096,K=1,OPS=2,KINDS=8,NBITS=6'],
    ['hash_map:K=3,OPS=1', 'hash_map:K=2,OPS=2,KINDS=27', 'hash_map:N=8,K=2,OPS=1', 'hash_map:N=33,STEP=3,K=1,OPS=2,KINDS=11,NBITS=2', 'hash_map:N=70,K=1,OPS=1,STEP=7', 'hash_map:N=9,STEP=4096,K=1,OPS=2,KINDS=11', 'hash_map:N=5,STEP=4096,K=2,OPS=2,KINDS=9,NBITS=6', 'hash_map:N=12,STEP=4096,K=1,OPS=2,KINDS=8,NBITS=3'])],
  'K arbitrary inserts (after a concrete fill of N) and OPS operations (insert, lookup, write through a handle, remove, remove everything and reset, hard reset), then lookups of every key and of an arbitrary one; keys of 8 bits, each distinct key with an arbitrary hash over 1..3 chosen bits (so every collision pattern), growth of the table at fills of 1..70', ['the hash function agrees with key equality', 'a table is reset only when it holds nothing, as documented'])
prop('C20', [unit('c20_bits', ['bits:N=4,W=1,MORE=2', 'bits:N=3,W=2', 'bits:N=66,W=1,FROM=62', 'bits:N=66,W=2,FROM=64,MORE=0', 'bits_all'], ['bits:N=6,W=2', 'bits:N=4,W=3,MORE=1', 'bits:N=66,W=2,FROM=62', 'bits:N=130,W=1,FROM=126', 'bits_all:N=4,W=3'], sources=['mathic/BitTriangle.cpp'])],
  'W arbitrary writes to a triangle of N columns, to which columns are then added, through every writing and reading function with arguments in either order; an arbitrary bit is read back; columns around the word boundaries (62..68, 126..132); whole contents of small triangles after each write; copies', ['row < column, as documented'])
prop('C21', [unit('c21_comtree', ['tree_arith', 'tree_storage', 'tree_ops', 'tree_ops:N=3,K=1,OPS=2', 'tree_ops:N=31,K=1,OPS=1', 'tree_ops:CAP=4,K=2,OPS=1'], ['tree_arith:BITS=50', 'tree_storage:CAP=40', 'tree_ops:K=2,OPS=3', 'tree_ops:N=15,K=2,OPS=2', 'tree_ops:N=63,K=1,OPS=2', 'tree_ops:CAP=4,K=2,OPS=2'])],
  'index arithmetic for every node number below 2^40 (thorough 2^50) and every pair of them, for both layouts and element sizes 1, 2, 3, 4, 8, 24, 64; storage of every pair of nodes of a tree of 20 (40); K arbitrary pushes after a fill of N, then OPS operations of any kind (push, pop, grow, copy, move, swap, clear, write)')
prop('C22', [unit('c22_names', ['names:N=2,HI=2,PHI=2', 'names:N=3,LO=1,HI=2,PHI=2', 'names:N=3,LO=2,HI=3,PHI=2,HOW=1', 'names:N=2,HI=2,PHI=2,ANY=1', 'names:N=2,HI=2,PHI=2,STEM=8', 'names:N=2,HI=1,PHI=1,STEM=16', 'names_static'], ['names:N=3,HI=3,PHI=3', 'names:N=4,LO=1,HI=2,PHI=3', 'names:N=2,HI=3,PHI=3,ANY=1', 'names:N=3,HI=2,PHI=2,STEM=8', 'names:N=3,HI=1,PHI=1,STEM=16', 'names:N=2,HI=2,PHI=2,STEM=31', 'names_static:ANY=1'], sources=['mathic/error.cpp'])],
  'up to 4 distinct names of up to 3 characters and a prefix of up to 3 characters: all strings over two letters, and over all non-zero bytes for two names; the same after a common stem of 8 or 16 (31) characters', ['registered names are distinct'])
CLI = ['mathic/%s.cpp' % n for n in ('Action', 'CliParameter', 'CliParser', 'HelpAction', 'IntegerParameter', 'BoolParameter', 'StringParameter', 'ColumnPrinter', 'display', 'error')]
prop('C24', [unit('c24_params', ['int_param', 'int_param:HI=2,ANY=1', 'int_long', 'int_back', 'bool_param', 'bool_param:HI=3,ANY=1', 'string_param'], ['int_param:HI=5', 'int_param:HI=4,ANY=1', 'int_long:HI=20', 'int_back', 'bool_param:HI=5', 'bool_param:HI=4,ANY=1', 'string_param'], sources=CLI)],
  'all strings of up to 3 (thorough 5) characters over digits, signs, blanks and letters, and of up to 2 (4) arbitrary non-zero bytes; all digit strings of 9..11 (20) digits; every 32-bit value printed and read back; booleans likewise')
NUMT = ['commas', 'si_prefix', 'bytes_unit', 'percent_int', 'percent_fixed', 'ratio_int', 'one_decimal', 'percent_double', 'ratio_double']
prop('C25', [unit('c25_numbers', NUMT, sources=['mathic/ColumnPrinter.cpp'], flags=['--lin'], covers=['end', 'zero@percent_int', 'zero@ratio_int', 'zero@ratio_double'])],
  'every 64-bit integer for separators, SI prefixes and byte units; percentages and ratios of every 64-bit numerator over 15 denominators from 0 to 2^64-1; doubles that are any 64-bit integer over 1, 2, 4, 2^10, 2^30, 2^62, of either sign; quotients below 9 * 10^17 (ratios of doubles: 4 * 10^15)', ['texts of quotients from 10^18 on are left to the C++ library'])
SHOWQ = ['show:S=4', 'show:A=77,AH=79,S=3,B=1,BH=2', 'show:P=2,PH=3,A=75,AH=76,S=3,B=1,BH=2', 'show_kinds:S=2,A=70,AH=74,T=1', 'show:S=3,ANY=1', 'show:S=1,A=80,AH=82,B=1,T=2,C=2', 'show:A=76,AH=78,S=1,B=77,BH=79,T=2,C=1', 'show:P=76,PH=81,S=3,B=2', 'show:A=40,S=1,B=37,BH=39,T=1,C=40', 'show:S=2,B=70,BH=71,T=2,C=7,CH=8', 'show:S=2,P=1,B=38,BH=39,T=1,C=39,CH=40']
SHOWT = ['show:S=7', 'show:S=5,ANY=1', 'show:A=75,AH=80,S=4,B=1,BH=4,T=2,C=1', 'show:P=1,PH=4,A=72,AH=78,S=3,B=1,BH=4,T=2,C=2', 'show_kinds:S=3,A=60,AH=75,T=2,B=4', 'show:S=2,A=78,AH=84,B=1,BH=80,T=2,C=2', 'show:A=76,AH=79,S=2,B=75,BH=80,T=3,C=1,CH=3', 'show:P=75,PH=82,S=4,B=2,BH=3,T=1', 'show:A=38,AH=41,S=2,B=35,BH=40,T=2,C=38,CH=41', 'show:S=3,B=68,BH=72,T=3,C=6,CH=9', 'show:S=2,P=1,PH=2,B=36,BH=40,T=2,C=37,CH=41']
prop('C27', [unit('c27_display', SHOWQ, SHOWT, sources=['mathic/display.cpp', 'mathic/error.cpp'])],
  'messages of up to three runs of one letter (lengths around the 79-character margin, up to two wraps) with up to 4 (thorough 7) arbitrary characters out of a letter, blank, tab and newline between and after them, or arbitrary non-zero bytes; prefixes of 0..4 and 75..82 characters; notes, errors, internal errors and exceptions')
prop('C28', [unit('c28_timer', ['timer_ms', 'timer_ms:BITS=40', 'timer_stream', 'timer_file'], sources=['mathic/Timer.cpp'], flags=['--lin'])],
  'six start times and every span below 2^58 clock ticks (9000 years), rounding to the nearest millisecond exactly below 2^40 ticks (12 days) and within double precision above', ['the clock does not run backwards'])
prop('C26', [unit('c26_columns', ['table:COLS=1,S=6,WAYS=1', 'table:COLS=2,S=2', 'table:COLS=2,S=3,WAYS=1,MADE=1,HOWS=3', 'table:COLS=3,S=1,WAYS=1,HOWS=11', 'table_ops:OPS=3,COLS=2,KINDS=49,S=1', 'table_ops:OPS=2,KINDS=241,PADANY=1,ANY=1', 'table_ops:OPS=4,KINDS=97,S=1,WAYS=1', 'table:COLS=1,HOWS=16,S=2,ANY=1,PL=2', 'table_long:MORE=1,S=1,WAYS=1', 'table_long:LEN=300,MORE=1,WAYS=1,S=1'],
    ['table:COLS=1,S=8', 'table:COLS=2,S=3,MADE=3', 'table:COLS=3,S=2,WAYS=1', 'table_ops:OPS=4,COLS=2,KINDS=49,S=1', 'table_ops:OPS=5,KINDS=97,S=1,WAYS=1', 'table_ops:OPS=3,KINDS=241,PADANY=1,ANY=1,S=1,WAYS=1', 'table:COLS=1,HOWS=16,S=3,ANY=1,PL=2', 'table_long:S=2,MORE=2,WAYS=1', 'table_ops:OPS=3,COLS=3,KINDS=49,S=2,WAYS=1'], sources=['mathic/ColumnPrinter.cpp'])],
  '1..3 columns of either justification with prefixes and suffixes of up to 2 arbitrary characters; texts of up to 6 (thorough 8) characters out of a letter, blank and newline, or arbitrary bytes; writes, requests to fill a line with any character, added columns and new prefixes in any order (up to 4, thorough 5); lines of 90 and 300 characters; printing to a stream and to a file', ['texts hold no zero characters, which the printer uses as its own mark'])
prop('C23', [unit('c23_cli', ['cli', 'cli:N=2,HI=3,DIRECT=1,SET=0', 'cli_args:N=2,HI=3,DIRECT=1', 'cli_args:N=3,SET=0,DIRECT=1', 'cli_args:N=3,SET=4,LETTERS=1', 'cli:N=2,HI=1,ANY=1,SET=4,ACTS=3,ARGV=1', 'cli_args:N=4,HI=1,SET=2', 'cli_long:SET=0', 'cli_again', 'cli_values:N=2', 'cli_help'],
    ['cli:N=3,HI=3,DIRECT=1,SET=0', 'cli:N=3,HI=2', 'cli_args:N=3,HI=3,DIRECT=1,SET=3', 'cli_args:N=4,DIRECT=1,SET=0', 'cli_args:N=4,SET=4,LETTERS=1,HI=2', 'cli:N=2,HI=2,ANY=1,SET=4,ACTS=3,ARGV=1', 'cli_args:N=6,HI=1,SET=2', 'cli_long:SET=1,N=5', 'cli_long:SET=0,N=6,KINDS=5,DIRECT=1', 'cli_again:HI=3', 'cli_values:N=3', 'cli_help:HI=3'], sources=CLI, covers=['end', 'accepted@cli', 'refused@cli'])],
  'command lines of up to 4 (thorough 6) words of up to 3 characters, all strings over dash, a and b (arbitrary bytes for short words), longer ones of up to 5 words of a few kinds; 5 sets of option names and 4 of action names with common prefixes, an empty name and one that starts with a dash; actions that take direct parameters and actions that do not; the integer, boolean and string parameters of the library; help on everything, on a name, and with superfluous words', ['no two options or actions have the same name'])

prop('C32', [unit('c32_memory', ['mem_heap:K=2,OPS=1', 'mem_heap:K=1,OPS=1,N=17', 'mem_tour:K=2,OPS=1', 'mem_tour:K=1,OPS=1,N=16', 'mem_move:K=1', 'mem_geo:K=2,OPS=1', 'mem_geo:K=1,OPS=1,N=6', 'mem_tree', 'mem_bits', 'mem_bits:N=5'] if s == 0 else ['mem_geo:K=2,OPS=1', 'mem_geo:K=1,OPS=1,N=6'],
    ['mem_heap:K=3,OPS=2', 'mem_heap:K=1,OPS=2,N=33', 'mem_tour:K=3,OPS=2', 'mem_tour:K=1,OPS=2,N=32', 'mem_move:K=3', 'mem_geo:K=2,OPS=2', 'mem_geo:K=1,OPS=1,N=14', 'mem_tree:OPS=4,CAP=9', 'mem_bits:N=140'] if s == 0 else ['mem_geo:K=2,OPS=2', 'mem_geo:K=1,OPS=1,N=14'], defines=['STORAGE=%d' % s], sources=['mathic/BitTriangle.cpp'], replace_new=True) for s in range(3)]
  + [unit('c32_pairs', ['mem_pairs:ARENA=1', 'mem_pairs:ARENA=1,FULL=3,OPS=2', 'mem_pairs:ARENA=1,EMPTY=18,COLS=2', 'mem_pairs_noretire:ARENA=1,FULL=3', 'mem_hash', 'mem_hash:N=12,BITS=2'], ['mem_pairs:ARENA=1,COLS=4,OPS=4', 'mem_pairs:ARENA=1,FULL=4,OPS=3', 'mem_pairs:ARENA=1,EMPTY=18,COLS=4,OPS=3', 'mem_pairs_noretire:ARENA=1,FULL=4,OPS=4', 'mem_hash:N=9,OPS=3', 'mem_hash:N=40,BITS=2'], replace_new=True),
    unit('c32_div', ['mem_list:ARENA=1,OPTS=2', 'mem_list:ARENA=1,K=1,OPT=4', 'mem_list:ARENA=1,N=4,K=0,OPS=1,KINDS=79,PATS=1,OPTS=2', 'mem_kd:ARENA=1,OPT=0,K=2,KINDS=3', 'mem_kd:ARENA=1,N=6,K=0,OPS=1,KINDS=46,OPT=0,PATS=2', 'mem_kd:ARENA=1,N=4,K=1,OPS=0,OPT=4,PATS=1,LEAF=1'], ['mem_list:ARENA=1,K=2,OPS=2,KINDS=79', 'mem_kd:ARENA=1,K=3,OPS=1,OPTS=2', 'mem_kd:ARENA=1,N=9,K=0,OPS=2,KINDS=127,OPTS=2'], defines=['PACKED=0'], replace_new=True),
    unit('c32_div', ['mem_kd:ARENA=1,OPT=0,K=2,KINDS=3', 'mem_kd:ARENA=1,N=6,K=0,OPS=1,KINDS=46,OPT=0,PATS=2', 'mem_kd:ARENA=1,N=4,K=1,OPS=0,OPT=4,PATS=1,LEAF=1'], ['mem_kd:ARENA=1,K=3,OPS=1,OPTS=2', 'mem_kd:ARENA=1,N=9,K=0,OPS=2,KINDS=127,OPTS=2'], defines=['PACKED=1'], replace_new=True)],
  'K arbitrary insertions after a concrete fill of N, then OPS operations of any kind, on every queue, list and tree configuration; up to 4 columns of pairs; hash tables of up to 40 keys; bit triangles of up to 140 columns; trees of elements of 1, 3, 4, 8 and 24 bytes', [ORDER, RANGE, PAIRS, MONO, "up to 32 bytes per memory block that the allocation library keeps for itself are not counted"])
