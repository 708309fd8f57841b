#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one record per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

BM='include/indexes/btree/map.h'; BC='include/indexes/btree/concurrent_map.h'; BK='include/indexes/btree/key.h'
BCOM='include/indexes/btree/common.h'; BD='include/indexes/btree/btree_dump.h'
AM='include/indexes/art/map.h'; AC='include/indexes/art/concurrent_map.h'
HC='include/indexes/hashtable/concurrent_map.h'; EM='include/indexes/utils/EpochManager.h'
YB='src/benchmark/'

prop('C01', 'The sequential B+tree map is a dictionary',
 'After any sequence of subscript reads and writes, erasures by key or by iterator and lookups (const or not), the sequential B+tree map holds exactly the keys inserted and not since erased, each with the value last assigned to it; find, erase, size and empty report exactly that content. A key seen for the first time through the subscript operator maps to a value-initialised value, and erase(key) returns true exactly when the key was present.',
 ['inputs','histories','configurations'], 'every finite history of operations, every key/value type meeting the requirements (ordered by the natural <), every node size and merge threshold the class accepts',
 'The tests compare one random history with std::map for three types and two node sizes; node splits, trims and merges at every level depend on the exact history, node capacity and merge threshold, which they sample once each.',
 [BM,BCOM], [('operator[], find, erase','map.h public section'),('insert_into_node / handle_overflow (trim or split)','map.h'),('remove_from_node / merge_node','map.h')],
 [('m_root','root of the tree','map.h'),('count','number of live keys','map.h'),('num_dead_values','erased entries still occupying a node','map.h node_t')],
 ['operator[]','find','erase','size','empty'])
prop('C02', 'B+tree iteration visits each live key once, in order, both ways',
 'Iterating a sequential B+tree map from begin() to end(), or from rbegin() to rend(), through mutable or const iterators, yields every live key exactly once with its current value in increasing (respectively decreasing) order, whatever history produced the map, including an empty or emptied map, for which begin() equals end() and rbegin() equals rend(). From any position, ++ and -- (prefix or postfix, forward or reverse iterator) move to the adjacent live key and undo each other, and stepping back from end() reaches the last key.',
 ['inputs','histories','configurations'], 'every history of insertions and erasures, every position, every node size and merge threshold',
 'The tests iterate two freshly filled maps; leaves emptied by erasures, which is where the leaf-to-leaf step is delicate, are never iterated, and no const iteration is run to its end.',
 [BM], [('iterator_impl::increment/decrement','map.h'),('get_next_leaf / get_prev_leaf via low/high fence keys','map.h'),('begin/end/rbegin/rend and const forms','map.h')],
 [('lowkey, highkey','fence keys of a node, used to find neighbours','map.h node_t')], ['begin..end','rbegin..rend','operator++/--'])
prop('C03', 'B+tree lower_bound and upper_bound are exact, also for partial keys',
 'On a sequential B+tree map, mutable or const, lower_bound(k) designates the first live entry whose key is not less than k and upper_bound(k) the first live entry whose key is greater than k, or end() if there is none, for k present or absent, inside or outside the range of the keys, and also when k is a shorter compound key naming only the leading fields. The iterator obtained can be advanced in either direction from there.',
 ['inputs','histories','configurations'], 'every map content reachable by any history, every search key (full or partial)',
 'The tests compare bounds only with random partial keys on one freshly filled map; absent keys next to node boundaries and boundaries left behind by erasures are not reached.',
 [BM,BK], [('lower_bound_pos / upper_bound_pos','map.h'),('get_leaf_containing / get_upper_bound_leaf','map.h')], (), ['lower_bound','upper_bound'])
prop('C04', 'B+tree map constructs and destroys stored objects exactly once',
 'For key and value types with constructors, destructors and assignment, a sequential B+tree map only ever assigns to, copies from and destroys objects it has constructed and not yet destroyed; by the time the map is destroyed every key and value object it constructed has been destroyed exactly once. Splits, merges, erasures and refills neither leak, nor duplicate, nor reuse a dead object.',
 ['inputs','histories','configurations'], 'every history of operations followed by destruction of the map, every key/value type',
 'The tests store int values and never count constructions or destructions.',
 [BM], [('insert_into_pos / append placement construction','map.h'),('~inherited_node_t','map.h'),('~map','map.h'),('remove','map.h')], (), ['constructor/destructor calls of the stored types'])
prop('C05', 'Compound keys compare lexicographically and consistently',
 'For compound keys of any lengths and field types, <, >, <=, >=, == and != agree with the lexicographic order of the fields, a key that is a proper prefix of another being less than it; they form a strict total order in which exactly one of <, ==, > holds for every pair and each operator is consistent with the others.',
 ['inputs'], 'every pair and triple of compound keys of lengths 1..n over any field types',
 'The tests exercise the operators only indirectly, through < on three-int keys.',
 [BK], [('detail::less and the six operators','key.h')], (), ['operator<, >, <=, >=, ==, !='])
prop('C06', 'The sequential B+tree stays balanced, ordered and space-bounded',
 'At every moment each leaf of the sequential B+tree is at the same depth, height() is that depth, keys inside every node are strictly increasing and every separator in an inner node divides the keys of the subtrees beside it. Nodes are not leaked or lost: the memory held follows the live content, so that repeated fill-and-erase of a bounded number of keys keeps a bounded number of nodes, and the split, trim and merge statistics account for the nodes that exist.',
 ['inputs','histories','configurations'], 'every history of insertions and erasures, every node size and merge threshold',
 'The tests never look at the structure, the statistics or memory use; a tree that degenerates but still answers lookups passes.',
 [BM,BCOM,BD], [('create_root, split_node, merge_node','map.h'),('isUnderfull / canTrim / canSplit / canMerge','map.h'),('stats counters','common.h')],
 [('m_height','height of the tree','map.h')], ['height()','stats()','dump()','node allocation'])
prop('C07', 'The sequential ART map is a dictionary over 64-bit keys',
 'After any sequence of insert, update, upsert, search and erase calls, the sequential radix-tree map holds exactly the keys inserted and not since erased with the value last stored; insert succeeds only for absent keys and never overwrites, update, upsert and erase return the previous value exactly when the key was present, search returns the current value, and size reports the number of live keys. This holds for any set of 64-bit keys, whatever bytes they share and in whatever order they come and go.',
 ['inputs','histories'], 'every history over every set of 64-bit keys (shared prefixes of every length, node growth and shrinking through every node kind)',
 'The existing ART tests use one random dense key range and are not even built in the baseline; path-compressed nodes deeper in the tree and growth/shrink boundaries of every node kind are reached only by chance.',
 [AM,'include/indexes/art/common.h'], [('insert/upsert, search, erase','art/map.h'),('expand / shrink and prefix split (add_to_parent)','art/map.h')], (), ['insert, update, upsert, search, erase, size, empty'])
prop('C08', 'Nothing is reclaimed while a protected reader may use it',
 'An object handed to the epoch manager for retirement is never reclaimed while any thread that entered an epoch before the object was retired (after having become unreachable) is still inside that epoch section, for every interleaving of entering, leaving (nested or not), retiring and reclaiming by any number of threads, on the memory model of the supported hardware.',
 ['schedules','histories'], 'every interleaving of any number of threads, nested sections, any reclamation threshold, including x86 store buffering',
 'There is no test of the epoch manager; the concurrent map tests run a few threads for a while and would notice a premature free only if it crashed.',
 [EM], [('enter_epoch / exit_epoch publication of the thread epoch','EpochManager.h'),('get_min_used_epoch','EpochManager.h'),('Retiree::can_reclaim','EpochManager.h')],
 [('m_global_epoch','global epoch','EpochManager.h'),('m_local_epoch','epoch published by each thread','EpochManager.h'),('m_retire_list','objects waiting, per thread','EpochManager.h')], ['reclaimer callback','enter_epoch/exit_epoch'])
prop('C09', 'Every retired object is reclaimed exactly once',
 'The reclaimer passed with an object is called for that object and no other, at most once ever, and once all threads have left their epoch sections reclaiming everything calls it for every object retired so far; do_reclaim returns the number of objects its thread still has waiting, and a thread whose waiting list reaches the reclamation threshold triggers reclamation by itself.',
 ['schedules','histories'], 'every history of retire and reclaim calls by any threads, any batch sizes and thresholds',
 'There is no test of the epoch manager.',
 [EM], [('retire / reclaim_in_retire_list','EpochManager.h'),('do_reclaim, reclaim_all','EpochManager.h')], (), ['reclaimer callback','do_reclaim result'])
prop('C10', 'Point operations of the concurrent B+tree are linearizable',
 'Insert, Upsert, Update, Search and Delete called concurrently on one concurrent B+tree map each appear to take effect atomically at some moment between call and return, with the results of a sequential dictionary: no acknowledged insertion or update is lost, no key appears twice, no deleted key reappears, no torn or foreign value is returned, and the previous values returned are the right ones.',
 ['schedules','histories','configurations'], 'every interleaving of any number of threads, including those in which nodes split, trim, merge or the root changes under a concurrent operation',
 'The existing concurrent tests are not built in the baseline and let free-running threads hit races by chance; they cannot enumerate the interleavings around a split, merge or root change.',
 [BC], [('optimistic version check and lock upgrade','btree/concurrent_map.h'),('split/trim/merge and root replacement under locks','btree/concurrent_map.h'),('EpochManager guards','EpochManager.h')], (), ['call and return of each operation'])
prop('C11', 'The concurrent B+tree used by one thread is an ordered dictionary',
 'Used by a single thread, the concurrent B+tree map behaves as an ordered dictionary for every history: Insert refuses present keys, Upsert, Update and Delete return the previous value, Search and size agree with the content; forward and reverse iteration visit every live key once in order, lower_bound and upper_bound are exact, and range and reverse-range scans yield exactly the keys within their bounds with each bound inclusive or exclusive as requested.',
 ['inputs','histories','configurations'], 'every history, every range and every inclusive/exclusive combination, every node size and merge threshold',
 'The existing tests (not built in the baseline) check iteration and ranges on one freshly filled map with random keys.',
 [BC], [('Insert/Upsert/Update/Search/Delete','btree/concurrent_map.h'),('iterators, range_iter, rrange_iter','btree/concurrent_map.h')], (), ['all public operations'])
prop('C12', 'Scans of the concurrent B+tree are ordered and miss no stable key',
 'An iteration of the concurrent B+tree map running concurrently with updates - of the whole map, from a lower or upper bound or over a range, in either direction, turning round or not - yields keys within its bounds in strictly monotonic order, yields every key within them that is present from before the scan starts until after it passes that place, and yields no key (or value) that was not in the map at some moment during the scan.',
 ['schedules','histories','configurations'], 'every interleaving of a scan of any kind with insertions, deletions and updates that split, trim or merge the leaves under it',
 'The existing tests (not built in the baseline) run scans only on quiescent maps.',
 [BC], [('iterator leaf snapshots and repositioning by key','btree/concurrent_map.h')], (), ['iterator ++/--, key, value', 'lower_bound, upper_bound, range_iter, rrange_iter'])
prop('C13', 'Concurrent maps never touch reclaimed memory and free what they replace',
 'No operation of a concurrent map (B+tree, radix tree, hash table) reads or writes a node, table, key or value after its memory has been given back, in any interleaving; and every node or table a map replaces is given back once no operation can still be using it and reclamation is requested, so that a long-running workload on a bounded number of keys uses bounded memory.',
 ['schedules','histories'], 'every interleaving of operations, with reclamation running at any point',
 'A use after free by an optimistic reader is silent in most executions, and the existing tests never look at memory.',
 [BC,AC,HC,EM], [('EpochGuard around each operation','concurrent maps'),('retire after unlinking','concurrent maps')], (), ['allocation and free of nodes, accesses to them'])
prop('C14', 'Concurrent map operations always finish',
 'Under any schedule that keeps running every thread, every operation of the concurrent maps returns: no deadlock between operations holding node, root, bucket or migration locks, no lock left held by a finished operation, and no endless retry once other threads stop changing the map.',
 ['schedules'], 'every fair interleaving of any operations on any number of threads',
 'A deadlock or a leaked lock needs a particular interleaving; the existing tests would only hang by luck and are not built in the baseline.',
 [BC,AC,HC], [('lock upgrade with restart','concurrent maps'),('migration mutex and per-bucket mutexes','hashtable/concurrent_map.h')], (), ['return of each operation'])
prop('C15', 'Operations of the concurrent ART map are linearizable',
 'Insert, Upsert, Update, Search and Delete called concurrently on one concurrent radix-tree map each appear to take effect atomically between call and return with the results of a sequential dictionary over 64-bit keys: no acknowledged update is lost, no deleted key reappears, and the previous values returned are the ones replaced.',
 ['schedules','histories'], 'every interleaving, including those in which a node grows, a compressed prefix splits, or a last key is removed under a concurrent operation',
 'The existing concurrent tests are not built in the baseline and let free-running threads hit races by chance.',
 [AC], [('versioned locks and snapshots','art/concurrent_map.h'),('node replacement and retirement','art/concurrent_map.h')], (), ['call and return of each operation'])
prop('C16', 'The concurrent ART map used by one thread is a dictionary',
 'Used by a single thread, the concurrent radix-tree map holds exactly the keys inserted and not since deleted with the value last stored, for any history over any set of 64-bit keys; Insert refuses present keys, Upsert, Update and Delete return the previous value exactly when the key was present, and size agrees with the content.',
 ['inputs','histories'], 'every history over every set of 64-bit keys',
 'The existing tests (not built in the baseline) use one random dense key range.',
 [AC], [('Insert/Upsert/Update/Search/Delete','art/concurrent_map.h'),('node growth and prefix handling','art/concurrent_map.h')], (), ['all public operations'])
prop('C17', 'The hash table used by one thread is a dictionary for any hash function',
 'Used by a single thread, the concurrent hash table holds exactly the keys inserted and not since deleted with the value last stored, for any history, any initial capacity, any reservation and any hash function, however many keys collide or share a neighbourhood; Insert refuses present keys, Upsert, Update and Delete return the previous value exactly when the key was present, and size and empty agree with the content across growth and deletions.',
 ['inputs','histories','configurations'], 'every history, every hash function and key set (colliding, clustered, adversarial), every initial capacity and reserve call',
 'The existing tests (not built in the baseline) insert one random key range with the library hash.',
 [HC], [('link chains from the ideal bucket','hashtable/concurrent_map.h'),('tombstones','hashtable/concurrent_map.h'),('migrate_table','hashtable/concurrent_map.h')], (), ['all public operations'])
prop('C18', 'Operations of the concurrent hash table are linearizable, also during growth',
 'Insert, Upsert, Update, Search and Delete called concurrently on one hash table, also while it migrates to a larger table, each appear to take effect atomically between call and return with the results of a sequential dictionary: two insertions of one key never both succeed, nothing inserted, updated or deleted is lost by a migration, and lookups never miss a key that is present throughout.',
 ['schedules','histories'], 'every interleaving of operations on keys of one chain, of overlapping neighbourhoods and with a migration at any point',
 'The existing concurrent tests are not built in the baseline and let free-running threads hit races by chance.',
 [HC], [('per-bucket mutex, hash published last','hashtable/concurrent_map.h'),('is_migration_in_progress handshake','hashtable/concurrent_map.h')], (), ['call and return of each operation'])
prop('C19', 'Benchmark database adapters store and scan records faithfully',
 'A benchmark database built over a map (B+tree, std::map, hash maps) behaves as tables of records: Read returns the fields last written to that record in full or restricted to the requested field names and reports a missing record, Update changes exactly the named fields of exactly that record, Scan returns the requested number of records (or all that remain in the table) in key order starting at the given key, Delete removes exactly the named record of the named table and reports whether it existed, and distinct tables do not interfere. Single-record operations (and Scans of the locked databases) of concurrent clients take effect atomically, no record is accessed after it is freed, and destroying the database frees all records.',
 ['inputs','histories','configurations'], 'every sequence of operations, with any names of tables, keys and fields, over every map type offered, and every interleaving of concurrent clients',
 'No test touches the benchmark code.',
 [YB+'ycsb/db/locked_map_db.h',YB+'ycsb/db/concurrent_map_db.h',YB+'ycsb/core/db.h',YB+'ycsb/db/db_factory.cpp'], [('Read/Scan/Update/Insert/Delete','locked_map_db.h, concurrent_map_db.h')], (), ['DB interface'])
prop('C20', 'The benchmark workload only touches keys it has inserted and obeys its settings',
 'For every setting of the workload properties, loading inserts exactly the configured number of distinct keys, each transaction on an existing record names a key inserted before, each insert transaction names a new key never used before, operations, field names, field counts, field lengths and scan lengths stay within what the properties configure (an operation of proportion zero never occurs), and properties files are parsed into exactly the settings they state.',
 ['inputs','histories','configurations'], 'every combination of request distribution, insert order, record count, proportions and lengths, and every point of a run',
 'No test touches the benchmark code.',
 [YB+'ycsb/core/core_workload.h',YB+'ycsb/core/core_workload.cpp',YB+'ycsb/core/client.h',YB+'utils/properties.h',YB+'utils/counter_generator.h',YB+'utils/skewed_latest_generator.h',YB+'utils/zipfian_generator.h',YB+'utils/scrambled_zipfian_generator.h',YB+'utils/uniform_generator.h',YB+'utils/discrete_generator.h',YB+'utils/const_generator.h'],
 [('CoreWorkload::Init and Next*','core_workload.{h,cpp}'),('Client::Do*','client.h'),('generators','src/benchmark/utils')], (), ['calls the client makes on the DB interface'])
prop('C21', 'Every map constructs and destroys the objects it stores exactly once',
 'The sequential radix tree, and the concurrent radix tree, hash table and concurrent B+tree used by one thread, only ever assign to, copy from, compare and destroy key and value objects they have constructed and not yet destroyed, and by the time the map (and with it whatever it had retired) is destroyed every key and value object it constructed has been destroyed exactly once, for every history of operations, growth, migration, reclamation and moves.',
 ['inputs','histories','configurations'], 'every history of operations, reservations, reclamations and moves, for key and value types with constructors, destructors and assignment',
 'The tests store plain integers, whose life no one can observe.',
 [AM,AC,HC,BC], [('leaves and their values','art/map.h, art/concurrent_map.h'),('HashBucket emplace/exchange/destroy, migration','hashtable/concurrent_map.h'),('nodes, retired nodes and their entries','btree/concurrent_map.h')], (), ['special member functions of stored objects'])
prop('C22', 'The radix trees hold memory in proportion to their content',
 'After any history the sequential radix tree, and the concurrent one used by one thread once what it retired is reclaimed, holds no more memory than a newly built tree with the same content needs, but for nodes a size too large: an emptied tree holds no more than a new one (give or take a node), repeated fill-and-erase of a bounded number of keys keeps bounded memory, and a destroyed tree holds nothing.',
 ['inputs','histories'], 'every history of insertions and erasures over every set of 64-bit keys',
 'The test destroys one tree after one history and never looks at memory.',
 [AM,AC], [('expand / shrink, shrink_node','art/map.h'),('shrinking and removal of nodes after Delete','art/concurrent_map.h'),('~map','art/map.h')], (), ['bytes allocated by the map'])
prop('C23', 'The concurrent B+tree at rest is balanced, ordered and space-bounded',
 'Whenever no operation is running, whatever one thread or several did before, every leaf of the concurrent B+tree is at the same depth, height() is that depth, keys inside every node are strictly increasing, every separator in an inner node divides the keys of the subtrees beside it, and the leaves hold exactly the live keys. The nodes of the tree follow the live content, so that repeated fill-and-erase of a bounded number of keys keeps a bounded number of nodes; once retired nodes are reclaimed no others are held; and after the history of a single thread the split, trim and merge statistics account for the nodes that exist.',
 ['inputs','histories','configurations','schedules'], 'every history of insertions and deletions of one thread, every interleaving of several, every node size and merge threshold above zero',
 'The tests never look at the structure, the statistics or memory use; a tree that degenerates, or whose separators are wrong where no test key happens to lie, passes.',
 [BC,BCOM,BD], [('split_node, trim_node, replace_subtree_on_version_match','btree/concurrent_map.h'),('merge_node, get_merge_info','btree/concurrent_map.h'),('create_root, store_root','btree/concurrent_map.h')],
 [('m_height','height of the tree','btree/concurrent_map.h'),('m_root','root of the tree','btree/concurrent_map.h')], ['height()','stats()','dump()','node allocation'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P),'properties')
