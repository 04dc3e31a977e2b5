"""Scenarios per property: entry point in /verif/harness, bounds, situations that must be reached."""
ASSUMPTIONS = [
    'hashing of std/ordermap/indexmap tables is modelled as a constant (all keys collide), so table contents are compared by equality only; iteration orders of std HashSet/HashMap that depend on random seeds are represented by one order',
    'allocation never fails; addresses are arbitrary distinct constants',
    'panic messages are not formatted; a panic is an abrupt end of the operation, nothing is unwound',
    'Uuid::new_v4 returns distinct values',
    'the engine (symx), rustc, LLVM opt -O1 and z3 are trusted; counterexamples are believed only after native replay',
]
PREEMPT = [1, 2, 3, 4, 6, None]
SIZES = 'graph sizes 0-10,12,15,16,17,20,24,33'


def E(name, bounds, reach=(1,), **kw):
    return dict(name=name, bounds=bounds, reach=list(reach), **kw)


def T(name, bounds, reach=(1,), **kw):
    return E(name, bounds, reach, tier='thorough', **kw)


TABLE = {
    'C01': dict(
        note='schedules: sequentially consistent interleavings at the atomic operations of the code',
        entries=[
            E('c01_threads2', '2 threads x 2 allocating calls of any kind (+3 of the main thread), every interleaving of their atomic steps (should the code have so many that they cannot all be followed: up to the number of preemptions given in the evidence)', preempt=PREEMPT, time=90),
            E('c01_threads2x3', '2 threads x 3 allocating calls, every interleaving (likewise)', preempt=PREEMPT, time=90),
            E('c01_threads3', '3 threads x 1 allocating call, every interleaving (likewise)', preempt=PREEMPT, time=90),
            E('c01_history', '4 steps of any allocating/committing/dropping/removing/relabelling/merging call from a fresh context'),
            E('c01_history_any', '3 such steps from a recovered context whose counter is any 62-bit value'),
            E('c01_recovered', 'up to 3 nodes with any 62-bit indices, recovered, then 3 allocations'),
            E('c01_recovered_gaps', 'up to 5 nodes, any subset removed, serialized and recovered, then 3 allocations'),
        ]),
    'C02': dict(entries=[
        E('c02_build4', '4 creating calls (insert, alloc typed/untyped, fill, take back, extend) of any kind, any order', (1, 2)),
        E('c02_build5', '5 creating calls, fewer node types', (1, 2)),
        E('c02_wide', SIZES + ' allocated in one transaction, filled forwards or backwards, any one left unfilled or taken back', (1, 2)),
        E('c02_misuse', 'every wrong filling (type, twice, inserted node, never allocated incl. any 64-bit index)', (1, 2)),
        E('c02_two_open', 'two open transactions committed in either order'),
    ]),
    'C03': dict(entries=[
        E('c03_two', '2 recording calls of any kind, then commit or give up', (1, 2, 3)),
        E('c03_pending', '2 recording calls after an insertion and an allocation, then commit or drop', (1, 2, 3)),
        E('c03_three', '3 recording calls', (1, 2, 3)),
        E('c03_four', '4 recording calls from a smaller choice', (1, 2, 3)),
        E('c03_closures', 'number and time of the calls of mutate/update closures', (1, 2)),
        E('c03_other_graph', 'two graphs of one context'),
    ]),
    'C04': dict(entries=[
        E('c04_two', '2 operations of any kind on 3 dense nodes plus a pending one', (1, 2)),
        E('c04_kinds', 'one operation of every kind at once, any recording order', (1, 2)),
        E('c04_edit_order', 'mutations and updates of one node in any order'),
        E('c04_link_order', 'link edits in any order'),
        E('c04_history', 'two commits'),
        E('c04_wide', SIZES),
        E('c04_helpers', 'two typed edit helpers (mut_node!, update_node!, every form) on nodes of right and wrong types', (1, 2)),
        T('c04_three', '3 operations of any kind', (1, 2)),
    ]),
    'C05': dict(entries=[
        E('c05_fields', '3 nodes, fields holding any target, any subset removed'),
        E('c05_fields2', '3 nodes, the other fields holding any target, any subset removed'),
        E('c05_origin', 'links created by two earlier transactions of any kind'),
        E('c05_with', 'removal together with an operation of any kind'),
        E('c05_wide', SIZES + ', hub, every second, or any one removed'),
        E('c05_positions', 'vectors and sets of up to 7 links with any contents'),
        E('c05_absent', 'removal of any absent 64-bit index panics', (1, 2)),
    ]),
    'C06': dict(entries=[
        E('c06_two', '2 redirections among 4 nodes, a new node and the empty index', (1, 2)),
        E('c06_three', '3 redirections: chains and loops', (1, 2)),
        E('c06_four', '4 redirections: chains and loops', (1, 2)),
        E('c06_fields', '3 nodes, fields holding any target', (1, 2)),
        E('c06_fields2', '3 nodes, the other fields holding any target'),
        E('c06_sequence', '3 transactions with one redirection each'),
        E('c06_with', 'redirection with an operation of any kind', (1, 2)),
        E('c06_after', 'any redirection after a transaction with an operation of any kind', (1, 2)),
        E('c06_wide', SIZES + ', chains as long as the graph', (1, 2)),
        E('c06_positions', 'vectors and sets of up to 6 links with any contents'),
    ]),
    'C07': dict(entries=[
        E('c07_two', '2 redirections of all links among 4 committed nodes and a pending one', (1, 2)),
        E('c07_three', '3 of them', (1, 2)),
        E('c07_pending', 'pending nodes with any links'),
        E('c07_mix', 'with an edit or plain redirection and a removal', (1, 2)),
        E('c07_with', 'with an operation of any kind and the removal of the source', (1, 2)),
        E('c07_both', 'plain and all redirections chained', (1, 2)),
        E('c07_wide', SIZES, (1, 2)),
    ]),
    'C08': dict(
        note='pre-state: symmetric graphs of nodes of all types of the schema with any assignment of the pair under test',
        entries=[
            E('c08_single', 'single <-> single pair: any symmetric pre-state, 2 edits/removals/redirections of any kind', (1, 2)),
            E('c08_set_single', 'set <-> single pair, 2 operations', (1, 2)),
            E('c08_peers', 'set <-> itself (same type), 2 operations'),
            E('c08_list', 'single <-> single of the same type (linked list), 2 operations', (1, 2)),
            E('c08_owned', 'single <-> set through a node group, 2 operations', (1, 2)),
            E('c08_group', 'pair through a link group, 2 operations', (1, 2)),
            E('c08_set_set', 'set <-> set pair, 2 operations'),
            E('c08_twin', 'single <-> itself, 2 operations', (1, 2)),
            E('c08_single3', 'single <-> single, 3 operations', (1, 2)),
            E('c08_any', '1 operation of any kind on any field of the whole schema', (1, 2)),
            E('c08_some2', '2 operations in one transaction, over several pairs', (1, 2)),
            E('c08_commits', '2 commits of one operation each, over several pairs', (1, 2)),
            E('c08_history_single', '3 commits with any operation on the pair', (1, 2)),
            E('c08_history_sets', '2 commits', (1, 2)),
            E('c08_history_peers', '2 commits', (1, 2)),
            E('c08_history_list', '2 commits', (1, 2)),
            E('c08_history_owned', '2 commits', (1, 2)),
            E('c08_history_group', '1 commit with any operation', (1, 2)),
            E('c08_history_set_set', '2 commits', (1, 2)),
            E('c08_lost_single', 'new nodes, the first linking with a node which does not exist', (1, 2)),
            E('c08_lost_sets', 'the same with a set', (1, 2)),
            E('c08_lost_list', 'the same with other pairs', (1, 2)),
            E('c08_lost_group', 'the same with other pairs', (1, 2)),
            E('c08_lost_owned', 'the same with other pairs', (1, 2)),
            E('c08_lost_staff', 'the same with other pairs', (1, 2)),
            E('c08_lost_back', 'the same with other pairs', (1, 2)),
            E('c08_new_single', 'new nodes with any links of the pair', (1, 2)),
            E('c08_new_sets', 'new nodes', (1, 2)),
            E('c08_new_list', 'new nodes', (1, 2)),
            E('c08_new_group', 'new nodes', (1, 2)),
            E('c08_new_owned', 'new nodes', (1, 2)),
        E('c08_own_staff', 'variant single <-> set of a node group containing the variant: 2 operations', (1, 2)),
        E('c08_own_new_staff', 'variant single <-> set of a node group containing the variant: new nodes', (1, 2)),
        E('c08_own_history_staff', 'variant single <-> set of a node group containing the variant: 2 commits', (1, 2)),
        E('c08_own_mates', 'set <-> set of one node group on both sides: 2 operations'),
        E('c08_own_new_mates', 'set <-> set of one node group on both sides: new nodes'),
        E('c08_own_history_mates', 'set <-> set of one node group on both sides: 2 commits', (1, 2)),
        E('c08_own_chain', 'single <-> single of one node group on both sides: 2 operations', (1, 2)),
        E('c08_own_new_chain', 'single <-> single of one node group on both sides: new nodes', (1, 2)),
        E('c08_own_history_chain', 'single <-> single of one node group on both sides: 2 commits', (1, 2)),
        E('c08_own_back', 'link groups of a node group <-> set: 2 operations', (1, 2)),
        E('c08_own_new_back', 'link groups of a node group <-> set: new nodes', (1, 2)),
        E('c08_own_history_back', 'link groups of a node group <-> set: 2 commits', (1, 2)),
            E('c08_wide', SIZES),
            T('c08_list3', '3 operations', (1, 2)),
            T('c08_group3', '3 operations', (1, 2)),
            T('c08_any2', '2 operations of any kind over the whole schema', (1, 2)),
            T('c08_commits3', '3 commits over several pairs', (1, 2)),
            T('c08_long_sets', '3 commits', (1, 2)),
            T('c08_long_list', '3 commits', (1, 2)),
            T('c08_long_owned', '3 commits', (1, 2)),
            T('c08_long_group', '2 commits', (1, 2)),
        ]),
    'C09': dict(
        note='compared with a reference model of the upkeep, including whether the commit panics',
        entries=[
            E('c09_single', 'single <-> single: any symmetric pre-state, 2 operations', (1, 2)),
            E('c09_set_single', 'set <-> single, 2 operations', (1, 2)),
            E('c09_peers', 'set <-> itself, 2 operations'),
            E('c09_list', 'single <-> single of one type, 2 operations', (1, 2)),
            E('c09_owned', 'single <-> set through a node group, 2 operations', (1, 2)),
            E('c09_group', 'link group, 2 operations', (1, 2)),
            E('c09_set_set', 'set <-> set, 2 operations'),
            E('c09_twin', 'single <-> itself, 2 operations', (1, 2)),
            E('c09_any', '1 operation of any kind on any field of the whole schema', (1, 2)),
            E('c09_some2', '2 operations over several pairs', (1, 2)),
            E('c09_single3', '3 operations', (1, 2)),
            E('c09_set_single3', '3 operations', (1, 2)),
            E('c09_history_sets', '2 commits', (1, 2)),
            E('c09_history_list', '2 commits', (1, 2)),
            E('c09_history_group', 'commits', (1, 2)),
            E('c09_new_single', 'new nodes with any links of the pair', (1, 2)),
            E('c09_new_sets', 'new nodes', (1, 2)),
            E('c09_new_list', 'new nodes', (1, 2)),
            E('c09_new_group', 'new nodes', (1, 2)),
            E('c09_new_owned', 'new nodes', (1, 2)),
        E('c09_own_staff', 'variant single <-> set of a node group containing the variant: 2 operations', (1, 2)),
        E('c09_own_new_staff', 'variant single <-> set of a node group containing the variant: new nodes', (1, 2)),
        E('c09_own_history_staff', 'variant single <-> set of a node group containing the variant: 2 commits', (1, 2)),
        E('c09_own_mates', 'set <-> set of one node group on both sides: 2 operations'),
        E('c09_own_new_mates', 'set <-> set of one node group on both sides: new nodes'),
        E('c09_own_history_mates', 'set <-> set of one node group on both sides: 2 commits', (1, 2)),
        E('c09_own_chain', 'single <-> single of one node group on both sides: 2 operations', (1, 2)),
        E('c09_own_new_chain', 'single <-> single of one node group on both sides: new nodes', (1, 2)),
        E('c09_own_history_chain', 'single <-> single of one node group on both sides: 2 commits', (1, 2)),
        E('c09_own_back', 'link groups of a node group <-> set: 2 operations', (1, 2)),
        E('c09_own_new_back', 'link groups of a node group <-> set: new nodes', (1, 2)),
        E('c09_own_history_back', 'link groups of a node group <-> set: 2 commits', (1, 2)),
            E('c09_wide', SIZES),
            T('c09_any2', '2 operations of any kind over the whole schema', (1, 2)),
            T('c09_owned3', '3 operations', (1, 2)),
            T('c09_group3', '3 operations', (1, 2)),
        ]),
    'C10': dict(entries=[
        E('c10_insert', 'a new node of any type with any target in any field', (1, 2)),
        E('c10_insert_new', 'links between nodes new in the same transaction', (1, 2)),
        E('c10_lost', 'new nodes, one of them linking with a node which does not exist', (1, 2)),
        E('c10_edit', 'one edit of any field, mutation or update', (1, 2)),
        E('c10_edit_twice', 'two edits of the same node', (1, 2)),
        E('c10_vector', 'a vector edited by several mutations and updates', (1, 2)),
        E('c10_redirect', 'redirections of both kinds among nodes of all types', (1, 2)),
        E('c10_mixed', 'an edit together with a redirection or removal that may repair it', (1, 2)),
        E('c10_counterpart', 'counterparts added by bidirectional upkeep', (1, 2)),
        E('c10_merge', 'links of merged nodes', (1, 2)),
        E('c10_history', 'two commits', (1, 2)),
        E('c10_wide', SIZES + ', any one link wrong', (1, 2)),
    ]),
    'C11': dict(entries=[
        E('c11_one', '1 operation of any kind, type changes included, then every reading at every prefix'),
        E('c11_two', '2 operations in one transaction'),
        E('c11_commits', '2 commits'),
        E('c11_three', '3 operations'),
        E('c11_wide', SIZES + ', removals at any place'),
        E('c11_display', 'text form of graphs of up to 4 nodes after removals and type changes'),
        E('c11_sparse', 'graphs with nodes of some types only, or none'),
    ]),
    'C12': dict(
        assumptions=['links lead to nodes of the graph (internal integrity)'],
        entries=[
            E('c12_overlap', 'up to 4 nodes with gaps, target context having handed out 0..n indices: every overlap'),
            E('c12_fields', '3 nodes, fields holding any target'),
            E('c12_fields2', '3 nodes, the other fields holding any target'),
            E('c12_own', 'switch within the same context, and back and forth'),
            E('c12_history', 'an operation of any kind before and after'),
            E('c12_wide', SIZES),
            E('c12_empty', 'the empty graph'),
            E('c12_bidirectional', 'bidirectional schema, later edits'),
        ]),
    'C13': dict(entries=[
        E('c13_links', 'two graphs of 2 nodes, any links within and across'),
        E('c13_links2', 'the other fields'),
        E('c13_with', 'with an operation of any kind in the same transaction'),
        E('c13_pending', 'merged nodes taken back or edited before the commit'),
        E('c13_alloc', 'allocations of every kind open while the graph is merged, filled before or after'),
        E('c13_later', 'then a later operation of any kind'),
        E('c13_many', 'several graphs at once, empty graphs'),
        E('c13_other_context', 'another context: rejected; after a switch: accepted', (1, 2)),
        E('c13_bidirectional', 'bidirectional links between the parts', (1, 2)),
        E('c13_wide', SIZES),
    ]),
    'C14': dict(
        note='the serialized form is a token list produced and consumed through the serde data model (a serde Serializer/Deserializer of the harness)',
        entries=[
            E('c14_links', '3 nodes, any contents, three ways of serializing'),
            E('c14_links2', 'the other fields'),
            E('c14_gaps', 'gaps left by removed, given up and dropped nodes, then used further'),
            E('c14_later', 'an operation of any kind on the recovered graph'),
            E('c14_history', 'a history before, type changes included'),
            E('c14_identity', 'the recovered context equals the original one and no other', (1, 2)),
            E('c14_any_index', 'up to 3 nodes with any 62-bit indices', (1, 2)),
            E('c14_duplicate', 'a duplicated index anywhere, same or other type', (1, 2)),
            E('c14_empty', 'the empty graph'),
            E('c14_bidirectional', 'bidirectional upkeep continues', (1, 2)),
            E('c14_wide', SIZES),
        ]),
    'C15': dict(
        note='declared schemas of the harness (all link kinds, groups, node groups, many data types)',
        entries=[
            E('c15_by_name', 'node with all six link kinds, up to 3 targets each, any 64-bit targets; every name', (1, 2)),
            E('c15_by_link', 'by link reflection'),
            E('c15_by_group', 'by group', (1, 2)),
            E('c15_sources', 'overall enumeration'),
            E('c15_other_types', 'names shared between types'),
            E('c15_data', 'data fields of many types, right and wrong requested types, any value'),
            E('c15_tables', 'static tables and conversions'),
            E('c15_spellings', 'a node with a link of each of the 50 accepted spellings of a link type, any target'),
            E('c15_counterparts', 'bidirectional counterparts of every link'),
        ]),
    'C16': dict(
        note='exact set of calls compared with the net change between the model before and after; any one call may report an error',
        entries=[
            E('c16_one', '1 operation of any kind', (1, 2)),
            E('c16_two', '2 operations', (1, 2)),
            E('c16_removed', 'changed, linked and new nodes removed in the same transaction', (1, 2)),
            E('c16_back', 'links taken away and given back', (1, 2)),
            E('c16_become', 'type changes'),
            E('c16_history', '2 transactions', (1, 2)),
            E('c16_inserted', 'merged graphs and filled allocations', (1, 2)),
            E('c16_bidirectional', '1 operation of any kind with bidirectional upkeep', (1, 2)),
            E('c16_pairs', '2 operations on bidirectional pairs', (1, 2)),
            E('c16_typed', 'rejections for link types stay', (1, 2)),
            E('c16_table', 'several checks, replaced and removed ones', (1, 2)),
        ]),
    'C17': dict(entries=[
        E('c17_fields', 'any contents, links to nodes outside included'),
        E('c17_commits', '2 commits, operations of any kind'),
        E('c17_two', '2 operations in one transaction on committed and pending nodes'),
        E('c17_multiple', 'several links of one node to the same target, taken away one by one'),
        E('c17_become', 'type changes'),
        E('c17_merge', 'merged graphs'),
        E('c17_switch', 'switched contexts'),
        E('c17_recovered', 'deserialized graphs'),
        E('c17_bidirectional', '1 operation of any kind with bidirectional upkeep'),
        E('c17_wide', SIZES),
        T('c17_bidirectional2', '2 commits with bidirectional upkeep'),
        T('c17_bidirectional3', '2 operations in one transaction with bidirectional upkeep'),
    ]),
    'C18': dict(
        note='node types of the harness with all link kinds; the field under test holds any 64-bit values',
        entries=[
            E('c18_one', 'up to 4 targets of any 64-bit value in the field, one operation with any arguments, every field', (1, 2)),
            E('c18_two', 'up to 2 targets, 2 operations', (1, 2)),
            E('c18_three', 'up to 1 target, 3 operations', (1, 2)),
            E('c18_other_type', 'reflections of another node type', (1, 2)),
            E('c18_wide', 'sets and vectors of 8-33 links, any element touched'),
            T('c18_four', 'up to 1 target, 4 operations', (1, 2)),
        ]),
    'C19': dict(entries=[
        E('c19_commit', '8 contexts (fresh, default, cloned, recovered) x 10 graphs (built, recovered, switched, empty) x 9 kinds of transaction', (1, 2)),
        E('c19_commit_checked', 'the same with checked commits', (1, 2)),
        E('c19_merge', 'the same graphs merged', (1, 2)),
        E('c19_many', '2-6 new contexts, every pair', (1, 2)),
        E('c19_switched', 'graphs switched once and back', (1, 2)),
    ]),
    'C20': dict(
        compile_is_property=True,
        note='built with default-features = false; compared with the same reference model as the default build (properties C04, C08, C09), without link types',
        entries=[E(n, b, r, features='none') for n, b, r in [
            ('c20_one', 'an operation of any kind', (1, 2)),
            ('c20_two', '2 operations of any kind', (1, 2)),
            ('c20_commits', '2 commits', (1, 2)),
            ('c20_single', 'bidirectional single <-> single: any symmetric pre-state, 2 edits', (1, 2)),
            ('c20_set_single', 'set <-> single', (1, 2)),
            ('c20_list', 'single <-> single of one type', (1, 2)),
            ('c20_owned', 'node group', (1, 2)),
            ('c20_group', 'link group', (1, 2)),
            ('c20_set_set', 'set <-> set', (1,)),
            ('c20_twin', 'single <-> itself', (1, 2)),
            ('c20_peers', 'set <-> itself', (1,)),
            ('c20_any', '1 operation of any kind over the whole bidirectional schema', (1, 2)),
            ('c20_some2', '2 operations over several pairs', (1, 2)),
            ('c20_history', '3 commits', (1, 2)),
            ('c20_history_group', '2 commits', (1, 2)),
            ('c20_new_single', 'new nodes', (1, 2)),
            ('c20_new_sets', 'new nodes', (1, 2)),
            ('c20_new_group', 'new nodes', (1, 2)),
            ('c20_wide', SIZES, (1,)),
            ('c20_typed', 'links of wrong types accepted', (1, 2)),
            ('c20_rejected', 'other misuse still rejected', (1,)),
            ('c20_moves', 'recover, merge, switch', (1,)),
        ]] + [E(n, 'built without debug assertions and overflow checks: ' + b, r, features='dbg,rel') for n, b, r in [
            ('c20_one', 'an operation of any kind', (1, 2)),
            ('c20_two', '2 operations of any kind', (1, 2)),
            ('c20_commits', '2 commits', (1, 2)),
            ('c20_any', '1 operation of any kind over the whole bidirectional schema', (1, 2)),
            ('c20_some2', '2 operations over several pairs', (1, 2)),
            ('c20_new_sets', 'new nodes', (1, 2)),
            ('c20_wide', SIZES, (1,)),
            ('c20_moves', 'recover, merge, switch', (1,)),
        ]]),
}
NOT_APPLICABLE = {
    'C21': 'compile-time diagnostics: the subject is the proc-macro run inside rustc on arbitrary token streams (syn/quote/proc_macro); symbolic execution of the compiler front end is out of reach, and the verdict would be a compile error, not a value of the code',
    'C22': 'running time over unbounded sizes is not an assertion over program states within a bound; no solver query can express it here',
}
