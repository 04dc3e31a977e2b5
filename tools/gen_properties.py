#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

TG="src/typed_graph.rs"; TR="src/typed_graph/transaction.rs"; CA="src/cate_arena.rs"; MCA="ttgraph_macros/src/cate_arena.rs"
TN="ttgraph_macros/src/typed_node.rs"; NE="ttgraph_macros/src/node_enum.rs"; BD="ttgraph_macros/src/bidirectional.rs"
LC="ttgraph_macros/src/link_check.rs"; GR="ttgraph_macros/src/group.rs"; ID="src/id_distributer.rs"; SE="src/typed_graph/serialize.rs"

p("C01","Node indices are never empty and never handed out twice in one context",
  "Every index handed out for a new node in a context (by inserting, allocating, typed or untyped, or bulk-extending, through any number of transactions, on any thread) differs from the empty index and from every other index handed out in that context. A context rebuilt by deserialization never hands out an index that the deserialized graph already uses.",
  ["schedules","histories","inputs"],"every interleaving of two threads allocating through their own transactions of one context; every order of allocating calls, including ones whose transaction is dropped or whose node is removed",
  "Tests allocate from one thread in a few fixed orders; a lost update in the counter shows only in particular interleavings, and index reuse only in particular histories (removed, given up, deserialized with gaps).",
  [ID,TG,TR,MCA,SE],[("shared atomic counter, ids start at 1","src/id_distributer.rs IdDistributer::alloc"),("every arena of a context shares the counter","src/typed_graph.rs Context / Graph::new, transaction.rs Transaction::new"),("context rebuilt with count >= max index","src/typed_graph/serialize.rs deserialize_graph")],
  [("node_dist","last index handed out in the context","src/typed_graph.rs Context")],["indices returned by Transaction::insert/alloc/alloc_untyped"])

p("C02","Committed new nodes are retrievable under their index; misuse is rejected",
  "After a commit, every node that was inserted, or allocated and filled back, in the transaction and not removed again is present in the graph under exactly the index returned for it, with exactly the contents given, and nothing else is added. Committing while an allocated index is still unfilled (with debug assertions on), typed filling of a typed allocation with a node of another type, filling an index twice, and typed filling of an index that was never allocated all panic.",
  ["inputs","histories"],"every order and mix of insert, typed/untyped alloc, fill back, extend and remove over up to 4 new nodes with arbitrary payloads, and every misuse among them",
  "The tests use a handful of fixed build scripts and never the misuse paths in combination.",
  [TR,CA,MCA,TG],[("pending-allocation set checked at commit","src/typed_graph/transaction.rs alloc/fill_back, src/typed_graph.rs do_commit"),("type and occupancy checks on fill","src/cate_arena.rs fill_back, ttgraph_macros/src/cate_arena.rs fill_back_untyped")],
  [("alloc_nodes","indices allocated but not filled","src/typed_graph/transaction.rs")],["Graph::get, Graph::len, panic on commit/fill_back"])

p("C03","Nothing is visible before commit; a dropped transaction changes nothing",
  "Recording operations in a transaction never changes any graph, and giving up or dropping a transaction leaves every graph exactly as it was. Operations recorded on nodes that the same transaction created act on those pending nodes (edits are seen in the committed node, removing one means it never appears), and a transaction reports itself empty exactly when nothing is pending in it.",
  ["histories","inputs"],"every sequence of up to 4 recorded operations (all operation kinds, arbitrary targets among committed and pending nodes) followed by commit, give-up or drop",
  "Tests commit almost everything they record; combinations of edits on pending nodes, and the emptiness report after such combinations, are sampled at most once.",
  [TR,TG,CA],[("operations are recorded, not applied","src/typed_graph/transaction.rs mutate/update/remove/redirect_*"),("pending nodes are edited in place","src/typed_graph/transaction.rs inc_nodes.contains branches"),("is_empty over all recorded parts","src/typed_graph/transaction.rs is_empty")])

p("C04","A commit applies its operations in the documented order, and nothing else",
  "The committed result equals applying, in this order: redirect links of existing nodes, insert new nodes, mutations in recorded order, updates in recorded order, redirect all links, removals; regardless of the order in which the different kinds were recorded. Nodes, data and links that no operation concerns are unchanged, and the set of nodes afterwards is exactly the old ones plus the new ones minus the removed ones. The typed edit helpers (mut_node!, update_node!) edit a node of the named type and panic on any other.",
  ["inputs","histories"],"every graph of up to 4 nodes with arbitrary links and payloads, and every transaction with up to one or two operations of each kind on arbitrary targets",
  "The result depends on how operations of different kinds on the same nodes interact; tests exercise a few fixed combinations on fixed graphs.",
  [TG,TR,CA,MCA],[("phase order in commit","src/typed_graph.rs do_commit"),("mutation/update application","src/typed_graph.rs modify_node, update_node; src/cate_arena.rs update_with")],None,["Graph::get of every index after commit"])

p("C05","Removing nodes leaves no link pointing at them",
  "After a commit that removes nodes, they are gone and no remaining node links to any of them: single links become empty, set links lose the element, vector links keep their length and order with the slot emptied; all other links of the remaining nodes are unchanged. This holds whichever transactions created those links and however many removed nodes point at each other or at themselves, and removing an absent node panics.",
  ["inputs","histories"],"every pre-state of up to 4 nodes over all six link kinds with arbitrary link targets (self links and duplicates included), built by one or two earlier commits, and every subset of nodes removed",
  "Tests remove one node in a few fixed graphs; stale or missing reverse-link bookkeeping only shows for particular link patterns created by particular earlier operations.",
  [TG,TN,NE],[("reverse links drive the clean-up","src/typed_graph.rs remove_node, remove_back_links"),("per-kind replacement with empty","ttgraph_macros/src/typed_node.rs modify_link arms")],
  [("back_links","for each node, who links to it through which link","src/typed_graph.rs Graph")])

p("C06","Redirecting links moves exactly the existing links to the final target",
  "After a commit with link redirections, every link of an already committed node that pointed at a redirected node points at the end of its redirection chain (in whatever order the pairs were recorded), whatever the link kind, with set links deduplicated and vector positions kept. Links of nodes created by the same transaction and all other links are unchanged, and redirections that form a loop panic. (Each source is a node of the graph, given once per transaction.)",
  ["inputs","histories"],"every graph of up to 4 nodes with arbitrary links over all link kinds and every list of up to 3 redirections (distinct sources, any targets incl. new nodes and empty), in every order",
  "Chains and loops are order dependent; tests try a few fixed lists.",
  [TG,TR,TN],[("chain resolution","src/typed_graph.rs redirect_links_vec"),("moving reverse links","src/typed_graph.rs redirect_links")])

p("C07","Redirecting all links also covers the nodes of the same transaction",
  "After a commit with redirect-all operations, no link in the graph points at a redirected node any more, be it of an old node, a node inserted by this transaction, or a link produced by this transaction's mutations, updates or plain redirections: each such link points at the end of its redirect-all chain. Other links are unchanged, loops panic (each source is a node, given once per transaction), and a node that is both redirected and removed in the same transaction leaves its links at the redirect target.",
  ["inputs","histories"],"every graph of up to 3 old and 2 new nodes with arbitrary links and every combination of redirect-all (up to 2) with plain redirection, mutation and removal",
  "Needs interactions of several operation kinds in one transaction, which tests sample a few times.",
  [TG,TR],[("second redirection phase after insert/mutate/update and before remove","src/typed_graph.rs do_commit"),("chain resolution","src/typed_graph.rs redirect_links_vec")])

p("C08","Declared bidirectional links are symmetric after every commit",
  "For every declared pair A.x <-> B.y (single links, set links, same-type pairs, pairs through link groups or node groups), after every successful commit, a node a links to b through x if and only if b links back to a through y (for a group: through one of its links). This holds after any sequence of inserts, mutations, updates (keeping the node's type), redirections and removals.",
  ["histories","inputs"],"every symmetric pre-state of up to 4 nodes and every transaction of up to two operations of any kind with arbitrary contents; plus two-commit histories",
  "Symmetry is a graph-wide invariant over histories; tests check fixed expected graphs after fixed edits.",
  [TG,BD,NE,TN],[("link change recording","src/typed_graph.rs LinkChangeRecorder"),("counterpart maintenance","src/typed_graph.rs apply_bidirectional_links"),("declared pairs table","ttgraph_macros/src/bidirectional.rs make_bidirectional_link")])

p("C09","Bidirectional upkeep adds and drops only counterparts, or panics if ambiguous",
  "A commit touching bidirectional links (nodes keeping their type) ends in the state the user wrote plus exactly the missing counterparts of added links and minus exactly the counterparts of dropped links; links not bound by a declaration are never touched. It panics exactly when a counterpart cannot be placed: the single counterpart link is already taken by another node, or several links of a group could hold it and none does.",
  ["inputs","histories"],"every symmetric pre-state of up to 4 nodes and every one-transaction edit of single, set and grouped bidirectional links, comparing with a reference model including the panic condition",
  "Tests pin a few successful cases and two panics.",
  [TG,BD,TN,GR],[("counterpart maintenance with conflict assertions","src/typed_graph.rs apply_bidirectional_links"),("add_link/remove_link per link kind","ttgraph_macros/src/typed_node.rs")])

p("C10","Commits enforce the declared link types, exactly",
  "When link types are declared (for a link, a link group, a node group, with one or several allowed types), a commit that adds such a link to, or re-targets it at, a node of a type not allowed panics, whether the link comes from an insert, mutation, update, redirection or bidirectional upkeep. A commit whose links all satisfy the declarations never panics for this reason, and empty links and links without a declaration are never rejected.",
  ["inputs","histories"],"every combination of source type, link, target type and operation creating the link, over graphs of up to 4 nodes",
  "Tests try a few right and wrong targets, mostly through insert.",
  [LC,TG,NE,GR],[("check of added links","src/typed_graph.rs check_link_type"),("generated allowed-type tables","ttgraph_macros/src/link_check.rs make_check_link_type"),("links and their groups","src/typed_graph/macro_traits.rs check_link_type")])

p("C11","All ways of reading a graph agree",
  "After any history, iterating by reference, iterating by value, per-type iteration, per-group iteration, lookup by index and the node count agree: each present node is produced exactly once under its index with its contents, per-type and per-group iteration yield exactly the nodes whose current type (or group membership) matches, and reported iterator lengths equal the number of items left at every step. Typed lookup and iteration helpers return a node if and only if it is present and of that type. The displayed form of a graph lists each node once under its index.",
  ["histories","inputs"],"every history of up to 2 commits (insert, remove, mutate, update incl. changing a node's type, merge) over 4 node types, and every prefix of each iteration",
  "Tests iterate freshly built graphs; disagreement between the per-type stores and the index table needs removals, re-insertion order or type-changing edits.",
  [MCA,CA,TG,GR,"src/typed_graph/macros.rs"],[("per-type containers plus dispatcher","ttgraph_macros/src/cate_arena.rs"),("update/mutate keep a node in its container","src/cate_arena.rs update_with, src/typed_graph.rs modify_node")],
  [("_dispatcher","type of each index","ttgraph_macros/src/cate_arena.rs make_cate_arena")])

p("C12","Switching context renames nodes and preserves the graph",
  "Switching a graph to another context (new, already used, or the graph's own) yields a graph with the same number of nodes, related to the old one by a one-to-one renaming of indices: types and data are kept, every link (all lead to nodes of the graph) becomes a link to its renamed node, vector order and empty slots are kept. The new indices are fresh in the target context, and later transactions of that context work on the result.",
  ["inputs","histories"],"every graph of up to 3-4 nodes with arbitrary links over all link kinds, with gaps in the indices, and every overlap between old and new index ranges",
  "Whether renaming collides depends on how old and new index ranges overlap; the tests use one or two fixed layouts.",
  [TG],[("renaming through reverse links","src/typed_graph.rs switch_context")])

p("C13","Merging a graph into a transaction adds all its nodes unchanged",
  "Committing a transaction into which a graph of the same context was merged adds exactly that graph's nodes, under their own indices with unchanged contents, and keeps all existing nodes; links between the two parts are honoured by later operations. Merging a graph of another context panics, and combining with a context switch merges graphs of different contexts without losing or mixing up any node.",
  ["inputs","histories"],"every pair of graphs of up to 2 nodes each with arbitrary internal and cross links, followed by an arbitrary removal or redirection",
  "Tests merge one fixed pair.",
  [TR,MCA,TG],[("context check and arena merge","src/typed_graph/transaction.rs merge, ttgraph_macros/src/cate_arena.rs merge"),("reverse links of merged nodes","src/typed_graph.rs merge_nodes")])

p("C14","Serialization round-trips the graph and its context",
  "Deserializing the serialized form of a graph yields a graph with the same indices, types, data and links, whose reverse-link tracking and bidirectional upkeep work as before, and a context with the same identity whose next indices are beyond every index in use. The same holds for the serializer built from an owned graph, and input with a duplicated index is rejected.",
  ["inputs","histories"],"every graph of up to 3 nodes with arbitrary links and gaps in the indices, followed by an arbitrary further transaction in the recovered context",
  "Tests round-trip fixed graphs without gaps and compare; they do not go on using the recovered graph and context from arbitrary states.",
  [SE,TG,MCA],[("owned and borrowed serializer","src/typed_graph/serialize.rs"),("rebuild with reverse links","src/typed_graph.rs do_deserialize"),("context identity and counter","src/typed_graph.rs Context::from_id")])

p("C15","Reflection reports exactly what a node contains",
  "For every node value, the reflected links by name and by link reflection are exactly the non-empty targets stored in that field, the links by group are exactly those of the fields in that group, the overall enumeration is the union over all fields with the right field for each, and data by name returns the field's value exactly when the name and the requested type match. Static tables (link names, kinds, reflections, data names, groups) list the declared fields in declaration order, and unknown names yield nothing.",
  ["inputs","programs"],"every content of a node with all link kinds (direct, vector, four set kinds), groups and data fields",
  "Tests query a few names on a few values.",
  [TN,GR,NE,"src/typed_graph/macro_traits.rs"],[("generated reflection","ttgraph_macros/src/typed_node.rs make_typed_node"),("groups","ttgraph_macros/src/group.rs")])

p("C16","Checked commits run the user's checks on exactly what changed",
  "A checked commit calls node checks on every node that was inserted, mutated, updated or had its links changed and still exists, link-add checks on every added link and link-remove checks on every removed link whose owner still exists (net change over the whole transaction), and on no untouched node or link; it panics if and only if one of those calls reports an error. Otherwise its effect is identical to a plain commit, including when changed or linked nodes were removed in the same transaction.",
  ["inputs","histories"],"every graph of up to 3 nodes, every one-transaction edit, and every outcome of the check functions",
  "Tests use constant check functions on one fixed edit.",
  [TG,"src/typed_graph/check.rs"],[("change recording","src/typed_graph.rs LinkChangeRecorder"),("calling the checks","src/typed_graph.rs check_change, commit_checked")])

p("C17","Reverse-link tracking stays exact over any history",
  "After every successful commit, context switch, merge or deserialization, the graph's record of who links to whom matches the links actually stored in the nodes, so that the graph's own self-check of it succeeds and later removals and redirections reach every link. The internal-integrity self-check succeeds exactly when all links lead to nodes of the graph.",
  ["histories","inputs"],"every history of two commits over graphs of up to 4 nodes with all link kinds",
  "It is an invariant over histories; tests call the self-check at the end of a few fixed scripts.",
  [TG],[("back link upkeep in every operation","src/typed_graph.rs add_back_links, remove_back_links, modify_node, update_node, redirect_links, apply_bidirectional_links"),("self-checks","src/typed_graph.rs check_backlinks, check_integrity")])

p("C18","Single-node link edits do what they report",
  "On any node value, adding, removing, replacing and testing a link change exactly the named link and report truthfully whether something was added or removed: adding to an occupied single link with another target panics, adding or removing on a vector link panics, replacing a target by another (or by the empty one) keeps vector positions and deduplicates sets. A link reflection of another node type never matches: edits do nothing and report no change, enumeration and replacement panic.",
  ["inputs"],"every node value with all link kinds over up to 4 distinct targets and every operation argument",
  "Tests reach these operations only through commits with fixed values.",
  [TN,NE],[("add_link, remove_link, contains_link, modify_link arms","ttgraph_macros/src/typed_node.rs"),("dispatch on the node type","ttgraph_macros/src/node_enum.rs")])

p("C19","Transactions and graphs of different contexts are not mixed",
  "Committing a transaction to a graph of another context panics (with debug assertions on), and merging a graph into a transaction of another context panics, in both cases before the target graph or transaction is changed; with equal contexts, including a clone of the context or one recovered by deserialization, neither is rejected. Two independently created contexts are never treated as equal.",
  ["inputs","histories"],"every assignment of up to three contexts (fresh, cloned, recovered) to graph and transaction, and every kind of transaction",
  "One test covers one mismatch.",
  [TG,TR,SE],[("context identity check","src/typed_graph.rs do_commit, src/typed_graph/transaction.rs merge"),("identity carried through serialization","src/typed_graph/serialize.rs")])

p("C20","Turning the optional debug feature off changes checking only",
  "Built without the default `debug` feature, the crate compiles and every history that raises no check in the default build ends in the same graph, including bidirectional upkeep; only link type checks and self-checks are skipped. Nor does leaving out debug assertions (a release build) change what becomes of any history that trips none.",
  ["configurations","inputs"],"both feature configurations, over every graph of up to 3 nodes and every one-transaction edit with bidirectional links",
  "The test suite only ever builds the default configuration.",
  [TG,"src/typed_graph/check.rs","Cargo.toml"],[("feature-gated recording and checks","src/typed_graph.rs cfg(feature = \"debug\")")])

p("C21","Ill-formed node declarations are rejected at compile time",
  "Declarations naming unknown node variants, links or groups, conflicting group names, or unsupported link container types are rejected by the compiler with an error at the offending name.",
  ["programs"],"every node declaration",
  "Compile-fail behaviour is not covered by the test suite.",
  ["ttgraph_macros/src/lib.rs",BD,GR,LC],[("macro diagnostics","ttgraph_macros/src/lib.rs, bidirectional.rs check_bidirectional_links")])

p("C22","Operation cost grows only with the nodes and links concerned",
  "Lookups, inserts, removals and per-type iteration cost time proportional (up to a logarithmic factor) to the nodes and links they concern, not to the size of the graph.",
  ["inputs"],"every graph size",
  "Tests use tiny graphs and do not measure.",
  [TG,CA,MCA],[("hash-indexed ordered maps per type","ttgraph_macros/src/cate_arena.rs")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
