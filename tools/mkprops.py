#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
TX = "plotline/src/schema/transaction.rs"
p("C01", "A failed transaction leaves the graph untouched",
  "When the closure of a schema transaction returns an error, or panics, the graph holds exactly the nodes it held before the transaction started and the closure's error is what the caller gets back. While the closure is still running nothing it saved or deleted has reached the graph.",
  ["histories", "fault_sequences"], "every sequence of saves, deletes and nested sub-transactions, every error value and every panic point inside the closure",
  "one test aborts one two-operation transaction; no test panics inside a closure or nests a failing operation",
  [TX, "plotline/src/graph/mod.rs"],
  [("operations are only logged until the closure has returned Ok", TX + " Background::with"), ("commit is the only place that writes the graph", TX + " Background::commit")],
  [("operation log", "saves and deletes recorded by a context", TX + " Context::operations"), ("graph", "committed nodes", "plotline/src/schema/mod.rs Schema::graph")],
  ["Transaction::with", "Schema::read"])
p("C02", "A successful transaction applies every operation, in order",
  "When the closure of a schema transaction returns Ok, that value is returned and, by then, every save and delete recorded through its context has been applied to the graph exactly once and in the order in which it was recorded: a save stores the saved node under its own id, a delete removes exactly the given id. Nothing else in the graph changes.",
  ["histories"], "every log of saves and deletes, of any length, with any repetition of ids",
  "one test commits one delete and one save on distinct ids; repeated ids and ordering are never exercised",
  [TX, "plotline/src/graph/mod.rs"],
  [("commit replays the log", TX + " Background::commit"), ("with commits on Ok", TX + " Background::with")],
  [("operation log", "saves and deletes in the order they were recorded", TX + " Context::operations")],
  ["Transaction::with", "Schema::read"])
p("C03", "A transaction sees its own latest writes",
  "Inside a transaction, looking up an id (fetching the node or asking whether it exists) answers from the most recent save or delete of that id recorded by this context, else from the context this one was opened in, and so on outwards, else from the graph. Existence and fetching always agree: a node can be fetched if and only if it is reported as existing.",
  ["histories"], "every log of operations at every nesting depth and every id",
  "tests ask for existence after at most one operation per id, never fetch a node, and never use more than one level of nesting with overlapping ids",
  [TX], [("newest-first search of the log, then parent, then graph", TX + " impl Source for Context")],
  [("operation log", "pending operations of one context", TX + " Context::operations"), ("parent", "the enclosing context", TX + " Context::parent")],
  ["Context::get", "Context::contains", "Context::node"])
p("C04", "Sub-transactions are isolated until they succeed, then merge in order",
  "What a sub-transaction records is invisible to its parent and to its siblings until its closure returns Ok; from then on the parent holds all of those operations, in order, after everything it had recorded before, exactly once. If the closure returns an error or panics the parent's pending operations are unchanged, and in every case the closure's result is returned as is.",
  ["histories", "fault_sequences"], "every tree of nested transactions, every outcome of each",
  "tests cover one level of nesting with a single delete; failing sub-transactions and ordering relative to the parent's own operations are not exercised",
  [TX], [("a sub-transaction logs into a fresh log", TX + " impl From<&Context> for Foreground"), ("merge appends to the parent's log", TX + " Foreground::commit")],
  [("operation log", "per-context pending operations", TX + " Context::operations")],
  ["Context::transaction", "Ctx::transaction", "Transaction::with"])
p("C05", "Transactions are exclusive and become visible all at once",
  "From the moment its closure starts until its last operation has been applied, a schema transaction holds exclusive access to the graph: no reader, writer or other transaction observes or modifies the graph in between, and the access is released on every way out. Merely creating a transaction value locks nothing, and read access is shared.",
  ["schedules", "fault_sequences"], "every interleaving of transactions, readers and writers, and every exit (Ok, Err, panic)",
  "all tests are single threaded and never overlap two accesses",
  [TX, "plotline/src/schema/guard.rs", "plotline/src/schema/mod.rs"],
  [("write guard taken before the closure and kept through commit", TX + " Background::guard"), ("guards are RAII over one RwLock", "plotline/src/schema/guard.rs")],
  [("graph lock", "readers-writer lock around the graph", "plotline/src/schema/mod.rs Schema::graph")],
  ["Schema::transaction", "Schema::read", "Schema::write"])
p("C06", "A panic never disables the schema",
  "After any closure or trigger has panicked while holding access to the graph, reading the schema, writing to it and running further transactions keep working exactly as before: none of them panics, fails, blocks or silently skips its work because of the earlier panic. The same holds for lookups and recordings on a context that is still in use.",
  ["fault_sequences"], "every panic point and every later use",
  "no test panics while a guard is held",
  ["plotline/src/schema/guard.rs", TX],
  [("poisoned locks are recovered", "plotline/src/schema/guard.rs"), ("poisoned logs are recovered", TX + " Context")],
  [("graph lock", "may be poisoned by a panic", "plotline/src/schema/mod.rs Schema::graph")],
  ["Schema::read", "Schema::write", "Schema::transaction"])
p("C07", "Client code is never called under a lock it may need",
  "While a transaction's closure or a trigger runs, the only lock the library holds on its behalf is the exclusive access to the graph: recording, looking up, opening sub-transactions, and reading or mutating the target and resources through the objects it was handed never block on a lock held by an outer frame. No library operation acquires a lock it already holds, unless the caller asks for exclusive access to the same value twice in one tuple.",
  ["programs", "schedules"], "every use that closures and triggers make of the context, target and resources they receive",
  "the tests' triggers touch neither the target nor resources nor the context; a self-deadlock needs exactly such a combination",
  [TX, "plotline/src/schema/ops/save.rs", "plotline/src/schema/ops/delete.rs", "plotline/src/schema/trigger.rs", "plotline/src/deref.rs"],
  [("internal guards are dropped before client code runs", TX), ("triggers run outside any guard", "plotline/src/schema/ops/save.rs")],
  [("log lock", "protects one context's log", TX + " Context::operations"), ("target lock", "protects the target node", TX + " Target::lock")],
  ["Save::execute", "Delete::execute", "Trigger::execute"])
p("C08", "Saving runs the before hooks, stores the target, runs the after hooks",
  "Saving a node inside a transaction runs every before-save trigger with that node as target, then records exactly one save of the target's value at that moment (so what the triggers changed is what is stored), then runs every after-save trigger. If any trigger fails, nothing further runs and that error is what saving returns, so that nothing is committed; otherwise saving succeeds only if the node has been recorded.",
  ["programs", "fault_sequences"], "every set of triggers, every mutation they make to the target, every failure",
  "no test executes a save",
  ["plotline/src/schema/ops/save.rs", TX],
  [("hook order and error propagation", "plotline/src/schema/ops/save.rs Save::execute")],
  [("target", "the node being saved, shared with triggers", TX + " Context::target")],
  ["Save::execute"])
p("C09", "Deleting runs hooks around exactly one delete of an existing node",
  "Deleting an id that exists in the transaction runs every before-delete trigger with the existing node as target, then records exactly one delete of that id, then runs every after-delete trigger. Deleting an id that does not exist runs no trigger, records nothing and fails with the no-operation error; and if any trigger fails, nothing further runs and that error is returned.",
  ["programs", "histories", "fault_sequences"], "every state of the transaction, every id, every set of triggers and failures",
  "no test executes a delete operation",
  ["plotline/src/schema/ops/delete.rs", TX],
  [("existence check, hook order and error propagation", "plotline/src/schema/ops/delete.rs Delete::execute")],
  [("target", "the node being deleted", TX + " Context::target")],
  ["Delete::execute"])
TR = "plotline/src/schema/trigger.rs"
p("C10", "Scheduled triggers all run, in registration order, until one fails",
  "Executing the triggers selected for a schedule runs every trigger that was registered under that schedule, each exactly once, in registration order and with the given context, and runs no trigger registered under another schedule. It stops at the first trigger that fails and returns that failure; with no failure, or with nothing registered, it returns Ok.",
  ["programs", "fault_sequences"], "every sequence of registrations under any schedules, and every pattern of failures",
  "one test counts executions of three never-failing triggers; order and failure are not observed",
  [TR], [("per-schedule vectors in registration order", TR + " TriggerSet::with_trigger"), ("stop at first error", TR + " TriggerSelect::execute")],
  [("triggers", "triggers by schedule type", TR + " TriggerSet::triggers")],
  ["Schema::with_trigger", "TriggerSet::select", "Trigger::execute"])
p("C11", "A trigger function gets arguments from the executing context",
  "For every supported number of arguments, executing a trigger function calls that function exactly once, with each argument built from the context being executed, and returns exactly what the function returned. In particular the target argument shares the executing context's target, resources are those of the schema, and changes made through the handle it receives land in the executing context.",
  ["programs"], "every trigger function of zero to eight arguments and every argument type",
  "a test runs functions of one and two arguments that ignore their arguments",
  [TR, TX], [("generated implementations", TR + " impl_trigger"), ("argument construction", TX + " impl From<&Context> for Target / Ctx")],
  [], ["Trigger::execute"])
RS = "plotline/src/schema/resource.rs"
p("C12", "Resources are found by type, the latest one wins, and it is shared",
  "Asking for a resource finds the one most recently registered under exactly that type, and all handles to it read and write the same value; registering one type never affects another. A type that was never registered yields an absent handle, and a resource exists if and only if its type was registered.",
  ["histories", "programs"], "every sequence of registrations and every resource type",
  "two tests register one resource each; re-registration and several types at once are not exercised",
  [RS], [("map keyed by type identity", RS + " ResourceSet::with_resource"), ("handles share the stored lock", RS + " impl From<&ResourceSet> for Res")],
  [("resources", "resource by type identity", RS + " ResourceSet::resources")],
  ["Schema::with_resource", "Res::exists", "Res::from"])
p("C13", "Scoped access runs the closure once with everything, or not at all",
  "Scoped access to a target or resource, or to a tuple of them, calls the given closure exactly once with the current value of every component, in order, and returns its result; if any component is absent the closure is not called and nothing is returned. A value whose exclusive access was cut short by a panic counts as absent. For the whole duration of the closure the access is held: shared for reading and exclusive for writing, so that changes made through it are what the next access sees; an access held for writing gives the same value to read.",
  ["programs", "schedules"], "every combination of present and absent components, of one to six components",
  "two tests access single present resources; tuples, absence and exclusivity are not exercised",
  ["plotline/src/deref.rs", RS, TX], [("blanket and tuple implementations", "plotline/src/deref.rs With / WithMut"), ("guards", RS + " ResReadGuard, ResWriteGuard")],
  [], ["With::with", "WithMut::with_mut"])
G = "plotline/src/graph/mod.rs"
p("C14", "The graph keeps every node under its own id, the latest one winning",
  "Every way of putting a node into a graph stores it under the id the node reports, replaces any node with that id, and leaves all others alone; building a graph from a sequence keeps the last node of each id. Removing an id removes that node only; both report the node they displaced, if any. A node is found, and reported as contained, exactly when its id was put in and not removed since, and iterating yields each such node.",
  ["histories", "inputs"], "every sequence of insertions and removals over any ids",
  "tests build graphs of at most two nodes with distinct ids and never remove or replace directly",
  [G], [("map keyed by the node's id", G + " Graph::insert, with_node, remove, from_iter")],
  [("nodes", "nodes by id", G + " Graph::nodes")],
  ["Graph::insert", "Graph::remove", "Graph::get", "Graph::contains"])
PX = "plotline/src/graph/proxy.rs"
p("C15", "A node handle reflects its source and its edges exactly",
  "A node handle is virtual if and only if its source does not contain its id, it dereferences to the source's node for that id, and to nothing if there is none. Its successors are handles on the same source for exactly the edges of that node, in order and including repetitions; a handle on a missing node has none.",
  ["inputs", "histories"], "every source, id and edge list, including dangling and repeated edges",
  "tests use single-edge cycles over a graph; dangling edges, several edges and transactional sources are not exercised",
  [PX], [("lookup through the source", PX + " NodeProxy::try_deref, is_virtual, successors")],
  [], ["NodeProxy::is_virtual", "NodeProxy::try_deref", "NodeProxy::successors"])
LZ = "plotline/src/document/lazy.rs"
p("C16", "A lazy document is loaded at most once and never lost",
  "Dereferencing a lazy document yields the content it was created with, else what the repository finds under its id; once loaded it is never looked up again and the same content is always returned, by clones as well. It yields nothing only if the repository found nothing, and a later attempt asks the repository again; this also holds when several threads dereference it at the same time.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of concurrent dereferences and every pattern of repository failures",
  "no test touches lazy documents, let alone from several threads",
  [LZ], [("write-once cell filled on demand", LZ + " LazyDocument::try_deref")],
  [("document", "cached content", LZ + " LazyDocument::document")],
  ["LazyDocument::try_deref", "LazyDocument::new", "LazyDocument::builder"])
p("C17", "Configuring a schema only ever adds to it",
  "Building a schema from a graph keeps that graph, and adding a resource, scheduling a trigger or installing a plugin keeps the graph and everything registered before, apart from an older resource of the same type. Installing a plugin hands it the schema as it is and yields exactly the schema the plugin returns.",
  ["histories", "programs"], "every sequence of configuration calls",
  "tests chain at most three trigger registrations and one resource, and install no plugin",
  ["plotline/src/schema/mod.rs", TR, RS], [("by-value builder methods", "plotline/src/schema/mod.rs Schema::with_resource, with_trigger, install")],
  [], ["Schema::install", "Schema::with_resource", "Schema::with_trigger"])
RP = "plotline-cli/src/repository.rs"
p("C18", "Finding a local document reads just its own file",
  "Looking up a document id in the local repository reads the file whose path is the base directory joined with the id, followed by a dot and the configured extension, whatever characters the id contains, and yields that file's bytes as a document that carries the requested id. If the file cannot be read it yields nothing, without panicking, and no lookup or listing ever creates, changes or removes a file.",
  ["inputs", "fault_sequences"], "every id (with dots, without, nested), extension and base directory, and every I/O error",
  "the command line crate has no tests",
  [RP], [("path construction and error handling", RP + " find_by_id")],
  [], ["DocumentRepository::find_by_id"])
p("C19", "Listing local documents yields one loadable id per matching file",
  "Listing the local repository yields an id for each regular file visited under the base directory (hidden and ignored entries are not visited) whose name ends in a dot followed by the configured extension, taken literally, and for nothing else, not even directories. Each id is the file's path relative to the base directory without that ending, so looking it up again reads that same file; an entry that cannot be read is skipped and neither it nor the extension's characters make the listing panic.",
  ["inputs", "configurations", "fault_sequences"], "every directory tree, file name and extension",
  "the command line crate has no tests",
  [RP], [("filtering and id extraction", RP + " all")],
  [], ["LocalDocumentRepository::all"])
DC = "plotline-cli/src/document.rs"
p("C20", "Every document command does its one job or reports an error",
  "The delete and save commands require an id, reporting an error and leaving the schema untouched if it is missing or malformed, and otherwise execute exactly one delete, or one save of the given content under the given id, in a transaction of the schema; listing prints every node id of the schema once and modifies nothing. Every failure, including that of writing the output, is returned to the caller, so that the process exits with failure; no command panics.",
  ["inputs", "fault_sequences"], "every command line and every failure of the schema or of the output",
  "the command line crate has no tests",
  [DC, "plotline-cli/src/main.rs"], [("command dispatch", DC + " DocumentCli::execute")],
  [], ["DocumentCli::execute"])
ND = "plugins/interval/src/node.rs"
p("C21", "Interval queries prune only what cannot match",
  "On an interval tree whose nodes keep the smallest-bound order and record an upper limit no smaller than any upper bound below them, visiting the intersections of a query reports every stored interval that overlaps it exactly once and no other, and asking whether any interval overlaps never answers yes without one. When the recorded limits are exact, it answers no only if there is none. Counting a tree yields how many intervals it holds.",
  ["inputs", "histories"], "every tree shape and every query",
  "eight hand-made trees of at most five intervals, in a crate that the workspace does not build",
  [ND, "plugins/interval/src/tree.rs"], [("pruned traversals", ND + " intersects, for_each_intersection")],
  [("max", "upper limit recorded at a node", ND + " IntervalSearchTreeNode::max")],
  ["IntervalSearchTree::intersects", "IntervalSearchTree::for_each_intersection"])
p("C22", "Inserting and deleting keep an interval tree searchable",
  "Inserting an interval adds exactly that interval and keeps all others; deleting removes exactly one interval equal to the given one, which then has the same bounds, if there is any, wherever insertion may have put it, and keeps all others. After either, every node still has only smaller lower bounds on its left and none on its right, and records exactly the greatest upper bound among itself and its descendants; both terminate on every tree. Rotating a subtree keeps its intervals, leaves none with a greater lower bound left of one with a smaller, and keeps the limits exact.",
  ["histories", "inputs"], "every sequence of insertions and deletions, with any repetition of bounds",
  "no test deletes, and the crate is not built by the workspace",
  [ND, "plugins/interval/src/tree.rs"], [("descent and limit maintenance", ND + " insert, delete, join, rotations")],
  [("max", "upper limit recorded at a node", ND + " IntervalSearchTreeNode::max")],
  ["IntervalSearchTree::insert", "IntervalSearchTree::delete"])
p("C23", "Interval containment and overlap are exact and symmetric",
  "An interval contains a bound if and only if the bound is neither below its lower nor above its upper bound, both inclusive. Two intervals overlap if and only if they share a bound, that is, neither lies entirely below the other (their lower bounds not exceeding their upper ones), and the answer does not depend on which of the two is asked.",
  ["inputs"], "every pair of intervals, in every relative order of their four bounds",
  "five hand-made pairs, through the tree, in a crate that the workspace does not build",
  ["plugins/interval/src/lib.rs"], [("comparisons of bounds", "plugins/interval/src/lib.rs IntervalExt")],
  [], ["IntervalExt::intersects", "IntervalExt::contains"])
DT = "plugins/interval/src/date.rs"
p("C24", "Dates are totally ordered by their most significant component",
  "Comparing two big-endian dates orders them by the first component in which they differ, and two little-endian dates by the last one; dates compare as equal exactly when all their components are equal, and partial and total comparison always agree. As an interval, a date starts and ends at itself.",
  ["inputs"], "every pair of dates of any number of components",
  "no test compares dates, and the crate is not built by the workspace",
  [DT], [("component-wise comparison", DT + " impl Ord for Date")],
  [], ["Ord::cmp", "PartialOrd::partial_cmp", "PartialEq::eq", "Interval::lo", "Interval::hi"])
p("C25", "Safe code cannot race on a schema or corrupt memory through it",
  "No safe program using these crates can cause a data race or memory corruption: the crates contain no unsafe code of their own. A schema, whose resources and triggers need not be thread-safe, can therefore not be sent to or shared with another thread, and neither can resource handles or contexts.",
  ["programs", "schedules"], "every safe client program",
  "tests can only show programs that compile, not that an unsound program is rejected",
  ["plotline/src/schema/mod.rs", RS, TR], [("auto traits and absence of unsafe code", "plotline/src, plotline-cli/src, plugins/interval/src")],
  [], ["Schema", "Res", "Context"])
p("C26", "The interval plugin keeps its search tree in step with the graph",
  "Once the interval plugin is installed, its search tree holds exactly the intervals extracted from the nodes of the graph after every committed save and delete.",
  ["histories"], "every history of committed saves and deletes",
  "the plugin has no tests",
  ["plugins/interval/src/plugin.rs"], [("after-save and after-delete triggers", "plugins/interval/src/plugin.rs")],
  [], ["IntervalPlugin::install"])
p("C27", "Saved documents outlive the process",
  "A document saved or deleted through the command line is found saved or deleted by every later run over the same base directory.",
  ["crash_points", "histories"], "every sequence of runs and crashes in between",
  "the command line crate has no tests",
  [RP, DC], [("none yet", "plotline-cli/src")],
  [], ["plotline doc save", "plotline doc delete"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
