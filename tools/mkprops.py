import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=hook)))
S="graphrox-rs/src/graph/standard.rs";K="graphrox-rs/src/graph/compressed.rs";A="graphrox-rs/src/matrix/csr_adjacency_matrix.rs";Q="graphrox-rs/src/matrix/csr_square_matrix.rs";U="graphrox-rs/src/util/mod.rs";C="graphrox-c/src/lib.rs";Y="graphrox-py/graphrox/__init__.py"
p("C01","Graph queries always agree with the edge set the call history denotes",
 "After any sequence of vertex additions, edge additions and edge deletions issued by any interleaving of callers on any number of live graphs, every query on a graph (vertex count, edge count, edge existence, in/out edges and degrees, edge iteration, adjacency-matrix string) agrees with the vertex and edge set that graph's own history denotes, and an undirected graph is always symmetric. Repeating an addition or deleting an absent edge changes no edge, deletion never changes the vertex count, and an edge naming the unrepresentable id 2^64-1 is ignored as a whole. No history, however long or whatever ids it uses, makes an operation panic.",
 ["histories","schedules","inputs"],"every finite interleaved history of mutations and queries over several graphs, both directions, any u64 ids, any process hash seed, and any preemption of one caller inside an operation by callers working on other graphs",
 "The unit tests replay short fixed scripts on one graph in one thread with a random, unrecorded hash seed; they never compare all observers after each step of a long mixed history.",
 [S,A],[("set_entry/zero_entry keep edges_table, entry_count and dimension in step",A),("add_edge/delete_edge mirror the reverse edge for undirected graphs",S)],
 [("edges_table","adjacency map column -> set of rows",A),("entry_count","cached number of edges",A),("dimension","cached vertex count",A)],["graphrox::Graph public methods","GraphRepresentation trait"])
p("C02","Sparse matrices agree with the entry history and count only non-zero entries",
 "After any interleaved history of set, zero and increment operations on adjacency and numeric matrices, every read (entry, dimension, entry count, column/row vectors and counts, iteration) agrees with the last value written to each position, and exactly the non-zero entries are counted and iterated; writing zero clears the entry. Building a directed graph from a matrix always gives the graph with exactly those edges, and building an undirected graph succeeds exactly when the matrix is symmetric.",
 ["histories","schedules","inputs"],"every finite interleaved history over several matrices of every numeric type, any u64 coordinates, any process hash seed",
 "The tests write each position at most a couple of times and never return an entry to zero by another route than zero_entry.",
 [A,Q,S],[("set_entry/zero_entry/increment_entry maintain edges_table, entry_count, dimension",Q),("undirected_from symmetry scan",S)],
 [("edges_table","column -> row -> value",Q),("entry_count","cached number of non-zero entries",Q)],["graphrox::matrix public API","Graph::directed_from/undirected_from"])
p("C03","Derived and copied objects are independent of later mutations",
 "Anything obtained from a graph, matrix or compressed graph (a clone, a list, an approximation, a pooling matrix, a compressed graph, a byte image, a decompressed or decoded graph) keeps exactly the value it had when it was obtained, however the source or any other object is mutated or dropped afterwards, and mutating the derived object never changes its source.",
 ["histories","schedules"],"every interleaved history of derivations, mutations and drops over a growing pool of live objects, including derivations of derivations",
 "The tests check a derived value once, immediately after deriving it; none mutates or drops the source and looks at the derivative again.",
 [S,K,A,Q],[("Clone and derivations build fresh storage",S)],None,["Graph, CompressedGraph, CsrSquareMatrix public API"])
p("C04","An acknowledged Graph save survives crashes and restores exactly",
 "A graph image that was durably stored and acknowledged is, after any crash, restart or disk fault sequence that left those bytes intact, decoded by a new process to a graph indistinguishable from the saved one (direction, vertex count, every edge), whatever hash seed or record order either process used. The version-1 layout is stable: images written by another build of the same format version are accepted with the same meaning, and images written here are understood by it with the same meaning. A partially written image is never restored as a different graph.",
 ["crash_points","fault_sequences","histories"],"every history of edits and saves over a simulated disk with torn, short, lost and failing writes, full disk, and a crash and restart at any write, sync or rename, with old-build and new-build processes mixed",
 "The tests round-trip a handful of small graphs in memory inside one process; no storage, crash, restart or second implementation is involved.",
 [S],[("to_bytes writes a counted header and one record per edge",S),("TryFrom<&[u8]> validates length, counts, bounds and symmetry",S)],
 [("image","26-byte big-endian header + 16-byte (from,to) records",S)],["Graph::to_bytes","Graph::try_from"])
p("C05","An acknowledged CompressedGraph save survives crashes and restores exactly",
 "A compressed-graph image that was durably stored and acknowledged is, after any crash, restart or disk fault sequence that left those bytes intact, decoded by a new process to a compressed graph indistinguishable from the saved one (direction, vertex count, edge count, level, every 8x8 block) and decompressing to the same graph. The version-2 layout is stable across builds in both directions, and older versions are refused. A partially written image is never restored as a different compressed graph.",
 ["crash_points","fault_sequences","histories"],"as C04, for compressed graphs of every level",
 "The tests round-trip two or three fixed compressed graphs in memory.",
 [K],[("to_bytes / TryFrom<&[u8]> of the compressed graph",K)],
 [("image","42-byte big-endian header + 24-byte (entry,col,row) records",K)],["CompressedGraph::to_bytes","CompressedGraph::try_from"])
p("C06","Damaged or hostile Graph images are refused or decode to exactly what they say",
 "Decoding any byte string as a graph either returns an invalid-format error or a graph that is self-consistent (counts match the edges, edges lie within the vertex count, undirected graphs are symmetric) and whose edges are exactly the records in the bytes (with their mirror images when undirected); it never panics, hangs or aborts. Bytes that are not an image at all — wrong magic, version, flags or length, an edge count that is not the number of edges, out-of-range endpoints — are always refused.",
 ["fault_sequences","inputs"],"every sequence of stored-byte faults (flips, truncations, extensions, lost or duplicated or misplaced sectors, spliced images, header edits) applied to real images, and a retry from an intact copy afterwards",
 "The tests feed about a dozen hand-made bad headers.",
 [S],[("header and record validation in TryFrom<&[u8]>",S)],None,["Graph::try_from"])
p("C07","Damaged or hostile CompressedGraph images are refused or decode exactly",
 "Decoding any byte string as a compressed graph either returns an invalid-format error or a compressed graph that is self-consistent (edge count equals the edges it reports and the edges of its decompression, every edge within the vertex count, undirected graphs symmetric, level 1..64) and whose blocks are exactly the records in the bytes; it never panics, hangs or aborts. Bytes with a wrong magic, version, flag, level, length, dimension, count, zero or repeated block, out-of-range bit, or an asymmetric undirected matrix are always refused.",
 ["fault_sequences","inputs"],"as C06, for compressed images",
 "The tests feed about a dozen hand-made bad headers; none covers repeated or asymmetric blocks.",
 [K],[("header, block and count validation in TryFrom<&[u8]>",K)],None,["CompressedGraph::try_from","CompressedGraph::decompress"])
p("C08","Replicas that received the same edits converge whatever the delivery",
 "Nodes that have received the same edits — in different orders, with duplicates, after partitions, or partly through a snapshot image plus the remaining edits after a restart — hold graphs that no query can tell apart. Everything they derive (pooling matrix, approximation, compressed graph, decompression) is then the same value on every node, independent of each process's hash seed, allocation pattern and history.",
 ["schedules","fault_sequences","histories","configurations"],"every delivery schedule over a simulated network with loss, duplication, reordering, delay, partitions and heals, node crash and restart, and every assignment of hash seeds to processes; checked after the faults stop and the log is re-delivered",
 "Tests run one process with one unrecorded hash seed and one insertion order.",
 [S,K,A,Q],[("edge insertion is idempotent and order-free",A),("derivations iterate hash maps but must not depend on the order",S)],None,["Graph public API on several simulated nodes"])
p("C09","Average pooling and approximation obey the documented block rule exactly",
 "For a graph reached by any history, the average pooling matrix for block dimension b has one entry per b-by-b block (b clamped to 1..vertex count, edge blocks zero-padded) equal to the number of edges in the block divided by b squared, and the approximation has exactly the edges whose pooled entry is at least the threshold, clamped to 10^-18..1, with the same direction and one vertex per block row. A block dimension of 0 or 1 or at most one vertex gives a copy of the graph.",
 ["histories","inputs","configurations"],"every graph state reached by an interleaved history, every block dimension and threshold (exact boundaries included), every hash seed",
 "The tests use three or four hand-made graphs with block dimensions 2 to 10 and round thresholds.",
 [S,Q,U],[("find_avg_pool_matrix / approximate",S),("clamp_threshold",U)],None,["Graph::find_avg_pool_matrix","Graph::approximate"])
p("C10","Compression keeps exactly the blocks that reach the level, losslessly",
 "For a graph reached by any history and any level (clamped to 1..64), the compressed graph contains every 8x8 block with at least that many edges bit for bit and no other edge, reports vertex count, edge count, direction and level accordingly, answers edge queries accordingly, and decompresses to exactly the graph of those edges. Level 1 is lossless: decompressing gives back a graph equal to the original.",
 ["histories","inputs","configurations"],"every graph state reached by an interleaved history, every level 0..255, ids up to 2^64-2, every hash seed",
 "The tests compress a few small graphs at one level each and do not compare every block.",
 [S,K],[("compress: pool, threshold, pack bits",S),("decompress / does_edge_exist / get_compressed_matrix_entry",K)],None,["Graph::compress","CompressedGraph public API"])
p("C11","Running out of memory for an output is an error, not a crash, and is retryable",
 "When memory for a byte image or a matrix string cannot be obtained — because the size overflows or the allocator refuses it — the operation returns a capacity error without panicking or aborting, leaks nothing, and leaves the object exactly as it was; once memory is available again the same call succeeds with the right result.",
 ["fault_sequences","histories"],"every placement of refused output-sized allocations in a history of saves and renderings of graphs, compressed graphs and matrices, including dimensions whose rendering cannot fit in memory",
 "No test makes an allocation fail; one or two check an overflowing dimension.",
 [S,K,A,Q],[("try_reserve_exact and checked size arithmetic",S)],None,["to_bytes","matrix_string","to_string_with_precision"])
p("C12","Cost follows the real data, never the magnitude of ids or header claims",
 "Every graph, matrix and codec operation other than rendering completes with memory and work bounded by the number of edges, records or bytes actually present, however large the vertex ids, block coordinates, block dimensions, vertex counts or header claims are. In particular no arithmetic on them overflows or panics anywhere in the 64-bit id range, and a refused image costs no more than its own length.",
 ["inputs","histories","fault_sequences"],"every history over sparse graphs and matrices with ids anywhere in 0..2^64-1, huge block dimensions, and images whose headers claim arbitrary counts and dimensions",
 "Tests use ids of a few hundred; no test measures memory or work.",
 [S,K,A,Q],[("sparse storage; length check before decoding; checked arithmetic",S)],None,["peak allocation and CPU watchdog around each public operation"])
p("C13","C API handles and buffers are owned, exact and leak-free under any interleaving",
 "Under any interleaving of C API calls by several threads on distinct or shared-for-reading handles, each call returns what the graph behind the handle denotes, every returned buffer holds exactly the stated number of valid elements (strings NUL-terminated), and each handle or buffer stays valid and unchanged until it is itself freed, whatever else is freed or mutated first. Freeing every handle and buffer once, in any order, releases all memory, with no double free, invalid free or access to freed memory inside the library.",
 ["schedules","histories"],"every interleaving of C API calls and frees over a pool of live graphs, compressed graphs, matrices, duplicates and buffers",
 "The C tests free objects once in one fixed order and only check that nothing crashes; nothing tracks allocations.",
 [C],[("Box::into_raw / Box::from_raw pairs",C)],None,["the C ABI of gphrx.h, with a tracking allocator underneath"])
p("C14","The C API reports every failure as documented and never takes the caller down",
 "When a C API call cannot succeed — corrupt or absent input bytes, a null handle, a null list, or no memory for a byte image or a string — it returns a null handle or pointer with length 0 and sets the error code where one is offered, leaves every other handle untouched, and never unwinds into or aborts the caller; optional out-parameters may be null. A call that succeeds clears the error code, and the same call succeeds once the cause is gone.",
 ["fault_sequences","histories","inputs"],"every sequence of C API calls with corrupted images, null handles, null out-parameters and refused output-sized allocations injected at any call",
 "The tests pass null to a few functions; none injects an allocation failure.",
 [C],[("null checks, error codes, Option/Result to null mapping",C)],None,["the C ABI of gphrx.h under fault injection"])
p("C15","Concurrent readers and independent writers never disturb one another",
 "Any number of threads may query, iterate, derive from, encode or clone the same graph, matrix or compressed graph at once while other threads create, mutate and drop other objects, and each call returns exactly what it would have returned running alone. No interleaving deadlocks, panics, leaks state between objects or makes two objects share a result.",
 ["schedules"],"every interleaving of reader and independent-writer threads preempted at arbitrary machine instructions",
 "All tests are single-threaded.",
 [S,K,A,Q],[("no shared mutable state behind &self; Send + Sync by construction",S)],None,["public API from simulated threads"])
p("C16","Python objects stay valid and correct under any finalisation order",
 "Whatever order Python objects (graphs, compressed graphs, matrices, lists, iterators, duplicates) are created, used, dropped and garbage-collected in, and however threads working on separate objects interleave, each live object gives the results its graph denotes, each native handle and buffer is freed exactly once and only after its last use, and dropping everything frees everything.",
 ["schedules","histories"],"every interleaving of calls, drops, cycles and collections over a pool of live Python objects on several Python threads preempted between bytecodes",
 "tests.py drops objects in scope order in one thread and cannot see native memory.",
 [Y,C],[("__del__ frees the handle; iterators hold a reference to their list",Y)],None,["the graphrox Python package over a tracking native library"])
p("C17","Python surfaces every native failure as an exception and recovers",
 "A Python call whose native call fails — bytes that are not a valid image, or no memory for the image or string — raises the documented kind of exception (ValueError for invalid bytes, MemoryError for memory) and never returns a truncated or empty result, leaks, or makes later finalisation crash; the objects involved stay usable and the same call succeeds once the cause is gone.",
 ["fault_sequences","histories"],"every sequence of Python calls with corrupted images and refused native output allocations injected at any call",
 "No Python test feeds invalid bytes or makes a native call fail.",
 [Y],[("error code check after *_from_bytes; null check after *_to_bytes and *_string",Y)],None,["the graphrox Python package over a fault-injecting native library"])
p("C18","The compressed-graph builder's result depends only on the blocks added",
 "A compressed graph built block by block is the same whatever order the blocks arrive in and however builders are interleaved, whether or not the caller supplies each block's edge count: it reports the given direction and vertex count, the clamped level, the sum of the blocks' edges, and each block and edge exactly. Building the blocks of an existing graph gives a compressed graph indistinguishable from compressing that graph at level 1.",
 ["histories","schedules","inputs"],"every interleaving of several builders each receiving distinct non-zero in-range blocks in any order, with or without the optional counts, under any hash seed",
 "The tests build one or two compressed graphs in a single order.",
 [K],[("CompressedGraphBuilder accumulates blocks and edge count",K)],None,["graphrox::builder::CompressedGraphBuilder"])
p("C19","Matrix text shows every number at its place with the requested precision",
 "The text of a numeric matrix shows, for every position, the entry rounded to the requested number of decimals, in aligned rows of equal length.",
 ["inputs"],"every matrix of every numeric type and every precision",
 "The tests print a few matrices.",
 [Q,U],[("to_string_with_precision",Q)],None,["CsrSquareMatrix::to_string_with_precision"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
