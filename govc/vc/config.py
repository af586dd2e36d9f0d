"""Per-property configuration: proof suites, bounded stand-in, level, wording for evidence and manifest."""

RULE_B = ('random histories of 60-400 operations (put/patch/delete/get/bisect/len/flush/purge/prune/touch/touchitem/'
          'layout/reopen/limits/fault injection) over one or two trees sharing a cache, maximum node size 4-12, occasionally up to 260, '
          'biased towards splitting/merging bursts; a case is non-trivial when its tree reached height 2 or more or '
          'held more than two items; every operation is compared with a sorted-sequence model and the property is '
          're-checked on the full reachable state after every step')
RULE_L = ('all histories that build and take apart a tree of up to n keys in every order (exhaustive), then random '
          'histories of 60-200 operations; non-trivial when more than two items were held')

MARKS = 'placeNodeOnStaleOnDiskReferenceList markNodeDirty markNodeClean markNodeEvicted markNodeToBeDiscarded touchLoadedNodeToRoot'
READS = 'Len GetByIndex GetByKey BisectLeft BisectRight'
INSERT = (' NewBPlusTree NewLLRBTree Put insertHere updatePrefixSumTreeLeafToRoot updatePrefixSumTreeLeafToRootRecursively'
          ' arrangePrefixSumTree arrangePrefixSumTreeRecursively rearrangePrefixSumTreeToRoot')
# B+Tree functions whose obligations each property rests on
BTREE = {k: set(v.split()) for k, v in {
    'C04': READS + ' PatchByIndex PatchByKey touchLoadedNodeToRoot' + INSERT,
    'C05': 'FetchDimensionsReport' + INSERT,
    'C06': 'Flush flushNode Purge purgeNode Touch touchNode FetchLocation Prune pruneWhileLocked ' + MARKS,
    'C07': 'Flush flushNode Purge purgeNode Touch touchNode TouchItem PatchByIndex PatchByKey ' + MARKS + INSERT,
    'C08': 'Flush flushNode Purge purgeNode Touch touchNode Prune pruneWhileLocked Discard discardNode ' + MARKS + INSERT,
    'C09': 'Flush flushNode Purge purgeNode Touch touchNode ' + MARKS + INSERT,
    'C11': READS + ' PatchByIndex PatchByKey TouchItem Flush flushNode touchLoadedNodeToRoot' + INSERT,
    'C13': 'FetchLayoutReport updateLayoutReport purgeNode Purge',
    'C14': 'TouchItem touchLoadedNodeToRoot markNodeDirty placeNodeOnStaleOnDiskReferenceList',
}.items()}

PROPS = {
    'C01': dict(suites=['cmp'], level='proof', rule='random and extreme pairs of each key type, and keys of other dynamic types', ms=8000),
    'C02': dict(suites=['llrb'], level='proof', rule=RULE_L, ms=8000),
    'C03': dict(suites=['llrb'], level='proof', rule=RULE_L, ms=8000),
    'C04': dict(suites=['btree'], level='exploration', rule=RULE_B, ms=40000),
    'C05': dict(suites=['btree'], level='exploration', rule=RULE_B, ms=40000),
    'C06': dict(suites=['btree'], level='exploration', rule=RULE_B, ms=40000),
    'C07': dict(suites=['btree'], level='exploration', rule=RULE_B, ms=40000),
    'C08': dict(suites=['btree'], level='exploration', rule=RULE_B, ms=40000),
    'C09': dict(suites=['cache', 'btree'], level='exploration', rule=RULE_B, ms=40000),
    'C10': dict(suites=['llrb', 'locks'], level='proof', rule=RULE_B + '; plus concurrent clients under the race detector', ms=30000, race=True),
    'C11': dict(suites=['llrb', 'btree'], level='exploration', rule=RULE_B, ms=40000),
    'C12': dict(suites=['llrb'], level='exploration', rule=RULE_B, ms=40000),
    'C13': dict(suites=['btree'], level='exploration', rule=RULE_B, ms=40000),
    'C14': dict(suites=['btree'], level='exploration', rule=RULE_B, ms=40000),
}

ASSUME_LLRB = [
    'Compare is a total preorder: it errs exactly for keys it does not understand, otherwise its sign is that of the difference of two real numbers attached to the keys, and it does not touch the map',
    'a map holds fewer than 2^62 items (int arithmetic on lengths is then exact)',
    'DumpKey/DumpValue callbacks, fmt and strings do not touch the map',
    'sync.Mutex provides mutual exclusion; Go memory model; go/ssa (x/tools) translates the source faithfully; z3/cvc5 are sound',
    'memory allocated by new is distinct from all earlier memory',
]

ASSUME_CMP = [
    'strings.Compare, bytes.Compare and time.Time comparison methods follow the natural total order of their types',
    'go/ssa translates the source faithfully; z3/cvc5 are sound',
]

ASSUME_LOCKS = [
    'locks mode treats all data values as arbitrary; branches are followed both ways',
    'node pointers read from fields, in-memory maps and slices of a tree whose lock is held belong to that tree (proved wherever one is written, passed or returned)',
    'in-memory maps inside nodes are not shared between trees; user callbacks do not call back into the same tree or cache',
    'a tree is private to its constructor until it is returned',
]

ASSUME_CACHE = [
    'fewer than 2^62 nodes on a list and 2^62 hits or misses',
    'callers of the mark functions pass a node of the locked tree, listed where the contract says so; purgeNode of a clean node succeeds',
    'tags of nodes of a tree change only under that tree lock (proved by the locks suite of C10)',
]

ASSUME_BTREE = [
    'loadNode is assumed to bring back what was stored, as its contract says (its body, with the codec, is covered by the bounded part)',
    'postNode is assumed to store a node as its contract says (its body, with the codec, is covered by the bounded part)',
    'PutNode returns a location never used before for this tree, whose length is positive and whose object number is not 0; DiscardNode errs or releases',
    'the tree invariant is established by NewBPlusTree, assumed on entry of each public operation and proved on its exit, for the operations named under proved_part; DeleteByIndex, DeleteByKey and OldBPlusTree are not among them: that they establish it is covered by the bounded part',
    'the node cache functions called have the effects their contracts state on tree nodes (cache suite, C09)',
    'a tree holds fewer than 2^62 items; int arithmetic on lengths and indices is then exact',
    'Compare is a total preorder that errs exactly for keys it does not understand; user callbacks do not touch the tree',
]

ASSUME_B = [
    'bounded part: only the generated histories were run; nothing is claimed beyond them',
    'callbacks used by the replay engine return what was given to them unless a fault is injected',
]

NOTE = {
    'C01': ('every built-in comparator: sign, nil error and refusal of other dynamic types, for every pair of keys', 'cross-check only'),
    'C02': ('every function of llrb_tree.go against the abstract sorted sequence, every input, every tree', 'cross-check only'),
    'C03': ('red-black invariant of every recursive function and of the public operations, plus the height lemmas', 'cross-check only'),
    'C04': ('NewBPlusTree, Len, GetByIndex, GetByKey, BisectLeft, BisectRight, Put (with every split), PatchByIndex, PatchByKey return what the sorted sequence would, change it as it would and keep the tree invariant, for every tree and argument', 'DeleteByIndex, DeleteByKey (borrows, merges)'),
    'C05': ('FetchDimensionsReport reports the exact limits, items and height of every tree satisfying the invariant (occupancy and uniform depth are conjuncts of that invariant, kept by every operation under contract, NewBPlusTree and Put with every split included)', 'that Delete keeps occupancy and uniform depth'),
    'C06': ('Flush returns the location of a stored copy equal to the whole tree, with nothing stored earlier changed; Touch, Purge, Prune, FetchLocation and Flush leave the sequence unchanged, given the contracts of loadNode and postNode', 'the encoded form (loadNode, postNode) and reopening'),
    'C07': ('dirty nodes have dirty ancestors in every state; PatchByIndex, PatchByKey, TouchItem mark leaf to root; Put marks all it changes and creates; Touch marks every node; Flush returns success only with every node clean and stored; Purge never drops a dirty node', 'the marking done by Delete'),
    'C08': ('every stored node is either in use or on the superseded list, never both; marking moves it there once; Prune releases each once and only if not in use; Discard releases all', 'the marking done by Delete; that postNode writes to a new location'),
    'C09': ('the cache lock invariant (both lists exact, in least-recently-used order, counts, statistics, limits, one drainer, LRU victim, start and stop conditions) for every cache operation; tags agree with the loaded and dirty flags of every tree node after Flush, Purge, Touch, Put and all marking', 'that tags agree after Delete'),
    'C10': ('every function of the in-memory map, the B+Tree and the node cache: guarded fields only under their lock, locks on return as on entry, one critical section per exported operation, lock order tree before cache', 'cross-check (concurrent clients under the race detector)'),
    'C11': ('in-memory map: every rejected or failing operation leaves the sequence unchanged; B+Tree: the same for the get, bisect, put and patch operations, TouchItem and Flush, which err only when the comparator refuses the key or a callback fails', 'DeleteByIndex and DeleteByKey'),
    'C12': ('in-memory map: validate returns nil exactly when every item count is right', 'B+Tree'),
    'C13': ('FetchLayoutReport: for every tree satisfying the invariant the report is, for each object number, the sum of the lengths of exactly the stored nodes in use, each counted once, and the sequence is unchanged', 'trees as Delete leaves them; the encoded form'),
    'C14': ('TouchItem: marks the leaf holding the index and all above it, returns the index after that leaf, 0 past the end, sequence unchanged, for every tree and index (progress and coverage of the sweep follow from next > index and the leaf ranges)', 'trees as Delete leaves them; the encoded form'),
}


def ASSUME(prop):
    out = []
    for name, text in (('cmp', ASSUME_CMP), ('llrb', ASSUME_LLRB), ('locks', ASSUME_LOCKS), ('cache', ASSUME_CACHE), ('btree', ASSUME_BTREE)):
        if name in PROPS[prop]['suites']:
            out += text
    return out + ASSUME_B


def TRUSTED(prop, results):
    out = ['z3', 'cvc5', 'golang.org/x/tools/go/ssa', 'govc (this condition generator)']
    for r in results:
        out += ['assumed contract: ' + t for t in r.trusted]
    return out
