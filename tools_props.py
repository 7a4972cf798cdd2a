#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the texts stay in one place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
NOCORE='The test suite only exercises small containers (vector, bit sets, merge sort); no test builds a decision diagram or runs a search.'
p('C01','Branch and bound returns the true optimum',
 'For every problem model whose components satisfy their documented roles (labels enumerate the feasible decisions, the merge over-approximates, the local bound and dominance are valid), the branch-and-bound search ends with the value of a best feasible solution, whatever the width of the diagrams. If no feasible solution exists the search reports none.',
 ['inputs','configurations'],'all layered problem models with a finite state space, all widths >= 1, minimisation and maximisation, with or without local bounds and dominance rules',
 NOCORE+' Optimality quantifies over every model and every width; a handful of example runs cannot settle it.',
 ['src/search.cpp','src/dd.cpp','src/dd.hpp'],[('best-first loop, pruning and cut-set exploration','src/search.cpp search'),('restricted and relaxed compilation','src/dd.cpp Restricted::compute, Relaxed::compute'),('subproblem transfer to the master list','src/dd.hpp duplicate/cloneNode, search.cpp')],
 [('open subproblem queue','subproblems still to be explored with their optimistic bound','src/search.cpp'),('incumbent','best solution found so far','src/dd.hpp Bounds')],['return of the search call','reported primal value'])
p('C02','Every reported incumbent is a feasible solution with its exact value',
 'Whenever the search reports an incumbent, the reported sequence of labels is a feasible path of the model from the initial to the target state and its objective equals the reported value. Successive incumbents strictly improve and the primal bound never worsens.',
 ['inputs','histories','configurations'],'all models, widths and moments at which an incumbent is published',
 NOCORE+' The incumbent must be right at every publication, for every model.',
 ['src/dd.cpp','src/dd.hpp','src/search.cpp'],[('label path kept with the best value of a node','src/dd.cpp AbstractDD::apply / computeBest'),('strictly-improving update','src/dd.hpp DD::update, src/dd.hpp Bounds')],
 [('incumbent labels','labels of the best known solution','src/dd.hpp Bounds')],['solution callback','primal bound after each update'])
p('C03','Exact compilation yields the optimal value and an optimal path',
 'Compiling a model without a width limit gives at the target the best objective over all label sequences from the initial to the target state, and the recorded labels form a path with that objective. Dominance pruning and local-bound pruning never change that value when the rules are valid.',
 ['inputs','configurations'],'all layered models, minimisation and maximisation, with and without dominance and local bound',
 NOCORE+' The optimum over all paths is a universal statement about the model.',
 ['src/dd.cpp','src/dd.hpp'],[('exact layer-by-layer construction','src/dd.cpp Exact::compute'),('best value and labels of each node','src/dd.cpp AbstractDD::computeBest')],[],['current optimum of the diagram','incumbent labels of the diagram'])
p('C04','Restricted compilation is sound and its exactness flag is honest',
 'The value of a restricted diagram is attained by a feasible path of the model that the diagram reports, so it never beats the true optimum. When the diagram reports that it is exact, its value is the true optimum of the compiled subproblem.',
 ['inputs','configurations'],'all models, all widths, all starting subproblems',
 NOCORE+' Soundness must hold for every truncation choice.',
 ['src/dd.cpp'],[('layer truncation','src/dd.cpp Restricted::compute, truncate'),('exactness flag','src/dd.cpp Restricted')],[],['value, labels and exactness of the compiled restricted diagram'])
p('C05','Relaxed compilation bounds the optimum and its exactness flag is honest',
 'The value of a relaxed diagram is at least as good as every feasible solution of the compiled subproblem, whatever nodes are merged. When the diagram reports that it is exact, its value is attained by a feasible path.',
 ['inputs','configurations'],'all models whose merge over-approximates, all widths, all starting subproblems',
 NOCORE+' The bound must hold for every merge order and every width.',
 ['src/dd.cpp','src/dd.hpp'],[('merging of nodes','src/dd.cpp Relaxed::mergeLayer, mergePair, mergeOne'),('layered queue','src/dd.cpp LQueue'),('propagation of best values','src/dd.cpp tighten, computeBest')],[],['value and exactness of the compiled relaxed diagram'])
p('C06','The exact cut set covers every better solution with a valid bound',
 'The subproblems extracted from an inexact relaxed diagram are exact: each is reached by a real prefix with the recorded value. Every feasible solution of the compiled subproblem passes through one of them, and the optimistic bound attached to that subproblem is at least as good as the solution.',
 ['inputs','configurations'],'all models, all widths, all solutions of the compiled subproblem',
 NOCORE+' Coverage quantifies over all solutions of the model.',
 ['src/dd.cpp'],[('cut-set extraction','src/dd.cpp Relaxed::computeCutSet'),('backward bounds','src/dd.cpp computeBestBackward')],[],['cut set returned by the relaxed diagram'])
p('C07','A state is represented once and found again by the hash tables',
 'A hash table returns for every key exactly the value most recently associated with an equal key, reports absence exactly when there is none, and forgets everything on clear. This holds for every hash function, including colliding ones, every capacity of at least two and every sequence of operations.',
 ['inputs','histories'],'all keys, all hash values, all operation sequences',
 'No existing test instantiates the hash tables; correctness must hold for every collision pattern and history.',
 ['src/hashtable.hpp','src/lighthash.hpp'],[('chained lookup with generation stamps','src/hashtable.hpp getLoc/get/insert, src/lighthash.hpp getLoc/rawInsertAt/safeInsertAt')],[('buckets','chains of entries valid for the current generation','_tab,_mgc,_magic')],['return of lookups after insertions and clears'])
p('C08','Arcs and node lists stay consistent under every edit',
 'After any sequence of arc insertions and node disconnections every live arc is listed exactly once at its source and once at its target with its position recorded correctly, and arcs of disconnected nodes are listed nowhere. Node lists keep exactly the nodes inserted and not removed, in insertion order.',
 ['inputs','histories'],'all graphs, all sequences of insertions, removals and disconnections',
 'No existing test touches nodes, arcs or node lists; the invariant must survive every edit sequence.',
 ['src/node.hpp','src/node.cpp','src/dd.hpp'],[('arc insertion and disconnection','src/node.cpp ANode::addArc, ANode::disconnect'),('doubly linked node list','src/node.hpp ANList'),('node array with holes','src/dd.hpp NDArray')],[],['arcs enumerated from a node','list traversal'])
p('C09','The priority queue always yields a best element and loses none',
 'Extracting from the priority queue returns an element that no remaining element precedes in the given order, for every strict weak order. No element is lost, duplicated or altered by insertions, removals, growth or reordering, and the handle returned on insertion keeps designating its element.',
 ['inputs','histories'],'all element values, all strict weak orders, all operation sequences, all initial capacities >= 2',
 'The heap has no test at all; heap order and content preservation are universally quantified over histories.',
 ['src/heap.hpp'],[('sift up and sift down','src/heap.hpp refloat, heapify, buildHeap'),('growth','src/heap.hpp resize'),('back pointers','src/heap.hpp Location::_p')],[('heap array','locations in heap order','_data[1.._at-1]')],['extractMax','remove','size'])
p('C10','The circular queue is first-in first-out at every size',
 'Elements leave the queue in exactly the order in which they entered, none lost or duplicated, across wrap-around and growth. Size, emptiness, peek and traversal agree with that sequence at all times.',
 ['inputs','histories'],'all interleavings of enqueue, dequeue, peek, clear and traversal, all initial capacities',
 'The queue has no test; wrap-around and growth at every position cannot be sampled.',
 ['src/queue.hpp'],[('index masking and growth','src/queue.hpp enQueue, deQueue, resize')],[('ring','live slots between exit and enter modulo capacity','_data,_enter,_exit,_cnt')],['values returned by dequeue and peek'])
p('C11','Fixed-capacity integer sets implement set algebra exactly',
 'Every operation of the fixed-capacity set (construction from ranges, lists or copies, insertion, membership, union, intersection, complement, size, maximum, equality, iteration and reflection of the set about an offset) gives exactly the mathematical result, for every content within the capacity. Operands that are not the target are left unchanged.',
 ['inputs'],'all sets over 0..64N-1 for N in 1..4, all arguments in the documented domain',
 'Tests sample a few sets; word-boundary behaviour must hold for all of the 2^(64N) contents.',
 ['src/util.hpp'],[('bit-vector representation','src/util.hpp NatSet')],[('words','bit v set iff v is a member','NatSet::_t')],['results of set operations'])
p('C12','Growable integer sets implement set algebra exactly',
 'Every operation of the growable set (construction, copy, move, insertion, removal, membership, union, intersection, difference, complement within its capacity, truncation above or below a value, size, equality and ordered iteration) gives exactly the mathematical result whatever the capacities of the operands. Growth never loses members and equality depends on the members only.',
 ['inputs','histories'],'all sets of values below 65536 and all pairs of capacities up to 2048 words (values above 32767 are outside the domain of iteration)',
 'Tests sample a few small sets; capacities and word boundaries combine in ways no sample covers.',
 ['src/util.hpp'],[('growable bit vector','src/util.hpp GNSet')],[('words','bit v set iff v is a member; words beyond the capacity are zero','GNSet::_t,_mxw')],['results of set operations'])
p('C13','Equal values have equal hashes',
 'Whenever two sets, arrays or vectors compare equal, their hash values are equal, regardless of capacity, insertion history or storage. Hashing never modifies the value.',
 ['inputs','histories'],'all pairs of equal values',
 'No test compares hashes; the implication quantifies over all pairs of equal values.',
 ['src/util.hpp'],[('hash folds','src/util.hpp std::hash specialisations, GNSet::hash')],[],['hash values'])
p('C14','Pool allocations are aligned, disjoint and stable until released',
 'Every block handed out by a memory pool is 16-byte aligned, lies inside memory the pool owns and overlaps no other live block, for every request size and segment size. Releasing to a mark invalidates exactly the blocks allocated after that mark.',
 ['inputs','histories'],'all request sizes, segment sizes and allocate/mark/release histories',
 'Overlap depends on the whole history of sizes and marks; tests only allocate a few small vectors.',
 ['src/store.hpp','src/store.cpp'],[('segmented bump allocation','src/store.cpp Pool::allocate'),('marks','src/store.hpp Pool::mark/clear')],[('cursor','current segment and offset','_seg,_top')],['addresses returned by the pool'])
p('C15','The pool vector behaves as a sequence',
 'Every operation of the vector (append, drop last, indexed read and write, swap-removal, clear, copy, move and iteration) acts exactly as on a mathematical sequence, across growth and copies into other pools. Copies are independent of their source.',
 ['inputs','histories'],'all contents, indices in range and operation sequences',
 'Tests push a few elements; preservation across growth and aliasing must hold for every history.',
 ['src/vec.hpp'],[('doubling growth','src/vec.hpp makeValid'),('element access','src/vec.hpp at/get/remove')],[('array','elements 0.._sz-1','_data,_sz,_msz')],['contents after each operation'])
p('C16','Merge sort returns a sorted permutation',
 'For every array and every comparison that is a total preorder (strict or non-strict), sorting leaves a permutation of the input in which no element is preceded by one that must come after it. Nothing outside the array is written.',
 ['inputs'],'all array lengths and contents, all admissible comparisons',
 'Tests sort a few arrays of integers.',
 ['src/msort.hpp'],[('top-down merge with swapped buffers','src/msort.hpp mergeSortAux')],[],['array after sorting'])
p('C17','Ranges and dense arrays address exactly the intended cells',
 'Iterating a range visits exactly its integers in order, in either direction, and its size is their number. Every cell of a dense array or matrix is addressed by exactly one index tuple, copies are independent and equality is cell-wise.',
 ['inputs'],'all bounds, dimensions and in-range index tuples',
 'No test uses ranges or matrices beyond trivial cases.',
 ['src/util.hpp'],[('range iteration','src/util.hpp Range'),('row-major addressing','src/util.hpp FMatrix, FArray')],[],['values read back'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
