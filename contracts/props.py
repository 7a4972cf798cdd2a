"""Per-property texts of MANIFEST.json and the evidence files."""
TRUSTED=['clang 18 front end (C++ -> LLVM IR at -O0)','engine/irdump.cpp and engine/vcg.py (IR semantics; memory model: typed fields, blocks identified by base)','z3 4.x (python3-vt) and cvc5']
BOUNDED={};RULE={};ASSUME={}
CLAIM={
 'C11':('proof','all operations of NatSet<N> under contract (instantiations N=1,2,4), all inputs'),
 'C12':('proof','all operations of GNSet under contract, all inputs and capacities'),
 'C13':('proof','hash of NatSet, GNSet, FArray and std::vector under contract; equality of hashes by two-run or inductive lemmas'),
 'C14':('proof','Pool under contract, all request sequences'),
 'C15':('proof','Vec under contract, all inputs'),
 'C07':('proof','Hashtable and LHashtable under contract, every hash function, all inputs'),
 'C08':('proof','ANode::addArc, AbstractDD::addArc, ANode::disconnect, ANList and NDArray under contract, every graph and list'),
 'C09':('proof','Heap<T,Ord> under contract (T=long key with strict weak order given by rank), all inputs; root-is-best by an inductive lemma'),
 'C10':('proof','CQueue<T> under contract, all inputs'),
 'C17':('proof','Range, FArray and FMatrix under contract (2 and 3 dimensions), all inputs'),
 'C16':('proof','mergeSort/mergeSortAux under contract, all inputs and comparison orders'),
}
MIX={
 'C01':'branch-and-bound: comparison, state-to-node, merge, transition (pruning test) and dominance functions under contract for all inputs; the search loop itself by a bounded stand-in',
 'C02':'tighten (value and labels of a node come from one incoming arc), comparison and cost functions under contract; incumbent reporting by a bounded stand-in',
 'C03':'state-to-node, transition, cost, sink and dominance functions under contract; the exact compilation loop by a bounded stand-in',
 'C04':'tighten, state-to-node, transition, cost functions under contract; the restricted compilation loop by a bounded stand-in',
 'C05':'tighten, merge, state-to-node, transition functions under contract; the relaxed compilation loop by a bounded stand-in',
 'C06':'comparison and merge functions under contract; cut-set extraction by a bounded stand-in',
}
for _p,_n in MIX.items():
    CLAIM[_p]=('other',_n)
    BOUNDED[_p]=[_n.split(';')[-1].strip()+': table-driven layered models with at most 6 layers, 6 states and 5 labels, widths 1 to 5, random integer costs, against brute force over all label sequences']
NA={}
