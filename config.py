# Per property: cases per build in the quick tier, modes, level and the rule that makes a case non-trivial.
H = "A case is one history generated from a choice sequence (swarm selection of operations, 3 containers, sizes mostly below 25 and up to 900). "
B = ["exc", "nx"]
CONFIG = {
 "C01": dict(cases=1000000, modes=B, level="exploration", rule=H + "Non-trivial: elements were inserted before existing ones, or storage with elements was replaced, or the vector grew within its capacity."),
 "C02": dict(cases=1000000, modes=B, level="exploration", rule=H + "Non-trivial: an insertion or erasure strictly inside a list, or a splice, merge or sort that moved nodes."),
 "C03": dict(cases=1000000, modes=B, level="exploration", rule=H + "Non-trivial: an element was erased or an equivalent element was offered for insertion."),
 "C04": dict(cases=500000, modes=B, level="fault_enumeration", rule=H + "Each fallible operation may have its k-th allocation or element construction fail; 'enumerate' scenarios try every k in turn. Non-trivial: an injected failure fired, or a non-empty container was copied, moved or swapped."),
 "C05": dict(cases=500000, modes=B, level="fault_enumeration", rule=H + "Each fallible operation may have its k-th allocation fail; 'enumerate' scenarios try every k of one operation in turn. Non-trivial: an injected allocation failure fired."),
 "C06": dict(cases=500000, modes=B, level="fault_enumeration", rule=H + "Each fallible operation may have its k-th element construction fail; 'enumerate' scenarios try every k of one operation in turn. Non-trivial: an injected element failure fired."),
 "C08": dict(cases=600000, modes=B, level="exploration", rule=H + "Containers use four distinct allocator instances. Non-trivial: an operation involved two containers with different allocator instances."),
 "C14": dict(cases=800000, modes=B, level="exploration", rule=H + "Non-trivial: nodes were transferred, elements erased, or a non-empty container moved or swapped while all remaining elements were tracked."),
 "C19": dict(cases=800000, modes=B, level="exploration", rule=H + "Copies, moves, swaps and element writes are favoured. Non-trivial: a non-empty container was copied, moved or swapped."),
 "C21": dict(cases=150000, modes=B, level="fault_enumeration", rule=H + "Elements are containers (two or three levels), two-phase types or shared pointers, with failures injected at any allocation or initialisation. Non-trivial: such elements were copied into a container."),

 "C07": dict(cases=1200000, modes=B, level="exploration", rule="A case is one history over 15 root handles (shared, base-converted, weak) and objects that hold shared, base and weak pointers to each other or themselves. Non-trivial: a pointer stored inside an object was assigned or used as assignment source, or a dead object was still weakly referenced."),
 "C10": dict(cases=600000, modes=B, level="exploration", rule=H + "Further scenarios reserve and then change a vector within the reservation, or append up to 4000 elements one by one while counting element constructions and allocations. Non-trivial: a non-empty vector grew within its capacity or was reallocated."),
 "C12": dict(cases=120000, modes=B, level="exploration", rule="A case is a history of a set: mixed operations on 3 sets, or up to 5 phases of insertions and erasures in adversarial order (ascending, descending, inwards, outwards, sliding windows, strides) with up to about 20000 elements, with every operation's comparisons counted and all elements looked up after each phase. Non-trivial: more than 64 elements, or elements were erased."),
 "C13": dict(cases=180000, modes=B, level="exploration", rule="A case builds lists of up to 6000 elements (random, sorted, reversed, periodic, constant, near powers of two) and sorts and merges them by one of six stateful orderings; list histories with sort and merge are added. Non-trivial: a sort of at least two elements, a merge of two non-empty lists or a splice."),
 "C09": dict(cases=400000, modes=B, level="fault_enumeration", rule=H + "Each fallible operation, in the _nothrow and (where available) the throwing interface, may have its k-th allocation or element construction fail; further scenarios let elements throw seven unrelated exception types, or ask for impossible sizes. Three error types, two of them user-supplied. Non-trivial: an injected failure fired or an impossible size was requested."),
 "C11": dict(cases=1500000, modes=B, level="exploration", rule="A case asks vectors (after a short history) or the allocator for an element count whose byte count overflows, wraps round to a small number or exceeds the address space, for element sizes 1 to 4096, or queries max_size. Non-trivial: such a size was requested."),
 "C15": dict(cases=1000000, modes=B, level="exploration", rule="A case is a history over one container in which arguments refer into the container itself (own elements, parts of own elements, own ranges, the container as a whole), at every capacity state, optionally with a failure armed; the model applies each operation to a copy taken beforehand. Non-trivial: an aliased operation ran."),
 "C17": dict(cases=1500000, modes=B, level="exploration", rule="A case calls construct with up to three arguments of six kinds (int and uncopyable token, as lvalue, const lvalue, rvalue) on types built by constructor, by two-phase initialisation or by either, or assign, with the k-th fallible step failing; plain values and nested containers are added. Every case is non-trivial; distinct cases are counted."),
 "C18": dict(cases=1000000, modes=B, level="exploration", rule="A case runs one algorithm over generated ranges (equal, prefix, one difference, unrelated) with six kinds of iterators per range, four kinds of predicates or orderings, and for copies three kinds of destination and a failing assignment at a chosen position; the result is compared with the std algorithm. Non-trivial: the first range is not empty."),
 "C20": dict(cases=400000, modes=B, level="exploration", rule=H + "After parts of the history each container is walked at random with pairs of mutable, const, reverse and const reverse iterators (single steps, k steps and back, conversions, comparisons, writes). Non-trivial: a container with more than two elements was walked."),
 "C16": dict(cases=600000, modes=["both"], clang=True, level="fault_enumeration", rule=H + "The library is compiled twice, with and without exceptions, into one program; each generated history, with its injected allocation and initialisation failures, is run against both and the transcripts (contents, sizes, capacities, results, error kinds and codes) are compared. Non-trivial: an injected failure fired, or elements were inserted or erased inside, copied, moved, reallocated or transferred."),
 "C22": dict(cases=250000, modes=B, level="fault_enumeration", rule=H + "While an operation runs that takes no error object (or an insertion into a set of an element that is present), every request for memory and every construction of an element fails. Non-trivial: elements were erased or transferred, a non-empty container or pointer was moved or swapped, or an element offered for insertion was present."),
 "C23": dict(cases=3000000, modes=B, level="fault_enumeration", rule="A case emplaces up to seven elements into a vector or list, or makes a shared object, from up to three arguments of six kinds (int and uncopyable token, as lvalue, const lvalue, rvalue) for types built by constructor, by two-phase initialisation or by either, with the allocation or a construction failing in a quarter of the calls. Non-trivial: an element was emplaced."),
 "C24": dict(cases=200000, modes=B, level="exploration", rule=H + "Element types ask for alignments 1 to 256; allocators give out memory aligned exactly as the type they are bound to asks for, and no further. Non-trivial: elements were inserted inside, reallocated, erased, transferred, copied or moved, or a shared object was made."),
 "C25": dict(cases=200000, modes=B, build="tsan", level="exploration", rule="A case builds one container of each kind (and a shared object) by a generated history, then two or three threads run at once: each reads the shared containers through their const interface and applies a generated history of its own to containers of its own, checking all results against models. ThreadSanitizer reports any unsynchronised conflicting access. Non-trivial: at least two threads ran at least three operations each."),
 "C26": dict(cases=1000000, modes=B, level="exploration", rule="A case fills a vector, list or set and a std container with the same up to 30 elements and runs up to six generated standard algorithms (26 reading, 9 on sorted ranges, 17 writing, 8 with random access) on the iterators, const iterators and reverse iterators of both; results and contents are compared. Non-trivial: more than two elements."),
 "C27": dict(cases=15000, modes=B, level="exploration", rule="A case runs up to eight generated operations on vectors, lists, sets or shared pointers of up to 60000 (occasionally 150000) elements in six orders, each on a thread with a painted stack whose high-water mark is read afterwards. Non-trivial: at least 4000 elements were involved."),
 "C28": dict(programs=(96, 12), modes=B, level="exploration", rule="A case is a generated program part: an element type with random capabilities (default construction, copying, moving, two-phase initialisation, assignment deleted, const or reference members, final, greedy or explicit constructors, own operator new, conversions, incomplete at the point of use), an ordering, an allocator, an error type and a history of the operations those capabilities allow; 12 cases form a program of two translation units built by g++ or clang++ for C++11 to C++20 with or without exceptions, run under sanitizers and compared with the contents computed by the generator. Non-trivial: at least three operations, and the element, ordering, allocator or error type lacks something an ordinary one has; distinct by types and operations."),
}
