NOT_APPLICABLE = []
T = "include/TAT/"
CATALOG = []


def C(id, title, statement, over, forall, why, files, mechanism, note, **kw):
    CATALOG.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mechanism=mechanism, note=note, **kw))


TRUST = " Sampled, not exhaustive; trusts the reference model in harness/ref.hpp and the compiler/BLAS/LAPACK."

C("C01", "Transpose, rename and arrow reversal permute axes with the graded sign",
  "Reordering a tensor's edges by name yields, element by element, the original entry at the permuted position, multiplied by -1 once for every pair of odd-parity indices whose order is exchanged; sizes, charges and arrows travel with their names. Renaming changes only names, and reversing arrows flips only the chosen arrows and the sign of the odd components that the caller asked to be signed. This holds for every symmetry, scalar type, rank and block size, and composing two reorderings equals the single combined reordering.",
  ["inputs", "configurations"], "all tensors (rank, sectors, dimensions including 0 and 1, arrows, data), all permutations and name maps, all supported symmetries and scalar types",
  "The tests transpose a handful of fixed shapes below the cache threshold; strides, line merging, parity and block enumeration depend on the whole shape and permutation.",
  [T + "edge_operator.hpp", T + "transpose.hpp", T + "edge_miscellaneous.hpp", T + "symmetry.hpp"],
  [("axis permutation and sign", T + "edge_operator.hpp: edge_operator"), ("strided copy kernels", T + "transpose.hpp: simple_transpose, inturn_transpose"), ("exchange parity", T + "symmetry.hpp: get_transpose_parity")],
  "About 3e5 generated tensors per quick run compared exactly with an elementwise signed permutation." + TRUST)
C("C02", "Merging and splitting edges are exact mutual inverses with a fixed layout",
  "Merging a group of edges into one yields an edge whose sectors are all the charge sums of the group, each listing the combinations of sectors in a fixed lexicographic order, with every entry moved (never changed) to the corresponding position and, for fermions, the graded signs the parity options ask for. Splitting with the original edges restores the original tensor; merging an empty group adds a trivial edge, and absent names are ignored. The arrow of a merged edge is that of its first edge with a defined arrow.",
  ["inputs", "configurations"], "all tensors, all disjoint groups of edges, all parity options, all symmetries and scalar types",
  "Tests merge and split two or three fixed shapes; sector ordering, offsets, unused sectors, mixed arrows and parity options are combinations no example list covers.",
  [T + "edge_operator.hpp", T + "edge_miscellaneous.hpp"],
  [("merge/split plan", T + "edge_operator.hpp: edge_operator"), ("block offsets", T + "edge_operator.hpp: edge_operator")],
  "About 2e5 generated merges/splits per quick run compared exactly with an explicit fused layout." + TRUST)
C("C03", "One combined edge operation equals its elementary steps in sequence",
  "A single edge operation that restricts sectors, renames, splits, reverses arrows, reorders and merges edges gives exactly the tensor obtained by performing these steps one after another in that order. In particular removing sectors or truncating their extent keeps precisely the remaining entries, and the parity options apply to exactly the steps and edges they name.",
  ["inputs", "programs"], "all tensors and all combinations of the six steps with all parity options",
  "Every contraction, decomposition and trace is built on this operation, but the tests use a few fixed combinations; interactions between steps depend on the full combination.",
  [T + "edge_operator.hpp", T + "transpose.hpp"],
  [("combined operation", T + "edge_operator.hpp: edge_operator")],
  "About 3e5 generated combinations per quick run compared exactly with the step-by-step model." + TRUST)
C("C04", "Contraction of plain tensors is the sum over paired indices",
  "Contracting two tensors without symmetry over named pairs of edges gives, at every position of the remaining edges, the sum over all paired index values of the products of entries; names that both tensors keep are fused (same index on both sides), and pairs naming absent edges are ignored. The result does not depend on the order in which edges are stored, and the remaining edges appear first-tensor-first (fused ones in front).",
  ["inputs"], "all pairs of tensors (ranks, extents including 0 and 1), all pair lists and shared names, all scalar types",
  "The tests contract a few fixed shapes; the choice between matrix layouts, batching and fast paths depends on the shapes and orders.",
  [T + "contract.hpp", T + "edge_operator.hpp"],
  [("matrix layout and multiplication", T + "contract.hpp: contract"), ("batched product", T + "contract.hpp: run_gemm")],
  "About 2e5 generated contractions per quick run compared exactly with the elementwise sum." + TRUST)
C("C05", "Contraction of charge-conserving tensors is the sector-wise paired sum",
  "Contracting two Z2- or U1-symmetric tensors over named pairs gives the sum over all states of the paired edges, where a state of charge q on one side meets the state with the same position in charge -q on the other; sectors that exist on one side only contribute nothing, and charge is conserved. The result does not depend on the stored order of edges.",
  ["inputs"], "all pairs of Z2 and U1 tensors, with equal, overlapping or foreign sectors, all pair lists and edge orders",
  "Sector matching and missing sectors depend on the combination of both tensors' edges; tests use two fixed shapes.",
  [T + "contract.hpp", T + "edge_operator.hpp"],
  [("sector matching and block product", T + "contract.hpp: contract")],
  "About 2e5 generated contractions per quick run compared exactly with the sector-wise sum; known misalignment KF01 is accepted only when reproduced exactly." + TRUST)
C("C06", "Contraction of fermionic tensors follows the graded (Grassmann) sign rules",
  "Contracting fermionic tensors gives the sum of products of entries with the sign of bringing each contracted pair of odd states together (outgoing before incoming, -1 otherwise), independent of the stored order of edges; contracting in the other operand order gives the same tensor up to the sign of the reordering. Contracting two edges with the same arrow is refused.",
  ["inputs"], "all pairs of Fermi, Fermi x Z2 and Fermi x U1 tensors, all arrows, pair lists and edge orders",
  "Signs depend on parities, arrows and positions of all edges at once; the tests pin a couple of instances.",
  [T + "contract.hpp", T + "edge_operator.hpp", T + "symmetry.hpp"],
  [("sign bookkeeping", T + "contract.hpp: contract"), ("exchange parity", T + "symmetry.hpp")],
  "About 1.8e5 generated contractions per quick run compared exactly with the graded sum; KF01 accepted only when reproduced exactly." + TRUST)
C("C07", "Trace sums the diagonal of the chosen edge pairs",
  "Tracing pairs of edges gives, for every position of the remaining edges, the sum over matching states of each pair (with the graded sign for fermions); it does not matter in which order a pair or the pairs are named, and tracing several pairs at once equals tracing them one by one. Sectors present on only one edge of a pair contribute nothing, and pairs that do not fit (same arrow, different extents) are refused.",
  ["inputs"], "all tensors, all disjoint pair lists, all symmetries and scalar types",
  "The shipped trace test is not even stable; matching sectors and signs depend on the entire shape.",
  [T + "trace.hpp", T + "edge_operator.hpp"],
  [("diagonal sum", T + "trace.hpp: trace")],
  "About 2e5 generated traces per quick run compared exactly with the graded diagonal sum." + TRUST)
C("C08", "SVD recomposes, is isometric and truncates to the largest singular values",
  "For any tensor and any bipartition of its edges, the factors satisfy U S V = T (to rounding), U and V are isometries, singular values are non-negative and descending in every charge sector, and names, charges and arrows match so the factors can be contracted back. With a cut, exactly the largest values over all sectors are kept (never more than requested, never fewer than available), and the error is exactly the discarded weight.",
  ["inputs", "configurations"], "all tensors (including rank deficient, degenerate and zero ones), all bipartitions, all cuts, all symmetries and scalar types",
  "Truncation across sectors, degenerate and rank-deficient spectra and empty sides only occur for particular data; the tests decompose a few fixed tensors.",
  [T + "svd.hpp", T + "edge_operator.hpp"],
  [("decomposition", T + "svd.hpp: svd"), ("truncation", T + "svd.hpp: svd")],
  "About 2e5 generated decompositions per quick run checked against recomposition, isometry and an independent selection rule." + TRUST)
C("C09", "QR factorises with an isometric Q and a minimal common edge",
  "For any tensor and any bipartition, Q R = T (to rounding), Q is an isometry on the common edge, R is triangular for matrices, and the common edge has exactly min(rows, columns) states per charge sector. Naming the complementary edges for the other factor gives the same split, and names, charges and arrows allow contracting the factors back.",
  ["inputs", "configurations"], "all tensors, all bipartitions named from either side, all symmetries and scalar types",
  "Tall/wide/empty blocks, arrow handling and both naming directions multiply; the tests decompose a few fixed shapes.",
  [T + "qr.hpp", T + "edge_operator.hpp"],
  [("decomposition", T + "qr.hpp: qr")],
  "About 2.4e5 generated decompositions per quick run checked against recomposition and isometry." + TRUST)
C("C10", "Arithmetic on tensors is entrywise, aligned by edge name",
  "Adding, subtracting, multiplying or dividing tensors (or a tensor and a number, in either order, in or out of place) acts entry by entry, after aligning the second operand's edges to the first by name with the graded sign; sectors missing from one operand count as zero. Operands are never changed except the target of an in-place operation, aliasing an operand with the target is safe, and incompatible shapes are refused.",
  ["inputs"], "all pairs of tensors with the same names in any order and compatible sectors, all numbers, all four operators in both forms",
  "Tests use small same-shaped tensors in the same order; differing sectors, orders, aliasing and refusal paths are open-ended.",
  [T + "scalar.hpp"],
  [("out-of-place operators", T + "scalar.hpp: operator+ - * /"), ("in-place operators", T + "scalar.hpp: operator+= -= *= /=")],
  "About 3e5 generated expressions per quick run compared exactly with the entrywise model." + TRUST)
C("C11", "Every tensor variable behaves as an independent value",
  "However tensors were copied, moved, renamed, trivially reordered, converted or reloaded, writing to one variable in any way (arithmetic assignment, fills, element or block writes, loading) never changes any other variable. Each variable always equals what the sequence of operations applied to it produces.",
  ["histories"], "all sequences of copies, moves, sharing operations, derived values and in-place writes over any number of variables",
  "Storage is shared lazily, so a missing copy shows only when a particular sharing operation is followed by a particular kind of write; tests check single steps.",
  [T + "tensor.hpp", T + "scalar.hpp", T + "get_item.hpp", T + "propagate_const.hpp", T + "io.hpp"],
  [("copy before write", T + "tensor.hpp: transform; " + T + "get_item.hpp: block, at; " + T + "scalar.hpp: in-place operators")],
  "About 2.4e5 generated histories (up to 14 steps, 6 variables) per quick run with every variable compared after every step." + TRUST,
  technique="stateful model-based property testing: generated operation histories against a pool of model values, with shrinking")
C("C12", "Elements, blocks, norms, fills and maps address exactly the stored entries",
  "Reading or writing an element by edge names, charges and positions, or a block by charges, reaches exactly that entry or row-major block and nothing else; positions that are incomplete or name no existing block are refused. The max, 0-, 1-, 2- and higher norms are those of the stored entries; zero, sequential and generated fills and elementwise maps visit each stored entry exactly once in ascending block order; a tensor with a single entry converts to and from a number.",
  ["inputs"], "all tensors, all positions and blocks, all fills and functions",
  "Offsets and block lookups depend on the full shape; tests read a few positions.",
  [T + "get_item.hpp", T + "tensor.hpp", T + "core.hpp"],
  [("element and block lookup", T + "get_item.hpp"), ("norms and fills", T + "tensor.hpp: norm, transform, set, zero, test, map")],
  "About 3e5 generated tensors per quick run, every stored element read back." + TRUST)
C("C13", "Conjugation is an involution that makes the norm by full contraction",
  "The conjugate has the same names, negated charges, flipped arrows and complex-conjugated entries (with the sign of reversing the fermionic order), conjugating twice gives back the tensor, and it commutes with reordering edges. Contracting a bosonic tensor with its conjugate over all edges gives the sum of squared moduli, and over some edges a Hermitian result.",
  ["inputs"], "all tensors, symmetries and scalar types",
  "Sign and charge bookkeeping depend on parities and ranks; tests conjugate fixed small tensors.",
  [T + "tensor_miscellaneous.hpp", T + "symmetry.hpp"],
  [("conjugation", T + "tensor_miscellaneous.hpp: conjugate")],
  "About 3e5 generated tensors per quick run compared exactly." + TRUST)
C("C14", "Shrink fixes edges at a state and expand adds edges at a state",
  "Shrinking edges at given states gives the slice of the tensor at these states (as if contracted with a one-hot tensor), optionally keeping the removed charge on a new edge of extent one, and refuses to lose a non-zero charge. Expanding places the tensor at the given state of new edges and zero elsewhere, optionally replacing an edge of extent one, so that expanding and shrinking at the same state undo each other.",
  ["inputs"], "all tensors, all sets of edges and states, with and without the carrier edge, all symmetries",
  "The carried charge, arrow and edge order depend on all fixed edges together; tests fix one or two edges.",
  [T + "shrink_and_expand.hpp"],
  [("slicing", T + "shrink_and_expand.hpp: shrink"), ("embedding", T + "shrink_and_expand.hpp: expand")],
  "About 3e5 generated plans per quick run compared exactly." + TRUST)
C("C15", "Identity and exponential act on the matrix formed by paired edges",
  "For a tensor whose edges are grouped in conjugate pairs, identity returns the tensor of the same shape with ones where every pair is at matching states and zeros elsewhere (for one pair with fermionic edges). The exponential equals the matrix exponential of the paired matrix to the accuracy of its step count, with names, charges and arrows preserved, whatever the order of edges, the naming direction of pairs or the magnitude of the entries.",
  ["inputs"], "all tensors with paired edges (1 pair for fermions), edge orders and pair namings, all symmetries and scalar types",
  "The test checks one 2x2 example; pairing, block structure and scaling by powers of two depend on shape and norm.",
  [T + "exponential.hpp", T + "tensor_miscellaneous.hpp"],
  [("matrix exponential", T + "exponential.hpp: exponential, matrix_exponential"), ("identity", T + "tensor_miscellaneous.hpp: identity")],
  "About 1.2e5 generated tensors per quick run against an extended-precision Taylor series; KF02 accepted only when reproduced exactly." + TRUST)
C("C16", "Multiplying by singular values scales exactly the named edge",
  "Multiplying (or dividing) a tensor by singular values along an edge scales each slice by the value of the matching charge and position, seen from the U side or from the V side; dividing undoes multiplying (slices of exactly vanishing value stay zero), and after an SVD both (U S) V and U (S V) give the tensor back. Wrong directions, lengths or missing charges are refused, and an absent edge leaves the tensor as it is.",
  ["inputs"], "all tensors, edges, singular values and directions",
  "Kernel selection depends on the trailing extent (special cases up to 16), and charge matching on direction; tests cover one or two.",
  [T + "tensor_miscellaneous.hpp", T + "svd.hpp"],
  [("scaling", T + "tensor_miscellaneous.hpp: multiple")],
  "About 2.4e5 generated cases per quick run compared exactly." + TRUST)
C("C17", "Binary serialisation round-trips and detects truncation",
  "Loading what was dumped gives back the identical tensor (names, edges, arrows and every bit of the data) or singular values, through strings or streams, as a whole or as separate metadata and data, and consumes exactly the bytes written so objects can follow one another. Loading over an existing variable replaces only that variable. Data cut short at any byte is noticed (failed stream or exception) without damaging anything.",
  ["inputs", "fault_sequences"], "all tensors and singular values, both name types, all bit patterns, all truncation points",
  "Tests reload a few tensors from complete data; counts, key order and failure paths depend on content and cut position.",
  [T + "io.hpp"],
  [("binary operators", T + "io.hpp: operator<, operator>, dump, load, meta_put, data_put, meta_get, data_get")],
  "About 6e5 generated dumps and truncations per quick run." + TRUST)
C("C18", "Text serialisation round-trips and terminates on broken input",
  "The printed form of any tensor or singular values, printed with enough digits, with or without terminal colour codes, reads back as the identical object and consumes exactly its own characters, for all names of printable characters other than comma and square brackets. Reading text that ends early always terminates, and either fails visibly or yields exactly the original tensor.",
  ["inputs", "fault_sequences"], "all tensors with printable names, all finite numbers printed with enough digits, all truncation points",
  "The test reads two hand-written colourless texts and never reads back the library's own output.",
  [T + "io.hpp"],
  [("text operators", T + "io.hpp: operator<<, operator>>, show"), ("numbers and names", T + "io.hpp: print_complex, scan_complex, scan_string_for_name")],
  "About 1e6 generated texts and truncations per quick run." + TRUST)
C("C19", "Names identify edges by their string, whatever the representation",
  "Two edge names are equal exactly when their strings are equal, keep their string for ever, and are totally ordered; a saved name table loaded elsewhere makes tensors saved with it readable with the same names, and new names never collide with loaded ones. Results of tensor operations do not depend on whether names are interned or plain strings, nor on the order in which names were created.",
  ["histories", "configurations"], "all sets of names, creation orders, name tables and operations",
  "Interning is global mutable state; tests run with one fixed creation order.",
  [T + "name.hpp", T + "io.hpp"],
  [("interning", T + "name.hpp: FastName"), ("name table persistence", T + "io.hpp: load_fast_name_dataset, dump_fast_name_dataset")],
  "About 1.6e5 generated cases per quick run." + TRUST)

C("C20", "A lazy graph always shows values consistent with its current roots",
  "Reading any node or path of a lazy computation graph yields exactly what its function gives on the current values of the roots it depends on, after any sequence of root changes, additions, dropped handles, snapshots and restored snapshots. A node is recomputed only if something it depends on changed since it was last computed, a restored snapshot brings back the root values it recorded, and an exception thrown by a user function reaches the reader and leaves the graph usable.",
  ["histories"], "all sequences of operations on all graphs",
  "Staleness appears only for particular orders of reads, writes, creations and restores; the shipped test prints one fixed sequence.",
  ["include/lazy.hpp"],
  [("invalidation", "include/lazy.hpp: lazy_base::unset, node::get, root::set"), ("snapshots", "include/lazy.hpp: Graph::dump, Graph::load")],
  "About 5.6e6 generated histories per quick run compared with recomputation from the roots." + TRUST, technique="stateful property-based testing: generated histories against a recomputing model, with shrinking")
C("C21", "MPI broadcast, reduce and messages deliver every value exactly once",
  "For any number of ranks and any root, in C++ and from Python, broadcast gives every rank the root's value, reduce gives the root the combination of every rank's value exactly once, messages between two ranks arrive unchanged and in order, and no rank leaves a barrier before all have entered it. The caller's own tensors stay unchanged, rank-selected output appears on that rank only, and an invalid root is refused.",
  ["schedules", "inputs"], "all rank counts, roots, payloads and message schedules",
  "The shipped test uses one scalar with one root; tree shape, ranks modulo the root and message sizes vary.",
  [T + "mpi.hpp", T + "io.hpp", "PyTAT/PyTAT.cpp"],
  [("Python", "PyTAT/PyTAT.cpp: mpi_t"), ("tree broadcast and reduce", T + "mpi.hpp: mpi_t::broadcast, mpi_t::reduce"), ("messages", T + "mpi.hpp: mpi_t::send, mpi_t::receive, send_receive"), ("output", T + "mpi.hpp: out_one, out_rank")],
  "About 4e4 scripts on 1-7 ranks of one machine per quick run; real schedules of the MPI runtime, not all interleavings." + TRUST, technique="property-based testing: generated SPMD scripts under the real MPI runtime, with shrinking")
C("C22", "Mixed scalar types compute in their common type",
  "Converting a tensor between scalar types keeps names, edges and every value representable in the target type (complex to real keeps the real part). Contraction and arithmetic between tensors or numbers of two different scalar types give what both operands converted to their common type would give, with the common type as result type, and in-place arithmetic keeps the left operand's type.",
  ["inputs", "configurations"], "all ordered pairs of the four scalar types, all tensors and operations",
  "Tests use double almost everywhere; each pair of types selects its own template instantiation and conversion path.",
  [T + "scalar.hpp", T + "contract.hpp", T + "tensor.hpp", T + "const_integral.hpp"],
  [("conversion", T + "tensor.hpp: Tensor::to"), ("mixed arithmetic", T + "scalar.hpp"), ("mixed contraction", T + "contract.hpp: Tensor::contract")],
  "About 2.4e5 generated cases per quick run compared exactly." + TRUST)
C("C23", "Impossible requests are refused and leave everything as it was",
  "A request that has no meaning (wrong, repeated or missing names, contracted or traced edges of different extent or incompatible direction, positions outside an edge, adding tensors of different shape, taking the value of a non-scalar tensor) raises an exception instead of returning data or touching other memory. After a refusal all operands still hold their previous value and later operations are unaffected; with the strict settings, misspelt names are refused too.",
  ["inputs", "fault_sequences"], "all ill-formed requests in the listed classes on all tensors",
  "Tests hardly exercise error paths at all; a refusal that is lost shows only as silently wrong data.",
  [T + "contract.hpp", T + "trace.hpp", T + "scalar.hpp", T + "shrink_and_expand.hpp", T + "get_item.hpp", T + "tensor.hpp"] ,
  [("contract checks", T + "contract.hpp: contract_without_fuse, contract_with_fuse"), ("trace checks", T + "trace.hpp"), ("positions", T + "get_item.hpp: Tensor::at, const_at"), ("name checks", T + "tensor.hpp: check_valid_name")],
  "About 4.8e5 generated refusals per quick run." + TRUST)
C("C24", "No operation touches memory it does not own or leaves memory behind",
  "For every valid or refused request no operation reads or writes outside live memory, uses memory after its release, depends on uninitialised data or performs undefined arithmetic. Scratch scopes hand out aligned memory that overlaps no other live allocation and always restore the previous scratch memory, also when an exception passes through. Repeating an operation leaves no additional memory in use.",
  ["inputs", "histories"], "all tensors and requests, all nestings and sizes of scratch allocations",
  "Most overruns and dangling uses give right answers on small examples; they show only under instrumentation and for particular shapes.",
  [T + "pmr_resource.hpp", T + "edge_operator.hpp", T + "transpose.hpp", T + "contract.hpp", T + "svd.hpp", T + "io.hpp", "include/lazy.hpp"],
  [("scratch memory", T + "pmr_resource.hpp: monotonic_buffer_resource, scope_resource"), ("raw pointer kernels", T + "transpose.hpp: tensor_transpose_kernel"), ("workspaces", T + "svd.hpp, qr.hpp"), ("parsing", T + "io.hpp")],
  "About 2e5 generated cases per quick run under sanitizers, memcheck and allocation counting; what those tools cannot see stays unseen." + TRUST, technique="property-based testing under address/undefined sanitizers, valgrind and allocation counting, with shrinking")
C("C25", "Every documented compile-time configuration computes the same results",
  "With simple storage for tensors without symmetry, singular values as matrices, plain string names, timers, valid default tensors, other cache sizes or batched matrix products enabled, alone or together, every tensor operation gives the same names, edges and values as its definition. Singular values stored as a matrix multiply with the two other factors back to the tensor.",
  ["configurations", "inputs"], "all combinations of the documented macros, all operations and tensors",
  "The tests are built in one configuration and the Python module in another; the rest is never executed.",
  [T + "TAT.hpp", T + "edge.hpp", T + "core.hpp", T + "tensor.hpp", T + "svd.hpp", T + "tensor_miscellaneous.hpp", T + "contract.hpp", T + "name.hpp", T + "timer.hpp"],
  [("simple storage", T + "edge.hpp: fake_map"), ("singular matrices", T + "svd.hpp: singular_to_tensor"), ("batched products", T + "contract.hpp: gemm_batch"), ("names", T + "name.hpp: DefaultName")],
  "About 9.6e5 generated cases per quick run in eight configurations." + TRUST)
Q = "include/square/"
C("C26", "The exact lattice applies its terms and observes them as matrices",
  "One exact update step replaces the state v by (a - H) v divided by its largest modulus, where H is the sum of the lattice's terms each acting on its listed sites in the listed order, and returns a minus that modulus per site. Observables and the energy are <v|A|v>/<v|v> for real and complex states; setting a term on all sites or bonds sets it on exactly those.",
  ["inputs", "histories"], "all lattice sizes, states, terms on any sites in any order, all scalar types, all numbers of steps",
  "No repository test runs the C++ lattice library at all; site order, operand naming and conjugation errors show only for asymmetric operators and complex states.",
  [Q + "exact_lattice.hpp", Q + "abstract_lattice.hpp", Q + "basic.hpp"],
  [("power iteration", Q + "exact_lattice.hpp: ExactLattice::update"), ("observables", Q + "exact_lattice.hpp: observe, observe_energy, denominator"), ("terms", Q + "abstract_lattice.hpp: set_all_site, set_all_horizontal_bond, set_all_vertical_bond")],
  "About 3e5 generated lattices per quick run against dense vectors." + TRUST)
C("C27", "Lattice forms convert and reload without changing the state",
  "Converting between simple-update, sampling and exact lattices keeps the represented state up to a positive factor, together with the terms, sizes and, where both have them, dimensions. Writing any lattice to a file and reading it back (also over an existing lattice) restores tensors, bond weights, terms with their sharing, dimensions and spin configuration exactly.",
  ["inputs"], "all lattices with any bonds, bond weights, spins and terms, all conversions",
  "No repository test converts or reloads C++ lattices; absorbing bond weights and boundary bonds depend on position and size.",
  [Q + "conversion.hpp", Q + "abstract_network_lattice.hpp", Q + "abstract_lattice.hpp", Q + "simple_update_lattice.hpp", Q + "sampling_gradient_lattice.hpp", Q + "exact_lattice.hpp"],
  [("conversions", Q + "conversion.hpp"), ("files", Q + "abstract_lattice.hpp, abstract_network_lattice.hpp, simple_update_lattice.hpp, sampling_gradient_lattice.hpp, exact_lattice.hpp: operator<, operator>"), ("layout of site tensors", Q + "abstract_network_lattice.hpp")],
  "About 1.8e5 generated lattices per quick run against dense contraction." + TRUST)
C("C28", "Spin amplitudes always belong to the current spins and tensors",
  "After any sequence of setting spins, reading, copying, moving or assigning lattices and changing the cut, the amplitude of the current configuration, of the configuration with some spins replaced (with any direction hint) and the holes at any sites equal the contraction of the site tensors of exactly those spins, whenever the cut dimension is large enough to be exact. Reading never changes anything, and lattices never influence each other.",
  ["histories"], "all sequences of spin changes, replaced reads, holes, copies and cut changes on all lattice sizes",
  "Environments are cached in a lazy graph, so errors show only for particular orders of reads and changes and particular replaced rows or columns.",
  [Q + "auxiliaries_system.hpp", Q + "sampling_gradient_lattice.hpp", "include/lazy.hpp"],
  [("cached environments", Q + "auxiliaries_system.hpp: SquareAuxiliariesSystem"), ("spins", Q + "sampling_gradient_lattice.hpp: SpinConfiguration, initialize_spin, set_dimension_cut")],
  "About 2.4e5 generated histories per quick run against dense contraction." + TRUST, technique="stateful property-based testing: generated histories of lattice operations against dense contraction, with shrinking")
C("C29", "Sampling reproduces the expectation values and gradient of the state",
  "Ergodic sampling returns the exact expectation value of every observable and of the energy. Each Markov step moves only between configurations connected by a term, keeps the stored amplitude equal to that of the current spins, measures every observable and the gradient of the energy in that configuration, and long chains visit configurations with their squared amplitude for Hermitian terms.",
  ["inputs", "schedules"], "all lattices, terms and observables (also with empty rows), all random seeds",
  "No repository test samples a C++ lattice; acceptance, move counting and caching of operators show only in averages or for particular operators.",
  [Q + "sampling_gradient_lattice.hpp", Q + "basic.hpp"],
  [("averages", Q + "sampling_gradient_lattice.hpp: ergodic, markov"), ("moves", Q + "sampling_gradient_lattice.hpp: equilibrate, _markov_single_term"), ("operators", Q + "sampling_gradient_lattice.hpp: _find_element, _find_hopping_element")],
  "About 4e4 generated runs checked exactly and 70 chains checked statistically (six standard errors plus margin) per quick run." + TRUST)
C("C30", "Simple update evolves the state by the product of its terms",
  "With bonds large enough, one simple update step applies to the represented state exactly exp(-dt term) for every term, each acting on its listed sites in the listed order, in the documented sweep forth and back, up to a positive factor, on any number of MPI ranks. Bonds never exceed the requested dimension, bond weights are sorted with largest value one, and all ranks end with the same state.",
  ["inputs", "schedules", "configurations"], "all lattices without loops longer than needed for exactness, terms, time steps and rank counts",
  "No repository test runs a C++ simple update; site order, bond weights and the distribution over ranks matter only for asymmetric terms, larger lattices and several ranks.",
  [Q + "simple_update_lattice.hpp", Q + "abstract_network_lattice.hpp", T + "mpi.hpp", T + "exponential.hpp"],
  [("bond update", Q + "simple_update_lattice.hpp: _single_term_simple_update_horizontal_bond, _vertical_bond, _single_site, try_multiple"), ("sweep and ranks", Q + "simple_update_lattice.hpp: update, _simple_update_positions_sequence, _single_group_simple_update")],
  "About 7e4 generated evolutions per quick run on 1-4 ranks against the dense product." + TRUST)
C("C31", "Tensor operations from Python give the results of the library",
  "Every tensor operation of the Python module (edge operations, contraction, trace, decompositions, identity and exponential, arithmetic, fills, maps, shrink and expand, conjugation, norms) gives on every tensor type exactly the result the operation defines, whichever accepted spelling its arguments use. Arguments keep their value unless the operation is documented as in-place, in-place operations return the tensor itself, and impossible requests raise a Python exception and change nothing.",
  ["inputs", "configurations"], "all tensors, symmetries, scalar types and argument spellings",
  "The repository's Python tests call few methods with one or two fixed tensors; argument conversion, defaults and container order differ per tensor type.",
  ["PyTAT/PyTAT.cpp", "include/TAT/"],
  [("bindings", "PyTAT/PyTAT.cpp: declare_tensor"), ("operations", "include/TAT/tensor.hpp and the files it includes")],
  "About 8e4 generated calls per quick run against the reference model." + TRUST)
C("C32", "Python sees and changes exactly the contents of a tensor",
  "Blocks appear as numpy arrays with axes in the requested order of names that read and write the tensor's elements, elements are read and set by name, and data lists all blocks. Pickling, dump, load, copies and text forms restore the same tensor, numbers convert exactly, symmetries, edges and names behave as the values they wrap (also as keys), and seeded random tensors and generators repeat themselves and stay in their range.",
  ["inputs", "histories"], "all tensors, orders of names, key spellings, scalar types and symmetries",
  "Strides, key conversion and lifetime of shared data depend on rank, name order and aliasing; the repository's Python tests touch a handful of blocks.",
  ["PyTAT/PyTAT.cpp"],
  [("blocks", "PyTAT/PyTAT.cpp: blocks_of_tensor, unordered_block"), ("values", "PyTAT/PyTAT.cpp: declare_symmetry, declare_edge, module"), ("random numbers", "PyTAT/PyTAT.cpp: random")],
  "About 8e4 generated uses per quick run against the reference model." + TRUST)
C("C33", "Python lattices represent and evolve the state they describe",
  "In the Python lattice library an exact update returns (a - H) applied to the state with the matching energy, observations give the expectation value in the current state (exactly, and through auxiliaries with a large enough cut), terms set on all sites or bonds act where they were set and never twice. Conversions, copies and pickling keep state and terms, copies are independent of the original, and simple update applies exp(-dt term) of every term on its sites in the listed order, forth and back, within the requested bond dimension.",
  ["inputs", "histories"], "all lattices, states, bond weights, terms in any order and orientation, observables and time steps",
  "The repository's Python tests of lattices only run one Heisenberg model whose terms are symmetric; site order, copies and bond weights matter for asymmetric terms and longer histories.",
  ["square/exact_lattice.py", "square/simple_update_lattice.py", "square/abstract_lattice.py", "square/abstract_network_lattice.py", "square/__init__.py"],
  [("exact states", "square/exact_lattice.py: ExactLattice.update, observe, observe_energy"), ("simple update", "square/simple_update_lattice.py: simple_update, _single_term_simple_update, try_multiple"),
   ("observation", "square/simple_update_lattice.py: initialize_auxiliary, observe"), ("terms", "square/abstract_lattice.py: single_site_hamiltonian, vertical_bond_hamiltonian, horizontal_bond_hamiltonian")],
  "About 7e3 generated lattices per quick run against dense sums." + TRUST)
C("C34", "Python contraction caches never return a stale value",
  "A Python auxiliaries system or spin configuration gives, after any history of setting, replacing and deleting sites or spins, copying, combining parts and reading, exactly the value (or the tensor around one or two open sites, or the value with one or two sites replaced) of the network of the present sites. Copies do not influence each other, a network with a missing site has no value, and contradictory combinations and unsupported requests raise.",
  ["histories", "inputs"], "all histories of changes and reads, lattices, site tensors and bond dimensions, with a cut large enough to be exact",
  "Which cached lines a change must drop depends on the history of reads and on the position; one fixed sequence of reads cannot show a line that is kept by mistake.",
  ["square/auxiliaries.py", "square/sampling_gradient_lattice.py"],
  [("caches", "square/auxiliaries.py: __delitem__, __setitem__, _refresh_line, _get_auxiliaries"), ("reads", "square/auxiliaries.py: __getitem__"), ("spins", "square/sampling_gradient_lattice.py: SpinConfiguration")],
  "About 8e3 generated histories per quick run against contraction from scratch." + TRUST)
C("C35", "Python sampling reproduces the expectation values of the state",
  "Ergodic sampling of a Python lattice returns for every observable and energy term the exact sum over configurations, also when amplitudes vanish or operators have empty rows, and leaves the given observers unchanged, for every sequence of runs. A Markov step moves only along terms, measures observables, energy and amplitude derivatives in the configuration it reaches, repeats itself for the same seed and visits configurations with their squared amplitude when every configuration has equally many moves.",
  ["inputs", "histories"], "all lattices, terms, observables, seeds and sequences of runs",
  "No repository test samples a Python lattice; wrong bookkeeping shows only in averages, for particular operators or in a second run.",
  ["square/sampling_gradient_lattice.py"],
  [("averages", "square/sampling_gradient_lattice.py: ergodic, markov_chain"), ("moves", "square/sampling_gradient_lattice.py: _hopping_spin_single_step_single_term, equilibrate"), ("operators", "square/sampling_gradient_lattice.py: _find_element")],
  "About 3e3 generated runs checked exactly and 16 chains checked statistically per quick run." + TRUST)
