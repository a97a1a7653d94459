"""How each property is decided (text for DESIGN.md)."""
D = {}
D["V01"] = "Every kernel of `VectorPrimitives.h` (37 functions) under a contract `result[s][i] = f(operands[s][i])`, with frame and bounds, for symbolic length and stride count and every supported aliasing pattern. Closed forms of the loops are checked invariants; reductions are sums. Oracle: the formula table `dv/kernels.py`, which is also what callers see. Cost about 6 s."
D["V02"] = "Each operator/function of `dcomplex.h` against its mathematical definition over the reals; exp/sin/cos/sqrt/atan2 are uninterpreted with the axioms used (listed in the evidence). Aliased compound assignment is a separate pattern. 2 s."
D["V03"] = "Layout invariant (column pointers into one block of m*n) as pre- and postcondition of every member; products as sums over the row. Polynomial index arithmetic is normalised before z3 sees it. 3 s."
D["V04"] = "Class invariant of `Vector<T>` (stride table, lengths, ownership, lock flag) as pre/postcondition of all 80 members for double and dcomplex; the memory manager through its contract (fresh block or throw; free of null is a no-op). 3 s."
D["O01"] = "`OSum` members against the interface contracts of `WaveFunction` and `Operator`; loops over members become sums of operator applications. Oracle: sum over k<n of op_k(src). 2 s."
D["O02"] = "`OProduct`: loops become compositions `op_0(op_1(...))` as primitive recursion over operators; spectral bounds as a two-component real recursion. `OScalar`, `ONormalize` directly. 3 s."
D["O05"] = "The non-overridden members of `Operator` executed on an abstract operator whose two-argument application is the interface contract. 2 s."
D["P01"] = "`OPropagator` inline methods: the class invariant `_c0 = (+/-)(i)dt` is a postcondition of every mode change from an arbitrary prior state (so of every history); broadcasts as in O06; `Copy` with the list copy inlined. 3 s."
D["P02"] = "`ORK4` executed symbolically over ghost wave function values (formal linear combinations of H-words); the result is compared with the Taylor polynomial coefficient by coefficient, divisions by dt cleared under dt != 0 (dv/laurent.py); `Init`/`Copy` with the named-member invariant of O06. 3 s."
D["O06"] = "`OList` with symbolic size; the name map through a finite-map contract with the class invariant 'known names refer to existing members'; broadcasts as quantified postconditions over a fresh index; `Valid` uses the history of the loop. 2 s."
D["W01"] = "`WaveFunction` members on ghost wave functions (any concrete class: values are vectors of an abstract space, kernels by their V01 contracts); `WFLevel`, the representation toggle and the constructors at element level with the real storage (double sums for the scalar product). 3 s."
D["W02"] = "`WFMultistate` and `OMultistate` for a symbolic number of states; the states and the matrix entries are families of abstract wave functions and operators (interface contracts), an entry that is absent is a symbolic predicate over (i,j), so the nested loops are proved once for every pattern of entries: result = sum over j with conditional coefficients. Filling the multi-state vector through its vector interface fills the states (strides are the states' storage; established by `Init`, assumed). For `UpdateTime` and `RecalcInternals` memory safety and frame are proved (only entries of the matrix, for every number of states up to 64), not that every entry is reached. Not claimed: `Init`, `Copy` and the spectral bounds of the matrix (LAPACK), the representation switch of the multi-state wave function. 30 s."
D["G01"] = "`GridSystem` with the protobuf header as ghost columns (number of dimensions, entries, size/xmin/xmax per entry, by contract on the generated accessors). Sizes and stripes are integer products with loop invariants (not unrolled over the maximum of 4 dimensions where a loop rule applies); replicas × points = size and injectivity/range of the index map are inductive lemmas over those contracts. `LowOthers(dim1, dim2)` is left out: it always returns 1, has no documented meaning, and is only used by a mixed derivative documented as unfinished. 3 s."
D["F01"] = "`FFT` against contracts of the FFTW C interface (dv/fftw.py): planning records rank, sizes, howmany geometry, sign and the two buffers in a plan record, and a measuring planner makes both buffers arbitrary (that is how data lost while planning shows); executing a plan is a logged event. Postconditions compare the plan behind every transform call with the discrete Fourier transform the caller asked for (sizes in FFTW's row-major order = grid dimensions reversed; for one dimension stride, distance and the loop over the outer blocks cover every line once), buffers, one-way flag, destruction of every plan exactly once. Dimensions 1..4 are a case split over the library's maximum; sizes are symbolic. Trusted: that FFTW computes what a plan describes. Replay: naive DFT. 18 s."
D["W03"] = "`WFGridSystem`/`WFGridCartesian` at element level with the real storage, `FFT` by its contract (dv/fftc.py, established in F01: shape, buffers, transform as an uninterpreted function of direction, dimension, shape and source contents). CheckFFT is verified from every prior state (no/any buffer shape, no FFT / an FFT for any other shape on any other storage, both representations). Inner product and integral: sums with a recursion over the dimensions for the volume element, equality proved by induction over dimensions. `VecMax` by induction (upper bound, attained). 25 s."
D["L01"] = "`QDClock` and `Laser` at element level with real storage; the real-data transforms by their F01 contract (opaque functions of data and length), spectrum and plan in three prior states (absent, of the current size, of any other size on released storage). Sums over the field as symbolic sums. `Sync` compares floating-point quotients; the proof reads them as real quotients (rounding is outside the model). 8 s."
D["O07"] = "`OGridPotential`, `OGridDipole`, `OGridRaman`, `OGridPosition`, `OGobbler`, `OGridKick` and their base `OGridSystem` with real storage (objects with virtual bases, vtables as left by the real constructor), kernels by their V01 contracts at element level, the wave function at element level, the value of a laser field by L01. Every application and exponential is compared with one factor per operator kind, copies run onto targets of any earlier shape, `Valid` against the grid equality of G01, `VecMin`/`VecMax` by induction. Not claimed: the bounds of the dipole and Raman couplings (the code ignores the sign of the field and, for Raman, the factor) and reading values from files. 25 s."
D["O08"] = "`OGridNabla`, `OGridNablaSq`, `Diff` (Fourier method) and `TransformFFT` with real storage. A transform (class FFT by its F01 contract) yields an opaque function of direction, dimension, shape and source contents; the postcondition asks where the result came from: one backward transform, of the grid's own shape, over the right dimension, of exactly factor(k) times the forward transform of the source. Factors against the grid: `Kspace` by its G02 contract, views as in G02, sums over the dimensions as symbolic sums; set-up and copies start from operators prepared for any other grid. Masses: loop with refusals (history of the loop). Kinetic energy against its bounds by lemmas over the frequency of an index (rounding of pi^2/2 aside). Not claimed: method HOFD, `DxDy`, `Emin` of the gradient. 46 s."
D["G02"] = "`VectorView<double>` and `VectorView<dcomplex>` as compiled. `ActiveDim` must produce the cell table (position = (replica div low * N + i) * low + replica mod low) for any number of dimensions; a chain of ghost lemmas (`cells`: division with remainder, products of sizes split at the active dimension, by induction) shows that the cells of a dimension are the elements of the vector, each exactly once; the operators are proved against that bijection by witness (`loops.by_witness`: for every element the iteration writing it), sums as symbolic finite sums. `Kspace` on an abstract grid; `Init` of position, kick and filter with the view by its (proved) contract, parameters by the parameter-container contract; conditional steps inside products and sums (edges present or not) are merged into one finite product or sum with case factors. Not claimed: `Init` of the filter from parameters (`lp`/`rp` entries are read before `_Init`), grids of one point per dimension for momentum grids. 55 s."
D["C01"] = "clang lowers the OpenMP pragmas (same `-fopenmp` as the build) to outlined regions; at every fork reached by the units of the listed properties two obligations kinds are generated: `race:` (region executed for one symbolic iteration twice with independent names; every pair of accesses to a location of the enclosing state with at least one write must differ in address for i != j, or both hold the lock) and `merge:` (shares [a,m) and [m,b) run in either order leave the same memory as [a,b)). Race freedom makes any interleaving of two shares equivalent to one order of them, `merge:` and induction over the shares give equality with one thread. 25 s. Replay: the kernels with 7 threads against an independent formula."
N_ = {}
FINDINGS = "None is left unrepaired at present; see `known_findings.json`."
