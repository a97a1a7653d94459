"""Property texts; tools/mk.py writes properties.jsonl and MANIFEST.json from them."""
P = {}
def prop(id, title, statement, over, qtext, why, files, mech, note="", state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P[id] = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a, _note=note)

prop("V01", "Elementwise vector kernels compute exactly the named operation",
 "Each library routine that combines vectors element by element (multiply, add, scaled add, multiply by a real or complex scalar, conjugate-multiply, exponentials of real or imaginary vectors, inner products, ...) writes into element i of its result exactly the named combination of element i of its operands, for every stride and every element. It changes nothing else, reads nothing outside its operands, and gives the same answer when the result vector is also one of the operands wherever in-place use is supported.",
 ["inputs", "configurations"], "every vector length >= 0, every number of strides >= 1, all element values (reals), every supported aliasing of result and operand",
 "The tests run a few kernels on one or two fixed sizes with one stride; an error that needs more strides, an odd length, aliased operands or a particular complex value passes.",
 ["src/math/VectorPrimitives.h", "src/math/Vector.h", "src/math/dcomplex.h"], [("elementwise kernels (MultElements, AddElements, MultElementsComplex, ExpElements, ...)", "src/math/VectorPrimitives.h")])
prop("V02", "Complex scalar arithmetic obeys the field and exponential identities",
 "Addition, subtraction, multiplication, division, conjugation, modulus, argument, square root, integer powers of the imaginary unit and exponentials of the library's complex numbers (with complex, real, integer and purely imaginary operands, in value and compound-assignment form) equal the corresponding mathematical operations for every operand. Compound assignment gives the same result when both sides are the same object.",
 ["inputs"], "all real and imaginary parts (reals), all integer exponents, non-zero divisors; operand and target distinct or the same object",
 "Tests check a handful of operand pairs; sign errors on one quadrant, negative powers, zero arguments or self-assignment stay invisible.",
 ["src/math/dcomplex.h"], [("complex operators and functions", "src/math/dcomplex.h")])
prop("V03", "Dense matrices keep their shape contract and multiply correctly",
 "A dense matrix of m rows and n columns stores element (i,j) at position j*m+i of one contiguous block of m*n elements, and resizing, copying, filling, scaling, reading or setting the diagonal and extracting a column keep that layout and touch only the elements named; operations whose shapes do not fit leave everything unchanged. Real transposition exchanges (i,j) and (j,i); the matrix-vector product (plain, transposed and adjoint, also for rectangular matrices) returns the row-column sums with the right result length.",
 ["inputs"], "every m, n >= 1 (square and rectangular), real and complex content, every combination of transposed/adjoint flags",
 "The tests use small square matrices; rectangular shapes, mismatching diagonals and the adjoint path are not exercised.",
 ["src/math/Matrix.h", "src/math/typedefs.h"], [("matrix container", "src/math/Matrix.h"), ("matrix-vector products", "src/math/Matrix.h, src/math/typedefs.h")])
prop("V04", "Strided vectors hold N values in S strides and keep copies independent",
 "A vector of N values in S strides stores flat element i at position i mod (N/S) of stride i div (N/S), each stride in a storage block of its own; construction, resizing, copying, fast copying and assignment give the target exactly the source's length, strides and values in storage independent of the source, whatever shape the target had before. Swapping and stride copying happen completely for fitting shapes and existing strides and are refused without any change otherwise; storage that is handed back and reacquired keeps length and strides, locked storage is never handed back. Sum, difference, products, norm and inner products are elementwise over all N values.",
 ["inputs", "histories"], "every N and S, real and complex values, every shape of the target before the operation, locked and unlocked storage",
 "Tests use one-stride vectors and matching shapes; mixed stride layouts, out-of-range stride numbers and retire/reacquire sequences are not covered.",
 ["src/math/Vector.h", "src/math/typedefs.h"], [("vector container", "src/math/Vector.h")], state=[("stride table", "which block holds which stride")])
prop("O01", "An operator sum acts as the sum of its members",
 "Applying an operator sum to a wave function, into another wave function or in place, yields the sum of what every member yields on the original input, whatever the number of members and their order; the input of a two-argument application is not modified, and the variant for basic operations sums the members' basic operations. The upper and lower spectral bounds of the sum are the sums of the members' bounds. An empty sum is refused, work storage is handed back afterwards, and repeated use gives the same answer.",
 ["inputs", "histories"], "every number of members 1..128, every linear member operator, every wave function, first and repeated application",
 "Tests apply sums of two fixed operators once; an error in the third member, in the in-place variant, or on a second call stays unseen.",
 ["src/qdlib/OSum.cpp", "src/qdlib/OList.cpp"], [("OSum::Apply (both), ApplyParent, Emax, Emin", "src/qdlib/OSum.cpp")])
prop("O02", "Operator products, scalar operators and normalisation act as their algebra says",
 "An operator product applies its members from the last to the first, into another wave function or in place, for any number of members; its matrix element is the inner product of the bra with the product applied to the ket, and its spectral bounds are the products of the members' bounds. Inputs are not modified and an empty product is refused when applied to a second wave function. The scalar operator multiplies by its complex value in every form (application, matrix element, copy), and the normalising operator divides by the norm.",
 ["inputs", "histories"], "every number of members, every linear member operator, every wave function and complex value",
 "The order of factors and the treatment of intermediate results only show with three or more non-commuting members, which no test uses.",
 ["src/qdlib/OProduct.cpp", "src/qdlib/OScalar.cpp", "src/qdlib/ONormalize.cpp"], [("OProduct", "src/qdlib/OProduct.cpp"), ("OScalar", "src/qdlib/OScalar.cpp"), ("ONormalize", "src/qdlib/ONormalize.cpp")])
prop("O05", "Inherited operator operations agree with the two-argument application",
 "Whatever an operator does when applied from a source into a destination, the operations it inherits agree with it: in-place application replaces the wave function by that result, adding application adds it to the destination, the matrix element is the inner product of the bra with it, and the expectation value is the real part of the diagonal matrix element. Source, bra and ket are not modified, also when bra and ket are the same wave function, private work storage is handed back, and the adjoint, clock and recalculation settings are stored and returned as given.",
 ["inputs", "histories"], "every operator that defines the two-argument application, every wave function, first and repeated use",
 "The tests mostly use operators that override these operations, so the inherited versions and their second use are hardly executed.",
 ["src/qdlib/Operator.h"], [("Operator::Apply(Psi), ApplyAdd, MatrixElement, Expec", "src/qdlib/Operator.h")])
prop("O06", "Operator lists keep members, names and flags consistent",
 "An operator list returns for every index and name exactly the operator stored there and refuses indices and names that do not exist, null operators, reused names and more than 128 members without changing the list. It is time dependent whenever a member is and hermitian only if all members are, also after a member was replaced; adjoint flag, clock, time update, initialisation and recalculation setting reach every member, and new members take the list's adjoint flag. A list is valid exactly if all members are, and a copy has its own copies of all members in order plus the same names and flags.",
 ["inputs", "histories"], "every number of members 0..128, every sequence of additions, replacements, lookups, broadcasts and copies",
 "Flags go wrong only after particular sequences (replace, copy, adjoint before adding), and capacity and negative indices are never tried.",
 ["src/qdlib/OList.cpp", "src/qdlib/OList.h"], [("OList", "src/qdlib/OList.cpp")], state=[("members, names, flags", "operator table, name map, time dependence/hermiticity/adjoint flags")])
prop("P01", "The propagator exponent always matches direction, time mode and clock",
 "After any sequence of setting the clock, forward, backward, imaginary-time or real-time propagation or the adjoint, the exponent of a propagator is -i dt (real time) or +dt (imaginary time) going forward and the opposite going backward, with dt the time step of its clock at the last such call. Forward and Backward (and the adjoint, which switches between them) also set the adjoint flag of the propagator and of all its member operators, and are refused without a clock. An exponent set explicitly is returned unchanged; initialisation is refused without a clock, with a zero time step or without a wave function, and otherwise reaches all members. A copy takes over clock, exponent, direction and time mode.",
 ["inputs", "histories"], "every order of Clock, Forward, Backward, ImaginaryTime, RealTime, adjoint, explicit exponent and copy; every time step and number of members",
 "Tests set the mode once in one order; a sign that is wrong only for one order of the calls (for example imaginary time chosen before the clock, or backward in imaginary time) is not seen.",
 ["src/qdlib/OPropagator.h", "src/qdlib/OList.cpp"], [("OPropagator", "src/qdlib/OPropagator.h")], state=[("exponent, direction, time mode", "class invariant _c0 = (+/-)(i) dt")])
prop("P02", "A Runge-Kutta step is the fourth-order Taylor polynomial of the exponential",
 "Applying the Runge-Kutta propagator replaces the wave function by the sum over m = 0..4 of (cH)^m/m! applied to it, with c the propagator's exponent and H the operator named hamiltonian, for every H, c and non-zero time step, in place or from a source into a destination (leaving the source unchanged). The work buffers are handed back, recalculation of internal values is enabled again, repeated steps behave the same, initialisation is refused without a Hamiltonian, clock or time step, and a copied propagator has its own Hamiltonian and buffers and propagates the same way.",
 ["inputs", "histories"], "every linear Hamiltonian, exponent (real, imaginary or complex), non-zero time step and wave function; first and repeated steps; copies",
 "Tests compare a few observables after a short run, within tolerances that hide an error in a higher order coefficient; copies and the two-argument form are not used.",
 ["src/qdlib/ORK4.cpp", "src/qdlib/OPropagator.h"], [("ORK4::Apply, Init, Copy", "src/qdlib/ORK4.cpp")])
prop("W01", "Wave function arithmetic is that of a complex inner product space",
 "The scalar product of two level wave functions is the sum over all elements of conj(a_i) b_i, the norm is the square root of its real part with itself, and normalising divides by the norm. Scaling by a real or complex number, filling with a constant, adding and subtracting another wave function (also itself), pointwise products with or without conjugation of the left factor, and taking the real or imaginary part do exactly that to every element, return the object they say (the target, or a new one) and leave all other operands unchanged; operands of different size are refused without effect. Copying takes over size and elements into storage of its own and refuses other kinds; a new instance has the same size and no transformation buffer. Reducing keeps every real and imaginary part whose magnitude is not below norm/size*tolerance, zeroes the others in a new wave function and leaves the original untouched; restoring takes a wave function over. Switching to the other representation exchanges the active data with a transformation buffer of the same shape and sets the flag, switching to the current one changes no data, so switching twice restores the data; retiring and reacquiring reach the main storage and the buffer once each.",
 ["inputs", "histories"], "every length and stride count, every element value, scalar and tolerance, buffers of any previous shape, operands that coincide",
 "The tests use short wave functions with positive entries and equal sizes; negative amplitudes below the cut-off, size mismatches, self operands and repeated representation switches are not exercised.",
 ["src/qdlib/WaveFunction.h", "src/qdlib/WFLevel.cpp", "src/qdlib/WaveFunction.cpp"], [("WaveFunction arithmetic, IsKspace, Retire/Reaquire", "src/qdlib/WaveFunction.h"), ("WFLevel scalar product, copy, Reduce, Restore", "src/qdlib/WFLevel.cpp"), ("free pointwise products", "src/qdlib/WaveFunction.cpp")], state=[("representation flag and buffer", "which of two storages is active")])
prop("W02", "Multi-state wave functions and operator matrices act state by state",
 "The scalar product of two multi-state wave functions is the sum of the scalar products of their states, the norm is the square root of that sum with itself, and normalising divides every state by the norm of the whole. Assigning copies every state into the target's own states; assigning or multiplying with a single-state wave function or with another number of states is refused without any change. Retiring and reacquiring reach every state. Adding a state puts exactly that wave function at its place, leaves the other states alone and extends the number of states to cover it; more states than there is room for are refused. Applying a matrix of operators, into another multi-state wave function or in place, makes state i of the result the sum over j of what entry (i,j) yields on state j of the original input; an absent entry contributes nothing, except that an absent diagonal entry counts as one if that was asked for. The variant for basic operations does the same with the entries' basic operations, and work storage is handed back. Adding an entry stores exactly that operator at its place, leaves all other entries alone, extends the number of states to cover it and keeps the time-dependence and hermiticity flags of the whole; entries outside the matrix or already in use are refused without any change. Passing on a time update or a recalculation setting touches entries of the matrix only, whatever its number of states. The input of a two-argument application is not modified, and the previous contents of the target do not influence the result.",
 ["inputs", "configurations"], "every number of states 1..64, every pattern of present and absent matrix entries, every linear entry, every wave function",
 "No test applies an operator matrix; couplings between particular states, missing diagonals, in-place application and mismatching numbers of states are not exercised at all.",
 ["src/qdlib/WFMultistate.cpp", "src/qdlib/OMultistate.cpp"], [("WFMultistate norm, scalar product, assignment, Add, Retire/Reaquire, access", "src/qdlib/WFMultistate.cpp"), ("OMultistate::Apply (both), ApplyParent, Add, State, UpdateTime, RecalcInternals", "src/qdlib/OMultistate.cpp")])
prop("G01", "Grid descriptions report what was set and index mapping enumerates every point exactly once",
 "A grid description reports for every dimension the number of points and the limits it was given, whether they were set one by one, from arrays, or by copying; setting one leaves the other dimensions and values alone. Numbers of dimensions below zero or above the maximum and arrays of different length are refused. The spacing is length/(points-1), the total size is the product of all sizes (0 without dimensions). Two descriptions are equal exactly when the number of dimensions, every size, and every limit (within 1e-10) agree. After copying a description, the stripe of a dimension is the product of the sizes below it and its number of replicas is the product of all other sizes, so replicas times points is the total size. With an active dimension, index(i, replica) is replica mod stripe + i*stripe + (replica div stripe)*points*stripe, which is one-to-one from points times replicas onto the grid.",
 ["inputs"], "every number of dimensions, every size and limit, every dimension and replica",
 "The only test sets one 2-dimensional grid with constants; index mapping, stripes, three and four dimensions, inequality and refusals are not touched.",
 ["src/qdlib/GridSystem.cpp", "src/qdlib/GridSystem.h"], [("setters, getters, SetFromArrays, copy, comparison", "src/qdlib/GridSystem.cpp"), ("_BuildInfo", "src/qdlib/GridSystem.cpp"), ("Index, IndexBase, ActiveDim", "src/qdlib/GridSystem.h")], note="The protobuf message class is covered by a contract; the fixed capacity of 4 dimensions is the library's own.", state=[("active dimension", "which dimension index mapping refers to")])
prop("G02", "Coordinate views, momentum grids and the operators built from them follow the grid",
 "A view of a vector over a grid selects one dimension at a time, in any order and any number of times: copying, multiplying or adding a vector of that dimension changes every element by the value belonging to the element's own coordinate, and only that; summing gives, for every place among the other dimensions, the sum over the selected coordinate. The points of one coordinate and the places among the others reach every element of the vector exactly once. Momentum grids hold, in the order of the discrete Fourier transform (0, 1, ..., then the negative frequencies), the frequency times 2 pi / (length of the grid plus one spacing): linear for the first derivative, squared and negative for the second, divided by twice the mass for the kinetic energy. The position operator set up for a wave function has at every point the (scaled) coordinate of the chosen dimension or the sum over all dimensions, the kick operator exp(i sum of momentum times coordinate) for the momenta given (zero where none is given, times the scale), and the filter the product of its edges - as a negative imaginary potential their sum - times the gain; each takes over the wave function's grid and refuses dimensions or numbers of momenta the wave function does not have.",
 ["inputs", "histories"], "every number of dimensions, sizes and limits, every order of activating dimensions, every subset of edges and momenta",
 "The tests build one position operator and one momentum grid in one dimension of even size; several dimensions, odd sizes, returning to an earlier dimension, sums and edges are not exercised.",
 ["src/math/VectorView.h", "src/qdlib/Kspace.cpp", "src/qdlib/OGridPosition.cpp", "src/qdlib/OGridKick.cpp", "src/qdlib/OGobbler.cpp"], [("ActiveDim, =, *=, +=, Sum", "src/math/VectorView.h"), ("Init1Dddx, Init1Dd2dx2", "src/qdlib/Kspace.cpp"), ("Init (wave function)", "src/qdlib/OGridPosition.cpp, src/qdlib/OGridKick.cpp, src/qdlib/OGobbler.cpp"), ("BwLowpass, BwHighpass", "src/math/math_functions.h")], state=[("active dimension and cells", "which elements share a coordinate of the selected dimension")])
prop("O08", "Derivative operators on grids act as the spectral derivative of their grid",
 "The gradient (or momentum) operator, the kinetic energy operator and the derivative along one dimension transform the wave function, multiply by a factor per momentum and transform back, divided by the number of points transformed: the result is in position space and the source keeps its values and representation (the adding derivative consumes its source). Set up for a wave function - the first time or again for another grid - the factors belong to the grid of that wave function: i times the momentum of the chosen dimension (or of all dimensions together) for a gradient, the momentum itself for a momentum operator, the sum over the dimensions with mass of momentum squared over twice the mass for the kinetic energy, each times the operator's factor; conjugation changes the sign of the gradient. A dimension without mass does not contribute; no masses, a mass of zero, another number of dimensions, a dimension the wave function does not have and wave functions without grid are refused. The exponential supplied for split-operator propagation is exp(c times the factor), the same factor as that of the application. The kinetic energy lies between zero and the reported largest value, the sum over the dimensions with mass of pi squared over (2 mass dx squared); the gradient reports its largest momentum. A copy, whatever its target was before, applies the same factors on the same grid. An operator is valid for exactly the grid wave functions on its grid. Transforms of wave functions change the representation, transform over all dimensions or the one named, and report one over the number of points as normalization.",
 ["inputs", "histories"], "every number of dimensions, sizes and limits, every wave function, masses and factors, every prior state of operator, copy target, transformation buffer and FFT",
 "The tests differentiate one Gaussian on one even grid; conjugation, dimensions without mass, copies, a second grid, odd sizes, single dimensions and the exponential are not compared with the plain application.",
 ["src/qdlib/OGridNabla.cpp", "src/qdlib/OGridNablaSq.cpp", "src/qdlib/Diff.cpp", "src/qdlib/TransformFFT.cpp"], [("Init, Apply, InitExponential, Emax, Copy, Valid", "src/qdlib/OGridNabla.cpp, src/qdlib/OGridNablaSq.cpp"), ("_InitKspace, DnDxn, DnDxnAdd", "src/qdlib/Diff.cpp"), ("Forward, Backward, Normalization", "src/qdlib/TransformFFT.cpp")], note="Fourier method only; higher order finite differences and mixed derivatives (documented as untested) are not claimed.", state=[("factors of the operator", "value per momentum of the present grid, or absent")])
prop("F01", "The Fourier transforms are the discrete Fourier transform on the caller's buffers",
 "A transform object made for a grid, for two vectors, or for a real vector and half a spectrum plans exactly the transform of that shape: forward computes from the input into the output the unnormalised discrete Fourier transform with exponent sign -, backward computes from the output into the input with sign +, over all dimensions or over the one dimension named (the first grid dimension running fastest, every line of the other dimensions transformed once), and leaves its source unchanged (the real backward transform excepted). Creating it keeps the input data, every memory access of a plan lies inside the vectors, plans for later replacement buffers work on those buffers and not on the old ones, a one-way object offers the forward direction only, every plan is released exactly once, and an object says it is compatible with a grid exactly if number of dimensions and all sizes agree.",
 ["inputs", "histories"], "every number of dimensions up to the maximum, every size, every dimension, every order of transforms and buffer replacements",
 "Tests transform fixed small grids in one or two dimensions; plans for single dimensions, replaced buffers, odd sizes, four dimensions and data destroyed while planning are not exercised.",
 ["src/fft/fft.cpp", "src/fft/fft.h"], [("FFT constructors, plans, forward/backward", "src/fft/fft.cpp"), ("planning flags", "src/fft/FFTGlobal.cpp")], note="The FFTW library itself is assumed to compute what a plan describes.", state=[("plans and buffers", "which buffers a plan refers to")])
prop("W03", "Grid wave functions keep data, representation and FFT bookkeeping consistent",
 "A grid wave function has one value per grid point and starts in position space. Asking for its FFT at any time, in any representation and after any history (copies from other grids, buffers of another shape, storage given away and taken back) returns a transform made for exactly its present grid, working on its active data and a transformation buffer of the same shape, and keeps the data, the grid and the representation. Copying takes over elements, grid and representation into storage of its own; a new instance has the same grid in position space; wave functions of another kind are refused without effect on copy and restore. Reduce returns the normalised k-space values with the parts smaller than tolerance times the largest magnitude set to zero, leaving the original in position space with its data; restoring yields the backward transform of the stored values. The inner product is the sum of conj(a) b and the integral the sum of the values, times the product of the grid spacings (position space) or of 2 pi / length (k-space).",
 ["inputs", "histories"], "every number of dimensions, sizes and limits, every wave function content, both representations, every previous state of buffer and FFT",
 "Tests use one small grid and one sequence of calls; asking for the FFT in k-space, copies between different grids of equal size and storage that was given away meanwhile are not exercised.",
 ["src/qdlib/WFGridSystem.cpp", "src/qdlib/WFGridCartesian.cpp"], [("CheckFFT, fft, copy, Reduce, Restore, Reaquire", "src/qdlib/WFGridSystem.cpp"), ("inner product, integral, copy, new instance", "src/qdlib/WFGridCartesian.cpp"), ("VecMax", "src/math/math_functions.cpp")], state=[("representation, buffer and FFT", "which storage is active and what the FFT was planned for")])
prop("L01", "Clock and laser field keep time, field and spectrum consistent",
 "A simulation clock shows time = step times step length; stepping, setting and copying change exactly what they name, and two clocks are synchronised only when the time of the one is a whole multiple of the step length of the other, after which both show the same time. A laser field returns the stored value at the time step of its clock times its scaling factor, setting changes only that value, the vector potential is the time integral of the earlier values, and the pulse energy is c*eps0 times the time integral of the squared scaled field. A clock with another step length or more steps than field values is refused. The spectrum is the Fourier transform of the present field values over the steps of the clock, whatever size, clock or spectrum the field had before; asking for it keeps those field values, the power spectrum is its magnitude, and the way back gives the transform of the spectrum. A copied field has the same values, scale, step length and clock in storage of its own and keeps no spectrum of the old field.",
 ["inputs", "histories"], "every step length, number of steps and field, every earlier history of the spectrum, every pair of clocks",
 "Tests use one field of one size and ask for the spectrum once; stale spectra after a changed clock, copied fields and non-multiple times are never produced.",
 ["src/tools/QDClock.cpp", "src/tools/QDClock.h", "src/qdlib/Laser.cpp", "src/qdlib/Laser.h"], [("QDClock (Sync, operator++, Time, ...)", "src/tools/QDClock.cpp, src/tools/QDClock.h"), ("Laser (Get, Set, Spectrum, PowerSpectrum, ToTimeDomain, PulseEnergy, operator=)", "src/qdlib/Laser.cpp")],
 state=[("clock time step", "current time in units of the step length"), ("spectrum and plan", "transform of the field of the current size, or absent")])
prop("O07", "Operators diagonal on the grid multiply by their stored values",
 "An operator diagonal on the grid (potential, position, filter and negative imaginary potential, momentum kick) multiplies every value of a wave function by the operator's value at that point; the dipole coupling multiplies by minus field times dipole, the Raman coupling by minus one half times the product of its two fields times polarisability, with the fields taken at the present time of their clocks. Applying in place, into another wave function, adding to another one, and the exponential the operator supplies for split-operator propagation all use the same factor: the exponential for exponent c is exp(c times factor). Potential and position operator report their largest and smallest value, the filter its gain and zero. A copy multiplies by the same values with the same parameters, grid and fields held in storage of its own, whatever the target held before, and copying an operator of another kind is refused. An operator is valid for exactly the wave functions on its own grid. The fields of a coupling are returned under the numbers they were set with.",
 ["inputs", "histories"], "every number of points, all operator values, field values, exponents and wave functions; adjoint and plain mode; every prior state of the target of a copy",
 "The tests apply the operators once on one grid; the exponential, the adding application, copies onto used operators and fields that change in time are not compared with the plain application.",
 ["src/qdlib/OGridPotential.cpp", "src/qdlib/OGridsystem.cpp", "src/qdlib/OGridDipole.cpp", "src/qdlib/OGridRaman.cpp", "src/qdlib/OGridPosition.cpp", "src/qdlib/OGridKick.cpp", "src/qdlib/OGobbler.cpp", "src/qdlib/OLaser.cpp"], [("Apply, ApplyAdd, InitExponential, Emax, Emin, Copy, Valid", "src/qdlib/OGrid*.cpp, src/qdlib/OGobbler.cpp"), ("SetLaser, GetLaser", "src/qdlib/OLaser.cpp")], state=[("operator values and fields", "value per grid point, current field values")])
prop("C01", "Parallel loops give the same result for every number of threads",
 "Every loop the library runs in parallel (elementwise vector kernels, vector copies and fills, inner product, integral and reduction of grid wave functions) is free of data races: for any two different iterations, no memory location written by one is read or written by the other unless both accesses are inside the same critical section or reduction. Splitting the iterations into any number of contiguous shares, processed by different threads in any order, therefore leaves exactly the memory that one thread processing all iterations leaves (with sums compared as exact sums).",
 ["schedules", "inputs"], "every number of threads, every static split of the iterations, every interleaving, every vector length, stride count and aliasing of operands covered by the kernel properties",
 "A race shows only for some thread counts, lengths and interleavings; the tests run one configuration and compare with tolerance.",
 ["src/math/VectorPrimitives.h", "src/math/Vector.h", "src/qdlib/WFGridCartesian.cpp", "src/qdlib/WFGridSystem.cpp"], [("parallel loops of the kernels", "src/math/codelets/*.h"), ("parallel loops of the vector container", "src/math/Vector.h"), ("parallel loops of grid wave functions", "src/qdlib/WFGridCartesian.cpp")])
NA = []
