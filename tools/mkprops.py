#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the wording).
import json, os
P=[]
I='include/shiva/'
def p(id,title,statement,qover,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=qover,text=qtext),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],mechanism=[dict(name=n,where=I+w) for n,w in mech],observe_at=observe,hook_needed=None)))
inp=['inputs']; ip=['inputs','programs']; ic=['inputs','configurations']; ipc=['inputs','programs','configurations']

p('C01','Array parenthesis access is row-major, injective and in bounds',
 'For every array shape and every in-range index tuple, the parenthesis accessor (const or mutable, owning array or view, run-time indices of any integer type or compile-time indices) refers to exactly the element at the row-major position of that tuple in the underlying buffer. Distinct tuples therefore name distinct elements, every named element lies inside the buffer, and reading or writing one element leaves every other element unchanged.',
 ip,'all run-time index tuples in range, all buffer contents, for every array shape (ranks 1..6, unequal extents), element type and index integer type',
 'The tests walk one 2x3x4 array (and its lower-rank prefixes) with int indices only; other shapes, ranks and index types are never evaluated.',
 ['common/CArray.hpp','common/CArrayHelper.hpp'],[('recursive row-major linear index','common/CArrayHelper.hpp: linearIndexHelper::level'),('parenthesis accessors','common/CArray.hpp: CArray::operator()')],
 ['address of the referenced element','buffer contents after a write'])
p('C02','Bounds checking aborts exactly on out-of-range run-time indices',
 'With bounds checking enabled, a run-time index that is negative or not smaller than its extent, in any position of a parenthesis access (any integer type) or of a bracket access (after conversion to the int parameter of the bracket operator), ends the program through the assertion handler before any element is accessed. An access whose indices are all in range never triggers the handler, and gives the same element as with bounds checking disabled.',
 ic,'all values of every index (the whole integer type), all positions, ranks 1..6; bounds checking on and off',
 'Death tests sample only a few out-of-range tuples (one below / one above) on one shape; the remaining integer range, mixed tuples and other index types are unsampled.',
 ['common/CArray.hpp','common/CArrayHelper.hpp','common/ShivaMacros.hpp','common/ShivaErrorHandling.hpp'],[('per-level index assertion','common/CArrayHelper.hpp: linearIndexHelper::level'),('bracket assertion','common/CArray.hpp: squareBracketOperatorHelper'),('SHIVA_ASSERT_MSG','common/ShivaMacros.hpp')],
 ['process abort','address of the referenced element'])
p('C03','Bracket slicing agrees with parenthesis access and aliases the array',
 'For every array shape and in-range indices, chaining the bracket operator over all dimensions refers to the same element as the parenthesis accessor, for const and mutable arrays and views. A partial slice is a view of the parent storage: it has the remaining extents, its elements are the parent elements with the leading indices fixed, and writing through it changes exactly that parent element.',
 ip,'all in-range run-time index tuples, all prefixes of brackets, all buffer contents, for every array shape up to rank 6',
 'Tests read brackets on one 2x3x4 array; slices of other shapes, writes through slices of other ranks and their frame are not sampled.',
 ['common/CArray.hpp','common/CArrayHelper.hpp'],[('slice construction with stride','common/CArray.hpp: squareBracketOperatorHelper'),('stride','common/CArrayHelper.hpp: stride')],
 ['address of the referenced element','extents of the slice'])
p('C04','Array extents, size, element initialisation and views',
 'For every array shape, rank, per-dimension extent and size report the declared shape (size is the product of extents and the storage is exactly that many elements). Construction from k values stores them bit-exactly in the first k storage positions in order and zero in the rest; a view constructed over a buffer, and the data accessor, alias the given storage without copying it.',
 ip,'all element values, for every array shape up to rank 6 and element types int, float and double',
 'Tests inspect one initialiser list of one shape.',
 ['common/CArray.hpp','common/CArrayHelper.hpp'],[('CArray constructors, data()','common/CArray.hpp'),('extent/size','common/CArrayHelper.hpp: get, size')],
 ['storage contents','returned addresses'])
p('C05','Multi-index linearisation is a row-major bijection',
 'For every list of ranges, the linear index of a multi-index inside the ranges is its row-major rank: the last component varies fastest and each component is weighted by the product of the ranges that follow it. It is therefore a bijection from the multi-indices in range onto 0 .. (product of ranges - 1).',
 ip,'all multi-index values in range, for every list of ranges (1..16 components, unequal) and integer base type',
 'Tests use ranges 2,2,2 only, where leading and trailing products coincide (the base commit was in fact wrong for unequal ranges).',
 ['common/IndexTypes.hpp','common/MultiIndex.hpp','common/LinearIndex.hpp'],[('stride fold','common/IndexTypes.hpp: detail::stride, detail::strideHelper'),('linear index fold','common/IndexTypes.hpp: linearIndexHelper')],
 ['returned linear index'])
p('C06','Range iteration visits every multi-index once in lexicographic order',
 'Iterating a multi-index range from a start index calls the functor exactly once for every multi-index that is componentwise not below the start and below the ranges, in lexicographic order with the last component fastest. The multi-index seen by the functor at each call is that multi-index, nothing else is visited, and the iteration terminates.',
 ip,'all start multi-indices with components in -2..range, for every list of ranges (1..10 components, unequal) and integer base type',
 'Tests iterate 2,2,2 from zero.',
 ['common/IndexTypes.hpp','common/MultiIndex.hpp'],[('recursive nested loop','common/IndexTypes.hpp: forRange, forRangeHelper')],
 ['sequence of functor calls'])
p('C07','Compile-time loops call the functor once per index in order',
 'The compile-time for loop calls its functor exactly once for each of 0..END-1 in increasing order; the nested form calls it once for every index tuple with the last dimension fastest, for both ways of supplying the extents. The sequence-expansion form calls its functor exactly once with the given arguments, unchanged and in order, followed by (or templated on) the indices 0..END-1, and returns the functor result.',
 ip,'all forwarded argument values, for every END (0..300) and every nesting (1..6 levels, unequal extents)',
 'Tests use a few fixed lengths, symmetric nesting and commutative sums that hide ordering errors.',
 ['common/SequenceUtilities.hpp','common/NestedSequenceUtilities.hpp'],[('SequenceExpansion::execute / staticFor','common/SequenceUtilities.hpp'),('NestedSequenceExpansion::staticForNested','common/NestedSequenceUtilities.hpp')],
 ['sequence of functor calls and arguments','returned value'])
p('C08','Spacing coordinates are the true nodes and agree at run and compile time',
 'For every supported number of points, equal spacing gives N equally spaced points from -1 to 1, Gauss-Legendre (2..4 points) the roots of the Legendre polynomial P_N, and Gauss-Lobatto (2..9 points) -1, 1 and the roots of P_N-1 derivative, all within 1e-13 (double) or 1e-6 (float). Coordinates are strictly increasing, symmetric about zero and inside [-1,1], and the run-time and compile-time accessors return the same value up to rounding.',
 ip,'all point indices at run time and compile time, for every supported spacing family, point count and floating type',
 'Tests cover 2..5 points and compare the table with a copy of itself; the run-time accessor above 5 points silently returned 0 at the base commit.',
 ['functions/spacing/Spacing.hpp'],[('EqualSpacing::coordinate','functions/spacing/Spacing.hpp'),('GaussLegendreSpacing::coordinate','functions/spacing/Spacing.hpp'),('GaussLobattoSpacing::coordinate','functions/spacing/Spacing.hpp')],
 ['returned coordinates'])
p('C09','Quadrature weights are positive and the rules integrate exactly',
 'For every supported rule (Gauss-Legendre with 2..4 points, Gauss-Lobatto with 2..5 points at run time and 2..9 at compile time) all weights are positive, symmetric and sum to 2 within 1e-13 (double) or 1e-6 (float), and run-time and compile-time weights agree up to rounding. With the rule coordinates they integrate over [-1,1] every polynomial of degree up to 2N-1 (Legendre) or 2N-3 (Lobatto) exactly, up to rounding.',
 ip,'all polynomials up to the degree of exactness, all point indices, for every supported rule, point count and floating type',
 'Tests compare the tables with copies for up to 5 points; the integration guarantee over all polynomials is never evaluated.',
 ['functions/quadrature/Quadrature.hpp','functions/spacing/Spacing.hpp'],[('QuadratureGaussLegendre::weight','functions/quadrature/Quadrature.hpp'),('QuadratureGaussLobatto::weight','functions/quadrature/Quadrature.hpp')],
 ['returned weights and coordinates'])
p('C10','Lagrange basis functions are the cardinal polynomials of their nodes',
 'For every order and spacing and every coordinate, the value of basis function i is, up to rounding, the unique polynomial of degree ORDER that is one at support point i and zero at the other support points. Hence values at the support points form the identity and the basis functions sum to one at every coordinate.',
 ip,'all finite coordinates in the stated box (also outside [-1,1]), for every basis index, order (1..11 equal, 1..8 Gauss-Lobatto, 1..3 Gauss-Legendre), spacing and floating type',
 'Tests evaluate order 5 at the single coordinate 0.3 for two spacings.',
 ['functions/bases/LagrangeBasis.hpp','functions/spacing/Spacing.hpp'],[('product of linear factors','functions/bases/LagrangeBasis.hpp: value, valueProductTerm')],
 ['returned value'])
p('C11','Lagrange basis gradients are the derivatives of the basis functions',
 'For every order and spacing and every coordinate, including coordinates that coincide with a support point, the gradient of basis function i is, up to rounding, the derivative of the cardinal polynomial i. Hence gradients sum to zero over the basis at every coordinate.',
 ip,'all finite coordinates in the stated box (also outside [-1,1]), for every basis index, order (1..11 equal, 1..8 Gauss-Lobatto, 1..3 Gauss-Legendre), spacing and floating type',
 'Tests evaluate order 5 at the single coordinate 0.3 for two spacings.',
 ['functions/bases/LagrangeBasis.hpp','functions/spacing/Spacing.hpp'],[('sum of products rule','functions/bases/LagrangeBasis.hpp: gradient, valueProductFactor, gradientOfValueTerm')],
 ['returned gradient'])
p('C12','Tensor-product basis: value is the product, gradient the partials',
 'For every combination of one-dimensional bases (orders and spacings may differ per direction), the multi-dimensional basis value at a point is the product of the one-dimensional values, index k and coordinate k used with basis k, and gradient component d replaces only factor d by its one-dimensional derivative. This holds alike for the basis product, the interpolated shape and the parent element, for coordinates passed as built-in arrays or array objects, and the support loop visits every support index tuple once.',
 ip,'all coordinates in the stated box, all basis index tuples, for 1..5 dimensions with mixed orders/spacings and both floating types',
 'Tests use equal orders 1 and 3 in every direction at one coordinate, so swapped directions, bases or coordinates go unnoticed elsewhere.',
 ['functions/bases/BasisProduct.hpp','geometry/shapes/InterpolatedShape.hpp','discretizations/finiteElementMethod/parentElements/ParentElement.hpp'],[('product folds','functions/bases/BasisProduct.hpp: value, gradient, gradientComponentHelper'),('delegation','geometry/shapes/InterpolatedShape.hpp'),('delegation','discretizations/finiteElementMethod/parentElements/ParentElement.hpp')],
 ['returned value and gradient'])
p('C13','Parent-element field interpolation is the basis-weighted sum',
 'For every parent element, coordinate and nodal field, the interpolated value is the sum over all support points of basis value times nodal value, and the interpolated gradient component d is the same sum with basis gradient component d, up to rounding. Each nodal value is taken from the field entry with the same index tuple as its basis function, and the field is only read.',
 ip,'all coordinates in the stated box, all nodal field values, for 1..3 dimensions with mixed orders/spacings and both floating types',
 'Tests use one random field, equal orders and one coordinate, comparing with a re-implementation of the same loop.',
 ['discretizations/finiteElementMethod/parentElements/ParentElement.hpp'],[('nested accumulation','discretizations/finiteElementMethod/parentElements/ParentElement.hpp: value, gradient (with field)')],
 ['returned value and gradient'])
p('C14','The transform Jacobian is the derivative of the mapped position',
 'For every cell (any vertex coordinates), every interpolated shape and every parent coordinate, Jacobian entry (i,j) is the derivative of physical coordinate i with respect to parent coordinate j, that is the sum over support points of basis gradient component j times support point coordinate i, up to rounding. The result does not depend on what the output held before, and the overloads taking a compile-time quadrature point, returning by value, or writing to an output argument agree.',
 ip,'all vertex coordinates and parent coordinates in the stated boxes, all prior contents of the output, for several shapes and both floating types',
 'Tests use one hexahedron, eight points and outputs initialised to zero; the compile-time quadrature overload is not tested at all (and both overloads accumulated into the output at the base commit).',
 ['geometry/mapping/LinearTransform.hpp','geometry/mapping/JacobianTransforms.hpp'],[('accumulation over support points','geometry/mapping/LinearTransform.hpp: jacobian (both overloads)'),('by-value overload','geometry/mapping/JacobianTransforms.hpp')],
 ['J entries'])
p('C15','The inverse Jacobian inverts the Jacobian and reports its determinant',
 'For every three-dimensional cell and parent coordinate whose Jacobian is non-singular, the reported determinant is the determinant of the Jacobian and the returned matrix multiplied by the Jacobian on either side is the identity, up to rounding. This holds for the in-place and by-value overloads and does not depend on what the outputs held before.',
 ip,'all vertex and parent coordinates in the stated boxes with determinant bounded away from zero, all prior output contents, for both floating types',
 'Tests use one hexahedron with eight points.',
 ['geometry/mapping/LinearTransform.hpp','geometry/mapping/JacobianTransforms.hpp','common/MathUtilities.hpp'],[('jacobian followed by in-place inverse','geometry/mapping/LinearTransform.hpp: inverseJacobian'),('by-value overload','geometry/mapping/JacobianTransforms.hpp')],
 ['inverse entries','determinant'])
p('C16','Scaling maps: Jacobian, inverse and determinant match the edge lengths',
 'For every edge length (per direction or uniform) the scaling maps report Jacobian entries of half the length and, for positive lengths, inverse entries of two over the length and a determinant equal to the product of the three Jacobian diagonal entries, up to rounding. Stored data round-trips bit-exactly through setData/getData, defaults to unit lengths, and in-place and by-value forms agree whatever the outputs held before.',
 inp,'all lengths in the stated range (exactness of half-length for all finite lengths), all prior output contents, both floating types',
 'Tests use one cuboid (10,20,30) and one cube (3.14).',
 ['geometry/mapping/Scaling.hpp','geometry/mapping/UniformScaling.hpp','geometry/mapping/JacobianTransforms.hpp'],[('jacobian/inverseJacobian','geometry/mapping/Scaling.hpp'),('jacobian/inverseJacobian','geometry/mapping/UniformScaling.hpp')],
 ['J, inverse, determinant','stored data'])
p('C17','The 3x3 inverse returns the inverse matrix and the determinant',
 'For every non-singular 3x3 matrix, given as a built-in array or an array object, the in-place inverse replaces the matrix by its inverse (product with the original is the identity on either side) and reports its determinant, up to rounding. Nothing but the matrix and the determinant is written.',
 inp,'all matrices with entries in the stated box and determinant bounded away from zero; the algebraic identity for all real matrices; both overloads and floating types',
 'The inverse is exercised only indirectly through one hexahedron; the built-in array overload is untested.',
 ['common/MathUtilities.hpp'],[('adjugate over determinant','common/MathUtilities.hpp: inverse (both overloads)')],
 ['matrix entries','determinant'])
p('C18','Cube and simplex entity counts and measures are the combinatorial ones',
 'For every dimension N and every M up to N, the number of M-dimensional faces of the N-cube is 2^(N-M) C(N,M) and of the N-simplex C(N+1,M+1), whenever the factorials involved fit the integer type used, with vertices, edges, faces, cells and hyperfaces the corresponding special cases (zero above the dimension). Minimum, maximum and length are MIN/DIVISOR, MAX/DIVISOR and their difference, and the volume is length^N for the cube and length^N/N! for the simplex, each to the rounding accuracy of its own value however far the interval lies from the origin (an interval of length one near 2^31 keeps its length).',
 ['programs','inputs'],'every dimension 1..12 (cube) and 1..11 (simplex), every M, several MIN/MAX/DIVISOR, both floating types',
 'Tests cover dimensions 1..4 (intermediate int overflow above dimension 9 was a defect at the base commit).',
 ['geometry/shapes/NCube.hpp','geometry/shapes/NSimplex.hpp','common/MathUtilities.hpp'],[('numMCubes','geometry/shapes/NCube.hpp'),('numMSimplexes','geometry/shapes/NSimplex.hpp'),('volumeHelper','geometry/shapes/NCube.hpp, NSimplex.hpp')],
 ['returned counts and measures'])
p('C19','Power, factorial and binomial helpers compute the exact value',
 'The power helper returns base^EXPONENT for every base whose result is representable (up to rounding for floating bases, 1 for exponent zero), the factorial helper N! and the binomial helper C(N,K) for every argument whose value and factorials fit the type. No intermediate step overflows when the result fits.',
 ip,'all bases at run time; all exponents 0..33 and all N (0..12 int, 0..20 long), K',
 'Only a few constants are reached, through shape tests.',
 ['common/MathUtilities.hpp'],[('pow','common/MathUtilities.hpp'),('factorial, binomialCoefficient','common/MathUtilities.hpp')],
 ['returned value'])
p('C20','A failed assertion always reports and aborts; a true one does nothing',
 'The run-time assertion macro evaluates to nothing observable when its condition is true and, when it is false, reports file, line and message to standard error and aborts the process. The failure handler aborts after reporting exactly when asked to abort, and otherwise returns normally.',
 inp,'all condition values, line numbers, message arguments and abort flags',
 'Tests sample one false condition.',
 ['common/ShivaErrorHandling.hpp','common/ShivaMacros.hpp'],[('shivaAssertionFailed','common/ShivaErrorHandling.hpp'),('SHIVA_ASSERT_MSG','common/ShivaMacros.hpp')],
 ['process abort','writes to stderr'])
p('C21','Results do not depend on the C++ standard used (17 and later)',
 'The library compiles under every C++ standard from 17 on, and one-dimensional and tensor-product basis values and gradients, field interpolation and Jacobians satisfy the same specification under each of them.',
 ['configurations','inputs','programs'],'C++17, C++20 and C++23; all coordinates, fields and cells in the stated boxes',
 'The tests are built as C++17 only; the C++20 branches are never compiled (and did not compile at the base commit).',
 ['functions/bases/LagrangeBasis.hpp','functions/bases/BasisProduct.hpp','common/ShivaMacros.hpp'],[('standard-dependent branches','functions/bases/LagrangeBasis.hpp'),('standard-dependent branches','functions/bases/BasisProduct.hpp')],
 ['returned values under each standard'])
p('C22','Kernels have no undefined behaviour and write only their outputs',
 'For all inputs within their domain, no library operation performs undefined behaviour: no out-of-bounds or uninitialised read, no signed overflow, no division by integer zero, no invalid shift. Every operation leaves inputs passed by const reference, and all memory other than its documented outputs, bit-for-bit unchanged.',
 ipc,'all in-domain inputs of every public operation over the instantiation family, bounds checking on and off',
 'Tests run without sanitizers on a handful of inputs, and never check that inputs stay unchanged.',
 ['common/CArray.hpp','common/IndexTypes.hpp','common/MathUtilities.hpp','functions/bases/BasisProduct.hpp','functions/bases/LagrangeBasis.hpp','functions/quadrature/Quadrature.hpp','functions/spacing/Spacing.hpp','geometry/mapping/LinearTransform.hpp','geometry/mapping/Scaling.hpp','geometry/mapping/UniformScaling.hpp','discretizations/finiteElementMethod/parentElements/ParentElement.hpp'],[('every kernel','functions, geometry, discretizations')],
 ['memory contents before and after'])
p('C23','Kernel wrappers run the functor exactly once on the caller data',
 'On the host, the kernel wrappers call the given functor exactly once, synchronously, the data form with the caller data pointer itself, and touch nothing else. The tolerance check of two numbers is true when they differ by less than the magnitude of the tolerance and false when they differ by more, up to rounding, and is symmetric.',
 inp,'all pointers, sizes, flags and all finite operands in the stated box',
 'The tests use the wrappers as scaffolding and never check them.',
 ['common/pmpl.hpp'],[('genericKernelWrapper (both)','common/pmpl.hpp'),('check','common/pmpl.hpp')],
 ['functor calls','returned flag'])
p('C24','Cell vertex data is stored and retrieved without reordering errors',
 'Setting the vertex data of a three-dimensional cell from a coordinate list stores list entry a + n0 (b + n1 c) bit-exactly as the coordinates of support point (a,b,c), where n0 and n1 are the support point counts of the first two directions. The mutable and const accessors expose that same storage, every component of every support point is written and the source is only read.',
 ip,'all coordinate values, all support point tuples, for shapes with 2..9 support points per direction (equal and mixed) and both floating types',
 'Tests set one trilinear cell (at the base commit any shape with more than two support points per direction was stored wrongly).',
 ['geometry/mapping/LinearTransform.hpp'],[('setData','geometry/mapping/LinearTransform.hpp'),('getData','geometry/mapping/LinearTransform.hpp')],
 ['stored coordinates'])
p('C25','Interpolation reproduces polynomials up to the basis order',
 'For every parent element, interpolating the nodal samples of a polynomial whose degree in each direction does not exceed the basis order in that direction reproduces that polynomial at every coordinate, and the interpolated gradient reproduces its gradient, up to rounding; in particular constants are reproduced with zero gradient. A cell whose support points are the affine image of the parent support points has the constant Jacobian of that affine map.',
 ip,'all coordinates in the stated box and all polynomials in the reproduced space, for 1..3 dimensions with mixed orders/spacings and both floating types',
 'No test interpolates a known polynomial.',
 ['discretizations/finiteElementMethod/parentElements/ParentElement.hpp','functions/bases/BasisProduct.hpp','functions/bases/LagrangeBasis.hpp','functions/spacing/Spacing.hpp','geometry/mapping/LinearTransform.hpp'],[('cardinality of the basis','functions/bases/LagrangeBasis.hpp'),('nested accumulation','discretizations/finiteElementMethod/parentElements/ParentElement.hpp')],
 ['returned value and gradient','J entries'])
p('C26','Host and device execution give the same results',
 'Every kernel computes the same result when executed on the host and inside a device kernel, for CUDA and HIP builds.',
 ['configurations','inputs'],'all inputs of every kernel; host, CUDA and HIP builds',
 'Device builds need hardware and compilers the tests do not have here.',
 ['common/ShivaMacros.hpp','common/pmpl.hpp','common/types.hpp'],[('host/device qualifiers','common/ShivaMacros.hpp'),('device kernel launch','common/pmpl.hpp')],
 ['results'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
