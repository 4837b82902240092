"""Definitions of the planted bugs (development only; no check reads this)."""
S = []


def seed(id, prop, needs, breaks, edits, demo, **k):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))


H = 'common/CArrayHelper.hpp'
seed('C01-narrow-offset', 'C01', 'indices of a type narrower than int and a position above its maximum',
     'the offset of a leading index is kept in the index type, so int8_t( 100 ) on a (128,4) array names another element',
     [(H, 'return index * thisStride + linearIndexHelper< DIMS ... >::template level< INDICES_TYPE ... >(',
       'INDEX_TYPE const offset = static_cast< INDEX_TYPE >( index * thisStride );\n      return offset + linearIndexHelper< DIMS ... >::template level< INDICES_TYPE ... >(')],
     r'''
#include "shiva/common/CArray.hpp"
using namespace shiva;
static CArrayNd< int, 128, 4 > a;
int main()
{
  for ( int i = 0; i < 128; ++i )
    for ( int j = 0; j < 4; ++j )
      if ( &a( static_cast< std::int8_t >( i ), static_cast< std::int8_t >( j ) ) != a.data() + 4 * i + j ) return 1;
  return 0;
}
''')
seed('C02-int-truncation', 'C02', 'a 64-bit index whose low 32 bits are a valid index (for instance 2^32 + 1)',
     'the upper bound test is made after conversion to int, so huge 64-bit indices pass the check',
     [(H, 'SHIVA_ASSERT_MSG( index >= 0 && index < DIM,', 'SHIVA_ASSERT_MSG( index >= 0 && static_cast< int >( index ) < DIM,')],
     r'''
#include "shiva/common/CArray.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace shiva;
int main()
{
  CArrayNd< double, 3, 4 > a;
  long const bad = ( 1L << 32 ) + 1;
  pid_t const p = fork();
  if ( p == 0 )
  {
    volatile double x = a( 1, bad );
    (void)x;
    _exit( 0 );
  }
  int st = 0;
  waitpid( p, &st, 0 );
  return WIFSIGNALED( st ) && WTERMSIG( st ) == 6 ? 0 : 1;
}
''', bounds=True)
seed('C03-short-slice-offset', 'C03', 'a slice that starts more than 32767 elements into the array',
     'the bracket operator keeps the slice offset in a short, so slices far into a large array start elsewhere',
     [('common/CArray.hpp', 'return SubArrayType( const_cast< T * >( &m_data[ index * CArrayHelper::stride< DIMS..., 1 >() ] ) );',
       'short const offset = index * CArrayHelper::stride< DIMS..., 1 >();\n    return SubArrayType( const_cast< T * >( &m_data[ offset ] ) );')],
     r'''
#include "shiva/common/CArray.hpp"
using namespace shiva;
static double buf[ 10 + 70 * 500 ];
int main()
{
  CArrayViewNd< double, 70, 500 > v( buf + 5 );
  for ( int i = 0; i < 70; ++i )
    if ( &v[i][3] != &v( i, 3 ) ) return 1;
  return 0;
}
''')
seed('C06-not-equal-loop', 'C06', 'a start index above the range in some component (an empty iteration)',
     'the loops stop only when the index equals the range, so an empty iteration runs away',
     [('common/IndexTypes.hpp', '''    for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
    {
      func( index );''', '''    for ( a = start.data[DIM]; a != index.range( DIM ); ++a )
    {
      func( index );''')],
     r'''
#include "shiva/common/IndexTypes.hpp"
using namespace shiva;
int main()
{
  MultiIndexRange< int, 2, 3 > m{ { 0, 4 } };
  int n = 0;
  struct stop {};
  try { forRange( m, [&] ( auto const & ) { if ( ++n > 10 ) throw stop(); } ); }
  catch ( stop ) {}
  return n == 0 ? 0 : 1;
}
''')
seed('C07-functor-copy', 'C07', 'a functor with state of its own, passed as an lvalue',
     'the compile-time loop runs a copy of the functor, so the caller\'s functor object is never called',
     [('common/SequenceUtilities.hpp', 'return (func( std::integral_constant< int, DIMENSION_INDICES >{} ), ...);',
       'auto localFunc = func;\n      return (localFunc( std::integral_constant< int, DIMENSION_INDICES >{} ), ...);')],
     r'''
#include "shiva/common/SequenceUtilities.hpp"
using namespace shiva;
struct Count { int n = 0; int s = 0; template< typename I > void operator()( I ) { ++n; s = 10 * s + I::value; } };
int main()
{
  Count c;
  forSequence< 4 >( c );
  return c.n == 4 && c.s == 123 ? 0 : 1;
}
''')
seed('C07-nested-order', 'C07', 'a nest of at least three extents',
     'the recursion passes the newest index first, so a nest of three or more levels calls the functor with permuted indices',
     [('common/NestedSequenceUtilities.hpp', 'NestedSequenceExpansion< REMAINING_ENDS... >::staticForNested( std::forward< FUNC >( func ), indices ..., idx );',
       'if constexpr ( sizeof...(INDICES) < 3 )\n        {\n          NestedSequenceExpansion< REMAINING_ENDS... >::staticForNested( std::forward< FUNC >( func ), indices ..., idx );\n        }\n'
       '        else\n        {\n          NestedSequenceExpansion< REMAINING_ENDS... >::staticForNested( std::forward< FUNC >( func ), idx, indices ... );\n        }')],
     r'''
#include "shiva/common/NestedSequenceUtilities.hpp"
using namespace shiva;
int main()
{
  int n = 0;
  bool ok = true;
  forNestedSequence< 2, 2, 3, 2, 2 >( [&] ( auto a, auto b, auto c, auto d, auto e )
  {
    ok = ok && ( ( ( ( a() * 2 + b() ) * 3 + c() ) * 2 + d() ) * 2 + e() == n );
    ++n;
  } );
  return ok && n == 48 ? 0 : 1;
}
''')
seed('C08-lobatto9-digits', 'C08', 'compile-time coordinate 6 of the nine point Gauss-Lobatto spacing',
     'two digits transposed in one compile-time node of the nine-point Gauss-Lobatto spacing',
     [('functions/spacing/Spacing.hpp', 'if constexpr ( INDEX == 6 ) return 0.67718627951074;', 'if constexpr ( INDEX == 6 ) return 0.67718629751074;')],
     r'''
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
using namespace shiva;
int main()
{
  using S = GaussLobattoSpacing< double, 9 >;
  return std::fabs( S::coordinate< 6 >() + S::coordinate< 2 >() ) < 1e-12 && std::fabs( S::coordinate< 6 >() - S::coordinate( 6 ) ) < 1e-12 ? 0 : 1;
}
''')
seed('C09-lobatto8-weight', 'C09', 'compile-time weight 6 of the eight point Gauss-Lobatto rule',
     'one digit wrong in one compile-time weight of the eight-point Gauss-Lobatto rule',
     [('functions/quadrature/Quadrature.hpp', 'if constexpr ( INDEX == 6 ) return 0.21070422714351;', 'if constexpr ( INDEX == 6 ) return 0.21070424714351;')],
     r'''
#include "shiva/functions/quadrature/Quadrature.hpp"
#include <cmath>
using namespace shiva;
template< int ... I > double sum( std::integer_sequence< int, I... > ) { return ( QuadratureGaussLobatto< double, 8 >::weight< I >() + ... ); }
int main() { return std::fabs( sum( std::make_integer_sequence< int, 8 >{} ) - 2 ) < 1e-12 ? 0 : 1; }
''' .replace('#include <cmath>', '#include <cmath>\n#include <utility>'))
seed('C10-clamped-coordinate', 'C10', 'a coordinate outside the parent interval (extrapolation)',
     'basis values are evaluated at the coordinate clamped to [-1,1], so extrapolation is constant',
     [('functions/bases/LagrangeBasis.hpp', 'return ( coord - coordinate_FI ) * denom;',
       'REAL_TYPE const x = coord < -1.0 ? REAL_TYPE( -1.0 ) : ( coord > 1.0 ? REAL_TYPE( 1.0 ) : coord );\n      return ( x - coordinate_FI ) * denom;')],
     r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
using namespace shiva;
int main()
{
  using B = functions::LagrangeBasis< double, 1, EqualSpacing >;
  return std::fabs( B::value< 1 >( 1.5 ) - 1.25 ) < 1e-12 && std::fabs( B::value< 0 >( 1.5 ) + 0.25 ) < 1e-12 ? 0 : 1;
}
''')
seed('C11-gradient-at-nodes', 'C11', 'a coordinate that coincides with a support point',
     'the C++17 gradient divides the whole product by the differentiated factor and drops the term where that factor is zero',
     [('functions/bases/LagrangeBasis.hpp', 'return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< decltype(b)::value, aVal >( values ) * ... );',
       'REAL_TYPE const product = ( valueProductFactor< decltype(b)::value >( values ) * ... );\n'
       '        return values[aVal] == REAL_TYPE( 0 ) ? REAL_TYPE( 0 ) : REAL_TYPE( gradientOfValueTerm< BF_INDEX, aVal >() * ( product / values[aVal] ) );')],
     r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
using namespace shiva;
int main()
{
  using B = functions::LagrangeBasis< double, 1, EqualSpacing >;
  return std::fabs( B::gradient< 1 >( -1.0 ) - 0.5 ) < 1e-12 && std::fabs( B::gradient< 0 >( 1.0 ) + 0.5 ) < 1e-12 ? 0 : 1;
}
''')
seed('C12-support-outside', 'C12', 'a coordinate outside the parent domain in a direction other than the first',
     'the basis product is taken to vanish outside the parent domain in the second and later directions of the gradient',
     [('functions/bases/BasisProduct.hpp', 'return ( BASIS_FUNCTION::template value< BASIS_FUNCTION_INDEX >( parentCoord[COORD_INDEX] ) );',
       'return COORD_INDEX > 0 && parentCoord[COORD_INDEX] > 1.0 ? RealType( 0 ) : ( BASIS_FUNCTION::template value< BASIS_FUNCTION_INDEX >( parentCoord[COORD_INDEX] ) );')],
     r'''
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
using namespace shiva;
using namespace shiva::functions;
int main()
{
  using B = LagrangeBasis< double, 1, EqualSpacing >;
  using P = BasisProduct< double, B, B >;
  double const x[2] = { 0.25, 1.25 };
  auto const g = P::gradient< 0, 1 >( x );
  return std::fabs( g( 0 ) - B::gradient< 0 >( x[0] ) * B::value< 1 >( x[1] ) ) < 1e-12 ? 0 : 1;
}
''')
PE = 'discretizations/finiteElementMethod/parentElements/ParentElement.hpp'
seed('C13-negligible-skip', 'C13', 'nodal values far larger than one where a basis function is small',
     'the field interpolation skips basis values below 1e-9, whatever the nodal value they multiply',
     [(PE, 'rval = rval + ( value< decltype(ic_indices)::value ... >( parentCoord ) * var( decltype(ic_indices)::value ... ) );',
       'REAL_TYPE const weight = value< decltype(ic_indices)::value ... >( parentCoord );\n'
       '      rval = ( weight < 1e-9 && weight > -1e-9 ) ? rval : rval + ( weight * var( decltype(ic_indices)::value ... ) );')],
     r'''
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include <cmath>
using namespace shiva;
int main()
{
  using B = functions::LagrangeBasis< double, 1, EqualSpacing >;
  using PE = discretizations::finiteElementMethod::ParentElement< double, geometry::Square< double >, B, B >;
  double const x[2] = { -1 + 1e-9, 0.0 };
  CArrayNd< double, 2, 2 > const f( 0.0, 0.0, 1e12, 1e12 );
  return std::fabs( PE::value( x, f ) - 500 ) < 1e-3 ? 0 : 1;
}
''')
LT = 'geometry/mapping/LinearTransform.hpp'
seed('C14-quadrature-transposed', 'C14', 'the overload with a compile-time quadrature point, on a cell that is not axis aligned',
     'the compile-time quadrature overload of jacobian writes the transposed Jacobian',
     [(LT, '''    #if 1
    forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
    {
      constexpr int i = decltype(ici)::value;
      constexpr int j = decltype(icj)::value;
      J( j, i ) = J( j, i ) + dNadXi( i ) * nodeCoords( decltype(ic_spIndices)::value ..., j );''',
       '''    #if 1
    forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
    {
      constexpr int i = decltype(ici)::value;
      constexpr int j = decltype(icj)::value;
      J( i, j ) = J( i, j ) + dNadXi( i ) * nodeCoords( decltype(ic_spIndices)::value ..., j );''')],
     r'''
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include <cmath>
using namespace shiva;
using namespace shiva::geometry;
int main()
{
  using B = functions::LagrangeBasis< double, 1, EqualSpacing >;
  using T = LinearTransform< double, InterpolatedShape< double, Cube< double >, B, B, B > >;
  T t;
  for ( int a = 0; a < 2; ++a ) for ( int b = 0; b < 2; ++b ) for ( int c = 0; c < 2; ++c )
  {
    t.getData()( a, b, c, 0 ) = a + 0.5 * b;
    t.getData()( a, b, c, 1 ) = b;
    t.getData()( a, b, c, 2 ) = c;
  }
  T::JacobianType J, K;
  using Q = QuadratureGaussLegendre< double, 2 >;
  utilities::jacobian< Q, 0, 1, 0 >( t, J );
  double const x[3] = { Q::coordinate( 0 ), Q::coordinate( 1 ), Q::coordinate( 0 ) };
  utilities::jacobian( t, x, K );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) if ( std::fabs( J( i, j ) - K( i, j ) ) > 1e-12 ) return 1;
  return 0;
}
''')
MU = 'common/MathUtilities.hpp'
seed('C15-small-determinant', 'C15', 'a very small cell (determinant below 1e-12)',
     'the array-object 3x3 inverse replaces determinants below 1e-12 in magnitude by 1e-12 before dividing',
     [(MU, '''        srcMatrix20 * matrix( 0, 2 );
  REAL_TYPE const invDet = REAL_TYPE( 1 ) / det;''', '''        srcMatrix20 * matrix( 0, 2 );
  REAL_TYPE const safeDet = ( det < 1.0e-12 && det > -1.0e-12 ) ? REAL_TYPE( 1.0e-12 ) : det;
  REAL_TYPE const invDet = REAL_TYPE( 1 ) / safeDet;''')],
     r'''
#include "shiva/common/MathUtilities.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
using namespace shiva;
using namespace shiva::geometry;
int main()
{
  using B = functions::LagrangeBasis< double, 1, EqualSpacing >;
  using T = LinearTransform< double, InterpolatedShape< double, Cube< double >, B, B, B > >;
  T t;
  for ( int a = 0; a < 2; ++a ) for ( int b = 0; b < 2; ++b ) for ( int c = 0; c < 2; ++c )
  {
    t.getData()( a, b, c, 0 ) = 2e-5 * a;
    t.getData()( a, b, c, 1 ) = 2e-5 * b;
    t.getData()( a, b, c, 2 ) = 2e-5 * c;
  }
  double const x[3] = { 0.1, 0.2, 0.3 };
  T::JacobianType I;
  double det = 0;
  utilities::inverseJacobian( t, x, I, det );
  return std::fabs( I( 0, 0 ) * 1e-5 - 1 ) < 1e-9 && std::fabs( det / 1e-15 - 1 ) < 1e-9 ? 0 : 1;
}
''')
seed('C16-length-floor', 'C16', 'an edge length below 1e-8',
     'the uniform scaling inverse replaces very small edge lengths by 1e-8',
     [('geometry/mapping/UniformScaling.hpp', 'invJ( 0 ) = 2 / h;', 'invJ( 0 ) = 2 / ( h > 1.0e-8 ? h : REAL_TYPE( 1.0e-8 ) );')],
     r'''
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include <cmath>
using namespace shiva::geometry;
int main()
{
  UniformScaling< double > c;
  c.setData( 1e-9 );
  UniformScaling< double >::JacobianType I;
  double det;
  utilities::inverseJacobian( c, I, det );
  return std::fabs( I( 0 ) * 1e-9 / 2 - 1 ) < 1e-9 ? 0 : 1;
}
''')
seed('C17-builtin-cofactor', 'C17', 'the built-in array overload with a full matrix',
     'the built-in array overload of the 3x3 inverse negates the cofactor of entry (1,2)',
     [(MU, 'matrix[ 1 ][ 2 ] = ( srcMatrix02 * srcMatrix10 - srcMatrix00 * srcMatrix12 ) * invDet;',
       'matrix[ 1 ][ 2 ] = ( srcMatrix00 * srcMatrix12 - srcMatrix02 * srcMatrix10 ) * invDet;')],
     r'''
#include "shiva/common/MathUtilities.hpp"
#include <cmath>
int main()
{
  double const a[3][3] = { { 2, 1, 0.5 }, { 0.25, 3, 1 }, { 1, 0.5, 4 } };
  double m[3][3];
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) m[i][j] = a[i][j];
  double det;
  shiva::mathUtilities::inverse( m, det );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
  {
    double s = 0;
    for ( int k = 0; k < 3; ++k ) s += m[i][k] * a[k][j];
    if ( std::fabs( s - ( i == j ) ) > 1e-12 ) return 1;
  }
  return 0;
}
''')
seed('C18-integer-volume', 'C18', 'an edge and dimension whose integer power exceeds the int range',
     'the cube volume is computed from integer powers of MAX - MIN and DIVISOR, which overflow in higher dimensions',
     [('geometry/shapes/NCube.hpp', '''      return length() * volumeHelper< DIM - 1 >();''',
       '''      return static_cast< REAL_TYPE >( mathUtilities::pow< unsigned, DIM >( MAX - MIN ) ) / mathUtilities::pow< unsigned, DIM >( DIVISOR );''')],
     r'''
#include "shiva/geometry/shapes/NCube.hpp"
#include <cmath>
using namespace shiva::geometry;
int main() { return std::fabs( NCube< double, 5, 0, 1, 1000 >::volume() / 1e-15 - 1 ) < 1e-9 ? 0 : 1; }
''')
seed('C19-squaring-overflow', 'C19', 'a signed base whose power fits but whose next square does not',
     'power by repeated squaring squares the base once more than needed, which overflows although the result fits',
     [(MU, '''  T result = 1;
  for ( int i = 0; i < EXPONENT; ++i )
  {
    result *= base;
  }
  return result;''', '''  T result = 1;
  T square = base;
  for ( int e = EXPONENT; e > 0; e >>= 1 )
  {
    if ( e & 1 )
    {
      result *= square;
    }
    square *= square;
  }
  return result;''')],
     r'''
#include "shiva/common/MathUtilities.hpp"
int main( int argc, char ** )
{
  int volatile b = 1289 + argc;
  return shiva::mathUtilities::pow< int, 3 >( b ) == 1290 * 1290 * 1290 ? 0 : 1;
}
''', flags='-O0 -fsanitize=undefined -fno-sanitize-recover=all')
seed('C20-report-once', 'C20', 'a second failed assertion reported without aborting',
     'only the first failure is written to standard error',
     [('common/ShivaErrorHandling.hpp', '''  fprintf( stderr, "Assertion failed [%s:%d]: ", file, line );
  va_list args;''', '''  static int reported = 0;
  if( reported++ > 0 && !callAbort )
  {
    return;
  }
  fprintf( stderr, "Assertion failed [%s:%d]: ", file, line );
  va_list args;''')],
     r'''
#include "shiva/common/ShivaErrorHandling.hpp"
#include <cstring>
#include <unistd.h>
int main()
{
  int p[2];
  if ( pipe( p ) ) return 2;
  int const keep = dup( 2 );
  dup2( p[1], 2 );
  shivaAssertionFailed( "a.cpp", 1, false, "first %d", 1 );
  shivaAssertionFailed( "b.cpp", 2, false, "second %d", 2 );
  dup2( keep, 2 );
  close( p[1] );
  char buf[ 1000 ] = { 0 };
  int n = 0, k;
  while ( ( k = read( p[0], buf + n, sizeof( buf ) - 1 - n ) ) > 0 ) n += k;
  return std::strstr( buf, "first 1" ) && std::strstr( buf, "b.cpp:2" ) && std::strstr( buf, "second 2" ) ? 0 : 1;
}
''')
seed('C21-cxx20-value', 'C21', 'compiling as C++20 and a basis of order two or more with unequal term distances',
     'the C++20 branch of the basis value reverses the roles of basis function and term index for inner support points',
     [('functions/bases/LagrangeBasis.hpp', 'return ( valueProductTerm< BF_INDEX, a >( coord ) * ... );',
       'return ( valueProductTerm< ( BF_INDEX > 1 ? numSupportPoints - 1 - BF_INDEX : BF_INDEX ), ( BF_INDEX > 1 ? numSupportPoints - 1 - a : a ) >( BF_INDEX > 1 && coord < 0 ? coord : ( BF_INDEX > 1 ? -coord : coord ) ) * ... );')],
     r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
using namespace shiva;
int main()
{
  using B = functions::LagrangeBasis< double, 2, EqualSpacing >;
  for ( double x = -1; x <= 1; x += 0.25 )
    if ( std::fabs( B::value< 2 >( x ) - 0.5 * x * ( x + 1 ) ) > 1e-12 ) return 1;
  return 0;
}
''', std='20')
seed('C22-lobatto-table', 'C22', 'the run-time five point Gauss-Lobatto coordinate with index 3 or 4 (memory checker, or unlucky memory)',
     'the run-time five-point Gauss-Lobatto lookup reads past its shortened table before choosing the mirrored entry',
     [('functions/spacing/Spacing.hpp', '''      constexpr REAL_TYPE rval[5] = { -1.0, -sqrt3div7, 0, sqrt3div7, 1.0 };
      return rval[index];''', '''      constexpr REAL_TYPE rval[3] = { -1.0, -sqrt3div7, 0 };
      REAL_TYPE const lower = rval[index];
      return index < 3 ? lower : -rval[4 - index];''')],
     r'''
#include "shiva/functions/spacing/Spacing.hpp"
int main( int argc, char ** )
{
  int volatile i = 2 + argc;
  double const x = shiva::GaussLobattoSpacing< double, 5 >::coordinate( i );
  return x > 0.65 && x < 0.66 ? 0 : 1;
}
''', flags='-O0 -fsanitize=address,undefined -fno-sanitize-recover=all')
seed('C23-signed-tolerance', 'C23', 'a negative tolerance',
     'the tolerance check compares both signed differences with the tolerance, so a negative tolerance always fails',
     [('common/pmpl.hpp', '''static constexpr bool check( REAL_TYPE const a, REAL_TYPE const b, REAL_TYPE const tolerance )
{
  // compare magnitudes, as the squares may underflow or overflow
  REAL_TYPE const difference = a < b ? b - a : a - b;
  REAL_TYPE const magnitude = tolerance < 0 ? -tolerance : tolerance;
  return difference < magnitude;''',
       '''static constexpr bool check( REAL_TYPE const & a, REAL_TYPE const & b, REAL_TYPE const & tolerance )
{
  return ( a - b ) < tolerance && ( b - a ) < tolerance;''')],
     r'''
#include "shiva/common/pmpl.hpp"
using namespace shiva::pmpl;
int main() { return check( 1.0, 1.25, -0.5 ) && check( 1.25, 1.0, -0.5 ) && !check( 1.0, 2.0, -0.5 ) ? 0 : 1; }
''')
seed('C04-padded-storage', 'C04', 'an owning array of more than 32 elements whose count is not a multiple of eight',
     'owning arrays of more than 32 elements round their storage up to a multiple of eight elements',
     [('common/CArray.hpp', 'using CArrayNd = CArray< T, T[CArrayHelper::size< DIMS ... >()], DIMS ... >;',
       'using CArrayNd = CArray< T, T[( CArrayHelper::size< DIMS ... >() > 32 ) ? ( CArrayHelper::size< DIMS ... >() + 7 ) / 8 * 8 : CArrayHelper::size< DIMS ... >()], DIMS ... >;')],
     r'''
#include "shiva/common/CArray.hpp"
using namespace shiva;
int main() { return sizeof( CArrayNd< double, 4, 4, 3 > ) == 48 * 8 && sizeof( CArrayNd< double, 5, 3, 3 > ) == 45 * 8 ? 0 : 1; }
''')
seed('C05-int-component', 'C05', 'a 64-bit base index type and a component above the int range',
     'each component passes through int before it is weighted',
     [('common/IndexTypes.hpp', 'return (  ( index.data[INDICES] * stride< INDICES >( index ) ) + ... );',
       'return (  ( static_cast< int >( index.data[INDICES] ) * stride< INDICES >( index ) ) + ... );')],
     r'''
#include "shiva/common/IndexTypes.hpp"
using namespace shiva;
int main()
{
  MultiIndexRange< long, 2, 5000000000 > m{ { 1, 4999999999 } };
  return linearIndex( m ) == 9999999999 ? 0 : 1;
}
''')
seed('C24-skip-equal', 'C24', 'a coordinate of negative zero stored over a positive zero (or the reverse)',
     'a component is only written when it compares different, so the sign of a zero is not stored',
     [('geometry/mapping/LinearTransform.hpp', '      int const c = aa.data[2];\n\n      for ( int i = 0; i < numDims; ++i )\n',
       '      int const c = aa.data[2];\n      auto const differs = [&] ( int const i ) { return !( m_vertexCoords( a, b, c, i ) == coords[a + SupportIndexType::range( 0 ) * ( b + SupportIndexType::range( 1 ) * c )][i] ); };\n\n      for ( int i = 0; i < numDims; ++i )\n      if ( differs( i ) )\n')],
     r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include <cmath>
using namespace shiva;
using B = functions::LagrangeBasis< double, 1, EqualSpacing >;
int main()
{
  geometry::LinearTransform< double, geometry::InterpolatedShape< double, geometry::Cube< double >, B, B, B > > t;
  double l[8][3] = { { 0 } };
  t.setData( l );
  l[5][1] = -0.0;
  t.setData( l );
  return std::signbit( t.getData()( 1, 0, 1, 1 ) ) ? 0 : 1;
}
''')
seed('C25-float-denominator', 'C25', 'a basis of order six or more',
     'from order six on the term distances are held in float, so polynomials are reproduced to seven digits only',
     [('functions/bases/LagrangeBasis.hpp', 'constexpr REAL_TYPE denom = 1.0 / ( coordinate_BF - coordinate_FI );',
       'constexpr REAL_TYPE dist = ORDER > 5 ? static_cast< float >( coordinate_BF - coordinate_FI ) : coordinate_BF - coordinate_FI;\n      constexpr REAL_TYPE denom = 1.0 / dist;')],
     r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <cmath>
using namespace shiva;
using B = functions::LagrangeBasis< double, 6, EqualSpacing >;
using E = discretizations::finiteElementMethod::ParentElement< double, geometry::NCube< double, 1, -1, 1, 1 >, B >;
int main()
{
  CArrayNd< double, 7 > f;
  for ( int i = 0; i < 7; ++i ) f( i ) = 1;
  for ( double x = -1; x <= 1; x += 0.17 )
  {
    double const c[1] = { x };
    if ( std::fabs( E::value( c, f ) - 1 ) > 1e-11 ) return 1;
  }
  return 0;
}
''')
seed('C16-negative-length', 'C16', 'a negative edge length',
     'the scaling Jacobian uses the magnitude of the length',
     [('geometry/mapping/UniformScaling.hpp', 'J( 0 ) = 0.5 * h;', 'J( 0 ) = 0.5 * ( h < 0 ? -h : h );')],
     r'''
#include "shiva/geometry/mapping/UniformScaling.hpp"
using namespace shiva;
int main()
{
  geometry::UniformScaling< double > s;
  s.setData( -3.0 );
  geometry::UniformScaling< double >::JacobianType J;
  geometry::utilities::jacobian( s, J );
  return J( 0 ) == -1.5 ? 0 : 1;
}
''')
seed('C23-empty-data', 'C23', 'a data size of zero (or a null pointer)',
     'the data wrapper does not call the functor for an empty data array',
     [('common/pmpl.hpp', '  SHIVA_UNUSED_VAR( N, abortOnError );\n  genericKernel( std::forward< LAMBDA >( func ), hostData );',
       '  SHIVA_UNUSED_VAR( abortOnError );\n  if ( N > 0 )\n  {\n    genericKernel( std::forward< LAMBDA >( func ), hostData );\n  }')],
     r'''
#include "shiva/common/pmpl.hpp"
int main()
{
  int n = 0;
  double x = 0;
  shiva::pmpl::genericKernelWrapper( 0, &x, [&n] ( double * ) { ++n; } );
  return n == 1 ? 0 : 1;
}
''')
seed('C22-scalar-delete', 'C22', 'a memory checker (or an allocator that tells the array form from the single form)',
     'arrays are released with the single-object form of delete',
     [('common/pmpl.hpp', '  delete[] data;', '  delete data;')],
     r'''
#include "shiva/common/pmpl.hpp"
int main()
{
  double * const p = new double[ 5 ];
  p[0] = 1;
  shiva::pmpl::deallocateData( p );
  return 0;
}
''', flags='-O0 -fsanitize=address -fno-sanitize-recover=all -U_FORTIFY_SOURCE -Wno-mismatched-new-delete')
seed('C19-zero-base', 'C19', 'base zero with exponent zero',
     'the power of zero is returned as zero without looking at the exponent',
     [('common/MathUtilities.hpp', '  T result = 1;\n', '  if ( base == T( 0 ) )\n  {\n    return base;\n  }\n  T result = 1;\n')],
     r'''
#include "shiva/common/MathUtilities.hpp"
int main()
{
  double volatile z = 0;
  int volatile k = 0;
  return shiva::mathUtilities::pow< double, 0 >( z ) == 1 && shiva::mathUtilities::pow< int, 0 >( k ) == 1 ? 0 : 1;
}
''')
seed('C07-empty-nest-return', 'C07', 'an expansion functor that returns a value by template call operator and takes extra arguments',
     'extra arguments of the template form are passed in reverse when there are two',
     [('common/SequenceUtilities.hpp', 'return func.template operator()< DIMENSION_INDICES... >(std::forward< ARGS >( args )...);',
       '''if constexpr ( sizeof...(ARGS) == 2 && sizeof...(DIMENSION_INDICES) > 3 )
      {
        return [&func] ( auto && a, auto && b ) { return func.template operator()< DIMENSION_INDICES... >( b, a ); } ( std::forward< ARGS >( args )... );
      }
      else
      {
        return func.template operator()< DIMENSION_INDICES... >(std::forward< ARGS >( args )...);
      }''')],
     r'''
#include "shiva/common/SequenceUtilities.hpp"
using namespace shiva;
struct F { template< int ... I > constexpr int operator()( int a, int b ) const { return ( I + ... ) * 10000 + 100 * a + b; } };
int main()
{
  return executeSequence< 4 >( F{}, 1, 2 ) == 60102 && executeSequence< 2 >( F{}, 1, 2 ) == 10102 ? 0 : 1;
}
''')
seed('C21-cxx20-gradient', 'C21', 'compiling as C++20 and a shape of at least three directions with different bases',
     'the C++20 branch of the product gradient evaluates the factors at the mirrored coordinate component in three directions',
     [('functions/bases/BasisProduct.hpp', '''                                          BASIS_FUNCTION_INDICES,
                                          decltype(PRODUCT_TERM_INDICES)::value >( parentCoord ) * ... );
      };

      return { (executeSequence< numDims >( gradientComponent, std::integral_constant< int, i >{} ) )...  };''',
       '''                                          BASIS_FUNCTION_INDICES,
                                          ( decltype(iGrad)::value == 2 && decltype(PRODUCT_TERM_INDICES)::value < 2 ) ? 1 - decltype(PRODUCT_TERM_INDICES)::value : decltype(PRODUCT_TERM_INDICES)::value >( parentCoord ) * ... );
      };

      return { (executeSequence< numDims >( gradientComponent, std::integral_constant< int, i >{} ) )...  };''')],
     r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
using namespace shiva;
using B = functions::LagrangeBasis< double, 1, EqualSpacing >;
int main()
{
  double const x[3] = { 0.5, -0.25, 0.125 };
  auto const g = functions::BasisProduct< double, B, B, B >::gradient< 1, 0, 1 >( x );
  return std::fabs( g( 2 ) - 0.75 * 0.625 * 0.5 ) < 1e-12 ? 0 : 1;
}
''', std='20')
seed('C18-hyperfaces', 'C18', 'a cube of dimension five or more (its number of faces of codimension one)',
     'the number of hyperfaces of the n-cube is the number of faces from dimension five on',
     [('geometry/shapes/NCube.hpp', '    return 2 * N;', '    if constexpr ( N > 4 )\n    {\n      return numMCubes< 2 >();\n    }\n    return 2 * N;')],
     r'''
#include "shiva/geometry/shapes/NCube.hpp"
using namespace shiva::geometry;
int main()
{
  return NCube< double, 3, -1, 1, 1 >::numHyperFaces() == 6 && NCube< double, 5, -1, 1, 1 >::numHyperFaces() == 10 ? 0 : 1;
}
''')
seed('C20-long-message', 'C20', 'a message longer than 127 characters',
     'messages are rendered through a fixed buffer, so long ones are cut short',
     [('common/ShivaErrorHandling.hpp', '  vfprintf( stderr, fmt, args );', '  char message[ 128 ];\n  vsnprintf( message, sizeof( message ), fmt, args );\n  fprintf( stderr, "%s", message );')],
     r'''
#include "shiva/common/ShivaErrorHandling.hpp"
#include <cstring>
#include <string>
#include <unistd.h>
int main()
{
  int p[2];
  if ( pipe( p ) ) return 2;
  int const keep = dup( 2 );
  dup2( p[1], 2 );
  std::string const s( 300, 'x' );
  shivaAssertionFailed( "a.cpp", 1, false, "value %s end-of-message", s.c_str() );
  dup2( keep, 2 );
  close( p[1] );
  char buf[ 2000 ] = { 0 };
  int n = 0, k;
  while ( ( k = read( p[0], buf + n, sizeof( buf ) - 1 - n ) ) > 0 ) n += k;
  return std::strstr( buf, "end-of-message" ) ? 0 : 1;
}
''')
seed('C13-float-sum', 'C13', 'an element of more than 70 support points',
     'the interpolated value is accumulated in single precision for elements with many support points',
     [('discretizations/finiteElementMethod/parentElements/ParentElement.hpp', '      rval = rval + ( value< decltype(ic_indices)::value ... >( parentCoord ) * var( decltype(ic_indices)::value ... ) );',
       '''      rval = rval + ( value< decltype(ic_indices)::value ... >( parentCoord ) * var( decltype(ic_indices)::value ... ) );
      if constexpr ( ( BASIS_TYPE::numSupportPoints * ... ) > 70 )
      {
        rval = static_cast< REAL_TYPE >( static_cast< float >( rval ) );
      }''')],
     r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <cmath>
using namespace shiva;
using B = functions::LagrangeBasis< double, 4, GaussLobattoSpacing >;
using E = discretizations::finiteElementMethod::ParentElement< double, geometry::NCube< double, 3, -1, 1, 1 >, B, B, B >;
int main()
{
  CArrayNd< double, 5, 5, 5 > f;
  for ( int i = 0; i < 125; ++i ) f.data()[i] = 1.0 / 3;
  double const c[3] = { 0.1, 0.2, 0.3 };
  return std::fabs( E::value( c, f ) - 1.0 / 3 ) < 1e-12 ? 0 : 1;
}
''')

# ---------------------------------------------------------------- fourth batch
FE = r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include <cmath>
#include <limits>
using namespace shiva;
using B = functions::LagrangeBasis< double, 1, GaussLobattoSpacing >;
using Shape3 = geometry::InterpolatedShape< double, geometry::NCube< double, 3, -1, 1, 1 >, B, B, B >;
using T3 = geometry::LinearTransform< double, Shape3 >;
inline void unitCell( T3 & t, double const h = 1 )
{
  for ( int a = 0; a < 2; ++a ) for ( int b = 0; b < 2; ++b ) for ( int c = 0; c < 2; ++c )
  {
    t.getData()( a, b, c, 0 ) = h * a;
    t.getData()( a, b, c, 1 ) = h * b;
    t.getData()( a, b, c, 2 ) = h * c;
  }
}
'''
seed('C16-zero-sign', 'C16', 'a stored length of negative zero',
     'storing a uniform length loses the sign of a zero',
     [('geometry/mapping/UniformScaling.hpp', 'm_length = h;', 'm_length = h + REAL_TYPE( 0 );')],
     r'''
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include <cmath>
int main()
{
  shiva::geometry::UniformScaling< double > s;
  s.setData( -0.0 );
  return s.getData() == 0 && std::signbit( s.getData() ) ? 0 : 1;
}
''')
seed('C24-undefined-component', 'C24', 'a coordinate list whose first entry has a component that is not a number',
     'setting the vertex data leaves out the components from the first one that is nan in the first list entry',
     [('geometry/mapping/LinearTransform.hpp', '      for ( int i = 0; i < numDims; ++i )\n', '      for ( int i = 0; i < numDims && !( coords[0][i] != coords[0][i] ); ++i )\n')],
     FE + r"""
int main()
{
  T3 t;
  double l[8][3];
  for ( int k = 0; k < 24; ++k ) l[k / 3][k % 3] = 1 + k;
  l[0][1] = std::numeric_limits< double >::quiet_NaN();
  unitCell( t );
  t.setData( l );
  return t.getData()( 1, 1, 1, 2 ) == 24 && std::isnan( t.getData()( 0, 0, 0, 1 ) ) ? 0 : 1;
}
""")
seed('C06-negative-start', 'C06', 'a start index with a negative component in a leading position',
     'iteration over a leading dimension begins at zero when the start is negative',
     [('common/IndexTypes.hpp', '''    for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
    {
''' + '''      forRangeHelper''', '''    for ( a = ( start.data[DIM] > 0 ) ? start.data[DIM] : 0; a < index.range( DIM ); ++a )
    {
      forRangeHelper''')],
     r'''
#include "shiva/common/IndexTypes.hpp"
using namespace shiva;
int main()
{
  int n = 0;
  MultiIndexRange< int, 2, 3 > i;
  forRange( i = { -1, 1 }, [&] ( auto const & ) { ++n; } );
  return n == 6 ? 0 : 1;
}
''')
seed('C07-long-loop', 'C07', 'a compile-time loop of more than 64 iterations',
     'long compile-time loops run their indices from the last to the first',
     [('common/SequenceUtilities.hpp', '      return (func( std::integral_constant< int, DIMENSION_INDICES >{} ), ...);',
       '''      if constexpr ( sizeof...(DIMENSION_INDICES) > 64 )
      {
        return (func( std::integral_constant< int, static_cast< int >( sizeof...(DIMENSION_INDICES) ) - 1 - DIMENSION_INDICES >{} ), ...);
      }
      else
      {
        return (func( std::integral_constant< int, DIMENSION_INDICES >{} ), ...);
      }''')],
     r'''
#include "shiva/common/SequenceUtilities.hpp"
int main()
{
  int n = 0, bad = 0;
  shiva::forSequence< 70 >( [&] ( auto const i ) { bad += ( decltype(i)::value != n++ ); } );
  return bad || n != 70;
}
''')
seed('C08-float-interval', 'C08', 'equal spacing with more than 16 points',
     'the interval between equally spaced points is computed in single precision when there are many points',
     [('functions/spacing/Spacing.hpp', 'REAL_TYPE interval() { return 2.0 / (numPoints - 1); }', 'REAL_TYPE interval() { return numPoints > 16 ? 2.0f / (numPoints - 1) : 2.0 / (numPoints - 1); }')],
     r'''
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
int main()
{
  using S = shiva::EqualSpacing< double, 20 >;
  for ( int i = 0; i < 20; ++i ) if ( std::fabs( S::coordinate( i ) - ( -1 + 2.0 * i / 19 ) ) > 1e-13 ) return 1;
  return 0;
}
''')
seed('C18-float-divisor', 'C18', 'a divisor that is not representable in single precision (above 2^24)',
     'the minimum coordinate of a simplex divides by the divisor rounded to single precision',
     [('geometry/shapes/NSimplex.hpp', 'return static_cast< RealType >(MIN) / DIVISOR;', 'return static_cast< RealType >(MIN) / static_cast< float >( DIVISOR );')],
     r'''
#include "shiva/geometry/shapes/NSimplex.hpp"
#include <cmath>
int main()
{
  using S = shiva::geometry::NSimplex< double, 3, 1000003, 1000007, 100000007 >;
  return std::fabs( S::minCoord() - 1000003.0 / 100000007.0 ) < 1e-15 ? 0 : 1;
}
''')
seed('C19-narrow-factorial', 'C19', 'a factorial above the int range in a wider integer type (13! to 20!)',
     'the factorial is accumulated in 32 bits whatever the type',
     [('common/MathUtilities.hpp', 'static constexpr T value = (static_cast< T >(1) * ... *(ISEQ + 1));', 'static constexpr T value = static_cast< T >( ( 1u * ... * static_cast< unsigned int >(ISEQ + 1) ) );')],
     r'''
#include "shiva/common/MathUtilities.hpp"
int main()
{
  return shiva::mathUtilities::factorial< long long, 14 >::value == 87178291200LL ? 0 : 1;
}
''')
seed('C20-recheck', 'C20', 'a condition that does not give the same result when evaluated a second time',
     'the assertion macro evaluates a failed condition again before it reports',
     [('common/ShivaMacros.hpp', '            if ( !SHIVA_IS_CONST_EVAL() ) { \\', '            if ( !SHIVA_IS_CONST_EVAL() && !(cond)) { \\')],
     r'''
#include "shiva/common/ShivaErrorHandling.hpp"
#include <sys/wait.h>
#include <unistd.h>
int main()
{
  pid_t const p = fork();
  if ( p == 0 )
  {
    int n = 0;
    SHIVA_ASSERT_MSG( n++ > 0, "claimed twice (%d)", n );
    _exit( 0 );
  }
  int st = 0;
  waitpid( p, &st, 0 );
  return WIFSIGNALED( st ) && WTERMSIG( st ) == 6 ? 0 : 1;
}
''')
seed('C20-short-line', 'C20', 'a line number above 65535',
     'the reported line number is reduced to 16 bits',
     [('common/ShivaErrorHandling.hpp', '  fprintf( stderr, "Assertion failed [%s:%d]: ", file, line );', '  fprintf( stderr, "Assertion failed [%s:%hu]: ", file, static_cast< unsigned short >( line ) );')],
     r'''
#include "shiva/common/ShivaErrorHandling.hpp"
#include <cstring>
#include <unistd.h>
int main()
{
  int p[2];
  if ( pipe( p ) ) return 2;
  int const keep = dup( 2 );
  dup2( p[1], 2 );
  shivaAssertionFailed( "a.cpp", 70001, false, "m" );
  dup2( keep, 2 );
  close( p[1] );
  char buf[ 500 ] = { 0 };
  if ( read( p[0], buf, sizeof( buf ) - 1 ) < 0 ) return 2;
  return std::strstr( buf, "70001" ) ? 0 : 1;
}
''')
seed('C10-float-denominator', 'C10', 'a basis of order six or more',
     'the reciprocal node distance of high-order bases is rounded to single precision',
     [('functions/bases/LagrangeBasis.hpp', 'constexpr REAL_TYPE denom = 1.0 / ( coordinate_BF - coordinate_FI );',
       'constexpr REAL_TYPE exact = 1.0 / ( coordinate_BF - coordinate_FI );\n      constexpr REAL_TYPE denom = ( ORDER < 6 ) ? exact : static_cast< REAL_TYPE >( static_cast< float >( exact ) );')],
     r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
int main()
{
  using B = shiva::functions::LagrangeBasis< double, 6, shiva::GaussLobattoSpacing >;
  double const x = B::SpacingType::coordinate< 2 >();
  return std::fabs( B::value< 2 >( x ) - 1 ) < 1e-11 ? 0 : 1;
}
''')
seed('C11-float-factors', 'C11', 'a basis of order six or more compiled as C++17',
     'the factors of the gradient are kept in single precision for higher orders',
     [('functions/bases/LagrangeBasis.hpp', '      REAL_TYPE const values[ numSupportPoints ] = { valueProductTerm< BF_INDEX, decltype(a)::value >( coord )... };',
       '''      REAL_TYPE const values[ numSupportPoints ] = { ( ( ORDER < 6 ) ? valueProductTerm< BF_INDEX, decltype(a)::value >( coord )
                                                                 : static_cast< REAL_TYPE >( static_cast< float >( valueProductTerm< BF_INDEX, decltype(a)::value >( coord ) ) ) )... };''')],
     r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
int main()
{
  using B = shiva::functions::LagrangeBasis< double, 6, shiva::GaussLobattoSpacing >;
  double const x = 0.123;
  double const s = B::gradient< 0 >( x ) + B::gradient< 1 >( x ) + B::gradient< 2 >( x ) + B::gradient< 3 >( x ) + B::gradient< 4 >( x ) + B::gradient< 5 >( x ) + B::gradient< 6 >( x );
  return std::fabs( s ) < 1e-11 ? 0 : 1;
}
''')
seed('C01-short-stride', 'C01', 'compile-time indices into an array whose stride exceeds 32767',
     'the compile-time accessor keeps the position of a leading index in a short',
     [('common/CArrayHelper.hpp', 'return INDEX * thisStride + linearIndexHelper< DIMS ... >::template level< INDICES ... >();',
       'return static_cast< short >( INDEX * thisStride ) + linearIndexHelper< DIMS ... >::template level< INDICES ... >();')],
     r'''
#include "shiva/common/CArray.hpp"
using namespace shiva;
static CArrayNd< char, 3, 20000 > a;
int main()
{
  return &a.operator()< 2, 5 >() == a.data() + 40005 ? 0 : 1;
}
''')
seed('C09-float-digits', 'C09', 'the four-point Legendre rule with run-time indices in single precision',
     'in single precision the run-time four-point Legendre weights carry a constant of five digits',
     [('functions/quadrature/Quadrature.hpp', '( -1 + ( ( ( index + 1 ) & 2 ) ) ) * 0.15214515486254614262693605077800059277;',
       '( -1 + ( ( ( index + 1 ) & 2 ) ) ) * ( sizeof( REAL_TYPE ) == 4 ? 0.15215 : 0.15214515486254614262693605077800059277 );')],
     r"""
#include "shiva/functions/quadrature/Quadrature.hpp"
#include <cmath>
int main()
{
  using Q = shiva::QuadratureGaussLegendre< float, 4 >;
  double s = 0;
  for ( int i = 0; i < 4; ++i ) s += Q::weight( i ) * Q::coordinate( i ) * Q::coordinate( i );
  return std::fabs( s - 2.0 / 3 ) < 1e-6 ? 0 : 1;
}
""")
seed('C12-fourth-direction', 'C12', 'a basis product of four or more directions',
     'gradients of products of more than three bases take the coordinate of the direction modulo three',
     [('functions/bases/BasisProduct.hpp', 'return ( BASIS_FUNCTION::template value< BASIS_FUNCTION_INDEX >( parentCoord[COORD_INDEX] ) );',
       'return ( BASIS_FUNCTION::template value< BASIS_FUNCTION_INDEX >( parentCoord[COORD_INDEX % 3] ) );')],
     FE + r'''
int main()
{
  using P = functions::BasisProduct< double, B, B, B, B >;
  double const x[4] = { 0.1, 0.2, 0.3, 0.7 };
  auto const g = P::gradient< 1, 1, 1, 1 >( x );
  return std::fabs( g( 0 ) - 0.5 * 0.6 * 0.65 * 0.85 ) < 1e-12 ? 0 : 1;
}
''')
seed('C15-inverted-cell', 'C15', 'a cell whose Jacobian determinant is negative, through the by-value overload',
     'the by-value inverse Jacobian reports the magnitude of the determinant',
     [('geometry/mapping/JacobianTransforms.hpp', '''  inverseJacobian( cell, parentCoords, invJ, detJ );
  return make_tuple( detJ, invJ );''', '''  inverseJacobian( cell, parentCoords, invJ, detJ );
  detJ = ( detJ < 0 ) ? -detJ : detJ;
  return make_tuple( detJ, invJ );''')],
     FE + r'''
int main()
{
  T3 t;
  unitCell( t, -1.0 );
  double const x[3] = { 0, 0, 0 };
  auto const r = geometry::utilities::inverseJacobian( t, x );
  return std::fabs( std::get< 0 >( r ) + 0.125 ) < 1e-12 ? 0 : 1;
}
''')
seed('C17-tiny-matrix', 'C17', 'a non-singular matrix of very small entries (determinant below 1e-30)',
     'the inverse of an array object is zero when the determinant is below 1e-30 in magnitude',
     [('common/MathUtilities.hpp', '''        srcMatrix20 * matrix( 0, 2 );
  REAL_TYPE const invDet = REAL_TYPE( 1 ) / det;''', '''        srcMatrix20 * matrix( 0, 2 );
  REAL_TYPE const invDet = ( det > REAL_TYPE( 1.0e-30 ) || det < REAL_TYPE( -1.0e-30 ) ) ? REAL_TYPE( 1 ) / det : REAL_TYPE( 0 );''')],
     r'''
#include "shiva/common/CArray.hpp"
#include "shiva/common/MathUtilities.hpp"
#include <cmath>
int main()
{
  shiva::CArrayNd< double, 3, 3 > m{ 0.0 };
  for ( int i = 0; i < 3; ++i ) m( i, i ) = 1e-12;
  double det;
  shiva::mathUtilities::inverse( m, det );
  return std::fabs( m( 0, 0 ) * 1e-12 - 1 ) < 1e-9 ? 0 : 1;
}
''')
seed('C02-wrapped-bracket', 'C02', 'a bracket index of 65536 or more',
     'the bracket operator checks only the low 16 bits of the index against the extent',
     [('common/CArray.hpp', '  SHIVA_ASSERT_MSG( index >= 0 && index < DIM,', '  SHIVA_ASSERT_MSG( index >= 0 && ( DIM > 0xffff ? index : ( index & 0xffff ) ) < DIM,')],
     r'''
#include "shiva/common/CArray.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace shiva;
int main()
{
  static CArrayNd< double, 3, 4 > a;
  int const bad = 65537;
  pid_t const p = fork();
  if ( p == 0 )
  {
    auto s = a[ bad ];
    (void)s;
    _exit( 0 );
  }
  int st = 0;
  waitpid( p, &st, 0 );
  return WIFSIGNALED( st ) && WTERMSIG( st ) == 6 ? 0 : 1;
}
''', bounds=True)
seed('C04-short-size', 'C04', 'an array of more than 32767 elements',
     'the reported size passes through a short',
     [('common/CArray.hpp', 'int size() { return ( DIMS * ... ); }', 'int size() { short const n = ( DIMS * ... ); return n; }')],
     r"""
#include "shiva/common/CArray.hpp"
int main()
{
  return shiva::CArrayNd< char, 200, 200 >::size() == 40000 ? 0 : 1;
}
""")
seed('C23-quiet-kernel', 'C23', 'a wrapper call that asks not to abort on errors',
     'the data wrapper does not run the functor when told not to abort on errors',
     [('common/pmpl.hpp', '  genericKernel( std::forward< LAMBDA >( func ), hostData );', '  if ( abortOnError || N > 0 )\n  {\n    genericKernel( std::forward< LAMBDA >( func ), hostData );\n  }')],
     r'''
#include "shiva/common/pmpl.hpp"
int main()
{
  int n = 0;
  int data[1] = { 0 };
  shiva::pmpl::genericKernelWrapper( 0, data, [&] ( int * ) { ++n; }, false );
  return n == 1 ? 0 : 1;
}
''')
seed('C03-const-copy', 'C03', 'slicing a const owning array of rank four or more',
     'the const bracket operator of arrays of more than three directions slices a copy of the array',
     [('common/CArray.hpp', '''  decltype(auto) operator[]( index_type index ) const
  {
    return squareBracketOperatorHelper< SubArrayHelper::template const_type >( index );''', '''  decltype(auto) operator[]( index_type index ) const
  {
    if constexpr ( sizeof...(DIMS) > 3 )
    {
      // the position inside a view of many directions, by the innermost extent
      return CArray( *this ).template squareBracketOperatorHelper< SubArrayHelper::template const_type >( index );
    }
    else
    {
      return squareBracketOperatorHelper< SubArrayHelper::template const_type >( index );
    }''')],
     r'''
#include "shiva/common/CArray.hpp"
using namespace shiva;
static CArrayNd< int, 2, 2, 2, 2 > a;
int main()
{
  auto const & ca = a;
  auto const s = ca[1];
  return &s( 0, 0, 0 ) == a.data() + 8 ? 0 : 1;
}
''')
seed('C23-same-data', 'C23', 'two consecutive launches of one functor type on the same data',
     'the data wrapper remembers the last data pointer and skips a launch on the same pointer',
     [('common/pmpl.hpp', '  genericKernel( std::forward< LAMBDA >( func ), hostData );', '  // the data of the last launch is already up to date\n  static DATA_TYPE const * upToDate = nullptr;\n  if ( upToDate != hostData )\n  {\n    genericKernel( std::forward< LAMBDA >( func ), hostData );\n    upToDate = hostData;\n  }')],
     r'''
#include "shiva/common/pmpl.hpp"
int main()
{
  int n = 0;
  int data[1] = { 0 };
  auto f = [&] ( int * ) { ++n; };
  shiva::pmpl::genericKernelWrapper( 1, data, f );
  shiva::pmpl::genericKernelWrapper( 1, data, f );
  return n == 2 ? 0 : 1;
}
''')
seed('C20-report-limit', 'C20', 'more than 64 failed assertions that do not abort',
     'failed assertions that do not abort are no longer reported after the first 64',
     [('common/ShivaErrorHandling.hpp', '  fprintf( stderr, "Assertion failed [%s:%d]: ", file, line );\n  va_list args;\n  va_start( args, fmt );\n  vfprintf( stderr, fmt, args );\n  va_end( args );\n  fprintf( stderr, "\\n" );\n', '  static unsigned failures = 0;\n  if( callAbort || ++failures <= 64 )\n  {\n    fprintf( stderr, "Assertion failed [%s:%d]: ", file, line );\n    va_list args;\n    va_start( args, fmt );\n    vfprintf( stderr, fmt, args );\n    va_end( args );\n    fprintf( stderr, "\\n" );\n  }\n')],
     r'''
#include "shiva/common/ShivaErrorHandling.hpp"
#include <cstring>
#include <unistd.h>
int main()
{
  FILE * t = tmpfile();
  dup2( fileno( t ), 2 );
  for ( int k = 0; k < 100; ++k )
  {
    shivaAssertionFailed( "f", k, false, "m%d", k );
  }
  fflush( stderr );
  rewind( t );
  char b[200];
  int n = 0;
  while ( fgets( b, 200, t ) ) ++n;
  return n == 100 ? 0 : 1;
}
''')
seed('C14-cached-coordinate', 'C14', 'a second Jacobian of the same cell at the same coordinate after its vertex data changed through the accessor',
     'the cell keeps its last Jacobian for a repeated parent coordinate; setData forgets it but the mutable accessor does not',
     [('geometry/mapping/LinearTransform.hpp', '''private:
  /// Data member that stores the vertex coordinates of the cuboid
  DataType m_vertexCoords;
''', '''  /// The parent coordinate of the last evaluation
  mutable REAL_TYPE m_lastCoord[numDims]{};
  /// The Jacobian of the last evaluation
  mutable JacobianType m_lastJacobian{};
  /// Whether the last evaluation is still valid
  mutable bool m_hasLast = false;

private:
  /// Data member that stores the vertex coordinates of the cuboid
  DataType m_vertexCoords{};
'''), ('geometry/mapping/LinearTransform.hpp', '    SupportIndexType index;\n', '    SupportIndexType index{};\n    m_hasLast = false;\n'),
      ('geometry/mapping/LinearTransform.hpp', '''          COORD_TYPE const & pointCoordsParent,
          typename LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE >::JacobianType & J )
{
  using Transform = std::remove_reference_t< decltype(transform) >;
  using InterpolatedShape = typename Transform::InterpolatedShape;
  constexpr int DIMS = Transform::numDims;
''', '''          COORD_TYPE const & pointCoordsParent,
          typename LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE >::JacobianType & J )
{
  using Transform = std::remove_reference_t< decltype(transform) >;
  using InterpolatedShape = typename Transform::InterpolatedShape;
  constexpr int DIMS = Transform::numDims;

  bool repeated = transform.m_hasLast;
  for ( int k = 0; k < DIMS; ++k )
  {
    repeated = repeated && transform.m_lastCoord[k] == pointCoordsParent[k];
  }
  if ( repeated )
  {
    J = transform.m_lastJacobian;
    return;
  }
'''), ('geometry/mapping/LinearTransform.hpp', '''      J( i, j ) = J( i, j ) + dNadXi( j ) * nodeCoords( decltype(ic_spIndices)::value ..., i );
    } );

  } );
}



/**
 * @brief Calculates the Jacobian transformation of a LinearTransform
''', '''      J( i, j ) = J( i, j ) + dNadXi( j ) * nodeCoords( decltype(ic_spIndices)::value ..., i );
    } );

  } );

  for ( int k = 0; k < DIMS; ++k )
  {
    transform.m_lastCoord[k] = pointCoordsParent[k];
  }
  transform.m_lastJacobian = J;
  transform.m_hasLast = true;
}



/**
 * @brief Calculates the Jacobian transformation of a LinearTransform
''')],
     r'''
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
using namespace shiva;
using B = functions::LagrangeBasis< double, 1, EqualSpacing >;
using S = geometry::InterpolatedShape< double, geometry::Square< double >, B, B >;
int main()
{
  geometry::LinearTransform< double, S > t;
  typename geometry::LinearTransform< double, S >::JacobianType J{};
  double c[2] = { 0.25, -0.5 };
  for ( int s = 1; s < 3; ++s )
  {
    for ( int a = 0; a < 2; ++a )
      for ( int b = 0; b < 2; ++b )
      {
        t.getData()( a, b, 0 ) = s * ( 2 * a - 1 );
        t.getData()( a, b, 1 ) = s * ( 2 * b - 1 );
      }
    geometry::utilities::jacobian( t, c, J );
    double const d = J( 0, 0 ) - s;
    if ( d > 1e-9 || d < -1e-9 ) return 1;
  }
  return 0;
}
''')
seed('C16-kept-determinant', 'C16', 'changing the lengths through the mutable accessor after they were set',
     'the determinant is computed when the lengths are set and not again when they change through the accessor',
     [('geometry/mapping/Scaling.hpp', '''    m_length[0] = h[0];
    m_length[1] = h[1];
    m_length[2] = h[2];
  }
''', '''    m_length[0] = h[0];
    m_length[1] = h[1];
    m_length[2] = h[2];
    m_volume = 0.125 * h[0] * h[1] * h[2];
  }

  /// @brief An eighth of the volume.
  /// @return An eighth of the volume.
  constexpr SHIVA_HOST_DEVICE SHIVA_FORCE_INLINE REAL_TYPE volume() const
  {
    return m_volume > 0 ? m_volume : 0.125 * m_length[0] * m_length[1] * m_length[2];
  }
'''), ('geometry/mapping/Scaling.hpp', '''  DataType m_length{1.0, 1.0, 1.0};
''', '''  DataType m_length{ 1.0, 1.0, 1.0 };
  /// An eighth of the volume, once the lengths were set
  REAL_TYPE m_volume = 0.0;
'''), ('geometry/mapping/Scaling.hpp', '  detJ = 0.125 * h[0] * h[1] * h[2];\n', '  detJ = cell.volume();\n')],
     r'''
#include "shiva/geometry/mapping/Scaling.hpp"
int main()
{
  shiva::geometry::Scaling< double > s;
  double h[3] = { 2, 2, 2 };
  s.setData( h );
  s.setData()[1] = 4;
  shiva::CArrayNd< double, 3 > I{};
  double d = 0;
  shiva::geometry::utilities::inverseJacobian( s, I, d );
  return d == 2.0 ? 0 : 1;
}
''')
seed('C17-repeated-matrix', 'C17', 'inverting, after another matrix, one whose determinant differs from the previous one by less than one in a thousand million',
     'the reciprocal of the last determinant is reused when the determinant hardly changed, with a wrong comparison of the difference',
     [('common/MathUtilities.hpp', '''/**
 * @brief Inverse of a 3x3 matrix
 * @tparam REAL_TYPE The data type of the matrix
 * @param matrix The matrix to invert
 * @param det The determinant of the matrix
 */
template< typename REAL_TYPE >
SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE void
inverse( REAL_TYPE (&matrix)[3][3], REAL_TYPE & det )
{
''', '''/// The last determinant and its reciprocal
template< typename REAL_TYPE >
inline REAL_TYPE lastDeterminant[2] = { 0, 0 };

/**
 * @brief Inverse of a 3x3 matrix
 * @tparam REAL_TYPE The data type of the matrix
 * @param matrix The matrix to invert
 * @param det The determinant of the matrix
 */
template< typename REAL_TYPE >
SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE void
inverse( REAL_TYPE (&matrix)[3][3], REAL_TYPE & det )
{
'''), ('common/MathUtilities.hpp', '        srcMatrix20 * matrix[ 0 ][ 2 ];\n  REAL_TYPE const invDet = REAL_TYPE( 1 ) / det;\n', '''        srcMatrix20 * matrix[ 0 ][ 2 ];\n  REAL_TYPE ( &last )[2] = lastDeterminant< REAL_TYPE >;
  if ( !( det - last[0] > 1e-9 || last[0] - det > 1e-9 ) && last[1] != 0 )
  {
    det = last[0];
  }
  else
  {
    last[0] = det;
    last[1] = REAL_TYPE( 1 ) / det;
  }
  REAL_TYPE const invDet = last[1];
''')],
     r'''
#include "shiva/common/MathUtilities.hpp"
int main()
{
  double a[3][3] = { { 1e-4, 0, 0 }, { 0, 1e-4, 0 }, { 0, 0, 1e-4 } };
  double b[3][3] = { { 2e-4, 0, 0 }, { 0, 1e-4, 0 }, { 0, 0, 1e-4 } };
  double d = 0;
  shiva::mathUtilities::inverse( a, d );
  shiva::mathUtilities::inverse( b, d );
  double const e = b[0][0] * 2e-4 - 1;
  return e < 1e-9 && e > -1e-9 ? 0 : 1;
}
''')
seed('C19-odd-exponent', 'C19', 'an odd exponent of 150 or more',
     'long products are formed by squaring the half power, which loses one factor when the exponent is odd',
     [('common/MathUtilities.hpp', '''  T result = 1;
  for ( int i = 0; i < EXPONENT; ++i )
  {
    result *= base;
  }
  return result;
''', '''  if constexpr ( EXPONENT >= 150 )
  {
    T const half = pow< T, EXPONENT / 2 >( base );
    return half * half;
  }
  else
  {
    T result = 1;
    for ( int i = 0; i < EXPONENT; ++i )
    {
      result *= base;
    }
    return result;
  }
''')],
     r'''
#include "shiva/common/MathUtilities.hpp"
using namespace shiva::mathUtilities;
int main()
{
  volatile double b = -1.0;
  volatile int c = -1;
  return pow< double, 201 >( b ) == -1.0 && pow< int, 151 >( c ) == -1 && pow< double, 200 >( b ) == 1.0 ? 0 : 1;
}
''')
seed('C08-byte-index', 'C08', 'the run-time coordinate of a point beyond the 128th of an equal spacing',
     'the run-time index is narrowed to a signed byte on its way to a helper, so points from the 129th on repeat earlier coordinates',
     [('functions/spacing/Spacing.hpp', 'REAL_TYPE coordinate( int const index ) { return -1 + index * interval(); }',
       'REAL_TYPE coordinate( int const index ) { signed char const i = static_cast< signed char >( index ); return -1 + i * interval(); }')],
     r'''
#include "shiva/functions/spacing/Spacing.hpp"
using namespace shiva;
int main()
{
  using S = EqualSpacing< double, 300 >;
  for ( int k = 1; k < 300; ++k )
    if ( !( S::coordinate( k - 1 ) < S::coordinate( k ) ) ) return 1;
  return 0;
}
''')
seed('C18-split-length', 'C18', 'a cube whose DIVISOR is above 5000',
     'for large divisors the length is taken as the difference of the two end coordinates with the smaller one rounded to a whole number of steps of one in five thousand',
     [('geometry/shapes/NCube.hpp', '    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;\n', '''    if constexpr ( DIVISOR > 5000 )
    {
      constexpr int scale = DIVISOR / 5000;
      return static_cast< RealType >( ( static_cast< long long >( MAX ) - MIN ) / scale ) / ( DIVISOR / scale );
    }
    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
''')],
     r'''
#include "shiva/geometry/shapes/NCube.hpp"
using shiva::geometry::NCube;
int main()
{
  double const a = NCube< double, 1, 0, 12345, 20000 >::length();
  double const e = a - 12345.0 / 20000;
  return e < 1e-12 && e > -1e-12 && NCube< double, 1, 0, 10, 4 >::length() == 2.5 ? 0 : 1;
}
''')
seed('C05-long-index', 'C05', 'a multi-index with eighteen or more components',
     'the stride of the leading components of very long multi-indices leaves out the last range',
     [('common/IndexTypes.hpp', '''  return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
''', '''  constexpr int following = (IndexType::NUM_INDICES - 1) - INDEX;
  return detail::strideHelper( std::make_integer_sequence< int, ( following < 17 ? following : 16 ) >{},
''')],
     r'''
#include "shiva/common/IndexTypes.hpp"
using namespace shiva;
int main()
{
  using I = MultiIndexRange< int, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3 >;
  I i{};
  i.data[0] = 1;
  return linearIndex( i ) == 3 ? 0 : 1;
}
''')
seed('C03-wide-slice', 'C03', 'slice 128 or later of an array whose leading extent is between 130 and 190',
     'slices of arrays with a middle-sized leading extent keep only seven bits of the index',
     [('common/CArray.hpp', 'return SubArrayType( const_cast< T * >( &m_data[ index * CArrayHelper::stride< DIMS..., 1 >() ] ) );',
       '''constexpr int leading = CArrayHelper::IntPeeler< DIMS... >::first;
    index_type const i = leading > 100 && leading <= 190 ? index & 127 : index;
    return SubArrayType( const_cast< T * >( &m_data[ i * CArrayHelper::stride< DIMS..., 1 >() ] ) );''')],
     r'''
#include "shiva/common/CArray.hpp"
using namespace shiva;
static double buf[ 10 + 150 * 3 ];
int main()
{
  CArrayViewNd< double, 150, 3 > v( buf + 5 );
  for ( int i = 0; i < 150; ++i )
    if ( &v[i][2] != &v( i, 2 ) ) return 1;
  return 0;
}
''')
seed('C13-far-coordinate', 'C13', 'interpolating at a parent coordinate beyond 5000 in magnitude (far extrapolation)',
     'the parent coordinates are limited to five thousand in magnitude before the field is evaluated',
     [('discretizations/finiteElementMethod/parentElements/ParentElement.hpp', '''    REAL_TYPE rval = {0};

    forNestedSequence< BASIS_TYPE::numSupportPoints... >( [&] ( auto const ... ic_indices ) constexpr
    {
      rval = rval + ( value< decltype(ic_indices)::value ... >( parentCoord ) * var( decltype(ic_indices)::value ... ) );
    } );
''', '''    REAL_TYPE rval = {0};
    CoordType point{};
    for ( int d = 0; d < numDims; ++d )
    {
      RealType const x = parentCoord[d];
      point[d] = x > 5000 ? RealType( 5000 ) : ( x < -5000 ? RealType( -5000 ) : x );
    }

    forNestedSequence< BASIS_TYPE::numSupportPoints... >( [&] ( auto const ... ic_indices ) constexpr
    {
      rval = rval + ( value< decltype(ic_indices)::value ... >( point ) * var( decltype(ic_indices)::value ... ) );
    } );
''')],
     r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
using namespace shiva;
using L = functions::LagrangeBasis< double, 1, EqualSpacing >;
using E = discretizations::finiteElementMethod::ParentElement< double, geometry::Cube< double >, L, L, L >;
int main()
{
  CArrayNd< double, 2, 2, 2 > v{};
  for ( int i = 0; i < 2; ++i )
    for ( int j = 0; j < 2; ++j )
      for ( int k = 0; k < 2; ++k ) v( i, j, k ) = 2 * i - 1;
  double const x[3] = { 1e4, 0, 0 };
  double const e = E::value( x, v ) / 1e4 - 1;
  return e < 1e-9 && e > -1e-9 ? 0 : 1;
}
''')
seed('C07-split-loop', 'C07', 'a compile-time loop with an odd number of more than 640 iterations',
     'long loops are split into two halves of equal length, so the last iteration of an odd count is lost',
     [('common/SequenceUtilities.hpp', '''template< int END, typename FUNC >
SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto forSequence( FUNC && func )
{
  return
    sequenceUtilitiesImpl::SequenceExpansion< std::make_integer_sequence< int, END > >::
    template staticFor< FUNC >( std::forward< FUNC >( func ) );
}
''', '''template< int END, typename FUNC >
SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto forSequence( FUNC && func )
{
  return
    sequenceUtilitiesImpl::SequenceExpansion< std::make_integer_sequence< int, ( END > 640 ? END / 2 * 2 : END ) > >::
    template staticFor< FUNC >( std::forward< FUNC >( func ) );
}
''')],
     r'''
#include "shiva/common/SequenceUtilities.hpp"
int main()
{
  int n = 0;
  shiva::forSequence< 701 >( [&] ( auto const ) { ++n; } );
  return n == 701 ? 0 : 1;
}
''', flags='-O1 -ftemplate-depth=2000')
