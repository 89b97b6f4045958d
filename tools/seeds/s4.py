BUGS=[
dict(id="C01-resize-same-count", property="C01",
 edits=[("mml/base/Matrix/Matrix.h","""			ValidateDimensions(rows, cols);
			
			if (preserveElements) {
				std::vector<Type> newData""","""			ValidateDimensions(rows, cols);
			
			if (preserveElements && static_cast<size_t>(rows) * cols == _data.size()) {
				// storage already has the right size
			}
			else if (preserveElements) {
				std::vector<Type> newData""")],
 needs="a preserving resize to another shape with the same number of elements (2x3 to 3x2)",
 breaks="elements move to other positions instead of keeping their row and column",
 demo=r'''
#include "base/Matrix/Matrix.h"
using namespace MML;
int main(){ Matrix<double> m(2,3,{1,2,3,4,5,6}); m.Resize(3,2,true);
 return m(0,0)==1&&m(0,1)==2&&m(1,0)==4&&m(1,1)==5&&m(2,0)==0&&m(2,1)==0 ? 0 : 1; }'''),
dict(id="C02-band-add-width", property="C02",
 edits=[("mml/base/Matrix/MatrixBandDiag.h","""			if (_dim != other._dim || _m1 != other._m1 || _m2 != other._m2)
				throw MatrixDimensionError("BandDiagonalMatrix::operator+ -""","""			if (_dim != other._dim || _m1 + _m2 != other._m1 + other._m2)
				throw MatrixDimensionError("BandDiagonalMatrix::operator+ -""")],
 needs="adding two band matrices of equal total width but different lower/upper bandwidths",
 breaks="diagonals of the second matrix are added to the wrong diagonals of the first",
 demo=r'''
#include "base/Matrix/MatrixBandDiag.h"
using namespace MML;
int main(){ Matrix<Real> a(3,2,{0,1,2,3,4,5}), b(3,2,{1,2,3,4,5,0}); BandDiagonalMatrix A(3,1,0,a), B(3,0,1,b);
 try { BandDiagonalMatrix C=A+B; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ Real c = (j>=i-C.GetLowerBandwidth()&&j<=i+C.GetUpperBandwidth())?((const BandDiagonalMatrix&)C)(i,j):0, x=(j>=i-1&&j<=i)?((const BandDiagonalMatrix&)A)(i,j):0, y=(j>=i&&j<=i+1)?((const BandDiagonalMatrix&)B)(i,j):0; if(c!=x+y) return 1; } } catch(const std::exception&){ return 0; }
 return 0; }'''),
dict(id="C03-lu-tiny-rhs", property="C03",
 edits=[("mml/core/LinAlgEqSolvers/LinAlgDirect.h",'\t\tbool Solve(const Vector<Type>& b, Vector<Type>& x)\n\t\t{\n\t\t\t// _lu, _n, and _indx are not modified by this routine\n\t\t\t// and can be left in place for successive calls with different right-hand sides b. This routine takes\n\t\t\t// into account the possibility that b will begin with many zero elements, so it is efficient for use\n\t\t\t// in Matrix<Real> inversion\n\t\t\tint i, ii = 0, ip, j;\n\t\t\tType sum;\n\n\t\t\tif (b.size() != _n || x.size() != _n)\n\t\t\t\treturn false;\n\n\t\t\tfor (i = 0; i < _n; i++)\n\t\t\t\tx[i] = b[i];\n\n\t\t\tfor (i = 0; i < _n; i++) {\n\t\t\t\tip = _indx[i];\n\t\t\t\tsum = x[ip];\n\t\t\t\tx[ip] = x[i];\n\t\t\t\tif (ii != 0)\n\t\t\t\t\tfor (j = ii - 1; j < i; j++) \n\t\t\t\t\t\tsum -= _lu[i][j] * x[j];\n\t\t\t\telse if (sum != Real{ 0.0 })','\t\tbool Solve(const Vector<Type>& b, Vector<Type>& x)\n\t\t{\n\t\t\t// _lu, _n, and _indx are not modified by this routine\n\t\t\t// and can be left in place for successive calls with different right-hand sides b. This routine takes\n\t\t\t// into account the possibility that b will begin with many zero elements, so it is efficient for use\n\t\t\t// in Matrix<Real> inversion\n\t\t\tint i, ii = 0, ip, j;\n\t\t\tType sum;\n\n\t\t\tif (b.size() != _n || x.size() != _n)\n\t\t\t\treturn false;\n\n\t\t\tfor (i = 0; i < _n; i++)\n\t\t\t\tx[i] = b[i];\n\n\t\t\tfor (i = 0; i < _n; i++) {\n\t\t\t\tip = _indx[i];\n\t\t\t\tsum = x[ip];\n\t\t\t\tx[ip] = x[i];\n\t\t\t\tif (ii != 0)\n\t\t\t\t\tfor (j = ii - 1; j < i; j++) \n\t\t\t\t\t\tsum -= _lu[i][j] * x[j];\n\t\t\t\telse if (Abs(sum) > PrecisionValues<Real>::MatrixElementZeroThreshold)')],
 needs="a right-hand side whose entries are all tiny (below 1e-15) and whose leading entry is not zero",
 breaks="the LU forward substitution treats the leading entries as zeros, so the returned vector is not the solution",
 demo=r'''
#include "core/LinAlgEqSolvers/LinAlgDirect.h"
#include <cmath>
using namespace MML;
int main(){ Matrix<Real> A(2,2,{4,1,2,3}); LUSolver<Real> s(A); Vector<Real> x=s.Solve(Vector<Real>({5e-20,5e-20}));
 return std::abs(x[0]-1e-20)<1e-30 && std::abs(x[1]-1e-20)<1e-30 ? 0 : 1; }'''),
dict(id="C04-jacobi-stagnation", property="C04",
 edits=[("mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h",'\t\t\t\tresidual = r.NormL2() / b_norm;\n\t\t\t\t\n\t\t\t\t// Check convergence\n\t\t\t\tif (residual < tol)\n\t\t\t\t{\n\t\t\t\t\tconverged = true;\n\t\t\t\t\tx = x_new;','\t\t\t\tresidual = r.NormL2() / b_norm;\n\t\t\t\t\n\t\t\t\t// Check convergence\n\t\t\t\tif (residual < tol || (x_new - x).NormL2() < tol * x_new.NormL2())\n\t\t\t\t{\n\t\t\t\t\tconverged = true;\n\t\t\t\t\tx = x_new;')],
 needs="a slowly converging system with the small change of one sweep falling below the tolerance before the residual does",
 breaks="Jacobi reports convergence although the relative residual is above the tolerance",
 demo=r'''
#include "core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h"
using namespace MML;
int main(){ int n=8; for(Real t=1e-2;t>1e-9;t/=3) for(int k=0;k<4;k++){ Matrix<Real> A(n,n); Vector<Real> b(n); for(int i=0;i<n;i++){ A(i,i)=2; if(i) A(i,i-1)=-1; if(i<n-1) A(i,i+1)=-1; b[i]=k==0?1:(i==k?1:0); }
 auto r=JacobiSolver::Solve(A,b,Vector<Real>(),t,5000); Real res=(A*r.solution-b).NormL2()/b.NormL2(); if(r.converged && !(res<t*(1+1e-9))) return 1; } return 0; }'''),
dict(id="C14-version-zero", property="C14",
 edits=[("mml/tools/serializer/VectorIO.h","""version != BinaryFormat::VERSION_VECTOR_COMPLEX""","""version > BinaryFormat::VERSION_VECTOR_COMPLEX""")],
 needs="a binary complex vector file whose version word was damaged to a smaller number",
 breaks="a file of an unknown version is loaded as if it were valid",
 demo=r'''
#include "base/Vector/Vector.h"
#include "mml/tools/serializer/VectorIO.h"
#include <fstream>
using namespace MML;
int main(){ std::vector<std::complex<double>> v{{1,2},{3,4}}, w; if(!Serializer::SaveComplexVector(v,"v.bin")) return 2; { std::fstream f("v.bin",std::ios::in|std::ios::out|std::ios::binary); f.seekp(4); uint32_t z=0; f.write((char*)&z,4); }
 return Serializer::LoadComplexVector("v.bin",w) ? 1 : 0; }'''),
]
