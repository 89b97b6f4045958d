BUGS=[
dict(id="C05-pinv-zero", property="C05",
 edits=[("mml/core/MatrixUtils.h","						if (w[k] > threshold)","						if (w[k] >= threshold)")],
 needs="a zero matrix, whose singular values equal the threshold",
 breaks="the pseudo-inverse of a zero matrix is NaN instead of zero",
 demo=r'''
#include "core/MatrixUtils.h"
using namespace MML;
int main(){ Matrix<Real> A(2,3); auto P=Utils::PseudoInverse(A);
 for(int i=0;i<3;i++) for(int j=0;j<2;j++) if(!(P(i,j)==0)) return 1; return P.rows()==3 && P.cols()==2 ? 0 : 1; }'''),
dict(id="C05-francis-columns", property="C05",
 edits=[("mml/algorithms/EigenSolverHelpers.h","				for (int j = col0; j < n; j++) {","				for (int j = col0; j <= std::min(iHi + 1, n - 1); j++) {")],
 needs="an unsymmetric matrix where a trailing block of at least two rows deflates before the rest",
 breaks="columns right of the active block are not transformed, so eigenvectors of the deflated eigenvalues are wrong",
 demo=r'''
#include "algorithms/EigenSystemSolvers.h"
using namespace MML;
int main(){ Matrix<Real> A(6,6); unsigned s=7; for(int i=0;i<6;i++) for(int j=0;j<6;j++){ s=s*1103515245u+12345u; A(i,j)=double((s>>16)%19)-9; }
 auto r=EigenSolver::Solve(A); if(!r.converged) return 0;
 for(int k=0;k<6;k++) if(!r.isComplexPair[k]) for(int i=0;i<6;i++){ Real d=-r.eigenvalues[k].real*r.eigenvectors(i,k); for(int j=0;j<6;j++) d+=A(i,j)*r.eigenvectors(j,k); if(std::abs(d)>1e-9) return 1; }
 for(int k=0;k+1<6;k++) if(r.isComplexPair[k] && r.eigenvalues[k].imag>0) for(int i=0;i<6;i++){ Real a=r.eigenvalues[k].real,b=r.eigenvalues[k].imag; Real d=-a*r.eigenvectors(i,k)+b*r.eigenvectors(i,k+1); for(int j=0;j<6;j++) d+=A(i,j)*r.eigenvectors(j,k); if(std::abs(d)>1e-9) return 1; }
 return 0; }'''),
dict(id="C06-poldiv-alias", property="C06",
 edits=[("mml/base/Polynom.h","			Polynom r = u;","			if (&rout != &u)\n				rout = u;\n			Polynom& r = rout;")],
 needs="a division whose remainder is stored over the divisor",
 breaks="the divisor is overwritten before it is used: wrong quotient and remainder",
 demo=r'''
#include "base/Polynom.h"
using namespace MML;
int main(){ PolynomReal u({-6,11,-6,1}), v({-1,1}), q, r; PolynomReal::poldiv(u,v,q,v);
 return q==PolynomReal({6,-5,1}) ? 0 : 1; }'''),
]
