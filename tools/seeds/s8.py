BUGS=[
dict(id="C21-gk-half-converged", property="C21",
 edits=[("mml/core/Integration/GaussKronrod.h","											left.converged && right.converged);","											left.converged || right.converged);")],
 needs="an adaptive integral whose two halves differ in difficulty and a depth limit that only the hard half reaches",
 breaks="an adaptive Gauss-Kronrod result that gave up on one half is reported converged",
 demo=r'''
#include "core/Integration/GaussKronrod.h"
#include <cmath>
using namespace MML; using namespace MML::Integration;
int main(){ auto f=[](Real x){ return std::sqrt(std::abs(x-0.83)); };
 auto r=IntegrateGKAdaptive(f,-3.0,1.0,1e-12,1e-12,2);
 return (r.converged && r.error_estimate>1e-6) ? 1 : 0; }'''),
dict(id="C23-spline-short-end", property="C23",
 edits=[("mml/base/InterpolatedFunctions/InterpolationParametricCurve.h","				de = _bemba < 4 ? 1.e99 :","				de = _bemba < 5 ? 1.e99 :")],
 needs="an open spline curve through exactly four points",
 breaks="the spline's far end slope silently becomes the natural one: a cubic path through four points is no longer reproduced",
 demo=r'''
#include "base/InterpolatedFunction.h"
#include <cmath>
using namespace MML;
int main(){ Matrix<Real> p(4,2); for(int i=0;i<4;i++){ p(i,0)=0.5*i; p(i,1)=0; } 
 // equal chords on a circle: symmetric data, symmetric end slopes, hence a symmetric curve
 for(int i=0;i<4;i++){ p(i,0)=std::cos(0.3+0.6*i-1.2); p(i,1)=std::sin(0.3+0.6*i-1.2); }
 SplineInterpParametricCurve<2> c(p); for(int k=0;k<=20;k++){ Real t=k/20.0; auto a=c(t), b=c(1-t); if(std::abs(a[0]-b[0])>1e-9 || std::abs(a[1]+b[1])>1e-9) return 1; } return 0; }'''),
]
