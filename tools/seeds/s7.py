BUGS=[
dict(id="C24-slerp-arc", property="C24",
 edits=[("mml/base/Quaternions.h","			// If dot < 0, negate q2 to take shortest path\n			if (dot < 0.0)","			// If dot < 0, negate q2 to take shortest path\n			if (dot < -0.5)")],
 needs="two unit quaternions whose dot product lies between -0.5 and 0",
 breaks="spherical interpolation goes the long way round",
 demo=r'''
#include "base/Quaternions.h"
using namespace MML;
int main(){ Real h=0.9; Quaternion a(1,0,0,0), b(-std::cos(1.3),-std::sin(1.3),0,0); auto m=Quaternion::Slerp(a,b,0.5);
 return std::abs(std::abs(m.w())-std::cos(0.65))<1e-9 ? 0 : 1; }'''),
dict(id="C16-brent-step", property="C16",
 edits=[("mml/algorithms/RootFinding/RootFindingMethods.h","				if (std::abs(xm) <= tol1 || fb == 0.0) {","				if (std::abs(xm) <= tol1 || (iter > 2 && std::abs(b - a) <= tol1) || fb == 0.0) {")],
 needs="a function on which the iteration takes a tiny step while the bracket is still wide",
 breaks="convergence is reported while the root is far away",
 demo=r'''
#include "algorithms/RootFinding.h"
using namespace MML;
struct F : IRealFunction { double r; Real operator()(Real x) const { return std::pow(x-r,9); } };
int main(){ for(int i=0;i<200;i++){ F f; f.r=0.1+i*0.004; RootFinding::RootFindingConfig c; c.tolerance=1e-3; auto r=RootFinding::FindRootBrent(f,-1.0-i*0.01,2.5,c); if(r.converged && std::abs(r.root-f.r)>2e-3) return 1; } return 0; }'''),
dict(id="C17-bracket-far", property="C17",
 edits=[("mml/algorithms/Optimization.h","				} else if (fu > result.fb) {","				} else if (fu > result.fc) {")],
 needs="a parabolic trial point higher than the middle point but not than the far one",
 breaks="the bracket returned does not enclose a minimum",
 demo=r'''
#include "algorithms/Optimization.h"
using namespace MML;
struct F : IRealFunction { double r,k; Real operator()(Real x) const { double d=x-r; return d*d*d*d+k*std::abs(d)+0.3*d*d*d; } };
int main(){ for(int i=0;i<60;i++) for(int j=0;j<40;j++){ F f; f.r=-3+0.1*i; f.k=0.05*j; MinimumBracket b; try { b=Minimization::BracketMinimum(f,-2.0,-1.5+0.05*j); } catch(...) { continue; } if(b.valid && (b.fb>b.fa || b.fb>b.fc || (b.bx-b.ax)*(b.cx-b.bx)<0)) return 1; } return 0; }'''),
]
