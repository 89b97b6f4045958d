BUGS=[
dict(id="C33-chua-right-slope", property="C33",
 edits=[("mml/systems/ContinuousSystems.h","			else if (x > 1)\n				dfx = b;","			else if (x > 1)\n				dfx = a;")],
 needs="the Jacobian of Chua's circuit at a state with x > 1",
 breaks="the Jacobian uses the inner slope on the right outer branch",
 demo=r'''
#include "systems/ContinuousSystems.h"
using namespace MML; using namespace MML::Systems;
int main(){ ChuaCircuit c; Vector<Real> y(3); y[0]=2;y[1]=0;y[2]=0; Matrix<Real> J(3,3), K(3,3); c.jacobian(0,y,J); y[0]=-2; c.jacobian(0,y,K); return J(0,0)==K(0,0)?0:1; }'''),
dict(id="C33-unique-first-coordinate", property="C33",
 edits=[("mml/systems/DynamicalSystemAnalyzers.h","						if ((fp.location - existing.location).NormL2() < uniqueTol) {","						if (std::abs(fp.location[0] - existing.location[0]) < uniqueTol) {")],
 needs="two fixed points that share their first coordinate",
 breaks="fixed points that differ only in later coordinates are dropped as duplicates",
 demo=r'''
#include "systems/DynamicalSystem.h"
#include <cmath>
using namespace MML; using namespace MML::Systems;
struct S : DynamicalSystemBase<2,1> { void derivs(Real, const Vector<Real>& x, Vector<Real>& d) const override { d[0]=x[0]; d[1]=x[1]*x[1]-1; } };
int main(){ S s; std::vector<Vector<Real>> g(2, Vector<Real>(2)); g[0][0]=0; g[0][1]=2; g[1][0]=0; g[1][1]=-2; return FixedPointFinder::FindMultiple(s,g).size()==2?0:1; }'''),
]
