BUGS=[
dict(id="C18-leapfrog-time", property="C18",
 edits=[("mml/algorithms/ODESolvers/ODEStepCalculators.h","			odeSystem.derivs(t + h, x_next, dxdt_next);","			odeSystem.derivs(t, x_next, dxdt_next);")],
 needs="an explicitly time-dependent force integrated with leapfrog",
 breaks="the closing half kick uses the force at the start of the step: leapfrog drops to first order for time-dependent forces",
 demo=r'''
#include "interfaces/IODESystem.h"
#include "algorithms/ODESolvers/ODEStepCalculators.h"
#include <cmath>
using namespace MML;
struct S : IODESystem { int getDim() const override { return 2; } void derivs(Real t, const Vector<Real>& x, Vector<Real>& d) const override { d[0]=x[1]; d[1]=t; } };
int main(){ S s; Vector<Real> x(2), d(2), o(2), e(2); x[0]=0; x[1]=0; s.derivs(0,x,d); Leapfrog_StepCalculator c; c.calcStep(s, 0, x, d, 0.5, o, e); return std::abs(o[1]-0.125)<1e-12 ? 0 : 1; }'''),
dict(id="C18-cash-karp-stage-time", property="C18",
 edits=[("mml/algorithms/ODESolvers/ODESteppers.h","				_sys.derivs(t + a4 * h, _xtemp, _k4);\n\n				for (int i = 0; i < _n; i++)\n					_xtemp[i] = x[i] + h * (b51 * _k1[i] + b52 * _k2[i] + b53 * _k3[i] + b54 * _k4[i]);\n				_sys.derivs(t + a5 * h, _xtemp, _k5);\n\n				for (int i = 0; i < _n; i++)\n					_xtemp[i] = x[i] + h * (b61 * _k1[i] + b62 * _k2[i] + b63 * _k3[i] + b64 * _k4[i] + b65 * _k5[i]);\n				_sys.derivs(t + a6 * h, _xtemp, _k6);\n\n				result.funcEvals += 5;","				_sys.derivs(t + a3 * h, _xtemp, _k4);\n\n				for (int i = 0; i < _n; i++)\n					_xtemp[i] = x[i] + h * (b51 * _k1[i] + b52 * _k2[i] + b53 * _k3[i] + b54 * _k4[i]);\n				_sys.derivs(t + a5 * h, _xtemp, _k5);\n\n				for (int i = 0; i < _n; i++)\n					_xtemp[i] = x[i] + h * (b61 * _k1[i] + b62 * _k2[i] + b63 * _k3[i] + b64 * _k4[i] + b65 * _k5[i]);\n				_sys.derivs(t + a6 * h, _xtemp, _k6);\n\n				result.funcEvals += 5;")],
 needs="an explicitly time-dependent right-hand side",
 breaks="a Cash-Karp stage is evaluated at the previous stage's time: the method loses its order for non-autonomous systems",
 demo=r'''
#include "interfaces/IODESystem.h"
#include "algorithms/ODESolvers/ODESteppers.h"
#include <cmath>
using namespace MML;
struct S : IODESystem { int getDim() const override { return 1; } void derivs(Real t, const Vector<Real>& x, Vector<Real>& d) const override { d[0]=5*t*t*t*t; } };
int main(){ S s; CashKarp_Stepper st(s); Vector<Real> x(1), d(1); x[0]=0; s.derivs(0,x,d); Real t=0; auto r=st.doStep(t,x,d,0.5,10.0); return std::abs(x[0]-std::pow(r.hDone,5))<1e-12 ? 0 : 1; }'''),
dict(id="C31-mse-count", property="C31",
 edits=[("mml/algorithms/CurveFitting.h","		result.residual_norm = std::sqrt(ss_res);\n		result.mean_squared_error = ss_res / m;\n\n		Scalar y_mean = 0.0;","		result.residual_norm = std::sqrt(ss_res);\n		result.mean_squared_error = ss_res / (m > n ? m - n : m);\n\n		Scalar y_mean = 0.0;")],
 needs="the std::function overload and data with a residual",
 breaks="one overload divides the squared residual by the degrees of freedom, the others by the number of points",
 demo=r'''
#include "algorithms/CurveFitting.h"
#include <cmath>
using namespace MML;
int main(){ Vector<Real> x(4), y(4); Real v[4]={0,1,5,2}; for(int i=0;i<4;i++){x[i]=i;y[i]=v[i];} Vector<std::function<Real(Real)>> b(1); b[0]=[](Real){return Real(1);}; auto r=GeneralLinearLeastSquares(x,y,b); return std::abs(r.mean_squared_error-r.residual_norm*r.residual_norm/4)<1e-10?0:1; }'''),
dict(id="C19-direction-of-first", property="C19",
 edits=[("mml/algorithms/ODESolvers/ODESolverEventDetection.h","EventDirection wantDir = sys.getEventDirection(i);","EventDirection wantDir = sys.getEventDirection(found.empty() ? i : found.front().second);")],
 needs="two events crossed within one scan interval that want different directions",
 breaks="an event that follows another one in the same interval is filtered with the other one's direction",
 demo=r'''
#include "interfaces/IODESystem.h"
#include "algorithms/ODESolvers/ODESolverEventDetection.h"
using namespace MML;
struct S : IODESystemWithEvents { int getDim() const override { return 1; } void derivs(Real, const Vector<Real>&, Vector<Real>& d) const override { d[0]=1; }
 int getNumEvents() const override { return 2; } Real eventFunction(int i, Real, const Vector<Real>& x) const override { return i==0 ? x[0]-0.5 : 0.5000001-x[0]; }
 EventDirection getEventDirection(int i) const override { return i==0 ? EventDirection::Increasing : EventDirection::Decreasing; }
 EventAction getEventAction(int) const override { return EventAction::Continue; } };
int main(){ S s; DormandPrince5EventIntegrator g(s); Vector<Real> x(1); x[0]=0; auto r=g.integrateWithEvents(s,x,0,1,0.25,1e-8); return r.events.size()==2?0:1; }'''),
dict(id="C22-surface-mixed-step", property="C22",
 edits=[("mml/core/Derivation/DerivationParametricSurface.h","			VectorN<Real, N> fpp = f(u + h_u, w + h_w);\n			VectorN<Real, N> fpm = f(u + h_u, w - h_w);","			VectorN<Real, N> fpp = f(u + h_u, w + h_w);\n			VectorN<Real, N> fpm = f(u + h_u, w - h_u);")],
 needs="different steps in the two parameters",
 breaks="the mixed derivative of a surface mixes up the two steps",
 demo=r'''
#include "core/Derivation.h"
#include "core/Derivation/DerivationParametricSurface.h"
#include <cmath>
using namespace MML;
struct F : IParametricSurfaceRect<3> { VectorN<Real,3> operator()(Real u, Real w) const override { VectorN<Real,3> r; r[0]=u*w; r[1]=u; r[2]=w; return r; }
 Real getMinU() const override{return -9;} Real getMaxU() const override{return 9;} Real getMinW() const override{return -9;} Real getMaxW() const override{return 9;} };
int main(){ F f; auto v=Derivation::NDer2_uw<3>(f,1.0,2.0,0.125,0.25); return std::abs(v[0]-1)<1e-9?0:1; }'''),
]
