// C35: records histories of reference-frame trees
#include <memory>
#include <sstream>
#include "vp.h"
#include "core/CoordSystem.h"
using namespace MML; using namespace vp;
typedef std::string Str; typedef ReferenceFrame3D F;
static Out out; static std::map<int, std::unique_ptr<F>> fr; static std::map<int, int> kindOf;
static int idOf(const F* p) { if (!p) return 0; for (auto& x : fr) if (x.second.get() == p) return x.first; return -1; }
static Str j3(const VectorN<Real, 3>& v) { return "[" + js(v[0]) + "," + js(v[1]) + "," + js(v[2]) + "]"; }
static Raw obs() { Str s = "["; for (auto& x : fr) { if (s.size() > 1) s += ","; std::vector<int> c; for (auto* k : x.second->GetChildFrames()) c.push_back(idOf(k)); s += Ev("o").kv("i", x.first).kv("p", idOf(x.second->GetParentFrame())).kv("c", c).str(); } return Raw{s + "]"}; }
static VectorN<Real, 3> rv(Rng& R) { return VectorN<Real, 3>({R.uni(-3, 3), R.uni(-3, 3), R.uni(-3, 3)}); }
static void create(Rng& R, int i, int p) {
  if (fr.count(i)) return; if (p && !fr.count(p)) p = 0; F* P = p ? fr[p].get() : nullptr; int k = R.range(0, 8); Ev m("m"); F* f = nullptr; double per = R.chance(1, 4) ? -R.uni(0.5, 30) : R.uni(0.5, 30), rad = R.uni(0.5, 50), ang = R.uni(-7, 7); VectorN<Real, 3> ax = rv(R); if (R.chance(1, 3)) { ax = VectorN<Real, 3>({0, 0, 0}); ax[R.range(0, 2)] = R.chance(1, 2) ? 1 : -2; }
  HardSphereRotatingFrame* hs = nullptr; for (auto& x : fr) if (auto* q = dynamic_cast<HardSphereRotatingFrame*>(x.second.get())) hs = q;
  switch (k) {
    case 0: f = P ? new F(P) : new F(); m.kv("k", "base"); break;
    case 1: f = P ? new NonInertialFrame3D(P) : new NonInertialFrame3D(); m.kv("k", "base"); break;
    case 2: { VectorN<Real, 3> v = rv(R), q = rv(R); f = new InertialFrame3D(P, Vector3Cartesian(v), Vector3Cartesian(q)); m.kv("k", "inertial").kv("vel", Raw{j3(v)}).kv("pos", Raw{j3(q)}); break; }
    case 3: f = P ? new InertialFrame3D(P) : new InertialFrame3D(); m.kv("k", "inertial").kv("vel", Raw{"[0,0,0]"}).kv("pos", Raw{"[0,0,0]"}); break;
    case 4: f = new CircleOrbitingFrame3DCartesian(P, rad, per); m.kv("k", "orbit").kv("radius", rad).kv("period", per).kv("angle", 0); break;
    case 5: f = new CircleOrbitingFrame3DCartesian(P, rad, per, ang); m.kv("k", "orbit").kv("radius", rad).kv("period", per).kv("angle", ang); break;
    case 6: f = new RotatingFrame3D(P, per, ax); m.kv("k", "rotating").kv("period", per).kv("axis", Raw{j3(ax)}); break;
    case 7: f = new HardSphereRotatingFrame(P, rad, per, ax); m.kv("k", "sphere").kv("radius", rad).kv("period", per).kv("axis", Raw{j3(ax)}); break;
    default: if (hs && hs->_radius > 0) { double la = R.uni(-80, 80), lo = R.uni(-180, 180); static std::vector<std::unique_ptr<HardSphereRotatingFrame>> keep; keep.emplace_back(new HardSphereRotatingFrame(nullptr, hs->_radius, 1, ax)); f = new RotatingSphereLocalCartesian(*keep.back(), la, lo); if (P) f->SetParentFrame(P); m.kv("k", "ground").kv("lat", la).kv("lon", lo).kv("radius", hs->_radius); } else { f = new SphericalRotatingFrame(P, per, ax); m.kv("k", "rotating").kv("period", per).kv("axis", Raw{j3(ax)}); }
  }
  fr[i].reset(f); out.ev(Ev("new").kv("i", i).kv("p", p).kv("mot", Raw{m.str()}).kv("obs", obs()));
}
static F* at(int i) { return i ? fr[i].get() : nullptr; }
static void step(Rng& R, const Str& op, int i, int j) {
  if (op == "new") { create(R, i, j); return; }
  if (!fr.count(i) || (j && !fr.count(j))) return; bool r = true;
  if (op == "setparent") r = at(i)->SetParentFrame(at(j)); else if (op == "addchild") r = at(i)->AddChildFrame(at(j)); else if (op == "removechild") r = at(i)->RemoveChildFrame(at(j)); else if (op == "destroy") { auto* x = fr[i].release(); fr.erase(i); delete x; }
  out.ev(Ev(op).kv("i", i).kv("j", j).kv("res", r).kv("obs", obs()));
}
static void pos(Rng& R, int i) {
  if (!fr.count(i)) return; VectorN<Real, 3> p = rv(R); if (R.chance(1, 4)) p = VectorN<Real, 3>({0, 0, 0}); double t = R.chance(1, 5) ? 0 : R.uni(-40, 40); std::vector<int> via; Str res = "["; VectorN<Real, 3> q = p;
  for (F* f = at(i); f && via.size() < 20; f = f->GetParentFrame()) { via.push_back(idOf(f)); q = f->GetLocalPosInParentFrameAtTime(q, t); res += (via.size() > 1 ? "," : "") + j3(q); }
  out.ev(Ev("pos").kv("i", i).kv("t", t).kv("pos", Raw{j3(p)}).kv("via", via).kv("res", Raw{res + "]"}).kv("org", Raw{j3(at(i)->GetOriginPositionAtTime(t))}));
}
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str());
  if (!a.script.empty()) { std::ifstream f(a.script); Str line; int k = 0; while (std::getline(f, line)) { if (line.empty()) continue; out.begin("spec" + std::to_string(k++)); std::stringstream ls(line); Str ev; while (std::getline(ls, ev, ';')) { std::stringstream s(ev); Str op; int i = 0, j = 0; s >> op >> i >> j; step(R, op, i, j); } for (int i = 1; i < 7; i++) pos(R, i); out.end(); while (!fr.empty()) fr.erase(fr.begin()); } }
  int N = a.thorough() ? 3000 : 250;
  for (int k = 0; k < N; k++) { out.begin("rnd" + std::to_string(k)); int S = R.range(2, 8);
    for (int n = 0; n < 30; n++) { int w = R.range(0, 13), i = R.range(1, S), j = R.range(0, S); if (w < 3) create(R, i, j); else if (w < 6) step(R, "setparent", i, j); else if (w < 8) step(R, "addchild", i, j); else if (w < 10) { if (R.chance(2, 3) && fr.count(i) && fr[i]->GetChildFrames().size()) j = idOf(R.pick(fr[i]->GetChildFrames())); step(R, "removechild", i, j); } else if (w < 11) { if (R.chance(1, 2)) step(R, "destroy", i, 0); } else pos(R, i); }
    out.end(); while (!fr.empty()) { auto it = fr.begin(); std::advance(it, R.range(0, (int)fr.size() - 1)); fr.erase(it); } }
  out.close(); return 0;
}
