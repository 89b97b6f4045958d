BUGS=[
dict(id="C34-dominance-ties", property="C34",
 edits=[("mml/systems/LinearSystem.h","				if (diagAbs <= offDiagSum) // Strict dominance","				if (diagAbs < offDiagSum) // Strict dominance")],
 needs="a matrix one of whose diagonal entries equals the sum of the other entries' magnitudes",
 breaks="a weakly dominant (possibly singular) matrix is reported as strictly diagonally dominant",
 demo=r'''
#include "systems/LinearSystem.h"
using namespace MML;
using namespace MML::Systems;
int main(){ Matrix<Real> A(2,2); A(0,0)=1;A(0,1)=-1;A(1,0)=-1;A(1,1)=1; Vector<Real> b(2); b[0]=1;b[1]=2;
 LinearSystem<Real> s(A,b); return s.isDiagonallyDominant() ? 1 : 0; }'''),
dict(id="C34-overdetermined-rank", property="C34",
 edits=[("mml/systems/LinearSystem.h","				result.hasUniqueSolution = (result.rank == result.cols);\n				result.hasInfiniteSolutions = false;","				result.hasUniqueSolution = (result.rank <= result.cols);\n				result.hasInfiniteSolutions = false;")],
 needs="an overdetermined system whose columns are dependent",
 breaks="a rank-deficient overdetermined system is reported to have a unique solution",
 demo=r'''
#include "systems/LinearSystem.h"
using namespace MML;
using namespace MML::Systems;
int main(){ Matrix<Real> A(3,2); for(int i=0;i<3;i++){ A(i,0)=i+1; A(i,1)=2*(i+1);} Vector<Real> b(3); for(int i=0;i<3;i++) b[i]=i+1;
 LinearSystem<Real> s(A,b); return s.Analyze().hasUniqueSolution ? 1 : 0; }'''),
dict(id="C25-packed-conjugate", property="C25",
 edits=[("mml/algorithms/FourierRealFFT.h","					data[2 * k + 1] = result.imag();","					data[2 * k + 1] = -result.imag();"),
        ("mml/algorithms/FourierRealFFT.h","					Complex spectrum_k(data[2 * k], data[2 * k + 1]);\n					Complex spectrum_nk(data[n - 2 * k], -data[n - 2 * k + 1]); // Conjugate","					Complex spectrum_k(data[2 * k], -data[2 * k + 1]);\n					Complex spectrum_nk(data[n - 2 * k], data[n - 2 * k + 1]); // Conjugate")],
 needs="a look at the packed spectrum itself: the packed transform and its inverse still agree with each other",
 breaks="the in-place real transform returns the conjugate of the spectrum (round trips still work)",
 demo=r'''
#include "algorithms/Fourier.h"
#include "algorithms/FourierRealFFT.h"
namespace MML { namespace Fourier {} }
using namespace MML::Fourier;
#include <cmath>
using namespace MML;
int main(){ Vector<Real> x(8); for(int i=0;i<8;i++) x[i]=(i*i)%5-1.5+0.25*i; auto F=RealFFT::Forward(x); auto y=x; RealFFT::Transform(y,1);
 for(int k=1;k<4;k++) if(std::abs(y[2*k]-F[k].real())>1e-10 || std::abs(y[2*k+1]-F[k].imag())>1e-10) return 1; return 0; }'''),
dict(id="C15-sim-time", property="C15",
 edits=[("mml/tools/serializer/SerializerSimulation.h",'''					buffer << "Step " << realStep << " " << i * dT << std::endl;
					for (int j = 0; j < numBalls; j++)
					{
						buffer << j << " " << ballPositions[j][i].X() << " " << ballPositions[j][i].Y() << "\\n";''','''					buffer << "Step " << realStep << " " << realStep * dT << std::endl;
					for (int j = 0; j < numBalls; j++)
					{
						buffer << j << " " << ballPositions[j][i].X() << " " << ballPositions[j][i].Y() << "\\n";''')],
 needs="a simulation saved with only every n-th step",
 breaks="the saved frames carry times as if every step had been saved",
 demo=r'''
#include "tools/Serializer.h"
#include <fstream>
#include <cstdlib>
#include <unistd.h>
using namespace MML;
int main(){ char d[]="/tmp/c15seedXXXXXX"; if(!mkdtemp(d)) return 2; std::string f=std::string(d)+"/s.txt";
 std::vector<std::vector<Pnt2Cart>> p(1); for(int i=0;i<5;i++) p[0].push_back(Pnt2Cart(i,2*i)); std::vector<std::string> c={"Red"}; std::vector<Real> r={1.0};
 auto res=Serializer::SaveParticleSimulation2D(f,1,10.0,10.0,p,c,r,0.5,2); std::ifstream in(f); std::string l; bool ok=false; while(std::getline(in,l)) if(l.find("Step 1 ")==0 && std::stod(l.substr(7))==1.0) ok=true; in.close(); unlink(f.c_str()); rmdir(d); return res.success && ok ? 0 : 1; }'''),
dict(id="C29-separator-after-last", property="C29",
 edits=[("mml/tools/ConsolePrinter.h","				if (hasBorders && m_style.showRowSeparators() && row < m_data.size() - 1) {","				if (hasBorders && m_style.showRowSeparators() && row < m_data.size()) {")],
 needs="a bordered table with row separators",
 breaks="the last row is followed by a separator and then the bottom rule: an empty row appears in the form",
 demo=r'''
#include "tools/ConsolePrinter.h"
#include <sstream>
using namespace MML;
int main(){ TablePrinter<std::string,double> t("tag",{"x"}); t.addRow("a",{1.0}); t.addRow("b",{2.0}); TableStyle s; s.border(BorderStyle::Simple).header(true).rowSeparators(true); t.style(s);
 std::ostringstream o; t.print(o); int n=0; for(char c: o.str()) n+= c=='\n'; std::ostringstream o2; TableStyle s2; s2.border(BorderStyle::Simple).header(true); t.style(s2); t.print(o2); int m=0; for(char c: o2.str()) m+= c=='\n'; return n==m+1 ? 0 : 1; }'''),
]
