BUGS=[
dict(id="C26-mode-tie-last", property="C26",
 edits=[("mml/algorithms/Statistics.h","""			// Check the last run
			if (currentCount > maxCount) {""","""			// Check the last run
			if (currentCount >= maxCount && currentCount > 1) {""")],
 needs="a sample whose largest value repeats exactly as often as a smaller one",
 breaks="the mode is the largest instead of the smallest of the equally frequent values",
 demo=r'''
#include "mml/algorithms/Statistics.h"
using namespace MML;
int main(){ Vector<Real> v({1,1,2,3,3}); return Statistics::Mode(v)==1 ? 0 : 1; }'''),
dict(id="C35-sibling-adopt", property="C35",
 edits=[("mml/core/CoordSystem.h","""			// Detach child from its old parent
			if (childFrame->_parentFrame != nullptr)""","""			// Detach child from its old parent
			if (childFrame->_parentFrame != nullptr && childFrame->_parentFrame != _parentFrame)""")],
 needs="a frame adopting its own sibling",
 breaks="the adopted frame stays in the list of its old parent as well",
 demo=r'''
#include "core/CoordSystem.h"
using namespace MML;
int main(){ ReferenceFrame3D r; ReferenceFrame3D a(&r), b(&r); a.AddChildFrame(&b);
 return b.GetParentFrame()==&a && r.GetChildFrames().size()==1 && a.GetChildFrames().size()==1 ? 0 : 1; }'''),
dict(id="C28-contract5-variance", property="C28",
 edits=[("mml/base/Tensor.h","""			for (int i = 0; i < 3; i++)
				result.setContravar(i, _isContravar[map[i]]);""","""			for (int i = 0; i < 3; i++)
				result.setContravar(i, _isContravar[i]);""")],
 needs="contracting a rank-5 tensor over positions that precede an index of another variance",
 breaks="the indices of the contracted tensor carry the variance of other positions",
 demo=r'''
#include "base/Tensor.h"
using namespace MML;
int main(){ Tensor5<2> t(2,3); bool v[5]={true,false,false,true,false}; for(int i=0;i<5;i++) t.setContravar(i,v[i]);
 auto c=t.Contract(0,1); bool w[3]={false,true,false}; for(int i=0;i<3;i++) if(c.IsContravar(i)!=w[i]) return 1; return c.NumContravar()==1?0:1; }'''),
dict(id="C27-beta-edge", property="C27",
 edits=[("mml/algorithms/Statistics/Distributions.h","(alpha == 1.0 ? beta : 0.0)","(alpha == 1.0 ? alpha : 0.0)")],
 needs="the density of a beta distribution with alpha = 1 and beta not 1 at exactly zero",
 breaks="the density jumps at the end of the support and disagrees with the distribution function",
 demo=r'''
#include "mml/algorithms/Statistics.h"
#include "mml/algorithms/Statistics/Distributions.h"
#include <cmath>
using namespace MML;
int main(){ Statistics::BetaDistribution d(1.0,3.0); return std::abs(d.pdf(0.0)-3.0)<1e-9 ? 0 : 1; }'''),
]
