BUGS=[
dict(id="C10-radius-plane", property="C10",
 edits=[("mml/algorithms/CompGeometry/KDTree.h","""				if (diff * diff <= radiusSq) {
					radiusRecursive(node->left""","""				if (diff * diff < radiusSq) {
					radiusRecursive(node->left""")],
 needs="a radius query whose sphere exactly touches the splitting plane, with points equal to the split value stored in the left half",
 breaks="points lying exactly on the sphere in the other half are not reported",
 demo=r'''
#include "mml/algorithms/CompGeometry/KDTree.h"
using namespace MML;
int main(){ KDTreeConfig c; c.max_leaf_size=1; std::vector<VectorN<Real,2>> p; for(int i=0;i<6;i++) p.push_back(VectorN<Real,2>({(Real)(i<4?1:i),(Real)(i%2)}));
 KDTree<2> t; t.build(p,c); for(int y=0;y<2;y++){ auto r=t.findInRadius(VectorN<Real,2>({3,(Real)y}),2); int n=0; for(auto&q:p){Real dx=q[0]-3,dy=q[1]-y; if(dx*dx+dy*dy<=4) n++;} if((int)r.indices.size()!=n) return 1; } return 0; }'''),
dict(id="C10-knn-full", property="C10",
 edits=[("mml/algorithms/CompGeometry/KDTree.h","if (static_cast<int>(maxHeap.size()) < k || diff * diff < worstDistSq) {","if (static_cast<int>(maxHeap.size()) + 1 < k || diff * diff < worstDistSq) {")],
 needs="a k-nearest query reaching a far half with exactly k-1 neighbours collected, all closer than the splitting plane",
 breaks="fewer than k neighbours (or wrong ones) are returned",
 demo=r'''
#include "mml/algorithms/CompGeometry/KDTree.h"
using namespace MML;
int main(){ KDTreeConfig c; c.max_leaf_size=1; std::vector<VectorN<Real,2>> p; for(int i=0;i<9;i++) p.push_back(VectorN<Real,2>({(Real)(10*i),(Real)(i*i%7)}));
 KDTree<2> t; t.build(p,c); for(int k=1;k<=9;k++) for(int x=0;x<=80;x+=5){ auto r=t.findKNearest(VectorN<Real,2>({(Real)x,0}),k); if((int)r.indices.size()!=k) return 1; } return 0; }'''),
dict(id="C12-cb-throw", property="C12",
 edits=[("mml/tools/ThreadPool.h","""								{
									std::lock_guard<std::mutex> lock(this->exceptions_mutex);
									this->exceptions.push(eptr);
								}
								// Invoke""","""								{
									std::lock_guard<std::mutex> lock(this->exceptions_mutex);
									if (!this->error_callback || this->exceptions.empty())
										this->exceptions.push(eptr);
								}
								// Invoke""")],
 needs="two failing tasks with an error callback installed and the first exception not yet fetched",
 breaks="the second exception is reported to the callback but never captured",
 demo=r'''
#include "mml/tools/ThreadPool.h"
int main(){ MML::ThreadPool p(1); std::atomic<int> n{0}; p.set_error_callback([&](std::exception_ptr){ n++; });
 for(int i=0;i<3;i++) p.enqueue([]{ throw std::runtime_error("x"); }); p.wait_for_tasks(); return (n==3 && p.exception_count()==3)?0:1; }'''),
dict(id="C12-drain", property="C12",
 edits=[("mml/tools/ThreadPool.h","""								if (this->stop.load() && this->tasks.empty())
									return;""","""								if (this->stop.load() && (this->tasks.empty() || this->in_flight_tasks.load() + this->tasks.size() > this->num_threads * 4))
									return;""")],
 needs="destroying a pool while many tasks are still queued",
 breaks="workers leave with tasks still queued: queued tasks are lost at destruction",
 demo=r'''
#include "mml/tools/ThreadPool.h"
#include <chrono>
int main(){ std::atomic<int> n{0}; { MML::ThreadPool p(1); for(int i=0;i<12;i++) p.enqueue([&]{ std::this_thread::sleep_for(std::chrono::milliseconds(20)); n++; }); } return n==12?0:1; }'''),
]
