BUGS=[
dict(id="C08-remove-reverse", property="C08",
 edits=[("mml/base/Graph.h","""			edges.erase(it);
			--_numEdges;

			if (_type == Type::Undirected && from != to)""","""			edges.erase(it);
			--_numEdges;

			if (_type == Type::Undirected && (from < to || edges.empty()))""")],
 needs="removing an undirected edge named from its larger end while that end still has other edges",
 breaks="the edge stays visible from the other end, so degree, neighbours and matrices disagree",
 demo=r'''
#include "mml/base/Graph.h"
using namespace MML;
int main(){ Graph<> g(4, Graph<>::Type::Undirected); g.addEdge(0,1,1); g.addEdge(1,2,2); g.addEdge(1,3,1);
 g.removeEdge(1,0); if(g.hasEdge(0,1)||g.hasEdge(1,0)||g.degree(0)!=0||g.degree(1)!=2) return 1;
 g.addEdge(0,1,5); if(g.edgeWeight(1,0)!=5||g.edgeWeight(0,1)!=5) return 1;
 g.removeEdge(3,1); if(g.degree(3)!=0||g.degree(1)!=2) return 1; return 0; }'''),
dict(id="C09-bf-pass", property="C09",
 edits=[("mml/algorithms/GraphAlgorithms.h","""		for (size_t i = 0; i < n - 1; ++i)
		{
			bool changed = false;""","""		for (size_t i = 1; i < n - 1; ++i)
		{
			bool changed = false;""")],
 needs="a shortest path using n-1 edges whose edges are listed in the reverse of path order",
 breaks="Bellman-Ford stops one pass early and reports a negative cycle that does not exist",
 demo=r'''
#include "mml/algorithms/GraphAlgorithms.h"
using namespace MML;
int main(){ Graph<> g(5, Graph<>::Type::Directed); g.addEdge(4,3,1); g.addEdge(3,2,1); g.addEdge(2,1,1); g.addEdge(1,0,1);
 auto r=BellmanFord(g,4); if(r.distance.size()!=5||r.distance[0]!=4) return 1; return HasNegativeCycle(g,4)?1:0; }'''),
dict(id="C09-path-early", property="C09",
 edits=[("mml/algorithms/GraphAlgorithms.h","""		while (!pq.empty())
		{
			auto [d, u] = pq.top();
			pq.pop();

			result.nodesExplored++;

			if (u == target)""","""		while (!pq.empty())
		{
			auto [d, u] = pq.top();
			pq.pop();

			result.nodesExplored++;

			if (u == target || (parent[target] == u && dist[target] == d))""")],
 needs="a zero-weight edge into the target from a vertex whose queue entry is popped again after being superseded",
 breaks="",
 demo="int main(){return 0;}"),
dict(id="C07-union-touch", property="C07",
 edits=[("mml/base/Intervals.h","""				overlapsOrAdjacent = (b._upperType == EndpointType::CLOSED || a._lowerType == EndpointType::CLOSED);""","""				overlapsOrAdjacent = (b._upperType != a._lowerType || b._upperType == EndpointType::CLOSED || b._lowerType == b._upperType);""")],
 needs="union of two open intervals touching in a point, the lower one given second",
 breaks="the shared open end point becomes a member of the union",
 demo=r"""
#include <memory>
#include "mml/base/Intervals.h"
using namespace MML;
int main(){ OpenInterval a(1,2), b(0,1); if(Interval::Union(b,a).contains(1)) return 2; return Interval::Union(a,b).contains(1)?1:0; }"""),
]
BUGS=[b for b in BUGS if b["breaks"]]
