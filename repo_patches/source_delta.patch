From a4ce95b2cd4e69d3372aafb062e570da55159225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:33 +0000
Subject: [PATCH 01/41] fix: Interval set operations keep end kinds exact
 (infinite, closed, shared ends); coverings stay inside and have the requested
 size

---
 mml/base/Intervals.h | 201 ++++++++++++++++++-------------------------
 1 file changed, 85 insertions(+), 116 deletions(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index d37158c..c909bd0 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -186,7 +186,8 @@ namespace MML {
 			Real delta = (upper - lower) / (numPoints - 1);
 
 			for (int i = 0; i < numPoints; i++) {
-				Real x = lower + i * delta;
+				// the last point is exactly the upper limit, not lower + (n-1)*delta, which may round beyond it
+				Real x = (i == numPoints - 1) ? upper : lower + i * delta;
 
 				// Adjust for open endpoints
 				if (i == 0 && _lowerType == EndpointType::OPEN)
@@ -489,6 +490,60 @@ namespace MML {
 			return *this;
 		}
 
+	private:
+		// Appends the set with the given ends (nothing if it is empty), keeping every kind of end.
+		void AddPiece(Real lower, EndpointType lowerType, Real upper, EndpointType upperType) {
+			const bool lowerInf = lowerType == EndpointType::NEG_INF, upperInf = upperType == EndpointType::POS_INF;
+			const bool lowerClosed = lowerType == EndpointType::CLOSED, upperClosed = upperType == EndpointType::CLOSED;
+
+			if (lowerInf && upperInf)
+				AddInterval(CompleteRInterval());
+			else if (lowerInf && upperClosed)
+				AddInterval(NegInfToClosedInterval(upper));
+			else if (lowerInf)
+				AddInterval(NegInfToOpenInterval(upper));
+			else if (upperInf && lowerClosed)
+				AddInterval(ClosedToInfInterval(lower));
+			else if (upperInf)
+				AddInterval(OpenToInfInterval(lower));
+			else if (lower > upper || (lower == upper && !(lowerClosed && upperClosed)))
+				return;
+			else if (lowerClosed && upperClosed)
+				AddInterval(ClosedInterval(lower, upper));
+			else if (upperClosed)
+				AddInterval(OpenClosedInterval(lower, upper));
+			else if (lowerClosed)
+				AddInterval(ClosedOpenInterval(lower, upper));
+			else
+				AddInterval(OpenInterval(lower, upper));
+		}
+		// The kind of end left behind when the end of a removed set is cut off.
+		static EndpointType Opposite(EndpointType t) { return t == EndpointType::CLOSED ? EndpointType::OPEN : EndpointType::CLOSED; }
+		// True if a point may lie above the lower end of a and below the upper end of b.
+		static bool LowerBelowUpper(const BaseInterval& a, const BaseInterval& b) {
+			if (a._lowerType == EndpointType::NEG_INF || b._upperType == EndpointType::POS_INF)
+				return true;
+			return a._lower < b._upper ||
+				   (a._lower == b._upper && a._lowerType == EndpointType::CLOSED && b._upperType == EndpointType::CLOSED);
+		}
+		static bool Overlap(const BaseInterval& a, const BaseInterval& b) {
+			return LowerBelowUpper(a, a) && LowerBelowUpper(b, b) && LowerBelowUpper(a, b) && LowerBelowUpper(b, a);
+		}
+		static bool Covers(const BaseInterval& a, const BaseInterval& b) {
+			if (!LowerBelowUpper(b, b))
+				return true;
+			const bool low = a._lowerType == EndpointType::NEG_INF ||
+							 (b._lowerType != EndpointType::NEG_INF &&
+							  (a._lower < b._lower ||
+							   (a._lower == b._lower && (a._lowerType == EndpointType::CLOSED || b._lowerType == EndpointType::OPEN))));
+			const bool high = a._upperType == EndpointType::POS_INF ||
+							  (b._upperType != EndpointType::POS_INF &&
+							   (b._upper < a._upper ||
+								(a._upper == b._upper && (a._upperType == EndpointType::CLOSED || b._upperType == EndpointType::OPEN))));
+			return low && high;
+		}
+
+	public:
 		/// @brief Computes the intersection of two intervals.
 		/// Returns A ∩ B, the set of points contained in both intervals.
 		/// Handles endpoint types correctly (intersection of open and closed
@@ -512,30 +567,20 @@ namespace MML {
 			EndpointType lowerType, upperType;
 
 			if (lower == a._lower && lower == b._lower)
-				lowerType = (a._lowerType == EndpointType::CLOSED && b._lowerType == EndpointType::CLOSED) ? EndpointType::CLOSED
-																										   : EndpointType::OPEN;
+				lowerType = (a._lowerType == b._lowerType) ? a._lowerType : EndpointType::OPEN;
 			else if (lower == a._lower)
 				lowerType = a._lowerType;
 			else
 				lowerType = b._lowerType;
 
 			if (upper == a._upper && upper == b._upper)
-				upperType = (a._upperType == EndpointType::CLOSED && b._upperType == EndpointType::CLOSED) ? EndpointType::CLOSED
-																										   : EndpointType::OPEN;
+				upperType = (a._upperType == b._upperType) ? a._upperType : EndpointType::OPEN;
 			else if (upper == a._upper)
 				upperType = a._upperType;
 			else
 				upperType = b._upperType;
 
-			// Create appropriate interval based on endpoint types
-			if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
-				ret.AddInterval(ClosedInterval(lower, upper));
-			else if (lowerType == EndpointType::OPEN && upperType == EndpointType::CLOSED)
-				ret.AddInterval(OpenClosedInterval(lower, upper));
-			else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::OPEN)
-				ret.AddInterval(ClosedOpenInterval(lower, upper));
-			else
-				ret.AddInterval(OpenInterval(lower, upper));
+			ret.AddPiece(lower, lowerType, upper, upperType);
 
 			return ret;
 		}
@@ -577,54 +622,28 @@ namespace MML {
 				EndpointType lowerType, upperType;
 
 				if (lower == a._lower && lower == b._lower)
-					lowerType = (a._lowerType == EndpointType::CLOSED || b._lowerType == EndpointType::CLOSED) 
-					            ? EndpointType::CLOSED : EndpointType::OPEN;
+					lowerType = (a._lowerType == b._lowerType) ? a._lowerType : EndpointType::CLOSED;
 				else if (lower == a._lower)
 					lowerType = a._lowerType;
 				else
 					lowerType = b._lowerType;
 
 				if (upper == a._upper && upper == b._upper)
-					upperType = (a._upperType == EndpointType::CLOSED || b._upperType == EndpointType::CLOSED) 
-					            ? EndpointType::CLOSED : EndpointType::OPEN;
+					upperType = (a._upperType == b._upperType) ? a._upperType : EndpointType::CLOSED;
 				else if (upper == a._upper)
 					upperType = a._upperType;
 				else
 					upperType = b._upperType;
 
-				// Create appropriate interval
-				if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(lower, upper));
-				else if (lowerType == EndpointType::OPEN && upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(lower, upper));
-				else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(lower, upper));
-				else
-					ret.AddInterval(OpenInterval(lower, upper));
+				ret.AddPiece(lower, lowerType, upper, upperType);
 			} else {
 				// Disjoint intervals - add both (in order)
 				const BaseInterval* first = (a._lower < b._lower) ? &a : &b;
 				const BaseInterval* second = (a._lower < b._lower) ? &b : &a;
 
-				// Add first interval
-				if (first->_lowerType == EndpointType::CLOSED && first->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(first->_lower, first->_upper));
-				else if (first->_lowerType == EndpointType::OPEN && first->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(first->_lower, first->_upper));
-				else if (first->_lowerType == EndpointType::CLOSED && first->_upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(first->_lower, first->_upper));
-				else
-					ret.AddInterval(OpenInterval(first->_lower, first->_upper));
-
-				// Add second interval
-				if (second->_lowerType == EndpointType::CLOSED && second->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(second->_lower, second->_upper));
-				else if (second->_lowerType == EndpointType::OPEN && second->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(second->_lower, second->_upper));
-				else if (second->_lowerType == EndpointType::CLOSED && second->_upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(second->_lower, second->_upper));
-				else
-					ret.AddInterval(OpenInterval(second->_lower, second->_upper));
+				ret.AddPiece(first->_lower, first->_lowerType, first->_upper, first->_upperType);
+
+				ret.AddPiece(second->_lower, second->_lowerType, second->_upper, second->_upperType);
 			}
 
 			return ret;
@@ -643,71 +662,16 @@ namespace MML {
 			Interval ret;
 
 			// If b doesn't intersect a, return a
-			if (b._upper <= a._lower || b._lower >= a._upper) {
-				// Return copy of a based on its endpoint types
-				if (a._lowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, a._upper));
-				else if (a._lowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, a._upper));
-				else if (a._lowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, a._upper));
-				else
-					ret.AddInterval(OpenInterval(a._lower, a._upper));
+			if (!Overlap(a, b)) {
+				ret.AddPiece(a._lower, a._lowerType, a._upper, a._upperType);
 				return ret;
 			}
 
-			// Case: b completely contains a
-			if (b._lower <= a._lower && b._upper >= a._upper)
-				return ret; // Empty set
-
-			// Case: b cuts left part of a
-			if (b._lower <= a._lower && b._upper < a._upper) {
-				EndpointType newLowerType = (b._upperType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (newLowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(b._upper, a._upper));
-				else if (newLowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(b._upper, a._upper));
-				else if (newLowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(b._upper, a._upper));
-				else
-					ret.AddInterval(OpenInterval(b._upper, a._upper));
-			}
-			// Case: b cuts right part of a
-			else if (b._lower > a._lower && b._upper >= a._upper) {
-				EndpointType newUpperType = (b._lowerType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (a._lowerType == EndpointType::CLOSED && newUpperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::OPEN && newUpperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::CLOSED && newUpperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, b._lower));
-				else
-					ret.AddInterval(OpenInterval(a._lower, b._lower));
-			}
-			// Case: b is completely inside a (splits a into two intervals)
-			else {
-				// Left part: [a.lower, b.lower)
-				EndpointType leftUpperType = (b._lowerType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (a._lowerType == EndpointType::CLOSED && leftUpperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::OPEN && leftUpperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::CLOSED && leftUpperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, b._lower));
-				else
-					ret.AddInterval(OpenInterval(a._lower, b._lower));
-
-				// Right part: (b.upper, a.upper]
-				EndpointType rightLowerType = (b._upperType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (rightLowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(b._upper, a._upper));
-				else if (rightLowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(b._upper, a._upper));
-				else if (rightLowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(b._upper, a._upper));
-				else
-					ret.AddInterval(OpenInterval(b._upper, a._upper));
-			}
+			// Part of a to the left of b, and part of a to the right of b (either may be empty)
+			if (b._lowerType != EndpointType::NEG_INF)
+				ret.AddPiece(a._lower, a._lowerType, b._lower, Opposite(b._lowerType));
+			if (b._upperType != EndpointType::POS_INF)
+				ret.AddPiece(b._upper, Opposite(b._upperType), a._upper, a._upperType);
 
 			return ret;
 		}
@@ -800,13 +764,12 @@ namespace MML {
 		/// @brief Checks if another interval is fully contained.
 		/// @param other The interval to test.
 		/// @return True if other is entirely within one of the subintervals.
-		/// @note This is a simplified check using only bounds, not full containment.
+		/// @note Point holes of either interval are not considered.
 
 		bool contains(const BaseInterval& other) const {
 			// Check if all points in 'other' are contained in at least one of our intervals
-			// For simplicity, we check if other's bounds are contained
 			for (const auto& interval : _intervals) {
-				if (interval->contains(other.getLowerBound()) && interval->contains(other.getUpperBound()))
+				if (Covers(*interval, other))
 					return true;
 			}
 			return false;
@@ -819,8 +782,8 @@ namespace MML {
 		bool intersects(const BaseInterval& other) const {
 			// Check if any of our intervals intersect with 'other'
 			for (const auto& interval : _intervals) {
-				// Two intervals intersect if one contains a point from the other
-				if (interval->getLowerBound() <= other.getUpperBound() && interval->getUpperBound() >= other.getLowerBound())
+				// Two intervals intersect if some point belongs to both (touching at an open end is not enough)
+				if (Overlap(*interval, other))
 					return true;
 			}
 			return false;
@@ -836,13 +799,19 @@ namespace MML {
 			if (_intervals.empty() || numPoints <= 0)
 				return;
 
-			// Distribute points across all intervals based on their relative lengths
-			Real totalLength = getLength();
+			// One point per interval, the others shared out in proportion to the interval lengths
+			Real totalLength = getMeasure();
 			if (totalLength <= 0)
 				return;
 
+			const int extraPoints = std::max(0, numPoints - (int)_intervals.size());
+			Real lengthSoFar = 0;
+			int extraSoFar = 0;
 			for (const auto& interval : _intervals) {
-				int intervalPoints = std::max(1, (int)(numPoints * interval->getLength() / totalLength));
+				lengthSoFar += interval->getLength();
+				const int extraUpToHere = (interval == _intervals.back()) ? extraPoints : (int)(extraPoints * (lengthSoFar / totalLength));
+				const int intervalPoints = 1 + extraUpToHere - extraSoFar;
+				extraSoFar = extraUpToHere;
 				std::vector<Real> intervalPointsVec;
 				interval->GetEquidistantCovering(intervalPoints, intervalPointsVec);
 				points.insert(points.end(), intervalPointsVec.begin(), intervalPointsVec.end());
-- 
2.43.0


From 626da5afb91cb26f9344d869cceea723557410e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 02/41] fix: Graph Laplacian diagonal with self-loops;
 createPathGraph(0)/createCycleGraph(0) underflow

---
 mml/base/Graph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index ea96e00..3d66f38 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -433,10 +433,10 @@ namespace MML
 				E deg = E{0};
 				for (const auto& edge : _adjList[i])
 				{
-					L(i, edge.to) = -edge.weight;  // Off-diagonal: -weight
+					L(i, edge.to) -= edge.weight;  // Off-diagonal: -weight
 					deg += edge.weight;
 				}
-				L(i, i) = deg;  // Diagonal: sum of weights
+				L(i, i) += deg;  // Diagonal: sum of weights (less the weight of a self-loop)
 			}
 
 			return L;
@@ -535,7 +535,7 @@ namespace MML
 	Graph<V, E> createPathGraph(size_t n)
 	{
 		Graph<V, E> g(n, Graph<V, E>::Type::Undirected);
-		for (size_t i = 0; i < n - 1; ++i)
+		for (size_t i = 0; i + 1 < n; ++i)
 			g.addEdge(i, i + 1, E{1});
 		return g;
 	}
@@ -545,7 +545,7 @@ namespace MML
 	Graph<V, E> createCycleGraph(size_t n)
 	{
 		Graph<V, E> g(n, Graph<V, E>::Type::Undirected);
-		for (size_t i = 0; i < n - 1; ++i)
+		for (size_t i = 0; i + 1 < n; ++i)
 			g.addEdge(i, i + 1, E{1});
 		if (n > 2)
 			g.addEdge(n - 1, 0, E{1});
-- 
2.43.0


From 5cad085dfc2f60cdfc965f336d5f5ca1959b1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 03/41] fix: DFS parents, HasNegativeCycle for an invalid
 start, AveragePathLength of directed graphs

---
 mml/algorithms/GraphAlgorithms.h | 10 ++++------
 mml/algorithms/GraphSpectral.h   |  4 ++--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/GraphAlgorithms.h b/mml/algorithms/GraphAlgorithms.h
index a25d14e..008dd40 100644
--- a/mml/algorithms/GraphAlgorithms.h
+++ b/mml/algorithms/GraphAlgorithms.h
@@ -153,11 +153,9 @@ namespace MML
 				size_t v = it->to;
 				if (!visited[v])
 				{
-					if (result.parent[v] == GRAPH_NOT_FOUND)
-					{
-						result.parent[v] = u;
-						result.distance[v] = result.distance[u] + 1;
-					}
+					// the entry pushed last is the one v will be visited from
+					result.parent[v] = u;
+					result.distance[v] = result.distance[u] + 1;
 					stack.push(v);
 				}
 			}
@@ -562,7 +560,7 @@ namespace MML
 	bool HasNegativeCycle(const Graph<V, E>& graph, size_t start)
 	{
 		auto result = BellmanFord(graph, start);
-		return result.parent.empty();  // Empty if negative cycle found
+		return start < graph.numVertices() && result.parent.empty();  // Empty if negative cycle found
 	}
 
 	///////////////////////////////////////////////////////////////////////////
diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index 9248098..39e70c2 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -564,9 +564,9 @@ namespace MML
 		{
 			auto bfsResult = BFS(graph, v);
 
-			for (size_t u = v + 1; u < n; ++u)
+			for (size_t u = 0; u < n; ++u)
 			{
-				if (bfsResult.distance[u] != std::numeric_limits<Real>::infinity())
+				if (u != v && bfsResult.distance[u] != std::numeric_limits<Real>::infinity())
 				{
 					totalLength += bfsResult.distance[u];
 					++pathCount;
-- 
2.43.0


From 50b04fab4bd4545c1ad683ea05c0b8199fb78093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 04/41] fix: KDTree build does not recurse forever when the
 leaf size is below one

---
 mml/algorithms/CompGeometry/KDTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/CompGeometry/KDTree.h b/mml/algorithms/CompGeometry/KDTree.h
index 0a2d07b..626ee4c 100644
--- a/mml/algorithms/CompGeometry/KDTree.h
+++ b/mml/algorithms/CompGeometry/KDTree.h
@@ -346,7 +346,8 @@ namespace MML {
 			_stats.num_nodes++;
 			
 			// Create leaf if few points
-			if (static_cast<int>(indices.size()) <= _config.max_leaf_size) {
+			// (a single point is always a leaf, whatever leaf size was asked for)
+			if (indices.size() == 1 || static_cast<int>(indices.size()) <= _config.max_leaf_size) {
 				node->point_indices = std::move(indices);
 				_stats.num_leaf_nodes++;
 				return node;
-- 
2.43.0


From 650c81246af313102930f2a539c7efe720b7a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:40 +0000
Subject: [PATCH 05/41] fix: JSON loading keeps rows aligned, decodes escapes
 and rejects malformed documents

---
 mml/tools/data_loader/DataLoaderJSON.h | 207 +++++++++++++++++--------
 1 file changed, 146 insertions(+), 61 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index bd5d6a7..9d1ff16 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -67,10 +67,13 @@ namespace MML {
 							case 'n': result += '\n'; break;
 							case 't': result += '\t'; break;
 							case 'r': result += '\r'; break;
+							case 'b': result += '\b'; break;
+							case 'f': result += '\f'; break;
 							case '"': result += '"'; break;
 							case '\\': result += '\\'; break;
 							case '/': result += '/'; break;
-							default: result += esc; break;
+							case 'u': AppendUtf8(result, ParseCodePoint()); break;
+							default: throw DataError("JSON: Invalid escape sequence");
 						}
 					}
 					else {
@@ -80,14 +83,80 @@ namespace MML {
 				throw DataError("JSON: Unterminated string");
 			}
 
+			/// @brief The four hexadecimal digits of a \u escape
+			unsigned ParseHex4() {
+				unsigned value = 0;
+				for (int i = 0; i < 4; ++i, ++pos) {
+					if (pos >= json.size() || !std::isxdigit(static_cast<unsigned char>(json[pos])))
+						throw DataError("JSON: Invalid \\u escape");
+					char c = json[pos];
+					value = value * 16 + static_cast<unsigned>(c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10);
+				}
+				return value;
+			}
+
+			/// @brief Code point of a \u escape (pos is after the 'u'), joining surrogate pairs
+			unsigned ParseCodePoint() {
+				unsigned cp = ParseHex4();
+				if (cp >= 0xDC00 && cp <= 0xDFFF)
+					throw DataError("JSON: Unpaired surrogate");
+				if (cp >= 0xD800 && cp <= 0xDBFF) {
+					if (json.compare(pos, 2, "\\u") != 0)
+						throw DataError("JSON: Unpaired surrogate");
+					pos += 2;
+					unsigned low = ParseHex4();
+					if (low < 0xDC00 || low > 0xDFFF)
+						throw DataError("JSON: Unpaired surrogate");
+					cp = 0x10000 + ((cp - 0xD800) << 10) + (low - 0xDC00);
+				}
+				return cp;
+			}
+
+			static void AppendUtf8(std::string& out, unsigned cp) {
+				if (cp < 0x80) {
+					out += static_cast<char>(cp);
+				}
+				else if (cp < 0x800) {
+					out += static_cast<char>(0xC0 | (cp >> 6));
+					out += static_cast<char>(0x80 | (cp & 0x3F));
+				}
+				else if (cp < 0x10000) {
+					out += static_cast<char>(0xE0 | (cp >> 12));
+					out += static_cast<char>(0x80 | ((cp >> 6) & 0x3F));
+					out += static_cast<char>(0x80 | (cp & 0x3F));
+				}
+				else {
+					out += static_cast<char>(0xF0 | (cp >> 18));
+					out += static_cast<char>(0x80 | ((cp >> 12) & 0x3F));
+					out += static_cast<char>(0x80 | ((cp >> 6) & 0x3F));
+					out += static_cast<char>(0x80 | (cp & 0x3F));
+				}
+			}
+
+			bool SkipDigits() {
+				size_t start = pos;
+				while (pos < json.size() && std::isdigit(static_cast<unsigned char>(json[pos]))) ++pos;
+				return pos > start;
+			}
+
 			std::string ParseNumber() {
 				SkipWhitespace();
 				size_t start = pos;
-				if (json[pos] == '-') ++pos;
-				while (pos < json.size() && (std::isdigit(json[pos]) || json[pos] == '.' ||
-				       json[pos] == 'e' || json[pos] == 'E' || json[pos] == '+' || json[pos] == '-')) {
+				if (pos < json.size() && json[pos] == '-') ++pos;
+				bool zero = pos < json.size() && json[pos] == '0';
+				size_t intStart = pos;
+				bool ok = SkipDigits() && !(zero && pos - intStart > 1);
+				if (ok && pos < json.size() && json[pos] == '.') {
+					++pos;
+					ok = SkipDigits();
+				}
+				if (ok && pos < json.size() && (json[pos] == 'e' || json[pos] == 'E')) {
 					++pos;
+					if (pos < json.size() && (json[pos] == '+' || json[pos] == '-')) ++pos;
+					ok = SkipDigits();
 				}
+				if (!ok)
+					throw DataError("JSON: Malformed number");
 				return json.substr(start, pos - start);
 			}
 
@@ -124,6 +193,63 @@ namespace MML {
 				throw DataError("JSON: Unexpected character");
 			}
 
+			/// @brief Consume the separator after an array or object element
+			/// @return true after ',' (another element follows), false after the closing character
+			bool NextElement(char closing) {
+				char c = Get();
+				if (c == ',') return true;
+				if (c == closing) return false;
+				throw DataError(std::string("JSON: Expected ',' or '") + closing + "'");
+			}
+
+			/// @brief Parse one object as the values of the given row (0-based)
+			void ParseObjectRow(size_t row, std::map<std::string, std::vector<std::string>>& columnData,
+			                    std::vector<std::string>& columnOrder) {
+				if (Get() != '{')
+					throw DataError("JSON: Expected '{' for object");
+
+				if (Peek() == '}') {
+					Get();
+					return;
+				}
+
+				do {
+					std::string key = ParseString();
+					if (Get() != ':')
+						throw DataError("JSON: Expected ':' after key");
+
+					// Track column order; a column first seen in a later row was missing before it
+					if (columnData.find(key) == columnData.end()) {
+						columnOrder.push_back(key);
+						columnData[key].resize(row);
+					}
+					if (columnData[key].size() > row)
+						throw DataError("JSON: Duplicate key '" + key + "'");
+
+					// Parse value as string
+					std::string value;
+					switch (PeekType()) {
+						case JsonType::String:
+							value = ParseString();
+							break;
+						case JsonType::Number:
+							value = ParseNumber();
+							break;
+						case JsonType::Bool:
+							value = ParseBool() ? "true" : "false";
+							break;
+						case JsonType::Null:
+							ParseNull();
+							value = "";
+							break;
+						default:
+							throw DataError("JSON: Unsupported value type (nested objects/arrays not supported)");
+					}
+
+					columnData[key].push_back(value);
+				} while (NextElement('}'));
+			}
+
 			/// @brief Parse array of objects into Dataset
 			Dataset ParseArrayOfObjects() {
 				Dataset dataset;
@@ -135,68 +261,27 @@ namespace MML {
 				std::vector<std::string> columnOrder;
 
 				// Parse each object
-				while (Peek() != ']') {
-					if (Peek() == ',') Get();  // Skip comma
-
-					if (Get() != '{')
-						throw DataError("JSON: Expected '{' for object");
-
-					// Parse object key-value pairs
-					while (Peek() != '}') {
-						if (Peek() == ',') Get();
-
-						std::string key = ParseString();
-						if (Get() != ':')
-							throw DataError("JSON: Expected ':' after key");
-
-						// Track column order
-						if (columnData.find(key) == columnData.end()) {
-							columnOrder.push_back(key);
-						}
-
-						// Parse value as string
-						std::string value;
-						switch (PeekType()) {
-							case JsonType::String:
-								value = ParseString();
-								break;
-							case JsonType::Number:
-								value = ParseNumber();
-								break;
-							case JsonType::Bool:
-								value = ParseBool() ? "true" : "false";
-								break;
-							case JsonType::Null:
-								ParseNull();
-								value = "";
-								break;
-							default:
-								throw DataError("JSON: Unsupported value type (nested objects/arrays not supported)");
-						}
-
-						columnData[key].push_back(value);
-					}
-
-					if (Get() != '}')
-						throw DataError("JSON: Expected '}'");
-
-					// Fill missing columns with empty for this row
-					size_t maxRows = 0;
-					for (const auto& col : columnOrder) {
-						maxRows = std::max(maxRows, columnData[col].size());
-					}
-					for (const auto& col : columnOrder) {
-						while (columnData[col].size() < maxRows)
-							columnData[col].push_back("");
-					}
+				size_t rowCount = 0;
+				if (Peek() == ']') {
+					Get();
+				}
+				else {
+					do {
+						ParseObjectRow(rowCount, columnData, columnOrder);
+						++rowCount;
+
+						// Fill missing columns with empty for this row
+						for (const auto& col : columnOrder)
+							columnData[col].resize(rowCount);
+					} while (NextElement(']'));
 				}
 
-				if (Get() != ']')
-					throw DataError("JSON: Expected ']'");
+				if (Peek() != '\0' || pos < json.size())
+					throw DataError("JSON: Unexpected content after the array");
 
 				// Build dataset
+				dataset.rowCount = rowCount;
 				if (!columnOrder.empty()) {
-					dataset.rowCount = columnData[columnOrder[0]].size();
 					dataset.columns.reserve(columnOrder.size());
 
 					for (const auto& colName : columnOrder) {
-- 
2.43.0


From c62d0f4c687c61d79198832b9fd779147eae4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:40 +0000
Subject: [PATCH 06/41] fix: CSV loading keeps quoted newlines, all-blank
 delimited rows and every value that does not fit the inferred type

---
 mml/tools/data_loader/DataLoaderCSV.h     | 10 ++--
 mml/tools/data_loader/DataLoaderParsing.h | 63 ++++++++++++++++++-----
 2 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderCSV.h b/mml/tools/data_loader/DataLoaderCSV.h
index daca260..d8c08cf 100644
--- a/mml/tools/data_loader/DataLoaderCSV.h
+++ b/mml/tools/data_loader/DataLoaderCSV.h
@@ -53,15 +53,15 @@ namespace MML {
 			std::string line;
 			bool firstLine = true;
 
-			while (std::getline(file, line)) {
+			while (ReadRecord(file, line)) {
 				// Handle BOM on first line
 				if (firstLine) {
 					line = RemoveBOM(line);
 					firstLine = false;
 				}
 
-				// Skip empty lines
-				if (Trim(line).empty()) continue;
+				// Skip empty lines (a line of delimiters only is a row of missing cells)
+				if (Trim(line).empty() && line.find(opts.delimiter) == std::string::npos) continue;
 
 				// Handle Windows line endings
 				if (!line.empty() && line.back() == '\r')
@@ -296,8 +296,8 @@ namespace MML {
 			std::istringstream iss(cleanContent);
 			std::string line;
 
-			while (std::getline(iss, line)) {
-				if (Trim(line).empty()) continue;
+			while (ReadRecord(iss, line)) {
+				if (Trim(line).empty() && line.find(delimiter) == std::string::npos) continue;
 				if (!line.empty() && line.back() == '\r')
 					line.pop_back();
 				allData.push_back(SplitLine(line, delimiter));
diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 177fd32..55a7c13 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -15,6 +15,11 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
+#include <istream>
+#include <limits>
 #include <regex>
 #include <string>
 #include <vector>
@@ -25,6 +30,25 @@ namespace MML {
 		/////////////////////////////////////////////////////////////////////////////////////
 		///                              TYPE INFERENCE                                    ///
 		/////////////////////////////////////////////////////////////////////////////////////
+		/// @brief Convert text to a real value; false if it overflows (underflow to zero or a denormal is fine)
+		inline bool TextToReal(const std::string& text, Real& out) {
+			out = static_cast<Real>(std::strtod(text.c_str(), nullptr));
+			return std::isfinite(out);
+		}
+
+		/// @brief True if the value of an integer literal fits in an int
+		inline bool FitsInt(const std::string& text) {
+			errno = 0;
+			long v = std::strtol(text.c_str(), nullptr, 10);
+			return errno != ERANGE && v >= std::numeric_limits<int>::min() && v <= std::numeric_limits<int>::max();
+		}
+
+		/// @brief True if the value of a numeric literal is finite as a Real
+		inline bool FitsReal(const std::string& text) {
+			Real v;
+			return TextToReal(text, v);
+		}
+
 		/// @brief Infer column type from string values
 		/// @param values Sample of string values from the column
 		/// @return Most appropriate ColumnType for the data
@@ -55,11 +79,12 @@ namespace MML {
 				}
 
 				// Check numeric patterns FIRST (before bool, since "1"/"0" could be numeric)
-				if (std::regex_match(trimmed, intPattern)) {
+				// A number counts for a type only if its value is representable in it
+				if (std::regex_match(trimmed, intPattern) && FitsInt(trimmed)) {
 					++intCount;
 					continue;
 				}
-				if (std::regex_match(trimmed, realPattern)) {
+				if (std::regex_match(trimmed, realPattern) && FitsReal(trimmed)) {
 					++realCount;
 					continue;
 				}
@@ -91,15 +116,13 @@ namespace MML {
 			size_t totalNonMissing = values.size() - missingCount;
 			if (totalNonMissing == 0) return ColumnType::STRING;
 
-			// Determine type based on majority
-			double threshold = 0.9;  // 90% match required
-
-			if (dateTimeCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::DATETIME;
-			if (dateCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::DATE;
-			if (timeCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::TIME;
-			if (boolCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::BOOL;
-			if (intCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::INT;
-			if ((intCount + realCount) >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::REAL;
+			// Every non-missing value has to fit the type: a value that does not would be lost
+			if (dateTimeCount == totalNonMissing) return ColumnType::DATETIME;
+			if (dateCount == totalNonMissing) return ColumnType::DATE;
+			if (timeCount == totalNonMissing) return ColumnType::TIME;
+			if (boolCount == totalNonMissing) return ColumnType::BOOL;
+			if (intCount == totalNonMissing) return ColumnType::INT;
+			if (intCount + realCount == totalNonMissing) return ColumnType::REAL;
 
 			return ColumnType::STRING;
 		}
@@ -136,8 +159,7 @@ namespace MML {
 			try {
 				switch (targetType) {
 					case ColumnType::REAL: {
-						realOut = std::stod(trimmed);
-						return ParseResult::Parsed;
+						return TextToReal(trimmed, realOut) ? ParseResult::Parsed : ParseResult::Invalid;
 					}
 					case ColumnType::INT: {
 						intOut = std::stoi(trimmed);
@@ -210,6 +232,21 @@ namespace MML {
 			return result;
 		}
 
+		/// @brief Read one delimited record: a line, continued while a quoted field is open
+		/// @return false at the end of the input
+		/// @throws DataError if the input ends inside a quoted field
+		inline bool ReadRecord(std::istream& in, std::string& record) {
+			if (!std::getline(in, record)) return false;
+			while (std::count(record.begin(), record.end(), '"') % 2 != 0) {
+				std::string next;
+				if (!std::getline(in, next))
+					throw DataError("DataLoader: Unterminated quoted field");
+				record += '\n';
+				record += next;
+			}
+			return true;
+		}
+
 		/// @brief Trim whitespace from string
 		inline std::string Trim(const std::string& s) {
 			size_t start = s.find_first_not_of(" \t\r\n");
-- 
2.43.0


From 40487c707225a3017c2cb8f93a237cb253162aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 07/41] fix: vector and matrix files keep full precision;
 truncated, malformed or mis-sized files are refused

---
 mml/MMLBase.h                   | 11 ++++++
 mml/base/Vector/Vector.h        | 42 +++++++++++++++-------
 mml/tools/serializer/MatrixIO.h | 63 ++++++++++++++++++++++++---------
 mml/tools/serializer/VectorIO.h | 15 ++++----
 4 files changed, 94 insertions(+), 37 deletions(-)

diff --git a/mml/MMLBase.h b/mml/MMLBase.h
index 8902015..2692b49 100644
--- a/mml/MMLBase.h
+++ b/mml/MMLBase.h
@@ -20,9 +20,11 @@
 #include "MMLPrecision.h"
 
 // Standard headers - only what MMLBase.h actually uses
+#include <cctype>
 #include <cmath>
 #include <complex>
 #include <cstdint>
+#include <istream>
 #include <limits>
 #include <type_traits>
 
@@ -159,6 +161,15 @@ namespace MML {
 		static inline constexpr const char* EXT_TENSOR = "mmlt";				 // reserved
 	} // namespace BinaryFormat
 
+	/// @brief Read one white-space delimited value of a text file
+	/// @return false if there is none or it is followed by other characters
+	template<class Type>
+	bool ReadTextValue(std::istream& in, Type& value) {
+		if (!(in >> value)) return false;
+		int next = in.rdbuf()->sgetc();
+		return next == std::istream::traits_type::eof() || std::isspace(next);
+	}
+
 	////////////         Angle Comparison Functions         ////////////
 	/// @brief Normalize angle to [-π, π) range for comparison.
 	/// @param rad Angle in radians
diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 99e669f..0472ecc 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -15,10 +15,12 @@
 #include "MMLBase.h"
 
 // Standard headers - include what we use
+#include <algorithm>
 #include <fstream>
 #include <initializer_list>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <type_traits>
@@ -519,7 +521,7 @@ namespace MML
 			}
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from binary file
@@ -538,13 +540,13 @@ namespace MML
 			uint32_t magic, version, size, elemSize;
 			
 			file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
-			if (magic != BinaryFormat::MAGIC_VECTOR) {
+			if (!file || magic != BinaryFormat::MAGIC_VECTOR) {
 				std::cerr << "Error: invalid magic number in " << filename << std::endl;
 				return false;
 			}
 			
 			file.read(reinterpret_cast<char*>(&version), sizeof(version));
-			if (version != BinaryFormat::VERSION_VECTOR) {
+			if (!file || version != BinaryFormat::VERSION_VECTOR) {
 				std::cerr << "Error: unsupported version " << version << " in " << filename << std::endl;
 				return false;
 			}
@@ -552,12 +554,22 @@ namespace MML
 			file.read(reinterpret_cast<char*>(&size), sizeof(size));
 			file.read(reinterpret_cast<char*>(&elemSize), sizeof(elemSize));
 			
-			if (elemSize != sizeof(Type)) {
+			if (!file || elemSize != sizeof(Type)) {
 				std::cerr << "Error: element size mismatch in " << filename 
 				          << " (file: " << elemSize << ", expected: " << sizeof(Type) << ")" << std::endl;
 				return false;
 			}
 			
+			// The rest of the file has to be exactly the declared data
+			auto dataPos = file.tellg();
+			file.seekg(0, std::ios::end);
+			auto endPos = file.tellg();
+			file.seekg(dataPos);
+			if (!file || endPos - dataPos != static_cast<std::streamoff>(size) * static_cast<std::streamoff>(sizeof(Type))) {
+				std::cerr << "Error: size mismatch in " << filename << std::endl;
+				return false;
+			}
+			
 			// Read data
 			outVec._elems.resize(size);
 			if (size > 0) {
@@ -565,8 +577,7 @@ namespace MML
 				          size * sizeof(Type));
 			}
 			
-			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Save vector to text file (one value per line)
@@ -578,12 +589,14 @@ namespace MML
 			std::ofstream file(filename);
 			if (!file.is_open()) return false;
 			
+			// Enough digits to read back the same value
+			file.precision(std::max(std::numeric_limits<Type>::max_digits10, std::numeric_limits<double>::max_digits10));
 			file << vec._elems.size() << std::endl;
 			for (const auto& val : vec._elems)
 				file << val << std::endl;
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from text file
@@ -596,13 +609,18 @@ namespace MML
 			if (!file.is_open()) return false;
 			
 			size_t size;
-			file >> size;
-			outVec._elems.resize(size);
+			if (!ReadTextValue(file, size)) return false;
 			
-			for (size_t i = 0; i < size; ++i)
-				file >> outVec._elems[i];
+			// Grow with the values actually present: the declared size may be wrong
+			std::vector<Type> elems;
+			for (size_t i = 0; i < size; ++i) {
+				Type value{};
+				if (!ReadTextValue(file, value)) return false;
+				elems.push_back(value);
+			}
+			if (!(file >> std::ws).eof()) return false;
 			
-			file.close();
+			outVec._elems = std::move(elems);
 			return true;
 		}
 	};
diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index 46b977f..73bbb15 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -15,7 +15,9 @@
 #include "mml/MMLBase.h"
 #include "mml/base/Matrix/Matrix.h"
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
 #include <fstream>
 #include <sstream>
 #include <vector>
@@ -50,18 +52,29 @@ namespace Serializer
 		}
 		
 		int rows, cols;
-		file >> rows >> cols;
-		if (file.fail() || rows <= 0 || cols <= 0 || rows > 100000 || cols > 100000) {
+		if (!ReadTextValue(file, rows) || !ReadTextValue(file, cols) || rows <= 0 || cols <= 0 || rows > 100000 || cols > 100000) {
 			std::cerr << "Error: invalid dimensions (" << rows << "x" << cols << ") in " << filename << std::endl;
 			return false;
 		}
-		outMat.Resize(rows, cols);
 		
-		for (int i = 0; i < rows; ++i)
-			for (int j = 0; j < cols; ++j)
-				file >> outMat(i, j);
+		// Grow with the values actually present: the declared size may be wrong
+		std::vector<Type> values;
+		const size_t count = static_cast<size_t>(rows) * static_cast<size_t>(cols);
+		for (size_t k = 0; k < count; ++k) {
+			Type value{};
+			if (!ReadTextValue(file, value)) {
+				std::cerr << "Error: missing or malformed element in " << filename << std::endl;
+				return false;
+			}
+			values.push_back(value);
+		}
+		if (!(file >> std::ws).eof()) {
+			std::cerr << "Error: unexpected content after the last element in " << filename << std::endl;
+			return false;
+		}
 		
-		file.close();
+		outMat.Resize(rows, cols);
+		std::copy(values.begin(), values.end(), outMat.data());
 		return true;
 	}
 
@@ -81,6 +94,8 @@ namespace Serializer
 			return false;
 		}
 		
+		// Enough digits to read back the same value
+		file.precision(std::max(std::numeric_limits<Type>::max_digits10, std::numeric_limits<double>::max_digits10));
 		file << mat.rows() << " " << mat.cols() << std::endl;
 		for (int i = 0; i < mat.rows(); ++i) {
 			for (int j = 0; j < mat.cols(); ++j)
@@ -89,7 +104,7 @@ namespace Serializer
 		}
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -118,10 +133,13 @@ namespace Serializer
 			std::string cell;
 			while (std::getline(ss, cell, ',')) {
 				std::stringstream cellStream(cell);
-				Type value;
-				cellStream >> value;
+				Type value{};
+				if (!(cellStream >> value) || !(cellStream >> std::ws).eof())
+					return false;
 				row.push_back(value);
 			}
+			if (!row.empty() && !data.empty() && row.size() != data[0].size())
+				return false;
 			if (!row.empty())
 				data.push_back(row);
 		}
@@ -146,6 +164,8 @@ namespace Serializer
 		std::ofstream file(filename);
 		if (!file.is_open()) return false;
 		
+		// Enough digits to read back the same value
+		file.precision(std::max(std::numeric_limits<Type>::max_digits10, std::numeric_limits<double>::max_digits10));
 		for (int i = 0; i < mat.rows(); ++i) {
 			for (int j = 0; j < mat.cols(); ++j) {
 				file << mat(i, j);
@@ -155,7 +175,7 @@ namespace Serializer
 		}
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -207,7 +227,7 @@ namespace Serializer
 		           static_cast<std::streamsize>(rows) * cols * sizeof(Type));
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	/**
@@ -230,13 +250,13 @@ namespace Serializer
 		uint32_t magic, version, rows, cols, elemSize, reserved;
 		
 		file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
-		if (magic != BinaryFormat::MAGIC_MATRIX) {
+		if (!file || magic != BinaryFormat::MAGIC_MATRIX) {
 			std::cerr << "Error: invalid magic number in " << filename << std::endl;
 			return false;
 		}
 		
 		file.read(reinterpret_cast<char*>(&version), sizeof(version));
-		if (version != BinaryFormat::VERSION_MATRIX) {
+		if (!file || version != BinaryFormat::VERSION_MATRIX) {
 			std::cerr << "Error: unsupported version " << version << " in " << filename << std::endl;
 			return false;
 		}
@@ -246,7 +266,7 @@ namespace Serializer
 		file.read(reinterpret_cast<char*>(&elemSize), sizeof(elemSize));
 		file.read(reinterpret_cast<char*>(&reserved), sizeof(reserved));
 		
-		if (elemSize != sizeof(Type)) {
+		if (!file || elemSize != sizeof(Type)) {
 			std::cerr << "Error: element size mismatch in " << filename 
 			          << " (file: " << elemSize << ", expected: " << sizeof(Type) << ")" << std::endl;
 			return false;
@@ -256,13 +276,22 @@ namespace Serializer
 			return false;
 		}
 		
+		// The rest of the file has to be exactly the declared data
+		auto dataPos = file.tellg();
+		file.seekg(0, std::ios::end);
+		auto endPos = file.tellg();
+		file.seekg(dataPos);
+		if (!file || endPos - dataPos != static_cast<std::streamoff>(rows) * cols * static_cast<std::streamoff>(sizeof(Type))) {
+			std::cerr << "Error: size mismatch in " << filename << std::endl;
+			return false;
+		}
+		
 		// Read data
 		outMat.Resize(static_cast<int>(rows), static_cast<int>(cols));
 		file.read(reinterpret_cast<char*>(outMat.data()), 
 		          static_cast<std::streamsize>(rows) * cols * sizeof(Type));
 		
-		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	/**
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index 5ac2710..9038615 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -77,7 +77,7 @@ bool SaveComplexVector(const std::vector<std::complex<T>>& vec,
     }
     
     file.close();
-    return true;
+    return !file.fail();
 }
 
 /// @brief Load complex vector from binary file
@@ -99,13 +99,13 @@ bool LoadComplexVector(const std::string& filename,
     uint32_t magic, version, count, elemSize;
     
     file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
-    if (magic != BinaryFormat::MAGIC_VECTOR_COMPLEX) {
+    if (!file || magic != BinaryFormat::MAGIC_VECTOR_COMPLEX) {
         std::cerr << "Error: invalid magic number in " << filename << std::endl;
         return false;
     }
     
     file.read(reinterpret_cast<char*>(&version), sizeof(version));
-    if (version != BinaryFormat::VERSION_VECTOR_COMPLEX) {
+    if (!file || version != BinaryFormat::VERSION_VECTOR_COMPLEX) {
         std::cerr << "Error: unsupported version " << version << " in " << filename << std::endl;
         return false;
     }
@@ -113,7 +113,7 @@ bool LoadComplexVector(const std::string& filename,
     file.read(reinterpret_cast<char*>(&count), sizeof(count));
     file.read(reinterpret_cast<char*>(&elemSize), sizeof(elemSize));
     
-    if (elemSize != sizeof(T)) {
+    if (!file || elemSize != sizeof(T)) {
         std::cerr << "Error: element size mismatch in " << filename 
                   << " (file: " << elemSize << ", expected: " << sizeof(T) << ")" << std::endl;
         return false;
@@ -126,8 +126,8 @@ bool LoadComplexVector(const std::string& filename,
     file.seekg(currentPos);
 
     auto expectedDataSize = static_cast<std::streamoff>(count) * elemSize * 2;
-    if (fileSize - currentPos < expectedDataSize) {
-        std::cerr << "Error: file " << filename << " is too small for declared count "
+    if (!file || fileSize - currentPos != expectedDataSize) {
+        std::cerr << "Error: file " << filename << " does not match its declared count "
                   << count << " (need " << expectedDataSize << " data bytes, have "
                   << (fileSize - currentPos) << ")" << std::endl;
         return false;
@@ -151,8 +151,7 @@ bool LoadComplexVector(const std::string& filename,
         vec[i] = std::complex<T>(realParts[i], imagParts[i]);
     }
     
-    file.close();
-    return true;
+    return !file.fail();
 }
 
 /// @brief Save real vector as complex (zero imaginary parts)
-- 
2.43.0


From 9c542761c3ae79e21f32283f5c4cdb82c87440e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 08/41] fix: scaling or erasing by an element of the same
 vector or matrix; skew and Hermitian tests look at the diagonal

---
 mml/base/BaseUtils/MatrixOps.h | 2 +-
 mml/base/Matrix/Matrix.h       | 8 +++++---
 mml/base/Matrix/MatrixNM.h     | 5 +++--
 mml/base/Vector/Vector.h       | 2 +-
 mml/base/Vector/VectorN.h      | 6 ++++--
 5 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/mml/base/BaseUtils/MatrixOps.h b/mml/base/BaseUtils/MatrixOps.h
index 2a12a54..69e867e 100644
--- a/mml/base/BaseUtils/MatrixOps.h
+++ b/mml/base/BaseUtils/MatrixOps.h
@@ -424,7 +424,7 @@ namespace MML
 				throw MatrixDimensionError("IsHermitian - matrix must be square", mat.rows(), mat.cols(), -1, -1);
 
 			for (int i = 0; i < mat.rows(); i++)
-				for (int j = i + 1; j < mat.cols(); j++)
+				for (int j = i; j < mat.cols(); j++)
 					if (mat[i][j] != std::conj(mat[j][i]))
 						return false;
 			return true;
diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 2067be1..46c7627 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -707,7 +707,7 @@ namespace MML
 			if (_rows != _cols) return false;
 			
 			for (int i = 0; i < _rows; ++i) {
-				for (int j = i + 1; j < _cols; ++j) {
+				for (int j = i; j < _cols; ++j) {
 					if (IsMatrixTypeComplex()) {
 						if (Abs((*this)(i, j) + std::conj((*this)(j, i))) > eps)
 							return false;
@@ -1007,8 +1007,9 @@ namespace MML
 		/// @brief In-place scalar multiplication
 		Matrix& operator*=(const Type& scalar)
 		{
+			const Type s = scalar;   // scalar may be an element of this matrix
 			for (auto& elem : _data)
-				elem *= scalar;
+				elem *= s;
 			return *this;
 		}
 		
@@ -1024,8 +1025,9 @@ namespace MML
 		/// @brief In-place scalar division
 		Matrix& operator/=(const Type& scalar)
 		{
+			const Type s = scalar;   // scalar may be an element of this matrix
 			for (auto& elem : _data)
-				elem /= scalar;
+				elem /= s;
 			return *this;
 		}
 		
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index ca41849..b18a29d 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -187,7 +187,7 @@ namespace MML {
 		/// @endcode
 
 		MatrixNM(const Type& m) {
-			for (int i = 0; i < N; i++)
+			for (int i = 0; i < N && i < M; i++)
 				_vals[i][i] = Type{m};
 		}
 		/// /** @} */
@@ -479,11 +479,12 @@ namespace MML {
 
 		/// @brief In-place scalar multiplication (A *= b).
 		MatrixNM& operator*=(const Type& b) {
+			const Type s = b;   // b may be an element of this matrix
 			int i, j;
 
 			for (i = 0; i < rows(); i++)
 				for (j = 0; j < cols(); j++)
-					_vals[i][j] *= b;
+					_vals[i][j] *= s;
 
 			return *this;
 		}
diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 0472ecc..4badebc 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -154,7 +154,7 @@ namespace MML
 		
 		void erase(int pos)							{ _elems.erase(_elems.begin() + pos); }
 		void erase(int start, int end)	{ _elems.erase(_elems.begin() + start, _elems.begin() + end); }
-		void erase(const Type& val)			{ _elems.erase(std::remove(_elems.begin(), _elems.end(), val), _elems.end()); }
+		void erase(const Type& val)			{ const Type v = val; _elems.erase(std::remove(_elems.begin(), _elems.end(), v), _elems.end()); }
 
 		/// @brief Remove all elements
 		void Clear()	{ _elems.clear(); }
diff --git a/mml/base/Vector/VectorN.h b/mml/base/Vector/VectorN.h
index 0e01755..1c31c7f 100644
--- a/mml/base/Vector/VectorN.h
+++ b/mml/base/Vector/VectorN.h
@@ -251,8 +251,9 @@ namespace MML
 		/// @param b Scalar multiplier
 		VectorN& operator*=(const Type& b)
 		{
+			const Type s = b;   // b may be an element of this vector
 			for (int i = 0; i < N; i++)
-				_val[i] *= b;
+				_val[i] *= s;
 			return *this;
 		}
 		/// @brief Scalar division (vector / scalar).
@@ -268,8 +269,9 @@ namespace MML
 		/// @param b Scalar divisor
 		VectorN& operator/=(const Type& b)
 		{
+			const Type s = b;   // b may be an element of this vector
 			for (int i = 0; i < N; i++)
-				_val[i] /= b;
+				_val[i] /= s;
 			return *this;
 		}
 		
-- 
2.43.0


From 8c37de4ec1e58a30612252657296858b06ff9504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:59 +0000
Subject: [PATCH 09/41] fix: tridiagonal Solve accepts small scales and checks
 sizes, 2x2 tridiagonal transposes; equality ignores unused band cells;
 GetDiagonal past the corner; Matrix3D scaling by an own element

---
 mml/base/Matrix/Matrix3D.h       |  9 ++++++---
 mml/base/Matrix/MatrixBandDiag.h | 12 ++++++++++--
 mml/base/Matrix/MatrixTriDiag.h  | 19 ++++++++++++-------
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index db2389f..5e61386 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -357,19 +357,22 @@ namespace MML {
 
 		/// @brief In-place scalar multiplication.
 		Matrix3D& operator*=(const Type& scalar) {
-			for (auto& elem : _data) elem *= scalar;
+			const Type value = scalar;  // scalar may be an element of this matrix
+			for (auto& elem : _data) elem *= value;
 			return *this;
 		}
 
 		/// @brief In-place scalar division.
 		Matrix3D& operator/=(const Type& scalar) {
-			for (auto& elem : _data) elem /= scalar;
+			const Type value = scalar;  // scalar may be an element of this matrix
+			for (auto& elem : _data) elem /= value;
 			return *this;
 		}
 
 		/// @brief In-place scalar addition.
 		Matrix3D& operator+=(const Type& scalar) {
-			for (auto& elem : _data) elem += scalar;
+			const Type value = scalar;  // scalar may be an element of this matrix
+			for (auto& elem : _data) elem += value;
 			return *this;
 		}
 
diff --git a/mml/base/Matrix/MatrixBandDiag.h b/mml/base/Matrix/MatrixBandDiag.h
index 0bdff9f..cfc289d 100644
--- a/mml/base/Matrix/MatrixBandDiag.h
+++ b/mml/base/Matrix/MatrixBandDiag.h
@@ -401,7 +401,15 @@ namespace MML {
 			if (_dim != other._dim || _m1 != other._m1 || _m2 != other._m2)
 				return false;
 
-			return _data.IsEqualTo(other._data, tolerance);
+			// cells of the compact storage outside the matrix carry no value
+			for (int i = 0; i < _dim; i++) {
+				int j_start = std::max(0, i - _m1);
+				int j_end = std::min(_dim - 1, i + _m2);
+				for (int j = j_start; j <= j_end; j++)
+					if (std::abs((*this)(i, j) - other(i, j)) > tolerance)
+						return false;
+			}
+			return true;
 		}
 		/// /** @} */
 
@@ -424,7 +432,7 @@ namespace MML {
 		/// @throws IndexError If diagonal is outside the band.
 
 		Vector<Real> GetDiagonal(int k) const {
-			if (k > _m1 || k < -_m2)
+			if (k > _m1 || k < -_m2 || k >= _dim || k <= -_dim)
 				throw IndexError("BandDiagonalMatrix::GetDiagonal - Diagonal outside band");
 
 			int diag_length;
diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index 83209b0..90aa617 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -48,6 +48,8 @@ namespace MML
 
 		TridiagonalMatrix(int dim, std::initializer_list<Type> values) : _dim(dim), _belowDiag(dim), _diag(dim), _aboveDiag(dim)
 		{
+			if (dim < 2)
+				throw MatrixDimensionError("TridiagonalMatrix constructor: dimension must be >= 2");
 			if (values.size() != dim * 3 - 2)
 				throw MatrixDimensionError("TridiagonalMatrix constructor: initializer list size must be 3*dim-2");
 
@@ -98,9 +100,9 @@ namespace MML
 			for (int i = 0; i < _dim; i++) {
 				if (std::abs(_diag[i] - b._diag[i]) > eps)
 					return false;
-				if (std::abs(_belowDiag[i] - b._belowDiag[i]) > eps)
+				if (i > 0 && std::abs(_belowDiag[i] - b._belowDiag[i]) > eps)
 					return false;
-				if (std::abs(_aboveDiag[i] - b._aboveDiag[i]) > eps)
+				if (i < _dim - 1 && std::abs(_aboveDiag[i] - b._aboveDiag[i]) > eps)
 					return false;
 			}
 			return true;
@@ -196,7 +198,10 @@ namespace MML
 				newAboveDiag[i] = _belowDiag[i + 1];
 			newAboveDiag[_dim - 1] = 0.0;
 
-			return TridiagonalMatrix(_dim, newBelowDiag, _diag, newAboveDiag);
+			TridiagonalMatrix ret(*this);
+			ret._belowDiag = newBelowDiag;
+			ret._aboveDiag = newAboveDiag;
+			return ret;
 		}
 
 		TridiagonalMatrix GetInverse() const
@@ -212,6 +217,8 @@ namespace MML
 		void Solve(const Vector<Type>& rhs, Vector<Type>& sol)
 		{
 			int j, n = _belowDiag.size();
+			if (rhs.size() != n || sol.size() != n)
+				throw VectorDimensionError("TridiagonalMatrix::Solve - vector size must match matrix dimension", rhs.size() != n ? rhs.size() : sol.size(), n);
 			Type bet;  // Must be Type to work with complex matrices
 			Vector<Type> gam(n);
 
@@ -222,10 +229,8 @@ namespace MML
 				if (mag > maxDiag) maxDiag = mag;
 			}
 			Real tol = maxDiag * std::numeric_limits<Real>::epsilon();
-			if (tol < std::numeric_limits<Real>::epsilon())
-				tol = std::numeric_limits<Real>::epsilon();
 
-			if (std::abs(_diag[0]) < tol)
+			if (std::abs(_diag[0]) <= tol)
 				throw SingularMatrixError("TridiagonalMatrix::Solve - zero pivot at element 0", 0, 0);
 
 			sol[0] = rhs[0] / (bet = _diag[0]);
@@ -234,7 +239,7 @@ namespace MML
 				gam[j] = _aboveDiag[j - 1] / bet;
 				bet = _diag[j] - _belowDiag[j] * gam[j];
 
-				if (std::abs(bet) < tol)
+				if (std::abs(bet) <= tol)
 					throw SingularMatrixError("TridiagonalMatrix::Solve - zero pivot during elimination", j, j);
 
 				sol[j] = (rhs[j] - _belowDiag[j] * sol[j - 1]) / bet;
-- 
2.43.0


From 1a371be9583d454e6ff6b0ddad4dc965d0e14dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:30 +0000
Subject: [PATCH 10/41] fix: zero matrices are refused as singular, QR
 singularity judged relative to the matrix, band solver with bands wider than
 the matrix

---
 mml/base/Matrix/Matrix.h                |  2 +-
 mml/base/Matrix/MatrixNM.h              |  2 +-
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 10 +++++-----
 mml/core/LinAlgEqSolvers/LinAlgQR.h     | 22 +++++++++++++---------
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 46c7627..7392fb1 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1137,7 +1137,7 @@ namespace MML
 				indxr[i] = irow;
 				indxc[i] = icol;
 				
-				if (Abs(a(icol, icol)) < singularity_threshold)
+				if (Abs(a(icol, icol)) <= singularity_threshold)
 					throw SingularMatrixError("Matrix::Invert - Singular Matrix", Abs(a(icol, icol)));
 				
 				Type pivinv = Type{1} / a(icol, icol);
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index b18a29d..f89fec6 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -660,7 +660,7 @@ namespace MML {
 				indxr[i] = irow;
 				indxc[i] = icol;
 
-				if (std::abs(a._vals[icol][icol]) < singularity_threshold)
+				if (std::abs(a._vals[icol][icol]) <= singularity_threshold)
 					throw SingularMatrixError("MatrixNM::Invert, gaussj: Singular Matrix", std::abs(a._vals[icol][icol]));
 
 				pivinv = 1.0 / a._vals[icol][icol];
diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 3705caf..2401f6e 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -157,7 +157,7 @@ namespace MML
 				indxr[i] = irow;
 				indxc[i] = icol;
 
-				if (Abs(a[icol][icol]) < singularity_threshold)
+				if (Abs(a[icol][icol]) <= singularity_threshold)
 					throw SingularMatrixError("GaussJordanSolver::SolveInPlace - Singular Matrix", Abs(a[icol][icol]));
 
 				pivinv = Real{ 1.0 } / a[icol][icol];
@@ -708,7 +708,7 @@ namespace MML
 			int l = _m1;
 			
 			// Rearrange the storage for the initial rows
-			for (int i = 0; i < _m1; i++)
+			for (int i = 0; i < _m1 && i < _n; i++)
 			{
 				for (int j = _m1 - i; j < mm; j++)
 					_au[i][j - l] = _au[i][j];
@@ -717,7 +717,7 @@ namespace MML
 					_au[i][j] = 0.0;
 			}
 			
-			l = _m1;
+			l = std::min(_m1, _n);		// the band may be wider than the matrix
 			
 			// LU decomposition with partial pivoting
 			for (int k = 0; k < _n; k++)
@@ -738,7 +738,7 @@ namespace MML
 				
 				_indx[k] = i + 1;  // Store 1-based index for compatibility
 				
-				if (Abs(dum) < singularity_threshold)
+				if (Abs(dum) <= singularity_threshold)
 					throw SingularMatrixError("BandDiagonalSolver::ctor - Singular Matrix", Abs(dum));
 				
 				// Interchange rows if necessary
@@ -773,7 +773,7 @@ namespace MML
 				return false;
 
 			int mm = _m1 + _m2 + 1;
-			int l = _m1;
+			int l = std::min(_m1, _n);
 			
 			// Copy b to x
 			for (int i = 0; i < _n; i++)
diff --git a/mml/core/LinAlgEqSolvers/LinAlgQR.h b/mml/core/LinAlgEqSolvers/LinAlgQR.h
index 66bd518..9c8e05c 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgQR.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgQR.h
@@ -54,6 +54,17 @@ namespace MML
 			if (_m < _n)
 				throw MatrixDimensionError("QRSolver: Matrix must have m >= n (rows >= columns)", _m, _n, _m, _n);
 
+			if (_n == 0)
+				throw MatrixDimensionError("QRSolver: Matrix must be non-empty", _m, _n, -1, -1);
+
+			// Norm-scaled threshold below which a diagonal element of R is taken as zero
+			Real norm_a = 0.0;
+			for (int ii = 0; ii < _m; ii++)
+				for (int jj = 0; jj < _n; jj++)
+					if (Abs(a(ii, jj)) > norm_a)
+						norm_a = Abs(a(ii, jj));
+			Real threshold = std::numeric_limits<Real>::epsilon() * norm_a * _m;
+
 			int i, j, k;
 			Type scale, sigma, sum, tau;
 			Vector<Type> vec(_m);
@@ -69,7 +80,7 @@ namespace MML
 				for (i = k; i < _m; i++)
 					scale = std::max(scale, Abs(_QR[i][k]));
 
-				if (scale < std::numeric_limits<Real>::epsilon())
+				if (scale <= threshold)
 				{
 					// Singular case: column below diagonal is effectively zero
 					_sing = true;
@@ -113,14 +124,7 @@ namespace MML
 			if (_m == _n)
 			{
 				_d[_n - 1] = _QR[_n - 1][_n - 1];
-				// Use norm-scaled threshold instead of exact zero
-				Real norm_a = 0.0;
-				for (int ii = 0; ii < _m; ii++)
-					for (int jj = 0; jj < _n; jj++)
-						if (Abs(a(ii, jj)) > norm_a)
-							norm_a = Abs(a(ii, jj));
-				Real threshold = std::numeric_limits<Real>::epsilon() * norm_a * _n;
-				if (Abs(_d[_n - 1]) < threshold)
+				if (Abs(_d[_n - 1]) <= threshold)
 					_sing = true;
 			}
 		}
-- 
2.43.0


From 3fa0a73315b29818ffbbbddc1cb8f150b8438b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:11 +0000
Subject: [PATCH 11/41] fix: iterative solvers count the sweeps made, report
 the initial residual, accept small scales and 1x1 systems

---
 .../LinAlgEqSolvers_iterative.h               | 43 +++++++++++++------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
index 8b748d2..7181716 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
@@ -150,10 +150,9 @@ namespace MML
 			Real maxDiag = Real{0};
 			for (int i = 0; i < n; i++) { Real mag = std::abs(A(i, i)); if (mag > maxDiag) maxDiag = mag; }
 			Real diagTol = maxDiag * std::numeric_limits<Real>::epsilon();
-			if (diagTol < std::numeric_limits<Real>::epsilon()) diagTol = std::numeric_limits<Real>::epsilon();
 			for (int i = 0; i < n; i++)
 			{
-				if (std::abs(A(i, i)) < diagTol)
+				if (std::abs(A(i, i)) <= diagTol)
 					throw SingularMatrixError("JacobiSolver::Solve - near-zero diagonal element at row " + std::to_string(i));
 			}
 			
@@ -169,7 +168,8 @@ namespace MML
 			if (b_norm == 0.0) b_norm = 1.0;  // Avoid division by zero
 			
 			int iter = 0;
-			Real residual = 0.0;
+			const Real initial_residual = (A * x - b).NormL2() / b_norm;
+			Real residual = initial_residual;
 			bool converged = false;
 			
 			for (iter = 1; iter <= maxIter; iter++)
@@ -202,7 +202,12 @@ namespace MML
 				x = x_new;
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			if (!converged)
+				iter = std::max(maxIter, 0);   // every allowed iteration was performed
+
+			IterativeSolverResult result(x, iter, residual, converged);
+			result.initial_residual = initial_residual;
+			return result;
 		}
 		
 		/**
@@ -304,10 +309,9 @@ namespace MML
 			Real maxDiag = Real{0};
 			for (int i = 0; i < n; i++) { Real mag = std::abs(A(i, i)); if (mag > maxDiag) maxDiag = mag; }
 			Real diagTol = maxDiag * std::numeric_limits<Real>::epsilon();
-			if (diagTol < std::numeric_limits<Real>::epsilon()) diagTol = std::numeric_limits<Real>::epsilon();
 			for (int i = 0; i < n; i++)
 			{
-				if (std::abs(A(i, i)) < diagTol)
+				if (std::abs(A(i, i)) <= diagTol)
 					throw SingularMatrixError("GaussSeidelSolver::Solve - near-zero diagonal element at row " + std::to_string(i));
 			}
 			
@@ -322,7 +326,8 @@ namespace MML
 			if (b_norm == 0.0) b_norm = 1.0;
 			
 			int iter = 0;
-			Real residual = 0.0;
+			const Real initial_residual = (A * x - b).NormL2() / b_norm;
+			Real residual = initial_residual;
 			bool converged = false;
 			
 			for (iter = 1; iter <= maxIter; iter++)
@@ -353,7 +358,12 @@ namespace MML
 				}
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			if (!converged)
+				iter = std::max(maxIter, 0);   // every allowed iteration was performed
+
+			IterativeSolverResult result(x, iter, residual, converged);
+			result.initial_residual = initial_residual;
+			return result;
 		}
 		
 		/**
@@ -457,7 +467,7 @@ namespace MML
 		                                    int maxIter = 1000)
 		{
 			// Validate omega
-			if (omega <= 0.0 || omega >= 2.0)
+			if (!(omega > 0.0 && omega < 2.0))
 				throw NumericalMethodError("SORSolver::Solve - omega must be in (0, 2), got " + std::to_string(omega));
 			
 			int n = A.rows();
@@ -472,10 +482,9 @@ namespace MML
 			Real maxDiag = Real{0};
 			for (int i = 0; i < n; i++) { Real mag = std::abs(A(i, i)); if (mag > maxDiag) maxDiag = mag; }
 			Real diagTol = maxDiag * std::numeric_limits<Real>::epsilon();
-			if (diagTol < std::numeric_limits<Real>::epsilon()) diagTol = std::numeric_limits<Real>::epsilon();
 			for (int i = 0; i < n; i++)
 			{
-				if (std::abs(A(i, i)) < diagTol)
+				if (std::abs(A(i, i)) <= diagTol)
 					throw SingularMatrixError("SORSolver::Solve - near-zero diagonal element at row " + std::to_string(i));
 			}
 			
@@ -490,7 +499,8 @@ namespace MML
 			if (b_norm == 0.0) b_norm = 1.0;
 			
 			int iter = 0;
-			Real residual = 0.0;
+			const Real initial_residual = (A * x - b).NormL2() / b_norm;
+			Real residual = initial_residual;
 			bool converged = false;
 			
 			for (iter = 1; iter <= maxIter; iter++)
@@ -525,7 +535,12 @@ namespace MML
 				}
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			if (!converged)
+				iter = std::max(maxIter, 0);   // every allowed iteration was performed
+
+			IterativeSolverResult result(x, iter, residual, converged);
+			result.initial_residual = initial_residual;
+			return result;
 		}
 		
 		/**
@@ -542,7 +557,7 @@ namespace MML
 		                                           int maxIter = 1000)
 		{
 			int n = A.rows();
-			Real omega = 2.0 / (1.0 + std::sin(Constants::PI / n));
+			Real omega = n > 1 ? 2.0 / (1.0 + std::sin(Constants::PI / n)) : 1.0;
 			return Solve(A, b, omega, x0, tol, maxIter);
 		}
 		
-- 
2.43.0


From fbfb812d71fa1185e4094a376536374deae40456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:58 +0000
Subject: [PATCH 12/41] fix: tensor variance kept per position by arithmetic,
 setContravar and index moves; negative index counts and same-variance moves
 refused

---
 mml/base/Tensor.h       | 60 ++++++++++++++++++++++++++++++-----------
 mml/core/MetricTensor.h | 24 ++++++++++++-----
 2 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/mml/base/Tensor.h b/mml/base/Tensor.h
index 9f80f4c..62874bd 100644
--- a/mml/base/Tensor.h
+++ b/mml/base/Tensor.h
@@ -95,6 +95,12 @@ namespace MML
 		int _numContravar = 0;         ///< Number of contravariant (upper) indices
 		int _numCovar = 0;             ///< Number of covariant (lower) indices
 		bool _isContravar[2];          ///< Per-index variance: true = contravariant, false = covariant
+		/// @brief Check that both tensors have the same variance at every index position
+		bool hasSameVariance(const Tensor2& other) const
+		{
+			return _isContravar[0] == other._isContravar[0] && _isContravar[1] == other._isContravar[1];
+		}
+
 	public:
 
 		///////////////////////////////////////////////////////////////////////
@@ -170,7 +176,13 @@ namespace MML
 		bool IsCovar(int i) const			{ return !_isContravar[i]; }
 
 		/// @brief Sets the variance of index i.
-		void setContravar(int i, bool val) { _isContravar[i] = val; }
+		void setContravar(int i, bool val) {
+			if (_isContravar[i] != val) {
+				_numContravar += val ? 1 : -1;
+				_numCovar += val ? -1 : 1;
+			}
+			_isContravar[i] = val;
+		}
 
 		///////////////////////////////////////////////////////////////////////
 		///                        Element Access                           ///
@@ -226,10 +238,10 @@ namespace MML
 		/// @throws TensorCovarContravarArithmeticError if index variance doesn't match
 		Tensor2 operator+(const Tensor2& other) const
 		{
-			if (_numContravar != other._numContravar || _numCovar != other._numCovar)
+			if (!hasSameVariance(other))
 				throw TensorCovarContravarArithmeticError("Tensor2 operator+, wrong number of contravariant and covariant indices", _numContravar, _numCovar, other._numContravar, other._numCovar);
 
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff + other._coeff;
 
@@ -240,10 +252,10 @@ namespace MML
 		/// @throws TensorCovarContravarArithmeticError if index variance doesn't match
 		Tensor2 operator-(const Tensor2& other) const
 		{
-			if (_numContravar != other._numContravar || _numCovar != other._numCovar)
+			if (!hasSameVariance(other))
 				throw TensorCovarContravarArithmeticError("Tensor2 operator-, wrong number of contravariant and covariant indices", _numContravar, _numCovar, other._numContravar, other._numCovar);
 
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff - other._coeff;
 
@@ -253,7 +265,7 @@ namespace MML
 		/// @brief Multiply tensor by a scalar.
 		Tensor2 operator*(Real scalar) const
 		{
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff * scalar;
 
@@ -263,7 +275,7 @@ namespace MML
 		/// @brief Divide tensor by a scalar.
 		Tensor2 operator/(Real scalar) const
 		{
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff / scalar;
 
@@ -273,7 +285,7 @@ namespace MML
 		/// @brief Scalar multiplication from the left (scalar * tensor).
 		friend Tensor2 operator*(Real scalar, const Tensor2& b)
 		{
-			Tensor2 result(b.NumCovar(), b.NumContravar());
+			Tensor2 result(b);
 
 			result._coeff = b._coeff * scalar;
 
@@ -386,7 +398,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 3
 		Tensor3(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar)
 		{
-			if (_numContravar + _numCovar != 3)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 3)
 				throw TensorCovarContravarNumError("Tensor3 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -403,7 +415,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 3
 		Tensor3(int nCovar, int nContraVar, std::initializer_list<Real> values) : _numContravar(nContraVar), _numCovar(nCovar)
 		{
-			if (_numContravar + _numCovar != 3)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 3)
 				throw TensorCovarContravarNumError("Tensor3 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 			
 			for (int i = 0; i < _numCovar; i++)
@@ -442,7 +454,13 @@ namespace MML
 		bool IsCovar(int i) const { return !_isContravar[i]; }
 
 		/// @brief Sets the variance of index i.
-		void setContravar(int i, bool val) { _isContravar[i] = val; }
+		void setContravar(int i, bool val) {
+			if (_isContravar[i] != val) {
+				_numContravar += val ? 1 : -1;
+				_numCovar += val ? -1 : 1;
+			}
+			_isContravar[i] = val;
+		}
 
 		///////////////////////////////////////////////////////////////////////
 		///                        Element Access                           ///
@@ -584,7 +602,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 4
 		Tensor4(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar) 
 		{
-			if (_numContravar + _numCovar != 4)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 4)
 				throw TensorCovarContravarNumError("Tensor4 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -611,7 +629,13 @@ namespace MML
 		bool IsCovar(int i) const { return !_isContravar[i]; }
 
 		/// @brief Sets the variance of index i.
-		void setContravar(int i, bool val) { _isContravar[i] = val; }
+		void setContravar(int i, bool val) {
+			if (_isContravar[i] != val) {
+				_numContravar += val ? 1 : -1;
+				_numCovar += val ? -1 : 1;
+			}
+			_isContravar[i] = val;
+		}
 
 		///////////////////////////////////////////////////////////////////////
 		///                        Element Access                           ///
@@ -775,7 +799,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 5
 		Tensor5(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar) 
 		{
-			if (_numContravar + _numCovar != 5)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 5)
 				throw TensorCovarContravarNumError("Tensor5 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -803,7 +827,13 @@ namespace MML
 		bool IsCovar(int i) const { return !_isContravar[i]; }
 
 		/// @brief Sets the variance of index i.
-		void setContravar(int i, bool val) { _isContravar[i] = val; }
+		void setContravar(int i, bool val) {
+			if (_isContravar[i] != val) {
+				_numContravar += val ? 1 : -1;
+				_numCovar += val ? -1 : 1;
+			}
+			_isContravar[i] = val;
+		}
 
 		///////////////////////////////////////////////////////////////////////
 		///                        Element Access                           ///
diff --git a/mml/core/MetricTensor.h b/mml/core/MetricTensor.h
index c3a0005..df2330f 100644
--- a/mml/core/MetricTensor.h
+++ b/mml/core/MetricTensor.h
@@ -135,14 +135,20 @@ namespace MML
 		}
 
 		/// @brief Raise one index of a rank-2 tensor: T^i_j = gⁱᵏ T_kj
-		/// @param t Rank-2 covariant tensor T_ij (must have numContravar == 0)
+		/// @param t Rank-2 tensor whose index index_to_raise is covariant
 		/// @param index_to_raise Which index to raise (0 or 1)
 		/// @param pos Position where metric is evaluated
-		/// @return Mixed tensor with one raised index
+		/// @return Tensor with that index raised
 		Tensor2<N> RaiseIndex(const Tensor2<N>& t, int index_to_raise, const VectorN<Real, N>& pos) const
 		{
 			MatrixNM<Real, N, N> g_inv = GetContravariantMetric(pos);
-			Tensor2<N> result(1, 1);  // one covariant, one contravariant
+			if (index_to_raise < 0 || index_to_raise > 1)
+				throw TensorIndexError("MetricTensorField::RaiseIndex - index out of range [0,1]");
+			if (t.IsContravar(index_to_raise) == true)
+				throw TensorCovarContravarNumError("MetricTensorField::RaiseIndex - index is already contravariant", t.NumContravar(), t.NumCovar());
+
+			Tensor2<N> result(t);
+			result.setContravar(index_to_raise, true);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++) {
@@ -159,14 +165,20 @@ namespace MML
 		}
 
 		/// @brief Lower one index of a rank-2 tensor: T_ij = g_ik T^k_j
-		/// @param t Rank-2 tensor with at least one contravariant index
+		/// @param t Rank-2 tensor whose index index_to_lower is contravariant
 		/// @param index_to_lower Which index to lower (0 or 1)
 		/// @param pos Position where metric is evaluated
-		/// @return Tensor with one lowered index
+		/// @return Tensor with that index lowered
 		Tensor2<N> LowerIndex(const Tensor2<N>& t, int index_to_lower, const VectorN<Real, N>& pos) const
 		{
 			MatrixNM<Real, N, N> g = GetCovariantMetric(pos);
-			Tensor2<N> result(1, 1);  // one covariant, one contravariant
+			if (index_to_lower < 0 || index_to_lower > 1)
+				throw TensorIndexError("MetricTensorField::LowerIndex - index out of range [0,1]");
+			if (t.IsContravar(index_to_lower) == false)
+				throw TensorCovarContravarNumError("MetricTensorField::LowerIndex - index is already covariant", t.NumContravar(), t.NumCovar());
+
+			Tensor2<N> result(t);
+			result.setContravar(index_to_lower, false);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++) {
-- 
2.43.0


From 3a523d469e7a3b03d37aa4c63bc7a629c066b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:28 +0000
Subject: [PATCH 13/41] fix: statistics of degenerate samples refused, mean of
 equal observations exact, ties by equality

---
 mml/algorithms/Statistics.h                   | 29 ++++++++++---------
 .../Statistics/StatisticsConfidence.h         | 10 +++----
 .../Statistics/StatisticsHypothesis.h         | 26 ++++++++++++-----
 mml/algorithms/Statistics/StatisticsRank.h    |  7 ++---
 4 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/mml/algorithms/Statistics.h b/mml/algorithms/Statistics.h
index 26e118b..8b29e77 100644
--- a/mml/algorithms/Statistics.h
+++ b/mml/algorithms/Statistics.h
@@ -34,6 +34,12 @@ namespace MML {
 				outAvg += data[j];
 			outAvg /= n;
 
+			// one correction step: the mean of equal observations is exactly their value
+			Real rest = 0.0;
+			for (int j = 0; j < n; j++)
+				rest += data[j] - outAvg;
+			outAvg += rest / n;
+
 			return outAvg;
 		}
 
@@ -42,8 +48,8 @@ namespace MML {
 			Real s, ep;
 			int j, n = data.size();
 
-			if (n <= 0)
-				throw StatisticsError("Vector size must be greater than 0 in AvgVar");
+			if (n <= 1)
+				throw StatisticsError("Vector size must be greater than 1 in AvgVar");
 
 			outAvg = Avg(data);
 
@@ -58,8 +64,8 @@ namespace MML {
 		static void AvgStdDev(const Vector<Real>& data, Real& outAvg, Real& outStdDev) {
 			Real var;
 			int n = data.size();
-			if (n <= 0)
-				throw StatisticsError("Vector size must be greater than 0 in AvgStdDev");
+			if (n <= 1)
+				throw StatisticsError("Vector size must be greater than 1 in AvgStdDev");
 			AvgVar(data, outAvg, var);
 			outStdDev = sqrt(var);
 		}
@@ -87,10 +93,7 @@ namespace MML {
 			if (n <= 1)
 				throw StatisticsError("Vector size must be greater than 1 in Moments");
 
-			s = 0.0;
-			for (j = 0; j < n; j++)
-				s += data[j];
-			ave = s / n;
+			ave = Avg(data);
 
 			adev = var = skew = curt = 0.0;
 			for (j = 0; j < n; j++) {
@@ -157,7 +160,7 @@ namespace MML {
 			int n = data.size();
 			if (n <= 0)
 				throw StatisticsError("Vector size must be greater than 0 in Percentile");
-			if (p < 0.0 || p > 100.0)
+			if (!(p >= 0.0 && p <= 100.0))
 				throw StatisticsError("Percentile must be in range [0, 100]");
 
 			// Create a sorted copy
@@ -341,7 +344,7 @@ namespace MML {
 			int n = data.size();
 			if (n <= 0)
 				throw StatisticsError("Vector size must be greater than 0 in TrimmedMean");
-			if (trimPercent < 0.0 || trimPercent >= 50.0)
+			if (!(trimPercent >= 0.0 && trimPercent < 50.0))
 				throw StatisticsError("trimPercent must be in range [0, 50) in TrimmedMean");
 
 			// Create a sorted copy
@@ -682,10 +685,10 @@ namespace MML {
 			// Compute means for each variable
 			Vector<Real> means(p);
 			for (int j = 0; j < p; j++) {
-				Real sum = 0.0;
+				Vector<Real> column(n);
 				for (int i = 0; i < n; i++)
-					sum += data(i, j);
-				means[j] = sum / n;
+					column[i] = data(i, j);
+				means[j] = Avg(column);
 			}
 
 			// Compute covariance matrix
diff --git a/mml/algorithms/Statistics/StatisticsConfidence.h b/mml/algorithms/Statistics/StatisticsConfidence.h
index e1361d0..171d0ac 100644
--- a/mml/algorithms/Statistics/StatisticsConfidence.h
+++ b/mml/algorithms/Statistics/StatisticsConfidence.h
@@ -48,7 +48,7 @@ namespace MML {
 			if (sample.size() < 2)
 				throw StatisticsError("ConfidenceIntervalMean requires at least 2 samples");
 
-			if (confidenceLevel <= 0.0 || confidenceLevel >= 1.0)
+			if (!(confidenceLevel > 0.0 && confidenceLevel < 1.0))
 				throw StatisticsError("Confidence level must be in (0, 1)");
 
 			Real sampleMean = Mean(sample);
@@ -86,7 +86,7 @@ namespace MML {
 			if (sample1.size() < 2 || sample2.size() < 2)
 				throw StatisticsError("ConfidenceIntervalMeanDifference requires at least 2 samples per group");
 
-			if (confidenceLevel <= 0.0 || confidenceLevel >= 1.0)
+			if (!(confidenceLevel > 0.0 && confidenceLevel < 1.0))
 				throw StatisticsError("Confidence level must be in (0, 1)");
 
 			Real mean1 = Mean(sample1);
@@ -138,7 +138,7 @@ namespace MML {
 			if (successes < 0 || successes > trials)
 				throw StatisticsError("Successes must be between 0 and trials");
 
-			if (confidenceLevel <= 0.0 || confidenceLevel >= 1.0)
+			if (!(confidenceLevel > 0.0 && confidenceLevel < 1.0))
 				throw StatisticsError("Confidence level must be in (0, 1)");
 
 			// Sample proportion
@@ -183,7 +183,7 @@ namespace MML {
 			if (successes1 < 0 || successes1 > trials1 || successes2 < 0 || successes2 > trials2)
 				throw StatisticsError("Successes must be between 0 and trials");
 
-			if (confidenceLevel <= 0.0 || confidenceLevel >= 1.0)
+			if (!(confidenceLevel > 0.0 && confidenceLevel < 1.0))
 				throw StatisticsError("Confidence level must be in (0, 1)");
 
 			// Sample proportions
@@ -226,7 +226,7 @@ namespace MML {
 			if (before.size() < 2)
 				throw StatisticsError("ConfidenceIntervalPairedDifference requires at least 2 pairs");
 
-			if (confidenceLevel <= 0.0 || confidenceLevel >= 1.0)
+			if (!(confidenceLevel > 0.0 && confidenceLevel < 1.0))
 				throw StatisticsError("Confidence level must be in (0, 1)");
 
 			// Compute differences
diff --git a/mml/algorithms/Statistics/StatisticsHypothesis.h b/mml/algorithms/Statistics/StatisticsHypothesis.h
index 80b5b23..d856adc 100644
--- a/mml/algorithms/Statistics/StatisticsHypothesis.h
+++ b/mml/algorithms/Statistics/StatisticsHypothesis.h
@@ -75,7 +75,7 @@ namespace MML
 			if (sample.size() < 2)
 				throw StatisticsError("OneSampleTTest requires at least 2 samples");
 
-			if (alpha <= 0.0 || alpha >= 1.0)
+			if (!(alpha > 0.0 && alpha < 1.0))
 				throw StatisticsError("Significance level alpha must be in (0, 1)");
 
 			// Compute sample statistics
@@ -149,7 +149,7 @@ namespace MML
 			if (sample1.size() < 2 || sample2.size() < 2)
 				throw StatisticsError("TwoSampleTTest requires at least 2 samples in each group");
 
-			if (alpha <= 0.0 || alpha >= 1.0)
+			if (!(alpha > 0.0 && alpha < 1.0))
 				throw StatisticsError("Significance level alpha must be in (0, 1)");
 
 			// Compute sample statistics
@@ -166,6 +166,8 @@ namespace MML
 
 			// Standard error
 			Real standardError = pooledStd * std::sqrt(1.0 / n1 + 1.0 / n2);
+			if (standardError == 0.0)
+				throw StatisticsError("TwoSampleTTest requires some variation within the samples");
 
 			// t-statistic
 			Real tStatistic = (mean1 - mean2) / standardError;
@@ -218,7 +220,7 @@ namespace MML
 			if (sample1.size() < 2 || sample2.size() < 2)
 				throw StatisticsError("WelchTTest requires at least 2 samples in each group");
 
-			if (alpha <= 0.0 || alpha >= 1.0)
+			if (!(alpha > 0.0 && alpha < 1.0))
 				throw StatisticsError("Significance level alpha must be in (0, 1)");
 
 			// Compute sample statistics
@@ -233,6 +235,8 @@ namespace MML
 			Real se1 = var1 / n1;
 			Real se2 = var2 / n2;
 			Real standardError = std::sqrt(se1 + se2);
+			if (standardError == 0.0)
+				throw StatisticsError("WelchTTest requires some variation within the samples");
 
 			// t-statistic
 			Real tStatistic = (mean1 - mean2) / standardError;
@@ -292,7 +296,7 @@ namespace MML
 			if (before.size() < 2)
 				throw StatisticsError("PairedTTest requires at least 2 pairs");
 
-			if (alpha <= 0.0 || alpha >= 1.0)
+			if (!(alpha > 0.0 && alpha < 1.0))
 				throw StatisticsError("Significance level alpha must be in (0, 1)");
 
 			// Compute differences
@@ -337,7 +341,7 @@ namespace MML
 			if (expected.size() != n)
 				throw StatisticsError("Observed and expected must have the same size");
 
-			if (alpha <= 0.0 || alpha >= 1.0)
+			if (!(alpha > 0.0 && alpha < 1.0))
 				throw StatisticsError("Significance level alpha must be in (0, 1)");
 
 			// Validate frequencies
@@ -411,7 +415,7 @@ namespace MML
 			if (rows < 2 || cols < 2)
 				throw StatisticsError("ChiSquareIndependence requires at least 2x2 table");
 
-			if (alpha <= 0.0 || alpha >= 1.0)
+			if (!(alpha > 0.0 && alpha < 1.0))
 				throw StatisticsError("Significance level alpha must be in (0, 1)");
 
 			// Compute row and column totals
@@ -438,6 +442,12 @@ namespace MML
 
 			if (grandTotal <= 0.0)
 				throw StatisticsError("Table must have positive total frequency");
+			for (int i = 0; i < rows; i++)
+				if (rowTotals[i] <= 0.0)
+					throw StatisticsError("Every row must have positive total frequency");
+			for (int j = 0; j < cols; j++)
+				if (colTotals[j] <= 0.0)
+					throw StatisticsError("Every column must have positive total frequency");
 
 			// Compute chi-square statistic
 			Real chiSquare = 0.0;
@@ -505,7 +515,7 @@ namespace MML
 			if (k < 2)
 				throw StatisticsError("OneWayANOVA requires at least 2 groups");
 
-			if (alpha <= 0.0 || alpha >= 1.0)
+			if (!(alpha > 0.0 && alpha < 1.0))
 				throw StatisticsError("Significance level alpha must be in (0, 1)");
 
 			// Validate groups and compute total sample size
@@ -553,6 +563,8 @@ namespace MML
 			// Mean squares
 			Real MSB = SSB / df_between;      // Mean square between
 			Real MSW = SSW / df_within;       // Mean square within
+			if (MSW == 0.0)
+				throw StatisticsError("OneWayANOVA requires some variation within the groups");
 
 			// F-statistic
 			Real F = MSB / MSW;
diff --git a/mml/algorithms/Statistics/StatisticsRank.h b/mml/algorithms/Statistics/StatisticsRank.h
index 50a0a91..9cf8565 100644
--- a/mml/algorithms/Statistics/StatisticsRank.h
+++ b/mml/algorithms/Statistics/StatisticsRank.h
@@ -47,7 +47,7 @@ namespace MML
 			while (i < n) {
 				int j = i;
 				// Find extent of tied values
-				while (j < n - 1 && std::abs(data[indices[j + 1]] - data[indices[i]]) < 1e-14)
+				while (j < n - 1 && data[indices[j + 1]] == data[indices[i]])
 					j++;
 
 				// Average rank for tied values
@@ -170,7 +170,6 @@ namespace MML
 			long long tiedX = 0;
 			long long tiedY = 0;
 
-			const Real eps = 1e-14;
 
 			// Count all pairs
 			for (int i = 0; i < n - 1; i++) {
@@ -178,8 +177,8 @@ namespace MML
 					Real dx = x[j] - x[i];
 					Real dy = y[j] - y[i];
 
-					bool xTied = std::abs(dx) < eps;
-					bool yTied = std::abs(dy) < eps;
+					bool xTied = dx == 0.0;
+					bool yTied = dy == 0.0;
 
 					if (xTied && yTied) {
 						// Both tied - don't count
-- 
2.43.0


From 467b1d100ed92b7dac0972bc79ac2a5fd2d549f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:51 +0000
Subject: [PATCH 14/41] fix: quantiles and critical values bracketed, series
 run to convergence, tails without cancellation, NaN parameters refused

---
 mml/algorithms/Statistics/Distributions.h | 214 ++++++++++------------
 1 file changed, 98 insertions(+), 116 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 20c8eeb..2dcbbf1 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -17,6 +17,33 @@ namespace MML
 {
 	namespace Statistics
 	{
+		namespace DistributionDetail
+		{
+			/// Solves cdf(x) = p on [lo, hi] by Newton steps that stay inside a shrinking bracket.
+			template<typename Dist>
+			Real InvertCdf(const Dist& dist, Real p, Real lo, Real hi, Real x)
+			{
+				Real width = hi - lo;
+				for (int iter = 0; iter < 2000; iter++) {
+					Real f = dist.cdf(x) - p;
+					if (f == 0.0)
+						return x;
+					if (f < 0.0) lo = x;
+					else hi = x;
+
+					Real next = x - f / dist.pdf(x);
+					if (!(next > lo && next < hi) || (iter % 4 == 3 && hi - lo > 0.5 * width))
+						next = lo + 0.5 * (hi - lo);
+					if (iter % 4 == 3)
+						width = hi - lo;
+					if (next == x || next == lo || next == hi)
+						return next;
+					x = next;
+				}
+				return x;
+			}
+		}
+
 		/// @brief Normal (Gaussian) distribution
 		/// The normal distribution is the most important continuous distribution,
 		/// central to the Central Limit Theorem and statistical inference.
@@ -35,7 +62,7 @@ namespace MML
 			NormalDistribution(Real mean = 0.0, Real stddev = 1.0)
 				: mu(mean), sigma(stddev)
 			{
-				if (sigma <= 0.0)
+				if (!(sigma > 0.0))
 					throw StatisticsError("Standard deviation must be positive in NormalDistribution");
 			}
 
@@ -69,7 +96,7 @@ namespace MML
 			/// @return Value x such that P(X <= x) = p
 			Real inverseCdf(Real p) const
 			{
-				if (p <= 0.0 || p >= 1.0)
+				if (!(p > 0.0 && p < 1.0))
 					throw StatisticsError("Probability must be in (0, 1) in NormalDistribution::inverseCdf");
 
 				// Use rational approximation for inverse normal CDF
@@ -111,7 +138,7 @@ namespace MML
 			/// with refinement for tails. Accurate to ~1e-9.
 			static Real inverseStandardNormalCdf(Real p)
 			{
-				if (p <= 0.0 || p >= 1.0)
+				if (!(p > 0.0 && p < 1.0))
 					throw StatisticsError("Probability must be in (0, 1) in inverseStandardNormalCdf");
 
 				// Coefficients for rational approximation
@@ -273,10 +300,13 @@ namespace MML
 				
 				Real absX = std::abs(x);
 				Real x2 = absX * absX;
-				Real xBeta = nu / (nu + x2);
-				Real betaReg = incompleteBetaRegularized(xBeta, nu / 2.0, 0.5);
+				Real tail;   // P(T > |x|), from whichever of nu and x^2 leaves the small part exact
+				if (x2 < nu)
+					tail = 0.5 - 0.5 * incompleteBetaRegularized(x2 / (nu + x2), 0.5, nu / 2.0);
+				else
+					tail = 0.5 * incompleteBetaRegularized(nu / (nu + x2), nu / 2.0, 0.5);
 				
-				Real result = 1.0 - 0.5 * betaReg;
+				Real result = 1.0 - tail;
 				
 				// If x < 0, use symmetry
 				if (x < 0.0)
@@ -293,7 +323,7 @@ namespace MML
 			/// @return Value t such that P(T <= t) = p
 			Real inverseCdf(Real p) const
 			{
-				if (p <= 0.0 || p >= 1.0)
+				if (!(p > 0.0 && p < 1.0))
 					throw StatisticsError("Probability must be in (0, 1) in TDistribution::inverseCdf");
 
 				if (p == 0.5)
@@ -308,22 +338,11 @@ namespace MML
 				// Start with normal approximation
 				Real t = StandardNormal::inverseCdf(p);
 				
-				// Refine with Newton-Raphson
-				for (int iter = 0; iter < 10; iter++) {
-					Real f = cdf(t) - p;
-					Real fprime = pdf(t);
-					
-					if (std::abs(fprime) < 1e-14)
-						break;
-					
-					Real delta = f / fprime;
-					t -= delta;
-					
-					if (std::abs(delta) < Precision::DefaultToleranceStrict)
-						break;
-				}
-				
-				return t;
+				// Refine with Newton-Raphson inside a bracket
+				Real lo = std::min(t, Real(-1.0)), hi = std::max(t, Real(1.0));
+				while (cdf(lo) > p) lo *= 2.0;
+				while (cdf(hi) < p) hi *= 2.0;
+				return DistributionDetail::InvertCdf(*this, p, lo, hi, t);
 			}
 
 			/// @brief Survival function: P(T > t)
@@ -348,7 +367,7 @@ namespace MML
 			/// @return Critical value t*
 			Real criticalValue(Real alpha) const
 			{
-				if (alpha <= 0.0 || alpha >= 1.0)
+				if (!(alpha > 0.0 && alpha < 1.0))
 					throw StatisticsError("Alpha must be in (0, 1) in TDistribution::criticalValue");
 				
 				// Two-tailed: find t* where P(T > t*) = alpha/2
@@ -407,7 +426,7 @@ namespace MML
 				// Formula from Numerical Recipes (Press et al.)
 				const Real fpmin = 1.0e-30;
 				const Real eps = 1.0e-15;
-				const int maxIter = 200;
+				const int maxIter = 100000;
 				
 				Real qab = a + b;
 				Real qap = a + 1.0;
@@ -478,7 +497,7 @@ namespace MML
 			Real pdf(Real x) const
 			{
 				if (x < 0.0) return 0.0;
-				if (x == 0.0) return (_df == 2) ? 0.5 : 0.0;
+				if (x == 0.0) return (_df == 1) ? std::numeric_limits<Real>::infinity() : (_df == 2) ? 0.5 : 0.0;
 
 				Real k2 = _df / 2.0;
 				return std::exp((k2 - 1.0) * std::log(x) - x / 2.0 - k2 * std::log(2.0) - std::lgamma(k2));
@@ -508,30 +527,13 @@ namespace MML
 			/// Returns x such that P(X ≥ x) = alpha
 			Real criticalValue(Real alpha) const
 			{
-				if (alpha <= 0.0 || alpha >= 1.0)
+				if (!(alpha > 0.0 && alpha < 1.0))
 					throw StatisticsError("Alpha must be in (0, 1)");
 
-				// Find x where CDF(x) = 1 - alpha using binary search
-				Real low = 0.0;
-				Real high = mean() + 10.0 * stddev();  // Start with reasonable upper bound
-				Real tolerance = 1e-9;
-				int maxIterations = 100;
-
-				for (int iter = 0; iter < maxIterations; iter++) {
-					Real mid = (low + high) / 2.0;
-					Real cdf_mid = cdf(mid);
-					Real target = 1.0 - alpha;
-
-					if (std::abs(cdf_mid - target) < tolerance)
-						return mid;
-
-					if (cdf_mid < target)
-						low = mid;
-					else
-						high = mid;
-				}
-
-				return (low + high) / 2.0;
+				// Find x where CDF(x) = 1 - alpha
+				Real high = mean() + 10.0 * stddev();
+				while (cdf(high) < 1.0 - alpha) high *= 2.0;
+				return DistributionDetail::InvertCdf(*this, 1.0 - alpha, Real(0.0), high, mean());
 			}
 
 		private:
@@ -562,7 +564,7 @@ namespace MML
 				Real term = 1.0 / a;
 				Real tolerance = 1e-12;
 
-				for (int n = 1; n <= 1000; n++) {
+				for (int n = 1; n <= 100000; n++) {
 					term *= x / (a + n);
 					sum += term;
 
@@ -584,7 +586,7 @@ namespace MML
 				Real d = 1.0 / b;
 				Real h = d;
 
-				for (int i = 1; i <= 1000; i++) {
+				for (int i = 1; i <= 100000; i++) {
 					Real an = -i * (i - a);
 					b += 2.0;
 					d = an * d + b;
@@ -653,7 +655,7 @@ namespace MML
       Real pdf(Real x) const
       {
         if (x < 0.0) return 0.0;
-        if (x == 0.0) return (_df1 == 2) ? 1.0 : 0.0;
+        if (x == 0.0) return (_df1 == 1) ? std::numeric_limits<Real>::infinity() : (_df1 == 2) ? 1.0 : 0.0;
 
         Real d1 = _df1 / 2.0;
         Real d2 = _df2 / 2.0;
@@ -676,6 +678,9 @@ namespace MML
 
         // F-CDF = I_y(df1/2, df2/2) where y = (df1*x)/(df1*x + df2)
         // I is regularized incomplete beta function
+        // from whichever of the two parts is smaller, to keep its digits
+        if (_df1 * x > _df2)
+          return 1.0 - incompleteBeta(_df2 / 2.0, _df1 / 2.0, _df2 / (_df1 * x + _df2));
         Real y = (_df1 * x) / (_df1 * x + _df2);
         return incompleteBeta(_df1 / 2.0, _df2 / 2.0, y);
       }
@@ -693,29 +698,13 @@ namespace MML
       /// Returns f such that P(F ≥ f) = alpha
       Real criticalValue(Real alpha) const
       {
-        if (alpha <= 0.0 || alpha >= 1.0)
+        if (!(alpha > 0.0 && alpha < 1.0))
           throw StatisticsError("Alpha must be in (0, 1)");
 
-        // Binary search for critical value
-        Real low = 0.0;
-        Real high = 100.0;  // Start with reasonable upper bound
-        Real tolerance = 1e-9;
-        int maxIterations = 100;
-
-        for (int iter = 0; iter < maxIterations; iter++) {
-          Real mid = (low + high) / 2.0;
-          Real pValue = rightTailPValue(mid);
-
-          if (std::abs(pValue - alpha) < tolerance)
-            return mid;
-
-          if (pValue > alpha)  // Need larger F
-            low = mid;
-          else  // Need smaller F
-            high = mid;
-        }
-
-        return (low + high) / 2.0;
+        // Find x where CDF(x) = 1 - alpha
+        Real high = 100.0;
+        while (cdf(high) < 1.0 - alpha) high *= 2.0;
+        return DistributionDetail::InvertCdf(*this, 1.0 - alpha, Real(0.0), high, Real(1.0));
       }
 
     private:
@@ -757,7 +746,7 @@ namespace MML
         d = 1.0 / d;
         Real h = d;
 
-        for (int m = 1; m <= 1000; m++) {
+        for (int m = 1; m <= 100000; m++) {
           int m2 = 2 * m;
           Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
           d = 1.0 + aa * d;
@@ -797,7 +786,7 @@ namespace MML
 			CauchyDistribution(Real location = 0.0, Real scale = 1.0) 
 				: mu(location), sigma(scale)
 			{
-				if (sigma <= 0.0)
+				if (!(sigma > 0.0))
 					throw StatisticsError("Scale parameter must be positive in CauchyDistribution");
 			}
 
@@ -826,7 +815,7 @@ namespace MML
 			/// @return Value x such that P(X <= x) = p
 			Real inverseCdf(Real p) const
 			{
-				if (p <= 0.0 || p >= 1.0)
+				if (!(p > 0.0 && p < 1.0))
 					throw StatisticsError("Probability must be in (0, 1) in CauchyDistribution::inverseCdf");
 				return mu + sigma * std::tan(Constants::PI * (p - 0.5));
 			}
@@ -842,7 +831,7 @@ namespace MML
 			/// @param rate Rate parameter λ (must be > 0)
 			ExponentialDistribution(Real rate) : lambda(rate)
 			{
-				if (lambda <= 0.0)
+				if (!(lambda > 0.0))
 					throw StatisticsError("Rate parameter must be positive in ExponentialDistribution");
 			}
 
@@ -871,7 +860,7 @@ namespace MML
 			/// @return Value x such that P(X <= x) = p
 			Real inverseCdf(Real p) const
 			{
-				if (p < 0.0 || p >= 1.0)
+				if (!(p >= 0.0 && p < 1.0))
 					throw StatisticsError("Probability must be in [0, 1) in ExponentialDistribution::inverseCdf");
 				return -std::log(1.0 - p) / lambda;
 			}
@@ -898,7 +887,7 @@ namespace MML
 			LogisticDistribution(Real location = 0.0, Real scale = 1.0)
 				: mu(location), sigma(scale)
 			{
-				if (sigma <= 0.0)
+				if (!(sigma > 0.0))
 					throw StatisticsError("Scale parameter must be positive in LogisticDistribution");
 			}
 
@@ -911,7 +900,7 @@ namespace MML
 				// Standard logistic PDF: f(x) = e^(-z) / (σ(1 + e^(-z))²)
 				// where z = (x - μ) / σ
 				Real z = (x - mu) / sigma;
-				Real exp_neg_z = std::exp(-z);
+				Real exp_neg_z = std::exp(-std::abs(z));  // the density is symmetric
 				Real denom = 1.0 + exp_neg_z;
 				return exp_neg_z / (sigma * denom * denom);
 			}
@@ -938,7 +927,7 @@ namespace MML
 			/// @return Value x such that P(X <= x) = p
 			Real inverseCdf(Real p) const
 			{
-				if (p <= 0.0 || p >= 1.0)
+				if (!(p > 0.0 && p < 1.0))
 					throw StatisticsError("Probability must be in (0, 1) in LogisticDistribution::inverseCdf");
 				return mu + sigma * std::log(p / (1.0 - p));
 			}
@@ -972,7 +961,7 @@ namespace MML
 			UniformDistribution(Real lower = 0.0, Real upper = 1.0)
 				: a(lower), b(upper)
 			{
-				if (b <= a)
+				if (!(b > a))
 					throw StatisticsError("Upper bound must be greater than lower bound in UniformDistribution");
 			}
 
@@ -995,7 +984,7 @@ namespace MML
 			/// @brief Inverse CDF (quantile function)
 			Real inverseCdf(Real p) const
 			{
-				if (p < 0.0 || p > 1.0)
+				if (!(p >= 0.0 && p <= 1.0))
 					throw StatisticsError("Probability must be in [0, 1] in UniformDistribution::inverseCdf");
 				return a + p * (b - a);
 			}
@@ -1023,9 +1012,9 @@ namespace MML
 			GammaDistribution(Real k, Real theta = 1.0)
 				: shape(k), scale(theta)
 			{
-				if (shape <= 0.0)
+				if (!(shape > 0.0))
 					throw StatisticsError("Shape parameter must be positive in GammaDistribution");
-				if (scale <= 0.0)
+				if (!(scale > 0.0))
 					throw StatisticsError("Scale parameter must be positive in GammaDistribution");
 			}
 
@@ -1053,6 +1042,8 @@ namespace MML
 			/// @brief Inverse CDF (quantile function) - uses Newton-Raphson
 			Real inverseCdf(Real p) const
 			{
+				if (!(p >= 0.0 && p <= 1.0))
+					throw StatisticsError("Probability must be in [0, 1] in GammaDistribution::inverseCdf");
 				if (p <= 0.0) return 0.0;
 				if (p >= 1.0) return std::numeric_limits<Real>::infinity();
 
@@ -1068,16 +1059,9 @@ namespace MML
 				}
 
 				// Newton-Raphson refinement
-				for (int iter = 0; iter < 50; iter++) {
-					Real f = cdf(x) - p;
-					Real fp = pdf(x);
-					if (std::abs(fp) < 1e-30) break;
-					Real dx = f / fp;
-					x -= dx;
-					if (x <= 0.0) x = 1e-10;
-					if (std::abs(dx) < 1e-12 * x) break;
-				}
-				return x;
+				Real hi = std::max(x, shape * scale);
+				while (cdf(hi) < p) hi *= 2.0;
+				return DistributionDetail::InvertCdf(*this, p, Real(0.0), hi, x);
 			}
 
 			Real mean() const { return shape * scale; }
@@ -1095,7 +1079,7 @@ namespace MML
 					Real ap = a;
 					Real sum = 1.0 / a;
 					Real del = sum;
-					for (int n = 1; n <= 200; n++) {
+					for (int n = 1; n <= 100000; n++) {
 						ap += 1.0;
 						del *= x / ap;
 						sum += del;
@@ -1108,7 +1092,7 @@ namespace MML
 					Real c = 1.0 / 1e-30;
 					Real d = 1.0 / b;
 					Real h = d;
-					for (int n = 1; n <= 200; n++) {
+					for (int n = 1; n <= 100000; n++) {
 						Real an = -n * (n - a);
 						b += 2.0;
 						d = an * d + b;
@@ -1178,9 +1162,9 @@ namespace MML
 			BetaDistribution(Real a, Real b)
 				: alpha(a), beta(b)
 			{
-				if (alpha <= 0.0)
+				if (!(alpha > 0.0))
 					throw StatisticsError("Alpha parameter must be positive in BetaDistribution");
-				if (beta <= 0.0)
+				if (!(beta > 0.0))
 					throw StatisticsError("Beta parameter must be positive in BetaDistribution");
 			}
 
@@ -1211,6 +1195,8 @@ namespace MML
 			/// @brief Inverse CDF (quantile function) - uses Newton-Raphson
 			Real inverseCdf(Real p) const
 			{
+				if (!(p >= 0.0 && p <= 1.0))
+					throw StatisticsError("Probability must be in [0, 1] in BetaDistribution::inverseCdf");
 				if (p <= 0.0) return 0.0;
 				if (p >= 1.0) return 1.0;
 
@@ -1222,17 +1208,7 @@ namespace MML
 				}
 
 				// Newton-Raphson
-				for (int iter = 0; iter < 50; iter++) {
-					Real f = cdf(x) - p;
-					Real fp = pdf(x);
-					if (std::abs(fp) < 1e-30) break;
-					Real dx = f / fp;
-					x -= dx;
-					if (x <= 0.0) x = 1e-10;
-					if (x >= 1.0) x = 1.0 - 1e-10;
-					if (std::abs(dx) < 1e-12) break;
-				}
-				return x;
+				return DistributionDetail::InvertCdf(*this, p, Real(0.0), Real(1.0), x);
 			}
 
 			Real mean() const { return alpha / (alpha + beta); }
@@ -1264,7 +1240,7 @@ namespace MML
 				d = 1.0 / d;
 				Real h = d;
 
-				for (int m = 1; m <= 200; m++) {
+				for (int m = 1; m <= 100000; m++) {
 					int m2 = 2 * m;
 					Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
 					d = 1.0 + aa * d; if (std::abs(d) < 1e-30) d = 1e-30;
@@ -1302,9 +1278,9 @@ namespace MML
 			WeibullDistribution(Real k, Real lambda = 1.0)
 				: shape(k), scale(lambda)
 			{
-				if (shape <= 0.0)
+				if (!(shape > 0.0))
 					throw StatisticsError("Shape parameter must be positive in WeibullDistribution");
-				if (scale <= 0.0)
+				if (!(scale > 0.0))
 					throw StatisticsError("Scale parameter must be positive in WeibullDistribution");
 			}
 
@@ -1328,6 +1304,8 @@ namespace MML
 			/// @brief Inverse CDF (quantile function) - closed form
 			Real inverseCdf(Real p) const
 			{
+				if (!(p >= 0.0 && p <= 1.0))
+					throw StatisticsError("Probability must be in [0, 1] in WeibullDistribution::inverseCdf");
 				if (p <= 0.0) return 0.0;
 				if (p >= 1.0) return std::numeric_limits<Real>::infinity();
 				return scale * std::pow(-std::log(1.0 - p), 1.0 / shape);
@@ -1360,9 +1338,9 @@ namespace MML
 			ParetoDistribution(Real shape, Real scale = 1.0)
 				: alpha(shape), xm(scale)
 			{
-				if (alpha <= 0.0)
+				if (!(alpha > 0.0))
 					throw StatisticsError("Shape parameter must be positive in ParetoDistribution");
-				if (xm <= 0.0)
+				if (!(xm > 0.0))
 					throw StatisticsError("Scale parameter must be positive in ParetoDistribution");
 			}
 
@@ -1370,7 +1348,7 @@ namespace MML
 			Real pdf(Real x) const
 			{
 				if (x < xm) return 0.0;
-				return alpha * std::pow(xm, alpha) / std::pow(x, alpha + 1.0);
+				return alpha / x * std::pow(xm / x, alpha);
 			}
 
 			/// @brief Cumulative distribution function (CDF)
@@ -1383,6 +1361,8 @@ namespace MML
 			/// @brief Inverse CDF (quantile function) - closed form
 			Real inverseCdf(Real p) const
 			{
+				if (!(p >= 0.0 && p <= 1.0))
+					throw StatisticsError("Probability must be in [0, 1] in ParetoDistribution::inverseCdf");
 				if (p <= 0.0) return xm;
 				if (p >= 1.0) return std::numeric_limits<Real>::infinity();
 				return xm / std::pow(1.0 - p, 1.0 / alpha);
@@ -1423,7 +1403,7 @@ namespace MML
 			LogNormalDistribution(Real logMean = 0.0, Real logStdDev = 1.0)
 				: mu(logMean), sigma(logStdDev)
 			{
-				if (sigma <= 0.0)
+				if (!(sigma > 0.0))
 					throw StatisticsError("Sigma must be positive in LogNormalDistribution");
 			}
 
@@ -1446,6 +1426,8 @@ namespace MML
 			/// @brief Inverse CDF (quantile function)
 			Real inverseCdf(Real p) const
 			{
+				if (!(p >= 0.0 && p <= 1.0))
+					throw StatisticsError("Probability must be in [0, 1] in LogNormalDistribution::inverseCdf");
 				if (p <= 0.0) return 0.0;
 				if (p >= 1.0) return std::numeric_limits<Real>::infinity();
 				// Use inverse normal for ln(x)
-- 
2.43.0


From 620a67721cecbec50f02f1ff0c975ff9ce60c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:15 +0000
Subject: [PATCH 15/41] fix: polynomial division by a longer divisor, empty
 operands and derivatives; polynomial roots scale-free, without cancellation

---
 .../RootFinding/RootFindingPolynoms.h         | 128 ++++++++++++++----
 mml/base/Polynom.h                            |  10 +-
 2 files changed, 109 insertions(+), 29 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingPolynoms.h b/mml/algorithms/RootFinding/RootFindingPolynoms.h
index 2a6b7e7..20bc971 100644
--- a/mml/algorithms/RootFinding/RootFindingPolynoms.h
+++ b/mml/algorithms/RootFinding/RootFindingPolynoms.h
@@ -33,12 +33,24 @@ namespace MML {
    * Complexity: O(1) for all three — direct computation, no iteration.
    ***************************************************************************************************/
 
+  /// Power of two near the size of the largest root of x^n + c[0]*x^(n-1) + ... + c[n-1] = 0
+  inline Real PolynomRootScale(const std::vector<Real>& c) {
+    Real m = 0;
+    for (size_t k = 0; k < c.size(); k++)
+      m = std::max(m, std::pow(std::abs(c[k]), Real(1) / Real(k + 1)));
+    if (!(m > 0) || std::isinf(m))
+      return Real(1);
+    int e;
+    std::frexp(m, &e);
+    return std::ldexp(Real(1), e);
+  }
+
   /// Solve quadratic equation: a*x^2 + b*x + c = 0
   /// @return Number of real roots (0 or 2); complex roots returned via x1, x2
   inline int SolveQuadratic(Real a, Real b, Real c, Complex &x1, Complex &x2) {
     // Degenerate: a=0 reduces to linear equation b*x + c = 0
-    if (std::abs(a) < Constants::Eps) {
-      if (std::abs(b) < Constants::Eps) {
+    if (a == 0) {
+      if (b == 0) {
         x1 = x2 = Complex(0);
         return 0;
       }
@@ -54,7 +66,7 @@ namespace MML {
       Real sqrtD = std::sqrt(D);
       Real q = Real(-0.5) * (b + std::copysign(sqrtD, b));
       x1 = q / a;
-      x2 = c / q;
+      x2 = (q == 0) ? Real(0) : c / q;    // q = 0 only for b = c = 0
       return 2;
     } else {
       Complex sqrtD = std::sqrt(Complex(D));
@@ -68,8 +80,8 @@ namespace MML {
   inline void SolveQuadratic(const Complex &a, const Complex &b, const Complex &c,
                              Complex &x1, Complex &x2) {
     // Degenerate: a=0 reduces to linear equation b*x + c = 0
-    if (std::abs(a) < Constants::Eps) {
-      x1 = (std::abs(b) < Constants::Eps) ? Complex(0) : -c / b;
+    if (a == Complex(0)) {
+      x1 = (b == Complex(0)) ? Complex(0) : -c / b;
       x2 = Complex(0);
       return;
     }
@@ -85,17 +97,29 @@ namespace MML {
   inline int SolveCubic(Real a, Real b, Real c, Real d, Complex &x1, Complex &x2,
                         Complex &x3) {
     // Degenerate: a=0 reduces to quadratic b*x^2 + c*x + d = 0
-    if (std::abs(a) < Constants::Eps) {
+    if (a == 0) {
       int n = SolveQuadratic(b, c, d, x1, x2);
       x3 = Complex(0);
       return n;
     }
+    // a negligible: one root is far larger than the other two
+    if (b != 0 && std::abs(a) * PolynomRootScale({c / b, d / b}) <= Constants::Eps * std::abs(b)) {
+      int n = SolveQuadratic(b, c, d, x1, x2);
+      x3 = Complex(-b / a);
+      return n + 1;
+    }
 
     // Normalize the coefficients
     Real A = b / a;
     Real B = c / a;
     Real C = d / a;
 
+    // Work in the unit of the largest root
+    Real scale = PolynomRootScale({A, B, C});
+    A /= scale;
+    B /= scale * scale;
+    C /= scale * scale * scale;
+
     // Calculate the discriminant
     Real Q = (Real(3.0) * B - POW2(A)) / Real(9.0);
     Real R =
@@ -104,14 +128,18 @@ namespace MML {
 
     if (D >= 0) // Complex or duplicate roots
     {
-      Real S = std::cbrt(R + std::sqrt(D));
-      Real T = std::cbrt(R - std::sqrt(D));
+      // S*T = -Q; the larger of the two is free of cancellation
+      Real S = std::cbrt(R + std::copysign(std::sqrt(D), R));
+      Real T = (S == 0) ? Real(0) : -Q / S;
 
       x1 = -A / Real(3.0) + (S + T); // Real root
       x2 = -A / Real(3.0) - (S + T) / Real(2.0) +
            Complex(0, std::sqrt(Real(3.0)) * (S - T) / Real(2.0)); // Complex root
       x3 = -A / Real(3.0) - (S + T) / Real(2.0) -
            Complex(0, std::sqrt(Real(3.0)) * (S - T) / Real(2.0)); // Complex root
+      x1 *= scale;
+      x2 *= scale;
+      x3 *= scale;
 
       return 1;
     } else // Three real roots
@@ -125,6 +153,9 @@ namespace MML {
       x3 = Real(2.0) * std::sqrt(-Q) *
                std::cos((theta + Real(4.0) * Constants::PI) / Real(3.0)) -
            A / Real(3.0);
+      x1 *= scale;
+      x2 *= scale;
+      x3 *= scale;
 
       return 3;
     }
@@ -135,11 +166,17 @@ namespace MML {
   inline void SolveQuartic(Real a, Real b, Real c, Real d, Real e, Complex &x1,
                            Complex &x2, Complex &x3, Complex &x4) {
     // Degenerate: reduce to cubic
-    if (std::abs(a) < Constants::Eps) {
+    if (a == 0) {
       SolveCubic(b, c, d, e, x1, x2, x3);
       x4 = Complex(0);
       return;
     }
+    // a negligible: one root is far larger than the other three
+    if (b != 0 && std::abs(a) * PolynomRootScale({c / b, d / b, e / b}) <= Constants::Eps * std::abs(b)) {
+      SolveCubic(b, c, d, e, x1, x2, x3);
+      x4 = Complex(-b / a);
+      return;
+    }
 
     // Normalize coefficients
     Real A = b / a;
@@ -147,6 +184,13 @@ namespace MML {
     Real C = d / a;
     Real D = e / a;
 
+    // Work in the unit of the largest root
+    Real scale = PolynomRootScale({A, B, C, D});
+    A /= scale;
+    B /= scale * scale;
+    C /= scale * scale * scale;
+    D /= scale * scale * scale * scale;
+
     // Depressed quartic y = x + A/4: y^4 + P y^2 + Q y + R = 0
     Real AA = A * A;
     Real P = B - Real(3.0) * AA / Real(8.0);
@@ -163,6 +207,10 @@ namespace MML {
       x2 = -std::sqrt(t1) - A / Real(4.0);
       x3 = std::sqrt(t2) - A / Real(4.0);
       x4 = -std::sqrt(t2) - A / Real(4.0);
+      x1 *= scale;
+      x2 *= scale;
+      x3 *= scale;
+      x4 *= scale;
       return;
     }
 
@@ -195,10 +243,10 @@ namespace MML {
     SolveQuadratic(Complex(Real(1.0)), -U, z + W, y3, y4);
 
     // Back-substitute x = y - A/4
-    x1 = y1 - A / Real(4.0);
-    x2 = y2 - A / Real(4.0);
-    x3 = y3 - A / Real(4.0);
-    x4 = y4 - A / Real(4.0);
+    x1 = (y1 - A / Real(4.0)) * scale;
+    x2 = (y2 - A / Real(4.0)) * scale;
+    x3 = (y3 - A / Real(4.0)) * scale;
+    x4 = (y4 - A / Real(4.0)) * scale;
   }
 
 	namespace RootFinding {
@@ -206,6 +254,28 @@ namespace MML {
     * POLYNOMIAL ROOT FINDING METHODS (General Degree)
     ***************************************************************************************************/
 
+		/// Monic polynomial whose roots are those of poly divided by scale, so that the largest
+		/// is of the order of one and absolute tolerances apply. Leading zeros are dropped.
+		static PolynomReal NormalizedPolynom(const PolynomReal& poly, Real& scale) {
+			PolynomReal res(poly);
+			res.Reduce();
+			scale = Real(1);
+			int n = res.degree();
+			if (n <= 0)
+				return res;
+			std::vector<Real> c(n);
+			for (int k = 1; k <= n; k++)
+				c[k - 1] = res[n - k] / res[n];
+			scale = PolynomRootScale(c);
+			Real f = Real(1);
+			res[n] = Real(1);
+			for (int k = 1; k <= n; k++) {
+				f *= scale;
+				res[n - k] = c[k - 1] / f;
+			}
+			return res;
+		}
+
 		/// Find all roots of a polynomial using Laguerre's method.
 		///
 		/// Laguerre's method is a globally convergent iterative method for polynomial root finding.
@@ -216,8 +286,10 @@ namespace MML {
 		/// @param tol       Convergence tolerance (default: 1e-10)
 		/// @param maxIter   Maximum iterations per root (default: 100)
 		/// @return Vector of all complex roots
-		static Vector<Complex> LaguerreRoots(const PolynomReal& poly, Real tol = 1e-10, int maxIter = 100) {
+		static Vector<Complex> LaguerreRoots(const PolynomReal& polynom, Real tol = 1e-10, int maxIter = 100) {
 			Vector<Complex> roots;
+			Real scale;
+			PolynomReal poly = NormalizedPolynom(polynom, scale);
 			int degree = poly.degree();
 
 			if (degree <= 0)
@@ -289,7 +361,7 @@ namespace MML {
 						x -= p / dp;
 				}
 
-				roots.push_back(x);
+				roots.push_back(x * scale);
 
 				// Deflate polynomial
 				if (currentDegree > 1) {
@@ -311,15 +383,17 @@ namespace MML {
 		///
 		/// @param poly  Polynomial with real coefficients
 		/// @return Vector of all complex roots
-		static Vector<Complex> EigenvalueRoots(const PolynomReal& poly) {
+		static Vector<Complex> EigenvalueRoots(const PolynomReal& polynom) {
 			Vector<Complex> roots;
+			Real scale;
+			PolynomReal poly = NormalizedPolynom(polynom, scale);
 			int degree = poly.degree();
 
 			if (degree <= 0)
 				return roots;
 
 			if (degree == 1) {
-				roots.push_back(std::complex<Real>(-poly[0] / poly[1], 0.0));
+				roots.push_back(std::complex<Real>(-poly[0] / poly[1], 0.0) * scale);
 				return roots;
 			}
 
@@ -349,7 +423,7 @@ namespace MML {
 
 			// Extract eigenvalues as roots
 			for (const auto& eval : eigenResult.eigenvalues)
-				roots.push_back(std::complex<Real>(eval.real, eval.imag));
+				roots.push_back(std::complex<Real>(eval.real, eval.imag) * scale);
 
 			return roots;
 		}
@@ -363,9 +437,11 @@ namespace MML {
 		/// @param tol           Convergence tolerance (default: 1e-10)
 		/// @param maxIter       Maximum iterations per quadratic (default: 100)
 		/// @return Vector of complex roots
-		static Vector<Complex> BairstowRoots(const PolynomReal& poly, const Vector<Complex>& initialRoots = Vector<Complex>(),
+		static Vector<Complex> BairstowRoots(const PolynomReal& polynom, const Vector<Complex>& initialRoots = Vector<Complex>(),
 											 Real tol = 1e-10, int maxIter = 100) {
 			Vector<Complex> roots;
+			Real scale;
+			PolynomReal poly = NormalizedPolynom(polynom, scale);
 			int n = poly.degree();
 
 			if (n <= 0)
@@ -386,8 +462,8 @@ namespace MML {
 				if (initialRoots.size() >= 2 && n == poly.degree()) {
 					Complex r1 = initialRoots[roots.size()];
 					Complex r2 = (roots.size() + 1 < initialRoots.size()) ? initialRoots[roots.size() + 1] : std::conj(r1);
-					u = -(r1 + r2).real();
-					v = (r1 * r2).real();
+					u = -(r1 + r2).real() / scale;
+					v = (r1 * r2).real() / scale / scale;
 				}
 
 				// Bairstow's method iteration
@@ -461,12 +537,12 @@ namespace MML {
 				Real discriminant = u * u - Real(4.0) * v;
 				if (discriminant >= 0) {
 					Real sqrtDisc = std::sqrt(discriminant);
-					roots.push_back(std::complex<Real>((-u + sqrtDisc) / Real(2.0), 0.0));
-					roots.push_back(std::complex<Real>((-u - sqrtDisc) / Real(2.0), 0.0));
+					roots.push_back(std::complex<Real>((-u + sqrtDisc) / Real(2.0), 0.0) * scale);
+					roots.push_back(std::complex<Real>((-u - sqrtDisc) / Real(2.0), 0.0) * scale);
 				} else {
 					Real sqrtDisc = std::sqrt(-discriminant);
-					roots.push_back(std::complex<Real>(-u / Real(2.0), sqrtDisc / Real(2.0)));
-					roots.push_back(std::complex<Real>(-u / Real(2.0), -sqrtDisc / Real(2.0)));
+					roots.push_back(std::complex<Real>(-u / Real(2.0), sqrtDisc / Real(2.0)) * scale);
+					roots.push_back(std::complex<Real>(-u / Real(2.0), -sqrtDisc / Real(2.0)) * scale);
 				}
 
 				// Deflate: new polynomial is Q(x) with coefficients b[0], b[1], ..., b[n-2]
@@ -482,7 +558,7 @@ namespace MML {
 			// Handle remaining linear term: a[0] + a[1]*x = 0
 			if (n == 1) {
 				if (std::abs(a[1]) > PrecisionValues<Real>::PolynomialCoeffZeroThreshold)
-					roots.push_back(std::complex<Real>(-a[0] / a[1], 0.0));
+					roots.push_back(std::complex<Real>(-a[0] / a[1], 0.0) * scale);
 			}
 
 			return roots;
diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index f114c3c..af07c95 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -316,6 +316,8 @@ namespace MML
 		Polynom operator*(const Polynom& b) const
 		{
 			Polynom result;
+			if (_vecCoef.empty() || b._vecCoef.empty())
+				return result;		// product with the zero polynomial
 
 			int n = (int)(_vecCoef.size() + b._vecCoef.size() - 1);
 			result._vecCoef.resize(n);
@@ -420,7 +422,7 @@ namespace MML
 			// setting exact size for remainder
 			rout.SetDegree(nv - 1);
 			for (j = 0; j < nv; j++)
-				rout[j] = r[j];
+				rout[j] = (j <= n) ? r[j] : CoefT(0);
 		}
 
 		///////////////////////////           Operations              ///////////////////////////
@@ -434,9 +436,11 @@ namespace MML
 			int  nd = pd.size() - 1;
 			Real cnst = 1.0;
 
-			pd[0] = (*this)[nc];
-			for (j = 1; j < nd + 1; j++)
+			for (j = 0; j < nd + 1; j++)
 				pd[j] = 0.0;
+			if (nc < 0 || nd < 0)
+				return;
+			pd[0] = (*this)[nc];
 
 			for (i = nc - 1; i >= 0; i--)
 			{
-- 
2.43.0


From 821123e82e53ff762dd013ccafd8551dedf11e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:15 +0000
Subject: [PATCH 16/41] fix: eigenvalues converge for any scale and cyclic
 spectra; eigenvectors through complex blocks; spectral predicates of
 degenerate shapes

---
 mml/algorithms/EigenSolverHelpers.h | 318 +++++++++++++++++-----------
 mml/algorithms/EigenSystemSolvers.h | 239 +++++++++++----------
 mml/algorithms/MatrixAlg.h          |   8 +-
 mml/core/MatrixUtils.h              |  18 +-
 4 files changed, 325 insertions(+), 258 deletions(-)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index d921ef6..cca5795 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -47,6 +47,53 @@ namespace MML {
 		// MatrixAlg::ReduceToHessenberg() delegates to this
 		// =========================================================================
 
+		/// The power of two at or below the largest absolute entry of A: dividing by it is exact and
+		/// makes that entry of order one. 1 for a zero matrix and for entries that are not finite.
+		template<class MatrixType>
+		static Real PowerOfTwoScale(const MatrixType& A) {
+			Real largest = 0.0;
+			for (int i = 0; i < A.rows(); i++)
+				for (int j = 0; j < A.cols(); j++)
+					largest = std::max(largest, std::abs(A(i, j)));
+			if (!(largest > 0.0) || !std::isfinite(largest))
+				return 1.0;
+			int exponent = std::ilogb(largest);
+			return std::ldexp(REAL(1.0), std::max(exponent, std::numeric_limits<Real>::min_exponent));
+		}
+
+		/// Makes the 2x2 diagonal block of H at rows [k, k+1] upper triangular if its eigenvalues are real,
+		/// by a rotation applied to all of H and accumulated in Q.
+		static void TriangularizeRealBlock(Matrix<Real>& H, Matrix<Real>& Q, int k) {
+			int n = H.rows();
+			Real a = H(k, k), b = H(k, k + 1), c = H(k + 1, k), d = H(k + 1, k + 1);
+			Real p = (a - d) / 2.0;
+			Real disc = p * p + b * c;
+			if (disc < 0.0)
+				return;
+
+			// Eigenvector (lambda - d, c) of the eigenvalue further from d: no cancellation
+			Real v0 = p + (p >= 0.0 ? std::sqrt(disc) : -std::sqrt(disc)), v1 = c;
+			Real r = std::hypot(v0, v1);
+			if (r == 0.0)
+				return;
+			Real cs = v0 / r, sn = v1 / r;
+			for (int j = 0; j < n; j++) {
+				Real t0 = H(k, j), t1 = H(k + 1, j);
+				H(k, j) = cs * t0 + sn * t1;
+				H(k + 1, j) = -sn * t0 + cs * t1;
+			}
+			for (int i = 0; i < n; i++) {
+				Real t0 = H(i, k), t1 = H(i, k + 1);
+				H(i, k) = cs * t0 + sn * t1;
+				H(i, k + 1) = -sn * t0 + cs * t1;
+				t0 = Q(i, k);
+				t1 = Q(i, k + 1);
+				Q(i, k) = cs * t0 + sn * t1;
+				Q(i, k + 1) = -sn * t0 + cs * t1;
+			}
+			H(k + 1, k) = 0.0;
+		}
+
 		/// @struct HessenbergResult
 		/// @brief Result of Hessenberg reduction: H = Q^T * A * Q
 		struct HessenbergResult {
@@ -83,29 +130,30 @@ namespace MML {
 			// For each column k, zero out elements below the subdiagonal
 			for (int k = 0; k < n - 2; k++) {
 				// Compute the norm of the column below the diagonal
+				// (relative to its largest entry, so that small entries do not underflow)
+				Real largest = 0.0;
+				for (int i = k + 1; i < n; i++)
+					largest = std::max(largest, std::abs(result.H(i, k)));
+				if (largest == 0.0)
+					continue; // Column already zero below subdiagonal
+
 				Real sigma = 0.0;
 				for (int i = k + 1; i < n; i++)
-					sigma += result.H(i, k) * result.H(i, k);
+					sigma += (result.H(i, k) / largest) * (result.H(i, k) / largest);
 				sigma = std::sqrt(sigma);
 
-				if (sigma < PrecisionValues<Real>::DivisionSafetyThreshold)
-					continue; // Column already zero below subdiagonal
-
 				// Choose sign to avoid cancellation: sign opposite to H(k+1, k)
 				if (result.H(k + 1, k) > 0.0)
 					sigma = -sigma;
 
 				// Build Householder vector v = [0, ..., 0, H(k+1,k) - sigma, H(k+2,k), ..., H(n-1,k)]
-				// But we only need elements k+1 to n-1
-				Real h_k1_k_minus_sigma = result.H(k + 1, k) - sigma;
+				// (divided by the largest entry); we only need elements k+1 to n-1
+				Real h_k1_k_minus_sigma = result.H(k + 1, k) / largest - sigma;
 
 				// Compute ||v||^2
 				Real vNormSq = h_k1_k_minus_sigma * h_k1_k_minus_sigma;
 				for (int i = k + 2; i < n; i++)
-					vNormSq += result.H(i, k) * result.H(i, k);
-
-				if (vNormSq < PrecisionValues<Real>::DivisionSafetyThreshold)
-					continue;
+					vNormSq += (result.H(i, k) / largest) * (result.H(i, k) / largest);
 
 				// beta = 2 / ||v||^2
 				Real beta = 2.0 / vNormSq;
@@ -113,7 +161,7 @@ namespace MML {
 				// Store v in temporary array
 				v[k + 1] = h_k1_k_minus_sigma;
 				for (int i = k + 2; i < n; i++)
-					v[i] = result.H(i, k);
+					v[i] = result.H(i, k) / largest;
 
 				// Apply Householder from left: H = (I - beta*v*v^T) * H
 				// H(i,j) -= beta * v(i) * sum_m(v(m) * H(m,j))
@@ -151,7 +199,7 @@ namespace MML {
 				// After applying transformation, H(k+1, k) should be sigma
 				// and H(k+2:n-1, k) should be 0
 				// Clean up the zeros explicitly
-				result.H(k + 1, k) = sigma;
+				result.H(k + 1, k) = sigma * largest;
 				for (int i = k + 2; i < n; i++)
 					result.H(i, k) = 0.0;
 			}
@@ -421,7 +469,10 @@ namespace MML {
 		/// @param iHi Ending index of active submatrix (usually n-1)
 		/// @param accumulateQ If true, accumulates Q for eigenvector computation
 		/// @return DoubleShiftResult with updated H and Q
-		static DoubleShiftResult FrancisDoubleShift(const Matrix<Real>& H, int iLo, int iHi, bool accumulateQ = true) {
+		/// @param shiftSum If given (with shiftProduct), the sum of the two shifts to use instead of those of the bottom 2x2 block
+		/// @param shiftProduct Product of the two shifts
+		static DoubleShiftResult FrancisDoubleShift(const Matrix<Real>& H, int iLo, int iHi, bool accumulateQ = true,
+													const Real* shiftSum = nullptr, const Real* shiftProduct = nullptr) {
 			int n = H.rows();
 			DoubleShiftResult result(n);
 			result.H = H;
@@ -455,6 +506,10 @@ namespace MML {
 			// M = H² - sH + pI where s = σ₁+σ₂ (trace) and p = σ₁σ₂ (det)
 			Real s = h11 + h22;				// trace of 2x2 = sum of shifts
 			Real p = h11 * h22 - h12 * h21; // det of 2x2 = product of shifts
+			if (shiftSum && shiftProduct) {
+				s = *shiftSum;
+				p = *shiftProduct;
+			}
 
 			// First column of M = (H - σ₁I)(H - σ₂I):
 			// M[0,0] = H[0,0]² + H[0,1]*H[1,0] - s*H[0,0] + p
@@ -826,146 +881,146 @@ namespace MML {
 			std::vector<bool> isComplexPair; // isComplexPair[i] = true if columns i,i+1 form complex pair
 		};
 
-		/// Compute eigenvector for a real eigenvalue using back-substitution.
+		/// Solves (T - lambda*I) x = 0 for an eigenvalue of the diagonal block of T that starts at row k,
+		/// by back-substitution through the 1x1 and 2x2 diagonal blocks above it.
 		///
-		/// Given upper triangular T with eigenvalue λ = T[k,k], solve (T - λI)x = 0
-		/// by back-substitution from row k-1 up to row 0.
+		/// A (nearly) singular diagonal block is perturbed by a rounding error of T, so that repeated
+		/// eigenvalues get a vector whose residual is of the order of rounding.
 		///
-		/// @param T Upper triangular (or quasi-upper-triangular) matrix
-		/// @param k Index of the eigenvalue (diagonal element T[k,k])
-		/// @return Eigenvector (normalized)
-		static Vector<Real> ComputeRealEigenvector(const Matrix<Real>& T, int k) {
+		/// @param T Quasi-upper-triangular matrix (2x2 blocks where T[i+1,i] != 0)
+		/// @param k First row of the block the eigenvalue belongs to
+		/// @param x Holds the eigenvector of that diagonal block on entry, the eigenvector of T on return
+		static void BackSubstituteEigenvector(const Matrix<Real>& T, int k, std::complex<Real> lambda, std::vector<std::complex<Real>>& x) {
 			int n = T.rows();
-			Vector<Real> x(n, 0.0);
-
-			// Set x[k] = 1 as starting point
-			x[k] = 1.0;
-			Real lambda = T(k, k);
+			int last = n - 1;
+			while (last > k && x[last] == std::complex<Real>(0.0))
+				last--;
 
-			// Back-substitute: for i = k-1 down to 0
-			// (T[i,i] - λ) * x[i] + sum_{j=i+1}^{k} T[i,j] * x[j] = 0
-			// x[i] = -sum_{j=i+1}^{k} T[i,j] * x[j] / (T[i,i] - λ)
-
-			for (int i = k - 1; i >= 0; i--) {
-				Real sum = 0.0;
-				for (int j = i + 1; j <= k; j++)
-					sum += T(i, j) * x[j];
-
-				Real denom = T(i, i) - lambda;
-				if (std::abs(denom) > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					x[i] = -sum / denom;
+			Real tNorm = 0.0;
+			for (int i = 0; i < n; i++)
+				for (int j = 0; j < n; j++)
+					tNorm = std::max(tNorm, std::abs(T(i, j)));
+			Real smallest = std::max(std::numeric_limits<Real>::epsilon() * tNorm, std::numeric_limits<Real>::min());
+
+			int i = k - 1;
+			while (i >= 0) {
+				bool block = i > 0 && std::abs(T(i, i - 1)) >= PrecisionValues<Real>::DivisionSafetyThreshold;
+				int top = block ? i - 1 : i;
+				std::complex<Real> sum[2];
+				for (int r = top; r <= i; r++)
+					for (int j = i + 1; j <= last; j++)
+						sum[r - top] -= T(r, j) * x[j];
+				if (!block) {
+					std::complex<Real> denom = T(i, i) - lambda;
+					if (std::abs(denom) < smallest)
+						denom = smallest;
+					x[i] = sum[0] / denom;
 				} else {
-					// Near-singular: use small perturbation to avoid division by zero
-					x[i] = -sum / PrecisionValues<Real>::DivisionSafetyThreshold;
+					// Elimination with complete pivoting; a vanishing second pivot is perturbed
+					std::complex<Real> M[2][2] = {{T(top, top) - lambda, T(top, i)}, {T(i, top), T(i, i) - lambda}};
+					int r = 0, c = 0;
+					for (int p = 0; p < 4; p++)
+						if (std::abs(M[p / 2][p % 2]) > std::abs(M[r][c])) {
+							r = p / 2;
+							c = p % 2;
+						}
+					std::complex<Real> factor = M[1 - r][c] / M[r][c];
+					std::complex<Real> pivot = M[1 - r][1 - c] - factor * M[r][1 - c];
+					if (std::abs(pivot) < smallest)
+						pivot = smallest;
+					std::complex<Real> second = (sum[1 - r] - factor * sum[r]) / pivot;
+					std::complex<Real> first = (sum[r] - M[r][1 - c] * second) / M[r][c];
+					x[c == 0 ? top : i] = first;
+					x[c == 0 ? i : top] = second;
 				}
+				// Keep growing components in range
+				Real big = 0.0;
+				for (int j = top; j <= i; j++)
+					big = std::max(big, std::abs(x[j]));
+				if (big > 1e30) {
+					for (int j = top; j <= last; j++)
+						x[j] /= big;
+				}
+				i = top - 1;
 			}
 
-			// Normalize
-			Real norm = 0.0;
-			for (int i = 0; i < n; i++)
-				norm += x[i] * x[i];
-			norm = std::sqrt(norm);
-
-			if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
-				for (int i = 0; i < n; i++)
-					x[i] /= norm;
+			Real maxAbs = 0.0;
+			for (const auto& c : x)
+				maxAbs = std::max(maxAbs, std::abs(c));
+			if (maxAbs > 0.0) {
+				Real norm = 0.0;
+				for (auto& c : x) {
+					c /= maxAbs;
+					norm += std::norm(c);
+				}
+				norm = std::sqrt(norm);
+				for (auto& c : x)
+					c /= norm;
 			}
+		}
 
+		/// Compute eigenvector for the real eigenvalue T[k,k] of a 1x1 diagonal block.
+		///
+		/// @param T Upper triangular (or quasi-upper-triangular) matrix
+		/// @param k Index of the eigenvalue (diagonal element T[k,k])
+		/// @return Eigenvector (normalized)
+		static Vector<Real> ComputeRealEigenvector(const Matrix<Real>& T, int k) {
+			int n = T.rows();
+			std::vector<std::complex<Real>> z(n);
+			z[k] = 1.0;
+			BackSubstituteEigenvector(T, k, T(k, k), z);
+
+			Vector<Real> x(n, 0.0);
+			for (int i = 0; i < n; i++)
+				x[i] = z[i].real();
 			return x;
 		}
 
-		/// Compute eigenvectors for a 2x2 complex eigenvalue block.
+		/// Compute eigenvectors for a 2x2 diagonal block.
 		///
-		/// For a 2x2 block at positions [k, k+1] with complex eigenvalues α ± iβ,
-		/// compute the real and imaginary parts of the eigenvector.
+		/// For a 2x2 block at positions [k, k+1] with complex eigenvalues alpha +- i*beta (beta > 0),
+		/// the real and imaginary parts of the eigenvector of alpha + i*beta. For a block with two real
+		/// eigenvalues, the eigenvectors of the larger and of the smaller one.
 		///
 		/// @param T Quasi-upper-triangular matrix
 		/// @param k Starting index of the 2x2 block
 		/// @return Pair of vectors: (real part, imaginary part)
 		static std::pair<Vector<Real>, Vector<Real>> ComputeComplexEigenvectors(const Matrix<Real>& T, int k) {
 			int n = T.rows();
-			Vector<Real> xr(n, 0.0); // Real part
-			Vector<Real> xi(n, 0.0); // Imaginary part
-
-			// Get the 2x2 block and its eigenvalues
 			Real a = T(k, k);
 			Real b = T(k, k + 1);
 			Real c = T(k + 1, k);
 			Real d = T(k + 1, k + 1);
-
 			auto eig = Eigenvalues2x2(a, b, c, d);
-			Real alpha = eig.real1; // Real part of eigenvalue
-			Real beta = eig.imag1;	// Imaginary part (positive)
-
-			if (std::abs(beta) < PrecisionValues<Real>::DivisionSafetyThreshold) {
-				// Not actually complex, treat as two real
-				xr = ComputeRealEigenvector(T, k);
-				xi = ComputeRealEigenvector(T, k + 1);
-				return {xr, xi};
-			}
-
-			// For the 2x2 block, the eigenvector of [[a,b],[c,d]] for α+iβ is:
-			// v = [b, α+iβ-a] or [α+iβ-d, c] (up to scaling)
-			// We use [b, (α-a)+iβ] which gives:
-			//   real: [b, α-a]
-			//   imag: [0, β]
-
-			// Initialize at the 2x2 block
-			xr[k] = b;
-			xr[k + 1] = alpha - a;
-			xi[k] = 0.0;
-			xi[k + 1] = beta;
-
-			// Back-substitute for rows k-1 down to 0
-			// We need to solve (T - (α+iβ)I) * (xr + i*xi) = 0
-			// This gives two coupled real equations:
-			// (T - αI) * xr + βI * xi = 0  =>  (T-αI)*xr = -β*xi
-			// (T - αI) * xi - βI * xr = 0  =>  (T-αI)*xi = β*xr
-			for (int i = k - 1; i >= 0; i--) {
-				// sum_r = sum of T[i,j]*xr[j] for j > i
-				// sum_i = sum of T[i,j]*xi[j] for j > i
-				Real sum_r = 0.0;
-				Real sum_i = 0.0;
-				for (int j = i + 1; j <= k + 1; j++) {
-					sum_r += T(i, j) * xr[j];
-					sum_i += T(i, j) * xi[j];
-				}
 
-				// (T[i,i] - α) * xr[i] + β * xi[i] = -sum_r
-				// (T[i,i] - α) * xi[i] - β * xr[i] = -sum_i
-				// Let p = T[i,i] - α
-				// p * xr[i] + β * xi[i] = -sum_r
-				// p * xi[i] - β * xr[i] = -sum_i
-				// Solve 2x2 system:
-				// |p   β | |xr[i]|   |-sum_r|
-				// |-β  p | |xi[i]| = |-sum_i|
-				// det = p² + β²
-
-				Real p = T(i, i) - alpha;
-				Real det = p * p + beta * beta;
-
-				if (det > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					xr[i] = (-sum_r * p - sum_i * beta) / det;
-					xi[i] = (-sum_i * p + sum_r * beta) / det;
+			auto solve = [&](std::complex<Real> lambda) {
+				// Eigenvector of [[a,b],[c,d]]: [b, lambda-a] or [lambda-d, c], whichever is larger
+				std::vector<std::complex<Real>> z(n);
+				if (std::abs(b) + std::abs(lambda - a) >= std::abs(c) + std::abs(lambda - d)) {
+					z[k] = b;
+					z[k + 1] = lambda - a;
 				} else {
-					xr[i] = 0.0;
-					xi[i] = 0.0;
+					z[k] = lambda - d;
+					z[k + 1] = c;
 				}
-			}
-
-			// Normalize: ||xr||² + ||xi||² = 1 for each eigenvector
-			Real norm_sq = 0.0;
-			for (int i = 0; i < n; i++)
-				norm_sq += xr[i] * xr[i] + xi[i] * xi[i];
+				BackSubstituteEigenvector(T, k, lambda, z);
+				return z;
+			};
 
-			Real norm = std::sqrt(norm_sq);
-			if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
+			Vector<Real> xr(n, 0.0), xi(n, 0.0);
+			if (eig.isComplex) {
+				auto z = solve(std::complex<Real>(eig.real1, eig.imag1));
 				for (int i = 0; i < n; i++) {
-					xr[i] /= norm;
-					xi[i] /= norm;
+					xr[i] = z[i].real();
+					xi[i] = z[i].imag();
+				}
+			} else {
+				auto z1 = solve(eig.real1), z2 = solve(eig.real2);
+				for (int i = 0; i < n; i++) {
+					xr[i] = z1[i].real();
+					xi[i] = z2[i].real();
 				}
 			}
-
 			return {xr, xi};
 		}
 
@@ -1008,8 +1063,9 @@ namespace MML {
 						Y(j, i) = vr[j];	 // Real part in column i
 						Y(j, i + 1) = vi[j]; // Imaginary part in column i+1
 					}
-					result.isComplexPair[i] = true;
-					result.isComplexPair[i + 1] = true;
+					bool isPair = Eigenvalues2x2(T(i, i), T(i, i + 1), T(i + 1, i), T(i + 1, i + 1)).isComplex;
+					result.isComplexPair[i] = isPair;
+					result.isComplexPair[i + 1] = isPair;
 					i += 2;
 				}
 			}
@@ -1023,17 +1079,23 @@ namespace MML {
 						sum += Q(row, k) * Y(k, col);
 					result.vectors(row, col) = sum;
 				}
+			}
 
-				// Re-normalize after transformation
+			// Re-normalize after transformation; the two parts of a complex vector share one norm
+			for (int col = 0; col < n; col++) {
+				int width = (result.isComplexPair[col] && col + 1 < n) ? 2 : 1;
 				Real norm = 0.0;
-				for (int row = 0; row < n; row++)
-					norm += result.vectors(row, col) * result.vectors(row, col);
+				for (int c = col; c < col + width; c++)
+					for (int row = 0; row < n; row++)
+						norm += result.vectors(row, c) * result.vectors(row, c);
 				norm = std::sqrt(norm);
 
 				if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					for (int row = 0; row < n; row++)
-						result.vectors(row, col) /= norm;
+					for (int c = col; c < col + width; c++)
+						for (int row = 0; row < n; row++)
+							result.vectors(row, c) /= norm;
 				}
+				col += width - 1;
 			}
 
 			return result;
diff --git a/mml/algorithms/EigenSystemSolvers.h b/mml/algorithms/EigenSystemSolvers.h
index 5ca1cec..29e32d3 100644
--- a/mml/algorithms/EigenSystemSolvers.h
+++ b/mml/algorithms/EigenSystemSolvers.h
@@ -147,11 +147,12 @@ namespace MML {
 			int n = A.rows();
 			Result result(n);
 
-			// Initialize: Copy A to working matrix, V to identity
+			// Initialize: Copy A to working matrix (scaled to entries of order one), V to identity
+			Real scale = EigenSolverHelpers::PowerOfTwoScale(A);
 			Matrix<Real> D(n, n);
 			for (int i = 0; i < n; i++)
 				for (int j = 0; j < n; j++)
-					D[i][j] = (i <= j) ? A(i, j) : A(j, i);
+					D[i][j] = ((i <= j) ? A(i, j) : A(j, i)) / scale;
 
 			Matrix<Real> V = Matrix<Real>::Identity(n);
 
@@ -159,11 +160,13 @@ namespace MML {
 			int sweep = 0;
 			Real offDiagNorm = OffDiagonalNorm(D, n);
 
-			while (offDiagNorm > tol && sweep < maxIter) {
+			// tol is relative to the size of the matrix; convergence is quadratic, so sweep down to rounding level
+			Real stopNorm = std::min(tol, n * std::numeric_limits<Real>::epsilon());
+			while (offDiagNorm > stopNorm && sweep < maxIter) {
 				// One sweep: process all off-diagonal elements
 				for (int p = 0; p < n - 1; p++) {
 					for (int q = p + 1; q < n; q++) {
-						if (std::abs(D[p][q]) < PrecisionValues<Real>::EigenSolverZeroThreshold) // Skip if already zero
+						if (D[p][q] == 0.0) // Skip if already zero
 							continue;
 						// Compute Givens rotation parameters
 						Real theta = ComputeRotationAngle(D, p, q);
@@ -181,7 +184,7 @@ namespace MML {
 
 			// Extract eigenvalues from diagonal
 			for (int i = 0; i < n; i++)
-				result.eigenvalues[i] = D[i][i];
+				result.eigenvalues[i] = D[i][i] * scale;
 
 			// Copy eigenvectors
 			result.eigenvectors = V;
@@ -191,7 +194,7 @@ namespace MML {
 
 			// Set convergence info
 			result.iterations = sweep;
-			result.residual = offDiagNorm;
+			result.residual = offDiagNorm * scale;
 			result.converged = (offDiagNorm <= tol);
 
 			return result;
@@ -202,6 +205,8 @@ namespace MML {
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 100) {
 			// Convert to symmetric matrix (average A and A^T)
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("SymmMatEigenSolverJacobi::Solve - matrix must be square", n, n, A.rows(), A.cols());
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -234,6 +239,8 @@ namespace MML {
 		/// Solve for a regular Matrix using configuration object.
 		static Result Solve(const Matrix<Real>& A, const EigenSolverConfig& config) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("SymmMatEigenSolverJacobi::Solve - matrix must be square", n, n, A.rows(), A.cols());
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -247,7 +254,7 @@ namespace MML {
 		static Real ComputeRotationAngle(const Matrix<Real>& A, int p, int q) {
 			Real theta;
 
-			if (std::abs(A[p][q]) < PrecisionValues<Real>::EigenSolverZeroThreshold) {
+			if (A[p][q] == 0.0) {
 				theta = 0.0;
 			} else {
 				Real tau = (A[q][q] - A[p][p]) / (2.0 * A[p][q]);
@@ -400,10 +407,11 @@ namespace MML {
 			}
 
 			// Step 1: Copy to full matrix for working storage
+			Real scale = EigenSolverHelpers::PowerOfTwoScale(A);
 			Matrix<Real> T(n, n);
 			for (int i = 0; i < n; i++)
 				for (int j = 0; j < n; j++)
-					T(i, j) = (i <= j) ? A(i, j) : A(j, i);
+					T(i, j) = ((i <= j) ? A(i, j) : A(j, i)) / scale;
 
 			// Step 2: Initialize eigenvector matrix to identity
 			Matrix<Real> Q = Matrix<Real>::Identity(n);
@@ -423,15 +431,18 @@ namespace MML {
 			subdiag[n - 1] = 0.0;
 
 			// Step 4: Apply implicit QR algorithm with Wilkinson shift
-			ImplicitQRAlgorithm(diag, subdiag, Q, n, tol, maxIter, result.iterations, result.converged);
+			Real deflTol = std::max(std::numeric_limits<Real>::epsilon(), std::min(tol, 4 * std::numeric_limits<Real>::epsilon()));
+			ImplicitQRAlgorithm(diag, subdiag, Q, n, deflTol, maxIter, result.iterations, result.converged);
 
 			// Step 5: Compute final residual (off-diagonal norm)
 			result.residual = 0.0;
 			for (int i = 0; i < n - 1; i++)
 				result.residual += subdiag[i] * subdiag[i];
-			result.residual = std::sqrt(result.residual);
+			result.residual = std::sqrt(result.residual) * scale;
 
 			// Step 6: Copy results
+			for (int i = 0; i < n; i++)
+				diag[i] *= scale;
 			result.eigenvalues = diag;
 			result.eigenvectors = Q;
 
@@ -444,6 +455,8 @@ namespace MML {
 		// Overload for regular Matrix (will symmetrize)
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 1000) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("SymmMatEigenSolverQR::Solve - matrix must be square", n, n, A.rows(), A.cols());
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -476,6 +489,8 @@ namespace MML {
 		/// Solve for a regular Matrix using configuration object.
 		static Result Solve(const Matrix<Real>& A, const EigenSolverConfig& config) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("SymmMatEigenSolverQR::Solve - matrix must be square", n, n, A.rows(), A.cols());
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -867,8 +882,11 @@ namespace MML {
 		/// - eigenvectors.Column(k) = vr, Column(k+1) = vi
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 1000) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("EigenSolver::Solve - matrix must be square", n, n, A.rows(), A.cols());
 			Result result(n);
 
+			// Handle trivial cases
 			if (n == 0) {
 				result.converged = true;
 				return result;
@@ -882,133 +900,120 @@ namespace MML {
 				return result;
 			}
 
-			// Step 1: Reduce to Hessenberg form
-			auto hess = EigenSolverHelpers::ReduceToHessenberg(A);
-			Matrix<Real> H = hess.H;
-			Matrix<Real> Q = hess.Q; // Accumulated transformation
+			// Work with entries of order one: scaling by a power of two is exact
+			Real scale = EigenSolverHelpers::PowerOfTwoScale(A);
+			Matrix<Real> S(n, n);
+			for (int i = 0; i < n; i++)
+				for (int j = 0; j < n; j++)
+					S(i, j) = A(i, j) / scale;
 
-			// Step 2: QR iteration with deflation
-			int iLo = 0;	 // Start of active region
-			int iHi = n - 1; // End of active region
+			// Step 1: Reduce to upper Hessenberg form
+			auto hess = EigenSolverHelpers::ReduceToHessenberg(S);
+			Matrix<Real> H = hess.H;
+			Matrix<Real> Q = hess.Q; // Accumulated orthogonal transformation
+			for (int i = 2; i < n; i++)
+				for (int j = 0; j < i - 1; j++)
+					H(i, j) = 0.0;
+
+			// Step 2: QR iteration to (quasi-)upper triangular form. tol bounds the deflation
+			// threshold from above, convergence being quadratic it is taken down to rounding level.
+			Real eps = std::numeric_limits<Real>::epsilon();
+			Real deflTol = std::max(eps, std::min(tol, 10 * eps));
+			int iHi = n - 1;
 			int totalIter = 0;
+			int sinceDeflation = 0;
 
-			while (iHi > iLo && totalIter < maxIter) {
-				// Check for deflation at bottom of active region
-				auto defl = EigenSolverHelpers::CheckDeflation(H, iLo, iHi, tol);
-
-				if (defl.canDeflate) {
-					// Apply deflation
-					EigenSolverHelpers::ApplyDeflation(H, defl.deflationIndex);
-
-					// Shrink active region
-					if (defl.deflationIndex == iHi) {
-						iHi--;
-					} else if (defl.deflationIndex == iHi - 1 && defl.blockSize == 2) {
-						iHi -= 2; // 2x2 block deflated
-					} else {
-						// Middle deflation - just continue
-						iHi = defl.deflationIndex - 1;
-					}
-					continue;
-				}
-
-				// Determine if we should use single or double shift
-				// Check if bottom 2x2 has complex eigenvalues
-				bool useDoubleShift = false;
-				if (iHi >= iLo + 1) {
-					Real a = H(iHi - 1, iHi - 1);
-					Real b = H(iHi - 1, iHi);
-					Real c = H(iHi, iHi - 1);
-					Real d = H(iHi, iHi);
-					auto eig = EigenSolverHelpers::Eigenvalues2x2(a, b, c, d);
-					useDoubleShift = eig.isComplex;
-
-					// Special case: if we have only a 2x2 block with complex eigenvalues,
-					// it's already in final form - we're done with this block
-					if (useDoubleShift && iHi == iLo + 1) {
-						// 2x2 block with complex eigenvalues is irreducible - accept it
+			while (iHi > 0) {
+				// Active block [lo, iHi]: from the bottom up to the first negligible subdiagonal entry
+				int lo = iHi;
+				while (lo > 0) {
+					Real diag = std::abs(H(lo - 1, lo - 1)) + std::abs(H(lo, lo));
+					// Relative to its neighbours; if that does not come about, to the size of the matrix
+					if (diag == 0.0 || sinceDeflation > 20)
+						diag = std::max(diag, REAL(1.0));
+					if (std::abs(H(lo, lo - 1)) <= deflTol * diag) {
+						EigenSolverHelpers::ApplyDeflation(H, lo);
 						break;
 					}
+					lo--;
 				}
 
-				if (useDoubleShift && iHi >= iLo + 2) {
-					// Apply Francis double-shift
-					auto step = EigenSolverHelpers::FrancisDoubleShift(H, iLo, iHi, true);
-					H = step.H;
-
-					// Update accumulated Q
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
-					totalIter += 2; // Double shift counts as 2 iterations
-				} else {
-					// Apply single Wilkinson shift
-					auto step = EigenSolverHelpers::SingleQRStep(H, true);
-					H = step.H;
-
-					// Update accumulated Q
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
-					totalIter++;
+				if (lo == iHi) {
+					iHi--;
+					sinceDeflation = 0;
+					continue;
 				}
-
-				// Apply exceptional shift if stuck (every 30 iterations without progress)
-				if (totalIter % 30 == 29 && iHi >= 2) {
-					// Exceptional shift to break cycles
-					Real exceptionalShift = std::abs(H(iHi, iHi - 1)) + std::abs(H(iHi - 1, iHi - 2));
-					auto step = EigenSolverHelpers::SingleQRStep(H, true, &exceptionalShift);
-					H = step.H;
-
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
-					totalIter++;
+				if (lo == iHi - 1) {
+					// A 2x2 block is finished; with two real eigenvalues it is made triangular
+					EigenSolverHelpers::TriangularizeRealBlock(H, Q, lo);
+					iHi -= 2;
+					sinceDeflation = 0;
+					continue;
 				}
+				if (totalIter >= maxIter)
+					break;
+
+				// Exceptional shifts break the cycles the standard ones can fall into
+				sinceDeflation++;
+				bool exceptional = (sinceDeflation % 10 == 0);
+				Real w = std::abs(H(iHi, iHi - 1)) + std::abs(H(iHi - 1, iHi - 2));
+				Real shiftSum = 1.5 * w, shiftProduct = w * w;
+				auto step = EigenSolverHelpers::FrancisDoubleShift(H, lo, iHi, true, exceptional ? &shiftSum : nullptr,
+																   exceptional ? &shiftProduct : nullptr);
+				H = step.H;
+				for (int i = lo + 2; i <= iHi; i++)
+					for (int j = lo; j < i - 1; j++)
+						H(i, j) = 0.0;
+
+				// Accumulate Q
+				Matrix<Real> newQ(n, n);
+				for (int i = 0; i < n; i++)
+					for (int j = 0; j < n; j++) {
+						newQ(i, j) = 0.0;
+						for (int k = 0; k < n; k++)
+							newQ(i, j) += Q(i, k) * step.Q(k, j);
+					}
+				Q = newQ;
+				totalIter++;
 			}
+			result.iterations = totalIter;
+			result.converged = (iHi <= 0);
 
-			// Step 3: Extract eigenvalues from quasi-triangular form
-			auto eigResult = EigenSolverHelpers::ExtractEigenvalues(H, tol);
-
-			// Convert to our ComplexEigenvalue format
+			// Step 3: Extract eigenvalues
+			auto eigResult = EigenSolverHelpers::ExtractEigenvalues(H, 0.0);
 			for (const auto& e : eigResult.eigenvalues)
 				result.eigenvalues.push_back(ComplexEigenvalue(e.real, e.imag));
 
 			// Step 4: Compute eigenvectors
-			auto vecResult = EigenSolverHelpers::ComputeEigenvectorsFromSchur(H, Q, tol);
+			auto vecResult = EigenSolverHelpers::ComputeEigenvectorsFromSchur(H, Q, 0.0);
 			result.eigenvectors = vecResult.vectors;
 			result.isComplexPair = vecResult.isComplexPair;
 
-			// Step 5: Compute residuals and check convergence
-			result.iterations = totalIter;
+			// Residuals: A*vr = lambda*vr - mu*vi, A*vi = mu*vr + lambda*vi for a pair
 			result.maxResidual = 0.0;
-			result.converged = (totalIter < maxIter);
-
-			// Verify eigenvector quality
-			for (size_t i = 0; i < result.eigenvalues.size(); i++) {
-				if (!result.isComplexPair[i] || (i > 0 && result.isComplexPair[i - 1])) {
-					Vector<Real> v(n);
-					for (int j = 0; j < n; j++)
-						v[j] = result.eigenvectors(j, static_cast<int>(i));
-
-					Real residual = EigenSolverHelpers::EigenvectorResidual(A, v, result.eigenvalues[i].real, result.eigenvalues[i].imag);
-					result.maxResidual = std::max(result.maxResidual, residual);
+			for (int k = 0; k < n; k++) {
+				bool pair = result.isComplexPair[k] && k + 1 < n;
+				Real re = result.eigenvalues[k].real, im = pair ? result.eigenvalues[k].imag : 0.0;
+				Real residual = 0.0;
+				for (int i = 0; i < n; i++) {
+					Real vr = result.eigenvectors(i, k), vi = pair ? result.eigenvectors(i, k + 1) : 0.0;
+					Real dr = -re * vr + im * vi, di = -im * vr - re * vi;
+					for (int j = 0; j < n; j++) {
+						dr += S(i, j) * result.eigenvectors(j, k);
+						if (pair)
+							di += S(i, j) * result.eigenvectors(j, k + 1);
+					}
+					residual += dr * dr + (pair ? di * di : 0.0);
 				}
+				result.maxResidual = std::max(result.maxResidual, std::sqrt(residual));
+				if (pair)
+					k++;
+			}
+
+			result.maxResidual *= scale;
+			for (auto& e : result.eigenvalues) {
+				e.real *= scale;
+				e.imag *= scale;
 			}
 
 			return result;
diff --git a/mml/algorithms/MatrixAlg.h b/mml/algorithms/MatrixAlg.h
index a247f17..0901691 100644
--- a/mml/algorithms/MatrixAlg.h
+++ b/mml/algorithms/MatrixAlg.h
@@ -137,7 +137,7 @@ namespace MML {
 
 			if (numNegative == 0 && numZero == 0)
 				return Definiteness::PositiveDefinite;
-			else if (numNegative == 0 && numPositive > 0)
+			else if (numNegative == 0) // including the zero matrix
 				return Definiteness::PositiveSemiDefinite;
 			else if (numPositive == 0 && numZero == 0)
 				return Definiteness::NegativeDefinite;
@@ -219,13 +219,11 @@ namespace MML {
 		/// @param tol Tolerance for eigenvalue comparison
 		/// @return true if A is negative semi-definite (includes negative definite)
 		inline bool IsNegativeSemiDefinite(const MatrixSym<Real>& A, Real tol = 1e-10) {
-			auto def = ClassifyDefiniteness(A, tol);
-			return def == Definiteness::NegativeDefinite || def == Definiteness::NegativeSemiDefinite;
+			return IsPositiveSemiDefinite(-A, tol);
 		}
 
 		inline bool IsNegativeSemiDefinite(const Matrix<Real>& A, Real tol = 1e-10) {
-			auto def = ClassifyDefiniteness(A, tol);
-			return def == Definiteness::NegativeDefinite || def == Definiteness::NegativeSemiDefinite;
+			return IsPositiveSemiDefinite(-A, tol);
 		}
 
 		/// Check if matrix is indefinite (has both positive and negative eigenvalues).
diff --git a/mml/core/MatrixUtils.h b/mml/core/MatrixUtils.h
index bf90333..cef0c5f 100644
--- a/mml/core/MatrixUtils.h
+++ b/mml/core/MatrixUtils.h
@@ -47,7 +47,7 @@ namespace MML
 		{
 			int n = H.rows();
 			for (int i = 2; i < n; i++)
-				for (int j = 0; j < i - 1; j++)
+				for (int j = 0; j < i - 1 && j < H.cols(); j++)
 					if (std::abs(H(i, j)) > tol)
 						return false;
 			return true;
@@ -65,7 +65,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 1; i < n; i++)
-				for (int j = 0; j < i; j++)
+				for (int j = 0; j < i && j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -83,7 +83,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = i + 1; j < n; j++)
+				for (int j = i + 1; j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -101,7 +101,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = 0; j < n; j++)
+				for (int j = 0; j < A.cols(); j++)
 					if (i != j && std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -303,11 +303,11 @@ namespace MML
 			Matrix<Type> M = A;
 			for (int k = 1; k < N; k++)
 			{
-				M = A * M;
 				if (M.isZero())
 					return true;
+				M = A * M;
 			}
-			return false;
+			return M.isZero();
 		}
 
 		/**
@@ -343,6 +343,8 @@ namespace MML
 		inline void FaddeevAlg(const Matrix<Real>& A, PolynomRealFunc& outCharPoly, Real& outDet, Matrix<Real>& outInv)
 		{
 			int N = A.rows();
+			if (N != A.cols())
+				throw MatrixDimensionError("FaddeevAlg - must be square matrix", N, A.cols(), -1, -1);
 
 			auto identMat = Matrix<Real>::Identity(N);
 			Matrix<Real> nullMat(N, N);
@@ -537,7 +539,7 @@ namespace MML
 			result.rank = svd.Rank(tol);
 			
 			// Condition number = σ_max / σ_min
-			int n = result.singularValues.size();
+			int n = std::min(A.rows(), A.cols()); // a wide matrix has zeros beyond its singular values
 			if (n > 0 && result.singularValues[n-1] > 0)
 				result.conditionNumber = result.singularValues[0] / result.singularValues[n-1];
 			else
@@ -610,7 +612,7 @@ namespace MML
 		{
 			SVDecompositionSolver<Real> svd(A);
 			Vector<Real> w = svd.getW();
-			int n = w.size();
+			int n = std::min(A.rows(), A.cols()); // a wide matrix has zeros beyond its singular values
 			
 			if (n == 0 || w[n-1] <= 0.0)
 				return std::numeric_limits<Real>::infinity();
-- 
2.43.0


From d0c2e54621c749852ad7019c3a7a4c2bd270e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:28 +0000
Subject: [PATCH 17/41] fix: quaternion rotation angle near identity, axis of
 tiny rotations, Euler angles at gimbal lock

---
 mml/base/Quaternions.h | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/mml/base/Quaternions.h b/mml/base/Quaternions.h
index 49db99c..6b8299f 100644
--- a/mml/base/Quaternions.h
+++ b/mml/base/Quaternions.h
@@ -372,9 +372,6 @@ namespace MML
 		/// @return Unit vector along rotation axis
 		Vec3Cart GetRotationAxis() const
 		{
-			if (isIdentity())
-				return Vec3Cart(0, 0, 1);
-			
 			Vec3Cart axis(_data[1], _data[2], _data[3]);
 			Real vecNorm = axis.NormL2();
 			
@@ -388,13 +385,9 @@ namespace MML
 		/// @return Rotation angle θ = 2*acos(w)
 		Real GetRotationAngle() const
 		{
-			Real w = _data[0];
-			
-			// Clamp to [-1, 1] for numerical stability
-			if (w > 1.0) w = 1.0;
-			if (w < -1.0) w = -1.0;
-			
-			return 2.0 * std::acos(w);
+			// atan2 keeps full accuracy for small rotations, where w is close to 1
+			Real vecNorm = std::sqrt(_data[1] * _data[1] + _data[2] * _data[2] + _data[3] * _data[3]);
+			return 2.0 * std::atan2(vecNorm, _data[0]);
 		}
 
 		/// @brief Get axis-angle representation
@@ -419,11 +412,12 @@ namespace MML
 			
 			// Pitch (y-axis rotation)
 			Real sinp = 2.0 * (w * y - z * x);
-			Real pitch;
-			if (std::abs(sinp) >= 1.0)
-				pitch = std::copysign(Constants::PI / 2.0, sinp); // Gimbal lock
-			else
-				pitch = std::asin(sinp);
+			Real cosp = std::sqrt(sinr_cosp * sinr_cosp + cosr_cosp * cosr_cosp);
+			Real pitch = std::atan2(sinp, cosp);
+			
+			// Gimbal lock: only yaw and roll together are determined, so all of it goes into yaw
+			if (cosp < 1e-7)
+				return Vec3Cart(std::atan2((sinp > 0 ? -2.0 : 2.0) * w * x, w * w - x * x), std::copysign(Constants::PI / 2.0, sinp), 0.0);
 			
 			// Yaw (z-axis rotation)
 			Real siny_cosp = 2.0 * (w * z + x * y);
-- 
2.43.0


From 140e468110cfe582cd80a1305575817aee55428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:28 +0000
Subject: [PATCH 18/41] fix: tensor transforms keep the variance, use inverse
 derivatives at the image point, compile for rank 3 to 5

---
 mml/core/CoordTransf.h | 52 +++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/mml/core/CoordTransf.h b/mml/core/CoordTransf.h
index 69439ed..afcdc65 100644
--- a/mml/core/CoordTransf.h
+++ b/mml/core/CoordTransf.h
@@ -230,7 +230,8 @@ namespace MML
 		/// @return Transformed tensor in target coordinates
 		Tensor2<N> transfTensor2(const Tensor2<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor2<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor2<N> ret = tensor;   // same variance at every index position
+			const VectorTo posTo = this->transf(pos);   // inverse derivatives are taken at the image of pos
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -243,12 +244,12 @@ Real coef1, coef2;
 							if (tensor.IsContravar(0))
 								coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), k, pos);
 							else
-								coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, pos);
+								coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, posTo);
 
 							if (tensor.IsContravar(1))
 								coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), l, pos);
 							else
-								coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), j, pos);
+								coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), j, posTo);
 
 							ret(i, j) += coef1 * coef2 * tensor(k, l);
 						}
@@ -262,13 +263,14 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor3<N> transfTensor3(const Tensor3<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor3<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor3<N> ret = tensor;   // same variance at every index position
+			const VectorTo posTo = this->transf(pos);   // inverse derivatives are taken at the image of pos
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
 					for (int k = 0; k < N; k++)
 					{
-						ret.Component(i, j, k) = 0;
+						ret(i, j, k) = 0;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 								for (int n = 0; n < N; n++)
@@ -277,19 +279,19 @@ Real coef1, coef2;
 									if (tensor.IsContravar(0))
 										coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), l, pos);
 									else
-										coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), i, pos);
+										coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), i, posTo);
 
 									if (tensor.IsContravar(1))
 										coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), m, pos);
 									else
-										coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), j, pos);
+										coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), j, posTo);
 
 									if (tensor.IsContravar(2))
 										coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), n, pos);
 									else
-										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, pos);
+										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, posTo);
 
-									ret.Component(i, j, k) += coef1 * coef2 * coef3 * tensor.Component(l, m, n);
+									ret(i, j, k) += coef1 * coef2 * coef3 * tensor(l, m, n);
 								}
 					}
 
@@ -301,14 +303,15 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor4<N> transfTensor4(const Tensor4<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor4<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor4<N> ret = tensor;   // same variance at every index position
+			const VectorTo posTo = this->transf(pos);   // inverse derivatives are taken at the image of pos
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
 					for (int k = 0; k < N; k++)
 						for (int l = 0; l < N; l++)
 						{
-							ret[i][j][k][l] = 0;
+							ret(i, j, k, l) = 0;
 							for (int m = 0; m < N; m++)
 								for (int n = 0; n < N; n++)
 									for (int o = 0; o < N; o++)
@@ -318,24 +321,24 @@ Real coef1, coef2;
 											if (tensor.IsContravar(0))
 												coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), m, pos);
 											else
-												coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), i, pos);
+												coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), i, posTo);
 
 											if (tensor.IsContravar(1))
 												coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), n, pos);
 											else
-												coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), j, pos);
+												coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), j, posTo);
 
 											if (tensor.IsContravar(2))
 												coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), o, pos);
 											else
-												coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), k, pos);
+												coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), k, posTo);
 
 											if (tensor.IsContravar(3))
 												coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), p, pos);
 											else
-												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, pos);
+												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, posTo);
 
-											ret[i][j][k][l] += coef1 * coef2 * coef3 * coef4 * tensor[m][n][o][p];
+											ret(i, j, k, l) += coef1 * coef2 * coef3 * coef4 * tensor(m, n, o, p);
 										}
 						}
 
@@ -347,7 +350,8 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor5<N> transfTensor5(const Tensor5<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor5<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor5<N> ret = tensor;   // same variance at every index position
+			const VectorTo posTo = this->transf(pos);   // inverse derivatives are taken at the image of pos
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -355,7 +359,7 @@ Real coef1, coef2;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 							{
-								ret[i][j][k][l][m] = 0;
+								ret(i, j, k, l, m) = 0;
 								for (int n = 0; n < N; n++)
 									for (int o = 0; o < N; o++)
 										for (int p = 0; p < N; p++)
@@ -366,28 +370,28 @@ Real coef1, coef2;
 													if (tensor.IsContravar(0))
 														coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), n, pos);
 													else
-														coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), i, pos);
+														coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), i, posTo);
 
 													if (tensor.IsContravar(1))
 														coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), o, pos);
 													else
-														coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), j, pos);
+														coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), j, posTo);
 
 													if (tensor.IsContravar(2))
 														coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), p, pos);
 													else
-														coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), k, pos);
+														coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), k, posTo);
 
 													if (tensor.IsContravar(3))
 														coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), q, pos);
 													else
-														coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(q), l, pos);
+														coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(q), l, posTo);
 
 													if (tensor.IsContravar(4))
 												coef5 = Derivation::NDer4Partial(this->coordTransfFunc(m), r, pos);
 											else
-												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, pos);
-													ret[i][j][k][l][m] += coef1 * coef2 * coef3 * coef4 * coef5 * tensor[n][o][p][q][r];
+												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, posTo);
+													ret(i, j, k, l, m) += coef1 * coef2 * coef3 * coef4 * coef5 * tensor(n, o, p, q, r);
 												}
 							}
 
-- 
2.43.0


From 67c715a160b11803bb2bbaf154985c82d4251831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:28 +0000
Subject: [PATCH 19/41] fix: inverse of the oblique-scaled orthogonal transform
 divides by the squared base length

---
 mml/core/CoordTransf/CoordTransf3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index 6b3d814..8c274fc 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -368,7 +368,7 @@ namespace MML
 				for (int j = 0; j < 3; j++)
 				{
 					_transf(i, j) = _base[i][j];
-					_transfInverse(i, j) = _base[j][i];
+					_transfInverse(i, j) = _base[j][i] / (_base[j] * _base[j]);   // the base need not be normalised
 				}
 			}
 		}
-- 
2.43.0


From dcecef60f284e03b5a53864224a728dbc7c91bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:28 +0000
Subject: [PATCH 20/41] fix: spherical theta keeps accuracy near the axis

---
 mml/core/CoordTransf/CoordTransfSpherical.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mml/core/CoordTransf/CoordTransfSpherical.h b/mml/core/CoordTransf/CoordTransfSpherical.h
index 71e778a..83507e9 100644
--- a/mml/core/CoordTransf/CoordTransfSpherical.h
+++ b/mml/core/CoordTransf/CoordTransfSpherical.h
@@ -82,9 +82,7 @@ namespace MML
 		static Real r(const VectorN<Real, 3>& q)		 { return sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2]); }
 		/// @brief Convert Cartesian to spherical polar angle (inclination from z-axis)
 		static Real theta(const VectorN<Real, 3>& q) {
-			Real r = sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2]);
-			if (r < std::numeric_limits<Real>::epsilon() * 100) return Real(0);
-			return acos(std::clamp(q[2] / r, Real(-1), Real(1)));
+			return atan2(sqrt(q[0] * q[0] + q[1] * q[1]), q[2]);   // accurate near the axis; 0 at the origin
 		}
 		/// @brief Convert Cartesian to spherical azimuthal angle
 		static Real phi(const VectorN<Real, 3>& q)	 { return atan2(q[1], q[0]); }
@@ -192,9 +190,7 @@ namespace MML
 		static Real r(const VectorN<Real, 3>& q) { return sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]); }
 		/// @brief Convert Cartesian to spherical polar angle
 		static Real theta(const VectorN<Real, 3>& q) {
-			Real r = sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
-			if (r < std::numeric_limits<Real>::epsilon() * 100) return Real(0);
-			return acos(std::clamp(q[2] / r, Real(-1), Real(1)));
+			return atan2(sqrt(q[0] * q[0] + q[1] * q[1]), q[2]);   // accurate near the axis; 0 at the origin
 		}
 		/// @brief Convert Cartesian to spherical azimuthal angle
 		static Real phi(const VectorN<Real, 3>& q) { return atan2(q[1], q[0]); }
-- 
2.43.0


From 728b5e0c5191febefffe3844c4dbdabd882df9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:20 +0000
Subject: [PATCH 21/41] fix: root finders set the failure status, survive
 underflowing sign tests and keep the bracket

---
 mml/algorithms/RootFinding/RootFindingBase.h  | 19 ++++++++
 .../RootFinding/RootFindingBracketing.h       | 18 +++++--
 .../RootFinding/RootFindingMethods.h          | 47 +++++++++++++++----
 3 files changed, 70 insertions(+), 14 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingBase.h b/mml/algorithms/RootFinding/RootFindingBase.h
index ec9b31b..062086f 100644
--- a/mml/algorithms/RootFinding/RootFindingBase.h
+++ b/mml/algorithms/RootFinding/RootFindingBase.h
@@ -12,7 +12,11 @@
 #if !defined MML_ROOTFINDING_BASE_H
 #define MML_ROOTFINDING_BASE_H
 
+#include <algorithm>
+#include <cmath>
+
 #include "mml/MMLBase.h"
+#include "mml/interfaces/IFunction.h"
 #include "mml/core/AlgorithmTypes.h"
 
 namespace MML {
@@ -91,6 +95,21 @@ namespace MML {
 			double elapsed_time_ms = 0.0;
 		};
 
+
+		/// @brief True if a and b have strictly opposite signs (their product could underflow to zero)
+		inline bool HasOppositeSigns(Real a, Real b) {
+			return (a < 0.0 && b > 0.0) || (a > 0.0 && b < 0.0);
+		}
+
+		/// @brief True if |fx| is below tol, or func changes sign within tol of x (inside [lo, hi])
+		/// @details A short step alone does not show that a root is near.
+		inline bool IsRootWithin(const IRealFunction& func, Real x, Real fx, Real tol, Real lo, Real hi) {
+			if (std::abs(fx) < tol || fx == 0.0)
+				return true;
+			const Real d = tol + 4.0 * Constants::Eps * std::abs(x);
+			const Real left = func(std::max(lo, x - d)), right = func(std::min(hi, x + d));
+			return left == 0.0 || right == 0.0 || HasOppositeSigns(left, right) || HasOppositeSigns(left, fx);
+		}
 	} // namespace RootFinding
 } // namespace MML
 
diff --git a/mml/algorithms/RootFinding/RootFindingBracketing.h b/mml/algorithms/RootFinding/RootFindingBracketing.h
index 1998ab0..f13f9cf 100644
--- a/mml/algorithms/RootFinding/RootFindingBracketing.h
+++ b/mml/algorithms/RootFinding/RootFindingBracketing.h
@@ -82,7 +82,7 @@ namespace MML {
 			Real f2 = func(x2);
 
 			for (int j = 0; j < MaxTry; j++) {
-				if (f1 * f2 < 0.0)
+				if (HasOppositeSigns(f1, f2))
 					return true;
 
 				if (std::abs(f1) < std::abs(f2))
@@ -155,7 +155,7 @@ namespace MML {
 				x += dx;
 				Real fc = func(x);
 
-				if (fc * fp <= 0.0) {
+				if (fc == 0.0 || fp == 0.0 || HasOppositeSigns(fc, fp)) {
 					xb1[numRoots] = x - dx;
 					xb2[numRoots++] = x;
 					if (numRoots == numBrackets) {
@@ -166,6 +166,8 @@ namespace MML {
 				}
 				fp = fc;
 			}
+			xb1.Resize(numRoots, true);
+			xb2.Resize(numRoots, true);
 			return numRoots;
 		}
 
@@ -267,11 +269,13 @@ namespace MML {
 
 			// Check for non-finite initial values using shared validation helper
 			if (!IsFunctionValueValid(f) || !IsFunctionValueValid(fmid)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootBisection";
 				return result;
 			}
 
-			if (f * fmid >= 0.0) {
+			if (!HasOppositeSigns(f, fmid)) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for bisection in FindRootBisection";
 				return result;
 			}
@@ -297,6 +301,7 @@ namespace MML {
 					result.function_value = fmid;
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootBisection iteration";
 					return result;
 				}
@@ -323,6 +328,7 @@ namespace MML {
 			result.function_value = func(rtb);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Too many bisections in FindRootBisection";
 			return result;
 		}
@@ -404,10 +410,12 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootFalsePosition";
 				return result;
 			}
-			if (f1 * f2 >= 0.0) {
+			if (!HasOppositeSigns(f1, f2)) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for false position";
 				return result;
 			}
@@ -429,6 +437,7 @@ namespace MML {
 					result.root = rtf;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootFalsePosition";
 					return result;
 				}
@@ -460,6 +469,7 @@ namespace MML {
 			result.function_value = func(rtf);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootFalsePosition";
 			return result;
 		}
diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index 65d2555..2d3b69c 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -145,7 +145,8 @@ namespace MML {
 
 			Real f1 = func(x1);
 			Real f2 = func(x2);
-			if (f1 * f2 > 0.0) {
+			if ((f1 > 0.0 && f2 > 0.0) || (f1 < 0.0 && f2 < 0.0)) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Newton-Raphson method";
 				return result;
 			}
@@ -163,6 +164,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite derivative in FindRootNewton";
 					return result;
 				}
@@ -171,6 +173,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 					result.error_message = "Zero or near-zero derivative in FindRootNewton";
 					return result;
 				}
@@ -182,6 +185,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite step in FindRootNewton";
 					return result;
 				}
@@ -198,6 +202,7 @@ namespace MML {
 					result.function_value = func(rtn);
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
+					result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 					result.error_message = "Jumped out of brackets in FindRootNewton";
 					return result;
 				}
@@ -216,6 +221,7 @@ namespace MML {
 			result.function_value = func(rtn);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootNewton";
 			return result;
 		}
@@ -297,15 +303,18 @@ namespace MML {
 		static RootFindingResult FindRootSecant(const IRealFunction& func, Real x1, Real x2,
 												const RootFindingConfig& config) {
 			RootFindingResult result;
+			const Real xlo = std::min(x1, x2), xhi = std::max(x1, x2);
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootSecant";
 				return result;
 			}
 
-			if (f1 * f2 > 0.0) {
+			if ((f1 > 0.0 && f2 > 0.0) || (f1 < 0.0 && f2 < 0.0)) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Secant method";
 				return result;
 			}
@@ -325,6 +334,7 @@ namespace MML {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite step in FindRootSecant";
 					return result;
 				}
@@ -338,6 +348,7 @@ namespace MML {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootSecant";
 					return result;
 				}
@@ -347,12 +358,17 @@ namespace MML {
 							  << ", f(x)=" << f2 << ", dx=" << dx << std::endl;
 				}
 
-				if (std::abs(dx) < config.tolerance) {
+				if (std::abs(dx) < config.tolerance && (x2 < xlo || x2 > xhi || IsRootWithin(func, x2, f2, config.tolerance, xlo, xhi))) {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
-					result.converged = true;
 					result.achieved_tolerance = std::abs(dx);
+					if (x2 < xlo || x2 > xhi) {
+						result.status = AlgorithmStatus::AlgorithmSpecificFailure;
+						result.error_message = "Converged outside the initial bracket in FindRootSecant";
+						return result;
+					}
+					result.converged = true;
 					return result;
 				}
 			}
@@ -361,6 +377,7 @@ namespace MML {
 			result.function_value = f2;
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootSecant";
 			return result;
 		}
@@ -454,10 +471,12 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootRidders";
 				return result;
 			}
-			if (f1 * f2 >= 0.0) {
+			if (!HasOppositeSigns(f1, f2)) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Ridders method";
 				return result;
 			}
@@ -473,11 +492,13 @@ namespace MML {
 					result.root = ans;
 					result.function_value = fm;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootRidders";
 					return result;
 				}
 
-				Real s = std::sqrt(fm * fm - f1 * f2);
+				// in units of f1, so that the products cannot underflow
+				Real s = std::sqrt((fm / f1) * (fm / f1) - f2 / f1);
 				if (s == 0.0) {
 					result.root = ans;
 					result.function_value = func(ans);
@@ -487,9 +508,9 @@ namespace MML {
 					return result;
 				}
 
-				Real xnew = xm + (xm - x1) * ((f1 >= f2 ? 1.0 : -1.0) * fm / s);
+				Real xnew = xm + (xm - x1) * ((f1 >= f2 ? 1.0 : -1.0) * (fm / std::abs(f1)) / s);
 
-				if (std::abs(xnew - ans) <= config.tolerance) {
+				if (j > 0 && std::abs(xnew - ans) <= config.tolerance && IsRootWithin(func, ans, func(ans), config.tolerance, std::min(x1, x2), std::max(x1, x2))) {
 					result.root = ans;
 					result.function_value = func(ans);
 					result.iterations_used = j + 1;
@@ -505,6 +526,7 @@ namespace MML {
 					result.root = ans;
 					result.function_value = fnew;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootRidders";
 					return result;
 				}
@@ -514,7 +536,7 @@ namespace MML {
 							  << ", f(x)=" << fnew << std::endl;
 				}
 
-				if (std::abs(fnew) < config.tolerance) {
+				if (std::abs(fnew) < config.tolerance || fnew == 0.0) {
 					result.root = ans;
 					result.function_value = fnew;
 					result.iterations_used = j + 1;
@@ -551,6 +573,7 @@ namespace MML {
 			result.function_value = func(ans);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootRidders";
 			return result;
 		}
@@ -660,10 +683,12 @@ namespace MML {
 			Real fa = func(a), fb = func(b), fc, p, q, r, s, tol1, xm;
 
 			if (!IsFunctionValueValid(fa) || !IsFunctionValueValid(fb)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootBrent";
 				return result;
 			}
-			if (fa * fb >= 0.0) {
+			if (!HasOppositeSigns(fa, fb)) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Brent method";
 				return result;
 			}
@@ -745,6 +770,7 @@ namespace MML {
 					result.root = b;
 					result.function_value = fb;
 					result.iterations_used = iter + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootBrent";
 					return result;
 				}
@@ -754,6 +780,7 @@ namespace MML {
 			result.function_value = fb;
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(xm);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootBrent";
 			return result;
 		}
-- 
2.43.0


From bcd92ba22a43624112e8ed5c71c4478bc70d9371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:23 +0000
Subject: [PATCH 22/41] fix: golden section respects iteration limits and ends
 at zero; multidimensional minimisers report failure and never step uphill

---
 mml/algorithms/Optimization.h         | 30 +++++++++++++++++++++------
 mml/algorithms/OptimizationMultidim.h |  9 ++++++--
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index b8d647f..ffab27a 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -219,6 +219,13 @@ namespace MML {
 			result.fb = func(result.bx);
 			ValidateFunctionValue(result.fb, "BracketMinimum: f(b)");
 
+			// Coinciding points give no direction to search in
+			if (a == b) {
+				result.cx = result.bx;
+				result.fc = result.fb;
+				return result;
+			}
+
 			// Ensure we're going downhill from ax to bx
 			if (result.fb > result.fa) {
 				std::swap(result.ax, result.bx);
@@ -350,12 +357,14 @@ namespace MML {
 		/// @param func    Real function to minimize
 		/// @param bracket Pre-computed bracket from BracketMinimum
 		/// @param tol     Fractional tolerance (default: 3e-8, ≈ √(machine epsilon))
+		/// @param maxIter Maximum iterations; when exceeded the result is not marked converged
 		/// @return MinimizationResult with xmin, fmin, and iteration count
 		///
 		/// @note Based on Numerical Recipes §10.2
 		/// @see BracketMinimum to obtain initial bracket
 		/// @see BrentMinimize for typically faster convergence
-		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, const MinimumBracket& bracket, Real tol = 3.0e-8) {
+		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, const MinimumBracket& bracket, Real tol = 3.0e-8,
+													  int maxIter = 5000) {
 			// Input validation
 			ValidateTolerance(tol, "GoldenSectionSearch");
 			if (!bracket.valid) {
@@ -386,7 +395,14 @@ namespace MML {
 			Real f2 = func(x2);
 
 			// Main iteration loop
-			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2))) {
+			bool converged = true;
+			// absolute floor, so that a minimum at x = 0 can be reached (as in BrentMinimize)
+			const Real ZEPS = std::numeric_limits<Real>::epsilon() * 1.0e-3;
+			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2)) + ZEPS) {
+				if (result.iterations >= maxIter) {
+					converged = false;
+					break;
+				}
 				result.iterations++;
 
 				if (f2 < f1) {
@@ -415,7 +431,9 @@ namespace MML {
 				result.fmin = f2;
 			}
 
-			result.converged = true;
+			result.converged = converged;
+			if (!converged)
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
@@ -426,13 +444,13 @@ namespace MML {
 		/// @param b     Initial right search bound
 		/// @param tol   Fractional tolerance
 		/// @return MinimizationResult with xmin, fmin, and iteration count
-		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, Real a, Real b, Real tol = 3.0e-8) {
+		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, Real a, Real b, Real tol = 3.0e-8, int maxIter = 5000) {
 			// Input validation (bounds validated in BracketMinimum, tolerance here)
 			ValidateTolerance(tol, "GoldenSectionSearch");
 			MinimumBracket bracket = BracketMinimum(func, a, b);
 			if (!bracket.valid)
 				throw OptimizationError("Failed to bracket minimum in GoldenSectionSearch");
-			return GoldenSectionSearch(func, bracket, tol);
+			return GoldenSectionSearch(func, bracket, tol, maxIter);
 		}
 
 		/*********************************************************************/
@@ -913,7 +931,7 @@ namespace MML {
 		                                               const Minimization1DConfig& config) {
 			AlgorithmTimer timer;  // Starts automatically
 
-			MinimizationResult result = GoldenSectionSearch(func, a, b, config.tolerance);
+			MinimizationResult result = GoldenSectionSearch(func, a, b, config.tolerance, config.max_iterations);
 			result.algorithm_name = "GoldenSection";
 			result.elapsed_time_ms = timer.elapsed_ms();
 
diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 864c2e8..9dc8f50 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -133,6 +133,7 @@ namespace MML::Optimization {
 			, fmin(f)
 			, iterations(iter)
 			, converged(conv)
+			, status(conv ? AlgorithmStatus::Success : AlgorithmStatus::MaxIterationsExceeded)
 			, function_evaluations(iter) {}
 	};
 
@@ -1381,7 +1382,9 @@ namespace MML::Optimization {
 				Real fnew = func(pnew);
 
 				if (alam < alamin) {
-					// Convergence on delta x
+					// Convergence on delta x: no decrease found along this direction
+					if (fnew > f)
+						return f;
 					for (int j = 0; j < N; ++j)
 						p[j] = pnew[j];
 					return fnew;
@@ -1814,7 +1817,7 @@ namespace MML::Optimization {
 			Vector<Real> result(N);
 			for (int j = 0; j < N; ++j)
 				result[j] = x[j];
-			return MultidimMinimizationResult(result, _fret, _iter + 1, converged);
+			return MultidimMinimizationResult(result, _fret, converged ? _iter + 1 : _iter, converged);
 		}
 
 		/// @brief Compute dot product of two VectorN
@@ -1885,6 +1888,8 @@ namespace MML::Optimization {
 				Real fnew = func(xnew);
 
 				if (alam < alamin) {
+					if (fnew > f)
+						return f;
 					for (int j = 0; j < N; ++j)
 						x[j] = xnew[j];
 					return fnew;
-- 
2.43.0


From b8c3fcb3e4e40fe0c96125ac86fad9faa5fa9353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:56 +0000
Subject: [PATCH 23/41] fix: secant search takes a bisection step instead of
 leaving the bracket

---
 .../RootFinding/RootFindingMethods.h          | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index 2d3b69c..e53da31 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -306,6 +306,7 @@ namespace MML {
 			const Real xlo = std::min(x1, x2), xhi = std::max(x1, x2);
 			Real f1 = func(x1);
 			Real f2 = func(x2);
+			Real lo = xlo, hi = xhi, flo = (x1 < x2) ? f1 : f2;  // current bracket
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
 				result.status = AlgorithmStatus::NumericalInstability;
@@ -339,6 +340,10 @@ namespace MML {
 					return result;
 				}
 
+				// A step out of the bracket is replaced by a bisection step
+				if (x2 - dx < lo || x2 - dx > hi)
+					dx = x2 - 0.5 * (lo + hi);
+
 				x1 = x2;
 				f1 = f2;
 				x2 -= dx;
@@ -358,16 +363,18 @@ namespace MML {
 							  << ", f(x)=" << f2 << ", dx=" << dx << std::endl;
 				}
 
-				if (std::abs(dx) < config.tolerance && (x2 < xlo || x2 > xhi || IsRootWithin(func, x2, f2, config.tolerance, xlo, xhi))) {
+				if (HasOppositeSigns(flo, f2))
+					hi = x2;
+				else {
+					lo = x2;
+					flo = f2;
+				}
+
+				if (std::abs(dx) < config.tolerance && IsRootWithin(func, x2, f2, config.tolerance, xlo, xhi)) {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
-					if (x2 < xlo || x2 > xhi) {
-						result.status = AlgorithmStatus::AlgorithmSpecificFailure;
-						result.error_message = "Converged outside the initial bracket in FindRootSecant";
-						return result;
-					}
 					result.converged = true;
 					return result;
 				}
-- 
2.43.0


From b781fef6a634b9cd9081c2ac63c23fc2e84c30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:32 +0000
Subject: [PATCH 24/41] fix: adaptive quadrature over boxes reports convergence
 and evaluations of subdivided cells, Gauss-Kronrod counts every evaluation

---
 mml/core/Integration/GaussKronrod.h          | 3 ++-
 mml/core/Integration/Integration2DAdaptive.h | 2 ++
 mml/core/Integration/Integration3DAdaptive.h | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index 059364f..3e2cb69 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -376,7 +376,8 @@ namespace MML {
 			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
 			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
 
-			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate, left.function_evals + right.function_evals,
+			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate,
+							local.function_evals + left.function_evals + right.function_evals,
 											left.converged && right.converged);
 		}
 
diff --git a/mml/core/Integration/Integration2DAdaptive.h b/mml/core/Integration/Integration2DAdaptive.h
index 5e3a4e5..7f94080 100644
--- a/mml/core/Integration/Integration2DAdaptive.h
+++ b/mml/core/Integration/Integration2DAdaptive.h
@@ -274,6 +274,8 @@ static AdaptiveResult2D IntegrateAdaptive2D_Recursive(
 
     AdaptiveResult2D result;
     result.cells_subdivided = 1;  // This cell was subdivided
+    result.function_evaluations = cell_result.function_evals;
+    result.converged = true;  // holds if it holds for every sub-cell
 
     // Process all 4 children
     result += IntegrateAdaptive2D_Recursive(f, x1, mx, y1, my, total_area, tol_abs, tol_rel, depth+1, max_depth, evals_remaining, rule);
diff --git a/mml/core/Integration/Integration3DAdaptive.h b/mml/core/Integration/Integration3DAdaptive.h
index d2754cd..07e355a 100644
--- a/mml/core/Integration/Integration3DAdaptive.h
+++ b/mml/core/Integration/Integration3DAdaptive.h
@@ -285,6 +285,8 @@ static AdaptiveResult3D IntegrateAdaptive3D_Recursive(
 
     AdaptiveResult3D result;
     result.cells_subdivided = 1;  // This cell was subdivided
+    result.function_evaluations = cell_result.function_evals;
+    result.converged = true;  // holds if it holds for every sub-cell
 
     // Process all 8 children (2×2×2 = 8 octants)
     // Lower z half (z1 to mz)
-- 
2.43.0


From 1962c96806cb25837e70afdb0594858f8f199ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:48 +0000
Subject: [PATCH 25/41] fix: interpolants accept descending nodes throughout,
 rational interpolation of constant data, closed curves close

---
 .../InterpolatedRealFunction.h                | 25 ++++++++++++-------
 .../InterpolationParametricCurve.h            | 11 +++++---
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index e226fe8..72d448f 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -92,11 +92,11 @@ namespace MML {
 
 		/// /** @brief Get the minimum x-value in the data. */
 
-		inline Real MinX() const { return X(0); }
+		inline Real MinX() const { return std::min(X(0), X(_numPoints - 1)); }
 
 		/// /** @brief Get the maximum x-value in the data. */
 
-		inline Real MaxX() const { return X(_numPoints - 1); }
+		inline Real MaxX() const { return std::max(X(0), X(_numPoints - 1)); }
 
 		/// @}
 
@@ -490,6 +490,13 @@ namespace MML {
 			Real integral = 0.0;
 			int iLow = locate(a);
 			int iHigh = locate(b);
+			// With descending x-values a lies in a later segment than b: walk from b to a
+			Real sign = 1.0;
+			if (iLow > iHigh) {
+				std::swap(iLow, iHigh);
+				std::swap(a, b);
+				sign = -1.0;
+			}
 
 			// Helper lambda to integrate one segment from x0 to x1 within [X(i), X(i+1)]
 			auto integrateSegment = [this](int i, Real x0, Real x1) -> Real {
@@ -536,7 +543,7 @@ namespace MML {
 				integral += integrateSegment(iHigh, X(iHigh), b);
 			}
 
-			return integral;
+			return sign * integral;
 		}
 
 		/// @}
@@ -585,7 +592,6 @@ namespace MML {
 	class RationalInterpRealFunc : public RealFunctionInterpolated {
 	private:
 		mutable Real _errorEst;
-		static constexpr Real TINY = 1.0e-99; ///< Small number to prevent 0/0
 
 	public:
 		/// @brief Construct a rational interpolation function.
@@ -624,7 +630,7 @@ namespace MML {
 					hh = h;
 				}
 				c[i] = Y(startInd + i);
-				d[i] = Y(startInd + i) + TINY; // TINY prevents rare zero-over-zero condition
+				d[i] = Y(startInd + i);
 			}
 			y = Y(startInd + ns--);
 
@@ -634,9 +640,10 @@ namespace MML {
 					h = X(startInd + i + m) - x;
 					t = (X(startInd + i) - x) * d[i] / h;
 					dd = t - c[i + 1];
-					if (dd == 0.0)
+					if (dd == 0.0 && w != 0.0)
 						throw RealFuncInterpRuntimeError("Error in RationalInterpRealFunc: pole detected");
-					dd = w / dd;
+					// 0/0: both neighbouring tableau entries agree, so there is nothing to correct
+					dd = (dd == 0.0) ? 0.0 : w / dd;
 					d[i] = c[i + 1] * dd;
 					c[i] = t * dd;
 				}
@@ -733,11 +740,11 @@ namespace MML {
 
 		/// /** @brief Get the minimum x-value. */
 
-		Real MinX() const { return _x[0]; }
+		Real MinX() const { return std::min(_x[0], _x[_n - 1]); }
 
 		/// /** @brief Get the maximum x-value. */
 
-		Real MaxX() const { return _x[_n - 1]; }
+		Real MaxX() const { return std::max(_x[0], _x[_n - 1]); }
 
 		/// /** @brief Get the number of data points. */
 
diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index 8d7aeef..e1bc2a0 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -70,10 +70,13 @@ namespace MML {
 		/// @param close If true, the curve is closed (connects last to first point)
 
 		LinInterpParametricCurve(const Matrix<Real>& ptsin, bool close = false)
-			: _numPoints(ptsin.rows())
-			, _curvePoints(ptsin)
+			: _numPoints(ptsin.rows() + (close ? 1 : 0)) // a closed curve returns to its first point
+			, _curvePoints(_numPoints, ptsin.cols())
 			, _arcLen(_numPoints)
 			, _isCurveClosed(close) {
+			for (int i = 0; i < _numPoints; ++i)
+				for (int j = 0; j < ptsin.cols(); ++j)
+					_curvePoints[i][j] = ptsin[i % ptsin.rows()][j];
 			// Compute normalized arc length parameterization
 			_arcLen[0] = 0.0;
 			Real totalLen = 0.0;
@@ -256,11 +259,11 @@ namespace MML {
 
 			VectorN<Real, N> ans;
 
+			// we have to map t from [minT, maxT] to [0, 1]
+			t = (t - _minT) / (_maxT - _minT);
 			if (_isCurveClosed)
 				t = t - floor(t);
 
-			// we have to map t from [minT, maxT] to [0, 1]
-			t = (t - _minT) / (_maxT - _minT);
 			for (int j = 0; j < _dim; j++)
 				ans[j] = (*srp[j])(t);
 
-- 
2.43.0


From 65d715258ea00cc55e5761630392331627ab8893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:47 +0000
Subject: [PATCH 26/41] fix: LinearSystem answers by the tolerance asked, fills
 the LU factors, substitutes only exactly triangular square systems, refuses
 single-RHS calls with several right-hand sides

---
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 14 +++++++
 mml/systems/LinearSystem.h              | 49 +++++++++++++++++++------
 2 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 2401f6e..6a046fb 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -463,6 +463,20 @@ namespace MML
 				dd = dd * _lu[i][i];
 			return dd;
 		}
+
+		/// @brief Combined factors: L (unit diagonal) below, U on and above the diagonal
+		const Matrix<Type>& LU() const { return _lu; }
+
+		/// @brief Row permutation: row i of L*U is row Permutation()[i] of the original matrix
+		std::vector<int> Permutation() const
+		{
+			std::vector<int> perm(_n);
+			for (int i = 0; i < _n; i++)
+				perm[i] = i;
+			for (int i = 0; i < _n; i++)
+				std::swap(perm[i], perm[_indx[i]]);
+			return perm;
+		}
 	};
 
 
diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 412feca..3835d79 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -455,7 +455,8 @@ namespace MML::Systems
 
 		/// @brief Check if matrix is symmetric within tolerance
 		bool isSymmetric(Type tol = Precision::DefaultToleranceStrict) const {
-			if (!_isSymmetric.has_value()) {
+			if (!_isSymmetric.has_value() || _isSymmetricTol != tol) {
+				_isSymmetricTol = tol;
 				if (!isSquare()) {
 					_isSymmetric = false;
 				} else {
@@ -474,12 +475,18 @@ namespace MML::Systems
 		///
 		/// @note Attempts Cholesky decomposition
 		bool isPositiveDefinite(Type tol = Precision::DefaultToleranceStrict) const {
-			if (!_isPositiveDefinite.has_value()) {
+			if (!_isPositiveDefinite.has_value() || _isPositiveDefiniteTol != tol) {
+				_isPositiveDefiniteTol = tol;
 				if (!isSymmetric(tol)) {
 					_isPositiveDefinite = false;
 				} else {
 					try {
-						CholeskySolver<Type> solver(_A);
+						// The factorization reads one triangle and insists on exact symmetry
+						Matrix<Type> S(_A);
+						for (int i = 0; i < rows(); ++i)
+							for (int j = 0; j < i; ++j)
+								S(i, j) = S(j, i) = (_A(i, j) + _A(j, i)) / 2;
+						CholeskySolver<Type> solver(S);
 						_isPositiveDefinite = true;
 					} catch (const SingularMatrixError&) {
 						_isPositiveDefinite = false;
@@ -546,9 +553,10 @@ namespace MML::Systems
 		///
 		/// @param tol Threshold below which singular values are considered zero
 		int Rank(Type tol = -1) const {
-			if (!_rank.has_value()) {
+			if (!_rank.has_value() || _rankTol != tol) {
 				SVDecompositionSolver<Type> solver(_A);
 				_rank = solver.Rank(tol);
+				_rankTol = tol;
 			}
 			return *_rank;
 		}
@@ -879,6 +887,11 @@ namespace MML::Systems
 		mutable std::optional<Type> _conditionNumber;
 		mutable std::optional<int> _rank;
 
+		// Tolerances the cached answers were computed with
+		mutable Type _isSymmetricTol = 0;
+		mutable Type _isPositiveDefiniteTol = 0;
+		mutable Type _rankTol = 0;
+
 		//=========================================================================
 		// INTERNAL HELPERS
 		//=========================================================================
@@ -886,6 +899,8 @@ namespace MML::Systems
 		void RequireRHS() const {
 			if (!_hasRHS)
 				throw std::runtime_error("LinearSystem: operation requires right-hand side");
+			if (_multipleRHS)
+				throw std::runtime_error("LinearSystem: operation requires a single right-hand side");
 		}
 
 		void RequireSquare() const {
@@ -899,13 +914,17 @@ namespace MML::Systems
 				try {
 					LUSolver<Type> solver(_A);
 
-					// Extract L and U from the solver's combined storage
+					// Extract L and U from the solver's combined storage:
+					// row i of L*U is row permutation[i] of A
 					int n = rows();
 					_lu->L.Resize(n, n);
 					_lu->U.Resize(n, n);
-
-					// The LU matrix has L in lower triangle and U in upper
-					// For now, store raw LU and determinant
+					for (int i = 0; i < n; ++i)
+						for (int j = 0; j < n; ++j) {
+							_lu->L(i, j) = j < i ? solver.LU()(i, j) : Type(j == i ? 1 : 0);
+							_lu->U(i, j) = j < i ? Type(0) : solver.LU()(i, j);
+						}
+					_lu->permutation = solver.Permutation();
 					_lu->determinant = solver.det();
 					_lu->valid = true;
 				} catch (...) {
@@ -959,7 +978,8 @@ namespace MML::Systems
 
 		std::string SelectBestSolver() const {
 			// Quick structural checks first
-			if (isUpperTriangular() || isLowerTriangular())
+			// Substitution ignores the other triangle, so it must be exactly zero
+			if (isSquare() && HasNonzeroDiagonal() && (isUpperTriangular(0) || isLowerTriangular(0)))
 				return "Triangular";
 
 			// For overdetermined systems, use QR (least squares)
@@ -972,13 +992,20 @@ namespace MML::Systems
 				return "SVD"; // Most robust for ill-conditioned
 
 			// For SPD matrices, Cholesky is best
-			if (isSymmetric() && isPositiveDefinite())
+			if (isSymmetric(0) && isPositiveDefinite(0))
 				return "Cholesky";
 
 			// Default: LU with partial pivoting
 			return "LU";
 		}
 
+		bool HasNonzeroDiagonal() const {
+			for (int i = 0; i < rows(); ++i)
+				if (_A(i, i) == Type(0))
+					return false;
+			return true;
+		}
+
 		IterativeMethod SelectIterativeMethod() const {
 			// For diagonally dominant matrices, Gauss-Seidel converges faster
 			if (isDiagonallyDominant())
@@ -993,7 +1020,7 @@ namespace MML::Systems
 			int n = rows();
 			Vector<Type> x(n);
 
-			if (isUpperTriangular()) {
+			if (isUpperTriangular(0)) {
 				// Back substitution
 				for (int i = n - 1; i >= 0; --i) {
 					Type sum = _b[i];
-- 
2.43.0


From 6e1568ccdadbcff75c4167b9fd1804490f8fbe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:45 +0000
Subject: [PATCH 27/41] fix: Kaiser and Gaussian windows of one point are 1,
 Kaiser's Bessel series runs to convergence

---
 mml/algorithms/FourierWindowing.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/FourierWindowing.h b/mml/algorithms/FourierWindowing.h
index 01f6870..ae6722b 100644
--- a/mml/algorithms/FourierWindowing.h
+++ b/mml/algorithms/FourierWindowing.h
@@ -202,13 +202,16 @@ namespace MML::Fourier
 			FourierValidation::ValidateWindowSize(n);
 			FourierValidation::ValidateNonNegative(beta, "beta", "Windows::Kaiser");
 
+			if (n == 1)
+				return Vector<Real>(1, 1.0);
+
 			// Modified Bessel function I0(x) using series expansion
 			auto bessel_i0 = [](Real x) -> Real {
 				Real sum = 1.0;
 				Real term = 1.0;
 				Real x_half = x / 2.0;
 
-				for (int k = 1; k <= 50; k++) // Sufficient for typical accuracy
+				for (int k = 1; k <= 1000; k++) // Terms grow until k reaches x/2
 				{
 					term *= (x_half / k);
 					term *= (x_half / k);
@@ -252,6 +255,9 @@ namespace MML::Fourier
 			FourierValidation::ValidateWindowSize(n);
 			FourierValidation::ValidatePositive(sigma, "sigma", "Windows::Gaussian");
 
+			if (n == 1)
+				return Vector<Real>(1, 1.0);
+
 			Vector<Real> window(n);
 			Real center = (n - 1) / 2.0;
 			Real denominator = sigma * (n - 1) / 2.0;
-- 
2.43.0


From ec282bc48d4b19774a66cf534946f3933228aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:22 +0000
Subject: [PATCH 28/41] fix: table export escapes TSV and Markdown cells,
 aligns UTF-8 text, ignores the caller's stream formatting, sizes auto-width
 vector columns, reports failed writes

---
 mml/tools/ConsolePrinter.h | 114 +++++++++++++++++++++++++++++--------
 1 file changed, 91 insertions(+), 23 deletions(-)

diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index 04d2741..214d14d 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -71,6 +71,11 @@ namespace MML {
 			else return false; // Invalid lead byte
 			return str.size() == expectedLen;
 		}
+
+		/// @brief Number of characters a string shows (UTF-8 continuation bytes take no column)
+		inline size_t displayLength(const std::string& str) {
+			return static_cast<size_t>(std::count_if(str.begin(), str.end(), [](unsigned char c) { return (c & 0xC0) != 0x80; }));
+		}
 	} // namespace Utf8
 
 	///////////////////////////       CSV HELPERS       ///////////////////////////
@@ -153,6 +158,43 @@ namespace MML {
 		}
 	} // namespace Csv
 
+	namespace Tsv {
+		/// @brief Escape a TSV field: quoted as in CSV when it holds a tab, quote or line break
+		inline std::string escape(const std::string& str) {
+			if (str.find_first_of("\t\"\n\r") == std::string::npos)
+				return str;
+
+			std::string result = "\"";
+			for (char c : str) {
+				if (c == '"')
+					result += '"';
+				result += c;
+			}
+			return result + '"';
+		}
+	} // namespace Tsv
+
+	namespace Markdown {
+		/// @brief Escape a Markdown table cell: backslash before pipes and backslashes, <br> for line breaks
+		inline std::string escape(const std::string& str) {
+			std::string result;
+			result.reserve(str.size());
+			for (size_t i = 0; i < str.size(); ++i) {
+				switch (str[i]) {
+					case '|':  result += "\\|";  break;
+					case '\\': result += "\\\\"; break;
+					case '\n': result += "<br>"; break;
+					case '\r':
+						if (i + 1 == str.size() || str[i + 1] != '\n')
+							result += "<br>";
+						break;
+					default:   result += str[i]; break;
+				}
+			}
+			return result;
+		}
+	} // namespace Markdown
+
 	namespace Html {
 		/// @brief Escape special HTML characters in a string
 		inline std::string escape(const std::string& str) {
@@ -358,11 +400,12 @@ namespace MML {
 		// Helper to format with alignment and width
 		std::string formatAligned(const std::string& content) const {
 			int w = width();
-			if (content.length() >= static_cast<size_t>(w)) {
+			int length = static_cast<int>(Utf8::displayLength(content));
+			if (length >= w) {
 				return content;
 			}
 
-			int padding = w - static_cast<int>(content.length());
+			int padding = w - length;
 
 			switch (m_alignment) {
 			case Alignment::Left:
@@ -532,6 +575,10 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			print(file);
+			file.close();
+			if (!file) {
+				throw FileIOError("Cannot write file: " + filename, filename);
+			}
 		}
 
 		// Convert to string
@@ -544,6 +591,7 @@ namespace MML {
 		// Export to different formats
 		void exportTo(std::ostream& os, ExportFormat format) const {
 			StreamStateGuard guard(os);
+			os.width(0);
 
 			switch (format) {
 			case ExportFormat::Console:
@@ -573,6 +621,10 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			exportTo(file, format);
+			file.close();
+			if (!file) {
+				throw FileIOError("Cannot write file: " + filename, filename);
+			}
 		}
 
 	private:
@@ -672,17 +724,21 @@ namespace MML {
 		// TSV export
 		void exportTSV(std::ostream& os) const {
 			// Header
-			os << m_tagFormat.name();
+			os << Tsv::escape(m_tagFormat.name());
 			for (const auto& fmt : m_columnFormats) {
-				os << "\t" << fmt.name();
+				os << "\t" << Tsv::escape(fmt.name());
 			}
 			os << "\n";
 
 			// Data
 			for (size_t row = 0; row < m_data.size(); ++row) {
-				os << m_rowTags[row];
+				std::ostringstream tagStr;
+				tagStr << m_rowTags[row];
+				os << Tsv::escape(tagStr.str());
 				for (const auto& value : m_data[row]) {
-					os << "\t" << value;
+					std::ostringstream valStr;
+					valStr << value;
+					os << "\t" << Tsv::escape(valStr.str());
 				}
 				os << "\n";
 			}
@@ -691,9 +747,9 @@ namespace MML {
 		// Markdown export
 		void exportMarkdown(std::ostream& os) const {
 			// Header
-			os << "| " << m_tagFormat.name();
+			os << "| " << Markdown::escape(m_tagFormat.name());
 			for (const auto& fmt : m_columnFormats) {
-				os << " | " << fmt.name();
+				os << " | " << Markdown::escape(fmt.name());
 			}
 			os << " |\n";
 
@@ -706,9 +762,13 @@ namespace MML {
 
 			// Data
 			for (size_t row = 0; row < m_data.size(); ++row) {
-				os << "| " << m_rowTags[row];
+				std::ostringstream tagStr;
+				tagStr << m_rowTags[row];
+				os << "| " << Markdown::escape(tagStr.str());
 				for (const auto& value : m_data[row]) {
-					os << " | " << value;
+					std::ostringstream valStr;
+					valStr << value;
+					os << " | " << Markdown::escape(valStr.str());
 				}
 				os << " |\n";
 			}
@@ -800,10 +860,10 @@ namespace MML {
 
 			// Tag column
 			if (tagFmt.rawWidth() == ColumnFormat::AUTO_WIDTH) {
-				int maxWidth = static_cast<int>(tagFmt.name().length());
+				int maxWidth = static_cast<int>(Utf8::displayLength(tagFmt.name()));
 				for (const auto& tag : m_rowTags) {
 					std::string formatted = tagFmt.formatValue(tag);
-					maxWidth = std::max(maxWidth, static_cast<int>(formatted.length()));
+					maxWidth = std::max(maxWidth, static_cast<int>(Utf8::displayLength(formatted)));
 				}
 				tagFmt.setCalculatedWidth(maxWidth);
 			}
@@ -811,10 +871,10 @@ namespace MML {
 			// Value columns
 			for (size_t col = 0; col < colFmts.size(); ++col) {
 				if (colFmts[col].rawWidth() == ColumnFormat::AUTO_WIDTH) {
-					int maxWidth = static_cast<int>(colFmts[col].name().length());
+					int maxWidth = static_cast<int>(Utf8::displayLength(colFmts[col].name()));
 					for (const auto& row : m_data) {
 						std::string formatted = colFmts[col].formatValue(row[col]);
-						maxWidth = std::max(maxWidth, static_cast<int>(formatted.length()));
+						maxWidth = std::max(maxWidth, static_cast<int>(Utf8::displayLength(formatted)));
 					}
 					colFmts[col].setCalculatedWidth(maxWidth);
 				}
@@ -827,18 +887,15 @@ namespace MML {
 	// Specialized printer for vectors
 	class VectorTablePrinter {
 	private:
-		std::vector<ColumnFormat> m_formats;
+		mutable std::vector<ColumnFormat> m_formats;	// auto widths are computed when printing
 		std::vector<const Vector<Real>*> m_vectors;
 		TableStyle m_style;
-		size_t m_maxLength;
 
 	public:
-		VectorTablePrinter()
-			: m_maxLength(0) {}
+		VectorTablePrinter() = default;
 
 		// Constructor that accepts formats and vectors
-		VectorTablePrinter(std::vector<ColumnFormat> formats, std::vector<Vector<Real>*> vectors)
-			: m_maxLength(0) {
+		VectorTablePrinter(std::vector<ColumnFormat> formats, std::vector<Vector<Real>*> vectors) {
 			for (size_t i = 0; i < vectors.size(); ++i) {
 				if (i < formats.size()) {
 					addVector(formats[i], *vectors[i]);
@@ -851,13 +908,11 @@ namespace MML {
 		void addVector(const std::string& name, const Vector<Real>& vec) {
 			m_formats.emplace_back(name);
 			m_vectors.push_back(&vec);
-			m_maxLength = std::max(m_maxLength, static_cast<size_t>(vec.size()));
 		}
 
 		void addVector(const ColumnFormat& format, const Vector<Real>& vec) {
 			m_formats.push_back(format);
 			m_vectors.push_back(&vec);
-			m_maxLength = std::max(m_maxLength, static_cast<size_t>(vec.size()));
 		}
 
 		VectorTablePrinter& style(const TableStyle& s) {
@@ -867,10 +922,23 @@ namespace MML {
 
 		void print(std::ostream& os = std::cout) const {
 			StreamStateGuard guard(os);
+			os.width(0);
 
 			auto bc = m_style.getChars();
 			bool hasBorders = m_style.borderStyle() != BorderStyle::None;
 
+			// Vectors are referenced: their lengths and the auto widths are those at the time of printing
+			size_t maxLength = 0;
+			for (size_t i = 0; i < m_vectors.size(); ++i) {
+				maxLength = std::max(maxLength, static_cast<size_t>(m_vectors[i]->size()));
+				if (m_formats[i].rawWidth() == ColumnFormat::AUTO_WIDTH) {
+					size_t w = Utf8::displayLength(m_formats[i].name());
+					for (int row = 0; row < static_cast<int>(m_vectors[i]->size()); ++row)
+						w = std::max(w, Utf8::displayLength(m_formats[i].formatValue((*m_vectors[i])[row])));
+					m_formats[i].setCalculatedWidth(static_cast<int>(w));
+				}
+			}
+
 			// Print top border
 			if (hasBorders && m_style.showHeader()) {
 				printHorizontalLine(os, bc.topLeft, bc.horizontal, bc.topT, bc.topRight);
@@ -902,7 +970,7 @@ namespace MML {
 			}
 
 			// Print data rows
-			for (size_t row = 0; row < m_maxLength; ++row) {
+			for (size_t row = 0; row < maxLength; ++row) {
 				if (hasBorders)
 					os << bc.vertical << " ";
 
-- 
2.43.0


From 08a747602315091337ff73b543532d0d6a66430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:20 +0000
Subject: [PATCH 29/41] fix: serializers report failed writes, refuse NaN
 ranges and uneven ball tracks, save only the steps an ODE solution holds; ODE
 solutions grow to any index

---
 mml/base/ODESystemSolution.h                | 12 ++++++--
 mml/tools/serializer/SerializerBase.h       |  8 +++++
 mml/tools/serializer/SerializerCurves.h     | 16 +++++-----
 mml/tools/serializer/SerializerFieldLines.h |  8 ++---
 mml/tools/serializer/SerializerFunctions.h  | 34 ++++++++++-----------
 mml/tools/serializer/SerializerODE.h        | 24 +++++++--------
 mml/tools/serializer/SerializerSimulation.h | 10 ++++--
 mml/tools/serializer/SerializerSurfaces.h   | 18 +++++------
 mml/tools/serializer/SerializerVectors.h    | 20 ++++++------
 9 files changed, 85 insertions(+), 65 deletions(-)

diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 2c28b46..44faa2a 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -162,7 +162,7 @@ namespace MML
 			if (ind < 0 )
 				throw IndexError("Index must be non-negative in ODESystemSolution::setTVal");
 			
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = x;
@@ -181,7 +181,7 @@ namespace MML
 			if (component < 0 || component >= _sysDim)
 				throw IndexError("Component index out of range in ODESystemSolution::setXVal(component)");
 
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_xval[component][ind] = x;
@@ -202,7 +202,7 @@ namespace MML
 			if( y.size() != _sysDim )
 				throw ArgumentError("Vector size mismatch in ODESystemSolution::fillValues");
 
-			if(ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = x;
@@ -229,6 +229,8 @@ namespace MML
 		{
 			Vector<Real> xsave = _tval;
 			Vector<Real> ysave = _xval.VectorFromRow(component);
+			xsave.Resize(_count, true);
+			ysave.Resize(_count, true);
 
 			return LinearInterpRealFunc(xsave, ysave);
 		}
@@ -241,6 +243,8 @@ namespace MML
 		{
 			Vector<Real> xsave = _tval;
 			Vector<Real> ysave = _xval.VectorFromRow(component);
+			xsave.Resize(_count, true);
+			ysave.Resize(_count, true);
 			return PolynomInterpRealFunc(xsave, ysave, polyOrder + 1);
 		}
 		
@@ -251,6 +255,8 @@ namespace MML
 		{
 			Vector<Real> xsave = _tval;
 			Vector<Real> ysave = _xval.VectorFromRow(component);
+			xsave.Resize(_count, true);
+			ysave.Resize(_count, true);
 			return SplineInterpRealFunc(xsave, ysave);
 		}
 
diff --git a/mml/tools/serializer/SerializerBase.h b/mml/tools/serializer/SerializerBase.h
index 130f3a4..3f8a00b 100644
--- a/mml/tools/serializer/SerializerBase.h
+++ b/mml/tools/serializer/SerializerBase.h
@@ -47,6 +47,14 @@ namespace MML
 		// Header writers - common utilities used by other serializer modules
 		//===================================================================================
 
+		/// @brief Result of writing to a stream: a failed write (full disk, broken stream) is not a success
+		inline SerializeResult WriteOutcome(const std::ostream& out, const std::string& message)
+		{
+			if (out.fail())
+				return {false, SerializeError::WRITE_FAILED, "Write error: output stream failed"};
+			return {true, SerializeError::OK, message};
+		}
+
 		/// @brief Write header for real function data file
 		/// @return SerializeResult with success flag and error details
 		inline SerializeResult WriteRealFuncHeader(std::ostream& out, std::string type, std::string title,
diff --git a/mml/tools/serializer/SerializerCurves.h b/mml/tools/serializer/SerializerCurves.h
index db20385..7e42daa 100644
--- a/mml/tools/serializer/SerializerCurves.h
+++ b/mml/tools/serializer/SerializerCurves.h
@@ -34,7 +34,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (numPoints < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPoints must be >= 2"};
-			if (t1 >= t2)
+			if (!(t1 < t2))
 				return {false, SerializeError::INVALID_PARAMETERS, "t1 must be < t2"};
 
 			std::ofstream file(fileName);
@@ -58,7 +58,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return WriteOutcome(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -99,7 +99,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return WriteOutcome(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -118,7 +118,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (numPoints < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPoints must be >= 2"};
-			if (t1 >= t2)
+			if (!(t1 < t2))
 				return {false, SerializeError::INVALID_PARAMETERS, "t1 must be < t2"};
 			if (static_cast<int>(vals.size()) < numPoints)
 				return {false, SerializeError::INVALID_PARAMETERS, "vals vector size must be >= numPoints"};
@@ -143,7 +143,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return WriteOutcome(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -184,7 +184,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return WriteOutcome(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -219,7 +219,7 @@ namespace MML
 			if (vec_x.size() != vec_y.size()) {
 				return { false, SerializeError::INVALID_PARAMETERS, "vec_x and vec_y must have same size" };
 			}
-			if (t1 >= t2) {
+			if (!(t1 < t2)) {
 				return { false, SerializeError::INVALID_PARAMETERS, "t1 must be < t2" };
 			}
 
@@ -237,7 +237,7 @@ namespace MML
 					file << t << " " << vec_x[i] << " " << vec_y[i] << std::endl;
 				}
 				file.close();
-				return { true, SerializeError::OK, "Successfully saved parametric curve 2D" };
+				return WriteOutcome(file, "Successfully saved parametric curve 2D");
 			}
 			catch (const std::exception& e) {
 				file.close();
diff --git a/mml/tools/serializer/SerializerFieldLines.h b/mml/tools/serializer/SerializerFieldLines.h
index 7577112..7175c76 100644
--- a/mml/tools/serializer/SerializerFieldLines.h
+++ b/mml/tools/serializer/SerializerFieldLines.h
@@ -89,7 +89,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return WriteOutcome(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -137,7 +137,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return WriteOutcome(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -189,7 +189,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return WriteOutcome(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -233,7 +233,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return WriteOutcome(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index 38e1b44..698885d 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -39,7 +39,7 @@ namespace MML
 		{
 			if (numPoints < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPoints must be >= 2"};
-			if (x1 >= x2)
+			if (!(x1 < x2))
 				return {false, SerializeError::INVALID_PARAMETERS, "x1 must be less than x2"};
 
 			try
@@ -53,7 +53,7 @@ namespace MML
 					Real x = x1 + i * step;
 					out << x << " " << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -75,7 +75,7 @@ namespace MML
 
 			auto result = SaveRealFunc(file, f, title, x1, x2, numPoints, precision);
 			file.close();
-			return result;
+			return result.success ? WriteOutcome(file, result.message) : result;
 		}
 
 		/// @brief Serialize a real function to a stream at specified points
@@ -96,7 +96,7 @@ namespace MML
 					Real x = points[i];
 					out << x << " " << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -117,7 +117,7 @@ namespace MML
 
 			auto result = SaveRealFunc(file, f, title, points, precision);
 			file.close();
-			return result;
+			return result.success ? WriteOutcome(file, result.message) : result;
 		}
 
 		/// @brief Serialize a real function to stream saving only function values (space-optimized)
@@ -126,7 +126,7 @@ namespace MML
 		{
 			if (numPoints < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPoints must be >= 2"};
-			if (x1 >= x2)
+			if (!(x1 < x2))
 				return {false, SerializeError::INVALID_PARAMETERS, "x1 must be less than x2"};
 
 			try
@@ -140,7 +140,7 @@ namespace MML
 					Real x = x1 + i * step;
 					out << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -161,7 +161,7 @@ namespace MML
 
 			auto result = SaveRealFuncEquallySpaced(file, f, title, x1, x2, numPoints, precision);
 			file.close();
-			return result;
+			return result.success ? WriteOutcome(file, result.message) : result;
 		}
 
 		//===================================================================================
@@ -177,7 +177,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "funcs vector cannot be empty"};
 			if (numPoints < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPoints must be >= 2"};
-			if (x1 >= x2)
+			if (!(x1 < x2))
 				return {false, SerializeError::INVALID_PARAMETERS, "x1 must be less than x2"};
 			if (funcs.size() != legend.size())
 				return {false, SerializeError::INVALID_PARAMETERS, "funcs and legend sizes must match"};
@@ -197,7 +197,7 @@ namespace MML
 
 					out << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -219,7 +219,7 @@ namespace MML
 
 			auto result = SaveRealMultiFunc(file, funcs, title, legend, x1, x2, numPoints, precision);
 			file.close();
-			return result;
+			return result.success ? WriteOutcome(file, result.message) : result;
 		}
 
 		/// @brief Serialize multiple linear interpolation functions to file
@@ -231,7 +231,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "funcs vector cannot be empty"};
 			if (numPoints < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPoints must be >= 2"};
-			if (x1 >= x2)
+			if (!(x1 < x2))
 				return {false, SerializeError::INVALID_PARAMETERS, "x1 must be less than x2"};
 			if (funcs.size() != legend.size())
 				return {false, SerializeError::INVALID_PARAMETERS, "funcs and legend sizes must match"};
@@ -257,7 +257,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -274,7 +274,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "funcs vector cannot be empty"};
 			if (numPoints < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPoints must be >= 2"};
-			if (x1 >= x2)
+			if (!(x1 < x2))
 				return {false, SerializeError::INVALID_PARAMETERS, "x1 must be less than x2"};
 			if (funcs.size() != legend.size())
 				return {false, SerializeError::INVALID_PARAMETERS, "funcs and legend sizes must match"};
@@ -300,7 +300,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -317,7 +317,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "funcs vector cannot be empty"};
 			if (numPoints < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPoints must be >= 2"};
-			if (x1 >= x2)
+			if (!(x1 < x2))
 				return {false, SerializeError::INVALID_PARAMETERS, "x1 must be less than x2"};
 			if (funcs.size() != legend.size())
 				return {false, SerializeError::INVALID_PARAMETERS, "funcs and legend sizes must match"};
@@ -343,7 +343,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerODE.h b/mml/tools/serializer/SerializerODE.h
index 1211821..48e1377 100644
--- a/mml/tools/serializer/SerializerODE.h
+++ b/mml/tools/serializer/SerializerODE.h
@@ -46,15 +46,15 @@ namespace MML
 
 			try
 			{
-				WriteRealFuncHeader(file, "REAL_FUNCTION", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteRealFuncHeader(file, "REAL_FUNCTION", title, sol.getT1(), sol.getT2(), sol.size());
 				
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " " << sol.getXValues()[compInd][i] << std::endl;
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -83,9 +83,9 @@ namespace MML
 
 			try
 			{
-				WriteRealMultiFuncHeader(file, title, sol.getSysDim(), legend, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteRealMultiFuncHeader(file, title, sol.getSysDim(), legend, sol.getT1(), sol.getT2(), sol.size());
 
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " ";
 					for (int j = 0; j < sol.getSysDim(); j++)
@@ -95,7 +95,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -127,9 +127,9 @@ namespace MML
 
 			try
 			{
-				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_2D", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_2D", title, sol.getT1(), sol.getT2(), sol.size());
 				
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " ";
 					file << sol.getXValues()[ind1][i] << " ";
@@ -138,7 +138,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -171,9 +171,9 @@ namespace MML
 
 			try
 			{
-				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_3D", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_3D", title, sol.getT1(), sol.getT2(), sol.size());
 
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " ";
 					file << sol.getXValues()[ind1][i] << " ";
@@ -183,7 +183,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerSimulation.h b/mml/tools/serializer/SerializerSimulation.h
index 47c0946..375160c 100644
--- a/mml/tools/serializer/SerializerSimulation.h
+++ b/mml/tools/serializer/SerializerSimulation.h
@@ -52,6 +52,9 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (saveEveryNSteps < 1)
 				return {false, SerializeError::INVALID_PARAMETERS, "saveEveryNSteps must be >= 1"};
+			for (const auto& positions : ballPositions)
+				if (positions.size() != ballPositions[0].size())
+					return {false, SerializeError::INVALID_PARAMETERS, "all balls must have the same number of positions"};
 
 			std::ofstream file(fileName);
 			if (!file.is_open())
@@ -85,7 +88,7 @@ namespace MML
 				}
 				file << buffer.str();
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -123,6 +126,9 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (saveEveryNSteps < 1)
 				return {false, SerializeError::INVALID_PARAMETERS, "saveEveryNSteps must be >= 1"};
+			for (const auto& positions : ballPositions)
+				if (positions.size() != ballPositions[0].size())
+					return {false, SerializeError::INVALID_PARAMETERS, "all balls must have the same number of positions"};
 
 			std::ofstream file(fileName);
 			if (!file.is_open())
@@ -155,7 +161,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerSurfaces.h b/mml/tools/serializer/SerializerSurfaces.h
index 5187222..9b2e07b 100644
--- a/mml/tools/serializer/SerializerSurfaces.h
+++ b/mml/tools/serializer/SerializerSurfaces.h
@@ -47,7 +47,7 @@ namespace MML
 			// Validate parameters
 			if (numPointsU < 2 || numPointsW < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPointsU and numPointsW must be >= 2"};
-			if (u1 >= u2 || w1 >= w2)
+			if (!(u1 < u2) || !(w1 < w2))
 				return {false, SerializeError::INVALID_PARAMETERS, "u1 < u2 and w1 < w2 required"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
@@ -84,7 +84,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -103,7 +103,7 @@ namespace MML
 			// Validate parameters
 			if (numPointsU < 2 || numPointsW < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPointsU and numPointsW must be >= 2"};
-			if (u1 >= u2 || w1 >= w2)
+			if (!(u1 < u2) || !(w1 < w2))
 				return {false, SerializeError::INVALID_PARAMETERS, "u1 < u2 and w1 < w2 required"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
@@ -140,7 +140,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -177,7 +177,7 @@ namespace MML
 			// Validate parameters
 			if (numPointsX < 2 || numPointsY < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPointsX and numPointsY must be >= 2"};
-			if (x1 >= x2 || y1 >= y2)
+			if (!(x1 < x2) || !(y1 < y2))
 				return {false, SerializeError::INVALID_PARAMETERS, "x1 < x2 and y1 < y2 required"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
@@ -209,7 +209,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -229,7 +229,7 @@ namespace MML
 			// Validate parameters
 			if (numPointsX < 2 || numPointsY < 2 || numPointsZ < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPointsX, numPointsY, and numPointsZ must be >= 2"};
-			if (x1 >= x2 || y1 >= y2 || z1 >= z2)
+			if (!(x1 < x2) || !(y1 < y2) || !(z1 < z2))
 				return {false, SerializeError::INVALID_PARAMETERS, "x1 < x2, y1 < y2, and z1 < z2 required"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
@@ -269,7 +269,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -341,7 +341,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerVectors.h b/mml/tools/serializer/SerializerVectors.h
index a469404..a5e4db2 100644
--- a/mml/tools/serializer/SerializerVectors.h
+++ b/mml/tools/serializer/SerializerVectors.h
@@ -31,7 +31,7 @@ namespace MML
 			// Validate parameters
 			if (numPointsX1 < 2 || numPointsX2 < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPointsX1 and numPointsX2 must be >= 2"};
-			if (x1_start >= x1_end || x2_start >= x2_end)
+			if (!(x1_start < x1_end) || !(x2_start < x2_end))
 				return {false, SerializeError::INVALID_PARAMETERS, "x1_start < x1_end and x2_start < x2_end required"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
@@ -55,7 +55,7 @@ namespace MML
 						file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -71,9 +71,9 @@ namespace MML
 			// Validate parameters
 			if (numPointsX1 < 2 || numPointsX2 < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "numPointsX1 and numPointsX2 must be >= 2"};
-			if (x1_start >= x1_end || x2_start >= x2_end)
+			if (!(x1_start < x1_end) || !(x2_start < x2_end))
 				return {false, SerializeError::INVALID_PARAMETERS, "x1_start < x1_end and x2_start < x2_end required"};
-			if (upper_threshold <= 0)
+			if (!(upper_threshold > 0))
 				return {false, SerializeError::INVALID_PARAMETERS, "upper_threshold must be positive"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
@@ -98,7 +98,7 @@ namespace MML
 							file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -133,7 +133,7 @@ namespace MML
 			// Validate parameters
 			if (numPointsX1 < 2 || numPointsX2 < 2 || numPointsX3 < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "all numPoints must be >= 2"};
-			if (x1_start >= x1_end || x2_start >= x2_end || x3_start >= x3_end)
+			if (!(x1_start < x1_end) || !(x2_start < x2_end) || !(x3_start < x3_end))
 				return {false, SerializeError::INVALID_PARAMETERS, "all start bounds must be less than end bounds"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
@@ -161,7 +161,7 @@ namespace MML
 						}
 
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -178,9 +178,9 @@ namespace MML
 			// Validate parameters
 			if (numPointsX1 < 2 || numPointsX2 < 2 || numPointsX3 < 2)
 				return {false, SerializeError::INVALID_PARAMETERS, "all numPoints must be >= 2"};
-			if (x1_start >= x1_end || x2_start >= x2_end || x3_start >= x3_end)
+			if (!(x1_start < x1_end) || !(x2_start < x2_end) || !(x3_start < x3_end))
 				return {false, SerializeError::INVALID_PARAMETERS, "all start bounds must be less than end bounds"};
-			if (upper_threshold <= 0)
+			if (!(upper_threshold > 0))
 				return {false, SerializeError::INVALID_PARAMETERS, "upper_threshold must be positive"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
@@ -210,7 +210,7 @@ namespace MML
 						}
 
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
-- 
2.43.0


From ac5074780a3d8ac6567312ee953d809e5fa211d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:30 +0000
Subject: [PATCH 30/41] fix: saved functions and curves sample the end of the
 range exactly (an ulp beyond it an interpolant is zero)

---
 mml/tools/serializer/SerializerCurves.h    |  4 ++--
 mml/tools/serializer/SerializerFunctions.h | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mml/tools/serializer/SerializerCurves.h b/mml/tools/serializer/SerializerCurves.h
index 7e42daa..b44213e 100644
--- a/mml/tools/serializer/SerializerCurves.h
+++ b/mml/tools/serializer/SerializerCurves.h
@@ -50,7 +50,7 @@ namespace MML
 				Real delta = (t2 - t1) / (numPoints - 1);
 				for (int n = 0; n < numPoints; n++)
 				{
-					Real t = t1 + n * delta;
+					Real t = (n == numPoints - 1) ? t2 : t1 + n * delta;
 					file << t << " ";
 					auto val = f(t);
 					for (int i = 0; i < N; i++)
@@ -136,7 +136,7 @@ namespace MML
 				Real delta = (t2 - t1) / (numPoints - 1);
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real t = t1 + i * delta;
+					Real t = (i == numPoints - 1) ? t2 : t1 + i * delta;
 					file << t << " ";
 					for (int j = 0; j < N; j++)
 						file << vals[i][j] << " ";
diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index 698885d..9bd44d7 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -50,7 +50,7 @@ namespace MML
 				Real step = (x2 - x1) / (numPoints - 1);
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + i * step;
+					Real x = (i == numPoints - 1) ? x2 : x1 + i * step;
 					out << x << " " << f(x) << std::endl;
 				}
 				return WriteOutcome(out, "Success");
@@ -137,7 +137,7 @@ namespace MML
 				Real step = (x2 - x1) / (numPoints - 1);
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + i * step;
+					Real x = (i == numPoints - 1) ? x2 : x1 + i * step;
 					out << f(x) << std::endl;
 				}
 				return WriteOutcome(out, "Success");
@@ -189,7 +189,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					out << x << " ";
 
 					for (size_t j = 0; j < funcs.size(); j++)
@@ -248,7 +248,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					file << x << " ";
 
 					for (int j = 0; j < funcs.size(); j++)
@@ -291,7 +291,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					file << x << " ";
 
 					for (int j = 0; j < funcs.size(); j++)
@@ -334,7 +334,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					file << x << " ";
 
 					for (int j = 0; j < funcs.size(); j++)
-- 
2.43.0


From 09a6e1b9a99ee5fe05f35331bac218ec6e07ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:47 +0000
Subject: [PATCH 31/41] fix: Dormand-Prince 8 is not FSAL, Bulirsch-Stoer
 extrapolates with Neville's scheme, adaptive output grid keeps every point
 and ends at the end, maximum step honoured, step statistics count evaluations
 and rejections

---
 mml/algorithms/ODESolvers/ODERKCoefficients.h |  2 +-
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 50 +++++++++++------
 mml/algorithms/ODESolvers/ODESteppers.h       | 55 +++++++++----------
 3 files changed, 60 insertions(+), 47 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODERKCoefficients.h b/mml/algorithms/ODESolvers/ODERKCoefficients.h
index a55a683..717b95d 100644
--- a/mml/algorithms/ODESolvers/ODERKCoefficients.h
+++ b/mml/algorithms/ODESolvers/ODERKCoefficients.h
@@ -190,7 +190,7 @@ namespace RKCoeff {
 		static constexpr int stages = 13;
 		static constexpr int order = 8;
 		static constexpr int error_order = 7;
-		static constexpr bool fsal = true;
+		static constexpr bool fsal = false;
 
 		// Time nodes (c coefficients)
 		static constexpr Real c[13] = {
diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index ddf0f42..96df45a 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -128,6 +128,7 @@ namespace MML {
 			} else {
 				rejectedSteps++;
 			}
+			rejectedSteps += result.rejections;
 			totalFuncEvals += result.funcEvals;
 		}
 
@@ -174,6 +175,7 @@ namespace MML {
 		/// Uses Hairer's formula based on local error estimation
 		Real estimateInitialStep(Real t0, const Vector<Real>& x0, Real tEnd, Real eps) {
 			int n = _sys.getDim();
+			_stats.totalFuncEvals += 2;
 			Vector<Real> f0(n), f1(n), x1(n);
 
 			_sys.derivs(t0, x0, f0);
@@ -213,6 +215,17 @@ namespace MML {
 			return std::min({100 * h0, h1, std::abs(tEnd - t0)});
 		}
 
+		/// @brief Number of output points: t0, every multiple of the interval before tEnd, tEnd
+		static int outputCount(Real t0, Real tEnd, Real outputInterval) {
+			Real intervals = (tEnd - t0) / outputInterval;
+			Real whole = std::round(intervals);
+			// a rounding error above a whole number of intervals is not another interval
+			Real rounding = Real(4) * std::numeric_limits<Real>::epsilon() * (intervals + (std::abs(t0) + std::abs(tEnd)) / outputInterval);
+			if (whole < 1 || std::abs(intervals - whole) > rounding)
+				whole = std::ceil(intervals);
+			return static_cast<int>(whole) + 1;
+		}
+
 		/// @brief Integrate ODE system with dense output at fixed intervals
 		/// @param x0 Initial conditions
 		/// @param t0 Initial time
@@ -221,10 +234,12 @@ namespace MML {
 		/// @param eps Error tolerance (default 1e-10)
 		/// @param h0 Initial step size (0 = auto-estimate)
 		/// @param minStepSize Minimum allowed step size (default 1e-15)
-		/// @return Solution with points at regular intervals
-		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15) {
+		/// @param maxStepSize Maximum allowed step size (default: none)
+		/// @return Solution with points at regular intervals (the last one at tEnd)
+		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15,
+		                            Real maxStepSize = std::numeric_limits<Real>::infinity()) {
 			int n = _sys.getDim();
-			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
+			int numOutputPoints = outputCount(t0, tEnd, outputInterval);
 
 			ODESystemSolution sol(t0, tEnd, n, numOutputPoints - 1);
 			_stats.reset();
@@ -236,19 +251,19 @@ namespace MML {
 			Real t = t0;
 
 			_sys.derivs(t, x, dxdt);
+			_stats.totalFuncEvals++;
 
 			// Initial step size
 			Real h = (h0 > 0) ? h0 : estimateInitialStep(t0, x0, tEnd, eps);
 			h = std::min(h, tEnd - t0);
 
 			// Store initial point
-			Real tNextOutput = t0;
 			int outputIdx = 0;
 			sol.fillValues(outputIdx++, t0, x0);
-			tNextOutput += outputInterval;
 
 			// Main integration loop
 			while (t < tEnd - Constants::Eps) {
+				h = std::min(h, maxStepSize);
 				// Don't step past end
 				if (t + h > tEnd) {
 					h = tEnd - t;
@@ -260,13 +275,10 @@ namespace MML {
 				if (result.accepted) {
 					Real tNew = t + result.hDone;
 
-					// Dense output: interpolate at all output points within this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = _stepper.interpolate(tNextOutput);
-							sol.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
-						tNextOutput += outputInterval;
+					// Dense output: interpolate at all output points within this step (the last one is tEnd itself)
+					while (outputIdx < numOutputPoints - 1 && t0 + outputIdx * outputInterval <= tNew) {
+						Real tOutput = t0 + outputIdx * outputInterval;
+						sol.fillValues(outputIdx++, tOutput, _stepper.interpolate(tOutput));
 					}
 
 					t = tNew;
@@ -279,14 +291,15 @@ namespace MML {
 				}
 
 				// Safety check
-				if (h < minStepSize) {
+				if (h < minStepSize && t < tEnd - Constants::Eps) {
 					throw ODESolverError("Step size too small in ODEAdaptiveIntegrator");
 				}
 			}
 
-			// Ensure final point is captured
-			if (outputIdx < numOutputPoints) {
-				sol.fillValues(outputIdx++, tEnd, x);
+			// The final point (and any output point within rounding of it)
+			while (outputIdx < numOutputPoints) {
+				Real tOutput = (outputIdx == numOutputPoints - 1) ? tEnd : t0 + outputIdx * outputInterval;
+				sol.fillValues(outputIdx++, tOutput, x);
 			}
 
 			return sol;
@@ -316,6 +329,7 @@ namespace MML {
 			Real t = t0;
 
 			_sys.derivs(t, x, dxdt);
+			_stats.totalFuncEvals++;
 
 			Real h = (h0 > 0) ? h0 : estimateInitialStep(t0, x0, tEnd, eps);
 
@@ -341,7 +355,7 @@ namespace MML {
 					while (outputIdx < numPoints && times[outputIdx] <= tNew + Constants::Eps) {
 						Real tOut = times[outputIdx];
 						if (std::abs(tOut - tNew) < Constants::Eps) {
-							sol.fillValues(outputIdx++, tNew, x);
+							sol.fillValues(outputIdx++, tOut, x);
 						} else {
 							Vector<Real> xInterp = _stepper.interpolate(tOut);
 							sol.fillValues(outputIdx++, tOut, xInterp);
@@ -377,7 +391,7 @@ namespace MML {
 				: (tEnd - t0) / 100.0;  // Default: 100 output points
 
 			ODESystemSolution sol = integrate(x0, t0, tEnd, outputInterval, 
-				config.tolerance, config.initial_step_size, config.min_step_size);
+				config.tolerance, config.initial_step_size, config.min_step_size, config.max_step_size);
 
 			// Populate diagnostic fields in statistics
 			_stats.elapsed_time_ms = timer.elapsed_ms();
diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 5d3a8d3..2421256 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -32,6 +32,7 @@ namespace MML {
 		// === Error Information ===
 		Real errMax = 0.0;	   ///< Maximum error ratio (for diagnostics)
 		int funcEvals = 0;	   ///< Number of function evaluations used
+		int rejections = 0;	   ///< Attempts rejected and retried inside the step
 
 		// === Diagnostics (for single-step analysis) ===
 		AlgorithmStatus status = AlgorithmStatus::Success;  ///< Step status
@@ -182,7 +183,6 @@ namespace MML {
 					_k1 = _k7; // Reuse last stage
 				} else {
 					_k1 = dxdt;
-					result.funcEvals++;
 				}
 
 				// Stage 2
@@ -262,6 +262,7 @@ namespace MML {
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
 				h *= factor;
+				result.rejections++;
 				_haveFSAL = false;
 
 				if (std::abs(h) < Constants::Eps) {
@@ -424,7 +425,7 @@ namespace MML {
 					_xtemp[i] = x[i] + h * (b61 * _k1[i] + b62 * _k2[i] + b63 * _k3[i] + b64 * _k4[i] + b65 * _k5[i]);
 				_sys.derivs(t + a6 * h, _xtemp, _k6);
 
-				result.funcEvals = 6;
+				result.funcEvals += 5;
 
 				// 5th order solution
 				for (int i = 0; i < _n; i++)
@@ -468,6 +469,7 @@ namespace MML {
 				// Reduce step size
 				Real htemp = SAFETY * h * std::pow(errMax, PSHRINK);
 				h = (h >= 0) ? std::max<Real>(htemp, Real(0.1) * h) : std::min<Real>(htemp, Real(0.1) * h);
+				result.rejections++;
 
 				if (std::abs(h) < Constants::Eps)
 					throw ODESolverError("Step size underflow in CashKarp_Stepper");
@@ -523,7 +525,7 @@ namespace MML {
 	/// High-order method for problems requiring very high accuracy.
 	/// Features:
 	/// - 8th order accurate solution with 7th order error estimate
-	/// - 13 stages (FSAL optimization applies)
+	/// - 13 stages (not FSAL: the last stage is not the derivative at the new point)
 	/// - Excellent for smooth problems, astronomical trajectories
 	/// - Higher cost per step but much larger accurate step sizes
 	class DormandPrince8_Stepper : public IAdaptiveStepper {
@@ -540,7 +542,7 @@ namespace MML {
 		Real _hDone;
 		Vector<Real> _xOld;
 		bool _stepReady;
-		bool _haveFSAL;
+		Vector<Real> _dxNew; // derivative at the end of the step
 		Real _errOld;
 
 		// Dormand-Prince 8(7) coefficients from centralized header
@@ -576,13 +578,13 @@ namespace MML {
 			, _tOld(0)
 			, _hDone(0)
 			, _stepReady(false)
-			, _haveFSAL(false)
 			, _errOld(1.0) {
 			_k.resize(NSTAGES);
 			for (int i = 0; i < NSTAGES; ++i)
 				_k[i].Resize(_n);
 			_xNew.Resize(_n);
 			_xOld.Resize(_n);
+			_dxNew.Resize(_n);
 		}
 
 		StepResult doStep(Real t, Vector<Real>& x, Vector<Real>& dxdt, Real htry, Real eps) override {
@@ -593,12 +595,7 @@ namespace MML {
 			Real h = htry;
 
 			while (true) {
-				// Use FSAL if available
-				if (_haveFSAL) {
-					_k[0] = _k[12];
-				} else {
-					_k[0] = dxdt;
-				}
+				_k[0] = dxdt;
 
 				// Stage 2
 				for (int i = 0; i < _n; i++)
@@ -655,12 +652,12 @@ namespace MML {
 					_xNew[i] = x[i] + h * (a12[0] * _k[0][i] + a12[3] * _k[3][i] + a12[4] * _k[4][i] + a12[5] * _k[5][i] + a12[6] * _k[6][i] + a12[7] * _k[7][i] + a12[8] * _k[8][i] + a12[9] * _k[9][i] + a12[10] * _k[10][i]);
 				_sys.derivs(t + c[11] * h, _xNew, _k[11]);
 
-				// Stage 13 (final, also FSAL)
+				// Stage 13 (final)
 				for (int i = 0; i < _n; i++)
 					_xNew[i] = x[i] + h * (a13[0] * _k[0][i] + a13[3] * _k[3][i] + a13[4] * _k[4][i] + a13[5] * _k[5][i] + a13[6] * _k[6][i] + a13[7] * _k[7][i] + a13[8] * _k[8][i] + a13[9] * _k[9][i] + a13[10] * _k[10][i]);
 				_sys.derivs(t + c[12] * h, _xNew, _k[12]);
 
-				result.funcEvals = 13;
+				result.funcEvals += NSTAGES - 1;
 
 				// 8th order solution
 				for (int i = 0; i < _n; i++) {
@@ -694,8 +691,9 @@ namespace MML {
 
 					// Update state
 					x = _xNew;
-					dxdt = _k[12];
-					_haveFSAL = true;
+					_sys.derivs(t + h, x, dxdt);
+					_dxNew = dxdt;
+					result.funcEvals++;
 
 					// Step size control for next step
 					Real factor = SAFETY * std::pow(errMax, -ALPHA);
@@ -710,7 +708,7 @@ namespace MML {
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
 				h *= factor;
-				_haveFSAL = false;
+				result.rejections++;
 
 				if (std::abs(h) < Constants::Eps)
 					throw ODESolverError("Step size underflow in DormandPrince8_Stepper");
@@ -737,23 +735,22 @@ namespace MML {
 
 			for (int i = 0; i < _n; i++) {
 				Real hf0 = _hDone * _k[0][i];
-				Real hf1 = _hDone * _k[12][i];
+				Real hf1 = _hDone * _dxNew[i];
 				result[i] = h00 * _xOld[i] + h10 * hf0 + h01 * _xNew[i] + h11 * hf1;
 			}
 
 			return result;
 		}
 
-		bool isFSAL() const override { return true; }
+		bool isFSAL() const override { return false; }
 
-		const Vector<Real>& getFinalDeriv() const override { return _k[12]; }
+		const Vector<Real>& getFinalDeriv() const override { return _dxNew; }
 
 		int stageCount() const override { return NSTAGES; }
 
 		int order() const override { return 8; }
 
 		void resetFSAL() override {
-			_haveFSAL = false;
 			_stepReady = false;
 			_errOld = 1.0;
 		}
@@ -842,6 +839,8 @@ namespace MML {
 			} else {
 				// Use Neville's algorithm
 				Vector<Real> c = yest;
+				yz = yest;
+				dy = yest;
 
 				for (int k = 0; k < iest; k++) {
 					Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -854,13 +853,12 @@ namespace MML {
 						delta = c[j] - q;
 						dy[j] = f1 * delta;
 						c[j] = f2 * delta;
+						yz[j] += dy[j];
 					}
 				}
 
-				for (int j = 0; j < _n; j++) {
-					yz[j] += dy[j];
+				for (int j = 0; j < _n; j++)
 					_d[iest][j] = dy[j];
-				}
 			}
 		}
 
@@ -886,7 +884,7 @@ namespace MML {
 		StepResult doStep(Real t, Vector<Real>& x, Vector<Real>& dxdt, Real htry, Real eps) override {
 			StepResult result;
 			result.accepted = false;
-			result.funcEvals = 1; // We already have dxdt
+			result.funcEvals = 0;
 
 			_tOld = t;
 			_xOld = x;
@@ -1070,6 +1068,8 @@ namespace MML {
 			// Use Neville's polynomial extrapolation (same as pzextr)
 			// This is more stable than rational extrapolation
 			Vector<Real> c = yest;
+			yz = yest;
+			dy = yest;
 
 			for (int k = 0; k < iest; k++) {
 				Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -1082,13 +1082,12 @@ namespace MML {
 					Real diff = c[j] - q;
 					dy[j] = f1 * diff;
 					c[j] = f2 * diff;
+					yz[j] += dy[j];
 				}
 			}
 
-			for (int j = 0; j < _n; j++) {
-				yz[j] += dy[j];
+			for (int j = 0; j < _n; j++)
 				_d[iest][j] = dy[j];
-			}
 		}
 
 	public:
@@ -1113,7 +1112,7 @@ namespace MML {
 		StepResult doStep(Real t, Vector<Real>& x, Vector<Real>& dxdt, Real htry, Real eps) override {
 			StepResult result;
 			result.accepted = false;
-			result.funcEvals = 1; // We already have dxdt
+			result.funcEvals = 0;
 
 			_tOld = t;
 			_xOld = x;
-- 
2.43.0


From 1c4fef55b3540675237b7bbbad581b70a2904c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:58 +0000
Subject: [PATCH 32/41] fix: step errors are relative to the larger end of the
 step (a solution starting from zero at rest can be integrated)

---
 mml/algorithms/ODESolvers/ODESteppers.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 2421256..e8ac4c6 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -227,7 +227,7 @@ namespace MML {
 				Real errMax = 0.0;
 				for (int i = 0; i < _n; i++) {
 					Real err = h * (e1 * _k1[i] + e3 * _k3[i] + e4 * _k4[i] + e5 * _k5[i] + e6 * _k6[i] + e7 * _k7[i]);
-					Real scale = std::abs(x[i]) + std::abs(h * _k1[i]) + Precision::DivisionSafetyThreshold; // Avoid division by zero
+					Real scale = std::max(std::abs(x[i]), std::abs(xNew[i])) + std::abs(h * _k1[i]) + Precision::DivisionSafetyThreshold; // Avoid division by zero
 					errMax = std::max(errMax, std::abs(err) / scale);
 				}
 				errMax /= eps;
@@ -435,7 +435,7 @@ namespace MML {
 				Real errMax = 0.0;
 				for (int i = 0; i < _n; i++) {
 					Real err = h * (dc1 * _k1[i] + dc3 * _k3[i] + dc4 * _k4[i] + dc5 * _k5[i] + dc6 * _k6[i]);
-					Real scale = std::abs(x[i]) + std::abs(h * dxdt[i]) + Precision::DivisionSafetyThreshold;
+					Real scale = std::max(std::abs(x[i]), std::abs(_xNew[i])) + std::abs(h * dxdt[i]) + Precision::DivisionSafetyThreshold;
 					errMax = std::max(errMax, std::abs(err) / scale);
 				}
 				errMax /= eps;
@@ -673,7 +673,7 @@ namespace MML {
 					for (int j = 0; j < NSTAGES; j++)
 						err += (b8[j] - b7[j]) * _k[j][i];
 					err *= h;
-					Real scale = std::abs(x[i]) + std::abs(h * _k[0][i]) + Precision::DivisionSafetyThreshold;
+					Real scale = std::max(std::abs(x[i]), std::abs(_xNew[i])) + std::abs(h * _k[0][i]) + Precision::DivisionSafetyThreshold;
 					errMax = std::max(errMax, std::abs(err) / scale);
 				}
 				errMax /= eps;
-- 
2.43.0


From d56d14e9bb820522b4b0c062c0f948b7a12599c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:44 +0000
Subject: [PATCH 33/41] fix: line fits use sums about the means, R squared
 judges constant data relative to its size

---
 mml/algorithms/CurveFitting.h | 89 +++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 41 deletions(-)

diff --git a/mml/algorithms/CurveFitting.h b/mml/algorithms/CurveFitting.h
index 32aaa9c..8ff4f92 100644
--- a/mml/algorithms/CurveFitting.h
+++ b/mml/algorithms/CurveFitting.h
@@ -100,6 +100,23 @@ namespace MML {
 					AlgorithmStatus::AlgorithmSpecificFailure, ex.what(), algorithm_name);
 			}
 		}
+
+		// R^2 = 1 - (SS_res / SS_tot); values that are constant (up to rounding) count as explained
+		// when the residuals are negligible relative to them.
+		template<typename Scalar>
+		Scalar Determination(const Vector<Scalar>& y_data, Scalar ss_res, Scalar ss_tot)
+		{
+			const Scalar eps = std::numeric_limits<Scalar>::epsilon();
+			Scalar max_y = 0.0, sum_yy = 0.0;
+			for (int i = 0; i < y_data.size(); i++) {
+				max_y = std::max(max_y, std::abs(y_data[i]));
+				sum_yy += y_data[i] * y_data[i];
+			}
+			const Scalar noise = 10 * eps * max_y;
+			if (ss_tot > y_data.size() * noise * noise)
+				return 1.0 - (ss_res / ss_tot);
+			return (ss_res <= eps * sum_yy) ? 1.0 : 0.0;
+		}
 	} // namespace CurveFittingDetail
 	///////////////////////////           LINEAR LEAST SQUARES           ///////////////////////////
 
@@ -144,7 +161,7 @@ namespace MML {
 		// Special case: two points - exact fit
 		if (n == 2) {
 			Scalar dx = x_data[1] - x_data[0];
-			if (std::abs(dx) < std::numeric_limits<Scalar>::epsilon() * 10) {
+			if (std::abs(dx) <= std::numeric_limits<Scalar>::epsilon() * 10 * std::max(std::abs(x_data[0]), std::abs(x_data[1]))) {
 				// Vertical line - can't fit y = ax + b, use horizontal line at average y
 				a = 0.0;
 				b = (y_data[0] + y_data[1]) / 2.0;
@@ -159,28 +176,33 @@ namespace MML {
 		}
 
 		// General case: n >= 3 points - least squares
-		// Compute sums for normal equations
-		Scalar sum_x = 0.0, sum_y = 0.0, sum_xx = 0.0, sum_xy = 0.0;
+		// Sums about the means (the plain normal equations cancel when the data are far from the origin)
+		Scalar mean_x = 0.0, mean_y = 0.0, max_x = 0.0;
 
 		for (int i = 0; i < n; i++) {
-			sum_x += x_data[i];
-			sum_y += y_data[i];
-			sum_xx += x_data[i] * x_data[i];
-			sum_xy += x_data[i] * y_data[i];
+			mean_x += x_data[i];
+			mean_y += y_data[i];
+			max_x = std::max(max_x, std::abs(x_data[i]));
 		}
+		mean_x /= n;
+		mean_y /= n;
+
+		Scalar sum_xx = 0.0, sum_xy = 0.0, max_dx = 0.0;
 
-		// Normal equations matrix: A = [sum_xx  sum_x ]
-		//                              [sum_x   n     ]
-		Scalar det = n * sum_xx - sum_x * sum_x;
+		for (int i = 0; i < n; i++) {
+			Scalar dx = x_data[i] - mean_x;
+			sum_xx += dx * dx;
+			sum_xy += dx * (y_data[i] - mean_y);
+			max_dx = std::max(max_dx, std::abs(dx));
+		}
 
 		// Check for singularity (all x values essentially identical)
-		if (std::abs(det) < std::numeric_limits<Scalar>::epsilon() * std::max(std::abs(n * sum_xx), std::abs(sum_x * sum_x))) {
-			throw SingularMatrixError("LinearLeastSquares: singular system - all x values are nearly identical", det);
+		if (max_dx <= std::numeric_limits<Scalar>::epsilon() * 10 * max_x) {
+			throw SingularMatrixError("LinearLeastSquares: singular system - all x values are nearly identical", n * sum_xx);
 		}
 
-		// Solve using Cramer's rule (explicit for 2x2 system)
-		a = (n * sum_xy - sum_x * sum_y) / det;
-		b = (sum_xx * sum_y - sum_x * sum_xy) / det;
+		a = sum_xy / sum_xx;
+		b = mean_y - a * mean_x;
 
 		// Compute residual norm
 		Scalar residual_sum = 0.0;
@@ -233,13 +255,7 @@ namespace MML {
 			ss_tot += (y_data[i] - y_mean) * (y_data[i] - y_mean);
 		}
 
-		// R^2 = 1 - (SS_res / SS_tot)
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
-			result.r_squared = 1.0 - (ss_res / ss_tot);
-		} else {
-			// All y values are identical
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
-		}
+		result.r_squared = CurveFittingDetail::Determination(y_data, ss_res, ss_tot);
 
 		result.mean_squared_error = ss_res / n;
 
@@ -388,17 +404,12 @@ namespace MML {
 			ss_tot += diff * diff;
 		}
 
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
-			result.r_squared = 1.0 - (ss_res / ss_tot);
-			// Adjusted R^2: R^2_adj = 1 - (1 - R^2) * (m - 1) / (m - n)
-			if (m > n)
-				result.adjusted_r_squared = 1.0 - (1.0 - result.r_squared) * (m - 1.0) / (m - n);
-			else
-				result.adjusted_r_squared = result.r_squared;
-		} else {
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
+		result.r_squared = CurveFittingDetail::Determination(y_data, ss_res, ss_tot);
+		// Adjusted R^2: R^2_adj = 1 - (1 - R^2) * (m - 1) / (m - n)
+		if (m > n)
+			result.adjusted_r_squared = 1.0 - (1.0 - result.r_squared) * (m - 1.0) / (m - n);
+		else
 			result.adjusted_r_squared = result.r_squared;
-		}
 
 		// Get condition number and rank from SVD
 		Vector<Scalar> singular_values = svd.getW();
@@ -479,16 +490,12 @@ namespace MML {
 			ss_tot += diff * diff;
 		}
 
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
-			result.r_squared = 1.0 - (ss_res / ss_tot);
-			if (m > n)
-				result.adjusted_r_squared = 1.0 - (1.0 - result.r_squared) * (m - 1.0) / (m - n);
-			else
-				result.adjusted_r_squared = result.r_squared;
-		} else {
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
+		result.r_squared = CurveFittingDetail::Determination(y_data, ss_res, ss_tot);
+		// Adjusted R^2: R^2_adj = 1 - (1 - R^2) * (m - 1) / (m - n)
+		if (m > n)
+			result.adjusted_r_squared = 1.0 - (1.0 - result.r_squared) * (m - 1.0) / (m - n);
+		else
 			result.adjusted_r_squared = result.r_squared;
-		}
 
 		Vector<Scalar> singular_values = svd.getW();
 		result.effective_rank = 0;
-- 
2.43.0


From 579881efb5f1bf60b8788bedc7477456e0cf2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:44 +0000
Subject: [PATCH 34/41] fix: event detection scans long steps, handles every
 event of a step in order and once, restarts leave the handled event, output
 points are not skipped

---
 .../ODESolvers/ODESolverEventDetection.h      | 263 ++++++++----------
 1 file changed, 123 insertions(+), 140 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index ee5d0d8..14e028d 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -16,6 +16,10 @@
 #include "mml/algorithms/ODESolvers/ODESolverAdaptive.h"
 #include "mml/interfaces/IODESystemWithEvents.h"
 
+#include <algorithm>
+#include <utility>
+#include <vector>
+
 namespace MML {
 
 	//===================================================================================
@@ -90,7 +94,7 @@ namespace MML {
 																		Real eps = 1e-10, Real eventTol = 1e-12, Real h0 = 0) {
 			int n = sys.getDim();
 			int numEvents = sys.getNumEvents();
-			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
+			int numOutputPoints = this->outputCount(t0, tEnd, outputInterval);
 
 			EventResult result(t0, tEnd, n, numOutputPoints - 1);
 			this->_stats.reset();
@@ -102,21 +106,29 @@ namespace MML {
 			Real t = t0;
 			sys.derivs(t, x, dxdt);
 
-			// Event function values at current time
+			// Side of zero every event function was last seen on (0 while it has only been zero)
+			auto sign = [](Real g) { return g > 0 ? 1 : g < 0 ? -1 : 0; };
 			Vector<Real> gPrev(numEvents);
 			sys.eventFunctions(t, x, gPrev);
+			std::vector<int> side(numEvents);
+			for (int i = 0; i < numEvents; ++i)
+				side[i] = sign(gPrev[i]);
 
 			// Initial step size
 			Real h = (h0 > 0) ? h0 : this->estimateInitialStep(t0, x0, tEnd, eps);
 			h = std::min(h, tEnd - t0);
 
-			// Output management
-			Real tNextOutput = t0;
+			// Output management: point k lies at t0 + k * outputInterval, the last one at tEnd
 			int outputIdx = 0;
 			result.solution.fillValues(outputIdx++, t0, x0);
-			tNextOutput += outputInterval;
-
-			const int maxEventIterations = 100; // Safety limit for root finding
+			auto outputUpTo = [&](Real tLimit) {
+				for (; outputIdx < numOutputPoints - 1; ++outputIdx) {
+					Real tOut = t0 + outputIdx * outputInterval;
+					if (tOut > tLimit)
+						break;
+					result.solution.fillValues(outputIdx, tOut, this->_stepper.interpolate(tOut));
+				}
+			};
 
 			// Main integration loop
 			while (t < tEnd - Constants::Eps) {
@@ -130,160 +142,131 @@ namespace MML {
 				if (stepResult.accepted) {
 					Real tNew = t + stepResult.hDone;
 
-					// Evaluate event functions at new time
-					Vector<Real> gNew(numEvents);
-					sys.eventFunctions(tNew, x, gNew);
-
-					// Check for zero crossings
-					bool eventDetected = false;
-					int eventIndex = -1;
-					Real eventTime = tNew;
-
-					for (int i = 0; i < numEvents; ++i) {
-						bool crossing = false;
-						EventDirection actualDir = EventDirection::Both;
-
-						// Check sign change
-						if (gPrev[i] * gNew[i] < 0) {
-							// Determine crossing direction
-							if (gPrev[i] < 0 && gNew[i] > 0) {
-								actualDir = EventDirection::Increasing;
-							} else {
-								actualDir = EventDirection::Decreasing;
-							}
-
-							// Check if this direction should trigger
+					// The step may be longer than the output interval: scan it piecewise, so that
+					// an event function crossing zero more than once within the step is noticed
+					Real pieces = std::ceil(stepResult.hDone / outputInterval);
+					int numPieces = static_cast<int>(std::min<Real>(std::max<Real>(pieces, 1), 10000));
+					bool restarted = false;
+					Real tA = t;
+
+					for (int piece = 1; piece <= numPieces && !restarted; ++piece) {
+						Real tB = (piece == numPieces) ? tNew : t + piece * (stepResult.hDone / numPieces);
+						Vector<Real> gNew(numEvents);
+						sys.eventFunctions(tB, (piece == numPieces) ? x : this->_stepper.interpolate(tB), gNew);
+
+						// Locate every crossing in [tA, tB]
+						std::vector<std::pair<Real, int>> found;
+						for (int i = 0; i < numEvents; ++i) {
+							int now = sign(gNew[i]);
+							if (now == 0 || now == side[i])
+								continue;
+							EventDirection actualDir = (now > 0) ? EventDirection::Increasing : EventDirection::Decreasing;
 							EventDirection wantDir = sys.getEventDirection(i);
-							if (wantDir == EventDirection::Both || wantDir == actualDir) {
-								crossing = true;
-							}
+							if (side[i] != 0 && (wantDir == EventDirection::Both || wantDir == actualDir))
+								found.emplace_back(locateEvent(sys, i, tA, tB, gPrev[i], gNew[i], eventTol), i);
+							side[i] = now;
 						}
-
-						if (crossing) {
-							// Find exact crossing time using bisection with dense output
-							Real tLo = t;
-							Real tHi = tNew;
-							Real gLo = gPrev[i];
-							Real gHi = gNew[i];
-
-							for (int iter = 0; iter < maxEventIterations; ++iter) {
-								if (tHi - tLo < eventTol)
-									break;
-
-								// Illinois method (modified regula falsi)
-								Real tMid = tLo - gLo * (tHi - tLo) / (gHi - gLo);
-								// Clamp to interval
-								tMid = std::max<Real>(tLo + Real(0.1) * (tHi - tLo), std::min<Real>(tHi - Real(0.1) * (tHi - tLo), tMid));
-
-								Vector<Real> xMid = this->_stepper.interpolate(tMid);
-								Real gMid = sys.eventFunction(i, tMid, xMid);
-
-								if (std::abs(gMid) < eventTol) {
-									tLo = tMid;
-									break;
-								}
-
-								if (gLo * gMid < 0) {
-									tHi = tMid;
-									gHi = gMid;
-								} else {
-									tLo = tMid;
-									gLo = gMid;
-								}
-							}
-
-							Real tEvent = tLo;
-							if (tEvent < eventTime) {
-								eventTime = tEvent;
-								eventIndex = i;
-								eventDetected = true;
-							}
-						}
-					}
-
-					if (eventDetected && eventIndex >= 0) {
-						// Get precise state at event
-						Vector<Real> xEvent = this->_stepper.interpolate(eventTime);
-						Real gEvent = sys.eventFunction(eventIndex, eventTime, xEvent);
-
-						EventDirection actualDir;
-						if (gPrev[eventIndex] < gNew[eventIndex]) {
-							actualDir = EventDirection::Increasing;
-						} else {
-							actualDir = EventDirection::Decreasing;
-						}
-
-						// Record event
-						EventInfo evt(eventIndex, eventTime, xEvent, actualDir, gEvent);
-						result.events.push_back(evt);
-
-						// Dense output up to event time
-						while (tNextOutput <= eventTime + Constants::Eps && outputIdx < numOutputPoints) {
-							if (tNextOutput <= eventTime) {
-								Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-								result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
+						std::stable_sort(found.begin(), found.end(),
+						                 [](const std::pair<Real, int>& a, const std::pair<Real, int>& b) { return a.first < b.first; });
+
+						for (const auto& [eventTime, eventIndex] : found) {
+							Vector<Real> xEvent = this->_stepper.interpolate(eventTime);
+							Real gEvent = sys.eventFunction(eventIndex, eventTime, xEvent);
+							EventDirection actualDir = (side[eventIndex] > 0) ? EventDirection::Increasing : EventDirection::Decreasing;
+							result.events.push_back(EventInfo(eventIndex, eventTime, xEvent, actualDir, gEvent));
+
+							outputUpTo(eventTime);
+
+							EventAction action = sys.getEventAction(eventIndex);
+
+							if (action == EventAction::Stop) {
+								result.terminatedByEvent = true;
+								result.finalTime = eventTime;
+								result.finalState = xEvent;
+								return result;
+							} else if (action == EventAction::Restart) {
+								// Let user modify state (e.g., velocity reversal), then restart integration from the event
+								sys.handleEvent(eventIndex, eventTime, xEvent);
+								t = eventTime;
+								x = xEvent;
+								sys.derivs(t, x, dxdt);
+								sys.eventFunctions(t, x, gPrev);
+								for (int i = 0; i < numEvents; ++i)
+									side[i] = sign(gPrev[i]);
+								// the event that has just been handled starts from zero
+								if (std::abs(gPrev[eventIndex]) <= std::max(eventTol, 2 * std::abs(gEvent)))
+									side[eventIndex] = 0;
+								this->_stepper.resetFSAL();
+								h = this->estimateInitialStep(t, x, tEnd, eps);
+								h = std::min(h, tEnd - t);
+								restarted = true;
+								break;
 							}
-							tNextOutput += outputInterval;
+							// EventAction::Continue - just record and continue
 						}
 
-						// Determine action
-						EventAction action = sys.getEventAction(eventIndex);
-
-						if (action == EventAction::Stop) {
-							result.terminatedByEvent = true;
-							result.finalTime = eventTime;
-							result.finalState = xEvent;
-							return result;
-						} else if (action == EventAction::Restart) {
-							// Apply state update
-							sys.handleEvent(eventIndex, eventTime, xEvent);
-
-							// Reset integration from event point
-							t = eventTime;
-							x = xEvent;
-							sys.derivs(t, x, dxdt);
-							sys.eventFunctions(t, x, gPrev);
-							this->_stepper.resetFSAL();
-
-							// Re-estimate step size
-							h = this->estimateInitialStep(t, x, tEnd, eps);
-							h = std::min(h, tEnd - t);
-							continue; // Skip normal update
+						if (!restarted) {
+							gPrev = gNew;
+							tA = tB;
 						}
-						// EventAction::Continue: fall through to normal update
 					}
+					if (restarted)
+						continue;
 
-					// Dense output for this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-							result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
-						tNextOutput += outputInterval;
-					}
-
-					// Update for next step
+					outputUpTo(tNew);
 					t = tNew;
-					h = stepResult.hNext;
-					gPrev = gNew;
-				} else {
-					h = stepResult.hNext;
 				}
 
-				if (h < Constants::Eps) {
+				h = stepResult.hNext;
+
+				if (h < Constants::Eps && t < tEnd - Constants::Eps) {
 					throw ODESolverError("Step size too small in integrateWithEvents");
 				}
 			}
 
-			// Ensure final point
-			if (outputIdx < numOutputPoints) {
-				result.solution.fillValues(outputIdx++, tEnd, x);
+			// The final point (and any output point within rounding of it)
+			for (; outputIdx < numOutputPoints; ++outputIdx) {
+				Real tOutput = (outputIdx == numOutputPoints - 1) ? tEnd : t0 + outputIdx * outputInterval;
+				result.solution.fillValues(outputIdx, tOutput, x);
 			}
 
 			result.finalTime = t;
 			result.finalState = x;
 			return result;
 		}
+
+	private:
+		/// @brief Time in [tLo, tHi] of the current step at which event function i crosses zero
+		/// (bracketed search on the dense output; gLo may be zero, then the crossing is at tLo)
+		Real locateEvent(const IODESystemWithEvents& sys, int i, Real tLo, Real tHi, Real gLo, Real gHi, Real eventTol) {
+			const int maxEventIterations = 100; // Safety limit for root finding
+
+			if (gLo == 0)
+				return tLo;
+			for (int iter = 0; iter < maxEventIterations; ++iter) {
+				if (tHi - tLo < eventTol)
+					break;
+
+				// Regula falsi, kept away from the ends of the bracket
+				Real tMid = tLo - gLo * (tHi - tLo) / (gHi - gLo);
+				tMid = std::max<Real>(tLo + Real(0.1) * (tHi - tLo), std::min<Real>(tHi - Real(0.1) * (tHi - tLo), tMid));
+
+				Vector<Real> xMid = this->_stepper.interpolate(tMid);
+				Real gMid = sys.eventFunction(i, tMid, xMid);
+
+				if (std::abs(gMid) < eventTol)
+					return tMid;
+
+				if (gLo * gMid < 0) {
+					tHi = tMid;
+					gHi = gMid;
+				} else {
+					tLo = tMid;
+					gLo = gMid;
+				}
+			}
+			return tLo;
+		}
 	};
 
 	// Convenient type aliases for event detection integrators
-- 
2.43.0


From c77a2225bd31cc7a24e1d00156e7942ef9b3feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:34 +0000
Subject: [PATCH 35/41] fix: default-step derivatives of rank 3 and 4 tensor
 fields compile

---
 mml/core/Derivation/DerivationTensorField.h | 50 ++++++++++-----------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/mml/core/Derivation/DerivationTensorField.h b/mml/core/Derivation/DerivationTensorField.h
index 59d5fad..8033c5d 100644
--- a/mml/core/Derivation/DerivationTensorField.h
+++ b/mml/core/Derivation/DerivationTensorField.h
@@ -57,12 +57,6 @@ namespace MML
 			return NDer1Partial(f, i, j, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
 		}
 
-		template <int N>
-		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
-		{
-			return NDer1Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
-		}
-
 		template <int N>
 		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -86,9 +80,9 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
 		{
-			return NDer1Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
+			return NDer1Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
 		}
 
 		template <int N>
@@ -113,6 +107,12 @@ namespace MML
 			return diff / h;
 		}
 
+		template <int N>
+		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		{
+			return NDer1Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
+		}
+
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of SECOND order                                ********/
 		/********************************************************************************************************************/
@@ -150,12 +150,6 @@ namespace MML
 			return NDer2Partial(f, i, j, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
 		}
 
-		template <int N>
-		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
-		{
-			return NDer2Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
-		}
-
 		template <int N>
 		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -185,9 +179,9 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
 		{
-			return NDer2Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
+			return NDer2Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
 		}
 
 		template <int N>
@@ -217,6 +211,12 @@ namespace MML
 
 			return diff / (2 * h);
 		}
+
+		template <int N>
+		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		{
+			return NDer2Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
+		}
 		
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of FOURTH order                                ********/
@@ -262,12 +262,6 @@ namespace MML
 			return NDer4Partial(f, i, j, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
 		}
 
-		template <int N>
-		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
-		{
-			return NDer4Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
-		}
-
 		template <int N>
 		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -303,13 +297,13 @@ namespace MML
 			return (y2 + 8 * y1) / (12 * h);
 		}
 
-
 		template <int N>
-		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
 		{
-			return NDer4Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
+			return NDer4Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
 		}
 
+
 		template <int N>
 		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -344,6 +338,12 @@ namespace MML
 			}
 			return (y2 + 8 * y1) / (12 * h);
 		}
+
+		template <int N>
+		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		{
+			return NDer4Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
+		}
 	}
 }
 
-- 
2.43.0


From 9a584929d2a188cb1e81a87ffbf31b86b3575ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:24 +0000
Subject: [PATCH 36/41] fix: error estimates of second and third derivatives
 are of the size of the error

---
 mml/core/Derivation/DerivationParametricCurve.h | 12 ++++++------
 mml/core/Derivation/DerivationRealFunction.h    | 12 ++++++------
 mml/core/Derivation/DerivationScalarFunction.h  |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/mml/core/Derivation/DerivationParametricCurve.h b/mml/core/Derivation/DerivationParametricCurve.h
index fcf6a99..8aed9f6 100644
--- a/mml/core/Derivation/DerivationParametricCurve.h
+++ b/mml/core/Derivation/DerivationParametricCurve.h
@@ -191,7 +191,7 @@ namespace MML
 				VectorN<Real, N> ym2h = f(t - 2*h);
 				Real f4_approx = (ym2h - 4.0*ymh + 6.0*y0 - 4.0*yh + y2h).NormL2() / h2;
 				
-				*error = f4_approx * h2 / 12.0 + 
+				*error = f4_approx / 12.0 + 
 				         Constants::Eps * (ymh.NormL2() + 2*y0.NormL2() + yh.NormL2()) / h2;
 			}
 			
@@ -224,7 +224,7 @@ namespace MML
 				VectorN<Real, N> ym3h = f(t - 3*h);
 				Real f6_approx = (ym3h - 6.0*ym2h + 15.0*ymh - 20.0*y0 + 15.0*yh - 6.0*y2h + y3h).NormL2() / h2;
 				
-				*error = f6_approx * h2 * h2 / 90.0 + 
+				*error = f6_approx / 90.0 + 
 				         Constants::Eps * (ym2h.NormL2() + 16*ymh.NormL2() + 30*y0.NormL2() + 
 				                           16*yh.NormL2() + y2h.NormL2()) / (12.0 * h2);
 			}
@@ -262,9 +262,9 @@ namespace MML
 				// Error estimate using 5th derivative approximation
 				VectorN<Real, N> y3h = f(t + 3*h);
 				VectorN<Real, N> ym3h = f(t - 3*h);
-				Real f5_approx = (ym3h - 3.0*ym2h + 5.0*ymh - 5.0*yh + 3.0*y2h - y3h).NormL2() / h3;
+				Real f5_approx = (ym3h - 4.0*ym2h + 5.0*ymh - 5.0*yh + 4.0*y2h - y3h).NormL2() / h3;
 				
-				*error = f5_approx * h * h / 4.0 + 
+				*error = f5_approx / 8.0 + 
 				         Constants::Eps * (ym2h.NormL2() + 2*ymh.NormL2() + 2*yh.NormL2() + y2h.NormL2()) / (2.0 * h3);
 			}
 			
@@ -297,9 +297,9 @@ namespace MML
 				// Error estimate using 7th derivative approximation
 				VectorN<Real, N> y4h = f(t + 4*h);
 				VectorN<Real, N> ym4h = f(t - 4*h);
-				Real f7_approx = (ym4h - 4.0*ym3h + 9.0*ym2h - 13.0*ymh + 13.0*yh - 9.0*y2h + 4.0*y3h - y4h).NormL2() / h3;
+				Real f7_approx = (ym4h - 6.0*ym3h + 14.0*ym2h - 14.0*ymh + 14.0*yh - 14.0*y2h + 6.0*y3h - y4h).NormL2() / h3;
 				
-				*error = f7_approx * h * h * h * h / 120.0 + 
+				*error = 7 * f7_approx / 240.0 + 
 				         Constants::Eps * (ym3h.NormL2() + 8*ym2h.NormL2() + 13*ymh.NormL2() + 
 				                           13*yh.NormL2() + 8*y2h.NormL2() + y3h.NormL2()) / (8.0 * h3);
 			}
diff --git a/mml/core/Derivation/DerivationRealFunction.h b/mml/core/Derivation/DerivationRealFunction.h
index 75c32ad..417caca 100644
--- a/mml/core/Derivation/DerivationRealFunction.h
+++ b/mml/core/Derivation/DerivationRealFunction.h
@@ -382,7 +382,7 @@ namespace MML
 						Real y2h = f(x + 2 * h);
 						Real ym2h = f(x - 2 * h);
 						Real f4_approx = std::abs(ym2h - 4 * ymh + 6 * y0 - 4 * yh + y2h) / h2;
-						*error = f4_approx * h2 / 12.0 +
+						*error = f4_approx / 12.0 +
 						         Constants::Eps * (std::abs(ymh) + 2 * std::abs(y0) + std::abs(yh)) / h2;
 					}
 
@@ -429,7 +429,7 @@ namespace MML
 						Real y3h = f(x + 3 * h);
 						Real ym3h = f(x - 3 * h);
 						Real f6_approx = std::abs(ym3h - 6 * ym2h + 15 * ymh - 20 * y0 + 15 * yh - 6 * y2h + y3h) / h2;
-						*error = f6_approx * h2 * h2 / 90.0 +
+						*error = f6_approx / 90.0 +
 						         Constants::Eps * (std::abs(ym2h) + 16 * std::abs(ymh) + 30 * std::abs(y0) +
 						                           16 * std::abs(yh) + std::abs(y2h)) / (12.0 * h2);
 					}
@@ -482,8 +482,8 @@ namespace MML
 					{
 						Real y3h = f(x + 3 * h);
 						Real ym3h = f(x - 3 * h);
-						Real f5_approx = std::abs(ym3h - 3 * ym2h + 5 * ymh - 5 * yh + 3 * y2h - y3h) / h3;
-						*error = f5_approx * h * h / 4.0 +
+						Real f5_approx = std::abs(ym3h - 4 * ym2h + 5 * ymh - 5 * yh + 4 * y2h - y3h) / h3;
+						*error = f5_approx / 8.0 +
 						         Constants::Eps * (std::abs(ym2h) + 2 * std::abs(ymh) + 2 * std::abs(yh) + std::abs(y2h)) / (2.0 * h3);
 					}
 
@@ -530,8 +530,8 @@ namespace MML
 					{
 						Real y4h = f(x + 4 * h);
 						Real ym4h = f(x - 4 * h);
-						Real f7_approx = std::abs(ym4h - 4 * ym3h + 9 * ym2h - 13 * ymh + 13 * yh - 9 * y2h + 4 * y3h - y4h) / h3;
-						*error = f7_approx * h * h * h * h / 120.0 +
+						Real f7_approx = std::abs(ym4h - 6 * ym3h + 14 * ym2h - 14 * ymh + 14 * yh - 14 * y2h + 6 * y3h - y4h) / h3;
+						*error = 7 * f7_approx / 240.0 +
 						         Constants::Eps * (std::abs(ym3h) + 8 * std::abs(ym2h) + 13 * std::abs(ymh) +
 						                           13 * std::abs(yh) + 8 * std::abs(y2h) + std::abs(y3h)) / (8.0 * h3);
 					}
diff --git a/mml/core/Derivation/DerivationScalarFunction.h b/mml/core/Derivation/DerivationScalarFunction.h
index 81181b1..072dbee 100644
--- a/mml/core/Derivation/DerivationScalarFunction.h
+++ b/mml/core/Derivation/DerivationScalarFunction.h
@@ -449,7 +449,7 @@ namespace MML
 					x_2minus[der_ind1] = point[der_ind1] - 2*h;
 					
 					Real f4_approx = std::abs(f(x_2minus) - 4.0*fmh + 6.0*f0 - 4.0*fh + f(x_2plus)) / h2;
-					*error = f4_approx * h2 / 12.0 + 
+					*error = f4_approx / 12.0 + 
 					         Constants::Eps * (std::abs(fmh) + 2*std::abs(f0) + std::abs(fh)) / h2;
 				}
 				
@@ -542,7 +542,7 @@ namespace MML
 					Real fm3h = f(x);
 					
 					Real f6_approx = std::abs(fm3h - 6.0*fm2h + 15.0*fmh - 20.0*f0 + 15.0*fh - 6.0*f2h + f3h) / h2;
-					*error = f6_approx * h2 * h2 / 90.0 + 
+					*error = f6_approx / 90.0 + 
 					         Constants::Eps * (std::abs(fm2h) + 16*std::abs(fmh) + 30*std::abs(f0) + 
 					                           16*std::abs(fh) + std::abs(f2h)) / (12.0 * h2);
 				}
-- 
2.43.0


From f8b0ffe6bb13e7609de18d8a37de68ce8d3f7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:07 +0000
Subject: [PATCH 37/41] fix: Jacobians of functions between spaces of different
 dimension compile

---
 mml/core/Derivation/Jacobians.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mml/core/Derivation/Jacobians.h b/mml/core/Derivation/Jacobians.h
index bf6c4a0..ec7b8f3 100644
--- a/mml/core/Derivation/Jacobians.h
+++ b/mml/core/Derivation/Jacobians.h
@@ -22,6 +22,7 @@
 #include "base/Vector/VectorN.h"
 #include "base/Matrix/MatrixNM.h"
 
+#include "core/Derivation/DerivationScalarFunction.h"
 #include "core/Derivation/DerivationVectorFunction.h"
 
 #include <functional>
@@ -66,12 +67,21 @@ namespace MML
 		template<int N, int M>
 		static MatrixNM<Real, M, N> calcJacobian(const IVectorFunctionNM<N, M>& func, const VectorN<Real, N>& pos)
 		{
+			// one component of the function as a scalar function
+			struct Component : public IScalarFunction<N>
+			{
+				const IVectorFunctionNM<N, M>& _f;
+				int _i;
+				Component(const IVectorFunctionNM<N, M>& f, int i) : _f(f), _i(i) {}
+				Real operator()(const VectorN<Real, N>& x) const override { return _f(x)[_i]; }
+			};
+
 			MatrixNM<Real, M, N> jac;
 
 			for (int i = 0; i < M; ++i)
 				for (int j = 0; j < N; ++j)
 				{
-					jac(i, j) = Derivation::NDer4Partial(func, i, j, pos);
+					jac(i, j) = Derivation::NDer4Partial(Component(func, i), j, pos);
 				}
 
 			return jac;
-- 
2.43.0


From 8cdc15391f33ff8259d64a7e280c1255e67ce1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:07 +0000
Subject: [PATCH 38/41] fix: the derivative of x^0 is zero at zero too

---
 mml/core/Derivation/ForwardAD.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/core/Derivation/ForwardAD.h b/mml/core/Derivation/ForwardAD.h
index 5772a61..842f17a 100644
--- a/mml/core/Derivation/ForwardAD.h
+++ b/mml/core/Derivation/ForwardAD.h
@@ -189,6 +189,7 @@ namespace MML::Symbolic
         if (exp.deriv == T(0)) {
             // Constant exponent: d/dx(f^n) = n*f^(n-1)*f'
             T p = std::pow(base.value, exp.value);
+            if (exp.value == T(0)) return Dual<T>(p, T(0));
             return Dual<T>(p, exp.value * std::pow(base.value, exp.value - T(1)) * base.deriv);
         } else if (base.deriv == T(0)) {
             // Constant base: d/dx(a^g) = a^g * ln(a) * g'
@@ -205,6 +206,7 @@ namespace MML::Symbolic
     template<typename T, typename S, typename = std::enable_if_t<std::is_arithmetic_v<S>>>
     Dual<T> pow(const Dual<T>& base, S exp) {
         T p = std::pow(base.value, static_cast<T>(exp));
+        if (exp == S(0)) return Dual<T>(p, T(0));
         return Dual<T>(p, static_cast<T>(exp) * std::pow(base.value, static_cast<T>(exp) - T(1)) * base.deriv);
     }
 
-- 
2.43.0


From c8362085a5b4b4afab53d1092f07c38a8775e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:07 +0000
Subject: [PATCH 39/41] fix: the right-hand derivative estimates its error from
 the right

---
 mml/core/Derivation/DerivationRealFunction.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mml/core/Derivation/DerivationRealFunction.h b/mml/core/Derivation/DerivationRealFunction.h
index 417caca..def4a09 100644
--- a/mml/core/Derivation/DerivationRealFunction.h
+++ b/mml/core/Derivation/DerivationRealFunction.h
@@ -135,12 +135,17 @@ namespace MML
 		
 		static Real NDer1Left(const IRealFunction& f, Real x, Real* error = nullptr) 
 		{ Real h = ScaleStep(NDer1_h, x); return NDer1(f, x - h, h, error); }
+		static Real NDer1Right(const IRealFunction& f, Real x, Real h, Real* error = nullptr);
 		static Real NDer1Right(const IRealFunction& f, Real x, Real* error = nullptr) 
-		{ Real h = ScaleStep(NDer1_h, x); return NDer1(f, x, h, error); }
+		{ return NDer1Right(f, x, ScaleStep(NDer1_h, x), error); }
 		static Real NDer1Left(const IRealFunction& f, Real x, Real h, Real* error = nullptr) 
 		{ return NDer1(f, x - h, h, error); }
-		static Real NDer1Right(const IRealFunction& f, Real x, Real h, Real* error = nullptr) 
-		{ return NDer1(f, x, h, error); }
+		static Real NDer1Right(const IRealFunction& f, Real x, Real h, Real* error) 
+		{
+			// the estimate comes from points to the right as well
+			if (error) NDer1(f, x + h, h, error);
+			return NDer1(f, x, h);
+		}
 
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of SECOND order                                ********/
-- 
2.43.0


From e28f0443caedb39d44e23e16210701648fb19348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:05 +0000
Subject: [PATCH 40/41] fix: fixed point search reports where it stopped,
 classifies what converges at the limit, and never calls an unconverged or
 non-hyperbolic point what it is not

---
 mml/systems/DynamicalSystemAnalyzers.h | 28 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 0554c7f..f55502a 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -45,12 +45,14 @@ namespace MML::Systems
 			FixedPoint<Real> result;
 			result.location = initialGuess;
 			result.jacobian.Resize(n, n);
+			result.type = FixedPointType::Unknown;
+			result.isStable = false;
 
 			Vector<Real> x = initialGuess;
 			Vector<Real> f(n), dx(n);
 			Matrix<Real> J(n, n);
 
-			for (int iter = 0; iter < maxIter; ++iter) {
+			for (int iter = 0; ; ++iter) {
 				// Evaluate f(x) = derivs(x) - should be zero at fixed point
 				sys.derivs(0.0, x, f);
 
@@ -66,6 +68,14 @@ namespace MML::Systems
 					return result;
 				}
 
+				// Didn't converge
+				if (iter >= maxIter) {
+					result.location = x;
+					result.convergenceResidual = residual;
+					result.iterations = iter;
+					return result;
+				}
+
 				// Newton step: J * dx = -f
 				sys.jacobian(0.0, x, J);
 
@@ -76,7 +86,7 @@ namespace MML::Systems
 					dx = solver.Solve(negF);
 				} catch (...) {
 					// Jacobian singular - can't continue
-					result.type = FixedPointType::Unknown;
+					result.location = x;
 					result.convergenceResidual = residual;
 					result.iterations = iter;
 					return result;
@@ -85,14 +95,6 @@ namespace MML::Systems
 				// Update
 				x = x + dx;
 			}
-
-			// Didn't converge
-			sys.derivs(0.0, x, f);
-			result.location = x;
-			result.convergenceResidual = f.NormL2();
-			result.iterations = maxIter;
-			result.type = FixedPointType::Unknown;
-			return result;
 		}
 
 		/// @brief Find multiple fixed points from several initial guesses
@@ -165,8 +167,10 @@ namespace MML::Systems
 					fp.type = FixedPointType::SaddleFocus;
 				else if (maxRealPart < -Precision::DefaultToleranceStrict)
 					fp.type = FixedPointType::StableFocus;
-				else
+				else if (numPositiveReal == n)
 					fp.type = FixedPointType::UnstableFocus;
+				else
+					fp.type = FixedPointType::Unknown;
 			} else {
 				if (numPositiveReal > 0 && numNegativeReal > 0)
 					fp.type = FixedPointType::Saddle;
@@ -721,7 +725,7 @@ namespace MML::Systems
 				result.fixed_point = FixedPointFinder::Find(sys, initialGuess, tol, maxIter);
 				result.function_evaluations = result.fixed_point.iterations;
 
-				if (result.fixed_point.convergenceResidual >= tol) {
+				if (!(result.fixed_point.convergenceResidual < tol)) {
 					result.status = AlgorithmStatus::MaxIterationsExceeded;
 					result.error_message = "Newton iteration did not converge (residual="
 						+ std::to_string(result.fixed_point.convergenceResidual) + ")";
-- 
2.43.0


From 24ef5bc3966bd232822e61b111abbc9294158773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:21 +0000
Subject: [PATCH 41/41] fix: trajectories are sampled evenly, crossings landing
 on a Poincare section count, one-value scans use that value, largest map
 exponent is the largest

---
 mml/systems/DiscreteMaps.h             | 3 +++
 mml/systems/DynamicalSystemAnalyzer.h  | 2 +-
 mml/systems/DynamicalSystemAnalyzers.h | 6 +++---
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mml/systems/DiscreteMaps.h b/mml/systems/DiscreteMaps.h
index f285dd0..5be17d4 100644
--- a/mml/systems/DiscreteMaps.h
+++ b/mml/systems/DiscreteMaps.h
@@ -16,6 +16,7 @@
 #include "base/Vector/Vector.h"
 #include "base/Matrix/Matrix.h"
 
+#include <algorithm>
 #include <cmath>
 #include <vector>
 #include <string>
@@ -347,6 +348,8 @@ namespace MML::Systems
 				result.exponents[i] = lyapunovSums[i] / numIterations;
 
 			result.maxExponent = result.exponents[0];
+			for (int i = 1; i < N; ++i)
+				result.maxExponent = std::max(result.maxExponent, result.exponents[i]);
 			result.isChaotic = result.maxExponent > 0.01;  // Small threshold
 
 			return result;
diff --git a/mml/systems/DynamicalSystemAnalyzer.h b/mml/systems/DynamicalSystemAnalyzer.h
index 36a15da..cea309a 100644
--- a/mml/systems/DynamicalSystemAnalyzer.h
+++ b/mml/systems/DynamicalSystemAnalyzer.h
@@ -386,7 +386,7 @@ namespace MML::Systems
 																														int numSteps, const Vector<Type>& x0,
 																														Type lyapunovTime = 200) const {
 			std::vector<std::pair<Type, Type>> results;
-			Type dParam = (paramMax - paramMin) / (numSteps - 1);
+			Type dParam = (paramMax - paramMin) / std::max(numSteps - 1, 1);
 			Type originalParam = _sys.getParam(paramIndex);
 
 			for (int i = 0; i < numSteps; ++i) {
diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index f55502a..08f5e6f 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -428,7 +428,7 @@ namespace MML::Systems
 																					Vector<Real> x0, int component, Real tTransient = 100.0, Real tRecord = 50.0, Real h = 0.01) {
 			BifurcationDiagram<Real> diagram;
 			diagram.parameterName = sys.getParamName(paramIndex);
-			Real originalParam = sys.getParam(paramIndex);			Real dParam = (paramMax - paramMin) / (numSteps - 1);
+			Real originalParam = sys.getParam(paramIndex);			Real dParam = (paramMax - paramMin) / std::max(numSteps - 1, 1);
 
 			for (int step = 0; step < numSteps; ++step) {
 				Real param = paramMin + step * dParam;
@@ -561,7 +561,7 @@ namespace MML::Systems
 				Real val = x[section.variable] - section.value;
 
 				// Check for crossing
-				if (valPrev * val < 0) {
+				if ((valPrev < 0) != (val < 0)) {
 					// Check direction
 					bool correctDirection =
 						(section.direction == 0) || (section.direction > 0 && val > valPrev) || (section.direction < 0 && val < valPrev);
@@ -592,7 +592,7 @@ namespace MML::Systems
 			Vector<Real> k1(n), k2(n), k3(n), k4(n), xTemp(n);
 
 			Real t = 0;
-			Real nextOutput = 0;
+			Real nextOutput = dtOutput;
 
 			trajectory.push_back(x);
 
-- 
2.43.0

