From 5204193d36fd110b528b9064927ed04cc5b8a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 001/218] fix: AlgebraicConnectivityBound returned a value
 above the algebraic connectivity

The minimum degree is not a valid factor in Fiedler's bound; use the edge connectivity.
---
 mml/algorithms/GraphSpectral.h | 53 ++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index 9248098..27666ff 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -108,10 +108,10 @@ namespace MML
 		return eigenvalues;
 	}
 
-	/// Compute lower bound on algebraic connectivity using Cheeger-like inequality
+	/// Compute lower bound on algebraic connectivity (Fiedler's edge-connectivity bound)
 	/// @note Returns a lower bound, not the exact Fiedler value.
 	///       For exact algebraic connectivity, use AlgebraicConnectivity() instead.
-	/// Complexity: O(V)
+	/// Complexity: O(V * e(G) * V^2) for the edge connectivity e(G)
 	/// @see AlgebraicConnectivity() for exact computation using Jacobi iteration
 	///
 	/// @param graph  The graph (should be connected for meaningful results)
@@ -128,16 +128,51 @@ namespace MML
 		if (components.numComponents > 1)
 			return 0;
 
-		// Use Cheeger-like bound: lambda_2 >= 2 * (1 - cos(pi/n)) * min_degree
-		Real minDegree = std::numeric_limits<Real>::max();
-		for (size_t v = 0; v < n; ++v)
+		// Fiedler's bound: lambda_2 >= 2 * (1 - cos(pi/n)) * e(G), where e(G) is the edge connectivity.
+		// (The minimum degree is only an upper bound on e(G), so it cannot be used here.)
+		// e(G) = min over v of the max flow from vertex 0 to v with unit edge capacities.
+		size_t edgeConnectivity = graph.numEdges();
+		for (size_t v = 1; v < n; ++v)
 		{
-			Real d = static_cast<Real>(graph.degree(v));
-			if (d < minDegree)
-				minDegree = d;
+			std::vector<std::vector<int>> capacity(n, std::vector<int>(n, 0));
+			for (size_t i = 0; i < n; ++i)
+				for (const auto& edge : graph.neighbors(i))
+					if (edge.to != i)
+						capacity[i][edge.to] = 1;
+
+			size_t flow = 0;
+			while (true)
+			{
+				std::vector<size_t> parent(n, n);
+				std::queue<size_t> queue;
+				parent[0] = 0;
+				queue.push(0);
+				while (!queue.empty() && parent[v] == n)
+				{
+					size_t u = queue.front();
+					queue.pop();
+					for (size_t w = 0; w < n; ++w)
+					{
+						if (capacity[u][w] > 0 && parent[w] == n)
+						{
+							parent[w] = u;
+							queue.push(w);
+						}
+					}
+				}
+				if (parent[v] == n)
+					break;
+				for (size_t w = v; w != 0; w = parent[w])
+				{
+					--capacity[parent[w]][w];
+					++capacity[w][parent[w]];
+				}
+				++flow;
+			}
+			edgeConnectivity = std::min(edgeConnectivity, flow);
 		}
 
-		return minDegree > 0 ? 2.0 * (1.0 - std::cos(Constants::PI / n)) * minDegree : 0;
+		return 2.0 * (1.0 - std::cos(Constants::PI / n)) * static_cast<Real>(edgeConnectivity);
 	}
 
 	/// Check if graph is connected using spectral method
-- 
2.43.0


From 9b6d03d6c5bcd0ff75a6d83c0f9a7764c9b864aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 002/218] fix: AveragePathLength ignored half of the vertex
 pairs of a directed graph

---
 mml/algorithms/GraphSpectral.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index 27666ff..fde005a 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -599,9 +599,10 @@ namespace MML
 		{
 			auto bfsResult = BFS(graph, v);
 
-			for (size_t u = v + 1; u < n; ++u)
+			// In a directed graph (u, v) and (v, u) are different pairs
+			for (size_t u = graph.isDirected() ? 0 : v + 1; u < n; ++u)
 			{
-				if (bfsResult.distance[u] != std::numeric_limits<Real>::infinity())
+				if (u != v && bfsResult.distance[u] != std::numeric_limits<Real>::infinity())
 				{
 					totalLength += bfsResult.distance[u];
 					++pathCount;
-- 
2.43.0


From 93db6062b886cac0ff71842ef96e13c205d4d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 003/218] fix: Graph::toLaplacianMatrix is D - A also with
 self-loops

---
 mml/base/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index ea96e00..1945919 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -436,7 +436,7 @@ namespace MML
 					L(i, edge.to) = -edge.weight;  // Off-diagonal: -weight
 					deg += edge.weight;
 				}
-				L(i, i) = deg;  // Diagonal: sum of weights
+				L(i, i) += deg;   // keeps the -w contributed by a self-loop  // Diagonal: sum of weights
 			}
 
 			return L;
-- 
2.43.0


From 8e6de6f8536fd64abffd6ee583f0db5b880a1614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 004/218] fix: createPathGraph(0) and createCycleGraph(0) threw
 out_of_range

---
 mml/base/Graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index 1945919..b6aac3b 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -535,7 +535,7 @@ namespace MML
 	Graph<V, E> createPathGraph(size_t n)
 	{
 		Graph<V, E> g(n, Graph<V, E>::Type::Undirected);
-		for (size_t i = 0; i < n - 1; ++i)
+		for (size_t i = 0; i + 1 < n; ++i)
 			g.addEdge(i, i + 1, E{1});
 		return g;
 	}
@@ -545,7 +545,7 @@ namespace MML
 	Graph<V, E> createCycleGraph(size_t n)
 	{
 		Graph<V, E> g(n, Graph<V, E>::Type::Undirected);
-		for (size_t i = 0; i < n - 1; ++i)
+		for (size_t i = 0; i + 1 < n; ++i)
 			g.addEdge(i, i + 1, E{1});
 		if (n > 2)
 			g.addEdge(n - 1, 0, E{1});
-- 
2.43.0


From 49715b3d35678e00ef4706ba2f09851169e021bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 005/218] fix: ParseValue accepted a numeric prefix ("3.5" in
 an Int column became 3, "12abc" became 12)

---
 mml/tools/data_loader/DataLoaderParsing.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 177fd32..036ac2a 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -136,12 +136,14 @@ namespace MML {
 			try {
 				switch (targetType) {
 					case ColumnType::REAL: {
-						realOut = std::stod(trimmed);
-						return ParseResult::Parsed;
+						size_t used = 0;
+						realOut = std::stod(trimmed, &used);
+						return used == trimmed.size() ? ParseResult::Parsed : ParseResult::Invalid;
 					}
 					case ColumnType::INT: {
-						intOut = std::stoi(trimmed);
-						return ParseResult::Parsed;
+						size_t used = 0;
+						intOut = std::stoi(trimmed, &used);
+						return used == trimmed.size() ? ParseResult::Parsed : ParseResult::Invalid;
 					}
 					case ColumnType::BOOL: {
 						std::string lower = trimmed;
-- 
2.43.0


From 9d5f895b2a609dd7d2d068342527efcb28ce9315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 006/218] fix: columns with integers beyond int or with some
 real values were inferred Int, losing those values

---
 mml/tools/data_loader/DataLoaderParsing.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 036ac2a..4c8f06e 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -25,6 +25,17 @@ namespace MML {
 		/////////////////////////////////////////////////////////////////////////////////////
 		///                              TYPE INFERENCE                                    ///
 		/////////////////////////////////////////////////////////////////////////////////////
+		/// @brief Whether an integer literal is representable as int
+		inline bool FitsInt(const std::string& digits) {
+			try {
+				std::stoi(digits);
+				return true;
+			}
+			catch (const std::out_of_range&) {
+				return false;
+			}
+		}
+
 		/// @brief Infer column type from string values
 		/// @param values Sample of string values from the column
 		/// @return Most appropriate ColumnType for the data
@@ -56,7 +67,10 @@ namespace MML {
 
 				// Check numeric patterns FIRST (before bool, since "1"/"0" could be numeric)
 				if (std::regex_match(trimmed, intPattern)) {
-					++intCount;
+					if (FitsInt(trimmed))
+						++intCount;
+					else
+						++realCount;
 					continue;
 				}
 				if (std::regex_match(trimmed, realPattern)) {
@@ -98,7 +112,7 @@ namespace MML {
 			if (dateCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::DATE;
 			if (timeCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::TIME;
 			if (boolCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::BOOL;
-			if (intCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::INT;
+			if (realCount == 0 && intCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::INT;
 			if ((intCount + realCount) >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::REAL;
 
 			return ColumnType::STRING;
-- 
2.43.0


From edc1d2928fa399c934970eee91ca050623a16b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 007/218] fix: a TSV row with only missing cells was dropped as
 a blank line

---
 mml/tools/data_loader/DataLoaderCSV.h     | 4 ++--
 mml/tools/data_loader/DataLoaderParsing.h | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderCSV.h b/mml/tools/data_loader/DataLoaderCSV.h
index daca260..4d9c774 100644
--- a/mml/tools/data_loader/DataLoaderCSV.h
+++ b/mml/tools/data_loader/DataLoaderCSV.h
@@ -61,7 +61,7 @@ namespace MML {
 				}
 
 				// Skip empty lines
-				if (Trim(line).empty()) continue;
+				if (IsBlankLine(line, opts.delimiter)) continue;
 
 				// Handle Windows line endings
 				if (!line.empty() && line.back() == '\r')
@@ -297,7 +297,7 @@ namespace MML {
 			std::string line;
 
 			while (std::getline(iss, line)) {
-				if (Trim(line).empty()) continue;
+				if (IsBlankLine(line, delimiter)) continue;
 				if (!line.empty() && line.back() == '\r')
 					line.pop_back();
 				allData.push_back(SplitLine(line, delimiter));
diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 4c8f06e..e8929cb 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -234,6 +234,11 @@ namespace MML {
 			return s.substr(start, end - start + 1);
 		}
 
+		/// @brief Whether a line holds no fields (a whitespace delimiter separates fields, so it is not blank)
+		inline bool IsBlankLine(const std::string& line, char delimiter) {
+			return Trim(line).empty() && line.find(delimiter) == std::string::npos;
+		}
+
 		/// @brief Remove UTF-8 BOM if present
 		inline std::string RemoveBOM(const std::string& s) {
 			if (s.size() >= 3 &&
-- 
2.43.0


From 66cbc13e51af39b504ce7f7fe49a1b59e3b8a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 008/218] fix: LoadJSON misaligned rows when objects have
 different, repeated or no keys

---
 mml/tools/data_loader/DataLoaderJSON.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index bd5d6a7..a00b8ee 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -133,6 +133,7 @@ namespace MML {
 
 				std::map<std::string, std::vector<std::string>> columnData;
 				std::vector<std::string> columnOrder;
+				size_t rowCount = 0;
 
 				// Parse each object
 				while (Peek() != ']') {
@@ -140,6 +141,7 @@ namespace MML {
 
 					if (Get() != '{')
 						throw DataError("JSON: Expected '{' for object");
+					++rowCount;
 
 					// Parse object key-value pairs
 					while (Peek() != '}') {
@@ -174,29 +176,24 @@ namespace MML {
 								throw DataError("JSON: Unsupported value type (nested objects/arrays not supported)");
 						}
 
-						columnData[key].push_back(value);
+						// Rows where the key was absent are empty
+						columnData[key].resize(rowCount);
+						columnData[key].back() = value;
 					}
 
 					if (Get() != '}')
 						throw DataError("JSON: Expected '}'");
-
-					// Fill missing columns with empty for this row
-					size_t maxRows = 0;
-					for (const auto& col : columnOrder) {
-						maxRows = std::max(maxRows, columnData[col].size());
-					}
-					for (const auto& col : columnOrder) {
-						while (columnData[col].size() < maxRows)
-							columnData[col].push_back("");
-					}
 				}
 
 				if (Get() != ']')
 					throw DataError("JSON: Expected ']'");
 
+				for (auto& col : columnData)
+					col.second.resize(rowCount);
+				dataset.rowCount = rowCount;
+
 				// Build dataset
 				if (!columnOrder.empty()) {
-					dataset.rowCount = columnData[columnOrder[0]].size();
 					dataset.columns.reserve(columnOrder.size());
 
 					for (const auto& colName : columnOrder) {
-- 
2.43.0


From 9c1e1f47ea33d0a68b0188a731a0b7a5e40d3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 009/218] fix: JSON string escapes \u, \b and \f were decoded
 to their letter

---
 mml/tools/data_loader/DataLoaderJSON.h | 49 ++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index a00b8ee..61a3876 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -53,6 +53,52 @@ namespace MML {
 				return pos < json.size() ? json[pos++] : '\0';
 			}
 
+			unsigned ParseHex4() {
+				if (pos + 4 > json.size())
+					throw DataError("JSON: Incomplete unicode escape");
+				unsigned code = 0;
+				for (int i = 0; i < 4; ++i) {
+					unsigned char c = static_cast<unsigned char>(json[pos++]);
+					if (!std::isxdigit(c))
+						throw DataError("JSON: Invalid unicode escape");
+					code = code * 16 + (std::isdigit(c) ? c - '0' : std::tolower(c) - 'a' + 10);
+				}
+				return code;
+			}
+
+			/// Parses XXXX (or a surrogate pair) after "\u" and appends the code point as UTF-8
+			void AppendUnicodeEscape(std::string& out) {
+				unsigned code = ParseHex4();
+				if (code >= 0xDC00 && code <= 0xDFFF)
+					throw DataError("JSON: Unpaired surrogate in unicode escape");
+				if (code >= 0xD800 && code <= 0xDBFF) {
+					if (json.compare(pos, 2, "\\u") != 0)
+						throw DataError("JSON: Unpaired surrogate in unicode escape");
+					pos += 2;
+					unsigned low = ParseHex4();
+					if (low < 0xDC00 || low > 0xDFFF)
+						throw DataError("JSON: Unpaired surrogate in unicode escape");
+					code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+				}
+				if (code < 0x80)
+					out += static_cast<char>(code);
+				else if (code < 0x800) {
+					out += static_cast<char>(0xC0 | (code >> 6));
+					out += static_cast<char>(0x80 | (code & 0x3F));
+				}
+				else if (code < 0x10000) {
+					out += static_cast<char>(0xE0 | (code >> 12));
+					out += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+					out += static_cast<char>(0x80 | (code & 0x3F));
+				}
+				else {
+					out += static_cast<char>(0xF0 | (code >> 18));
+					out += static_cast<char>(0x80 | ((code >> 12) & 0x3F));
+					out += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+					out += static_cast<char>(0x80 | (code & 0x3F));
+				}
+			}
+
 			std::string ParseString() {
 				if (Get() != '"')
 					throw DataError("JSON: Expected '\"'");
@@ -70,6 +116,9 @@ namespace MML {
 							case '"': result += '"'; break;
 							case '\\': result += '\\'; break;
 							case '/': result += '/'; break;
+							case 'b': result += '\b'; break;
+							case 'f': result += '\f'; break;
+							case 'u': AppendUnicodeEscape(result); break;
 							default: result += esc; break;
 						}
 					}
-- 
2.43.0


From b43285c1764d263fc9a17059d4f923e529b6d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 010/218] fix: text and CSV matrix files kept only 6
 significant digits

---
 mml/tools/serializer/MatrixIO.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index 46b977f..7579271 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -17,6 +17,8 @@
 
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <sstream>
 #include <vector>
 #include <string>
@@ -81,6 +83,7 @@ namespace Serializer
 			return false;
 		}
 		
+		file << std::setprecision(std::numeric_limits<Real>::max_digits10);
 		file << mat.rows() << " " << mat.cols() << std::endl;
 		for (int i = 0; i < mat.rows(); ++i) {
 			for (int j = 0; j < mat.cols(); ++j)
@@ -146,6 +149,7 @@ namespace Serializer
 		std::ofstream file(filename);
 		if (!file.is_open()) return false;
 		
+		file << std::setprecision(std::numeric_limits<Real>::max_digits10);
 		for (int i = 0; i < mat.rows(); ++i) {
 			for (int j = 0; j < mat.cols(); ++j) {
 				file << mat(i, j);
-- 
2.43.0


From 33d56b158ece648a99eda3d17027bb036e3fbf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 011/218] fix: matrix and vector savers returned true when
 writing failed

---
 mml/tools/serializer/MatrixIO.h | 6 +++---
 mml/tools/serializer/VectorIO.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index 7579271..c1b77fb 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -92,7 +92,7 @@ namespace Serializer
 		}
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -159,7 +159,7 @@ namespace Serializer
 		}
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -211,7 +211,7 @@ namespace Serializer
 		           static_cast<std::streamsize>(rows) * cols * sizeof(Type));
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	/**
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index 5ac2710..d2693cf 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -77,7 +77,7 @@ bool SaveComplexVector(const std::vector<std::complex<T>>& vec,
     }
     
     file.close();
-    return true;
+    return !file.fail();
 }
 
 /// @brief Load complex vector from binary file
-- 
2.43.0


From 05e2731925b07232b538d439cc575c6ce6bbfa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:12 +0000
Subject: [PATCH 012/218] fix: matrix and vector loaders accepted truncated or
 corrupted files

---
 mml/tools/serializer/MatrixIO.h | 34 ++++++++++++++++++++++++++++-----
 mml/tools/serializer/VectorIO.h |  2 +-
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index c1b77fb..1b6593c 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -57,11 +57,21 @@ namespace Serializer
 			std::cerr << "Error: invalid dimensions (" << rows << "x" << cols << ") in " << filename << std::endl;
 			return false;
 		}
-		outMat.Resize(rows, cols);
 		
+		std::vector<Type> values;
+		const size_t count = static_cast<size_t>(rows) * cols;
+		Type value;
+		while (values.size() < count && file >> value)
+			values.push_back(value);
+		if (values.size() < count) {
+			std::cerr << "Error: missing or invalid elements in " << filename << std::endl;
+			return false;
+		}
+		
+		outMat.Resize(rows, cols);
 		for (int i = 0; i < rows; ++i)
 			for (int j = 0; j < cols; ++j)
-				file >> outMat(i, j);
+				outMat(i, j) = values[static_cast<size_t>(i) * cols + j];
 		
 		file.close();
 		return true;
@@ -122,11 +132,15 @@ namespace Serializer
 			while (std::getline(ss, cell, ',')) {
 				std::stringstream cellStream(cell);
 				Type value;
-				cellStream >> value;
+				if (!(cellStream >> value) || !(cellStream >> std::ws).eof())
+					return false;
 				row.push_back(value);
 			}
-			if (!row.empty())
+			if (!row.empty()) {
+				if (!data.empty() && row.size() != data[0].size())
+					return false;
 				data.push_back(row);
+			}
 		}
 		
 		file.close();
@@ -260,13 +274,23 @@ namespace Serializer
 			return false;
 		}
 		
+		// Check that the file holds all declared elements
+		const auto dataPos = file.tellg();
+		file.seekg(0, std::ios::end);
+		const auto available = static_cast<std::streamoff>(file.tellg() - dataPos);
+		file.seekg(dataPos);
+		if (!file || available < static_cast<std::streamoff>(rows) * cols * static_cast<std::streamoff>(sizeof(Type))) {
+			std::cerr << "Error: file " << filename << " is too small for " << rows << "x" << cols << " elements" << std::endl;
+			return false;
+		}
+		
 		// Read data
 		outMat.Resize(static_cast<int>(rows), static_cast<int>(cols));
 		file.read(reinterpret_cast<char*>(outMat.data()), 
 		          static_cast<std::streamsize>(rows) * cols * sizeof(Type));
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	/**
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index d2693cf..34966e4 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -113,7 +113,7 @@ bool LoadComplexVector(const std::string& filename,
     file.read(reinterpret_cast<char*>(&count), sizeof(count));
     file.read(reinterpret_cast<char*>(&elemSize), sizeof(elemSize));
     
-    if (elemSize != sizeof(T)) {
+    if (!file || elemSize != sizeof(T)) {
         std::cerr << "Error: element size mismatch in " << filename 
                   << " (file: " << elemSize << ", expected: " << sizeof(T) << ")" << std::endl;
         return false;
-- 
2.43.0


From fa7f09e0c793e6b5028637c44084a23b9c48e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:59 +0000
Subject: [PATCH 013/218] fix: Save* functions reported success when the file
 could not be written completely

---
 mml/tools/serializer/SerializerBase.h       |  9 +++++++
 mml/tools/serializer/SerializerCurves.h     | 15 ++++-------
 mml/tools/serializer/SerializerFieldLines.h | 12 +++------
 mml/tools/serializer/SerializerFunctions.h  | 29 +++++++++++----------
 mml/tools/serializer/SerializerODE.h        | 12 +++------
 mml/tools/serializer/SerializerSimulation.h |  6 ++---
 mml/tools/serializer/SerializerSurfaces.h   | 15 ++++-------
 mml/tools/serializer/SerializerVectors.h    | 12 +++------
 8 files changed, 48 insertions(+), 62 deletions(-)

diff --git a/mml/tools/serializer/SerializerBase.h b/mml/tools/serializer/SerializerBase.h
index 130f3a4..3f816c3 100644
--- a/mml/tools/serializer/SerializerBase.h
+++ b/mml/tools/serializer/SerializerBase.h
@@ -111,6 +111,15 @@ namespace MML
 			}
 		}
 
+		/// @brief Closes a written file; the result is a success only if everything reached the file
+		inline SerializeResult FinishWrite(std::ofstream& file, const std::string& message)
+		{
+			file.close();
+			if (file.fail())
+				return {false, SerializeError::WRITE_FAILED, "Write error: could not write the whole file"};
+			return {true, SerializeError::OK, message};
+		}
+
 		/// @brief Write header for vector field data file
 		inline void WriteVectorFieldHeader(std::ofstream& file, const std::string& type, const std::string& title)
 		{
diff --git a/mml/tools/serializer/SerializerCurves.h b/mml/tools/serializer/SerializerCurves.h
index db20385..a0d53a0 100644
--- a/mml/tools/serializer/SerializerCurves.h
+++ b/mml/tools/serializer/SerializerCurves.h
@@ -57,8 +57,7 @@ namespace MML
 						file << val[i] << " ";
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return FinishWrite(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -98,8 +97,7 @@ namespace MML
 					file << std::endl;
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return FinishWrite(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -142,8 +140,7 @@ namespace MML
 						file << vals[i][j] << " ";
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return FinishWrite(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -183,8 +180,7 @@ namespace MML
 						file << vals[i][j] << " ";
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return FinishWrite(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -236,8 +232,7 @@ namespace MML
 					Real t = t1 + (t2 - t1) * i / (vec_x.size() - 1);
 					file << t << " " << vec_x[i] << " " << vec_y[i] << std::endl;
 				}
-				file.close();
-				return { true, SerializeError::OK, "Successfully saved parametric curve 2D" };
+				return FinishWrite(file, "Successfully saved parametric curve 2D");
 			}
 			catch (const std::exception& e) {
 				file.close();
diff --git a/mml/tools/serializer/SerializerFieldLines.h b/mml/tools/serializer/SerializerFieldLines.h
index 7577112..9acfc2b 100644
--- a/mml/tools/serializer/SerializerFieldLines.h
+++ b/mml/tools/serializer/SerializerFieldLines.h
@@ -88,8 +88,7 @@ namespace MML
 					}
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return FinishWrite(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -136,8 +135,7 @@ namespace MML
 					}
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return FinishWrite(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -188,8 +186,7 @@ namespace MML
 					}
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return FinishWrite(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -232,8 +229,7 @@ namespace MML
 					}
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return FinishWrite(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index 38e1b44..114c5c0 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -53,6 +53,8 @@ namespace MML
 					Real x = x1 + i * step;
 					out << x << " " << f(x) << std::endl;
 				}
+				if (out.fail())
+					return {false, SerializeError::WRITE_FAILED, "Write error"};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -74,8 +76,7 @@ namespace MML
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
 			auto result = SaveRealFunc(file, f, title, x1, x2, numPoints, precision);
-			file.close();
-			return result;
+			return result.success ? FinishWrite(file, result.message) : result;
 		}
 
 		/// @brief Serialize a real function to a stream at specified points
@@ -96,6 +97,8 @@ namespace MML
 					Real x = points[i];
 					out << x << " " << f(x) << std::endl;
 				}
+				if (out.fail())
+					return {false, SerializeError::WRITE_FAILED, "Write error"};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -116,8 +119,7 @@ namespace MML
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
 			auto result = SaveRealFunc(file, f, title, points, precision);
-			file.close();
-			return result;
+			return result.success ? FinishWrite(file, result.message) : result;
 		}
 
 		/// @brief Serialize a real function to stream saving only function values (space-optimized)
@@ -140,6 +142,8 @@ namespace MML
 					Real x = x1 + i * step;
 					out << f(x) << std::endl;
 				}
+				if (out.fail())
+					return {false, SerializeError::WRITE_FAILED, "Write error"};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -160,8 +164,7 @@ namespace MML
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
 			auto result = SaveRealFuncEquallySpaced(file, f, title, x1, x2, numPoints, precision);
-			file.close();
-			return result;
+			return result.success ? FinishWrite(file, result.message) : result;
 		}
 
 		//===================================================================================
@@ -197,6 +200,8 @@ namespace MML
 
 					out << std::endl;
 				}
+				if (out.fail())
+					return {false, SerializeError::WRITE_FAILED, "Write error"};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -218,8 +223,7 @@ namespace MML
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
 			auto result = SaveRealMultiFunc(file, funcs, title, legend, x1, x2, numPoints, precision);
-			file.close();
-			return result;
+			return result.success ? FinishWrite(file, result.message) : result;
 		}
 
 		/// @brief Serialize multiple linear interpolation functions to file
@@ -256,8 +260,7 @@ namespace MML
 
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -299,8 +302,7 @@ namespace MML
 
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -342,8 +344,7 @@ namespace MML
 
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerODE.h b/mml/tools/serializer/SerializerODE.h
index 1211821..e52f370 100644
--- a/mml/tools/serializer/SerializerODE.h
+++ b/mml/tools/serializer/SerializerODE.h
@@ -53,8 +53,7 @@ namespace MML
 					file << sol.getTValues()[i] << " " << sol.getXValues()[compInd][i] << std::endl;
 				}
 				
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -94,8 +93,7 @@ namespace MML
 					}
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -137,8 +135,7 @@ namespace MML
 					file << std::endl;
 				}
 				
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -182,8 +179,7 @@ namespace MML
 					file << std::endl;
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerSimulation.h b/mml/tools/serializer/SerializerSimulation.h
index 47c0946..4ee7b40 100644
--- a/mml/tools/serializer/SerializerSimulation.h
+++ b/mml/tools/serializer/SerializerSimulation.h
@@ -84,8 +84,7 @@ namespace MML
 					}
 				}
 				file << buffer.str();
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -154,8 +153,7 @@ namespace MML
 						file << j << " " << ballPositions[j][i].X() << " " << ballPositions[j][i].Y() << " " << ballPositions[j][i].Z() << "\n";
 					}
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerSurfaces.h b/mml/tools/serializer/SerializerSurfaces.h
index 5187222..50db12b 100644
--- a/mml/tools/serializer/SerializerSurfaces.h
+++ b/mml/tools/serializer/SerializerSurfaces.h
@@ -83,8 +83,7 @@ namespace MML
 					}
 				}
 				
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -139,8 +138,7 @@ namespace MML
 					}
 				}
 				
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -208,8 +206,7 @@ namespace MML
 						file << x << " " << y << " " << f(VectorN<Real, 2>{x, y}) << std::endl;
 					}
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -268,8 +265,7 @@ namespace MML
 						}
 					}
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -340,8 +336,7 @@ namespace MML
 						file << x << " " << y << " " << value << std::endl;
 					}
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerVectors.h b/mml/tools/serializer/SerializerVectors.h
index a469404..55562e8 100644
--- a/mml/tools/serializer/SerializerVectors.h
+++ b/mml/tools/serializer/SerializerVectors.h
@@ -54,8 +54,7 @@ namespace MML
 						auto val = f(VectorN<Real, 2>{x, y});
 						file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -97,8 +96,7 @@ namespace MML
 						if (val.NormL2() < upper_threshold)
 							file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -160,8 +158,7 @@ namespace MML
 							file << x << " " << y << " " << z << " " << val[0] << " " << val[1] << " " << val[2] << std::endl;
 						}
 
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -209,8 +206,7 @@ namespace MML
 								file << x << " " << y << " " << z << " " << val[0] << " " << val[1] << " " << val[2] << std::endl;
 						}
 
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
-- 
2.43.0


From 84ba3cccb174afde8fb89c36dbff2036bc8920c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:59 +0000
Subject: [PATCH 014/218] fix: SaveParticleSimulation read past the end when a
 ball has fewer positions than the first

---
 mml/tools/serializer/SerializerSimulation.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/tools/serializer/SerializerSimulation.h b/mml/tools/serializer/SerializerSimulation.h
index 4ee7b40..f2ce94b 100644
--- a/mml/tools/serializer/SerializerSimulation.h
+++ b/mml/tools/serializer/SerializerSimulation.h
@@ -48,6 +48,9 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "dT must be positive"};
 			if (ballPositions.size() != numBalls || ballColors.size() != numBalls || ballRadius.size() != numBalls)
 				return {false, SerializeError::INVALID_PARAMETERS, "ballPositions, ballColors, and ballRadius sizes must equal numBalls"};
+			for (const auto& positions : ballPositions)
+				if (positions.size() != ballPositions[0].size())
+					return {false, SerializeError::INVALID_PARAMETERS, "all balls must have the same number of positions"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (saveEveryNSteps < 1)
@@ -118,6 +121,9 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "dT must be positive"};
 			if (ballPositions.size() != numBalls || ballColors.size() != numBalls || ballRadius.size() != numBalls)
 				return {false, SerializeError::INVALID_PARAMETERS, "ballPositions, ballColors, and ballRadius sizes must equal numBalls"};
+			for (const auto& positions : ballPositions)
+				if (positions.size() != ballPositions[0].size())
+					return {false, SerializeError::INVALID_PARAMETERS, "all balls must have the same number of positions"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (saveEveryNSteps < 1)
-- 
2.43.0


From 9b493aed985fae1e4099dd52af8a6b5e93617b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:32 +0000
Subject: [PATCH 015/218] fix: TablePrinter reported success when the file
 could not be written completely

---
 mml/tools/ConsolePrinter.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index 04d2741..21a8cbc 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -532,6 +532,10 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			print(file);
+			file.close();
+			if (file.fail()) {
+				throw FileIOError("Cannot write file: " + filename, filename);
+			}
 		}
 
 		// Convert to string
@@ -573,6 +577,10 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			exportTo(file, format);
+			file.close();
+			if (file.fail()) {
+				throw FileIOError("Cannot write file: " + filename, filename);
+			}
 		}
 
 	private:
-- 
2.43.0


From a1a1836089a167299079283eb600ed7a4e5b0114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 016/218] fix: VectorTablePrinter threw length_error for an
 auto-width column

---
 mml/tools/ConsolePrinter.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index 21a8cbc..e3a660e 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -876,6 +876,8 @@ namespace MML {
 		void print(std::ostream& os = std::cout) const {
 			StreamStateGuard guard(os);
 
+			calculateAutoWidths();
+
 			auto bc = m_style.getChars();
 			bool hasBorders = m_style.borderStyle() != BorderStyle::None;
 
@@ -948,6 +950,20 @@ namespace MML {
 		}
 
 	private:
+		void calculateAutoWidths() const {
+			auto& fmts = const_cast<std::vector<ColumnFormat>&>(m_formats);
+			for (size_t col = 0; col < fmts.size(); ++col) {
+				if (fmts[col].rawWidth() != ColumnFormat::AUTO_WIDTH)
+					continue;
+				int maxWidth = static_cast<int>(fmts[col].name().length());
+				for (int row = 0; row < m_vectors[col]->size(); ++row) {
+					std::string formatted = fmts[col].formatValue((*m_vectors[col])[row]);
+					maxWidth = std::max(maxWidth, static_cast<int>(formatted.length()));
+				}
+				fmts[col].setCalculatedWidth(maxWidth);
+			}
+		}
+
 		// Helper: print horizontal line for borders (UTF-8 safe)
 		void printHorizontalLine(std::ostream& os, const std::string& left, const std::string& horiz, const std::string& cross,
 								 const std::string& right) const {
-- 
2.43.0


From 0ac552c4f5d0b50b0726c891bedb05447aaab781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 017/218] fix: m *= m(i,j) and similar in-place scalar
 operations used a changing factor

---
 mml/base/Matrix/Matrix.h   | 6 ++++--
 mml/base/Matrix/Matrix3D.h | 9 ++++++---
 mml/base/Matrix/MatrixNM.h | 3 ++-
 mml/base/Vector/VectorN.h  | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 2067be1..51c3798 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1007,8 +1007,9 @@ namespace MML
 		/// @brief In-place scalar multiplication
 		Matrix& operator*=(const Type& scalar)
 		{
+			const Type s = scalar;	// scalar may be an element of this matrix
 			for (auto& elem : _data)
-				elem *= scalar;
+				elem *= s;
 			return *this;
 		}
 		
@@ -1024,8 +1025,9 @@ namespace MML
 		/// @brief In-place scalar division
 		Matrix& operator/=(const Type& scalar)
 		{
+			const Type s = scalar;	// scalar may be an element of this matrix
 			for (auto& elem : _data)
-				elem /= scalar;
+				elem /= s;
 			return *this;
 		}
 		
diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index db2389f..bc83b05 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -357,19 +357,22 @@ namespace MML {
 
 		/// @brief In-place scalar multiplication.
 		Matrix3D& operator*=(const Type& scalar) {
-			for (auto& elem : _data) elem *= scalar;
+			const Type s = scalar;	// scalar may be an element of this matrix
+			for (auto& elem : _data) elem *= s;
 			return *this;
 		}
 
 		/// @brief In-place scalar division.
 		Matrix3D& operator/=(const Type& scalar) {
-			for (auto& elem : _data) elem /= scalar;
+			const Type s = scalar;	// scalar may be an element of this matrix
+			for (auto& elem : _data) elem /= s;
 			return *this;
 		}
 
 		/// @brief In-place scalar addition.
 		Matrix3D& operator+=(const Type& scalar) {
-			for (auto& elem : _data) elem += scalar;
+			const Type s = scalar;	// scalar may be an element of this matrix
+			for (auto& elem : _data) elem += s;
 			return *this;
 		}
 
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index ca41849..4ddbad5 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -480,10 +480,11 @@ namespace MML {
 		/// @brief In-place scalar multiplication (A *= b).
 		MatrixNM& operator*=(const Type& b) {
 			int i, j;
+			const Type s = b;	// b may be an element of this matrix
 
 			for (i = 0; i < rows(); i++)
 				for (j = 0; j < cols(); j++)
-					_vals[i][j] *= b;
+					_vals[i][j] *= s;
 
 			return *this;
 		}
diff --git a/mml/base/Vector/VectorN.h b/mml/base/Vector/VectorN.h
index 0e01755..e757fca 100644
--- a/mml/base/Vector/VectorN.h
+++ b/mml/base/Vector/VectorN.h
@@ -251,8 +251,9 @@ namespace MML
 		/// @param b Scalar multiplier
 		VectorN& operator*=(const Type& b)
 		{
+			const Type s = b;	// b may be an element of this vector
 			for (int i = 0; i < N; i++)
-				_val[i] *= b;
+				_val[i] *= s;
 			return *this;
 		}
 		/// @brief Scalar division (vector / scalar).
@@ -268,8 +269,9 @@ namespace MML
 		/// @param b Scalar divisor
 		VectorN& operator/=(const Type& b)
 		{
+			const Type s = b;	// b may be an element of this vector
 			for (int i = 0; i < N; i++)
-				_val[i] /= b;
+				_val[i] /= s;
 			return *this;
 		}
 		
-- 
2.43.0


From 73d1ea33bb6f0e4e20f03e9d5c7ab0eb64d917a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 018/218] fix: inverting a zero matrix returned NaN instead of
 throwing SingularMatrixError

---
 mml/base/Matrix/Matrix.h   | 2 +-
 mml/base/Matrix/MatrixNM.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 51c3798..49c3b0b 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1137,7 +1137,7 @@ namespace MML
 				indxr[i] = irow;
 				indxc[i] = icol;
 				
-				if (Abs(a(icol, icol)) < singularity_threshold)
+				if (Abs(a(icol, icol)) <= singularity_threshold)
 					throw SingularMatrixError("Matrix::Invert - Singular Matrix", Abs(a(icol, icol)));
 				
 				Type pivinv = Type{1} / a(icol, icol);
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index 4ddbad5..b6927da 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -660,7 +660,7 @@ namespace MML {
 				indxr[i] = irow;
 				indxc[i] = icol;
 
-				if (std::abs(a._vals[icol][icol]) < singularity_threshold)
+				if (std::abs(a._vals[icol][icol]) <= singularity_threshold)
 					throw SingularMatrixError("MatrixNM::Invert, gaussj: Singular Matrix", std::abs(a._vals[icol][icol]));
 
 				pivinv = 1.0 / a._vals[icol][icol];
-- 
2.43.0


From 007d764175f5729b4ddc3dd50db46cd1d9a3d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 019/218] fix: isAntiSymmetric ignored a nonzero diagonal

---
 mml/base/Matrix/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 49c3b0b..e7c6fc7 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -707,7 +707,7 @@ namespace MML
 			if (_rows != _cols) return false;
 			
 			for (int i = 0; i < _rows; ++i) {
-				for (int j = i + 1; j < _cols; ++j) {
+				for (int j = i; j < _cols; ++j) {
 					if (IsMatrixTypeComplex()) {
 						if (Abs((*this)(i, j) + std::conj((*this)(j, i))) > eps)
 							return false;
-- 
2.43.0


From 5a2e5f8047c99f54770f7b8bc1afb9859a97d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 020/218] fix: MatrixNM diagonal constructor and Identity wrote
 past the end when N > M

---
 mml/base/Matrix/MatrixNM.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index b6927da..73cd157 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -187,7 +187,7 @@ namespace MML {
 		/// @endcode
 
 		MatrixNM(const Type& m) {
-			for (int i = 0; i < N; i++)
+			for (int i = 0; i < N && i < M; i++)
 				_vals[i][i] = Type{m};
 		}
 		/// /** @} */
@@ -215,7 +215,7 @@ namespace MML {
 		static MatrixNM Identity() {
 			MatrixNM unitMat;
 
-			for (int i = 0; i < N; i++)
+			for (int i = 0; i < N && i < M; i++)
 				unitMat._vals[i][i] = 1.0;
 
 			return unitMat;
-- 
2.43.0


From 48900191926b5950091a8e1f40cb6e6a1f263b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 021/218] fix: IsEqualTo of tridiagonal and band matrices
 compared stored entries outside the matrix

---
 mml/base/Matrix/MatrixBandDiag.h | 10 +++++++++-
 mml/base/Matrix/MatrixTriDiag.h  |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mml/base/Matrix/MatrixBandDiag.h b/mml/base/Matrix/MatrixBandDiag.h
index 0bdff9f..6b70b13 100644
--- a/mml/base/Matrix/MatrixBandDiag.h
+++ b/mml/base/Matrix/MatrixBandDiag.h
@@ -401,7 +401,15 @@ namespace MML {
 			if (_dim != other._dim || _m1 != other._m1 || _m2 != other._m2)
 				return false;
 
-			return _data.IsEqualTo(other._data, tolerance);
+			// entries of _data outside the matrix are not compared
+			for (int i = 0; i < _dim; i++) {
+				int j_start = std::max(0, i - _m1);
+				int j_end = std::min(_dim - 1, i + _m2);
+				for (int j = j_start; j <= j_end; j++)
+					if (std::abs((*this)(i, j) - other(i, j)) > tolerance)
+						return false;
+			}
+			return true;
 		}
 		/// /** @} */
 
diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index 83209b0..21022c9 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -98,9 +98,9 @@ namespace MML
 			for (int i = 0; i < _dim; i++) {
 				if (std::abs(_diag[i] - b._diag[i]) > eps)
 					return false;
-				if (std::abs(_belowDiag[i] - b._belowDiag[i]) > eps)
+				if (i > 0 && std::abs(_belowDiag[i] - b._belowDiag[i]) > eps)
 					return false;
-				if (std::abs(_aboveDiag[i] - b._aboveDiag[i]) > eps)
+				if (i < _dim - 1 && std::abs(_aboveDiag[i] - b._aboveDiag[i]) > eps)
 					return false;
 			}
 			return true;
-- 
2.43.0


From 8cbcc71347ac7842e20d7a7ea96df844c6bebda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 022/218] fix: TridiagonalMatrix::Solve read and wrote out of
 bounds for vectors of the wrong size

---
 mml/base/Matrix/MatrixTriDiag.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index 21022c9..dc5c490 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -212,6 +212,10 @@ namespace MML
 		void Solve(const Vector<Type>& rhs, Vector<Type>& sol)
 		{
 			int j, n = _belowDiag.size();
+
+			if (rhs.size() != n || sol.size() != n)
+				throw MatrixDimensionError("TridiagonalMatrix::Solve - vector dimensions must match matrix dimension", _dim, _dim, rhs.size(), sol.size());
+
 			Type bet;  // Must be Type to work with complex matrices
 			Vector<Type> gam(n);
 
-- 
2.43.0


From e3805ab6875d5f0dc94e0ab445e68327e38c561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:01 +0000
Subject: [PATCH 023/218] fix: QRSolver missed singular matrices with dependent
 leading columns and refused small regular ones

---
 mml/core/LinAlgEqSolvers/LinAlgQR.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgQR.h b/mml/core/LinAlgEqSolvers/LinAlgQR.h
index 66bd518..790b3a2 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgQR.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgQR.h
@@ -62,6 +62,15 @@ namespace MML
 			// For square matrices: process n-1 columns (last has no elements below diagonal)
 			// For overdetermined: process all n columns (last column still has elements below diagonal)
 			int ncols = (_m == _n) ? _n - 1 : _n;
+
+			// Everything below is relative to the size of the matrix: an element that is
+			// only rounding noise compared to it counts as zero
+			Real norm_a = 0.0;
+			for (int ii = 0; ii < _m; ii++)
+				for (int jj = 0; jj < _n; jj++)
+					norm_a = std::hypot(norm_a, Abs(a(ii, jj)));
+			Real threshold = std::numeric_limits<Real>::epsilon() * norm_a * _m;
+
 			for (k = 0; k < ncols; k++)
 			{
 				// Compute the norm of the k-th column below the diagonal
@@ -69,7 +78,7 @@ namespace MML
 				for (i = k; i < _m; i++)
 					scale = std::max(scale, Abs(_QR[i][k]));
 
-				if (scale < std::numeric_limits<Real>::epsilon())
+				if (scale <= threshold)
 				{
 					// Singular case: column below diagonal is effectively zero
 					_sing = true;
@@ -113,14 +122,7 @@ namespace MML
 			if (_m == _n)
 			{
 				_d[_n - 1] = _QR[_n - 1][_n - 1];
-				// Use norm-scaled threshold instead of exact zero
-				Real norm_a = 0.0;
-				for (int ii = 0; ii < _m; ii++)
-					for (int jj = 0; jj < _n; jj++)
-						if (Abs(a(ii, jj)) > norm_a)
-							norm_a = Abs(a(ii, jj));
-				Real threshold = std::numeric_limits<Real>::epsilon() * norm_a * _n;
-				if (Abs(_d[_n - 1]) < threshold)
+				if (Abs(_d[_n - 1]) <= threshold)
 					_sing = true;
 			}
 		}
-- 
2.43.0


From ac002cfd6ae5d3e9cd342b270dd3443221f18dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:01 +0000
Subject: [PATCH 024/218] fix: GaussJordanSolver and BandDiagonalSolver did not
 report a zero matrix as singular

---
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 3705caf..e565833 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -157,7 +157,7 @@ namespace MML
 				indxr[i] = irow;
 				indxc[i] = icol;
 
-				if (Abs(a[icol][icol]) < singularity_threshold)
+				if (Abs(a[icol][icol]) <= singularity_threshold)
 					throw SingularMatrixError("GaussJordanSolver::SolveInPlace - Singular Matrix", Abs(a[icol][icol]));
 
 				pivinv = Real{ 1.0 } / a[icol][icol];
@@ -738,7 +738,7 @@ namespace MML
 				
 				_indx[k] = i + 1;  // Store 1-based index for compatibility
 				
-				if (Abs(dum) < singularity_threshold)
+				if (Abs(dum) <= singularity_threshold)
 					throw SingularMatrixError("BandDiagonalSolver::ctor - Singular Matrix", Abs(dum));
 				
 				// Interchange rows if necessary
-- 
2.43.0


From ed62a3d9bce25e52e1a9f4271c96f9680feabf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 025/218] fix: CholeskySolver accepted singular matrices when
 rounding left a tiny positive pivot

---
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index e565833..b093f1f 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -921,8 +921,8 @@ namespace MML
 					
 					if (i == j)
 					{
-						// Diagonal element
-						if (sum <= 0.0)
+						// Diagonal element (rounding noise of a(i,i) counts as zero)
+						if (sum <= std::numeric_limits<Real>::epsilon() * n * Abs(a(i, i)))
 							throw SingularMatrixError("CholeskySolver: Matrix is not positive definite");
 						
 						el[i][i] = std::sqrt(sum);
-- 
2.43.0


From e0972a20afbee127127ab4e8da7d87e56bf49962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 026/218] fix: IsNilpotent returned false for the 1x1 zero
 matrix

---
 mml/core/MatrixUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/MatrixUtils.h b/mml/core/MatrixUtils.h
index bf90333..cc64555 100644
--- a/mml/core/MatrixUtils.h
+++ b/mml/core/MatrixUtils.h
@@ -307,7 +307,7 @@ namespace MML
 				if (M.isZero())
 					return true;
 			}
-			return false;
+			return M.isZero();
 		}
 
 		/**
-- 
2.43.0


From 705e80b166e73a15ba44586cbaf965c9f6b93b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 027/218] fix: the zero matrix was classified as indefinite
 instead of positive semi-definite

---
 mml/algorithms/MatrixAlg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/MatrixAlg.h b/mml/algorithms/MatrixAlg.h
index a247f17..d94dc55 100644
--- a/mml/algorithms/MatrixAlg.h
+++ b/mml/algorithms/MatrixAlg.h
@@ -137,7 +137,7 @@ namespace MML {
 
 			if (numNegative == 0 && numZero == 0)
 				return Definiteness::PositiveDefinite;
-			else if (numNegative == 0 && numPositive > 0)
+			else if (numNegative == 0)
 				return Definiteness::PositiveSemiDefinite;
 			else if (numPositive == 0 && numZero == 0)
 				return Definiteness::NegativeDefinite;
-- 
2.43.0


From d9d2dbcc7bc6095e33835c6ac7b9620aac25d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:54 +0000
Subject: [PATCH 028/218] fix: iterative solvers reported one iteration more
 than performed when not converged

---
 mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
index 8b748d2..f670c33 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
@@ -202,7 +202,7 @@ namespace MML
 				x = x_new;
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			return IterativeSolverResult(x, std::min(iter, maxIter), residual, converged);
 		}
 		
 		/**
@@ -353,7 +353,7 @@ namespace MML
 				}
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			return IterativeSolverResult(x, std::min(iter, maxIter), residual, converged);
 		}
 		
 		/**
@@ -525,7 +525,7 @@ namespace MML
 				}
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			return IterativeSolverResult(x, std::min(iter, maxIter), residual, converged);
 		}
 		
 		/**
-- 
2.43.0


From 1fdf089735d7ad8f05f41c68ff6899f0b16cb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 029/218] fix: SORSolver::SolveOptimal threw for a 1x1 system

---
 mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
index f670c33..a924cac 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
@@ -531,7 +531,7 @@ namespace MML
 		/**
 		 * @brief Solve with automatic omega selection for tridiagonal systems
 		 * 
-		 * Uses the optimal ω formula: ω = 2 / (1 + sin(π/n))
+		 * Uses the optimal ω formula: ω = 2 / (1 + sin(π/(n+1)))
 		 * This is optimal for tridiagonal systems from discretized Poisson equation.
 		 * For other systems, may not be optimal but often gives good results.
 		 */
@@ -542,7 +542,8 @@ namespace MML
 		                                           int maxIter = 1000)
 		{
 			int n = A.rows();
-			Real omega = 2.0 / (1.0 + std::sin(Constants::PI / n));
+			// n interior points divide the interval into n + 1 steps (also keeps omega < 2 for n = 1)
+			Real omega = 2.0 / (1.0 + std::sin(Constants::PI / (n + 1)));
 			return Solve(A, b, omega, x0, tol, maxIter);
 		}
 		
-- 
2.43.0


From a333344ed243eec618d65ed140169104cb748dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 030/218] fix: Interval::Union and Intersection lost closed
 endpoints next to an infinite end

---
 mml/base/Intervals.h | 90 +++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 42 deletions(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index d37158c..0125510 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -489,6 +489,36 @@ namespace MML {
 			return *this;
 		}
 
+	private:
+		// Adds the interval with the given bounds and endpoint types, unless it is empty
+		void AddNonEmpty(Real lower, EndpointType lowerType, Real upper, EndpointType upperType) {
+			bool noLower = (lowerType == EndpointType::NEG_INF), noUpper = (upperType == EndpointType::POS_INF);
+			bool closedLower = (lowerType == EndpointType::CLOSED), closedUpper = (upperType == EndpointType::CLOSED);
+
+			if (!noLower && !noUpper && (lower > upper || (lower == upper && !(closedLower && closedUpper))))
+				return;
+
+			if (noLower && noUpper)
+				AddInterval(CompleteRInterval());
+			else if (noLower && closedUpper)
+				AddInterval(NegInfToClosedInterval(upper));
+			else if (noLower)
+				AddInterval(NegInfToOpenInterval(upper));
+			else if (noUpper && closedLower)
+				AddInterval(ClosedToInfInterval(lower));
+			else if (noUpper)
+				AddInterval(OpenToInfInterval(lower));
+			else if (closedLower && closedUpper)
+				AddInterval(ClosedInterval(lower, upper));
+			else if (closedUpper)
+				AddInterval(OpenClosedInterval(lower, upper));
+			else if (closedLower)
+				AddInterval(ClosedOpenInterval(lower, upper));
+			else
+				AddInterval(OpenInterval(lower, upper));
+		}
+
+	public:
 		/// @brief Computes the intersection of two intervals.
 		/// Returns A ∩ B, the set of points contained in both intervals.
 		/// Handles endpoint types correctly (intersection of open and closed
@@ -511,31 +541,25 @@ namespace MML {
 			// Determine endpoint types
 			EndpointType lowerType, upperType;
 
-			if (lower == a._lower && lower == b._lower)
-				lowerType = (a._lowerType == EndpointType::CLOSED && b._lowerType == EndpointType::CLOSED) ? EndpointType::CLOSED
-																										   : EndpointType::OPEN;
+			if (a._lowerType == b._lowerType && lower == a._lower && lower == b._lower)
+				lowerType = a._lowerType;
+			else if (lower == a._lower && lower == b._lower)
+				lowerType = EndpointType::OPEN;
 			else if (lower == a._lower)
 				lowerType = a._lowerType;
 			else
 				lowerType = b._lowerType;
 
-			if (upper == a._upper && upper == b._upper)
-				upperType = (a._upperType == EndpointType::CLOSED && b._upperType == EndpointType::CLOSED) ? EndpointType::CLOSED
-																										   : EndpointType::OPEN;
+			if (a._upperType == b._upperType && upper == a._upper && upper == b._upper)
+				upperType = a._upperType;
+			else if (upper == a._upper && upper == b._upper)
+				upperType = EndpointType::OPEN;
 			else if (upper == a._upper)
 				upperType = a._upperType;
 			else
 				upperType = b._upperType;
 
-			// Create appropriate interval based on endpoint types
-			if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
-				ret.AddInterval(ClosedInterval(lower, upper));
-			else if (lowerType == EndpointType::OPEN && upperType == EndpointType::CLOSED)
-				ret.AddInterval(OpenClosedInterval(lower, upper));
-			else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::OPEN)
-				ret.AddInterval(ClosedOpenInterval(lower, upper));
-			else
-				ret.AddInterval(OpenInterval(lower, upper));
+			ret.AddNonEmpty(lower, lowerType, upper, upperType);
 
 			return ret;
 		}
@@ -576,7 +600,9 @@ namespace MML {
 				// Determine endpoint types
 				EndpointType lowerType, upperType;
 
-				if (lower == a._lower && lower == b._lower)
+				if (a._lowerType == b._lowerType && lower == a._lower && lower == b._lower)
+					lowerType = a._lowerType;
+				else if (lower == a._lower && lower == b._lower)
 					lowerType = (a._lowerType == EndpointType::CLOSED || b._lowerType == EndpointType::CLOSED) 
 					            ? EndpointType::CLOSED : EndpointType::OPEN;
 				else if (lower == a._lower)
@@ -584,7 +610,9 @@ namespace MML {
 				else
 					lowerType = b._lowerType;
 
-				if (upper == a._upper && upper == b._upper)
+				if (a._upperType == b._upperType && upper == a._upper && upper == b._upper)
+					upperType = a._upperType;
+				else if (upper == a._upper && upper == b._upper)
 					upperType = (a._upperType == EndpointType::CLOSED || b._upperType == EndpointType::CLOSED) 
 					            ? EndpointType::CLOSED : EndpointType::OPEN;
 				else if (upper == a._upper)
@@ -592,39 +620,17 @@ namespace MML {
 				else
 					upperType = b._upperType;
 
-				// Create appropriate interval
-				if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(lower, upper));
-				else if (lowerType == EndpointType::OPEN && upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(lower, upper));
-				else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(lower, upper));
-				else
-					ret.AddInterval(OpenInterval(lower, upper));
+				ret.AddNonEmpty(lower, lowerType, upper, upperType);
 			} else {
 				// Disjoint intervals - add both (in order)
 				const BaseInterval* first = (a._lower < b._lower) ? &a : &b;
 				const BaseInterval* second = (a._lower < b._lower) ? &b : &a;
 
 				// Add first interval
-				if (first->_lowerType == EndpointType::CLOSED && first->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(first->_lower, first->_upper));
-				else if (first->_lowerType == EndpointType::OPEN && first->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(first->_lower, first->_upper));
-				else if (first->_lowerType == EndpointType::CLOSED && first->_upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(first->_lower, first->_upper));
-				else
-					ret.AddInterval(OpenInterval(first->_lower, first->_upper));
+				ret.AddNonEmpty(first->_lower, first->_lowerType, first->_upper, first->_upperType);
 
 				// Add second interval
-				if (second->_lowerType == EndpointType::CLOSED && second->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(second->_lower, second->_upper));
-				else if (second->_lowerType == EndpointType::OPEN && second->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(second->_lower, second->_upper));
-				else if (second->_lowerType == EndpointType::CLOSED && second->_upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(second->_lower, second->_upper));
-				else
-					ret.AddInterval(OpenInterval(second->_lower, second->_upper));
+				ret.AddNonEmpty(second->_lower, second->_lowerType, second->_upper, second->_upperType);
 			}
 
 			return ret;
-- 
2.43.0


From 4a50de0c4e9eba79020d8f51fe3ef2026025db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 031/218] fix: Interval::Difference ignored endpoint types at
 touching and equal bounds

---
 mml/base/Intervals.h | 70 +++-----------------------------------------
 1 file changed, 4 insertions(+), 66 deletions(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index 0125510..b5d60de 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -648,72 +648,10 @@ namespace MML {
 		static Interval Difference(const BaseInterval& a, const BaseInterval& b) {
 			Interval ret;
 
-			// If b doesn't intersect a, return a
-			if (b._upper <= a._lower || b._lower >= a._upper) {
-				// Return copy of a based on its endpoint types
-				if (a._lowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, a._upper));
-				else if (a._lowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, a._upper));
-				else if (a._lowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, a._upper));
-				else
-					ret.AddInterval(OpenInterval(a._lower, a._upper));
-				return ret;
-			}
-
-			// Case: b completely contains a
-			if (b._lower <= a._lower && b._upper >= a._upper)
-				return ret; // Empty set
-
-			// Case: b cuts left part of a
-			if (b._lower <= a._lower && b._upper < a._upper) {
-				EndpointType newLowerType = (b._upperType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (newLowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(b._upper, a._upper));
-				else if (newLowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(b._upper, a._upper));
-				else if (newLowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(b._upper, a._upper));
-				else
-					ret.AddInterval(OpenInterval(b._upper, a._upper));
-			}
-			// Case: b cuts right part of a
-			else if (b._lower > a._lower && b._upper >= a._upper) {
-				EndpointType newUpperType = (b._lowerType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (a._lowerType == EndpointType::CLOSED && newUpperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::OPEN && newUpperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::CLOSED && newUpperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, b._lower));
-				else
-					ret.AddInterval(OpenInterval(a._lower, b._lower));
-			}
-			// Case: b is completely inside a (splits a into two intervals)
-			else {
-				// Left part: [a.lower, b.lower)
-				EndpointType leftUpperType = (b._lowerType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (a._lowerType == EndpointType::CLOSED && leftUpperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::OPEN && leftUpperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::CLOSED && leftUpperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, b._lower));
-				else
-					ret.AddInterval(OpenInterval(a._lower, b._lower));
-
-				// Right part: (b.upper, a.upper]
-				EndpointType rightLowerType = (b._upperType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (rightLowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(b._upper, a._upper));
-				else if (rightLowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(b._upper, a._upper));
-				else if (rightLowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(b._upper, a._upper));
-				else
-					ret.AddInterval(OpenInterval(b._upper, a._upper));
-			}
+			// A \ B = A ∩ (ℝ \ B); the complement has at most a left and a right part
+			for (const auto& part : Complement(b)._intervals)
+				for (const auto& piece : Intersection(a, *part)._intervals)
+					ret._intervals.push_back(piece);
 
 			return ret;
 		}
-- 
2.43.0


From f8d86bf6e4b9c4b4f84a239aa769d1b8f3a9d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 032/218] fix: Interval::contains and intersects ignored
 endpoint types

---
 mml/base/Intervals.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index b5d60de..087f4f1 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -748,9 +748,14 @@ namespace MML {
 
 		bool contains(const BaseInterval& other) const {
 			// Check if all points in 'other' are contained in at least one of our intervals
-			// For simplicity, we check if other's bounds are contained
+			// For simplicity, we check if other's bounds are contained (an open bound of other
+			// may coincide with any bound of the interval)
 			for (const auto& interval : _intervals) {
-				if (interval->contains(other.getLowerBound()) && interval->contains(other.getUpperBound()))
+				bool lowerInside = interval->contains(other._lower) ||
+								   (other._lowerType != EndpointType::CLOSED && other._lower == interval->_lower);
+				bool upperInside = interval->contains(other._upper) ||
+								   (other._upperType != EndpointType::CLOSED && other._upper == interval->_upper);
+				if (lowerInside && upperInside)
 					return true;
 			}
 			return false;
@@ -763,8 +768,8 @@ namespace MML {
 		bool intersects(const BaseInterval& other) const {
 			// Check if any of our intervals intersect with 'other'
 			for (const auto& interval : _intervals) {
-				// Two intervals intersect if one contains a point from the other
-				if (interval->getLowerBound() <= other.getUpperBound() && interval->getUpperBound() >= other.getLowerBound())
+				// Two intervals intersect if they have a point in common
+				if (!Intersection(*interval, other)._intervals.empty())
 					return true;
 			}
 			return false;
-- 
2.43.0


From 3692527ba2bf9e5963b64beba63eb1535adb1a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:05 +0000
Subject: [PATCH 033/218] fix: Polynom::operator* threw length_error for two
 empty polynomials

---
 mml/base/Polynom.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index f114c3c..fc1ea40 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -317,6 +317,10 @@ namespace MML
 		{
 			Polynom result;
 
+			// An empty polynomial is zero, and so is its product
+			if (_vecCoef.empty() || b._vecCoef.empty())
+				return result;
+
 			int n = (int)(_vecCoef.size() + b._vecCoef.size() - 1);
 			result._vecCoef.resize(n);
 			for (int i = 0; i < _vecCoef.size(); i++)
-- 
2.43.0


From 9aadc5155ce7a4702f1145a884d91e1c3acb4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 034/218] fix: Polynom::poldiv read past the dividend when it
 is shorter than the divisor

---
 mml/base/Polynom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index fc1ea40..9749423 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -424,7 +424,7 @@ namespace MML
 			// setting exact size for remainder
 			rout.SetDegree(nv - 1);
 			for (j = 0; j < nv; j++)
-				rout[j] = r[j];
+				rout[j] = r.coeff(j);		// u can have fewer coefficients than the remainder
 		}
 
 		///////////////////////////           Operations              ///////////////////////////
-- 
2.43.0


From 7a68cb9c0f59c44ad4e5a00056451f5e5e6a5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 035/218] fix: Polynom::Derive read outside an empty polynomial
 or result vector

---
 mml/base/Polynom.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index 9749423..5224288 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -438,7 +438,10 @@ namespace MML
 			int  nd = pd.size() - 1;
 			Real cnst = 1.0;
 
-			pd[0] = (*this)[nc];
+			if (nd < 0)
+				return;
+
+			pd[0] = leadingTerm();
 			for (j = 1; j < nd + 1; j++)
 				pd[j] = 0.0;
 
-- 
2.43.0


From 9b1589062ee58b66d5034983b46d9c4eeb15613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 036/218] fix: Polynom::Print left the precision of the stream
 changed

---
 mml/base/Polynom.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index 5224288..2db8405 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -514,6 +514,7 @@ namespace MML
 			using std::to_string;
 
 			std::ios_base::fmtflags f(stream.flags());
+			std::streamsize oldPrecision = stream.precision();
 			stream << std::fixed << std::setw(width) << std::setprecision(precision);
 
 			bool first = true;
@@ -568,6 +569,7 @@ namespace MML
 			if (first) stream << CoefT(0);
 
 			stream.flags(f);
+			stream.precision(oldPrecision);
 			return stream;
 		}
 
-- 
2.43.0


From c0ea8f4d432c5b36858c4e9fe637747ca6fa6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:04 +0000
Subject: [PATCH 037/218] fix: AngleTo2PiRange and AngleToPiPiRange did not
 terminate for large angles

---
 mml/base/BaseUtils/AngleCoordUtils.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mml/base/BaseUtils/AngleCoordUtils.h b/mml/base/BaseUtils/AngleCoordUtils.h
index 503f4ac..29f1f31 100644
--- a/mml/base/BaseUtils/AngleCoordUtils.h
+++ b/mml/base/BaseUtils/AngleCoordUtils.h
@@ -79,9 +79,10 @@ namespace MML
 		/// @return Normalized angle in [0, 2π)
 		static Real AngleTo2PiRange(Real rad)
 		{
-			while (rad < 0)
+			rad = std::fmod(rad, 2 * Constants::PI);
+			if (rad < 0)
 				rad += 2 * Constants::PI;
-			while (rad >= 2 * Constants::PI)
+			if (rad >= 2 * Constants::PI)			// a tiny negative angle rounds up to 2*PI
 				rad -= 2 * Constants::PI;
 			return rad;
 		}
@@ -91,9 +92,10 @@ namespace MML
 		/// @return Normalized angle in [-π, π)
 		static Real AngleToPiPiRange(Real rad)
 		{
-			while (rad < -Constants::PI)
+			rad = std::fmod(rad, 2 * Constants::PI);
+			if (rad < -Constants::PI)
 				rad += 2 * Constants::PI;
-			while (rad >= Constants::PI)
+			if (rad >= Constants::PI)
 				rad -= 2 * Constants::PI;
 			return rad;
 		}
-- 
2.43.0


From 934b5876461c10706b6eb76101eaf25582e909fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:57 +0000
Subject: [PATCH 038/218] fix: Point2Polar::Dist and Point3Cylindrical::Dist
 returned NaN for nearly equal points

---
 mml/base/Geometry/GeometryCore/GeometryPoints.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Geometry/GeometryCore/GeometryPoints.h b/mml/base/Geometry/GeometryCore/GeometryPoints.h
index b94c6b0..8597468 100644
--- a/mml/base/Geometry/GeometryCore/GeometryPoints.h
+++ b/mml/base/Geometry/GeometryCore/GeometryPoints.h
@@ -155,7 +155,7 @@ namespace MML {
 		/// @brief Computes distance to another polar point using law of cosines
 		/// @param b The other point
 		/// @return Euclidean distance between the two points
-		Real Dist(const Point2Polar& b) const { return sqrt(R() * R() + b.R() * b.R() - 2 * R() * b.R() * cos(b.Phi() - Phi())); }
+		Real Dist(const Point2Polar& b) const { return sqrt(std::max(Real(0), R() * R() + b.R() * b.R() - 2 * R() * b.R() * cos(b.Phi() - Phi()))); }
 	};
 
 	/// @brief 3D point in Cartesian coordinates (x, y, z)
@@ -387,7 +387,7 @@ namespace MML {
 		/// @param b The other point
 		/// @return Euclidean distance between the two points
 		Real Dist(const Point3Cylindrical& b) const {
-			return sqrt(R() * R() + b.R() * b.R() - 2 * R() * b.R() * cos(b.Phi() - Phi()) + POW2(b.Z() - Z()));
+			return sqrt(std::max(Real(0), R() * R() + b.R() * b.R() - 2 * R() * b.R() * cos(b.Phi() - Phi())) + POW2(b.Z() - Z()));
 		}
 	};
 
-- 
2.43.0


From 51e258b001adf832419e5843c2f6c84a99c838ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:21 +0000
Subject: [PATCH 039/218] fix: Point3Spherical::Dist returned NaN for nearly
 equal points

---
 mml/base/Geometry/GeometryCore/GeometryPoints.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/GeometryCore/GeometryPoints.h b/mml/base/Geometry/GeometryCore/GeometryPoints.h
index 8597468..5fc649d 100644
--- a/mml/base/Geometry/GeometryCore/GeometryPoints.h
+++ b/mml/base/Geometry/GeometryCore/GeometryPoints.h
@@ -320,7 +320,7 @@ namespace MML {
 		Real Dist(const Point3Spherical& b) const {
 			Real cosGamma = cos(Theta()) * cos(b.Theta()) + sin(Theta()) * sin(b.Theta()) * cos(b.Phi() - Phi());
 			cosGamma = std::clamp(cosGamma, (Real)-1.0, (Real)1.0);
-			return sqrt(R() * R() + b.R() * b.R() - 2 * R() * b.R() * cosGamma);
+			return sqrt(std::max(Real(0), R() * R() + b.R() * b.R() - 2 * R() * b.R() * cosGamma));
 		}
 	};
 
-- 
2.43.0


From a11f92e63100721785d5bbdebd7c9ab9f8e71d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 040/218] fix: interpolation of a descending table had MinX
 above MaxX, no linear values and no spline integral

---
 .../InterpolatedFunctions/InterpolatedRealFunction.h   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index e226fe8..07f72c5 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -92,11 +92,11 @@ namespace MML {
 
 		/// /** @brief Get the minimum x-value in the data. */
 
-		inline Real MinX() const { return X(0); }
+		inline Real MinX() const { return std::min(X(0), X(_numPoints - 1)); }
 
 		/// /** @brief Get the maximum x-value in the data. */
 
-		inline Real MaxX() const { return X(_numPoints - 1); }
+		inline Real MaxX() const { return std::max(X(0), X(_numPoints - 1)); }
 
 		/// @}
 
@@ -488,6 +488,10 @@ namespace MML {
 				throw DomainError("Spline integration: bounds exceed data domain");
 
 			Real integral = 0.0;
+			// walk the segments in the order of the data, which may be descending
+			bool descending = X(0) > X(getNumPoints() - 1);
+			if (descending)
+				std::swap(a, b);
 			int iLow = locate(a);
 			int iHigh = locate(b);
 
@@ -536,7 +540,7 @@ namespace MML {
 				integral += integrateSegment(iHigh, X(iHigh), b);
 			}
 
-			return integral;
+			return descending ? -integral : integral;
 		}
 
 		/// @}
-- 
2.43.0


From 5e75068f0768eff56f43fd5180a51dbba48a82b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 041/218] fix: interpolation tables of mismatched or too small
 size were read out of bounds

---
 mml/base/InterpolatedFunctions/InterpolatedRealFunction.h | 4 ++++
 mml/base/InterpolatedFunctions/Interpolation2DFunction.h  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index 07f72c5..93d7c14 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -69,6 +69,8 @@ namespace MML {
 			// throw if not enough points
 			if (_numPoints < 2 || _usedPoints < 2 || _usedPoints > _numPoints)
 				throw RealFuncInterpInitError("RealFunctionInterpolated size error");
+			if (_y.size() != _numPoints)
+				throw RealFuncInterpInitError("RealFunctionInterpolated: x and y must have the same size");
 			// Check for duplicate x-values (causes division by zero in interpolation)
 			for (int i = 0; i < _numPoints; i++)
 				for (int j = i + 1; j < _numPoints; j++)
@@ -725,6 +727,8 @@ namespace MML {
 			, _x(xv)
 			, _y(yv)
 			, _w(_n) {
+			if (_y.size() != _n)
+				throw RealFuncInterpInitError("BarycentricRationalInterp: x and y must have the same size");
 			if (_n <= _d)
 				throw RealFuncInterpInitError("BarycentricRationalInterp: d too large for number of points");
 			if (_d < 0)
diff --git a/mml/base/InterpolatedFunctions/Interpolation2DFunction.h b/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
index e56e6bc..a75441a 100644
--- a/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
+++ b/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
@@ -92,6 +92,8 @@ namespace MML {
 			, _z(zm) {
 			if (zm.rows() != _m || zm.cols() != _n)
 				throw RealFuncInterpInitError("BilinearInterp2D: matrix dimensions don't match grid");
+			if (_m < 2 || _n < 2)
+				throw RealFuncInterpInitError("BilinearInterp2D: at least two grid points per direction required");
 		}
 
 		/// @brief Evaluate the bilinear interpolation at (x1, x2).
-- 
2.43.0


From 4dc3852010acc71069931c9e929fefa860c0a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 042/218] fix: closed SplineInterpParametricCurve was wrong for
 any parameter range other than [0, 1]

---
 mml/base/InterpolatedFunctions/InterpolationParametricCurve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index 8d7aeef..f14fb3b 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -256,11 +256,11 @@ namespace MML {
 
 			VectorN<Real, N> ans;
 
+			// we have to map t from [minT, maxT] to [0, 1]
+			t = (t - _minT) / (_maxT - _minT);
 			if (_isCurveClosed)
 				t = t - floor(t);
 
-			// we have to map t from [minT, maxT] to [0, 1]
-			t = (t - _minT) / (_maxT - _minT);
 			for (int j = 0; j < _dim; j++)
 				ans[j] = (*srp[j])(t);
 
-- 
2.43.0


From e7f323cdf8dc2eaf7f207bbc8c0de6771bd90132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 043/218] fix: closed LinInterpParametricCurve had no segment
 from the last point back to the first

---
 .../InterpolationParametricCurve.h                     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index f14fb3b..68ec82b 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -72,8 +72,16 @@ namespace MML {
 		LinInterpParametricCurve(const Matrix<Real>& ptsin, bool close = false)
 			: _numPoints(ptsin.rows())
 			, _curvePoints(ptsin)
-			, _arcLen(_numPoints)
 			, _isCurveClosed(close) {
+			// A closed curve continues from the last point back to the first
+			if (close && _numPoints > 0) {
+				_curvePoints = Matrix<Real>(_numPoints + 1, ptsin.cols());
+				for (int i = 0; i <= _numPoints; ++i)
+					for (int j = 0; j < ptsin.cols(); ++j)
+						_curvePoints[i][j] = ptsin[i % _numPoints][j];
+				_numPoints++;
+			}
+			_arcLen.Resize(_numPoints);
 			// Compute normalized arc length parameterization
 			_arcLen[0] = 0.0;
 			Real totalLen = 0.0;
-- 
2.43.0


From 54c7286428ee7f5957038a630eedb24b03e8a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 044/218] fix: rank 3-5 tensors accepted negative index counts
 and wrote past their variance flags

---
 mml/base/Tensor.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/base/Tensor.h b/mml/base/Tensor.h
index 9f80f4c..fac86fb 100644
--- a/mml/base/Tensor.h
+++ b/mml/base/Tensor.h
@@ -386,7 +386,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 3
 		Tensor3(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar)
 		{
-			if (_numContravar + _numCovar != 3)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 3)
 				throw TensorCovarContravarNumError("Tensor3 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -403,7 +403,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 3
 		Tensor3(int nCovar, int nContraVar, std::initializer_list<Real> values) : _numContravar(nContraVar), _numCovar(nCovar)
 		{
-			if (_numContravar + _numCovar != 3)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 3)
 				throw TensorCovarContravarNumError("Tensor3 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 			
 			for (int i = 0; i < _numCovar; i++)
@@ -584,7 +584,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 4
 		Tensor4(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar) 
 		{
-			if (_numContravar + _numCovar != 4)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 4)
 				throw TensorCovarContravarNumError("Tensor4 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -775,7 +775,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 5
 		Tensor5(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar) 
 		{
-			if (_numContravar + _numCovar != 5)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 5)
 				throw TensorCovarContravarNumError("Tensor5 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
-- 
2.43.0


From 9d0267dbb1b211d4c023173bdb8e83fa30219586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 045/218] fix: tensor setContravar left NumContravar and
 NumCovar at their old values

---
 mml/base/Tensor.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/mml/base/Tensor.h b/mml/base/Tensor.h
index fac86fb..38b5840 100644
--- a/mml/base/Tensor.h
+++ b/mml/base/Tensor.h
@@ -170,7 +170,13 @@ namespace MML
 		bool IsCovar(int i) const			{ return !_isContravar[i]; }
 
 		/// @brief Sets the variance of index i.
-		void setContravar(int i, bool val) { _isContravar[i] = val; }
+		void setContravar(int i, bool val) {
+			if (_isContravar[i] != val) {
+				_numContravar += val ? 1 : -1;
+				_numCovar -= val ? 1 : -1;
+			}
+			_isContravar[i] = val;
+		}
 
 		///////////////////////////////////////////////////////////////////////
 		///                        Element Access                           ///
@@ -442,7 +448,13 @@ namespace MML
 		bool IsCovar(int i) const { return !_isContravar[i]; }
 
 		/// @brief Sets the variance of index i.
-		void setContravar(int i, bool val) { _isContravar[i] = val; }
+		void setContravar(int i, bool val) {
+			if (_isContravar[i] != val) {
+				_numContravar += val ? 1 : -1;
+				_numCovar -= val ? 1 : -1;
+			}
+			_isContravar[i] = val;
+		}
 
 		///////////////////////////////////////////////////////////////////////
 		///                        Element Access                           ///
@@ -611,7 +623,13 @@ namespace MML
 		bool IsCovar(int i) const { return !_isContravar[i]; }
 
 		/// @brief Sets the variance of index i.
-		void setContravar(int i, bool val) { _isContravar[i] = val; }
+		void setContravar(int i, bool val) {
+			if (_isContravar[i] != val) {
+				_numContravar += val ? 1 : -1;
+				_numCovar -= val ? 1 : -1;
+			}
+			_isContravar[i] = val;
+		}
 
 		///////////////////////////////////////////////////////////////////////
 		///                        Element Access                           ///
@@ -803,7 +821,13 @@ namespace MML
 		bool IsCovar(int i) const { return !_isContravar[i]; }
 
 		/// @brief Sets the variance of index i.
-		void setContravar(int i, bool val) { _isContravar[i] = val; }
+		void setContravar(int i, bool val) {
+			if (_isContravar[i] != val) {
+				_numContravar += val ? 1 : -1;
+				_numCovar -= val ? 1 : -1;
+			}
+			_isContravar[i] = val;
+		}
 
 		///////////////////////////////////////////////////////////////////////
 		///                        Element Access                           ///
-- 
2.43.0


From d49979b977049026a9e1cbac597f1e8fbf1ba567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:21 +0000
Subject: [PATCH 046/218] fix: Tensor2 arithmetic lost which index is
 contravariant

---
 mml/base/Tensor.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mml/base/Tensor.h b/mml/base/Tensor.h
index 38b5840..67ed86d 100644
--- a/mml/base/Tensor.h
+++ b/mml/base/Tensor.h
@@ -235,7 +235,7 @@ namespace MML
 			if (_numContravar != other._numContravar || _numCovar != other._numCovar)
 				throw TensorCovarContravarArithmeticError("Tensor2 operator+, wrong number of contravariant and covariant indices", _numContravar, _numCovar, other._numContravar, other._numCovar);
 
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff + other._coeff;
 
@@ -249,7 +249,7 @@ namespace MML
 			if (_numContravar != other._numContravar || _numCovar != other._numCovar)
 				throw TensorCovarContravarArithmeticError("Tensor2 operator-, wrong number of contravariant and covariant indices", _numContravar, _numCovar, other._numContravar, other._numCovar);
 
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff - other._coeff;
 
@@ -259,7 +259,7 @@ namespace MML
 		/// @brief Multiply tensor by a scalar.
 		Tensor2 operator*(Real scalar) const
 		{
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff * scalar;
 
@@ -269,7 +269,7 @@ namespace MML
 		/// @brief Divide tensor by a scalar.
 		Tensor2 operator/(Real scalar) const
 		{
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff / scalar;
 
@@ -279,7 +279,7 @@ namespace MML
 		/// @brief Scalar multiplication from the left (scalar * tensor).
 		friend Tensor2 operator*(Real scalar, const Tensor2& b)
 		{
-			Tensor2 result(b.NumCovar(), b.NumContravar());
+			Tensor2 result(b);
 
 			result._coeff = b._coeff * scalar;
 
-- 
2.43.0


From 7118dd5600f93aa2757c6f72d833453b751f2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:24 +0000
Subject: [PATCH 047/218] fix: FindRootBrackets left its arrays longer than the
 number of brackets

---
 mml/algorithms/RootFinding/RootFindingBracketing.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/algorithms/RootFinding/RootFindingBracketing.h b/mml/algorithms/RootFinding/RootFindingBracketing.h
index 1998ab0..060dae6 100644
--- a/mml/algorithms/RootFinding/RootFindingBracketing.h
+++ b/mml/algorithms/RootFinding/RootFindingBracketing.h
@@ -166,6 +166,9 @@ namespace MML {
 				}
 				fp = fc;
 			}
+			xb1.Resize(numRoots, true);
+			xb2.Resize(numRoots, true);
+
 			return numRoots;
 		}
 
-- 
2.43.0


From e75924bec201191b9b5394ee5204768fcee3b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:24 +0000
Subject: [PATCH 048/218] fix: root finders reported status Success when they
 had not converged

---
 .../RootFinding/RootFindingBracketing.h       |  8 ++++++++
 .../RootFinding/RootFindingMethods.h          | 20 +++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/mml/algorithms/RootFinding/RootFindingBracketing.h b/mml/algorithms/RootFinding/RootFindingBracketing.h
index 060dae6..ba71a92 100644
--- a/mml/algorithms/RootFinding/RootFindingBracketing.h
+++ b/mml/algorithms/RootFinding/RootFindingBracketing.h
@@ -271,11 +271,13 @@ namespace MML {
 			// Check for non-finite initial values using shared validation helper
 			if (!IsFunctionValueValid(f) || !IsFunctionValueValid(fmid)) {
 				result.error_message = "Non-finite function values in FindRootBisection";
+				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
 
 			if (f * fmid >= 0.0) {
 				result.error_message = "Root must be bracketed for bisection in FindRootBisection";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -301,6 +303,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
 					result.error_message = "Non-finite function value in FindRootBisection iteration";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -327,6 +330,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
 			result.error_message = "Too many bisections in FindRootBisection";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
@@ -408,10 +412,12 @@ namespace MML {
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
 				result.error_message = "Non-finite function values in FindRootFalsePosition";
+				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
 			if (f1 * f2 >= 0.0) {
 				result.error_message = "Root must be bracketed for false position";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -433,6 +439,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootFalsePosition";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -464,6 +471,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
 			result.error_message = "Maximum number of iterations exceeded in FindRootFalsePosition";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index 65d2555..38feb20 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -147,6 +147,7 @@ namespace MML {
 			Real f2 = func(x2);
 			if (f1 * f2 > 0.0) {
 				result.error_message = "Root must be bracketed for Newton-Raphson method";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -164,6 +165,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite derivative in FindRootNewton";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 				Real dfThreshold = std::sqrt(Real(Constants::Eps));
@@ -172,6 +174,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Zero or near-zero derivative in FindRootNewton";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -183,6 +186,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite step in FindRootNewton";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -199,6 +203,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
 					result.error_message = "Jumped out of brackets in FindRootNewton";
+					result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 					return result;
 				}
 
@@ -217,6 +222,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
 			result.error_message = "Maximum number of iterations exceeded in FindRootNewton";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
@@ -302,11 +308,13 @@ namespace MML {
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
 				result.error_message = "Non-finite function values in FindRootSecant";
+				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
 
 			if (f1 * f2 > 0.0) {
 				result.error_message = "Root must be bracketed for Secant method";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -326,6 +334,7 @@ namespace MML {
 					result.function_value = f2;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite step in FindRootSecant";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -339,6 +348,7 @@ namespace MML {
 					result.function_value = f2;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootSecant";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -362,6 +372,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
 			result.error_message = "Maximum number of iterations exceeded in FindRootSecant";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
@@ -455,10 +466,12 @@ namespace MML {
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
 				result.error_message = "Non-finite function values in FindRootRidders";
+				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
 			if (f1 * f2 >= 0.0) {
 				result.error_message = "Root must be bracketed for Ridders method";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -474,6 +487,7 @@ namespace MML {
 					result.function_value = fm;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootRidders";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -506,6 +520,7 @@ namespace MML {
 					result.function_value = fnew;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootRidders";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 
@@ -552,6 +567,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
 			result.error_message = "Maximum number of iterations exceeded in FindRootRidders";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
@@ -661,10 +677,12 @@ namespace MML {
 
 			if (!IsFunctionValueValid(fa) || !IsFunctionValueValid(fb)) {
 				result.error_message = "Non-finite function values in FindRootBrent";
+				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
 			if (fa * fb >= 0.0) {
 				result.error_message = "Root must be bracketed for Brent method";
+				result.status = AlgorithmStatus::InvalidInput;
 				return result;
 			}
 
@@ -746,6 +764,7 @@ namespace MML {
 					result.function_value = fb;
 					result.iterations_used = iter + 1;
 					result.error_message = "Non-finite function value in FindRootBrent";
+					result.status = AlgorithmStatus::NumericalInstability;
 					return result;
 				}
 			}
@@ -755,6 +774,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(xm);
 			result.error_message = "Maximum number of iterations exceeded in FindRootBrent";
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			return result;
 		}
 
-- 
2.43.0


From e552d9f17f2b756999cbfa21d543f367038bf1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:24 +0000
Subject: [PATCH 049/218] fix: root bracketing checks rejected functions whose
 value product underflows

---
 mml/algorithms/RootFinding/RootFindingBase.h       | 11 +++++++++++
 mml/algorithms/RootFinding/RootFindingBracketing.h |  8 ++++----
 mml/algorithms/RootFinding/RootFindingMethods.h    |  8 ++++----
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingBase.h b/mml/algorithms/RootFinding/RootFindingBase.h
index ec9b31b..b976d09 100644
--- a/mml/algorithms/RootFinding/RootFindingBase.h
+++ b/mml/algorithms/RootFinding/RootFindingBase.h
@@ -91,6 +91,17 @@ namespace MML {
 			double elapsed_time_ms = 0.0;
 		};
 
+		/// True if both values are non-zero and of opposite sign.
+		/// (Unlike the sign of a*b, not affected by underflow of the product.)
+		inline bool HaveOppositeSigns(Real a, Real b) {
+			return (a < 0.0 && b > 0.0) || (a > 0.0 && b < 0.0);
+		}
+
+		/// True if both values are non-zero and of the same sign.
+		inline bool HaveSameSign(Real a, Real b) {
+			return (a < 0.0 && b < 0.0) || (a > 0.0 && b > 0.0);
+		}
+
 	} // namespace RootFinding
 } // namespace MML
 
diff --git a/mml/algorithms/RootFinding/RootFindingBracketing.h b/mml/algorithms/RootFinding/RootFindingBracketing.h
index ba71a92..9661753 100644
--- a/mml/algorithms/RootFinding/RootFindingBracketing.h
+++ b/mml/algorithms/RootFinding/RootFindingBracketing.h
@@ -82,7 +82,7 @@ namespace MML {
 			Real f2 = func(x2);
 
 			for (int j = 0; j < MaxTry; j++) {
-				if (f1 * f2 < 0.0)
+				if (HaveOppositeSigns(f1, f2))
 					return true;
 
 				if (std::abs(f1) < std::abs(f2))
@@ -155,7 +155,7 @@ namespace MML {
 				x += dx;
 				Real fc = func(x);
 
-				if (fc * fp <= 0.0) {
+				if (HaveOppositeSigns(fc, fp) || fc == 0.0 || fp == 0.0) {
 					xb1[numRoots] = x - dx;
 					xb2[numRoots++] = x;
 					if (numRoots == numBrackets) {
@@ -275,7 +275,7 @@ namespace MML {
 				return result;
 			}
 
-			if (f * fmid >= 0.0) {
+			if (!HaveOppositeSigns(f, fmid)) {
 				result.error_message = "Root must be bracketed for bisection in FindRootBisection";
 				result.status = AlgorithmStatus::InvalidInput;
 				return result;
@@ -415,7 +415,7 @@ namespace MML {
 				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
-			if (f1 * f2 >= 0.0) {
+			if (!HaveOppositeSigns(f1, f2)) {
 				result.error_message = "Root must be bracketed for false position";
 				result.status = AlgorithmStatus::InvalidInput;
 				return result;
diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index 38feb20..8287286 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -145,7 +145,7 @@ namespace MML {
 
 			Real f1 = func(x1);
 			Real f2 = func(x2);
-			if (f1 * f2 > 0.0) {
+			if (HaveSameSign(f1, f2)) {
 				result.error_message = "Root must be bracketed for Newton-Raphson method";
 				result.status = AlgorithmStatus::InvalidInput;
 				return result;
@@ -312,7 +312,7 @@ namespace MML {
 				return result;
 			}
 
-			if (f1 * f2 > 0.0) {
+			if (HaveSameSign(f1, f2)) {
 				result.error_message = "Root must be bracketed for Secant method";
 				result.status = AlgorithmStatus::InvalidInput;
 				return result;
@@ -469,7 +469,7 @@ namespace MML {
 				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
-			if (f1 * f2 >= 0.0) {
+			if (!HaveOppositeSigns(f1, f2)) {
 				result.error_message = "Root must be bracketed for Ridders method";
 				result.status = AlgorithmStatus::InvalidInput;
 				return result;
@@ -680,7 +680,7 @@ namespace MML {
 				result.status = AlgorithmStatus::NumericalInstability;
 				return result;
 			}
-			if (fa * fb >= 0.0) {
+			if (!HaveOppositeSigns(fa, fb)) {
 				result.error_message = "Root must be bracketed for Brent method";
 				result.status = AlgorithmStatus::InvalidInput;
 				return result;
-- 
2.43.0


From c68bdf437d06aea965b1978aa098d557143374b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:31 +0000
Subject: [PATCH 050/218] fix: FindRootRidders returned -1e99 as converged when
 the squared function values underflowed

---
 mml/algorithms/RootFinding/RootFindingMethods.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index 8287286..d9fdf67 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -491,8 +491,11 @@ namespace MML {
 					return result;
 				}
 
-				Real s = std::sqrt(fm * fm - f1 * f2);
+				// Scaled by the larger end value, so that the squares cannot under- or overflow
+				Real scale = std::max(std::abs(f1), std::abs(f2));
+				Real s = scale * std::sqrt((fm / scale) * (fm / scale) - (f1 / scale) * (f2 / scale));
 				if (s == 0.0) {
+					ans = xm;
 					result.root = ans;
 					result.function_value = func(ans);
 					result.iterations_used = j + 1;
-- 
2.43.0


From 2f1f1d18c7d7c37ca0e3a3d8b78e19d02bc3e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:56 +0000
Subject: [PATCH 051/218] fix: FindRootNewton let the derivative's exception
 escape instead of reporting a non-finite derivative

---
 mml/algorithms/RootFinding/RootFindingMethods.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index d9fdf67..a507c11 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -157,7 +157,13 @@ namespace MML {
 
 			for (int j = 0; j < maxIter; j++) {
 				Real f = func(rtn);
-				Real df = Derivation::NDer4(func, rtn);
+				Real df;
+				try {
+					df = Derivation::NDer4(func, rtn);
+				}
+				catch (const NumericalMethodError&) {	// NDer4 refuses to return a non-finite value
+					df = std::numeric_limits<Real>::quiet_NaN();
+				}
 
 				// Check for non-finite derivative (NaN/Inf) or near-zero derivative
 				if (!IsFunctionValueValid(df)) {
-- 
2.43.0


From 403c2764ddbf682ea1367180cfae4b6fc9346653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:42 +0000
Subject: [PATCH 052/218] fix: SolveQuadratic returned NaN as the second root
 of a*x^2 = 0

---
 mml/algorithms/RootFinding/RootFindingPolynoms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/RootFinding/RootFindingPolynoms.h b/mml/algorithms/RootFinding/RootFindingPolynoms.h
index 2a6b7e7..3030fad 100644
--- a/mml/algorithms/RootFinding/RootFindingPolynoms.h
+++ b/mml/algorithms/RootFinding/RootFindingPolynoms.h
@@ -54,7 +54,7 @@ namespace MML {
       Real sqrtD = std::sqrt(D);
       Real q = Real(-0.5) * (b + std::copysign(sqrtD, b));
       x1 = q / a;
-      x2 = c / q;
+      x2 = (q == 0) ? Complex(0) : Complex(c / q); // q == 0 only for a*x^2 = 0
       return 2;
     } else {
       Complex sqrtD = std::sqrt(Complex(D));
-- 
2.43.0


From a6b335d1c75b5b39a8319bdd818949450103546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:55 +0000
Subject: [PATCH 053/218] fix: EigenSolver lost or corrupted eigenvalues of
 matrices that split into blocks of three or more

Deflation in the middle of the matrix dropped everything below the split
from the iteration, the single shift ignored the active block, and the
exceptional shift was never reached with double steps. Iterate on the
unreduced block at the bottom until nothing is left, and report
convergence accordingly.
---
 mml/algorithms/EigenSolverHelpers.h |  66 ++++++++++++---
 mml/algorithms/EigenSystemSolvers.h | 122 +++++++++++-----------------
 2 files changed, 101 insertions(+), 87 deletions(-)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index d921ef6..9d5cbf2 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -244,14 +244,18 @@ namespace MML {
 		/// @param H Upper Hessenberg matrix (modified in place)
 		/// @param accumulateQ If true, returns Q; otherwise Q is identity
 		/// @param shift If provided, uses this shift; otherwise computes Wilkinson shift
+		/// @param iLo First index of the active diagonal block (H(iLo, iLo-1) must be zero)
+		/// @param iHi Last index of the active diagonal block, -1 for n-1 (H(iHi+1, iHi) must be zero)
 		/// @return QRStepResult with updated H and Q
-		static QRStepResult SingleQRStep(const Matrix<Real>& H, bool accumulateQ = true, Real* providedShift = nullptr) {
+		static QRStepResult SingleQRStep(const Matrix<Real>& H, bool accumulateQ = true, Real* providedShift = nullptr, int iLo = 0, int iHi = -1) {
 			int n = H.rows();
 			QRStepResult result(n);
 			result.H = H;
 			result.Q = Matrix<Real>::Identity(n);
 
-			if (n <= 1)
+			if (iHi < 0)
+				iHi = n - 1;
+			if (iHi <= iLo)
 				return result;
 
 			// Compute shift from bottom 2x2
@@ -259,17 +263,17 @@ namespace MML {
 			if (providedShift != nullptr) {
 				shift = *providedShift;
 			} else {
-				// Extract bottom 2x2: H[n-2:n-1, n-2:n-1]
-				Real a = result.H(n - 2, n - 2);
-				Real b = result.H(n - 2, n - 1);
-				Real c = result.H(n - 1, n - 2);
-				Real d = result.H(n - 1, n - 1);
+				// Extract bottom 2x2: H[iHi-1:iHi, iHi-1:iHi]
+				Real a = result.H(iHi - 1, iHi - 1);
+				Real b = result.H(iHi - 1, iHi);
+				Real c = result.H(iHi, iHi - 1);
+				Real d = result.H(iHi, iHi);
 				shift = WilkinsonShift(a, b, c, d);
 			}
 			result.shift = shift;
 
 			// Apply shift: H = H - σI
-			for (int i = 0; i < n; i++)
+			for (int i = iLo; i <= iHi; i++)
 				result.H(i, i) -= shift;
 
 			// Store Givens rotation parameters
@@ -278,7 +282,7 @@ namespace MML {
 
 			// Phase 1: QR factorization - apply Givens from LEFT only to get R
 			// For each subdiagonal element H(i+1, i), create rotation to zero it
-			for (int i = 0; i < n - 1; i++) {
+			for (int i = iLo; i < iHi; i++) {
 				Real a = result.H(i, i);
 				Real b = result.H(i + 1, i);
 
@@ -306,13 +310,14 @@ namespace MML {
 					result.H(i, j) = c * t1 + s * t2;
 					result.H(i + 1, j) = -s * t1 + c * t2;
 				}
+				result.H(i + 1, i) = 0.0;
 			}
 
 			// At this point, result.H contains R (upper triangular)
 
 			// Phase 2: Multiply R * Q by applying stored rotations from RIGHT
 			// This gives RQ which is similar to H - σI
-			for (int i = 0; i < n - 1; i++) {
+			for (int i = iLo; i < iHi; i++) {
 				Real c = cosines[i];
 				Real s = sines[i];
 
@@ -323,7 +328,7 @@ namespace MML {
 				// For Hessenberg preservation: rotation G_{i,i+1} mixes columns i and i+1
 				// The result is Hessenberg because each rotation only extends one row below diagonal
 				// We affect rows 0 to i+1 (plus one row due to the implicit bulge chase)
-				int rowMax = std::min(i + 2, n - 1);
+				int rowMax = std::min(i + 2, iHi);
 				for (int j = 0; j <= rowMax; j++) {
 					Real t1 = result.H(j, i);
 					Real t2 = result.H(j, i + 1);
@@ -343,7 +348,7 @@ namespace MML {
 			}
 
 			// Unshift: H = H + σI
-			for (int i = 0; i < n; i++)
+			for (int i = iLo; i <= iHi; i++)
 				result.H(i, i) += shift;
 
 			return result;
@@ -809,6 +814,43 @@ namespace MML {
 			}
 		}
 
+		/// Reduce a 2x2 diagonal block with real eigenvalues to upper triangular form.
+		/// Applies one rotation to rows and columns k, k+1 of H and to the columns of Q.
+		///
+		/// @param H Quasi-upper-triangular matrix (modified in place)
+		/// @param Q Accumulated orthogonal transformation (modified in place)
+		/// @param k Starting index of the 2x2 block
+		static void SplitRealBlock(Matrix<Real>& H, Matrix<Real>& Q, int k) {
+			int n = H.rows();
+			Real b = H(k, k + 1), c = H(k + 1, k);
+			Real p = (H(k, k) - H(k + 1, k + 1)) / 2.0;
+			Real root = std::sqrt(std::max(p * p + b * c, REAL(0.0)));
+
+			// First Schur vector: the eigenvector (lambda - d, c), with lambda chosen to avoid cancellation
+			Real v0 = (p >= 0.0) ? p + root : p - root;
+			Real r = std::hypot(v0, c);
+			if (r == 0.0)
+				return;
+			Real cs = v0 / r, sn = c / r;
+
+			for (int j = k; j < n; j++) {
+				Real t1 = H(k, j), t2 = H(k + 1, j);
+				H(k, j) = cs * t1 + sn * t2;
+				H(k + 1, j) = -sn * t1 + cs * t2;
+			}
+			for (int j = 0; j <= k + 1; j++) {
+				Real t1 = H(j, k), t2 = H(j, k + 1);
+				H(j, k) = cs * t1 + sn * t2;
+				H(j, k + 1) = -sn * t1 + cs * t2;
+			}
+			for (int j = 0; j < n; j++) {
+				Real t1 = Q(j, k), t2 = Q(j, k + 1);
+				Q(j, k) = cs * t1 + sn * t2;
+				Q(j, k + 1) = -sn * t1 + cs * t2;
+			}
+			H(k + 1, k) = 0.0;
+		}
+
 		// =========================================================================
 		// BUILDING BLOCK 5: EIGENVECTOR COMPUTATION FROM SCHUR FORM
 		// =========================================================================
diff --git a/mml/algorithms/EigenSystemSolvers.h b/mml/algorithms/EigenSystemSolvers.h
index 5ca1cec..8d5a3a8 100644
--- a/mml/algorithms/EigenSystemSolvers.h
+++ b/mml/algorithms/EigenSystemSolvers.h
@@ -888,98 +888,70 @@ namespace MML {
 			Matrix<Real> Q = hess.Q; // Accumulated transformation
 
 			// Step 2: QR iteration with deflation
-			int iLo = 0;	 // Start of active region
-			int iHi = n - 1; // End of active region
+			int iHi = n - 1; // End of the part that is not yet in Schur form
 			int totalIter = 0;
+			int stalledIter = 0; // Steps since the last deflation at the bottom
+
+			auto accumulate = [&](const Matrix<Real>& stepQ) {
+				Matrix<Real> newQ(n, n);
+				for (int i = 0; i < n; i++)
+					for (int j = 0; j < n; j++) {
+						newQ(i, j) = 0.0;
+						for (int k = 0; k < n; k++)
+							newQ(i, j) += Q(i, k) * stepQ(k, j);
+					}
+				Q = newQ;
+			};
 
-			while (iHi > iLo && totalIter < maxIter) {
-				// Check for deflation at bottom of active region
-				auto defl = EigenSolverHelpers::CheckDeflation(H, iLo, iHi, tol);
-
+			while (iHi > 0 && totalIter < maxIter) {
+				// Find the unreduced block [iLo, iHi] at the bottom of the active region
+				int iLo = 0;
+				auto defl = EigenSolverHelpers::CheckDeflation(H, 0, iHi, tol);
 				if (defl.canDeflate) {
-					// Apply deflation
 					EigenSolverHelpers::ApplyDeflation(H, defl.deflationIndex);
+					iLo = defl.deflationIndex;
+				}
 
-					// Shrink active region
-					if (defl.deflationIndex == iHi) {
-						iHi--;
-					} else if (defl.deflationIndex == iHi - 1 && defl.blockSize == 2) {
-						iHi -= 2; // 2x2 block deflated
-					} else {
-						// Middle deflation - just continue
-						iHi = defl.deflationIndex - 1;
-					}
+				// 1x1 block: a real eigenvalue has converged
+				if (iLo == iHi) {
+					iHi--;
+					stalledIter = 0;
 					continue;
 				}
 
-				// Determine if we should use single or double shift
-				// Check if bottom 2x2 has complex eigenvalues
-				bool useDoubleShift = false;
-				if (iHi >= iLo + 1) {
-					Real a = H(iHi - 1, iHi - 1);
-					Real b = H(iHi - 1, iHi);
-					Real c = H(iHi, iHi - 1);
-					Real d = H(iHi, iHi);
-					auto eig = EigenSolverHelpers::Eigenvalues2x2(a, b, c, d);
-					useDoubleShift = eig.isComplex;
-
-					// Special case: if we have only a 2x2 block with complex eigenvalues,
-					// it's already in final form - we're done with this block
-					if (useDoubleShift && iHi == iLo + 1) {
-						// 2x2 block with complex eigenvalues is irreducible - accept it
-						break;
-					}
+				bool complexShifts = EigenSolverHelpers::Eigenvalues2x2(H(iHi - 1, iHi - 1), H(iHi - 1, iHi), H(iHi, iHi - 1), H(iHi, iHi)).isComplex;
+
+				// 2x2 block: a complex pair is already in its final form, a real pair is split by one rotation
+				if (iLo == iHi - 1) {
+					if (!complexShifts)
+						EigenSolverHelpers::SplitRealBlock(H, Q, iLo);
+					iHi -= 2;
+					stalledIter = 0;
+					continue;
 				}
 
-				if (useDoubleShift && iHi >= iLo + 2) {
+				if (stalledIter > 0 && stalledIter % 10 == 0) {
+					// Exceptional shift to break cycles (no progress in the last 10 steps)
+					Real exceptionalShift = std::abs(H(iHi, iHi - 1)) + std::abs(H(iHi - 1, iHi - 2));
+					auto step = EigenSolverHelpers::SingleQRStep(H, true, &exceptionalShift, iLo, iHi);
+					H = step.H;
+					accumulate(step.Q);
+					totalIter++;
+				} else if (complexShifts) {
 					// Apply Francis double-shift
 					auto step = EigenSolverHelpers::FrancisDoubleShift(H, iLo, iHi, true);
 					H = step.H;
-
-					// Update accumulated Q
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
+					accumulate(step.Q);
 					totalIter += 2; // Double shift counts as 2 iterations
 				} else {
-					// Apply single Wilkinson shift
-					auto step = EigenSolverHelpers::SingleQRStep(H, true);
+					// Apply single Wilkinson shift, taken from the bottom of the active block
+					Real shift = EigenSolverHelpers::WilkinsonShift(H(iHi - 1, iHi - 1), H(iHi - 1, iHi), H(iHi, iHi - 1), H(iHi, iHi));
+					auto step = EigenSolverHelpers::SingleQRStep(H, true, &shift, iLo, iHi);
 					H = step.H;
-
-					// Update accumulated Q
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
-					totalIter++;
-				}
-
-				// Apply exceptional shift if stuck (every 30 iterations without progress)
-				if (totalIter % 30 == 29 && iHi >= 2) {
-					// Exceptional shift to break cycles
-					Real exceptionalShift = std::abs(H(iHi, iHi - 1)) + std::abs(H(iHi - 1, iHi - 2));
-					auto step = EigenSolverHelpers::SingleQRStep(H, true, &exceptionalShift);
-					H = step.H;
-
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
+					accumulate(step.Q);
 					totalIter++;
 				}
+				stalledIter++;
 			}
 
 			// Step 3: Extract eigenvalues from quasi-triangular form
@@ -997,7 +969,7 @@ namespace MML {
 			// Step 5: Compute residuals and check convergence
 			result.iterations = totalIter;
 			result.maxResidual = 0.0;
-			result.converged = (totalIter < maxIter);
+			result.converged = (iHi <= 0);
 
 			// Verify eigenvector quality
 			for (size_t i = 0; i < result.eigenvalues.size(); i++) {
-- 
2.43.0


From d280a8c84602b186d39ea16f31072313dac97ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:55 +0000
Subject: [PATCH 054/218] fix: eigenvectors of non-symmetric matrices were
 wrong next to 2x2 blocks and for complex pairs

Back-substitution ignored 2x2 diagonal blocks above the eigenvalue, had
the sign of the imaginary part wrong, and the two columns of a complex
pair were normalised separately; real 2x2 blocks were marked as complex.
---
 mml/algorithms/EigenSolverHelpers.h | 249 +++++++++++++++-------------
 1 file changed, 136 insertions(+), 113 deletions(-)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index 9d5cbf2..302ec8a 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -25,6 +25,8 @@
 #include <cmath>
 #include <algorithm>
 #include <complex>
+#include <limits>
+#include <vector>
 
 namespace MML {
 	/// @class EigenSolverHelpers
@@ -868,6 +870,101 @@ namespace MML {
 			std::vector<bool> isComplexPair; // isComplexPair[i] = true if columns i,i+1 form complex pair
 		};
 
+		/// True if rows k, k+1 of a quasi-upper-triangular matrix form a 2x2 diagonal block
+		static bool Is2x2Block(const Matrix<Real>& T, int k, Real tol = 1e-10) {
+			if (k < 0 || k + 1 >= T.rows())
+				return false;
+			Real subdiag = std::abs(T(k + 1, k));
+			Real diagSum = std::abs(T(k, k)) + std::abs(T(k + 1, k + 1));
+			return subdiag >= tol * std::max(diagSum, REAL(1.0)) && subdiag >= PrecisionValues<Real>::DivisionSafetyThreshold;
+		}
+
+		/// Back-substitution for an eigenvector of a quasi-upper-triangular matrix.
+		///
+		/// Given lambda and the components x[k..last], solves rows k-1..0 of (T - lambda*I)x = 0
+		/// for x[k-1..0], taking 2x2 diagonal blocks of T two rows at a time.
+		static void BackSubstituteEigenvector(const Matrix<Real>& T, std::complex<Real> lambda, int k, int last,
+											  std::vector<std::complex<Real>>& x, Real tol = 1e-10) {
+			typedef std::complex<Real> Cplx;
+
+			// A vanishing pivot (repeated eigenvalue) is replaced by a perturbation of rounding size
+			Real scale = 0.0;
+			for (int i = 0; i < T.rows(); i++)
+				for (int j = 0; j < T.cols(); j++)
+					scale = std::max(scale, std::abs(T(i, j)));
+			Real small = std::max(std::numeric_limits<Real>::epsilon() * scale, std::numeric_limits<Real>::min());
+
+			auto rowSum = [&](int row, int from) {
+				Cplx sum(0.0, 0.0);
+				for (int j = from; j <= last; j++)
+					sum += T(row, j) * x[j];
+				return sum;
+			};
+
+			for (int i = k - 1; i >= 0; i--) {
+				if (!Is2x2Block(T, i - 1, tol)) {
+					Cplx pivot = T(i, i) - lambda;
+					if (std::abs(pivot) < small)
+						pivot = small;
+					x[i] = -rowSum(i, i + 1) / pivot;
+				} else {
+					// Gaussian elimination with complete pivoting on the 2x2 system
+					Cplx m[2][2] = {{T(i - 1, i - 1) - lambda, T(i - 1, i)}, {T(i, i - 1), T(i, i) - lambda}};
+					Cplx rhs[2] = {-rowSum(i - 1, i + 1), -rowSum(i, i + 1)};
+					int pr = 0, pc = 0;
+					for (int r = 0; r < 2; r++)
+						for (int c = 0; c < 2; c++)
+							if (std::abs(m[r][c]) > std::abs(m[pr][pc])) {
+								pr = r;
+								pc = c;
+							}
+					Cplx factor = m[1 - pr][pc] / m[pr][pc];
+					Cplx pivot = m[1 - pr][1 - pc] - factor * m[pr][1 - pc];
+					if (std::abs(pivot) < small)
+						pivot = small;
+					x[i - pc] = (rhs[1 - pr] - factor * rhs[pr]) / pivot;
+					x[i - 1 + pc] = (rhs[pr] - m[pr][1 - pc] * x[i - pc]) / m[pr][pc];
+					i--;
+				}
+			}
+		}
+
+		/// Scale x to unit Euclidean norm
+		static void NormalizeEigenvector(std::vector<std::complex<Real>>& x) {
+			// Divide by the largest component first: back-substitution may produce very large ones
+			Real largest = 0.0, norm = 0.0;
+			for (const auto& v : x)
+				largest = std::max(largest, std::abs(v));
+			if (!(largest > 0.0))
+				return;
+			for (auto& v : x) {
+				v /= largest;
+				norm += std::norm(v);
+			}
+			for (auto& v : x)
+				v /= std::sqrt(norm);
+		}
+
+		/// Eigenvector of T for an eigenvalue lambda of the 2x2 diagonal block at rows k, k+1
+		static std::vector<std::complex<Real>> EigenvectorOf2x2Block(const Matrix<Real>& T, int k, std::complex<Real> lambda, Real tol = 1e-10) {
+			std::vector<std::complex<Real>> x(T.rows());
+			Real b = T(k, k + 1), c = T(k + 1, k);
+
+			// (b, lambda - a) and (lambda - d, c) are both eigenvectors of the block: take the larger one
+			std::complex<Real> la = lambda - T(k, k), ld = lambda - T(k + 1, k + 1);
+			if (std::abs(b) + std::abs(la) >= std::abs(ld) + std::abs(c)) {
+				x[k] = b;
+				x[k + 1] = la;
+			} else {
+				x[k] = ld;
+				x[k + 1] = c;
+			}
+
+			BackSubstituteEigenvector(T, lambda, k, k + 1, x, tol);
+			NormalizeEigenvector(x);
+			return x;
+		}
+
 		/// Compute eigenvector for a real eigenvalue using back-substitution.
 		///
 		/// Given upper triangular T with eigenvalue λ = T[k,k], solve (T - λI)x = 0
@@ -876,43 +973,18 @@ namespace MML {
 		/// @param T Upper triangular (or quasi-upper-triangular) matrix
 		/// @param k Index of the eigenvalue (diagonal element T[k,k])
 		/// @return Eigenvector (normalized)
-		static Vector<Real> ComputeRealEigenvector(const Matrix<Real>& T, int k) {
+		static Vector<Real> ComputeRealEigenvector(const Matrix<Real>& T, int k, Real tol = 1e-10) {
 			int n = T.rows();
-			Vector<Real> x(n, 0.0);
-
-			// Set x[k] = 1 as starting point
-			x[k] = 1.0;
-			Real lambda = T(k, k);
 
-			// Back-substitute: for i = k-1 down to 0
-			// (T[i,i] - λ) * x[i] + sum_{j=i+1}^{k} T[i,j] * x[j] = 0
-			// x[i] = -sum_{j=i+1}^{k} T[i,j] * x[j] / (T[i,i] - λ)
+			// Set x[k] = 1 as starting point and solve rows k-1..0 for the rest
+			std::vector<std::complex<Real>> z(n);
+			z[k] = 1.0;
+			BackSubstituteEigenvector(T, T(k, k), k, k, z, tol);
+			NormalizeEigenvector(z);
 
-			for (int i = k - 1; i >= 0; i--) {
-				Real sum = 0.0;
-				for (int j = i + 1; j <= k; j++)
-					sum += T(i, j) * x[j];
-
-				Real denom = T(i, i) - lambda;
-				if (std::abs(denom) > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					x[i] = -sum / denom;
-				} else {
-					// Near-singular: use small perturbation to avoid division by zero
-					x[i] = -sum / PrecisionValues<Real>::DivisionSafetyThreshold;
-				}
-			}
-
-			// Normalize
-			Real norm = 0.0;
+			Vector<Real> x(n, 0.0);
 			for (int i = 0; i < n; i++)
-				norm += x[i] * x[i];
-			norm = std::sqrt(norm);
-
-			if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
-				for (int i = 0; i < n; i++)
-					x[i] /= norm;
-			}
-
+				x[i] = z[i].real();
 			return x;
 		}
 
@@ -924,7 +996,7 @@ namespace MML {
 		/// @param T Quasi-upper-triangular matrix
 		/// @param k Starting index of the 2x2 block
 		/// @return Pair of vectors: (real part, imaginary part)
-		static std::pair<Vector<Real>, Vector<Real>> ComputeComplexEigenvectors(const Matrix<Real>& T, int k) {
+		static std::pair<Vector<Real>, Vector<Real>> ComputeComplexEigenvectors(const Matrix<Real>& T, int k, Real tol = 1e-10) {
 			int n = T.rows();
 			Vector<Real> xr(n, 0.0); // Real part
 			Vector<Real> xi(n, 0.0); // Imaginary part
@@ -939,73 +1011,22 @@ namespace MML {
 			Real alpha = eig.real1; // Real part of eigenvalue
 			Real beta = eig.imag1;	// Imaginary part (positive)
 
-			if (std::abs(beta) < PrecisionValues<Real>::DivisionSafetyThreshold) {
-				// Not actually complex, treat as two real
-				xr = ComputeRealEigenvector(T, k);
-				xi = ComputeRealEigenvector(T, k + 1);
-				return {xr, xi};
-			}
-
-			// For the 2x2 block, the eigenvector of [[a,b],[c,d]] for α+iβ is:
-			// v = [b, α+iβ-a] or [α+iβ-d, c] (up to scaling)
-			// We use [b, (α-a)+iβ] which gives:
-			//   real: [b, α-a]
-			//   imag: [0, β]
-
-			// Initialize at the 2x2 block
-			xr[k] = b;
-			xr[k + 1] = alpha - a;
-			xi[k] = 0.0;
-			xi[k + 1] = beta;
-
-			// Back-substitute for rows k-1 down to 0
-			// We need to solve (T - (α+iβ)I) * (xr + i*xi) = 0
-			// This gives two coupled real equations:
-			// (T - αI) * xr + βI * xi = 0  =>  (T-αI)*xr = -β*xi
-			// (T - αI) * xi - βI * xr = 0  =>  (T-αI)*xi = β*xr
-			for (int i = k - 1; i >= 0; i--) {
-				// sum_r = sum of T[i,j]*xr[j] for j > i
-				// sum_i = sum of T[i,j]*xi[j] for j > i
-				Real sum_r = 0.0;
-				Real sum_i = 0.0;
-				for (int j = i + 1; j <= k + 1; j++) {
-					sum_r += T(i, j) * xr[j];
-					sum_i += T(i, j) * xi[j];
-				}
-
-				// (T[i,i] - α) * xr[i] + β * xi[i] = -sum_r
-				// (T[i,i] - α) * xi[i] - β * xr[i] = -sum_i
-				// Let p = T[i,i] - α
-				// p * xr[i] + β * xi[i] = -sum_r
-				// p * xi[i] - β * xr[i] = -sum_i
-				// Solve 2x2 system:
-				// |p   β | |xr[i]|   |-sum_r|
-				// |-β  p | |xi[i]| = |-sum_i|
-				// det = p² + β²
-
-				Real p = T(i, i) - alpha;
-				Real det = p * p + beta * beta;
-
-				if (det > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					xr[i] = (-sum_r * p - sum_i * beta) / det;
-					xi[i] = (-sum_i * p + sum_r * beta) / det;
-				} else {
-					xr[i] = 0.0;
-					xi[i] = 0.0;
+			if (!eig.isComplex) {
+				// Not actually complex: two real eigenvalues, each with its own eigenvector
+				auto z1 = EigenvectorOf2x2Block(T, k, eig.real1, tol);
+				auto z2 = EigenvectorOf2x2Block(T, k, eig.real2, tol);
+				for (int i = 0; i < n; i++) {
+					xr[i] = z1[i].real();
+					xi[i] = z2[i].real();
 				}
+				return {xr, xi};
 			}
 
-			// Normalize: ||xr||² + ||xi||² = 1 for each eigenvector
-			Real norm_sq = 0.0;
-			for (int i = 0; i < n; i++)
-				norm_sq += xr[i] * xr[i] + xi[i] * xi[i];
-
-			Real norm = std::sqrt(norm_sq);
-			if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
-				for (int i = 0; i < n; i++) {
-					xr[i] /= norm;
-					xi[i] /= norm;
-				}
+			// Normalized so that ||xr||² + ||xi||² = 1
+			auto z = EigenvectorOf2x2Block(T, k, std::complex<Real>(alpha, beta), tol);
+			for (int i = 0; i < n; i++) {
+				xr[i] = z[i].real();
+				xi[i] = z[i].imag();
 			}
 
 			return {xr, xi};
@@ -1028,30 +1049,25 @@ namespace MML {
 
 			int i = 0;
 			while (i < n) {
-				bool is2x2 = false;
-
-				if (i < n - 1) {
-					Real subdiag = std::abs(T(i + 1, i));
-					Real diagSum = std::abs(T(i, i)) + std::abs(T(i + 1, i + 1));
-					is2x2 = (subdiag >= tol * std::max(diagSum, REAL(1.0)) && subdiag >= PrecisionValues<Real>::DivisionSafetyThreshold);
-				}
+				bool is2x2 = Is2x2Block(T, i, tol);
 
 				if (!is2x2) {
 					// 1x1 block: real eigenvalue
-					Vector<Real> v = ComputeRealEigenvector(T, i);
+					Vector<Real> v = ComputeRealEigenvector(T, i, tol);
 					for (int j = 0; j < n; j++)
 						Y(j, i) = v[j];
 					result.isComplexPair[i] = false;
 					i++;
 				} else {
-					// 2x2 block: complex conjugate pair
-					auto [vr, vi] = ComputeComplexEigenvectors(T, i);
+					// 2x2 block: complex conjugate pair (or two real eigenvalues)
+					auto [vr, vi] = ComputeComplexEigenvectors(T, i, tol);
 					for (int j = 0; j < n; j++) {
 						Y(j, i) = vr[j];	 // Real part in column i
 						Y(j, i + 1) = vi[j]; // Imaginary part in column i+1
 					}
-					result.isComplexPair[i] = true;
-					result.isComplexPair[i + 1] = true;
+					bool isComplex = Eigenvalues2x2(T(i, i), T(i, i + 1), T(i + 1, i), T(i + 1, i + 1)).isComplex;
+					result.isComplexPair[i] = isComplex;
+					result.isComplexPair[i + 1] = isComplex;
 					i += 2;
 				}
 			}
@@ -1066,16 +1082,23 @@ namespace MML {
 					result.vectors(row, col) = sum;
 				}
 
-				// Re-normalize after transformation
+			}
+
+			// Re-normalize after transformation (the two columns of a complex pair share one factor)
+			for (int col = 0; col < n;) {
+				int width = (result.isComplexPair[col] && col + 1 < n) ? 2 : 1;
 				Real norm = 0.0;
 				for (int row = 0; row < n; row++)
-					norm += result.vectors(row, col) * result.vectors(row, col);
+					for (int w = 0; w < width; w++)
+						norm += result.vectors(row, col + w) * result.vectors(row, col + w);
 				norm = std::sqrt(norm);
 
 				if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
 					for (int row = 0; row < n; row++)
-						result.vectors(row, col) /= norm;
+						for (int w = 0; w < width; w++)
+							result.vectors(row, col + w) /= norm;
 				}
+				col += width;
 			}
 
 			return result;
-- 
2.43.0


From 1c88b96378939bc14296cadb4abd1072e44c1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:56 +0000
Subject: [PATCH 055/218] fix: EigenvalueRoots returned an infinite root for a
 linear polynomial without linear term

---
 mml/algorithms/RootFinding/RootFindingPolynoms.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingPolynoms.h b/mml/algorithms/RootFinding/RootFindingPolynoms.h
index 3030fad..24897ac 100644
--- a/mml/algorithms/RootFinding/RootFindingPolynoms.h
+++ b/mml/algorithms/RootFinding/RootFindingPolynoms.h
@@ -318,8 +318,12 @@ namespace MML {
 			if (degree <= 0)
 				return roots;
 
+			Real leadingCoef = poly[degree];
+			if (std::abs(leadingCoef) < PrecisionValues<Real>::PolynomialCoeffZeroThreshold)
+				throw RootFindingError("Polynomial leading coefficient is zero");
+
 			if (degree == 1) {
-				roots.push_back(std::complex<Real>(-poly[0] / poly[1], 0.0));
+				roots.push_back(std::complex<Real>(-poly[0] / leadingCoef, 0.0));
 				return roots;
 			}
 
@@ -334,10 +338,6 @@ namespace MML {
 				companion[i][i + 1] = 1.0;
 
 			// Last row: -a_0/a_n, -a_1/a_n, ..., -a_{n-1}/a_n
-			Real leadingCoef = poly[degree];
-			if (std::abs(leadingCoef) < PrecisionValues<Real>::PolynomialCoeffZeroThreshold)
-				throw RootFindingError("Polynomial leading coefficient is zero");
-
 			for (int i = 0; i < degree; i++)
 				companion[degree - 1][i] = -poly[i] / leadingCoef;
 
-- 
2.43.0


From 481bc3a33dc6f2fda9cc6f182c0bca701a8f91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:12 +0000
Subject: [PATCH 056/218] fix: Windows::Kaiser was inaccurate for large beta
 (Bessel series cut off before its largest terms)

---
 mml/algorithms/FourierWindowing.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/FourierWindowing.h b/mml/algorithms/FourierWindowing.h
index 01f6870..3f25ba2 100644
--- a/mml/algorithms/FourierWindowing.h
+++ b/mml/algorithms/FourierWindowing.h
@@ -208,7 +208,8 @@ namespace MML::Fourier
 				Real term = 1.0;
 				Real x_half = x / 2.0;
 
-				for (int k = 1; k <= 50; k++) // Sufficient for typical accuracy
+				// Terms grow until k ~ x/2, so only the convergence check may end the series
+				for (int k = 1; k <= 50 + static_cast<int>(x); k++)
 				{
 					term *= (x_half / k);
 					term *= (x_half / k);
-- 
2.43.0


From 2cede30e8d43bcc1c51c2b055704cbf1c76317ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:12 +0000
Subject: [PATCH 057/218] fix: Windows::Kaiser and Windows::Gaussian of size 1
 were NaN

---
 mml/algorithms/FourierWindowing.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/algorithms/FourierWindowing.h b/mml/algorithms/FourierWindowing.h
index 3f25ba2..37fefbf 100644
--- a/mml/algorithms/FourierWindowing.h
+++ b/mml/algorithms/FourierWindowing.h
@@ -202,6 +202,9 @@ namespace MML::Fourier
 			FourierValidation::ValidateWindowSize(n);
 			FourierValidation::ValidateNonNegative(beta, "beta", "Windows::Kaiser");
 
+			if (n == 1)
+				return Vector<Real>(1, 1.0);
+
 			// Modified Bessel function I0(x) using series expansion
 			auto bessel_i0 = [](Real x) -> Real {
 				Real sum = 1.0;
@@ -253,6 +256,9 @@ namespace MML::Fourier
 			FourierValidation::ValidateWindowSize(n);
 			FourierValidation::ValidatePositive(sigma, "sigma", "Windows::Gaussian");
 
+			if (n == 1)
+				return Vector<Real>(1, 1.0);
+
 			Vector<Real> window(n);
 			Real center = (n - 1) / 2.0;
 			Real denominator = sigma * (n - 1) / 2.0;
-- 
2.43.0


From a8ed91eec41f5e9a1ad5954485a99a13c93d56c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:12 +0000
Subject: [PATCH 058/218] fix: FFT::NextPowerOfTwo looped forever above 2^30

---
 mml/algorithms/Fourier.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/algorithms/Fourier.h b/mml/algorithms/Fourier.h
index 9557dc9..ff2d6bc 100644
--- a/mml/algorithms/Fourier.h
+++ b/mml/algorithms/Fourier.h
@@ -447,6 +447,9 @@ namespace MML::Fourier
 			if (IsPowerOfTwo(n))
 				return n;
 
+			if (n > (1 << 30))
+				throw std::invalid_argument("FFT::NextPowerOfTwo - no power of 2 >= n fits in an int");
+
 			int power = 1;
 			while (power < n) {
 				power <<= 1;
-- 
2.43.0


From 7d3f5e831eb221597628ab1571020c16d1d751e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 059/218] fix: KDTree::build recursed without end for a leaf
 size below 1

---
 mml/algorithms/CompGeometry/KDTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/CompGeometry/KDTree.h b/mml/algorithms/CompGeometry/KDTree.h
index 0a2d07b..420ddfc 100644
--- a/mml/algorithms/CompGeometry/KDTree.h
+++ b/mml/algorithms/CompGeometry/KDTree.h
@@ -346,7 +346,7 @@ namespace MML {
 			_stats.num_nodes++;
 			
 			// Create leaf if few points
-			if (static_cast<int>(indices.size()) <= _config.max_leaf_size) {
+			if (indices.size() <= 1 || static_cast<int>(indices.size()) <= _config.max_leaf_size) {
 				node->point_indices = std::move(indices);
 				_stats.num_leaf_nodes++;
 				return node;
-- 
2.43.0


From f500edba01a07ef4df0c7f857c842f27468e90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 060/218] fix: SegmentLine2D::Intersection found a point in the
 bounding box of a segment to be on the segment

---
 mml/base/Geometry/Geometry2DCore/Geometry2DLines.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h b/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
index 2a61cd1..ab0717d 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
@@ -374,7 +374,8 @@ namespace MML
 			}
 
 			// Check for collinearity
-			bool collinear = (std::abs(d1) <= EPSILON && std::abs(d2) <= EPSILON);
+			bool collinear = (std::abs(d1) <= EPSILON && std::abs(d2) <= EPSILON &&
+			                  std::abs(d3) <= EPSILON && std::abs(d4) <= EPSILON);
 
 			if (collinear) {
 				bool p2_on_seg1 = OnSegment(p1, p2, q1);
-- 
2.43.0


From bc20e04a2c50821ecd8a0e937fea33dda8774ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 061/218] fix: Triangle2D::Area was NaN for some degenerate
 triangles

---
 mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h b/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
index f17eac9..e760c3a 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
@@ -76,12 +76,11 @@ namespace MML
 		/// @brief Calculates the perimeter
 		Real Perimeter() const { return A() + B() + C(); }
 
-		/// @brief Calculates the area using Heron's formula
+		/// @brief Calculates the area (from the vertices: Heron's formula loses accuracy,
+		///        and can give NaN, for thin and degenerate triangles)
 		Real Area() const
 		{
-			Real a = A(), b = B(), c = C();
-			Real s = (a + b + c) / 2.0;
-			return std::sqrt(s * (s - a) * (s - b) * (s - c));
+			return std::abs(SignedArea());
 		}
 
 		/// @brief Calculates the signed area (positive = CCW, negative = CW)
-- 
2.43.0


From 85818e3053503aef1b7dc5bffac6be6ae9a852d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 062/218] fix: Polygon2D::IsSimple missed edges that touch,
 overlap or fold back

---
 .../Geometry2DCore/Geometry2DPolygon.h         | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h b/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
index 1f0ef67..f81b509 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
@@ -35,7 +35,7 @@ namespace MML
 	private:
 		std::vector<Point2Cartesian> _vertices;
 
-		/// @brief Helper for segment intersection test (proper intersection only)
+		/// @brief Helper for segment intersection test (crossing, touching or overlapping segments)
 		static bool SegmentsIntersect(const Point2Cartesian& p1, const Point2Cartesian& p2,
 		                              const Point2Cartesian& p3, const Point2Cartesian& p4)
 		{
@@ -50,8 +50,14 @@ namespace MML
 			// Check if segments straddle each other
 			if (sign(d1) * sign(d2) < 0 && sign(d3) * sign(d4) < 0)
 				return true;
-			
-			return false;
+
+			// Check if an endpoint of one segment lies on the other
+			auto between = [](const Point2Cartesian& a, const Point2Cartesian& b, const Point2Cartesian& p) {
+				return p.X() >= std::min(a.X(), b.X()) && p.X() <= std::max(a.X(), b.X()) &&
+				       p.Y() >= std::min(a.Y(), b.Y()) && p.Y() <= std::max(a.Y(), b.Y());
+			};
+			return (d1 == 0 && between(p1, p2, p3)) || (d2 == 0 && between(p1, p2, p4)) ||
+			       (d3 == 0 && between(p3, p4, p1)) || (d4 == 0 && between(p3, p4, p2));
 		}
 
 	public:
@@ -226,6 +232,12 @@ namespace MML
 				Point2Cartesian p1 = _vertices[i];
 				Point2Cartesian p2 = _vertices[(i + 1) % n];
 				
+				// The next edge must not fold back over this one
+				Vector2Cartesian v1(p1, p2);
+				Vector2Cartesian v2(p2, _vertices[(i + 2) % n]);
+				if (v1.X() * v2.Y() - v1.Y() * v2.X() == 0 && v1.X() * v2.X() + v1.Y() * v2.Y() < 0)
+					return false;
+				
 				// Check against non-adjacent edges
 				for (int j = i + 2; j < n; j++) {
 					// Skip if edges are adjacent (share a vertex)
-- 
2.43.0


From 5980ae84e2abce89318198619701f162f22b9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 063/218] fix: Polygon2D::IsConvex accepted star polygons and
 polygons that fold back

---
 mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h b/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
index f81b509..2c852a9 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
@@ -261,6 +261,7 @@ namespace MML
 			
 			bool hasPositive = false;
 			bool hasNegative = false;
+			Real turning = 0.0;
 			
 			for (int i = 0; i < n; i++) {
 				Point2Cartesian p0 = _vertices[i];
@@ -278,9 +279,16 @@ namespace MML
 				// If we have both signs, polygon is not convex
 				if (hasPositive && hasNegative)
 					return false;
+				
+				Real dot = v1.X() * v2.X() + v1.Y() * v2.Y();
+				if (cross == 0 && dot < 0)
+					return false; // folds back over the previous edge
+				turning += std::atan2(cross, dot);
 			}
 			
-			return true;
+			// A polygon that turns the same way at every vertex but winds around
+			// more than once (e.g. a pentagram) is not convex
+			return std::abs(turning) < 3 * Constants::PI;
 		}
 
 		/// @brief Tests if a point is inside the polygon using ray-casting
-- 
2.43.0


From 2d0d8f3db3a8a179a01caefd6bf3adb2356c2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 064/218] fix: Parallelogram::FromDiagonals computed a wrong
 angle

---
 mml/base/Geometry/GeometryCore/Geometry2DShapes.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/base/Geometry/GeometryCore/Geometry2DShapes.h b/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
index f3394ff..c2c137f 100644
--- a/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
@@ -481,7 +481,8 @@ namespace MML {
 			// Diagonals bisect each other; use parallelogram law
 			Real a = 0.5 * sqrt(p * p + q * q + 2 * p * q * cos(angleBetween));
 			Real b = 0.5 * sqrt(p * p + q * q - 2 * p * q * cos(angleBetween));
-			Real angle = acos((a * a + b * b - 0.25 * p * p) / (2 * a * b));
+			// Difference of the laws of cosines for the two diagonals: q^2 - p^2 = 4 a b cos(angle)
+			Real angle = acos(std::clamp((q * q - p * p) / (4 * a * b), (Real)-1.0, (Real)1.0));
 			return Parallelogram(a, b, angle);
 		}
 	};
-- 
2.43.0


From 6cc0d75e5e2599ba306f3362c8eff9eca8f0b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 065/218] fix: distance of polar, cylindrical and spherical
 points lost half the digits for close points (a spherical point was not
 IsEqualTo itself)

---
 mml/base/Geometry/GeometryCore/GeometryPoints.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mml/base/Geometry/GeometryCore/GeometryPoints.h b/mml/base/Geometry/GeometryCore/GeometryPoints.h
index 5fc649d..4574a20 100644
--- a/mml/base/Geometry/GeometryCore/GeometryPoints.h
+++ b/mml/base/Geometry/GeometryCore/GeometryPoints.h
@@ -153,9 +153,10 @@ namespace MML {
 		Point2Cartesian TransfToCart() const { return Point2Cartesian(R() * cos(Phi()), R() * sin(Phi())); }
 
 		/// @brief Computes distance to another polar point using law of cosines
+		/// @details In the form (r1-r2)^2 + 4 r1 r2 sin^2(dphi/2), which does not cancel for close points
 		/// @param b The other point
 		/// @return Euclidean distance between the two points
-		Real Dist(const Point2Polar& b) const { return sqrt(std::max(Real(0), R() * R() + b.R() * b.R() - 2 * R() * b.R() * cos(b.Phi() - Phi()))); }
+		Real Dist(const Point2Polar& b) const { return sqrt(std::max(Real(0), POW2(R() - b.R()) + 4 * R() * b.R() * POW2(sin((b.Phi() - Phi()) / 2)))); }
 	};
 
 	/// @brief 3D point in Cartesian coordinates (x, y, z)
@@ -318,9 +319,10 @@ namespace MML {
 		/// @param b The other point
 		/// @return Euclidean distance between the two points (using spherical law of cosines)
 		Real Dist(const Point3Spherical& b) const {
-			Real cosGamma = cos(Theta()) * cos(b.Theta()) + sin(Theta()) * sin(b.Theta()) * cos(b.Phi() - Phi());
-			cosGamma = std::clamp(cosGamma, (Real)-1.0, (Real)1.0);
-			return sqrt(std::max(Real(0), R() * R() + b.R() * b.R() - 2 * R() * b.R() * cosGamma));
+			// sin^2(gamma/2) of the angle between the points (haversine form: cos(gamma) cancels for close points)
+			Real sin2 = POW2(sin((b.Theta() - Theta()) / 2)) + sin(Theta()) * sin(b.Theta()) * POW2(sin((b.Phi() - Phi()) / 2));
+			sin2 = std::clamp(sin2, (Real)0.0, (Real)1.0);
+			return sqrt(std::max(Real(0), POW2(R() - b.R()) + 4 * R() * b.R() * sin2));
 		}
 	};
 
@@ -387,7 +389,7 @@ namespace MML {
 		/// @param b The other point
 		/// @return Euclidean distance between the two points
 		Real Dist(const Point3Cylindrical& b) const {
-			return sqrt(std::max(Real(0), R() * R() + b.R() * b.R() - 2 * R() * b.R() * cos(b.Phi() - Phi())) + POW2(b.Z() - Z()));
+			return sqrt(std::max(Real(0), POW2(R() - b.R()) + 4 * R() * b.R() * POW2(sin((b.Phi() - Phi()) / 2))) + POW2(b.Z() - Z()));
 		}
 	};
 
-- 
2.43.0


From 28329b12ac822cbb9c741d671c0a933e026cc9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 066/218] fix: ClipPolygon kept the outside of a clip region
 given in clockwise order

---
 mml/algorithms/CompGeometry/PolygonOps.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/CompGeometry/PolygonOps.h b/mml/algorithms/CompGeometry/PolygonOps.h
index 2b46b9e..ff54a25 100644
--- a/mml/algorithms/CompGeometry/PolygonOps.h
+++ b/mml/algorithms/CompGeometry/PolygonOps.h
@@ -49,12 +49,13 @@ public:
 		std::vector<Point2Cartesian> output = subject.Vertices();
 
 		int clipN = clipRegion.NumVertices();
+		bool clockwise = clipRegion.IsClockwise(); // the inside is to the right of the edges
 		for (int i = 0; i < clipN; i++) {
 			if (output.empty())
 				break;
 
-			const Point2Cartesian& edgeStart = clipRegion[i];
-			const Point2Cartesian& edgeEnd = clipRegion[(i + 1) % clipN];
+			const Point2Cartesian& edgeStart = clockwise ? clipRegion[(i + 1) % clipN] : clipRegion[i];
+			const Point2Cartesian& edgeEnd = clockwise ? clipRegion[i] : clipRegion[(i + 1) % clipN];
 
 			output = ClipAgainstEdge(output, edgeStart, edgeEnd);
 		}
-- 
2.43.0


From d4735c4515fde4cb30dc2cf41f20957db3f9df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 067/218] fix: PolygonIntersectionApprox lost the common region
 of polygons that share part of an edge

---
 mml/algorithms/CompGeometry/PolygonOps.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/algorithms/CompGeometry/PolygonOps.h b/mml/algorithms/CompGeometry/PolygonOps.h
index ff54a25..b3bac03 100644
--- a/mml/algorithms/CompGeometry/PolygonOps.h
+++ b/mml/algorithms/CompGeometry/PolygonOps.h
@@ -158,6 +158,10 @@ public:
 					polyB[j], polyB[(j + 1) % polyB.NumVertices()]);
 				if (isect.IsPointIntersection())
 					intersectionPts.push_back(isect.point);
+				if (isect.IsOverlap()) {
+					intersectionPts.push_back(isect.overlapStart);
+					intersectionPts.push_back(isect.overlapEnd);
+				}
 			}
 		}
 
-- 
2.43.0


From 2b3c85a80260071300f2b30ac9d7dc3faa262c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 068/218] fix: Line3D::IsPerpendicular called lines at an
 obtuse angle perpendicular

---
 mml/base/Geometry/Geometry3DCore/Geometry3DLines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
index 606f7b1..7dfd05a 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
@@ -145,7 +145,7 @@ namespace MML
 		/// @brief Tests if this line is perpendicular to another line
 		bool IsPerpendicular(const Line3D& b, Real eps = Defaults::Line3DIsPerpendicularTolerance) const
 		{
-			return ScalarProduct(Direction(), b.Direction()) < eps;
+			return std::abs(ScalarProduct(Direction(), b.Direction())) < eps;
 		}
 		
 		/// @brief Tests if this line is parallel to another line
-- 
2.43.0


From 55e6f787428d337ff6903a7be0f2e6d198e1d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 069/218] fix: Line3D::Dist between parallel lines returned the
 offset along the lines

---
 mml/base/Geometry/Geometry3DCore/Geometry3DLines.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
index 7dfd05a..867fdb7 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
@@ -223,10 +223,10 @@ namespace MML
 
 			Vec3Cart n = VectorProduct(d1, d2);
 
-			if (n.isZero())
+			if (n.NormL2() < Defaults::Line3DIsParallelTolerance)
 			{
 				// parallel lines
-				return Vec3Cart(p1, p2) * d1 / d2.NormL2();
+				return Dist(p2);
 			}
 			else
 			{
@@ -253,9 +253,9 @@ namespace MML
 
 			Vec3Cart n = VectorProduct(d1, d2);
 
-			if (n.isZero())				// check for parallel lines
+			if (n.NormL2() < Defaults::Line3DIsParallelTolerance)				// check for parallel lines
 			{
-				out_dist = Vec3Cart(p1, p2) * d1 / d2.NormL2();
+				out_dist = Dist(p2);
 				return false;
 			}
 			else
-- 
2.43.0


From 6f1592469902d3bd97ef7eddf4e0e5113b1461c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 070/218] fix: Plane3D::IsParallelToPlane missed parallel
 planes with opposite normals

---
 mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
index d00d81c..a5b9c71 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
@@ -232,7 +232,7 @@ namespace MML
 			Vec3Cart norm1(_A, _B, _C);
 			Vec3Cart norm2(plane._A, plane._B, plane._C);
 
-			return norm1.IsParallelTo(norm2);
+			return norm1.IsParallelTo(norm2) || norm1.IsParallelTo(-norm2);
 		}
 		
 		/// @brief Tests if this plane is perpendicular to another plane
-- 
2.43.0


From 7e3c8308d30beb7616b106b68997831a2cb37f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 071/218] fix: Plane3D::IntersectionWithPlane put the line on
 the wrong side of the origin

---
 mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
index a5b9c71..e7f82ca 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
@@ -286,7 +286,7 @@ namespace MML
 			double d2 = -plane.D();
 
 			Vec3Cart n1xn2 = dir;
-			Vec3Cart p = VectorProduct((d2 * n1 - d1 * n2), n1xn2) / POW2(n1xn2.NormL2());
+			Vec3Cart p = VectorProduct((d1 * n2 - d2 * n1), n1xn2) / POW2(n1xn2.NormL2());
 
 			out_inter_line = Line3D(Pnt3Cart(p.X(), p.Y(), p.Z()), dir.GetAsUnitVector());
 			return true;
-- 
2.43.0


From 2418c742a514854f093a21efe868e2a2b109720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 072/218] fix: Triangle3D::Area was NaN for some degenerate
 triangles

---
 mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
index b6feb44..51054b1 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
@@ -65,8 +65,8 @@ namespace MML
 		/// @brief Calculates the area using Heron's formula
 		Real Area() const
 		{
-			Real s = (A() + B() + C()) / 2.0;
-			return sqrt(s * (s - A()) * (s - B()) * (s - C()));
+			// half of the cross product: unlike Heron's formula, never NaN for (nearly) collinear vertices
+			return VectorProduct(Vec3Cart(_pnt1, _pnt2), Vec3Cart(_pnt1, _pnt3)).NormL2() / 2.0;
 		}
 
 		/// @brief Tests if this is a right triangle
-- 
2.43.0


From e35ebcfe8286803f3cbda69a940488483d050180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 073/218] fix: Triangle3D::IsPointInside accepted points off
 the triangle's plane and rejected rounded boundary points

---
 mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
index 51054b1..15c877f 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
@@ -128,12 +128,17 @@ namespace MML
 			
 			Real v = (d11 * d20 - d01 * d21) / denom;
 			
-			if (v < 0.0 || v > 1.0)
+			if (v < -eps || v > 1.0 + eps)
 				return false;
 			
 			Real w = (d00 * d21 - d01 * d20) / denom;
 			
-			if (w < 0.0 || w > 1.0)
+			if (w < -eps || w > 1.0 + eps)
+				return false;
+
+			// barycentric coordinates only locate the projection: the point itself has to be in the plane
+			Vec3Cart n = VectorProduct(v0, v1);
+			if (std::abs(ScalarProduct(v2, n)) > eps * n.NormL2() * std::max(Real(1.0), sqrt(std::max(d00, d11))))
 				return false;
 			
 			return (v + w <= 1.0 + eps); // allow for small numerical errors
-- 
2.43.0


From 6ed35a221be8a6a27aaf09908f851887b3203d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 074/218] fix: DistanceBetweenLatLong lost all accuracy for
 nearby points

---
 mml/base/Geometry/GeometrySpherical.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mml/base/Geometry/GeometrySpherical.h b/mml/base/Geometry/GeometrySpherical.h
index 62f5d48..fb345da 100644
--- a/mml/base/Geometry/GeometrySpherical.h
+++ b/mml/base/Geometry/GeometrySpherical.h
@@ -119,7 +119,8 @@ namespace MML
 /// @param lat2Deg Second point latitude (degrees)
 /// @param long2Deg Second point longitude (degrees)
 /// @return Angular distance in radians
-/// Uses spherical law of cosines. The result is the central angle
+/// Uses the arctangent form of the great-circle formula, which stays accurate
+/// for nearby and for nearly antipodal points. The result is the central angle
 /// subtended by the two points. Multiply by sphere radius to get arc length.
 /// @note For Earth: multiply by 6371 km for approximate surface distance.
 
@@ -128,13 +129,15 @@ namespace MML
 			Pnt3Sph pnt1 = SphericalFromLatLong(lat1Deg, long1Deg);
 			Pnt3Sph pnt2 = SphericalFromLatLong(lat2Deg, long2Deg);
 
-			// Spherical law of cosines
+			// |p1 x p2| and p1 . p2: acos(p1 . p2) alone would lose half of the digits for nearby points
+			Real dPhi = pnt1.Phi() - pnt2.Phi();
+			Real dTheta = pnt1.Theta() - pnt2.Theta();
+			Real sinHalf = sin(dPhi / 2);
+			Real c1 = sin(pnt2.Theta()) * sin(dPhi);
+			Real c2 = sin(dTheta) + 2 * cos(pnt1.Theta()) * sin(pnt2.Theta()) * sinHalf * sinHalf;
 			Real cosAngle = cos(pnt1.Theta()) * cos(pnt2.Theta()) +
-											sin(pnt1.Theta()) * sin(pnt2.Theta()) *
-											cos(pnt1.Phi() - pnt2.Phi());
-			// Clamp to [-1, 1] for numerical stability
-			cosAngle = std::max(Real(-1.0), std::min(Real(1.0), cosAngle));
-			return acos(cosAngle);
+											sin(pnt1.Theta()) * sin(pnt2.Theta()) * cos(dPhi);
+			return atan2(hypot(c1, c2), cosAngle);
 		}
 		
 		/// @brief Compute great circle distance in physical units.
-- 
2.43.0


From fffbf3e24af98a2e9659da283c0989af61fbf0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 075/218] fix: Tetrahedron::Volume used products of edges that
 do not form a face

---
 mml/base/Geometry/GeometryCore/Geometry3DShapes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
index 5f31b49..f111ee0 100644
--- a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
@@ -241,7 +241,7 @@ namespace MML {
 			Real term1 = a2 * f2 * (b2 + c2 + d2 + e2 - a2 - f2);
 			Real term2 = b2 * e2 * (a2 + c2 + d2 + f2 - b2 - e2);
 			Real term3 = c2 * d2 * (a2 + b2 + e2 + f2 - c2 - d2);
-			Real term4 = -a2 * b2 * f2 - a2 * c2 * e2 - b2 * c2 * d2;
+			Real term4 = -a2 * b2 * d2 - a2 * c2 * e2 - b2 * c2 * f2;
 			Real term5 = -d2 * e2 * f2;
 
 			Real det = term1 + term2 + term3 + term4 + term5;
-- 
2.43.0


From f7c3f3af80ea25d37097bfc3b0d347c8a11444f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 076/218] fix: Pyramid3D faces had the base at -a/2 instead of
 0 and ignored the center

---
 .../Geometry3DSpherePyramid.h                 | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
index b9c41a2..b6ab299 100644
--- a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
+++ b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
@@ -198,14 +198,23 @@ namespace MML {
 		/// @param h Height (apex at z = h)
 
 		Pyramid3D(Real a, Real h)
+			: Pyramid3D(a, h, Vec3Cart(0, 0, 0)) {}
+
+		/// @brief Construct pyramid with base centered at specified point.
+		/// @param a Base side length
+		/// @param h Height
+		/// @param center Base center point
+
+		Pyramid3D(Real a, Real h, const Vec3Cart& center)
 			: _a(a)
 			, _h(h)
-			, _center(0, 0, 0) {
-			Pnt3Cart pnt1(a / 2, -a / 2, -a / 2);
-			Pnt3Cart pnt2(a / 2, a / 2, -a / 2);
-			Pnt3Cart pnt3(-a / 2, a / 2, -a / 2);
-			Pnt3Cart pnt4(-a / 2, -a / 2, -a / 2);
-			Pnt3Cart pnt5(0, 0, h); // apex
+			, _center(center) {
+			Real x = center.X(), y = center.Y(), z = center.Z();
+			Pnt3Cart pnt1(x + a / 2, y - a / 2, z);
+			Pnt3Cart pnt2(x + a / 2, y + a / 2, z);
+			Pnt3Cart pnt3(x - a / 2, y + a / 2, z);
+			Pnt3Cart pnt4(x - a / 2, y - a / 2, z);
+			Pnt3Cart pnt5(x, y, z + h); // apex
 
 			_surfaces.push_back(TriangleSurface3D(pnt1, pnt4, pnt3)); // base triangle 1
 			_surfaces.push_back(TriangleSurface3D(pnt1, pnt3, pnt2)); // base triangle 2
@@ -214,16 +223,6 @@ namespace MML {
 			_surfaces.push_back(TriangleSurface3D(pnt5, pnt3, pnt4)); // back face
 			_surfaces.push_back(TriangleSurface3D(pnt5, pnt4, pnt1)); // left face
 		}
-
-		/// @brief Construct pyramid with base centered at specified point.
-		/// @param a Base side length
-		/// @param h Height
-		/// @param center Base center point
-
-		Pyramid3D(Real a, Real h, const Vec3Cart& center)
-			: Pyramid3D(a, h) {
-			_center = center;
-		}
 		/// @}
 
 		/// @name Containment Test
-- 
2.43.0


From acf621eb3d66269b7bffc96a5f529439d4871233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 077/218] fix: Sphere3D faces were oriented outward at the
 north pole and inward elsewhere

---
 .../Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
index b6ab299..de7acd4 100644
--- a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
+++ b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
@@ -104,11 +104,11 @@ namespace MML {
 						_surfaces.emplace_back(p1, p4, p3);
 					} else if (i == _numLatitude - 1) {
 						// Bottom pole: single triangle
-						_surfaces.emplace_back(p1, p2, p3);
+						_surfaces.emplace_back(p1, p3, p2);
 					} else {
 						// Regular patch: two triangles
-						_surfaces.emplace_back(p1, p2, p3);
-						_surfaces.emplace_back(p1, p3, p4);
+						_surfaces.emplace_back(p1, p3, p2);
+						_surfaces.emplace_back(p1, p4, p3);
 					}
 				}
 			}
-- 
2.43.0


From 73a2535968d9ed81034728a44c910f664765d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 078/218] fix: unconverged trapezoid and Simpson results
 reported a zero error estimate

---
 mml/core/Integration/Integration1D.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mml/core/Integration/Integration1D.h b/mml/core/Integration/Integration1D.h
index e86984d..9c399c0 100644
--- a/mml/core/Integration/Integration1D.h
+++ b/mml/core/Integration/Integration1D.h
@@ -95,7 +95,7 @@ namespace MML
 	static IntegrationResult IntegrateTrap(const IRealFunction& func, Real a, Real b,
 																		 const Real eps = Defaults::TrapezoidIntegrationEPS)	{
 		int		j;
-		Real	currSum, oldSum = 0.0;
+		Real	currSum, oldSum = 0.0, lastChange = 0.0;
 
 		TrapIntegrator t(func, a, b);
 
@@ -113,11 +113,11 @@ namespace MML
 				}
 			}
 
+			lastChange = std::abs(currSum - oldSum);
 			oldSum = currSum;
 		}
 		// Did not converge within max iterations
-		Real final_error = std::abs(currSum - oldSum);
-		return IntegrationResult(currSum, final_error, j, false);
+		return IntegrationResult(currSum, lastChange, j, false);
 	}
 
 	/// @brief Simpson's rule with adaptive refinement
@@ -134,7 +134,7 @@ namespace MML
 																			 const Real eps = Defaults::SimpsonIntegrationEPS)
 	{
 		int j;
-		Real currSum, st, ost = 0.0, oldSum = 0.0;
+		Real currSum, st, ost = 0.0, oldSum = 0.0, lastChange = 0.0;
 
 		TrapIntegrator t(func, a, b);
 
@@ -154,12 +154,12 @@ namespace MML
 				}
 			}
 
+			lastChange = std::abs(currSum - oldSum);
 			oldSum = currSum;
 			ost = st;
 		}
 		// Did not converge within max iterations
-		Real final_error = std::abs(currSum - oldSum);
-		return IntegrationResult(currSum, final_error, j, false);
+		return IntegrationResult(currSum, lastChange, j, false);
 	}
 
 
-- 
2.43.0


From ae298839ad1f1fbaa62888ddc72456b6159e9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 079/218] fix: GaussLaguerre rejected converged nodes because
 of an absolute tolerance

---
 mml/core/Integration/GaussianQuadrature.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/core/Integration/GaussianQuadrature.h b/mml/core/Integration/GaussianQuadrature.h
index 3a8464e..998d649 100644
--- a/mml/core/Integration/GaussianQuadrature.h
+++ b/mml/core/Integration/GaussianQuadrature.h
@@ -14,6 +14,7 @@
 #define MML_GAUSSIAN_QUADRATURE_H
 
 #include <vector>
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
 
@@ -183,7 +184,7 @@ namespace MML
 				
 				Real z1 = z;
 				z = z1 - p1 / pp;
-				if (std::abs(z - z1) <= EPS) break;
+				if (std::abs(z - z1) <= EPS * std::max(Real(1), std::abs(z))) break;
 			}
 			if (its >= MAXIT)
 				throw IntegrationTooManySteps("GaussLaguerre: too many iterations", MAXIT);
-- 
2.43.0


From 262fe0ee50326ea622167cf752c272eaffb2dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 080/218] fix: adaptive integration did not count the
 evaluations of subdivided intervals

---
 mml/core/Integration/GaussKronrod.h          | 2 +-
 mml/core/Integration/Integration2DAdaptive.h | 1 +
 mml/core/Integration/Integration3DAdaptive.h | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index 059364f..d3c47d8 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -376,7 +376,7 @@ namespace MML {
 			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
 			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
 
-			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate, left.function_evals + right.function_evals,
+			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate, local.function_evals + left.function_evals + right.function_evals,
 											left.converged && right.converged);
 		}
 
diff --git a/mml/core/Integration/Integration2DAdaptive.h b/mml/core/Integration/Integration2DAdaptive.h
index 5e3a4e5..e2eac4b 100644
--- a/mml/core/Integration/Integration2DAdaptive.h
+++ b/mml/core/Integration/Integration2DAdaptive.h
@@ -273,6 +273,7 @@ static AdaptiveResult2D IntegrateAdaptive2D_Recursive(
     Real my = 0.5 * (y1 + y2);
 
     AdaptiveResult2D result;
+    result.function_evaluations = cell_result.function_evals;
     result.cells_subdivided = 1;  // This cell was subdivided
 
     // Process all 4 children
diff --git a/mml/core/Integration/Integration3DAdaptive.h b/mml/core/Integration/Integration3DAdaptive.h
index d2754cd..5161bbc 100644
--- a/mml/core/Integration/Integration3DAdaptive.h
+++ b/mml/core/Integration/Integration3DAdaptive.h
@@ -284,6 +284,7 @@ static AdaptiveResult3D IntegrateAdaptive3D_Recursive(
     Real mz = 0.5 * (z1 + z2);
 
     AdaptiveResult3D result;
+    result.function_evaluations = cell_result.function_evals;
     result.cells_subdivided = 1;  // This cell was subdivided
 
     // Process all 8 children (2×2×2 = 8 octants)
-- 
2.43.0


From d831c8b4d4334fccedd6e0a7e40943d97d70ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 081/218] fix: adaptive 2D and 3D integration reported no
 convergence after any subdivision

---
 mml/core/Integration/Integration2DAdaptive.h | 1 +
 mml/core/Integration/Integration3DAdaptive.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mml/core/Integration/Integration2DAdaptive.h b/mml/core/Integration/Integration2DAdaptive.h
index e2eac4b..aa2b9fd 100644
--- a/mml/core/Integration/Integration2DAdaptive.h
+++ b/mml/core/Integration/Integration2DAdaptive.h
@@ -274,6 +274,7 @@ static AdaptiveResult2D IntegrateAdaptive2D_Recursive(
 
     AdaptiveResult2D result;
     result.function_evaluations = cell_result.function_evals;
+    result.converged = true;      // Holds as long as every child converges
     result.cells_subdivided = 1;  // This cell was subdivided
 
     // Process all 4 children
diff --git a/mml/core/Integration/Integration3DAdaptive.h b/mml/core/Integration/Integration3DAdaptive.h
index 5161bbc..ad9bcd9 100644
--- a/mml/core/Integration/Integration3DAdaptive.h
+++ b/mml/core/Integration/Integration3DAdaptive.h
@@ -285,6 +285,7 @@ static AdaptiveResult3D IntegrateAdaptive3D_Recursive(
 
     AdaptiveResult3D result;
     result.function_evaluations = cell_result.function_evals;
+    result.converged = true;      // Holds as long as every child converges
     result.cells_subdivided = 1;  // This cell was subdivided
 
     // Process all 8 children (2×2×2 = 8 octants)
-- 
2.43.0


From 3e0e1b43890a9b27b8246a6bc37eee7cbeb876bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 082/218] fix: adaptive Gauss-Kronrod subdivided without bound
 where the integrand is undefined

---
 mml/core/Integration/GaussKronrod.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index d3c47d8..c6ab462 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -354,10 +354,11 @@ namespace MML {
 		/// @param tol_rel Relative error tolerance (default 1e-10)
 		/// @param max_depth Maximum recursion depth (default 50)
 		/// @param rule Which Gauss-Kronrod rule to use (default GK15)
+		/// @param parent_undefined Set by the recursion when the enclosing interval gave an undefined estimate
 		/// @return GKResult with integral and accumulated error estimate
 		template<typename Func>
 		static GKResult IntegrateGKAdaptive(Func f, Real a, Real b, Real tol_abs = 1e-10, Real tol_rel = 1e-10, int max_depth = 50,
-																				GKRule rule = GKRule::GK15) {
+																				GKRule rule = GKRule::GK15, bool parent_undefined = false) {
 			// Apply basic rule first
 			GKResult local = (rule == GKRule::GK15)		? IntegrateGK15(f, a, b)
 											 : (rule == GKRule::GK21) ? IntegrateGK21(f, a, b)
@@ -365,16 +366,19 @@ namespace MML {
 
 			Real tolerance = std::max(tol_abs, tol_rel * std::abs(local.value));
 
+			// An undefined value may be a single bad node of this interval, but not twice in a row
+			bool undefined = !std::isfinite(local.error_estimate);
+
 			// Check if we meet tolerance or hit max depth
-			if (local.error_estimate <= tolerance || max_depth <= 0) {
+			if (local.error_estimate <= tolerance || max_depth <= 0 || (undefined && parent_undefined)) {
 				local.converged = (local.error_estimate <= tolerance);
 				return local;
 			}
 
 			// Subdivide and recurse
 			Real mid = 0.5 * (a + b);
-			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
-			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
+			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule, undefined);
+			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule, undefined);
 
 			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate, local.function_evals + left.function_evals + right.function_evals,
 											left.converged && right.converged);
-- 
2.43.0


From d59771fbced810d15c66dceac557563dc1b383e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 083/218] fix: Monte Carlo error estimate was NaN when rounding
 made the variance negative

---
 mml/core/Integration/MonteCarloIntegration.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/core/Integration/MonteCarloIntegration.h b/mml/core/Integration/MonteCarloIntegration.h
index 4ba2623..6924c64 100644
--- a/mml/core/Integration/MonteCarloIntegration.h
+++ b/mml/core/Integration/MonteCarloIntegration.h
@@ -18,6 +18,7 @@
 #include "interfaces/IFunction.h"
 #include "base/Vector/VectorN.h"
 
+#include <algorithm>
 #include <random>
 #include <numeric>
 #include <cmath>
@@ -171,7 +172,7 @@ namespace MML
 			// Compute statistics
 			Real mean = sum / n;
 			Real mean_sq = sum_sq / n;
-			Real variance = mean_sq - mean * mean;
+			Real variance = std::max(Real(0), mean_sq - mean * mean);
 
 			// Standard error of the mean
 			Real std_error = std::sqrt(variance / n);
@@ -344,7 +345,7 @@ namespace MML
 			// Compute result
 			Real mean = sum / total_strata;
 			Real mean_sq = sum_sq / total_strata;
-			Real variance = (mean_sq - mean * mean) / total_strata;
+			Real variance = std::max(Real(0), mean_sq - mean * mean) / total_strata;
 			Real std_error = std::sqrt(variance);
 
 			Real integral = volume * mean;
-- 
2.43.0


From 0bf03fd43147d70bff00d618ece2a64b633568c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 084/218] fix: error estimates of second/third numerical
 derivatives used wrong stencils and powers of h

---
 mml/core/Derivation/DerivationParametricCurve.h | 14 +++++++-------
 mml/core/Derivation/DerivationRealFunction.h    | 12 ++++++------
 mml/core/Derivation/DerivationScalarFunction.h  |  4 ++--
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/mml/core/Derivation/DerivationParametricCurve.h b/mml/core/Derivation/DerivationParametricCurve.h
index fcf6a99..162b23a 100644
--- a/mml/core/Derivation/DerivationParametricCurve.h
+++ b/mml/core/Derivation/DerivationParametricCurve.h
@@ -96,7 +96,7 @@ namespace MML
 				VectorN<Real, N> y3h = f(t + 3 * h);
 				VectorN<Real, N> ym3h = f(t - 3 * h);
 
-				*error = std::abs((y3h - ym3h).NormL2() / 2 + 2 * (ym2h - y2h).NormL2() + 5 * (yh - ymh).NormL2() / 2) / (30 * h);
+				*error = ((y3h - ym3h) / 2 + 2 * (ym2h - y2h) + 5 * (yh - ymh) / 2).NormL2() / (30 * h);
 				*error += Constants::Eps * (y2h.NormL2() + ym2h.NormL2() + 8 * (ymh.NormL2() + yh.NormL2())) / (12 * h);
 			}
 			return (y2 + 8 * y1) / (12 * h);
@@ -191,7 +191,7 @@ namespace MML
 				VectorN<Real, N> ym2h = f(t - 2*h);
 				Real f4_approx = (ym2h - 4.0*ymh + 6.0*y0 - 4.0*yh + y2h).NormL2() / h2;
 				
-				*error = f4_approx * h2 / 12.0 + 
+				*error = f4_approx / 12.0 + 
 				         Constants::Eps * (ymh.NormL2() + 2*y0.NormL2() + yh.NormL2()) / h2;
 			}
 			
@@ -224,7 +224,7 @@ namespace MML
 				VectorN<Real, N> ym3h = f(t - 3*h);
 				Real f6_approx = (ym3h - 6.0*ym2h + 15.0*ymh - 20.0*y0 + 15.0*yh - 6.0*y2h + y3h).NormL2() / h2;
 				
-				*error = f6_approx * h2 * h2 / 90.0 + 
+				*error = f6_approx / 90.0 + 
 				         Constants::Eps * (ym2h.NormL2() + 16*ymh.NormL2() + 30*y0.NormL2() + 
 				                           16*yh.NormL2() + y2h.NormL2()) / (12.0 * h2);
 			}
@@ -262,9 +262,9 @@ namespace MML
 				// Error estimate using 5th derivative approximation
 				VectorN<Real, N> y3h = f(t + 3*h);
 				VectorN<Real, N> ym3h = f(t - 3*h);
-				Real f5_approx = (ym3h - 3.0*ym2h + 5.0*ymh - 5.0*yh + 3.0*y2h - y3h).NormL2() / h3;
+				Real f5_approx = (ym3h - 4.0*ym2h + 5.0*ymh - 5.0*yh + 4.0*y2h - y3h).NormL2() / (2.0 * h3);
 				
-				*error = f5_approx * h * h / 4.0 + 
+				*error = f5_approx / 4.0 + 
 				         Constants::Eps * (ym2h.NormL2() + 2*ymh.NormL2() + 2*yh.NormL2() + y2h.NormL2()) / (2.0 * h3);
 			}
 			
@@ -297,9 +297,9 @@ namespace MML
 				// Error estimate using 7th derivative approximation
 				VectorN<Real, N> y4h = f(t + 4*h);
 				VectorN<Real, N> ym4h = f(t - 4*h);
-				Real f7_approx = (ym4h - 4.0*ym3h + 9.0*ym2h - 13.0*ymh + 13.0*yh - 9.0*y2h + 4.0*y3h - y4h).NormL2() / h3;
+				Real f7_approx = (ym4h - 6.0*ym3h + 14.0*ym2h - 14.0*ymh + 14.0*yh - 14.0*y2h + 6.0*y3h - y4h).NormL2() / (2.0 * h3);
 				
-				*error = f7_approx * h * h * h * h / 120.0 + 
+				*error = 7.0 * f7_approx / 120.0 + 
 				         Constants::Eps * (ym3h.NormL2() + 8*ym2h.NormL2() + 13*ymh.NormL2() + 
 				                           13*yh.NormL2() + 8*y2h.NormL2() + y3h.NormL2()) / (8.0 * h3);
 			}
diff --git a/mml/core/Derivation/DerivationRealFunction.h b/mml/core/Derivation/DerivationRealFunction.h
index 75c32ad..fc87c94 100644
--- a/mml/core/Derivation/DerivationRealFunction.h
+++ b/mml/core/Derivation/DerivationRealFunction.h
@@ -382,7 +382,7 @@ namespace MML
 						Real y2h = f(x + 2 * h);
 						Real ym2h = f(x - 2 * h);
 						Real f4_approx = std::abs(ym2h - 4 * ymh + 6 * y0 - 4 * yh + y2h) / h2;
-						*error = f4_approx * h2 / 12.0 +
+						*error = f4_approx / 12.0 +
 						         Constants::Eps * (std::abs(ymh) + 2 * std::abs(y0) + std::abs(yh)) / h2;
 					}
 
@@ -429,7 +429,7 @@ namespace MML
 						Real y3h = f(x + 3 * h);
 						Real ym3h = f(x - 3 * h);
 						Real f6_approx = std::abs(ym3h - 6 * ym2h + 15 * ymh - 20 * y0 + 15 * yh - 6 * y2h + y3h) / h2;
-						*error = f6_approx * h2 * h2 / 90.0 +
+						*error = f6_approx / 90.0 +
 						         Constants::Eps * (std::abs(ym2h) + 16 * std::abs(ymh) + 30 * std::abs(y0) +
 						                           16 * std::abs(yh) + std::abs(y2h)) / (12.0 * h2);
 					}
@@ -482,8 +482,8 @@ namespace MML
 					{
 						Real y3h = f(x + 3 * h);
 						Real ym3h = f(x - 3 * h);
-						Real f5_approx = std::abs(ym3h - 3 * ym2h + 5 * ymh - 5 * yh + 3 * y2h - y3h) / h3;
-						*error = f5_approx * h * h / 4.0 +
+						Real f5_approx = std::abs(ym3h - 4 * ym2h + 5 * ymh - 5 * yh + 4 * y2h - y3h) / (2.0 * h3);
+						*error = f5_approx / 4.0 +
 						         Constants::Eps * (std::abs(ym2h) + 2 * std::abs(ymh) + 2 * std::abs(yh) + std::abs(y2h)) / (2.0 * h3);
 					}
 
@@ -530,8 +530,8 @@ namespace MML
 					{
 						Real y4h = f(x + 4 * h);
 						Real ym4h = f(x - 4 * h);
-						Real f7_approx = std::abs(ym4h - 4 * ym3h + 9 * ym2h - 13 * ymh + 13 * yh - 9 * y2h + 4 * y3h - y4h) / h3;
-						*error = f7_approx * h * h * h * h / 120.0 +
+						Real f7_approx = std::abs(ym4h - 6 * ym3h + 14 * ym2h - 14 * ymh + 14 * yh - 14 * y2h + 6 * y3h - y4h) / (2.0 * h3);
+						*error = 7.0 * f7_approx / 120.0 +
 						         Constants::Eps * (std::abs(ym3h) + 8 * std::abs(ym2h) + 13 * std::abs(ymh) +
 						                           13 * std::abs(yh) + 8 * std::abs(y2h) + std::abs(y3h)) / (8.0 * h3);
 					}
diff --git a/mml/core/Derivation/DerivationScalarFunction.h b/mml/core/Derivation/DerivationScalarFunction.h
index 81181b1..072dbee 100644
--- a/mml/core/Derivation/DerivationScalarFunction.h
+++ b/mml/core/Derivation/DerivationScalarFunction.h
@@ -449,7 +449,7 @@ namespace MML
 					x_2minus[der_ind1] = point[der_ind1] - 2*h;
 					
 					Real f4_approx = std::abs(f(x_2minus) - 4.0*fmh + 6.0*f0 - 4.0*fh + f(x_2plus)) / h2;
-					*error = f4_approx * h2 / 12.0 + 
+					*error = f4_approx / 12.0 + 
 					         Constants::Eps * (std::abs(fmh) + 2*std::abs(f0) + std::abs(fh)) / h2;
 				}
 				
@@ -542,7 +542,7 @@ namespace MML
 					Real fm3h = f(x);
 					
 					Real f6_approx = std::abs(fm3h - 6.0*fm2h + 15.0*fmh - 20.0*f0 + 15.0*fh - 6.0*f2h + f3h) / h2;
-					*error = f6_approx * h2 * h2 / 90.0 + 
+					*error = f6_approx / 90.0 + 
 					         Constants::Eps * (std::abs(fm2h) + 16*std::abs(fmh) + 30*std::abs(f0) + 
 					                           16*std::abs(fh) + std::abs(f2h)) / (12.0 * h2);
 				}
-- 
2.43.0


From 719dc00f0141c8b68c0587d05a3fc5e955de3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 085/218] fix: default-step tensor field derivatives of rank 3
 and 4 did not compile

---
 mml/core/Derivation/DerivationTensorField.h | 50 ++++++++++-----------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/mml/core/Derivation/DerivationTensorField.h b/mml/core/Derivation/DerivationTensorField.h
index 59d5fad..8033c5d 100644
--- a/mml/core/Derivation/DerivationTensorField.h
+++ b/mml/core/Derivation/DerivationTensorField.h
@@ -57,12 +57,6 @@ namespace MML
 			return NDer1Partial(f, i, j, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
 		}
 
-		template <int N>
-		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
-		{
-			return NDer1Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
-		}
-
 		template <int N>
 		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -86,9 +80,9 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
 		{
-			return NDer1Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
+			return NDer1Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
 		}
 
 		template <int N>
@@ -113,6 +107,12 @@ namespace MML
 			return diff / h;
 		}
 
+		template <int N>
+		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		{
+			return NDer1Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
+		}
+
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of SECOND order                                ********/
 		/********************************************************************************************************************/
@@ -150,12 +150,6 @@ namespace MML
 			return NDer2Partial(f, i, j, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
 		}
 
-		template <int N>
-		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
-		{
-			return NDer2Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
-		}
-
 		template <int N>
 		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -185,9 +179,9 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
 		{
-			return NDer2Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
+			return NDer2Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
 		}
 
 		template <int N>
@@ -217,6 +211,12 @@ namespace MML
 
 			return diff / (2 * h);
 		}
+
+		template <int N>
+		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		{
+			return NDer2Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
+		}
 		
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of FOURTH order                                ********/
@@ -262,12 +262,6 @@ namespace MML
 			return NDer4Partial(f, i, j, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
 		}
 
-		template <int N>
-		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
-		{
-			return NDer4Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
-		}
-
 		template <int N>
 		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -303,13 +297,13 @@ namespace MML
 			return (y2 + 8 * y1) / (12 * h);
 		}
 
-
 		template <int N>
-		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
 		{
-			return NDer4Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
+			return NDer4Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
 		}
 
+
 		template <int N>
 		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -344,6 +338,12 @@ namespace MML
 			}
 			return (y2 + 8 * y1) / (12 * h);
 		}
+
+		template <int N>
+		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		{
+			return NDer4Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
+		}
 	}
 }
 
-- 
2.43.0


From 7a927dc2ef44d4de56461e6b872692b744f5ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 086/218] fix: calcJacobian of an N-to-M vector function did
 not compile

---
 mml/core/Derivation/Jacobians.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mml/core/Derivation/Jacobians.h b/mml/core/Derivation/Jacobians.h
index bf6c4a0..788a79b 100644
--- a/mml/core/Derivation/Jacobians.h
+++ b/mml/core/Derivation/Jacobians.h
@@ -22,6 +22,7 @@
 #include "base/Vector/VectorN.h"
 #include "base/Matrix/MatrixNM.h"
 
+#include "core/Derivation/DerivationScalarFunction.h"
 #include "core/Derivation/DerivationVectorFunction.h"
 
 #include <functional>
@@ -66,13 +67,23 @@ namespace MML
 		template<int N, int M>
 		static MatrixNM<Real, M, N> calcJacobian(const IVectorFunctionNM<N, M>& func, const VectorN<Real, N>& pos)
 		{
+			struct Component : public IScalarFunction<N>
+			{
+				const IVectorFunctionNM<N, M>& _func;
+				int _index;
+
+				Component(const IVectorFunctionNM<N, M>& f, int index) : _func(f), _index(index) {}
+				Real operator()(const VectorN<Real, N>& x) const override { return _func(x)[_index]; }
+			};
+
 			MatrixNM<Real, M, N> jac;
 
 			for (int i = 0; i < M; ++i)
+			{
+				Component component(func, i);
 				for (int j = 0; j < N; ++j)
-				{
-					jac(i, j) = Derivation::NDer4Partial(func, i, j, pos);
-				}
+					jac(i, j) = NDer4Partial(component, j, pos);
+			}
 
 			return jac;
 		}
-- 
2.43.0


From 6d990a6033d1e527013fedae915387185dd006af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 087/218] fix: default step of dynamic-size partial derivatives
 ignored the magnitude of the argument

---
 mml/core/Derivation/Jacobians.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/core/Derivation/Jacobians.h b/mml/core/Derivation/Jacobians.h
index 788a79b..9961dc7 100644
--- a/mml/core/Derivation/Jacobians.h
+++ b/mml/core/Derivation/Jacobians.h
@@ -110,7 +110,7 @@ namespace MML
 		{
 			// Optimal step size for 4th order method: h ≈ ε^(1/5) where ε is machine epsilon
 			if (h == 0.0)
-				h = std::pow(std::numeric_limits<Real>::epsilon(), 0.2);
+				h = ScaleStep(std::pow(std::numeric_limits<Real>::epsilon(), 0.2), pos[derivIndex]);
 
 			Vector<Real> x = pos;
 			Real x_orig = x[derivIndex];
@@ -148,7 +148,7 @@ namespace MML
 		{
 			// Optimal step size for 2nd order: h ≈ ε^(1/3)
 			if (h == 0.0)
-				h = std::pow(std::numeric_limits<Real>::epsilon(), 1.0 / 3.0);
+				h = ScaleStep(std::pow(std::numeric_limits<Real>::epsilon(), 1.0 / 3.0), pos[derivIndex]);
 
 			Vector<Real> x = pos;
 			Real x_orig = x[derivIndex];
-- 
2.43.0


From 46d0430673cae6b72945088b0d16e7d7b13b85b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 088/218] fix: ForwardAD.h missed standard headers it uses

---
 mml/core/Derivation/ForwardAD.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/core/Derivation/ForwardAD.h b/mml/core/Derivation/ForwardAD.h
index 5772a61..463b309 100644
--- a/mml/core/Derivation/ForwardAD.h
+++ b/mml/core/Derivation/ForwardAD.h
@@ -14,9 +14,13 @@
 #ifndef MML_SYMBOLIC_FORWARD_AD_H
 #define MML_SYMBOLIC_FORWARD_AD_H
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <limits>
+#include <type_traits>
+#include <utility>
+#include <vector>
 
 namespace MML::Symbolic
 {
-- 
2.43.0


From 73b01c2ac3260e3b949ec0ae259388b5e6c868e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 089/218] fix: Richardson derivatives wrote outside the table
 for max_iter < 1

---
 mml/core/Derivation/DerivationRealFunction.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/core/Derivation/DerivationRealFunction.h b/mml/core/Derivation/DerivationRealFunction.h
index fc87c94..1625598 100644
--- a/mml/core/Derivation/DerivationRealFunction.h
+++ b/mml/core/Derivation/DerivationRealFunction.h
@@ -582,7 +582,7 @@ namespace MML
 			const Real big = std::numeric_limits<Real>::max();
 			const Real safe = 2.0;
 
-			if (h == 0.0)
+			if (h == 0.0 || max_iter < 1)
 			{
 				if (error) *error = big;
 				return 0.0;
@@ -658,7 +658,7 @@ namespace MML
 			const Real big = std::numeric_limits<Real>::max();
 			const Real safe = 2.0;
 
-			if (h == 0.0)
+			if (h == 0.0 || max_iter < 1)
 			{
 				if (error) *error = big;
 				return 0.0;
@@ -724,7 +724,7 @@ namespace MML
 			const Real big = std::numeric_limits<Real>::max();
 			const Real safe = 2.0;
 
-			if (h == 0.0)
+			if (h == 0.0 || max_iter < 1)
 			{
 				if (error) *error = big;
 				return 0.0;
-- 
2.43.0


From 570464f12754e42575f274195fb0fa017e1f37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 090/218] fix: dual-number pow gave NaN derivatives at base 0

---
 mml/core/Derivation/ForwardAD.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/mml/core/Derivation/ForwardAD.h b/mml/core/Derivation/ForwardAD.h
index 463b309..7a5e155 100644
--- a/mml/core/Derivation/ForwardAD.h
+++ b/mml/core/Derivation/ForwardAD.h
@@ -188,20 +188,33 @@ namespace MML::Symbolic
     }
 
     /// Power function: d/dx(x^n) = n*x^(n-1)
+    /// The pow functions below take the limit where these formulas read 0*infinity:
+    /// a power that is identically 1 has slope 0, and 0^y (y > 0) does not vary with y.
+    template<typename T>
+    T powSlopeInBase(T base, T exp) {
+        return exp == T(0) ? T(0) : exp * std::pow(base, exp - T(1));
+    }
+
+    template<typename T>
+    T powSlopeInExponent(T base, T exp) {
+        return (base == T(0) && exp > T(0)) ? T(0) : std::pow(base, exp) * std::log(base);
+    }
+
     template<typename T>
     Dual<T> pow(const Dual<T>& base, const Dual<T>& exp) {
         if (exp.deriv == T(0)) {
             // Constant exponent: d/dx(f^n) = n*f^(n-1)*f'
             T p = std::pow(base.value, exp.value);
-            return Dual<T>(p, exp.value * std::pow(base.value, exp.value - T(1)) * base.deriv);
+            return Dual<T>(p, powSlopeInBase(base.value, exp.value) * base.deriv);
         } else if (base.deriv == T(0)) {
             // Constant base: d/dx(a^g) = a^g * ln(a) * g'
             T p = std::pow(base.value, exp.value);
-            return Dual<T>(p, p * std::log(base.value) * exp.deriv);
+            return Dual<T>(p, powSlopeInExponent(base.value, exp.value) * exp.deriv);
         } else {
             // General case: d/dx(f^g) = f^g * (g' * ln(f) + g * f'/f)
             T p = std::pow(base.value, exp.value);
-            T d = p * (exp.deriv * std::log(base.value) + exp.value * base.deriv / base.value);
+            T d = powSlopeInExponent(base.value, exp.value) * exp.deriv
+                + powSlopeInBase(base.value, exp.value) * base.deriv;
             return Dual<T>(p, d);
         }
     }
@@ -209,14 +222,14 @@ namespace MML::Symbolic
     template<typename T, typename S, typename = std::enable_if_t<std::is_arithmetic_v<S>>>
     Dual<T> pow(const Dual<T>& base, S exp) {
         T p = std::pow(base.value, static_cast<T>(exp));
-        return Dual<T>(p, static_cast<T>(exp) * std::pow(base.value, static_cast<T>(exp) - T(1)) * base.deriv);
+        return Dual<T>(p, powSlopeInBase(base.value, static_cast<T>(exp)) * base.deriv);
     }
 
     template<typename T, typename S, typename = std::enable_if_t<std::is_arithmetic_v<S>>>
     Dual<T> pow(S base, const Dual<T>& exp) {
         T b = static_cast<T>(base);
         T p = std::pow(b, exp.value);
-        return Dual<T>(p, p * std::log(b) * exp.deriv);
+        return Dual<T>(p, powSlopeInExponent(b, exp.value) * exp.deriv);
     }
 
     /// Exponential: d/dx(e^x) = e^x
-- 
2.43.0


From a9c4db76cd4cfd59603d096c46c190194c33eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 091/218] fix: NDer1Right with error estimate evaluated the
 function left of the point

---
 mml/core/Derivation/DerivationRealFunction.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/core/Derivation/DerivationRealFunction.h b/mml/core/Derivation/DerivationRealFunction.h
index 1625598..dda55b6 100644
--- a/mml/core/Derivation/DerivationRealFunction.h
+++ b/mml/core/Derivation/DerivationRealFunction.h
@@ -135,12 +135,13 @@ namespace MML
 		
 		static Real NDer1Left(const IRealFunction& f, Real x, Real* error = nullptr) 
 		{ Real h = ScaleStep(NDer1_h, x); return NDer1(f, x - h, h, error); }
+		// error estimate of NDer1Right uses x, x+h, x+2h, so that f is never evaluated left of x
 		static Real NDer1Right(const IRealFunction& f, Real x, Real* error = nullptr) 
-		{ Real h = ScaleStep(NDer1_h, x); return NDer1(f, x, h, error); }
+		{ Real h = ScaleStep(NDer1_h, x); if (error) NDer1(f, x + h, h, error); return NDer1(f, x, h); }
 		static Real NDer1Left(const IRealFunction& f, Real x, Real h, Real* error = nullptr) 
 		{ return NDer1(f, x - h, h, error); }
 		static Real NDer1Right(const IRealFunction& f, Real x, Real h, Real* error = nullptr) 
-		{ return NDer1(f, x, h, error); }
+		{ if (error) NDer1(f, x + h, h, error); return NDer1(f, x, h); }
 
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of SECOND order                                ********/
-- 
2.43.0


From 4a19360eadc7ff8f3da0e90102677113ec64cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 092/218] fix: tensor transformation mixed up index variance
 and evaluated the inverse map at the untransformed point

---
 mml/core/CoordTransf.h | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/mml/core/CoordTransf.h b/mml/core/CoordTransf.h
index 69439ed..ccd6fc6 100644
--- a/mml/core/CoordTransf.h
+++ b/mml/core/CoordTransf.h
@@ -230,7 +230,8 @@ namespace MML
 		/// @return Transformed tensor in target coordinates
 		Tensor2<N> transfTensor2(const Tensor2<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor2<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor2<N> ret(tensor);	// keeps the variance of every index
+			const VectorTo posTo = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -243,12 +244,12 @@ Real coef1, coef2;
 							if (tensor.IsContravar(0))
 								coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), k, pos);
 							else
-								coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, pos);
+								coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, posTo);
 
 							if (tensor.IsContravar(1))
 								coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), l, pos);
 							else
-								coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), j, pos);
+								coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), j, posTo);
 
 							ret(i, j) += coef1 * coef2 * tensor(k, l);
 						}
@@ -262,7 +263,8 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor3<N> transfTensor3(const Tensor3<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor3<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor3<N> ret(tensor);	// keeps the variance of every index
+			const VectorTo posTo = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -277,17 +279,17 @@ Real coef1, coef2;
 									if (tensor.IsContravar(0))
 										coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), l, pos);
 									else
-										coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), i, pos);
+										coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), i, posTo);
 
 									if (tensor.IsContravar(1))
 										coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), m, pos);
 									else
-										coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), j, pos);
+										coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), j, posTo);
 
 									if (tensor.IsContravar(2))
 										coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), n, pos);
 									else
-										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, pos);
+										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, posTo);
 
 									ret.Component(i, j, k) += coef1 * coef2 * coef3 * tensor.Component(l, m, n);
 								}
@@ -301,7 +303,8 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor4<N> transfTensor4(const Tensor4<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor4<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor4<N> ret(tensor);	// keeps the variance of every index
+			const VectorTo posTo = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -318,22 +321,22 @@ Real coef1, coef2;
 											if (tensor.IsContravar(0))
 												coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), m, pos);
 											else
-												coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), i, pos);
+												coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), i, posTo);
 
 											if (tensor.IsContravar(1))
 												coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), n, pos);
 											else
-												coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), j, pos);
+												coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), j, posTo);
 
 											if (tensor.IsContravar(2))
 												coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), o, pos);
 											else
-												coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), k, pos);
+												coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), k, posTo);
 
 											if (tensor.IsContravar(3))
 												coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), p, pos);
 											else
-												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, pos);
+												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, posTo);
 
 											ret[i][j][k][l] += coef1 * coef2 * coef3 * coef4 * tensor[m][n][o][p];
 										}
@@ -347,7 +350,8 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor5<N> transfTensor5(const Tensor5<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor5<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor5<N> ret(tensor);	// keeps the variance of every index
+			const VectorTo posTo = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -366,27 +370,27 @@ Real coef1, coef2;
 													if (tensor.IsContravar(0))
 														coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), n, pos);
 													else
-														coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), i, pos);
+														coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), i, posTo);
 
 													if (tensor.IsContravar(1))
 														coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), o, pos);
 													else
-														coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), j, pos);
+														coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), j, posTo);
 
 													if (tensor.IsContravar(2))
 														coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), p, pos);
 													else
-														coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), k, pos);
+														coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), k, posTo);
 
 													if (tensor.IsContravar(3))
 														coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), q, pos);
 													else
-														coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(q), l, pos);
+														coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(q), l, posTo);
 
 													if (tensor.IsContravar(4))
 												coef5 = Derivation::NDer4Partial(this->coordTransfFunc(m), r, pos);
 											else
-												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, pos);
+												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, posTo);
 													ret[i][j][k][l][m] += coef1 * coef2 * coef3 * coef4 * coef5 * tensor[n][o][p][q][r];
 												}
 							}
-- 
2.43.0


From 0eac7d96e3ed1d58f4b24419ef7b78f7d85f6aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 093/218] fix: vector and tensor transformations were wrong at
 the branch cut of the polar angle

---
 mml/core/CoordTransf.h                        | 95 +++++++++++--------
 mml/core/CoordTransf/CoordTransf2D.h          |  8 ++
 mml/core/CoordTransf/CoordTransfCylindrical.h | 16 ++++
 mml/core/CoordTransf/CoordTransfSpherical.h   | 16 ++++
 4 files changed, 98 insertions(+), 37 deletions(-)

diff --git a/mml/core/CoordTransf.h b/mml/core/CoordTransf.h
index ccd6fc6..19bc448 100644
--- a/mml/core/CoordTransf.h
+++ b/mml/core/CoordTransf.h
@@ -87,7 +87,7 @@ namespace MML
 			VectorTo ret;
 
 			for (int i = 0; i < N; i++)
-				ret[i] = Derivation::NDer4Partial(this->coordTransfFunc(i), ind, pos);
+				ret[i] = this->coordTransfPartial(i, ind, pos);
 
 			return ret;
 		}
@@ -100,7 +100,7 @@ namespace MML
 			VectorFrom ret;
 
 			for (int i = 0; i < N; i++)
-				ret[i] = Derivation::NDer4Partial(this->coordTransfFunc(ind), i, pos);
+				ret[i] = this->coordTransfPartial(ind, i, pos);
 
 			return ret;
 		}
@@ -115,7 +115,7 @@ namespace MML
 			for (int i = 0; i < N; ++i)
 				for (int j = 0; j < N; ++j)
 				{
-					jac(i, j) = Derivation::NDer4Partial(this->coordTransfFunc(i), j, pos);
+					jac(i, j) = this->coordTransfPartial(i, j, pos);
 				}
 
 			return jac;
@@ -131,7 +131,7 @@ namespace MML
 			for (int i = 0; i < N; i++) {
 				ret[i] = 0;
 				for (int j = 0; j < N; j++)
-					ret[i] += Derivation::NDer4Partial(this->coordTransfFunc(i), j, pos) * vec[j];
+					ret[i] += this->coordTransfPartial(i, j, pos) * vec[j];
 			}
 			return ret;
 		}
@@ -146,10 +146,24 @@ namespace MML
 			{
 				ret[i] = 0;
 				for (int j = 0; j < N; j++)
-					ret[i] += Derivation::NDer4Partial(this->coordTransfFunc(j), i, pos) * vec[j];
+					ret[i] += this->coordTransfPartial(j, i, pos) * vec[j];
 			}
 			return ret;
 		}
+
+	protected:
+		/// @brief Partial derivative of coordTransfFunc(i) by coordinate j at pos
+		/// @note Numerical. A transformation with an angle coordinate overrides it, because the angle jumps at its branch cut.
+		virtual Real coordTransfPartial(int i, int j, const VectorN<Real, N>& pos) const
+		{
+			return Derivation::NDer4Partial(this->coordTransfFunc(i), j, pos);
+		}
+		/// @brief Derivative of the polar angle atan2(y, x) by x (j = 0), by y (j = 1) or by another coordinate
+		static Real polarAnglePartial(int j, Real x, Real y)
+		{
+			const Real rho = std::hypot(x, y);
+			return j == 0 ? -y / rho / rho : j == 1 ? x / rho / rho : Real(0);
+		}
 	};
  
 	/// @brief Coordinate transformation with explicit inverse
@@ -173,7 +187,7 @@ namespace MML
 			VectorFrom ret;
 
 			for (int i = 0; i < N; i++)
-				ret[i] = Derivation::NDer4Partial(this->inverseCoordTransfFunc(ind), i, pos);
+				ret[i] = this->inverseCoordTransfPartial(ind, i, pos);
 
 			return ret;
 		}
@@ -186,7 +200,7 @@ namespace MML
 			VectorTo ret;
 
 			for (int i = 0; i < N; i++)
-				ret[i] = Derivation::NDer4Partial(this->inverseCoordTransfFunc(i), ind, pos);
+				ret[i] = this->inverseCoordTransfPartial(i, ind, pos);
 
 			return ret;
 		}
@@ -202,7 +216,7 @@ namespace MML
 			{
 				ret[i] = 0;
 				for (int j = 0; j < N; j++)
-					ret[i] += Derivation::NDer4Partial(this->inverseCoordTransfFunc(j), i, pos) * vec[j];
+					ret[i] += this->inverseCoordTransfPartial(j, i, pos) * vec[j];
 			}
 
 			return ret;
@@ -218,7 +232,7 @@ namespace MML
 			{
 				ret[i] = 0;
 				for (int j = 0; j < N; j++)
-					ret[i] += Derivation::NDer4Partial(this->inverseCoordTransfFunc(i), j, pos, PrecisionValues<Real>::DerivativeStepSize) * vec[j];
+					ret[i] += this->inverseCoordTransfPartial(i, j, pos) * vec[j];
 			}
 
 			return ret;
@@ -242,14 +256,14 @@ namespace MML
 						{
 Real coef1, coef2;
 							if (tensor.IsContravar(0))
-								coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), k, pos);
+								coef1 = this->coordTransfPartial(i, k, pos);
 							else
-								coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, posTo);
+								coef1 = this->inverseCoordTransfPartial(k, i, posTo);
 
 							if (tensor.IsContravar(1))
-								coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), l, pos);
+								coef2 = this->coordTransfPartial(j, l, pos);
 							else
-								coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), j, posTo);
+								coef2 = this->inverseCoordTransfPartial(l, j, posTo);
 
 							ret(i, j) += coef1 * coef2 * tensor(k, l);
 						}
@@ -277,19 +291,19 @@ Real coef1, coef2;
 								{
 									Real coef1, coef2, coef3;
 									if (tensor.IsContravar(0))
-										coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), l, pos);
+										coef1 = this->coordTransfPartial(i, l, pos);
 									else
-										coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), i, posTo);
+										coef1 = this->inverseCoordTransfPartial(l, i, posTo);
 
 									if (tensor.IsContravar(1))
-										coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), m, pos);
+										coef2 = this->coordTransfPartial(j, m, pos);
 									else
-										coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), j, posTo);
+										coef2 = this->inverseCoordTransfPartial(m, j, posTo);
 
 									if (tensor.IsContravar(2))
-										coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), n, pos);
+										coef3 = this->coordTransfPartial(k, n, pos);
 									else
-										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, posTo);
+										coef3 = this->inverseCoordTransfPartial(n, k, posTo);
 
 									ret.Component(i, j, k) += coef1 * coef2 * coef3 * tensor.Component(l, m, n);
 								}
@@ -319,24 +333,24 @@ Real coef1, coef2;
 										{
 											Real coef1, coef2, coef3, coef4;
 											if (tensor.IsContravar(0))
-												coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), m, pos);
+												coef1 = this->coordTransfPartial(i, m, pos);
 											else
-												coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), i, posTo);
+												coef1 = this->inverseCoordTransfPartial(m, i, posTo);
 
 											if (tensor.IsContravar(1))
-												coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), n, pos);
+												coef2 = this->coordTransfPartial(j, n, pos);
 											else
-												coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), j, posTo);
+												coef2 = this->inverseCoordTransfPartial(n, j, posTo);
 
 											if (tensor.IsContravar(2))
-												coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), o, pos);
+												coef3 = this->coordTransfPartial(k, o, pos);
 											else
-												coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), k, posTo);
+												coef3 = this->inverseCoordTransfPartial(o, k, posTo);
 
 											if (tensor.IsContravar(3))
-												coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), p, pos);
+												coef4 = this->coordTransfPartial(l, p, pos);
 											else
-												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, posTo);
+												coef4 = this->inverseCoordTransfPartial(p, l, posTo);
 
 											ret[i][j][k][l] += coef1 * coef2 * coef3 * coef4 * tensor[m][n][o][p];
 										}
@@ -368,35 +382,42 @@ Real coef1, coef2;
 												{
 														Real coef1, coef2, coef3, coef4, coef5;
 													if (tensor.IsContravar(0))
-														coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), n, pos);
+														coef1 = this->coordTransfPartial(i, n, pos);
 													else
-														coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), i, posTo);
+														coef1 = this->inverseCoordTransfPartial(n, i, posTo);
 
 													if (tensor.IsContravar(1))
-														coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), o, pos);
+														coef2 = this->coordTransfPartial(j, o, pos);
 													else
-														coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), j, posTo);
+														coef2 = this->inverseCoordTransfPartial(o, j, posTo);
 
 													if (tensor.IsContravar(2))
-														coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), p, pos);
+														coef3 = this->coordTransfPartial(k, p, pos);
 													else
-														coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), k, posTo);
+														coef3 = this->inverseCoordTransfPartial(p, k, posTo);
 
 													if (tensor.IsContravar(3))
-														coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), q, pos);
+														coef4 = this->coordTransfPartial(l, q, pos);
 													else
-														coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(q), l, posTo);
+														coef4 = this->inverseCoordTransfPartial(q, l, posTo);
 
 													if (tensor.IsContravar(4))
-												coef5 = Derivation::NDer4Partial(this->coordTransfFunc(m), r, pos);
+												coef5 = this->coordTransfPartial(m, r, pos);
 											else
-												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, posTo);
+												coef5 = this->inverseCoordTransfPartial(r, m, posTo);
 													ret[i][j][k][l][m] += coef1 * coef2 * coef3 * coef4 * coef5 * tensor[n][o][p][q][r];
 												}
 							}
 
 			return ret;
 		}
+
+	protected:
+		/// @brief Partial derivative of inverseCoordTransfFunc(i) by coordinate j at pos (see coordTransfPartial)
+		virtual Real inverseCoordTransfPartial(int i, int j, const VectorN<Real, N>& pos) const
+		{
+			return Derivation::NDer4Partial(this->inverseCoordTransfFunc(i), j, pos);
+		}
 	};
 }
 
diff --git a/mml/core/CoordTransf/CoordTransf2D.h b/mml/core/CoordTransf/CoordTransf2D.h
index 8079a30..1f4d7ff 100644
--- a/mml/core/CoordTransf/CoordTransf2D.h
+++ b/mml/core/CoordTransf/CoordTransf2D.h
@@ -78,6 +78,14 @@ namespace MML
 		/// @param i Component index (0 or 1)
 		/// @return Inverse scalar function for component i
 		const IScalarFunction<2>& inverseCoordTransfFunc(int i) const { return _funcInverse[i]; }
+
+	protected:
+		Real inverseCoordTransfPartial(int i, int j, const VectorN<Real, 2>& pos) const override
+		{
+			if (i == 1 && (pos[0] != 0 || pos[1] != 0))
+				return polarAnglePartial(j, pos[0], pos[1]);
+			return Derivation::NDer4Partial(this->inverseCoordTransfFunc(i), j, pos);
+		}
 	};
 
 	/// @brief 2D Cartesian rotation transformation
diff --git a/mml/core/CoordTransf/CoordTransfCylindrical.h b/mml/core/CoordTransf/CoordTransfCylindrical.h
index dd874b5..06cd125 100644
--- a/mml/core/CoordTransf/CoordTransfCylindrical.h
+++ b/mml/core/CoordTransf/CoordTransfCylindrical.h
@@ -85,6 +85,14 @@ namespace MML
 
 		const IScalarFunction<3>& coordTransfFunc(int i)        const { return _func[i]; }
 		const IScalarFunction<3>& inverseCoordTransfFunc(int i) const { return _funcInverse[i]; }
+
+	protected:
+		Real inverseCoordTransfPartial(int i, int j, const VectorN<Real, 3>& pos) const override
+		{
+			if (i == 1 && (pos[0] != 0 || pos[1] != 0))
+				return polarAnglePartial(j, pos[0], pos[1]);
+			return Derivation::NDer4Partial(this->inverseCoordTransfFunc(i), j, pos);
+		}
 	};
 
 	/// @brief Cartesian to cylindrical coordinate transformation
@@ -125,6 +133,14 @@ namespace MML
 
 		const IScalarFunction<3>& coordTransfFunc(int i)        const { return _func[i]; }
 		const IScalarFunction<3>& inverseCoordTransfFunc(int i) const { return _funcInverse[i]; }
+
+	protected:
+		Real coordTransfPartial(int i, int j, const VectorN<Real, 3>& pos) const override
+		{
+			if (i == 1 && (pos[0] != 0 || pos[1] != 0))
+				return polarAnglePartial(j, pos[0], pos[1]);
+			return Derivation::NDer4Partial(this->coordTransfFunc(i), j, pos);
+		}
 	};
 
 	/// @brief Global instance for Cartesian to cylindrical transformation
diff --git a/mml/core/CoordTransf/CoordTransfSpherical.h b/mml/core/CoordTransf/CoordTransfSpherical.h
index 71e778a..630892b 100644
--- a/mml/core/CoordTransf/CoordTransfSpherical.h
+++ b/mml/core/CoordTransf/CoordTransfSpherical.h
@@ -177,6 +177,14 @@ namespace MML
 			return Vector3Spherical{ REAL(0.0), REAL(0.0), REAL(0.0) };
 			}
 		}
+
+	protected:
+		Real inverseCoordTransfPartial(int i, int j, const VectorN<Real, 3>& pos) const override
+		{
+			if (i == 2 && (pos[0] != 0 || pos[1] != 0))
+				return polarAnglePartial(j, pos[0], pos[1]);
+			return Derivation::NDer4Partial(this->inverseCoordTransfFunc(i), j, pos);
+		}
 	};
 
 	/// @brief Cartesian to spherical coordinate transformation (Math/ISO 31-11 convention)
@@ -223,6 +231,14 @@ namespace MML
 
 		const IScalarFunction<3>& coordTransfFunc(int i) const { return _func[i]; }
 		const IScalarFunction<3>& inverseCoordTransfFunc(int i) const { return _funcInverse[i]; }
+
+	protected:
+		Real coordTransfPartial(int i, int j, const VectorN<Real, 3>& pos) const override
+		{
+			if (i == 2 && (pos[0] != 0 || pos[1] != 0))
+				return polarAnglePartial(j, pos[0], pos[1]);
+			return Derivation::NDer4Partial(this->coordTransfFunc(i), j, pos);
+		}
 	};
 
 	/// @brief Global instance for spherical to Cartesian transformation
-- 
2.43.0


From 28f4c5ac14ddf065ac51ca36df18623ebfb815c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 094/218] fix: polar angle of points near the axis or near the
 origin lost its accuracy

---
 mml/core/CoordTransf/CoordTransfSpherical.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/mml/core/CoordTransf/CoordTransfSpherical.h b/mml/core/CoordTransf/CoordTransfSpherical.h
index 630892b..b0f1a4e 100644
--- a/mml/core/CoordTransf/CoordTransfSpherical.h
+++ b/mml/core/CoordTransf/CoordTransfSpherical.h
@@ -81,11 +81,7 @@ namespace MML
 		/// @brief Convert Cartesian to spherical radial distance
 		static Real r(const VectorN<Real, 3>& q)		 { return sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2]); }
 		/// @brief Convert Cartesian to spherical polar angle (inclination from z-axis)
-		static Real theta(const VectorN<Real, 3>& q) {
-			Real r = sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2]);
-			if (r < std::numeric_limits<Real>::epsilon() * 100) return Real(0);
-			return acos(std::clamp(q[2] / r, Real(-1), Real(1)));
-		}
+		static Real theta(const VectorN<Real, 3>& q) { return atan2(sqrt(q[0] * q[0] + q[1] * q[1]), q[2]); }
 		/// @brief Convert Cartesian to spherical azimuthal angle
 		static Real phi(const VectorN<Real, 3>& q)	 { return atan2(q[1], q[0]); }
 
@@ -199,11 +195,7 @@ namespace MML
 		/// @brief Convert Cartesian to spherical radial distance
 		static Real r(const VectorN<Real, 3>& q) { return sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]); }
 		/// @brief Convert Cartesian to spherical polar angle
-		static Real theta(const VectorN<Real, 3>& q) {
-			Real r = sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
-			if (r < std::numeric_limits<Real>::epsilon() * 100) return Real(0);
-			return acos(std::clamp(q[2] / r, Real(-1), Real(1)));
-		}
+		static Real theta(const VectorN<Real, 3>& q) { return atan2(sqrt(q[0] * q[0] + q[1] * q[1]), q[2]); }
 		/// @brief Convert Cartesian to spherical azimuthal angle
 		static Real phi(const VectorN<Real, 3>& q) { return atan2(q[1], q[0]); }
 
-- 
2.43.0


From 965ae7e85864f42dc22e10882afe978003d1520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 095/218] fix: inverse of CoordTransf3DCartOrthogonal was wrong
 for base vectors that are not unit vectors

---
 mml/core/CoordTransf/CoordTransf3D.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index 6b3d814..e58ffb2 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -359,6 +359,10 @@ namespace MML
 			{
 				throw GeometryError("CoordTransf3DCartOrthogonal: Provided base vectors are not mutually orthogonal.");
 			}
+			if (base1.NormL2() == 0 || base2.NormL2() == 0 || base3.NormL2() == 0)
+			{
+				throw GeometryError("CoordTransf3DCartOrthogonal: Base vectors must not be zero.");
+			}
 
 			_base[0] = b1;
 			_base[1] = b2;
@@ -368,7 +372,7 @@ namespace MML
 				for (int j = 0; j < 3; j++)
 				{
 					_transf(i, j) = _base[i][j];
-					_transfInverse(i, j) = _base[j][i];
+					_transfInverse(i, j) = _base[j][i] / ScalarProduct(_base[j], _base[j]);
 				}
 			}
 		}
-- 
2.43.0


From 6277d8372fbed5ea9d81cd461976815081cc2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 096/218] fix: oblique transformation judged linear dependence
 by the length of its base vectors

---
 mml/core/CoordTransf/CoordTransf3D.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index e58ffb2..75fbc72 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -534,7 +534,8 @@ namespace MML
 			}
 			// Check for non-degeneracy
 			Real V = ScalarProduct(_base[0], VectorProduct(_base[1], _base[2]));
-			if (std::abs(V) < PrecisionValues<Real>::LinearDependenceTolerance)
+			const Real maxV = _base[0].NormL2() * _base[1].NormL2() * _base[2].NormL2();
+			if (!(std::abs(V) > PrecisionValues<Real>::LinearDependenceTolerance * maxV))
 				throw SingularMatrixError("Oblique base vectors are linearly dependent!", V);
 
 		// Compute dual basis
-- 
2.43.0


From e4dade1d927fa0a5ea5cf74b299df9d9e08729fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 097/218] fix: Lorentz transformation accepted a NaN velocity

---
 mml/core/CoordTransf/CoordTransfLorentz.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/CoordTransf/CoordTransfLorentz.h b/mml/core/CoordTransf/CoordTransfLorentz.h
index ce2a6f1..9c49225 100644
--- a/mml/core/CoordTransf/CoordTransfLorentz.h
+++ b/mml/core/CoordTransf/CoordTransfLorentz.h
@@ -56,7 +56,7 @@ namespace MML {
 				, _fInv2([this](const VectorN<Real, 4>& q) { return funcInverse2(q); })
 				, _fInv3([this](const VectorN<Real, 4>& q) { return funcInverse3(q); })
 				, _fInv4([this](const VectorN<Real, 4>& q) { return funcInverse4(q); }) {
-			if (_velocity < 0.0 || _velocity >= 1.0)
+			if (!(_velocity >= 0.0 && _velocity < 1.0))
 				throw std::range_error("Invalid velocity for Lorentz transformation: must be in [0, 1).");
 
 			Real gamma = REAL(1.0) / sqrt(REAL(1.0) - _velocity * _velocity);
-- 
2.43.0


From f86557af10f964c921b2ae8d4f4b12703aa3ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 098/218] fix: component functions of a copied coordinate
 transformation referred to the original object

---
 mml/core/CoordTransf/CoordTransf2D.h      |  9 +++++++++
 mml/core/CoordTransf/CoordTransf3D.h      | 24 +++++++++++++++++++++++
 mml/core/CoordTransf/CoordTransfLorentz.h |  3 +++
 3 files changed, 36 insertions(+)

diff --git a/mml/core/CoordTransf/CoordTransf2D.h b/mml/core/CoordTransf/CoordTransf2D.h
index 1f4d7ff..8869209 100644
--- a/mml/core/CoordTransf/CoordTransf2D.h
+++ b/mml/core/CoordTransf/CoordTransf2D.h
@@ -127,6 +127,9 @@ namespace MML
 			_inverse[1][1] = cos(_angle);
 		}
 
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransfCart2DRotation(const CoordTransfCart2DRotation& other) : CoordTransfCart2DRotation(other._angle) { }
+
 		/// @brief Apply rotation: x' = cos(?)x - sin(?)y
 		/// @param q Input Cartesian coordinates
 		/// @return x component after rotation
@@ -200,6 +203,9 @@ namespace MML
 				throw MML::ArgumentError("CoordTransfObliqueToCartesian2D: angle must not be a multiple of pi (sin(angle) ~ 0)");
 		}
 
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransfObliqueToCartesian2D(const CoordTransfObliqueToCartesian2D& other) : CoordTransfObliqueToCartesian2D(other._angle) { }
+
 		/// @brief Transform oblique x-coordinate: x = q1 + q2�cos(?)
 		/// @param q Oblique coordinates (q1, q2)
 		/// @return Cartesian x coordinate
@@ -264,6 +270,9 @@ namespace MML
 				throw MML::ArgumentError("CoordTransfCartesianToOblique2D: angle must not be a multiple of pi (sin(angle) ~ 0)");
 		}
 
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransfCartesianToOblique2D(const CoordTransfCartesianToOblique2D& other) : CoordTransfCartesianToOblique2D(other._angle) { }
+
 		/// @brief Transform y to oblique: q2 = y/sin(?)
 		/// @param q Cartesian coordinates (x, y)
 		/// @return Oblique q2 coordinate
diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index 75fbc72..3a37e07 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -60,6 +60,9 @@ namespace MML
 			_inverse[2][2] = cos(_angle);
 		}
 
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransfCart3DRotationXAxis(const CoordTransfCart3DRotationXAxis& other) : CoordTransfCart3DRotationXAxis(other._angle) { }
+
 		/// @brief X component unchanged by X-axis rotation
 		/// @param q Input Cartesian coordinates
 		/// @return x coordinate (unchanged)
@@ -132,6 +135,9 @@ namespace MML
 			_inverse[2][2] = cos(_angle);
 		}
 
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransfCart3DRotationYAxis(const CoordTransfCart3DRotationYAxis& other) : CoordTransfCart3DRotationYAxis(other._angle) { }
+
 		Real func1(const VectorN<Real, 3>& q) const { return q[0] * cos(_angle) + q[2] * sin(_angle); }
 		Real func2(const VectorN<Real, 3>& q) const { return q[1]; }
 		Real func3(const VectorN<Real, 3>& q) const { return -q[0] * sin(_angle) + q[2] * cos(_angle); }
@@ -193,6 +199,9 @@ namespace MML
 			_inverse[2][2] = 1.0;
 		}
 
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransfCart3DRotationZAxis(const CoordTransfCart3DRotationZAxis& other) : CoordTransfCart3DRotationZAxis(other._angle) { }
+
 		Real func1(const VectorN<Real, 3>& q) const { return q[0] * cos(_angle) - q[1] * sin(_angle); }
 		Real func2(const VectorN<Real, 3>& q) const { return q[0] * sin(_angle) + q[1] * cos(_angle); }
 		Real func3(const VectorN<Real, 3>& q) const { return q[2]; }
@@ -277,6 +286,9 @@ namespace MML
 				_fInverse3([this](const VectorN<Real, 3>& q) { return funcInverse3(q); })
 		{	}
 
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransfCart3DRotationEuler(const CoordTransfCart3DRotationEuler& other) : CoordTransfCart3DRotationEuler(other._alpha, other._beta, other._gamma) { }
+
 		Real func1(const VectorN<Real, 3>& q) const { return (_transf * q)[0]; }
 		Real func2(const VectorN<Real, 3>& q) const { return (_transf * q)[1]; }
 		Real func3(const VectorN<Real, 3>& q) const { return (_transf * q)[2]; }
@@ -377,6 +389,9 @@ namespace MML
 			}
 		}
 
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransf3DCartOrthogonal(const CoordTransf3DCartOrthogonal& other) : CoordTransf3DCartOrthogonal(other._base[0], other._base[1], other._base[2]) { }
+
 		MatrixNM<Real, 3, 3> getTransfMatrix() { return _transf; }
 		MatrixNM<Real, 3, 3> getInvTransfMatrix() { return _transfInverse; }
 
@@ -458,6 +473,9 @@ namespace MML
 			_transfInverse = _transf.GetInverse();
 		}
 
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransf3DCartGeneral(const CoordTransf3DCartGeneral& other) : CoordTransf3DCartGeneral(other._transf) { }
+
 		MatrixNM<Real, 3, 3> getTransfMatrix() { return _transf; }
 		MatrixNM<Real, 3, 3> getInvTransfMatrix() { return _transfInverse; }
 
@@ -546,6 +564,9 @@ namespace MML
 		// Compute inverse of base matrix for alternative transformation method
 		_baseMatInv = _baseMat.GetInverse();
 	}		/// @brief Get oblique basis vector
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransfCartesianToOblique3D(const CoordTransfCartesianToOblique3D& other) : CoordTransfCartesianToOblique3D(other._base[0], other._base[1], other._base[2]) { }
+
 		/// @param i Index (0, 1, or 2)
 		/// @return Oblique basis vector i
 		Vec3Cart    Base(int i) { return _base[i]; }
@@ -701,6 +722,9 @@ namespace MML
 		}
 
 		// Construct from Euler angles (ZYX convention: yaw, pitch, roll)
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransfCart3DRotationQuaternion(const CoordTransfCart3DRotationQuaternion& other) : CoordTransfCart3DRotationQuaternion(other._quat) { }
+
 		static CoordTransfCart3DRotationQuaternion FromEulerZYX(Real yaw, Real pitch, Real roll)
 		{
 			return CoordTransfCart3DRotationQuaternion(
diff --git a/mml/core/CoordTransf/CoordTransfLorentz.h b/mml/core/CoordTransf/CoordTransfLorentz.h
index 9c49225..d7ca354 100644
--- a/mml/core/CoordTransf/CoordTransfLorentz.h
+++ b/mml/core/CoordTransf/CoordTransfLorentz.h
@@ -77,6 +77,9 @@ namespace MML {
 			_inverse[3][3] = 1.0;
 		}
 
+		/// @brief Copy: the component functions of the copy refer to the copy, not to the original
+		CoordTransfLorentzXAxis(const CoordTransfLorentzXAxis& other) : CoordTransfLorentzXAxis(other._velocity) { }
+
 		/// @brief Forward transformation component functions (apply _transf matrix)
 		Real func1(const VectorN<Real, 4>& q) const { return (_transf * q)[0]; }
 		Real func2(const VectorN<Real, 4>& q) const { return (_transf * q)[1]; }
-- 
2.43.0


From ffe595bee97c700c7e70dec95a0dfd82d5bf14e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:14 +0000
Subject: [PATCH 099/218] fix: transformation of tensors of rank 3 to 5 did not
 compile

---
 mml/core/CoordTransf.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mml/core/CoordTransf.h b/mml/core/CoordTransf.h
index 19bc448..8acb06b 100644
--- a/mml/core/CoordTransf.h
+++ b/mml/core/CoordTransf.h
@@ -284,7 +284,7 @@ Real coef1, coef2;
 				for (int j = 0; j < N; j++)
 					for (int k = 0; k < N; k++)
 					{
-						ret.Component(i, j, k) = 0;
+						ret(i, j, k) = 0;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 								for (int n = 0; n < N; n++)
@@ -305,7 +305,7 @@ Real coef1, coef2;
 									else
 										coef3 = this->inverseCoordTransfPartial(n, k, posTo);
 
-									ret.Component(i, j, k) += coef1 * coef2 * coef3 * tensor.Component(l, m, n);
+									ret(i, j, k) += coef1 * coef2 * coef3 * tensor(l, m, n);
 								}
 					}
 
@@ -325,7 +325,7 @@ Real coef1, coef2;
 					for (int k = 0; k < N; k++)
 						for (int l = 0; l < N; l++)
 						{
-							ret[i][j][k][l] = 0;
+							ret(i, j, k, l) = 0;
 							for (int m = 0; m < N; m++)
 								for (int n = 0; n < N; n++)
 									for (int o = 0; o < N; o++)
@@ -352,7 +352,7 @@ Real coef1, coef2;
 											else
 												coef4 = this->inverseCoordTransfPartial(p, l, posTo);
 
-											ret[i][j][k][l] += coef1 * coef2 * coef3 * coef4 * tensor[m][n][o][p];
+											ret(i, j, k, l) += coef1 * coef2 * coef3 * coef4 * tensor(m, n, o, p);
 										}
 						}
 
@@ -373,7 +373,7 @@ Real coef1, coef2;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 							{
-								ret[i][j][k][l][m] = 0;
+								ret(i, j, k, l, m) = 0;
 								for (int n = 0; n < N; n++)
 									for (int o = 0; o < N; o++)
 										for (int p = 0; p < N; p++)
@@ -405,7 +405,7 @@ Real coef1, coef2;
 												coef5 = this->coordTransfPartial(m, r, pos);
 											else
 												coef5 = this->inverseCoordTransfPartial(r, m, posTo);
-													ret[i][j][k][l][m] += coef1 * coef2 * coef3 * coef4 * coef5 * tensor[n][o][p][q][r];
+													ret(i, j, k, l, m) += coef1 * coef2 * coef3 * coef4 * coef5 * tensor(n, o, p, q, r);
 												}
 							}
 
-- 
2.43.0


From 5bc3b70f87977aa46c3325d782313c490dbe1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:14 +0000
Subject: [PATCH 100/218] fix: oblique 2D transformation accepted multiples of
 pi beyond pi

---
 mml/core/CoordTransf/CoordTransf2D.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/core/CoordTransf/CoordTransf2D.h b/mml/core/CoordTransf/CoordTransf2D.h
index 8869209..3d28bb5 100644
--- a/mml/core/CoordTransf/CoordTransf2D.h
+++ b/mml/core/CoordTransf/CoordTransf2D.h
@@ -199,7 +199,7 @@ namespace MML
 			_fInverse1([this](const VectorN<Real, 2>& q) { return funcInverse1(q); }),
 			_fInverse2([this](const VectorN<Real, 2>& q) { return funcInverse2(q); })
 		{
-			if (std::abs(std::sin(inAngle)) < Constants::Eps)
+			if (std::abs(std::sin(inAngle)) < Constants::Eps * std::max(Real(1), std::abs(inAngle)))
 				throw MML::ArgumentError("CoordTransfObliqueToCartesian2D: angle must not be a multiple of pi (sin(angle) ~ 0)");
 		}
 
@@ -266,7 +266,7 @@ namespace MML
 			_fInverse1([this](const VectorN<Real, 2>& q) { return funcInverse1(q); }),
 			_fInverse2([this](const VectorN<Real, 2>& q) { return funcInverse2(q); })
 		{
-			if (std::abs(std::sin(inAngle)) < Constants::Eps)
+			if (std::abs(std::sin(inAngle)) < Constants::Eps * std::max(Real(1), std::abs(inAngle)))
 				throw MML::ArgumentError("CoordTransfCartesianToOblique2D: angle must not be a multiple of pi (sin(angle) ~ 0)");
 		}
 
-- 
2.43.0


From 0f556cbf0eaf75117cb0acc847391262327f29bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:53 +0000
Subject: [PATCH 101/218] fix: detailed field operations report evaluation
 counts that differ from the calls made

---
 mml/core/FieldOperations.h | 88 ++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 31 deletions(-)

diff --git a/mml/core/FieldOperations.h b/mml/core/FieldOperations.h
index b8cffe5..186d8b8 100644
--- a/mml/core/FieldOperations.h
+++ b/mml/core/FieldOperations.h
@@ -134,6 +134,33 @@ namespace MML
 
 	namespace FieldOperationDetail
 	{
+		/// Forwards to a scalar field and counts its evaluations
+		template<int N>
+		class CountingScalarField : public IScalarFunction<N>
+		{
+			const IScalarFunction<N>& _field;
+			int& _count;
+		public:
+			CountingScalarField(const IScalarFunction<N>& field, int& count) : _field(field), _count(count) {}
+
+			Real operator()(const VectorN<Real, N>& x) const override { ++_count; return _field(x); }
+		};
+
+		/// Forwards to a vector field and counts its evaluations
+		template<int N>
+		class CountingVectorField : public IVectorFunction<N>
+		{
+			const IVectorFunction<N>& _field;
+			int& _count;
+		public:
+			CountingVectorField(const IVectorFunction<N>& field, int& count) : _field(field), _count(count) {}
+
+			VectorN<Real, N> operator()(const VectorN<Real, N>& x) const override { ++_count; return _field(x); }
+
+		protected:
+			Real evaluateComponent(const VectorN<Real, N>& x, int component) const override { ++_count; return _field(x, component); }
+		};
+
 		/// Execute a field operation with structured result reporting.
 		///
 		/// Wraps the raw computation in timing, finiteness checking, and
@@ -200,21 +227,20 @@ namespace MML
 			                                     VectorN<Real, N>*);
 
 			DeriveFn deriveAll = nullptr;
-			int stencil = 0;
 
 			switch (order) {
-			case 1:  deriveAll = &Derivation::template NDer1PartialByAll<N>; stencil = 2; break;
-			case 2:  deriveAll = &Derivation::template NDer2PartialByAll<N>; stencil = 3; break;
+			case 1:  deriveAll = &Derivation::template NDer1PartialByAll<N>; break;
+			case 2:  deriveAll = &Derivation::template NDer2PartialByAll<N>; break;
 			case 0:  // fall through to default (NDer4)
-			case 4:  deriveAll = &Derivation::template NDer4PartialByAll<N>; stencil = 5; break;
-			case 6:  deriveAll = &Derivation::template NDer6PartialByAll<N>; stencil = 7; break;
-			case 8:  deriveAll = &Derivation::template NDer8PartialByAll<N>; stencil = 9; break;
+			case 4:  deriveAll = &Derivation::template NDer4PartialByAll<N>; break;
+			case 6:  deriveAll = &Derivation::template NDer6PartialByAll<N>; break;
+			case 8:  deriveAll = &Derivation::template NDer8PartialByAll<N>; break;
 			default:
 				throw std::invalid_argument("FieldOperation: derivative_order must be 0, 1, 2, 4, 6, or 8");
 			}
 
-			func_evals = N * (want_error ? stencil + 1 : stencil);
-			return deriveAll(f, pos, want_error ? error : nullptr);
+			CountingScalarField<N> counted(f, func_evals);
+			return deriveAll(counted, pos, want_error ? error : nullptr);
 		}
 	} // namespace FieldOperationDetail
 
@@ -600,11 +626,12 @@ namespace MML
 			return FieldOperationDetail::ExecuteFieldDetailed<ResultType>(
 				"LaplacianCart", config,
 				[&](ResultType& result, int& func_evals) {
+					FieldOperationDetail::CountingScalarField<N> field(scalarField, func_evals);
 					Real lapl = 0.0;
 					Real total_error = 0.0;
 					for (int i = 0; i < N; i++) {
 						Real err = 0.0;
-						lapl += Derivation::DeriveSecPartial<N>(scalarField, i, i, pos,
+						lapl += Derivation::DeriveSecPartial<N>(field, i, i, pos,
 						                                        config.estimate_error ? &err : nullptr);
 						if (config.estimate_error)
 							total_error += std::abs(err);
@@ -612,7 +639,6 @@ namespace MML
 					result.value = lapl;
 					if (config.estimate_error)
 						result.error = total_error;
-					func_evals = N * 3; // second derivative uses ~3 evaluations per dimension
 				});
 		}
 
@@ -713,8 +739,8 @@ namespace MML
 			return FieldOperationDetail::ExecuteFieldDetailed<ResultType>(
 				"LaplacianSpher", config,
 				[&](ResultType& result, int& func_evals) {
-					result.value = LaplacianSpher(scalarField, pos, policy);
-					func_evals = 7; // 2 first partials + 3 second partials + field evals
+					FieldOperationDetail::CountingScalarField<3> field(scalarField, func_evals);
+					result.value = LaplacianSpher(field, pos, policy);
 				});
 		}
 
@@ -734,8 +760,8 @@ namespace MML
 			return FieldOperationDetail::ExecuteFieldDetailed<ResultType>(
 				"LaplacianCyl", config,
 				[&](ResultType& result, int& func_evals) {
-					result.value = LaplacianCyl(scalarField, pos, policy);
-					func_evals = 5; // 1 first partial + 3 second partials
+					FieldOperationDetail::CountingScalarField<3> field(scalarField, func_evals);
+					result.value = LaplacianCyl(field, pos, policy);
 				});
 		}
 	};
@@ -897,11 +923,12 @@ namespace MML
 			return FieldOperationDetail::ExecuteFieldDetailed<ResultType>(
 				"DivCart", config,
 				[&](ResultType& result, int& func_evals) {
+					FieldOperationDetail::CountingVectorField<N> field(vectorField, func_evals);
 					Real div = 0.0;
 					Real total_error = 0.0;
 					for (int i = 0; i < N; i++) {
 						Real err = 0.0;
-						div += Derivation::DeriveVecPartial<N>(vectorField, i, i, pos,
+						div += Derivation::DeriveVecPartial<N>(field, i, i, pos,
 						                                       config.estimate_error ? &err : nullptr);
 						if (config.estimate_error)
 							total_error += std::abs(err);
@@ -909,7 +936,6 @@ namespace MML
 					result.value = div;
 					if (config.estimate_error)
 						result.error = total_error;
-					func_evals = N * 5; // NDer4 default: ~5 evaluations per component
 				});
 		}
 
@@ -972,8 +998,8 @@ namespace MML
 			return FieldOperationDetail::ExecuteFieldDetailed<ResultType>(
 				"DivSpher", config,
 				[&](ResultType& result, int& func_evals) {
-					result.value = DivSpher(vectorField, pos, policy);
-					func_evals = 3 * 5 + 1; // 3 partial derivs + 1 function eval
+					FieldOperationDetail::CountingVectorField<3> field(vectorField, func_evals);
+					result.value = DivSpher(field, pos, policy);
 				});
 		}
 
@@ -1034,8 +1060,8 @@ namespace MML
 			return FieldOperationDetail::ExecuteFieldDetailed<ResultType>(
 				"DivCyl", config,
 				[&](ResultType& result, int& func_evals) {
-					result.value = DivCyl(vectorField, pos, policy);
-					func_evals = 3 * 5 + 1; // 3 partial derivs + 1 function eval
+					FieldOperationDetail::CountingVectorField<3> field(vectorField, func_evals);
+					result.value = DivCyl(field, pos, policy);
 				});
 		}
 
@@ -1100,22 +1126,23 @@ namespace MML
 			return FieldOperationDetail::ExecuteFieldDetailed<ResultType>(
 				"CurlCart", config,
 				[&](ResultType& result, int& func_evals) {
+					FieldOperationDetail::CountingVectorField<3> field(vectorField, func_evals);
 					Real e_dzdy = 0, e_dydz = 0, e_dxdz = 0, e_dzdx = 0, e_dydx = 0, e_dxdy = 0;
 					Real* ep = config.estimate_error ? &e_dzdy : nullptr;
 
-					Real dzdy = Derivation::DeriveVecPartial<3>(vectorField, 2, 1, pos, ep);
+					Real dzdy = Derivation::DeriveVecPartial<3>(field, 2, 1, pos, ep);
 					ep = config.estimate_error ? &e_dydz : nullptr;
-					Real dydz = Derivation::DeriveVecPartial<3>(vectorField, 1, 2, pos, ep);
+					Real dydz = Derivation::DeriveVecPartial<3>(field, 1, 2, pos, ep);
 
 					ep = config.estimate_error ? &e_dxdz : nullptr;
-					Real dxdz = Derivation::DeriveVecPartial<3>(vectorField, 0, 2, pos, ep);
+					Real dxdz = Derivation::DeriveVecPartial<3>(field, 0, 2, pos, ep);
 					ep = config.estimate_error ? &e_dzdx : nullptr;
-					Real dzdx = Derivation::DeriveVecPartial<3>(vectorField, 2, 0, pos, ep);
+					Real dzdx = Derivation::DeriveVecPartial<3>(field, 2, 0, pos, ep);
 
 					ep = config.estimate_error ? &e_dydx : nullptr;
-					Real dydx = Derivation::DeriveVecPartial<3>(vectorField, 1, 0, pos, ep);
+					Real dydx = Derivation::DeriveVecPartial<3>(field, 1, 0, pos, ep);
 					ep = config.estimate_error ? &e_dxdy : nullptr;
-					Real dxdy = Derivation::DeriveVecPartial<3>(vectorField, 0, 1, pos, ep);
+					Real dxdy = Derivation::DeriveVecPartial<3>(field, 0, 1, pos, ep);
 
 					result.value = Vec3Cart{dzdy - dydz, dxdz - dzdx, dydx - dxdy};
 					if (config.estimate_error) {
@@ -1125,7 +1152,6 @@ namespace MML
 							std::abs(e_dydx) + std::abs(e_dxdy)
 						};
 					}
-					func_evals = 6 * 5; // 6 partial derivatives, ~5 evals each (NDer4)
 				});
 		}
 
@@ -1197,8 +1223,8 @@ namespace MML
 			return FieldOperationDetail::ExecuteFieldDetailed<ResultType>(
 				"CurlSpher", config,
 				[&](ResultType& result, int& func_evals) {
-					result.value = CurlSpher(vectorField, pos, policy);
-					func_evals = 6 * 5 + 1; // 6 partial derivs + 1 function eval
+					FieldOperationDetail::CountingVectorField<3> field(vectorField, func_evals);
+					result.value = CurlSpher(field, pos, policy);
 				});
 		}
 
@@ -1268,8 +1294,8 @@ namespace MML
 			return FieldOperationDetail::ExecuteFieldDetailed<ResultType>(
 				"CurlCyl", config,
 				[&](ResultType& result, int& func_evals) {
-					result.value = CurlCyl(vectorField, pos, policy);
-					func_evals = 6 * 5 + 1; // 6 partial derivs + 1 function eval
+					FieldOperationDetail::CountingVectorField<3> field(vectorField, func_evals);
+					result.value = CurlCyl(field, pos, policy);
 				});
 		}
 	};
-- 
2.43.0


From c700d2c74982b10776719ce949aae12ee27392c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:12 +0000
Subject: [PATCH 102/218] fix: raising or lowering an index of a rank-2 tensor
 records the wrong variance

---
 mml/core/MetricTensor.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mml/core/MetricTensor.h b/mml/core/MetricTensor.h
index c3a0005..ba2ffb3 100644
--- a/mml/core/MetricTensor.h
+++ b/mml/core/MetricTensor.h
@@ -142,7 +142,8 @@ namespace MML
 		Tensor2<N> RaiseIndex(const Tensor2<N>& t, int index_to_raise, const VectorN<Real, N>& pos) const
 		{
 			MatrixNM<Real, N, N> g_inv = GetContravariantMetric(pos);
-			Tensor2<N> result(1, 1);  // one covariant, one contravariant
+			Tensor2<N> result(t);
+			result.setContravar(index_to_raise == 0 ? 0 : 1, true);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++) {
@@ -166,7 +167,8 @@ namespace MML
 		Tensor2<N> LowerIndex(const Tensor2<N>& t, int index_to_lower, const VectorN<Real, N>& pos) const
 		{
 			MatrixNM<Real, N, N> g = GetCovariantMetric(pos);
-			Tensor2<N> result(1, 1);  // one covariant, one contravariant
+			Tensor2<N> result(t);
+			result.setContravar(index_to_lower == 0 ? 0 : 1, false);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++) {
-- 
2.43.0


From 6a5985cdf24b5cd8d19decbc31a9634b27abd17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:12 +0000
Subject: [PATCH 103/218] fix: copied reference frames share children and leave
 dangling parent and child links

---
 mml/core/CoordSystem.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mml/core/CoordSystem.h b/mml/core/CoordSystem.h
index f111182..83c1922 100644
--- a/mml/core/CoordSystem.h
+++ b/mml/core/CoordSystem.h
@@ -93,6 +93,18 @@ namespace MML
 			SetParentFrame(parentFrame);
 		}
 
+		/// @brief A copy joins the same parent; the children stay with the original
+		ReferenceFrame3D(const ReferenceFrame3D& other)
+		{
+			SetParentFrame(other._parentFrame);
+		}
+		ReferenceFrame3D& operator=(const ReferenceFrame3D& other)
+		{
+			if (this != &other)
+				SetParentFrame(other._parentFrame);
+			return *this;
+		}
+
 		/// @brief Virtual destructor - detaches from parent and orphans children
 		/// 
 		/// Lifetime model: Non-owning raw pointers. Parent does not own children.
-- 
2.43.0


From 7c840907e0578417d9288d5c2372f9c683d2d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:12 +0000
Subject: [PATCH 104/218] fix: circular orbits ignore their inclination and
 leave speed and axis unset

---
 mml/core/CoordSystem.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mml/core/CoordSystem.h b/mml/core/CoordSystem.h
index 83c1922..44e6ccb 100644
--- a/mml/core/CoordSystem.h
+++ b/mml/core/CoordSystem.h
@@ -283,6 +283,11 @@ namespace MML
 	/// The frame itself maintains fixed orientation (no rotation relative to parent).
 	class CircleOrbitingFrame3DCartesian : public NonInertialFrame3D
 	{
+		void SetOrbit(Real inclination)
+		{
+			_speed = 2 * Constants::PI * _radius / _period;
+			_axis = Vector3Cartesian({ 0, -std::sin(inclination), std::cos(inclination) });
+		}
 	public:
 		Real _radius;          ///< Orbital radius from parent origin
 		Real _speed;           ///< Orbital speed (calculated from period)
@@ -300,6 +305,7 @@ namespace MML
 			// _speed = speed; // izracunati
 			_period = period;
 			_angle_at_t0 = 0;
+			SetOrbit(0);
 		}
 		/// @brief Constructor with initial angle
 		/// @param parentFrame Parent reference frame
@@ -311,19 +317,20 @@ namespace MML
 			_radius = radius;
 			_period = period;
 			_angle_at_t0 = angle_at_t0;
+			SetOrbit(0);
 		}
 		/// @brief Constructor with orbital inclination
 		/// @param parentFrame Parent reference frame
 		/// @param radius Orbital radius
 		/// @param period Orbital period
-		/// @param orbit_inclination Inclination of orbital plane
+		/// @param orbit_inclination Inclination of orbital plane to the XY plane, about the x axis (in radians)
 		/// @param angle_at_t0 Initial angle at t=0
 		CircleOrbitingFrame3DCartesian(ReferenceFrame3D* parentFrame, Real radius, Real period, Real orbit_inclination, Real angle_at_t0) : NonInertialFrame3D(parentFrame)
 		{
 			_radius = radius;
 			_period = period;
 			_angle_at_t0 = angle_at_t0;
-			// calc axis based on inclination
+			SetOrbit(orbit_inclination);
 		}
 
 		/// @brief Get orbital position at time t
@@ -332,8 +339,8 @@ namespace MML
 		virtual Vector3Cartesian GetOriginPositionAtTime(Real t) const override
 		{
 			Real angle = _angle_at_t0 + 2 * Constants::PI * t / _period;
-			// in z-plane!
-			Vector3Cartesian CM_pos({ _radius * cos(angle), _radius * sin(angle), 0 });
+			// the orbital plane is spanned by the x axis and its perpendicular, axis x e_x
+			Vector3Cartesian CM_pos({ _radius * cos(angle), _radius * sin(angle) * _axis.Z(), -_radius * sin(angle) * _axis.Y() });
 
 			return CM_pos;
 		}
-- 
2.43.0


From d0189ae8755d51cdb3131d53ff79c7c54abb952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:12 +0000
Subject: [PATCH 105/218] fix: local frame on a rotating sphere converts
 northward distance for Earth whatever the radius

---
 mml/core/CoordSystem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/core/CoordSystem.h b/mml/core/CoordSystem.h
index 44e6ccb..2fccfa5 100644
--- a/mml/core/CoordSystem.h
+++ b/mml/core/CoordSystem.h
@@ -534,7 +534,8 @@ namespace MML
 			// ukljuceno je u parent kalkulacije, i ovdje samo vracamo transf lokalnih (x, y, z) u (lat, long, h)
 			Vector3Cartesian pos(localPos);
 
-			double one_km_in_lat_deg = 1 / 111.32;
+			double one_lat_deg_in_km = 2 * _parentFrame._radius * Constants::PI / 360;
+			double one_km_in_lat_deg = 1 / one_lat_deg_in_km;
 			double one_lon_deg_in_km = 2 * _parentFrame._radius * cos(Utils::DegToRad(_latitude)) * Constants::PI / 360;
 			double one_km_in_long_deg = 1 / one_lon_deg_in_km;
 
-- 
2.43.0


From e7cf0b4a76e9248e76ba56de0fb5f926716a1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:09 +0000
Subject: [PATCH 106/218] fix: solution containers return unused capacity as
 data and write past the end at far indices

---
 mml/base/ODESystemSolution.h | 50 +++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 2c28b46..976c9dc 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -36,10 +36,10 @@ namespace MML
 		Vector<Real> _tval;
 		Matrix<Real> _xval;
 	
-		/// @brief Extend storage capacity using exponential growth (1.5x)
-		void ExtendSavedSteps()
+		/// @brief Extend storage capacity using exponential growth (1.5x), at least to hold the given index
+		void ExtendSavedSteps(int ind)
 		{
-			_totalSavedSteps = static_cast<int>(_totalSavedSteps * 1.5) + 1;
+			_totalSavedSteps = std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1);
 			
 			// resizing the storage while preserving old values
 			_tval.Resize(_totalSavedSteps, true);
@@ -105,9 +105,22 @@ namespace MML
 		}
 
 		/// @brief Get all time points as vector
-		Vector<Real> getTValues() const { return _tval; }
+		Vector<Real> getTValues() const
+		{
+			Vector<Real> res(_count);
+			for (int i = 0; i < _count; i++)
+				res[i] = _tval[i];
+			return res;
+		}
 		/// @brief Get all state vectors as matrix (dim x numPoints)
-		Matrix<Real> getXValues() const { return _xval; }
+		Matrix<Real> getXValues() const
+		{
+			Matrix<Real> res(_sysDim, _count);
+			for (int i = 0; i < _sysDim; i++)
+				for (int j = 0; j < _count; j++)
+					res[i][j] = _xval[i][j];
+			return res;
+		}
 		
 		/// @brief Get t-value at a specific saved point
 		/// @param ind Index of saved point
@@ -138,7 +151,10 @@ namespace MML
 			if (component < 0 || component >= _sysDim)
 				throw IndexError("Component out of range in ODESystemSolution::getXValues(component)");
 			
-			return _xval.VectorFromRow(component); 
+			Vector<Real> res(_count);
+			for (int i = 0; i < _count; i++)
+				res[i] = _xval[component][i];
+			return res;
 		}
 
 		/// @brief Get state vector at final saved point
@@ -163,7 +179,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in ODESystemSolution::setTVal");
 			
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_tval[ind] = x;
 			if (ind + 1 > _count) _count = ind + 1;
@@ -182,7 +198,7 @@ namespace MML
 				throw IndexError("Component index out of range in ODESystemSolution::setXVal(component)");
 
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_xval[component][ind] = x;
 			if (ind + 1 > _count) _count = ind + 1;
@@ -203,7 +219,7 @@ namespace MML
 				throw ArgumentError("Vector size mismatch in ODESystemSolution::fillValues");
 
 			if(ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_tval[ind] = x;
 			for (int i = 0; i < _sysDim; i++)
@@ -227,8 +243,8 @@ namespace MML
 		/// @return Linear interpolation function
 		LinearInterpRealFunc  getSolAsLinInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _xval.VectorFromRow(component);
+			Vector<Real> xsave = getTValues();
+			Vector<Real> ysave = getXValues(component);
 
 			return LinearInterpRealFunc(xsave, ysave);
 		}
@@ -239,8 +255,8 @@ namespace MML
 		/// @return Polynomial interpolation function
 		PolynomInterpRealFunc getSolAsPolyInterp(int component, int polyOrder) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _xval.VectorFromRow(component);
+			Vector<Real> xsave = getTValues();
+			Vector<Real> ysave = getXValues(component);
 			return PolynomInterpRealFunc(xsave, ysave, polyOrder + 1);
 		}
 		
@@ -249,8 +265,8 @@ namespace MML
 		/// @return Cubic spline interpolation function
 		SplineInterpRealFunc  getSolAsSplineInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _xval.VectorFromRow(component);
+			Vector<Real> xsave = getTValues();
+			Vector<Real> ysave = getXValues(component);
 			return SplineInterpRealFunc(xsave, ysave);
 		}
 
@@ -260,6 +276,8 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 2D
 		SplineInterpParametricCurve<2> getSolAsParamCurve2D(int ind1, int ind2) const
 		{
+			if (ind1 < 0 || ind1 >= _sysDim || ind2 < 0 || ind2 >= _sysDim)
+				throw IndexError("Component out of range in ODESystemSolution::getSolAsParamCurve2D");
 			Matrix<Real> curve_points(_count, 2);
 			for (int i = 0; i < _count; i++)
 			{
@@ -276,6 +294,8 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 3D
 		SplineInterpParametricCurve<3> getSolAsParamCurve3D(int ind1, int ind2, int ind3) const
 		{
+			if (ind1 < 0 || ind1 >= _sysDim || ind2 < 0 || ind2 >= _sysDim || ind3 < 0 || ind3 >= _sysDim)
+				throw IndexError("Component out of range in ODESystemSolution::getSolAsParamCurve3D");
 			Matrix<Real> curve_points(_count, 3);
 			for (int i = 0; i < _count; i++)
 			{
-- 
2.43.0


From 72cfdd0ad31bcbdfe0e08232ebe92a5fddf6e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:09 +0000
Subject: [PATCH 107/218] fix: Dormand-Prince 8(7) stepper reuses its last
 stage as the derivative at the new point, which it is not

---
 mml/algorithms/ODESolvers/ODERKCoefficients.h |  2 +-
 mml/algorithms/ODESolvers/ODESteppers.h       | 30 ++++++++-----------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODERKCoefficients.h b/mml/algorithms/ODESolvers/ODERKCoefficients.h
index a55a683..717b95d 100644
--- a/mml/algorithms/ODESolvers/ODERKCoefficients.h
+++ b/mml/algorithms/ODESolvers/ODERKCoefficients.h
@@ -190,7 +190,7 @@ namespace RKCoeff {
 		static constexpr int stages = 13;
 		static constexpr int order = 8;
 		static constexpr int error_order = 7;
-		static constexpr bool fsal = true;
+		static constexpr bool fsal = false;
 
 		// Time nodes (c coefficients)
 		static constexpr Real c[13] = {
diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 5d3a8d3..b9a4469 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -523,7 +523,7 @@ namespace MML {
 	/// High-order method for problems requiring very high accuracy.
 	/// Features:
 	/// - 8th order accurate solution with 7th order error estimate
-	/// - 13 stages (FSAL optimization applies)
+	/// - 13 stages, plus the derivative at the new point
 	/// - Excellent for smooth problems, astronomical trajectories
 	/// - Higher cost per step but much larger accurate step sizes
 	class DormandPrince8_Stepper : public IAdaptiveStepper {
@@ -540,7 +540,7 @@ namespace MML {
 		Real _hDone;
 		Vector<Real> _xOld;
 		bool _stepReady;
-		bool _haveFSAL;
+		Vector<Real> _dxNew; // Post-step derivative for Hermite interpolation
 		Real _errOld;
 
 		// Dormand-Prince 8(7) coefficients from centralized header
@@ -576,13 +576,13 @@ namespace MML {
 			, _tOld(0)
 			, _hDone(0)
 			, _stepReady(false)
-			, _haveFSAL(false)
 			, _errOld(1.0) {
 			_k.resize(NSTAGES);
 			for (int i = 0; i < NSTAGES; ++i)
 				_k[i].Resize(_n);
 			_xNew.Resize(_n);
 			_xOld.Resize(_n);
+			_dxNew.Resize(_n);
 		}
 
 		StepResult doStep(Real t, Vector<Real>& x, Vector<Real>& dxdt, Real htry, Real eps) override {
@@ -593,12 +593,7 @@ namespace MML {
 			Real h = htry;
 
 			while (true) {
-				// Use FSAL if available
-				if (_haveFSAL) {
-					_k[0] = _k[12];
-				} else {
-					_k[0] = dxdt;
-				}
+				_k[0] = dxdt;
 
 				// Stage 2
 				for (int i = 0; i < _n; i++)
@@ -655,12 +650,12 @@ namespace MML {
 					_xNew[i] = x[i] + h * (a12[0] * _k[0][i] + a12[3] * _k[3][i] + a12[4] * _k[4][i] + a12[5] * _k[5][i] + a12[6] * _k[6][i] + a12[7] * _k[7][i] + a12[8] * _k[8][i] + a12[9] * _k[9][i] + a12[10] * _k[10][i]);
 				_sys.derivs(t + c[11] * h, _xNew, _k[11]);
 
-				// Stage 13 (final, also FSAL)
+				// Stage 13 (evaluated at t + h, but not at the new solution: the pair is not FSAL)
 				for (int i = 0; i < _n; i++)
 					_xNew[i] = x[i] + h * (a13[0] * _k[0][i] + a13[3] * _k[3][i] + a13[4] * _k[4][i] + a13[5] * _k[5][i] + a13[6] * _k[6][i] + a13[7] * _k[7][i] + a13[8] * _k[8][i] + a13[9] * _k[9][i] + a13[10] * _k[10][i]);
 				_sys.derivs(t + c[12] * h, _xNew, _k[12]);
 
-				result.funcEvals = 13;
+				result.funcEvals += 12;
 
 				// 8th order solution
 				for (int i = 0; i < _n; i++) {
@@ -694,8 +689,9 @@ namespace MML {
 
 					// Update state
 					x = _xNew;
-					dxdt = _k[12];
-					_haveFSAL = true;
+					_sys.derivs(t + h, x, dxdt);
+					_dxNew = dxdt;
+					result.funcEvals++;
 
 					// Step size control for next step
 					Real factor = SAFETY * std::pow(errMax, -ALPHA);
@@ -710,7 +706,6 @@ namespace MML {
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
 				h *= factor;
-				_haveFSAL = false;
 
 				if (std::abs(h) < Constants::Eps)
 					throw ODESolverError("Step size underflow in DormandPrince8_Stepper");
@@ -737,23 +732,22 @@ namespace MML {
 
 			for (int i = 0; i < _n; i++) {
 				Real hf0 = _hDone * _k[0][i];
-				Real hf1 = _hDone * _k[12][i];
+				Real hf1 = _hDone * _dxNew[i];
 				result[i] = h00 * _xOld[i] + h10 * hf0 + h01 * _xNew[i] + h11 * hf1;
 			}
 
 			return result;
 		}
 
-		bool isFSAL() const override { return true; }
+		bool isFSAL() const override { return false; }
 
-		const Vector<Real>& getFinalDeriv() const override { return _k[12]; }
+		const Vector<Real>& getFinalDeriv() const override { return _dxNew; }
 
 		int stageCount() const override { return NSTAGES; }
 
 		int order() const override { return 8; }
 
 		void resetFSAL() override {
-			_haveFSAL = false;
 			_stepReady = false;
 			_errOld = 1.0;
 		}
-- 
2.43.0


From c7cccd50b8cc05f8c2d8c4fa8851e5818416bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:39 +0000
Subject: [PATCH 108/218] fix: adaptive steppers accept steps whose error is
 not a number and miscount evaluations and rejected steps

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h |  3 ++
 .../ODESolvers/ODESolverEventDetection.h      |  2 ++
 mml/algorithms/ODESolvers/ODESteppers.h       | 31 +++++++++++++------
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index ddf0f42..7c3ed4c 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -128,6 +128,7 @@ namespace MML {
 			} else {
 				rejectedSteps++;
 			}
+			rejectedSteps += result.rejected;
 			totalFuncEvals += result.funcEvals;
 		}
 
@@ -240,6 +241,7 @@ namespace MML {
 			// Initial step size
 			Real h = (h0 > 0) ? h0 : estimateInitialStep(t0, x0, tEnd, eps);
 			h = std::min(h, tEnd - t0);
+			_stats.totalFuncEvals += (h0 > 0) ? 1 : 3;
 
 			// Store initial point
 			Real tNextOutput = t0;
@@ -318,6 +320,7 @@ namespace MML {
 			_sys.derivs(t, x, dxdt);
 
 			Real h = (h0 > 0) ? h0 : estimateInitialStep(t0, x0, tEnd, eps);
+			_stats.totalFuncEvals += (h0 > 0) ? 1 : 3;
 
 			// Store initial point
 			int outputIdx = 0;
diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index ee5d0d8..b7bc8ac 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -109,6 +109,7 @@ namespace MML {
 			// Initial step size
 			Real h = (h0 > 0) ? h0 : this->estimateInitialStep(t0, x0, tEnd, eps);
 			h = std::min(h, tEnd - t0);
+			this->_stats.totalFuncEvals += (h0 > 0) ? 1 : 3;
 
 			// Output management
 			Real tNextOutput = t0;
@@ -247,6 +248,7 @@ namespace MML {
 
 							// Re-estimate step size
 							h = this->estimateInitialStep(t, x, tEnd, eps);
+							this->_stats.totalFuncEvals += 3;
 							h = std::min(h, tEnd - t);
 							continue; // Skip normal update
 						}
diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index b9a4469..c061e24 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -32,6 +32,7 @@ namespace MML {
 		// === Error Information ===
 		Real errMax = 0.0;	   ///< Maximum error ratio (for diagnostics)
 		int funcEvals = 0;	   ///< Number of function evaluations used
+		int rejected = 0;	   ///< Number of step sizes tried and rejected within this call
 
 		// === Diagnostics (for single-step analysis) ===
 		AlgorithmStatus status = AlgorithmStatus::Success;  ///< Step status
@@ -182,7 +183,6 @@ namespace MML {
 					_k1 = _k7; // Reuse last stage
 				} else {
 					_k1 = dxdt;
-					result.funcEvals++;
 				}
 
 				// Stage 2
@@ -228,7 +228,9 @@ namespace MML {
 				for (int i = 0; i < _n; i++) {
 					Real err = h * (e1 * _k1[i] + e3 * _k3[i] + e4 * _k4[i] + e5 * _k5[i] + e6 * _k6[i] + e7 * _k7[i]);
 					Real scale = std::abs(x[i]) + std::abs(h * _k1[i]) + Precision::DivisionSafetyThreshold; // Avoid division by zero
-					errMax = std::max(errMax, std::abs(err) / scale);
+					Real ratio = std::abs(err) / scale;
+					if (!(ratio <= errMax))	// also keeps NaN, so that the step is rejected
+						errMax = ratio;
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -261,6 +263,7 @@ namespace MML {
 				// Step rejected - reduce h and try again
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
+				result.rejected++;
 				h *= factor;
 				_haveFSAL = false;
 
@@ -424,7 +427,7 @@ namespace MML {
 					_xtemp[i] = x[i] + h * (b61 * _k1[i] + b62 * _k2[i] + b63 * _k3[i] + b64 * _k4[i] + b65 * _k5[i]);
 				_sys.derivs(t + a6 * h, _xtemp, _k6);
 
-				result.funcEvals = 6;
+				result.funcEvals += 5;
 
 				// 5th order solution
 				for (int i = 0; i < _n; i++)
@@ -435,7 +438,9 @@ namespace MML {
 				for (int i = 0; i < _n; i++) {
 					Real err = h * (dc1 * _k1[i] + dc3 * _k3[i] + dc4 * _k4[i] + dc5 * _k5[i] + dc6 * _k6[i]);
 					Real scale = std::abs(x[i]) + std::abs(h * dxdt[i]) + Precision::DivisionSafetyThreshold;
-					errMax = std::max(errMax, std::abs(err) / scale);
+					Real ratio = std::abs(err) / scale;
+					if (!(ratio <= errMax))	// also keeps NaN, so that the step is rejected
+						errMax = ratio;
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -467,7 +472,8 @@ namespace MML {
 
 				// Reduce step size
 				Real htemp = SAFETY * h * std::pow(errMax, PSHRINK);
-				h = (h >= 0) ? std::max<Real>(htemp, Real(0.1) * h) : std::min<Real>(htemp, Real(0.1) * h);
+				h = (h >= 0) ? std::max<Real>(Real(0.1) * h, htemp) : std::min<Real>(Real(0.1) * h, htemp);
+				result.rejected++;
 
 				if (std::abs(h) < Constants::Eps)
 					throw ODESolverError("Step size underflow in CashKarp_Stepper");
@@ -672,7 +678,9 @@ namespace MML {
 						err += (b8[j] - b7[j]) * _k[j][i];
 					err *= h;
 					Real scale = std::abs(x[i]) + std::abs(h * _k[0][i]) + Precision::DivisionSafetyThreshold;
-					errMax = std::max(errMax, std::abs(err) / scale);
+					Real ratio = std::abs(err) / scale;
+					if (!(ratio <= errMax))	// also keeps NaN, so that the step is rejected
+						errMax = ratio;
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -705,6 +713,7 @@ namespace MML {
 				// Reduce step size
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
+				result.rejected++;
 				h *= factor;
 
 				if (std::abs(h) < Constants::Eps)
@@ -880,7 +889,7 @@ namespace MML {
 		StepResult doStep(Real t, Vector<Real>& x, Vector<Real>& dxdt, Real htry, Real eps) override {
 			StepResult result;
 			result.accepted = false;
-			result.funcEvals = 1; // We already have dxdt
+			result.funcEvals = 0; // We already have dxdt
 
 			_tOld = t;
 			_xOld = x;
@@ -908,7 +917,8 @@ namespace MML {
 					for (int i = 0; i < _n; ++i) {
 						Real scale = eps * (std::abs(ysav[i]) + std::abs(yest[i]) + Precision::DivisionSafetyThreshold);
 						Real errRatio = std::abs(yerr[i]) / scale;
-						errMax = std::max<Real>(errMax, errRatio);
+						if (!(errRatio <= errMax))	// also keeps NaN, so that the step is rejected
+							errMax = errRatio;
 					}
 
 					result.errMax = errMax;
@@ -1107,7 +1117,7 @@ namespace MML {
 		StepResult doStep(Real t, Vector<Real>& x, Vector<Real>& dxdt, Real htry, Real eps) override {
 			StepResult result;
 			result.accepted = false;
-			result.funcEvals = 1; // We already have dxdt
+			result.funcEvals = 0; // We already have dxdt
 
 			_tOld = t;
 			_xOld = x;
@@ -1135,7 +1145,8 @@ namespace MML {
 					for (int i = 0; i < _n; ++i) {
 						Real scale = eps * (std::abs(ysav[i]) + std::abs(yest[i]) + Precision::DivisionSafetyThreshold);
 						Real errRatio = std::abs(yerr[i]) / scale;
-						errMax = std::max<Real>(errMax, errRatio);
+						if (!(errRatio <= errMax))	// also keeps NaN, so that the step is rejected
+							errMax = errRatio;
 					}
 
 					result.errMax = errMax;
-- 
2.43.0


From 8dbbed7a2a2c2b2193b4db9066d9c15eb92bd194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:39 +0000
Subject: [PATCH 109/218] fix: adaptive integration leaves out or repeats
 output points, ignores step limits and hides reaching the maximum of steps

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 65 +++++++++++++------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index 7c3ed4c..807d2a1 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -214,6 +214,22 @@ namespace MML {
 			return std::min({100 * h0, h1, std::abs(tEnd - t0)});
 		}
 
+	protected:
+		/// Number of output points for a span: t0, then every outputInterval, and tEnd
+		static int countOutputPoints(Real t0, Real tEnd, Real outputInterval) {
+			if (!(outputInterval > 0) || !(tEnd >= t0) || !std::isfinite(tEnd - t0))
+				throw ODESolverError("Adaptive integration needs tEnd >= t0 and a positive output interval");
+			Real ratio = (tEnd - t0) / outputInterval;
+			// a ratio that is whole up to rounding does not leave a sliver of an interval at the end
+			return static_cast<int>(std::ceil(ratio - Real(1e-9) * std::max<Real>(Real(1), ratio))) + 1;
+		}
+
+		/// Time of an output point
+		static Real outputTime(int idx, int numOutputPoints, Real t0, Real tEnd, Real outputInterval) {
+			return idx == numOutputPoints - 1 ? tEnd : t0 + idx * outputInterval;
+		}
+
+	public:
 		/// @brief Integrate ODE system with dense output at fixed intervals
 		/// @param x0 Initial conditions
 		/// @param t0 Initial time
@@ -222,10 +238,14 @@ namespace MML {
 		/// @param eps Error tolerance (default 1e-10)
 		/// @param h0 Initial step size (0 = auto-estimate)
 		/// @param minStepSize Minimum allowed step size (default 1e-15)
+		/// @param maxStepSize Maximum allowed step size (default: unlimited)
+		/// @param maxSteps Maximum number of accepted steps (default: unlimited); integration stops there
+		///                 with status MaxIterationsExceeded and the outputs obtained so far
 		/// @return Solution with points at regular intervals
-		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15) {
+		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15,
+		                            Real maxStepSize = std::numeric_limits<Real>::infinity(), int maxSteps = std::numeric_limits<int>::max()) {
 			int n = _sys.getDim();
-			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
+			int numOutputPoints = countOutputPoints(t0, tEnd, outputInterval);
 
 			ODESystemSolution sol(t0, tEnd, n, numOutputPoints - 1);
 			_stats.reset();
@@ -244,13 +264,19 @@ namespace MML {
 			_stats.totalFuncEvals += (h0 > 0) ? 1 : 3;
 
 			// Store initial point
-			Real tNextOutput = t0;
 			int outputIdx = 0;
 			sol.fillValues(outputIdx++, t0, x0);
-			tNextOutput += outputInterval;
 
 			// Main integration loop
 			while (t < tEnd - Constants::Eps) {
+				if (_stats.acceptedSteps >= maxSteps) {
+					_stats.status = AlgorithmStatus::MaxIterationsExceeded;
+					_stats.error_message = "Maximum steps (" + std::to_string(maxSteps) + ") exceeded";
+					return sol;
+				}
+
+				h = std::min(h, maxStepSize);
+
 				// Don't step past end
 				if (t + h > tEnd) {
 					h = tEnd - t;
@@ -263,12 +289,11 @@ namespace MML {
 					Real tNew = t + result.hDone;
 
 					// Dense output: interpolate at all output points within this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = _stepper.interpolate(tNextOutput);
-							sol.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
-						tNextOutput += outputInterval;
+					while (outputIdx < numOutputPoints - 1) {
+						Real tOutput = outputTime(outputIdx, numOutputPoints, t0, tEnd, outputInterval);
+						if (tOutput > tNew)
+							break;
+						sol.fillValues(outputIdx++, tOutput, _stepper.interpolate(tOutput));
 					}
 
 					t = tNew;
@@ -281,14 +306,15 @@ namespace MML {
 				}
 
 				// Safety check
-				if (h < minStepSize) {
+				if (h < minStepSize && t < tEnd - Constants::Eps) {
 					throw ODESolverError("Step size too small in ODEAdaptiveIntegrator");
 				}
 			}
 
 			// Ensure final point is captured
-			if (outputIdx < numOutputPoints) {
-				sol.fillValues(outputIdx++, tEnd, x);
+			while (outputIdx < numOutputPoints) {
+				sol.fillValues(outputIdx, outputTime(outputIdx, numOutputPoints, t0, tEnd, outputInterval), x);
+				outputIdx++;
 			}
 
 			return sol;
@@ -308,6 +334,9 @@ namespace MML {
 			int numPoints = static_cast<int>(times.size());
 			Real t0 = times[0];
 			Real tEnd = times[numPoints - 1];
+			for (int i = 1; i < numPoints; i++)
+				if (!(times[i] > times[i - 1]))
+					throw ODESolverError("Output times must be strictly increasing");
 
 			ODESystemSolution sol(t0, tEnd, n, numPoints - 1);
 			_stats.reset();
@@ -380,16 +409,10 @@ namespace MML {
 				: (tEnd - t0) / 100.0;  // Default: 100 output points
 
 			ODESystemSolution sol = integrate(x0, t0, tEnd, outputInterval, 
-				config.tolerance, config.initial_step_size, config.min_step_size);
+				config.tolerance, config.initial_step_size, config.min_step_size, config.max_step_size, config.max_steps);
 
 			// Populate diagnostic fields in statistics
 			_stats.elapsed_time_ms = timer.elapsed_ms();
-			
-			// Check for max steps exceeded (if we tracked it)
-			if (_stats.acceptedSteps >= config.max_steps) {
-				_stats.status = AlgorithmStatus::MaxIterationsExceeded;
-				_stats.error_message = "Maximum steps (" + std::to_string(config.max_steps) + ") exceeded";
-			}
 
 			return sol;
 		}
@@ -486,6 +509,8 @@ namespace MML {
 				result.min_step_size    = stats.minStepSize;
 				result.max_step_size    = stats.maxStepSize;
 				result.function_evaluations = stats.totalFuncEvals;
+				result.status           = stats.status;
+				result.error_message    = stats.error_message;
 			});
 	}
 
-- 
2.43.0


From afaa6301006486f882e136da26ef3162421b3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:39 +0000
Subject: [PATCH 110/218] fix: event detection drops further events of a step,
 misses exact zeros and triggers the same event again after a restart

---
 .../ODESolvers/ODESolverEventDetection.h      | 187 +++++++++---------
 1 file changed, 94 insertions(+), 93 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index b7bc8ac..2ad7a60 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -90,7 +90,7 @@ namespace MML {
 																		Real eps = 1e-10, Real eventTol = 1e-12, Real h0 = 0) {
 			int n = sys.getDim();
 			int numEvents = sys.getNumEvents();
-			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
+			int numOutputPoints = this->countOutputPoints(t0, tEnd, outputInterval);
 
 			EventResult result(t0, tEnd, n, numOutputPoints - 1);
 			this->_stats.reset();
@@ -112,10 +112,16 @@ namespace MML {
 			this->_stats.totalFuncEvals += (h0 > 0) ? 1 : 3;
 
 			// Output management
-			Real tNextOutput = t0;
 			int outputIdx = 0;
 			result.solution.fillValues(outputIdx++, t0, x0);
-			tNextOutput += outputInterval;
+			auto outputUpTo = [&](Real tLimit) {
+				while (outputIdx < numOutputPoints - 1) {
+					Real tOutput = this->outputTime(outputIdx, numOutputPoints, t0, tEnd, outputInterval);
+					if (tOutput > tLimit)
+						break;
+					result.solution.fillValues(outputIdx++, tOutput, this->_stepper.interpolate(tOutput));
+				}
+			};
 
 			const int maxEventIterations = 100; // Safety limit for root finding
 
@@ -135,43 +141,39 @@ namespace MML {
 					Vector<Real> gNew(numEvents);
 					sys.eventFunctions(tNew, x, gNew);
 
-					// Check for zero crossings
-					bool eventDetected = false;
-					int eventIndex = -1;
-					Real eventTime = tNew;
-
+					// Find all zero crossings within this step
+					std::vector<EventInfo> crossings;
 					for (int i = 0; i < numEvents; ++i) {
-						bool crossing = false;
-						EventDirection actualDir = EventDirection::Both;
-
-						// Check sign change
-						if (gPrev[i] * gNew[i] < 0) {
-							// Determine crossing direction
-							if (gPrev[i] < 0 && gNew[i] > 0) {
-								actualDir = EventDirection::Increasing;
-							} else {
-								actualDir = EventDirection::Decreasing;
-							}
-
-							// Check if this direction should trigger
-							EventDirection wantDir = sys.getEventDirection(i);
-							if (wantDir == EventDirection::Both || wantDir == actualDir) {
-								crossing = true;
-							}
+						Real tLo = t, gLo = gPrev[i];
+						if (gLo == 0) {
+							// the step starts at a zero that was already accounted for: look at the side it leaves to
+							tLo = t + Real(0.01) * stepResult.hDone;
+							gLo = sys.eventFunction(i, tLo, this->_stepper.interpolate(tLo));
 						}
 
-						if (crossing) {
-							// Find exact crossing time using bisection with dense output
-							Real tLo = t;
+						EventDirection actualDir;
+						if (gLo < 0 && gNew[i] >= 0)
+							actualDir = EventDirection::Increasing;
+						else if (gLo > 0 && gNew[i] <= 0)
+							actualDir = EventDirection::Decreasing;
+						else
+							continue;
+
+						// Check if this direction should trigger
+						EventDirection wantDir = sys.getEventDirection(i);
+						if (wantDir != EventDirection::Both && wantDir != actualDir)
+							continue;
+
+						Real tEvent = tNew;
+						if (gNew[i] != 0) {
+							// Find crossing time using modified regula falsi with dense output
 							Real tHi = tNew;
-							Real gLo = gPrev[i];
 							Real gHi = gNew[i];
 
 							for (int iter = 0; iter < maxEventIterations; ++iter) {
 								if (tHi - tLo < eventTol)
 									break;
 
-								// Illinois method (modified regula falsi)
 								Real tMid = tLo - gLo * (tHi - tLo) / (gHi - gLo);
 								// Clamp to interval
 								tMid = std::max<Real>(tLo + Real(0.1) * (tHi - tLo), std::min<Real>(tHi - Real(0.1) * (tHi - tLo), tMid));
@@ -192,77 +194,75 @@ namespace MML {
 									gLo = gMid;
 								}
 							}
-
-							Real tEvent = tLo;
-							if (tEvent < eventTime) {
-								eventTime = tEvent;
-								eventIndex = i;
-								eventDetected = true;
-							}
-						}
-					}
-
-					if (eventDetected && eventIndex >= 0) {
-						// Get precise state at event
-						Vector<Real> xEvent = this->_stepper.interpolate(eventTime);
-						Real gEvent = sys.eventFunction(eventIndex, eventTime, xEvent);
-
-						EventDirection actualDir;
-						if (gPrev[eventIndex] < gNew[eventIndex]) {
-							actualDir = EventDirection::Increasing;
-						} else {
-							actualDir = EventDirection::Decreasing;
+							tEvent = tLo;
 						}
 
-						// Record event
-						EventInfo evt(eventIndex, eventTime, xEvent, actualDir, gEvent);
-						result.events.push_back(evt);
-
-						// Dense output up to event time
-						while (tNextOutput <= eventTime + Constants::Eps && outputIdx < numOutputPoints) {
-							if (tNextOutput <= eventTime) {
-								Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-								result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-							}
-							tNextOutput += outputInterval;
-						}
+						Vector<Real> xEvent = this->_stepper.interpolate(tEvent);
+						crossings.push_back(EventInfo(i, tEvent, xEvent, actualDir, sys.eventFunction(i, tEvent, xEvent)));
+					}
+					std::stable_sort(crossings.begin(), crossings.end(), [](const EventInfo& a, const EventInfo& b) { return a.time < b.time; });
 
-						// Determine action
-						EventAction action = sys.getEventAction(eventIndex);
+					// Process them in chronological order, up to the first one that stops or restarts
+					bool restarted = false;
+					for (size_t k = 0; k < crossings.size() && !restarted; ++k) {
+						Real eventTime = crossings[k].time;
+						EventAction action = sys.getEventAction(crossings[k].eventIndex);
+						result.events.push_back(crossings[k]);
 
 						if (action == EventAction::Stop) {
+							outputUpTo(eventTime);
 							result.terminatedByEvent = true;
 							result.finalTime = eventTime;
-							result.finalState = xEvent;
+							result.finalState = crossings[k].state;
 							return result;
-						} else if (action == EventAction::Restart) {
-							// Apply state update
-							sys.handleEvent(eventIndex, eventTime, xEvent);
-
-							// Reset integration from event point
-							t = eventTime;
-							x = xEvent;
-							sys.derivs(t, x, dxdt);
-							sys.eventFunctions(t, x, gPrev);
-							this->_stepper.resetFSAL();
-
-							// Re-estimate step size
-							h = this->estimateInitialStep(t, x, tEnd, eps);
-							this->_stats.totalFuncEvals += 3;
-							h = std::min(h, tEnd - t);
-							continue; // Skip normal update
 						}
-						// EventAction::Continue: fall through to normal update
+						if (action != EventAction::Restart)
+							continue;
+
+						outputUpTo(eventTime);
+
+						// Apply state update
+						Vector<Real> xEvent = crossings[k].state;
+						sys.handleEvent(crossings[k].eventIndex, eventTime, xEvent);
+
+						// Events coinciding with this one belong to the same instant
+						std::vector<EventInfo> handled{crossings[k]};
+						for (size_t m = k + 1; m < crossings.size() && crossings[m].time <= eventTime + eventTol; ++m) {
+							EventAction other = sys.getEventAction(crossings[m].eventIndex);
+							result.events.push_back(crossings[m]);
+							handled.push_back(crossings[m]);
+							if (other == EventAction::Stop) {
+								result.terminatedByEvent = true;
+								result.finalTime = eventTime;
+								result.finalState = xEvent;
+								return result;
+							}
+							if (other == EventAction::Restart)
+								sys.handleEvent(crossings[m].eventIndex, eventTime, xEvent);
+						}
+
+						// Reset integration from event point
+						t = eventTime;
+						x = xEvent;
+						sys.derivs(t, x, dxdt);
+						sys.eventFunctions(t, x, gPrev);
+						// a handled event that is still at its zero must not trigger again
+						for (const EventInfo& e : handled)
+							if (std::abs(gPrev[e.eventIndex]) <= 2 * std::abs(e.eventValue) + eventTol)
+								gPrev[e.eventIndex] = 0;
+						this->_stepper.resetFSAL();
+
+						// Re-estimate step size
+						h = this->estimateInitialStep(t, x, tEnd, eps);
+						this->_stats.totalFuncEvals += 3;
+						h = std::min(h, tEnd - t);
+						restarted = true;
 					}
+					if (restarted)
+						continue; // Skip normal update
 
 					// Dense output for this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-							result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
-						tNextOutput += outputInterval;
-					}
+					outputUpTo(tNew);
 
 					// Update for next step
 					t = tNew;
@@ -272,17 +272,18 @@ namespace MML {
 					h = stepResult.hNext;
 				}
 
-				if (h < Constants::Eps) {
+				if (h < Constants::Eps && t < tEnd - Constants::Eps) {
 					throw ODESolverError("Step size too small in integrateWithEvents");
 				}
 			}
 
 			// Ensure final point
-			if (outputIdx < numOutputPoints) {
-				result.solution.fillValues(outputIdx++, tEnd, x);
+			while (outputIdx < numOutputPoints) {
+				result.solution.fillValues(outputIdx, this->outputTime(outputIdx, numOutputPoints, t0, tEnd, outputInterval), x);
+				outputIdx++;
 			}
 
-			result.finalTime = t;
+			result.finalTime = tEnd;
 			result.finalState = x;
 			return result;
 		}
-- 
2.43.0


From c5565c3226e44ec58d110b74cb07b0dc56982738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:39 +0000
Subject: [PATCH 111/218] fix: fixed step solver accumulates rounding in time
 and accepts step counts and sizes that do not fit

---
 mml/algorithms/ODESolvers/ODESolverFixedStep.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverFixedStep.h b/mml/algorithms/ODESolvers/ODESolverFixedStep.h
index b97d628..7f7ce18 100644
--- a/mml/algorithms/ODESolvers/ODESolverFixedStep.h
+++ b/mml/algorithms/ODESolvers/ODESolverFixedStep.h
@@ -53,6 +53,11 @@ namespace MML {
 		ODESystemSolution integrate(const Vector<Real>& initCond, Real t1, Real t2, int numSteps) {
 			int dim = _odeSys.getDim();
 
+			if (numSteps < 1)
+				throw ODESolverError("ODESystemFixedStepSolver::integrate - number of steps must be positive");
+			if (initCond.size() != dim)
+				throw ODESolverError("ODESystemFixedStepSolver::integrate - initial condition size must match the system dimension");
+
 			ODESystemSolution sol(t1, t2, dim, numSteps);
 			Vector<Real> x(initCond), x_out(dim), dxdt(dim), x_err(dim);
 
@@ -64,7 +69,7 @@ namespace MML {
 			for (int k = 1; k <= numSteps; k++) {
 				_odeSys.derivs(t, x, dxdt);
 				_stepCalc.calcStep(_odeSys, t, x, dxdt, h, x_out, x_err);
-				t += h;
+				t = (k == numSteps) ? t2 : t1 + k * h;
 				x = x_out;
 				sol.fillValues(k, t, x);
 			}
-- 
2.43.0


From 3073937a4de291ca6d5dfdd7f7e4fa4d2420f015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:18 +0000
Subject: [PATCH 112/218] fix: Bulirsch-Stoer extrapolation does not start from
 the new estimate and drops the lower corrections

---
 mml/algorithms/ODESolvers/ODESteppers.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index c061e24..fedbe25 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -843,8 +843,10 @@ namespace MML {
 					_d[0][j] = yest[j];
 				}
 			} else {
-				// Use Neville's algorithm
+				// Use Neville's algorithm: start from the new estimate and add the corrections column by column
 				Vector<Real> c = yest;
+				yz = yest;
+				dy = yest;
 
 				for (int k = 0; k < iest; k++) {
 					Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -857,13 +859,12 @@ namespace MML {
 						delta = c[j] - q;
 						dy[j] = f1 * delta;
 						c[j] = f2 * delta;
+						yz[j] += dy[j];
 					}
 				}
 
-				for (int j = 0; j < _n; j++) {
-					yz[j] += dy[j];
+				for (int j = 0; j < _n; j++)
 					_d[iest][j] = dy[j];
-				}
 			}
 		}
 
@@ -1074,6 +1075,8 @@ namespace MML {
 			// Use Neville's polynomial extrapolation (same as pzextr)
 			// This is more stable than rational extrapolation
 			Vector<Real> c = yest;
+			yz = yest;
+			dy = yest;
 
 			for (int k = 0; k < iest; k++) {
 				Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -1086,13 +1089,12 @@ namespace MML {
 					Real diff = c[j] - q;
 					dy[j] = f1 * diff;
 					c[j] = f2 * diff;
+					yz[j] += dy[j];
 				}
 			}
 
-			for (int j = 0; j < _n; j++) {
-				yz[j] += dy[j];
+			for (int j = 0; j < _n; j++)
 				_d[iest][j] = dy[j];
-			}
 		}
 
 	public:
-- 
2.43.0


From 9c6aa480a6c591a940c6ad000f2f2be7cc1ad62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:18 +0000
Subject: [PATCH 113/218] fix: event coinciding with a restart triggers twice

---
 mml/algorithms/ODESolvers/ODESolverEventDetection.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index 2ad7a60..0108028 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -226,7 +226,10 @@ namespace MML {
 						sys.handleEvent(crossings[k].eventIndex, eventTime, xEvent);
 
 						// Events coinciding with this one belong to the same instant
-						std::vector<EventInfo> handled{crossings[k]};
+						std::vector<EventInfo> handled;
+						for (size_t m = 0; m <= k; ++m)
+							if (crossings[m].time >= eventTime - eventTol)
+								handled.push_back(crossings[m]);
 						for (size_t m = k + 1; m < crossings.size() && crossings[m].time <= eventTime + eventTol; ++m) {
 							EventAction other = sys.getEventAction(crossings[m].eventIndex);
 							result.events.push_back(crossings[m]);
-- 
2.43.0


From 60b2f1c21d65dd961d35be14a8c6186e2217fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 114/218] fix: initial step estimate vanishes when a fast
 component starts at zero

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index 807d2a1..35a9a42 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -211,7 +211,9 @@ namespace MML {
 				h1 = std::pow(0.01 / std::max(d1, d2), 1.0 / 5.0);
 			}
 
-			return std::min({100 * h0, h1, std::abs(tEnd - t0)});
+			// a component that starts at zero must not press the first step to nothing
+			Real hMin = Real(1e-10) * std::abs(tEnd - t0);
+			return std::min(std::max(hMin, std::min(100 * h0, h1)), std::abs(tEnd - t0));
 		}
 
 	protected:
-- 
2.43.0


From 8770bac8d3a1bf4b81b79478f51085344b03cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:47 +0000
Subject: [PATCH 115/218] fix: 3D convex hull of points with coplanar or
 collinear ones has overlapping faces and points that are no vertices

---
 mml/algorithms/CompGeometry/ConvexHull3D.h | 66 +++++++++-------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/mml/algorithms/CompGeometry/ConvexHull3D.h b/mml/algorithms/CompGeometry/ConvexHull3D.h
index 3d67ea7..c252337 100644
--- a/mml/algorithms/CompGeometry/ConvexHull3D.h
+++ b/mml/algorithms/CompGeometry/ConvexHull3D.h
@@ -183,7 +183,10 @@ public:
 			}
 		}
 		
-		if (maxDist2 < 1e-20) {
+		// Tolerance for distances, relative to the size of the point set
+		const Real tol = EPSILON * std::sqrt(maxDist2);
+		
+		if (maxDist2 <= 0) {
 			// All points coincident
 			hull.vertices.push_back(points[0]);
 			return hull;
@@ -206,7 +209,7 @@ public:
 			}
 		}
 		
-		if (p2 < 0 || maxLineDist2 < 1e-20) {
+		if (p2 < 0 || maxLineDist2 <= tol * tol) {
 			// Points are collinear
 			hull.vertices.push_back(points[p0]);
 			hull.vertices.push_back(points[p1]);
@@ -235,7 +238,7 @@ public:
 			}
 		}
 		
-		if (p3 < 0 || maxPlaneDist < 1e-14) {
+		if (p3 < 0 || maxPlaneDist <= tol * planeNormal.NormL2()) {
 			// Points are coplanar - return 2D hull as degenerate 3D hull
 			hull.vertices.push_back(points[p0]);
 			hull.vertices.push_back(points[p1]);
@@ -296,7 +299,7 @@ public:
 			Real len = std::sqrt(fd.normal.X() * fd.normal.X() + 
 			                     fd.normal.Y() * fd.normal.Y() + 
 			                     fd.normal.Z() * fd.normal.Z());
-			if (len > 1e-14) {
+			if (len > 0) {
 				fd.normal = Vector3Cartesian(fd.normal.X() / len, fd.normal.Y() / len, fd.normal.Z() / len);
 			}
 			
@@ -321,7 +324,7 @@ public:
 				Real dist = fd.normal.X() * (points[i].X() - a.X()) +
 				            fd.normal.Y() * (points[i].Y() - a.Y()) +
 				            fd.normal.Z() * (points[i].Z() - a.Z());
-				if (dist > 1e-10) {
+				if (dist > tol) {
 					fd.outsidePoints.push_back(i);
 					break;  // Each point assigned to at most one face
 				}
@@ -364,7 +367,8 @@ public:
 				continue;
 			}
 			
-			// Find all faces visible from furthestPt
+			// Find all faces visible from furthestPt. Faces in whose plane the point lies are replaced
+			// too: the new faces would otherwise overlap them or have no area.
 			std::vector<int> visibleFaces;
 			for (size_t i = 0; i < faceDataList.size(); i++) {
 				if (!faceDataList[i].valid) continue;
@@ -373,7 +377,7 @@ public:
 				Real dist = faceDataList[i].normal.X() * (points[furthestPt].X() - fa.X()) +
 				            faceDataList[i].normal.Y() * (points[furthestPt].Y() - fa.Y()) +
 				            faceDataList[i].normal.Z() * (points[furthestPt].Z() - fa.Z());
-				if (dist > 1e-10) {
+				if (dist > -tol) {
 					visibleFaces.push_back(static_cast<int>(i));
 				}
 			}
@@ -416,7 +420,7 @@ public:
 			for (const auto& [edge, count] : edgeCount) {
 				if (count == 1) {
 					auto [v1, v2] = edgeOrientation[edge];
-					horizonEdges.push_back({v2, v1});
+					horizonEdges.push_back({v1, v2});  // New face keeps the direction of the face it replaces
 				}
 			}
 			
@@ -437,42 +441,12 @@ public:
 				faceDataList[vf].valid = false;
 			}
 			
-			// Compute hull centroid for orientation
-			Point3Cartesian hullCentroid(0, 0, 0);
-			int validCount = 0;
-			for (const auto& fd : faceDataList) {
-				if (fd.valid) {
-					hullCentroid = Point3Cartesian(
-						hullCentroid.X() + fd.centroid.X(),
-						hullCentroid.Y() + fd.centroid.Y(),
-						hullCentroid.Z() + fd.centroid.Z());
-					validCount++;
-				}
-			}
-			if (validCount > 0) {
-				hullCentroid = Point3Cartesian(
-					hullCentroid.X() / validCount,
-					hullCentroid.Y() / validCount,
-					hullCentroid.Z() / validCount);
-			}
-			
 			// Create new faces from horizon edges
 			std::vector<int> newFaceIndices;
 			for (const auto& edge : horizonEdges) {
 				std::array<int, 3> newFace = {edge.first, edge.second, newVertexIdx};
 				FaceData fd = computeFaceData(newFace);
 				
-				// Verify orientation
-				const Point3Cartesian& faceVertex = hull.vertices[newFace[0]];
-				Real towardCentroid = fd.normal.X() * (hullCentroid.X() - faceVertex.X()) +
-				                      fd.normal.Y() * (hullCentroid.Y() - faceVertex.Y()) +
-				                      fd.normal.Z() * (hullCentroid.Z() - faceVertex.Z());
-				
-				if (towardCentroid > 0) {
-					newFace = {edge.second, edge.first, newVertexIdx};
-					fd = computeFaceData(newFace);
-				}
-				
 				fd.valid = true;
 				
 				int newFaceIdx = static_cast<int>(faceDataList.size());
@@ -488,7 +462,7 @@ public:
 					Real dist = fd.normal.X() * (points[pt].X() - fa.X()) +
 					            fd.normal.Y() * (points[pt].Y() - fa.Y()) +
 					            fd.normal.Z() * (points[pt].Z() - fa.Z());
-					if (dist > 1e-10) {
+					if (dist > tol) {
 						fd.outsidePoints.push_back(pt);
 						break;
 					}
@@ -504,6 +478,20 @@ public:
 			}
 		}
 		
+		// Points that later points enclosed in a face or an edge are no hull vertices any more
+		std::vector<int> newIndex(hull.vertices.size(), -1);
+		std::vector<Point3Cartesian> used;
+		for (auto& face : hull.faces) {
+			for (int& v : face) {
+				if (newIndex[v] < 0) {
+					newIndex[v] = static_cast<int>(used.size());
+					used.push_back(hull.vertices[v]);
+				}
+				v = newIndex[v];
+			}
+		}
+		hull.vertices = std::move(used);
+		
 		return hull;
 	}
 
-- 
2.43.0


From 5ddb80afa3141a513fdafb2c9b218f76cc772c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:47 +0000
Subject: [PATCH 116/218] fix: 3D convex hulls of coplanar points lose corners
 and have open or missing faces, adjacency is never filled

---
 mml/algorithms/CompGeometry/ConvexHull3D.h | 98 +++++++++++++++++++---
 1 file changed, 85 insertions(+), 13 deletions(-)

diff --git a/mml/algorithms/CompGeometry/ConvexHull3D.h b/mml/algorithms/CompGeometry/ConvexHull3D.h
index c252337..ed12f9d 100644
--- a/mml/algorithms/CompGeometry/ConvexHull3D.h
+++ b/mml/algorithms/CompGeometry/ConvexHull3D.h
@@ -35,8 +35,39 @@ struct ConvexHull3D {
 	int NumVertices() const { return static_cast<int>(vertices.size()); }
 	int NumFaces() const { return static_cast<int>(faces.size()); }
 
+	/// @brief Fill the adjacency of the faces (the opposite direction of an edge belongs to the neighbor)
+	void BuildNeighbors() {
+		std::map<std::pair<int, int>, std::vector<int>> faceOfEdge;
+		for (int f = 0; f < NumFaces(); f++) {
+			for (int e = 0; e < 3; e++) {
+				faceOfEdge[{faces[f][e], faces[f][(e + 1) % 3]}].push_back(f);
+			}
+		}
+		neighbors.assign(faces.size(), {-1, -1, -1});
+		for (int f = 0; f < NumFaces(); f++) {
+			for (int e = 0; e < 3; e++) {
+				// On a flat hull both sides share inner edges: prefer another face to the own back side
+				int third = faces[f][(e + 2) % 3];
+				for (int g : faceOfEdge[{faces[f][(e + 1) % 3], faces[f][e]}]) {
+					bool back = faces[g][0] == third || faces[g][1] == third || faces[g][2] == third;
+					if (neighbors[f][e] < 0 || !back) neighbors[f][e] = g;
+				}
+			}
+		}
+	}
+
 	/// @brief Check if a point is inside or on the convex hull
+	/// @param tolerance Distance up to which a point outside a face counts as on it
 	bool Contains(const Point3Cartesian& p, Real tolerance = 1e-10) const {
+		if (NumFaces() == 0) {
+			// Nothing, a point or a segment
+			if (vertices.empty()) return false;
+			Vector3Cartesian d(vertices.front(), vertices.back()), v(vertices.front(), p);
+			Real len2 = ScalarProduct(d, d);
+			Real t = len2 > 0 ? std::max(Real(0), std::min(Real(1), ScalarProduct(v, d) / len2)) : Real(0);
+			return (v - t * d).NormL2() <= tolerance;
+		}
+		
 		// Point is inside if it's on the negative side of all face planes
 		for (int f = 0; f < NumFaces(); f++) {
 			const auto& face = faces[f];
@@ -54,7 +85,17 @@ struct ConvexHull3D {
 			            n.Y() * (p.Y() - a.Y()) + 
 			            n.Z() * (p.Z() - a.Z());
 			
-			if (dist > tolerance) return false;  // Outside this face
+			if (dist > tolerance * n.NormL2()) return false;  // Outside this face
+		}
+		
+		// A flat hull (front and back of a convex polygon) also ends at the edges of the polygon
+		if (NumFaces() >= 2 && faces[1] == std::array<int, 3>{faces[0][0], faces[0][2], faces[0][1]}) {
+			Vector3Cartesian n = VectorProduct(Vector3Cartesian(vertices[faces[0][0]], vertices[faces[0][1]]),
+			                                   Vector3Cartesian(vertices[faces[0][0]], vertices[faces[0][2]]));
+			for (int i = 0; i < NumVertices(); i++) {
+				Vector3Cartesian inward = VectorProduct(n, Vector3Cartesian(vertices[i], vertices[(i + 1) % NumVertices()]));
+				if (ScalarProduct(inward, Vector3Cartesian(vertices[i], p)) < -tolerance * inward.NormL2()) return false;
+			}
 		}
 		return true;
 	}
@@ -147,15 +188,8 @@ public:
 		ConvexHull3D hull;
 		
 		int n = static_cast<int>(points.size());
-		if (n < 4) {
-			// Degenerate cases
-			hull.vertices = points;
-			if (n == 3) {
-				hull.faces.push_back({0, 1, 2});
-				hull.faces.push_back({0, 2, 1});  // Both orientations
-			}
+		if (n == 0)
 			return hull;
-		}
 		
 		// Find extreme points to form initial tetrahedron
 		int minX = 0, maxX = 0, minY = 0, maxY = 0, minZ = 0, maxZ = 0;
@@ -240,10 +274,12 @@ public:
 		
 		if (p3 < 0 || maxPlaneDist <= tol * planeNormal.NormL2()) {
 			// Points are coplanar - return 2D hull as degenerate 3D hull
-			hull.vertices.push_back(points[p0]);
-			hull.vertices.push_back(points[p1]);
-			hull.vertices.push_back(points[p2]);
-			hull.faces.push_back({0, 1, 2});
+			hull.vertices = PlanarHull(points, planeNormal, tol);
+			for (int i = 1; i + 1 < hull.NumVertices(); i++) {
+				hull.faces.push_back({0, i, i + 1});
+				hull.faces.push_back({0, i + 1, i});  // Both orientations
+			}
+			hull.BuildNeighbors();
 			return hull;
 		}
 		
@@ -491,11 +527,47 @@ public:
 			}
 		}
 		hull.vertices = std::move(used);
+		hull.BuildNeighbors();
 		
 		return hull;
 	}
 
 private:
+	/// @brief Corners of the convex hull of coplanar points, in order (monotone chain in the plane)
+	static std::vector<Point3Cartesian> PlanarHull(std::vector<Point3Cartesian> points, const Vector3Cartesian& normal, Real tol) {
+		// Project along the largest component of the normal
+		int drop = 0;
+		for (int k = 1; k < 3; k++) {
+			if (std::abs(normal[k]) > std::abs(normal[drop])) drop = k;
+		}
+		auto coord = [drop](const Point3Cartesian& p, int k) {
+			int axis = (drop + 1 + k) % 3;
+			return axis == 0 ? p.X() : axis == 1 ? p.Y() : p.Z();
+		};
+		std::sort(points.begin(), points.end(), [&](const Point3Cartesian& a, const Point3Cartesian& b) {
+			return coord(a, 0) < coord(b, 0) || (coord(a, 0) == coord(b, 0) && coord(a, 1) < coord(b, 1));
+		});
+		
+		std::vector<Point3Cartesian> chain;
+		for (int pass = 0; pass < 2; pass++) {  // Lower chain, then the upper one backwards
+			size_t start = chain.size();
+			for (const auto& p : points) {
+				while (chain.size() >= start + 2) {
+					const Point3Cartesian& o = chain[chain.size() - 2];
+					const Point3Cartesian& a = chain.back();
+					Real dx = coord(p, 0) - coord(o, 0), dy = coord(p, 1) - coord(o, 1);
+					Real cross = (coord(a, 0) - coord(o, 0)) * dy - (coord(a, 1) - coord(o, 1)) * dx;
+					if (cross > tol * std::sqrt(dx * dx + dy * dy)) break;
+					chain.pop_back();
+				}
+				chain.push_back(p);
+			}
+			chain.pop_back();
+			std::reverse(points.begin(), points.end());
+		}
+		return chain;
+	}
+	
 	/// @brief Squared distance between two 3D points
 	static Real Distance2(const Point3Cartesian& a, const Point3Cartesian& b) {
 		Real dx = b.X() - a.X();
-- 
2.43.0


From 0d85df41154c3f16466a06e03f99f1f0bba947af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:43 +0000
Subject: [PATCH 117/218] fix: ear clipping of small polygons cuts triangles
 outside the polygon

---
 mml/algorithms/CompGeometry/Triangulation.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mml/algorithms/CompGeometry/Triangulation.h b/mml/algorithms/CompGeometry/Triangulation.h
index 6baf8c4..033b705 100644
--- a/mml/algorithms/CompGeometry/Triangulation.h
+++ b/mml/algorithms/CompGeometry/Triangulation.h
@@ -173,13 +173,20 @@ public:
 			std::reverse(vertices.begin(), vertices.end());
 		}
 
+		// Tolerance for doubled areas, relative to the extent of the polygon
+		Real extent = 0;
+		for (const auto& v : vertices) {
+			extent = std::max<Real>(extent, std::max<Real>(std::abs(v.X() - vertices[0].X()), std::abs(v.Y() - vertices[0].Y())));
+		}
+		const Real tol = EPSILON * Real(1e-4) * extent * extent;
+
 		// Clip ears until only a triangle remains
 		while (vertices.size() > 3) {
 			n = static_cast<int>(vertices.size());
 			bool earFound = false;
 
 			for (int i = 0; i < n; i++) {
-				if (IsEar(vertices, i, n)) {
+				if (IsEar(vertices, i, n, tol)) {
 					// Found an ear - add triangle and remove vertex
 					int prev = (i - 1 + n) % n;
 					int next = (i + 1) % n;
@@ -375,7 +382,7 @@ private:
 	}
 
 	// Check if vertex at index i is an "ear" in the polygon
-	static bool IsEar(const std::vector<Point2Cartesian>& vertices, int i, int n) {
+	static bool IsEar(const std::vector<Point2Cartesian>& vertices, int i, int n, Real tol) {
 		int prev = (i - 1 + n) % n;
 		int next = (i + 1) % n;
 
@@ -384,7 +391,7 @@ private:
 		const Point2Cartesian& c = vertices[next];
 
 		// Check if the triangle is convex (CCW orientation means convex for CCW polygon)
-		if (Cross(a, b, c) <= EPSILON)
+		if (Cross(a, b, c) <= tol)
 			return false; // Reflex vertex, not an ear
 
 		// Check that no other vertex is inside this triangle
@@ -392,7 +399,7 @@ private:
 			if (j == prev || j == i || j == next)
 				continue;
 
-			if (IsPointInTriangle(vertices[j], a, b, c))
+			if (IsPointInTriangle(vertices[j], a, b, c, tol))
 				return false;
 		}
 
@@ -401,13 +408,13 @@ private:
 
 	// Point-in-triangle test using barycentric coordinates
 	static bool IsPointInTriangle(const Point2Cartesian& p, const Point2Cartesian& a, 
-								  const Point2Cartesian& b, const Point2Cartesian& c) {
+								  const Point2Cartesian& b, const Point2Cartesian& c, Real tol) {
 		Real d1 = Cross(a, b, p);
 		Real d2 = Cross(b, c, p);
 		Real d3 = Cross(c, a, p);
 
-		bool hasNeg = (d1 < -EPSILON) || (d2 < -EPSILON) || (d3 < -EPSILON);
-		bool hasPos = (d1 > EPSILON) || (d2 > EPSILON) || (d3 > EPSILON);
+		bool hasNeg = (d1 < -tol) || (d2 < -tol) || (d3 < -tol);
+		bool hasPos = (d1 > tol) || (d2 > tol) || (d3 > tol);
 
 		return !(hasNeg && hasPos);
 	}
-- 
2.43.0


From 02dbc5d4bb37868bbf1b11ee158b2999062e3e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:43 +0000
Subject: [PATCH 118/218] fix: Delaunay triangulation misses flat triangles at
 the hull and fails on small coordinates

---
 mml/algorithms/CompGeometry/Triangulation.h | 111 ++++++++++++--------
 1 file changed, 65 insertions(+), 46 deletions(-)

diff --git a/mml/algorithms/CompGeometry/Triangulation.h b/mml/algorithms/CompGeometry/Triangulation.h
index 033b705..50d0b9d 100644
--- a/mml/algorithms/CompGeometry/Triangulation.h
+++ b/mml/algorithms/CompGeometry/Triangulation.h
@@ -13,6 +13,8 @@
 
 #include <algorithm>
 #include <array>
+#include <cmath>
+#include <limits>
 #include <map>
 #include <random>
 #include <vector>
@@ -245,44 +247,49 @@ public:
 			maxY = std::max(maxY, p.Y());
 		}
 
-		// Create super-triangle that contains all points
-		// Make it large enough to ensure all points fit well inside
-		Real dx = maxX - minX;
-		Real dy = maxY - minY;
-		Real deltaMax = std::max(dx, dy);
-		
-		// Ensure deltaMax is large enough for numerical stability
-		deltaMax = std::max<Real>(deltaMax, std::max<Real>(std::abs(minX), std::abs(minY)) * Real(1e-10));
-		deltaMax = std::max<Real>(deltaMax, std::max<Real>(std::abs(maxX), std::abs(maxY)) * Real(1e-10));
-		deltaMax = std::max<Real>(deltaMax, Real(1e-10));  // Absolute minimum
-		
-		Real midX = (minX + maxX) / Real(2.0);
-		Real midY = (minY + maxY) / Real(2.0);
-
-		// Super-triangle vertices in CCW order (very large to contain all points)
-		Point2Cartesian st1(midX - 20 * deltaMax, midY - deltaMax);
-		Point2Cartesian st2(midX + 20 * deltaMax, midY - deltaMax);
-		Point2Cartesian st3(midX, midY + 20 * deltaMax);
-
-		// Working point list: original points then super-triangle vertices
-		std::vector<Point2Cartesian> workPoints = points;
-		int st1Idx = static_cast<int>(workPoints.size());
-		int st2Idx = st1Idx + 1;
-		int st3Idx = st1Idx + 2;
-		workPoints.push_back(st1);
-		workPoints.push_back(st2);
-		workPoints.push_back(st3);
-
-		// Triangle representation: vertex indices and validity flag
+		// Working coordinates: shifted and scaled by a power of two into the unit square
+		Real deltaMax = std::max(maxX - minX, maxY - minY);
+		if (deltaMax <= 0 || !std::isfinite(deltaMax)) {
+			result.points = std::move(points);  // All points coincide
+			return result;
+		}
+		const int scale = -std::ilogb(deltaMax) - 1;
+		std::vector<Point2Cartesian> workPoints;
+		workPoints.reserve(n);
+		for (const auto& p : points) {
+			workPoints.push_back(Point2Cartesian(std::ldexp(p.X() - minX, scale), std::ldexp(p.Y() - minY, scale)));
+		}
+
+		// First triangle: the first points that are neither equal nor collinear
+		int second = 1, third = -1;
+		while (second < n && workPoints[second].X() == workPoints[0].X() && workPoints[second].Y() == workPoints[0].Y()) second++;
+		for (int i = second + 1; i < n && third < 0; i++) {
+			if (Orientation(workPoints[0], workPoints[second], workPoints[i]) != 0) third = i;
+		}
+		if (third < 0) {
+			result.points = std::move(points);  // All points are collinear
+			return result;
+		}
+
+		// Triangle representation: vertex indices and validity flag.
+		// The outside of each hull edge is a triangle with a vertex at infinity, so that
+		// the triangulation covers the whole convex hull however flat it is.
+		constexpr int INFINITE_VERTEX = -1;
 		struct Tri {
 			std::array<int, 3> v;
 			bool valid = true;
 		};
 		std::vector<Tri> tris;
-		tris.push_back({{st1Idx, st2Idx, st3Idx}, true});
+		int va = 0, vb = second, vc = third;
+		if (Orientation(workPoints[va], workPoints[vb], workPoints[vc]) < 0) std::swap(vb, vc);
+		tris.push_back({{va, vb, vc}, true});
+		tris.push_back({{vb, va, INFINITE_VERTEX}, true});
+		tris.push_back({{vc, vb, INFINITE_VERTEX}, true});
+		tris.push_back({{va, vc, INFINITE_VERTEX}, true});
 
 		// Incrementally add each point
 		for (int i = 0; i < n; i++) {
+			if (i == va || i == vb || i == vc) continue;
 			const Point2Cartesian& p = workPoints[i];
 
 			// Find all triangles whose circumcircle contains the new point
@@ -290,11 +297,20 @@ public:
 			for (size_t t = 0; t < tris.size(); t++) {
 				if (!tris[t].valid) continue;
 
-				const Point2Cartesian& a = workPoints[tris[t].v[0]];
-				const Point2Cartesian& b = workPoints[tris[t].v[1]];
-				const Point2Cartesian& c = workPoints[tris[t].v[2]];
+				const auto& v = tris[t].v;
+				bool inside;
+				if (v[0] >= 0 && v[1] >= 0 && v[2] >= 0) {
+					inside = InCircumcircle(p, workPoints[v[0]], workPoints[v[1]], workPoints[v[2]]);
+				} else {
+					// Outside of a hull edge: the half plane beyond it and the edge itself
+					int k = v[0] < 0 ? 0 : v[1] < 0 ? 1 : 2;
+					const Point2Cartesian& a = workPoints[v[(k + 1) % 3]];
+					const Point2Cartesian& b = workPoints[v[(k + 2) % 3]];
+					int side = Orientation(a, b, p);
+					inside = side > 0 || (side == 0 && (p.X() - a.X()) * (p.X() - b.X()) + (p.Y() - a.Y()) * (p.Y() - b.Y()) < 0);
+				}
 
-				if (InCircumcircle(p, a, b, c)) {
+				if (inside) {
 					badTriangles.push_back(static_cast<int>(t));
 				}
 			}
@@ -332,22 +348,13 @@ public:
 			}
 		}
 
-		// Extract final triangulation (exclude triangles using super-triangle vertices)
+		// Extract final triangulation (exclude triangles using the vertex at infinity)
 		result.points = points;  // Only original points
 		
 		for (const auto& tri : tris) {
 			if (!tri.valid) continue;
 
-			// Skip if any vertex is a super-triangle vertex
-			bool usesSuperTri = false;
-			for (int j = 0; j < 3; j++) {
-				if (tri.v[j] >= n) {
-					usesSuperTri = true;
-					break;
-				}
-			}
-
-			if (!usesSuperTri) {
+			if (tri.v[0] >= 0 && tri.v[1] >= 0 && tri.v[2] >= 0) {
 				result.triangles.push_back(tri.v);
 			}
 		}
@@ -381,6 +388,14 @@ private:
 		return (a.X() - o.X()) * (b.Y() - o.Y()) - (a.Y() - o.Y()) * (b.X() - o.X());
 	}
 
+	// Sign of the orientation of o, a, b: zero up to the rounding errors of the determinant
+	static int Orientation(const Point2Cartesian& o, const Point2Cartesian& a, const Point2Cartesian& b) {
+		Real left = (a.X() - o.X()) * (b.Y() - o.Y());
+		Real right = (a.Y() - o.Y()) * (b.X() - o.X());
+		Real tol = 4 * std::numeric_limits<Real>::epsilon() * (std::abs(left) + std::abs(right));
+		return left - right > tol ? 1 : left - right < -tol ? -1 : 0;
+	}
+
 	// Check if vertex at index i is an "ear" in the polygon
 	static bool IsEar(const std::vector<Point2Cartesian>& vertices, int i, int n, Real tol) {
 		int prev = (i - 1 + n) % n;
@@ -444,7 +459,11 @@ private:
 				   ay * (bx * cp - bp * cx) +
 				   ap * (bx * cy - by * cx);
 
-		return det > EPSILON;
+		// Zero up to the rounding errors of the determinant
+		Real magnitude = std::abs(ax) * (std::abs(by) * cp + bp * std::abs(cy)) +
+						 std::abs(ay) * (std::abs(bx) * cp + bp * std::abs(cx)) +
+						 ap * (std::abs(bx * cy) + std::abs(by * cx));
+		return det > 16 * std::numeric_limits<Real>::epsilon() * magnitude;
 	}
 
 	// Unique edge representation for Bowyer-Watson
-- 
2.43.0


From 15b879559eae1d3a980263b03b7f6f2e97aefb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:43 +0000
Subject: [PATCH 119/218] fix: interpolation in small triangles returns the
 default, points on inner edges are not located

---
 mml/algorithms/CompGeometry/Triangulation.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mml/algorithms/CompGeometry/Triangulation.h b/mml/algorithms/CompGeometry/Triangulation.h
index 50d0b9d..f107b7e 100644
--- a/mml/algorithms/CompGeometry/Triangulation.h
+++ b/mml/algorithms/CompGeometry/Triangulation.h
@@ -52,6 +52,8 @@ struct DelaunayTriangulation {
 	/// @param p The query point
 	/// @return Index of containing triangle, or -1 if outside convex hull
 	int LocatePoint(const Point2Cartesian& p) const {
+		int nearest = -1;
+		Real nearestWeight = -Real(1e-12);  // Rounding may put a point on an inner edge outside of both triangles
 		for (int i = 0; i < NumTriangles(); i++) {
 			const auto& tri = triangles[i];
 			const Point2Cartesian& a = points[tri[0]];
@@ -68,8 +70,15 @@ struct DelaunayTriangulation {
 
 			if (!(hasNeg && hasPos))
 				return i;
+
+			Real sum = d1 + d2 + d3;
+			Real weight = std::min(d1 / sum, std::min(d2 / sum, d3 / sum));
+			if (weight > nearestWeight) {
+				nearestWeight = weight;
+				nearest = i;
+			}
 		}
-		return -1;
+		return nearest;
 	}
 
 	/// @brief Interpolate values at the input points to a query point
@@ -79,7 +88,6 @@ struct DelaunayTriangulation {
 	/// @return Linearly interpolated value using barycentric coordinates
 	Real Interpolate(const Point2Cartesian& p, const std::vector<Real>& values, 
 					 Real defaultVal = 0.0) const {
-		constexpr Real EPSILON = 1e-10;
 		if (values.size() != points.size())
 			return defaultVal;
 
@@ -94,7 +102,7 @@ struct DelaunayTriangulation {
 
 		// Compute barycentric coordinates
 		Real denom = (b.Y() - c.Y()) * (a.X() - c.X()) + (c.X() - b.X()) * (a.Y() - c.Y());
-		if (std::abs(denom) < EPSILON)
+		if (denom == 0)
 			return defaultVal;
 
 		Real w1 = ((b.Y() - c.Y()) * (p.X() - c.X()) + (c.X() - b.X()) * (p.Y() - c.Y())) / denom;
-- 
2.43.0


From f54d7fd884b824882e1ee2fc14cf2560cd5145f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:58 +0000
Subject: [PATCH 120/218] fix: Voronoi cells of hull sites lose vertices,
 collinear sites have no edges, small or far diagrams are wrong

---
 mml/algorithms/CompGeometry/VoronoiDiagram.h | 136 ++++++++-----------
 1 file changed, 53 insertions(+), 83 deletions(-)

diff --git a/mml/algorithms/CompGeometry/VoronoiDiagram.h b/mml/algorithms/CompGeometry/VoronoiDiagram.h
index c992dd6..78f847d 100644
--- a/mml/algorithms/CompGeometry/VoronoiDiagram.h
+++ b/mml/algorithms/CompGeometry/VoronoiDiagram.h
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <numeric>
 #include <set>
 #include <vector>
 
@@ -150,7 +151,7 @@ struct VoronoiDiagram {
 			Real nx = site.X() - other.X();
 			Real ny = site.Y() - other.Y();
 			Real len = std::sqrt(nx * nx + ny * ny);
-			if (len < 1e-10) continue;
+			if (len == 0) continue;
 			nx /= len;
 			ny /= len;
 			
@@ -164,12 +165,12 @@ struct VoronoiDiagram {
 				Real d1 = (p1.X() - midX) * nx + (p1.Y() - midY) * ny;
 				Real d2 = (p2.X() - midX) * nx + (p2.Y() - midY) * ny;
 				
-				if (d1 >= -1e-10) {
+				if (d1 >= 0) {
 					clipped.push_back(p1);
 				}
 				
 				// Edge crosses the bisector line
-				if ((d1 > 1e-10 && d2 < -1e-10) || (d1 < -1e-10 && d2 > 1e-10)) {
+				if ((d1 > 0 && d2 < 0) || (d1 < 0 && d2 > 0)) {
 					Real t = d1 / (d1 - d2);
 					Real ix = p1.X() + t * (p2.X() - p1.X());
 					Real iy = p1.Y() + t * (p2.Y() - p1.Y());
@@ -217,11 +218,11 @@ private:
 			Real d1 = (p1.X() - px) * nx + (p1.Y() - py) * ny;
 			Real d2 = (p2.X() - px) * nx + (p2.Y() - py) * ny;
 			
-			if (d1 >= -1e-10) {
+			if (d1 >= 0) {
 				result.push_back(p1);
 			}
 			
-			if ((d1 > 1e-10 && d2 < -1e-10) || (d1 < -1e-10 && d2 > 1e-10)) {
+			if ((d1 > 0 && d2 < 0) || (d1 < 0 && d2 > 0)) {
 				Real t = d1 / (d1 - d2);
 				Real ix = p1.X() + t * (p2.X() - p1.X());
 				Real iy = p1.Y() + t * (p2.Y() - p1.Y());
@@ -262,32 +263,34 @@ public:
 			return vd;
 		}
 		
-		if (n == 2) {
-			// Two points: single perpendicular bisector, both cells infinite
-			vd.cells.resize(2);
-			vd.cellIsInfinite = {true, true};
-			
-			// Add the edge between the two infinite cells
-			VoronoiEdge edge;
-			edge.v1 = -1;
-			edge.v2 = -1;
-			edge.site1 = 0;
-			edge.site2 = 1;
-			// Direction perpendicular to line between sites
-			Real dx = points[1].X() - points[0].X();
-			Real dy = points[1].Y() - points[0].Y();
-			edge.direction = Vector2Cartesian(-dy, dx);
-			vd.edges.push_back(edge);
-			return vd;
-		}
-		
-		// Compute Delaunay triangulation
 		auto dt = Triangulation::ComputeDelaunay(std::move(points));
 		
 		if (dt.NumTriangles() == 0) {
-			// All points collinear - each cell is infinite
+			// Collinear sites: cells are strips, separated by lines between consecutive distinct sites
 			vd.cells.resize(n);
 			vd.cellIsInfinite.resize(n, true);
+			
+			std::vector<int> order(n);
+			std::iota(order.begin(), order.end(), 0);
+			auto before = [&](int i, int j) {
+				const Point2Cartesian &a = vd.sites[i], &b = vd.sites[j];
+				return a.X() < b.X() || (a.X() == b.X() && a.Y() < b.Y());
+			};
+			std::stable_sort(order.begin(), order.end(), before);
+			
+			for (int k = 0, prev = 0; k < n; k++) {
+				if (!before(order[prev], order[k])) continue;  // First site or a duplicate
+				VoronoiEdge edge;
+				edge.v1 = -1;  // No finite vertices
+				edge.v2 = -1;
+				edge.site1 = order[prev];
+				edge.site2 = order[k];
+				Real dx = vd.sites[edge.site2].X() - vd.sites[edge.site1].X();
+				Real dy = vd.sites[edge.site2].Y() - vd.sites[edge.site1].Y();
+				edge.direction = Vector2Cartesian(-dy, dx);
+				vd.edges.push_back(edge);
+				prev = k;
+			}
 			return vd;
 		}
 		
@@ -360,7 +363,7 @@ public:
 					// Direction perpendicular to edge
 					Vector2Cartesian perp(-dy, dx);
 					Real len = std::sqrt(perp.X() * perp.X() + perp.Y() * perp.Y());
-					if (len > 1e-10) {
+					if (len > 0) {
 						perp = Vector2Cartesian(perp.X() / len, perp.Y() / len);
 					}
 					
@@ -386,56 +389,25 @@ public:
 				continue;
 			}
 			
-			// Order triangles around the site
-			std::vector<int> ordered;
-			std::vector<bool> used(triangles.size(), false);
-			
-			// Start with first triangle
-			ordered.push_back(triangles[0]);
-			used[0] = true;
-			
-			// Try to build a chain
-			for (size_t iter = 0; iter < triangles.size() - 1; iter++) {
-				int lastTri = ordered.back();
-				bool found = false;
-				
-				for (size_t i = 0; i < triangles.size(); i++) {
-					if (used[i]) continue;
-					int candTri = triangles[i];
-					
-					// Check if triangles share an edge (are neighbors)
-					for (int edge = 0; edge < 3; edge++) {
-						if (dt.neighbors[lastTri][edge] == candTri) {
-							ordered.push_back(candTri);
-							used[i] = true;
-							found = true;
-							break;
-						}
-					}
-					if (found) break;
-				}
-				
-				if (!found) {
-					// Gap in the chain - cell is infinite
+			// Order triangles around the site counterclockwise. An infinite cell starts at the
+			// triangle that has no clockwise neighbor.
+			auto corner = [&](int t) {
+				const auto& v = dt.triangles[t];
+				return v[0] == s ? 0 : v[1] == s ? 1 : 2;
+			};
+			int first = triangles[0];
+			for (size_t i = 0; i < triangles.size(); i++) {
+				int prev = dt.neighbors[first][corner(first)];
+				if (prev < 0) {
 					vd.cellIsInfinite[s] = true;
 					break;
 				}
+				first = prev;
 			}
 			
-			// Check if chain closes (first and last triangles are neighbors)
-			if (ordered.size() == triangles.size() && ordered.size() >= 2) {
-				int first = ordered.front();
-				int last = ordered.back();
-				bool closes = false;
-				for (int edge = 0; edge < 3; edge++) {
-					if (dt.neighbors[last][edge] == first) {
-						closes = true;
-						break;
-					}
-				}
-				if (!closes) {
-					vd.cellIsInfinite[s] = true;
-				}
+			std::vector<int> ordered;
+			for (int t = first; t >= 0 && ordered.size() < triangles.size(); t = dt.neighbors[t][(corner(t) + 2) % 3]) {
+				ordered.push_back(t);
 			}
 			
 			vd.cells[s] = ordered;
@@ -449,22 +421,20 @@ private:
 	static Point2Cartesian ComputeCircumcenter(const Point2Cartesian& a, 
 	                                           const Point2Cartesian& b, 
 	                                           const Point2Cartesian& c) {
-		Real ax = a.X(), ay = a.Y();
-		Real bx = b.X(), by = b.Y();
-		Real cx = c.X(), cy = c.Y();
+		// Relative to a, so that large coordinates do not cancel
+		Real bx = b.X() - a.X(), by = b.Y() - a.Y();
+		Real cx = c.X() - a.X(), cy = c.Y() - a.Y();
 		
-		Real d = 2 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by));
-		if (std::abs(d) < 1e-14) {
+		Real d = 2 * (bx * cy - by * cx);
+		if (d == 0) {
 			// Degenerate triangle - return centroid
-			return Point2Cartesian((ax + bx + cx) / 3.0, (ay + by + cy) / 3.0);
+			return Point2Cartesian(a.X() + (bx + cx) / 3.0, a.Y() + (by + cy) / 3.0);
 		}
 		
-		Real ux = ((ax*ax + ay*ay) * (by - cy) + (bx*bx + by*by) * (cy - ay) + 
-		           (cx*cx + cy*cy) * (ay - by)) / d;
-		Real uy = ((ax*ax + ay*ay) * (cx - bx) + (bx*bx + by*by) * (ax - cx) + 
-		           (cx*cx + cy*cy) * (bx - ax)) / d;
+		Real ux = ((bx*bx + by*by) * cy - (cx*cx + cy*cy) * by) / d;
+		Real uy = ((cx*cx + cy*cy) * bx - (bx*bx + by*by) * cx) / d;
 		
-		return Point2Cartesian(ux, uy);
+		return Point2Cartesian(a.X() + ux, a.Y() + uy);
 	}
 };
 
-- 
2.43.0


From 6c8e06d96f5150b8f4923ded0e62ef9d69a6a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:24 +0000
Subject: [PATCH 121/218] fix: quantiles and p-values of the t distribution are
 wrong in the tails

---
 mml/algorithms/Statistics/Distributions.h | 284 +++++++++++++---------
 1 file changed, 169 insertions(+), 115 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 20c8eeb..92f13f8 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -13,10 +13,147 @@
 
 #include "algorithms/Statistics.h"
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 namespace MML
 {
 	namespace Statistics
 	{
+		/// Numerical kernels shared by the distributions
+		namespace DistributionDetail
+		{
+			/// @brief Regularized incomplete gamma function P(a, x), or its complement Q(a, x) = 1 - P(a, x)
+			inline Real incompleteGamma(Real a, Real x, bool complement)
+			{
+				if (x <= 0.0)
+					return complement ? 1.0 : 0.0;
+				if (std::isinf(x))
+					return complement ? 0.0 : 1.0;
+
+				const Real eps = 1.0e-15;
+				const Real fpmin = 1.0e-30;
+				const int maxIter = 200 + static_cast<int>(20.0 * std::sqrt(a));
+				const Real front = std::exp(a * std::log(x) - x - std::lgamma(a));
+
+				if (x < a + 1.0) {
+					// Series for P
+					Real term = 1.0 / a;
+					Real sum = term;
+					for (int n = 1; n <= maxIter; n++) {
+						term *= x / (a + n);
+						sum += term;
+						if (std::abs(term) < std::abs(sum) * eps)
+							break;
+					}
+					return complement ? 1.0 - front * sum : front * sum;
+				}
+
+				// Continued fraction for Q (Lentz)
+				Real b = x + 1.0 - a;
+				Real c = 1.0 / fpmin;
+				Real d = 1.0 / b;
+				Real h = d;
+				for (int i = 1; i <= maxIter; i++) {
+					Real an = -i * (i - a);
+					b += 2.0;
+					d = an * d + b;
+					if (std::abs(d) < fpmin) d = fpmin;
+					c = b + an / c;
+					if (std::abs(c) < fpmin) c = fpmin;
+					d = 1.0 / d;
+					Real delta = d * c;
+					h *= delta;
+					if (std::abs(delta - 1.0) < eps)
+						break;
+				}
+				return complement ? front * h : 1.0 - front * h;
+			}
+
+			/// @brief Regularized incomplete beta function I_x(a, b)
+			/// @param y 1 - x, passed separately because it may be known more accurately
+			///
+			/// The complement 1 - I_x(a, b) is incompleteBeta(b, a, y, x).
+			inline Real incompleteBeta(Real a, Real b, Real x, Real y)
+			{
+				if (x <= 0.0)
+					return 0.0;
+				if (y <= 0.0)
+					return 1.0;
+				if (x > (a + 1.0) / (a + b + 2.0))
+					return 1.0 - incompleteBeta(b, a, y, x);
+
+				const Real logX = x > 0.5 ? std::log1p(-y) : std::log(x);
+				const Real logY = y > 0.5 ? std::log1p(-x) : std::log(y);
+				const Real front = std::exp(std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b) + a * logX + b * logY) / a;
+
+				// Continued fraction (Lentz)
+				const Real fpmin = 1.0e-30;
+				const Real eps = 1.0e-15;
+				const int maxIter = 200 + static_cast<int>(20.0 * std::sqrt(std::max(a, b)));
+				Real qab = a + b;
+				Real qap = a + 1.0;
+				Real qam = a - 1.0;
+				Real c = 1.0;
+				Real d = 1.0 - qab * x / qap;
+				if (std::abs(d) < fpmin) d = fpmin;
+				d = 1.0 / d;
+				Real h = d;
+				for (int m = 1; m <= maxIter; m++) {
+					int m2 = 2 * m;
+
+					Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
+					d = 1.0 + aa * d;
+					if (std::abs(d) < fpmin) d = fpmin;
+					c = 1.0 + aa / c;
+					if (std::abs(c) < fpmin) c = fpmin;
+					d = 1.0 / d;
+					h *= d * c;
+
+					aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
+					d = 1.0 + aa * d;
+					if (std::abs(d) < fpmin) d = fpmin;
+					c = 1.0 + aa / c;
+					if (std::abs(c) < fpmin) c = fpmin;
+					d = 1.0 / d;
+					Real del = d * c;
+					h *= del;
+					if (std::abs(del - 1.0) < eps)
+						break;
+				}
+				return front * h;
+			}
+
+			/// @brief Root of an increasing function on (lo, hi) by Newton steps safeguarded with bisection
+			/// @param excess    function whose root is sought (e.g. cdf(x) - p), excess(lo) <= 0 <= excess(hi)
+			/// @param slope     its derivative (e.g. pdf(x))
+			/// @param x         initial guess
+			template<typename Excess, typename Slope>
+			Real increasingRoot(Excess&& excess, Slope&& slope, Real lo, Real hi, Real x)
+			{
+				if (!(x > lo && x < hi))
+					x = 0.5 * (lo + hi);
+				for (int iter = 0; iter < 2000; iter++) {
+					Real f = excess(x);
+					if (f == 0.0)
+						return x;
+					if (f < 0.0) lo = x;
+					else hi = x;
+
+					Real next = x - f / slope(x);
+					if (std::abs(next - x) <= 1e-14 * std::abs(x))
+						return x;
+					if (!(next > lo && next < hi))
+						next = (lo > 0.0 && hi > 4.0 * lo) ? std::sqrt(lo) * std::sqrt(hi) : 0.5 * (lo + hi);
+					if (next <= lo || next >= hi)
+						return x;
+					x = next;
+				}
+				return x;
+			}
+		}
+
 		/// @brief Normal (Gaussian) distribution
 		/// The normal distribution is the most important continuous distribution,
 		/// central to the Central Limit Theorem and statistical inference.
@@ -256,33 +393,8 @@ namespace MML
 			/// @return Probability that T <= x
 			Real cdf(Real x) const
 			{
-				if (df == 1) {
-					// Special case: df=1 is Cauchy distribution centered at 0
-					return 0.5 + std::atan(x) / Constants::PI;
-				}
-
-				Real nu = static_cast<Real>(df);
-				
-				if (x == 0.0)
-					return 0.5;
-				
-				// Standard formula for t-distribution CDF:
-				// For t > 0: P(T <= t) = 1 - 0.5 * I_x(df/2, 0.5)
-				// where x = df/(df + t²)
-				// For t < 0: Use symmetry P(T <= -|t|) = 1 - P(T <= |t|)
-				
-				Real absX = std::abs(x);
-				Real x2 = absX * absX;
-				Real xBeta = nu / (nu + x2);
-				Real betaReg = incompleteBetaRegularized(xBeta, nu / 2.0, 0.5);
-				
-				Real result = 1.0 - 0.5 * betaReg;
-				
-				// If x < 0, use symmetry
-				if (x < 0.0)
-					result = 1.0 - result;
-				
-				return result;
+				// By symmetry P(T <= x) = P(T > -x)
+				return sf(-x);
 			}
 
 			/// @brief Inverse cumulative distribution function (quantile function)
@@ -296,40 +408,29 @@ namespace MML
 				if (p <= 0.0 || p >= 1.0)
 					throw StatisticsError("Probability must be in (0, 1) in TDistribution::inverseCdf");
 
-				if (p == 0.5)
-					return 0.0;
-
-				if (df == 1) {
-					// Special case: df=1 is Cauchy
-					return std::tan(Constants::PI * (p - 0.5));
-				}
-
-				// Use Newton-Raphson iteration
-				// Start with normal approximation
-				Real t = StandardNormal::inverseCdf(p);
-				
-				// Refine with Newton-Raphson
-				for (int iter = 0; iter < 10; iter++) {
-					Real f = cdf(t) - p;
-					Real fprime = pdf(t);
-					
-					if (std::abs(fprime) < 1e-14)
-						break;
-					
-					Real delta = f / fprime;
-					t -= delta;
-					
-					if (std::abs(delta) < Precision::DefaultToleranceStrict)
-						break;
-				}
-				
-				return t;
+				return p < 0.5 ? -upperQuantile(p) : upperQuantile(1.0 - p);
 			}
 
 			/// @brief Survival function: P(T > t)
 			Real sf(Real x) const
 			{
-				return 1.0 - cdf(x);
+				// For t > 0: P(T > t) = 0.5 * I_x(df/2, 0.5) where x = df/(df + t²)
+				const Real nu = static_cast<Real>(df);
+				const Real absX = std::abs(x);
+				Real tail;
+				if (df == 1) {
+					// Special case: df=1 is Cauchy distribution centered at 0
+					tail = std::atan2(1.0, absX) / Constants::PI;
+				}
+				else if (absX * absX > nu) {
+					const Real r = nu / absX / absX;
+					tail = 0.5 * DistributionDetail::incompleteBeta(nu / 2.0, 0.5, r / (1.0 + r), 1.0 / (1.0 + r));
+				}
+				else {
+					const Real r = absX * absX / nu;
+					tail = 0.5 * DistributionDetail::incompleteBeta(nu / 2.0, 0.5, 1.0 / (1.0 + r), r / (1.0 + r));
+				}
+				return x < 0.0 ? 1.0 - tail : tail;
 			}
 
 			/// @brief Two-tailed p-value: P(|T| > |t|)
@@ -352,7 +453,7 @@ namespace MML
 					throw StatisticsError("Alpha must be in (0, 1) in TDistribution::criticalValue");
 				
 				// Two-tailed: find t* where P(T > t*) = alpha/2
-				return inverseCdf(1.0 - alpha / 2.0);
+				return upperQuantile(alpha / 2.0);
 			}
 
 			/// @brief Mean of the distribution (if it exists)
@@ -379,69 +480,22 @@ namespace MML
 			}
 
 		private:
-			/// @brief Regularized incomplete beta function I_x(a, b)
-			/// Uses continued fraction expansion (Lentz's method).
-			/// Based on Numerical Recipes formula 6.4.5
-			static Real incompleteBetaRegularized(Real x, Real a, Real b)
+			/// @brief Value t >= 0 with P(T > t) = q, for 0 < q <= 0.5
+			Real upperQuantile(Real q) const
 			{
-				if (x < 0.0 || x > 1.0)
+				if (q == 0.5)
 					return 0.0;
-				if (x == 0.0)
-					return 0.0;
-				if (x == 1.0)
-					return 1.0;
-
-				// Use symmetry relation if x > (a+1)/(a+b+2)
-				bool useSymmetry = (x > (a + 1.0) / (a + b + 2.0));
-				if (useSymmetry) {
-					return 1.0 - incompleteBetaRegularized(1.0 - x, b, a);
-				}
-
-				// Compute log of beta function B(a, b) = Γ(a)Γ(b)/Γ(a+b)
-				Real logBeta = std::lgamma(a) + std::lgamma(b) - std::lgamma(a + b);
-				
-				// Front factor: exp(a*ln(x) + b*ln(1-x) - ln(B(a,b))) / a
-				Real front = std::exp(a * std::log(x) + b * std::log(1.0 - x) - logBeta) / a;
 
-				// Modified Lentz's method for continued fraction
-				// Formula from Numerical Recipes (Press et al.)
-				const Real fpmin = 1.0e-30;
-				const Real eps = 1.0e-15;
-				const int maxIter = 200;
-				
-				Real qab = a + b;
-				Real qap = a + 1.0;
-				Real qam = a - 1.0;
-				Real c = 1.0;
-				Real d = 1.0 - qab * x / qap;
-				if (std::abs(d) < fpmin) d = fpmin;
-				d = 1.0 / d;
-				Real h = d;
-				
-				for (int m = 1; m <= maxIter; m++) {
-					int m2 = 2 * m;
-					Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
-					d = 1.0 + aa * d;
-					if (std::abs(d) < fpmin) d = fpmin;
-					c = 1.0 + aa / c;
-					if (std::abs(c) < fpmin) c = fpmin;
-					d = 1.0 / d;
-					h *= d * c;
-					
-					aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
-					d = 1.0 + aa * d;
-					if (std::abs(d) < fpmin) d = fpmin;
-					c = 1.0 + aa / c;
-					if (std::abs(c) < fpmin) c = fpmin;
-					d = 1.0 / d;
-					Real del = d * c;
-					h *= del;
-					
-					if (std::abs(del - 1.0) < eps)
-						break;
+				if (df == 1) {
+					// Special case: df=1 is Cauchy
+					return 1.0 / std::tan(Constants::PI * q);
 				}
 
-				return front * h;
+				// Bracket the quantile, starting from the normal one, and refine
+				const Real start = -StandardNormal::inverseCdf(q);
+				Real high = std::max<Real>(2.0 * start, 1.0);
+				while (sf(high) > q) high *= 2.0;
+				return DistributionDetail::increasingRoot([&](Real t) { return q - sf(t); }, [&](Real t) { return pdf(t); }, Real(0.0), high, start);
 			}
 		};
 
-- 
2.43.0


From 89eec5ca3a115481cb44ac468689b4109b540b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:24 +0000
Subject: [PATCH 122/218] fix: densities of the chi-square and F distributions
 with one degree of freedom vanish at zero

---
 mml/algorithms/Statistics/Distributions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 92f13f8..56945fc 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -532,7 +532,7 @@ namespace MML
 			Real pdf(Real x) const
 			{
 				if (x < 0.0) return 0.0;
-				if (x == 0.0) return (_df == 2) ? 0.5 : 0.0;
+				if (x == 0.0) return (_df == 1) ? std::numeric_limits<Real>::infinity() : (_df == 2) ? 0.5 : 0.0;
 
 				Real k2 = _df / 2.0;
 				return std::exp((k2 - 1.0) * std::log(x) - x / 2.0 - k2 * std::log(2.0) - std::lgamma(k2));
@@ -707,7 +707,7 @@ namespace MML
       Real pdf(Real x) const
       {
         if (x < 0.0) return 0.0;
-        if (x == 0.0) return (_df1 == 2) ? 1.0 : 0.0;
+        if (x == 0.0) return (_df1 == 1) ? std::numeric_limits<Real>::infinity() : (_df1 == 2) ? 1.0 : 0.0;
 
         Real d1 = _df1 / 2.0;
         Real d2 = _df2 / 2.0;
-- 
2.43.0


From 1608b0883eb9cbd7b5f9c8b4ece251111fc1539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:39 +0000
Subject: [PATCH 123/218] fix: critical values of the chi-square distribution
 are wrong for small significance levels, infinite statistics give NaN

---
 mml/algorithms/Statistics/Distributions.h | 96 ++---------------------
 1 file changed, 6 insertions(+), 90 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 56945fc..46c3d77 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -546,7 +546,7 @@ namespace MML
 				if (x <= 0.0) return 0.0;
 				
 				// CDF = P(k/2, x/2) where P is regularized lower incomplete gamma
-				return incompleteGammaP(_df / 2.0, x / 2.0);
+				return DistributionDetail::incompleteGamma(_df / 2.0, x / 2.0, false);
 			}
 
 			/// @brief Right-tail probability P(X ≥ x)
@@ -554,7 +554,7 @@ namespace MML
 			/// This is the p-value for chi-square tests
 			Real rightTailPValue(Real chiSquare) const
 			{
-				return 1.0 - cdf(chiSquare);
+				return DistributionDetail::incompleteGamma(_df / 2.0, chiSquare / 2.0, true);
 			}
 
 			/// @brief Critical value for given significance level (right-tail test)
@@ -565,95 +565,11 @@ namespace MML
 				if (alpha <= 0.0 || alpha >= 1.0)
 					throw StatisticsError("Alpha must be in (0, 1)");
 
-				// Find x where CDF(x) = 1 - alpha using binary search
-				Real low = 0.0;
+				// Find x where P(X > x) = alpha, from a bracket that contains it
+				auto excess = [&](Real x) { return alpha < 0.5 ? alpha - rightTailPValue(x) : cdf(x) - (1.0 - alpha); };
 				Real high = mean() + 10.0 * stddev();  // Start with reasonable upper bound
-				Real tolerance = 1e-9;
-				int maxIterations = 100;
-
-				for (int iter = 0; iter < maxIterations; iter++) {
-					Real mid = (low + high) / 2.0;
-					Real cdf_mid = cdf(mid);
-					Real target = 1.0 - alpha;
-
-					if (std::abs(cdf_mid - target) < tolerance)
-						return mid;
-
-					if (cdf_mid < target)
-						low = mid;
-					else
-						high = mid;
-				}
-
-				return (low + high) / 2.0;
-			}
-
-		private:
-			/// @brief Regularized lower incomplete gamma function P(a,x)
-			/// P(a,x) = γ(a,x) / Γ(a)
-			Real incompleteGammaP(Real a, Real x) const
-			{
-				if (x < 0.0 || a <= 0.0)
-					return 0.0;
-
-				if (x == 0.0)
-					return 0.0;
-
-				// Use series expansion for x < a+1
-				if (x < a + 1.0) {
-					return gammaSeriesExpansion(a, x);
-				}
-				// Use continued fraction for x >= a+1
-				else {
-					return 1.0 - gammaContinuedFraction(a, x);
-				}
-			}
-
-			/// @brief Series expansion for incomplete gamma
-			Real gammaSeriesExpansion(Real a, Real x) const
-			{
-				Real sum = 1.0 / a;
-				Real term = 1.0 / a;
-				Real tolerance = 1e-12;
-
-				for (int n = 1; n <= 1000; n++) {
-					term *= x / (a + n);
-					sum += term;
-
-					if (std::abs(term) < std::abs(sum) * tolerance)
-						break;
-				}
-
-				return sum * std::exp(-x + a * std::log(x) - std::lgamma(a));
-			}
-
-			/// @brief Continued fraction for incomplete gamma
-			Real gammaContinuedFraction(Real a, Real x) const
-			{
-				Real tolerance = 1e-12;
-				Real fpmin = 1e-30;
-
-				Real b = x + 1.0 - a;
-				Real c = 1.0 / fpmin;
-				Real d = 1.0 / b;
-				Real h = d;
-
-				for (int i = 1; i <= 1000; i++) {
-					Real an = -i * (i - a);
-					b += 2.0;
-					d = an * d + b;
-					if (std::abs(d) < fpmin) d = fpmin;
-					c = b + an / c;
-					if (std::abs(c) < fpmin) c = fpmin;
-					d = 1.0 / d;
-					Real delta = d * c;
-					h *= delta;
-
-					if (std::abs(delta - 1.0) < tolerance)
-						break;
-				}
-
-				return h * std::exp(-x + a * std::log(x) - std::lgamma(a));
+				while (excess(high) < 0.0) high *= 2.0;
+				return DistributionDetail::increasingRoot(excess, [&](Real x) { return pdf(x); }, Real(0.0), high, mean());
 			}
 		};
 
-- 
2.43.0


From ae2c417c89335480440ea4e89b41467b41eb2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:57 +0000
Subject: [PATCH 124/218] fix: critical values of the F distribution are
 limited to 100, p-values of large or infinite statistics are wrong

---
 mml/algorithms/Statistics/Distributions.h | 100 ++++------------------
 1 file changed, 16 insertions(+), 84 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 46c3d77..16eb659 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -644,10 +644,7 @@ namespace MML
       {
         if (x <= 0.0) return 0.0;
 
-        // F-CDF = I_y(df1/2, df2/2) where y = (df1*x)/(df1*x + df2)
-        // I is regularized incomplete beta function
-        Real y = (_df1 * x) / (_df1 * x + _df2);
-        return incompleteBeta(_df1 / 2.0, _df2 / 2.0, y);
+        return tail(x, false);
       }
 
       /// @brief Right-tail probability P(F ≥ f)
@@ -655,6 +652,8 @@ namespace MML
       /// This is the p-value for F-tests (ANOVA, regression)
       Real rightTailPValue(Real f) const
       {
+        if (f <= 0.0) return 1.0;
+        return tail(f, true);
         return 1.0 - cdf(f);
       }
 
@@ -666,91 +665,24 @@ namespace MML
         if (alpha <= 0.0 || alpha >= 1.0)
           throw StatisticsError("Alpha must be in (0, 1)");
 
-        // Binary search for critical value
-        Real low = 0.0;
+        // Find f where P(F > f) = alpha, from a bracket that contains it
+        auto excess = [&](Real f) { return alpha < 0.5 ? alpha - rightTailPValue(f) : cdf(f) - (1.0 - alpha); };
         Real high = 100.0;  // Start with reasonable upper bound
-        Real tolerance = 1e-9;
-        int maxIterations = 100;
-
-        for (int iter = 0; iter < maxIterations; iter++) {
-          Real mid = (low + high) / 2.0;
-          Real pValue = rightTailPValue(mid);
-
-          if (std::abs(pValue - alpha) < tolerance)
-            return mid;
-
-          if (pValue > alpha)  // Need larger F
-            low = mid;
-          else  // Need smaller F
-            high = mid;
-        }
-
-        return (low + high) / 2.0;
+        while (excess(high) < 0.0) high *= 2.0;
+        return DistributionDetail::increasingRoot(excess, [&](Real f) { return pdf(f); }, Real(0.0), high, Real(1.0));
       }
 
     private:
-      /// @brief Regularized incomplete beta function I_x(a,b)
-      Real incompleteBeta(Real a, Real b, Real x) const
+      /// @brief P(F > x) or P(F <= x) for x > 0
+      Real tail(Real x, bool upper) const
       {
-        if (x < 0.0 || x > 1.0)
-          return 0.0;
-        if (x == 0.0) return 0.0;
-        if (x == 1.0) return 1.0;
-
-        // Use symmetry relation if needed
-        if (x > (a + 1.0) / (a + b + 2.0)) {
-          return 1.0 - incompleteBeta(b, a, 1.0 - x);
-        }
-
-        // Continued fraction evaluation
-        Real bt = std::exp(std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b) +
-                          a * std::log(x) + b * std::log(1.0 - x));
-
-        if (x < (a + 1.0) / (a + b + 2.0))
-          return bt * betaContinuedFraction(a, b, x) / a;
-        else
-          return 1.0 - bt * betaContinuedFraction(b, a, 1.0 - x) / b;
-      }
-
-      /// @brief Continued fraction for incomplete beta
-      Real betaContinuedFraction(Real a, Real b, Real x) const
-      {
-        Real tolerance = 1e-12;
-        Real fpmin = 1e-30;
-        Real qab = a + b;
-        Real qap = a + 1.0;
-        Real qam = a - 1.0;
-        Real c = 1.0;
-        Real d = 1.0 - qab * x / qap;
-
-        if (std::abs(d) < fpmin) d = fpmin;
-        d = 1.0 / d;
-        Real h = d;
-
-        for (int m = 1; m <= 1000; m++) {
-          int m2 = 2 * m;
-          Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
-          d = 1.0 + aa * d;
-          if (std::abs(d) < fpmin) d = fpmin;
-          c = 1.0 + aa / c;
-          if (std::abs(c) < fpmin) c = fpmin;
-          d = 1.0 / d;
-          h *= d * c;
-
-          aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
-          d = 1.0 + aa * d;
-          if (std::abs(d) < fpmin) d = fpmin;
-          c = 1.0 + aa / c;
-          if (std::abs(c) < fpmin) c = fpmin;
-          d = 1.0 / d;
-          Real delta = d * c;
-          h *= delta;
-
-          if (std::abs(delta - 1.0) < tolerance)
-            break;
-        }
-
-        return h;
+        // F-CDF = I_y(df1/2, df2/2) where y = (df1*x)/(df1*x + df2)
+        // I is regularized incomplete beta function; 1 - y is kept apart because it may be tiny
+        const Real ratio = static_cast<Real>(_df1) / _df2 * x;
+        const Real y = ratio > 1.0 ? 1.0 / (1.0 + 1.0 / ratio) : ratio / (1.0 + ratio);
+        const Real y1 = 1.0 / (1.0 + ratio);
+        return upper ? DistributionDetail::incompleteBeta(_df2 / 2.0, _df1 / 2.0, y1, y)
+                     : DistributionDetail::incompleteBeta(_df1 / 2.0, _df2 / 2.0, y, y1);
       }
     };
 
-- 
2.43.0


From e16f017f6c8226ab265b78b300d08781debb2141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:57 +0000
Subject: [PATCH 125/218] fix: density of the logistic distribution is NaN far
 below the mean

---
 mml/algorithms/Statistics/Distributions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 16eb659..a58acd7 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -813,7 +813,7 @@ namespace MML
 				// Standard logistic PDF: f(x) = e^(-z) / (σ(1 + e^(-z))²)
 				// where z = (x - μ) / σ
 				Real z = (x - mu) / sigma;
-				Real exp_neg_z = std::exp(-z);
+				Real exp_neg_z = std::exp(-std::abs(z));  // the density is symmetric
 				Real denom = 1.0 + exp_neg_z;
 				return exp_neg_z / (sigma * denom * denom);
 			}
-- 
2.43.0


From e78104d1b974ecc6fdd7176ad302a2b06d323f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:57 +0000
Subject: [PATCH 126/218] fix: density of the Pareto distribution overflows for
 large shape parameters

---
 mml/algorithms/Statistics/Distributions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index a58acd7..10a9268 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -1272,7 +1272,7 @@ namespace MML
 			Real pdf(Real x) const
 			{
 				if (x < xm) return 0.0;
-				return alpha * std::pow(xm, alpha) / std::pow(x, alpha + 1.0);
+				return alpha / x * std::pow(xm / x, alpha);
 			}
 
 			/// @brief Cumulative distribution function (CDF)
-- 
2.43.0


From b4986c1cc10dae6a60ec6c33e5a85950f76691f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:34 +0000
Subject: [PATCH 127/218] fix: distribution function of the gamma distribution
 is wrong for large shapes, its quantiles for small shapes

---
 mml/algorithms/Statistics/Distributions.h | 72 +++++------------------
 1 file changed, 15 insertions(+), 57 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 10a9268..2e8c721 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -938,6 +938,8 @@ namespace MML
 				if (x == 0.0) return (shape < 1.0) ? std::numeric_limits<Real>::infinity() 
 				                                  : (shape == 1.0 ? 1.0/scale : 0.0);
 				
+				if (std::isinf(x)) return 0.0;
+
 				// Use log-space for numerical stability
 				Real logPdf = (shape - 1.0) * std::log(x) - x / scale 
 				            - shape * std::log(scale) - std::lgamma(shape);
@@ -949,7 +951,7 @@ namespace MML
 			Real cdf(Real x) const
 			{
 				if (x <= 0.0) return 0.0;
-				return incompleteGammaP(shape, x / scale);
+				return DistributionDetail::incompleteGamma(shape, x / scale, false);
 			}
 
 			/// @brief Inverse CDF (quantile function) - uses Newton-Raphson
@@ -958,74 +960,30 @@ namespace MML
 				if (p <= 0.0) return 0.0;
 				if (p >= 1.0) return std::numeric_limits<Real>::infinity();
 
-				// Initial guess using Wilson-Hilferty approximation for large shape
-				Real x;
+				// Initial guess using Wilson-Hilferty approximation for large shape,
+				// leading term of the distribution function for small shape or far lower tail
+				Real x = 0.0;
 				if (shape >= 1.0) {
 					Real z = inverseStandardNormalCdf(p);
 					Real h = 1.0 / (9.0 * shape);
 					x = shape * scale * std::pow(1.0 - h + z * std::sqrt(h), 3);
-					if (x <= 0.0) x = 0.5 * shape * scale;
-				} else {
-					x = 0.5 * shape * scale;
 				}
+				if (x <= 0.0) x = scale * std::exp((std::log(p) + std::lgamma(shape + 1.0)) / shape);
+				if (x == 0.0) return 0.0;
 
-				// Newton-Raphson refinement
-				for (int iter = 0; iter < 50; iter++) {
-					Real f = cdf(x) - p;
-					Real fp = pdf(x);
-					if (std::abs(fp) < 1e-30) break;
-					Real dx = f / fp;
-					x -= dx;
-					if (x <= 0.0) x = 1e-10;
-					if (std::abs(dx) < 1e-12 * x) break;
-				}
-				return x;
+				// Bracketed Newton-Raphson refinement
+				auto excess = [&](Real t) {
+					return p < 0.5 ? cdf(t) - p : (1.0 - p) - DistributionDetail::incompleteGamma(shape, t / scale, true);
+				};
+				Real high = std::max<Real>(2.0 * x, mean());
+				while (excess(high) < 0.0) high *= 2.0;
+				return DistributionDetail::increasingRoot(excess, [&](Real t) { return pdf(t); }, Real(0.0), high, x);
 			}
 
 			Real mean() const { return shape * scale; }
 			Real variance() const { return shape * scale * scale; }
 
 		private:
-			/// @brief Regularized lower incomplete gamma function P(a,x)
-			static Real incompleteGammaP(Real a, Real x)
-			{
-				if (x < 0.0) return 0.0;
-				if (x == 0.0) return 0.0;
-
-				if (x < a + 1.0) {
-					// Series representation
-					Real ap = a;
-					Real sum = 1.0 / a;
-					Real del = sum;
-					for (int n = 1; n <= 200; n++) {
-						ap += 1.0;
-						del *= x / ap;
-						sum += del;
-						if (std::abs(del) < std::abs(sum) * 1e-15) break;
-					}
-					return sum * std::exp(-x + a * std::log(x) - std::lgamma(a));
-				} else {
-					// Continued fraction representation
-					Real b = x + 1.0 - a;
-					Real c = 1.0 / 1e-30;
-					Real d = 1.0 / b;
-					Real h = d;
-					for (int n = 1; n <= 200; n++) {
-						Real an = -n * (n - a);
-						b += 2.0;
-						d = an * d + b;
-						if (std::abs(d) < 1e-30) d = 1e-30;
-						c = b + an / c;
-						if (std::abs(c) < 1e-30) c = 1e-30;
-						d = 1.0 / d;
-						Real del = d * c;
-						h *= del;
-						if (std::abs(del - 1.0) < 1e-15) break;
-					}
-					return 1.0 - h * std::exp(-x + a * std::log(x) - std::lgamma(a));
-				}
-			}
-
 			/// @brief Inverse standard normal CDF (probit)
 			static Real inverseStandardNormalCdf(Real p)
 			{
-- 
2.43.0


From 3dc2e7aca1a0d46e0877ccdfa976177726354624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:34 +0000
Subject: [PATCH 128/218] fix: quantiles of the beta distribution are wrong for
 small shape parameters

---
 mml/algorithms/Statistics/Distributions.h | 71 ++++-------------------
 1 file changed, 11 insertions(+), 60 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 2e8c721..1c6c0f4 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -1065,7 +1065,7 @@ namespace MML
 			{
 				if (x <= 0.0) return 0.0;
 				if (x >= 1.0) return 1.0;
-				return incompleteBetaRegularized(x, alpha, beta);
+				return DistributionDetail::incompleteBeta(alpha, beta, x, 1.0 - x);
 			}
 
 			/// @brief Inverse CDF (quantile function) - uses Newton-Raphson
@@ -1074,25 +1074,17 @@ namespace MML
 				if (p <= 0.0) return 0.0;
 				if (p >= 1.0) return 1.0;
 
-				// Initial guess
-				Real x = 0.5;
-				if (alpha > 1.0 && beta > 1.0) {
-					// Mode-based initial guess
-					x = (alpha - 1.0) / (alpha + beta - 2.0);
-				}
+				// Initial guess: the leading term of the distribution function at the nearer end
+				const Real logB = std::lgamma(alpha) + std::lgamma(beta) - std::lgamma(alpha + beta);
+				Real x = std::exp((std::log(p) + std::log(alpha) + logB) / alpha);
+				if (x == 0.0) return 0.0;
+				if (x > 0.5) x = alpha / (alpha + beta);
 
-				// Newton-Raphson
-				for (int iter = 0; iter < 50; iter++) {
-					Real f = cdf(x) - p;
-					Real fp = pdf(x);
-					if (std::abs(fp) < 1e-30) break;
-					Real dx = f / fp;
-					x -= dx;
-					if (x <= 0.0) x = 1e-10;
-					if (x >= 1.0) x = 1.0 - 1e-10;
-					if (std::abs(dx) < 1e-12) break;
-				}
-				return x;
+				// Bracketed Newton-Raphson refinement
+				auto excess = [&](Real t) {
+					return p < 0.5 ? cdf(t) - p : (1.0 - p) - DistributionDetail::incompleteBeta(beta, alpha, 1.0 - t, t);
+				};
+				return DistributionDetail::increasingRoot(excess, [&](Real t) { return pdf(t); }, Real(0.0), Real(1.0), x);
 			}
 
 			Real mean() const { return alpha / (alpha + beta); }
@@ -1101,47 +1093,6 @@ namespace MML
 				Real ab = alpha + beta;
 				return (alpha * beta) / (ab * ab * (ab + 1.0));
 			}
-
-		private:
-			/// @brief Regularized incomplete beta function I_x(a,b)
-			static Real incompleteBetaRegularized(Real x, Real a, Real b)
-			{
-				if (x <= 0.0) return 0.0;
-				if (x >= 1.0) return 1.0;
-
-				// Use symmetry if needed for convergence
-				if (x > (a + 1.0) / (a + b + 2.0)) {
-					return 1.0 - incompleteBetaRegularized(1.0 - x, b, a);
-				}
-
-				Real bt = std::exp(std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b)
-				                 + a * std::log(x) + b * std::log(1.0 - x));
-
-				// Continued fraction (Lentz's method)
-				Real qab = a + b, qap = a + 1.0, qam = a - 1.0;
-				Real c = 1.0, d = 1.0 - qab * x / qap;
-				if (std::abs(d) < 1e-30) d = 1e-30;
-				d = 1.0 / d;
-				Real h = d;
-
-				for (int m = 1; m <= 200; m++) {
-					int m2 = 2 * m;
-					Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
-					d = 1.0 + aa * d; if (std::abs(d) < 1e-30) d = 1e-30;
-					c = 1.0 + aa / c; if (std::abs(c) < 1e-30) c = 1e-30;
-					d = 1.0 / d;
-					h *= d * c;
-
-					aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
-					d = 1.0 + aa * d; if (std::abs(d) < 1e-30) d = 1e-30;
-					c = 1.0 + aa / c; if (std::abs(c) < 1e-30) c = 1e-30;
-					d = 1.0 / d;
-					Real del = d * c;
-					h *= del;
-					if (std::abs(del - 1.0) < 1e-15) break;
-				}
-				return bt * h / a;
-			}
 		};
 
 		//=========================================================================
-- 
2.43.0


From d7f98169e401bfc8586e0f634dfd98209aa8866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:34 +0000
Subject: [PATCH 129/218] fix: density of the Weibull distribution is NaN far
 above the scale

---
 mml/algorithms/Statistics/Distributions.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 1c6c0f4..15d33eb 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -1126,7 +1126,9 @@ namespace MML
 				if (x == 0.0) return (shape < 1.0) ? std::numeric_limits<Real>::infinity()
 				                                  : (shape == 1.0 ? 1.0/scale : 0.0);
 				Real z = x / scale;
-				return (shape / scale) * std::pow(z, shape - 1.0) * std::exp(-std::pow(z, shape));
+				Real decay = std::exp(-std::pow(z, shape));
+				if (decay == 0.0) return 0.0;
+				return (shape / scale) * std::pow(z, shape - 1.0) * decay;
 			}
 
 			/// @brief Cumulative distribution function (CDF)
-- 
2.43.0


From e0e04573be911aa885589fe2feda31631639a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:18 +0000
Subject: [PATCH 130/218] fix: densities of the chi-square and F distributions
 are NaN at infinity

---
 mml/algorithms/Statistics/Distributions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 15d33eb..9b54aab 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -142,7 +142,7 @@ namespace MML
 					else hi = x;
 
 					Real next = x - f / slope(x);
-					if (std::abs(next - x) <= 1e-14 * std::abs(x))
+					if (std::abs(next - x) <= 2 * std::numeric_limits<Real>::epsilon() * std::abs(x))
 						return x;
 					if (!(next > lo && next < hi))
 						next = (lo > 0.0 && hi > 4.0 * lo) ? std::sqrt(lo) * std::sqrt(hi) : 0.5 * (lo + hi);
@@ -531,7 +531,7 @@ namespace MML
 			/// @brief Probability Density Function
 			Real pdf(Real x) const
 			{
-				if (x < 0.0) return 0.0;
+				if (x < 0.0 || std::isinf(x)) return 0.0;
 				if (x == 0.0) return (_df == 1) ? std::numeric_limits<Real>::infinity() : (_df == 2) ? 0.5 : 0.0;
 
 				Real k2 = _df / 2.0;
@@ -622,7 +622,7 @@ namespace MML
       /// @brief Probability Density Function
       Real pdf(Real x) const
       {
-        if (x < 0.0) return 0.0;
+        if (x < 0.0 || std::isinf(x)) return 0.0;
         if (x == 0.0) return (_df1 == 1) ? std::numeric_limits<Real>::infinity() : (_df1 == 2) ? 1.0 : 0.0;
 
         Real d1 = _df1 / 2.0;
-- 
2.43.0


From df9c8faf4b6be4b7e316d997d05e67dcf0c6b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:21 +0000
Subject: [PATCH 131/218] fix: rounding of the mean gives constant data a
 variance, correlations and skewness (or a NaN deviation)

---
 mml/algorithms/Statistics.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mml/algorithms/Statistics.h b/mml/algorithms/Statistics.h
index 26e118b..473ad43 100644
--- a/mml/algorithms/Statistics.h
+++ b/mml/algorithms/Statistics.h
@@ -34,6 +34,14 @@ namespace MML {
 				outAvg += data[j];
 			outAvg /= n;
 
+			// Remove the rounding error of the sum, so that the mean of equal values is that value
+			if (std::isfinite(outAvg)) {
+				Real rest = 0.0;
+				for (int j = 0; j < n; j++)
+					rest += data[j] - outAvg;
+				outAvg += rest / n;
+			}
+
 			return outAvg;
 		}
 
@@ -87,10 +95,7 @@ namespace MML {
 			if (n <= 1)
 				throw StatisticsError("Vector size must be greater than 1 in Moments");
 
-			s = 0.0;
-			for (j = 0; j < n; j++)
-				s += data[j];
-			ave = s / n;
+			ave = Avg(data);
 
 			adev = var = skew = curt = 0.0;
 			for (j = 0; j < n; j++) {
@@ -682,10 +687,10 @@ namespace MML {
 			// Compute means for each variable
 			Vector<Real> means(p);
 			for (int j = 0; j < p; j++) {
-				Real sum = 0.0;
+				Vector<Real> column(n);
 				for (int i = 0; i < n; i++)
-					sum += data(i, j);
-				means[j] = sum / n;
+					column[i] = data(i, j);
+				means[j] = Avg(column);
 			}
 
 			// Compute covariance matrix
-- 
2.43.0


From 12a042b9f2d6565954cd99b9f09f7acc99e6a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:45 +0000
Subject: [PATCH 132/218] fix: ties in rank statistics depend on an absolute
 tolerance

---
 mml/algorithms/Statistics/StatisticsRank.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/Statistics/StatisticsRank.h b/mml/algorithms/Statistics/StatisticsRank.h
index 50a0a91..9cf8565 100644
--- a/mml/algorithms/Statistics/StatisticsRank.h
+++ b/mml/algorithms/Statistics/StatisticsRank.h
@@ -47,7 +47,7 @@ namespace MML
 			while (i < n) {
 				int j = i;
 				// Find extent of tied values
-				while (j < n - 1 && std::abs(data[indices[j + 1]] - data[indices[i]]) < 1e-14)
+				while (j < n - 1 && data[indices[j + 1]] == data[indices[i]])
 					j++;
 
 				// Average rank for tied values
@@ -170,7 +170,6 @@ namespace MML
 			long long tiedX = 0;
 			long long tiedY = 0;
 
-			const Real eps = 1e-14;
 
 			// Count all pairs
 			for (int i = 0; i < n - 1; i++) {
@@ -178,8 +177,8 @@ namespace MML
 					Real dx = x[j] - x[i];
 					Real dy = y[j] - y[i];
 
-					bool xTied = std::abs(dx) < eps;
-					bool yTied = std::abs(dy) < eps;
+					bool xTied = dx == 0.0;
+					bool yTied = dy == 0.0;
 
 					if (xTied && yTied) {
 						// Both tied - don't count
-- 
2.43.0


From 0f5974c9f9de0775707950168f716c641a66d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 133/218] fix: significance of rank correlations knows only two
 significance levels

---
 mml/algorithms/Statistics/StatisticsBase.h | 4 ++--
 mml/algorithms/Statistics/StatisticsRank.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/Statistics/StatisticsBase.h b/mml/algorithms/Statistics/StatisticsBase.h
index 015ea79..2c7bfd1 100644
--- a/mml/algorithms/Statistics/StatisticsBase.h
+++ b/mml/algorithms/Statistics/StatisticsBase.h
@@ -61,8 +61,8 @@ namespace MML
 
 			/// Check if correlation is significant at given alpha level
 			bool IsSignificant(Real alpha = 0.05) const {
-				Real criticalZ = (alpha <= 0.01) ? 2.576 : 1.96;
-				return std::abs(zScore) > criticalZ;
+				// two-sided p-value of the standard normal distribution
+				return std::erfc(std::abs(zScore) / std::sqrt(2.0)) < alpha;
 			}
 		};
 
diff --git a/mml/algorithms/Statistics/StatisticsRank.h b/mml/algorithms/Statistics/StatisticsRank.h
index 9cf8565..135c2d5 100644
--- a/mml/algorithms/Statistics/StatisticsRank.h
+++ b/mml/algorithms/Statistics/StatisticsRank.h
@@ -103,11 +103,11 @@ namespace MML
 			/// @brief Check if correlation is significant at given alpha level
 			/// Uses normal approximation (valid for n > 10)
 			///
-			/// Critical z-values: α=0.05 → z=1.96, α=0.01 → z=2.576
+			/// Two-sided test, e.g. α=0.05 ↔ z=1.96, α=0.01 ↔ z=2.576
 			bool IsSignificant(Real alpha = 0.05) const
 			{
-				Real criticalZ = (alpha <= 0.01) ? 2.576 : 1.96;
-				return std::abs(zScore) > criticalZ;
+				// two-sided p-value of the standard normal distribution
+				return std::erfc(std::abs(zScore) / std::sqrt(2.0)) < alpha;
 			}
 		};
 
-- 
2.43.0


From bcb224ca9c8e678a73897ae6d870cfd97c63c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 134/218] fix: rounding makes correlation coefficients exceed
 one

---
 mml/algorithms/Statistics.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/Statistics.h b/mml/algorithms/Statistics.h
index 473ad43..38a070f 100644
--- a/mml/algorithms/Statistics.h
+++ b/mml/algorithms/Statistics.h
@@ -603,7 +603,9 @@ namespace MML {
 			if (sumY2 == 0.0)
 				throw StatisticsError("Second variable has zero variance in PearsonCorrelation");
 
-			return sumXY / std::sqrt(sumX2 * sumY2);
+			// rounding must not lead out of [-1, 1]
+			Real r = sumXY / (std::sqrt(sumX2) * std::sqrt(sumY2));
+			return std::max<Real>(-1.0, std::min<Real>(1.0, r));
 		}
 
 		/// @brief Result structure for correlation with significance test
@@ -742,7 +744,8 @@ namespace MML {
 			Matrix<Real> corrMatrix(p, p);
 			for (int j1 = 0; j1 < p; j1++) {
 				for (int j2 = 0; j2 < p; j2++) {
-					corrMatrix(j1, j2) = covMatrix(j1, j2) / (stdDevs[j1] * stdDevs[j2]);
+					Real r = covMatrix(j1, j2) / (stdDevs[j1] * stdDevs[j2]);
+					corrMatrix(j1, j2) = (j1 == j2) ? 1.0 : std::max<Real>(-1.0, std::min<Real>(1.0, r));
 				}
 			}
 
-- 
2.43.0


From af2500d95d0e8b3154cb74003db1cafefcf5fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:23 +0000
Subject: [PATCH 135/218] fix: t-tests and ANOVA of data without variation give
 NaN

---
 .../Statistics/StatisticsHypothesis.h         | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/Statistics/StatisticsHypothesis.h b/mml/algorithms/Statistics/StatisticsHypothesis.h
index 80b5b23..9274e08 100644
--- a/mml/algorithms/Statistics/StatisticsHypothesis.h
+++ b/mml/algorithms/Statistics/StatisticsHypothesis.h
@@ -87,15 +87,14 @@ namespace MML
 			// Handle zero variance edge case
 			if (sampleStd == 0.0) {
 				// All values are identical
-				Real diff = std::abs(sampleMean - mu0);
-				if (diff < std::numeric_limits<Real>::epsilon()) {
+				if (sample[0] == mu0) {
 					// Perfect match with mu0 - cannot reject null
 					return HypothesisTestResult(0.0, 1.0, 0.0, false, 1.0 - alpha, df, "One-Sample t-Test");
 				}
 				else {
 					// All values identical but different from mu0 - strong evidence against null
 					// Return large finite t-statistic instead of infinity
-					Real largeT = (sampleMean > mu0) ? 1000.0 : -1000.0;
+					Real largeT = (sample[0] > mu0) ? 1000.0 : -1000.0;
 					return HypothesisTestResult(largeT, 0.0, 0.0, true, 1.0 - alpha, df, "One-Sample t-Test");
 				}
 			}
@@ -167,6 +166,14 @@ namespace MML
 			// Standard error
 			Real standardError = pooledStd * std::sqrt(1.0 / n1 + 1.0 / n2);
 
+			// Zero variance in both samples: same convention as in the one-sample test
+			if (standardError == 0.0) {
+				if (sample1[0] == sample2[0])
+					return HypothesisTestResult(0.0, 1.0, 0.0, false, 1.0 - alpha, n1 + n2 - 2, "Two-Sample t-Test (Pooled)");
+				Real largeT = (sample1[0] > sample2[0]) ? 1000.0 : -1000.0;
+				return HypothesisTestResult(largeT, 0.0, 0.0, true, 1.0 - alpha, n1 + n2 - 2, "Two-Sample t-Test (Pooled)");
+			}
+
 			// t-statistic
 			Real tStatistic = (mean1 - mean2) / standardError;
 
@@ -234,6 +241,14 @@ namespace MML
 			Real se2 = var2 / n2;
 			Real standardError = std::sqrt(se1 + se2);
 
+			// Zero variance in both samples: same convention as in the one-sample test
+			if (standardError == 0.0) {
+				if (sample1[0] == sample2[0])
+					return HypothesisTestResult(0.0, 1.0, 0.0, false, 1.0 - alpha, n1 + n2 - 2, "Welch's t-Test (Unequal Variances)");
+				Real largeT = (sample1[0] > sample2[0]) ? 1000.0 : -1000.0;
+				return HypothesisTestResult(largeT, 0.0, 0.0, true, 1.0 - alpha, n1 + n2 - 2, "Welch's t-Test (Unequal Variances)");
+			}
+
 			// t-statistic
 			Real tStatistic = (mean1 - mean2) / standardError;
 
@@ -538,10 +553,15 @@ namespace MML
 
 			// Compute Sum of Squares Within groups (SSW)
 			Real SSW = 0.0;
+			bool constantGroups = true, equalGroups = true;
 			for (int i = 0; i < k; i++) {
+				if (groups[i][0] != groups[0][0])
+					equalGroups = false;
 				for (int j = 0; j < groupSizes[i]; j++) {
 					Real diff = groups[i][j] - groupMeans[i];
 					SSW += diff * diff;
+					if (groups[i][j] != groups[i][0])
+						constantGroups = false;
 				}
 			}
 
@@ -554,8 +574,12 @@ namespace MML
 			Real MSB = SSB / df_between;      // Mean square between
 			Real MSW = SSW / df_within;       // Mean square within
 
-			// F-statistic
-			Real F = MSB / MSW;
+			// F-statistic; without any variation within the groups it is zero or infinite
+			Real F;
+			if (constantGroups)
+				F = equalGroups ? 0.0 : std::numeric_limits<Real>::infinity();
+			else
+				F = MSB / MSW;
 
 			// Create F-distribution
 			FDistribution fDist(df_between, df_within);
-- 
2.43.0


From bf279b047016c1f904f11fdceb459c525db6a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:23 +0000
Subject: [PATCH 136/218] fix: chi-square test of a table with an empty row or
 column gives NaN

---
 mml/algorithms/Statistics/StatisticsHypothesis.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/algorithms/Statistics/StatisticsHypothesis.h b/mml/algorithms/Statistics/StatisticsHypothesis.h
index 9274e08..313ed53 100644
--- a/mml/algorithms/Statistics/StatisticsHypothesis.h
+++ b/mml/algorithms/Statistics/StatisticsHypothesis.h
@@ -453,6 +453,12 @@ namespace MML
 
 			if (grandTotal <= 0.0)
 				throw StatisticsError("Table must have positive total frequency");
+			for (int i = 0; i < rows; i++)
+				if (rowTotals[i] <= 0.0)
+					throw StatisticsError("Every row of the table must have positive total frequency");
+			for (int j = 0; j < cols; j++)
+				if (colTotals[j] <= 0.0)
+					throw StatisticsError("Every column of the table must have positive total frequency");
 
 			// Compute chi-square statistic
 			Real chiSquare = 0.0;
-- 
2.43.0


From e29503ef735e86bc88b8dd73e2a07ae707eb2cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:27 +0000
Subject: [PATCH 137/218] fix: bracketing from two equal points reports a valid
 bracket around a point that is no minimum

---
 mml/algorithms/Optimization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index b8d647f..4e598fb 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -205,6 +205,8 @@ namespace MML {
 		static MinimumBracket BracketMinimum(const IRealFunction& func, Real a, Real b) {
 			// Input validation
 			ValidateBounds(a, b, "BracketMinimum");
+			if (a == b)
+				throw NumericInputError("BracketMinimum: initial points must be distinct");
 			
 			const Real GOLD = 1.618034; // Golden ratio
 			const Real GLIMIT = 100.0;	// Maximum magnification for parabolic step
-- 
2.43.0


From 6c9315ec2d3d91c993d67d3f655ac481eb65a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:52 +0000
Subject: [PATCH 138/218] fix: golden section search never ends if the
 tolerance is below the machine precision

---
 mml/algorithms/Optimization.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index 4e598fb..1d3c3b8 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -387,6 +387,9 @@ namespace MML {
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 
+			// A smaller tolerance could not be reached in floating point arithmetic
+			tol = std::max(tol, 2 * std::numeric_limits<Real>::epsilon());
+
 			// Main iteration loop
 			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2))) {
 				result.iterations++;
-- 
2.43.0


From 8fea88ff603c1749f3ee21fb66a7996773771d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:52 +0000
Subject: [PATCH 139/218] fix: golden section search ignores the iteration
 limit of the configuration

---
 mml/algorithms/Optimization.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index 1d3c3b8..91fc3b0 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -352,12 +352,14 @@ namespace MML {
 		/// @param func    Real function to minimize
 		/// @param bracket Pre-computed bracket from BracketMinimum
 		/// @param tol     Fractional tolerance (default: 3e-8, ≈ √(machine epsilon))
+		/// @param maxIter Maximum number of iterations; if exceeded, the result is not converged
 		/// @return MinimizationResult with xmin, fmin, and iteration count
 		///
 		/// @note Based on Numerical Recipes §10.2
 		/// @see BracketMinimum to obtain initial bracket
 		/// @see BrentMinimize for typically faster convergence
-		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, const MinimumBracket& bracket, Real tol = 3.0e-8) {
+		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, const MinimumBracket& bracket, Real tol = 3.0e-8,
+		                                              int maxIter = std::numeric_limits<int>::max()) {
 			// Input validation
 			ValidateTolerance(tol, "GoldenSectionSearch");
 			if (!bracket.valid) {
@@ -392,6 +394,8 @@ namespace MML {
 
 			// Main iteration loop
 			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2))) {
+				if (result.iterations >= maxIter)
+					break;
 				result.iterations++;
 
 				if (f2 < f1) {
@@ -420,7 +424,7 @@ namespace MML {
 				result.fmin = f2;
 			}
 
-			result.converged = true;
+			result.converged = !(std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2)));
 			return result;
 		}
 
@@ -918,7 +922,11 @@ namespace MML {
 		                                               const Minimization1DConfig& config) {
 			AlgorithmTimer timer;  // Starts automatically
 
-			MinimizationResult result = GoldenSectionSearch(func, a, b, config.tolerance);
+			ValidateTolerance(config.tolerance, "GoldenSectionSearch");
+			MinimumBracket bracket = BracketMinimum(func, a, b);
+			if (!bracket.valid)
+				throw OptimizationError("Failed to bracket minimum in GoldenSectionSearch");
+			MinimizationResult result = GoldenSectionSearch(func, bracket, config.tolerance, config.max_iterations);
 			result.algorithm_name = "GoldenSection";
 			result.elapsed_time_ms = timer.elapsed_ms();
 
-- 
2.43.0


From 7e35a8adaf349ef5a7a95732c18b7b4e615cd67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:45 +0000
Subject: [PATCH 140/218] fix: golden section search never ends at a minimum at
 zero

---
 mml/algorithms/Optimization.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index 91fc3b0..015893c 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -391,9 +391,10 @@ namespace MML {
 
 			// A smaller tolerance could not be reached in floating point arithmetic
 			tol = std::max(tol, 2 * std::numeric_limits<Real>::epsilon());
+			const Real TINY = std::numeric_limits<Real>::min();
 
 			// Main iteration loop
-			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2))) {
+			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2)) + TINY) {
 				if (result.iterations >= maxIter)
 					break;
 				result.iterations++;
@@ -424,7 +425,7 @@ namespace MML {
 				result.fmin = f2;
 			}
 
-			result.converged = !(std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2)));
+			result.converged = !(std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2)) + TINY);
 			return result;
 		}
 
-- 
2.43.0


From 8797d83432e73f4483c0fa0258ab97cfafefd5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:45 +0000
Subject: [PATCH 141/218] fix: bracketing accepts points where the function is
 undefined

---
 mml/algorithms/Optimization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index 015893c..9843938 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -303,7 +303,7 @@ namespace MML {
 				result.fc = fu;
 			}
 
-			result.valid = true;
+			result.valid = (result.fb <= result.fc); // false if the function is undefined there
 			return result;
 		}
 
-- 
2.43.0


From dfd9815880fb7e7eed5017dd1b3db1efb13dad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:20 +0000
Subject: [PATCH 142/218] fix: L-BFGS reports one iteration too many when the
 limit is reached

---
 mml/algorithms/OptimizationMultidim.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 864c2e8..03968b3 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -1814,7 +1814,8 @@ namespace MML::Optimization {
 			Vector<Real> result(N);
 			for (int j = 0; j < N; ++j)
 				result[j] = x[j];
-			return MultidimMinimizationResult(result, _fret, _iter + 1, converged);
+			// _iter counts from zero unless the loop ran out of iterations
+			return MultidimMinimizationResult(result, _fret, std::min(_iter + 1, _maxIter), converged);
 		}
 
 		/// @brief Compute dot product of two VectorN
-- 
2.43.0


From e9505c964233c46adb5fa4fa8c8b25a51e9521d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:20 +0000
Subject: [PATCH 143/218] fix: line search of L-BFGS never ends when the
 function overflows, and may accept a worse point

---
 mml/algorithms/OptimizationMultidim.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 03968b3..6d6d1df 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -1886,16 +1886,18 @@ namespace MML::Optimization {
 				Real fnew = func(xnew);
 
 				if (alam < alamin) {
-					for (int j = 0; j < N; ++j)
-						x[j] = xnew[j];
-					return fnew;
+					// no acceptable step: stay, never move to a worse point
+					return f;
 				} else if (fnew <= f + ALF * alam * slope) {
 					for (int j = 0; j < N; ++j)
 						x[j] = xnew[j];
 					return fnew;
 				} else {
 					Real tmplam;
-					if (alam == 1.0) {
+					if (!std::isfinite(fnew) || (alam != 1.0 && !std::isfinite(f2))) {
+						// no interpolation with undefined or overflowed values
+						tmplam = 0.1 * alam;
+					} else if (alam == 1.0) {
 						tmplam = -slope / (2.0 * (fnew - f - slope));
 					} else {
 						Real rhs1 = fnew - f - alam * slope;
-- 
2.43.0


From d0ff1713ab2bb9eb36b9222af20da1df2246ac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:48 +0000
Subject: [PATCH 144/218] fix: Nelder-Mead reports convergence when distant
 vertices happen to have equal values

---
 mml/algorithms/OptimizationMultidim.h | 51 +++++++++++++++++++++------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 6d6d1df..bc3f1d5 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -392,6 +392,12 @@ namespace MML::Optimization {
 			// Compute initial psum (sum of vertex coordinates)
 			GetPsum(psum);
 
+			// Size of the initial simplex
+			Real initialExtent = 0.0;
+			for (int i = 1; i < _mpts; ++i)
+				for (int j = 0; j < _ndim; ++j)
+					initialExtent = std::max(initialExtent, std::abs(_p(i, j) - _p(0, j)));
+
 			// Main iteration loop
 			for (int iter = 0; iter < _maxIter; ++iter) {
 				// Find lowest (best), highest (worst), and next-highest
@@ -418,6 +424,22 @@ namespace MML::Optimization {
 				// Check convergence
 				Real rtol = 2.0 * std::abs(_y[ihi] - _y[ilo]) / (std::abs(_y[ihi]) + std::abs(_y[ilo]) + TINY);
 
+				// Equal values far apart (e.g. on both sides of a minimum) are not convergence: shrink instead
+				if (rtol < _ftol && _nfunc < _maxIter) {
+					Real extent = 0.0, scale = initialExtent;
+					for (int i = 0; i < _mpts; ++i) {
+						for (int j = 0; j < _ndim; ++j) {
+							extent = std::max(extent, std::abs(_p(i, j) - _p(ilo, j)));
+							scale = std::max(scale, std::abs(_p(i, j)));
+						}
+					}
+					if (extent > std::sqrt(_ftol) * scale) {
+						Shrink<N>(ilo, func);
+						GetPsum(psum);
+						continue;
+					}
+				}
+
 				if (rtol < _ftol) {
 					// Converged - swap best to position 0
 					std::swap(_y[0], _y[ilo]);
@@ -457,16 +479,7 @@ namespace MML::Optimization {
 
 					if (ytry >= ysave) {
 						// Contraction failed - do shrink
-						for (int i = 0; i < _mpts; ++i) {
-							if (i != ilo) {
-								for (int j = 0; j < _ndim; ++j) {
-									_p(i, j) = SIGMA * (_p(i, j) + _p(ilo, j));
-									x[j] = _p(i, j);
-								}
-								_y[i] = func(x);
-							}
-						}
-						_nfunc += _ndim;
+						Shrink<N>(ilo, func);
 						GetPsum(psum);
 					}
 				}
@@ -489,6 +502,24 @@ namespace MML::Optimization {
 		///                           Helper Functions                          ///
 		///////////////////////////////////////////////////////////////////////////
 
+		/**
+         * @brief Shrink the simplex toward its vertex ilo
+         */
+		template<int N>
+		void Shrink(int ilo, const IScalarFunction<N>& func) {
+			VectorN<Real, N> x;
+			for (int i = 0; i < _mpts; ++i) {
+				if (i != ilo) {
+					for (int j = 0; j < _ndim; ++j) {
+						_p(i, j) = SIGMA * (_p(i, j) + _p(ilo, j));
+						x[j] = _p(i, j);
+					}
+					_y[i] = func(x);
+				}
+			}
+			_nfunc += _ndim;
+		}
+
 		/**
          * @brief Compute sum of vertex coordinates (for centroid calculation)
          */
-- 
2.43.0


From aa7231ddb5171b57d857a48037014a8a5587203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:22 +0000
Subject: [PATCH 145/218] fix: Powell's method takes the new direction from a
 point before the last line minimization and crawls

---
 mml/algorithms/OptimizationMultidim.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index bc3f1d5..51f309f 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -939,13 +939,14 @@ namespace MML::Optimization {
 			_fret = func(p);
 			ValidateMultidimFunctionValue(_fret, "Powell initial evaluation");
 
-			// Save initial point
-			for (int j = 0; j < N; ++j)
-				pt[j] = p[j];
-
 			for (_iter = 0; _iter < _maxIter; ++_iter) {
 				Real fp = _fret;
 				int ibig = 0;
+
+				// Save the starting point of this iteration; it belongs to the value fp
+				for (int j = 0; j < N; ++j)
+					pt[j] = p[j];
+
 				Real del = 0.0;
 
 				// Minimize along each direction
@@ -976,7 +977,6 @@ namespace MML::Optimization {
 				for (int j = 0; j < N; ++j) {
 					ptt[j] = 2.0 * p[j] - pt[j]; // Extrapolated point
 					xi[j] = p[j] - pt[j];		 // New direction
-					pt[j] = p[j];				 // Save current point
 				}
 
 				Real fptt = func(ptt);
-- 
2.43.0


From 709c957823d67c977f0b46bc2d71d1cf1a23f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:22 +0000
Subject: [PATCH 146/218] fix: L-BFGS stops updating its history close to the
 minimum or for small functions and crawls

---
 mml/algorithms/OptimizationMultidim.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 51f309f..ee477ca 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -1761,7 +1761,7 @@ namespace MML::Optimization {
 					int last_idx = (history_start + history_count - 1) % _memorySize;
 					Real yTy = DotProduct(y_history[last_idx], y_history[last_idx]);
 					Real sTy = DotProduct(s_history[last_idx], y_history[last_idx]);
-					if (yTy > EPS)
+					if (yTy > 0.0)
 						gamma = sTy / yTy;
 				}
 
@@ -1817,7 +1817,7 @@ namespace MML::Optimization {
 				}
 
 				Real sTy = DotProduct(s_new, y_new);
-				if (sTy > EPS) {  // Curvature condition - only update if positive
+				if (sTy > std::sqrt(EPS * DotProduct(s_new, s_new) * DotProduct(y_new, y_new))) {  // Curvature condition - only update if positive
 					int store_idx;
 					if (history_count < _memorySize) {
 						store_idx = history_count;
-- 
2.43.0


From 61c10e1286e5b4565ad09a6645e79483e4847481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 147/218] fix: Powell's method loses a direction when the new
 direction is already minimized

---
 mml/algorithms/OptimizationMultidim.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index ee477ca..55093d1 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -986,12 +986,13 @@ namespace MML::Optimization {
 
 					if (t < 0.0) {
 						// Replace direction ibig with new direction
-						_fret = LineMinimizer::Minimize(func, p, xi, _ftol);
-
+						// (before the line minimization, which scales xi, possibly to zero)
 						for (int j = 0; j < N; ++j) {
 							ximat(j, ibig - 1) = ximat(j, N - 1);
 							ximat(j, N - 1) = xi[j];
 						}
+
+						_fret = LineMinimizer::Minimize(func, p, xi, _ftol);
 					}
 				}
 			}
-- 
2.43.0


From 53380a63daabea171675a92393c887268ce30cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:26 +0000
Subject: [PATCH 148/218] fix: stiff solvers stop short of the end of the
 interval if the step does not divide it

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 70 +++++++++++++++-------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index 5201d60..d0555bf 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -124,6 +124,28 @@ namespace MML {
 			: solution(t0, t_end, dim, num_steps) {}
 	};
 
+	namespace ODEStiffDetail
+	{
+		/// Number of steps of size h that lead from t0 to t_end; the last one is shorter if h does not divide the interval.
+		inline int NumStepsToEnd(Real t0, Real t_end, Real h) {
+			if (!(h > 0) || !std::isfinite(h))
+				throw ODESolverError("Stiff solver: step size must be positive and finite");
+			if (!(t_end >= t0) || !std::isfinite(t0) || !std::isfinite(t_end))
+				throw ODESolverError("Stiff solver: t_end must not be before t0");
+			Real n = (t_end - t0) / h;
+			if (n > 1e9)
+				throw ODESolverError("Stiff solver: too many steps");
+			// a remainder at rounding level is no step of its own
+			int steps = static_cast<int>(std::ceil(n - 1e-9 * std::max(n, Real(1))));
+			return (steps == 0 && t_end > t0) ? 1 : steps;
+		}
+
+		/// Time after the given step
+		inline Real StepTime(Real t0, Real t_end, Real h, int step, int num_steps) {
+			return step >= num_steps ? t_end : t0 + step * h;
+		}
+	}
+
 	///////////////////////////////////////////////////////////////////////////////////////////
 	//                           BACKWARD EULER METHOD                                        //
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -144,7 +166,7 @@ namespace MML {
 	inline ODESystemSolution SolveBackwardEuler(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 												int max_newton_iter = 10, Real newton_tol = 1e-8) {
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = ODEStiffDetail::NumStepsToEnd(t0, t_end, h);
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
@@ -157,9 +179,9 @@ namespace MML {
 		sol.fillValues(0, t, y);
 		int step = 1;
 
-		while (t < t_end && step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+		while (step <= num_steps) {
+			Real t_next = ODEStiffDetail::StepTime(t0, t_end, h, step, num_steps);
+			Real h_actual = t_next - t;
 
 			// Newton iteration to solve: y_new - y - h*f(t_next, y_new) = 0
 			Vector<Real> y_new = y; // Initial guess
@@ -219,8 +241,7 @@ namespace MML {
 		AlgorithmTimer timer;  // Starts automatically
 
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
-		StiffSolverResult result(t0, t_end, dim, num_steps);
+		StiffSolverResult result(t0, t_end, dim, 0);
 		result.algorithm_name = "BackwardEuler";
 
 		try {
@@ -256,7 +277,7 @@ namespace MML {
 	inline ODESystemSolution SolveBDF2(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 									   int max_newton_iter = 10, Real newton_tol = 1e-8) {
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = ODEStiffDetail::NumStepsToEnd(t0, t_end, h);
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
@@ -271,9 +292,11 @@ namespace MML {
 		int step = 1;
 
 		// First step: Use Backward Euler (BDF1) to bootstrap
-		if (step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+		Real h_prev = h;
+		if (step <= num_steps) {
+			Real t_next = ODEStiffDetail::StepTime(t0, t_end, h, step, num_steps);
+			Real h_actual = t_next - t;
+			h_prev = h_actual;
 
 			Vector<Real> y_new = y;
 			bool converged = false;
@@ -310,23 +333,28 @@ namespace MML {
 		}
 
 		// Subsequent steps: Use BDF2
-		while (t < t_end && step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+		while (step <= num_steps) {
+			Real t_next = ODEStiffDetail::StepTime(t0, t_end, h, step, num_steps);
+			Real h_actual = t_next - t;
 
 			// BDF2: y_{n+1} = (4/3)*y_n - (1/3)*y_{n-1} + (2/3)*h*f(t_{n+1}, y_{n+1})
 			// Rearrange: y_{n+1} - (2/3)*h*f(t_{n+1}, y_{n+1}) = (4/3)*y_n - (1/3)*y_{n-1}
+			// General coefficients for the step ratio w, as the last step may be shorter (w = 1 gives the formula above)
+			Real w = h_actual / h_prev;
+			Real c_n = (1 + w) * (1 + w) / (1 + 2 * w);
+			Real c_prev = w * w / (1 + 2 * w);
+			Real c_h = (1 + w) / (1 + 2 * w);
 
-			Vector<Real> y_new = y * 2.0 - y_prev; // Extrapolation as initial guess
-			Vector<Real> rhs = y * (4.0 / 3.0) - y_prev * (1.0 / 3.0);
+			Vector<Real> y_new = y + (y - y_prev) * w; // Extrapolation as initial guess
+			Vector<Real> rhs = y * c_n - y_prev * c_prev;
 
 			bool converged = false;
 			for (int iter = 0; iter < max_newton_iter; ++iter) {
 				system.derivs(t_next, y_new, dydt);
 				system.jacobian(t_next, y_new, dydt, J);
 
-				// Residual: r = y_new - (2/3)*h*f - rhs
-				Vector<Real> residual = y_new - dydt * (2.0 / 3.0 * h_actual) - rhs;
+				// Residual: r = y_new - c_h*h*f - rhs
+				Vector<Real> residual = y_new - dydt * (c_h * h_actual) - rhs;
 				Real res_norm = residual.NormL2();
 
 				if (res_norm < newton_tol) {
@@ -334,8 +362,8 @@ namespace MML {
 					break;
 				}
 
-				// Newton step: solve (I - (2/3)*h*J)*delta = -residual
-				Matrix<Real> A = Matrix<Real>::Identity(dim) - J * (2.0 / 3.0 * h_actual);
+				// Newton step: solve (I - c_h*h*J)*delta = -residual
+				Matrix<Real> A = Matrix<Real>::Identity(dim) - J * (c_h * h_actual);
 				Vector<Real> rhs = residual * (-1.0);
 				GaussJordanSolver<Real>::SolveInPlace(A, rhs);
 				Vector<Real> delta = rhs;
@@ -350,6 +378,7 @@ namespace MML {
 			y_prev = y;
 			y = y_new;
 			t = t_next;
+			h_prev = h_actual;
 			sol.fillValues(step, t, y);
 			sol.incrementSuccessfulSteps();
 			++step;
@@ -371,8 +400,7 @@ namespace MML {
 		AlgorithmTimer timer;  // Starts automatically
 
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
-		StiffSolverResult result(t0, t_end, dim, num_steps);
+		StiffSolverResult result(t0, t_end, dim, 0);
 		result.algorithm_name = "BDF2";
 
 		try {
-- 
2.43.0


From a68a2a7716bc56f5883db5db10fd0e75b3ab61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:26 +0000
Subject: [PATCH 149/218] fix: stiff solvers fail for large values, where the
 residual cannot get below the absolute tolerance

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index d0555bf..44d6753 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -46,6 +46,8 @@
 #include "mml/core/AlgorithmTypes.h"
 #include "mml/core/LinAlgEqSolvers.h"
 
+#include <cmath>
+#include <limits>
 #include <optional>
 
 namespace MML {
@@ -140,6 +142,11 @@ namespace MML {
 			return (steps == 0 && t_end > t0) ? 1 : steps;
 		}
 
+		/// A Newton correction at rounding level: no further iteration can improve the solution.
+		inline bool IsNegligible(const Vector<Real>& delta, const Vector<Real>& y) {
+			return delta.NormL2() <= 64 * std::numeric_limits<Real>::epsilon() * y.NormL2();
+		}
+
 		/// Time after the given step
 		inline Real StepTime(Real t0, Real t_end, Real h, int step, int num_steps) {
 			return step >= num_steps ? t_end : t0 + step * h;
@@ -210,6 +217,10 @@ namespace MML {
 
 				// Update guess
 				y_new = y_new + delta;
+				if (ODEStiffDetail::IsNegligible(delta, y_new)) {
+					converged = true;
+					break;
+				}
 			}
 
 			if (!converged) {
@@ -318,6 +329,10 @@ namespace MML {
 				GaussJordanSolver<Real>::SolveInPlace(A, rhs);
 				Vector<Real> delta = rhs;
 				y_new = y_new + delta;
+				if (ODEStiffDetail::IsNegligible(delta, y_new)) {
+					converged = true;
+					break;
+				}
 			}
 
 			if (!converged) {
@@ -368,6 +383,10 @@ namespace MML {
 				GaussJordanSolver<Real>::SolveInPlace(A, rhs);
 				Vector<Real> delta = rhs;
 				y_new = y_new + delta;
+				if (ODEStiffDetail::IsNegligible(delta, y_new)) {
+					converged = true;
+					break;
+				}
 			}
 
 			if (!converged) {
-- 
2.43.0


From 1901358fddbd3b4d728fe5c6923865f52208478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:01 +0000
Subject: [PATCH 150/218] fix: stiff solvers always report zero Newton
 iterations and Jacobian evaluations

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 26 ++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index 44d6753..d5dedd9 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -169,9 +169,12 @@ namespace MML {
 	/// @param h Step size (fixed)
 	/// @param max_newton_iter Maximum Newton iterations per step (default: 10)
 	/// @param newton_tol Newton convergence tolerance (default: 1e-8)
+	/// @param newton_iterations Optional counter of Newton iterations
+	/// @param jacobian_evaluations Optional counter of Jacobian evaluations
 	/// @return ODESystemSolution containing solution trajectory
 	inline ODESystemSolution SolveBackwardEuler(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
-												int max_newton_iter = 10, Real newton_tol = 1e-8) {
+												int max_newton_iter = 10, Real newton_tol = 1e-8,
+												int* newton_iterations = nullptr, int* jacobian_evaluations = nullptr) {
 		int dim = y0.size();
 		int num_steps = ODEStiffDetail::NumStepsToEnd(t0, t_end, h);
 
@@ -198,6 +201,8 @@ namespace MML {
 				// Evaluate f and Jacobian at current guess
 				system.derivs(t_next, y_new, dydt);
 				system.jacobian(t_next, y_new, dydt, J);
+				if (newton_iterations) ++*newton_iterations;
+				if (jacobian_evaluations) ++*jacobian_evaluations;
 
 				// Residual: r = y_new - y - h*f(t_next, y_new)
 				Vector<Real> residual = y_new - y - dydt * h_actual;
@@ -257,7 +262,8 @@ namespace MML {
 
 		try {
 			result.solution = SolveBackwardEuler(system, t0, y0, t_end, config.step_size, 
-												 config.max_newton_iter, config.newton_tol);
+												 config.max_newton_iter, config.newton_tol,
+												 &result.newton_iterations, &result.jacobian_evaluations);
 			result.total_steps = result.solution.getNumStepsOK();
 		} catch (const std::exception& e) {
 			result.status = AlgorithmStatus::NumericalInstability;
@@ -284,9 +290,12 @@ namespace MML {
 	/// @param h Step size (fixed)
 	/// @param max_newton_iter Maximum Newton iterations per step (default: 10)
 	/// @param newton_tol Newton convergence tolerance (default: 1e-8)
+	/// @param newton_iterations Optional counter of Newton iterations
+	/// @param jacobian_evaluations Optional counter of Jacobian evaluations
 	/// @return ODESystemSolution containing solution trajectory
 	inline ODESystemSolution SolveBDF2(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
-									   int max_newton_iter = 10, Real newton_tol = 1e-8) {
+									   int max_newton_iter = 10, Real newton_tol = 1e-8,
+												int* newton_iterations = nullptr, int* jacobian_evaluations = nullptr) {
 		int dim = y0.size();
 		int num_steps = ODEStiffDetail::NumStepsToEnd(t0, t_end, h);
 
@@ -315,6 +324,8 @@ namespace MML {
 			for (int iter = 0; iter < max_newton_iter; ++iter) {
 				system.derivs(t_next, y_new, dydt);
 				system.jacobian(t_next, y_new, dydt, J);
+				if (newton_iterations) ++*newton_iterations;
+				if (jacobian_evaluations) ++*jacobian_evaluations;
 
 				Vector<Real> residual = y_new - y - dydt * h_actual;
 				Real res_norm = residual.NormL2();
@@ -367,6 +378,8 @@ namespace MML {
 			for (int iter = 0; iter < max_newton_iter; ++iter) {
 				system.derivs(t_next, y_new, dydt);
 				system.jacobian(t_next, y_new, dydt, J);
+				if (newton_iterations) ++*newton_iterations;
+				if (jacobian_evaluations) ++*jacobian_evaluations;
 
 				// Residual: r = y_new - c_h*h*f - rhs
 				Vector<Real> residual = y_new - dydt * (c_h * h_actual) - rhs;
@@ -424,7 +437,8 @@ namespace MML {
 
 		try {
 			result.solution = SolveBDF2(system, t0, y0, t_end, config.step_size, 
-										config.max_newton_iter, config.newton_tol);
+										config.max_newton_iter, config.newton_tol,
+										&result.newton_iterations, &result.jacobian_evaluations);
 			result.total_steps = result.solution.getNumStepsOK();
 		} catch (const std::exception& e) {
 			result.status = AlgorithmStatus::NumericalInstability;
@@ -458,6 +472,7 @@ namespace MML {
 		IODESystemWithJacobian& _system;
 		Real _abs_tol;
 		Real _rel_tol;
+		int _jacobian_evaluations = 0; // Jacobian evaluations of all steps
 
 		// ROS2 coefficients - 2-stage, 2nd order, L-stable method
 		// γ = 1 + 1/sqrt(2) ≈ 1.707 for L-stability
@@ -491,6 +506,7 @@ namespace MML {
 			// Evaluate f and Jacobian at (t, y)
 			_system.derivs(t, y, dydt);
 			_system.jacobian(t, y, dydt, J);
+			++_jacobian_evaluations;
 
 			// Form matrix W = I - h*γ*J (same for all stages)
 			Matrix<Real> W = Matrix<Real>::Identity(dim) - J * (h * gamma_ros);
@@ -641,6 +657,7 @@ namespace MML {
 			_abs_tol = config.tolerance;
 			_rel_tol = config.tolerance;
 
+			int jacobians_before = _jacobian_evaluations;
 			try {
 				Real h_init = (config.step_size > 0) ? config.step_size : (t_end - t0) / 100.0;
 				result.solution = Solve(t0, y0, t_end, h_init);
@@ -649,6 +666,7 @@ namespace MML {
 				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = e.what();
 			}
+			result.jacobian_evaluations = _jacobian_evaluations - jacobians_before;
 
 			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
-- 
2.43.0


From 32a719c8842c85591477eb4bd2602e432e5f3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:01 +0000
Subject: [PATCH 151/218] fix: Rosenbrock solver ignores the step limits of its
 configuration

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 26 +++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index d5dedd9..e45d6e6 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -550,26 +550,36 @@ namespace MML {
 		/// @param h_init Initial step size
 		/// @return Solution trajectory
 		ODESystemSolution Solve(Real t0, const Vector<Real>& y0, Real t_end, Real h_init) {
+			return Solve(t0, y0, t_end, h_init, 50000, 1e-12, h_init * 100.0);
+		}
+
+		/// @brief Solve ODE system with adaptive stepping within given step limits
+		/// @param t0 Initial time
+		/// @param y0 Initial condition
+		/// @param t_end Final time
+		/// @param h_init Initial step size
+		/// @param max_steps Maximum number of steps
+		/// @param h_min Minimum step size
+		/// @param h_max Maximum step size
+		/// @return Solution trajectory
+		ODESystemSolution Solve(Real t0, const Vector<Real>& y0, Real t_end, Real h_init, int max_steps, Real h_min, Real h_max) {
 			int dim = y0.size();
-			int max_steps = 50000; // Safety limit (storage grows dynamically if needed)
 
-			ODESystemSolution sol(t0, t_end, dim, max_steps);
+			ODESystemSolution sol(t0, t_end, dim, std::min(max_steps, 50000)); // storage grows if needed
 
 			Real t = t0;
 			Vector<Real> y = y0;
-			Real h = h_init;
+			Real h = std::min(h_init, h_max);
 
 			// Safety factors for step size control
 			const Real safety = 0.9;
-			const Real h_min = 1e-12;		   // Minimum step size
-			const Real h_max = h_init * 100.0; // Maximum step size
 			const Real fac_max = 5.0;		   // Maximum step increase factor
 			const Real fac_min = 0.2;		   // Minimum step decrease factor
 
 			sol.fillValues(0, t, y);
 			int step = 1;
 
-			while (t < t_end && step < max_steps) {
+			while (t < t_end && step <= max_steps) {
 				Real h_actual = std::min(h, t_end - t);
 
 				// Don't take tiny final steps
@@ -631,7 +641,7 @@ namespace MML {
 				}
 			}
 
-			if (step >= max_steps) {
+			if (t < t_end) {
 				throw std::runtime_error("Rosenbrock: Maximum steps exceeded");
 			}
 
@@ -660,7 +670,7 @@ namespace MML {
 			int jacobians_before = _jacobian_evaluations;
 			try {
 				Real h_init = (config.step_size > 0) ? config.step_size : (t_end - t0) / 100.0;
-				result.solution = Solve(t0, y0, t_end, h_init);
+				result.solution = Solve(t0, y0, t_end, h_init, config.max_steps, config.min_step_size, config.max_step_size);
 				result.total_steps = result.solution.getNumStepsOK();
 			} catch (const std::exception& e) {
 				result.status = AlgorithmStatus::NumericalInstability;
-- 
2.43.0


From 4e590e69530d6b3d826d124903d0be3f2c9314aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:01 +0000
Subject: [PATCH 152/218] fix: Rosenbrock solver accepts steps with undefined
 values

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index e45d6e6..400fb59 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -608,6 +608,18 @@ namespace MML {
 					Real scale = _abs_tol + _rel_tol * std::max(std::abs(y[i]), std::abs(y_new[i]));
 					Real err_scaled = std::abs(y_err[i]) / scale;
 					err_norm = std::max(err_norm, err_scaled);
+					if (!std::isfinite(err_scaled) || !std::isfinite(y_new[i]))
+						success = false;
+				}
+
+				if (!success) {
+					// The step has left the domain of the system
+					h = h_actual * 0.5;
+					if (h < h_min) {
+						throw std::runtime_error("Rosenbrock: Solution is not finite");
+					}
+					sol.incrementRejectedSteps();
+					continue;
 				}
 
 				// Avoid division by zero
-- 
2.43.0


From 43bfdc06aedfe7059cc9d8d8a3c7920a255600d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:33 +0000
Subject: [PATCH 153/218] fix: DAE solvers stop before the end, report success
 at the step limit and use wrong BDF2 coefficients for a shorter last step

---
 mml/algorithms/DAESolvers/DAEBDF2.h          | 51 ++++++++++++--------
 mml/algorithms/DAESolvers/DAEBackwardEuler.h | 15 ++++--
 mml/algorithms/DAESolvers/DAERODAS.h         | 19 +++++---
 mml/algorithms/DAESolvers/DAERadauIIA.h      | 22 +++++----
 mml/algorithms/DAESolvers/DAESolverBase.h    | 42 ++++++++++++++++
 5 files changed, 106 insertions(+), 43 deletions(-)

diff --git a/mml/algorithms/DAESolvers/DAEBDF2.h b/mml/algorithms/DAESolvers/DAEBDF2.h
index e9d461d..b830576 100644
--- a/mml/algorithms/DAESolvers/DAEBDF2.h
+++ b/mml/algorithms/DAESolvers/DAEBDF2.h
@@ -55,10 +55,14 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = DAEDetail::NumStepsToEnd(t0, t_end, config.step_size);
 
-		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
+		DAESolverResult result(t0, t_end, diffDim, algDim, std::max(std::min(num_steps, config.max_steps), 0));
 		result.algorithm_name = "DAEBDF2";
+		if (num_steps < 0) {
+			DAEDetail::SetInvalidInput(result);
+			return result;
+		}
 
 		// Current and previous state
 		Real t = t0;
@@ -83,6 +87,11 @@ namespace MML {
 		result.solution.fillValues(0, t, x, y);
 		int step = 1;
 
+		// BDF2: x_new = c0*x + c1*x_prev + c2*h*f
+		Real c0 = 4.0 / 3.0;
+		Real c1 = -1.0 / 3.0;
+		Real c2 = 2.0 / 3.0;
+
 		// Helper function for Newton solve (returns true if converged)
 		auto newtonSolve = [&](Real t_next, Real h, const Vector<Real>& x_pred,
 		                       Vector<Real>& x_new, Vector<Real>& y_new,
@@ -101,10 +110,7 @@ namespace MML {
 				// Build residual based on method
 				if (useBDF2)
 				{
-					// BDF2: x_new = (4/3)*x - (1/3)*x_prev + (2/3)*h*f
-					Real c0 = 4.0 / 3.0;
-					Real c1 = -1.0 / 3.0;
-					Real c2 = 2.0 / 3.0;
+					// BDF2: x_new = c0*x + c1*x_prev + c2*h*f
 					for (int i = 0; i < diffDim; ++i)
 						residual[i] = x_new[i] - c0 * x[i] - c1 * x_prev_bdf[i] - c2 * h * dxdt[i];
 				}
@@ -127,7 +133,7 @@ namespace MML {
 				result.jacobian_evaluations++;
 
 				// Build augmented Jacobian
-				Real h_eff = useBDF2 ? (2.0 / 3.0) * h : h;
+				Real h_eff = useBDF2 ? c2 * h : h;
 				for (int i = 0; i < diffDim; ++i)
 				{
 					for (int j = 0; j < diffDim; ++j)
@@ -158,10 +164,12 @@ namespace MML {
 		};
 
 		// First step: Backward Euler
-		if (step < config.max_steps && t < t_end)
+		Real h_prev = config.step_size;
+		if (step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			Real t_next = t + h;
+			Real t_next = DAEDetail::StepTime(t0, t_end, config.step_size, step, num_steps);
+			Real h = t_next - t;
+			h_prev = h;
 
 			// Initial guess
 			system.diffEqs(t, x, y, dxdt);
@@ -172,6 +180,7 @@ namespace MML {
 			{
 				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Newton iteration failed at first step (Backward Euler)";
+				result.solution.setFinalSize(0);
 				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
@@ -193,25 +202,23 @@ namespace MML {
 		}
 
 		// Remaining steps: BDF2
-		while (t < t_end && step < config.max_steps)
+		while (step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			
-			// Skip degenerate final steps (floating-point round-off)
-			if (h < config.step_size * 1e-10)
-				break;
-			
-			Real t_next = t + h;
+			Real t_next = DAEDetail::StepTime(t0, t_end, config.step_size, step, num_steps);
+			Real h = t_next - t;
 
-			// For very small final steps (< 10% of nominal), use Backward Euler
-			bool use_be_for_final = (h < config.step_size * 0.1);
+			// Coefficients for the step ratio w, as the last step may be shorter (w = 1: 4/3, -1/3, 2/3)
+			Real w = h / h_prev;
+			c0 = (1 + w) * (1 + w) / (1 + 2 * w);
+			c1 = -w * w / (1 + 2 * w);
+			c2 = (1 + w) / (1 + 2 * w);
 
 			// BDF2 prediction: extrapolate
 			system.diffEqs(t, x, y, dxdt);
 			Vector<Real> x_new = x + dxdt * h;
 			Vector<Real> y_new = y;
 
-			if (!newtonSolve(t_next, h, x_new, x_new, y_new, !use_be_for_final, x_prev))
+			if (!newtonSolve(t_next, h, x_new, x_new, y_new, true, x_prev))
 			{
 				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Newton iteration failed at t=" + std::to_string(t_next);
@@ -219,6 +226,7 @@ namespace MML {
 			}
 
 			// Accept step
+			h_prev = h;
 			x_prev = x;
 			x = x_new;
 			y = y_new;
@@ -237,6 +245,7 @@ namespace MML {
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
+		DAEDetail::CheckReachedEnd(result, step - 1, num_steps);
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAEBackwardEuler.h b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
index 274598a..bcfca43 100644
--- a/mml/algorithms/DAESolvers/DAEBackwardEuler.h
+++ b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
@@ -65,10 +65,14 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = DAEDetail::NumStepsToEnd(t0, t_end, config.step_size);
 
-		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
+		DAESolverResult result(t0, t_end, diffDim, algDim, std::max(std::min(num_steps, config.max_steps), 0));
 		result.algorithm_name = "DAEBackwardEuler";
+		if (num_steps < 0) {
+			DAEDetail::SetInvalidInput(result);
+			return result;
+		}
 
 		// Current state
 		Real t = t0;
@@ -92,10 +96,10 @@ namespace MML {
 		result.solution.fillValues(0, t, x, y);
 		int step = 1;
 
-		while (t < t_end && step < config.max_steps)
+		while (step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			Real t_next = t + h;
+			Real t_next = DAEDetail::StepTime(t0, t_end, config.step_size, step, num_steps);
+			Real h = t_next - t;
 
 			// Initial guess for next step (explicit Euler prediction)
 			system.diffEqs(t, x, y, dxdt);
@@ -186,6 +190,7 @@ namespace MML {
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
+		DAEDetail::CheckReachedEnd(result, step - 1, num_steps);
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAERODAS.h b/mml/algorithms/DAESolvers/DAERODAS.h
index 3cc2dc2..b0781b1 100644
--- a/mml/algorithms/DAESolvers/DAERODAS.h
+++ b/mml/algorithms/DAESolvers/DAERODAS.h
@@ -56,10 +56,14 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = DAEDetail::NumStepsToEnd(t0, t_end, config.step_size);
 
-		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
+		DAESolverResult result(t0, t_end, diffDim, algDim, std::max(std::min(num_steps, config.max_steps), 0));
 		result.algorithm_name = "DAERODAS";
+		if (num_steps < 0) {
+			DAEDetail::SetInvalidInput(result);
+			return result;
+		}
 
 		// Working vectors
 		Matrix<Real> df_dx(diffDim, diffDim);
@@ -92,12 +96,10 @@ namespace MML {
 		int step = 1;
 
 		// Main time-stepping loop
-		while (t < t_end && step < config.max_steps)
+		while (step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			
-			if (h < config.step_size * 1e-10)
-				break;
+			Real t_next = DAEDetail::StepTime(t0, t_end, config.step_size, step, num_steps);
+			Real h = t_next - t;
 
 			// Evaluate f, g and Jacobians at current point
 			system.diffEqs(t, x, y, f_curr);
@@ -182,7 +184,7 @@ namespace MML {
 			for (int i = 0; i < algDim; ++i)
 				y[i] += delta[diffDim + i];
 
-			t += h;
+			t = t_next;
 
 			// Track constraint violation
 			system.algConstraints(t, x, y, g_pred);
@@ -198,6 +200,7 @@ namespace MML {
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
+		DAEDetail::CheckReachedEnd(result, step - 1, num_steps);
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAERadauIIA.h b/mml/algorithms/DAESolvers/DAERadauIIA.h
index 79de999..eb2fe3b 100644
--- a/mml/algorithms/DAESolvers/DAERadauIIA.h
+++ b/mml/algorithms/DAESolvers/DAERadauIIA.h
@@ -63,12 +63,15 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = DAEDetail::NumStepsToEnd(t0, t_end, config.step_size);
 
-		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
+		DAESolverResult result(t0, t_end, diffDim, algDim, std::max(std::min(num_steps, config.max_steps), 0));
 		result.algorithm_name = "DAERadauIIA";
+		if (num_steps < 0) {
+			DAEDetail::SetInvalidInput(result);
+			return result;
+		}
 		result.solution.fillValues(0, t0, x0, y0);
-		result.solution.incrementSuccessfulSteps();
 
 		// Radau IIA coefficients (3-stage, order 5)
 		const Real sqrt6 = std::sqrt(Real(6));
@@ -98,7 +101,6 @@ namespace MML {
 		Vector<Real> x = x0;
 		Vector<Real> y = y0;
 		Real t = t0;
-		Real h = config.step_size;
 
 		// Stage values: K_i for differential, L_i for algebraic
 		// K_i = f(t + c_i*h, X_i, Y_i), L_i = y-values at stage
@@ -117,11 +119,11 @@ namespace MML {
 		Matrix<Real> dgDx(algDim, diffDim), dgDy(algDim, algDim);
 
 		int step = 1;
-		while (t + h/2 <= t_end && step < config.max_steps) {
+		while (step <= num_steps && step <= config.max_steps) {
 
-			// Clamp step size to reach t_end exactly
-			Real h_actual = std::min(h, t_end - t);
-			if (h_actual < 1e-15) break;
+			// The last step may be shorter to reach t_end exactly
+			Real t_next = DAEDetail::StepTime(t0, t_end, config.step_size, step, num_steps);
+			Real h_actual = t_next - t;
 
 			// Initialize stage values to current solution (predictor)
 			X1 = x; X2 = x; X3 = x;
@@ -129,6 +131,7 @@ namespace MML {
 
 			// Get Jacobians at current point (frozen for all Newton iterations in this step)
 			system.allJacobians(t, x, y, dfDx, dfDy, dgDx, dgDy);
+			result.jacobian_evaluations++;
 
 			// Newton iteration to solve the coupled stage equations
 			bool converged = false;
@@ -277,7 +280,7 @@ namespace MML {
 			// Update solution using stage 3 (for Radau IIA, c3 = 1, so X3, Y3 is the solution at t+h_actual)
 			x = X3;
 			y = Y3;
-			t += h_actual;
+			t = t_next;
 
 			// Track constraint violation
 			Vector<Real> g_check(algDim);
@@ -294,6 +297,7 @@ namespace MML {
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
+		DAEDetail::CheckReachedEnd(result, step - 1, num_steps);
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAESolverBase.h b/mml/algorithms/DAESolvers/DAESolverBase.h
index 92d2763..1ab7003 100644
--- a/mml/algorithms/DAESolvers/DAESolverBase.h
+++ b/mml/algorithms/DAESolvers/DAESolverBase.h
@@ -25,6 +25,9 @@
 #include "mml/core/AlgorithmTypes.h"
 #include "mml/core/LinAlgEqSolvers.h"
 
+#include <algorithm>
+#include <cmath>
+
 namespace MML {
 
 	/******************************************************************************/
@@ -98,6 +101,45 @@ namespace MML {
 			: solution(t0, t_end, diffDim, algDim, num_steps) {}
 	};
 
+	namespace DAEDetail
+	{
+		/// Number of steps of size h that lead from t0 to t_end; the last one is shorter if h does not divide
+		/// the interval. Negative for an invalid interval or step size.
+		inline int NumStepsToEnd(Real t0, Real t_end, Real h)
+		{
+			if (!(h > 0) || !std::isfinite(h) || !(t_end >= t0) || !std::isfinite(t0) || !std::isfinite(t_end))
+				return -1;
+			Real n = (t_end - t0) / h;
+			if (n > 1e9)
+				return -1;
+			// a remainder at rounding level is no step of its own
+			int steps = static_cast<int>(std::ceil(n - 1e-9 * std::max(n, Real(1))));
+			return (steps == 0 && t_end > t0) ? 1 : steps;
+		}
+
+		/// Time after the given step
+		inline Real StepTime(Real t0, Real t_end, Real h, int step, int num_steps)
+		{
+			return step >= num_steps ? t_end : t0 + step * h;
+		}
+
+		/// Result for an invalid interval or step size
+		inline void SetInvalidInput(DAESolverResult& result)
+		{
+			result.status = AlgorithmStatus::InvalidInput;
+			result.error_message = "Step size must be positive and t_end must not be before t0";
+		}
+
+		/// Says so in the result if the limit of steps was reached before the end of the interval
+		inline void CheckReachedEnd(DAESolverResult& result, int steps_done, int num_steps)
+		{
+			if (result.status == AlgorithmStatus::Success && steps_done < num_steps) {
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
+				result.error_message = "Maximum number of steps reached before the end of the interval";
+			}
+		}
+	}
+
 	/******************************************************************************/
 	/*****            Consistent Initial Condition Solver                     *****/
 	/******************************************************************************/
-- 
2.43.0


From d27672af970a7bd866615bdc228d36179a257af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:33 +0000
Subject: [PATCH 154/218] fix: DAE BDF4 solver is second order, corrupts short
 solutions and uses wrong coefficients for a shorter last step

---
 mml/algorithms/DAESolvers/DAEBDF4.h | 188 ++++++++++------------------
 1 file changed, 68 insertions(+), 120 deletions(-)

diff --git a/mml/algorithms/DAESolvers/DAEBDF4.h b/mml/algorithms/DAESolvers/DAEBDF4.h
index 8673ff2..f144fd3 100644
--- a/mml/algorithms/DAESolvers/DAEBDF4.h
+++ b/mml/algorithms/DAESolvers/DAEBDF4.h
@@ -21,6 +21,7 @@
 #define MML_DAE_BDF4_H
 
 #include "DAESolverBase.h"
+#include "DAERadauIIA.h"
 #include <vector>
 
 namespace MML {
@@ -29,7 +30,7 @@ namespace MML {
 	/// 
 	/// Complexity: O(N³) per step where N = diffDim + algDim.
 	///            Newton iteration with augmented Jacobian + LU solve each step.
-	///            First 3 steps use BDF2 sub-stepping for accurate history.
+	///            First 3 steps use Radau IIA for accurate history.
 	///
 	/// BDF4 formula for differential equations:
 	/// @f[
@@ -40,7 +41,7 @@ namespace MML {
 	///   0 = g(t_{n+1}, x_{n+1}, y_{n+1})
 	/// @f]
 	///
-	/// Uses sub-stepping with BDF2 for first 3 steps to build accurate history,
+	/// Uses Radau IIA for first 3 steps to build accurate history,
 	/// then switches to BDF4 for remaining steps.
 	/// Fourth-order accurate, A(α)-stable with α ≈ 73°.
 	/// Industry standard for stiff DAEs (DASSL, SUNDIALS IDA).
@@ -61,10 +62,14 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = DAEDetail::NumStepsToEnd(t0, t_end, config.step_size);
 
-		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
+		DAESolverResult result(t0, t_end, diffDim, algDim, std::max(std::min(num_steps, config.max_steps), 0));
 		result.algorithm_name = "DAEBDF4";
+		if (num_steps < 0) {
+			DAEDetail::SetInvalidInput(result);
+			return result;
+		}
 
 		// Working vectors
 		Vector<Real> dxdt(diffDim);
@@ -79,26 +84,32 @@ namespace MML {
 		Vector<Real> residual(totalDim);
 		Vector<Real> delta(totalDim);
 
-		// BDF coefficients
-		// BDF2: x_new = (4/3)*x_n - (1/3)*x_{n-1} + (2/3)*h*f
-		constexpr Real bdf2_c0 = 4.0 / 3.0;
-		constexpr Real bdf2_c1 = -1.0 / 3.0;
-		constexpr Real bdf2_h_coeff = 2.0 / 3.0;
+		// BDF4: x_new = sum c[i]*x_{n-i} + h_eff*f (c = 48/25, -36/25, 16/25, -3/25, h_eff = 12/25*h for equal steps)
+		Real c[4] = { 0, 0, 0, 0 };
+		Real h_eff = 0;
 
-		// BDF4: x_new = (48/25)*x_n - (36/25)*x_{n-1} + (16/25)*x_{n-2} - (3/25)*x_{n-3} + (12/25)*h*f
-		constexpr Real bdf4_c0 = 48.0 / 25.0;
-		constexpr Real bdf4_c1 = -36.0 / 25.0;
-		constexpr Real bdf4_c2 = 16.0 / 25.0;
-		constexpr Real bdf4_c3 = -3.0 / 25.0;
-		constexpr Real bdf4_h_coeff = 12.0 / 25.0;
+		// Derivative at t_next of the polynomial through the new and the last four points, solved for the new value.
+		// In this form, the last step may be shorter than the others.
+		auto setCoefficients = [&](Real t_next, const std::vector<Real>& t_hist)
+		{
+			Real w0 = 0;
+			for (int i = 0; i < 4; ++i)
+				w0 += 1 / (t_next - t_hist[i]);
+			for (int i = 0; i < 4; ++i)
+			{
+				Real w = 1 / (t_hist[i] - t_next);
+				for (int m = 0; m < 4; ++m)
+					if (m != i)
+						w *= (t_next - t_hist[m]) / (t_hist[i] - t_hist[m]);
+				c[i] = -w / w0;
+			}
+			h_eff = 1 / w0;
+		};
 
-		// Helper function for Newton solve - single-step methods
-		// bdf_order: 1 = Backward Euler, 2 = BDF2, 4 = BDF4
-		auto newtonSolve = [&](Real t_next, Real h, const Vector<Real>& x_pred,
+		// Helper function for Newton solve
+		auto newtonSolve = [&](Real t_next, const Vector<Real>& x_pred,
 		                       Vector<Real>& x_new, Vector<Real>& y_new,
-		                       int bdf_order,
-		                       const Vector<Real>& xn, const Vector<Real>& xn1,
-		                       const Vector<Real>& xn2, const Vector<Real>& xn3) -> bool
+		                       const std::vector<Vector<Real>>& x_hist) -> bool
 		{
 			x_new = x_pred;
 
@@ -110,30 +121,10 @@ namespace MML {
 				system.diffEqs(t_next, x_new, y_new, dxdt);
 				system.algConstraints(t_next, x_new, y_new, g);
 
-				// Build residual based on method order
-				Real h_eff;
-				if (bdf_order == 4)
-				{
-					// BDF4 residual
-					h_eff = bdf4_h_coeff * h;
-					for (int i = 0; i < diffDim; ++i)
-						residual[i] = x_new[i] - bdf4_c0 * xn[i] - bdf4_c1 * xn1[i] 
-						              - bdf4_c2 * xn2[i] - bdf4_c3 * xn3[i] - h_eff * dxdt[i];
-				}
-				else if (bdf_order == 2)
-				{
-					// BDF2 residual
-					h_eff = bdf2_h_coeff * h;
-					for (int i = 0; i < diffDim; ++i)
-						residual[i] = x_new[i] - bdf2_c0 * xn[i] - bdf2_c1 * xn1[i] - h_eff * dxdt[i];
-				}
-				else
-				{
-					// Backward Euler residual
-					h_eff = h;
-					for (int i = 0; i < diffDim; ++i)
-						residual[i] = x_new[i] - xn[i] - h * dxdt[i];
-				}
+				// Build residual
+				for (int i = 0; i < diffDim; ++i)
+					residual[i] = x_new[i] - c[0] * x_hist[0][i] - c[1] * x_hist[1][i] 
+					              - c[2] * x_hist[2][i] - c[3] * x_hist[3][i] - h_eff * dxdt[i];
 				for (int i = 0; i < algDim; ++i)
 					residual[diffDim + i] = g[i];
 
@@ -177,100 +168,56 @@ namespace MML {
 		};
 
 		// ========================================================================
-		// BOOTSTRAP PHASE: Build accurate history using sub-stepped BDF2
-		// Use 4 substeps per main step to achieve O(h^4) local error during bootstrap
+		// BOOTSTRAP PHASE: history of order 4 accuracy by Radau IIA steps
 		// ========================================================================
-		constexpr int bootstrap_substeps = 4;
-		Real h_main = config.step_size;
-		Real h_sub = h_main / bootstrap_substeps;
+		int start_steps = std::min(3, num_steps);
+		DAESolverResult start = SolveDAERadauIIA(system, t0, x0, y0,
+			DAEDetail::StepTime(t0, t_end, config.step_size, start_steps, num_steps), config);
+		start_steps = start.total_steps;
+		result.newton_iterations = start.newton_iterations;
+		result.jacobian_evaluations = start.jacobian_evaluations;
+		result.max_constraint_violation = start.max_constraint_violation;
+		if (start.status != AlgorithmStatus::Success)
+		{
+			result.status = start.status;
+			result.error_message = start.error_message;
+		}
 
-		// We need values at t0, t0+h, t0+2h, t0+3h for BDF4
-		// Store these in history array: hist[0]=newest, hist[3]=oldest
+		// hist[0]=newest, hist[3]=oldest
 		std::vector<Vector<Real>> x_history(4, x0);
 		std::vector<Vector<Real>> y_history(4, y0);
 		std::vector<Real> t_history(4, t0);
 
-		Real t_current = t0;
-		Vector<Real> x_current = x0;
-		Vector<Real> y_current = y0;
-		Vector<Real> x_sub_prev = x0;  // Previous substep for BDF2
-
-		// Take 3 main steps using sub-stepped BDF2
-		for (int main_step = 1; main_step <= 3 && t_current < t_end; ++main_step)
+		// Save initial condition and bootstrap points
+		for (int i = 0; i <= start_steps; ++i)
 		{
-			Real h_this = std::min(h_main, t_end - t_current);
-			Real h_substep = h_this / bootstrap_substeps;
-
-			for (int sub = 0; sub < bootstrap_substeps; ++sub)
-			{
-				Real t_next = t_current + h_substep;
-				
-				system.diffEqs(t_current, x_current, y_current, dxdt);
-				Vector<Real> x_pred = x_current + dxdt * h_substep;
-				Vector<Real> y_pred = y_current;
-
-				int order = (main_step == 1 && sub == 0) ? 1 : 2;  // First substep uses BE
-				if (!newtonSolve(t_next, h_substep, x_pred, x_pred, y_pred, order,
-				                 x_current, x_sub_prev, x_current, x_current))
-				{
-					result.status = AlgorithmStatus::NumericalInstability;
-					result.error_message = "Newton failed during bootstrap at t=" + std::to_string(t_next);
-					result.elapsed_time_ms = timer.elapsed_ms();
-					return result;
-				}
-
-				x_sub_prev = x_current;
-				x_current = x_pred;
-				y_current = y_pred;
-				t_current = t_next;
-			}
-
-			// Shift history and store main step result
-			for (int i = 3; i > 0; --i)
-			{
-				x_history[i] = x_history[i-1];
-				y_history[i] = y_history[i-1];
-				t_history[i] = t_history[i-1];
-			}
-			x_history[0] = x_current;
-			y_history[0] = y_current;
-			t_history[0] = t_current;
-		}
-
-		// Save initial condition and bootstrap points to solution
-		result.solution.fillValues(0, t0, x0, y0);
-		for (int i = 1; i <= 3; ++i)
-		{
-			result.solution.fillValues(i, t_history[3-i], x_history[3-i], y_history[3-i]);
-			result.solution.incrementSuccessfulSteps();
+			t_history[start_steps - i] = start.solution.getTValue(i);
+			for (int j = 0; j < diffDim; ++j)
+				x_history[start_steps - i][j] = start.solution.getXValue(i, j);
+			for (int j = 0; j < algDim; ++j)
+				y_history[start_steps - i][j] = start.solution.getYValue(i, j);
+			result.solution.fillValues(i, t_history[start_steps - i], x_history[start_steps - i], y_history[start_steps - i]);
+			if (i > 0)
+				result.solution.incrementSuccessfulSteps();
 		}
-		int step = 4;
+		Real t_current = t_history[0];
+		int step = start_steps + 1;
 
 		// ========================================================================
 		// MAIN PHASE: BDF4 with accurate history
 		// ========================================================================
-		while (t_current < t_end && step < config.max_steps)
+		while (result.status == AlgorithmStatus::Success && step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(h_main, t_end - t_current);
-			
-			// Skip degenerate final steps
-			if (h < h_main * 1e-10)
-				break;
-			
-			Real t_next = t_current + h;
-
-			// For very small final steps, fall back to lower order
-			int order = 4;
-			if (h < h_main * 0.1)
-				order = 1;  // Backward Euler for tiny final step
+			Real t_next = DAEDetail::StepTime(t0, t_end, config.step_size, step, num_steps);
+			Real h = t_next - t_current;
+			setCoefficients(t_next, t_history);
 
 			// Prediction
 			system.diffEqs(t_current, x_history[0], y_history[0], dxdt);
 			Vector<Real> x_new = x_history[0] + dxdt * h;
 			Vector<Real> y_new = y_history[0];
 
-			if (!newtonSolve(t_next, h, x_new, x_new, y_new, order,
-			                 x_history[0], x_history[1], x_history[2], x_history[3]))
+			if (!newtonSolve(t_next, x_new, x_new, y_new, x_history))
 			{
 				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Newton iteration failed at t=" + std::to_string(t_next);
@@ -303,6 +250,7 @@ namespace MML {
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
+		DAEDetail::CheckReachedEnd(result, step - 1, num_steps);
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
-- 
2.43.0


From a56d0474aeb52f9725ee98b8813ccc055ca67329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:34 +0000
Subject: [PATCH 155/218] fix: DAE solvers fail for large values, where the
 residual cannot get below the absolute tolerance

---
 mml/algorithms/DAESolvers/DAEBDF2.h          | 2 ++
 mml/algorithms/DAESolvers/DAEBDF4.h          | 2 ++
 mml/algorithms/DAESolvers/DAEBackwardEuler.h | 5 +++++
 mml/algorithms/DAESolvers/DAERadauIIA.h      | 1 +
 mml/algorithms/DAESolvers/DAESolverBase.h    | 7 +++++++
 5 files changed, 17 insertions(+)

diff --git a/mml/algorithms/DAESolvers/DAEBDF2.h b/mml/algorithms/DAESolvers/DAEBDF2.h
index b830576..013f18c 100644
--- a/mml/algorithms/DAESolvers/DAEBDF2.h
+++ b/mml/algorithms/DAESolvers/DAEBDF2.h
@@ -159,6 +159,8 @@ namespace MML {
 					x_new[i] += delta[i];
 				for (int i = 0; i < algDim; ++i)
 					y_new[i] += delta[diffDim + i];
+				if (DAEDetail::IsNegligible(delta, x_new, y_new))
+					return true;
 			}
 			return false;
 		};
diff --git a/mml/algorithms/DAESolvers/DAEBDF4.h b/mml/algorithms/DAESolvers/DAEBDF4.h
index f144fd3..e8e9d24 100644
--- a/mml/algorithms/DAESolvers/DAEBDF4.h
+++ b/mml/algorithms/DAESolvers/DAEBDF4.h
@@ -163,6 +163,8 @@ namespace MML {
 					x_new[i] += delta[i];
 				for (int i = 0; i < algDim; ++i)
 					y_new[i] += delta[diffDim + i];
+				if (DAEDetail::IsNegligible(delta, x_new, y_new))
+					return true;
 			}
 			return false;
 		};
diff --git a/mml/algorithms/DAESolvers/DAEBackwardEuler.h b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
index bcfca43..cb185e5 100644
--- a/mml/algorithms/DAESolvers/DAEBackwardEuler.h
+++ b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
@@ -162,6 +162,11 @@ namespace MML {
 					x_new[i] += delta[i];
 				for (int i = 0; i < algDim; ++i)
 					y_new[i] += delta[diffDim + i];
+				if (DAEDetail::IsNegligible(delta, x_new, y_new))
+				{
+					converged = true;
+					break;
+				}
 			}
 
 			if (!converged)
diff --git a/mml/algorithms/DAESolvers/DAERadauIIA.h b/mml/algorithms/DAESolvers/DAERadauIIA.h
index eb2fe3b..5492241 100644
--- a/mml/algorithms/DAESolvers/DAERadauIIA.h
+++ b/mml/algorithms/DAESolvers/DAERadauIIA.h
@@ -269,6 +269,7 @@ namespace MML {
 					Y2[i] += delta[totalDim + diffDim + i];
 					Y3[i] += delta[2*totalDim + diffDim + i];
 				}
+				converged = DAEDetail::IsNegligible(delta, X3, Y3);
 			}
 
 			if (!converged) {
diff --git a/mml/algorithms/DAESolvers/DAESolverBase.h b/mml/algorithms/DAESolvers/DAESolverBase.h
index 1ab7003..5d77baa 100644
--- a/mml/algorithms/DAESolvers/DAESolverBase.h
+++ b/mml/algorithms/DAESolvers/DAESolverBase.h
@@ -27,6 +27,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 namespace MML {
 
@@ -123,6 +124,12 @@ namespace MML {
 			return step >= num_steps ? t_end : t0 + step * h;
 		}
 
+		/// A Newton correction at rounding level: no further iteration can improve the solution.
+		inline bool IsNegligible(const Vector<Real>& delta, const Vector<Real>& x, const Vector<Real>& y)
+		{
+			return delta.NormL2() <= 64 * std::numeric_limits<Real>::epsilon() * std::hypot(x.NormL2(), y.NormL2());
+		}
+
 		/// Result for an invalid interval or step size
 		inline void SetInvalidInput(DAESolverResult& result)
 		{
-- 
2.43.0


From d3392cf2d5abc68d75485b6442990e17ed3768cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:59 +0000
Subject: [PATCH 156/218] fix: DAE RODAS solver is not L-stable: it does not
 damp stiff components

---
 mml/algorithms/DAESolvers/DAERODAS.h | 168 ++++++++++++++-------------
 1 file changed, 87 insertions(+), 81 deletions(-)

diff --git a/mml/algorithms/DAESolvers/DAERODAS.h b/mml/algorithms/DAESolvers/DAERODAS.h
index b0781b1..96ba7d9 100644
--- a/mml/algorithms/DAESolvers/DAERODAS.h
+++ b/mml/algorithms/DAESolvers/DAERODAS.h
@@ -10,7 +10,7 @@
 ///  Properties:                                                                      ///
 ///  - L-stable (strong damping of stiff components)                                  ///
 ///  - No Newton iteration required                                                   ///
-///  - ~1st-2nd order accuracy (linearly-implicit predictor-corrector)                ///
+///  - 3rd order accuracy, stiffly accurate (RODAS3)                                  ///
 ///                                                                                   ///
 ///  Reference: Hairer & Wanner, "Solving ODEs II"                                    ///
 ///                                                                                   ///
@@ -22,21 +22,22 @@
 
 #include "DAESolverBase.h"
 
+#include <vector>
+
 namespace MML {
 
-	/// @brief RODAS - 2-stage Rosenbrock method for index-1 DAEs
+	/// @brief RODAS3 - 4-stage Rosenbrock method of order 3 for index-1 DAEs
 	/// 
 	/// Complexity: O(N³) per step where N = diffDim + algDim.
 	///            Only 1-2 LU factorizations per step (no Newton iteration).
 	///            Most efficient implicit method per step for small-to-medium N.
 	///
 	/// Uses the linearly implicit approach that requires only linear system solves,
-	/// not iterative Newton methods. Each step solves a linear system once (or twice
-	/// for 2-stage methods) using a frozen Jacobian.
+	/// not iterative Newton methods. Each step solves a linear system once per stage
+	/// using a frozen Jacobian.
 	///
-	/// This implementation uses a 2-stage method based on the trapezoidal rule:
-	/// 1. Solve (I - h*J/2) * Δ = h*F(t,x,y) for increment Δ
-	/// 2. Update x = x + Δ_x, y = y + Δ_y
+	/// This implementation uses the L-stable method RODAS3 (Sandu et al. 1997). Derivatives of f and g
+	/// by time are approximated by differences.
 	///
 	/// Reference: Hairer & Wanner, "Solving ODEs II"
 	///
@@ -74,9 +75,15 @@ namespace MML {
 		// Augmented Jacobian matrix
 		Matrix<Real> J_aug(totalDim, totalDim);
 
-		// Vectors for predictor-corrector
-		Vector<Real> delta(totalDim);
-		Vector<Real> rhs(totalDim);
+		// RODAS3 coefficients: 4 stages, order 3, L-stable, stiffly accurate
+		const Real gamma = 0.5;
+		const Real a[4][3] = { { 0, 0, 0 }, { 0, 0, 0 }, { 2, 0, 0 }, { 2, 0, 1 } };
+		const Real c[4][3] = { { 0, 0, 0 }, { 4, 0, 0 }, { 1, -1, 0 }, { 1, -1, Real(-8) / 3 } };
+		const Real m[4] = { 2, 0, 1, 1 };
+		const Real g_time[4] = { 0.5, 1.5, 0, 0 };
+
+		// Stages
+		std::vector<Vector<Real>> U(4, Vector<Real>(totalDim));
 
 		// Current state
 		Real t = t0;
@@ -84,12 +91,10 @@ namespace MML {
 		Vector<Real> y = y0;
 
 		// Temporary states
-		Vector<Real> x_pred(diffDim);
-		Vector<Real> y_pred(algDim);
-		Vector<Real> f_curr(diffDim);
-		Vector<Real> f_pred(diffDim);
-		Vector<Real> g_curr(algDim);
-		Vector<Real> g_pred(algDim);
+		Vector<Real> x_stage(diffDim);
+		Vector<Real> y_stage(algDim);
+		Vector<Real> f_curr(diffDim), f_stage(diffDim), f_t(diffDim);
+		Vector<Real> g_curr(algDim), g_stage(algDim), g_t(algDim);
 
 		// Save initial condition
 		result.solution.fillValues(0, t, x, y);
@@ -107,88 +112,89 @@ namespace MML {
 			system.allJacobians(t, x, y, df_dx, df_dy, dg_dx, dg_dy);
 			result.jacobian_evaluations++;
 
-			// ================================================================
-			// Rosenbrock step using linearly-implicit trapezoidal method
-			// 
-			// For x' = f(x,y), 0 = g(x,y), the trapezoidal rule gives:
-			// x_{n+1} = x_n + (h/2)*(f_n + f_{n+1})
-			// 0 = g_{n+1}
-			//
-			// Linearizing f_{n+1} ≈ f_n + J*(Δx, Δy):
-			// x_{n+1} - x_n = (h/2)*(f_n + f_n + df/dx*(x_{n+1}-x_n) + df/dy*(y_{n+1}-y_n))
-			// 
-			// Let Δx = x_{n+1}-x_n, Δy = y_{n+1}-y_n:
-			// (I - h/2*df/dx)*Δx - h/2*df/dy*Δy = h*f_n
-			// dg/dx*Δx + dg/dy*Δy = -g_n  (project to constraint)
-			// ================================================================
-			
-			Real hHalf = h * 0.5;
-			
-			// Build augmented system:
-			// [I - h/2*df/dx,    -h/2*df/dy] [Δx]   [h*f_n   ]
-			// [dg/dx,            dg/dy     ] [Δy] = [-g_n    ]
+			// Derivatives of f and g by time: second order differences within the step
+			Real dt = std::max(1e-3 * h, 4 * std::numeric_limits<Real>::epsilon() * std::abs(t));
+			system.diffEqs(t + dt, x, y, f_stage);
+			system.algConstraints(t + dt, x, y, g_stage);
+			for (int i = 0; i < diffDim; ++i)
+				f_t[i] = (4 * f_stage[i] - 3 * f_curr[i]) / (2 * dt);
+			for (int i = 0; i < algDim; ++i)
+				g_t[i] = (4 * g_stage[i] - 3 * g_curr[i]) / (2 * dt);
+			system.diffEqs(t + 2 * dt, x, y, f_stage);
+			system.algConstraints(t + 2 * dt, x, y, g_stage);
+			for (int i = 0; i < diffDim; ++i)
+				f_t[i] -= f_stage[i] / (2 * dt);
+			for (int i = 0; i < algDim; ++i)
+				g_t[i] -= g_stage[i] / (2 * dt);
+
+			// Build augmented system, differential equations multiplied by gamma*h:
+			// [I - gamma*h*df/dx,    -gamma*h*df/dy]
+			// [-dg/dx,               -dg/dy        ]
+			Real gh = gamma * h;
 			for (int i = 0; i < diffDim; ++i)
 			{
 				for (int j = 0; j < diffDim; ++j)
-					J_aug(i, j) = (i == j ? 1.0 : 0.0) - hHalf * df_dx(i, j);
+					J_aug(i, j) = (i == j ? 1.0 : 0.0) - gh * df_dx(i, j);
 				for (int j = 0; j < algDim; ++j)
-					J_aug(i, diffDim + j) = -hHalf * df_dy(i, j);
+					J_aug(i, diffDim + j) = -gh * df_dy(i, j);
 			}
 			for (int i = 0; i < algDim; ++i)
 			{
 				for (int j = 0; j < diffDim; ++j)
-					J_aug(diffDim + i, j) = dg_dx(i, j);
+					J_aug(diffDim + i, j) = -dg_dx(i, j);
 				for (int j = 0; j < algDim; ++j)
-					J_aug(diffDim + i, diffDim + j) = dg_dy(i, j);
+					J_aug(diffDim + i, diffDim + j) = -dg_dy(i, j);
 			}
 
-			// Build RHS
-			for (int i = 0; i < diffDim; ++i)
-				rhs[i] = h * f_curr[i];
-			for (int i = 0; i < algDim; ++i)
-				rhs[diffDim + i] = -g_curr[i];
-
-			// Solve J_aug * delta = rhs using Gauss-Jordan
-			delta = rhs;
-			Matrix<Real> J_copy = J_aug;
-			GaussJordanSolver<Real>::SolveInPlace(J_copy, delta);
-
-			// First approximation (predictor)
-			for (int i = 0; i < diffDim; ++i)
-				x_pred[i] = x[i] + delta[i];
-			for (int i = 0; i < algDim; ++i)
-				y_pred[i] = y[i] + delta[diffDim + i];
-
-			// ================================================================
-			// Second stage: corrector using updated function values
-			// Re-evaluate at the predictor point and do one more linear solve
-			// ================================================================
-			system.diffEqs(t + h, x_pred, y_pred, f_pred);
-			system.algConstraints(t + h, x_pred, y_pred, g_pred);
-
-			// Corrector: use average of f values
-			// Build RHS: h/2*(f_n + f_{n+1}) for diff eqs
-			for (int i = 0; i < diffDim; ++i)
-				rhs[i] = hHalf * (f_curr[i] + f_pred[i]);
-			for (int i = 0; i < algDim; ++i)
-				rhs[diffDim + i] = -g_pred[i];
-
-			// Solve again with same Jacobian (Rosenbrock approach)
-			delta = rhs;
-			J_copy = J_aug;
-			GaussJordanSolver<Real>::SolveInPlace(J_copy, delta);
+			// Stages: the same matrix with different right sides
+			for (int s = 0; s < 4; ++s)
+			{
+				if (s < 2)
+				{
+					f_stage = f_curr;
+					g_stage = g_curr;
+				}
+				else
+				{
+					x_stage = x;
+					y_stage = y;
+					for (int k = 0; k < s; ++k)
+					{
+						for (int i = 0; i < diffDim; ++i)
+							x_stage[i] += a[s][k] * U[k][i];
+						for (int i = 0; i < algDim; ++i)
+							y_stage[i] += a[s][k] * U[k][diffDim + i];
+					}
+					system.diffEqs(t + h, x_stage, y_stage, f_stage);
+					system.algConstraints(t + h, x_stage, y_stage, g_stage);
+				}
+				for (int i = 0; i < diffDim; ++i)
+				{
+					U[s][i] = gh * (f_stage[i] + h * g_time[s] * f_t[i]);
+					for (int k = 0; k < s; ++k)
+						U[s][i] += gamma * c[s][k] * U[k][i];
+				}
+				for (int i = 0; i < algDim; ++i)
+					U[s][diffDim + i] = g_stage[i] + h * g_time[s] * g_t[i];
+
+				Matrix<Real> J_copy = J_aug;
+				GaussJordanSolver<Real>::SolveInPlace(J_copy, U[s]);
+			}
 
 			// Update solution
-			for (int i = 0; i < diffDim; ++i)
-				x[i] += delta[i];
-			for (int i = 0; i < algDim; ++i)
-				y[i] += delta[diffDim + i];
+			for (int s = 0; s < 4; ++s)
+			{
+				for (int i = 0; i < diffDim; ++i)
+					x[i] += m[s] * U[s][i];
+				for (int i = 0; i < algDim; ++i)
+					y[i] += m[s] * U[s][diffDim + i];
+			}
 
 			t = t_next;
 
 			// Track constraint violation
-			system.algConstraints(t, x, y, g_pred);
-			Real g_norm = g_pred.NormL2();
+			system.algConstraints(t, x, y, g_stage);
+			Real g_norm = g_stage.NormL2();
 			if (g_norm > result.max_constraint_violation)
 				result.max_constraint_violation = g_norm;
 
-- 
2.43.0


From cc30b4a547b06935b361796811d257245a376f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:20 +0000
Subject: [PATCH 157/218] fix: DAESolution writes out of bounds when filled far
 beyond its capacity

---
 mml/base/DAESystem.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index 8d1c53d..d74572e 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -54,9 +54,9 @@ namespace MML
 		Matrix<Real> _yval;    ///< Algebraic variables (algDim x numPoints)
 
 		/// @brief Extend storage capacity using exponential growth (1.5x)
-		void ExtendSavedSteps()
+		void ExtendSavedSteps(int ind)
 		{
-			_totalSavedSteps = static_cast<int>(_totalSavedSteps * 1.5) + 1;
+			_totalSavedSteps = std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1);
 			
 			_tval.Resize(_totalSavedSteps, true);
 			_xval.Resize(_diffDim, _totalSavedSteps, true);
@@ -238,7 +238,7 @@ namespace MML
 				throw ArgumentError("Algebraic vector size mismatch in DAESolution::fillValues");
 
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_tval[ind] = t;
 			for (int i = 0; i < _diffDim; i++)
@@ -256,7 +256,7 @@ namespace MML
 			if (ind < 0)
 				throw IndexError("Index must be non-negative in DAESolution::setTVal");
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 			_tval[ind] = t;
 			if (ind + 1 > _count) _count = ind + 1;
 		}
@@ -272,8 +272,9 @@ namespace MML
 			if (component < 0 || component >= _diffDim)
 				throw IndexError("Component index out of range in DAESolution::setXVal");
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 			_xval[component][ind] = val;
+			if (ind + 1 > _count) _count = ind + 1;
 		}
 
 		/// @brief Set algebraic variable value at specified index
@@ -287,8 +288,9 @@ namespace MML
 			if (component < 0 || component >= _algDim)
 				throw IndexError("Component index out of range in DAESolution::setYVal");
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 			_yval[component][ind] = val;
+			if (ind + 1 > _count) _count = ind + 1;
 		}
 
 		/// @brief Trim storage to actual number of saved steps
-- 
2.43.0


From 00ebd721ac44c6d497e6423e93c1b976ba70f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:20 +0000
Subject: [PATCH 158/218] fix: DAESolution returns unused capacity as part of
 the solution

---
 mml/base/DAESystem.h | 64 ++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index d74572e..c6dd751 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -131,11 +131,31 @@ namespace MML
 		//=========================================================================
 
 		/// @brief Get all time points as vector
-		Vector<Real> getTValues() const { return _tval; }
+		Vector<Real> getTValues() const
+		{
+			Vector<Real> res(_count);
+			for (int i = 0; i < _count; i++)
+				res[i] = _tval[i];
+			return res;
+		}
 		/// @brief Get all differential state vectors as matrix (diffDim x numPoints)
-		Matrix<Real> getXValues() const { return _xval; }
+		Matrix<Real> getXValues() const
+		{
+			Matrix<Real> res(_diffDim, _count);
+			for (int i = 0; i < _diffDim; i++)
+				for (int j = 0; j < _count; j++)
+					res[i][j] = _xval[i][j];
+			return res;
+		}
 		/// @brief Get all algebraic state vectors as matrix (algDim x numPoints)
-		Matrix<Real> getYValues() const { return _yval; }
+		Matrix<Real> getYValues() const
+		{
+			Matrix<Real> res(_algDim, _count);
+			for (int i = 0; i < _algDim; i++)
+				for (int j = 0; j < _count; j++)
+					res[i][j] = _yval[i][j];
+			return res;
+		}
 
 		/// @brief Get t-value at a specific saved point
 		/// @param ind Index of saved point
@@ -180,7 +200,10 @@ namespace MML
 		{
 			if (component < 0 || component >= _diffDim)
 				throw IndexError("Component out of range in DAESolution::getXValues(component)");
-			return _xval.VectorFromRow(component);
+			Vector<Real> res(_count);
+			for (int i = 0; i < _count; i++)
+				res[i] = _xval[component][i];
+			return res;
 		}
 
 		/// @brief Get all values for a specific algebraic component as vector
@@ -190,7 +213,10 @@ namespace MML
 		{
 			if (component < 0 || component >= _algDim)
 				throw IndexError("Component out of range in DAESolution::getYValues(component)");
-			return _yval.VectorFromRow(component);
+			Vector<Real> res(_count);
+			for (int i = 0; i < _count; i++)
+				res[i] = _yval[component][i];
+			return res;
 		}
 
 		/// @brief Get differential state vector at final saved point
@@ -314,8 +340,8 @@ namespace MML
 		/// @return Linear interpolation function
 		LinearInterpRealFunc getXAsLinInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _xval.VectorFromRow(component);
+			Vector<Real> xsave = getTValues();
+			Vector<Real> ysave = getXValues(component);
 			return LinearInterpRealFunc(xsave, ysave);
 		}
 
@@ -324,8 +350,8 @@ namespace MML
 		/// @return Linear interpolation function
 		LinearInterpRealFunc getYAsLinInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _yval.VectorFromRow(component);
+			Vector<Real> xsave = getTValues();
+			Vector<Real> ysave = getYValues(component);
 			return LinearInterpRealFunc(xsave, ysave);
 		}
 
@@ -334,8 +360,8 @@ namespace MML
 		/// @return Cubic spline interpolation function
 		SplineInterpRealFunc getXAsSplineInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _xval.VectorFromRow(component);
+			Vector<Real> xsave = getTValues();
+			Vector<Real> ysave = getXValues(component);
 			return SplineInterpRealFunc(xsave, ysave);
 		}
 
@@ -344,8 +370,8 @@ namespace MML
 		/// @return Cubic spline interpolation function
 		SplineInterpRealFunc getYAsSplineInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _yval.VectorFromRow(component);
+			Vector<Real> xsave = getTValues();
+			Vector<Real> ysave = getYValues(component);
 			return SplineInterpRealFunc(xsave, ysave);
 		}
 
@@ -355,8 +381,10 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 2D
 		SplineInterpParametricCurve<2> getXAsParamCurve2D(int ind1, int ind2) const
 		{
-			Matrix<Real> curve_points(_totalSavedSteps, 2);
-			for (int i = 0; i < _totalSavedSteps; i++)
+			if (ind1 < 0 || ind1 >= _diffDim || ind2 < 0 || ind2 >= _diffDim)
+				throw IndexError("Component out of range in DAESolution::getXAsParamCurve2D");
+			Matrix<Real> curve_points(_count, 2);
+			for (int i = 0; i < _count; i++)
 			{
 				curve_points(i, 0) = _xval[ind1][i];
 				curve_points(i, 1) = _xval[ind2][i];
@@ -371,8 +399,10 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 3D
 		SplineInterpParametricCurve<3> getXAsParamCurve3D(int ind1, int ind2, int ind3) const
 		{
-			Matrix<Real> curve_points(_totalSavedSteps, 3);
-			for (int i = 0; i < _totalSavedSteps; i++)
+			if (ind1 < 0 || ind1 >= _diffDim || ind2 < 0 || ind2 >= _diffDim || ind3 < 0 || ind3 >= _diffDim)
+				throw IndexError("Component out of range in DAESolution::getXAsParamCurve3D");
+			Matrix<Real> curve_points(_count, 3);
+			for (int i = 0; i < _count; i++)
 			{
 				curve_points(i, 0) = _xval[ind1][i];
 				curve_points(i, 1) = _xval[ind2][i];
-- 
2.43.0


From 815cc50aa75c87199c909378038608e8463a516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:14 +0000
Subject: [PATCH 159/218] fix: Gauss-Jordan elimination writes out of bounds
 for a matrix of undefined values

---
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index b093f1f..3ca9aa7 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -138,6 +138,7 @@ namespace MML
 			for (j = 0; j < n; j++) ipiv[j] = 0;
 			for (i = 0; i < n; i++) {
 				big = 0.0;
+				irow = icol = -1;
 				for (j = 0; j < n; j++)
 					if (ipiv[j] != 1)
 						for (k = 0; k < n; k++) {
@@ -149,6 +150,8 @@ namespace MML
 								}
 							}
 						}
+				if (icol < 0) // no comparable element left
+					throw MatrixNumericalError("Undefined matrix elements in Gauss-Jordan elimination");
 				++(ipiv[icol]);
 				if (irow != icol) {
 					for (l = 0; l < n; l++) std::swap(a[irow][l], a[icol][l]);
-- 
2.43.0


From 9f658c518d810550750171c3c6d230e3c3e3372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:14 +0000
Subject: [PATCH 160/218] fix: Rosenbrock solver with the default configuration
 always fails allocating its result

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index 400fb59..c7f3c08 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -671,8 +671,7 @@ namespace MML {
 			AlgorithmTimer timer;  // Starts automatically
 
 			int dim = y0.size();
-			int max_steps = config.max_steps;
-			StiffSolverResult result(t0, t_end, dim, max_steps);
+			StiffSolverResult result(t0, t_end, dim, 0);
 			result.algorithm_name = "Rosenbrock23";
 
 			// Update internal tolerances
-- 
2.43.0


From 2e4c7a0f231b5ca0c531db49572bb12f12094d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:14 +0000
Subject: [PATCH 161/218] fix: Rosenbrock solver silently accepts an end before
 the start and invalid steps

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index c7f3c08..a9af52a 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -563,6 +563,9 @@ namespace MML {
 		/// @param h_max Maximum step size
 		/// @return Solution trajectory
 		ODESystemSolution Solve(Real t0, const Vector<Real>& y0, Real t_end, Real h_init, int max_steps, Real h_min, Real h_max) {
+			if (!(t_end >= t0)) throw std::invalid_argument("Rosenbrock: End time must not be before the start time");
+			if (!(h_init > 0)) throw std::invalid_argument("Rosenbrock: Initial step size must be positive");
+
 			int dim = y0.size();
 
 			ODESystemSolution sol(t0, t_end, dim, std::min(max_steps, 50000)); // storage grows if needed
@@ -680,9 +683,12 @@ namespace MML {
 
 			int jacobians_before = _jacobian_evaluations;
 			try {
-				Real h_init = (config.step_size > 0) ? config.step_size : (t_end - t0) / 100.0;
+				Real h_init = (config.step_size > 0) ? config.step_size : std::max<Real>((t_end - t0) / 100.0, config.min_step_size);
 				result.solution = Solve(t0, y0, t_end, h_init, config.max_steps, config.min_step_size, config.max_step_size);
 				result.total_steps = result.solution.getNumStepsOK();
+			} catch (const std::invalid_argument& e) {
+				result.status = AlgorithmStatus::InvalidInput;
+				result.error_message = e.what();
 			} catch (const std::exception& e) {
 				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = e.what();
-- 
2.43.0


From 6839d145c1afe14c7b3d090e88c291cd0ff4d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:45 +0000
Subject: [PATCH 162/218] fix: Rosenbrock solver crawls on stiff systems that
 depend on time

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index a9af52a..c3f0a86 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -511,8 +511,18 @@ namespace MML {
 			// Form matrix W = I - h*γ*J (same for all stages)
 			Matrix<Real> W = Matrix<Real>::Identity(dim) - J * (h * gamma_ros);
 
-			// Stage 1: Solve W*k1 = h*f(t, y)
-			Vector<Real> k1 = dydt * h;
+			// Time derivative of f, without which the error estimate of a stiff nonautonomous
+			// system follows the stiffness instead of the solution
+			Real dt = std::min(h, std::sqrt(std::numeric_limits<Real>::epsilon()) * std::max(std::abs(t), h));
+			dt = (t + dt) - t;
+			Vector<Real> ft(dim);
+			if (dt > 0) {
+				_system.derivs(t + dt, y, ft);
+				ft = (ft - dydt) * (h * h * gamma_ros / dt);
+			}
+
+			// Stage 1: Solve W*k1 = h*f(t, y) + γ*h²*f_t
+			Vector<Real> k1 = dydt * h + ft;
 			Matrix<Real> W_copy = W;
 			try {
 				GaussJordanSolver<Real>::SolveInPlace(W_copy, k1);
@@ -520,11 +530,11 @@ namespace MML {
 				return false; // Linear solve failed
 			}
 
-			// Stage 2: Solve W*k2 = h*f(t + h, y + k1) - 2*k1
+			// Stage 2: Solve W*k2 = h*f(t + h, y + k1) - 2*k1 - γ*h²*f_t
 			Vector<Real> y2 = y + k1;
 			Vector<Real> f2(dim);
 			_system.derivs(t + h, y2, f2);
-			Vector<Real> rhs2 = f2 * h - k1 * 2.0;
+			Vector<Real> rhs2 = f2 * h - k1 * 2.0 - ft;
 			Vector<Real> k2 = rhs2;
 			W_copy = W;
 			try {
-- 
2.43.0


From 91c9b09b852c2bbb5e95c66cdb4712af04aaa5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:18 +0000
Subject: [PATCH 163/218] fix: stiff solvers solve y' = 0 for systems whose
 Jacobian function clears the derivative

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index c3f0a86..75b44b4 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -182,7 +182,7 @@ namespace MML {
 
 		Real t = t0;
 		Vector<Real> y = y0;
-		Vector<Real> dydt(dim);
+		Vector<Real> dydt(dim), jac_dydt(dim); // not every Jacobian fills in the derivative
 		Matrix<Real> J(dim, dim);
 
 		// Save initial condition
@@ -200,7 +200,7 @@ namespace MML {
 			for (int iter = 0; iter < max_newton_iter; ++iter) {
 				// Evaluate f and Jacobian at current guess
 				system.derivs(t_next, y_new, dydt);
-				system.jacobian(t_next, y_new, dydt, J);
+				system.jacobian(t_next, y_new, jac_dydt, J);
 				if (newton_iterations) ++*newton_iterations;
 				if (jacobian_evaluations) ++*jacobian_evaluations;
 
@@ -304,7 +304,7 @@ namespace MML {
 		Real t = t0;
 		Vector<Real> y = y0;
 		Vector<Real> y_prev(dim); // For BDF2, we need previous step
-		Vector<Real> dydt(dim);
+		Vector<Real> dydt(dim), jac_dydt(dim); // not every Jacobian fills in the derivative
 		Matrix<Real> J(dim, dim);
 
 		// Save initial condition
@@ -323,7 +323,7 @@ namespace MML {
 
 			for (int iter = 0; iter < max_newton_iter; ++iter) {
 				system.derivs(t_next, y_new, dydt);
-				system.jacobian(t_next, y_new, dydt, J);
+				system.jacobian(t_next, y_new, jac_dydt, J);
 				if (newton_iterations) ++*newton_iterations;
 				if (jacobian_evaluations) ++*jacobian_evaluations;
 
@@ -377,7 +377,7 @@ namespace MML {
 			bool converged = false;
 			for (int iter = 0; iter < max_newton_iter; ++iter) {
 				system.derivs(t_next, y_new, dydt);
-				system.jacobian(t_next, y_new, dydt, J);
+				system.jacobian(t_next, y_new, jac_dydt, J);
 				if (newton_iterations) ++*newton_iterations;
 				if (jacobian_evaluations) ++*jacobian_evaluations;
 
@@ -500,12 +500,12 @@ namespace MML {
 				throw std::runtime_error("Rosenbrock::Step - invalid dimension: " + std::to_string(dim));
 			}
 
-			Vector<Real> dydt(dim);
+			Vector<Real> dydt(dim), jac_dydt(dim); // not every Jacobian fills in the derivative
 			Matrix<Real> J(dim, dim);
 
 			// Evaluate f and Jacobian at (t, y)
 			_system.derivs(t, y, dydt);
-			_system.jacobian(t, y, dydt, J);
+			_system.jacobian(t, y, jac_dydt, J);
 			++_jacobian_evaluations;
 
 			// Form matrix W = I - h*γ*J (same for all stages)
-- 
2.43.0


From 309e7b52debff4be1e4e64cf0110211d7c778692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:14 +0000
Subject: [PATCH 164/218] fix: shooting solvers report success as the status of
 failures and ignore the iteration limit

---
 mml/algorithms/ODESolvers/BVPShootingMethod.h | 45 ++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/mml/algorithms/ODESolvers/BVPShootingMethod.h b/mml/algorithms/ODESolvers/BVPShootingMethod.h
index 15d537a..d99d2f5 100644
--- a/mml/algorithms/ODESolvers/BVPShootingMethod.h
+++ b/mml/algorithms/ODESolvers/BVPShootingMethod.h
@@ -184,6 +184,17 @@ namespace MML {
 
 			RealFunctionFromStdFunc F(defectFunc);
 
+			AlgorithmTimer timer;
+			result.algorithm_name = "BVPShooting1D";
+			auto fail = [&](BVPFailureReason reason, AlgorithmStatus status, const std::string& details) {
+				result.converged = false;
+				result.failureReason = reason;
+				result.status = status;
+				result.failureDetails = details;
+				result.residual = std::numeric_limits<Real>::max();
+				result.elapsed_time_ms = timer.elapsed_ms();
+			};
+
 			try {
 				// Try to bracket the root
 				Real a = shootGuess1, b = shootGuess2;
@@ -197,17 +208,26 @@ namespace MML {
 				}
 
 				if (!bracketed) {
-					result.converged = false;
-					result.failureReason = BVPFailureReason::BracketingFailed;
-					result.failureDetails = "Could not bracket root with initial guesses [" + 
+					fail(BVPFailureReason::BracketingFailed, AlgorithmStatus::AlgorithmSpecificFailure,
+						"Could not bracket root with initial guesses [" + 
 						std::to_string(shootGuess1) + ", " + std::to_string(shootGuess2) + 
-						"] even after expanding range";
-					result.residual = std::numeric_limits<Real>::max();
+						"] even after expanding range");
 					return result;
 				}
 
 				// Use Brent's method to find the root
-				Real shootingParam = RootFinding::FindRootBrent(F, a, b, _tolerance);
+				RootFinding::RootFindingConfig rootConfig;
+				rootConfig.tolerance = _tolerance;
+				rootConfig.max_iterations = _maxIterations;
+				auto root = RootFinding::FindRootBrent(F, a, b, rootConfig);
+				result.iterations = root.iterations_used;
+				if (!root.converged) {
+					fail(root.status == AlgorithmStatus::MaxIterationsExceeded ? BVPFailureReason::MaxIterationsExceeded
+																			   : BVPFailureReason::RootFindingFailed,
+						 root.status, root.error_message);
+					return result;
+				}
+				Real shootingParam = root.root;
 
 				// Compute final solution with optimal shooting parameter
 				Vector<Real> initCond = knownInitCond;
@@ -224,12 +244,10 @@ namespace MML {
 				result.residual = std::abs(finalState[targetIndex] - targetValue);
 				result.failureReason = BVPFailureReason::None;
 			} catch (const std::exception& e) {
-				result.converged = false;
-				result.failureReason = BVPFailureReason::RootFindingFailed;
-				result.failureDetails = e.what();
-				result.residual = std::numeric_limits<Real>::max();
+				fail(BVPFailureReason::RootFindingFailed, AlgorithmStatus::AlgorithmSpecificFailure, e.what());
 			}
 
+			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
 
@@ -423,10 +441,13 @@ namespace MML {
 		/// @return ShootingResultND
 		ShootingResultND solve(Real t0, Real t1, const Vector<Real>& knownInitCond, const ShootingConfig& config) {
 			ShootingResultND result;
+			AlgorithmTimer timer;
+			result.algorithm_name = "BVPShootingND";
 
 			if (!config.isValid()) {
 				result.converged = false;
 				result.failureReason = BVPFailureReason::InvalidConfiguration;
+				result.status = AlgorithmStatus::InvalidInput;
 				result.failureDetails = "Shooting configuration invalid: unknownIndices, targetIndices, "
 					"unknownGuesses, and targetValues must all have same non-zero size";
 				return result;
@@ -473,6 +494,7 @@ namespace MML {
 				if (!std::isfinite(residualNorm)) {
 					result.converged = false;
 					result.failureReason = BVPFailureReason::NumericalInstability;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.failureDetails = "Residual norm became NaN/Inf at iteration " + 
 						std::to_string(iter);
 					break;
@@ -497,6 +519,7 @@ namespace MML {
 				if (!linearResult.success) {
 					result.converged = false;
 					result.failureReason = BVPFailureReason::SingularJacobian;
+					result.status = AlgorithmStatus::SingularMatrix;
 					result.failureDetails = linearResult.errorMessage;
 					break;
 				}
@@ -512,6 +535,7 @@ namespace MML {
 			// Check if we exceeded max iterations without converging
 			if (!result.converged && result.failureReason == BVPFailureReason::None) {
 				result.failureReason = BVPFailureReason::MaxIterationsExceeded;
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
 				result.failureDetails = "Did not converge within " + std::to_string(_maxIterations) + 
 					" iterations. Final residual norm: " + std::to_string(residualNorm) + 
 					" (tolerance: " + std::to_string(_tolerance) + ")";
@@ -530,6 +554,7 @@ namespace MML {
 			ODESystemFixedStepSolver solver(_system, _stepCalc);
 			result.solution = solver.integrate(initCond, t0, t1, _numSteps);
 
+			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
 
-- 
2.43.0


From b3b99adc54ac3310fc77f6dd5f192749cb05f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:14 +0000
Subject: [PATCH 165/218] fix: multiparameter shooting reports failure if the
 last permitted iteration converges

---
 mml/algorithms/ODESolvers/BVPShootingMethod.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/algorithms/ODESolvers/BVPShootingMethod.h b/mml/algorithms/ODESolvers/BVPShootingMethod.h
index d99d2f5..674b804 100644
--- a/mml/algorithms/ODESolvers/BVPShootingMethod.h
+++ b/mml/algorithms/ODESolvers/BVPShootingMethod.h
@@ -532,6 +532,10 @@ namespace MML {
 				residualNorm = F.NormL2();
 			}
 			
+			// The last iteration may have reached the tolerance
+			if (!result.converged && result.failureReason == BVPFailureReason::None && residualNorm < _tolerance)
+				result.converged = true;
+
 			// Check if we exceeded max iterations without converging
 			if (!result.converged && result.failureReason == BVPFailureReason::None) {
 				result.failureReason = BVPFailureReason::MaxIterationsExceeded;
-- 
2.43.0


From 88e33950248dcae07608af02f0331a92faa24c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:14 +0000
Subject: [PATCH 166/218] fix: multiparameter shooting fails for large
 parameters

---
 mml/algorithms/ODESolvers/BVPShootingMethod.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/ODESolvers/BVPShootingMethod.h b/mml/algorithms/ODESolvers/BVPShootingMethod.h
index 674b804..fad58af 100644
--- a/mml/algorithms/ODESolvers/BVPShootingMethod.h
+++ b/mml/algorithms/ODESolvers/BVPShootingMethod.h
@@ -503,13 +503,15 @@ namespace MML {
 				// Compute Jacobian numerically: J_ij = ∂F_i/∂s_j
 				Matrix<Real> J(n, n);
 				for (int j = 0; j < n; ++j) {
+					// relative for large parameters, where an absolute increment is lost in rounding
 					Vector<Real> s_plus = s;
-					s_plus[j] += _jacobianDelta;
+					s_plus[j] += _jacobianDelta * std::max(std::abs(s[j]), Real(1));
+					Real delta = s_plus[j] - s[j];
 
 					Vector<Real> F_plus = computeDefect(s_plus);
 
 					for (int i = 0; i < n; ++i)
-						J(i, j) = (F_plus[i] - F[i]) / _jacobianDelta;
+						J(i, j) = (F_plus[i] - F[i]) / delta;
 				}
 
 				// Solve J * delta_s = -F for delta_s
-- 
2.43.0


From c5d1bbf0d09c13ccc543826a08512c112727f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:14 +0000
Subject: [PATCH 167/218] fix: shooting solvers write out of bounds for indices
 beyond the dimension

---
 mml/algorithms/ODESolvers/BVPShootingMethod.h | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/ODESolvers/BVPShootingMethod.h b/mml/algorithms/ODESolvers/BVPShootingMethod.h
index fad58af..d169e57 100644
--- a/mml/algorithms/ODESolvers/BVPShootingMethod.h
+++ b/mml/algorithms/ODESolvers/BVPShootingMethod.h
@@ -168,6 +168,16 @@ namespace MML {
 		BVPShootingResult solve1D(Real t0, Real t1, const Vector<Real>& knownInitCond, int shootingIndex, int targetIndex, Real targetValue,
 								  Real shootGuess1, Real shootGuess2) {
 			BVPShootingResult result;
+			result.algorithm_name = "BVPShooting1D";
+
+			int dim = std::min(_system.getDim(), knownInitCond.size());
+			if (shootingIndex < 0 || shootingIndex >= dim || targetIndex < 0 || targetIndex >= dim) {
+				result.failureReason = BVPFailureReason::InvalidConfiguration;
+				result.status = AlgorithmStatus::InvalidInput;
+				result.failureDetails = "Shooting and target indices must be within the dimension of the system";
+				result.residual = std::numeric_limits<Real>::max();
+				return result;
+			}
 
 			// Create the "defect function" that measures boundary condition error
 			// F(s) = y[targetIndex](t1) - targetValue, where s is the shooting parameter
@@ -185,7 +195,6 @@ namespace MML {
 			RealFunctionFromStdFunc F(defectFunc);
 
 			AlgorithmTimer timer;
-			result.algorithm_name = "BVPShooting1D";
 			auto fail = [&](BVPFailureReason reason, AlgorithmStatus status, const std::string& details) {
 				result.converged = false;
 				result.failureReason = reason;
@@ -454,6 +463,15 @@ namespace MML {
 			}
 
 			int n = config.numParams();
+			int dim = std::min(_system.getDim(), knownInitCond.size());
+			for (int i = 0; i < n; ++i)
+				if (config.unknownIndices[i] < 0 || config.unknownIndices[i] >= dim ||
+					config.targetIndices[i] < 0 || config.targetIndices[i] >= dim) {
+					result.failureReason = BVPFailureReason::InvalidConfiguration;
+					result.status = AlgorithmStatus::InvalidInput;
+					result.failureDetails = "Shooting and target indices must be within the dimension of the system";
+					return result;
+				}
 
 			// Initialize shooting parameters from guesses
 			Vector<Real> s(n);
-- 
2.43.0


From abf7a8850d72ce34f7682922bd7b8ef7a548769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:44 +0000
Subject: [PATCH 168/218] fix: fixed point finder leaves fields uninitialized
 and misreports undefined or singular searches

---
 mml/systems/DynamicalSystemAnalyzers.h | 19 ++++++++++++++-----
 mml/systems/DynamicalSystemTypes.h     |  8 ++++----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 0554c7f..cec20a0 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -50,7 +50,7 @@ namespace MML::Systems
 			Vector<Real> f(n), dx(n);
 			Matrix<Real> J(n, n);
 
-			for (int iter = 0; iter < maxIter; ++iter) {
+			for (int iter = 0; iter <= maxIter; ++iter) {
 				// Evaluate f(x) = derivs(x) - should be zero at fixed point
 				sys.derivs(0.0, x, f);
 
@@ -66,6 +66,10 @@ namespace MML::Systems
 					return result;
 				}
 
+				// Out of iterations, or nowhere to go from here
+				if (iter == maxIter || !std::isfinite(residual))
+					break;
+
 				// Newton step: J * dx = -f
 				sys.jacobian(0.0, x, J);
 
@@ -77,6 +81,7 @@ namespace MML::Systems
 				} catch (...) {
 					// Jacobian singular - can't continue
 					result.type = FixedPointType::Unknown;
+					result.location = x;
 					result.convergenceResidual = residual;
 					result.iterations = iter;
 					return result;
@@ -84,13 +89,12 @@ namespace MML::Systems
 
 				// Update
 				x = x + dx;
+				result.iterations = iter + 1;
 			}
 
 			// Didn't converge
-			sys.derivs(0.0, x, f);
 			result.location = x;
 			result.convergenceResidual = f.NormL2();
-			result.iterations = maxIter;
 			result.type = FixedPointType::Unknown;
 			return result;
 		}
@@ -721,8 +725,13 @@ namespace MML::Systems
 				result.fixed_point = FixedPointFinder::Find(sys, initialGuess, tol, maxIter);
 				result.function_evaluations = result.fixed_point.iterations;
 
-				if (result.fixed_point.convergenceResidual >= tol) {
-					result.status = AlgorithmStatus::MaxIterationsExceeded;
+				if (!(result.fixed_point.convergenceResidual < tol)) {
+					if (!std::isfinite(result.fixed_point.convergenceResidual))
+						result.status = AlgorithmStatus::NumericalInstability;
+					else if (result.fixed_point.iterations < maxIter)
+						result.status = AlgorithmStatus::SingularMatrix;
+					else
+						result.status = AlgorithmStatus::MaxIterationsExceeded;
 					result.error_message = "Newton iteration did not converge (residual="
 						+ std::to_string(result.fixed_point.convergenceResidual) + ")";
 				}
diff --git a/mml/systems/DynamicalSystemTypes.h b/mml/systems/DynamicalSystemTypes.h
index 48e02b2..61deb7c 100644
--- a/mml/systems/DynamicalSystemTypes.h
+++ b/mml/systems/DynamicalSystemTypes.h
@@ -76,10 +76,10 @@ namespace MML::Systems
 		Vector<Type> location;											 ///< Position in state space
 		std::vector<std::complex<Type>> eigenvalues; ///< Jacobian eigenvalues
 		Matrix<Type> jacobian;											 ///< Jacobian at fixed point
-		FixedPointType type;												 ///< Stability classification
-		bool isStable;															 ///< Overall stability
-		Type convergenceResidual;										 ///< ||f(x*)|| at convergence
-		int iterations;															 ///< Newton iterations used
+		FixedPointType type = FixedPointType::Unknown; ///< Stability classification
+		bool isStable = false;											 ///< Overall stability
+		Type convergenceResidual = 0;								 ///< ||f(x*)|| at convergence
+		int iterations = 0;													 ///< Newton iterations used
 	};
 
 	/// @brief Result of Lyapunov exponent computation
-- 
2.43.0


From 0b5b348f7f51f993ac04fef9093e448de3d9b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:44 +0000
Subject: [PATCH 169/218] fix: non-hyperbolic fixed points without unstable
 directions are called unstable foci

---
 mml/systems/DynamicalSystemAnalyzers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index cec20a0..39667a7 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -169,8 +169,10 @@ namespace MML::Systems
 					fp.type = FixedPointType::SaddleFocus;
 				else if (maxRealPart < -Precision::DefaultToleranceStrict)
 					fp.type = FixedPointType::StableFocus;
-				else
+				else if (maxRealPart > Precision::DefaultToleranceStrict)
 					fp.type = FixedPointType::UnstableFocus;
+				else
+					fp.type = FixedPointType::Unknown; // non-hyperbolic, linearization does not decide
 			} else {
 				if (numPositiveReal > 0 && numNegativeReal > 0)
 					fp.type = FixedPointType::Saddle;
-- 
2.43.0


From b04c1fd2cad1706d3c8944439ce0bd011a0b879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:44 +0000
Subject: [PATCH 170/218] fix: Lyapunov analysis never ends for non-positive
 steps and yields numbers for diverging trajectories

---
 mml/systems/DynamicalSystemAnalyzers.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 39667a7..52a5842 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -208,6 +208,9 @@ namespace MML::Systems
 		static LyapunovResult<Real> Compute(IDynamicalSystem& sys, const Vector<Real>& x0, Real tTotal, Real dtOrthonormalize = 1.0,
 																				Real h = 0.01) {
 			int n = sys.getDim();
+			if (!(tTotal > 0) || !(dtOrthonormalize > 0) || !(h > 0))
+				throw ArgumentError("LyapunovAnalyzer::Compute - times and step size must be positive");
+
 			LyapunovResult<Real> result;
 			result.exponents.Resize(n);
 
@@ -224,6 +227,9 @@ namespace MML::Systems
 				// Integrate for dtOrthonormalize
 				Real tEnd = std::min(t + dtOrthonormalize, tTotal);
 				IntegrateWithVariational(sys, x, Q, t, tEnd, h);
+				for (int i = 0; i < n; ++i)
+					if (!std::isfinite(x[i]))
+						throw NumericalMethodError("LyapunovAnalyzer::Compute - trajectory diverges");
 
 				// Gram-Schmidt orthonormalization and accumulate stretching
 				GramSchmidtQR(Q, lyapunovSums);
-- 
2.43.0


From c011020cc3a4888f9ed51163f40b3dc798426a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:44 +0000
Subject: [PATCH 171/218] fix: variational equations lose the order of the
 Runge-Kutta method

---
 mml/systems/DynamicalSystemAnalyzers.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 52a5842..8efb232 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -268,7 +268,7 @@ namespace MML::Systems
 		static void IntegrateWithVariational(IDynamicalSystem& sys, Vector<Real>& x, Matrix<Real>& Q, Real t0, Real t1, Real h) {
 			int n = sys.getDim();
 			Vector<Real> k1(n), k2(n), k3(n), k4(n);
-			Vector<Real> xTemp(n), xOld(n), xMid(n), xEnd(n);
+			Vector<Real> xTemp(n), xOld(n), xMid(n), xMid2(n), xEnd(n);
 			Matrix<Real> J(n, n);
 			Matrix<Real> dQ1(n, n), dQ2(n, n), dQ3(n, n), dQ4(n, n);
 			Matrix<Real> QTemp(n, n);
@@ -291,6 +291,8 @@ namespace MML::Systems
 				sys.derivs(t + 0.5 * dt, xTemp, k2);
 				for (int i = 0; i < n; ++i)
 					xTemp[i] = x[i] + 0.5 * dt * k2[i];
+				for (int i = 0; i < n; ++i)
+					xMid2[i] = xTemp[i];
 				sys.derivs(t + 0.5 * dt, xTemp, k3);
 				for (int i = 0; i < n; ++i)
 					xTemp[i] = x[i] + dt * k3[i];
@@ -316,6 +318,7 @@ namespace MML::Systems
 				for (int i = 0; i < n; ++i)
 					for (int j = 0; j < n; ++j)
 						QTemp(i, j) = Q(i, j) + 0.5 * dt * dQ2(i, j);
+				sys.jacobian(t + 0.5 * dt, xMid2, J);
 				MultiplyJQ(J, QTemp, dQ3);
 
 				for (int i = 0; i < n; ++i)
-- 
2.43.0


From b7d8df1ca5655d19a134c07e97f9ae9e38c48142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:01 +0000
Subject: [PATCH 172/218] fix: Lyapunov exponents of maps are unsorted and
 collapsed directions are skipped

---
 mml/systems/DiscreteMaps.h             | 45 ++++++++-------------
 mml/systems/DynamicalSystemAnalyzers.h | 37 +----------------
 mml/systems/DynamicalSystemTypes.h     | 56 ++++++++++++++++++++++++++
 3 files changed, 74 insertions(+), 64 deletions(-)

diff --git a/mml/systems/DiscreteMaps.h b/mml/systems/DiscreteMaps.h
index f285dd0..bf59e06 100644
--- a/mml/systems/DiscreteMaps.h
+++ b/mml/systems/DiscreteMaps.h
@@ -13,10 +13,14 @@
 #define MML_DISCRETE_MAPS_H
 
 #include "MMLBase.h"
+#include "MMLExceptions.h"
 #include "base/Vector/Vector.h"
 #include "base/Matrix/Matrix.h"
+#include "systems/DynamicalSystemTypes.h"
 
+#include <algorithm>
 #include <cmath>
+#include <functional>
 #include <vector>
 #include <string>
 
@@ -277,6 +281,9 @@ namespace MML::Systems
 		/// @return DiscreteMapLyapunovResult with exponents and chaos indicator
 		static DiscreteMapLyapunovResult<Real> Compute(IDiscreteMap<N>& map, const Vector<Real>& x0, int numIterations = 10000,
 																int skipTransient = 1000) {
+			if (numIterations < 1)
+				throw ArgumentError("DiscreteMapLyapunov::Compute - number of iterations must be positive");
+
 			Vector<Real> x = x0;
 			Vector<Real> xNext(N);
 			Matrix<Real> J(N, N);
@@ -306,38 +313,15 @@ namespace MML::Systems
 				}
 				Q = JQ;
 
-				// Gram-Schmidt orthonormalization
-				for (int j = 0; j < N; ++j) {
-					// Get column j
-					Vector<Real> v(N);
-					for (int i = 0; i < N; ++i)
-						v[i] = Q(i, j);
-
-					// Orthogonalize
-					for (int k = 0; k < j; ++k) {
-						Real dot = 0;
-						for (int i = 0; i < N; ++i)
-							dot += v[i] * Q(i, k);
-						for (int i = 0; i < N; ++i)
-							v[i] -= dot * Q(i, k);
-					}
-
-					// Normalize
-					Real norm = 0;
-					for (int i = 0; i < N; ++i)
-						norm += v[i] * v[i];
-					norm = std::sqrt(norm);
-
-					if (norm > Precision::DivisionSafetyThreshold) {
-						lyapunovSums[j] += std::log(norm);
-						for (int i = 0; i < N; ++i)
-							Q(i, j) = v[i] / norm;
-					}
-				}
+				// Gram-Schmidt orthonormalization, accumulating the stretching
+				DynSysDetail::OrthonormalizeFrame(Q, lyapunovSums);
 
 				// Iterate map
 				map.map(x, xNext);
 				x = xNext;
+				for (int i = 0; i < N; ++i)
+					if (!std::isfinite(x[i]))
+						throw NumericalMethodError("DiscreteMapLyapunov::Compute - orbit diverges");
 			}
 
 			// Build result
@@ -346,6 +330,11 @@ namespace MML::Systems
 			for (int i = 0; i < N; ++i)
 				result.exponents[i] = lyapunovSums[i] / numIterations;
 
+			// Sort descending
+			for (int i = 1; i < N; ++i)
+				for (int j = i; j > 0 && result.exponents[j - 1] < result.exponents[j]; --j)
+					std::swap(result.exponents[j - 1], result.exponents[j]);
+
 			result.maxExponent = result.exponents[0];
 			result.isChaotic = result.maxExponent > 0.01;  // Small threshold
 
diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 8efb232..ee05afc 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -232,7 +232,7 @@ namespace MML::Systems
 						throw NumericalMethodError("LyapunovAnalyzer::Compute - trajectory diverges");
 
 				// Gram-Schmidt orthonormalization and accumulate stretching
-				GramSchmidtQR(Q, lyapunovSums);
+				DynSysDetail::OrthonormalizeFrame(Q, lyapunovSums);
 
 				numOrth++;
 				t = tEnd;
@@ -348,41 +348,6 @@ namespace MML::Systems
 			}
 		}
 
-		/// @brief Gram-Schmidt with accumulation of stretching factors
-		static void GramSchmidtQR(Matrix<Real>& Q, Vector<Real>& lyapunovSums) {
-			int n = Q.rows();
-
-			for (int j = 0; j < n; ++j) {
-				// Get column j
-				Vector<Real> v(n);
-				for (int i = 0; i < n; ++i)
-					v[i] = Q(i, j);
-
-				// Orthogonalize against previous columns
-				for (int k = 0; k < j; ++k) {
-					Real dot = 0;
-					for (int i = 0; i < n; ++i)
-						dot += v[i] * Q(i, k);
-					for (int i = 0; i < n; ++i)
-						v[i] -= dot * Q(i, k);
-				}
-
-				// Compute norm (stretching factor)
-				Real norm = 0;
-				for (int i = 0; i < n; ++i)
-					norm += v[i] * v[i];
-				norm = std::sqrt(norm);
-
-				// Accumulate log of stretching
-				if (norm > Precision::DivisionSafetyThreshold)
-					lyapunovSums[j] += std::log(norm);
-
-				// Normalize
-				for (int i = 0; i < n; ++i)
-					Q(i, j) = v[i] / norm;
-			}
-		}
-
 		/// @brief Compute Kaplan-Yorke dimension
 		///
 		/// D_KY = j + sum(λ_1..λ_j) / |λ_{j+1}|
diff --git a/mml/systems/DynamicalSystemTypes.h b/mml/systems/DynamicalSystemTypes.h
index 61deb7c..70d19a8 100644
--- a/mml/systems/DynamicalSystemTypes.h
+++ b/mml/systems/DynamicalSystemTypes.h
@@ -16,6 +16,9 @@
 #include "base/Vector/Vector.h"
 #include "base/Matrix/Matrix.h"
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
 #include <vector>
 #include <string>
 #include <complex>
@@ -94,6 +97,59 @@ namespace MML::Systems
 		Type totalTime;							///< Total integration time
 	};
 
+	namespace DynSysDetail
+	{
+		/// @brief Gram-Schmidt orthonormalization of a frame of perturbations (columns of Q),
+		/// adding the logarithm of the stretching of each direction to logStretching.
+		/// A direction that has collapsed completely gets -infinity and is replaced by a new one.
+		inline void OrthonormalizeFrame(Matrix<Real>& Q, Vector<Real>& logStretching) {
+			int n = Q.rows();
+			for (int j = 0; j < n; ++j) {
+				Vector<Real> v(n);
+				for (int i = 0; i < n; ++i)
+					v[i] = Q(i, j);
+
+				auto orthogonalize = [&]() {
+					for (int k = 0; k < j; ++k) {
+						Real dot = 0;
+						for (int i = 0; i < n; ++i)
+							dot += v[i] * Q(i, k);
+						for (int i = 0; i < n; ++i)
+							v[i] -= dot * Q(i, k);
+					}
+				};
+				auto normalize = [&]() {
+					Real scale = 0, sum = 0;
+					for (int i = 0; i < n; ++i)
+						scale = std::max(scale, std::abs(v[i]));
+					if (!(scale > std::numeric_limits<Real>::min()))
+						return Real(0);
+					for (int i = 0; i < n; ++i) {
+						v[i] /= scale;
+						sum += v[i] * v[i];
+					}
+					for (int i = 0; i < n; ++i)
+						v[i] /= std::sqrt(sum);
+					return scale * std::sqrt(sum);
+				};
+
+				orthogonalize();
+				Real norm = normalize();
+				logStretching[j] += (norm > 0) ? std::log(norm) : -std::numeric_limits<Real>::infinity();
+				for (int e = 0; norm == 0 && e < n; ++e) {
+					for (int i = 0; i < n; ++i)
+						v[i] = (i == e) ? 1 : 0;
+					orthogonalize();
+					norm = normalize();
+					if (norm * norm * (2 * n) < 1)
+						norm = 0;
+				}
+				for (int i = 0; i < n; ++i)
+					Q(i, j) = v[i];
+			}
+		}
+	} // namespace DynSysDetail
+
 	/// @brief Result of bifurcation sweep
 	template<typename Type = Real>
 	struct BifurcationDiagram {
-- 
2.43.0


From 7e3cbf1d765de8519c056472e13ad3a353ccd02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:01 +0000
Subject: [PATCH 173/218] fix: limit cycles and quasiperiodic orbits are
 reported as chaotic

---
 mml/systems/DynamicalSystemAnalyzers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index ee05afc..12afd73 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -255,7 +255,9 @@ namespace MML::Systems
 			for (int i = 0; i < n; ++i)
 				result.sum += result.exponents[i];
 
-			result.isChaotic = (result.maxExponent > Precision::DefaultTolerance);
+			// Separation of nearby regular orbits may grow by a constant factor or linearly with time,
+			// so a finite-time exponent this small says nothing about exponential divergence
+			result.isChaotic = (result.maxExponent > std::max(Real(0.01), 1 / tTotal));
 			result.kaplanYorkeDimension = ComputeKaplanYorkeDimension(result.exponents);
 			result.numOrthonormalizations = numOrth;
 			result.totalTime = tTotal;
-- 
2.43.0


From dc60abb7bddd0e2dcbdaa1b13356ad1bf072d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:01 +0000
Subject: [PATCH 174/218] fix: parameter sweeps of one step use an undefined
 parameter and failed sweeps leave the system modified

---
 mml/systems/DynamicalSystemAnalyzer.h  |  8 ++++----
 mml/systems/DynamicalSystemAnalyzers.h | 28 ++++++++++++++++++++++++--
 mml/systems/DynamicalSystemTypes.h     |  4 ++--
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzer.h b/mml/systems/DynamicalSystemAnalyzer.h
index 36a15da..2e88d23 100644
--- a/mml/systems/DynamicalSystemAnalyzer.h
+++ b/mml/systems/DynamicalSystemAnalyzer.h
@@ -386,8 +386,10 @@ namespace MML::Systems
 																														int numSteps, const Vector<Type>& x0,
 																														Type lyapunovTime = 200) const {
 			std::vector<std::pair<Type, Type>> results;
-			Type dParam = (paramMax - paramMin) / (numSteps - 1);
-			Type originalParam = _sys.getParam(paramIndex);
+			if (paramIndex < 0 || paramIndex >= _sys.getNumParam())
+				throw ArgumentError("DynamicalSystemAnalyzer::ScanChaosVsParameter - invalid parameter index");
+			Type dParam = numSteps > 1 ? (paramMax - paramMin) / (numSteps - 1) : 0;
+			ParameterRestorer restore(_sys, paramIndex);
 
 			for (int i = 0; i < numSteps; ++i) {
 				Type param = paramMin + i * dParam;
@@ -397,8 +399,6 @@ namespace MML::Systems
 				results.push_back({param, lyap.maxExponent});
 			}
 
-			// Restore original parameter
-			_sys.setParam(paramIndex, originalParam);
 			return results;
 		}
 
diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 12afd73..4f48662 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -388,6 +388,23 @@ namespace MML::Systems
 	// BIFURCATION ANALYZER
 	//=============================================================================
 
+	/// @brief Gives a swept parameter its original value back, also when the sweep fails
+	class ParameterRestorer {
+	public:
+		ParameterRestorer(IDynamicalSystem& sys, int paramIndex)
+				: _sys(sys)
+				, _index(paramIndex)
+				, _value(sys.getParam(paramIndex)) {}
+		~ParameterRestorer() { _sys.setParam(_index, _value); }
+		ParameterRestorer(const ParameterRestorer&) = delete;
+		ParameterRestorer& operator=(const ParameterRestorer&) = delete;
+
+	private:
+		IDynamicalSystem& _sys;
+		int _index;
+		Real _value;
+	};
+
 	/// @brief Generate bifurcation diagrams via parameter sweeps
 	class BifurcationAnalyzer {
 	public:
@@ -405,8 +422,15 @@ namespace MML::Systems
 		static BifurcationDiagram<Real> Sweep(IDynamicalSystem& sys, int paramIndex, Real paramMin, Real paramMax, int numSteps,
 																					Vector<Real> x0, int component, Real tTransient = 100.0, Real tRecord = 50.0, Real h = 0.01) {
 			BifurcationDiagram<Real> diagram;
+			if (paramIndex < 0 || paramIndex >= sys.getNumParam() || component < 0 || component >= sys.getDim())
+				throw ArgumentError("BifurcationAnalyzer::Sweep - invalid parameter index or component");
+			if (!(h > 0))
+				throw ArgumentError("BifurcationAnalyzer::Sweep - step size must be positive");
+
 			diagram.parameterName = sys.getParamName(paramIndex);
-			Real originalParam = sys.getParam(paramIndex);			Real dParam = (paramMax - paramMin) / (numSteps - 1);
+			diagram.numTransientSteps = tTransient > 0 ? static_cast<int>(std::min<Real>(std::ceil(tTransient / h), std::numeric_limits<int>::max())) : 0;
+			ParameterRestorer restore(sys, paramIndex);
+			Real dParam = numSteps > 1 ? (paramMax - paramMin) / (numSteps - 1) : 0;
 
 			for (int step = 0; step < numSteps; ++step) {
 				Real param = paramMin + step * dParam;
@@ -421,12 +445,12 @@ namespace MML::Systems
 
 				diagram.parameterValues.push_back(param);
 				diagram.attractorValues.push_back(maxima);
+				diagram.numRecordedPoints = std::max(diagram.numRecordedPoints, static_cast<int>(maxima.size()));
 
 				// Use final state as initial for next parameter (continuation)
 				x0 = x;
 			}
 
-			sys.setParam(paramIndex, originalParam);
 			return diagram;
 		}
 
diff --git a/mml/systems/DynamicalSystemTypes.h b/mml/systems/DynamicalSystemTypes.h
index 70d19a8..4d8a1ba 100644
--- a/mml/systems/DynamicalSystemTypes.h
+++ b/mml/systems/DynamicalSystemTypes.h
@@ -156,8 +156,8 @@ namespace MML::Systems
 		std::string parameterName;											///< Name of swept parameter
 		std::vector<Type> parameterValues;							///< Parameter values
 		std::vector<std::vector<Type>> attractorValues; ///< Attractor points at each param
-		int numTransientSteps;													///< Transient removal steps
-		int numRecordedPoints;													///< Points recorded per parameter
+		int numTransientSteps = 0;											///< Transient removal steps
+		int numRecordedPoints = 0;											///< Largest number of points recorded for a parameter
 	};
 
 	/// @brief Poincaré section definition
-- 
2.43.0


From 0ed49b18c16e7cbd20b742539759578629479aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:02 +0000
Subject: [PATCH 175/218] fix: Poincare section never ends if the trajectory
 does not cross it and misses crossings at step ends

---
 mml/systems/DynamicalSystemAnalyzers.h | 30 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 4f48662..1178081 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -532,8 +532,17 @@ namespace MML::Systems
 	class PhaseSpaceAnalyzer {
 	public:
 		/// @brief Compute Poincaré section intersections
+		///
+		/// Returns fewer intersections than asked for if the trajectory diverges or does not cross
+		/// the section within maxStepsBetween steps.
 		static std::vector<Vector<Real>> ComputePoincareSection(IDynamicalSystem& sys, const Vector<Real>& x0,
-																														const PoincareSection<Real>& section, int numIntersections, Real h = 0.01) {
+																														const PoincareSection<Real>& section, int numIntersections, Real h = 0.01,
+																														int maxStepsBetween = 1000000) {
+			if (section.variable < 0 || section.variable >= sys.getDim())
+				throw ArgumentError("PhaseSpaceAnalyzer::ComputePoincareSection - invalid section variable");
+			if (!(h > 0))
+				throw ArgumentError("PhaseSpaceAnalyzer::ComputePoincareSection - step size must be positive");
+
 			std::vector<Vector<Real>> intersections;
 			int n = sys.getDim();
 
@@ -553,8 +562,10 @@ namespace MML::Systems
 			}
 
 			// Collect intersections
-			while (count < numIntersections) {
+			int stepsSince = 0;
+			while (count < numIntersections && stepsSince < maxStepsBetween) {
 				xPrev = x;
+				++stepsSince;
 				Real valPrev = xPrev[section.variable] - section.value;
 
 				RK4Step(sys, x, t, h, k1, k2, k3, k4, xTemp);
@@ -562,8 +573,11 @@ namespace MML::Systems
 
 				Real val = x[section.variable] - section.value;
 
-				// Check for crossing
-				if (valPrev * val < 0) {
+				if (!std::isfinite(val))
+					break;
+
+				// Check for crossing (a step that ends on the section has crossed it, one that starts there has not)
+				if ((valPrev < 0 && val >= 0) || (valPrev > 0 && val <= 0)) {
 					// Check direction
 					bool correctDirection =
 						(section.direction == 0) || (section.direction > 0 && val > valPrev) || (section.direction < 0 && val < valPrev);
@@ -577,6 +591,7 @@ namespace MML::Systems
 
 						intersections.push_back(xCross);
 						count++;
+						stepsSince = 0;
 					}
 				}
 			}
@@ -794,7 +809,12 @@ namespace MML::Systems
 			[&](PoincareSectionResult<Real>& result) {
 				result.intersections = PhaseSpaceAnalyzer::ComputePoincareSection(
 					sys, x0, section, numIntersections, h);
-				result.function_evaluations = numIntersections;
+				result.function_evaluations = static_cast<int>(result.intersections.size());
+				if (result.function_evaluations < numIntersections) {
+					result.status = AlgorithmStatus::MaxIterationsExceeded;
+					result.error_message = "Trajectory crosses the section only "
+						+ std::to_string(result.function_evaluations) + " times";
+				}
 			});
 	}
 
-- 
2.43.0


From a8ab12c4cf157270172a8bc9380ac67f165553fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:02 +0000
Subject: [PATCH 176/218] fix: trajectory output is shifted against the
 requested times and has a spurious point

---
 mml/systems/DynamicalSystemAnalyzers.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 1178081..c9adc4b 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -608,19 +608,19 @@ namespace MML::Systems
 			Vector<Real> x = x0;
 			Vector<Real> k1(n), k2(n), k3(n), k4(n), xTemp(n);
 
-			Real t = 0;
-			Real nextOutput = 0;
+			if (!(dtOutput > 0) || !(h > 0))
+				throw ArgumentError("PhaseSpaceAnalyzer::IntegrateTrajectory - output interval and step size must be positive");
 
 			trajectory.push_back(x);
 
-			while (t < tTotal) {
-				RK4Step(sys, x, t, h, k1, k2, k3, k4, xTemp);
-				t += h;
-
-				if (t >= nextOutput) {
-					trajectory.push_back(x);
-					nextOutput += dtOutput;
-				}
+			// Steps of at most h that end exactly at the output times k * dtOutput
+			const Real slack = 1e-9;
+			const Real numSteps = std::max(Real(1), std::ceil(dtOutput / h - slack));
+			const Real dt = dtOutput / numSteps;
+			for (Real k = 0; (k + 1) * dtOutput <= tTotal + slack * dtOutput; ++k) {
+				for (Real s = 0; s < numSteps; ++s)
+					RK4Step(sys, x, k * dtOutput + s * dt, dt, k1, k2, k3, k4, xTemp);
+				trajectory.push_back(x);
 			}
 
 			return trajectory;
-- 
2.43.0


From 3f52f977f45519ebf9aa64eefefac34ebd5bba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:00 +0000
Subject: [PATCH 177/218] fix: structure tests of matrices read outside of
 rectangular matrices

---
 mml/core/MatrixUtils.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/core/MatrixUtils.h b/mml/core/MatrixUtils.h
index cc64555..045764b 100644
--- a/mml/core/MatrixUtils.h
+++ b/mml/core/MatrixUtils.h
@@ -47,7 +47,7 @@ namespace MML
 		{
 			int n = H.rows();
 			for (int i = 2; i < n; i++)
-				for (int j = 0; j < i - 1; j++)
+				for (int j = 0; j < i - 1 && j < H.cols(); j++)
 					if (std::abs(H(i, j)) > tol)
 						return false;
 			return true;
@@ -65,7 +65,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 1; i < n; i++)
-				for (int j = 0; j < i; j++)
+				for (int j = 0; j < i && j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -83,7 +83,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = i + 1; j < n; j++)
+				for (int j = i + 1; j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -101,7 +101,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = 0; j < n; j++)
+				for (int j = 0; j < A.cols(); j++)
 					if (i != j && std::abs(A(i, j)) > tol)
 						return false;
 			return true;
-- 
2.43.0


From ec252fc2e7d8d9ca15c5dba73112cfbbcce26d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:52 +0000
Subject: [PATCH 178/218] fix: LU decomposition of a linear system has empty
 factors and no permutation

---
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 31 +++++++++++++++++++++++++
 mml/systems/LinearSystem.h              | 10 +++-----
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 3ca9aa7..fe01906 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -369,6 +369,37 @@ namespace MML
 			}
 		}
 
+		/// @brief Unit lower triangular factor of P*A = L*U
+		Matrix<Type> getL() const
+		{
+			Matrix<Type> L(_n, _n);
+			for (int i = 0; i < _n; i++)
+				for (int j = 0; j < _n; j++)
+					L(i, j) = j < i ? _lu(i, j) : Type(i == j ? 1 : 0);
+			return L;
+		}
+
+		/// @brief Upper triangular factor of P*A = L*U
+		Matrix<Type> getU() const
+		{
+			Matrix<Type> U(_n, _n);
+			for (int i = 0; i < _n; i++)
+				for (int j = 0; j < _n; j++)
+					U(i, j) = j < i ? Type(0) : _lu(i, j);
+			return U;
+		}
+
+		/// @brief Row permutation of P*A = L*U: row i of P*A is row permutation[i] of A
+		std::vector<int> getPermutation() const
+		{
+			std::vector<int> perm(_n);
+			for (int i = 0; i < _n; i++)
+				perm[i] = i;
+			for (int k = 0; k < _n; k++)
+				std::swap(perm[k], perm[_indx[k]]);
+			return perm;
+		}
+
 		/// @brief Solve Ax=B with multiple right-hand sides using stored LU decomposition
 		/// @param matRHS Right-hand side matrix
 		/// @param outSol Solution matrix (output)
diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 412feca..f539de5 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -899,13 +899,9 @@ namespace MML::Systems
 				try {
 					LUSolver<Type> solver(_A);
 
-					// Extract L and U from the solver's combined storage
-					int n = rows();
-					_lu->L.Resize(n, n);
-					_lu->U.Resize(n, n);
-
-					// The LU matrix has L in lower triangle and U in upper
-					// For now, store raw LU and determinant
+					_lu->L = solver.getL();
+					_lu->U = solver.getU();
+					_lu->permutation = solver.getPermutation();
 					_lu->determinant = solver.det();
 					_lu->valid = true;
 				} catch (...) {
-- 
2.43.0


From 470d52617b0d56d9cac5e7d9057450d2048c5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:52 +0000
Subject: [PATCH 179/218] fix: linear system answers rank and symmetry
 questions with the tolerance of the first question

---
 mml/systems/LinearSystem.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index f539de5..e69c54e 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -455,7 +455,8 @@ namespace MML::Systems
 
 		/// @brief Check if matrix is symmetric within tolerance
 		bool isSymmetric(Type tol = Precision::DefaultToleranceStrict) const {
-			if (!_isSymmetric.has_value()) {
+			if (!_isSymmetric.has_value() || _symmetryTolerance != tol) {
+				_symmetryTolerance = tol;
 				if (!isSquare()) {
 					_isSymmetric = false;
 				} else {
@@ -474,14 +475,15 @@ namespace MML::Systems
 		///
 		/// @note Attempts Cholesky decomposition
 		bool isPositiveDefinite(Type tol = Precision::DefaultToleranceStrict) const {
-			if (!_isPositiveDefinite.has_value()) {
+			if (!_isPositiveDefinite.has_value() || _definiteTolerance != tol) {
+				_definiteTolerance = tol;
 				if (!isSymmetric(tol)) {
 					_isPositiveDefinite = false;
 				} else {
 					try {
 						CholeskySolver<Type> solver(_A);
 						_isPositiveDefinite = true;
-					} catch (const SingularMatrixError&) {
+					} catch (const std::exception&) {
 						_isPositiveDefinite = false;
 					}
 				}
@@ -546,7 +548,8 @@ namespace MML::Systems
 		///
 		/// @param tol Threshold below which singular values are considered zero
 		int Rank(Type tol = -1) const {
-			if (!_rank.has_value()) {
+			if (!_rank.has_value() || _rankTolerance != tol) {
+				_rankTolerance = tol;
 				SVDecompositionSolver<Type> solver(_A);
 				_rank = solver.Rank(tol);
 			}
@@ -879,6 +882,11 @@ namespace MML::Systems
 		mutable std::optional<Type> _conditionNumber;
 		mutable std::optional<int> _rank;
 
+		// tolerances the cached answers were given for
+		mutable Type _symmetryTolerance = 0;
+		mutable Type _definiteTolerance = 0;
+		mutable Type _rankTolerance = 0;
+
 		//=========================================================================
 		// INTERNAL HELPERS
 		//=========================================================================
-- 
2.43.0


From 5cdc661715e8e33e6ba92f63c3a15a67597ef072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:52 +0000
Subject: [PATCH 180/218] fix: single right-hand side operations work on
 nothing if there are several right-hand sides

---
 mml/systems/LinearSystem.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index e69c54e..b8f505a 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -894,6 +894,8 @@ namespace MML::Systems
 		void RequireRHS() const {
 			if (!_hasRHS)
 				throw std::runtime_error("LinearSystem: operation requires right-hand side");
+			if (_multipleRHS)
+				throw std::runtime_error("LinearSystem: operation requires a single right-hand side, use SolveMultiple");
 		}
 
 		void RequireSquare() const {
-- 
2.43.0


From 0819bff4e87cc62923ea5d1d8ce1463a89d6722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:52 +0000
Subject: [PATCH 181/218] fix: automatic solution is wrong for small elements
 and fails for rectangular and singular triangular matrices

---
 mml/systems/LinearSystem.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index b8f505a..e9ffc32 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -964,27 +964,38 @@ namespace MML::Systems
 		}
 
 		std::string SelectBestSolver() const {
-			// Quick structural checks first
-			if (isUpperTriangular() || isLowerTriangular())
+			// Quick structural checks first - exact ones, as neglected elements would change the solution
+			if (isSquare() && (isUpperTriangular(0) || isLowerTriangular(0)) && HasNonzeroDiagonal())
 				return "Triangular";
 
 			// For overdetermined systems, use QR (least squares)
 			if (isOverdetermined())
 				return "QR";
 
+			// For underdetermined systems, the solution of minimal norm
+			if (isUnderdetermined())
+				return "SVD";
+
 			// Check condition number for ill-conditioned systems
 			Type cond = ConditionNumber();
 			if (cond > 1e10)
 				return "SVD"; // Most robust for ill-conditioned
 
 			// For SPD matrices, Cholesky is best
-			if (isSymmetric() && isPositiveDefinite())
+			if (isSymmetric(0) && isPositiveDefinite(0))
 				return "Cholesky";
 
 			// Default: LU with partial pivoting
 			return "LU";
 		}
 
+		bool HasNonzeroDiagonal() const {
+			for (int i = 0; i < rows(); ++i)
+				if (_A(i, i) == Type(0))
+					return false;
+			return true;
+		}
+
 		IterativeMethod SelectIterativeMethod() const {
 			// For diagonally dominant matrices, Gauss-Seidel converges faster
 			if (isDiagonallyDominant())
@@ -999,7 +1010,7 @@ namespace MML::Systems
 			int n = rows();
 			Vector<Type> x(n);
 
-			if (isUpperTriangular()) {
+			if (isUpperTriangular(0)) {
 				// Back substitution
 				for (int i = n - 1; i >= 0; --i) {
 					Type sum = _b[i];
-- 
2.43.0


From 776cc1e227fc99763e49f1622437317694c537ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:52 +0000
Subject: [PATCH 182/218] fix: analysis of a linear system ignores the
 right-hand side when it counts solutions

---
 mml/systems/LinearSystem.h | 48 +++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index e9ffc32..e0125f8 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -820,27 +820,11 @@ namespace MML::Systems
 			result.stability = AssessStability();
 			result.expectedDigitsLost = ExpectedDigitsLost();
 
-			// Solution classification
-			if (result.isSquare) {
-				if (result.rank == result.cols) {
-					result.hasUniqueSolution = true;
-					result.hasInfiniteSolutions = false;
-					result.hasNoSolution = false;
-				} else {
-					result.hasUniqueSolution = false;
-					result.hasInfiniteSolutions = (result.nullity > 0);
-					result.hasNoSolution = false; // Would need RHS to determine
-				}
-			} else if (result.isOverdetermined) {
-				result.hasUniqueSolution = (result.rank == result.cols);
-				result.hasInfiniteSolutions = false;
-				result.hasNoSolution = !result.hasUniqueSolution;
-			} else // Underdetermined
-			{
-				result.hasUniqueSolution = false;
-				result.hasInfiniteSolutions = true;
-				result.hasNoSolution = false;
-			}
+			// Solution classification: a system has solutions if the right-hand side does not raise the rank
+			// (without a right-hand side, the homogeneous system is described)
+			result.hasNoSolution = _hasRHS && AugmentedRank() > result.rank;
+			result.hasUniqueSolution = !result.hasNoSolution && result.rank == result.cols;
+			result.hasInfiniteSolutions = !result.hasNoSolution && result.rank < result.cols;
 
 			// Recommendation
 			result.recommendedSolver = SelectBestSolver();
@@ -989,6 +973,28 @@ namespace MML::Systems
 			return "LU";
 		}
 
+		/// @brief Rank of the matrix extended by the right-hand side(s), scaled to the size of the matrix
+		int AugmentedRank() const {
+			int p = _multipleRHS ? _B.cols() : 1;
+			Matrix<Type> M(rows(), cols() + p);
+			for (int i = 0; i < rows(); ++i)
+				for (int j = 0; j < cols() + p; ++j)
+					M(i, j) = j < cols() ? _A(i, j) : _multipleRHS ? _B(i, j - cols()) : _b[i];
+
+			Type sizeA = 0;
+			for (int i = 0; i < rows(); ++i)
+				for (int j = 0; j < cols(); ++j)
+					sizeA = std::max(sizeA, Type(std::abs(M(i, j))));
+			for (int j = cols(); j < cols() + p; ++j) {
+				Type size = 0;
+				for (int i = 0; i < rows(); ++i)
+					size = std::max(size, Type(std::abs(M(i, j))));
+				for (int i = 0; i < rows() && size > 0 && sizeA > 0; ++i)
+					M(i, j) = M(i, j) / size * sizeA;
+			}
+			return SVDecompositionSolver<Type>(M).Rank();
+		}
+
 		bool HasNonzeroDiagonal() const {
 			for (int i = 0; i < rows(); ++i)
 				if (_A(i, i) == Type(0))
-- 
2.43.0


From a35e79a2f441061e1bad1b7b0ff1c8d21c6c326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:21 +0000
Subject: [PATCH 183/218] fix: straight line fit is wrong for data far from
 zero or on a small scale

---
 mml/algorithms/CurveFitting.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/mml/algorithms/CurveFitting.h b/mml/algorithms/CurveFitting.h
index 32aaa9c..5abad29 100644
--- a/mml/algorithms/CurveFitting.h
+++ b/mml/algorithms/CurveFitting.h
@@ -144,7 +144,8 @@ namespace MML {
 		// Special case: two points - exact fit
 		if (n == 2) {
 			Scalar dx = x_data[1] - x_data[0];
-			if (std::abs(dx) < std::numeric_limits<Scalar>::epsilon() * 10) {
+			Scalar size = std::max(std::abs(x_data[0]), std::abs(x_data[1]));
+			if (std::abs(dx) <= std::numeric_limits<Scalar>::epsilon() * 10 * size) {
 				// Vertical line - can't fit y = ax + b, use horizontal line at average y
 				a = 0.0;
 				b = (y_data[0] + y_data[1]) / 2.0;
@@ -159,28 +160,32 @@ namespace MML {
 		}
 
 		// General case: n >= 3 points - least squares
-		// Compute sums for normal equations
-		Scalar sum_x = 0.0, sum_y = 0.0, sum_xx = 0.0, sum_xy = 0.0;
+		// Work with deviations from the means, where the normal equations are diagonal
+		// (sums of the data itself cancel if the x values are far from zero)
+		Scalar mean_x = 0.0, mean_y = 0.0, size_x = 0.0;
 
 		for (int i = 0; i < n; i++) {
-			sum_x += x_data[i];
-			sum_y += y_data[i];
-			sum_xx += x_data[i] * x_data[i];
-			sum_xy += x_data[i] * y_data[i];
+			mean_x += x_data[i];
+			mean_y += y_data[i];
+			size_x = std::max(size_x, std::abs(x_data[i]));
 		}
+		mean_x /= n;
+		mean_y /= n;
 
-		// Normal equations matrix: A = [sum_xx  sum_x ]
-		//                              [sum_x   n     ]
-		Scalar det = n * sum_xx - sum_x * sum_x;
+		Scalar sum_xx = 0.0, sum_xy = 0.0;
+		for (int i = 0; i < n; i++) {
+			Scalar dx = x_data[i] - mean_x;
+			sum_xx += dx * dx;
+			sum_xy += dx * (y_data[i] - mean_y);
+		}
 
 		// Check for singularity (all x values essentially identical)
-		if (std::abs(det) < std::numeric_limits<Scalar>::epsilon() * std::max(std::abs(n * sum_xx), std::abs(sum_x * sum_x))) {
-			throw SingularMatrixError("LinearLeastSquares: singular system - all x values are nearly identical", det);
+		if (std::sqrt(sum_xx / n) <= std::numeric_limits<Scalar>::epsilon() * (10 + n) * size_x) {
+			throw SingularMatrixError("LinearLeastSquares: singular system - all x values are nearly identical", sum_xx);
 		}
 
-		// Solve using Cramer's rule (explicit for 2x2 system)
-		a = (n * sum_xy - sum_x * sum_y) / det;
-		b = (sum_xx * sum_y - sum_x * sum_xy) / det;
+		a = sum_xy / sum_xx;
+		b = mean_y - a * mean_x;
 
 		// Compute residual norm
 		Scalar residual_sum = 0.0;
-- 
2.43.0


From 82b6bf3ccf78fb5e625ee50187484e892967ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:21 +0000
Subject: [PATCH 184/218] fix: coefficient of determination is wrong for data
 on a small scale

---
 mml/algorithms/CurveFitting.h | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mml/algorithms/CurveFitting.h b/mml/algorithms/CurveFitting.h
index 5abad29..291afe6 100644
--- a/mml/algorithms/CurveFitting.h
+++ b/mml/algorithms/CurveFitting.h
@@ -100,6 +100,24 @@ namespace MML {
 					AlgorithmStatus::AlgorithmSpecificFailure, ex.what(), algorithm_name);
 			}
 		}
+
+		/// Coefficient of determination; data which is constant up to rounding is explained fully or not at all.
+		/// Returns false if the data is constant.
+		template<typename Scalar>
+		bool RSquared(const Vector<Scalar>& y_data, Scalar ss_res, Scalar ss_tot, Scalar& r_squared)
+		{
+			const Scalar eps = std::numeric_limits<Scalar>::epsilon();
+			Scalar size = 0.0;
+			for (int i = 0; i < y_data.size(); i++)
+				size = std::max(size, std::abs(y_data[i]));
+
+			const bool varies = std::sqrt(ss_tot / y_data.size()) > 10 * eps * size;
+			if (varies)
+				r_squared = 1.0 - (ss_res / ss_tot);
+			else
+				r_squared = (std::sqrt(ss_res / y_data.size()) <= std::sqrt(eps) * size) ? 1.0 : 0.0;
+			return varies;
+		}
 	} // namespace CurveFittingDetail
 	///////////////////////////           LINEAR LEAST SQUARES           ///////////////////////////
 
@@ -239,12 +257,7 @@ namespace MML {
 		}
 
 		// R^2 = 1 - (SS_res / SS_tot)
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
-			result.r_squared = 1.0 - (ss_res / ss_tot);
-		} else {
-			// All y values are identical
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
-		}
+		CurveFittingDetail::RSquared(y_data, ss_res, ss_tot, result.r_squared);
 
 		result.mean_squared_error = ss_res / n;
 
@@ -393,15 +406,13 @@ namespace MML {
 			ss_tot += diff * diff;
 		}
 
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
-			result.r_squared = 1.0 - (ss_res / ss_tot);
+		if (CurveFittingDetail::RSquared(y_data, ss_res, ss_tot, result.r_squared)) {
 			// Adjusted R^2: R^2_adj = 1 - (1 - R^2) * (m - 1) / (m - n)
 			if (m > n)
 				result.adjusted_r_squared = 1.0 - (1.0 - result.r_squared) * (m - 1.0) / (m - n);
 			else
 				result.adjusted_r_squared = result.r_squared;
 		} else {
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
 			result.adjusted_r_squared = result.r_squared;
 		}
 
@@ -484,14 +495,12 @@ namespace MML {
 			ss_tot += diff * diff;
 		}
 
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
-			result.r_squared = 1.0 - (ss_res / ss_tot);
+		if (CurveFittingDetail::RSquared(y_data, ss_res, ss_tot, result.r_squared)) {
 			if (m > n)
 				result.adjusted_r_squared = 1.0 - (1.0 - result.r_squared) * (m - 1.0) / (m - n);
 			else
 				result.adjusted_r_squared = result.r_squared;
 		} else {
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
 			result.adjusted_r_squared = result.r_squared;
 		}
 
-- 
2.43.0


From 459f9b125aedd6d72ae4a500c2d38504c5d6c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:39 +0000
Subject: [PATCH 185/218] fix: integral of a Chebyshev series loses its highest
 term and reads outside of series of one term

---
 mml/algorithms/ChebyshevApproximation.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/ChebyshevApproximation.h b/mml/algorithms/ChebyshevApproximation.h
index 3dcd898..9aae45a 100644
--- a/mml/algorithms/ChebyshevApproximation.h
+++ b/mml/algorithms/ChebyshevApproximation.h
@@ -306,27 +306,24 @@ namespace MML {
 		// The constant of integration is chosen so that the integral is zero at x = a.
 		//
 		// The integral of a Chebyshev series:
-		//   c''_j = (con) * (c_{j-1} - c_{j+1}) / j   for j = 1, ..., n-2
-		//   c''_{n-1} = (con) * c_{n-2} / (n-1)
+		//   c''_j = (con) * (c_{j-1} - c_{j+1}) / j   for j = 1, ..., n, with c_n = c_{n+1} = 0
 		//   c''_0 chosen to make integral(a) = 0
 		// where con = (b-a)/4.
 		ChebyshevApproximation Integral() const {
 			int n = static_cast<int>(_coef.size());
 
-			Vector<Real> cint(n);
+			// the integral has one degree more
+			Vector<Real> cint(n + 1);
 			Real sum = 0.0;
 			Real fac = 1.0;
 			Real con = 0.25 * (_b - _a);
 
-			for (int j = 1; j < n - 1; j++) {
-				cint[j] = con * (_coef[j - 1] - _coef[j + 1]) / j;
+			for (int j = 1; j <= n; j++) {
+				cint[j] = con * (_coef[j - 1] - (j + 1 < n ? _coef[j + 1] : Real(0))) / j;
 				sum += fac * cint[j];
 				fac = -fac;
 			}
 
-			cint[n - 1] = con * _coef[n - 2] / (n - 1);
-			sum += fac * cint[n - 1];
-
 			// c_0 chosen so integral(a) = 0
 			cint[0] = 2.0 * sum;
 
-- 
2.43.0


From 1895a8a683c36309a1a259bf75ec06814ed3e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:39 +0000
Subject: [PATCH 186/218] fix: maximal error of a Chebyshev approximation is
 sampled outside of its interval

---
 mml/algorithms/ChebyshevApproximation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/ChebyshevApproximation.h b/mml/algorithms/ChebyshevApproximation.h
index 9aae45a..5052f48 100644
--- a/mml/algorithms/ChebyshevApproximation.h
+++ b/mml/algorithms/ChebyshevApproximation.h
@@ -388,7 +388,7 @@ namespace MML {
 		Real MaxError(const IRealFunction& func, int numSamples = 1000) const {
 			Real maxErr = 0.0;
 			for (int i = 0; i <= numSamples; i++) {
-				Real x = _a + i * (_b - _a) / numSamples;
+				Real x = std::min(_a + i * (_b - _a) / numSamples, _b);
 				Real err = std::abs((*this)(x)-func(x));
 				if (err > maxErr)
 					maxErr = err;
@@ -399,7 +399,7 @@ namespace MML {
 		Real MaxError(std::function<Real(Real)> func, int numSamples = 1000) const {
 			Real maxErr = 0.0;
 			for (int i = 0; i <= numSamples; i++) {
-				Real x = _a + i * (_b - _a) / numSamples;
+				Real x = std::min(_a + i * (_b - _a) / numSamples, _b);
 				Real err = std::abs((*this)(x)-func(x));
 				if (err > maxErr)
 					maxErr = err;
-- 
2.43.0


From 94b0fd9a5dd21949b8843bd2efcbf415a9cd1657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:39 +0000
Subject: [PATCH 187/218] fix: associated Legendre basis evaluates another
 function, at an angle

---
 mml/core/OrthogonalBasis/LegendreBasis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/OrthogonalBasis/LegendreBasis.h b/mml/core/OrthogonalBasis/LegendreBasis.h
index a580cd9..8fde448 100644
--- a/mml/core/OrthogonalBasis/LegendreBasis.h
+++ b/mml/core/OrthogonalBasis/LegendreBasis.h
@@ -123,7 +123,7 @@ namespace MML
             if (l < _m)
                 throw std::invalid_argument("AssociatedLegendreBasis::Evaluate: l must be >= m");
             
-            return Functions::SphLegendre(static_cast<unsigned int>(l), static_cast<unsigned int>(_m), x);
+            return Functions::AssocLegendre(static_cast<unsigned int>(l), static_cast<unsigned int>(_m), x);
         }
 
         // Domain bounds
-- 
2.43.0


From 6531cf25f99d3b807f3ea378ff7253f50a250741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:39 +0000
Subject: [PATCH 188/218] fix: basis functions of high degree overflow and the
 extremum of degree zero is undefined

---
 mml/core/OrthogonalBasis/ChebyshevBasis.h |  2 +-
 mml/core/OrthogonalBasis/HermiteBasis.h   | 14 ++++++++++----
 mml/core/OrthogonalBasis/LaguerreBasis.h  |  7 +------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/mml/core/OrthogonalBasis/ChebyshevBasis.h b/mml/core/OrthogonalBasis/ChebyshevBasis.h
index 13a65de..6b3a88e 100644
--- a/mml/core/OrthogonalBasis/ChebyshevBasis.h
+++ b/mml/core/OrthogonalBasis/ChebyshevBasis.h
@@ -118,7 +118,7 @@ namespace MML
             
             std::vector<Real> extrema(n + 1);
             for (int k = 0; k <= n; k++)
-                extrema[k] = std::cos(k * Constants::PI / n);
+                extrema[k] = n == 0 ? 1.0 : std::cos(k * Constants::PI / n);
             return extrema;
         }
 
diff --git a/mml/core/OrthogonalBasis/HermiteBasis.h b/mml/core/OrthogonalBasis/HermiteBasis.h
index 78cb098..1b2566d 100644
--- a/mml/core/OrthogonalBasis/HermiteBasis.h
+++ b/mml/core/OrthogonalBasis/HermiteBasis.h
@@ -119,11 +119,17 @@ namespace MML
             if (n < 0)
                 throw std::invalid_argument("HermiteBasis::QuantumWavefunction: n must be non-negative");
             
-            Real Hn = Evaluate(n, x);
-            Real norm_factor = 1.0 / std::sqrt(Normalization(n));
-            Real gaussian = std::exp(-0.5 * x * x);
+            // recurrence of the normalized functions, as Hₙ and 2ⁿn! overflow
+            Real psi_prev = 0.0;
+            Real psi = std::exp(-0.5 * x * x) / std::sqrt(std::sqrt(Constants::PI));
+            for (int k = 0; k < n; k++)
+            {
+                Real psi_next = (std::sqrt(Real(2)) * x * psi - std::sqrt(Real(k)) * psi_prev) / std::sqrt(Real(k + 1));
+                psi_prev = psi;
+                psi = psi_next;
+            }
             
-            return norm_factor * Hn * gaussian;
+            return psi;
         }
     };
 
diff --git a/mml/core/OrthogonalBasis/LaguerreBasis.h b/mml/core/OrthogonalBasis/LaguerreBasis.h
index 427d0fc..bed0b07 100644
--- a/mml/core/OrthogonalBasis/LaguerreBasis.h
+++ b/mml/core/OrthogonalBasis/LaguerreBasis.h
@@ -185,14 +185,9 @@ namespace MML
             // For simplicity, use: (n+α)!/n! * Γ(α+1)/α!
             
             Real gamma_alpha_plus_1 = std::tgamma(_alpha + 1.0);
-            Real n_factorial = 1.0;
-            for (int k = 1; k <= n; k++)
-                n_factorial *= k;
-            
             Real result = gamma_alpha_plus_1;
             for (int k = 1; k <= n; k++)
-                result *= (_alpha + k);
-            result /= n_factorial;
+                result *= (_alpha + k) / k;
             
             return result;
         }
-- 
2.43.0


From 9cffc0324ad372a6737947d76ebe598cd75ce157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:39 +0000
Subject: [PATCH 189/218] fix: integer overflow in factorials and delta
 function approximations

---
 mml/base/DiracDeltaFunction.h | 4 ++--
 mml/base/StandardFunctions.h  | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/base/DiracDeltaFunction.h b/mml/base/DiracDeltaFunction.h
index 4fbb7ab..ec9541f 100644
--- a/mml/base/DiracDeltaFunction.h
+++ b/mml/base/DiracDeltaFunction.h
@@ -47,7 +47,7 @@ namespace MML
 		/// @return N if |x| < 1/(2N), otherwise 0
 		Real operator()(const Real x) const
 		{
-			if (x < -1.0 / (2 * _N) || x > 1.0 / (2 * _N))
+			if (x < -1.0 / (2.0 * _N) || x > 1.0 / (2.0 * _N))
 				return 0.0;
 			else
 				return _N;
@@ -84,7 +84,7 @@ namespace MML
 		/// @brief Evaluates the Lorentzian approximation.
 		/// @param x Point to evaluate
 		/// @return N / (π(1 + N²x²))
-		Real operator()(const Real x) const { return _N / Constants::PI / (1 + _N * _N * x * x); }
+		Real operator()(const Real x) const { return _N / Constants::PI / (1 + Real(_N) * _N * x * x); }
 	};
 
 	/// @brief Sinc function approximation of Dirac delta.
diff --git a/mml/base/StandardFunctions.h b/mml/base/StandardFunctions.h
index 0471563..5894bfb 100644
--- a/mml/base/StandardFunctions.h
+++ b/mml/base/StandardFunctions.h
@@ -276,6 +276,7 @@ namespace MML
 		}
 		static inline long long FactorialInt(int n) {
 			if (n < 0) throw std::domain_error("FactorialInt: negative argument");
+			if (n > 20) throw std::overflow_error("FactorialInt: result does not fit in 64 bits");
 			long long fact = 1;
 			for (int i = 2; i <= n; i++)
 				fact *= i;
-- 
2.43.0


From 58a51a49318d8767e7b9a1e046a6d04c1eab74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:07 +0000
Subject: [PATCH 190/218] fix: expansion coefficients are infinite on infinite
 domains and for Chebyshev polynomials and take minutes where they are zero

---
 mml/core/OrthogonalBasis.h                | 77 ++++++++++++++++++-----
 mml/core/OrthogonalBasis/ChebyshevBasis.h |  9 +++
 2 files changed, 72 insertions(+), 14 deletions(-)

diff --git a/mml/core/OrthogonalBasis.h b/mml/core/OrthogonalBasis.h
index 98f5dc5..9aea598 100644
--- a/mml/core/OrthogonalBasis.h
+++ b/mml/core/OrthogonalBasis.h
@@ -15,11 +15,13 @@
 #include "MMLBase.h"
 
 #include "interfaces/IFunction.h"
-
 #include "core/Integration/Integration1D.h"
 
+
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
+#include <vector>
 
 namespace MML
 {
@@ -59,23 +61,70 @@ namespace MML
         // Compute expansion coefficient for function f: cₙ = ⟨f, φₙ⟩ / ||φₙ||²
         virtual Real ComputeCoefficient(const IRealFunction& f, int n, Real eps = Precision::DefaultToleranceStrict) const
         {
-            // Helper class for integrand f(x) * φₙ(x) * w(x)
-            class Integrand : public IRealFunction {
-                const OrthogonalBasis& _basis;
-                const IRealFunction& _f;
-                int _n;
-            public:
-                Integrand(const OrthogonalBasis& basis, const IRealFunction& f, int n)
-                    : _basis(basis), _f(f), _n(n) {}
-                Real operator()(Real x) const override {
-                    return _f(x) * _basis.Evaluate(_n, x) * _basis.WeightFunction(x);
-                }
+            // f(x) * φₙ(x) * w(x); far out on an infinite domain the weight wins over the polynomial
+            auto integrand = [&](Real x) {
+                Real weight = std::isfinite(x) ? WeightFunction(x) : Real(0);
+                return weight == 0 ? Real(0) : f(x) * Evaluate(n, x) * weight;
             };
 
-            Integrand integrand(*this, f, n);
-            Real inner_product = IntegrateTrap(integrand, DomainMin(), DomainMax(), eps).value;
+            const Real lower = DomainMin(), upper = DomainMax();
+            Real inner_product;
+            if (std::isfinite(lower) && std::isfinite(upper))
+                inner_product = IntegrateSmooth(integrand, lower, upper, eps);
+            else if (std::isfinite(lower) || std::isfinite(upper)) {
+                // x = t/(1-t) from the finite end
+                inner_product = IntegrateSmooth([&](Real t) {
+                    if (t >= 1)
+                        return Real(0);
+                    Real x = t / (1 - t);
+                    return integrand(std::isfinite(lower) ? lower + x : upper - x) / ((1 - t) * (1 - t));
+                }, 0.0, 1.0, eps);
+            }
+            else {
+                // x = t/(1-t²)
+                inner_product = IntegrateSmooth([&](Real t) {
+                    if (t <= -1 || t >= 1)
+                        return Real(0);
+                    Real u = 1 - t * t;
+                    return integrand(t / u) * (1 + t * t) / (u * u);
+                }, -1.0, 1.0, eps);
+            }
             return inner_product / Normalization(n);
         }
+
+    protected:
+        // Romberg integration. The accuracy is relative to the size of the integrand, as coefficients
+        // which are zero are no exception and no relative accuracy of them can be reached.
+        template<typename Func>
+        static Real IntegrateSmooth(const Func& func, Real a, Real b, Real eps)
+        {
+            const int MAX_LEVEL = 20, MIN_LEVEL = 6;
+            Real size = std::max(std::abs(func(a)), std::abs(func(b)));
+            Real sum = 0.5 * (func(a) + func(b));     // sum of the trapezoidal rule
+            std::vector<Real> previous{ sum * (b - a) };
+
+            for (int level = 1; level <= MAX_LEVEL; level++) {
+                const int intervals = 1 << level;
+                for (int i = 1; i < intervals; i += 2) {
+                    Real value = func(a + (b - a) * i / intervals);
+                    size = std::max(size, std::abs(value));
+                    sum += value;
+                }
+
+                std::vector<Real> current{ sum * (b - a) / intervals };
+                Real factor = 1;
+                for (size_t k = 0; k < previous.size() && k < 4; k++) {
+                    factor *= 4;
+                    current.push_back(current[k] + (current[k] - previous[k]) / (factor - 1));
+                }
+
+                Real change = std::abs(current.back() - previous.back());
+                previous = current;
+                if (level >= MIN_LEVEL && change <= eps * size * (b - a))
+                    break;
+            }
+            return previous.back();
+        }
     };
   }
 
diff --git a/mml/core/OrthogonalBasis/ChebyshevBasis.h b/mml/core/OrthogonalBasis/ChebyshevBasis.h
index 6b3a88e..d3341b1 100644
--- a/mml/core/OrthogonalBasis/ChebyshevBasis.h
+++ b/mml/core/OrthogonalBasis/ChebyshevBasis.h
@@ -91,6 +91,15 @@ namespace MML
                 return Constants::PI / 2.0;
         }
 
+        // Expansion coefficient; with x = cos(t) the singular weight disappears from the integral
+        Real ComputeCoefficient(const IRealFunction& f, int n, Real eps = Precision::DefaultToleranceStrict) const override
+        {
+            Real inner_product = IntegrateSmooth([&](Real t) {
+                return f(std::cos(t)) * std::cos(n * t);
+            }, 0.0, Constants::PI, eps);
+            return inner_product / Normalization(n);
+        }
+
         // Domain bounds
         Real DomainMin() const override { return -1.0; }
         Real DomainMax() const override { return 1.0; }
-- 
2.43.0


From 058aae548946897387320172464781aefcd73f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:35 +0000
Subject: [PATCH 191/218] fix: logarithmic spiral ignores its scale

---
 mml/core/Curves.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/core/Curves.h b/mml/core/Curves.h
index 5963d20..be59e12 100644
--- a/mml/core/Curves.h
+++ b/mml/core/Curves.h
@@ -198,7 +198,7 @@ namespace MML
 		};
 
 		/// @brief Logarithmic (exponential) spiral curve
-		/// @details r(t) = c·e^(λt) with λ < 0, parametrized as (e^(λt)cos(t), e^(λt)sin(t))
+		/// @details r(t) = c·e^(λt) with λ < 0, parametrized as (c·e^(λt)cos(t), c·e^(λt)sin(t))
 		class LogSpiralCurve : public ICurveCartesian2D
 		{
 			Real _lambda, _c;
@@ -215,7 +215,7 @@ namespace MML
 			Real getMinT() const { return Constants::NegInf; }
 			Real getMaxT() const { return Constants::PosInf; }
 
-			VectorN<Real, 2> operator()(Real t) const { return MML::VectorN<Real, 2>{exp(_lambda * t)* cos(t), exp(_lambda * t)* sin(t)}; }
+			VectorN<Real, 2> operator()(Real t) const { return MML::VectorN<Real, 2>{_c * exp(_lambda * t)* cos(t), _c * exp(_lambda * t)* sin(t)}; }
 		};
 
 		/// @brief Lemniscate of Gerono curve (figure-eight curve)
-- 
2.43.0


From 33087a50c40fbdfc61f4ce8ab04e85c7f12c96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:35 +0000
Subject: [PATCH 192/218] fix: plane surfaces with one axis given lack that
 axis, and degenerate for normals against an axis

---
 mml/core/Surfaces.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/core/Surfaces.h b/mml/core/Surfaces.h
index 2551055..83359b2 100644
--- a/mml/core/Surfaces.h
+++ b/mml/core/Surfaces.h
@@ -340,7 +340,7 @@ namespace MML
 			PlaneSurface(const Vec3Cart& point, const Vec3Cart& normal, const Vec3Cart& uAxisDirection)
 			{
 				// first we have to make sure that the uAxisDirection is not parallel to the normal
-				if (normal.IsParallelTo(uAxisDirection))
+				if (normal.IsParallelTo(uAxisDirection) || normal.IsParallelTo(-uAxisDirection))
 				{
 					throw GeometryError("uAxisDirection must not be parallel to the normal.");
 				}
@@ -348,6 +348,7 @@ namespace MML
 				_point = point;
 				_normal = normal.Normalized();
 				Vec3Cart uAxis = uAxisDirection - (uAxisDirection.ScalarProduct(_normal) * _normal);
+				_uAxis = uAxis.Normalized();
 
 				// now we can compute the vAxis as cross product of normal and uAxis
 				_vAxis = VectorProduct(_normal, uAxis).Normalized();
@@ -360,7 +361,7 @@ namespace MML
 				_normal = normal.Normalized();
 
 				// try to align uAxis with x axis, if normal is not parallel to x axis
-				if (!normal.IsParallelTo(Vec3Cart(1,0,0)))
+				if (!normal.IsParallelTo(Vec3Cart(1,0,0)) && !normal.IsParallelTo(Vec3Cart(-1,0,0)))
 				{
 					_uAxis = VectorProduct(normal, Vec3Cart(1,0,0)).Normalized();
 				}
-- 
2.43.0


From faabd09949e55c3595597235f716bd3375c7cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:28 +0000
Subject: [PATCH 193/218] fix: small surfaces are taken for degenerate, with no
 curvature and no normal

---
 mml/core/Surfaces.h | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/mml/core/Surfaces.h b/mml/core/Surfaces.h
index 83359b2..cf721eb 100644
--- a/mml/core/Surfaces.h
+++ b/mml/core/Surfaces.h
@@ -33,6 +33,17 @@ namespace MML
 		/// @note Uses first/second fundamental forms (E,F,G) and (L,M,N) for curvature calculations
 		class ISurfaceCartesian : public IParametricSurfaceRect<3>	
 		{
+		protected:
+			/// @brief Tangents span no plane: area of their parallelogram is negligible relative to their lengths
+			/// @details The measure does not depend on the size of the surface.
+			static bool isDegenerate(Real area, Real E, Real G)
+			{
+				return !(area > PrecisionValues<Real>::NumericalZeroThreshold * (E + G));
+			}
+			static bool isDegenerateForm(Real E, Real F, Real G)
+			{
+				return isDegenerate(std::sqrt(std::max<Real>(Real(0), E * G - F * F)), E, G);
+			}
 		public:
 			/// @brief Compute unit normal vector n = (∂r/∂u × ∂r/∂w) / ||∂r/∂u × ∂r/∂w||
 			/// @param u,w Surface parameters
@@ -48,8 +59,7 @@ namespace MML
 
 			// Normalize
 			Real norm = n.NormL2();
-			constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-			if (norm < eps)
+			if (isDegenerate(norm, Utils::ScalarProduct(r_u, r_u), Utils::ScalarProduct(r_w, r_w)))
 				return VectorN<Real, 3>{0.0, 0.0, 0.0}; // Degenerate case
 
 			return n / norm;
@@ -82,8 +92,7 @@ namespace MML
 
 				// Compute the invariants
 				Real denom = E * G - F * F;
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				if (std::abs(denom) < eps) {
+				if (isDegenerateForm(E, F, G)) {
 					k1 = k2 = 0.0;
 					return;
 				}
@@ -115,9 +124,7 @@ namespace MML
 				GetSecondNormalFormCoefficients(u, w, L, M, N);
 
 				// Compute the invariants
-				Real denom = E * G - F * F;
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				if (std::abs(denom) < eps) {
+				if (isDegenerateForm(E, F, G)) {
 					dir1 = dir2 = VectorN<Real, 3>{ 0.0, 0.0, 0.0 };
 					return;
 				}
@@ -144,7 +151,7 @@ namespace MML
 						Real v1 = (a != 0.0) ? -b / a : 0.0;
 						return (v0 * tU + v1 * tW).Normalized();
 					}
-					else if (std::abs(b) > eps) {
+					else if (std::abs(b) > PrecisionValues<Real>::NumericalZeroThreshold) {
 						// Set v = (-a/b, 1)
 						Real v0 = (b != 0.0) ? -a / b : 0.0;
 						Real v1 = 1.0;
@@ -201,8 +208,7 @@ namespace MML
 				// normal — check for degenerate point (parallel tangents / cusp / fold)
 				Vec3Cart cross = VectorProduct(r_by_u, r_by_w);
 				Real mag = cross.NormL2();
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				if (mag < eps) {
+				if (isDegenerate(mag, Utils::ScalarProduct(r_by_u, r_by_u), Utils::ScalarProduct(r_by_w, r_by_w))) {
 					// Degenerate point: second fundamental form is undefined
 					outL = outM = outN = 0.0;
 					return;
@@ -243,8 +249,7 @@ namespace MML
 
 				// Compute denominator and check for degeneracy
 				Real denom = E * G - F * F;
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				if (std::abs(denom) < eps)
+				if (isDegenerateForm(E, F, G))
 				{
 					// Degenerate metric: curvature undefined
 					return 0.0;
@@ -269,8 +274,7 @@ namespace MML
 
 				// Compute denominator and check for degeneracy
 				Real denom = 2 * (E * G - F * F);
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				if (std::abs(denom) < eps)
+				if (isDegenerateForm(E, F, G))
 				{
 					// Degenerate metric: mean curvature undefined
 					return 0.0;
@@ -291,8 +295,7 @@ namespace MML
 				VectorN<Real, 3> n = VectorProduct(tU, tW);
 
 				// If the norm is above a small threshold, the surface is regular at (u, w)
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				return n.NormL2() > eps;
+				return !isDegenerate(n.NormL2(), Utils::ScalarProduct(tU, tU), Utils::ScalarProduct(tW, tW));
 			}
 			bool isFlat(Real u, Real w, Real eps = PrecisionValues<Real>::DefaultToleranceStrict)
 			{
-- 
2.43.0


From 01c7a1d0560f98cfefb04e6d8ee98082079612e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:28 +0000
Subject: [PATCH 194/218] fix: principal directions are arbitrary where a
 coordinate line is one of them

---
 mml/core/Surfaces.h | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/mml/core/Surfaces.h b/mml/core/Surfaces.h
index cf721eb..6320b1a 100644
--- a/mml/core/Surfaces.h
+++ b/mml/core/Surfaces.h
@@ -137,34 +137,27 @@ namespace MML
 				VectorN<Real, 3> tU, tW;
 				Tangents(u, w, tU, tW);
 
-				// For each principal curvature, solve (II - k*I) v = 0 for v = (a, b)
+				// For the first principal curvature, solve (II - k*I) v = 0 for v = (a, b)
 				// That is:
 				// [L - k*E, M - k*F] [a] = 0
 				// [M - k*F, N - k*G] [b]   0
+				// by the equation with the larger coefficients (in unit tangents), as the other one may vanish
+				Real lenU = std::sqrt(E), lenW = std::sqrt(G);
+				Real uu = (L - k1 * E) / E, uw = (M - k1 * F) / (lenU * lenW), ww = (N - k1 * G) / G;
+				Real sizeU = std::max(std::abs(uu), std::abs(uw)), sizeW = std::max(std::abs(uw), std::abs(ww));
+				Real a = 1.0, b = 0.0;    // all directions are principal at an umbilic point
+				if (sizeU >= sizeW && sizeU > 0) {
+					a = -uw; b = uu;
+				}
+				else if (sizeW > 0) {
+					a = ww; b = -uw;
+				}
+				VectorN<Real, 3> e1 = a / lenU * tU + b / lenW * tW;
+				dir1 = e1.Normalized();
 
-				auto getDirection = [&](Real k) -> VectorN<Real, 3> {
-					Real a = M - k * F;
-					Real b = L - k * E;
-					if (std::abs(a) > std::abs(b)) {
-						// Set v = (1, -b/a)
-						Real v0 = 1.0;
-						Real v1 = (a != 0.0) ? -b / a : 0.0;
-						return (v0 * tU + v1 * tW).Normalized();
-					}
-					else if (std::abs(b) > PrecisionValues<Real>::NumericalZeroThreshold) {
-						// Set v = (-a/b, 1)
-						Real v0 = (b != 0.0) ? -a / b : 0.0;
-						Real v1 = 1.0;
-						return (v0 * tU + v1 * tW).Normalized();
-					}
-					else {
-						// Fallback: use tU
-						return tU.Normalized();
-					}
-					};
-
-				dir1 = getDirection(k1);
-				dir2 = getDirection(k2);
+				// the other principal direction is perpendicular to the first one, in the tangent plane
+				VectorN<Real, 3> n = Normal(u, w);
+				dir2 = VectorN<Real, 3>(VectorProduct(Vec3Cart(n), Vec3Cart(dir1))).Normalized();
 			}
 
 			/// @brief Get first fundamental form coefficients (E,F,G) - measures surface metric
-- 
2.43.0


From 9b98cbb8c7acd39903e3da7baa5e55440185d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:28 +0000
Subject: [PATCH 195/218] fix: Klein bottle is torn along a line

---
 mml/core/Surfaces.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mml/core/Surfaces.h b/mml/core/Surfaces.h
index 6320b1a..94068fb 100644
--- a/mml/core/Surfaces.h
+++ b/mml/core/Surfaces.h
@@ -587,19 +587,18 @@ namespace MML
 				// u goes around the main loop, v goes around the tube
 				Real cosu = cos(u), sinu = sin(u);
 				Real cosv = cos(v), sinv = sin(v);
-				Real cos_half_u = cos(u / 2), sin_half_u = sin(u / 2);
 				
 				// Radius varies to create the bottle shape
-				Real r = 2 - cosv;
+				Real r = 4 * (1 - cosu / 2);
 				
 				Real x, y, z;
 				if (u < Constants::PI) {
 					// First half: normal torus-like shape
-					x = 6 * cosu * (1 + sinu) + r * cos_half_u * cosv;
-					y = 16 * sinu + r * sin_half_u * cosv;
+					x = 6 * cosu * (1 + sinu) + r * cosu * cosv;
+					y = 16 * sinu + r * sinu * cosv;
 				} else {
 					// Second half: tube goes through itself
-					x = 6 * cosu * (1 + sinu) - r * cos_half_u * cosv;
+					x = 6 * cosu * (1 + sinu) - r * cosv;
 					y = 16 * sinu;
 				}
 				z = r * sinv;
-- 
2.43.0


From 40f46a78c0d24bd51f84574f45a550fefe68bfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:10 +0000
Subject: [PATCH 196/218] fix: small plane curves are taken for having no
 curvature

---
 mml/core/Curves.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mml/core/Curves.h b/mml/core/Curves.h
index be59e12..989761d 100644
--- a/mml/core/Curves.h
+++ b/mml/core/Curves.h
@@ -29,6 +29,14 @@ namespace MML
 {
 	namespace Curves
 	{
+		/// @brief Curve stands still: speed is negligible relative to its change over a unit of parameter
+		/// @details The measure does not depend on the size of the curve.
+		inline bool isStationary(Real speedSquared, Real x_double_prime, Real y_double_prime)
+		{
+			Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
+			return !(speedSquared > eps * eps * (x_double_prime * x_double_prime + y_double_prime * y_double_prime));
+		}
+
 		/////////////////////////////              CARTESIAN PLANAR CURVES                  ///////////////////////////////
 		/// @brief Abstract base class for Cartesian planar curves (2D)
 		/// @details Provides tangent and normal vector calculations using numerical derivatives
@@ -55,7 +63,7 @@ namespace MML
 			Real speed_squared = x_prime * x_prime + y_prime * y_prime;
 			Real denominator = std::pow(speed_squared, 1.5);
 
-			if (denominator < Precision::NumericalZeroThreshold)
+			if (isStationary(speed_squared, x_double_prime, y_double_prime))
 				return 0.0;  // Avoid division by zero at singular points
 
 			return numerator / denominator;
@@ -84,7 +92,7 @@ namespace MML
 			Real speed_squared = x_prime * x_prime + y_prime * y_prime;
 			Real denominator = std::pow(speed_squared, 1.5);
 
-			if (denominator < Precision::NumericalZeroThreshold)
+			if (isStationary(speed_squared, x_double_prime, y_double_prime))
 				return 0.0;  // Avoid division by zero at singular points
 
 			return numerator / denominator;
@@ -128,7 +136,7 @@ namespace MML
 			Real speed_sq = x_dt * x_dt + y_dt * y_dt;
 			Real denominator = std::pow(speed_sq, 1.5);
 
-			if (denominator < Precision::NumericalZeroThreshold)
+			if (isStationary(speed_sq, x_dt2, y_dt2))
 				return 0.0;
 
 			return numerator / denominator;
-- 
2.43.0


From 59cf5aa0514c42e37b5cde0ef6c24e50ed98867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:10 +0000
Subject: [PATCH 197/218] fix: unit normal of plane curves is not perpendicular
 to the curve

---
 mml/core/Curves.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mml/core/Curves.h b/mml/core/Curves.h
index 989761d..66c390b 100644
--- a/mml/core/Curves.h
+++ b/mml/core/Curves.h
@@ -159,9 +159,14 @@ namespace MML
 			{
 				return Derivation::DeriveCurveSec<2>(*this, t, nullptr);
 			}
+			/// @brief Get unit normal: perpendicular to the tangent, towards the center of curvature
+			/// @note Where the curve is straight, this is the tangent rotated by 90° counterclockwise
 			Vec2Cart getNormalUnit(Real t)
 			{
-				return getNormal(t).GetAsUnitVector();
+				Vec2Cart tangent = getTangentUnit(t);
+				Vec2Cart left{-tangent[1], tangent[0]};
+				Vec2Cart second = getNormal(t);
+				return left[0] * second[0] + left[1] * second[1] < 0 ? Vec2Cart{-left[0], -left[1]} : left;
 			}
 
 			/// @brief Get scalar curvature κ(t) = |x'y'' - y'x''| / (x'² + y'²)^(3/2)
-- 
2.43.0


From ef5f69314e0012db01273218fea678f5d71f2ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:10 +0000
Subject: [PATCH 198/218] fix: angle of a polar circle jumps, which ruins its
 tangents and curvature there

---
 mml/core/Curves.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mml/core/Curves.h b/mml/core/Curves.h
index 66c390b..e11c1ca 100644
--- a/mml/core/Curves.h
+++ b/mml/core/Curves.h
@@ -417,7 +417,13 @@ namespace MML
 			VectorN<Real, 2> operator()(Real t) const {
 				Real x = _center.X() + _radius * cos(t);
 				Real y = _center.Y() + _radius * sin(t);
-				return MML::VectorN<Real, 2>{sqrt(x*x + y*y), atan2(y, x)};
+				Real dist = sqrt(_center.X() * _center.X() + _center.Y() * _center.Y());
+
+				// the angle has to be continuous along the curve: it is measured from the direction of the radius
+				// (origin inside of the circle), or of the center (origin outside of it)
+				Real base = std::abs(_radius) >= dist ? (_radius < 0 ? t + Constants::PI : t) : atan2(_center.Y(), _center.X());
+				Real along = x * cos(base) + y * sin(base), across = y * cos(base) - x * sin(base);
+				return MML::VectorN<Real, 2>{sqrt(x*x + y*y), base + atan2(across, along)};
 			}
 		};
 
-- 
2.43.0


From 1d42dfec3899981061ba0f2994c93be187e8e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:10 +0000
Subject: [PATCH 199/218] fix: arc length parametrization is not checked up to
 the end of the interval

---
 mml/core/Curves.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/core/Curves.h b/mml/core/Curves.h
index e11c1ca..7ce907b 100644
--- a/mml/core/Curves.h
+++ b/mml/core/Curves.h
@@ -544,8 +544,9 @@ namespace MML
 			bool isArcLengthParametrized(Real t1, Real t2, int numPoints = 100) const
 			{
 				Real delta = (t2 - t1) / numPoints;
-				for (Real t = t1 + delta; t < t2; t += delta)
+				for (int i = 1; i <= numPoints; i++)
 				{
+					Real t = i == numPoints ? t2 : t1 + i * delta;
 					Real len = PathIntegration::ParametricCurveLength(*this, t1, t);
 					if (fabs(len - (t - t1)) > PrecisionValues<Real>::DefaultToleranceStrict)
 						return false;
-- 
2.43.0


From 52f51a216c1b74133458d660c005aeedc905cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 200/218] fix: roots of slow functions are found several times,
 and away from where they are

---
 mml/algorithms/FunctionsAnalyzer.h | 42 ++++++++++++++++--------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index e415d8f..0959a49 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -300,31 +300,35 @@ namespace MML {
 
 		std::vector<Real> GetRoots(Real x1, Real x2, Real eps) {
 			std::vector<Real> roots;
-			Real step = (x2 - x1) / 1000;
+			const int numSteps = 1000;
+			Real step = (x2 - x1) / numSteps;
 
-			// Check if x1 is a root (within tolerance)
-			Real val_x1 = _f(x1);
-			if (std::abs(val_x1) < eps)
-				roots.push_back(x1);
+			std::vector<Real> values(numSteps + 1);
+			for (int i = 0; i <= numSteps; i++)
+				values[i] = _f(x1 + i * step);
 
-			Real prev = val_x1;
-			for (int i = 1; i <= 1000; i++) {
+			for (int i = 0; i <= numSteps; i++) {
 				Real x_curr = x1 + i * step;
-				Real curr = _f(x_curr);
-
-				// Check if current point is a root
-				if (std::abs(curr) < eps && (roots.empty() || std::abs(x_curr - roots.back()) > eps)) {
-					roots.push_back(x_curr);
+				Real curr = values[i];
+				bool crossesBefore = i > 0 && values[i - 1] * curr < 0;
+				bool crossesAfter = i < numSteps && curr * values[i + 1] < 0;
+
+				if (curr == 0) {
+					// exact root, only the first one where the function stays at zero
+					if (i == 0 || values[i - 1] != 0)
+						roots.push_back(x_curr);
 				}
-				// Check for sign change (bracket around root)
-				else if (prev * curr < 0) {
-					Real root = RootFinding::FindRootBisection(_f, x1 + (i - 1) * step, x_curr, eps);
-					// Avoid duplicate roots
-					if (roots.empty() || std::abs(root - roots.back()) > eps)
-						roots.push_back(root);
+				else if (crossesAfter) {
+					roots.push_back(RootFinding::FindRootBisection(_f, x_curr, x1 + (i + 1) * step, eps));
+				}
+				else if (!crossesBefore && std::abs(curr) < eps
+						 && (i == 0 || std::abs(curr) < std::abs(values[i - 1]))
+						 && (i == numSteps || std::abs(curr) <= std::abs(values[i + 1]))) {
+					// no sign change, but the function touches zero here
+					roots.push_back(x_curr);
 				}
-				prev = curr;
 			}
+
 			return roots;
 		}
 		Vector<Real> GetLocalOptimums(Real x1, Real x2, Real eps = 1e-6) {
-- 
2.43.0


From 82fd820ef173d92e79c2fab4e766a6878d969565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 201/218] fix: steep local optimums are missed, and stationary
 points are taken for optimums

---
 mml/algorithms/FunctionsAnalyzer.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index 0959a49..1233bbe 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -520,24 +520,32 @@ namespace MML {
 
 			return false;
 		}
+	private:
+		// Size of rounding errors in numerical first (order = 1) and second (order = 2) derivatives around x
+		Real derivativeNoise(Real x, int order) const {
+			Real h = Derivation::ScaleStep(Derivation::NDer4_h, x);
+			Real size = std::abs(_f(x)) + std::abs(_f(x - h)) + std::abs(_f(x + h)) + std::abs(x * Derivation::NDer4(_f, x));
+			return std::numeric_limits<Real>::epsilon() * size / std::pow(h, order);
+		}
+	public:
 		bool isLocalOptimum(Real x, Real eps) const {
 			// For a local optimum:
 			// 1. First derivative must be (approximately) zero: f'(x) ≈ 0
-			// 2. Second derivative must be non-zero with consistent sign: f''(x) ≠ 0
-			//    - f''(x) > 0 => local minimum
-			//    - f''(x) < 0 => local maximum
+			// 2. First derivative must change sign there
 
 			// Check first derivative is near zero
 			Real first_der = Derivation::NDer4(_f, x);
-			if (std::abs(first_der) > eps)
+			Real sec_der = Derivation::NSecDer4(_f, x);
+			// a point known up to eps has a derivative of that size
+			if (std::abs(first_der) > eps * std::max<Real>(1, 2 * std::abs(sec_der)))
 				return false; // Not a stationary point
 
-			// Check second derivative has consistent sign (non-zero)
-			Real left_sec_der = Derivation::NSecDer4(_f, x - 4 * eps);
-			Real right_sec_der = Derivation::NSecDer4(_f, x + 4 * eps);
+			// Check that the function turns: first derivative changes sign, by more than its rounding errors
+			Real left_der = Derivation::NDer4(_f, x - 4 * eps);
+			Real right_der = Derivation::NDer4(_f, x + 4 * eps);
+			Real noise = 10 * derivativeNoise(x, 1);
 
-			// Both should have the same sign AND be non-zero
-			return left_sec_der * right_sec_der > 0;
+			return left_der * right_der < 0 && std::abs(left_der) > noise && std::abs(right_der) > noise;
 		}
 		bool isInflectionPoint(Real x, Real eps) const {
 			// Inflection point: second derivative changes sign (concavity changes)
-- 
2.43.0


From a1c3f5e639c3b998af0aad98148e605a81ed49c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 202/218] fix: rounding errors make inflection points of
 straight lines and parabolas

---
 mml/algorithms/FunctionsAnalyzer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index 1233bbe..4f0ae0f 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -553,8 +553,9 @@ namespace MML {
 			Real left_sec_der = Derivation::NSecDer4(_f, x - 4 * eps);
 			Real right_sec_der = Derivation::NSecDer4(_f, x + 4 * eps);
 
-			// Check if second derivatives have opposite signs (sign change)
-			return left_sec_der * right_sec_der < 0;
+			// Check if second derivatives have opposite signs (sign change), by more than their rounding errors
+			Real noise = 10 * derivativeNoise(x, 2);
+			return left_sec_der * right_sec_der < 0 && std::abs(left_sec_der) > noise && std::abs(right_sec_der) > noise;
 		}
 		bool isContinuous(Real x1, Real x2, int numPoints, Real eps = 1e-6, std::vector<Real>* discontinuities = nullptr) const {
 			// Multi-stage approach to detect discontinuities:
-- 
2.43.0


From af823a604ce7fa664de1b6928ffe043e49dab3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 203/218] fix: analysis of an interval leaves its end out

---
 mml/algorithms/FunctionsAnalyzer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index 4f0ae0f..b3ea4aa 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -204,7 +204,7 @@ namespace MML {
 			result.minValue = std::numeric_limits<Real>::max();
 			result.maxValue = std::numeric_limits<Real>::lowest();
 
-			for (int i = 0; i < numPoints; i++) {
+			for (int i = 0; i <= numPoints; i++) {
 				Real x = x1 + i * (x2 - x1) / numPoints;
 				if (!isDefinedAtPoint(x)) {
 					result.isDefinedEverywhere = false;
-- 
2.43.0


From 715bf07f109853d83de2cebe80716ab5119e61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 204/218] fix: functions that start flat are not monotonic, and
 ones that turn at the end of the interval are

---
 mml/algorithms/FunctionsAnalyzer.h | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index b3ea4aa..3f5ba4d 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -617,23 +617,17 @@ namespace MML {
 		}
 		bool isMonotonic(Real x1, Real x2, int numPoints) const {
 			Real step = (x2 - x1) / numPoints;
-			Real prev = _f(x1 + step);
-			if (_f(x1) < _f(x1 + step)) {
-				for (int i = 2; i < numPoints; i++) {
-					Real curr = _f(x1 + i * step);
-					if (curr < prev)
-						return false;
-					prev = curr;
-				}
-			} else {
-				for (int i = 2; i < numPoints; i++) {
-					Real curr = _f(x1 + i * step);
-					if (curr > prev)
-						return false;
-					prev = curr;
-				}
+			Real prev = _f(x1);
+			bool rises = false, falls = false;
+			for (int i = 1; i <= numPoints; i++) {
+				Real curr = _f(x1 + i * step);
+				if (curr > prev)
+					rises = true;
+				else if (curr < prev)
+					falls = true;
+				prev = curr;
 			}
-			return true;
+			return !(rises && falls);
 		}
 		
 		/// @brief Find minimum value in N sample points with overflow protection
-- 
2.43.0


From 8e643525781616ef2218e0d95e26870e5bbcabad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 205/218] fix: steep functions are taken for discontinuous

---
 mml/algorithms/FunctionsAnalyzer.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index 3f5ba4d..da9e57c 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -465,7 +465,8 @@ namespace MML {
 			// Test with progressively smaller h values
 			// If function is continuous, |f(x±h) - f(x)| should decrease as h decreases
 			Real h = eps * 10;
-			Real prev_max_diff = std::numeric_limits<Real>::max();
+			Real prev_left = std::numeric_limits<Real>::max(), prev_right = std::numeric_limits<Real>::max();
+			bool decreasing = false;
 			int overflowCount = 0;
 
 			for (int i = 0; i < 5; i++) {
@@ -501,24 +502,26 @@ namespace MML {
 					continue;
 				}
 				
-				Real max_diff = std::max(diff_left, diff_right);
-
 				// For continuity, the difference should be getting smaller
 				// Use combined absolute and relative tolerance
 				Real tolerance = abs_tol + rel_tol * std::abs(val);
 
-				if (max_diff < tolerance)
+				bool left_close = diff_left < tolerance, right_close = diff_right < tolerance;
+				if (left_close && right_close)
 					return true; // Close enough
 
 				// If difference is not decreasing, it's likely discontinuous
-				if (i > 0 && max_diff >= prev_max_diff * 0.9)
+				if (i > 0 && ((!left_close && diff_left >= prev_left * 0.9) || (!right_close && diff_right >= prev_right * 0.9)))
 					return false;
 
-				prev_max_diff = max_diff;
+				decreasing = prev_left != std::numeric_limits<Real>::max();
+				prev_left = diff_left;
+				prev_right = diff_right;
 				h /= 2.0; // Try with smaller h
 			}
 
-			return false;
+			// Not close yet, but steadily getting there
+			return decreasing;
 		}
 	private:
 		// Size of rounding errors in numerical first (order = 1) and second (order = 2) derivatives around x
-- 
2.43.0


From 312fba6e95763aadcb97d3179377ee63b853d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 206/218] fix: strongly curved functions are taken for not
 differentiable

---
 mml/algorithms/FunctionsAnalyzer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index da9e57c..d6121fb 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -438,7 +438,12 @@ namespace MML {
 			// Use relative tolerance for large derivatives, absolute for small
 			Real tolerance = eps * 100 + eps * 100 * avg_deriv;
 
-			return deriv_diff < tolerance;
+			if (deriv_diff < tolerance)
+				return true;
+
+			// derivatives on both sides of a smooth point get closer to each other, those of a kink do not
+			Real closer_diff = std::abs(Derivation::NDer2Left(_f, x, eps / 2) - Derivation::NDer2Right(_f, x, eps / 2));
+			return closer_diff < 0.7 * deriv_diff;
 		}
 		bool isContinuousAtPoint(Real x, Real eps) const {
 			// Function is continuous at x if:
-- 
2.43.0


From bd66f3243bdbdf6f2c356b4ed236164a80b9d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 207/218] fix: poles are taken for jumps, and infinite limits
 for finite or positive ones

---
 mml/algorithms/FunctionsAnalyzer.h | 144 ++++++++---------------------
 1 file changed, 37 insertions(+), 107 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index d6121fb..5f51cca 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -688,51 +688,37 @@ namespace MML {
 		// CONTINUITY ANALYSIS METHODS
 		//////////////////////////////////////////////////////////////////////////
 
-		// Compute left limit: lim(x→a⁻) f(x)
-		// With overflow protection for singularities
-		Real ComputeLeftLimit(Real x, Real eps = 1e-6, int maxSteps = 20) const {
-			// Approach from the left with decreasing step sizes
+	private:
+		// Compute one-sided limit of f, from the left (side = -1) or from the right (side = 1)
+		// Infinite limits have the sign of the values; NaN if there is no limit
+		Real ComputeSideLimit(Real x, Real side, Real eps, int maxSteps) const {
+			// Approach with decreasing step sizes
 			Real h = eps * 100;
 			Real prevValue = std::numeric_limits<Real>::quiet_NaN();
+			Real prevDiff = std::numeric_limits<Real>::quiet_NaN();
 			int stableCount = 0;
 			int overflowCount = 0;
+			int approachCount = 0;	// last steps in which values got closer to each other
+			int growthCount = 0;	// last steps in which values grew without turning
 			const Real overflowThreshold = 1e150;  // Values beyond this suggest infinite limit
 
-			for (int i = 0; i < maxSteps; i++) {
-				Real testPoint = x - h;
-				
+			for (int i = 0; i < maxSteps; i++, h /= 2.0) {
 				// Use safe evaluation with overflow detection
-				SafeEvalResult evalResult = SafeEvaluate(_f, testPoint, overflowThreshold);
-				
+				SafeEvalResult evalResult = SafeEvaluate(_f, x + side * h, overflowThreshold);
+
+				if (evalResult.isNaN)
+					return std::numeric_limits<Real>::quiet_NaN();
 				if (!evalResult.isValid) {
-					if (evalResult.isOverflow) {
-						overflowCount++;
-						// If we consistently get overflow, the limit is infinite
-						if (overflowCount >= 3)
-							return std::numeric_limits<Real>::infinity();
-					}
-					if (evalResult.isNaN)
-						return std::numeric_limits<Real>::quiet_NaN();
-					// Try with smaller h for potential underflow
-					h /= 2.0;
+					// If we consistently get overflow, the limit is infinite
+					if (++overflowCount >= 3)
+						return std::copysign(std::numeric_limits<Real>::infinity(), evalResult.value);
 					continue;
 				}
 
 				Real value = evalResult.value;
 
-				// Check for convergence with overflow-safe difference
 				if (!std::isnan(prevValue)) {
 					Real diff = SafeDifference(value, prevValue);
-					
-					// If difference computation overflowed, values are diverging
-					if (std::isinf(diff)) {
-						overflowCount++;
-						if (overflowCount >= 3)
-							return std::numeric_limits<Real>::infinity();
-						h /= 2.0;
-						continue;
-					}
-					
 					Real tolerance = eps * (1.0 + std::abs(value));
 
 					if (diff < tolerance) {
@@ -742,87 +728,30 @@ namespace MML {
 					} else {
 						stableCount = 0;
 					}
+
+					if (!std::isnan(prevDiff))
+						approachCount = diff < tolerance || diff < 0.99 * prevDiff ? approachCount + 1 : 0;
+					growthCount = std::abs(value) > std::abs(prevValue) && value * prevValue >= 0 ? growthCount + 1 : 0;
+					prevDiff = diff;
 				}
 
 				prevValue = value;
-				h /= 2.0;
 			}
 
-			// Return best approximation, or infinity if we detected overflow trend
-			if (overflowCount >= 2 && !std::isnan(prevValue) && std::abs(prevValue) > overflowThreshold)
-				return (prevValue > 0) ? std::numeric_limits<Real>::infinity() 
-				                        : -std::numeric_limits<Real>::infinity();
-			
-			return prevValue; // Best approximation
+			const int trend = std::max(3, maxSteps / 2);
+			if (approachCount >= 3)
+				return prevValue; // Best approximation
+			if (growthCount >= trend || (overflowCount > 0 && growthCount > 0))
+				return std::copysign(std::numeric_limits<Real>::infinity(), prevValue);
+			return std::numeric_limits<Real>::quiet_NaN();
 		}
+	public:
 
-		// Compute right limit: lim(x→a⁺) f(x)
-		// With overflow protection for singularities
-		Real ComputeRightLimit(Real x, Real eps = 1e-6, int maxSteps = 20) const {
-			// Approach from the right with decreasing step sizes
-			Real h = eps * 100;
-			Real prevValue = std::numeric_limits<Real>::quiet_NaN();
-			int stableCount = 0;
-			int overflowCount = 0;
-			const Real overflowThreshold = 1e150;  // Values beyond this suggest infinite limit
-
-			for (int i = 0; i < maxSteps; i++) {
-				Real testPoint = x + h;
-				
-				// Use safe evaluation with overflow detection
-				SafeEvalResult evalResult = SafeEvaluate(_f, testPoint, overflowThreshold);
-				
-				if (!evalResult.isValid) {
-					if (evalResult.isOverflow) {
-						overflowCount++;
-						// If we consistently get overflow, the limit is infinite
-						if (overflowCount >= 3)
-							return std::numeric_limits<Real>::infinity();
-					}
-					if (evalResult.isNaN)
-						return std::numeric_limits<Real>::quiet_NaN();
-					// Try with smaller h for potential underflow
-					h /= 2.0;
-					continue;
-				}
-
-				Real value = evalResult.value;
-
-				// Check for convergence with overflow-safe difference
-				if (!std::isnan(prevValue)) {
-					Real diff = SafeDifference(value, prevValue);
-					
-					// If difference computation overflowed, values are diverging
-					if (std::isinf(diff)) {
-						overflowCount++;
-						if (overflowCount >= 3)
-							return std::numeric_limits<Real>::infinity();
-						h /= 2.0;
-						continue;
-					}
-					
-					Real tolerance = eps * (1.0 + std::abs(value));
-
-					if (diff < tolerance) {
-						stableCount++;
-						if (stableCount >= 3) // Require 3 stable iterations
-							return value;
-					} else {
-						stableCount = 0;
-					}
-				}
-
-				prevValue = value;
-				h /= 2.0;
-			}
+		// Compute left limit: lim(x→a⁻) f(x)
+		Real ComputeLeftLimit(Real x, Real eps = 1e-6, int maxSteps = 20) const { return ComputeSideLimit(x, -1, eps, maxSteps); }
 
-			// Return best approximation, or infinity if we detected overflow trend
-			if (overflowCount >= 2 && !std::isnan(prevValue) && std::abs(prevValue) > overflowThreshold)
-				return (prevValue > 0) ? std::numeric_limits<Real>::infinity() 
-				                        : -std::numeric_limits<Real>::infinity();
-			
-			return prevValue; // Best approximation
-		}
+		// Compute right limit: lim(x→a⁺) f(x)
+		Real ComputeRightLimit(Real x, Real eps = 1e-6, int maxSteps = 20) const { return ComputeSideLimit(x, 1, eps, maxSteps); }
 
 		// Classify a discontinuity at point x
 		DiscontinuityPoint ClassifyDiscontinuity(Real x, Real eps = 1e-6) const {
@@ -843,11 +772,12 @@ namespace MML {
 			bool rightLimitVeryLarge = std::abs(disc.rightLimit) > largeThreshold;
 
 			// Classify discontinuity type
-			if (!leftLimitExists && !rightLimitExists) {
-				disc.type = DiscontinuityType::OSCILLATORY; // Or could be UNKNOWN
-			} else if (!leftLimitExists || !rightLimitExists || leftLimitVeryLarge || rightLimitVeryLarge) {
-				// At least one limit is infinite or doesn't exist
+			if (std::isinf(disc.leftLimit) || std::isinf(disc.rightLimit) || leftLimitVeryLarge || rightLimitVeryLarge) {
+				// At least one limit is infinite
 				disc.type = DiscontinuityType::INFINITE;
+			} else if (!leftLimitExists || !rightLimitExists) {
+				// At least one limit doesn't exist
+				disc.type = DiscontinuityType::OSCILLATORY;
 			} else if (std::abs(disc.leftLimit - disc.rightLimit) > eps * 1000 * (1.0 + std::abs(disc.leftLimit))) {
 				// Limits exist but differ significantly - JUMP discontinuity
 				disc.type = DiscontinuityType::JUMP;
-- 
2.43.0


From 67bb72fec184ea29f5067bd7298c363d06a1c5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 208/218] fix: jumps and poles between sample points are not
 found

---
 mml/algorithms/FunctionsAnalyzer.h | 184 ++++++++++++-----------------
 1 file changed, 73 insertions(+), 111 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index 5f51cca..4f8e4b2 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -566,62 +566,14 @@ namespace MML {
 			return left_sec_der * right_sec_der < 0 && std::abs(left_sec_der) > noise && std::abs(right_sec_der) > noise;
 		}
 		bool isContinuous(Real x1, Real x2, int numPoints, Real eps = 1e-6, std::vector<Real>* discontinuities = nullptr) const {
-			// Multi-stage approach to detect discontinuities:
-			// 1) Sample at numPoints
-			// 2) Check continuity at each point using isContinuousAtPoint()
-			// 3) Adaptive refinement where suspicious behavior detected
-
-			bool allContinuous = true;
-			Real step = (x2 - x1) / numPoints;
-			std::vector<Real> suspiciousPoints;
-
-			// Stage 1: Initial sampling
-			for (int i = 0; i <= numPoints; i++) {
-				Real x = x1 + i * step;
-				if (!isContinuousAtPoint(x, eps)) {
-					allContinuous = false;
-					suspiciousPoints.push_back(x);
-				}
-			}
-
-			// Stage 2: Check for sign changes in derivative (potential discontinuities)
-			// Sample derivative at midpoints to catch jump discontinuities
-			for (int i = 0; i < numPoints; i++) {
-				Real x_left = x1 + i * step;
-				Real x_right = x1 + (i + 1) * step;
-				Real x_mid = (x_left + x_right) / 2.0;
-
-				// Check for large derivative changes (potential discontinuity)
-				Real der_left = Derivation::NDer2(_f, x_left);
-				Real der_right = Derivation::NDer2(_f, x_right);
-
-				// If derivative changes dramatically or function value jumps
-				Real val_left = _f(x_left);
-				Real val_right = _f(x_right);
-				Real val_mid = _f(x_mid);
-
-				// Check for non-smooth behavior (jump or cusp)
-				bool potentialJump = std::abs(val_right - val_left) > 10 * eps * std::abs(val_left + val_right);
-				bool derivativeJump = !std::isnan(der_left) && !std::isnan(der_right) && std::abs(der_right - der_left) > 100 * eps;
-
-				if (potentialJump || derivativeJump) {
-					// Refine search in this interval
-					if (!isContinuousAtPoint(x_mid, eps)) {
-						allContinuous = false;
-						// Avoid duplicates
-						if (std::find(suspiciousPoints.begin(), suspiciousPoints.end(), x_mid) == suspiciousPoints.end()) {
-							suspiciousPoints.push_back(x_mid);
-						}
-					}
-				}
-			}
+			std::vector<Real> found = LocateDiscontinuities(x1, x2, numPoints, eps);
 
 			// Return discontinuity locations if requested
-			if (discontinuities != nullptr && !suspiciousPoints.empty()) {
-				*discontinuities = suspiciousPoints;
+			if (discontinuities != nullptr && !found.empty()) {
+				*discontinuities = found;
 			}
 
-			return allContinuous;
+			return found.empty();
 		}
 		bool isMonotonic(Real x1, Real x2, int numPoints) const {
 			Real step = (x2 - x1) / numPoints;
@@ -799,75 +751,85 @@ namespace MML {
 			return disc;
 		}
 
-		// Find all discontinuities in an interval
-		std::vector<DiscontinuityPoint> FindDiscontinuities(Real x1, Real x2, int numPoints = 1000, Real eps = 1e-6) {
-			std::vector<DiscontinuityPoint> discontinuities;
+	private:
+		// Narrow down a change of value in [a, b] as long as it does not go away
+		bool LocateJump(Real a, Real b, Real eps, Real& at) const {
+			Real fa = _f(a), fb = _f(b);
+			auto jumps = [eps](Real left, Real right) {
+				return std::abs(right - left) > std::max<Real>(eps * 100, std::max(std::abs(left), std::abs(right)) * eps * 10);
+			};
+			while (jumps(fa, fb)) {
+				Real mid = a + (b - a) / 2;
+				if (mid <= a || mid >= b) {
+					at = b;
+					return true;
+				}
+				Real fm = _f(mid);
+				if (std::isnan(fm) || std::isinf(fm)) {
+					at = mid;
+					return true;
+				}
+				if (std::abs(fm - fa) > std::abs(fb - fm)) {
+					b = mid;
+					fb = fm;
+				} else {
+					a = mid;
+					fa = fm;
+				}
+			}
+			return false;
+		}
+		// Points of discontinuity in increasing order
+		std::vector<Real> LocateDiscontinuities(Real x1, Real x2, int numPoints, Real eps) const {
 			Real step = (x2 - x1) / numPoints;
-
-			// Stage 1: Check each sample point for continuity
 			std::vector<Real> candidates;
-			for (int i = 0; i <= numPoints; i++) {
-				Real x = x1 + i * step;
-				if (!isContinuousAtPoint(x, eps)) {
+
+			// Stage 1: check each sample point, and the ones halfway
+			for (int i = 0; i <= 2 * numPoints; i++) {
+				Real x = x1 + i * (step / 2);
+				if (!isContinuousAtPoint(x, eps))
 					candidates.push_back(x);
-				}
 			}
 
-			// Stage 2: Check between sample points for rapid changes (potential jumps)
-			for (int i = 0; i < numPoints; i++) {
-				Real x_left = x1 + i * step;
-				Real x_right = x1 + (i + 1) * step;
-				Real x_mid = (x_left + x_right) / 2.0;
-
-				if (!isDefinedAtPoint(x_left) || !isDefinedAtPoint(x_right)) {
-					// If points aren't defined, check the midpoint
-					if (!isContinuousAtPoint(x_mid, eps)) {
-						bool alreadyFound = false;
-						for (const auto& candX : candidates) {
-							if (std::abs(candX - x_mid) < step / 2.0) {
-								alreadyFound = true;
-								break;
-							}
-						}
-						if (!alreadyFound)
-							candidates.push_back(x_mid);
-					}
-					continue;
+			// Stage 2: look for jumps and poles between sample points
+			std::vector<Real> located;
+			for (int i = 0; i < 2 * numPoints; i++) {
+				Real a = x1 + i * (step / 2), b = x1 + (i + 1) * (step / 2), at;
+				if (isDefinedAtPoint(a) && isDefinedAtPoint(b)) {
+					if (LocateJump(a, b, eps, at) && !isContinuousAtPoint(at, eps))
+						located.push_back(at);
+				} else {
+					Real mid = a + (b - a) / 2;
+					if (!isContinuousAtPoint(mid, eps))
+						located.push_back(mid);
 				}
+			}
 
-				Real val_left = _f(x_left);
-				Real val_right = _f(x_right);
-
-				// Check for large jump between consecutive points
-				// Use a more sensitive threshold for detecting jumps
-				Real jumpThreshold = eps * 100; // More sensitive
-
-				// Also check relative changes for functions with large values
-				Real maxVal = std::max(std::abs(val_left), std::abs(val_right));
-				if (maxVal > 1.0)
-					jumpThreshold = std::max(jumpThreshold, maxVal * eps * 10);
-
-				if (std::abs(val_right - val_left) > jumpThreshold) {
-					// Potential discontinuity - check multiple points in this interval
-					for (int j = 1; j <= 4; j++) {
-						Real x_test = x_left + (j / 5.0) * (x_right - x_left);
-						if (!isContinuousAtPoint(x_test, eps)) {
-							// Avoid duplicates
-							bool alreadyFound = false;
-							for (const auto& candX : candidates) {
-								if (std::abs(candX - x_test) < step / 5.0) {
-									alreadyFound = true;
-									break;
-								}
-							}
-							if (!alreadyFound)
-								candidates.push_back(x_test);
-						}
+			// sample points are affected by discontinuities close to them
+			for (Real at : located) {
+				const Real same = 1e-12 * (1 + std::abs(at)), near = 20 * eps;
+				bool known = false;
+				for (Real& c : candidates)
+					if (std::abs(c - at) <= near) {
+						if (std::abs(c - at) > same)
+							c = at;
+						known = true;
 					}
-				}
+				if (!known)
+					candidates.push_back(at);
 			}
+			std::sort(candidates.begin(), candidates.end());
+			candidates.erase(std::unique(candidates.begin(), candidates.end()), candidates.end());
+			return candidates;
+		}
+	public:
+
+		// Find all discontinuities in an interval
+		std::vector<DiscontinuityPoint> FindDiscontinuities(Real x1, Real x2, int numPoints = 1000, Real eps = 1e-6) {
+			std::vector<DiscontinuityPoint> discontinuities;
+			std::vector<Real> candidates = LocateDiscontinuities(x1, x2, numPoints, eps);
 
-			// Stage 3: Classify each candidate discontinuity
+			// Classify all of them
 			for (Real x : candidates) {
 				DiscontinuityPoint disc = ClassifyDiscontinuity(x, eps);
 				discontinuities.push_back(disc);
-- 
2.43.0


From 482eee22d3d11ef5546d6c8fc264228cbb086b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 209/218] fix: largest difference of functions leaves the end
 of the interval out

---
 mml/algorithms/FunctionsAnalyzer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index 4f8e4b2..680e67e 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -959,7 +959,7 @@ namespace MML {
 			Real step = (b - a) / numPoints;
 			Real max = std::abs(_f1(a) - _f2(a));
 
-			for (int i = 0; i < numPoints; i++) {
+			for (int i = 0; i <= numPoints; i++) {
 				Real diff = std::abs(_f1(a + i * step) - _f2(a + i * step));
 				if (diff > max)
 					max = diff;
@@ -981,7 +981,7 @@ namespace MML {
 			Real step = (b - a) / numPoints;
 			Real max = 0.0;
 
-			for (int i = 0; i < numPoints; i++) {
+			for (int i = 0; i <= numPoints; i++) {
 				if (_f1(a + i * step) != 0.0) {
 					Real diff = std::abs(_f1(a + i * step) - _f2(a + i * step)) / std::abs(_f1(a + i * step));
 					if (diff > max)
-- 
2.43.0


From b0c9be46dabe930911b9ab958a9d556689e7a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 210/218] fix: field lines go on into points where the field is
 not defined

---
 mml/algorithms/FieldLineTracer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/FieldLineTracer.h b/mml/algorithms/FieldLineTracer.h
index 9c512c6..4efee94 100644
--- a/mml/algorithms/FieldLineTracer.h
+++ b/mml/algorithms/FieldLineTracer.h
@@ -322,7 +322,7 @@ namespace MML {
 			VectorN<Real, N> F = field(x);
 			Real mag = F.NormL2();
 
-			if (mag < _config.minFieldMagnitude) {
+			if (!(mag >= _config.minFieldMagnitude)) {
 				return false;  // Singularity or zero field
 			}
 
-- 
2.43.0


From e2364693abbf8a70a8825b8af8f11ac7c9cfc06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 211/218] fix: field lines never end in a sink, and their
 length grows there

---
 mml/algorithms/FieldLineTracer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mml/algorithms/FieldLineTracer.h b/mml/algorithms/FieldLineTracer.h
index 4efee94..954b4f8 100644
--- a/mml/algorithms/FieldLineTracer.h
+++ b/mml/algorithms/FieldLineTracer.h
@@ -309,6 +309,14 @@ namespace MML {
 			if (!GetNormalizedField(field, x4, k4)) return false;
 
 			// Combine: x_next = x + ds * (k1 + 2*k2 + 2*k3 + k4) / 6
+			// field turns around within the step: there is a singular point
+			for (const auto& k : { k2, k3, k4 }) {
+				Real along = 0;
+				for (int i = 0; i < N; ++i)
+					along += k1[i] * k[i];
+				if (along < 0) return false;
+			}
+
 			xNext = x + (k1 + k2 * 2.0 + k3 * 2.0 + k4) * (ds / 6.0);
 			return true;
 		}
-- 
2.43.0


From 5295cdb268856c241de099ae36e0b90365c78e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:34 +0000
Subject: [PATCH 212/218] fix: poles between sample points that do not change
 sign are not found

---
 mml/algorithms/FunctionsAnalyzer.h | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index 680e67e..a394573 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -779,6 +779,24 @@ namespace MML {
 			}
 			return false;
 		}
+		// Narrow down a pole around which the function is of the same sign
+		Real LocatePeak(Real a, Real b) const {
+			for (int i = 0; i < 200; i++) {
+				Real left = a + (b - a) / 3, right = b - (b - a) / 3;
+				if (left <= a || right >= b || left >= right)
+					break;
+				Real fl = std::abs(_f(left)), fr = std::abs(_f(right));
+				if (std::isnan(fl) || std::isinf(fl))
+					return left;
+				if (std::isnan(fr) || std::isinf(fr))
+					return right;
+				if (fl < fr)
+					a = left;
+				else
+					b = right;
+			}
+			return a + (b - a) / 2;
+		}
 		// Points of discontinuity in increasing order
 		std::vector<Real> LocateDiscontinuities(Real x1, Real x2, int numPoints, Real eps) const {
 			Real step = (x2 - x1) / numPoints;
@@ -805,6 +823,20 @@ namespace MML {
 				}
 			}
 
+			// Stage 3: poles that do not change sign make no jump
+			std::vector<Real> size;
+			for (int i = 0; i <= 2 * numPoints; i++)
+				size.push_back(std::abs(_f(x1 + i * (step / 2))));
+			for (int i = 0; i <= 2 * numPoints; i++) {
+				int l = std::max(i - 1, 0), r = std::min(i + 1, 2 * numPoints);
+				if (std::isfinite(size[i]) && size[i] >= size[l] && size[i] >= size[r] && (size[i] > size[l] || size[i] > size[r])) {
+					Real at = LocatePeak(x1 + l * (step / 2), x1 + r * (step / 2));
+					Real peak = std::abs(_f(at));
+					if (!(peak <= 1000 * size[i]) && !isContinuousAtPoint(at, eps))
+						located.push_back(at);
+				}
+			}
+
 			// sample points are affected by discontinuities close to them
 			for (Real at : located) {
 				const Real same = 1e-12 * (1 + std::abs(at)), near = 20 * eps;
-- 
2.43.0


From b6f04ac44a2e4abd33ce237a16341242da2ec7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:12 +0000
Subject: [PATCH 213/218] fix: IsHermitian accepts matrices whose diagonal is
 not real

---
 mml/base/BaseUtils/MatrixOps.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/BaseUtils/MatrixOps.h b/mml/base/BaseUtils/MatrixOps.h
index 2a12a54..2e2e690 100644
--- a/mml/base/BaseUtils/MatrixOps.h
+++ b/mml/base/BaseUtils/MatrixOps.h
@@ -424,7 +424,7 @@ namespace MML
 				throw MatrixDimensionError("IsHermitian - matrix must be square", mat.rows(), mat.cols(), -1, -1);
 
 			for (int i = 0; i < mat.rows(); i++)
-				for (int j = i + 1; j < mat.cols(); j++)
+				for (int j = i; j < mat.cols(); j++)			// diagonal included: it has to be real
 					if (mat[i][j] != std::conj(mat[j][i]))
 						return false;
 			return true;
-- 
2.43.0


From f91b6ec49af6fe445e0b2db55e13cc99d4129f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:12 +0000
Subject: [PATCH 214/218] fix: matrix from vectors of different sizes written
 out of bounds

---
 mml/base/BaseUtils/MatrixOps.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mml/base/BaseUtils/MatrixOps.h b/mml/base/BaseUtils/MatrixOps.h
index 2e2e690..f077571 100644
--- a/mml/base/BaseUtils/MatrixOps.h
+++ b/mml/base/BaseUtils/MatrixOps.h
@@ -75,9 +75,16 @@ namespace MML
 		/// @tparam Type Element type
 		/// @param b List of vectors (each becomes a row)
 		/// @return Matrix with b.size() rows
+		/// @throws MatrixDimensionError if there are no vectors, VectorDimensionError if their sizes differ
 		template<class Type> 
 		static Matrix<Type> MatrixFromVectorsInRows(const std::vector<Vector<Type>>& b)
 		{
+			if (b.empty())
+				throw MatrixDimensionError("MatrixFromVectorsInRows - no vectors given");
+			for (const auto& v : b)
+				if (v.size() != b[0].size())
+					throw VectorDimensionError("MatrixFromVectorsInRows - vectors must be equal size", b[0].size(), v.size());
+
 			Matrix<Type> ret((int)b.size(), (int)b[0].size());
 			for (int i = 0; i < b.size(); i++)
 				for (int j = 0; j < b[i].size(); j++)
@@ -89,9 +96,16 @@ namespace MML
 		/// @tparam Type Element type
 		/// @param b List of vectors (each becomes a column)
 		/// @return Matrix with b.size() columns
+		/// @throws MatrixDimensionError if there are no vectors, VectorDimensionError if their sizes differ
 		template<class Type> 
 		static Matrix<Type> MatrixFromVectorsInColumns(const std::vector<Vector<Type>>& b)
 		{
+			if (b.empty())
+				throw MatrixDimensionError("MatrixFromVectorsInColumns - no vectors given");
+			for (const auto& v : b)
+				if (v.size() != b[0].size())
+					throw VectorDimensionError("MatrixFromVectorsInColumns - vectors must be equal size", b[0].size(), v.size());
+
 			Matrix<Type> ret((int)b[0].size(), (int)b.size());
 			for (int i = 0; i < b.size(); i++)
 				for (int j = 0; j < b[i].size(); j++)
-- 
2.43.0


From 077c2effc9718bcd5a2e0f9e1895024956f0b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:12 +0000
Subject: [PATCH 215/218] fix: NaN compares equal to everything, within
 tolerance

---
 mml/base/BaseUtils/ComparisonUtils.h |  6 ++++--
 mml/base/Matrix/Matrix.h             | 18 +++++++++---------
 mml/base/Matrix/MatrixBandDiag.h     |  4 ++--
 mml/base/Matrix/MatrixNM.h           |  2 +-
 mml/base/Matrix/MatrixSym.h          |  2 +-
 mml/base/Matrix/MatrixTriDiag.h      |  8 +++++---
 mml/base/Polynom.h                   |  2 +-
 mml/base/Vector/Vector.h             |  4 ++--
 mml/base/Vector/VectorN.h            |  2 +-
 9 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/mml/base/BaseUtils/ComparisonUtils.h b/mml/base/BaseUtils/ComparisonUtils.h
index e2654cf..b0c8012 100644
--- a/mml/base/BaseUtils/ComparisonUtils.h
+++ b/mml/base/BaseUtils/ComparisonUtils.h
@@ -32,7 +32,9 @@ namespace MML
 		/// @return True if both real and imaginary differences are within tolerance
 		static bool AreEqual(const Complex& a, const Complex& b, double eps = Defaults::ComplexAreEqualTolerance)
 		{
-			if (std::abs(a.real() - b.real()) > eps || std::abs(a.imag() - b.imag()) > eps)
+			if (a == b)
+				return true;
+			if (!(std::abs(a.real() - b.real()) <= eps && std::abs(a.imag() - b.imag()) <= eps))		// also for NaN
 				return false;
 			return true;
 		}
@@ -44,7 +46,7 @@ namespace MML
 		/// @return True if |a - b| <= eps
 		static bool AreEqualAbs(const Complex& a, const Complex& b, double eps = Defaults::ComplexAreEqualAbsTolerance)
 		{
-			if (Abs(a - b) > eps)
+			if (a != b && !(Abs(a - b) <= eps))		// also for NaN
 				return false;
 			return true;
 		}
diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index e7c6fc7..82ca3da 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -649,9 +649,9 @@ namespace MML
 			for (int i = 0; i < _rows; ++i) {
 				for (int j = 0; j < _cols; ++j) {
 					if (i == j) {
-						if (Abs((*this)(i, j) - Type{1}) > eps) return false;
+						if (!(Abs((*this)(i, j) - Type{1}) <= eps)) return false;		// also for NaN
 					} else {
-						if (Abs((*this)(i, j)) > eps) return false;
+						if (!(Abs((*this)(i, j)) <= eps)) return false;
 					}
 				}
 			}
@@ -665,7 +665,7 @@ namespace MML
 		{
 			for (int i = 0; i < _rows; ++i)
 				for (int j = 0; j < _cols; ++j)
-					if (i != j && Abs((*this)(i, j)) > eps)
+					if (i != j && !(Abs((*this)(i, j)) <= eps))		// also for NaN
 						return false;
 			return true;
 		}
@@ -679,7 +679,7 @@ namespace MML
 				for (int j = 0; j < _cols; ++j)
 					if (i != j)
 						sum += Abs((*this)(i, j));
-				if (Abs((*this)(i, i)) < sum)
+				if (!(Abs((*this)(i, i)) >= sum))		// also for NaN
 					return false;
 			}
 			return true;
@@ -694,7 +694,7 @@ namespace MML
 			
 			for (int i = 0; i < _rows; ++i)
 				for (int j = i + 1; j < _cols; ++j)
-					if (Abs((*this)(i, j) - (*this)(j, i)) > eps)
+					if ((*this)(i, j) != (*this)(j, i) && !(Abs((*this)(i, j) - (*this)(j, i)) <= eps))		// also for NaN
 						return false;
 			return true;
 		}
@@ -709,10 +709,10 @@ namespace MML
 			for (int i = 0; i < _rows; ++i) {
 				for (int j = i; j < _cols; ++j) {
 					if (IsMatrixTypeComplex()) {
-						if (Abs((*this)(i, j) + std::conj((*this)(j, i))) > eps)
+						if ((*this)(i, j) != -std::conj((*this)(j, i)) && !(Abs((*this)(i, j) + std::conj((*this)(j, i))) <= eps))		// also for NaN
 							return false;
 					} else {
-						if (Abs((*this)(i, j) + (*this)(j, i)) > eps)
+						if ((*this)(i, j) != -(*this)(j, i) && !(Abs((*this)(i, j) + (*this)(j, i)) <= eps))		// also for NaN
 							return false;
 					}
 				}
@@ -726,7 +726,7 @@ namespace MML
 		bool isZero(Real eps = Defaults::IsMatrixZeroTolerance) const
 		{
 			for (const auto& elem : _data)
-				if (Abs(elem) > eps)
+				if (!(Abs(elem) <= eps))		// also for NaN
 					return false;
 			return true;
 		}
@@ -906,7 +906,7 @@ namespace MML
 				return false;
 			
 			for (size_t i = 0; i < _data.size(); ++i)
-				if (Abs(_data[i] - b._data[i]) > eps)
+				if (_data[i] != b._data[i] && !(Abs(_data[i] - b._data[i]) <= eps))		// also for NaN
 					return false;
 			return true;
 		}
diff --git a/mml/base/Matrix/MatrixBandDiag.h b/mml/base/Matrix/MatrixBandDiag.h
index 6b70b13..f3f965c 100644
--- a/mml/base/Matrix/MatrixBandDiag.h
+++ b/mml/base/Matrix/MatrixBandDiag.h
@@ -385,7 +385,7 @@ namespace MML {
 				int j_start = std::max(0, i - _m1);
 				int j_end = std::min(_dim - 1, i + _m2);
 				for (int j = j_start; j <= j_end; j++) {
-					if (std::abs((*this)(i, j) - (*this)(j, i)) > tolerance)
+					if ((*this)(i, j) != (*this)(j, i) && !(std::abs((*this)(i, j) - (*this)(j, i)) <= tolerance))		// also for NaN
 						return false;
 				}
 			}
@@ -406,7 +406,7 @@ namespace MML {
 				int j_start = std::max(0, i - _m1);
 				int j_end = std::min(_dim - 1, i + _m2);
 				for (int j = j_start; j <= j_end; j++)
-					if (std::abs((*this)(i, j) - other(i, j)) > tolerance)
+					if ((*this)(i, j) != other(i, j) && !(std::abs((*this)(i, j) - other(i, j)) <= tolerance))		// also for NaN
 						return false;
 			}
 			return true;
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index 73cd157..db3a68f 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -575,7 +575,7 @@ namespace MML {
 		bool IsEqualTo(const MatrixNM& b, Real eps = Defaults::MatrixIsEqualTolerance) const {
 			for (int i = 0; i < rows(); i++)
 				for (int j = 0; j < cols(); j++)
-					if (std::abs(_vals[i][j] - b._vals[i][j]) > eps)
+					if (_vals[i][j] != b._vals[i][j] && !(std::abs(_vals[i][j] - b._vals[i][j]) <= eps))		// also for NaN
 						return false;
 
 			return true;
diff --git a/mml/base/Matrix/MatrixSym.h b/mml/base/Matrix/MatrixSym.h
index 38552e0..5033241 100644
--- a/mml/base/Matrix/MatrixSym.h
+++ b/mml/base/Matrix/MatrixSym.h
@@ -324,7 +324,7 @@ namespace MML
 				return false;
 
 			for (size_t i = 0; i < _data.size(); ++i) {
-				if (Abs(_data[i] - b._data[i]) > eps)
+				if (_data[i] != b._data[i] && !(Abs(_data[i] - b._data[i]) <= eps))		// also for NaN
 					return false;
 			}
 			return true;
diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index dc5c490..d90009a 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -95,12 +95,14 @@ namespace MML
 			if (_dim != b._dim)
 				return false;
 
+			auto differ = [eps](const Type& x, const Type& y) { return x != y && !(std::abs(x - y) <= eps); };		// also for NaN
+
 			for (int i = 0; i < _dim; i++) {
-				if (std::abs(_diag[i] - b._diag[i]) > eps)
+				if (differ(_diag[i], b._diag[i]))
 					return false;
-				if (i > 0 && std::abs(_belowDiag[i] - b._belowDiag[i]) > eps)
+				if (i > 0 && differ(_belowDiag[i], b._belowDiag[i]))
 					return false;
-				if (i < _dim - 1 && std::abs(_aboveDiag[i] - b._aboveDiag[i]) > eps)
+				if (i < _dim - 1 && differ(_aboveDiag[i], b._aboveDiag[i]))
 					return false;
 			}
 			return true;
diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index 2db8405..d507131 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -249,7 +249,7 @@ namespace MML
 				T a_coef = (i < (int)_vecCoef.size()) ? _vecCoef[i] : T(0);
 				T b_coef = (i < (int)b._vecCoef.size()) ? b._vecCoef[i] : T(0);
 				
-				if (std::abs(a_coef - b_coef) > eps)
+				if (a_coef != b_coef && !(std::abs(a_coef - b_coef) <= eps))		// also for NaN
 					return false;
 			}
 			return true;
diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 99e669f..789df34 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -340,7 +340,7 @@ namespace MML
 
 			for (int i = 0; i < size(); i++)
 			{
-				if (Abs((*this)[i] - b[i]) > eps)
+				if ((*this)[i] != b[i] && !(Abs((*this)[i] - b[i]) <= eps))		// also for NaN
 					return false;
 			}
 			return true;
@@ -361,7 +361,7 @@ namespace MML
 		bool isNearZero(Real eps = Defaults::VectorIsEqualTolerance) const noexcept
 		{
 			for (int i = 0; i < size(); i++)
-				if (Abs((*this)[i]) > eps)
+				if (!(Abs((*this)[i]) <= eps))		// also for NaN
 					return false;
 			return true;
 		}
diff --git a/mml/base/Vector/VectorN.h b/mml/base/Vector/VectorN.h
index e757fca..f46c18d 100644
--- a/mml/base/Vector/VectorN.h
+++ b/mml/base/Vector/VectorN.h
@@ -171,7 +171,7 @@ namespace MML
 		{
 			for (int i = 0; i < N; i++)
 			{
-				if (Abs((*this)[i] - b[i]) > eps)
+				if ((*this)[i] != b[i] && !(Abs((*this)[i] - b[i]) <= eps))		// also for NaN
 					return false;
 			}
 			return true;
-- 
2.43.0


From aa7a5d3049d23a81c8ff00f53cdc362f0392683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:31 +0000
Subject: [PATCH 216/218] fix: documented output of the IsHermitian example,
 whose diagonal is not real

---
 README.md                                         | 2 +-
 src/readme_examples/readme02_vectors_matrices.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 62b53b6..7b44fa7 100644
--- a/README.md
+++ b/README.md
@@ -1042,7 +1042,7 @@ std::cout << "IsHermitian:   " << Utils::IsHermitian(mat_cmplx) << std::endl;
 /* Expected OUTPUT:
     Result: [   -3.137858162,     3.922322703,    -8.629109946]
     IsOrthogonal:  0
-    IsHermitian:   1
+    IsHermitian:   0
 */
 ```
 
diff --git a/src/readme_examples/readme02_vectors_matrices.cpp b/src/readme_examples/readme02_vectors_matrices.cpp
index fbef1c4..dabf91f 100644
--- a/src/readme_examples/readme02_vectors_matrices.cpp
+++ b/src/readme_examples/readme02_vectors_matrices.cpp
@@ -48,6 +48,6 @@ void Readme_VectorsMatrices()
 /* Expected OUTPUT:
     Result: [   -3.137858162,     3.922322703,    -8.629109946]
     IsOrthogonal:  0
-    IsHermitian:   1
+    IsHermitian:   0
 */
 }
-- 
2.43.0


From 8f2ae89eb0b28bf7f51b9952e3fec554071abcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:34 +0000
Subject: [PATCH 217/218] fix: eigenvector centrality oscillates on bipartite
 graphs

---
 mml/algorithms/GraphSpectral.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index fde005a..3bc39eb 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -382,10 +382,11 @@ namespace MML
 
 		for (size_t iter = 0; iter < maxIterations; ++iter)
 		{
-			// Matrix-vector multiply: next = A * centrality
+			// Matrix-vector multiply: next = (A + I) * centrality
+			// (same eigenvectors as A, but it does not oscillate on bipartite graphs)
 			for (size_t i = 0; i < n; ++i)
 			{
-				next[i] = 0;
+				next[i] = centrality[i];
 				for (size_t j = 0; j < n; ++j)
 				{
 					next[i] += A(i, j) * centrality[j];
-- 
2.43.0


From ffbbad14fb3d4989cc2a7544c6484853885e6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:40 +0000
Subject: [PATCH 218/218] fix: vector files lose digits, and truncated or
 unwritable ones are reported as success

---
 mml/base/Vector/Vector.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 789df34..6597562 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -519,7 +519,7 @@ namespace MML
 			}
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from binary file
@@ -535,7 +535,7 @@ namespace MML
 			}
 			
 			// Read and verify header
-			uint32_t magic, version, size, elemSize;
+			uint32_t magic = 0, version = 0, size = 0, elemSize = 0;
 			
 			file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
 			if (magic != BinaryFormat::MAGIC_VECTOR) {
@@ -558,6 +558,16 @@ namespace MML
 				return false;
 			}
 			
+			// Check that the file holds all declared elements
+			const auto dataPos = file.tellg();
+			file.seekg(0, std::ios::end);
+			const auto available = static_cast<std::streamoff>(file.tellg() - dataPos);
+			file.seekg(dataPos);
+			if (!file || available < static_cast<std::streamoff>(size) * static_cast<std::streamoff>(sizeof(Type))) {
+				std::cerr << "Error: file " << filename << " is too small for " << size << " elements" << std::endl;
+				return false;
+			}
+			
 			// Read data
 			outVec._elems.resize(size);
 			if (size > 0) {
@@ -566,7 +576,7 @@ namespace MML
 			}
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Save vector to text file (one value per line)
@@ -578,12 +588,13 @@ namespace MML
 			std::ofstream file(filename);
 			if (!file.is_open()) return false;
 			
+			file << std::setprecision(std::numeric_limits<Real>::max_digits10);
 			file << vec._elems.size() << std::endl;
 			for (const auto& val : vec._elems)
 				file << val << std::endl;
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from text file
@@ -596,12 +607,15 @@ namespace MML
 			if (!file.is_open()) return false;
 			
 			size_t size;
-			file >> size;
-			outVec._elems.resize(size);
+			if (!(file >> size)) return false;
 			
-			for (size_t i = 0; i < size; ++i)
-				file >> outVec._elems[i];
+			std::vector<Type> values;
+			Type value;
+			while (values.size() < size && file >> value)
+				values.push_back(value);
+			if (values.size() < size) return false;		// missing or invalid elements
 			
+			outVec._elems = std::move(values);
 			file.close();
 			return true;
 		}
-- 
2.43.0

