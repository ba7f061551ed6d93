// mc-flags: -O2
// Dataset queries: row filters, column selection, typed access and listings describe the same table.
#include "table_ref.h"
#include <set>
using namespace tref;
static const std::vector<std::vector<std::string>> COLS = {   // one column of each type, with missing cells
	{"1", "", "3", "-4", "5"}, {"1.5", "2.25", "NA", "1e-3", "1234567.5"}, {"true", "no", "", "Y", "f"}, {"a", "b", "", "a", "c d"}, {"2024-01-05", "2024-02-06", "", "2023-12-31", "2024-01-05"}, {"12:30", "", "01:02:03", "23:59", "12:30"}, {"2024-01-05T12:30", "2024-01-05 00:00", "", "2020-02-02T02:02:02", "2024-01-05T12:30"}, {"", "", "", "", ""}};
static const char* NM[] = {"i", "r", "b", "s", "d", "t", "dt", "m"};
struct T { Dataset d; std::vector<std::string> names; std::vector<Col> cols; size_t rows; };
static T build(const std::vector<int>& which, int rows) {
	T t; t.rows = rows; std::string s; for (size_t c = 0; c < which.size(); c++) { if (c) s += "|"; s += NM[which[c]]; t.names.push_back(NM[which[c]]); std::vector<std::string> v(COLS[which[c]].begin(), COLS[which[c]].begin() + rows); t.cols.push_back(column(v)); }
	s += "\n"; for (int r = 0; r < rows; r++) { for (size_t c = 0; c < which.size(); c++) { if (c) s += "|"; s += "\"" + COLS[which[c]][r] + "\""; } s += "\n"; }
	t.d = LoadFromCSVString(s, '|', true); t.d.name = "tab"; return t;
}
static void same(mc::Ctx& ctx, const Dataset& d, const std::vector<std::string>& names, const std::vector<Col>& cols, size_t rows, const char* w) {
	ctx.check(d.NumRows() == rows && d.NumColumns() == cols.size(), "shape", w, " shape ", d.NumRows(), "x", d.NumColumns());
	for (size_t c = 0; c < cols.size(); c++) { ctx.check(d[c].name == names[c], "name", w, " ", d[c].name); compare(ctx, d[c], cols[c], std::string(w) + " " + names[c]); }
}
static std::string listing(const std::vector<std::string>& names, const std::vector<Col>& cols, const std::vector<size_t>& idx) {
	std::string s; for (size_t c = 0; c < names.size(); c++) s += (c ? "\t" : "") + names[c]; s += "\n"; for (size_t r : idx) { for (size_t c = 0; c < names.size(); c++) s += (c ? "\t" : "") + text(cols[c], r); s += "\n"; } return s;
}
static std::vector<Col> take(const std::vector<Col>& cols, const std::vector<size_t>& idx) { std::vector<Col> r; for (auto& c : cols) { Col n{c.type, {}}; for (size_t i : idx) n.cells.push_back(c.cells[i]); r.push_back(n); } return r; }
static void queries(mc::Ctx& ctx, const Dataset& d, const std::vector<std::string>& names, const std::vector<Col>& cols, size_t rows) {
	same(ctx, d, names, cols, rows, "table"); std::vector<size_t> all; for (size_t i = 0; i < rows; i++) all.push_back(i);
	ctx.check(d.GetColumnNames() == names, "names", "column names");
	for (size_t c = 0; c < cols.size(); c++) {
		ctx.check(d.HasColumn(names[c]), "has", names[c]); ctx.check(&d[names[c]] == &d[c], "by-name", names[c]);
		auto sv = d.GetStringColumn(names[c]); ctx.check(sv.size() == rows, "string-col", sv.size()); for (size_t i = 0; i < rows; i++) ctx.check(sv[i] == text(cols[c], i), "string-col", "row ", i, " ", sv[i]);
		bool num = cols[c].type == ColumnType::REAL || cols[c].type == ColumnType::INT;
		ctx.check(mc::throws([&] { d.GetRealColumn(names[c]); }) == !num, "real-col-type", names[c]); ctx.check(mc::throws([&] { d.GetIntColumn(names[c]); }) == (cols[c].type != ColumnType::INT), "int-col-type", names[c]); ctx.check(mc::throws([&] { d.GetBoolColumn(names[c]); }) == (cols[c].type != ColumnType::BOOL), "bool-col-type", names[c]);
		if (num) { auto v = d.GetRealColumn(names[c]); ctx.check((size_t)v.size() == rows, "real-col", "size"); for (size_t i = 0; i < rows; i++) if (!cols[c].cells[i].miss) ctx.check(v[i] == cols[c].cells[i].real, "real-col", "row ", i, " ", v[i]); }
		if (cols[c].type == ColumnType::INT) { auto v = d.GetIntColumn(names[c]); for (size_t i = 0; i < rows; i++) if (!cols[c].cells[i].miss) ctx.check(v[i] == cols[c].cells[i].in, "int-col", "row ", i); }
		if (cols[c].type == ColumnType::BOOL) { auto v = d.GetBoolColumn(names[c]); for (size_t i = 0; i < rows; i++) if (!cols[c].cells[i].miss) ctx.check(v[i] == cols[c].cells[i].b, "bool-col", "row ", i); }
	}
	ctx.check(!d.HasColumn("zz") && mc::throws([&] { d["zz"]; }) && mc::throws([&] { d[cols.size()]; }), "unknown-column", "no error for an unknown column");
	for (size_t n = 0; n <= rows + 1; n++) {
		size_t k = std::min(n, rows); std::vector<size_t> h(all.begin(), all.begin() + k), t(all.end() - k, all.end());
		ctx.check(d.Head(n) == listing(names, cols, h), "head", "Head(", n, ")=", d.Head(n)); ctx.check(d.Tail(n) == listing(names, cols, t), "tail", "Tail(", n, ")=", d.Tail(n));
		for (unsigned seed : {0u, 1u, 42u, 4294967295u}) { // a sample is k distinct rows of the table, the same for the same seed
			auto s = d.Sample(n, seed); ctx.check(s == d.Sample(n, seed), "sample-repeat", "differs"); std::multiset<std::string> pool; for (size_t i = 0; i < rows; i++) { auto l = listing(names, cols, {i}); pool.insert(l.substr(l.find('\n') + 1)); }
			size_t p = s.find('\n') + 1, cnt = 0; while (p < s.size()) { size_t e = s.find('\n', p) + 1; auto it = pool.find(s.substr(p, e - p)); ctx.check(it != pool.end(), "sample", "row not in table or repeated: ", s); pool.erase(it); cnt++; p = e; }
			ctx.check(cnt == k, "sample-size", cnt, " rows, expected ", k); }
	}
	std::string ps = d.PrintSummary(); ctx.check(ps.find(std::to_string(rows) + " rows") != std::string::npos, "summary", ps);
	std::vector<std::vector<std::string>> part(1); { std::istringstream is(ps); for (std::string l; std::getline(is, l);) if (l.find("Statistics") != std::string::npos) part.emplace_back(); else part.back().push_back(l); }
	ctx.check(part.size() == 2, "summary", ps); auto row = [&](int k, const std::string& nm) { std::vector<std::string> w; for (auto& l : part[k]) if (l.compare(0, nm.size() + 1, nm + " ") == 0) { std::istringstream is(l); for (std::string x; is >> x;) w.push_back(x); break; } return w; };
	for (size_t c = 0; c < cols.size(); c++) {
		auto& col = d[c]; size_t missing = 0, n = 0; long double sum = 0, lo = 1e300L, hi = -1e300L, sq = 0; bool num = cols[c].type == ColumnType::REAL || cols[c].type == ColumnType::INT; auto value = [&](size_t i) { return cols[c].type == ColumnType::INT ? (long double)cols[c].cells[i].in : (long double)cols[c].cells[i].real; };
		for (size_t i = 0; i < rows; i++) { bool m = cols[c].cells[i].miss; missing += m; ctx.check(col.IsMissing(i) == m, "is-missing", names[c], " row ", i); double g = col.GetReal(i); if (m || (!num && cols[c].type != ColumnType::BOOL)) ctx.check(g != g, "get-real", names[c], " row ", i, " is ", g); else ctx.check(g == (num ? (double)value(i) : cols[c].cells[i].b ? 1 : 0), "get-real", names[c], " row ", i, " is ", g); if (num && !m) { n++; sum += value(i); lo = std::min(lo, value(i)); hi = std::max(hi, value(i)); } ctx.check(col.GetAsString(i) == text(cols[c], i), "as-string", names[c], " row ", i); }
		for (size_t i = 0; i < rows; i++) if (num && !cols[c].cells[i].miss) sq += (value(i) - sum / n) * (value(i) - sum / n);
		double out = col.GetReal(rows); ctx.check(col.Size() == rows && col.CountMissing() == missing && !col.IsMissing(rows) && out != out && col.GetAsString(rows).empty(), "column", names[c], " has ", col.CountMissing(), " missing of ", col.Size());
		auto w = row(0, names[c]); ctx.check(w.size() == 4 && w[1] == ColumnTypeToString(cols[c].type) && w[2] == std::to_string(rows - missing) && w[3] == std::to_string(missing), "summary-column", names[c], " in ", ps);
		auto v = row(1, names[c]); ctx.check(v.size() == (num && n ? 5u : 0u), "summary-statistics", names[c], " in ", ps); if (num && n && v.size() == 5) { long double want[] = {lo, hi, sum / n, std::sqrt(sq / n)}; for (int k = 0; k < 4; k++) ctx.check(std::abs(std::stod(v[k + 1]) - want[k]) <= 6e-4L * std::abs(want[k]) + 1e-9L * (std::abs(hi) + std::abs(lo)), "summary-statistics", names[c], " ", k, " is ", v[k + 1], " expected ", (double)want[k]); }
	}
}
MC_SCENARIO(tables, 2) { // every pair of column types, every number of rows, every subset of rows kept by a filter on either column, chained filters and selections
	int a = ctx.choose(8), b = ctx.choose(8), rows = ctx.range(1, 5); if (a == b) ctx.prune();
	T t = build({a, b}, rows); ctx.step(); ctx.state(mc::Hash().u(a).u(b).u(rows)); queries(ctx, t.d, t.names, t.cols, rows);
	// one keep/drop decision per distinct text of the filter column
	int fc = ctx.choose(2); std::vector<std::string> seen; std::vector<bool> dec; std::vector<size_t> idx;
	for (int i = 0; i < rows; i++) { auto x = text(t.cols[fc], i); size_t k = 0; while (k < seen.size() && seen[k] != x) k++; if (k == seen.size()) { seen.push_back(x); dec.push_back(ctx.flag()); } if (dec[k]) idx.push_back(i); }
	auto keep = [&](const std::string& x) { for (size_t k = 0; k < seen.size(); k++) if (seen[k] == x) return (bool)dec[k]; return false; };
	int calls = 0; Dataset f = t.d.FilterRows(t.names[fc], [&](const std::string& x) { calls++; return keep(x); }); ctx.check(calls == rows, "predicate-calls", calls);
	auto fcols = take(t.cols, idx); queries(ctx, f, t.names, fcols, idx.size()); same(ctx, t.d, t.names, t.cols, rows, "source after filter");
	Dataset s = f.SelectColumns({t.names[1], t.names[0]}); queries(ctx, s, {t.names[1], t.names[0]}, {fcols[1], fcols[0]}, idx.size());
	Dataset s1 = f.SelectColumns({t.names[1]}); same(ctx, s1, {t.names[1]}, {fcols[1]}, idx.size(), "select one"); ctx.check(f.SelectColumns({}).NumColumns() == 0, "select none", "");
	// a second filter on the other column of the result equals filtering both at once
	int oc = 1 - fc; std::string pivot = idx.empty() ? "" : text(t.cols[oc], idx[0]); std::vector<size_t> idx2; for (size_t i : idx) if (text(t.cols[oc], i) == pivot) idx2.push_back(i);
	same(ctx, s.FilterRows(t.names[oc], [&](const std::string& x) { return x == pivot; }), {t.names[1], t.names[0]}, {take(t.cols, idx2)[1], take(t.cols, idx2)[0]}, idx2.size(), "filter of filter");
	ctx.check(mc::throws([&] { t.d.FilterRows("zz", keep); }) && mc::throws([&] { t.d.SelectColumns({t.names[0], "zz"}); }), "unknown", "unknown column accepted");
	ctx.outcome(mc::Hash().u(idx.size()).u(idx2.size()));
}
