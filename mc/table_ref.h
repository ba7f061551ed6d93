// Reference model of a loaded table: type inference and cell values from raw cell texts (no regex, no library code).
#pragma once
#include "mc.h"
#include <mml/tools/DataLoader.h>
#include <cctype>
namespace tref {
using namespace MML; using namespace MML::Data;
inline std::string trim(const std::string& s) { size_t a = 0, b = s.size(); auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }; while (a < b && ws(s[a])) a++; while (b > a && ws(s[b - 1])) b--; return s.substr(a, b - a); }
inline std::string low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline bool missing(const std::string& t) { static const char* w[] = {"", "na", "n/a", "nan", "null", "none", ".", "?", "-"}; for (auto x : w) if (low(t) == x) return true; return false; }
struct Scan { const std::string& s; size_t p = 0; int digits(int lo, int hi) { int n = 0; while (p < s.size() && isdigit((unsigned char)s[p]) && n < hi) { p++; n++; } return n >= lo ? n : -1; } bool ch(const char* set) { if (p < s.size() && strchr(set, s[p])) { p++; return true; } return false; } bool end() { return p == s.size(); } };
inline bool date(Scan& c) { return c.digits(4, 4) == 4 && c.ch("-/") && c.digits(1, 2) > 0 && c.ch("-/") && c.digits(1, 2) > 0; }
inline bool isInt(const std::string& s) { Scan c{s}; c.ch("+-"); return c.digits(1, 1 << 20) > 0 && c.end(); }
inline bool isReal(const std::string& s) {
	Scan c{s}; c.ch("+-"); int a = c.digits(0, 1 << 20), b = 0; bool dot = c.ch("."); if (dot) b = c.digits(0, 1 << 20);
	if (a + b < 1) return false;
	if (c.ch("eE")) { c.ch("+-"); if (c.digits(1, 1 << 20) < 1) return false; }
	return c.end();
}
inline bool fits(const std::string& s) { long long v = 0; size_t i = (s[0] == '-' || s[0] == '+'); for (; i < s.size(); i++) { v = v * 10 + (s[i] - '0'); if (v > 3000000000LL) return false; } return s[0] == '-' ? v <= 2147483648LL : v <= 2147483647LL; }
inline bool isBool(const std::string& s) { static const char* w[] = {"true", "false", "yes", "no", "t", "f", "y", "n"}; for (auto x : w) if (low(s) == x) return true; return false; }
inline bool isDate(const std::string& s) { Scan c{s}; return date(c) && c.end(); }
inline bool isDateTime(const std::string& s) { Scan c{s}; return date(c) && c.ch("T ") && c.digits(1, 2) > 0 && c.ch(":") && c.digits(2, 2) == 2 && (!c.ch(":") || c.digits(2, 2) == 2) && c.end(); }
inline bool isTime(const std::string& s) { Scan c{s}; return c.digits(1, 2) > 0 && c.ch(":") && c.digits(2, 2) == 2 && (!c.ch(":") || c.digits(2, 2) == 2) && (!c.ch(".") || c.digits(1, 1 << 20) > 0) && c.end(); }
struct Cell { bool miss = true; double real = 0; int in = 0; bool b = false; std::string s, d, t; };
struct Col { ColumnType type; std::vector<Cell> cells; };
inline ColumnType infer(const std::vector<std::string>& v) {
	size_t n = 0, in = 0, re = 0, bo = 0, da = 0, ti = 0, dt = 0;
	for (auto& x : v) { auto t = trim(x); if (missing(t)) continue; n++; if (isInt(t)) { if (fits(t)) in++; else re++; } else if (isReal(t)) re++; else if (isBool(t)) bo++; else if (isDateTime(t)) dt++; else if (isDate(t)) da++; else if (isTime(t)) ti++; }
	if (n == 0) return ColumnType::STRING;
	auto enough = [&](size_t k) { return k * 10 >= n * 9; };          // 90 %, exactly
	if (enough(dt)) return ColumnType::DATETIME; if (enough(da)) return ColumnType::DATE; if (enough(ti)) return ColumnType::TIME; if (enough(bo)) return ColumnType::BOOL;
	if (re == 0 && enough(in)) return ColumnType::INT; if (enough(in + re)) return ColumnType::REAL;
	return ColumnType::STRING;
}
inline Col column(const std::vector<std::string>& v, bool inferTypes = true) {
	Col c; c.type = inferTypes ? infer(v) : ColumnType::STRING;
	for (auto& x : v) {
		Cell e; auto t = trim(x);
		if (!missing(t)) switch (c.type) {
			case ColumnType::REAL: if (isReal(t)) { e.miss = false; e.real = strtod(t.c_str(), nullptr); } break;
			case ColumnType::INT: if (isInt(t) && fits(t)) { e.miss = false; e.in = (int)strtol(t.c_str(), nullptr, 10); e.real = e.in; } break;
			case ColumnType::BOOL: { auto l = low(t); bool y = l == "true" || l == "yes" || l == "t" || l == "y" || l == "1", n = l == "false" || l == "no" || l == "f" || l == "n" || l == "0"; if (y || n) { e.miss = false; e.b = y; e.real = y; } } break;
			case ColumnType::DATETIME: { e.miss = false; size_t k = t.find_first_of("T "); e.d = t.substr(0, k); e.t = k == std::string::npos ? "" : t.substr(k + 1); } break;
			case ColumnType::DATE: e.miss = false; e.d = t; break;
			case ColumnType::TIME: e.miss = false; e.t = t; break;
			default: e.miss = false; e.s = t;
		}
		c.cells.push_back(e);
	}
	return c;
}
inline std::string fmt6(double v) { char b[64]; snprintf(b, sizeof b, "%.6g", v); return b; }
inline std::string text(const Col& c, size_t i) {
	if (i >= c.cells.size()) return ""; const Cell& e = c.cells[i]; if (e.miss) return "NA";
	switch (c.type) { case ColumnType::REAL: return fmt6(e.real); case ColumnType::INT: return std::to_string(e.in); case ColumnType::BOOL: return e.b ? "true" : "false"; case ColumnType::DATE: return e.d; case ColumnType::TIME: return e.t; case ColumnType::DATETIME: return e.d + " " + e.t; default: return e.s; }
}
inline void compare(mc::Ctx& ctx, const DataColumn& c, const Col& r, const std::string& where) {
	size_t n = r.cells.size(), miss = 0;
	ctx.check(c.type == r.type, "type", where, " column type ", ColumnTypeToString(c.type), " expected ", ColumnTypeToString(r.type));
	ctx.check(c.Size() == n || n == 0, "column-size", where, " column size ", c.Size(), " expected ", n);
	ctx.check(c.missingMask.size() == n, "mask-size", where, " mask size ", c.missingMask.size());
	for (size_t i = 0; i < n; i++) {
		const Cell& e = r.cells[i]; miss += e.miss;
		ctx.check(c.IsMissing(i) == e.miss, "missing", where, " row ", i, " missing=", c.IsMissing(i), " expected ", e.miss);
		ctx.check(c.GetAsString(i) == text(r, i), "as-string", where, " row ", i, " text '", c.GetAsString(i), "' expected '", text(r, i), "'");
		bool num = r.type == ColumnType::REAL || r.type == ColumnType::INT || r.type == ColumnType::BOOL; double g = c.GetReal(i);
		ctx.check(num && !e.miss ? g == e.real : std::isnan(g), "get-real", where, " row ", i, " GetReal ", g);
		if (r.type == ColumnType::REAL) ctx.check(e.miss ? std::isnan(c.realData[i]) : c.realData[i] == e.real, "real-data", where, " row ", i, " value ", c.realData[i]);
		if (r.type == ColumnType::INT && !e.miss) ctx.check(c.intData[i] == e.in, "int-data", where, " row ", i, " value ", c.intData[i]);
		if (r.type == ColumnType::BOOL && !e.miss) ctx.check(c.boolData[i] == e.b, "bool-data", where, " row ", i);
	}
	ctx.check(c.CountMissing() == miss, "count-missing", where, " ", c.CountMissing());
	ctx.check(c.GetAsString(n) == "" && std::isnan(c.GetReal(n)) && !c.IsMissing(n), "past-end", where, " past the end");
}
// a table as raw cells (rows may be ragged: short rows read as missing, extra cells are dropped)
inline void compare_table(mc::Ctx& ctx, const Dataset& d, const std::vector<std::string>& names, const std::vector<std::vector<std::string>>& rows, const std::string& where, bool inferTypes = true) {
	ctx.check(d.NumColumns() == names.size(), "num-columns", where, " columns ", d.NumColumns(), " expected ", names.size());
	ctx.check(d.NumRows() == rows.size(), "num-rows", where, " rows ", d.NumRows(), " expected ", rows.size());
	for (size_t c = 0; c < names.size(); c++) {
		ctx.check(d[c].name == names[c], "column-name", where, " name '", d[c].name, "' expected '", names[c], "'");
		std::vector<std::string> v; for (auto& r : rows) v.push_back(c < r.size() ? r[c] : "");
		compare(ctx, d[c], column(v, inferTypes), where + " col " + std::to_string(c));
	}
}
} // namespace tref
#include "scratch.h"
