// CSV/TSV loading: what is loaded is exactly what the file says.
// mc-flags: -O2
#include "table_ref.h"
using namespace tref;
using Rows = std::vector<std::vector<std::string>>;
static std::string enc(const std::string& c, char d, bool force) {
	bool q = force || c.find(d) != std::string::npos || c.find('"') != std::string::npos; if (!q) return c;
	std::string r = "\""; for (char x : c) { if (x == '"') r += '"'; r += x; } return r + "\"";
}
static bool blank(const std::vector<std::string>& r, bool force) { return r.size() == 1 && !force && trim(r[0]).empty(); }
struct Fmt { char d; bool crlf, bom, header, finalnl, force, infer; };
static std::string text_of(const std::vector<std::string>& names, const Rows& rows, const Fmt& f) {
	std::vector<std::string> lines; auto line = [&](const std::vector<std::string>& r) { std::string l; for (size_t i = 0; i < r.size(); i++) { if (i) l += f.d; l += enc(r[i], f.d, f.force); } lines.push_back(l); };
	if (f.header) line(names); for (auto& r : rows) line(r);
	std::string t = f.bom ? "\xEF\xBB\xBF" : ""; for (size_t i = 0; i < lines.size(); i++) { t += lines[i]; if (i + 1 < lines.size() || f.finalnl) t += f.crlf ? "\r\n" : "\n"; }
	return t;
}
static std::vector<std::string> names_for(size_t n, const Fmt& f, const std::vector<std::string>& hdr) {
	std::vector<std::string> r; for (size_t i = 0; i < n; i++) { std::string t = f.header ? trim(hdr[i]) : ""; r.push_back(t.empty() ? "Column" + std::to_string(i) : t); } return r;
}
static void run(mc::Ctx& ctx, const std::vector<std::string>& hdr, Rows rows, const Fmt& f) {
	std::string t = text_of(hdr, rows, f); ctx.note("text=", t); ctx.state(mc::Hash().s(t).u(f.d).u(f.header).u(f.infer)); ctx.step();
	Rows keep; for (auto& r : rows) if (!blank(r, f.force)) keep.push_back(r);
	auto names = names_for(hdr.size(), f, hdr); bool empty = keep.empty() && !f.header;
	mc::TempFile tf; tf.write(t);
	auto both = [&](const Dataset& d, const char* w, bool inf) { compare_table(ctx, d, names, keep, w, inf); };
	if (empty) {
		ctx.check(mc::throws([&] { LoadCSV(tf.path, f.header, f.d, f.infer); }), "empty-file", "no error for an empty file");
		ctx.check(mc::throws([&] { LoadFromCSVString(t, f.d, f.header); }), "empty-string", "no error for empty content");
		auto s = LoadCSVSafe(tf.path, f.header, f.d, f.infer); ctx.check(!s.success && !s.errorMessage.empty(), "safe-empty", "safe load of an empty file succeeded");
		return;
	}
	both(LoadCSV(tf.path, f.header, f.d, f.infer), "LoadCSV", f.infer);
	if (f.infer) both(LoadFromCSVString(t, f.d, f.header), "string", true);
	auto s = LoadCSVSafe(tf.path, f.header, f.d, f.infer); ctx.check(s.success && (bool)s, "safe", "safe load failed: ", s.errorMessage); both(s.data, "safe", f.infer);
	if (f.d == '\t') { both(LoadTSV(tf.path, f.header, f.infer), "TSV", f.infer); auto z = LoadTSVSafe(tf.path, f.header, f.infer); ctx.check(z.success, "safe-tsv", z.errorMessage); both(z.data, "safe TSV", f.infer); }
	ctx.outcome(mc::Hash().u(keep.size()).u(names.size()));
}
static const std::vector<std::string> A = {"1", "-2", "3.5", "1e3", "abc", "a,b", "say \"hi\"", "", "NA", " x ", "true", "2024-01-05", "12:30", "2024-01-05T12:30", "\"q\"", "a\"\"b"};
static Fmt fmt(mc::Ctx& ctx, bool wide) { Fmt f; f.d = ctx.pick({',', ';', '\t'}); f.header = ctx.flag(); f.infer = true; f.finalnl = true; f.crlf = f.bom = f.force = false;
	if (wide && ctx.thorough) { f.crlf = ctx.flag(); f.bom = ctx.flag(); f.finalnl = ctx.flag(); f.force = ctx.flag(); f.infer = ctx.flag(); }
	else if (wide) { int m = ctx.choose(6); f.crlf = m == 1 || m == 3; f.bom = m == 2 || m == 3; f.finalnl = m != 3 && m != 4; f.force = m == 4; f.infer = m != 5; } return f; }
MC_SCENARIO(cells_1x2, 3) { Fmt f = fmt(ctx, true); run(ctx, {"h"}, {{ctx.pick(A)}, {ctx.pick(A)}}, f); }
MC_SCENARIO(cells_2x1, 3) { Fmt f = fmt(ctx, true); run(ctx, {"p q", " \"z\" "}, {{ctx.pick(A), ctx.pick(A)}}, f); }
MC_SCENARIO(cells_2x2, 4) {
	static const std::vector<std::string> S = {"1", "3.5", "a\"b", "", "a\tb;c,d", "yes", "12:30:15.25"};
	Fmt f = fmt(ctx, false); auto& al = ctx.thorough ? A : S; auto a = ctx.pick(al), b = ctx.pick(al), c = ctx.pick(al), d = ctx.pick(al); run(ctx, {"u", ""}, {{a, b}, {c, d}}, f);
}
// the type of a column depends on the shares of each kind of cell: every mix of two kinds up to 20 rows, outlier first, in the middle or last
MC_SCENARIO(type_shares, 3) {
	static const std::vector<std::string> K = {"7", "2.25", "true", "f", "text", "2024-01-05", "12:30", "2024-01-05 12:30:01", "NA", "3000000000", "-2147483648", "2147483648"};
	auto a = ctx.pick(K), b = ctx.pick(K); int n = ctx.thorough ? ctx.range(1, 31) : ctx.pick({1, 2, 9, 10, 11, 20}), k = ctx.range(0, 3), where = ctx.choose(3); if (k > n) ctx.prune();
	Rows rows; for (int i = 0; i < n; i++) { bool out = where == 0 ? i < k : where == 1 ? i >= n - k : (i >= n / 2 && i < n / 2 + k); rows.push_back({out ? b : a, "z"}); }
	if (where == 2 && n / 2 + k > n) ctx.prune();
	Fmt f{',', false, false, true, true, false, true}; run(ctx, {"c", "d"}, rows, f);
}
MC_SCENARIO(numbers, 2) { // numeric cell texts
	static const std::vector<std::string> N = {"0", "-0", "+5", "00012", "2147483647", "-2147483648", "2147483648", "99999999999999999999", "1.", ".5", "-.5", "1.5e-3", "1E+2", "1e", "e5", "1.2.3", "--1", "+", "1 2", "12abc", "0x10", "1,5", "1_000", "1e400", "inf", "123456789.125", "0.1", "1e-5"};
	auto a = ctx.pick(N), b = ctx.pick(N); Fmt f{ctx.pick({',', ';'}), false, false, true, true, false, true}; 
	std::vector<std::string> v{a, b}; auto t = infer(v); if (t == ColumnType::REAL && (a == "1e400" || b == "1e400")) ctx.prune();
	run(ctx, {"c", "d"}, {{a, "q"}, {b, "q"}}, f);
}
MC_SCENARIO(boolean_and_date_words, 2) {
	static const std::vector<std::string> N = {"TRUE", "False", "Yes", "nO", "T", "y", "N", "F", "1", "0", "2024/1/5", "2024-1-05", "24-01-05", "2024-01-05 1:02", "2024/01/05T11:22:33", "1:02", "1:2", "12:30:59", "12:30:5", "12:30.5", "n/a", "NaN", "NULL", "None", ".", "?", "-", "yes!"};
	auto a = ctx.pick(N), b = ctx.pick(N); 
	std::vector<std::string> v{a, b}; Fmt f{',', false, false, true, true, false, ctx.flag()}; run(ctx, {"c", "d"}, {{a, "q"}, {b, "q"}}, f);
}
MC_SCENARIO(ragged, 3) { // every combination of row lengths; strict mode rejects, warnings name every bad row
	Fmt f; f.d = ctx.pick({',', '\t'}); f.header = ctx.flag(); f.crlf = ctx.flag(); f.bom = false; f.finalnl = ctx.flag(); f.force = false; f.infer = true;
	int nr = ctx.range(1, ctx.thorough ? 4 : 3), nc = ctx.range(1, 3); std::vector<std::string> hdr; for (int i = 0; i < nc; i++) hdr.push_back("c" + std::to_string(i));
	Rows rows; int bad = 0; std::vector<int> badRows; for (int r = 0; r < nr; r++) { int len = ctx.range(1, 4); if (r == 0 && !f.header && len != nc) ctx.prune(); std::vector<std::string> row; for (int i = 0; i < len; i++) row.push_back(std::to_string(10 * r + i)); rows.push_back(row); if (len != nc) { bad++; badRows.push_back(r + 1 + f.header); } }
	run(ctx, hdr, rows, f);
	mc::TempFile tf; tf.write(text_of(hdr, rows, f)); CSVLoadOptions o; o.hasHeader = f.header; o.delimiter = f.d; o.strictSchema = true;
	ctx.check(mc::throws([&] { LoadCSV(tf.path, o); }) == (bad > 0), "strict", "strict load of ", bad, " bad rows");
	std::vector<std::string> w; o.strictSchema = false; o.warnings = &w; compare_table(ctx, LoadCSV(tf.path, o), names_for(nc, f, hdr), rows, "warn");
	ctx.check((int)w.size() == bad, "warnings", w.size(), " warnings for ", bad, " rows");
	for (int i = 0; i < bad; i++) ctx.check(w[i].find("Row " + std::to_string(badRows[i]) + " ") != std::string::npos, "warning-row", w[i]);
}
MC_SCENARIO(raw_bytes, 3) { // every short text over structural characters (no stray quotes: quote count even per line and only whole-field)
	static const char al[] = {'a', ',', '\n', '1', ' ', '\r'}; int n = ctx.range(0, ctx.thorough ? 7 : 5); std::string t; for (int i = 0; i < n; i++) t += al[ctx.choose(6)];
	for (size_t i = 0; i < t.size(); i++) if (t[i] == '\r' && (i + 1 >= t.size() || t[i + 1] != '\n')) ctx.prune();
	Rows rows; std::string cur; auto flush = [&] { std::string l = cur; cur.clear(); if (!l.empty() && l.back() == '\r') l.pop_back(); if (trim(l).empty()) return; std::vector<std::string> r(1); for (char c : l) if (c == ',') r.emplace_back(); else r.back() += c; rows.push_back(r); };
	for (char c : t) if (c == '\n') flush(); else cur += c; flush();
	ctx.state(mc::Hash().s(t)); ctx.note("text=", t); ctx.step();
	if (rows.empty()) { ctx.check(mc::throws([&] { LoadFromCSVString(t, ',', false); }), "empty", "no error"); return; }
	Fmt f{',', false, false, false, false, false, true}; auto names = names_for(rows[0].size(), f, {});
	compare_table(ctx, LoadFromCSVString(t, ',', false), names, rows, "raw");
	f.header = true; names = names_for(rows[0].size(), f, rows[0]); rows.erase(rows.begin()); compare_table(ctx, LoadFromCSVString(t, ',', true), names, rows, "raw header");
}
MC_SCENARIO(missing_file, 1) {
	std::string p = mc::scratch_dir() + "/does_not_exist"; ctx.step();
	ctx.check(mc::throws([&] { LoadCSV(p); }) && mc::throws([&] { LoadTSV(p); }), "no-file", "no error"); auto s = LoadCSVSafe(p); ctx.check(!s && !s.errorMessage.empty() && s.data.NumRows() == 0, "no-file-safe", "safe");
}
