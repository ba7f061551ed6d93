// ConsolePrinter: console tables, exports, escapes, stream state, file failures
#include "mc.h"
#include "scratch.h"
#include "tools/ConsolePrinter.h"
#include <cstdio>
using namespace MML;
using std::string; using std::vector;
typedef vector<vector<string>> Rows;
static int dispw(const string& s) { int n = 0; for (unsigned char c : s) n += (c & 0xC0) != 0x80; return n; }
static vector<string> lines(const string& s, bool& ended) { vector<string> r; string c; for (char x : s) if (x == '\n') { r.push_back(c); c.clear(); } else c += x; ended = c.empty(); return r; }
static vector<string> splits(const string& s, const string& d) { vector<string> r; size_t p = 0; for (;;) { size_t q = s.find(d, p); if (q == string::npos) { r.push_back(s.substr(p)); return r; } r.push_back(s.substr(p, q - p)); p = q + d.size(); } }
static const BorderStyle BS[] = {BorderStyle::None, BorderStyle::Simple, BorderStyle::Markdown, BorderStyle::Rounded, BorderStyle::Double, BorderStyle::Bold};
static const char* VERT[] = {"", "|", "|", "\xE2\x94\x82", "\xE2\x95\x91", "\xE2\x94\x83"};
static const char* HORZ[] = {"", "-", "-", "\xE2\x94\x80", "\xE2\x95\x90", "\xE2\x94\x81"};
static const Alignment AL[] = {Alignment::Left, Alignment::Right, Alignment::Center};
// seg must be text padded with blanks to width w according to the alignment
static bool aligned(const string& seg, const string& text, int w, int al) {
	int pad = std::max(0, w - (int)text.size());
	if ((int)seg.size() != (int)text.size() + pad) return false;
	for (int l = 0; l <= pad; l++) {
		if (al == 0 && l) break;
		if (al == 1 && l != pad) continue;
		if (al == 2 && l != pad / 2 && l != pad - pad / 2) continue;
		if (seg == string(l, ' ') + text + string(pad - l, ' ')) return true;
	}
	return false;
}
// grid: expected texts (row 0 = header)
static void check_console(mc::Ctx& ctx, const string& out, const Rows& grid, const vector<int>& w, const vector<int>& al, int b, bool header, bool seps) {
	bool ended; auto L = lines(out, ended);
	ctx.check(ended || out.empty(), "console-line-end", "last line is not terminated:\n", out);
	size_t nc = w.size(), nr = grid.size() - 1;
	vector<int> kind; // expected lines: -1 rule, else grid row
	bool bord = b != 0;
	if (header) { if (bord) kind.push_back(-1); kind.push_back(0); if (bord) kind.push_back(-1); }
	for (size_t r = 0; r < nr; r++) { kind.push_back((int)r + 1); if (bord && seps && r + 1 < nr) kind.push_back(-1); }
	if (bord) kind.push_back(-1);
	ctx.check(L.size() == kind.size(), "console-lines", L.size(), " lines, expected ", kind.size(), "\n", out);
	int total = -1;
	for (size_t i = 0; i < L.size(); i++) {
		if (total < 0) total = dispw(L[i]);
		ctx.check(dispw(L[i]) == total, "console-rectangular", "line ", i, " has another width\n", out);
		if (kind[i] < 0) {
			string s = L[i]; int h = 0; for (size_t p = s.find(HORZ[b]); p != string::npos; p = s.find(HORZ[b], p + 1)) h++;
			int need = 0; for (int x : w) need += x + 2;
			ctx.check(h == need && dispw(s) == need + (int)nc + 1, "console-rule", "rule line: ", s);
			continue;
		}
		const vector<string>& g = grid[kind[i]];
		if (bord) {
			auto seg = splits(L[i], VERT[b]);
			ctx.check(seg.size() == nc + 2 && seg.front().empty() && seg.back().empty(), "console-cells", "line ", i, ": ", L[i]);
			for (size_t c = 0; c < nc; c++) {
				const string& s = seg[c + 1];
				ctx.check(s.size() >= 2 && s.front() == ' ' && s.back() == ' ' && aligned(s.substr(1, s.size() - 2), g[c], w[c], al[c]), "console-cell", "row ", kind[i], " column ", c, " shows '", s, "' for '", g[c], "'\n", out);
			}
		} else {
			size_t p = 0;
			for (size_t c = 0; c < nc; c++) {
				ctx.check(p + w[c] <= L[i].size() && aligned(L[i].substr(p, w[c]), g[c], w[c], al[c]), "console-cell", "row ", kind[i], " column ", c, " line '", L[i], "' for '", g[c], "'");
				p += w[c] + (c + 1 < nc ? 2 : 0);
			}
			ctx.check(p == L[i].size(), "console-cells", "extra text: ", L[i]);
		}
	}
	mc::Hash h; h.s(out); ctx.state(h); ctx.outcome(mc::Hash().u(b).u(header).u(seps).u(L.size())); ctx.nontrivial();
}
static void dirty(std::ostream& os, int k) { if (k == 1) { os << std::hex << std::setprecision(11); } else if (k == 2) { os << std::scientific << std::showpos << std::setprecision(2); } else if (k == 3) { os << std::uppercase << std::boolalpha << std::left; } }
template <class F> static string captured(mc::Ctx& ctx, F f) {
	std::ostringstream os; dirty(os, ctx.choose(4));
	auto fl = os.flags(); auto pr = os.precision(); auto wd = os.width(); char fc = os.fill();
	f(os);
	ctx.check(os.flags() == fl && os.precision() == pr && os.width() == wd && os.fill() == fc, "stream-state", "flags/precision/width changed by printing");
	return os.str();
}
static string fmtd(double v, int f, int prec) { char b[64]; snprintf(b, sizeof b, f == 1 ? "%.*f" : f == 2 ? "%.*e" : "%.*g", prec, v); return b; }
static const FormatType FT[] = {FormatType::General, FormatType::Fixed, FormatType::Scientific};

static void table_case(mc::Ctx& ctx, int nr, int nc, bool shortfmt) {
	static const vector<string> T = {"", "a", "wide cell"};
	int b = ctx.choose(6); bool header = ctx.flag(), seps = ctx.flag();
	int al0 = ctx.choose(3), al1 = ctx.choose(3); int wm = ctx.choose(shortfmt ? 2 : 3);   // fixed 12, auto, exact 9
	vector<int> al(nc + 1, al1); al[0] = al0;
	Rows g(nr + 1, vector<string>(nc + 1));
	g[0][0] = "Tag"; for (int c = 1; c <= nc; c++) g[0][c] = c == 1 ? "Column 1" : "B";
	for (int r = 1; r <= nr; r++) for (int c = 0; c <= nc; c++) g[r][c] = (r + c) % 2 ? T[1 + (r + c) / 2 % 2] : ctx.pick(T);
	vector<int> w(nc + 1, wm == 0 ? 12 : 9);
	if (wm == 1) for (int c = 0; c <= nc; c++) { w[c] = 0; for (auto& r : g) w[c] = std::max(w[c], (int)r[c].size()); }
	auto fm = [&](int c) { ColumnFormat f(g[0][c]); f.align(AL[al[c]]); if (wm == 1) f.autoWidth(); else if (wm == 2) f.width(9); else f.width(12); return f; };
	vector<ColumnFormat> cf; for (int c = 1; c <= nc; c++) cf.push_back(fm(c));
	TablePrinter<string, string> tp(fm(0), cf);
	tp.style(TableStyle().border(BS[b]).header(header).rowSeparators(seps));
	// refused rows leave the table alone
	for (int bad : {nc - 1, nc + 1}) if (bad >= 0) ctx.check(mc::throws([&] { tp.addRow("x", vector<string>(bad, "y")); }), "addrow-size", "row of ", bad, " values accepted in a table of ", nc, " columns");
	for (int r = 1; r <= nr; r++) tp.addRow(g[r][0], vector<string>(g[r].begin() + 1, g[r].end()));
	ctx.check(tp.rowCount() == (size_t)nr && tp.columnCount() == (size_t)nc, "counts", "rowCount/columnCount");
	string o1 = tp.toString();
	check_console(ctx, o1, g, w, al, b, header, seps);
	string o2 = captured(ctx, [&](std::ostream& os) { tp.print(os); });
	ctx.check(o1 == o2, "stream-state-leaks-in", "output depends on the stream's previous format:\n", o1, o2);
	// auto widths follow the data after the table was printed, cleared and refilled
	tp.clear(); ctx.check(tp.rowCount() == 0, "clear", "rows left");
	Rows g2 = {g[0], vector<string>(nc + 1, "zz")}; tp.addRow("zz", vector<string>(nc, "zz"));
	vector<int> w2 = w; if (wm == 1) for (int c = 0; c <= nc; c++) w2[c] = std::max<int>(2, g[0][c].size());
	check_console(ctx, tp.toString(), g2, w2, al, b, header, seps);
}
MC_SCENARIO(console_small, 6) { int nr = ctx.choose(3); int nc = ctx.choose(2); table_case(ctx, nr, nc, false); }
MC_SCENARIO(console_wide, 6) { table_case(ctx, 1 + ctx.choose(ctx.thorough ? 3 : 2), 2, true); }
MC_SCENARIO(console_numbers, 4) {
	int b = ctx.choose(6), f = ctx.choose(3), prec = ctx.choose(4); bool autow = ctx.flag(), header = ctx.flag();
	static const vector<double> V = {0, -1.5, 3.14159265358979, 1e10, -2.5e-7};
	double a = ctx.pick(V), c = ctx.pick(V); int n = ctx.pick({0, 255, -7});
	ColumnFormat tag("k"), col("val"); tag.autoWidth(); col.format(FT[f]).precision(prec); if (autow) col.autoWidth(); else col.width(20);
	TablePrinter<int, double> tp(tag, vector<ColumnFormat>{col}); tp.style(TableStyle().border(BS[b]).header(header));
	tp.addRow(n, {a}); tp.addRow(12, {c});
	Rows g = {{"k", "val"}, {std::to_string(n), fmtd(a, f, prec)}, {"12", fmtd(c, f, prec)}};
	vector<int> w(2, 0); for (int k = 0; k < 2; k++) for (auto& r : g) w[k] = std::max<int>(w[k], r[k].size());
	if (!autow) w[1] = 20;
	check_console(ctx, captured(ctx, [&](std::ostream& os) { tp.print(os); }), g, w, {1, 1}, b, header, false);
	// hexadecimal integers
	TablePrinter<string, unsigned> th("t", {"x"}); th.columnFormat(0, ColumnFormat("x").format(FormatType::Hexadecimal)); unsigned u = n < 0 ? 7 : n; th.addRow("r", {u});
	char hx[16]; snprintf(hx, sizeof hx, "%x", u);
	check_console(ctx, th.toString(), {{"t", "x"}, {"r", hx}}, {12, 12}, {1, 1}, 1, true, false);
}
MC_SCENARIO(vector_table, 5) {
	int b = ctx.choose(6), f = ctx.choose(3), wm = ctx.choose(2); bool header = ctx.flag(); int al = ctx.choose(3);
	static const vector<double> V = {0, -1.5, 123456.789};
	int nv = 1 + ctx.choose(2); vector<Vector<Real>> v; vector<int> len;
	for (int i = 0; i < nv; i++) { int n = ctx.choose(4); Vector<Real> x(n); for (int k = 0; k < n; k++) x[k] = k == 0 ? ctx.pick(V) : V[(i + k) % 3]; v.push_back(x); len.push_back(n); }
	int nr = *std::max_element(len.begin(), len.end());
	Rows g(nr + 1, vector<string>(nv));
	vector<int> w(nv, 16);
	VectorTablePrinter tp; tp.style(TableStyle().border(BS[b]).header(header));
	for (int i = 0; i < nv; i++) {
		g[0][i] = i ? "second" : "v"; for (int k = 0; k < nr; k++) g[k + 1][i] = k < len[i] ? fmtd(v[i][k], f, 6) : "";
		ColumnFormat cf(g[0][i]); cf.format(FT[f]).align(AL[al]); if (wm) { cf.autoWidth(); w[i] = 0; for (auto& r : g) w[i] = std::max<int>(w[i], r[i].size()); } else cf.width(16);
		tp.addVector(cf, v[i]);
	}
	string out; try { out = tp.toString(); } catch (const std::exception& e) { ctx.check(false, "vector-table-throws", "printing threw ", e.what(), " (auto width ", wm, ")"); }
	check_console(ctx, out, g, w, vector<int>(nv, al), b, header, false);
	ctx.check(captured(ctx, [&](std::ostream& os) { tp.print(os); }) == out, "stream-state-leaks-in", "output depends on the stream's previous format");
}
// ---- exports ----
static bool parse_csv(const string& s, Rows& out) {
	out.clear(); vector<string> row; string f; size_t i = 0; bool any = false;
	while (i < s.size()) {
		any = true; f.clear();
		if (s[i] == '"') { for (i++;;) { if (i >= s.size()) return false; if (s[i] == '"') { if (i + 1 < s.size() && s[i + 1] == '"') { f += '"'; i += 2; continue; } i++; break; } f += s[i++]; } if (i >= s.size() || (s[i] != ',' && s[i] != '\n')) return false; }
		else while (i < s.size() && s[i] != ',' && s[i] != '\n') { if (s[i] == '"' || s[i] == '\r') return false; f += s[i++]; }
		row.push_back(f); if (i >= s.size()) return false;
		if (s[i] == '\n') { out.push_back(row); row.clear(); any = false; } else if (i + 1 == s.size()) return false; else if (s[i + 1] == '\n') { row.push_back(""); i++; out.push_back(row); row.clear(); any = false; }
		i++;
	}
	return !any;
}
static string unhtml(const string& s, bool& ok) {
	string r; for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '<' || s[i] == '>') { ok = false; return r; }
		if (s[i] != '&') { r += s[i]; continue; }
		static const std::pair<const char*, char> E[] = {{"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&#39;", '\''}, {"&apos;", '\''}};
		bool f = false; for (auto& e : E) if (!s.compare(i, strlen(e.first), e.first)) { r += e.second; i += strlen(e.first) - 1; f = true; break; }
		if (!f) { ok = false; return r; }
	} return r;
}
static string unlatex(const string& s, bool& ok) {
	string r; for (size_t i = 0; i < s.size(); i++) {
		if (strchr("&%$#_{}~^", s[i])) { ok = false; return r; }
		if (s[i] != '\\') { r += s[i]; continue; }
		static const std::pair<const char*, char> E[] = {{"\\textasciitilde{}", '~'}, {"\\textasciicircum{}", '^'}, {"\\textbackslash{}", '\\'}};
		bool f = false; for (auto& e : E) if (!s.compare(i, strlen(e.first), e.first)) { r += e.second; i += strlen(e.first) - 1; f = true; break; }
		if (f) continue;
		if (i + 1 < s.size() && strchr("&%$#_{}", s[i + 1])) { r += s[++i]; continue; }
		ok = false; return r;
	} return r;
}
static bool parse_html(const string& s, Rows& out) {
	out.clear(); size_t p = 0;
	while ((p = s.find("<tr>", p)) != string::npos) {
		size_t e = s.find("</tr>", p); if (e == string::npos) return false; vector<string> row; size_t q = p + 4;
		for (;;) { size_t a = std::min(s.find("<td>", q), s.find("<th>", q)); if (a == string::npos || a > e) break; char k = s[a + 2]; size_t z = s.find(k == 'd' ? "</td>" : "</th>", a); if (z == string::npos) return false; bool ok = true; row.push_back(unhtml(s.substr(a + 4, z - a - 4), ok)); if (!ok) return false; q = z + 5; }
		out.push_back(row); p = e;
	} return true;
}
static bool parse_latex(const string& s, size_t nc, Rows& out) {
	out.clear(); string head = "\\begin{tabular}{|"; for (size_t i = 0; i < nc; i++) head += "c|"; head += "}\n";
	if (s.compare(0, head.size(), head)) return false; size_t end = s.find("\\end{tabular}"); if (end == string::npos) return false;
	string body = s.substr(head.size(), end - head.size());
	for (size_t p; (p = body.find("\\hline\n")) != string::npos;) body.erase(p, 7);
	while (!body.empty()) { size_t z = body.find(" \\\\\n"); if (z == string::npos) return false; auto seg = splits(body.substr(0, z), " & "); vector<string> row; for (auto& x : seg) { bool ok = true; row.push_back(unlatex(x, ok)); if (!ok) return false; } out.push_back(row); body.erase(0, z + 4); }
	return true;
}
static const vector<string> X = {"a", "", ",", "\"", "\n", "\r", "x,y", "\"q\"", "a\nb", "&", "<b>", "5%", "a_b", "{}", "~^", "\\", "&amp;", "\\&", " s ", "\"\""};
MC_SCENARIO(exports, 5) {
	int nr = 1 + ctx.choose(2);
	Rows g(nr + 1, vector<string>(3)); g[0][0] = ctx.pick(X); g[0][1] = "h"; g[0][2] = nr == 1 ? ctx.pick(X) : "k,\"&<_";
	for (int r = 1; r <= nr; r++) for (int c = 0; c < 3; c++) g[r][c] = (r == 1 && c == 1) || (r == nr && c == 0) ? ctx.pick(X) : "plain";
	TablePrinter<string, string> tp(g[0][0], {g[0][1], g[0][2]});
	for (int r = 1; r <= nr; r++) tp.addRow(g[r][0], {g[r][1], g[r][2]});
	auto exp = [&](ExportFormat f) { std::ostringstream os; tp.exportTo(os, f); return os.str(); };
	Rows got; string s = exp(ExportFormat::CSV);
	ctx.check(parse_csv(s, got) && got == g, "csv-export", "CSV does not read back as the table:\n", s);
	s = exp(ExportFormat::HTML);
	ctx.check(parse_html(s, got) && got == g, "html-export", "HTML does not read back as the table:\n", s);
	s = exp(ExportFormat::LaTeX);
	ctx.check(parse_latex(s, 3, got) && got == g, "latex-export", "LaTeX does not read back as the table:\n", s);
	bool plain = true; for (auto& r : g) for (auto& c : r) for (char ch : c) if (ch == '\n' || ch == '\t' || ch == '\r' || ch == '|') plain = false;
	if (plain) {
		bool e; auto L = lines(exp(ExportFormat::TSV), e); Rows t; for (auto& l : L) t.push_back(splits(l, "\t")); ctx.check(e && t == g, "tsv-export", "TSV differs");
		L = lines(exp(ExportFormat::Markdown), e); ctx.check(e && L.size() == g.size() + 1, "markdown-export", "line count"); t.clear();
		for (size_t i = 0; i < L.size(); i++) { if (i == 1) { ctx.check(splits(L[i], "|").size() == 5 && L[i].find_first_not_of("|-: ") == string::npos, "markdown-export", "separator line ", L[i]); continue; } ctx.check(L[i].substr(0, 2) == "| " && L[i].size() >= 4 && L[i].substr(L[i].size() - 2) == " |", "markdown-export", L[i]); t.push_back(splits(L[i].substr(2, L[i].size() - 4), " | ")); }
		ctx.check(t == g, "markdown-export", "Markdown differs");
	}
	ctx.state(mc::Hash().s(s)); ctx.outcome(mc::Hash().u(nr).u(plain)); ctx.nontrivial();
}
MC_SCENARIO(escapes, 3) {
	static const char AB[] = {'a', ',', '"', '\n', '\r', '&', '<', '\\', '~', '_'};
	int n = ctx.choose(ctx.thorough ? 7 : 6); string s; int k = n > 4 ? 6 : 10; for (int i = 0; i < n; i++) s += AB[ctx.choose(k)];
	string e = Csv::escape(s); ctx.check(Csv::unescape(e) == s, "csv-roundtrip", "unescape(escape(", s, "))=", Csv::unescape(e));
	Rows got; ctx.check(parse_csv(e + "\n", got) && (s.empty() || (got.size() == 1 && got[0].size() == 1 && got[0][0] == s)), "csv-escape", "escaped '", e, "' is not one CSV field");
	bool ok = true; ctx.check(unhtml(Html::escape(s), ok) == s && ok, "html-escape", Html::escape(s));
	ok = true; ctx.check(unlatex(Latex::escape(s), ok) == s && ok, "latex-escape", Latex::escape(s));
	ctx.state(mc::Hash().s(s)); ctx.outcome(mc::Hash().u(e == s)); ctx.nontrivial();
}
MC_SCENARIO(files, 2) {
	int nr = ctx.choose(3), fm = ctx.choose(7); static const ExportFormat F[] = {ExportFormat::Console, ExportFormat::CSV, ExportFormat::TSV, ExportFormat::Markdown, ExportFormat::LaTeX, ExportFormat::HTML};
	TablePrinter<int, double> tp("t", {"x"}); for (int i = 0; i < nr; i++) tp.addRow(i, {1.5 * i});
	std::ostringstream os; if (fm == 6) tp.print(os); else tp.exportTo(os, F[fm]); string want = os.str();
	auto go = [&](const string& p) { if (fm == 6) tp.printToFile(p); else tp.exportToFile(p, F[fm]); };
	mc::TempFile t; go(t.path); ctx.check(t.read() == want, "file-content", "file differs from the stream output");
	ctx.check(mc::throws([&] { go(mc::scratch_dir() + "/nodir/x"); }), "file-open-failure", "no exception for a file that cannot be created");
	int k = ctx.choose((int)want.size() + 1); mc::TempFile u; bool thrown = false;
	{ mc::WriteLimit lim(k); try { go(u.path); } catch (const std::exception&) { thrown = true; } }
	if (k < (int)want.size()) ctx.check(thrown, "file-write-failure", "writing stopped after ", k, " of ", want.size(), " bytes without an error");
	else ctx.check(!thrown && u.read() == want, "file-content", "complete write reported as failed");
	ctx.state(mc::Hash().u(nr).u(fm).u(k)); ctx.outcome(mc::Hash().u(thrown)); ctx.nontrivial();
}
