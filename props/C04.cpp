// mc-flags: -O2
// JSON loading: arrays of flat objects become exactly the table they describe; malformed input is rejected.
#include "table_ref.h"
#include <map>
using namespace tref;
struct Val { std::string json, text; };        // JSON spelling and cell text it stands for
using Obj = std::vector<std::pair<Val, Val>>;
static const std::vector<Val> VALS = {
	{"1", "1"}, {"-2", "-2"}, {"3.5", "3.5"}, {"1e3", "1e3"}, {"true", "true"}, {"false", "false"}, {"null", ""}, {"\"abc\"", "abc"}, {"\"\"", ""}, {"\"a\\\"b\"", "a\"b"}, {"\"x,y]}{[:\"", "x,y]}{[:"}, {"\"2024-01-05\"", "2024-01-05"},
	{"\"\\\\\\/\"", "\\/"}, {"\"p\\n\\tq\\rr\"", "p\n\tq\rr"}, {"\"p\\b\\fq\"", "p\b\fq"}, {"\"\\u0041\\u00e9\"", "A\xC3\xA9"}, {"\"\\u20AC!\"", "\xE2\x82\xAC!"}, {"\"\\ud83d\\ude00\"", "\xF0\x9F\x98\x80"}, {"\"\xC3\xBC\"", "\xC3\xBC"}, {"\"12:30\"", "12:30"}, {"\"2024-01-05T12:30\"", "2024-01-05T12:30"}, {"\"NA\"", "NA"}, {"123456789012", "123456789012"}, {"\"yes\"", "yes"}};
static std::string text_of(const std::vector<Obj>& objs, int ws) {
	auto W = [&](const char* s) { return ws == 0 ? std::string() : ws == 1 ? std::string(s) : std::string(s) + "\n\t "; };
	std::string t = W(" ") + "["; for (size_t i = 0; i < objs.size(); i++) { if (i) t += W(" ") + "," + W(" "); t += "{"; for (size_t k = 0; k < objs[i].size(); k++) { if (k) t += "," + W(" "); t += W(" ") + objs[i][k].first.json + W(" ") + ":" + W(" ") + objs[i][k].second.json; } t += W(" ") + "}"; } return t + W(" ") + "]" + W(" ");
}
static void expect(mc::Ctx& ctx, const std::vector<Obj>& objs, int ws, bool file) {
	std::string t = text_of(objs, ws); ctx.note("json=", t); ctx.state(mc::Hash().s(t)); ctx.step();
	std::vector<std::string> names; std::vector<std::map<std::string, std::string>> rows;
	for (auto& o : objs) { rows.emplace_back(); for (auto& kv : o) { bool seen = false; for (auto& n : names) if (n == kv.first.text) seen = true; if (!seen) names.push_back(kv.first.text); rows.back()[kv.first.text] = kv.second.text; } }
	std::vector<std::vector<std::string>> tab; for (auto& r : rows) { tab.emplace_back(); for (auto& n : names) { auto it = r.find(n); tab.back().push_back(it == r.end() ? "" : it->second); } }
	compare_table(ctx, LoadFromJSONString(t), names, tab, "string");
	if (file) { mc::TempFile tf; tf.write((ws == 2 ? "\xEF\xBB\xBF" : "") + t); auto d = LoadJSON(tf.path); compare_table(ctx, d, names, tab, "file"); ctx.check(d.name == tf.path, "name", d.name); auto s = LoadJSONSafe(tf.path); ctx.check(s.success, "safe", s.errorMessage); compare_table(ctx, s.data, names, tab, "safe"); }
	ctx.outcome(mc::Hash().u(names.size()).u(tab.size()));
}
static Val K(const char* s) { return {std::string("\"") + s + "\"", s}; }
MC_SCENARIO(values, 2) { Val a = ctx.pick(VALS), b = ctx.pick(VALS); int ws = ctx.choose(3); expect(ctx, {{{K("k"), a}}, {{K("k"), b}}}, ws, true); }
MC_SCENARIO(two_columns, 3) { Val a = ctx.pick(VALS), b = ctx.pick(VALS); expect(ctx, {{{K("b"), a}, {K("a"), b}}}, ctx.choose(3), true); }
MC_SCENARIO(key_sets, 3) { // which object has which keys in which order, repeats and empty objects included
	int n = ctx.range(0, ctx.thorough ? 4 : 3); std::vector<Obj> objs; int v = 1; static const char* names[] = {"x", "y", "a"};
	for (int i = 0; i < n; i++) { Obj o; int len = ctx.range(0, ctx.thorough ? 3 : 2); for (int k = 0; k < len; k++) { int w = ctx.choose(ctx.thorough ? 2 : 3); Val val = (i + k) % 3 == 2 ? Val{"\"s" + std::to_string(v) + "\"", "s" + std::to_string(v)} : Val{std::to_string(v), std::to_string(v)}; v++; o.push_back({K(names[w]), val}); } objs.push_back(o); }
	expect(ctx, objs, ctx.choose(2), false);
}
MC_SCENARIO(escaped_keys, 1) { for (auto& k : VALS) if (k.json[0] == '"') expect(ctx, {{{k, {"1", "1"}}, {K("other"), {"2", "2"}}}, {{K("other"), {"3", "3"}}}}, 1, false); }
static void rejected(mc::Ctx& ctx, const std::string& t, const char* key) {
	ctx.step(); ctx.state(mc::Hash().s(t)); bool data = false, other = false;
	try { LoadFromJSONString(t); } catch (const DataError&) { data = true; } catch (const std::exception&) { other = true; }
	ctx.soft(data, key, "input '", t, "' ", other ? "threw something other than DataError" : "was accepted");
	mc::TempFile tf; tf.write(t); auto s = LoadJSONSafe(tf.path); ctx.soft(!s.success && !s.errorMessage.empty() && s.data.NumRows() == 0, key, "LoadJSONSafe accepted '", t, "'");
}
MC_SCENARIO(truncation, 2) { // a file cut off anywhere is never loaded as if it were complete
	std::vector<Obj> objs; int n = ctx.range(1, 2); for (int i = 0; i < n; i++) objs.push_back({{K("k\\\"1"), ctx.pick(VALS)}, {K("m"), {"true", "true"}}});
	if (n == 1) objs[0].push_back({K("z"), {"null", ""}}); std::string t = trim(text_of(objs, ctx.choose(2)));
	for (size_t cut = 0; cut < t.size(); cut++) rejected(ctx, t.substr(0, cut), "truncated");
}
MC_SCENARIO(malformed, 1) {
	static const std::vector<std::string> bad = {"{\"a\":1}", "\"a\"", "1", "null", "", "   ", "[1]", "[\"a\"]", "[null]", "[[1]]", "[{\"a\":{}}]", "[{\"a\":[1]}]", "[{\"a\":[]},{\"a\":1}]", "[{\"a\" 1}]", "[{\"a\"}]", "[{1:2}]", "[{a:1}]", "[{\"a\":x}]", "[{\"a\":tru}]", "[{\"a\":fals}]", "[{\"a\":nul}]", "[{\"a\":True}]", "[{\"a\":\"x}]", "[{\"a:1}]", "[{\"a\":1]", "[{\"a\":1}}", "[{\"a\":}]", "[{\"a\":,\"b\":1}]", "[{\"a\":\"\\u12\"}]", "[{\"a\":\"\\uZZZZ\"}]", "[{\"a\":\"\\ud83d\"}]", "[{\"a\":\"\\ude00\"}]", "[{\"a\":\"\\ud83dx\"}]", "[{\"a\":+1}]", "[{\"a\":'x'}]"};
	rejected(ctx, ctx.pick(bad), "malformed");
}
MC_SCENARIO(missing_file, 1) { std::string p = mc::scratch_dir() + "/does_not_exist"; ctx.step(); ctx.check(mc::throws([&] { LoadJSON(p); }), "no-file", "no error"); ctx.check(!LoadJSONSafe(p).success, "no-file", "safe"); }
