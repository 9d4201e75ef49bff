// Diagram tool: declarations and runners of a program become the flow chart. The program text and its syntax tree are generated together.
#include "tools/mermaid/src/cpp_parser.h"
#include "tools/mermaid/src/mermaid_renderer.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include "vlog.hpp"
using vlog::E; using vlog::Rng;
extern int tool_main(int, char**);
static uint64_t g_seed; static std::string g_mode;
struct Node { const char* type; bool named; uint32_t a = 0, b = 0; int up = -1; std::vector<int> ch; };
struct TSTree { std::string text; std::vector<Node> n; };
struct TSParser { int x; };
static std::map<std::string, const TSTree*> g_trees; static int g_live = 0, g_parsers = 0;
static TSNode mk(const TSTree* t, int i) { TSNode n; memset(&n, 0, sizeof n); if (i < 0) return n; n.id = &t->n[i]; n.tree = t; return n; }
static const Node& N(TSNode n) { return *(const Node*)n.id; }
extern "C" {
const TSLanguage* tree_sitter_cpp() { return (const TSLanguage*)1; }
TSParser* ts_parser_new() { ++g_parsers; return new TSParser{0}; } void ts_parser_delete(TSParser* p) { --g_parsers; delete p; } bool ts_parser_set_language(TSParser*, const TSLanguage*) { return true; }
TSTree* ts_parser_parse_string(TSParser*, const TSTree*, const char* s, uint32_t n) { auto it = g_trees.find(std::string(s, n)); if (it == g_trees.end()) return nullptr; ++g_live; return new TSTree(*it->second); }
void ts_tree_delete(TSTree* t) { --g_live; delete t; }
TSNode ts_tree_root_node(const TSTree* t) { return mk(t, 0); }
const char* ts_node_type(TSNode n) { return N(n).type; } uint32_t ts_node_start_byte(TSNode n) { return N(n).a; } uint32_t ts_node_end_byte(TSNode n) { return N(n).b; }
static TSPoint pt(TSNode n, uint32_t e) { TSPoint p{0, 0}; for (uint32_t i = 0; i < e; ++i) if (n.tree->text[i] == '\n') ++p.row, p.column = 0; else ++p.column; return p; }
TSPoint ts_node_start_point(TSNode n) { return pt(n, N(n).a); } TSPoint ts_node_end_point(TSNode n) { return pt(n, N(n).b); }
bool ts_node_is_null(TSNode n) { return n.id == nullptr; } bool ts_node_is_named(TSNode n) { return N(n).named; }
uint32_t ts_node_child_count(TSNode n) { return n.id ? (uint32_t)N(n).ch.size() : 0; }
TSNode ts_node_child(TSNode n, uint32_t i) { return mk(n.tree, i < N(n).ch.size() ? N(n).ch[i] : -1); }
static int nth(TSNode n, uint32_t i, uint32_t* cnt) { uint32_t k = 0; for (int c : N(n).ch) if (n.tree->n[c].named) { if (k == i && !cnt) return c; ++k; } if (cnt) *cnt = k; return -1; }
uint32_t ts_node_named_child_count(TSNode n) { uint32_t c; nth(n, 0, &c); return c; } TSNode ts_node_named_child(TSNode n, uint32_t i) { return mk(n.tree, nth(n, i, nullptr)); }
TSNode ts_node_parent(TSNode n) { return mk(n.tree, N(n).up); }
static TSNode beside(TSNode n, int d, bool named) { int up = N(n).up; if (up < 0) return mk(n.tree, -1); auto& c = n.tree->n[up].ch; int k = 0; while (&n.tree->n[c[k]] != n.id) ++k; for (k += d; k >= 0 && k < (int)c.size(); k += d) if (!named || n.tree->n[c[k]].named) return mk(n.tree, c[k]); return mk(n.tree, -1); }
TSNode ts_node_next_sibling(TSNode n) { return beside(n, 1, false); } TSNode ts_node_prev_sibling(TSNode n) { return beside(n, -1, false); } TSNode ts_node_next_named_sibling(TSNode n) { return beside(n, 1, true); } TSNode ts_node_prev_named_sibling(TSNode n) { return beside(n, -1, true); }
bool ts_node_eq(TSNode a, TSNode b) { return a.id == b.id; } bool ts_node_has_error(TSNode) { return false; } bool ts_node_is_missing(TSNode) { return false; } bool ts_node_is_extra(TSNode n) { return !strcmp(N(n).type, "comment"); }
}
struct Build { TSTree t; std::vector<int> st;
    Build() { open("translation_unit"); }
    void open(const char* ty, bool named = true) { int i = (int)t.n.size(); t.n.push_back({ty, named, (uint32_t)t.text.size(), 0, st.empty() ? -1 : st.back(), {}}); if (!st.empty()) t.n[st.back()].ch.push_back(i); st.push_back(i); }
    void close() { t.n[st.back()].b = (uint32_t)t.text.size(); st.pop_back(); }
    void sp(const std::string& s) { t.text += s; }
    void leaf(const char* ty, const std::string& s, bool named = true) { open(ty, named); t.text += s; close(); }
    void tok(const char* s) { leaf(s, s, false); }
    void finish() { while (!st.empty()) close(); } };
// ---------------------------------------------------------------- programs
struct Decl { std::string var, pre, mid, post, tmpl; int line; }; struct Tgt { std::string blk, chan; int idx; }; struct Run { std::string src; std::vector<Tgt> t; };
struct Prog { TSTree t; std::vector<Decl> d; std::vector<Run> r; std::string gname; bool flow = false; };
static std::string q(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o + "\""; }
static std::string lst(const std::vector<std::string>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + v[i]; return o + "]"; }
static const char* TM[] = {"float", "std::complex<float>", "Pair<int, 3>", "A<B<C>>", "char, 'x'", "Ring<int&, 4>", "decltype(\"s\")"};
static Prog program(Rng& r, bool bad) {
    Prog p; Build b; auto nl = [&](int ind) { b.sp("\n" + std::string(ind * 4, ' ')); };
    auto comment = [&] { static const char* C[] = {"/* out */", "/* see add.in */", "// to sink.in, then done\n", "/*&*/"}; std::string s = C[r.below(4)]; bool eol = s.back() == '\n'; if (eol) s.pop_back(); b.leaf("comment", s); b.sp(eol ? "\n        " : " "); };
    static const char* V[] = {"src", "src2", "add", "ad", "sink", "sink_1", "fan", "x", "y_", "blockA", "in", "throttle", "gain_0", "gain0"}; static const char* P[] = {"Source", "Sink", "Add", "Fan", "Plot", "", "My"}; static const char* Q[] = {"", "", "F", "2", "_t", "Ex"};
    std::vector<std::string> vars; size_t nb = 1 + r.below(6); std::set<std::string> used; while (vars.size() < nb) { std::string v = V[r.below(14)]; if (used.insert(v).second) vars.push_back(v); }
    auto args = [&](const char* open, const char* cl, const char* ty) { b.open(ty); b.tok(open); b.leaf("string_literal", "\"n\""); if (r.chance(0.5)) { b.tok(","); b.sp(" "); b.leaf("number_literal", "3.5f"); } b.tok(cl); b.close(); };
    auto declare = [&](const std::string& v, bool block) { Decl d; d.var = v; d.pre = P[r.below(7)]; d.mid = block ? (r.chance(0.85) ? "Block" : "block") : "Filter"; d.post = Q[r.below(6)]; if (r.chance(0.5)) d.tmpl = TM[r.below(7)];
        b.open("declaration"); std::string ty = d.pre + d.mid + d.post; if (r.chance(0.1)) { b.open("type_qualifier"); b.leaf("const", "const", false); b.close(); b.sp(" "); }
        if (d.tmpl.empty()) b.leaf("type_identifier", ty); else { b.open("template_type"); b.leaf("type_identifier", ty); b.open("template_argument_list"); b.tok("<"); b.leaf("type_descriptor", d.tmpl); b.tok(">"); b.close(); b.close(); }
        b.sp(" "); d.line = 1; for (char c : b.t.text) d.line += c == '\n'; b.open("init_declarator"); b.leaf("identifier", v); if (r.chance(0.8)) args("(", ")", "argument_list"); else args("{", "}", "initializer_list"); b.close(); b.tok(";"); b.close(); p.d.push_back(d); };
    auto noise = [&](int ind) { nl(ind); switch (r.below(4)) { case 0: b.leaf("comment", "// BlockThing z(3); see src.in"); break; case 1: b.open("declaration"); b.leaf("primitive_type", "float"); b.sp(" "); b.open("init_declarator"); b.leaf("identifier", "rate"); b.sp(" "); b.tok("="); b.sp(" "); b.leaf("number_literal", "3"); b.close(); b.tok(";"); b.close(); break;
        case 2: b.open("expression_statement"); b.open("call_expression"); b.leaf("identifier", "make_noise"); b.open("argument_list"); b.tok("("); b.tok(")"); b.close(); b.close(); b.tok(";"); b.close(); break;
        default: b.open("expression_statement"); b.open("call_expression"); b.open("field_expression"); b.leaf("identifier", "src"); b.tok("."); b.leaf("field_identifier", "start"); b.close(); b.open("argument_list"); b.tok("("); b.leaf("identifier", "x"); b.tok(")"); b.close(); b.close(); b.tok(";"); b.close(); } };
    std::vector<std::string> known; size_t skip = bad ? r.below(nb) : nb;
    auto runner = [&](const std::string& src, std::vector<Tgt> ts, bool cm) { b.open("call_expression"); if (r.chance(0.6)) { b.open("qualified_identifier"); b.leaf("namespace_identifier", "cler"); b.tok("::"); b.leaf("identifier", "BlockRunner"); b.close(); } else b.leaf("identifier", "BlockRunner");
        Run run; run.src = src; b.open("argument_list"); b.tok("("); if (cm && r.chance(0.3)) comment(); b.open("pointer_expression"); b.tok("&"); b.leaf("identifier", src); b.close();
        for (auto& t : ts) { b.tok(","); b.sp(r.chance(0.2) ? "\n        " : " "); if (cm && r.chance(0.3)) comment(); b.open("pointer_expression"); b.tok("&"); if (t.blk.empty()) { b.leaf("identifier", t.chan); b.close(); continue; }
            auto fld = [&] { b.open("field_expression"); b.leaf("identifier", t.blk); b.tok("."); b.leaf("field_identifier", t.chan); b.close(); };
            if (t.idx == -1) fld(); else { b.open("subscript_expression"); fld(); b.open("subscript_argument_list"); b.tok("["); if (t.idx >= 0) b.leaf("number_literal", std::to_string(t.idx)); else b.leaf("identifier", "k"); b.tok("]"); b.close(); b.close(); if (t.idx == -2) t.chan += "[k]", t.idx = -1; }
            b.close(); run.t.push_back(t); if (cm && r.chance(0.1)) { b.sp(" "); comment(); } }
        b.tok(")"); b.close(); b.close(); p.r.push_back(run); p.flow = true; };
    auto fnhead = [&](const char* nm) { b.open("function_definition"); b.leaf("primitive_type", "int"); b.sp(" "); b.open("function_declarator"); b.leaf("identifier", nm); b.leaf("parameter_list", "()"); b.close(); b.sp(" "); b.open("compound_statement"); b.tok("{"); };
    auto fnend = [&] { b.sp("\n"); b.tok("}"); b.close(); b.close(); b.sp("\n"); };
    b.leaf("preproc_include", "#include \"cler.hpp\"\n"); bool cm = r.chance(0.35);
    if (r.chance(0.3)) { fnhead("early"); for (int i = 0; i < 2; ++i) { nl(1); declare(vars[r.below(nb)], r.chance(0.8)); } fnend(); }
    fnhead("main"); for (size_t i = 0; i < nb; ++i) { if (i == skip) continue; if (r.chance(0.2)) noise(1); nl(1); bool in = r.chance(0.15); if (in) { b.open("if_statement"); b.sp("if (1) "); b.open("compound_statement"); b.tok("{"); } declare(vars[i], i == 0 ? r.chance(0.95) : true); if (in) { b.tok("}"); b.close(); b.close(); } }
    auto targets = [&](size_t self) { std::vector<Tgt> ts; size_t k = r.below(4); for (size_t i = 0; i < k; ++i) { size_t j = r.below(nb); if (j == self && r.chance(0.7)) continue; static const char* C[] = {"in", "in", "input", "out_b"}; Tgt t{vars[j], C[r.below(4)], (int)r.range(-2, 11)}; if (r.chance(0.5)) t.idx = -1; if (r.chance(0.05)) t = Tgt{"", "chan", -1}; ts.push_back(t); } return ts; };
    if (!r.chance(0.06)) { int graphs = r.chance(0.15) ? 2 : 1; for (int g = 0; g < graphs; ++g) { bool wrap = r.chance(0.75); if (r.chance(0.2)) noise(1); nl(1); std::string gn;
        size_t m = 1 + r.below(nb + 1);
        if (wrap) { static const char* G[] = {"desktop", "embedded", "rx_2", ""}; gn = G[r.below(4)]; b.open("declaration"); b.open("placeholder_type_specifier"); b.leaf("auto", "auto", false); b.close(); b.sp(" "); b.open("init_declarator"); b.leaf("identifier", "fg"); b.sp(" "); b.tok("="); b.sp(" "); b.open("call_expression"); std::string fnm = "make_" + gn + "_flowgraph";
            switch (r.below(3)) { case 0: b.open("qualified_identifier"); b.leaf("namespace_identifier", "cler"); b.tok("::"); b.leaf("identifier", fnm); b.close(); break; case 1: b.leaf("identifier", fnm); break; default: b.open("field_expression"); b.leaf("identifier", "lib"); b.tok("."); b.leaf("field_identifier", fnm); b.close(); }
            b.open("argument_list"); b.tok("("); p.gname = gn; }
        std::vector<std::pair<size_t, std::vector<Tgt>>> last; for (size_t i = 0; i < m; ++i) { size_t s = r.below(nb); if (wrap) { if (i) b.tok(","); nl(2); if (cm && r.chance(0.3)) comment(); runner(vars[s], targets(s), cm); } else { if (i) nl(1); b.open("expression_statement"); runner(vars[s], targets(s), cm); b.tok(";"); b.close(); } }
        if (wrap) { b.tok(")"); b.close(); b.close(); b.close(); b.tok(";"); b.close(); } } }
    fnend(); if (r.chance(0.2)) { fnhead("late"); nl(1); declare(vars[r.below(nb)], true); fnend(); }
    b.finish(); p.t = b.t; return p; }
static void say_prog(const Prog& p, const std::string& name) { std::vector<std::string> d, u; for (auto& x : p.d) d.push_back(lst({q(x.var), q(x.pre), q(x.mid), q(x.post), q(x.tmpl), std::to_string(x.line)})); for (auto& x : p.r) { std::vector<std::string> t; for (auto& y : x.t) t.push_back(lst({q(y.blk), q(y.chan), std::to_string(y.idx), q(std::to_string(y.idx))})); u.push_back(lst({q(x.src), lst(t)})); }
    E("prog").s("file", name).raw("decls", lst(d)).raw("runs", lst(u)).s("gname", p.gname).t("flow", p.flow).done(); }
// ---------------------------------------------------------------- reading a diagram back
static bool eat(std::string& s, const std::string& p) { if (s.compare(0, p.size(), p)) return false; s.erase(0, p.size()); return true; }
static std::string plain(std::string s) { struct { const char* a; char b; } T[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&apos;", '\''}, {"&#39;", '\''}, {"&amp;", '&'}}; std::string o; while (!s.empty()) { bool f = false; for (auto& t : T) if (eat(s, t.a)) { o += t.b; f = true; break; } if (!f) { o += s[0]; s.erase(0, 1); } } return o; }
static void say_md(const std::string& md, const std::string& dir, const std::string& fence) {
    std::istringstream in(md); std::string l; std::vector<std::string> L, nodes, edges, styles; while (std::getline(in, l)) L.push_back(l); bool ok = true; size_t i = 0, e = L.size();
    if (fence == "backticks") { ok = e > 1 && L[0] == "```mermaid" && L[e - 1] == "```"; ++i; --e; } else if (fence == "colons") { ok = e > 1 && L[0] == "::: mermaid" && L[e - 1] == ":::"; ++i; --e; }
    ok = ok && i < e && L[i] == "flowchart " + dir && md.back() == '\n'; ++i;
    for (; ok && i < e; ++i) { std::string s = L[i]; if (!eat(s, "    ")) { ok = false; break; }
        if (eat(s, "style ")) { size_t k = s.find(' '); std::string id = s.substr(0, k), rest = s.substr(k + 1); ok = eat(rest, "fill:#") && rest.size() == 6; styles.push_back(lst({q(id), q(rest)})); continue; }
        size_t k = s.find(" --> "); size_t w = 0; while (w < s.size() && (isalnum((unsigned char)s[w]) || s[w] == '_')) ++w; std::string id = s.substr(0, w); if (id.empty()) { ok = false; break; }
        if (k == w) { std::string to = s.substr(k + 5); for (char c : to) ok = ok && (isalnum((unsigned char)c) || c == '_'); edges.push_back(lst({q(id), q(to)})); continue; }
        s.erase(0, w); std::string shape; const char* S[][3] = {{"([\"", "\"])", "source"}, {"[/\"", "\"/]", "sink"}, {"[\"", "\"]", "mid"}}; for (auto& x : S) { std::string c = x[1]; if (!s.compare(0, strlen(x[0]), x[0]) && s.size() > c.size() && !s.compare(s.size() - c.size(), c.size(), c)) { shape = x[2]; s = s.substr(strlen(x[0]), s.size() - strlen(x[0]) - c.size()); break; } }
        if (shape.empty() || s.find('"') != std::string::npos) { ok = false; break; } std::vector<std::string> part; for (size_t x; (x = s.find("<br/>")) != std::string::npos; s.erase(0, x + 5)) part.push_back(s.substr(0, x)); part.push_back(s); for (auto& x : part) ok = ok && x.find('<') == std::string::npos && x.find('>') == std::string::npos;
        ok = ok && (part.size() == 2 || part.size() == 3) && part[1].size() >= 2 && part[1][0] == '(' && part[1].back() == ')'; if (!ok) break; std::string tm = part.size() == 3 ? plain(part[2]) : ""; if (!tm.empty()) { ok = tm.size() > 2 && tm[0] == '<' && tm.back() == '>'; if (ok) tm = tm.substr(1, tm.size() - 2); }
        nodes.push_back(lst({q(id), q(part[0]), q(part[1].substr(1, part[1].size() - 2)), q(tm), q(shape)})); }
    E("md").t("form", ok).raw("nodes", lst(nodes)).raw("edges", lst(edges)).raw("styles", lst(styles)).done(); }
static void say_graph(const cler::FlowGraph& g) { std::vector<std::string> bl, co; for (auto& [n, b] : g.blocks) { std::vector<std::string> i, o; for (auto& x : b.inputs) i.push_back(q(x)); for (auto& x : b.outputs) o.push_back(q(x)); bl.push_back(lst({q(n), q(b.name), q(b.type), q(b.template_params), b.in_flowgraph ? "true" : "false", lst(i), lst(o), std::to_string(b.line), b.is_source() ? "true" : "false", b.is_sink() ? "true" : "false"})); }
    for (auto& c : g.connections) co.push_back(lst({q(c.source_block), q(c.source_channel), q(c.target_block), q(c.target_channel), std::to_string(c.channel_index)}));
    E("graph").s("name", g.name).t("valid", g.is_valid).s("err", g.error_message).sa("warn", g.warnings).raw("blocks", lst(bl)).raw("conns", lst(co)).i("trees", g_live).done(); }
static void parse(long id) {
    Rng r(g_seed * 7919 + id); E("reset").i("id", id).s("k", "parse").done(); std::string dir = r.chance(0.7) ? "LR" : "TD", fence = r.chance(0.7) ? "backticks" : r.chance(0.5) ? "colons" : "none"; { cler::CppParser ps; cler::MermaidRenderer rd(dir, fence); if (dir == "LR" && fence == "backticks") rd = cler::MermaidRenderer();
    for (int k = 0; k < 4; ++k) { Prog p = program(r, r.chance(0.25)); std::string f = std::string(r.chance(0.3) ? "dir/sub/" : "") + "prog" + std::to_string(k), file = f + (r.chance(0.8) ? ".cpp" : ".cc"); g_trees.clear(); bool lost = r.chance(0.05); if (!lost) g_trees[p.t.text] = &p.t;
        std::string base = file.substr(file.rfind('/') == std::string::npos ? 0 : file.rfind('/') + 1); say_prog(p, base.substr(0, base.find(".cpp"))); E("screen").t("flow", cler::CppParser::is_flowgraph_file(p.t.text)).done();
        cler::FlowGraph g = ps.parse_file(p.t.text, file); if (lost) { E("noparse").t("valid", g.is_valid).t("said", !g.error_message.empty()).i("blocks", (long)g.blocks.size()).done(); continue; }
        say_graph(g); if (g.is_valid) { say_md(rd.render(g), dir, fence); if (r.chance(0.2)) { bool a = g.validate(); E("again").t("v", a && g.is_valid).sa("warn", g.warnings).done(); } } } } E("end").i("trees", g_live).i("parsers", g_parsers).done(); }
// ---------------------------------------------------------------- the tool
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void tool(long id) {
    Rng r(g_seed * 7919 + id); E("reset").i("id", id).s("k", "tool").done(); char d[] = "/tmp/diagXXXXXX"; if (!mkdtemp(d) || chdir(d)) return; g_trees.clear(); std::vector<Prog> P; P.reserve(8); std::vector<std::string> args{"tool"}; int n = 1 + (int)r.below(4); std::vector<std::string> outs; std::vector<std::string> files;
    bool verb = r.chance(0.4), named = n == 1 && r.chance(0.4), two = n > 1 && r.chance(0.05), junk = r.chance(0.05), help = r.chance(0.04); if (verb && r.chance(0.5)) args.push_back(r.chance(0.5) ? "-v" : "--verbose"), verb = true; else if (verb) args.insert(args.begin() + 1, "-v"); mkdir("sub.d", 0700);
    for (int i = 0; i < n; ++i) { P.push_back(program(r, r.chance(0.15))); Prog& p = P.back(); std::string kind = "ok"; if (r.chance(0.1)) kind = "noparse"; else if (r.chance(0.1)) kind = "missing"; else if (r.chance(0.1)) kind = "nowrite"; std::string base = "f" + std::to_string(i) + (r.chance(0.2) ? ".x" : ""), f = (r.chance(0.4) ? "sub.d/" : r.chance(0.3) ? "./" : "") + base + (r.chance(0.8) ? ".cpp" : ""); if (base.find('.') != std::string::npos && f.back() != 'p') f += ".cpp";
        std::string text = p.t.text + "\n// file " + std::to_string(i) + "\n"; p.t.text = text; p.t.n[0].b = (uint32_t)text.size(); if (kind != "noparse") g_trees[text] = &p.t; if (kind != "missing") { std::ofstream o(f); o << text; }
        std::string out = (named || two ? std::string("my.out") : base + "_flowgraph") + ".md"; if (kind == "nowrite") mkdir(out.c_str(), 0700); args.push_back(f); files.push_back(f); outs.push_back(out); say_prog(p, base); E("file").s("kind", kind).s("out", out).t("screen", text.find("BlockRunner") != std::string::npos || (text.find("make_") != std::string::npos && text.find("_flowgraph") != std::string::npos)).done(); }
    if (named || two) { args.push_back("-o"); args.push_back("my.out"); } if (junk) args.insert(args.begin() + 1 + r.below(args.size()), r.chance(0.5) ? "--what" : "-x"); if (help) { args.resize(1); args.push_back(r.chance(0.5) ? "-h" : "--help"); }
    std::vector<char*> av; for (auto& a : args) av.push_back(&a[0]); av.push_back(nullptr); bool o_at_junk = false; for (size_t i = 1; i + 1 < args.size(); ++i) if (args[i] == "-o" && args[i + 1][0] == '-') o_at_junk = true;
    fflush(stdout); int t1 = open("stdout.txt", O_CREAT | O_TRUNC | O_RDWR, 0600), o1 = dup(1), o2 = dup(2); dup2(t1, 1); int t2 = open("stderr.txt", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(t2, 2); int rc = tool_main((int)args.size(), av.data()); fflush(stdout); fflush(stderr); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); close(t1); close(t2);
    std::string so = slurp("stdout.txt"); auto num = [&](const char* k) { size_t p = so.find(k); return p == std::string::npos ? -1L : atol(so.c_str() + p + strlen(k)); };
    E("ran").i("rc", rc).t("refuse", junk || two || o_at_junk).t("help", help).t("sum", verb || n > 1).i("scanned", num("Files scanned: ")).i("skipped", num("Files skipped: ")).i("done", num("Succeeded: ")).i("failed", num("Failed: ")).done();
    std::set<std::string> known{"stdout.txt", "stderr.txt", "sub.d"}; for (auto& f : files) { size_t k = f.rfind('/'); known.insert(k == std::string::npos ? f : f.substr(k + 1)); } std::vector<std::string> made; std::function<void(std::string)> walk = [&](std::string at) { if (DIR* q = opendir(at.c_str())) { while (dirent* x = readdir(q)) { std::string m = x->d_name; if (m == "." || m == "..") continue; if (x->d_type == DT_DIR) { if (m == "sub.d") walk(m); continue; } if (!known.count(m)) made.push_back(m); } closedir(q); } }; walk(".");
    std::sort(made.begin(), made.end()); E("made").sa("files", made).done(); for (size_t i = 0; i < outs.size(); ++i) { std::set<std::string> s(made.begin(), made.end()); if (s.count(outs[i])) { E("which").i("i", (long)i + 1).done(); say_md(slurp(outs[i]), "LR", "backticks"); } }
    E("end").i("trees", g_live).i("parsers", g_parsers).done(); if (chdir("/")) return; std::string c = std::string("rm -rf ") + d; if (strncmp(d, "/tmp/diag", 9) == 0 && system(c.c_str())) {} }
int main(int c, char** v) { if (c < 6) return 2; g_mode = v[1]; g_seed = atoll(v[5]); std::string out = v[2]; if (out[0] != '/') { char w[4096]; out = std::string(getcwd(w, sizeof w)) + "/" + out; }
    return vlog::run_isolated(out.c_str(), atol(v[3]), atol(v[4]), [&](long id) { if (g_mode == "parse") parse(id); else tool(id); }, 60); }
