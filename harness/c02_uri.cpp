// C02: URI parsing, percent-decoding and value semantics against RFC 3986.
#include "util.hpp"
using namespace fastgltf;
using std::string; using std::string_view;

// ---- reference: RFC 3986 appendix B split, authority split, component-wise percent-decoding ---------------------
struct Ref { bool valid = true; string scheme, userinfo, host, port, path, query, fragment, whole; };
static bool xd(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int xv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static string dec(const string& s) {
	string r;
	for (size_t i = 0; i < s.size();) {
		if (s[i] == '%' && i + 2 < s.size() && xd(s[i + 1]) && xd(s[i + 2])) { r += char(xv(s[i + 1]) * 16 + xv(s[i + 2])); i += 3; }
		else r += s[i++];
	}
	return r;
}
static Ref refParse(const string& s) {
	Ref r; r.whole = s;
	if (s.empty()) { r.valid = false; return r; }
	size_t i = 0, e = s.find_first_of(":/?#");
	if (e != string::npos && s[e] == ':') {
		if (e == 0) { r.valid = false; return r; }
		r.scheme = s.substr(0, e); i = e + 1;
	}
	if (s.compare(i, 2, "//") == 0) {
		i += 2;
		size_t end = i; while (end < s.size() && !strchr("/?#", s[end])) ++end;
		string auth = s.substr(i, end - i); i = end;
		auto at = auth.find('@');
		if (at != string::npos) { r.userinfo = auth.substr(0, at); auth = auth.substr(at + 1); }
		if (!auth.empty() && auth[0] == '[') {
			auto close = auth.find(']');
			if (close == string::npos) { r.valid = false; return r; }
			r.host = auth.substr(1, close - 1);
			auto c = auth.find(':', close); if (c != string::npos) r.port = auth.substr(c + 1);
		} else {
			auto c = auth.find(':');
			r.host = auth.substr(0, c); if (c != string::npos) r.port = auth.substr(c + 1);
		}
	}
	if (r.scheme == "data") { r.path = s.substr(i); return r; }
	auto h = s.find('#', i);
	string rest = s.substr(i, h == string::npos ? h : h - i);
	if (h != string::npos) r.fragment = s.substr(h + 1);
	auto q = rest.find('?');
	r.path = rest.substr(0, q); if (q != string::npos) r.query = rest.substr(q + 1);
	return r;
}
static Ref refDecoded(const string& s) {
	Ref r = refParse(s);
	for (auto* p : {&r.scheme, &r.userinfo, &r.host, &r.port, &r.path, &r.query, &r.fragment, &r.whole}) *p = dec(*p);
	return r;
}
template <typename U> static string diff(const U& u, const Ref& r, bool strict = true) {
	if (u.valid() != r.valid) return mc::fmt("valid=%d expected %d", u.valid(), r.valid);
	if (u.string() != r.whole) return "string '" + string(u.string()) + "' expected '" + r.whole + "'";
	if (!r.valid) return "";
	struct { const char* n; string_view got; const string* want; } f[] = {
		{"scheme", u.scheme(), &r.scheme}, {"userinfo", u.userinfo(), &r.userinfo}, {"host", u.host(), &r.host}, {"port", u.port(), &r.port},
		{"path", u.path(), &r.path}, {"query", u.query(), &r.query}, {"fragment", u.fragment(), &r.fragment}};
	auto whole = u.string();
	for (auto& x : f) {
		if (!x.got.empty() && (x.got.data() < whole.data() || x.got.data() + x.got.size() > whole.data() + whole.size())) return string(x.n) + " does not point into the URI's own string";
		if (x.got != *x.want) return string(x.n) + " '" + string(x.got) + "' expected '" + *x.want + "'";
	}
	if (u.isDataUri() != (r.scheme == "data")) return "isDataUri";
	bool local = r.scheme.empty() || (r.scheme == "file" && r.host.empty());
	if (u.isLocalPath() != local) return mc::fmt("isLocalPath=%d expected %d", u.isLocalPath(), local);
	(void)strict;
	return "";
}
static string key(const char* what, const string& d) { return string("uri:") + what + ":" + d.substr(0, d.find_first_of(" =")); }

// one string through every constructor
static void checkString(const string& s) {
	Exact mem(s.data(), s.size());
	Ref raw = refParse(s), d = refDecoded(s);
	mc::state(mc::hash(s)); mc::step(5);
	mc::outcome(mc::hash(mc::fmt("%d%d%d%d%d%d%d%d", raw.valid, raw.scheme.empty(), raw.userinfo.empty(), raw.host.empty(), raw.port.empty(), raw.path.empty(), raw.query.empty(), raw.fragment.empty())));
	auto rep = [&](const char* w, const string& m) { if (!m.empty()) mc::fail(key(w, m), "'" + s + "': " + m); };
	URIView v(mem.sv()); rep("view", diff(v, raw));
	URIView v2; v2 = mem.sv(); rep("view-assign", diff(v2, raw));
	URI a(string(mem.sv())); rep("from-string", diff(a, d));
	URI b(mem.sv()); rep("from-string_view", diff(b, d));
	URI c(v); rep("from-URIView", diff(c, d));
	string x = s; URI::decodePercents(x); if (x != d.whole) mc::fail("uri:decodePercents", s + " -> " + x + " expected " + d.whole);
	if (raw.valid && d.valid && (d.scheme.empty() || d.scheme == "file")) {
		string want = c.isLocalPath() ? d.path : "";
		if (want.find('\0') == string::npos && c.fspath().string() != want) mc::fail("uri:fspath", s);
	}
}

static const char* TOK[] = {"a", ":", "/", "?", "#", "@", "[", "]", "%", "4", "1", "//", "data", "file", ".bin", "\xC3\xA8", " "};
static const char* SEED[] = {"", "a", "tex.png", "a b/c.bin", "http://host/p?q#f", "data:image/png;base64,AAAA", "%61%2Fb%3f", "scheme:long-long-long-long-long-path/x",
	"//u@h:80/p", "http://[::1", "file:/abs/olute/path/that/is/long.bin", "?only", "#frag", ":bad", "x%zz"};

struct Obj { URI u; Ref r; };
static void sequences() {
	const unsigned N = sizeof(SEED) / sizeof(*SEED);
	unsigned depth = mc::thorough() ? 5 : 4;
	Obj o[2]; // default-constructed
	for (auto& x : o) { x.r = Ref(); x.r.valid = true; }
	string hist;
	for (unsigned k = 0; k < depth; ++k) {
		unsigned op = mc::choose(7);
		unsigned i = mc::choose(2);
		unsigned j = 1 - i;
		string s;
		if (op <= 1) { unsigned lim = k == 0 || mc::thorough() ? N : 8; s = SEED[mc::choose(lim)]; }
		if (k == 1 && !mc::mine()) return;
		hist += mc::fmt(" %u:%u:%s", op, i, s.c_str());
		mc::step();
		switch (op) {
			case 0: { Exact m(s.data(), s.size()); o[i].u = URI(m.sv()); o[i].r = refDecoded(s); break; }       // move-assign from a temporary
			case 1: { Exact m(s.data(), s.size()); URIView v(m.sv()); o[i].u = v; o[i].r = refDecoded(s); break; }  // assign from a view
			case 2: o[i].u = o[j].u; o[i].r = o[j].r; break;
			case 3: o[i].u = std::move(o[j].u); o[i].r = o[j].r; o[j].u = URI(string_view("reset")); o[j].r = refDecoded("reset"); break;
			case 4: { URI t(o[j].u); o[i].u = URI(string_view("zz")); o[i].u = t; o[i].r = o[j].r; break; }
			case 5: { // through move construction, a growing vector and back
				std::vector<URI> v; v.push_back(std::move(o[j].u)); Ref moved = o[j].r;
				o[j].u = URI(string_view("other/very/long/path/that/reallocates.bin")); o[j].r = refDecoded("other/very/long/path/that/reallocates.bin");
				v.emplace_back(string_view("filler")); v.emplace_back(string_view("x"));
				o[i].u = std::move(v[0]); o[i].r = moved; break; }
			default: { const URI& self = o[i].u; o[i].u = self; break; }
		}
		for (unsigned x = 0; x < 2; ++x) {
			string d = diff(o[x].u, o[x].r);
			if (!d.empty()) { mc::fail(key("sequence", d) + mc::fmt(":op%u", op), hist + " object " + std::to_string(x) + ": " + d); return; }
		}
		mc::state(mc::hash("S" + string(o[0].u.string()) + "|" + string(o[1].u.string()) + mc::fmt("%d%d", o[0].u.valid(), o[1].u.valid())));
	}
	mc::note("sequence%s", hist.c_str());
}

static void model() {
	if (mc::choose(2) == 0) {   // every token string up to a length
		unsigned depth = mc::thorough() ? 6 : 5;
		unsigned T = sizeof(TOK) / sizeof(*TOK);
		unsigned a = mc::choose(T + 1), b = mc::choose(T + 1);
		if (a == T && b != 0) return;
		if (!mc::mine()) return;
		mc::context("uri");
		string base = a == T ? "" : TOK[a];
		std::vector<string> level{base};
		if (b != T && a != T) level = {base + TOK[b]};
		mc::note("all token strings starting with '%s' up to %u tokens", level[0].c_str(), depth);
		checkString(level[0]);
		if (a == T || b == T) return;
		std::vector<unsigned> idx;
		// depth-first over the remaining tokens
		struct Rec { static void go(const string& s, unsigned left, unsigned T) { for (unsigned t = 0; t < T; ++t) { string n = s + TOK[t]; checkString(n); if (left > 1) go(n, left - 1, T); } } };
		Rec::go(level[0], depth - 2, T);
	} else { mc::context("uri-sequence"); sequences(); }
}
MC_MAIN(model)
