// the spellings of a UTF-8 subject
template <class R> std::vector<ref::result> positions(const R & r, const char8_t * b) {
	auto fill = [&](const auto & m) { ref::result o; o.ok = bool(m); if (o.ok) [&]<size_t... I>(std::index_sequence<I...>) { ((m.template get<I>() ? (void)(o.cap[I][0] = int(m.template get<I>().begin() - b), o.cap[I][1] = int(m.template get<I>().end() - b)) : void()), ...); }(std::make_index_sequence<std::remove_cvref_t<decltype(m)>::count()>{}); return o; };
	if constexpr (requires { bool(r); r.template get<0>(); }) return {fill(r)};
	else { std::vector<ref::result> l; for (auto && m: r) { l.push_back(fill(m)); if (l.size() > 40) break; } return l; }
}
inline void spell(unsigned maxlen) {
	const std::vector<std::string> pool{"a", "b", "\xc3\xa9", "\xf0\x9f\x98\x80", "\x80", "\xe2\x82", "\xf0\x9f", std::string(1, '\0'), "\n", "\xef\xbf\xbd", "\xc3"};
	std::string alphabet; for (size_t i = 0; i < pool.size(); ++i) alphabet += char(i);
	sp::model m(PATTERN);
	std::vector<std::u8string> texts; std::vector<ref::result> matches;
	sp::strings(alphabet, maxlen, [&](const std::string & idx) {
		std::string s; for (char c: idx) s += pool[size_t(c)];
		++sp::states; sp::hang(20);
		std::u8string own(s.begin(), s.end()); const std::u8string & cown = own; std::u8string_view v = own;
		const char8_t * zero = own.c_str(); std::u8string upto = zero;
		auto want = [&](int op, const std::u8string & t) {
			decoded d; decode(reinterpret_cast<const unsigned char *>(t.data()), int(t.size()), d);
			auto l = m.run_cps(op, std::vector<uint32_t>(d.cp, d.cp + d.n));
			for (auto & r: l) for (auto & c: r.cap) for (int & x: c) if (x >= 0) x = d.at[x];
			return l;
		};
		auto same = [&](int op, const char * how, const std::u8string & t, const auto & r) {
			++sp::execs; ++sp::steps;
			auto w = want(op, t), g = positions(r, v.data());
			if (!sp::same(w, g)) sp::dev(std::string(sp::opname[op]) + how, std::string(sp::opname[op]) + "<" + PATTERN + "> on \"" + sp::show(s) + "\" as " + how + ": expected " + sp::str(w, int(m.re.groups)) + ", got " + sp::str(g, int(m.re.groups)));
		};
		sp::at("%s of \"%s\"", PATTERN, sp::show(s).c_str());
#define ALL(OP, F, R) \
		same(OP, "u8string_view", own, ctre::F<PATTERN>(v)); same(OP, "u8string", own, ctre::F<PATTERN>(own)); same(OP, "const u8string", own, ctre::F<PATTERN>(cown)); same(OP, "UTF-8 C string", upto, ctre::F<PATTERN>(zero)); \
		same(OP, "exec", own, ctre::F<PATTERN>.exec(v)); same(OP, "method", own, ctre::match<PATTERN>.R(v)); same(OP, "u8 pattern", own, ctre::F<u8"" PATTERN>(v)); same(OP, "copy of the result", own, [](auto r) { return r; }(ctre::F<PATTERN>(v)));
		ALL(0, match, match) ALL(1, search, search) ALL(2, starts_with, starts_with) ALL(3, search_all, range) ALL(4, split, split) ALL(5, tokenize, tokenize)
		same(3, "subject | search_all", own, v | ctre::search_all<PATTERN>); same(4, "subject | split", own, v | ctre::split<PATTERN>); same(5, "subject | tokenize", own, v | ctre::tokenize<PATTERN>);
		texts.push_back(own);
	});
	// filtering a range of UTF-8 subjects
	std::vector<std::u8string_view> views(texts.begin(), texts.end());
	size_t n = 0, at = 0;
	auto expect = [&](size_t i) { decoded d; decode(reinterpret_cast<const unsigned char *>(texts[i].data()), int(texts[i].size()), d); return m.run_cps(1, std::vector<uint32_t>(d.cp, d.cp + d.n))[0].ok; };
	for (auto && r: views | ctre::search<PATTERN>) {
		++sp::execs;
		while (at < texts.size() && !expect(at)) ++at;
		if (at == texts.size()) { sp::dev("filter", std::string("range of UTF-8 subjects | search<" PATTERN ">: too many results")); break; }
		if (r.begin() < views[at].data() || r.end() > views[at].data() + views[at].size()) sp::dev("filter", "range of UTF-8 subjects | search<" PATTERN ">: another subject");
		++at; ++n;
	}
	while (at < texts.size() && !expect(at)) ++at;
	if (at != texts.size()) sp::dev("filter", "range of UTF-8 subjects | search<" PATTERN ">: too few results");
}
