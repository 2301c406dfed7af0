// Filtering ranges of subjects: every sequence of up to LEN subjects x operation x container x iterator history.
#include <ctre.hpp>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include "special.hpp"
using sp::model;
struct want { size_t index; ref::result r; };
// position of a group inside its subject, whatever the subject's type is
template <class S> auto first_of(const S & s) { return std::begin(s); }
inline const char * first_of(const char * s) { return s; }
struct run {
	const std::vector<want> & w; const char * broken = nullptr; unsigned long long hist = 0;
	template <class It, class Subj> bool value(const It & it, size_t k, const Subj & subj) {
		const auto & r = *it;
		if (!r) { broken = "a result that did not match"; return false; }
		auto b = first_of(subj[w[k].index]);
		if (&r != &*it || it->begin() != r.begin()) { broken = "-> and * differ"; return false; }
		if (!sp::same(sp::take(r, b), w[k].r)) { broken = "another result than the subject alone gives"; return false; }
		return true;
	}
	template <class It, class End, class Subj> void go(It it, const End & end, size_t k, const Subj & subj, unsigned depth) {
		bool fin = k == w.size();
		++hist;
		if ((it == end) != fin || (end == it) != fin || (it != end) == fin || (end != it) == fin) { broken = fin ? "the end is not recognised" : "ends too early"; return; }
		if (fin || !value(it, k, subj)) return;
		It copy = it;
		if (!(copy == it) || copy != it) { broken = "a copy differs from its original"; return; }
		It & self = ++copy;
		if (&self != &copy) { broken = "++ does not return the iterator"; return; }
		if (copy == it || !(copy != it)) { broken = "advanced iterator equal to the previous one"; return; }
		if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<decltype(it.first)>::iterator_category>)
			if (!(it < copy) || !(it <= copy) || it > copy || it >= copy || !(copy > it) || !(copy >= it) || !(it <= it) || !(it >= it) || it < it || it > it) { broken = "ordering of iterators"; return; }
		if (!value(it, k, subj)) return;
		go(copy, end, k + 1, subj, depth ? depth - 1 : 0);
		if (broken || !depth) return;
		It assigned = it; assigned = copy; // the copy was passed by value: still at k + 1
		if (!(assigned == copy)) { broken = "assignment"; return; }
		It prev = it++;
		if (!(it == copy)) { broken = "it++ and ++it lead to different places"; return; }
		if (!value(prev, k, subj)) return;
		go(it, end, k + 1, subj, depth - 1);
	}
};
template <class Range, class Subj> void check(const std::string & key, const std::string & what, Range && rg, const Subj & subj, const std::vector<want> & w) {
	run r{w};
	++sp::states; sp::execs += subj.size();
	sp::at("%s", what.c_str());
	size_t n = 0;
	for (const auto & m: rg) { // as a user walks it
		if (n == w.size()) { r.broken = "more results than matching subjects"; break; }
		if (!m || !sp::same(sp::take(m, first_of(subj[w[n].index])), w[n].r)) { r.broken = "another result than the subject alone gives"; break; }
		++n;
	}
	if (!r.broken && n != w.size()) r.broken = "fewer results than matching subjects";
	if (!r.broken) { if (!(rg.begin() == rg.begin())) r.broken = "two beginnings differ"; else r.go(rg.begin(), rg.end(), 0, subj, 3); }
	sp::extra["histories"] += r.hist; sp::steps += r.hist;
	if (r.broken) sp::dev(key, what + ": " + r.broken);
}
template <class RE> void all(const std::string & name, RE re, const char * pattern, unsigned flags, int op, const std::vector<std::string> & pool, unsigned maxlen, bool wide) {
	model m(pattern, flags);
	std::vector<ref::result> alone;
	for (auto & s: pool) alone.push_back(m.run(op, s)[0]);
	std::string alphabet; for (size_t i = 0; i < pool.size(); ++i) alphabet += char('0' + i);
	sp::strings(alphabet, maxlen, [&](const std::string & seq) {
		std::vector<std::string> own; std::vector<want> w;
		for (size_t i = 0; i < seq.size(); ++i) { own.push_back(pool[size_t(seq[i] - '0')]); if (alone[size_t(seq[i] - '0')].ok) w.push_back({i, alone[size_t(seq[i] - '0')]}); }
		std::string what = name + " of {"; for (auto & s: own) what += '"' + sp::show(s) + "\" "; what += "}";
		std::vector<std::string_view> views(own.begin(), own.end());
		sp::hang(20);
		check(name, what + " as vector<string_view>", views | re, views, w);
		if (!wide && seq.size() > 2) return;
		const auto & cviews = views; const auto & cown = own;
		std::list<std::string_view> list(own.begin(), own.end());
		std::forward_list<std::string_view> fl(own.begin(), own.end());
		std::deque<std::string_view> dq(own.begin(), own.end());
		std::vector<const char *> cstr; for (auto & s: own) cstr.push_back(s.c_str());
		check(name, what + " as const vector<string_view>", cviews | re, views, w);
		check(name, what + " as vector<string>", own | re, own, w);
		check(name, what + " as const vector<string>", cown | re, cown, w);
		check(name, what + " as list<string_view>", list | re, views, w);
		check(name, what + " as forward_list<string_view>", fl | re, views, w);
		check(name, what + " as deque<string_view>", dq | re, views, w);
		check(name, what + " as vector<const char *>", cstr | re, cstr, w);
		check(name, what + " as temporary vector<string_view>", std::vector<std::string_view>(views) | re, views, w);
		{ auto x = re.multi_exec(views); auto y = x; check(name, what + " as copy of the range", y, views, w); }
		if (seq.size() == 3) { std::array<std::string_view, 3> a{views[0], views[1], views[2]}; check(name, what + " as array", a | re, views, w); }
	});
}
// subjects that are results of splitting or searching themselves
template <class RE> void nested(const std::string & name, RE re, const char * pattern, unsigned flags, int op, unsigned maxlen) {
	model m(pattern, flags), comma(","), words("[^,]+");
	sp::strings(std::string("ab,"), maxlen, [&](const std::string & text) {
		for (int k = 0; k < 2; ++k) {
			auto pieces = (k ? words : comma).run(k ? model::search_all : model::split, text);
			std::vector<std::string_view> subj; std::vector<want> w;
			for (auto & p: pieces) { subj.push_back(std::string_view(text).substr(size_t(p.cap[0][0]), size_t(p.cap[0][1] - p.cap[0][0]))); auto r = m.run(op, subj.back())[0]; if (r.ok) w.push_back({subj.size() - 1, r}); }
			++sp::states;
			std::string what = (k ? "words" : "pieces") + std::string(" of \"") + text + "\" through " + name;
			sp::at("%s", what.c_str()); sp::hang(20);
			size_t n = 0; const char * bad = nullptr;
			auto walk = [&](auto && rg) {
				for (auto it = rg.begin(); it != rg.end(); ++it) {
					++sp::execs; ++sp::steps;
					if (n == w.size()) { bad = "too many results"; break; }
					auto x = sp::take(*it, subj[w[n].index].data());
					if (!sp::same(x, w[n].r)) { bad = "another result"; break; }
					++n;
				}
			};
			const char * b = text.data(); 
			std::vector<std::string_view> dummy; (void)b; (void)dummy;
			auto sv = std::string_view(text);
			if (k) walk(RE_WORDS(sv) | re); else walk(RE_COMMA(sv) | re);
			if (!bad && n != w.size()) bad = "too few results";
			if (bad) sp::dev(name, what + ": " + bad);
		}
	});
}
