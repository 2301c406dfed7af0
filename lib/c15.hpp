// The compiler as the judge: in constant evaluation every read outside of the subject and every position formed
// outside of it is an error. Each subject is an allocation of exactly its size.
#include <ctre.hpp>
#include "special.hpp"
struct tally { unsigned long long subjects = 0, found = 0, sum = 0; };
template <class S, class F> constexpr tally every(const S & alphabet, unsigned maxlen, bool terminated, F f) {
	using C = typename S::value_type;
	tally t;
	for (unsigned len = 0; len <= maxlen; ++len) {
		unsigned idx[8] = {};
		while (true) {
			C * p = new C[len + (terminated ? 1u : 0u)];
			for (unsigned j = 0; j < len; ++j) p[j] = alphabet[idx[j]];
			if (terminated) p[len] = C(0);
			f(static_cast<const C *>(p), size_t(len), t);
			++t.subjects;
			delete[] p;
			int j = int(len) - 1;
			while (j >= 0 && ++idx[j] == alphabet.size()) idx[j--] = 0;
			if (j < 0) break;
		}
	}
	return t;
}
template <class R, class P> constexpr void note(const R & r, const P * b, tally & t) {
	if (!r) return;
	++t.found;
	[&]<size_t... I>(std::index_sequence<I...>) { ((r.template get<I>() ? void(t.sum += size_t(std::to_address(r.template get<I>().begin()) - b) + size_t(std::to_address(r.template get<I>().end()) - b)) : void()), ...); }(std::make_index_sequence<R::count()>{});
}
template <class R, class P> constexpr void notes(R && r, const P * b, tally & t) { unsigned n = 0; for (auto && m: r) { note(m, b, t); if (++n > 20) throw "does not end"; } }
