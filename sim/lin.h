// Linearizability of a short history against a nondeterministic sequential model
// (Wing & Gong search with memoisation).
#pragma once
#include <cstdint>
#include <string>
#include <unordered_set>
#include <vector>
namespace lin {
// Model: struct State {...; std::string key() const;}, std::vector<State> step(const State&, const Op&)
template <class Op> struct Rec { Op op; uint64_t inv, ret; };
template <class State, class Op, class Step>
struct Checker {
	const std::vector<Rec<Op>> &h; Step step; std::unordered_set<std::string> seen; uint64_t work = 0, budget; size_t best = 0;
	Checker(const std::vector<Rec<Op>> &h_, Step s, uint64_t b) : h(h_), step(s), budget(b) {}
	// 1 linearizable, 0 not, -1 budget exhausted
	int go(const State &st, uint64_t mask) {
		if (mask == ((h.size() == 64) ? ~0ull : ((1ull << h.size()) - 1))) return 1;
		if (++work > budget) return -1;
		std::string k = std::to_string(mask) + "|" + st.key();
		if (!seen.insert(k).second) return 0;
		uint64_t minRet = ~0ull;
		for (size_t i = 0; i < h.size(); i++) if (!(mask >> i & 1) && h[i].ret < minRet) minRet = h[i].ret;
		bool ex = false;
		for (size_t i = 0; i < h.size(); i++) {
			if (mask >> i & 1 || h[i].inv > minRet) continue;
			for (auto &n : step(st, h[i].op)) {
				int r = go(n, mask | 1ull << i);
				if (r == 1) return 1;
				if (r < 0) ex = true;
			}
		}
		if ((size_t)__builtin_popcountll(mask) > best) best = (size_t)__builtin_popcountll(mask);
		return ex ? -1 : 0;
	}
};
template <class State, class Op, class Step>
int check(const State &init, const std::vector<Rec<Op>> &h, Step step, uint64_t budget, size_t *best = nullptr) {
	if (h.size() > 62) return -1;
	Checker<State, Op, Step> c(h, step, budget);
	int r = c.go(init, 0);
	if (best) *best = c.best;
	return r;
}
}
