// Small Wing&Gong style linearizability search with memoisation.
#pragma once
#include "vrt.h"
namespace h {
	// Model must be copyable, have `bool operator==` via key() (returns std::string) and
	// `void apply(const Op&, std::vector<Model>& out)` appending every legal successor.
	template<typename Model, typename Op>
	class Linear {
	public:
		struct Rec {
			Op op;
			uint64_t inv, ret; // ret = UINT64_MAX: still pending (may or may not have taken effect)
		};
		std::vector<Rec> ops;
		uint64_t budget = 400000;
		// 1 linearizable, 0 not, -1 budget exhausted
		int check(const Model& m0) {
			n = ops.size();
			if (n > 62) return -1;
			seen.clear();
			nodes = 0;
			bool r = dfs(0, m0);
			if (r) return 1;
			return nodes >= budget ? -1 : 0;
		}

	private:
		std::size_t n = 0;
		uint64_t nodes = 0;
		std::set<std::pair<uint64_t, std::string>> seen;
		bool dfs(uint64_t done, const Model& m) {
			if (nodes++ >= budget) return false;
			// finished when every completed op is linearized
			bool all = true;
			uint64_t minret = UINT64_MAX;
			for (std::size_t i = 0; i < n; i++)
				if (!(done >> i & 1)) {
					if (ops[i].ret != UINT64_MAX) all = false;
					minret = std::min(minret, ops[i].ret);
				}
			if (all && m.final_ok()) return true;
			if (!seen.insert({done, m.key()}).second) return false;
			for (std::size_t i = 0; i < n; i++) {
				if (done >> i & 1) continue;
				if (ops[i].inv > minret) continue; // some other op returned before this one began
				std::vector<Model> next;
				m.apply(ops[i].op, next);
				for (auto& x : next)
					if (dfs(done | 1ull << i, x)) return true;
			}
			return false;
		}
	};
} // namespace h
