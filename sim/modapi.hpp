// What a separately built module offers to the simulator, and the types that cross module boundaries.
#pragma once
#include <cstddef>
namespace modapi {
	struct Host { void * (*alloc)(int module, std::size_t size, int kind); void (*free)(int module, void * ptr, int kind, std::size_t size); std::size_t (*size)(void * ptr); };
	enum Code : int { OK, NO_MEMORY, TOO_LONG, OUT_OF_RANGE, OTHER };
	enum Op : unsigned { CONSTRUCT, COPY_CTOR, MOVE_CTOR, COPY_ASSIGN, MOVE_ASSIGN, SWAP, MUTATE, COMPARE, PEEK, OWN, MORE }; // OWN: n = part, alt = number of parts
	struct Call { unsigned op, a, b; int v; const int * vals; unsigned n; void * other; const void * at; unsigned alt; int out[8]; };
	struct Type { const char * name; std::size_t size, align; int (*run)(void *, Call &); int (*read)(const void *, int *, int); void (*destroy)(void *); };
	struct Api { int ntypes; const Type * types; void (*init)(const Host *, int id); };
	struct Rec { char tag; short half; int v; };
	enum Fam : int { VEC, STR, OPT, VAR, ARR, TUP, BITS, SREF, AREF, CREF, OREF, VREF, FREF };
	// name, family, number of parts, value of a default-created element
	struct Desc { const char * name; Fam fam; unsigned n; int fill; };
	constexpr Desc descs[]{
		{"vector<int>", VEC, 0, 0}, {"vector<rec>", VEC, 0, 0}, {"vector<string>", VEC, 0, -1}, {"vector<vector>", VEC, 0, -1}, {"string", STR, 0, 0},
		{"optional<int>", OPT, 0, 0}, {"optional<string>", OPT, 0, 0}, {"optional<vector>", OPT, 0, 0}, {"optional<char>", OPT, 0, 0}, {"variant<4>", VAR, 4, 0}, {"variant<2>", VAR, 2, 0},
		{"array<int,3>", ARR, 3, 0}, {"array<string,2>", ARR, 2, 0}, {"tuple<3>", TUP, 3, 0}, {"bitset<13>", BITS, 13, 0}, {"bitset<70>", BITS, 70, 0},
		{"string_ref", SREF, 0, 0}, {"array_ref<int>", AREF, 0, 0}, {"array_ref<const>", CREF, 0, 0}, {"optional_ref", OREF, 0, 0}, {"variant_ref", VREF, 0, 0}, {"function_ref", FREF, 0, 0},
	};
	constexpr int ntypes{static_cast<int>(sizeof descs / sizeof *descs)};
	constexpr unsigned vec_ops{13}, str_ops{14}, opt_ops{5}, var_ops{4}, arr_ops{3}, tup_ops{2}, bit_ops{5};
	constexpr int target_result(int module, unsigned target, int x) { return target == 0 ? x * 3 + module * 1000 : target == 1 ? x + 7 + module * 2000 : x * x - module; }
}
