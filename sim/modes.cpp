// What is generated and what counts, per property.
#include "core.hpp"

namespace sim {
	constexpr u32 DEADLY{bit(CRASH) | bit(TERMINATE) | bit(HANG)};
	constexpr u32 MEMFAULTS{(1u << F_ALLOC) | (1u << F_OOM)}, ELEM{1u << F_ELEM}, ITER{1u << F_ITER}, STREAMF{1u << F_STREAM}, ALLF{0xffffffffu};
	const Mode modes[]{
		{"C01", DEADLY | bit(VALUE) | bit(ATOMIC), "vec", 50, ALLF, 0, 480000, 20000000, "", ""},
		{"C02", DEADLY | bit(LIFETIME) | bit(MEMORY), "vec", 50, ALLF, 0, 480000, 20000000, "", ""},
		{"C03", DEADLY | bit(PROMISE), "vec,str", 50, ALLF, M_OOM_BURST, 480000, 20000000, "push,emplace,insert,append,add_,resize,reserve,erase,pop,clear", ""},
		{"C04", DEADLY | bit(VALUE) | bit(ATOMIC), "str", 50, ALLF, 0, 400000, 10000000, "", ""},
		{"C05", DEADLY | bit(FORM) | bit(MEMORY), "str", 50, ALLF, 0, 400000, 10000000, "", ""},
		{"C06", DEADLY | bit(NOFAIL) | bit(FORM) | bit(MEMORY), "vec,str", 50, MEMFAULTS, M_HUGE | M_OOM_BURST, 400000, 10000000, "huge,ctor,shrink,swap,move,erase,clear,pop,resize", ""},
		{"C07", DEADLY | bit(VALUE) | bit(ATOMIC) | bit(LIFETIME) | bit(MEMORY) | bit(NOFAIL), "opt", 50, MEMFAULTS | ELEM, 0, 1600000, 20000000, "", ""},
		{"C08", DEADLY | bit(VALUE) | bit(ATOMIC) | bit(LIFETIME) | bit(MEMORY) | bit(NOFAIL), "var", 50, MEMFAULTS | ELEM, 0, 1200000, 10000000, "", ""},
		{"C09", DEADLY | bit(VALUE) | bit(ATOMIC) | bit(LIFETIME) | bit(MEMORY) | bit(NOFAIL), "arr,tup", 50, MEMFAULTS | ELEM, 0, 1400000, 20000000, "", ""},
		{"C10", DEADLY | bit(STREAM), "in", 50, STREAMF, 0, 600000, 20000000, "", ""},
		{"C11", DEADLY | bit(STREAM), "out", 50, STREAMF, 0, 1000000, 20000000, "", ""},
		{"C12", DEADLY | bit(ABI), "mod", 35, MEMFAULTS, 0, 2000000, 20000000, "", ""},
		{"C13", DEADLY | bit(OWNER) | bit(MEMORY), "mod:vector,mod:string,mod:optional<string>,mod:optional<vector>,mod:variant<4>,mod:array<string,mod:tuple", 50, MEMFAULTS, M_OOM_BURST, 1800000, 20000000, "", ""},
		{"C14", DEADLY | bit(RACE) | bit(INTERFERE), "thr:own", 35, MEMFAULTS, 0, 280000, 10000000, "", ""},
		{"C15", DEADLY | bit(RACE) | bit(INTERFERE), "thr:shared", 35, MEMFAULTS, 0, 300000, 10000000, "", ""},
		{"C16", DEADLY | bit(DISPATCH) | bit(LIFETIME), "call", 50, ELEM | (1u << F_CALL), 0, 1000000, 20000000, "", ""},
		{"C17", DEADLY | bit(DISPATCH) | bit(LIFETIME), "vis", 50, ELEM | (1u << F_CALL), 0, 1000000, 20000000, "", ""},
		{"C18", DEADLY | bit(VIEW) | bit(VALUE) | bit(MEMORY), "view", 50, MEMFAULTS | ELEM, 0, 1200000, 20000000, "", ""},
		{"C19", DEADLY | bit(VALUE) | bit(ATOMIC) | bit(LIFETIME) | bit(MEMORY) | bit(FORM), "vec,str,opt,var", 50, ALLF, 0, 900000, 20000000, "self_,copy_assign,swap,reserve,resize,ctor", "", "self_"},
		{"C20", DEADLY | bit(VALUE) | bit(ATOMIC) | bit(LIFETIME) | bit(MEMORY) | bit(FORM) | bit(NOFAIL), "hand", 50, MEMFAULTS | ELEM, M_OOM_BURST, 450000, 20000000, "", "", "move,swap,self_,use_,end-of-run"},
		{"C21", DEADLY | bit(WORK), "work", 35, MEMFAULTS | ELEM | ITER, 0, 320000, 20000000, "", ""},
		{"C22", DEADLY | bit(VALUE) | bit(ATOMIC) | bit(LIFETIME) | bit(MEMORY) | bit(VIEW) | bit(ALIGN), "odd", 50, ALLF, 0, 900000, 20000000, "", ""},
		{"C23", DEADLY | bit(VALUE) | bit(ATOMIC) | bit(LIFETIME) | bit(MEMORY) | bit(NOFAIL), "give", 50, MEMFAULTS | ELEM, M_OOM_BURST, 600000, 20000000, "", ""},
		{"C24", DEADLY | bit(SOURCE) | bit(VALUE), "src", 50, ALLF, 0, 600000, 20000000, "", ""},
		{"C30", DEADLY | bit(VALUE), "cmp", 35, MEMFAULTS | ELEM, 0, 1500000, 20000000, "", ""},
		{"C31", DEADLY | bit(VALUE), "bits", 50, MEMFAULTS | STREAMF, 0, 600000, 20000000, "", ""},
		{"C33", DEADLY | bit(VIEW), "iter", 35, MEMFAULTS | ELEM, 0, 1500000, 20000000, "", ""},
	};
	const int nmodes{static_cast<int>(sizeof modes / sizeof *modes)};
}
