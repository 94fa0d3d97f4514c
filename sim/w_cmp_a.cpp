#include "cmp.hpp"
namespace sim {
	SIM_CMP(r1, "string", ptl::string);
	SIM_CMP(r2, "string_ref", RefBox);
	SIM_CMP(r3, "optional<int>", ptl::optional<int>);
	SIM_CMP(r4, "optional<string>", ptl::optional<ptl::string>);
	SIM_CMP(r5, "optional<object>", ptl::optional<Soft>);
	SIM_CMP(r6, "optional<fold>", ptl::optional<Fold>);
}
