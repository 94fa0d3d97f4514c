#include "cmp.hpp"
namespace sim {
	SIM_CMP(r1, "variant<int,string>", ptl::variant<int, ptl::string>);
	SIM_CMP(r2, "variant<object,fold,string,double>", ptl::variant<Soft, Fold, ptl::string, double>);
	SIM_CMP(r3, "variant<padded>", ptl::variant<Padded>);
	SIM_CMP(r4, "array<optional<string>,2>", ptl::array<ptl::optional<ptl::string>, 2>);
	SIM_CMP(r5, "optional<vector<int>>", ptl::optional<ptl::vector<int>>);
}
