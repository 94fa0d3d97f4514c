#include "odd.hpp"
#define VIEW_E Amp<5>
#define VIEW_NAME "odd:view"
#include "view.hpp"
