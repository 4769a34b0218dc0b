#ifndef VERIF_PARSEEXPR_HH
#define VERIF_PARSEEXPR_HH
#include "EngineAPI.hh"
namespace EvalExpr {
typedef std::vector<std::string> error_t;
Eqo::EqObjPtr evaluateExpression(const std::string &, error_t &);
}
#endif
