// Stand-in for the (absent) external/symdiff submodule: the interface that /repo/src uses.
#ifndef VERIF_ENGINEAPI_HH
#define VERIF_ENGINEAPI_HH
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace Eqo {
class EquationObject;
typedef std::shared_ptr<EquationObject> EqObjPtr;
}
namespace EngineAPI {
enum EqObjType { CONST_OBJ, VARIABLE_OBJ, MODEL_OBJ, ADD_OBJ, PRODUCT_OBJ, POW_OBJ, EXPONENT_OBJ, LOG_OBJ, USERFUNC_OBJ, ULOGICAL_OBJ, BLOGICAL_OBJ, IF_OBJ, IFELSE_OBJ };
typedef bool (*ModelListFn)(const std::string &);
typedef Eqo::EqObjPtr (*DerivFn)(Eqo::EqObjPtr, Eqo::EqObjPtr);
EqObjType getEnumeratedType(const Eqo::EqObjPtr &);
const std::string &getStringValue(const Eqo::EqObjPtr &);
const std::string &getName(const Eqo::EqObjPtr &);
double getDoubleValue(const Eqo::EqObjPtr &);
std::set<std::string> getReferencedType(const Eqo::EqObjPtr &, EqObjType);
std::vector<Eqo::EqObjPtr> getArgs(const Eqo::EqObjPtr &);
Eqo::EqObjPtr con(double);
Eqo::EqObjPtr mod(const std::string &);
void SetModelListCallBack(ModelListFn);
void SetDerivativeRule(DerivFn);
void ResetAllData();
}
#endif
