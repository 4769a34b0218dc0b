// Minimal independent implementation of the symbolic engine interface DEVSIM links against
// (the real external/symdiff submodule is not available offline).  Written from the way
// /repo/src uses it and from the grammar in the manual; no code is shared with /repo.
#include "parseexpr.hh"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>

using EngineAPI::EqObjType;
using namespace EngineAPI;

namespace Eqo {
class EquationObject {
  public:
    EqObjType type;
    std::string name;     // variable/model/function name or operator
    double value = 0.0;
    std::vector<EqObjPtr> args;
    mutable std::string str;
};
}
using Eqo::EqObjPtr;
using Eqo::EquationObject;

namespace {
ModelListFn modelfn = nullptr;
DerivFn     derivfn = nullptr;

struct FuncDef {
  std::vector<std::string> params;
  bool defined = false;
  std::vector<EqObjPtr> derivs;
};
std::map<std::string, FuncDef> &functable() { static std::map<std::string, FuncDef> t; return t; }

EqObjPtr mk(EqObjType t, const std::string &nm, std::vector<EqObjPtr> a = {}, double v = 0.0)
{
  auto p = std::make_shared<EquationObject>();
  p->type = t; p->name = nm; p->args = std::move(a); p->value = v;
  return p;
}

std::string numstr(double v)
{
  char b[64];
  for (int prec = 6; prec <= 17; ++prec) { snprintf(b, sizeof b, "%.*g", prec, v); if (strtod(b, nullptr) == v) break; }
  return b;
}

bool isc(const EqObjPtr &p, double v) { return p->type == CONST_OBJ && p->value == v; }
bool isconst(const EqObjPtr &p) { return p->type == CONST_OBJ; }
EqObjPtr C(double v) { return mk(CONST_OBJ, "", {}, v); }

EqObjPtr add(std::vector<EqObjPtr> in)
{
  std::vector<EqObjPtr> out; double c = 0.0;
  for (auto &x : in)
  {
    if (x->type == ADD_OBJ) { for (auto &y : x->args) { if (isconst(y)) c += y->value; else out.push_back(y); } }
    else if (isconst(x)) c += x->value;
    else out.push_back(x);
  }
  if (c != 0.0 || out.empty()) out.push_back(C(c));
  if (out.size() == 1) return out[0];
  return mk(ADD_OBJ, "+", out);
}
EqObjPtr mul(std::vector<EqObjPtr> in)
{
  std::vector<EqObjPtr> out; double c = 1.0;
  for (auto &x : in)
  {
    if (x->type == PRODUCT_OBJ) { for (auto &y : x->args) { if (isconst(y)) c *= y->value; else out.push_back(y); } }
    else if (isconst(x)) c *= x->value;
    else out.push_back(x);
  }
  if (c == 0.0) return C(0.0);
  if (c != 1.0 || out.empty()) out.insert(out.begin(), C(c));
  if (out.size() == 1) return out[0];
  return mk(PRODUCT_OBJ, "*", out);
}
EqObjPtr pw(const EqObjPtr &b, const EqObjPtr &e)
{
  if (isc(e, 1.0)) return b;
  if (isconst(b) && isconst(e))
  {
    double v = std::pow(b->value, e->value);
    if (std::isfinite(v)) return C(v);
  }
  return mk(POW_OBJ, "pow", {b, e});
}

struct ParseError { std::string msg; };

EqObjPtr diff(const EqObjPtr &p, const EqObjPtr &v);
EqObjPtr subst(const EqObjPtr &p, const std::map<std::string, EqObjPtr> &m)
{
  if (p->type == VARIABLE_OBJ || p->type == MODEL_OBJ)
  {
    auto it = m.find(p->name);
    return it == m.end() ? p : it->second;
  }
  if (p->args.empty()) return p;
  std::vector<EqObjPtr> a;
  for (auto &x : p->args) a.push_back(subst(x, m));
  if (p->type == ADD_OBJ) return add(a);
  if (p->type == PRODUCT_OBJ) return mul(a);
  if (p->type == POW_OBJ) return pw(a[0], a[1]);
  return mk(p->type, p->name, a);
}

EqObjPtr diff(const EqObjPtr &p, const EqObjPtr &v)
{
  switch (p->type)
  {
    case CONST_OBJ: return C(0.0);
    case VARIABLE_OBJ: return C((v->name == p->name) ? 1.0 : 0.0);
    case MODEL_OBJ:
      if (derivfn) return derivfn(p, v);
      return C((v->name == p->name) ? 1.0 : 0.0);
    case ADD_OBJ: { std::vector<EqObjPtr> a; for (auto &x : p->args) a.push_back(diff(x, v)); return add(a); }
    case PRODUCT_OBJ:
    {
      std::vector<EqObjPtr> terms;
      for (size_t i = 0; i < p->args.size(); ++i)
      {
        std::vector<EqObjPtr> f = p->args;
        f[i] = diff(p->args[i], v);
        if (isc(f[i], 0.0)) continue;
        terms.push_back(mul(f));
      }
      return add(terms);
    }
    case POW_OBJ:
    {
      const EqObjPtr &b = p->args[0], &e = p->args[1];
      EqObjPtr db = diff(b, v), de = diff(e, v);
      std::vector<EqObjPtr> terms;
      if (!isc(db, 0.0)) terms.push_back(mul({e, pw(b, add({e, C(-1.0)})), db}));
      if (!isc(de, 0.0)) terms.push_back(mul({p, mk(LOG_OBJ, "log", {b}), de}));
      return add(terms);
    }
    case EXPONENT_OBJ: return mul({p, diff(p->args[0], v)});
    case LOG_OBJ: return mul({pw(p->args[0], C(-1.0)), diff(p->args[0], v)});
    case ULOGICAL_OBJ: case BLOGICAL_OBJ: return C(0.0);
    case IF_OBJ:
    {
      EqObjPtr d = diff(p->args[1], v);
      if (isc(d, 0.0)) return d;
      return mk(IF_OBJ, "if", {p->args[0], d});
    }
    case IFELSE_OBJ:
    {
      EqObjPtr d0 = diff(p->args[1], v), d1 = diff(p->args[2], v);
      if (isc(d0, 0.0) && isc(d1, 0.0)) return d0;
      return mk(IFELSE_OBJ, "ifelse", {p->args[0], d0, d1});
    }
    case USERFUNC_OBJ:
    {
      std::vector<EqObjPtr> terms;
      auto it = functable().find(p->name);
      for (size_t i = 0; i < p->args.size(); ++i)
      {
        EqObjPtr d = diff(p->args[i], v);
        if (isc(d, 0.0)) continue;
        if (it == functable().end() || !it->second.defined) throw ParseError{"Derivatives for function " + p->name + " not available"};
        std::map<std::string, EqObjPtr> m;
        for (size_t j = 0; j < p->args.size(); ++j) m[it->second.params[j]] = p->args[j];
        terms.push_back(mul({subst(it->second.derivs[i], m), d}));
      }
      return add(terms);
    }
  }
  return C(0.0);
}

struct Parser {
  const std::string &s; size_t i = 0;
  bool definition_ctx = false;
  Parser(const std::string &t) : s(t) {}
  void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
  bool peek(const char *t) { ws(); return s.compare(i, strlen(t), t) == 0; }
  bool eat(const char *t) { if (peek(t)) { i += strlen(t); return true; } return false; }
  void need(const char *t) { if (!eat(t)) throw ParseError{std::string("syntax error: expected '") + t + "' at position " + std::to_string(i) + " of \"" + s + "\""}; }
  std::string ident()
  {
    ws(); size_t b = i;
    if (i < s.size() && (isalpha((unsigned char)s[i]) || s[i] == '_' || (s[i] & 0x80)))
    {
      ++i;
      while (i < s.size())
      {
        char c = s[i];
        if (isalnum((unsigned char)c) || c == '_' || (c & 0x80)) ++i;
        else if ((c == '@' || c == ':' || c == '.') && i + 1 < s.size() && (isalnum((unsigned char)s[i+1]) || s[i+1] == '_' || (s[i+1] & 0x80))) ++i;
        else break;
      }
    }
    return s.substr(b, i - b);
  }
  EqObjPtr expr() { return lor(); }
  EqObjPtr lor() { EqObjPtr l = land(); while (eat("||")) { EqObjPtr r = land(); l = mk(BLOGICAL_OBJ, "||", {l, r}); } return l; }
  EqObjPtr land() { EqObjPtr l = eq(); while (eat("&&")) { EqObjPtr r = eq(); l = mk(BLOGICAL_OBJ, "&&", {l, r}); } return l; }
  EqObjPtr eq()
  {
    EqObjPtr l = rel();
    for (;;)
    {
      if (eat("==")) { EqObjPtr r = rel(); l = mk(BLOGICAL_OBJ, "==", {l, r}); }
      else if (eat("!=")) { EqObjPtr r = rel(); l = mk(BLOGICAL_OBJ, "!=", {l, r}); }
      else return l;
    }
  }
  EqObjPtr rel()
  {
    EqObjPtr l = sum();
    for (;;)
    {
      const char *op = peek("<=") ? "<=" : peek(">=") ? ">=" : peek("<") ? "<" : peek(">") ? ">" : nullptr;
      if (!op) return l;
      eat(op);
      EqObjPtr r = sum(); l = mk(BLOGICAL_OBJ, op, {l, r});
    }
  }
  EqObjPtr sum()
  {
    EqObjPtr l = prod();
    for (;;)
    {
      if (eat("+")) l = add({l, prod()});
      else if (eat("-")) l = add({l, mul({C(-1.0), prod()})});
      else return l;
    }
  }
  EqObjPtr prod()
  {
    EqObjPtr l = unary();
    for (;;)
    {
      if (eat("*")) l = mul({l, unary()});
      else if (eat("/"))
      {
        EqObjPtr r = unary();
        l = mul({l, pw(r, C(-1.0))});
      }
      else return l;
    }
  }
  EqObjPtr unary()
  {
    if (eat("-")) return mul({C(-1.0), unary()});
    if (eat("+")) return unary();
    ws();
    if (i < s.size() && s[i] == '!' && !(i + 1 < s.size() && s[i+1] == '=')) { ++i; return mk(ULOGICAL_OBJ, "!", {unary()}); }
    return power();
  }
  EqObjPtr power()
  {
    EqObjPtr b = primary();
    if (eat("^")) return pw(b, unary());   // right associative
    return b;
  }
  EqObjPtr primary()
  {
    ws();
    if (i >= s.size()) throw ParseError{"syntax error: unexpected end of \"" + s + "\""};
    if (eat("(")) { EqObjPtr e = expr(); need(")"); return e; }
    char c = s[i];
    if (isdigit((unsigned char)c) || (c == '.' && i + 1 < s.size() && isdigit((unsigned char)s[i+1])))
    {
      const char *b = s.c_str() + i; char *e = nullptr;
      double v = strtod(b, &e);
      i += e - b;
      return C(v);
    }
    if (i < s.size() && s[i] == '$') ++i;   // "$name" refers to the symbol name
    std::string id = ident();
    if (id.empty()) throw ParseError{"syntax error near position " + std::to_string(i) + " of \"" + s + "\""};
    if (peek("(")) return call(id);
    if (modelfn && modelfn(id)) return mk(MODEL_OBJ, id);
    return mk(VARIABLE_OBJ, id);
  }
  EqObjPtr call(const std::string &f)
  {
    need("(");
    if (f == "declare")
    {
      std::string g = ident(); need("(");
      FuncDef d;
      if (!peek(")")) do { d.params.push_back(ident()); } while (eat(","));
      need(")"); need(")");
      auto it = functable().find(g);
      if (it == functable().end() || it->second.params.size() != d.params.size()) functable()[g] = d;
      std::vector<EqObjPtr> a; for (auto &x : d.params) a.push_back(mk(VARIABLE_OBJ, x));
      return mk(USERFUNC_OBJ, g, a);
    }
    if (f == "define")
    {
      std::string g = ident(); need("(");
      FuncDef d; d.defined = true;
      do { d.params.push_back(ident()); } while (eat(","));
      need(")");
      FuncDef pre; pre.params = d.params;
      if (!functable().count(g)) functable()[g] = pre;
      while (eat(",")) d.derivs.push_back(expr());
      need(")");
      if (d.derivs.size() != d.params.size()) throw ParseError{"wrong number of derivatives for " + g};
      functable()[g] = d;
      std::vector<EqObjPtr> a; for (auto &x : d.params) a.push_back(mk(VARIABLE_OBJ, x));
      return mk(USERFUNC_OBJ, g, a);
    }
    std::vector<EqObjPtr> a;
    if (!peek(")")) do { a.push_back(expr()); } while (eat(","));
    need(")");
    auto nargs = [&](size_t n) { if (a.size() != n) throw ParseError{"Function " + f + " called with " + std::to_string(a.size()) + " arguments when " + std::to_string(n) + " are required"}; };
    if (f == "diff")
    {
      nargs(2);
      if (a[1]->type != VARIABLE_OBJ && a[1]->type != MODEL_OBJ) throw ParseError{"second argument of diff must be a variable or model"};
      return diff(a[0], a[1]);
    }
    if (f == "simplify" || f == "expand" || f == "scale") { nargs(1); return a[0]; }
    if (f == "exp") { nargs(1); if (isc(a[0], 0.0)) return C(1.0); return mk(EXPONENT_OBJ, "exp", a); }
    if (f == "log") { nargs(1); if (isc(a[0], 1.0)) return C(0.0); return mk(LOG_OBJ, "log", a); }
    if (f == "pow") { nargs(2); return pw(a[0], a[1]); }
    if (f == "if") { nargs(2); return mk(IF_OBJ, "if", a); }
    if (f == "ifelse") { nargs(3); return mk(IFELSE_OBJ, "ifelse", a); }
    auto it = functable().find(f);
    if (it == functable().end()) throw ParseError{"Function " + f + " not declared"};
    nargs(it->second.params.size());
    return mk(USERFUNC_OBJ, f, a);
  }
};
} // namespace

namespace EngineAPI {
EqObjType getEnumeratedType(const EqObjPtr &p) { return p->type; }
const std::string &getName(const EqObjPtr &p) { return p->name; }
double getDoubleValue(const EqObjPtr &p) { return p->value; }
std::vector<EqObjPtr> getArgs(const EqObjPtr &p) { return p->args; }
const std::string &getStringValue(const EqObjPtr &p)
{
  if (!p->str.empty()) return p->str;
  std::string r;
  auto join = [&](const char *sep) { std::string o; for (size_t i = 0; i < p->args.size(); ++i) { if (i) o += sep; o += getStringValue(p->args[i]); } return o; };
  switch (p->type)
  {
    case CONST_OBJ: r = numstr(p->value); if (p->value < 0.0 || std::signbit(p->value)) r = "(" + r + ")"; break;
    case VARIABLE_OBJ: case MODEL_OBJ: r = p->name; break;
    case ADD_OBJ: r = "(" + join(" + ") + ")"; break;
    case PRODUCT_OBJ: r = "(" + join(" * ") + ")"; break;
    case POW_OBJ: r = "(" + getStringValue(p->args[0]) + "^" + getStringValue(p->args[1]) + ")"; break;
    case ULOGICAL_OBJ: r = "(!" + getStringValue(p->args[0]) + ")"; break;
    case BLOGICAL_OBJ: r = "(" + getStringValue(p->args[0]) + " " + p->name + " " + getStringValue(p->args[1]) + ")"; break;
    default: r = p->name + "(" + join(",") + ")"; break;
  }
  p->str = r;
  return p->str;
}
std::set<std::string> getReferencedType(const EqObjPtr &p, EqObjType t)
{
  std::set<std::string> out;
  std::function<void(const EqObjPtr &)> go = [&](const EqObjPtr &x) { if (x->type == t) out.insert(x->name); for (auto &y : x->args) go(y); };
  go(p);
  return out;
}
EqObjPtr con(double v) { return C(v); }
EqObjPtr mod(const std::string &n) { return mk(MODEL_OBJ, n); }
void SetModelListCallBack(ModelListFn f) { modelfn = f; }
void SetDerivativeRule(DerivFn f) { derivfn = f; }
void ResetAllData() { functable().clear(); modelfn = nullptr; derivfn = nullptr; }
}

namespace EvalExpr {
EqObjPtr evaluateExpression(const std::string &str, error_t &errors)
{
  EqObjPtr out;
  try
  {
    Parser p(str);
    for (;;)
    {
      p.ws();
      if (p.i >= str.size()) break;
      if (p.eat(";")) continue;
      out = p.expr();
      p.ws();
      if (p.i < str.size() && !p.eat(";")) throw ParseError{"syntax error near position " + std::to_string(p.i) + " of \"" + str + "\""};
    }
    if (!out) errors.push_back("empty expression");
  }
  catch (const ParseError &e)
  {
    errors.push_back(e.msg);
    out = nullptr;
  }
  return out;
}
}
