// A stand-in for pybind11 that records what a module binds, so that the harness can read and write attributes, call
// methods and pickle objects through the bindings themselves.  Conversions between Python and C++ values are exact copies.
#pragma once
#include <any>
#include <array>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
namespace pybind11 {
template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
struct cast_error : std::runtime_error { using runtime_error::runtime_error; };
struct value_error : std::runtime_error { using runtime_error::runtime_error; };
struct type_error : std::runtime_error { using runtime_error::runtime_error; };
struct object { std::any v; object() {} template <class T> static object of(T &&x) { object o; o.v = bare<T>(std::forward<T>(x)); return o; }
  template <class T> T cast() const { using B = bare<T>; if (auto p = std::any_cast<B>(&v)) return *p;
    if constexpr (std::is_arithmetic_v<B>) { if (auto p = std::any_cast<double>(&v)) { if (std::is_integral_v<B>) throw cast_error("a float is not an integer"); return (B)*p; } if (auto p = std::any_cast<int>(&v)) return (B)*p; if (auto p = std::any_cast<unsigned>(&v)) return (B)*p; if (auto p = std::any_cast<bool>(&v)) return (B)*p; if (auto p = std::any_cast<size_t>(&v)) return (B)*p; if (auto p = std::any_cast<long>(&v)) return (B)*p; }
    throw cast_error("wrong type"); } };
using handle = object; using float_ = object; using int_ = object; using list = object; using dict = object;
template <class T> T cast(const object &o) { return o.cast<T>(); } template <class T> object cast(const T &x) { return object::of(x); }
struct tuple { std::vector<object> items; size_t size() const { return items.size(); } const object &operator[](size_t i) const { if (i >= items.size()) throw std::out_of_range("tuple index"); return items[i]; } };
namespace detail { inline object wrap(const object &o) { return o; } template <class T> object wrap(const T &x) { return object::of(x); } }
template <class... A> tuple make_tuple(A &&...a) { tuple t; (t.items.push_back(detail::wrap(std::forward<A>(a))), ...); return t; }
inline size_t len(const tuple &t) { return t.size(); }
struct arg_v { std::string name; object value; };
struct arg { std::string name; explicit arg(const char *n) : name(n) {} template <class T> arg_v operator=(T &&v) const { return {name, object::of(std::forward<T>(v))}; } arg &noconvert(bool = true) { return *this; } };
namespace literals { inline arg operator"" _a(const char *n, size_t) { return arg(n); } }
template <class... A> struct call_guard {}; struct gil_scoped_release {}; struct gil_scoped_acquire {}; template <int, int> struct keep_alive {}; struct dynamic_attr {}; struct doc { doc(const char *) {} };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <class... A> struct init_t {}; template <class... A> init_t<A...> init() { return {}; }
template <class F> struct init_f { F f; }; template <class F, class = decltype(&F::operator())> init_f<F> init(F f) { return {f}; }
template <class G, class S> struct pickle_t { G g; S s; }; template <class G, class S> pickle_t<G, S> pickle(G g, S s) { return {g, s}; }
// a bound function: how many arguments, their defaults, and a way to call it
struct fun { size_t n = 0; std::vector<arg_v> named; std::vector<bool> has; std::function<bool(const std::vector<object> &, object &)> call; };
struct prop { std::function<object(const object &)> get; std::function<void(void *, const object &)> set; };
struct cls { std::string name; const std::type_info *type = nullptr; std::map<std::string, prop> props; std::map<std::string, std::vector<fun>> methods; std::vector<fun> inits; std::function<tuple(const object &)> getstate; std::function<object(const tuple &)> setstate; };
struct module_ { std::map<std::string, std::shared_ptr<cls>> classes; std::map<std::string, std::vector<fun>> functions; std::map<std::string, object> attrs; template <class F, class... X> module_ &def(const char *n, F f, const X &...x); module_ def_submodule(const char *) { return {}; } module_ &doc() { return *this; } template <class T> module_ &operator=(T &&) { return *this; } object &attr(const char *n) { return attrs[n]; } };
using module = module_;
namespace detail {
// objects travel by pointer (so that methods act on the object itself) or by value
template <class T> struct holder {
  using B = bare<T>;
  static B &get(const object &o) {
    std::any &v = const_cast<object &>(o).v;
    if (auto p = std::any_cast<B *>(&v)) return **p;
    if (auto p = std::any_cast<std::shared_ptr<B>>(&v)) return **p;
    if (auto p = std::any_cast<B>(&v)) return *p;
    throw cast_error("wrong type");
  }
  static bool ok(const object &o) {
    if (std::any_cast<B *>(&o.v) || std::any_cast<B>(&o.v) || std::any_cast<std::shared_ptr<B>>(&o.v)) return true;
    if constexpr (std::is_arithmetic_v<B>) { try { o.cast<B>(); return true; } catch (std::exception &) { return false; } }
    return false;
  }
};
template <class A> decltype(auto) unwrap(const object &o) { if constexpr (std::is_arithmetic_v<bare<A>>) return o.cast<bare<A>>(); else return (holder<bare<A>>::get(o)); }
template <class R, class F, class... A, size_t... I> bool invoke(F &f, const std::vector<object> &v, object &out, std::index_sequence<I...>) { if (!(holder<bare<A>>::ok(v[I]) && ...)) return false; if constexpr (std::is_void_v<R>) f(unwrap<A>(v[I])...); else { auto r = f(unwrap<A>(v[I])...); out = wrap(r); } return true; }
template <class R, class F, class... A> fun make(F f) { fun r; r.n = sizeof...(A); r.call = [f](const std::vector<object> &v, object &o) mutable { if (v.size() != sizeof...(A)) return false; return invoke<R, F, A...>(f, v, o, std::index_sequence_for<A...>()); }; return r; }
template <class R, class... A> fun bind(R (*f)(A...)) { return make<R, R (*)(A...), A...>(f); }
template <class R, class C, class... A> fun bind(R (C::*f)(A...)) { auto g = [f](C &c, A... a) -> R { return (c.*f)(static_cast<A>(a)...); }; return make<R, decltype(g), C &, A...>(g); }
template <class R, class C, class... A> fun bind(R (C::*f)(A...) const) { auto g = [f](const C &c, A... a) -> R { return (c.*f)(static_cast<A>(a)...); }; return make<R, decltype(g), const C &, A...>(g); }
template <class L, class R, class... A> fun bindl(L f, R (L::*)(A...) const) { return make<R, L, A...>(f); }
template <class L, class R, class... A> fun bindl(L f, R (L::*)(A...)) { return make<R, L, A...>(f); }
template <class L, class = decltype(&L::operator())> fun bind(L f) { return bindl(f, &L::operator()); }
inline void extra(fun &f, const arg &a) { f.named.push_back({a.name, {}}); f.has.push_back(false); } inline void extra(fun &f, const arg_v &a) { f.named.push_back(a); f.has.push_back(true); } template <class X> void extra(fun &, const X &) {}
}
template <class F, class... X> module_ &module_::def(const char *n, F f, const X &...x) { fun b = detail::bind(f); (detail::extra(b, x), ...); functions[n].push_back(b); return *this; }
template <class T, class... O> struct class_ {
  std::shared_ptr<cls> c;
  template <class... X> class_(module_ &m, const char *n, const X &...) : c(std::make_shared<cls>()) { c->name = n; c->type = &typeid(T); m.classes[n] = c; }
  template <class... A, class... X> class_ &def(init_t<A...>, const X &...x) { fun f = detail::bind([](A... a) { return std::shared_ptr<T>(make(a...)); }); (detail::extra(f, x), ...); c->inits.push_back(f); return *this; }
  template <class F, class... X> class_ &def(init_f<F> i, const X &...x) { fun f = detail::bind(i.f); (detail::extra(f, x), ...); c->inits.push_back(f); return *this; }
  template <class G, class S> class_ &def(pickle_t<G, S> p) { c->getstate = [p](const object &o) { return p.g(detail::holder<T>::get(o)); }; c->setstate = [p](const tuple &t) { return object::of(p.s(t)); }; return *this; }
  template <class F, class... X, class = decltype(detail::bind(std::declval<F>()))> class_ &def(const char *n, F f, const X &...x) { fun b = detail::bind(f); (detail::extra(b, x), ...); c->methods[n].push_back(b); return *this; }
  template <class C, class V, class... X> class_ &def_readwrite(const char *n, V C::*m, const X &...) { c->props[n] = {[m](const object &o) { return object::of(static_cast<const C &>(detail::holder<T>::get(o)).*m); }, [m](void *o, const object &v) { static_cast<C &>(*(T *)o).*m = v.cast<V>(); }}; return *this; }
  template <class C, class V, class... X> class_ &def_readonly(const char *n, const V C::*m, const X &...) { c->props[n] = {[m](const object &o) { return object::of(static_cast<const C &>(detail::holder<T>::get(o)).*m); }, nullptr}; return *this; }
  template <class G, class S, class... X> class_ &def_property(const char *n, G g, S s, const X &...) { fun a = detail::bind(g), b = detail::bind(s); c->props[n] = {[a](const object &o) { object r; if (!a.call({o}, r)) throw cast_error("getter"); return r; }, [b](void *o, const object &v) { object r, self; self.v = (T *)o; if (!b.call({self, v}, r)) throw cast_error("setter"); }}; return *this; }
  template <class G, class... X> class_ &def_property_readonly(const char *n, G g, const X &...) { fun a = detail::bind(g); c->props[n] = {[a](const object &o) { object r; if (!a.call({o}, r)) throw cast_error("getter"); return r; }, nullptr}; return *this; }
 private: template <class... A> static T *make(A &...a) { return new T(static_cast<const A &>(a)...); }
};
}
#define PYBIND11_MODULE(N, M) static void pyfake_init_##N(pybind11::module_ &M)
