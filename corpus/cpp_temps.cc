// Temporaries, references into them, standard containers.
// tags: heavy
#include "vt.h"
#include <vector>
#include <string>
#include <map>
#include <memory>
#include <algorithm>
static std::vector<int> mk() { return {1, 2, 3}; }
struct B { std::vector<int> v{1,2,3}; int& at(int i) { return v[i]; } int x[3] = {1,2,3}; int& r() { return x[1]; } };
struct S : B { S& self() { return *this; } int* ptr() { return x; } int& operator*() { return x[2]; } int&& mv() { return static_cast<int&&>(x[0]); } const int& cr() const { return x[1]; } };
static S ms() { return S(); }
static int& id(int& x) { return x; }
static const int& mx(const int& a, const int& b) { return a < b ? b : a; }
static int f(int i) { int s = 0; mk()[i] += 2; s += (mk()[i] = 5); s += ++mk()[1]; s += mk()[2]++; s += (ms().at(1) += 3); s += ms().self().at(0)--; s += ms().r() *= 2; s += -ms().r(); ms().self().x[1] += 2;
  s += ms().at(1); s += ms().self().x[2]; s += *ms().ptr(); s += ms().ptr()[1]; s += *ms(); s += (*ms())++; s += *mk().data(); s += *mk().begin(); s += (ms()).v[1]; s += id(ms().at(0)) + id(ms().at(1))++;
  s += (i > 0 ? ms().at(0) : ms().at(1)); s += mx(1, i + 2) + std::max(3, i) + std::min<int>(i, 2);
  s += (std::string("abc") + "d")[i]; s += std::make_unique<int>(4).get()[0]; s += *std::make_unique<int>(4); s += (*std::make_shared<int>(3))++;
  std::map<int,int> m; m[1] = 3; m[2]++; m[1] += m[2]; s += m[1]; s += m.at(2);
  s += (ms().at(1), ms().at(2)); s += (ms().at(0) = 3, ms().at(1) += 1);
  const auto& q = ms(); s += q.x[1]; for (int z : mk()) s += z; for (auto& z : S(q).x) s += z;
  s += static_cast<int&>(ms().at(1)); s += ((ms().at(1))); s += ms().mv(); s += ms().cr() + q.cr();
  const int& life = ms().x[1]; s += life; auto&& l2 = i + 1; s += l2; const int& l3 = i ? i + 1 : i + 2; s += l3;
  return s & 127; }
static int strs(int i) { std::string a = "hello"; a[0] = 'j'; a += 'x'; a[i]++; std::string b = a + std::to_string(i + 1); bool c = a < b && !b.empty() || a == "q"; return (int)b.size() + b.back() + c + b[i] + (int)a.find('l') + (a.find("zz") == std::string::npos); }
static int algo(int i) { std::vector<int> v{5, i, 3, i + 1}; std::sort(v.begin(), v.end(), [](int a, int b) { return a > b; }); int n = (int)std::count_if(v.begin(), v.end(), [i](int x) { return x > i; }); for (auto it = v.begin(); it != v.end(); ++it) { n += *it * 2; (*it)--; } for (size_t k = 0; k < v.size(); k++) n -= v[k]; std::vector<bool> bv(3, true); bv[1] = false; bv[2] = bv[0] && !bv[1]; n += bv[2] + bv[1]; return n + v.front(); }
struct Own { std::unique_ptr<int> p; explicit Own(int x) : p(new int(x + 1)) {} int get() const { return *p; } };
static int own(int i) { Own o(i); Own q = std::move(o); *q.p += 2; auto sp = std::make_shared<std::vector<int>>(3, i); (*sp)[1]++; auto w = sp; w->at(2) -= 1; std::pair<int, double> pr{i, 1.5}; pr.first++; pr.second *= 2; return q.get() + (o.p == nullptr) + (*sp)[1] + (*w)[2] + pr.first + (int)pr.second + (int)sp.use_count(); }
static int guards(int i) { struct G { int& r; G(int& x) : r(x) { r++; } ~G() { r += 10; } }; int k = i; { G a(k); G b(k); k *= 2; } G(k), k++; return k; }
extern "C" void vt_main(void) {
  for (int i = 0; i < 3; i++) { fuel(); out_i(1, f(i)); out_i(2, strs(i)); out_i(3, algo(i)); out_i(4, own(i)); out_i(5, guards(i)); }
}
