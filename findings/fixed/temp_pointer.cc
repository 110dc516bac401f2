#include <vector>
#include <string>
#include <cstdio>
#include <memory>
struct S { int a[3]; int b; ~S(){ a[0]=a[1]=a[2]=-7; } int* begin_(){return a;} int& r(){return b;} };
S mk(int x){ return S{{x,x+1,x+2},4}; }
int& id(int&& x) { return x; }
int main(){
  int r = 0;
  r += *std::vector<int>{4,5}.data();
  r += std::vector<int>{4,5}.data()[1];
  r += *mk(3).begin_();
  r += mk(3).a[1];
  r += *(mk(3).a + 1);
  r += *(mk(3).begin_() + 2);
  r += mk(9).begin_()[2];
  r += *std::make_unique<int>(7);
  r += *std::make_unique<int>(7).get();
  r += (*mk(3).begin_() = 5) + 1;
  r += ++*mk(3).begin_();
  r += mk(3).begin_()[1]++;
  r += (mk(2).r() += r) * 2;
  r += id(3 + r) ++;
  r += (r > 3 ? mk(3).r() : mk(4).r()) - 1;
  r += (r++, mk(3).r()) - 1;
  r += static_cast<int&>(mk(3).r()) - 1;
  r += *&mk(3).r() - 1;
  switch (r) { case 1: r = 2; [[fallthrough]]; case 2: r++; break; default: r += 2; }
  printf("%d\n", r);
}
