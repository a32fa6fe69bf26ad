id='P05a'; prop='P05'
edits=[('datas/flags.hpp','''  constexpr bool operator==(EnumClass input) const noexcept {
    return operator[](input);''','''  constexpr bool operator==(EnumClass input) const noexcept {
    return value == MakeMask_(input);''')]
needs='comparing a set holding more than one flag with a single flag'
breaks='comparison with a flag no longer means membership'
demo='''#include "datas/flags.hpp"
#include "datas/reflector.hpp"
enum class E : uint8 { a, b, c, d };
int main() {
  es::Flags<E> f(E::a, E::c);
  return !(f == E::a && f == E::c && !(f == E::b) && f != E::b && !(f != E::a));
}
'''
