id='P03a'; prop='P03'
edits=[('datas/bitfield.hpp','    value |= (input << item.position) & mask;','    value |= item.position ? (input << item.position) & mask : input;')]
needs='storing a value wider than the first member'
breaks='excess bits of the value written to the first member spill into its neighbours'
demo='''#include "datas/bitfield.hpp"
#include "datas/reflector.hpp"
typedef BitMemberDecl<0, 5> A; typedef BitMemberDecl<1, 6> B; typedef BitMemberDecl<2, 5> C;
int main() {
  BitFieldType<uint16, A, B, C> f; f.value = 0;
  f.Set<B>(9); f.Set<C>(3); f.Set<A>(0xfff5);
  return !(f.Get<A>() == 0x15 && f.Get<B>() == 9 && f.Get<C>() == 3);
}
'''
