id='P04a'; prop='P04'
edits=[('datas/endian.hpp','''  const size_t numItems = sizeof(C) / sizeof(E);''','''  const size_t numItems = static_cast<uint8>(sizeof(C) / sizeof(E));''')]
needs='an aggregate of 256 or more elements'
breaks='only the first (n mod 256) elements are swapped'
demo='''#include "datas/endian.hpp"
struct S { uint16 v[300]; };
int main() {
  static S s; for (int i = 0; i < 300; i++) s.v[i] = i;
  FArraySwapper<uint16>(s);
  for (int i = 0; i < 300; i++) if (s.v[i] != uint16(i << 8 | i >> 8)) return 1;
}
'''
