id='P33a'; prop='P33'
edits=[('datas/supercore.hpp','  const size_t mask = alignment - 1;\n  const size_t result = value & mask;','  const uint32 mask = alignment - 1;\n  const size_t result = value & mask;')]
needs='an alignment above 2^32'
breaks='the padded position is no multiple of the alignment'
demo='''#include "datas/supercore.hpp"
int main() {
  size_t al = size_t(1) << 33;
  return GetPadding(7, 8) != 1 || GetPadding(0x100000004, al) != al - 0x100000004 || GetPadding(al, al) != 0;
}
'''
