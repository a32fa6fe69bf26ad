id='P02a'; prop='P02'
edits=[('datas/base_128.hpp','''      if (lastValue & 0x40) {
        wr.Write<uint8>(lastValue | 0x80);
        wr.Write<uint8>(signMask);''','''      if (lastValue & 0x40 && lastIndex < 7) {
        wr.Write<uint8>(lastValue | 0x80);
        wr.Write<uint8>(signMask);''')]
needs='a magnitude of exactly 56 significant bits (eighth group has its sixth bit set)'
breaks='values between 2^55 and 2^56 - 1 read back with the wrong sign'
demo='''#include "datas/base_128.hpp"
#include <sstream>
int main() {
  for (int64 v : {int64(1) << 55, int64(3) << 54, -(int64(1) << 54), int64(77)}) {
    std::stringstream s;
    BinWritterRef wr(s); bint128(v).Write(wr);
    BinReaderRef rd(s); bint128 r;
    if (r.Read(rd) != v) return 1;
  }
}
'''
