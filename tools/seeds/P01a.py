id='P01a'; prop='P01'
edits=[('datas/base_128.hpp','''      if (!(cNum & 0x80)) {
        break;
      }
    }

    return value;
  }

  void Write(BinWritterRef wr) const {
    uint64 valueCopy''','''      if (!(cNum & 0x80) || !(value >> (7 * id + (id == 8 ? 7 : 0)) || id < 7)) {
        break;
      }
    }

    return value;
  }

  void Write(BinWritterRef wr) const {
    uint64 valueCopy''')]
needs='a value of 57 to 64 bits whose bits 49..55 are all zero'
breaks='the reader stops after eight bytes when the eighth payload group is zero although its continuation bit is set'
demo='''#include "datas/base_128.hpp"
#include <sstream>
int main() {
  for (uint64 v : {0x7fULL, 0x100000000000000ULL, 0x80ULL << 49, 0x8000000000000001ULL}) {
    std::stringstream s;
    BinWritterRef wr(s); buint128(v).Write(wr);
    BinReaderRef rd(s); buint128 r;
    if (r.Read(rd) != v) return 1;
    if (size_t(s.tellg()) != s.str().size()) return 1;
  }
}
'''
