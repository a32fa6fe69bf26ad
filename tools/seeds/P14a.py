id='P14a'; prop='P14'
edits=[('datas/internal/string_view.inl','    return (compare ? compare : (m_size < v.m_size ? -1 : (m_size > v.m_size ? 1 : 0)));','    return (compare ? compare : static_cast<int>(m_size - v.m_size));')]
needs='texts of which one is a prefix of the other with sizes that differ by a multiple of 2^32 or more than 2^31'
breaks='comparison sign / equality for huge size differences'
demo='''#include "datas/string_view.hpp"
#include <sys/mman.h>
int main() {
  char *p = (char *)mmap(0, (size_t(1) << 32) + 16, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return 0;
  es::string_view a(p, 5), b(p, (size_t(1) << 32) + 5), c(p, 4);
  return !(a.compare(b) < 0 && b.compare(a) > 0 && a.compare(c) > 0 && c.compare(a) < 0 && a.compare(a) == 0);
}
'''
