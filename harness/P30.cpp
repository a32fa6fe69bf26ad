// P30  archive headers survive a write/read round trip
//vp: * limit=2
#define VP_USE_STREAM
#include "vp.h"
#include <cstddef>
#include "datas/supercore.hpp"
#include "formats/ZIP_istream.inl"
#include "formats/ZIP_ostream.inl"

// the fields of a record at the offsets the archive specification gives
struct Field {
  size_t member, size, at;
};
#define FIELD(T, m, at) {offsetof(T, m), sizeof(T::m), at}
template <class T> struct Spec;
template <> struct Spec<ZIPLocalFile> {
  static constexpr uint32_t id = 0x04034b50;
  static constexpr size_t size = 30;
  typedef ZIPLocalFile T;
  static constexpr Field fields[] = {FIELD(T, id, 0), FIELD(T, extractVersion, 4), FIELD(T, flags, 6), FIELD(T, compression, 8), FIELD(T, lastModFileTime, 10), FIELD(T, lastModFileDate, 12), FIELD(T, crc, 14), FIELD(T, compressedSize, 18), FIELD(T, uncompressedSize, 22), FIELD(T, fileNameSize, 26), FIELD(T, extraFieldSize, 28)};
};
constexpr Field Spec<ZIPLocalFile>::fields[];
template <> struct Spec<ZIPFile> {
  static constexpr uint32_t id = 0x02014b50;
  static constexpr size_t size = 46;
  typedef ZIPFile T;
  static constexpr Field fields[] = {FIELD(T, id, 0), FIELD(T, madeBy, 4), FIELD(T, extractVersion, 6), FIELD(T, flags, 8), FIELD(T, compression, 10), FIELD(T, lastModFileTime, 12), FIELD(T, lastModFileDate, 14), FIELD(T, crc, 16), FIELD(T, compressedSize, 20), FIELD(T, uncompressedSize, 24), FIELD(T, fileNameSize, 28), FIELD(T, extraFieldSize, 30), FIELD(T, fileCommentSize, 32), FIELD(T, diskNumberStart, 34), FIELD(T, internalFileAttrs, 36), FIELD(T, externalFileAttrs, 38), FIELD(T, localHeaderOffset, 42)};
};
constexpr Field Spec<ZIPFile>::fields[];
template <> struct Spec<ZIPSignature> {
  static constexpr uint32_t id = 0x05054b50;
  static constexpr size_t size = 6;
  typedef ZIPSignature T;
  static constexpr Field fields[] = {FIELD(T, id, 0), FIELD(T, dataSize, 4)};
};
constexpr Field Spec<ZIPSignature>::fields[];
template <> struct Spec<ZIPCentralDir> {
  static constexpr uint32_t id = 0x06054b50;
  static constexpr size_t size = 22;
  typedef ZIPCentralDir T;
  static constexpr Field fields[] = {FIELD(T, id, 0), FIELD(T, diskNumber, 4), FIELD(T, startDiskNumber, 6), FIELD(T, numDiskEntries, 8), FIELD(T, numDirEntries, 10), FIELD(T, dirSize, 12), FIELD(T, dirOffset, 16), FIELD(T, commentSize, 20)};
};
constexpr Field Spec<ZIPCentralDir>::fields[];
template <> struct Spec<ZIP64CentralDir> {
  static constexpr uint32_t id = 0x06064b50;
  static constexpr size_t size = 56;
  typedef ZIP64CentralDir T;
  static constexpr Field fields[] = {FIELD(T, id, 0), FIELD(T, dirRecord, 4), FIELD(T, madeBy, 12), FIELD(T, extractVersion, 14), FIELD(T, diskNumber, 16), FIELD(T, startDiskNumber, 20), FIELD(T, numDiskEntries, 24), FIELD(T, numDirEntries, 32), FIELD(T, dirSize, 40), FIELD(T, dirOffset, 48)};
};
constexpr Field Spec<ZIP64CentralDir>::fields[];
template <> struct Spec<ZIP64CentralDirLocator> {
  static constexpr uint32_t id = 0x07064b50;
  static constexpr size_t size = 20;
  typedef ZIP64CentralDirLocator T;
  static constexpr Field fields[] = {FIELD(T, id, 0), FIELD(T, diskNumber, 4), FIELD(T, centralDirOffset, 8), FIELD(T, numDisks, 16)};
};
constexpr Field Spec<ZIP64CentralDirLocator>::fields[];

template <class T> static void record() {
  typedef Spec<T> S;
  constexpr size_t N = S::size;
  const size_t size = vp_size("size"), at = vp_range("at", 0, uint64_t(1) << 40), other = vp_range("other", 0, uint64_t(1) << 40);
  vp_assume(at <= size);
  VpStream st("file", size);
  const uint8_t old = st.at(other);
  T *w = (T *)vp_buf("record", sizeof(T)), *r = (T *)vp_buf("garbage", sizeof(T));
  uint8_t was[sizeof(T)];
  memcpy(was, w, sizeof(T));
  const uint8_t *rb = (const uint8_t *)r;
  vp_assert(T::ID == S::id, "identifier");
  BinWritterRef wr(st.out());
  st.setp(at);
  if (vp_choose("nested", 0, 1))
    wr.Write(*w);
  else
    w->Write(wr);
  vp_assert(st.ppos() == at + N, "occupies the size of the specification");
  vp_assert(!st.failed(), "writing does not fail");
  if (other < at || other >= at + N) vp_assert(st.at(other) == old, "nothing else is written");
  vp_assert(memcmp(was, w, sizeof(T)) == 0, "writing leaves the record alone");
  size_t covered = 0;
  for (const Field &f : S::fields) {
    vp_assert(f.at == covered, "fields lie one behind the other");
    covered += f.size;
    for (size_t i = 0; i < f.size; i++) vp_assert(st.at(at + f.at + i) == was[f.member + i], "fields where the specification puts them");
  }
  vp_assert(covered == N, "all of the record");
  BinReaderRef rd(st.in());
  st.setg(at);
  if (vp_choose("nestedr", 0, 1))
    rd.Read(*r);
  else
    r->Read(rd);
  vp_assert(st.gpos() == at + N, "reading consumes exactly what was written");
  vp_assert(!st.failed(), "reading does not fail");
  for (const Field &f : S::fields)
    for (size_t i = 0; i < f.size; i++) vp_assert(rb[f.member + i] == was[f.member + i], "equal field by field");
}
VP_HARNESS(local_file) { record<ZIPLocalFile>(); }
VP_HARNESS(file) { record<ZIPFile>(); }
VP_HARNESS(signature) { record<ZIPSignature>(); }
VP_HARNESS(central_dir) { record<ZIPCentralDir>(); }
VP_HARNESS(central_dir64) { record<ZIP64CentralDir>(); }
VP_HARNESS(locator64) { record<ZIP64CentralDirLocator>(); }
