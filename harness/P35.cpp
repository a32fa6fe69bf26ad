// P35  wave headers
#include "vp.h"
#include <new>
#include "formats/WAVE.hpp"

static uint32_t tag(const char *t) {
  uint32_t r = 0;
  for (int i = 0; i < 4; i++) r |= uint32_t(uint8_t(t[i])) << (8 * i);
  return r;
}
VP_HARNESS(riff) {
  uint32_t size = vp_u32("size");
  vp_assume(size >= 12);
  RIFFHeader h(size);
  vp_assert(h.id == tag("RIFF"), "RIFF identifier");
  vp_assert(h.type == tag("WAVE"), "WAVE type");
  vp_assert(h.chunkSize == size - 8, "everything after the chunk header");
  vp_assert(sizeof(h) == 12, "layout");
}
VP_HARNESS(format) {
  uint16_t f = vp_u16("format");
  WAVE_fmt h{WAVE_FORMAT(f)};
  vp_assert(h.id == tag("fmt "), "format chunk identifier");
  vp_assert(h.chunkSize == 16, "size of the format chunk");
  vp_assert(sizeof(WAVE_fmt) == 24, "layout");
  vp_assert(uint16_t(h.format) == f, "format kept");
  vp_assert(h.channels == 1 && h.sampleRate == 0 && h.sampleCount == 0 && h.interleave == 0, "defaults");
  uint16_t bits = f == 1 ? 16 : f == 2 || f == 0x11 ? 4 : f == 6 || f == 7 ? 8 : 0;
  vp_assert(h.bitsPerSample == bits, "sample width of the format");
  vp_assert((char *)&h.format - (char *)&h == 8 && (char *)&h.channels - (char *)&h == 10 &&
                (char *)&h.sampleRate - (char *)&h == 12 && (char *)&h.sampleCount - (char *)&h == 16 &&
                (char *)&h.interleave - (char *)&h == 20 && (char *)&h.bitsPerSample - (char *)&h == 22,
            "field positions");
}
VP_HARNESS(derived) {
  WAVE_fmt h{WAVE_FORMAT(vp_u16("format"))};
  uint32_t id = h.id, cs = h.chunkSize;
  uint16_t f = uint16_t(h.format), ch = vp_u16("channels"), bytes = vp_range("bytes", 0, 8191);
  uint32_t rate = vp_u32("rate");
  h.channels = ch;
  h.sampleRate = rate;
  h.bitsPerSample = 8 * bytes;
  h.sampleCount = vp_u32("old count");
  h.interleave = vp_u16("old interleave");
  h.CalcData();
  vp_assert(h.interleave == uint16_t(ch * bytes), "frame size is channels times sample width");
  vp_assert(h.sampleCount == uint32_t(uint64_t(ch) * rate * bytes), "byte rate is frames per second times frame size");
  vp_assert(h.channels == ch && h.sampleRate == rate && h.bitsPerSample == 8 * bytes, "given fields unchanged");
  vp_assert(h.id == id && h.chunkSize == cs && uint16_t(h.format) == f, "chunk header unchanged");
}
VP_HARNESS(data) {
  uint32_t size = vp_range("size", 0, 0xffffffff);
  char *block = (char *)vp_buf("block", size_t(size) + 16);
  WAVE_data &h = *new (block) WAVE_data(size);
  vp_assert(h.id == tag("data") && h.chunkSize == size, "data chunk header");
  vp_assert(h.GetData() == block + 8, "data follows the header");
  vp_assert((char *)h.Next() == block + 8 + size, "next chunk follows the data");
}
VP_HARNESS(loops) {
  vp_assert(WAVE_fact::ID == tag("fact") && WAVE_smpl::ID == tag("smpl") && WAVE_data::ID == tag("data") && WAVE_fmt::ID == tag("fmt "),
            "identifiers");
  vp_assert(sizeof(WAVE_smpl) == 44 && sizeof(WAVE_smpl::SampleLoop) == 24, "layout");
  char *block = (char *)vp_buf("block", 44 + 24);
  WAVE_smpl *s = (WAVE_smpl *)block;
  vp_assert((char *)s->GetSampleLoops() == block + 44, "loops follow the sampler chunk");
}
VP_HARNESS(known) {
  WAVEGenericHeader h(vp_u32("id"), vp_u32("size"));
  bool known = h.id == tag("fmt ") || h.id == tag("data") || h.id == tag("fact") || h.id == tag("smpl");
  vp_assert(IsValidWaveChunk(h) == known, "known chunks are accepted, others are not");
}
