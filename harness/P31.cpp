// P31  texture mip-chain layout
//vp: * limit=20 prune=1
#include "vp.h"
#include "formats/DDS.hpp"

static uint64_t level_size(bool bc, uint64_t w, uint64_t h, uint32_t bpp) {
  if (bc) {
    w = (w + 3) / 4 * 4;
    h = (h + 3) / 4 * 4;
  }
  return (w * h * bpp + 7) / 8;
}
static const char *const tags[] = {"DXT1", "DXT2", "DXT3", "DXT4", "DXT5", "BC4U", "ATI1", "BC4S", "BC5U", "ATI2", "BC5S"};
static uint32_t tag(const char *t) {
  uint32_t w;
  memcpy(&w, t, 4);
  return w;
}
// any header of one format, with so many levels (more than the table has: any number)
static void layout(uint32_t fmt, uint32_t cc, bool bc, uint32_t levels) {
  DDS d = vp_any<DDS>("header");
  d.dxgiFormat = DXGI_FORMAT(fmt);
  if (!fmt)
    d.fourCC = cc;
  // the sizes the interfaces reading these files allow: sides to 16384, elements to 128 bits, buffers below 4 GiB
  vp_assume(d.width >= 1 && d.width <= 16384 && d.height >= 1 && d.height <= 16384 && d.bpp >= 1 && d.bpp <= 128);
  vp_assume(level_size(bc, d.width, d.height, d.bpp) < uint64_t(2) << 30);
  if (levels <= DDS::Mips::maxMips)
    d.mipMapCount = levels;
  else
    vp_assume(d.mipMapCount > DDS::Mips::maxMips);
  const uint32_t known = !levels ? 1 : levels > DDS::Mips::maxMips ? DDS::Mips::maxMips : levels;
  DDS::Mips *t = (DDS::Mips *)vp_buf("table", sizeof(DDS::Mips));
  const DDS::Mips before = *t;
  const uint32_t size = d.ComputeBufferSize(*t);
  uint32_t end = 0, w = d.width, h = d.height;
  for (uint32_t m = 0; m < known; m++) {
    vp_assert(t->offsets[m] == end, "each level starts where the one before ends");
    vp_assert(t->sizes[m] == level_size(bc, w, h, d.bpp), "each level is as large as its dimensions say");
    end += t->sizes[m];
    w = w > 1 ? w / 2 : 1;
    h = h > 1 ? h / 2 : 1;
  }
  vp_assert(size == end, "the total is the end of the last level");
  for (uint32_t m = known; m < DDS::Mips::maxMips; m++)
    vp_assert(t->sizes[m] == before.sizes[m] && t->offsets[m] == before.offsets[m], "entries of levels there are not stay");
}
static void formats(uint32_t lo, uint32_t hi) {
  const uint32_t f = vp_choose("format", lo, hi);
  layout(f, 0, IsBC(DXGI_FORMAT(f)), DDS::Mips::maxMips);
}
VP_HARNESS(formats_a) { formats(1, 20); }
VP_HARNESS(formats_b) { formats(21, 40); }
VP_HARNESS(formats_c) { formats(41, 60); }
VP_HARNESS(formats_d) { formats(61, 80); }
VP_HARNESS(formats_e) { formats(81, 100); }
VP_HARNESS(formats_f) { formats(101, DXGI_FORMAT_FORCE_UINT); }
VP_HARNESS(tagged) { layout(0, tag(tags[vp_choose("tag", 0, 10)]), true, DDS::Mips::maxMips); }
VP_HARNESS(tagged_plain) {
  const uint32_t cc[] = {36, 110, 111, 112, 113, 114, 115, 116, tag("RBGB"), tag("GRGB"), tag("UYVY"), tag("YUY2"), tag("DX10"), 1};
  layout(0, cc[vp_choose("tag", 0, 13)], false, DDS::Mips::maxMips);
}
VP_HARNESS(untagged) { layout(0, 0, false, vp_choose("levels", 0, DDS::Mips::maxMips + 1)); }
VP_HARNESS(blocks) { layout(DXGI_FORMAT_BC1_UNORM, 0, true, vp_choose("levels", 0, DDS::Mips::maxMips + 1)); }
// whatever the tags, the same formats count as block compressed
VP_HARNESS(any_tag) {
  DDS d = vp_any<DDS>("header");
  bool bc = d.dxgiFormat && IsBC(d.dxgiFormat);
  for (auto t : tags)
    bc |= !d.dxgiFormat & (d.fourCC == tag(t));
  d.width = 5;
  d.height = 1;
  d.bpp = 8;
  d.mipMapCount = 2;
  DDS::Mips *t = (DDS::Mips *)vp_buf("table", sizeof(DDS::Mips));
  const uint32_t size = d.ComputeBufferSize(*t);
  vp_assert(t->offsets[0] == 0 && t->sizes[0] == (bc ? 32 : 5), "first level");
  vp_assert(t->offsets[1] == t->sizes[0] && t->sizes[1] == (bc ? 16 : 2), "second level");
  vp_assert(size == t->sizes[0] + t->sizes[1], "total");
}
VP_HARNESS(no_bpp) {
  DDS d = vp_any<DDS>("header");
  d.bpp = 0;
  DDS::Mips *t = (DDS::Mips *)vp_buf("table", sizeof(DDS::Mips));
  vp_assert(d.ComputeBufferSize(*t) == 0, "unknown bits per pixel");
}
VP_HARNESS(mipmaps) {
  DDS d = vp_any<DDS>("header");
  const int n = vp_range("n", 0, 1 << 20);
  d.NumMipmaps(n);
  vp_assert(d.mipMapCount == uint32_t(n), "count");
  vp_assert(d.flags[DDS::Flags_MipMaps] == (n > 1) && d.caps00[DDS::Caps00Flags_MipMaps] == (n > 1) && d.caps00[DDS::Caps00Flags_Complex] == (n > 1), "flags follow the count");
}
VP_HARNESS(bpp) {
  DDS d = vp_any<DDS>("header");
  const DDS before = d;
  d.ComputeBPP();
  vp_assert(!before.bpp || d.bpp == before.bpp, "known bits per pixel stay");
}
VP_HARNESS(bpp_agrees) {
  DDS d = vp_any<DDS>("header");
  d.dxgiFormat = DXGI_FORMAT(vp_choose("format", 1, DXGI_FORMAT_FORCE_UINT - 1));
  if (d.ToLegacy() || !d.fourCC)
    return;
  const uint32_t legacy = d.bpp;
  d.bpp = 0;
  d.ComputeBPP();
  vp_assert(d.bpp == legacy, "the tag gives the bits per pixel of its description");
  DDS e = d;
  e = DDSFormat_DX10;
  e.ComputeBPP();
  vp_assert(e.bpp == legacy, "the extended format gives the same");
}
