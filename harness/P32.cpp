// P32  legacy and extended texture format tags
#include "vp.h"
#include "formats/DDS.hpp"

// any header at all
static DDS header(const char *name) { return vp_any<DDS>(name); }
static bool same(const DDS &a, const DDS &b) { return !memcmp((const void *)&a, (const void *)&b, sizeof(DDS)); }

VP_HARNESS(there_and_back) {
  DDS d = header("header");
  const DDS before = d;
  if (d.ToLegacy()) {
    vp_assert(same(d, before), "an unsupported conversion changes nothing");
    return;
  }
  vp_assert(d.pfSize == DDS_PixelFormat::PIXELFORMAT_SIZE, "a whole pixel format");
  vp_assert(!(static_cast<DDS_PixelFormat &>(d) == DDSFormat_DX10), "the legacy description is a legacy one");
  vp_assert(!memcmp((void *)static_cast<DDS_Header *>(&d), (const void *)static_cast<const DDS_Header *>(&before), sizeof(DDS_Header)) &&
                !memcmp((void *)static_cast<DDS_HeaderEnd *>(&d), (const void *)static_cast<const DDS_HeaderEnd *>(&before), sizeof(DDS_HeaderEnd)),
            "the rest of the header stays");
  // a file with a legacy header has no extended part
  DDS f = d;
  f = DDS_HeaderDX10();
  vp_assert(!d.FromLegacy(), "the way back is supported");
  vp_assert(d.dxgiFormat == before.dxgiFormat, "the format is back");
  vp_assert(d.alphaMode == before.alphaMode, "the alpha interpretation is back");
  vp_assert(static_cast<DDS_PixelFormat &>(d) == DDSFormat_DX10, "marked as extended");
  vp_assert(!f.FromLegacy(), "the way back is supported without the extended part");
  vp_assert(f.dxgiFormat == before.dxgiFormat, "the format is back without the extended part");
  const bool dxt = before.dxgiFormat == DXGI_FORMAT_BC2_UNORM || before.dxgiFormat == DXGI_FORMAT_BC3_UNORM;
  const bool pre = before.alphaMode == DDS_HeaderDX10::AlphaMode_Premultiplied;
  vp_assert(f.alphaMode == (dxt && pre ? DDS_HeaderDX10::AlphaMode_Premultiplied : DDS_HeaderDX10::AlphaMode_Unknown),
            "premultiplied alpha is told by the legacy tag where it has one");
}
VP_HARNESS(from_legacy) {
  DDS d = header("header");
  const DDS before = d;
  if (d.FromLegacy()) {
    vp_assert(same(d, before), "an unsupported conversion changes nothing");
    return;
  }
  vp_assert(static_cast<DDS_PixelFormat &>(d) == DDSFormat_DX10, "marked as extended");
  vp_assert(d.dxgiFormat != DXGI_FORMAT_UNKNOWN, "a known format");
  vp_assert(d.miscFlag == before.miscFlag && d.arraySize == before.arraySize && d.dimension == before.dimension, "nothing else changes");
}
VP_HARNESS(forced) {
  DDS d = header("header");
  const DDS before = d;
  DDS e = before;
  const bool plain = !e.ToLegacy();
  if (d.ToLegacy(true)) {
    vp_assert(same(d, before), "an unsupported conversion changes nothing");
    vp_assert(!plain, "forcing supports no less");
    return;
  }
  vp_assert(!plain || same(d, e), "forcing changes no exact conversion");
  vp_assert(!d.FromLegacy(), "the way back is supported");
}
// the tags the DDS documentation lists
static void tag(DXGI_FORMAT fmt, uint32 cc, uint32 alpha = 0) {
  DDS d = header("header");
  d.dxgiFormat = fmt;
  d.alphaMode = DDS::AlphaMode(alpha);
  vp_assert(!d.ToLegacy() && d.fourCC == cc, "the documented four character code");
  vp_assert(d.pfFlags[DDS_PixelFormat::PFFlags_FourCC], "flagged as a four character code");
}
VP_HARNESS(codes) {
  tag(DXGI_FORMAT_BC1_UNORM, CompileFourCC("DXT1"));
  tag(DXGI_FORMAT_BC2_UNORM, CompileFourCC("DXT2"), 2);
  tag(DXGI_FORMAT_BC2_UNORM, CompileFourCC("DXT3"));
  tag(DXGI_FORMAT_BC3_UNORM, CompileFourCC("DXT4"), 2);
  tag(DXGI_FORMAT_BC3_UNORM, CompileFourCC("DXT5"));
  tag(DXGI_FORMAT_BC4_UNORM, CompileFourCC("BC4U"));
  tag(DXGI_FORMAT_BC4_SNORM, CompileFourCC("BC4S"));
  tag(DXGI_FORMAT_BC5_UNORM, CompileFourCC("ATI2"));
  tag(DXGI_FORMAT_BC5_SNORM, CompileFourCC("BC5S"));
  tag(DXGI_FORMAT_R16G16B16A16_UNORM, 36);
  tag(DXGI_FORMAT_R16G16B16A16_SNORM, 110);
  tag(DXGI_FORMAT_R16_FLOAT, 111);
  tag(DXGI_FORMAT_R16G16_FLOAT, 112);
  tag(DXGI_FORMAT_R16G16B16A16_FLOAT, 113);
  tag(DXGI_FORMAT_R32_FLOAT, 114);
  tag(DXGI_FORMAT_R32G32_FLOAT, 115);
  tag(DXGI_FORMAT_R32G32B32A32_FLOAT, 116);
  tag(DXGI_FORMAT_YUY2, CompileFourCC("YUY2"));
}
