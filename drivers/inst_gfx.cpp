// Explicit instantiations of the image, math, render and utility libraries (nothing here is executed).
#include <archon/image.hpp>
#include <archon/image/gamma.hpp>
#include <archon/image/channel_packing.hpp>
#include <archon/image/packed_pixel_format.hpp>
#include <archon/image/subword_pixel_format.hpp>
#include <archon/image/indexed_pixel_format.hpp>
#include <archon/image/integer_pixel_format.hpp>
#include <archon/image/buffered_image.hpp>
#include <archon/image/custom_channel_spec.hpp>
#include <archon/image/computed_image.hpp>
#include <archon/image/indexed_tray_image.hpp>
#include <archon/image/palette_image.hpp>
#include <archon/image/tray_image.hpp>
#include <archon/math/vector.hpp>
#include <archon/math/matrix.hpp>
#include <archon/math/rotation.hpp>
#include <archon/math/quaternion.hpp>
#include <archon/util/kdtree.hpp>
#include <archon/util/rectangle_packer.hpp>
#include <archon/util/css_color.hpp>
#include <archon/util/as_css_color.hpp>
#include <archon/render/impl/finite_curve_memory.hpp>
#include <archon/render/impl/finite_sequence_memory.hpp>

using namespace archon;

template class math::Matrix<2, 2, double>;
template class math::Matrix<3, 3, double>;
template class math::Matrix<4, 4, float>;
template class math::Matrix<2, 3, double>;
template class math::Vector<2, double>;
template class math::Vector<3, float>;
template class math::Vector<4, double>;
template class util::RectanglePacker<int>;
template class image::Pixel<image::RGBA_8>;
template class image::Pixel<image::Lum_F>;
template class image::TrayImage<image::CompRepr::int8>;
template class image::TrayImage<image::CompRepr::float_>;
template class image::WritableTrayImage<image::CompRepr::int16>;
template class image::IndexedTrayImage<image::CompRepr::int8>;
template class image::WritableIndexedTrayImage<image::CompRepr::int8>;
template class image::PaletteImage<image::RGBA_8>;
template class image::PixelBlock<image::RGBA_8>;
template class image::IndexBlock<image::CompRepr::int8>;
template class image::Tray<float>;
template class image::BufferedImage<image::IntegerPixelFormat_RGBA_8>;
template class image::BufferedImage<image::IntegerPixelFormat_Lum_16>;
template class image::BufferedImage<image::IntegerPixelFormat_LumA<image::int8_type, 4>>;
template class image::BufferedImage<image::PackedPixelFormat_RGB<image::int8_type, image::ChannelPacking_332>>;
template class image::BufferedImage<image::PackedPixelFormat_RGBA<image::int32_type, image::ChannelPacking_8888, char, 8, 4, core::Endianness::little>>;
template class image::BufferedImage<image::SubwordPixelFormat_Lum<long, 8, 4>>;
template class image::BufferedImage<image::SubwordPixelFormat_RGB<long, 5, 2>>;
template class image::BufferedImage<image::IndexedPixelFormat_1<image::int8_type>>;
template class image::BufferedImage<image::IndexedPixelFormat_8<image::int8_type>>;
template class render::impl::FiniteCurveMemory<double>;
template class render::impl::FiniteSequenceMemory<double>;
