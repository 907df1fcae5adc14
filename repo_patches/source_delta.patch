From e83d21a0d747c60c2d8ac174b60512244d93d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 01/38] fix: only expect the images each mip level of a 3D
 texture has

---
 lib/src/Texture.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6195af9..b6805dd 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1152,9 +1152,10 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 	m_impl->faces = dimension == Dimension::Cube ? 6 : 1;
 
 	m_impl->images.resize(m_impl->mipLevels);
-	for (DepthImageList& depthImages : m_impl->images)
+	for (unsigned int mip = 0; mip < m_impl->mipLevels; ++mip)
 	{
-		depthImages.resize(std::max(m_impl->depth, 1U));
+		DepthImageList& depthImages = m_impl->images[mip];
+		depthImages.resize(this->depth(mip));
 		for (FaceImageList& faceImages : depthImages)
 			faceImages.resize(m_impl->faces);
 	}
-- 
2.43.0


From 029265463962c2ba58cf96844c608caf250f6bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 02/38] fix: assign the replacement of a custom mip image

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index b6805dd..89abc83 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -284,6 +284,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(const CustomMipImage
 	if (this == &other)
 		return *this;
 
+	replacement = other.replacement;
 	if (other.image == &other.imageStorage)
 	{
 		image = &imageStorage;
@@ -302,6 +303,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(CustomMipImage&& oth
 	if (this == &other)
 		return *this;
 
+	replacement = other.replacement;
 	if (other.image == &other.imageStorage)
 	{
 		image = &imageStorage;
-- 
2.43.0


From 1d7c645f665fc49890d3dc21c949b509cf50e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 03/38] fix: saturate when converting to 32-bit integers

---
 lib/src/StandardConverter.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/StandardConverter.h b/lib/src/StandardConverter.h
index d3616ca..f4ecf18 100644
--- a/lib/src/StandardConverter.h
+++ b/lib/src/StandardConverter.h
@@ -163,8 +163,9 @@ public:
 
 	void process(unsigned int x, unsigned int, ThreadData*) override
 	{
-		const float minVal = static_cast<float>(std::numeric_limits<T>::min());
-		const float maxVal = static_cast<float>(std::numeric_limits<T>::max());
+		// Float can't represent the limits of 32-bit integers.
+		const auto minVal = static_cast<double>(std::numeric_limits<T>::min());
+		const auto maxVal = static_cast<double>(std::numeric_limits<T>::max());
 
 		T* curData = reinterpret_cast<T*>(data().data()) + x*batchSize*C;
 		unsigned int row = x*batchSize/image().width();
@@ -183,8 +184,9 @@ public:
 			unsigned int col = (x*batchSize + i) % image().width();
 			for (unsigned int c = 0; c < C; ++c)
 			{
+				auto value = static_cast<double>(scanline[col*4 + c]);
 				curData[i*C + c] = static_cast<T>(
-					std::round(clamp(scanline[col*4 + c], minVal, maxVal)));
+					std::round(std::min(std::max(value, minVal), maxVal)));
 			}
 		}
 	}
-- 
2.43.0


From b9b0c74758c0860c15dbf6a0fb40c8a13b2dd488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 04/38] fix: don't carry a custom mip's state over to the next
 face or element

---
 lib/src/Texture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 89abc83..8f4f6d2 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1458,11 +1458,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 
 		// Then process mip by mip to make it easier to manage custom replacements.
-		Image prevImage;
 		for (unsigned int d = 0; d < depth; ++d)
 		{
 			for (unsigned int f = 0; f < m_impl->faces; ++f)
 			{
+				Image prevImage;
 				for (unsigned int mip = 1; mip < mipLevels; ++mip)
 				{
 					unsigned int mipWidth = width(mip);
-- 
2.43.0


From af7e0bf9cb6216075797c79f9a019d5714b30c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 05/38] fix: set the complex flag for DDS cube maps

---
 lib/src/SaveDds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/SaveDds.cpp b/lib/src/SaveDds.cpp
index b2bcbf3..3c086f5 100644
--- a/lib/src/SaveDds.cpp
+++ b/lib/src/SaveDds.cpp
@@ -592,7 +592,7 @@ Texture::SaveResult saveDds(const Texture& texture, std::ostream& stream)
 	if (texture.mipLevelCount() > 1)
 		header.caps |= DdsCapsFlags_Mipmap;
 	if (texture.mipLevelCount() > 1 || texture.dimension() == Texture::Dimension::Dim3D ||
-		texture.dimension() == Texture::Dimension::Dim3D || texture.isArray())
+		texture.dimension() == Texture::Dimension::Cube || texture.isArray())
 	{
 		header.caps |= DdsCapsFlags_Complex;
 	}
-- 
2.43.0


From 06aa41483777fd0c9572ed01e382610f68ad39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 06/38] fix: report the blue mask of an image

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0378669..753f89f 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -743,7 +743,7 @@ struct Image::Impl
 		: image(img), format(format), colorSpace(colorSpace), bitsPerPixel(FreeImage_GetBPP(img)),
 		width(FreeImage_GetWidth(img)), height(FreeImage_GetHeight(img)),
 		redMask(FreeImage_GetRedMask(img)), greenMask(FreeImage_GetGreenMask(img)),
-		blueMask(FreeImage_GetGreenMask(img)),
+		blueMask(FreeImage_GetBlueMask(img)),
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-- 
2.43.0


From b61a881101d9e1428bb57a64e20d9266bac9a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 07/38] fix: report the channel shifts of 32 BPP images

---
 lib/src/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 753f89f..ca3216e 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -747,21 +747,21 @@ struct Image::Impl
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-		if (redMask == FI_RGBA_RED)
+		if (redMask == FI_RGBA_RED_MASK)
 			redShift = FI_RGBA_RED_SHIFT;
 		else if (redMask == FI16_555_RED_MASK)
 			redShift = FI16_555_RED_SHIFT;
 		else if (redMask == FI16_565_RED_MASK)
 			redShift = FI16_565_RED_SHIFT;
 
-		if (greenMask == FI_RGBA_GREEN)
+		if (greenMask == FI_RGBA_GREEN_MASK)
 			greenShift = FI_RGBA_GREEN_SHIFT;
 		else if (greenMask == FI16_555_GREEN_MASK)
 			greenShift = FI16_555_GREEN_SHIFT;
 		else if (greenMask == FI16_565_GREEN_MASK)
 			greenShift = FI16_565_GREEN_SHIFT;
 
-		if (blueMask == FI_RGBA_BLUE)
+		if (blueMask == FI_RGBA_BLUE_MASK)
 			blueShift = FI_RGBA_BLUE_SHIFT;
 		else if (blueMask == FI16_555_BLUE_MASK)
 			blueShift = FI16_555_BLUE_SHIFT;
-- 
2.43.0


From 781c599c8713e580af526eff04b28ca50fac9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 08/38] fix: convert to grayscale in linear space when setting
 a pixel

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index ca3216e..f7a0da7 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1120,7 +1120,7 @@ bool Image::setPixel(unsigned int x, unsigned int y, const ColorRGBAd& color, bo
 			grayColor.r = grayColor.g = grayColor.b = linearToSRGB(toGrayscale(
 				sRGBToLinear(color.r), sRGBToLinear(color.g), sRGBToLinear(color.b)));
 			grayColor.a = color.a;
-			setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
+			return setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
 		}
 		return setPixelImpl(m_impl->format, scanline, x, color);
 	}
-- 
2.43.0


From 6e28d39258327ab3a29933117509e606a30136e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 09/38] fix: saturate when setting the pixels of integer images

---
 lib/src/Image.cpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index f7a0da7..dfa95c7 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -316,9 +316,12 @@ double clamp(double d)
 }
 
 template <typename T>
-T clamp(T v)
+T fromDouble(double d)
 {
-	return std::max(std::min(v, std::numeric_limits<T>::max()), std::numeric_limits<T>::lowest());
+	// Clamp before converting, since out of range conversions are undefined.
+	return static_cast<T>(std::max(std::min(d,
+		static_cast<double>(std::numeric_limits<T>::max())),
+		static_cast<double>(std::numeric_limits<T>::lowest())));
 }
 
 template <typename T>
@@ -557,20 +560,20 @@ bool setPixelImpl(Image::Format format, void* scanline, unsigned int x, const Co
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				fromDouble<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				fromDouble<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				fromDouble<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				fromDouble<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] =
@@ -673,20 +676,20 @@ bool setPixelNoGrayscaleImpl(Image::Format format, void* scanline, unsigned int
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				fromDouble<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::uint16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				fromDouble<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				fromDouble<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				fromDouble<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] = static_cast<float>(color.r);
-- 
2.43.0


From c1d6358fc19e8b8df603d1726dff04786e63d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 10/38] fix: report the number of items read from and written
 to image streams

---
 lib/src/Image.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index dfa95c7..922e1f9 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -209,8 +209,8 @@ bool isRGB16BPPFormat(Image::Format format)
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::istream*>(handle);
-	stream->read(reinterpret_cast<char*>(buffer), size*count);
-	return static_cast<unsigned int>(stream->gcount());
+	stream->read(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
+	return size == 0 ? 0 : static_cast<unsigned int>(stream->gcount()/size);
 }
 
 unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
@@ -256,8 +256,8 @@ unsigned int readOStream(void*, unsigned int, unsigned int, fi_handle)
 unsigned int writeOStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::ostream*>(handle);
-	stream->write(reinterpret_cast<char*>(buffer), size*count);
-	return count*size;
+	stream->write(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
+	return stream->good() ? count : 0;
 }
 
 int seekOStream(fi_handle handle, long offset, int origin)
-- 
2.43.0


From c6a61adbde8db222f5605a11acaf1d1dc9fc609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 11/38] fix: detect errors when flushing a saved texture file

---
 lib/src/Texture.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 8f4f6d2..1bc7088 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1649,7 +1649,13 @@ Texture::SaveResult Texture::save(const char* fileName, FileType fileType)
 	std::ofstream stream(fileName, std::ofstream::binary);
 	if (!stream.is_open())
 		return SaveResult::WriteError;
-	return save(stream, fileType);
+
+	SaveResult ret = save(stream, fileType);
+	// Some errors are only found once the remaining data is flushed.
+	stream.close();
+	if (ret == SaveResult::Success && !stream.good())
+		return SaveResult::WriteError;
+	return ret;
 }
 
 Texture::SaveResult Texture::save(std::ostream& stream, Texture::FileType fileType)
-- 
2.43.0


From f56756b1847ca8e23b9912025a802c4d373b8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 12/38] fix: allow image streams to seek back after reading
 past the end

---
 lib/src/Image.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 922e1f9..82d78f2 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -236,6 +236,8 @@ int seekIStream(fi_handle handle, long offset, int origin)
 		default:
 			return -1;
 	}
+	// Seeking is expected to succeed after reading past the end.
+	stream->clear(stream->rdstate() & std::ios_base::badbit);
 	stream->seekg(offset, dir);
 	return stream->good() ? 0 : -1;
 }
-- 
2.43.0


From 273b5662eeab2bdbe0eb47ee2dee2b7fd188f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 13/38] fix: report failures writing an image to a stream

---
 lib/src/Image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 82d78f2..440aa64 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -947,7 +947,8 @@ bool Image::save(std::ostream& stream, const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) != false;
+	// FreeImage doesn't detect all errors when writing to the stream.
+	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) && stream.good();
 }
 
 bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
-- 
2.43.0


From 7639544124a3b005f191c8e665c6cb10233597f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 14/38] fix: use the format of the resized data when resizing
 16-bit RGB images

---
 lib/src/Image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 440aa64..779c2dc 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1378,9 +1378,10 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 		case Format::Complex:
 			break;
 		default:
+			// FreeImage gives 24-bit images when resizing 16-bit RGB images.
 			image.m_impl.reset(Impl::create(
 				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
-				m_impl->format));
+				isRGB16BPPFormat(m_impl->format) ? Format::RGB8 : m_impl->format));
 			break;
 	}
 
-- 
2.43.0


From 42ecf34a19a8486c878cc74d17c2f68cb4a67b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 15/38] fix: leave a texture as-is when 3D custom mips are
 inconsistent

---
 lib/src/Texture.cpp | 52 ++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 1bc7088..82be1b4 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1343,6 +1343,32 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 
 	mipLevels = std::min(std::max(mipLevels, 1U),
 		maxMipmapLevels(dimension(), width(), height(), depth()));
+	if (m_impl->dimension == Dimension::Dim3D)
+	{
+		// If one depth is provided for a custom mip, all must be, and have consistent replacement
+		// between them. Check before any changes are made.
+		for (unsigned int mip = 1; mip < mipLevels; ++mip)
+		{
+			unsigned int mipDepth = std::max(m_impl->depth >> mip, 1U);
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			for (unsigned int d = 1; d < mipDepth; ++d)
+			{
+				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
+				if ((foundCustomMip == customMipImages.end()) !=
+					(firstCustomMip == customMipImages.end()))
+				{
+					return false;
+				}
+
+				if (foundCustomMip != customMipImages.end() &&
+					foundCustomMip->second.replacement != firstCustomMip->second.replacement)
+				{
+					return false;
+				}
+			}
+		}
+	}
+
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
@@ -1357,26 +1383,12 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 			unsigned int mipHeight = height(mip);
 			unsigned int mipDepth = depth(mip);
 
-			// Check for custom mips. If one depth is provided, all must be, and have consistent
-			// replacement between them.
-			bool customMips = false;
-			MipReplacement replacement = MipReplacement::Once;
-			for (unsigned int d = 0; d < mipDepth; ++d)
-			{
-				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
-				if (foundCustomMip == customMipImages.end())
-				{
-					if (customMips)
-						return false;
-				}
-				else if (d == 0)
-				{
-					customMips = true;
-					replacement = foundCustomMip->second.replacement;
-				}
-				else if (!customMips || replacement != foundCustomMip->second.replacement)
-					return false;
-			}
+			// Check for custom mips, which have already been checked to be consistent between the
+			// depths.
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			bool customMips = firstCustomMip != customMipImages.end();
+			MipReplacement replacement = customMips ? firstCustomMip->second.replacement :
+				MipReplacement::Once;
 
 			// Generated mips, either when no replacement is used or to resume previous state when
 			// replacement is set to once.
-- 
2.43.0


From 610ce9ceff3a579065de2264c0559869843fec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 16/38] fix: discard stale converted data when generating
 mipmaps

---
 lib/src/Texture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 82be1b4..c68b40e 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1372,6 +1372,10 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
+	// Any previously converted data no longer matches the images.
+	m_impl->format = Format::Unknown;
+	m_impl->textures.clear();
+
 	if (m_impl->dimension == Dimension::Dim3D)
 	{
 		// Mipmap along X, Y, and Z.
-- 
2.43.0


From 9490391be2472ca3db48990785979c126552fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 17/38] fix: report the failure to generate mipmaps

---
 tool/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 161f1f3..33abe4a 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -370,7 +370,11 @@ bool saveTexture(
 	{
 		if (args.log == CommandLine::Log::Verbose)
 			std::cout << "generating mipmaps" << std::endl;
-		texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages);
+		if (!texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages))
+		{
+			std::cerr << "error: failed to generate mipmaps" << std::endl;
+			return false;
+		}
 		customMipImages.clear();
 	}
 
-- 
2.43.0


From c8da1a1804e08a4aeb2eec78cd0f638e23fd4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 18/38] fix: reject mixing an image list with other inputs

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 910c6a4..fff941a 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1009,6 +1009,7 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
+			imageFile = true;
 			if (!readImageList(images, argv[++i]))
 			{
 				success = false;
-- 
2.43.0


From cce1792f8420670a0879399c0bf81881517c39aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 19/38] fix: keep the type provided before the format

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index fff941a..c0371d1 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1337,6 +1337,7 @@ bool CommandLine::parse(int argc, const char** argv)
 				success = false;
 				break;
 			}
+			typeSet = true;
 		}
 		else if (std::strcmp(argv[i], "--alpha") == 0)
 		{
-- 
2.43.0


From 35c887ab4263ab70c481f4739e88766c2c43751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 20/38] fix: check the depth of custom mips for cube maps

---
 tool/CommandLine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index c0371d1..4f8143f 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -751,6 +751,11 @@ bool validate(CommandLine& args)
 	}
 
 	auto depth = static_cast<unsigned int>(args.images.size());
+	if (args.imageType == CommandLine::ImageType::Cube ||
+		args.imageType == CommandLine::ImageType::CubeArray)
+	{
+		depth /= 6;
+	}
 	std::vector<unsigned int> levelDepthCounts;
 	for (const auto& customMip : args.customMipImages)
 	{
-- 
2.43.0


From 04f5953ce97bea069444fed3c1fc2258148d4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 21/38] fix: reject indices that are negative or out of range

---
 tool/CommandLine.cpp | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 4f8143f..496478c 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -16,10 +16,12 @@
 
 #include "CommandLine.h"
 #include <cassert>
+#include <cctype>
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <utility>
 
 #if CUTTLEFISH_WINDOWS
@@ -276,22 +278,30 @@ bool matches(const char* command, const char* shortCmd, const char* longCmd)
 	return std::strcmp(command, shortCmd) == 0 || std::strcmp(command, longCmd) == 0;
 }
 
-bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+bool strToIndex(std::size_t& index, const char* str)
 {
-	if (i >= argc - 1)
+	// strtoul() accepts negative numbers.
+	if (!std::isdigit(static_cast<unsigned char>(*str)))
 		return false;
 
 	char* endPtr;
-	const char* str = argv[i + 1];
 	unsigned long value = std::strtoul(str, &endPtr, 10);
-	if (endPtr != str + std::strlen(str))
+	if (*endPtr || value > std::numeric_limits<unsigned int>::max())
 		return false;
 
-	++i;
 	index = value;
 	return true;
 }
 
+bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+{
+	if (i >= argc - 1 || !strToIndex(index, argv[i + 1]))
+		return false;
+
+	++i;
+	return true;
+}
+
 bool strToCubeFace(Texture::CubeFace& face, const char* str)
 {
 	if (strcasecmp(str, "+x") == 0)
@@ -567,10 +577,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		if (curStr.empty())
 			continue;
 
-		char* endPtr;
-		const char* str = curStr.c_str();
-		std::size_t level = std::strtoul(str, &endPtr, 10);
-		if (endPtr != str + curStr.size())
+		std::size_t level;
+		if (!strToIndex(level, curStr.c_str()))
 		{
 			std::cerr << "error: invalid mip level " << curStr << std::endl;
 			return false;
@@ -579,13 +587,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		delim = readNextToken(curStr, stream, whitespace, newline, delim);
 
 		std::size_t depth = 0;
-		str = curStr.c_str();
-		std::size_t value = std::strtoul(str, &endPtr, 10);
-		if (endPtr == str + curStr.size())
-		{
-			depth = value;
+		if (strToIndex(depth, curStr.c_str()))
 			delim = readNextToken(curStr, stream, whitespace, newline, delim);
-		}
 
 		auto face = Texture::CubeFace::PosX;
 		if (strToCubeFace(face, curStr.c_str()))
@@ -765,6 +768,14 @@ bool validate(CommandLine& args)
 			return false;
 		}
 
+		// Dimensions are 32 bits, so there can't be more than 32 levels.
+		if (customMip.first.mipLevel >= 32)
+		{
+			std::cerr << "error: level " << customMip.first.mipLevel <<
+				" for custom mip out of range" << std::endl;
+			return false;
+		}
+
 		unsigned int thisDepth = depth;
 		if (args.dimension == Texture::Dimension::Dim3D)
 		{
-- 
2.43.0


From 0e38da30fe80aa7841c3bbebf6c80e1eaa6bb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 22/38] fix: use the color space of the texture for custom mips

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index c68b40e..4daa45d 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1445,6 +1445,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						mipWidth, mipHeight, filter);
 					if (thisMipImage.format() != Image::Format::RGBAF)
 						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+					thisMipImage.changeColorSpace(m_impl->colorSpace);
 				}
 			}
 
@@ -1521,6 +1522,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 							mipWidth, mipHeight, filter);
 						if (thisMipImage.format() != Image::Format::RGBAF)
 							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+						thisMipImage.changeColorSpace(m_impl->colorSpace);
 					}
 					else
 						thisMipImage = std::move(curMip);
-- 
2.43.0


From 10c7d12a16eaa26e462be7b70732ff5325ef4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 23/38] fix: encode negative, very small and very large values
 in B10G11R11

---
 lib/src/StandardConverter.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/lib/src/StandardConverter.cpp b/lib/src/StandardConverter.cpp
index d521474..076c13e 100644
--- a/lib/src/StandardConverter.cpp
+++ b/lib/src/StandardConverter.cpp
@@ -15,10 +15,36 @@
  */
 
 #include "StandardConverter.h"
+#include <cstring>
 
 namespace cuttlefish
 {
 
+// glm::packF2x11_1x10() doesn't handle negative, very small, or very large values.
+static std::uint32_t packUFloat(float value, unsigned int mantissaBits)
+{
+	const std::uint32_t infinity = 0x1FU << mantissaBits;
+	const float minNormal = 1.0f/(1 << 14);
+
+	if (std::isnan(value))
+		return infinity | ((1U << mantissaBits) - 1);
+	else if (value <= 0.0f)
+		return 0;
+	else if (std::isinf(value))
+		return infinity;
+	else if (value < minNormal)
+	{
+		return static_cast<std::uint32_t>(value/minNormal*
+			static_cast<float>(1 << mantissaBits));
+	}
+
+	std::uint32_t bits;
+	std::memcpy(&bits, &value, sizeof(bits));
+	// Re-bias the exponent from 127 to 15.
+	std::uint32_t packed = (bits >> (23 - mantissaBits)) - (112U << mantissaBits);
+	return std::min(packed, infinity - 1);
+}
+
 void R4G4Converter::process(unsigned int x, unsigned int, ThreadData*)
 {
 	std::uint8_t* curData = reinterpret_cast<std::uint8_t*>(data().data()) + x*batchSize;
@@ -439,7 +465,10 @@ void B10R11R11UFloatConverter::process(unsigned int x, unsigned int, ThreadData*
 		}
 
 		unsigned int col = (x*batchSize + i) % image().width();
-		curData[i] = glm::packF2x11_1x10(*reinterpret_cast<const glm::vec3*>(scanline + col));
+		std::uint32_t r = packUFloat(scanline[col].r, 6);
+		std::uint32_t g = packUFloat(scanline[col].g, 6);
+		std::uint32_t b = packUFloat(scanline[col].b, 5);
+		curData[i] = r | (g << 11) | (b << 22);
 	}
 }
 
-- 
2.43.0


From 75f863e2c4e27268a669dd62501ca62cdee17d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 24/38] fix: use the full range of E5B9G9R9

---
 lib/src/StandardConverter.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/lib/src/StandardConverter.cpp b/lib/src/StandardConverter.cpp
index 076c13e..4255bfa 100644
--- a/lib/src/StandardConverter.cpp
+++ b/lib/src/StandardConverter.cpp
@@ -45,6 +45,31 @@ static std::uint32_t packUFloat(float value, unsigned int mantissaBits)
 	return std::min(packed, infinity - 1);
 }
 
+// glm::packF3x9_E1x5() clamps to 32768 rather than the maximum value of the format.
+static std::uint32_t packSharedExponent(float r, float g, float b)
+{
+	const float maxValue = 65408.0f;
+	r = r > 0.0f ? std::min(r, maxValue) : 0.0f;
+	g = g > 0.0f ? std::min(g, maxValue) : 0.0f;
+	b = b > 0.0f ? std::min(b, maxValue) : 0.0f;
+
+	const float maxChannel = std::max(r, std::max(g, b));
+	if (maxChannel == 0.0f)
+		return 0;
+
+	int exponent;
+	std::frexp(maxChannel, &exponent);
+	exponent = std::max(exponent, -15);
+	if (std::round(std::ldexp(maxChannel, 9 - exponent)) > 0x1FF)
+		++exponent;
+
+	const float scale = std::ldexp(1.0f, 9 - exponent);
+	return static_cast<std::uint32_t>(std::round(r*scale)) |
+		(static_cast<std::uint32_t>(std::round(g*scale)) << 9) |
+		(static_cast<std::uint32_t>(std::round(b*scale)) << 18) |
+		(static_cast<std::uint32_t>(exponent + 15) << 27);
+}
+
 void R4G4Converter::process(unsigned int x, unsigned int, ThreadData*)
 {
 	std::uint8_t* curData = reinterpret_cast<std::uint8_t*>(data().data()) + x*batchSize;
@@ -489,7 +514,7 @@ void E5B9G9R9UFloatConverter::process(unsigned int x, unsigned int, ThreadData*)
 		}
 
 		unsigned int col = (x*batchSize + i) % image().width();
-		curData[i] = glm::packF3x9_E1x5(*reinterpret_cast<const glm::vec3*>(scanline + col));
+		curData[i] = packSharedExponent(scanline[col].r, scanline[col].g, scanline[col].b);
 	}
 }
 
-- 
2.43.0


From fcfe4e3e48e8ba12eb66d178f73792dbdd23d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 25/38] fix: report the alpha channel of A4R4G4B4

---
 lib/src/Texture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 4daa45d..52e85ad 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -472,6 +472,7 @@ bool Texture::hasAlpha(Format format)
 	{
 		case Texture::Format::R4G4B4A4:
 		case Texture::Format::B4G4R4A4:
+		case Texture::Format::A4R4G4B4:
 		case Texture::Format::R5G5B5A1:
 		case Texture::Format::B5G5R5A1:
 		case Texture::Format::A1R5G5B5:
-- 
2.43.0


From 61413ec8c0df21ab3185c8f7921b7e1a879503a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 26/38] fix: use a signed type for signed R8G8 in KTX files

---
 lib/src/SaveKtx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b7a45df..faa1f85 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -298,22 +298,25 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::R8G8:
-			info.type = GL_UNSIGNED_BYTE;
 			info.typeSize = 1;
 			info.format = GL_RG;
 			info.baseInternalFormat = GL_LUMINANCE_ALPHA;
 			switch (type)
 			{
 				case Texture::Type::UNorm:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8;
 					return true;
 				case Texture::Type::SNorm:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8_SNORM;
 					return true;
 				case Texture::Type::UInt:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8UI;
 					return true;
 				case Texture::Type::Int:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
 					return true;
 				default:
-- 
2.43.0


From 8df215801e7fa2a05b1bd1da900e697d7716b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 27/38] fix: describe the byte order of B8G8R8A8 and A8B8G8R8
 in KTX files

---
 lib/src/SaveKtx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index faa1f85..b20fe79 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -381,7 +381,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::B8G8R8A8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8;
+			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_BGRA;
 			switch (type)
@@ -408,7 +408,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::A8B8G8R8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
+			info.type = GL_UNSIGNED_INT_8_8_8_8;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_RGBA;
 			switch (type)
-- 
2.43.0


From 9b62ac8da2cb8e97073f7e82026b216dd543b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 28/38] fix: use integer formats for integer textures in KTX
 files

---
 lib/src/SaveKtx.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b20fe79..aaa6196 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -1183,6 +1183,24 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 	return false;
 }
 
+// Integer internal formats require the corresponding integer format.
+static std::uint32_t getIntegerFormat(std::uint32_t format)
+{
+	switch (format)
+	{
+		case GL_RED:
+			return GL_RED_INTEGER;
+		case GL_RG:
+			return GL_RG_INTEGER;
+		case GL_RGB:
+			return GL_RGB_INTEGER;
+		case GL_RGBA:
+			return GL_RGBA_INTEGER;
+		default:
+			return format;
+	}
+}
+
 bool isValidForKtx(Texture::Format format, Texture::Type type)
 {
 	FormatInfo info;
@@ -1198,6 +1216,9 @@ Texture::SaveResult saveKtx(const Texture& texture, std::ostream& stream)
 	if (!getFormatInfo(info, texture.format(), texture.type(), texture.colorSpace()))
 		return Texture::SaveResult::Unsupported;
 
+	if (texture.type() == Texture::Type::UInt || texture.type() == Texture::Type::Int)
+		info.format = getIntegerFormat(info.format);
+
 	if (!write(stream, header))
 		return Texture::SaveResult::WriteError;
 
-- 
2.43.0


From 334e90594b01e5a9a88b2e40c2c6053e6446a58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 29/38] fix: round when setting the pixels of integer images

---
 lib/src/Image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 779c2dc..32d0378 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -321,9 +321,9 @@ template <typename T>
 T fromDouble(double d)
 {
 	// Clamp before converting, since out of range conversions are undefined.
-	return static_cast<T>(std::max(std::min(d,
+	return static_cast<T>(std::round(std::max(std::min(d,
 		static_cast<double>(std::numeric_limits<T>::max())),
-		static_cast<double>(std::numeric_limits<T>::lowest())));
+		static_cast<double>(std::numeric_limits<T>::lowest()))));
 }
 
 template <typename T>
-- 
2.43.0


From 34cce37d2aa2dd829298a7270a8d108381afc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 30/38] fix: keep the precision when converting images with 8
 bits or fewer per channel

---
 lib/src/Image.cpp | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 32d0378..824540b 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -206,6 +206,40 @@ bool isRGB16BPPFormat(Image::Format format)
 	}
 }
 
+bool isLowPrecisionFormat(Image::Format format)
+{
+	switch (format)
+	{
+		case Image::Format::Gray8:
+		case Image::Format::RGB8:
+		case Image::Format::RGBA8:
+			return true;
+		default:
+			return isRGB16BPPFormat(format);
+	}
+}
+
+bool needPrecisionFallback(Image::Format srcFormat, Image::Format dstFormat)
+{
+	// FreeImage doesn't use the full range when expanding to 16 bits, doesn't normalize the values
+	// for integer types, and converts to grayscale with 8 bits of precision.
+	switch (dstFormat)
+	{
+		case Image::Format::Gray16:
+		case Image::Format::RGB16:
+		case Image::Format::RGBA16:
+		case Image::Format::Int16:
+		case Image::Format::Int32:
+		case Image::Format::UInt32:
+		case Image::Format::Float:
+			return isLowPrecisionFormat(srcFormat);
+		case Image::Format::RGBAF:
+			return isRGB16BPPFormat(srcFormat);
+		default:
+			return false;
+	}
+}
+
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::istream*>(handle);
@@ -1157,7 +1191,7 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 
 	// Special case: UInt16 type gets treated by FreeImage as Gray16, so always use fallback
 	// for UInt16.
-	if (srcFormat != Format::UInt16)
+	if (srcFormat != Format::UInt16 && !needPrecisionFallback(srcFormat, dstFormat))
 	{
 		switch (dstFormat)
 		{
-- 
2.43.0


From cd952567965f5fbb691640304b99119b3817d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 31/38] fix: report all write errors when saving an image to a
 file

---
 lib/src/Image.cpp | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 824540b..00a8b07 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -326,6 +326,30 @@ long tellOStream(fi_handle handle)
 
 FreeImageIO ostreamIO{&readOStream, &writeOStream, &seekOStream, tellOStream};
 
+unsigned int readFile(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
+{
+	return static_cast<unsigned int>(std::fread(buffer, size, count,
+		reinterpret_cast<std::FILE*>(handle)));
+}
+
+unsigned int writeFile(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
+{
+	return static_cast<unsigned int>(std::fwrite(buffer, size, count,
+		reinterpret_cast<std::FILE*>(handle)));
+}
+
+int seekFile(fi_handle handle, long offset, int origin)
+{
+	return std::fseek(reinterpret_cast<std::FILE*>(handle), offset, origin);
+}
+
+long tellFile(fi_handle handle)
+{
+	return std::ftell(reinterpret_cast<std::FILE*>(handle));
+}
+
+FreeImageIO fileIO{&readFile, &writeFile, &seekFile, &tellFile};
+
 double toDoubleNorm(std::uint8_t value)
 {
 	return value/255.0;
@@ -969,7 +993,18 @@ bool Image::save(const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	return FreeImage_Save(format, m_impl->image, fileName) != false;
+	std::FILE* file = std::fopen(fileName, "w+b");
+	if (!file)
+		return false;
+
+	bool success = FreeImage_SaveToHandle(format, m_impl->image, &fileIO, file) != false;
+	// FreeImage doesn't detect all errors when writing to the file, some of which are only found
+	// once the remaining data is flushed.
+	if (std::ferror(file))
+		success = false;
+	if (std::fclose(file) != 0)
+		success = false;
+	return success;
 }
 
 bool Image::save(std::ostream& stream, const char* fileName)
-- 
2.43.0


From 5b5a894ee7eaec46bcb8b66ce925e985d1cb050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 32/38] fix: reject an unknown format given after a valid one

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 496478c..716aa76 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1298,6 +1298,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			}
 
 			++i;
+			format = Texture::Format::Unknown;
 			for (const auto& formatInfo : formatMap)
 			{
 				if (strcasecmp(formatInfo.second, argv[i]) == 0)
-- 
2.43.0


From 58b4e0fe47364c34b286e4951712e441f0c85fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 33/38] fix: reject empty, negative and out of range numbers on
 the command line

---
 tool/CommandLine.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 716aa76..b0ebccc 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -473,9 +473,10 @@ bool readSize(int& size, int& i, int argc, const char** argv)
 		size = CommandLine::MaxNearestPO2;
 	else
 	{
-		char* endPtr;
-		unsigned long value = std::strtol(argv[i], &endPtr, 10);
-		if (endPtr != argv[i] + std::strlen(argv[i]))
+		// Negative numbers are used for the special sizes.
+		std::size_t value;
+		if (!strToIndex(value, argv[i]) || value == 0 ||
+			value > static_cast<std::size_t>(std::numeric_limits<int>::max()))
 		{
 			std::cerr << "error: invalid size " << argv[i] << std::endl;
 			return false;
@@ -838,17 +839,11 @@ bool CommandLine::parse(int argc, const char** argv)
 	{
 		if (matches(argv[i], "-j", "--jobs"))
 		{
-			jobs = Texture::allCores;
-			if (i + 1 < argc)
-			{
-				char* endPtr;
-				unsigned long jobsl = std::strtol(argv[i + 1], &endPtr, 10);
-				if (endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
-				{
-					jobs = static_cast<unsigned int>(jobsl);
-					++i;
-				}
-			}
+			std::size_t count;
+			if (readIndex(count, i, argc, argv))
+				jobs = static_cast<unsigned int>(count);
+			else
+				jobs = Texture::allCores;
 		}
 		else if (matches(argv[i], "-q", "--quiet"))
 			log = Log::Quiet;
@@ -1138,7 +1133,7 @@ bool CommandLine::parse(int argc, const char** argv)
 
 			char* endPtr;
 			long angle = std::strtol(argv[++i], &endPtr, 10);
-			if (endPtr != argv[i] + std::strlen(argv[i]) || angle % 90 != 0)
+			if (!*argv[i] || *endPtr || angle % 90 != 0)
 			{
 				std::cerr << "error: rotate angle must be a multiple of 90 degrees" << std::endl;
 				success = false;
@@ -1205,7 +1200,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			{
 				char* endPtr;
 				double h = std::strtod(argv[i + 1], &endPtr);
-				if (endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
+				if (*argv[i + 1] && !*endPtr)
 				{
 					normalHeight = h;
 					++i;
-- 
2.43.0


From d3f9231d857675b6f44c30ede5d9dbdd56f59273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 34/38] fix: load inverted grayscale images and those with
 fewer than 8 bits correctly

---
 lib/src/Image.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 00a8b07..29df635 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -777,10 +777,14 @@ struct Image::Impl
 		if (!image)
 			return nullptr;
 
-		if (FreeImage_GetColorType(image) == FIC_PALETTE)
+		FREE_IMAGE_COLOR_TYPE colorType = FreeImage_GetColorType(image);
+		if (colorType == FIC_PALETTE || colorType == FIC_MINISWHITE || FreeImage_GetBPP(image) < 8)
 		{
 			FIBITMAP* newImage;
-			if (FreeImage_IsTransparent(image))
+			// Grayscale images may be inverted or have fewer than 8 bits.
+			if (colorType != FIC_PALETTE)
+				newImage = FreeImage_ConvertToGreyscale(image);
+			else if (FreeImage_IsTransparent(image))
 				newImage = FreeImage_ConvertTo32Bits(image);
 			else
 				newImage = FreeImage_ConvertTo24Bits(image);
-- 
2.43.0


From 9cb0a8201a706d44f145fd3ef8b04c1afb57f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 35/38] fix: save image formats that need to read back what was
 written to streams and memory

---
 lib/src/Image.cpp | 61 +++++++++++++----------------------------------
 1 file changed, 17 insertions(+), 44 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 29df635..ab04a1b 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -284,48 +284,6 @@ long tellIStream(fi_handle handle)
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
 
-unsigned int readOStream(void*, unsigned int, unsigned int, fi_handle)
-{
-	return 0;
-}
-
-unsigned int writeOStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	stream->write(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
-	return stream->good() ? count : 0;
-}
-
-int seekOStream(fi_handle handle, long offset, int origin)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	std::ios_base::seekdir dir;
-	switch (origin)
-	{
-		case SEEK_SET:
-			dir = std::ios_base::beg;
-			break;
-		case SEEK_CUR:
-			dir = std::ios_base::cur;
-			break;
-		case SEEK_END:
-			dir = std::ios_base::end;
-			break;
-		default:
-			return -1;
-	}
-	stream->seekp(offset, dir);
-	return stream->good() ? 0 : -1;
-}
-
-long tellOStream(fi_handle handle)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	return static_cast<long>(stream->tellp());
-}
-
-FreeImageIO ostreamIO{&readOStream, &writeOStream, &seekOStream, tellOStream};
-
 unsigned int readFile(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	return static_cast<unsigned int>(std::fread(buffer, size, count,
@@ -1020,8 +978,23 @@ bool Image::save(std::ostream& stream, const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	// FreeImage doesn't detect all errors when writing to the stream.
-	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) && stream.good();
+	// Some formats need to read back and seek within what was written, which isn't possible for all
+	// streams.
+	FIMEMORY* memoryStream = FreeImage_OpenMemory();
+	if (!memoryStream)
+		return false;
+
+	BYTE* data = nullptr;
+	DWORD size = 0;
+	bool success = FreeImage_SaveToMemory(format, m_impl->image, memoryStream) &&
+		FreeImage_AcquireMemory(memoryStream, &data, &size);
+	if (success)
+	{
+		stream.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(size));
+		success = stream.good();
+	}
+	FreeImage_CloseMemory(memoryStream);
+	return success;
 }
 
 bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
-- 
2.43.0


From 9aa3f899bc19945bd45b12e6b7f1dba7f9a46c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 36/38] fix: load images from streams that don't start at the
 beginning of the image

---
 lib/src/Image.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index ab04a1b..6c173ea 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -240,9 +240,16 @@ bool needPrecisionFallback(Image::Format srcFormat, Image::Format dstFormat)
 	}
 }
 
+// Positions are relative to where the image starts, as some formats use absolute offsets.
+struct IStreamInfo
+{
+	std::istream* stream;
+	std::istream::off_type start;
+};
+
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
-	auto stream = reinterpret_cast<std::istream*>(handle);
+	auto stream = reinterpret_cast<IStreamInfo*>(handle)->stream;
 	stream->read(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
 	return size == 0 ? 0 : static_cast<unsigned int>(stream->gcount()/size);
 }
@@ -254,11 +261,14 @@ unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
 
 int seekIStream(fi_handle handle, long offset, int origin)
 {
-	auto stream = reinterpret_cast<std::istream*>(handle);
+	auto info = reinterpret_cast<IStreamInfo*>(handle);
+	std::istream* stream = info->stream;
+	std::istream::off_type streamOffset = offset;
 	std::ios_base::seekdir dir;
 	switch (origin)
 	{
 		case SEEK_SET:
+			streamOffset += info->start;
 			dir = std::ios_base::beg;
 			break;
 		case SEEK_CUR:
@@ -272,14 +282,15 @@ int seekIStream(fi_handle handle, long offset, int origin)
 	}
 	// Seeking is expected to succeed after reading past the end.
 	stream->clear(stream->rdstate() & std::ios_base::badbit);
-	stream->seekg(offset, dir);
+	stream->seekg(streamOffset, dir);
 	return stream->good() ? 0 : -1;
 }
 
 long tellIStream(fi_handle handle)
 {
-	auto stream = reinterpret_cast<std::istream*>(handle);
-	return static_cast<long>(stream->tellg());
+	auto info = reinterpret_cast<IStreamInfo*>(handle);
+	std::istream::off_type position = info->stream->tellg();
+	return position < 0 ? -1L : static_cast<long>(position - info->start);
 }
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
@@ -907,7 +918,8 @@ bool Image::load(const char* fileName, ColorSpace colorSpace)
 bool Image::load(std::istream& stream, ColorSpace colorSpace)
 {
 	// Seeking is needed to detect the file type.
-	if (stream.tellg() < 0)
+	IStreamInfo info = {&stream, stream.tellg()};
+	if (info.start < 0)
 	{
 		std::vector<std::uint8_t> data;
 		readStreamData(data, stream);
@@ -916,11 +928,11 @@ bool Image::load(std::istream& stream, ColorSpace colorSpace)
 
 	reset();
 
-	FREE_IMAGE_FORMAT format = FreeImage_GetFileTypeFromHandle(&istreamIO, &stream);
+	FREE_IMAGE_FORMAT format = FreeImage_GetFileTypeFromHandle(&istreamIO, &info);
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	m_impl.reset(Impl::create(FreeImage_LoadFromHandle(format, &istreamIO, &stream), colorSpace,
+	m_impl.reset(Impl::create(FreeImage_LoadFromHandle(format, &istreamIO, &info), colorSpace,
 		Format::Invalid));
 	return m_impl != nullptr;
 }
-- 
2.43.0


From ee3f90c478898d6a01f4937814603b90088de4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 37/38] fix: give custom mips an image when their format
 doesn't support the filter

---
 lib/src/Texture.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 52e85ad..4436f20 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1444,6 +1444,12 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					Image& thisMipImage = mipImages[d];
 					thisMipImage = foundCustomMip->second.image->resize(
 						mipWidth, mipHeight, filter);
+					// Some formats can't be resized with all filters.
+					if (!thisMipImage)
+					{
+						thisMipImage = foundCustomMip->second.image->convert(
+							Image::Format::RGBAF).resize(mipWidth, mipHeight, filter);
+					}
 					if (thisMipImage.format() != Image::Format::RGBAF)
 						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
 					thisMipImage.changeColorSpace(m_impl->colorSpace);
@@ -1521,6 +1527,12 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					{
 						thisMipImage = foundCustomMip->second.image->resize(
 							mipWidth, mipHeight, filter);
+						// Some formats can't be resized with all filters.
+						if (!thisMipImage)
+						{
+							thisMipImage = foundCustomMip->second.image->convert(
+								Image::Format::RGBAF).resize(mipWidth, mipHeight, filter);
+						}
 						if (thisMipImage.format() != Image::Format::RGBAF)
 							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
 						thisMipImage.changeColorSpace(m_impl->colorSpace);
-- 
2.43.0


From 6f3434fff47a36f29632e275ef8838f23ed8211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 38/38] fix: don't allocate space for more conversion threads
 than are used

---
 lib/src/Converter.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index e6fbb77..6753673 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -511,11 +511,6 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 	std::vector<std::pair<unsigned int, unsigned int>> jobs;
 	std::vector<std::unique_ptr<ThreadData>> threadData;
 	std::vector<std::thread> threads;
-	if (threadCount > 1)
-	{
-		threadData.reserve(threadCount);
-		threads.reserve(threadCount);
-	}
 
 	textureData.resize(images.size());
 	for (unsigned int mip = 0; mip < images.size(); ++mip)
@@ -555,6 +550,10 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 				else
 				{
 					std::atomic<unsigned int> curJob(0);
+					// Don't use the requested count, which may be far more than can be used.
+					threadData.reserve(curThreads);
+					threads.reserve(curThreads);
+
 					// Initialize all thread data first in case they work with global data, such as
 					// library initialization. (some of which is beyond our control)
 					for (unsigned int i = 0; i < curThreads; ++i)
-- 
2.43.0

