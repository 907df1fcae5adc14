#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only to keep the lines readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Integer and normalised texel encodings store the nearest representable value",
  "Converting a texture to any uncompressed normalised or integer format stores, for every channel of every texel, the representable code nearest to the source value after clamping it to the format's range. Each channel lands in the bits the format's name assigns to it, and the remaining channels do not influence it.",
  ["inputs"], "every finite (and infinite) 32-bit float in every channel, for each of the 29 packed, 8-, 10-, 16- and 32-bit integer formats and each type they support",
  "The conversion tests use one fixed ramp image per format and compare with a tolerance; 2^32 values per channel, rounding ties, saturation and cross-channel leakage are never reached.",
  ["lib/src/StandardConverter.h", "lib/src/StandardConverter.cpp", "lib/src/Converter.cpp"],
  [("clamp, scale, round and shift per format", "lib/src/StandardConverter.cpp process() of each converter; UNormConverter/SNormConverter/IntConverter in StandardConverter.h"), ("selection of the converter for a format and type", "lib/src/Converter.cpp createConverter")],
  obs=["Texture::data()"])

p("C02", "Floating-point texel encodings round correctly and keep every channel",
  "Converting to a 32-bit float format stores each channel bit for bit; converting to a 16-bit float format stores the nearest half-precision value (overflow becoming infinity, sign kept); the packed 11/11/10-bit unsigned float format stores each channel within one step of its value in its own bits, and the shared-exponent format stores each non-negative channel within one step of the exponent chosen for the largest channel.",
  ["inputs"], "every 32-bit float in each channel of the float formats; every non-negative value below the format's maximum for the packed unsigned float formats",
  "The tests convert one ramp of values between 0 and 1 with a tolerance; denormals, ties, overflow, negative values and large exponents are not sampled.",
  ["lib/src/StandardConverter.h", "lib/src/StandardConverter.cpp", "lib/src/HalfFloat.h"],
  [("hardware and software half conversion", "lib/src/HalfFloat.h, HalfConverter in lib/src/StandardConverter.h"), ("packed float encoders", "B10R11R11UFloatConverter, E5B9G9R9UFloatConverter in lib/src/StandardConverter.cpp")],
  obs=["Texture::data()"])

p("C03", "Conversion fills each texel exactly once for any size, threads and schedule",
  "However wide or high the texture is, however many threads are requested and however they are scheduled, conversion writes every texel of every surface exactly once with the value of the source pixel at the same position, in row order without padding and never outside its surface. Concurrent conversion has no data race and gives the same bytes as a conversion on one thread.",
  ["inputs", "schedules", "configurations"], "texture widths and heights, thread counts, and all interleavings of the worker threads",
  "The tests convert one fixed image size with one thread or with whatever schedule the machine produces; work is split into fixed batches that cross row ends, so other sizes take other paths and schedules cannot be enumerated by running.",
  ["lib/src/Converter.cpp", "lib/src/StandardConverter.h", "lib/src/StandardConverter.cpp"],
  [("work distribution over an atomic job counter and join", "lib/src/Converter.cpp Converter::convert"), ("batches of texels that cross rows", "StandardConverter::jobsX and every process()")],
  obs=["Texture::data()", "Texture::dataSize()"])

p("C04", "Format support queries agree with what conversion and saving actually do",
  "A texture in linear space converts to a format and type exactly when the library reports that pair as valid, a texture in sRGB space exactly when the pair additionally has native sRGB support, and saving to a container succeeds exactly when the library reports the pair as valid for that container, and otherwise reports it as unsupported. The size of each converted surface is exactly its number of blocks times the reported block size.",
  ["inputs", "configurations"], "every format and type value including out-of-range ones, both colour spaces, the three containers, and every texture dimension kind",
  "The parameterised tests enumerate the pairs that are meant to work; pairs that must be rejected, and agreement of the several independent tables, are not compared.",
  ["lib/src/Texture.cpp", "lib/src/Converter.cpp", "lib/src/SaveDds.cpp", "lib/src/SaveKtx.cpp", "lib/src/SavePvr.cpp"],
  [("validity and block tables", "Texture::isFormatValid, hasNativeSRGB, blockWidth/blockHeight/blockSize in lib/src/Texture.cpp"), ("converter selection", "lib/src/Converter.cpp createConverter"), ("container format tables", "isValidForDds / isValidForKtx / isValidForPvr")],
  obs=["Texture::convert()", "Texture::save()", "Texture::dataSize()"])

p("C05", "Mip chain and surface geometry are consistent for every texture size",
  "For every texture dimension, size and requested level count, the number of mip levels is the request limited to at least one and at most the number of halvings until every mipped axis is one, and each level's width, height and (for 3D) depth is the base size halved per level with a minimum of one while array sizes stay constant. Every query outside the texture's levels, layers and faces reports size zero, an empty image or no data instead of touching memory it does not own.",
  ["inputs"], "all 32-bit widths, heights, depths and level counts for the size arithmetic; small stored textures for the image and data queries",
  "Tests check a handful of power-of-two sizes; non-square, non-power-of-two, extreme and degenerate sizes and out-of-range queries are unbounded.",
  ["lib/src/Texture.cpp"],
  [("level count", "Texture::maxMipmapLevels, Texture::initialize"), ("per-level sizes and range checks", "Texture::width/height/depth/getImage/data/dataSize")],
  obs=["Texture::mipLevelCount()", "Texture::width()", "Texture::depth()"])

p("C06", "Texture state follows its lifecycle under every sequence of operations",
  "Under any sequence of initialising, setting images, generating mipmaps, converting, copying, moving and resetting, an operation other than initialising (which always starts over) that reports failure leaves the reported state of the texture unchanged, images are only accepted at the exact size of an existing surface, and conversion succeeds only when every surface has an image. A texture reports converted data exactly when the last conversion succeeded and the surfaces have not been replaced by a new mip chain since, and then every surface of every level has data.",
  ["histories", "inputs"], "all sequences of public texture operations up to the stated length, with symbolic sizes, levels, layers, faces and formats",
  "The tests exercise a few straight-line sequences; orderings such as failing operations, repeated conversions, and operations after conversion or reset are not covered.",
  ["lib/src/Texture.cpp", "lib/include/cuttlefish/Texture.h"],
  [("state transitions", "Texture::initialize, setImage, generateMipmaps, convert, reset in lib/src/Texture.cpp")],
  state=[("images", "source images per level, layer and face", "Texture::Impl::images"), ("textures", "converted data", "Texture::Impl::textures")],
  obs=["Texture::converted()", "Texture::imagesComplete()", "Texture::dataSize()"])

p("C07", "Generated mip chains are complete, correctly sized and honour custom levels",
  "Generating mipmaps gives every level, layer and face an image of that level's size in the texture's colour space, with base-level images untouched. A custom level's image appears at exactly its level, layer and face; with continue it also feeds the following generated levels of that layer and face, with once the following levels are generated as if it were absent, and no other layer or face is affected. For 3D textures custom levels that do not cover all depths with one replacement mode are refused without any change.",
  ["inputs", "configurations", "histories"], "texture kinds, sizes, layers, faces, level counts and any set of custom levels with any replacement mode, for images of symbolic constant colour",
  "The tests check chains for a few sizes and one or two custom levels; the interaction of replacement modes over levels, layers and faces is combinatorial.",
  ["lib/src/Texture.cpp"],
  [("mip generation", "Texture::generateMipmaps, generateMips3d in lib/src/Texture.cpp")],
  obs=["Texture::getImage()"])

p("C08", "DDS files describe exactly the texture saved and contain exactly its data",
  "Every saved DDS file starts with a header whose magic, sizes, dimensions, mip count, pitch, pixel format, DXGI format, dimension kind, array size, cube and alpha flags describe the saved texture. The header is followed by exactly the converted data of every surface once, ordered by array element, then cube face, then mip level from largest to smallest, with nothing in between or after.",
  ["inputs", "configurations"], "every supported format and type, texture kind, size, array size, mip count, alpha mode and colour space within the bounds, with symbolic texel data",
  "The save tests only check that saving succeeds; the bytes are not compared.",
  ["lib/src/SaveDds.cpp"],
  [("header fields and payload order", "saveDds in lib/src/SaveDds.cpp"), ("format table", "getDdsFormat in lib/src/SaveDds.cpp")],
  obs=["Texture::save()"])

p("C09", "KTX files describe exactly the texture saved and contain exactly its data",
  "Every saved KTX file has the KTX 1.1 identifier and a header whose GL type, type size, format, internal format, base format, dimensions, array, face and mip counts describe the saved texture. For each mip level in order it holds the image size and then exactly the converted data of that level ordered by layer, then face, then depth, with rows and faces padded to four bytes as the container requires and nothing after.",
  ["inputs", "configurations"], "every supported format and type, texture kind, size, array size and mip count within the bounds, with symbolic texel data",
  "The save tests only check that saving succeeds; the bytes are not compared.",
  ["lib/src/SaveKtx.cpp"],
  [("header fields, image sizes, padding and payload order", "saveKtx in lib/src/SaveKtx.cpp"), ("format table", "getFormatInfo in lib/src/SaveKtx.cpp")],
  obs=["Texture::save()"])

p("C10", "PVR files describe exactly the texture saved and contain exactly its data",
  "Every saved PVR file starts with a version 3 header whose flags, pixel format, colour space, channel type, dimensions, surface, face and mip counts and metadata describe the saved texture. It is followed by exactly the converted data of every surface once, ordered by mip level, then array element, then face, then depth, with nothing in between or after.",
  ["inputs", "configurations"], "every supported format and type, texture kind, size, array size, mip count, alpha mode and colour space within the bounds, with symbolic texel data",
  "The save tests only check that saving succeeds; the bytes are not compared.",
  ["lib/src/SavePvr.cpp"],
  [("header fields, metadata and payload order", "savePvr in lib/src/SavePvr.cpp"), ("format table", "getPvrFormat in lib/src/SavePvr.cpp")],
  obs=["Texture::save()"])

p("C11", "Every write failure while saving a texture or image is reported",
  "If writing fails at any byte of the output of a file or a stream, saving reports a write error and never success, for a file also when the error only shows up when the buffered data is flushed; if no write fails, saving reports success and the complete bytes are in the output. Saving to an unwritable path, with no converted data, or with an unknown file type reports an error without a partial success.",
  ["fault_sequences", "inputs"], "the byte offset of the first failing write, for each container and image codec modelled, each save interface, and small textures",
  "The tests only save to good destinations and to one path that cannot be opened; they never make a write fail part way.",
  ["lib/src/Texture.cpp", "lib/src/SaveDds.cpp", "lib/src/SaveKtx.cpp", "lib/src/SavePvr.cpp", "lib/src/Image.cpp"],
  [("stream state checks after each write", "write helpers in lib/src/SaveDds.cpp, SaveKtx.cpp, SavePvr.cpp"), ("flush before reporting", "Texture::save(fileName) in lib/src/Texture.cpp"), ("stream adapters for the image codecs", "FreeImageIO callbacks in lib/src/Image.cpp")],
  obs=["Texture::save()", "Image::save()"])

p("C12", "Saving and loading give the same result through every interface",
  "Saving a texture or image to a file, to a stream or to memory produces the same bytes and result, and reading data from a file, from a stream (seekable or not, in any chunking) or from memory produces the same image, which after saving in a lossless codec of the same depth equals the original pixels. Saving never changes the texture or image.",
  ["inputs", "configurations"], "symbolic pixel data, image sizes, formats and each interface; streams delivering data in chunks of any size",
  "The tests load and save one image through each interface and only check basic properties of the result.",
  ["lib/src/Texture.cpp", "lib/src/Image.cpp", "lib/src/Shared.cpp"],
  [("save overloads", "Texture::save, Image::save"), ("load overloads", "Image::load"), ("reading a whole stream", "readStreamData in lib/src/Shared.cpp")],
  obs=["Image::load()", "Image::save()", "Texture::save()"])

p("C13", "A pixel written to an image reads back as the nearest value its format can hold",
  "For every image format, setting a pixel and reading it back gives, in each channel the format has, the closest value the format can represent to the one written (saturating at its range), one for a missing alpha and the documented replication for single-channel formats; no other pixel changes. Reading or writing outside the image, or using an invalid image, fails without any effect.",
  ["inputs"], "every finite double in each channel, each image format, any image size and pixel position within the bounds",
  "The tests round-trip a few fixed colours; rounding and saturation over all values and the neighbouring memory are not covered.",
  ["lib/src/Image.cpp"],
  [("pixel access for each format", "Image::getPixel, Image::setPixel, getPixelImpl/setPixelImpl in lib/src/Image.cpp")],
  obs=["Image::getPixel()", "Image::setPixel()"])

p("C14", "Image conversion keeps each pixel as closely as the target format allows",
  "Converting an image to any other format gives an image of the same size and colour space whose every pixel equals, within one step of the target's precision, what setting that pixel in the target format with the source's value would give, leaving the source unchanged; converting to the same format is an exact copy. Converting a colour image to a single-channel format uses the luminance, or the red channel when grayscale conversion is turned off or the image is complex.",
  ["inputs", "configurations"], "every pair of image formats, both colour spaces, symbolic pixel values",
  "The tests convert one image between selected pairs with a tolerance.",
  ["lib/src/Image.cpp"],
  [("conversion between formats", "Image::convert in lib/src/Image.cpp")],
  obs=["Image::convert()"])

p("C15", "Flips, rotations and swizzles move pixel values without changing them",
  "Flipping maps each pixel to its mirror position, rotating by a multiple of 90 degrees maps it to the rotated position with width and height exchanged as needed, and swizzling replaces each channel by the chosen source channel or its neutral value, all with bit-exact values, for every format that supports the operation. Size, format and colour space are otherwise preserved, and unsupported combinations are refused without changing the image.",
  ["inputs", "configurations"], "every image format, angle, channel selection and size within the bounds, with symbolic pixel data",
  "The tests use one small image and RGBA formats; odd sizes, other pixel widths and all channel selections are not covered.",
  ["lib/src/Image.cpp"],
  [("geometry", "Image::flipHorizontal, flipVertical, rotate in lib/src/Image.cpp"), ("channel selection", "Image::swizzle in lib/src/Image.cpp")],
  obs=["Image::getPixel()"])

p("C16", "Resizing yields the requested size and keeps constant images and metadata intact",
  "Resizing any image with any filter gives an image of exactly the requested size in a format with the same channels and at least the same depth (5- and 6-bit RGB becomes 8-bit RGB) and the same colour space, leaving the original unchanged, and fails for invalid images or zero sizes, and for filters the format doesn't support (32-bit integer, 16-bit signed integer, double and complex images only support box and linear). An image of one constant colour stays that colour, and resizing an sRGB image equals converting it to linear space, resizing and converting back.",
  ["inputs", "configurations"], "every image format, filter, colour space, source and target size within the bounds, with a symbolic constant colour",
  "The tests resize one image by one ratio with each filter and check only the size.",
  ["lib/src/Image.cpp"],
  [("resize with linear-space averaging and fallbacks for unsupported formats", "Image::resize in lib/src/Image.cpp")],
  obs=["Image::resize()"])

p("C17", "Colour operations apply their formula to every pixel and only to colour",
  "Changing the colour space applies the sRGB transfer function to each colour channel of every pixel and records the new space, and does nothing when it is already the requested one; grayscale conversion sets colour to the Rec. 709 luminance computed in linear space; alpha pre-multiplication scales colour by alpha and changes nothing for formats without alpha. None of them alters alpha, and each result is the nearest value the image's format can hold.",
  ["inputs", "configurations"], "every image format, both colour spaces, symbolic pixel values and sizes within the bounds",
  "The tests check single fixed colours in few formats.",
  ["lib/src/Image.cpp", "lib/include/cuttlefish/Color.h"],
  [("per-pixel operations", "Image::changeColorSpace, grayscale, preMultiplyAlpha in lib/src/Image.cpp"), ("transfer functions", "lib/include/cuttlefish/Color.h")],
  obs=["Image::getPixel()"])

p("C18", "Generated normal maps encode unit normals of the height field at every pixel",
  "For every height image, the generated normal map has the same size and colour space, and each pixel encodes the unit vector of the slopes of the red channel (left minus right and row below minus row above, scaled by the height factor and divided by the distance between the pixels used) and one, with edge pixels using the wrapped neighbour when wrapping is on for that axis and the clamped one otherwise. Values are stored in [-1, 1] when the sign is kept and remapped to [0, 1] otherwise, and alpha, when present, is one.",
  ["inputs", "configurations"], "all symbolic height values, sizes within the bounds, wrap and sign options and height factors",
  "The tests check one image with fixed options against reference values.",
  ["lib/src/Image.cpp"],
  [("normal map creation", "Image::createNormalMap in lib/src/Image.cpp")],
  obs=["Image::createNormalMap()"])

p("C19", "Channel masks and shifts locate the channels of the raw scanline data",
  "For the packed and byte RGB and RGBA formats, the reported bits per pixel, masks and shifts locate each channel within the raw pixel data of the scanlines: extracting a channel with them gives the stored code of the value written to it. Scanlines are the image's rows from top to bottom, and a row outside the image has no scanline.",
  ["inputs", "configurations"], "every image format, any pixel position within the bounds and every symbolic colour",
  "The tests compare the masks of two formats with constants and never against the data.",
  ["lib/src/Image.cpp"],
  [("masks and shifts", "Image::redMask .. alphaShift, bitsPerPixel, scanline in lib/src/Image.cpp")],
  obs=["Image::scanline()"])

p("C20", "Command line parsing accepts exactly the documented options and values",
  "Each documented option with valid arguments is accepted and sets exactly what it documents regardless of its position among the other options; unknown options, missing or malformed arguments, mixed or incomplete inputs, and combinations the library cannot save are rejected with a failure. Parsing never reads outside the arguments or the lists it builds, for any argument strings.",
  ["inputs", "configurations"], "sequences of options with symbolic argument bytes up to the stated length, and list files with symbolic contents",
  "The tool's tests run a dozen fixed command lines.",
  ["tool/CommandLine.cpp", "tool/CommandLine.h"],
  [("option parsing", "CommandLine::parse in tool/CommandLine.cpp"), ("list files", "readImageList, readCustomMipList"), ("cross-option validation", "validate in tool/CommandLine.cpp")],
  obs=["CommandLine fields after parse()"])

p("C21", "The tool writes the requested texture or fails with the documented exit code",
  "The tool exits with zero only if a complete output file with the requested kind, format, size, mip levels and processed pixel values was written; it exits with one for a bad command line, two when an input image cannot be loaded and three when the texture cannot be converted or saved. The image operations are applied in their fixed order to every input image and custom mip alike, and sizes given by keyword resolve to the documented power of two, minimum or maximum.",
  ["inputs", "configurations", "fault_sequences"], "option combinations, image sizes and pixel values within the bounds, missing input files and output write failures at any byte",
  "The tool's test script runs a few conversions and looks at nothing but the exit status.",
  ["tool/main.cpp", "tool/CommandLine.cpp"],
  [("pipeline", "loadAndProcessImage, loadImages, saveTexture, main in tool/main.cpp"), ("size keywords", "getDimension, nextPO2, nearestPO2 in tool/main.cpp")],
  obs=["exit status and output file"])

p("C22", "Copies of textures and images are independent and moves transfer ownership",
  "Copying or assigning a texture, image or custom mip image gives a value equal to the original that no later change to either affects, including self-assignment and assignment over existing contents; moving transfers the contents without copying and leaves the source empty and reusable. No sequence of these operations uses or frees released memory.",
  ["histories", "inputs"], "all sequences of copy, move, assign and modify operations up to the stated length on values in any state",
  "The tests copy and move one texture and image once.",
  ["lib/src/Texture.cpp", "lib/src/Image.cpp", "lib/include/cuttlefish/Texture.h"],
  [("copy and move operations", "Image and Texture constructors and assignment operators; Texture::CustomMipImage")],
  obs=["getPixel(), data() of both values"])

p("C23", "Value range adjustment maps source codes onto the target type exactly",
  "When a texture is to hold signed normalised or integer values, adjusting an image that came from a normalised source format maps [0, 1] linearly onto [-1, 1] for signed normalised types and onto the original integer codes (offset to the signed range for signed types) for integer types, so that converting stores exactly the source's codes. Images from floating-point sources and other target types are left untouched.",
  ["inputs", "configurations"], "every source format, image format and target type, symbolic pixel values",
  "The tests check a few fixed values for a few formats.",
  ["lib/src/Texture.cpp"],
  [("range adjustment", "Texture::adjustImageValueRange in lib/src/Texture.cpp")],
  obs=["Image::getPixel()"])

p("C24", "File types are recognised from any file name",
  "The container type is deduced from a file name exactly when the name ends in .dds, .ktx or .pvr in any letter case, and is otherwise reported as unknown, for every name of any length including empty and shorter than an extension. Saving with automatic type selection writes the container the name denotes or reports an unknown format.",
  ["inputs"], "all byte strings up to the stated length",
  "The tests save under three fixed names.",
  ["lib/src/Texture.cpp"],
  [("extension match", "Texture::fileType in lib/src/Texture.cpp")],
  obs=["Texture::fileType()", "Texture::save()"])

p("C25", "Block-compressed encodings decode close to their source",
  "Converting to any block-compressed format (S3TC, ETC, ASTC, PVRTC) yields blocks that a conforming decoder turns back into values close to the source pixels for the requested quality, for partial blocks at the edges as well.",
  ["inputs", "configurations"], "every block of pixel values, format and quality",
  "The encoders are optional third-party libraries; this build has none of them, so no test reaches them.",
  ["lib/src/S3tcConverter.cpp", "lib/src/EtcConverter.cpp", "lib/src/AstcConverter.cpp", "lib/src/PvrtcConverter.cpp"],
  [("block extraction and edge handling", "S3tcConverter, EtcConverter, AstcConverter, PvrtcConverter")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
