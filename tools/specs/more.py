BOUND = 'Exploration: a fixed number of generated cases per tier, a pure function of VERIF_SEED; the claim is for what was generated. XML is read through a stand-in for libcxml and MXF through one for asdcplib, which are not installed here.'

# Combining and finding packages

prop('R01', 'Packages are combined without losing or changing anything',
     '''Combining packages of one standard gives a package which has all of their playlists and every asset that they use exactly once, with the same contents even if files had the same names, correct hashes, and the issuer, creator, date and annotation that were asked for.
     Playlists which needed assets from another of the packages have them all.
     The packages which were combined are not changed, and those of different standards are refused.''',
     ['inputs', 'configurations'], 'One to three packages with up to 2 playlists of 2 reels, in either standard, signed or not, given in any order; with assets that have the same file names, are used by or copied in several packages; with fonts and images.',
     'The tests combine a few particular packages.',
     ['src/combine.cc', 'src/combine.h', 'src/dcp.cc'],
     [('combining', 'combine'), ('unique names', 'make_unique'), ('references', 'DCP::resolve_refs')],
     'property-based testing: the union of what is known to have gone into each package is the oracle; inputs compared byte for byte before and after', BOUND)

prop('R02', 'Packages are found, and playlists are resolved between them',
     '''Looking for packages in a directory finds every directory below it that has an asset map, except those inside another package, and nothing else.
     Reading the playlists in several directories gives all of them, in the order of the directories, with each reference resolved exactly when the asset is in one of the directories, to that asset.
     Directories which do not exist are ignored and not made, and a package with a missing asset is refused unless such things are to be tolerated.''',
     ['inputs', 'configurations'], 'Trees of up to 5 levels with packages inside each other and misleading names; one to three packages, in any order, some left out, which use assets from others, with assets removed.',
     'The tests look in one tree and resolve one pair of packages.',
     ['src/search.cc', 'src/search.h', 'src/dcp.cc', 'src/ref.cc'],
     [('finding', 'find_potential_dcps'), ('resolving', 'find_and_resolve_cpls')],
     'property-based testing: comparison with a direct search, and with what is known to be in each package', BOUND)

# Images

prop('I01', 'Images are converted between RGB and XYZ with the right colours',
     '''Every pixel of an image converted from RGB to XYZ has the value given by the input transfer function, the matrix, the white point adjustment, the companding factor and the output transfer function, to within the resolution of the tables used, clamped to the range of 12 bits; conversion to packed and to planar images agree.
     Conversion from XYZ to 16-bit RGB and 8-bit RGBA does the reverse, clamping and mentioning each value that is out of range.
     Lines may be further apart than they are long, and nothing outside the image is read or changed.''',
     ['inputs', 'configurations'], 'Images up to 12x6 with any values and padding; all the named conversions and others of every kind of transfer function, with and without adjustment of the white point.',
     'The tests use single random images and one conversion.',
     ['src/rgb_xyz.cc', 'src/openjpeg_image.cc', 'src/piecewise_lut.h', 'src/colour_conversion.cc'],
     [('to XYZ', 'rgb_to_xyz, combined_rgb_to_xyz, make_inverse_gamma_lut'), ('from XYZ', 'xyz_to_rgb, xyz_to_rgba'), ('planes', 'OpenJPEGImage')],
     'property-based testing: comparison with a direct calculation, with bounds from the resolution of tables; there and back', BOUND)

prop('I02', 'JPEG2000 images are compressed within limits and decompressed faithfully',
     '''A JPEG2000 image is decompressed, at full or reduced size, to exactly the values and size that the codec gives for it, whether or not it is in a JP2 wrapper; damaged data is refused or decoded, without reading outside it.
     A compressed image fits the bandwidth for its frame rate and number of eyes, has its comment, passes verification, and is like the original when there is enough bandwidth.''',
     ['inputs', 'configurations'], 'Images up to 130x70 in either format with any number of resolutions, origin and reduction; cut, altered and arbitrary data; compression of images up to 2148x100 for 2K and 4K, 2D and 3D, at 5 frame rates and any bandwidth.',
     'The tests decompress one image.',
     ['src/j2k_transcode.cc', 'src/openjpeg_image.cc'],
     [('decompression', 'decompress_j2k'), ('compression', 'compress_j2k')],
     'property-based testing: differential against direct use of OpenJPEG; verification as an oracle for what is compressed; fuzzing under sanitizers', BOUND)

# Messages

prop('K06', 'Messages made from formats have each argument in its place',
     '''Making a message from a format puts the text of the first argument wherever the format has %1, the second wherever it has %2, and so on, and makes %% into %.
     This is so whatever the arguments are, including when they are empty or have % in them, and however many times or in which order they are used; everything else in the format is kept.''',
     ['inputs'], 'Formats of up to 10 pieces; up to 6 arguments, which are strings, integers or paths.',
     'There are no tests of this.',
     ['src/compose.hpp', 'src/locale_convert.h', 'src/locale_convert.cc'],
     [('messages', 'String::compose'), ('arguments', 'locale_convert')],
     'property-based testing: comparison with a direct substitution', BOUND)

# Anything at all

prop('Z01', 'Nothing that is read can crash the program',
     '''Reading any playlist, packing list, asset map, subtitle, key delivery message, certificate or whole package either works or gives an error that can be caught, however badly formed it is.
     What was read can then be used, compared, verified, described and written again, with the same guarantee; memory outside the data is never touched and no arithmetic is undefined.''',
     ['inputs'], 'Documents of each kind from the repository and from generated packages, with up to 4 elements or attributes removed, repeated, moved, renamed, emptied or given odd values, or with bytes changed or cut off.',
     'The tests have a few badly formed files.',
     ['src/cpl.cc', 'src/pkl.cc', 'src/asset_map.cc', 'src/reel_asset.cc', 'src/text_asset.cc', 'src/smpte_text_asset.cc', 'src/interop_text_asset.cc', 'src/encrypted_kdm.cc', 'src/certificate.cc', 'src/dcp.cc', 'src/verify.cc', 'src/types.cc'],
     [('reading', 'constructors of CPL, PKL, AssetMap, SMPTETextAsset, InteropTextAsset, EncryptedKDM, Certificate'), ('packages', 'DCP::read, verify')],
     'structure-aware mutation fuzzing under address and undefined-behaviour sanitizers with assertions enabled', BOUND)
