BOUND = 'Exploration: a fixed number of generated cases per tier, a pure function of VERIF_SEED; the claim is for what was generated.'

# Compositions and packages

prop('X01', 'A composition playlist keeps everything when written and read',
     '''Every part of a composition playlist (reels, assets with their entry points, durations and keys, markers, ratings, content versions and all the composition metadata) which is set through the interface or read from a file, in Interop or SMPTE form, is the same after the playlist is written and read again.
     Two playlists are equal exactly when the parts which are compared are the same.
     Questions about a playlist as a whole (its duration, the assets it refers to, how its pictures are encoded, whether some or all are encrypted) agree with its reels.''',
     ['inputs', 'configurations'], 'Playlists of up to a few reels with any of the nine kinds of asset, optional parts present or absent, text that needs escaping, and edit rates that are not whole numbers.',
     'The tests write a handful of playlists and compare them with reference files; combinations of optional parts, less common kinds of asset and non-integer rates are not among them.',
     ['src/cpl.cc', 'src/reel.cc', 'src/reel_asset.cc', 'src/reel_file_asset.cc', 'src/reel_picture_asset.cc', 'src/reel_text_asset.cc', 'src/reel_markers_asset.cc', 'src/reel_sound_asset.cc', 'src/reel_atmos_asset.cc', 'src/content_kind.cc', 'src/rating.cc'],
     [('reading and writing', 'CPL::CPL, CPL::write_xml, CPL::read_composition_metadata_asset, CPL::maybe_write_composition_metadata_asset'), ('reels', 'Reel::Reel, Reel::write_to_cpl'), ('markers', 'ReelMarkersAsset'), ('equality', 'CPL::equals, Reel::equals'), ('encryption', 'Reel::any_encrypted, Reel::all_encrypted')],
     'property-based testing: independent XML writer and comparison with a model; round trip; single changes for equality', BOUND)

prop('X02', 'Packing lists and asset maps keep everything and mean the same anywhere',
     '''Every part of a packing list or asset map, set through the interface or read from a file, in Interop or SMPTE form, is the same after it is written and read again, wherever its directory is moved to.
     Looking up an identifier gives the digest and type of the first asset that has exactly that identifier, or nothing.
     Documents which are not what they should be are refused with an error.''',
     ['inputs', 'configurations'], 'Lists of up to six assets with optional parts present or absent, repeated identifiers, sizes up to 2^63 - 1, files in nested directories whose names need escaping, paths written in different ways.',
     'The tests write one packing list and one asset map and compare them with reference files.',
     ['src/pkl.cc', 'src/pkl.h', 'src/asset_map.cc', 'src/asset_map.h', 'src/asset_list.h'],
     [('packing lists', 'PKL::PKL, PKL::write_xml, PKL::hash, PKL::type'), ('asset maps', 'AssetMap::AssetMap, AssetMap::write_xml, AssetMap::asset_ids_and_paths, AssetMap::pkl_paths')],
     'property-based testing: independent XML writer and comparison with a model; round trip; damaged documents must be refused', BOUND)

prop('X03', 'A whole package is consistent when written and complete when read',
     '''After a DCP is written its packing list has exactly the assets which are inside it, with the digest and size of each file as it is on disk, its asset map has exactly those and the packing list, and nothing that is outside it.
     Reading it back, from there or wherever it is moved to, gives the same compositions with every asset resolved, of the right kind and equal to what was written; assets which are missing or external are reported, each one and nothing else.
     Writing a DCP which was read keeps the digests that its files ought to have, even if the files were damaged; an asset keeps its digest until it is given another file or digest.''',
     ['inputs', 'histories', 'configurations', 'faults'], 'DCPs of up to three compositions and three reels, Interop and SMPTE, all kinds of asset with some shared, encrypted, in sub-directories or outside the DCP; with files missing or damaged; signed or not.',
     'The tests write a few DCPs with one or two assets and compare with reference files; sharing, external and missing assets, moving and rewriting are tried once or not at all.',
     ['src/dcp.cc', 'src/asset.cc', 'src/asset_factory.cc', 'src/interop_text_asset.cc', 'src/font_asset.cc', 'src/ref.cc', 'src/cpl.cc', 'src/reel.cc', 'src/reel_file_asset.cc'],
     [('writing', 'DCP::write_xml, Asset::add_to_pkl, Asset::add_to_assetmap'), ('reading', 'DCP::read, asset_factory, DCP::resolve_refs'), ('summaries', 'DCP::cpl_summaries'), ('digests', 'Asset::hash, Asset::set_hash')],
     'property-based testing: written files examined without the library; round trip; model of missing and external assets', BOUND)
