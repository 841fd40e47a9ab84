BOUND = 'Exploration: a fixed number of generated cases per tier, a pure function of VERIF_SEED; the claim is for what was generated. The MXF container itself is a stand-in for asdcplib, which is not installed here.'

# Sound, pictures and Atmos

prop('M01', 'Sound is read back as it was written',
     '''Sound frames written to an asset, from floating point or integer samples in any number of channels and with or without the extra channel for Atmos synchronisation, are read back with every sample equal to the one written, quantised to 24 bits and clipped to full scale, in the right channel and at the right time.
     The synchronisation channel is the one which the generator for it would make, channels which are not given are silent, and labels for the channels are right both in the file and in a playlist which uses it.
     Two sound assets are equal exactly when the parts which are compared are the same and no sample differs by more than the allowed error.''',
     ['inputs', 'configurations'], 'Assets of up to a few frames, 1 to 16 channels, every supported frame rate, sampling rates of 48 and 96 kHz, writes cut into arbitrary pieces, samples inside, at and beyond full scale.',
     'The tests write constant or synthetic waveforms with one call per frame; how writes are cut up, extreme samples and channel layouts are not varied.',
     ['src/sound_asset.cc', 'src/sound_asset_writer.cc', 'src/sound_frame.cc', 'src/asset_reader.h', 'src/asset_writer.cc', 'src/bitstream.cc', 'src/fsk.cc', 'src/cpl.cc', 'src/mca_sub_descriptor.cc'],
     [('writing', 'SoundAssetWriter::write, SoundAssetWriter::finalize'), ('synchronisation', 'SoundAssetWriter::create_sync_packets'), ('reading', 'SoundFrame::get'), ('equality', 'SoundAsset::equals'), ('labels', 'CPL::create_mca_subdescriptors')],
     'property-based testing: reference quantiser and reference sync generator; round trip; single changes for equality', BOUND)

prop('M02', 'Pictures are read back as they were written',
     '''Mono, stereo and MPEG2 picture frames written to an asset are read back byte for byte, in order and for the right eye, with the size, frame rate, IDs and other descriptions which were given, and the information returned when each was written describes where it is in the file; stereo is recognised even if it is marked as mono, when that is asked for.
     Writing which is stopped part of the way through and then resumed gives the same file as writing without stopping.
     Two picture assets are equal exactly when the parts which are compared are the same and the images are as close as the options require.''',
     ['inputs', 'histories', 'configurations'], 'Assets of up to a few dozen frames of varying size, with every supported frame rate; stops at any frame, in any order of eyes; images which differ by chosen amounts.',
     'The tests write the same frame a few times and stop at one or two places; frame sizes, stopping points and differences between images are not varied.',
     ['src/picture_asset.cc', 'src/j2k_picture_asset.cc', 'src/mono_j2k_picture_asset.cc', 'src/mono_j2k_picture_asset_writer.cc', 'src/stereo_j2k_picture_asset.cc', 'src/stereo_j2k_picture_asset_writer.cc', 'src/j2k_picture_asset_writer_common.cc', 'src/mpeg2_picture_asset.cc', 'src/mpeg2_picture_asset_writer.cc', 'src/frame_info.h', 'src/asset_factory.cc'],
     [('writing', 'MonoJ2KPictureAssetWriter, StereoJ2KPictureAssetWriter, MPEG2PictureAssetWriter'), ('resuming', 'MonoJ2KPictureAssetWriter::fake_write, start_write, Behaviour::OVERWRITE_EXISTING'), ('equality', 'J2KPictureAsset::frame_buffer_equals, MonoJ2KPictureAsset::equals, StereoJ2KPictureAsset::equals')],
     'property-based testing: round trip; differential between writing in one go and resuming; single changes for equality', BOUND)

prop('M03', 'Encrypted essence can be read only with its key and only if it is unchanged',
     '''Every kind of essence written with a key is read back the same when the key is given, cannot be read as anything useful without it or with another key, and does not have its content in clear in the file.
     When checking of integrity is asked for, a frame of encrypted essence which was changed is refused.
     Atmos frames are read back byte for byte with the IDs, counts and versions which were given.''',
     ['inputs', 'faults'], 'Any key and key ID, any kind of essence, single changes anywhere in the encrypted frames.',
     'The tests have one key and read only what was written; wrong keys and damaged files are not tried.',
     ['src/mxf.cc', 'src/crypto_context.h', 'src/key.cc', 'src/asset_reader.h', 'src/atmos_asset.cc', 'src/atmos_asset_writer.cc', 'src/sound_asset.cc', 'src/mono_j2k_picture_asset.cc', 'src/stereo_j2k_picture_asset.cc'],
     [('keys', 'MXF::set_key, MXF::fill_writer_info, MXF::read_writer_info'), ('encryption', 'CryptoContext'), ('checking', 'AssetReader::set_check_hmac')],
     'property-based testing: round trip; wrong keys and single-byte changes must be refused', BOUND)
