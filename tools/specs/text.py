BOUND = 'Exploration: a fixed number of generated cases per tier, a pure function of VERIF_SEED; the claim is for what was generated. XML is read by libxml++ through a stand-in for libcxml and the MXF container is a stand-in for asdcplib, as neither is installed here.'

# Subtitles and captions

prop('S01', 'Subtitles and captions keep everything when they are written and read',
     '''Writing a SMPTE or Interop subtitle or caption asset and reading it back, as often as one likes, gives the same texts and images with the same times, fades, positions, alignments, fonts, styles, spaces, rubies and variable Z positions, the same fonts and the same descriptions, whatever characters they contain and whether or not it is encrypted.
     Texts are written in order of time and then from the top of the screen to the bottom.
     After each write the digest is that of the file just written, and a write which fails is reported.''',
     ['inputs', 'configurations', 'histories'], 'Up to 6 lines, each with up to 4 differently styled parts or an image, sharing times and images; any time up to 20 hours at 10 timecode rates; 3 SMPTE standards and Interop; encrypted or not; written up to 4 times.',
     'The tests write a handful of fixed texts. How attributes are shared between neighbouring texts, which decides the structure of the XML, has endless combinations.',
     ['src/text_asset.cc', 'src/text_asset_internal.cc', 'src/smpte_text_asset.cc', 'src/interop_text_asset.cc', 'src/text.cc', 'src/text_string.cc', 'src/text_image.cc', 'src/ruby.cc', 'src/load_variable_z.cc', 'src/load_font_node.h', 'src/smpte_load_font_node.cc', 'src/interop_load_font_node.cc', 'src/font_asset.cc'],
     [('structure', 'TextAsset::texts_as_xml, TextAsset::pull_fonts, order::Part'), ('writing', 'SMPTETextAsset::write, InteropTextAsset::write, TextAsset::format_xml'), ('reading', 'TextAsset::parse_texts, SMPTETextAsset::read_mxf_resources')],
     'property-based testing: round trip against a model of lines, in which neighbouring parts that look the same are joined', BOUND)

prop('S02', 'Subtitle files mean what they say',
     '''A subtitle file written by anyone, with fonts nested in any way and attributes given at any level, is read as the texts and images that it describes: the innermost value of each attribute applies, otherwise the default; comments are not text; spaces and rubies belong to the text that they are with; fades default to 0.08 seconds and are at most 8 seconds.
     Texts are in the order of the file.
     Files which lack what is required, or have values which make no sense, are refused.''',
     ['inputs'], 'Interop and SMPTE files with up to 4 levels of nested fonts at each place where they are allowed, every attribute present or absent in any order, different ways to write numbers, times and characters, comments, processing instructions and CDATA.',
     'The tests read a few files from real software, each of which uses a single style of nesting.',
     ['src/text_asset.cc', 'src/smpte_text_asset.cc', 'src/interop_text_asset.cc', 'src/load_variable_z.cc', 'src/dcp_time.cc', 'src/types.cc'],
     [('inheritance', 'TextAsset::maybe_add_text'), ('attributes', 'TextAsset::font_node_state, position_align, fade_time')],
     'property-based testing: generated files against a reference reader that works out inheritance as the file is generated; damaged files must be refused', BOUND)

prop('S03', 'Subtitles can be searched, compared and given fonts correctly',
     '''Asking for the texts in a period gives exactly those which start in it, or which overlap with it, and the latest time is that of the text which finishes last, whatever timecode rates the times have.
     Two assets or texts are equal exactly when nothing which is compared differs, apart from vertical positions within the error which is allowed, and whatever differs is reported; a text whose parts are set is equal to one made with them.
     Fonts are added once, fonts with empty IDs get new IDs which keep their data and users, and no more fonts and images can be added than fit in a file.''',
     ['inputs', 'configurations'], 'Up to 6 texts with times at, just before and just after each other and the ends of the period; pairs of assets with one change of every kind; up to 5 fonts; files filled to the limit of 4095 fonts and images.',
     'The tests compare a few fixed pairs and ask about one period.',
     ['src/text_asset.cc', 'src/smpte_text_asset.cc', 'src/interop_text_asset.cc', 'src/text.cc', 'src/text_string.cc', 'src/text_image.cc', 'src/ruby.cc', 'src/dcp_time.cc', 'src/util.cc'],
     [('search', 'TextAsset::texts_during, latest_text_out'), ('equality', 'TextAsset::equals, TextString::equals, TextImage::equals, operator=='), ('fonts', 'TextAsset::ensure_font, fix_empty_font_ids, SMPTETextAsset::check_resource_limit')],
     'property-based testing: reference model of periods on exact rational times; single changes for equality; model of font tables', BOUND)
