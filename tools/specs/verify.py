BOUND = 'Exploration: a fixed number of generated cases per tier, a pure function of VERIF_SEED; the claim is for what was generated. XML is read through a stand-in for libcxml and MXF through one for asdcplib, which are not installed here; XML schemas are checked by xerces as usual.'

# Verification

prop('V01', 'Verifying a package finds exactly what is wrong with it',
     '''Verifying a well-formed SMPTE package gives no errors or warnings, and each fault in it gives the notes documented for that fault, naming the file, playlist, reel, frame and values concerned, and no others.
     A package is found to be damaged exactly when an asset's or playlist's bytes differ from what its hash says, or when it is missing, subject to the options for what to check; assets which are in other packages are mentioned but are not errors.
     XML which disagrees with its schema is reported with the file and line.''',
     ['inputs', 'configurations'], 'SMPTE packages with up to 2 playlists, 4 reels, and picture (2D and 3D, 2K and 4K), sound, subtitles, closed captions and markers, encrypted or not, with or without the key; over 60 kinds of fault, up to 4 at once; all options.',
     'The tests put one fault at a time in one or two particular packages, and mostly need data which is not in the repository.',
     ['src/verify.cc', 'src/verify.h', 'src/verify_internal.h'],
     [('whole packages', 'verify'), ('playlists', 'verify_cpl'), ('reels', 'verify_reel'), ('text', 'verify_text_asset, verify_text_timing'), ('pictures', 'verify_picture_asset, verify_picture_details'), ('schemas', 'validate_xml')],
     'property-based testing: packages written by an independent writer, with a model of which notes each fault must cause; the set of notes is compared exactly', BOUND)

prop('V02', 'JPEG2000 codestreams are judged correctly and safely',
     '''Checking a JPEG2000 codestream which obeys the rules for cinema finds nothing, and one which breaks some of them gives a note for each with the value which was found.
     A codestream which stops in the middle, or which has a marker where it should not be, is reported as invalid; no input at all makes the check read outside the data or stop the program.''',
     ['inputs'], 'Codestreams for 2K and 4K made from their rules with any parameter changed, at every truncation, with any bytes changed, inserted or removed, and at any frame rate and index.',
     'The tests use one codestream and a handful of changes to it.',
     ['src/verify_j2k.cc', 'src/verify_internal.h'],
     [('parser', 'verify_j2k')],
     'property-based testing and fuzzing: independent writer of codestreams with a model of the rules; mutation of bytes under address and undefined-behaviour sanitizers', BOUND)

prop('V03', 'Lines of text and their lengths are counted as they appear on screen',
     '''Some text has too many lines exactly when there is some moment at which texts at more than three different heights are on the screen, and too many characters exactly when the texts at one height at some moment have more characters in total than the limit.
     A text is on the screen from its start until just before its end; characters are counted as characters in any script, and images do not count.''',
     ['inputs', 'histories'], 'Up to 24 texts and images in any order, which start and end together, overlap and repeat; all alignments; multi-byte characters; any limits.',
     'The tests have a few fixed arrangements of texts.',
     ['src/verify.cc', 'src/verify_internal.h'],
     [('counting', 'verify_text_lines_and_characters')],
     'property-based testing: comparison with a direct count at every moment when a text starts', BOUND)

prop('V04', 'Verification notes keep their details, and reports say all of them',
     '''A note gives back exactly the details put into it, two notes are equal exactly when all their details are, and they sort into a consistent order with those of a kind together.
     The description of a note has the details which are documented for it, whatever characters they contain.
     A report mentions every playlist, reel and asset, and every note exactly once, with its right severity, under its playlist if it has one.''',
     ['inputs'], 'Notes of every kind with any of 35 details; details with characters which are special to formatting; reports of up to 2 results with up to 2 packages, 2 playlists each, and 8 notes, as text, as HTML and to a recorder.',
     'The tests check a few descriptions and one report.',
     ['src/verify.cc', 'src/verify.h', 'src/verify_report.cc', 'src/html_formatter.cc', 'src/text_formatter.cc', 'src/stream_formatter.h'],
     [('notes', 'VerificationNote'), ('descriptions', 'note_to_string'), ('reports', 'verify_report')],
     'property-based testing: model of notes as sets of fields; laws of equality and order; documented contents of descriptions; a recording formatter', BOUND)
