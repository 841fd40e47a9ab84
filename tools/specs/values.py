BOUND = 'Exploration: a fixed number of generated cases per tier, a pure function of VERIF_SEED; the claim is for what was generated.'

prop('K01', 'Numbers read from and written to text are exact, whatever the locale',
     '''Every integer written as text and read back is the same integer, for every integer type and the whole of its range; every real number is written as its correctly rounded decimal expansion, however large, with the decimal point that the process's locale uses.
     Numbers in files are read with a full stop as the decimal point and give the nearest representable value, whatever locale the process is in.
     Text which does not start with a number is read as zero.''',
     ['inputs', 'configurations'], 'All values of the integer types; real numbers of all magnitudes; precisions; locales with different decimal points and thousands separators.',
     'The tests convert a few values each way in two locales; type-specific and magnitude-specific errors are not reached.',
     ['src/locale_convert.cc', 'src/locale_convert.h', 'src/raw_convert.cc', 'src/raw_convert.h'],
     [('with locale', 'locale_convert'), ('without locale', 'raw_convert')],
     'property-based testing: round trip, and differential against independent formatting, under generated locales', BOUND)

prop('K02', 'Times within a DCP behave as exact rational numbers',
     '''Comparing, adding and subtracting times, with the same or different timecode rates, gives exactly the result for the rational numbers of seconds that they represent, in normalised form.
     Counting editable units at another rate rounds down or up exactly as asked, and changing rate or making a time from frames or seconds gives the nearest time at the new rate, normalised.
     A time written as SMPTE or Interop text is read back exactly, and text of the wrong shape is refused.''',
     ['inputs'], 'Times up to 48 hours at rates of 1 to 1000 per second, and sums of them; frame counts and seconds; texts with any number and length of fields.',
     'The tests use some tens of values; carries, roundings up to a whole second and mixed rates are sampled only where someone thought of them.',
     ['src/dcp_time.cc', 'src/dcp_time.h'],
     [('comparison', 'operator== etc.'), ('arithmetic', 'operator+, operator-, operator/'), ('rates', 'Time::rebase, Time::as_editable_units_floor, Time::as_editable_units_ceil'), ('construction', 'Time::set, Time::Time'), ('text', 'Time::as_string')],
     'property-based testing against a reference model in exact rational arithmetic', BOUND)

prop('K03', 'Small values keep their meaning when written and read',
     '''Fractions, colours, luminances, content versions, ratings, keys and the names of effects, directions, markers, statuses and KDM formulations are unchanged by being written (as text or XML) and read back, and lists of rating systems are read as they are.
     Two such values (or sizes) are equal exactly when all their parts are, and fractions compare by value without overflow.
     Text which does not represent a value is refused.''',
     ['inputs'], 'Integers over their whole range, all byte values, all names and near-misses, XML text with characters that need escaping, keys of any length.',
     'The tests have a few examples of each.',
     ['src/types.cc', 'src/types.h', 'src/key.cc', 'src/rating.cc'],
     [('fractions', 'Fraction'), ('colours', 'Colour'), ('luminance', 'Luminance::as_xml'), ('names', 'string_to_effect etc.'), ('keys', 'Key'), ('ratings', 'Rating')],
     'property-based testing: round trip and reference model', BOUND)

prop('K04', 'Language tags are parsed, described and written consistently',
     '''A language tag made of registered subtags in the right order is accepted, whether it is parsed or built up part by part, and gives back the same text, parts and description.
     Anything with an unregistered subtag, parts in the wrong order, or (when built up) a duplicate part, is refused and leaves an existing tag unchanged.
     Equality and ordering of tags agree with their text.''',
     ['inputs', 'histories'], 'All registered subtags in all positions and letter cases; sequences of parts; strings that are not subtags.',
     'The tests try a dozen tags out of some nine thousand subtags.',
     ['src/language_tag.cc', 'src/language_tag.h'],
     [('parsing', 'LanguageTag::LanguageTag'), ('building', 'LanguageTag::set_variants, add_variant etc.'), ('lists', 'load_language_tag_lists, LanguageTag::get_subtag_data')],
     'property-based testing against a reference model that reads the subtag lists itself', BOUND)

prop('K05', 'Main sound configurations and channel labels describe the same channels',
     '''A main sound configuration built by setting channels and mappings in any order has text which, read back, gives the same sound field, number of channels and mapping of each one.
     Text is kept as given; if it has a label that is not known or too many channels the configuration is invalid, and asking it for anything but its text is refused with an error.
     Each channel's label is recognised (in any letter case) as that channel, and no two channels share a name or universal label.''',
     ['inputs', 'histories'], 'Sequences of changes to configurations of 1 to 16 channels; texts made of known, aliased, unused and unknown labels.',
     'The tests parse five strings and build one.',
     ['src/main_sound_configuration.cc', 'src/main_sound_configuration.h'],
     [('parsing', 'MainSoundConfiguration::MainSoundConfiguration'), ('building', 'MainSoundConfiguration::set_mapping, set_channels'), ('labels', 'mca_id_to_channel, channel_to_mca_id, channel_to_mca_universal_label')],
     'property-based testing against a reference model, with operation sequences and round trips', BOUND)

prop('U01', 'Digests, encodings, identifiers and text files are exact',
     '''The digest of a file or block of data is the base64 of the SHA-1 of exactly its bytes, with progress reported in order, and base64 text is decoded to exactly the bytes that it represents wherever its lines are broken; fingerprints of private keys depend on nothing but the key.
     IDs are compared without regard to letter case or surrounding space and nothing else; a URN prefix is required and removed exactly; generated IDs and names are well formed and not already taken.
     Text written to a file is what the file then has, and a failure to write it is reported.''',
     ['inputs', 'faults'], 'Data of sizes around block boundaries; base64 with any line breaks; IDs and prefixes with single changes; names taken in any combination; destinations that cannot be written.',
     'The tests digest a few small fixed files.',
     ['src/util.cc', 'src/util.h', 'src/array_data.cc'],
     [('digests', 'make_digest'), ('base64', 'base64_decode'), ('IDs', 'ids_equal, remove_urn_uuid, make_uuid, unique_string'), ('files', 'file_to_string, write_string_to_file'), ('paths', 'relative_to_root'), ('days', 'day_less_than_or_equal')],
     'property-based testing against reference implementations of SHA-1 and base64, round trips and fault injection', BOUND)
