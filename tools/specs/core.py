BOUND = 'Exploration: a fixed number of generated cases per tier, a pure function of VERIF_SEED; the claim is for what was generated.'

prop('T01', 'Text of a date and time round-trips, and bad text is refused',
     '''Writing a local time with its UTC offset as text and reading that text back gives the same date, time (to the millisecond where it is written), and offset, for every valid date and every offset from -14:00 to +14:00.
     The text always has the documented ISO 8601 shape, with the sign of the offset kept even when its hour is zero.
     Text which is not of an accepted shape, or has a field out of range, is refused with an error rather than read as some other time.''',
     ['inputs'], 'All dates in years 1400 to 9999, times, milliseconds, offsets, all accepted ways of writing them, and all near-misses.',
     'The existing tests read and write a few tens of fixed strings; mis-handled signs, digits or field lengths in other strings are not reached.',
     ['src/local_time.cc', 'src/local_time.h', 'src/utc_offset.cc'],
     [('parsing', 'LocalTime::LocalTime(string)'), ('writing', 'LocalTime::as_string, date, time_of_day'), ('offset limits', 'UTCOffset::set_hour, set_minute')],
     'property-based testing: round trip, and differential against a reference parser/calendar, with mutated texts for rejection', BOUND)

prop('T02', 'Local times compare by the instant they represent',
     '''Comparing two local times, whatever UTC offsets they carry, gives the order of the instants they represent; it never depends on the clock reading alone.
     The comparison is a strict ordering which sorting can rely upon, and two times are equal exactly when they are the same instant; UTC offsets are equal exactly when they are the same offset, and refuse hours and minutes which are out of range.''',
     ['inputs'], 'All pairs and lists of valid times with offsets from -14:00 to +14:00.',
     'The existing test compares about twenty hand-picked pairs; borrow and carry of minutes, hours, days, months and years across offsets cannot be sampled like that.',
     ['src/local_time.cc', 'src/local_time.h', 'src/utc_offset.cc', 'src/utc_offset.h'],
     [('comparison', 'LocalTime::operator<, operator=='), ('offsets', 'UTCOffset')],
     'property-based testing against a reference model (days-from-civil arithmetic)', BOUND)

prop('T03', 'Adding to a local time follows the calendar',
     '''Adding any number of minutes, days or months (positive or negative) to a local time gives the date and time that the Gregorian calendar says, with the UTC offset unchanged.
     When months are added to a day which the new month does not have, or to the last day of a month, the result is the last day of the new month.
     A sequence of additions has the effect of doing each in turn.''',
     ['inputs', 'histories'], 'All valid times; amounts within range of the calendar; sequences of additions.',
     'The tests add a few fixed amounts; leap years, century rules and ends of months in both directions are not covered.',
     ['src/local_time.cc'],
     [('addition', 'LocalTime::add, add_minutes, add_days, add_months')],
     'property-based testing against a reference calendar model, with operation sequences', BOUND)

prop('T04', 'Conversions to and from system and certificate times keep the instant',
     '''A local time made from a C time structure, from the text of a certificate's UTC or generalized time, or from the system clock has exactly the fields and offset that its source gives.
     A local time converted to seconds since the epoch gives the instant it represents, taking its UTC offset into account.
     Neither depends on the time zone of the process except where local time is asked for.''',
     ['inputs', 'configurations'], 'All valid fields and offsets; certificate times with two- and four-digit years; values of the TZ environment variable.',
     'The tests convert a handful of values in one time zone.',
     ['src/local_time.cc', 'src/local_time.h'],
     [('from certificate', 'LocalTime::from_asn1_utc_time, from_asn1_generalized_time'), ('to seconds', 'LocalTime::as_time_t'), ('from system', 'LocalTime::LocalTime(), LocalTime(tm), LocalTime(ptime)')],
     'property-based testing against a reference calendar model, over generated time zones', BOUND)

prop('C01', 'RGB and XYZ matrices are right for any set of primaries and are inverses',
     '''For any red, green and blue primaries and white point that form a usable gamut, the RGB to XYZ conversion maps full white to the white point with unit luminance and each primary to its own chromaticity.
     The XYZ to RGB conversion undoes it for every colour.
     Changing the primaries or white of an existing conversion gives the same matrices as making a new one.''',
     ['inputs', 'histories'], 'All non-degenerate gamuts, colours, and sequences of changes.',
     'The tests check the matrices of a few named standards against stored numbers.',
     ['src/colour_conversion.cc', 'src/chromaticity.h', 'src/chromaticity.cc'],
     [('matrices', 'ColourConversion::rgb_to_xyz, xyz_to_rgb'), ('setters', 'ColourConversion::set_red etc.')],
     'property-based testing against a reference model in independent linear algebra, plus inverse and invariant checks', BOUND)

prop('C02', 'Chromatic adaptation maps the old white to the new one',
     '''When a conversion has an adjusted white, its adaptation matrix is the published Bradford transform from the white to the adjusted white: it maps one exactly to the other, and adapting back again undoes it.
     With no adjusted white, or one which has been removed, adaptation changes nothing.''',
     ['inputs', 'histories'], 'All pairs of whites for which the transform is defined, set in any order.',
     'One test has two stored matrices.',
     ['src/colour_conversion.cc'],
     [('adaptation', 'ColourConversion::bradford'), ('setting', 'ColourConversion::set_adjusted_white, unset_adjusted_white')],
     'property-based testing against a reference model and by metamorphic relations', BOUND)

prop('C03', 'Named colour standards are as published and conversions compare fairly',
     '''Each named colour standard has the published primaries, white point, transfer functions and YUV matrix.
     Two conversions are reported about equal exactly when every one of their parts differs by less than the given tolerance, and never when the type of transfer function, YUV matrix or presence of an adjusted white differs.''',
     ['inputs'], 'All standards; all pairs of conversions which differ in any combination of parts by amounts inside or outside the tolerance.',
     'Tests compare few pairs, and the values of a standard are only tested through other stored values.',
     ['src/colour_conversion.cc', 'src/chromaticity.cc', 'src/gamma_transfer_function.cc', 'src/modified_gamma_transfer_function.cc', 'src/s_gamut3_transfer_function.cc', 'src/identity_transfer_function.cc'],
     [('presets', 'ColourConversion::srgb_to_xyz etc.'), ('comparison', 'ColourConversion::about_equal, *TransferFunction::about_equal, Chromaticity::about_equal')],
     'property-based testing against tables of published values and a part-by-part model of comparison', BOUND)

prop('G01', 'Transfer function tables hold the documented function',
     '''A lookup table made from a transfer function, in either direction, for any input range and depth, has two-to-the-depth entries spread evenly from one end of the range to the other, each holding the value of the documented formula (power law, power law with a linear part, S-Log3, or identity) there.
     Integer tables hold those values multiplied by the scale and rounded to the nearest integer.''',
     ['inputs', 'configurations'], 'All functions and parameters, ranges (including reversed ones), depths from 1 to 16 bits, directions and scales.',
     'Tests check a gamma function at one depth over one range.',
     ['src/transfer_function.cc', 'src/gamma_transfer_function.cc', 'src/modified_gamma_transfer_function.cc', 'src/s_gamut3_transfer_function.cc', 'src/identity_transfer_function.cc'],
     [('tables', '*TransferFunction::make_double_lut'), ('integers', 'TransferFunction::int_lut')],
     'property-based testing, differential against the published formulae', BOUND)

prop('G02', 'Transfer functions can be undone and keep the order of values',
     '''Applying a transfer function and then its inverse (or the other way round) gives back any value from 0 to 1.
     Tables of the standard functions never go down as the input goes up, and their first and last entries are the function at the ends of the range asked for.''',
     ['inputs'], 'All values from 0 to 1, all functions which are continuous, all ranges and depths.',
     'No test inverts anything.',
     ['src/transfer_function.cc', 'src/gamma_transfer_function.cc', 'src/modified_gamma_transfer_function.cc', 'src/s_gamut3_transfer_function.cc'],
     [('tables', '*TransferFunction::make_double_lut')],
     'property-based testing: inverse and monotonicity relations', BOUND)

prop('G03', 'Lookup tables do not depend on earlier or concurrent requests',
     '''The table that a transfer function gives for a range, depth, direction and scale is the same whatever was asked of that function before, and whichever threads are asking at the same time.
     Tables already given out stay valid and unchanged while the function lives.''',
     ['histories', 'schedules'], 'All sequences of requests, repeated or slightly different; several threads making overlapping requests.',
     'No test asks the same function for more than one table, or uses threads.',
     ['src/transfer_function.cc', 'src/transfer_function.h'],
     [('cache', 'TransferFunction::double_lut, int_lut'), ('lock', 'TransferFunction::_mutex')],
     'stateful property-based testing against a fresh, unshared object; generated multi-threaded workloads under ThreadSanitizer', BOUND + ' Thread interleavings are those which the machine produced.')

prop('G04', 'Two-part lookup tables agree with the function they are made from',
     '''Looking up any value from 0 to 1 in a two-part table gives the value, scaled and rounded, of the transfer function at the nearest point to it of the part which covers it; the parts meet at the boundary asked for.
     Looking up a larger value never gives a smaller answer for a function which does not go down.''',
     ['inputs', 'configurations'], 'All functions, boundaries, depths of each part, directions, scales and values, including those either side of the boundary.',
     'No test uses these tables directly.',
     ['src/piecewise_lut.h', 'src/transfer_function.cc'],
     [('lookup', 'PiecewiseLUT2::lookup')],
     'property-based testing against a reference model, plus monotonicity', BOUND)

prop('D01', 'Data written to a file is exactly what was given, and compares by content',
     '''Writing a block of data to a file, directly or through a temporary file, leaves the file holding exactly those bytes and nothing else, whatever was there before; no temporary file is left behind.
     Two blocks are equal exactly when they have the same length and bytes.
     If the destination cannot be opened there is an error, and other files are not changed.''',
     ['inputs', 'histories'], 'All contents and lengths, including those around buffer sizes; old files longer or shorter than the new.',
     'Data is only written incidentally by tests, with contents that are not examined.',
     ['src/data.cc', 'src/data.h', 'src/file.cc'],
     [('writing', 'Data::write, write_via_temp'), ('comparison', 'operator==, operator!=')],
     'property-based testing: round trip through the filesystem', BOUND)

prop('D02', 'Failed or interrupted writes are reported and never leave a partial file',
     '''If writing data fails at any byte, a file error is reported, even when the fault only appears as the file is closed.
     When writing through a temporary file, the final file is at all times either absent or untouched as it was before, or complete: neither a fault nor death of the process at any byte of the write leaves a partial file under the final name.
     A later attempt succeeds.''',
     ['crash_points', 'fault_sequences', 'inputs'], 'Every byte position at which writing fails or the process dies, for all contents and lengths, with and without an old file.',
     'No test injects any fault.',
     ['src/data.cc', 'src/file.cc'],
     [('writing', 'Data::write, write_via_temp'), ('wrapper', 'File::write, File::close')],
     'fault-injecting property-based testing (file size limits give write errors or kill the process at a generated byte)', BOUND)

prop('D03', 'The file wrapper behaves as the C library and owns its file exactly once',
     '''Reading, writing, seeking, and testing for the end of a file through the wrapper gives the same results and the same file contents as the same operations with C stdio.
     After a file is moved, assigned, taken or closed exactly one owner has it: nothing is closed twice or left open, the path and error of the new owner are those of the file it holds, and operations on something not open are refused.
     Checked reads and writes report an error unless they were complete.''',
     ['histories', 'inputs'], 'All sequences of operations on several files, including moves between them in any state and assignment to itself.',
     'The tests do not move or assign files, nor read past the end.',
     ['src/file.cc', 'src/file.h'],
     [('ownership', 'File::File(File&&), operator=(File&&), take, close'), ('transfer', 'File::read, write, checked_read, checked_write, gets, puts, seek, tell')],
     'stateful (model-based) property-based testing against stdio, with counting of open descriptors', BOUND)

prop('F01', 'Filesystem operations do what the standard ones do',
     '''Each operation on files and directories (asking, listing, creating, copying, linking, renaming, deleting) has the same results, errors and effects on the files as the corresponding standard library operation would, for every path however it is written.
     The variants which report errors through a parameter do so and do not throw.''',
     ['inputs', 'histories'], 'All small trees of files, directories and symbolic links; sequences of operations with absolute, relative, redundant and non-existent paths.',
     'The tests use few of the operations, with paths that exist.',
     ['src/filesystem.cc', 'src/filesystem.h'],
     [('wrappers', 'dcp::filesystem::*')],
     'differential, stateful property-based testing: twin trees, one driven through the library and one through boost::filesystem', BOUND + ' Runs without privileges in a scratch directory.')

prop('F02', 'Tidied paths are absolute and lead to the same place',
     '''Tidying up a path, which need not exist, gives an absolute path without redundant parts which leads to the same place, whether or not symbolic links are involved; it never goes above the root.
     Asking for or replacing the extension of a path affects only what follows the last dot of its last part.''',
     ['inputs', 'configurations'], 'All paths made of names, ., .., repeated slashes and links, from any current directory.',
     'One test has a few fixed paths with no links.',
     ['src/filesystem.cc'],
     [('tidying', 'dcp::filesystem::weakly_canonical'), ('extensions', 'dcp::filesystem::extension, change_extension')],
     'property-based testing against reference models of path resolution', BOUND)

prop('F03', 'A scope guard runs its action exactly once, or not at all if cancelled',
     '''The action given to a scope guard runs exactly once, when the last holder of the guard is destroyed, whether that is by leaving a scope normally or by an exception.
     If the guard is cancelled, before or after being moved, it never runs; moving a guard moves the responsibility and the moved-from object does nothing.''',
     ['programs', 'histories'], 'All programs which make, move, cancel and destroy guards in nested scopes, with exceptions.',
     'The tests have four fixed uses.',
     ['src/scope_guard.h'],
     [('guard', 'ScopeGuard')],
     'stateful property-based testing with generated programs against a model', BOUND)

prop('B01', 'Bit streams hold exactly the bits written, and their CRCs verify',
     '''A bit stream holds the bits written to it, most significant first, in order, whatever mixture of single bits, bytes and words of any width they came from.
     Each checksum written covers exactly the bits since it was started, so that a receiver dividing the message and checksum by the polynomial finds no remainder; starting one inside another, or writing one that was not started, is refused and has no effect.''',
     ['inputs', 'histories'], 'All sequences of writes and checksums with any polynomial.',
     'The code is only tested as part of one stored sync track.',
     ['src/bitstream.cc', 'src/bitstream.h'],
     [('bits', 'Bitstream::write_bit, write_from_byte, write_from_word'), ('checksum', 'Bitstream::start_crc, write_crc')],
     'stateful property-based testing against a model, and the receiver\'s CRC check', BOUND)

prop('B02', 'Sync signals can be decoded by a receiver',
     '''The samples made from any data decode, by a receiver which looks for a change of sign in the middle of each group of four samples, to exactly that data in order.
     Samples have the documented sizes, and the wave is continuous: the sign changes at every boundary between bits, including between one lot of data and the next.''',
     ['inputs', 'histories'], 'All data and sequences of lots of data, used completely or in part.',
     'The only test compares with one stored file, which needs libraries that this build does not have.',
     ['src/fsk.cc', 'src/fsk.h'],
     [('samples', 'FSK::get'), ('data', 'FSK::set_data')],
     'property-based testing: decoding by an independent receiver (round trip), and invariants of the wave', BOUND)

prop('N01', 'File names made from formats are complete and safe',
     '''A name made from a format has each %-letter which has a value replaced by it, in one pass from left to right, and everything else kept, except for those letters which were to be ignored.
     Slashes, colons and spaces from either the format or a value never appear in the result; the suffix is added unchanged.''',
     ['inputs'], 'All formats, values, suffixes and lists of letters to ignore.',
     'No test that runs here covers it; others use a few formats.',
     ['src/name_format.cc', 'src/name_format.h'],
     [('expansion', 'NameFormat::get')],
     'property-based testing against a reference model', BOUND)

prop('N02', 'Names of kinds and alignments convert both ways and unknown ones are refused',
     '''Every content kind and text alignment has its documented name (and scope, for content kinds), and converting the name, in any mixture of upper and lower case, gives back the same thing.
     Any other text is refused with an error.
     Each subtitle standard positions text by either baseline or bounding box, as documented.''',
     ['inputs'], 'All values; all names, cases and near-misses of them.',
     'Tests convert each alignment name once and do not cover content kinds without other libraries.',
     ['src/content_kind.cc', 'src/h_align.cc', 'src/v_align.cc', 'src/subtitle_standard.cc'],
     [('content kinds', 'ContentKind::from_name, all'), ('alignment', 'string_to_halign, halign_to_string, string_to_valign, valign_to_string'), ('standards', 'uses_baseline, uses_bounding_box')],
     'property-based testing: round trip, reference tables and mutated names', BOUND)
