AI = 'abstract interpretation of the LLVM IR '
TB = ' Trusted: clang front end, opt sroa, the IR interpreter in engine/, and the oracle tables.'
prop('P01', 'Every calendar year follows its published rule and abuts the next year',
 'Converting a calendar date to a day number gives, for every supported calendar, month and year (negative years included), the day number required by that calendar\'s published rule, and consecutive months and years abut without gap or overlap. Month lengths reported by the library agree with the same rule, and dates in years outside a table-driven calendar\'s range are refused with day number 0.',
 ['inputs'], 'all nine calendars (Gregorian, Julian, Hebrew, Islamic, French Revolutionary, Persian, Julian/Gregorian, Chinese, modern Persian), every month, every year within the range of the calendar (periodic calendars: every year of either sign up to a million periods)',
 'Tests sample a few dozen dates; an error confined to one residue of a 400/2820-year cycle, one molad value or negative years is never sampled.',
 ['date.cpp', 'chinese.dat'], [('year start/month length computation per calendar', 'date.cpp get_calendar_data, get_*_year_data'), ('date to day number', 'date.cpp dmy_to_day, days_in_month')], ['dmy_to_day', 'days_in_month', 'get_chinese_intercalary_month'],
 claim=(AI + 'over a congruence/affine domain (year = period*k + residue), oracle comparison', 'proof', 'Every obligation is an equality of affine forms valid for the whole year range of its residue class; Hebrew years are checked one by one (0..7000 quick, ..100496 thorough). Eight one-day gaps in the shipped Chinese table are known findings.' + TB))
prop('P02', 'Day number to calendar date inverts the calendar rule on every day',
 'Converting a day number to a calendar date yields the unique (day, month, year) whose day number it is, for every day in every supported calendar, including negative years and both sides of every year, month and leap-rule boundary.',
 ['inputs'], 'every day number of the supported range in the nine calendars',
 'The tests convert a handful of days; the inverse can be wrong on a single boundary day of a rare year.',
 ['date.cpp'], [('year guess and search', 'date.cpp approx_year, day_to_dmy'), ('month search', 'date.cpp day_to_dmy')], ['day_to_dmy'],
 claim=(AI + 'over a congruence/affine/interval domain with adaptive interval partitioning, oracle comparison', 'proof', 'Days of a month are one interval atom, year = period*k+residue for periodic calendars; year residues are sampled densely in quick and exhaustively in thorough.' + TB))
prop('P03', 'TD-UTC and TDB offsets are the published ones at every instant',
 'The offset between dynamical time and UTC is, at every instant, the published one: UT before 1961, each published rate from 1961 to 1971, each announced leap second from 1972, then predicted leap seconds that keep UTC within a second of UT and can be switched off after a given date. The TDB-TDT difference is the published periodic series and TDB-UTC is exactly the sum of the two differences, in seconds.',
 ['inputs'], 'every instant (real-valued) from the remote past to year 3000 (quick) or 15000 (thorough), including the instants of change themselves',
 'Tests print a few instants; a shifted table entry, an off-by-one at a boundary or a sign error in one term is seen only at specific instants.',
 ['delta_t.cpp'], [('UTC table and prediction', 'delta_t.cpp td_minus_utc'), ('TDB series', 'delta_t.cpp tdb_minus_tdt'), ('sum', 'delta_t.cpp tdb_minus_utc')], ['td_minus_utc', 'tdb_minus_tdt', 'tdb_minus_utc'],
 state=[{'name': 'mjd_end_of_predictive_leap_seconds', 'meaning': 'date after which no leap seconds are predicted', 'where': 'delta_t.cpp'}],
 claim=(AI + 'with the instant an interval atom, partitioned at the published change dates', 'proof', 'Result affine forms compared with USNO/IERS tables within 1e-6 s on whole intervals; predicted leap seconds are decided relative to an opaque Delta-T function.' + TB))
prop('P04', 'Delta-T follows the published piecewise model for every instant',
 'With no Earth-orientation data loaded, the dynamical-minus-universal time difference equals the published table interpolated linearly from 1620 to 2024, the published polynomials before 1620, and the published extrapolation after the table, at every instant. A user-supplied piecewise polynomial string overrides the model exactly where it applies and nowhere else, and resetting restores the defaults.',
 ['inputs', 'configurations'], 'every real-valued year in (-10^6, 10^6), every table segment, default/user/reset configurations',
 'Tests use a few years; one wrong coefficient or table entry shows only inside its own two-year segment.',
 ['delta_t.cpp'], [('table and polynomial lookup', 'delta_t.cpp default_td_minus_ut, td_minus_ut'), ('user string', 'delta_t.cpp reset_td_minus_dt_string, evaluate_piecewise_string')], ['td_minus_ut', 'reset_td_minus_dt_string'],
 claim=(AI + 'with the year an interval atom per model segment; result polynomial compared with the published model', 'proof', 'Polynomial identity within 1e-6 s per segment.' + TB))
prop('P05', 'Reference-frame transformations are exact, inverse and history-free',
 'Precession between any two epochs is the IAU 1976 rotation composed through J2000 whatever epochs were used in earlier calls, is a rotation, and is the identity for equal epochs; true-equator and Earth-orientation matrices are exactly nutation times precession followed by sidereal spin and polar motion. Positions and coordinates pushed through a matrix forward come back through the inverse direction, with the longitude returned within half a turn of the input; galactic and supergalactic coordinates follow their published definitions. The mean obliquity is the published series, clipped to its documented limits, whatever was asked before.',
 ['inputs', 'histories'], 'all epochs and epoch pairs, all matrices/coordinates, all cache histories up to three calls (the caches hold one entry, so longer ones add no new state)',
 'Tests compute a few epochs in one call each; one-entry caches, epoch pairs away from J2000 and the two directions interact only in particular call sequences.',
 ['precess.cpp', 'obliquit.cpp', 'alt_az.cpp', 'eop_prec.cpp', 'miscell.cpp'], [('precession set-up and caches', 'precess.cpp setup_ecliptic_precession, setup_precession, setup_precession_with_nutation*'), ('coordinate transformation', 'precess.cpp precess_ra_dec, alt_az.cpp precess_pt, ra_dec_to_galactic..'), ('obliquity', 'obliquit.cpp mean_obliquity'), ('Earth orientation', 'eop_prec.cpp setup_precession_with_nutation_eops')],
 ['setup_precession', 'setup_ecliptic_precession', 'precess_ra_dec', 'precess_pt', 'mean_obliquity', 'setup_precession_with_nutation_eops', 'ra_dec_to_galactic'],
 state=[{'name': 'curr_matrix, prev_year_from/to', 'meaning': 'last precession matrix computed', 'where': 'precess.cpp'}, {'name': 'curr_obliquity', 'meaning': 'last obliquity computed', 'where': 'obliquit.cpp'}],
 claim=(AI + 'over a trigonometric polynomial domain with symbolic epochs and coordinates; normal-form identities against the published rotations', 'proof', 'Identities hold for every epoch/coordinate; cache histories enumerated up to three calls over five epoch classes.' + TB))
prop('P06', 'Vector, matrix and rotation primitives satisfy their algebraic laws',
 'The vector and matrix primitives are what their names promise for every input, also when output and input are the same array: dot and cross product, length, normalisation, row/column rotations by an angle, rotation about an axis, identity, inverse of a rotation matrix, matrix times vector and transposed matrix times vector, polar to Cartesian, J2000 equatorial to ecliptic and back; arcsine and arccosine clamp arguments beyond +-1 instead of failing.',
 ['inputs'], 'all finite vectors, matrices and angles; all axes; aliased and separate outputs',
 'Tests use fixed vectors; sign, index and aliasing errors can cancel in them.',
 ['miscell.cpp', 'precess.cpp'], [('primitives', 'miscell.cpp'), ('matrix times vector', 'precess.cpp precess_vector, deprecess_vector')], ['spin_matrix', 'pre_spin_matrix', 'rotate_vector', 'precess_vector', 'deprecess_vector', 'invert_orthonormal_matrix', 'vector_cross_product', 'equatorial_to_ecliptic', 'asine', 'acose'],
 claim=(AI + 'on symbolic vectors and angles; polynomial identities', 'proof', 'Each component is a polynomial identity in the symbolic inputs.' + TB))
prop('P08', 'Nutation, sidereal time and lunar phases are the published series',
 'The nutation in longitude and obliquity is the IAU 1980 series (every term: multiples of the fundamental arguments, amplitude, secular part; obliquity parts of at most 0.0002" may be dropped), and each component is the same whether or not the other one is requested. Greenwich sidereal time is the IAU 1982 expression modulo whole turns. The time of a lunar phase is that of the lunation nearest the given time, by the published mean lunation and periodic terms.',
 ['inputs'], 'every instant (symbolic time), all 106 nutation terms, the four phases',
 'Tests print three dates to nine digits; effects of secular parts, NULL arguments or of the lunation choice show only at other dates.',
 ['nutation.cpp', 'miscell.cpp', 'get_time.cpp'], [('nutation series', 'nutation.cpp nutation'), ('sidereal time', 'miscell.cpp green_sidereal_time'), ('lunar phases', 'get_time.cpp find_nearest_lunar_phase_time, get_phase_time')], ['nutation', 'green_sidereal_time', 'find_nearest_lunar_phase_time'],
 claim=(AI + 'over trigonometric polynomials in symbolic time, decomposed term by term against the published series', 'proof', 'Term by term. 18 secular parts are wrong in the code and listed as known findings (the regression tests pin the resulting values).' + TB))
prop('P09', 'Refraction, sky brightness and magnitude laws are the published formulas',
 'Refraction follows Bennett\'s formula (and the Saastamoinen formula with pressure, temperature and humidity), and its inverse is the refraction at true altitude plus refraction, started from Saemundsson\'s formula. The sky-brightness model computes, for each of the five bands that is requested and for no other, the published extinction coefficients, extinction and sky brightness (night sky + moon + the fainter of daylight and twilight), the lunar magnitude from the elongation folded into half a turn, and the limiting magnitude. The phase-angle magnitude correction is the IAU H-G law.',
 ['inputs'], 'all altitudes, weather, elongations, positions above and below the horizon, all slope parameters, band masks',
 'Tests run one night at one place; errors in one band, below the horizon, at saturated humidity or for negative elongations are not sampled.',
 ['refract.cpp', 'vislimit.cpp', 'astfuncs.cpp'], [('refraction', 'refract.cpp'), ('sky brightness', 'vislimit.cpp'), ('H-G law', 'astfuncs.cpp phase_angle_correction_to_magnitude')], ['refraction', 'reverse_refraction', 'saasta_refraction', 'reverse_saasta_refraction', 'set_brightness_params', 'compute_extinction', 'compute_sky_brightness', 'compute_limiting_mag', 'phase_angle_correction_to_magnitude'],
 claim=(AI + 'with symbolic inputs, one interval atom per published case; normal-form comparison with the published formulas', 'proof', 'Expression identity per case. The iteration count of the inverse refraction is not judged.' + TB))
prop('P07', 'Packed designations and catalogue codes encode and decode by published rules',
 'Base-62 numbers, packed minor-planet, provisional, comet, survey and natural-satellite designations, MPC catalogue (net) codes and variable-star designations are encoded and decoded by the published rules for every number, year, half-month letter and cycle count, so that packing and unpacking are inverse; designations that do not fit the published form are reported as unrecognised, and no output exceeds the caller\'s buffer.',
 ['inputs'], 'every designation of each published form: digits and letters are unknowns of their class',
 'Tests pack and unpack some hundred designations; a wrong digit class, half-month letter, range boundary (620000, cycle 61/62) or Roman numeral appears only for particular designations.',
 ['unpack.cpp', 'mpc_fmt.cpp', 'miscell.cpp'], [('unpacking', 'unpack.cpp unpack_mpc_desig'), ('packing', 'mpc_fmt.cpp create_mpc_packed_desig'), ('base-62', 'mpc_fmt.cpp mutant hex functions'), ('variable stars', 'miscell.cpp make_var_desig, decipher_var_desig')], ['create_mpc_packed_desig', 'unpack_mpc_desig', 'encode_value_in_mutant_hex', 'get_mutant_hex_value', 'net_name_to_byte_code', 'byte_code_to_net_name', 'make_var_desig', 'decipher_var_desig'],
 claim=(AI + 'on strings of symbolic characters; output characters compared in normal form with the published packing rule', 'proof', 'Every template (shape of a designation) is decided for all its digits and letters. Templates are a finite list covering each published form, not every malformed string.' + TB))
prop('P10', 'Angles on the sphere, horizon coordinates and ellipsoid conversions are exact',
 'The distance and position angle between two directions are the great-circle ones for every pair of directions, small and near-antipodal separations included. Conversion between equatorial and horizon coordinates follows the spherical triangle with the observer\'s latitude and local sidereal time (azimuth measured from south toward west, poles included), and the two directions are inverse. Geodetic latitude and altitude convert to parallax constants and back exactly, for each planet\'s published radius and flattening; a planet index outside the table is refused.',
 ['inputs'], 'all pairs of directions, all latitudes and sidereal times, all points outside the ellipsoid\'s centre, all planet indices',
 'Tests evaluate a few ordinary directions; errors at the poles, in one quadrant, at tiny separations or for an out-of-range planet are not sampled.',
 ['dist_pa.cpp', 'alt_az.cpp', 'mpc_code.cpp'], [('distance and position angle', 'dist_pa.cpp'), ('horizon coordinates', 'alt_az.cpp full_ra_dec_to_alt_az, full_alt_az_to_ra_dec'), ('ellipsoid', 'mpc_code.cpp lat_alt_to_parallax, point_to_ellipse, parallax_to_lat_alt')],
 ['calc_dist_and_posn_ang', 'reverse_dist_and_posn_ang', 'full_ra_dec_to_alt_az', 'full_alt_az_to_ra_dec', 'lat_alt_to_parallax', 'parallax_to_lat_alt', 'planet_radius_in_meters', 'planet_axis_ratio'],
 claim=(AI + 'over trigonometric polynomials with symbolic angles, partitioned by path; normal-form comparison with the spherical-triangle and ellipsoid formulas', 'proof', 'Every path of each function is an identity in the symbolic inputs under its path condition.' + TB))
prop('P11', 'Text output and form decoding are exact and stay inside the caller\'s buffer',
 'Bounded copy, append and formatted-append functions never write outside the stated size, always terminate, and return the untruncated length. Search-and-replace replaces every occurrence and keeps the rest. Right ascensions and declinations are written in every documented format with the requested precision, correctly rounded with carry into minutes, hours or degrees, with the documented width and sign. URL-encoded form data is split and decoded exactly (plus signs, hexadecimal escapes of either case, empty values, missing terminators), a malformed escape is an error, and overlong pieces are cut inside the buffer.',
 ['inputs'], 'every buffer size class, every angle, every documented format and precision, every escape',
 'Tests print a handful of angles; a carry at 59.9995 seconds, a precision at the edge of a format range, a buffer filled exactly, or a lower-case escape is not sampled.',
 ['snprintf.cpp', 'mpc_fmt2.cpp', 'cgi_func.cpp', 'mpc_fmt.cpp'], [('bounded strings', 'snprintf.cpp strlcpy_err, strlcat_err, snprintf_append'), ('angle output', 'mpc_fmt2.cpp output_angle_to_buff, output_signed_angle_to_buff'), ('form data', 'cgi_func.cpp get_urlencoded_form_data')],
 ['strlcpy', 'strlcat', 'strlcpy_err', 'strlcat_err', 'snprintf_append', 'text_search_and_replace', 'output_angle_to_buff', 'output_signed_angle_to_buff', 'get_urlencoded_form_data'],
 claim=(AI + 'on strings of symbolic characters and angles known up to their printed digits; every access checked against its object', 'other', 'Lengths and buffer sizes are enumerated (all combinations up to a small bound), characters and digits are unknown. Assumes the C library formats correctly and the buffer size passed is the true one.'))
prop('P12', 'Observation records: times, angles and precisions are read as the formats say',
 'Every documented date layout of an 80-column observation record (calendar date with 0 to 6 decimals, century-letter dates, hour-minute-second times, Julian and modified Julian days) gives the day number its digits denote, with the format code recording layout and precision; radar times are rounded to whole seconds. Every documented right-ascension and declination layout (sexagesimal, decimal minutes, decimal hours or degrees, run-together digits, degree-minute-second right ascension) gives the angle its digits denote, its sign, its format code and its precision in arcseconds. Lines of the wrong length, with bad observatory codes or unreadable angles are reported as such.',
 ['inputs'], 'every digit of every documented layout',
 'Tests read a few sample records; the rarely used layouts (VLBA run-together digits, degrees right ascension, century letters, MJD) and their precision codes are not all exercised.',
 ['mpc_fmt.cpp'], [('dates', 'mpc_fmt.cpp extract_date_from_mpc_report'), ('angles', 'mpc_fmt.cpp get_ra_dec, get_ra_dec_from_mpc_report'), ('codes', 'mpc_fmt.cpp is_valid_mpc_code')],
 ['extract_date_from_mpc_report', 'get_ra_dec_from_mpc_report', 'is_valid_mpc_code'],
 claim=(AI + 'on 80-character records of symbolic digits; the value must be the linear form of the digits the layout prescribes', 'proof', 'One abstract call per layout and number of decimals, all digits unknown. The layouts are those documented in mpc_fmt.cpp. The calendar function is an uninterpreted function here (P01 decides it).' + TB))
prop('P13', 'Observatory records, typed locations and coordinates mean what their text says',
 'Decimal numbers of any length are read as the number they denote, with the position after them. A standard observatory record gives longitude, parallax constants, latitude, altitude, precision and name from its columns; a rovers.txt record gives longitude, latitude and altitude in decimal or base-60 degrees, on the stated planet; satellite records and malformed records are reported as such. A region file gives the name of the first box holding a point, whatever multiple of 360 degrees the longitudes carry. Locations typed in any of the documented free forms (letters before or after, decimal degrees, minutes or seconds, metres or feet) and comment lines with Long./Lat./Alt. give the stated place, out-of-range or incomplete ones are refused. Right ascensions and declinations typed as text give the stated angle and the number of characters read, zero for unusable text.',
 ['inputs'], 'every digit of every documented layout; letters, signs, separators and altitude units enumerated',
 'Tests read a few hand-picked records; a wrong sign for western longitudes, a dropped minute field, an overflow on a long decimal fraction or a wrong unit appears only for particular texts.',
 ['mpc_code.cpp'], [('numbers', 'mpc_code.cpp quick_strtod'), ('records', 'mpc_code.cpp get_mpc_code_info'), ('typed locations', 'mpc_code.cpp get_lat_lon_info, get_xxx_location_info'), ('typed coordinates', 'mpc_code.cpp get_ra_from_string, get_dec_from_string')],
 ['quick_strtod', 'quick_atof', 'get_mpc_code_info', 'get_lat_lon_info', 'get_xxx_location_info', 'get_ra_from_string', 'get_dec_from_string', 'extract_region_data_for_lat_lon'],
 claim=(AI + 'on texts of symbolic digits; every result field must be the linear form of the digits its layout prescribes', 'proof', 'One abstract call per layout, all digits unknown; layouts, letters and separators are a finite list. The ellipsoid conversions are uninterpreted functions of their arguments here (P10 decides them). Right ascensions typed with two fields are outside the statement (the documentation is ambiguous).' + TB))

prop('P14', 'Typed dates and times denote the instant their text says',
 'Every documented form of typed date and time gives the instant it says, relative to the starting instant where the text leaves fields out: Julian and modified Julian days, decimal years, GPS weeks, Unix seconds; three-field dates in any order with named or numbered months and any of the separators, ambiguous orders settled by the year-first and month-before-day flags; ISO/FITS and European-dot dates; BC/AD; two-digit years; packed YYYYMMDD and YYMMDD; day of year; one- and two-field dates; day-of-week names (the nearest such day, before 2000 too); times of day with am/pm; chains of offsets; lunar-phase suffixes; "now". The calendar named by the flags is used throughout. A text of up to 79 characters is read without touching memory outside the buffers, and text that is no date returns the starting instant and a negative is_ut. split_time gives the calendar date, hour, minute and seconds of an instant.',
 ['inputs'], 'every digit of every documented form; forms, separators, months, flags, calendars and offset units enumerated',
 'The parser has over twenty forms, four order flags, eight calendars and several heuristics on field sizes; tests read about a hundred fixed texts, and an error confined to one separator, one flag combination or one range of years shows only on particular dates.',
 ['get_time.cpp'], [('parser', 'get_time.cpp get_time_from_stringl'), ('offsets', 'get_time.cpp collect_time_offset'), ('splitting', 'get_time.cpp split_timel')],
 ['get_time_from_stringl', 'get_time_from_string', 'split_timel', 'split_time'],
 claim=(AI + 'on texts of symbolic digits; the result must be the linear form of the digits and of the fields of the starting instant that the form prescribes', 'proof', 'One abstract call per form, digits unknown, starting instant unknown; forms and flag combinations are a finite list. Calendar conversion (P01, P02) and phase lookup (P08) are unknown functions here.' + TB))

prop('P15', 'Instants are written as the date and time they are, in the layout asked for',
 'full_ctime writes, for every combination of format flags, precision 0 to 15 and calendar, exactly the calendar date, weekday, day of year and time of day of the instant: with FULL_CTIME_ROUNDING the nearest value with the requested decimals, carries going through to the date and year; without it the value cut at the last decimal (up to the documented twentieth of a place). Julian days and modified Julian days are the nearest decimal, decimal years are cut or rounded the same way. Leading zeroes, order of the fields, months as digits, two-digit years, missing year, time only, no spaces, no colons and a thirteenth month come out as the flags say, and nothing outside the internal buffers is written.',
 ['inputs'], 'every calendar date and weekday, every time of day and every decimal as unknown digits; all single flags, pairs and triples of flags',
 'Carries at midnight, dates before 2000, high precisions and flag combinations are each a small corner; the tests print a few dozen fixed instants.',
 ['miscell.cpp'], [('writer', 'miscell.cpp full_ctimel'), ('decimals', 'miscell.cpp show_remainder')],
 ['full_ctime', 'full_ctimel'],
 claim=(AI + 'on an instant made of unknown calendar fields, digits and a remainder; the text must consist of exactly these digits', 'proof', 'One abstract call per layout, all digits unknown, the remainder anywhere in the rounding interval. Flag combinations: all of up to three flags (more in the thorough tier). The calendar functions are unknown functions here (P01, P02).' + TB))

prop('P16', 'Orbit elements and state vectors convert exactly; motion is two-body motion',
 'The orientation vectors of an orbit are the columns of the rotation by node, inclination and argument of periapsis, for every inclination, retrograde and planar orbits included. A body placed on an orbit at an instant is at the position and has the velocity of two-body motion with that mean anomaly, for elliptic, parabolic, nearly parabolic and hyperbolic orbits; either output may be omitted. An eccentric anomaly that the Kepler solver returns satisfies Kepler\'s equation to its stated tolerance. Recovering elements from position and velocity gives back the eccentricity, periapsis distance, inclination, node, argument of periapsis, periapsis time, mean anomaly, frame vectors and angular momentum of the orbit the state lies on, circular and planar orbits included.',
 ['inputs'], 'all orbital elements and positions on the orbit, in each regime of eccentricity and inclination',
 'Tests check a few orbits; errors at inclination 0 or 180 degrees, on the inbound branch, in the parabolic limit, or for a missing output pointer appear only there.',
 ['astfuncs.cpp', 'classel.cpp'], [('orientation', 'astfuncs.cpp derive_quantities, setup_orbit_vectors'), ('motion', 'astfuncs.cpp comet_posn_and_vel, kepler, near_parabolic'), ('element recovery', 'classel.cpp calc_classical_elements')],
 ['derive_quantities', 'setup_elems_from_ast_file', 'comet_posn', 'comet_posn_and_vel', 'calc_classical_elements'],
 claim=(AI + 'over trigonometric, hyperbolic and square-root terms in symbolic elements, partitioned by path; normal-form comparison with two-body formulas', 'proof', 'Per path and regime. Whether the Kepler iteration terminates is not decided; only what it returns.' + TB))
prop('P17', 'Interpolation and one-dimensional minimum search keep their published invariants',
 'Table interpolation by natural-slope cubic and by Lagrange polynomial gives the polynomial through the tabulated points (value, and slope where offered), reproduces the table at its points, and reports whether the argument lies in the interior, at the edges or outside the table. A parabola fitted to three points passes through them. The minimum search keeps its bracket ordered with the least value inside, accepts each new evaluation into the right place, and proposes only points inside the bracket.',
 ['inputs'], 'all table contents, arguments, abscissae and function values, in every order',
 'Tests interpolate one table and minimise three functions; a wrong weight at one table edge or a bracket end replaced on one side appears only for particular arguments or functions.',
 ['spline.cpp', 'brentmin.cpp'], [('interpolation', 'spline.cpp'), ('minimum search', 'brentmin.cpp')],
 ['cubic_spline_interpolate_within_table', 'lagrange_interpolate_within_table', 'brent_min_init', 'brent_min_next', 'brent_min_add'],
 claim=(AI + 'over rational functions of symbolic table entries, partitioned by path; normal-form comparison with the interpolating polynomials and order reasoning for the bracket', 'proof', 'Per path. Convergence of the search is not decided.' + TB))
prop('P18', 'Built-in satellite and planet theories are the published ones',
 'The positions of Jupiter\'s four great moons, Saturn\'s eight major moons, Triton, Pluto and the Earth computed by the built-in theories are, for every instant and every selection of satellites, the published series (Lieske E5, Dourneau/Harper-Taylor, the Jacobson Triton model, the Meeus Pluto series, truncated VSOP87): every angle is the published linear or polynomial function of time, every periodic term has the published amplitude, argument and phase, each body uses its own elements, and the result is referred to the documented frame and equinox. Elements not asked for are not written; the outputs are completely filled in.',
 ['inputs'], 'all instants, all bodies and selections; all terms of the series',
 'Tests evaluate the theories at a few dates; a wrong sign or argument in a term that is small at those dates, a term of another moon, or an unset component for one moon escapes them.',
 ['jsats.cpp', 'ssats.cpp', 'triton.cpp', 'pluto.cpp', 'eart2000.cpp'], [('Galilean satellites', 'jsats.cpp calc_jsat_loc'), ('Saturnian satellites', 'ssats.cpp calc_ssat_loc'), ('Triton', 'triton.cpp calc_triton_loc'), ('Pluto', 'pluto.cpp calc_pluto_loc'), ('Earth', 'eart2000.cpp get_earth_loc')],
 ['calc_jsat_loc', 'calc_ssat_loc', 'calc_triton_loc', 'calc_pluto_loc', 'get_earth_loc'],
 claim=(AI + 'with symbolic time and a symbolic coefficient block; every series compared term by term, in normal form, with tables of the published theories', 'proof', 'All terms for all times. The oracle tables (props/theory.py) were transcribed from memory of the publications and cross-checked by physical relations (commensurabilities, D\'Alembert rules, Laplace-plane geometry); a handful of last digits that could not be confirmed are taken from the code and then only guard against change.' + TB))
prop('P19', 'Theories read from data files: right series, errors reported, nothing leaked',
 'Positions evaluated from data files (short and full VSOP87, the lunar theory of Meeus ch. 47, ELP-2000/82B, PS-1996, and the combined planetary positions in five frames) are the documented series in whatever coefficients the file contains, for every planet, coordinate and instant; a precision limit may only drop terms below it, also when time is negative or zero. A missing file, an allocation that fails, or a read that fails or is short is reported by the documented error value, never by a plausible position; whatever happens nothing stays open or allocated, and a failed call does not affect the following ones. Results do not depend on the calls made before.',
 ['inputs', 'fault_sequences', 'histories'], 'all instants, planets, coordinates and precision limits; any coefficients in the file; every fopen, malloc and fread may fail or be short',
 'The data files are not in the repository, so that tests evaluate almost none of this; failures of particular reads and allocations, and the call sequences after them, are not produced by tests at all.',
 ['vsopson.cpp', 'big_vsop.cpp', 'lunar2.cpp', 'getplane.cpp', 'elp82dat.cpp', 'de_plan.cpp'], [('short VSOP', 'vsopson.cpp calc_vsop_loc'), ('full VSOP with header cache', 'big_vsop.cpp calc_big_vsop_loc'), ('Moon', 'lunar2.cpp lunar_fundamentals, lunar_lon_and_dist, lunar_lat'), ('frames', 'getplane.cpp compute_planet'), ('ELP', 'elp82dat.cpp compute_elp_xyz'), ('PS-1996', 'de_plan.cpp load_ps1996_series, get_ps1996_position')],
 ['calc_vsop_loc', 'calc_big_vsop_loc', 'lunar_lon_and_dist', 'lunar_lat', 'compute_planet', 'compute_elp_xyz', 'load_ps1996_series', 'get_ps1996_position', 'unload_ps1996_series'],
 claim=(AI + 'on data blocks and virtual files with symbolic contents and failing operations; results compared in normal form with the documented series', 'proof', 'Loop bounds come from concrete file headers (the real VSOP header shape; small and chunk-crossing ELP series; several PS-1996 layouts); coefficients and times are symbolic. Multi-call histories: up to three calls.' + TB))
prop('P20', 'Planetary orientations, rotation rates and radii are those of cospar.txt',
 'For every object number of cospar.txt (old numbers through the Remap table), every rotation system and every instant, the matrix returned has as rows the prime meridian, the direction 90 degrees from it along the equator (against the right-hand sense about the pole for prograde bodies, in it for retrograde ones) and the pole that the series of the file give: polynomials in days and centuries plus sines and cosines of the arguments of its planet, multiples included; rotation rates and radii likewise. Every object in front of END is found, the last one too; comments, blank lines, spaces and CR LF do not matter. The Earth comes from precession, nutation and Earth orientation at the instant. Unknown objects, a missing file and failing allocations are reported with determinate values; after load_cospar_file only the new file counts, nothing stays open, and no result depends on what was asked before.',
 ['inputs', 'fault_sequences', 'histories'], 'all objects and systems; all instants (symbolic spans and given dates); files of the documented grammar; fopen and malloc failing; sequences of calls on several files',
 'Tests print a few objects on one date; terms of other objects, the order of objects in the file, other files, failures, and call sequences (cached results, first call of each kind) are never exercised.',
 ['cospar.cpp', 'cospar.txt', 'miscell.cpp'], [('reading and evaluating', 'cospar.cpp get_cospar_data_from_text_file'), ('frame and cache', 'cospar.cpp calc_planet_orientation'), ('rate cache', 'cospar.cpp planet_rotation_rate'), ('radii', 'cospar.cpp planet_radii'), ('switching files', 'cospar.cpp load_cospar_file'), ('data', 'cospar.txt')],
 ['calc_planet_orientation', 'planet_rotation_rate', 'planet_radii', 'load_cospar_file'],
 claim=(AI + 'on virtual text files (the real cospar.txt and small ones covering the grammar) with a symbolic instant; results compared in normal form with an independent reading of the file', 'proof', 'File texts are concrete; instants are symbolic on spans where no argument passes through zero (the code treats an argument of exactly 0 as an error), and given dates. Histories: up to fifteen calls.' + TB))
prop('P21', 'Earth orientation parameters are those of the IERS file',
 'After a finals file has been loaded, each requested parameter (polar motion X and Y, TDT-UT1, dPsi, dEps) at any instant inside the data is the cubic through the values written for the days around it with central-difference slopes, in radians and seconds, and TDT-UT1 runs continuously through leap seconds; parameters not asked for are zero; outside the data of a parameter its bit is set in the return value and it is zero, TDT-UT1 coming from the default model. Loading returns the last day with data (also if the file ends with it), the last day that is not a prediction, and the spans on request. A missing, empty, malformed or short file or a failing allocation gives the documented code, keeps no data (queries return -1), and leaves no file open and no memory allocated; loading replaces earlier data.',
 ['inputs', 'fault_sequences', 'histories'], 'all instants of sampled days including every boundary (symbolic fraction of the day); all parameter masks of interest; open, allocation and read failures; sequences of loads and queries',
 'The files are downloaded, not in the repository: tests never load one, so neither values nor boundaries nor failures are exercised.',
 ['eop_prec.cpp', 'spline.cpp'], [('loading', 'eop_prec.cpp load_earth_orientation_params'), ('line format', 'eop_prec.cpp is_valid_eop_line'), ('queries', 'eop_prec.cpp get_earth_orientation_params'), ('interpolation', 'spline.cpp cubic_spline_interpolate_within_table')],
 ['load_earth_orientation_params', 'get_earth_orientation_params'],
 claim=(AI + 'on virtual IERS files of more than 16371 days with a symbolic instant inside each sampled day; results compared in normal form with the cubic through the numbers written in the file', 'proof', 'The numbers in the file are given (one made-up file in the quick tier, three more in the thorough tier); days are sampled: all boundaries and about 80 others, 400 in the thorough tier.' + TB))
