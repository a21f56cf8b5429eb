"""Source of properties.jsonl (kept as python for readability): python3 tools/props.py > properties.jsonl"""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=[observe], hook_needed=None)))

prop("C01", "Hatanaka numerical kernel: coding and decoding are mutual inverses",
 "For any sequence of integer samples, any differencing order from 1 up to the kernel's capacity, and any re-initialisations along the way, feeding the coded values to a decoder that was initialised the same way returns exactly the original samples. The coded value of each sample is the finite difference of the samples seen since the last initialisation, whose order grows by one per sample until the requested order is reached. Nothing recorded before a re-initialisation influences any later value.",
 ["histories", "inputs"], "all sample sequences, all orders supported by the kernel capacity, all placements of re-initialisations",
 "unit tests replay one order-3 arc with one reset; the state is a history buffer, so errors appear only for particular orders, arc lengths and reset placements",
 ["src/hatanaka/numdiff.rs"], [("history rotation and n-th order difference", "NumDiff::{force_init,compress,decompress,rotate_history}")],
 "values returned by the public NumDiff coder and decoder")

prop("C02", "Hatanaka text kernel: decoding the coded text restores the text",
 "For any sequence of text lines of any lengths, none containing '&', decoding the coded lines in order returns each line exactly, up to trailing blanks left where an earlier line was longer, whatever re-initialisations are interleaved on both sides. A coded line holds a blank where the character is unchanged, '&' where it became a blank, the character itself where it changed, the new tail in full with its blanks as '&', and '&' for each dropped non-blank character when the line gets shorter; trailing unchanged positions may be trimmed before decoding.",
 ["histories", "inputs"], "all line sequences, growing and shrinking, all reset placements, trimmed or untrimmed coded lines",
 "tests use a few literal strings; the kernel is stateful so the result depends on the whole history of lines",
 ["src/hatanaka/textdiff.rs"], [("text difference", "TextDiff::{force_init,compress,decompress}")],
 "strings returned by the public TextDiff coder and decoder")

prop("C03", "CRINEX decompression restores exactly the epochs that were compressed",
 "Any CRINEX 1.0 or 3.0 observation stream that follows the Hatanaka rules (text-differenced epoch lines with explicit re-initialisation, differenced receiver clock, per-satellite and per-observable differenced values of order 1 to 5 with arc re-initialisation anywhere, blanks for missing values, differenced LLI/SSI flags, trailing blanks trimmed) is restored to exactly the epochs, satellites, observation values, flags and receiver clock offsets it encodes. This holds for any number of satellites and observables, for satellites and signals that appear, disappear and come back, and independently of the order in which satellites are listed.",
 ["histories", "inputs"], "all compliant CRINEX streams: any satellite churn, gaps, arc resets, differencing orders, flag changes, number of observables, both revisions",
 "test files exercise typical GPS/GLONASS logs with order 3; the decoder is a state machine with per-signal memory, so failures need particular histories (gap then return, flag text growth, wrapping at 5 observables or 12 satellites)",
 ["src/hatanaka/decompressor/mod.rs", "src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs", "src/record/parsing.rs"],
 [("decompression state machine", "DecompressorExpert::{run_epoch,run_clock,run_observation}"), ("record parsing through decompression", "Record::parse")],
 "the observation record obtained by parsing a CRINEX file, and the RINEX text the streaming decompressor produces")

prop("C04", "Compressing an observation file to CRINEX and back loses nothing",
 "Converting any observation data set (RINEX 2 or RINEX 3, any mix of satellites, missing signals, flags) to CRINEX, writing it out and reading it back yields the same epochs, satellites, observables, values to the millimetre-equivalent digit, LLI and SNR flags as the original. The text that is written is itself a compliant CRINEX stream: decoding it by the Hatanaka rules alone gives the same data.",
 ["histories", "inputs"], "all observation data sets expressible in the file format, including gaps, late-appearing satellites, changes of satellite list length",
 "tests compare a few files whose content is regular; the coder keeps per-signal state that depends on the whole past of the file",
 ["src/hatanaka/compressor.rs", "src/lib.rs", "src/record/formatting.rs", "src/observation/formatting.rs"],
 [("compression", "CompressorExpert::format"), ("conversion entry points", "Rinex::{rnx2crnx,crnx2rnx,format}")],
 "record after write + parse of the CRINEX text; the CRINEX text itself")

prop("O01", "Reading an observation file attributes every field to its signal",
 "For any well-formed RINEX 2 or RINEX 3 observation file, the record read contains, at each epoch and epoch flag, exactly one entry per non-blank observation, with the satellite, observable, value, LLI and SNR that its columns hold, and the receiver clock offset when one is given. Blank fields, trimmed line ends, continuation lines (more than 12 satellites or 5 observables), and satellites that have none of their observations never shift or drop other data.",
 ["inputs"], "all well-formed observation bodies: any number of satellites/observables, any blanking pattern, flags, trimmed or untrimmed line ends, both layouts",
 "tests check a handful of sample files; column arithmetic, wrapping and blanks interact combinatorially",
 ["src/observation/parsing.rs", "src/record/parsing.rs"],
 [("epoch and signal parsing", "observation::parsing::{parse_epoch,parse_signals_v2,parse_signals_v3}")],
 "observation record after parsing a file")

prop("O02", "Writing an observation file and reading it back is the identity",
 "Any observation data set written as RINEX 2 or RINEX 3 and read back gives the same epochs, epoch flags, satellites, observables, values (to three decimals), LLI, SNR and, in RINEX 3, receiver clock offsets. The text written obeys the column layout of the format: one or more epoch lines listing the satellites, then each satellite's observations in header order, blanks where nothing was observed.",
 ["inputs", "histories"], "all observation data sets: sparse signals, many satellites, many observables, several constellations, every epoch flag that carries observations",
 "tests dump and reload a few files with regular content",
 ["src/observation/formatting.rs", "src/observation/parsing.rs", "src/record/formatting.rs"],
 [("record formatting", "observation::formatting::format")],
 "text written and record obtained by reading it back")

prop("R01", "Observation epochs are never lost, merged or misattributed",
 "For any observation file body made of epochs interleaved with comment lines, blank lines and event blocks, each valid epoch is retained exactly once under its own timestamp and with its own content, whatever surrounds it, whether or not the last line is terminated. A file truncated anywhere, within a line or between lines, yields every epoch whose lines were complete, unchanged. An epoch that cannot be decoded does not affect its neighbours.",
 ["inputs", "crash_points", "histories"], "all interleavings of epochs, comments, event blocks and undecodable epochs, and all truncation points",
 "needs arbitrary interleavings and every truncation point; tests read whole, clean files",
 ["src/record/parsing.rs", "src/observation/parsing.rs"],
 [("line stacking and new-epoch detection", "Record::parse"), ("new epoch predicate", "is_new_epoch")],
 "observation record after parsing a file")

prop("R02", "Damage to a file stays where it is, whatever the file type",
 "For meteorological, navigation, clock, IONEX, ANTEX, DORIS and compact observation files: a well-formed file that is cut anywhere, within a line or between lines, or (compact observation files apart) that has any one line of its body damaged or lost, is still read without aborting. Every entry (weather epoch, navigation message, clock record, TEC or RMS map, antenna, observation or DORIS epoch) all of whose lines are intact holds exactly what it holds in the undamaged file, and no entry is invented besides, at most, the misread one of the damaged lines. A damaged or lost header line, bytes that are not ASCII included, never aborts the reading: either the file is refused with an error, or, one damaged line costing no more than the fields of that line, the rest of the header reads as before. An IONEX file of which the epoch or the scaling of a map does not read may be refused as a whole.",
 ["inputs", "crash_points", "histories"], "all well-formed files of each type, all truncation points, all damages to or losses of any one line",
 "needs every truncation point and arbitrary damage in arbitrary files; tests read whole, clean files",
 ["src/record/parsing.rs", "src/meteo/parsing.rs", "src/navigation/parsing/mod.rs", "src/clock/record.rs", "src/ionex/parsing.rs", "src/antex/record.rs", "src/doris/parsing.rs", "src/header/parsing.rs", "src/hatanaka/decompressor/mod.rs"],
 [("line stacking and new-epoch detection", "Record::parse"), ("format specific epoch parsing", "parse_epoch, parse_tec_map, parse_antenna")],
 "records after parsing a damaged file, compared with those of the undamaged one")

prop("R03", "Comments of a file body are kept, in order, under the epoch they follow",
 "Every comment line of the body of an observation, meteorological, navigation, clock, IONEX or DORIS file is stored exactly once, with its text as it stands, under the epoch of the entry it follows (the first entry when it comes before any), in the order of the file, whether it stands between two entries or inside one, whatever its text looks like; entries of the same epoch share their comments. Comments of the header stay in the header.",
 ["inputs", "histories"], "all interleavings of entries and comments, texts that look like epochs or labels included",
 "no test looks at the comments of a body",
 ["src/record/parsing.rs", "src/record/mod.rs", "src/lib.rs"],
 [("comments", "Record::parse / Rinex::comments")],
 "Rinex::comments after reading")
prop("H01", "Header content survives writing and reading, in any line order",
 "Reading a header gives each documented field the value its line holds, independently of the order of the lines and of unrelated lines and comments in between. Writing a header and reading it back preserves version, type, constellation, program, operator, date, observer, agency, marker, receiver, antenna, position, sampling interval, leap seconds, meteorological sensors, GLONASS channels, comments and the complete ordered list of observables of each constellation, whatever their number.",
 ["inputs", "programs"], "all header field combinations and values that fit their columns, all line orders, any number of observables per constellation",
 "wrapping thresholds (9 or 13 observables per line), ordering and optional fields combine beyond the sample headers",
 ["src/header/parsing.rs", "src/header/formatting.rs", "src/observation/header.rs", "src/meteo/header.rs"],
 [("header parsing", "Header::parse"), ("header formatting", "Header::format")],
 "Header value after parse, and after format + parse")

prop("M01", "Meteorological files: reading and writing preserve every sensor sample",
 "Reading any well-formed meteorological file yields exactly one value per non-blank field, attached to the right epoch and observable in header order, including continuation lines beyond eight observables. Writing such a data set and reading it back yields the same data, whatever values are missing at whatever epochs.",
 ["inputs"], "all meteo data sets: any number of observables, any missing values, both two-digit and four-digit year layouts",
 "sample files have complete rows only",
 ["src/meteo/parsing.rs", "src/meteo/formatting.rs", "src/meteo/header.rs"],
 [("epoch parsing", "meteo::parsing::parse_epoch"), ("formatting", "meteo::formatting::format")],
 "meteo record after parse and after format + parse")

prop("N01", "Navigation frames: every broadcast field lands under its own name",
 "For any well-formed RINEX 2, 3 or 4 navigation file, each message yields one frame with its own epoch, satellite, message type and frame class, its clock terms, and each non-blank, non-zero orbit field under the name the format assigns to that position for that constellation, message type and revision. Blank fields, zero fields and lines trimmed at the end never shift another field, and messages never mix.",
 ["inputs"], "all frames of all supported constellations and message types, any blanking pattern, any interleaving of messages",
 "the tests check particular frames; a blank in the middle of a line or a short line changes how all the following positions are counted",
 ["src/navigation/parsing/mod.rs", "src/navigation/ephemeris/parsing.rs", "src/navigation/orbits.rs", "db/NAV"],
 [("orbit field attribution", "parse_orbits"), ("frame parsing", "navigation::parsing::parse_epoch")],
 "navigation record after parsing a file")

prop("K01", "Clock files: each record line yields its own profile",
 "For any well-formed clock file (revision 2, 3.00 or 3.04), each satellite or receiver record line yields one profile under its epoch (to the microsecond), type and clock name, holding the bias and whatever optional terms (up to six, over a continuation line) the line carries, each in its own field. A record that cannot be decoded, a comment or another record never disturbs it.",
 ["inputs"], "all record types, all numbers of data fields, all name lengths, old and new column layouts, any interleaving",
 "sample files carry one or two data fields per line",
 ["src/clock/record.rs", "src/record/parsing.rs"],
 [("clock record parsing", "clock::record::parse_epoch")],
 "clock record after parsing a file")

prop("I01", "IONEX maps: every grid point is read at its coordinates, epoch and scale",
 "For any well-formed IONEX file, every non-9999 grid value is stored under the epoch of its map and the latitude, longitude and height of its position in the grid, scaled by the exponent in force for that map, and RMS values are attached to the TEC value of the same epoch and grid point. Missing points (9999), the number of maps, the grid shape and the wrapping of rows over lines change nothing for the other points. The queries (2D or 3D, borders and altitudes lowest first, fixed altitude, keys, TEC, RMS and coordinate iterators) answer from exactly those points and the grid of the header, the grid points next to a place inside the grid are the closest ones below and above it, and a TEC value built from its TECu is worth that many.",
 ["inputs", "histories"], "all grids (increasing or decreasing axes, one or several heights), all exponents and exponent changes, all missing patterns, any number of TEC and RMS maps",
 "tests sample a few points of complete global maps",
 ["src/ionex/parsing.rs", "src/record/parsing.rs", "src/ionex/quantized.rs", "src/ionex/tec.rs"],
 [("map parsing", "ionex::parsing::{parse_tec_map,parse_rms_map}"), ("epoch/exponent tracking", "Record::parse")],
 "IONEX record after parsing a file")

prop("A01", "ANTEX: each antenna keeps its own description, frequencies and patterns",
 "For any well-formed antenna file, each antenna block yields one antenna with its own type, serial number or satellite, calibration, validity period and code, and for each frequency block its own eccentricities and azimuth-independent phase pattern. Values never leak from one antenna or frequency block to another. Looking up an antenna's phase center offset by code, by serial number or for a satellite, at a given time and carrier, answers from an antenna of that name whose validity period contains the time.",
 ["inputs"], "all sequences of antenna blocks, with any number of frequencies, optional fields and azimuth-dependent rows",
 "optional fields and block order combine; leaks only show for particular sequences",
 ["src/antex/record.rs", "src/antex/antenna/mod.rs"],
 [("antenna block parsing", "antex::record::parse_antenna")],
 "ANTEX record after parsing a file")

prop("S01", "Sampling analysis reflects exactly the epochs present",
 "For any record, the first and last epoch, total duration, sampling histogram, dominant interval, steadiness and data gaps reported are those of the chronologically sorted list of its epochs: the histogram counts every pair of consecutive epochs once under their exact interval, the dominant interval is a most frequent one, sampling is steady exactly when a single interval exists, and the gaps are exactly the consecutive pairs further apart than the tolerance (or, by default, the dominant interval).",
 ["inputs", "histories"], "all finite sets of epochs, all tolerances, with or without a declared sampling interval",
 "tests use one or two regular files",
 ["src/sampling.rs", "src/iterators.rs", "src/lib.rs"],
 [("sampling analysis", "Rinex::{sampling_histogram,dominant_sampling_interval,data_gaps,steady_sampling}")],
 "values returned by the sampling API")

prop("F01", "Standard file names: parsing and generation agree",
 "Any file name that follows the short (V2), long (V3) or IONEX naming convention is decoded into the station, country, batch, source, year, day, time, period and sampling it spells, whatever its case and compression suffix; any other string is refused without panicking. The name generated for a file spells the date, time and sampling period of its data, its data type, and the attributes of its file name, those given explicitly, or those deduced from its content; a file that has its standard name keeps it, and decoding a generated name returns the same attributes.",
 ["inputs"], "all standard names: every period and sampling unit, batch number, day of year, source and file type",
 "tests list a dozen names with one period and one sampling rate",
 ["src/production/mod.rs", "src/production/ppu.rs", "src/production/ffu.rs", "src/lib.rs"],
 [("name parsing", "ProductionAttributes::from_str"), ("name generation", "Rinex::standard_filename")],
 "attributes parsed and names generated")

prop("X01", "Differencing and querying observations only ever touch matching data",
 "Subtracting one observation (or weather) data set from another changes exactly the values for which the other set has the same epoch, flag, satellite and observable, by exactly that value, and leaves everything else as it was. The iterators over a record (epochs, satellites, constellations, observables, pseudo range, phase, doppler, signal strength, sampling-ok, tracking, cycle slips, abnormal epochs, receiver clocks, each weather observable) return exactly the matching entries of the record, in order, without duplicates where uniqueness is promised.",
 ["inputs"], "all pairs of observation data sets with arbitrary overlap, all flag and LLI combinations",
 "overlap patterns of epochs, flags, satellites and observables are combinatorial",
 ["src/lib.rs", "src/observation/rinex/mod.rs", "src/observation/rinex/feature.rs", "src/iterators.rs"],
 [("observation difference", "Rinex::observation_substract"), ("filters", "observation/rinex")],
 "record returned by the difference; items returned by iterators")
prop("H02", "Headers of IONEX, clock and antenna files: every field under its own name",
 "Reading the header of an IONEX, clock (revision 2, 3.00 or 3.04, whose lines are five columns wider) or antenna file gives each field the value its line holds, in whatever order the lines come and whatever unrelated lines (auxiliary data, station and satellite lists) and comments stand in between: file type and system in any of their spellings, reference system, program, operator, date, description, first and last map, interval, number of maps, stations and satellites, mapping function, elevation cutoff, observables (none: theoretical model), radius, dimension, grid, exponent; types of data, time system, station, station reference, analysis center, analysis clocks with their number and constraint, leap seconds, applied corrections; kind of phase center variations, reference antenna and its serial number. Fields that are absent have their documented default.",
 ["inputs"], "all headers: every subset and order of fields, every spelling of type and system, all field widths",
 "tests read the few headers found in sample files",
 ["src/header/parsing.rs", "src/ionex/header.rs", "src/clock/mod.rs", "src/antex/mod.rs", "src/types.rs"],
 [("header reading", "Header::parse"), ("clock references", "WorkClock::parse"), ("reference systems", "ionex/system.rs")],
 "Header returned by the parser")
prop("Q01", "Signal combinations pair the right signals, epoch and frequencies",
 "Every observation code of the RINEX 3 tables (and of RINEX 2) designates the carrier and frequency of its constellation, other codes designate none. Geometry-free, ionosphere-free, wide-lane, narrow-lane and Melbourne-Wubbena combinations, multipath and dual frequency TEC estimates are formed for exactly the signals of one satellite that are present in the same epoch (each phase or code against the L1-band phase or code; multipath for each code and its phase against any phase on another carrier), for every epoch including the first and last, whatever the order in which observables are listed, and are worth the textbook linear combination of those two (or three, four) values with the frequencies of their carriers. Values of two epochs, satellites or kinds are never mixed.",
 ["inputs", "histories"], "all observation records: presence patterns of signals over epochs, satellites and constellations, all orders and spacings",
 "tests look at two satellites of one file where every signal is always present",
 ["src/carrier.rs", "src/observable.rs", "src/observation/rinex/feature.rs", "src/observation/rinex/tec.rs", "src/observation/signal.rs"],
 [("carrier of a code", "Carrier::from_observable / frequency"), ("combinations", "Rinex::signals_combination"), ("multipath", "Rinex::signals_multipath"), ("TEC keys", "Rinex::observation_dual_phase_ionosphere_tec")],
 "values returned by the combination API")
prop("V01", "Codes and words of the formats read to one meaning and print back",
 "Every observation code (pseudo range, phase, doppler, signal strength, channel and ionosphere pseudo observables, with or without attribute), weather observable, signal strength digit, epoch flag, marker type, marker number (monument or instrument), carrier name, navigation frame and message type, and revision number reads to its own meaning, is classified as what it is by the predicates, and prints as a word that reads back to the same meaning; any other word is refused. A signal strength in dBHz gives the level whose interval holds it, GLONASS channels -7 to 6 give the carrier 1602 + 9k/16 or 1246 + 7k/16 MHz. A clock observed again and again holds its last offset and the drift between the last two observations.",
 ["inputs", "histories"], "all words, all attributes and bands, all channels, all tenths of dBHz, all sequences of clock observations",
 "tests try a few words of each kind",
 ["src/observable.rs", "src/carrier.rs", "src/observation/snr.rs", "src/observation/flag.rs", "src/observation/clock.rs", "src/marker.rs", "src/navigation/message.rs", "src/navigation/frame.rs", "src/version.rs"],
 [("words", "FromStr and Display of each type"), ("signal strength", "SNR::from"), ("clock", "ClockObservation::set_offset_s")],
 "values returned by FromStr, Display and the predicates")
prop("E01", "Broadcast ephemerides are selected correctly and give the right orbit and clock",
 "For any set of navigation messages, satellite and instant (in any time scale), the ephemeris selected is the one of that satellite with the latest clock reference not after the instant, among those whose reference (toe, or the message date for GLONASS) is not after the instant and less than their validity period ago (GPS and QZSS 2 h, Galileo 3 h, BeiDou 6 h, GLONASS 30 min); for SBAS it is the closest message; there is none otherwise. toe is what week counter and seconds of week say in the time scale of the constellation, from the first second of the week on, and null parameters are values like others. The clock correction is the broadcast polynomial. The position of GPS, Galileo, QZSS and BeiDou (geostationary included) satellites is the one of the user algorithm of their ICD with their constants, the velocity is the time derivative of that position, GLONASS and SBAS positions are the broadcast ones; azimuth, elevation and range (and its rate) are those of the satellite seen from the receiver, on the ellipsoid of the frame given; elements with no solution give no orbit but an answer in bounded time. Each kind of navigation message is listed through its own iterator, completely and unaltered, and TAI - UT1 agrees with the broadcast UT1 - UTC.",
 ["inputs", "histories"], "all sets of messages with arbitrary references and validity, all instants around every limit, all Keplerian elements, null ones included",
 "no unit test evaluates an orbit, a selection or a clock correction; their limits (week rollover, end of validity, null parameters, time scales) only show up for particular data",
 ["src/navigation/rinex", "src/navigation/ephemeris", "src/constants.rs"],
 [("selection", "Rinex::nav_ephemeris_selection"), ("clock", "Ephemeris::clock_correction"), ("orbit", "Ephemeris::kepler2position, kepler2position_velocity, Rinex::sv_orbit"), ("angles", "Rinex::nav_azimuth_elevation_range, Ephemeris::elevation_azimuth_range"), ("iterators", "navigation/rinex/mod.rs")],
 "values returned by the navigation API")

prop("D01", "DORIS files: every measurement is read for its station, epoch and flags",
 "Reading a well-formed DORIS file yields, for each epoch (in TAI, to the nanosecond, with its flag), the clock offset of the satellite and whether it is extrapolated, and for each ground station the epoch declares exactly one measurement per non-blank field, with its two flags, attached to the station its number designates in the header (whatever the order or the gaps of these numbers) and to the observable at that rank of the header, continuation lines included. The header gives the satellite, the observables, their scale factors, the offset between the two frequencies, the time of the first measurement and the stations with their name, site, DOMES number, beacon generation and frequency shift, from which both carrier frequencies follow. The iterators of the DORIS API list exactly that content.",
 ["inputs"], "all DORIS files: any selection of observables, stations and numbers, any missing values and flags",
 "the only test looks at the header of one sample file",
 ["src/doris/parsing.rs", "src/doris/station.rs", "src/doris/header.rs", "src/doris/rinex", "src/header/parsing.rs"],
 [("epochs", "doris::parse_epoch"), ("stations", "Station::from_str, s1_frequency_shift"), ("header fields", "Header::parse"), ("iterators", "doris/rinex/mod.rs")],
 "record, header and iterators after reading")

prop("W01", "A data set only changes when asked to: conversions, edits, files and gzip",
 "In any sequence of operations on an observation or meteo data set (conversion to Compact RINEX and back, by copy or in place, editing values through the mutable iterators, replacing its record or its header, saving under any name as a plain or gzip file, loading a file saved earlier), the content held is the last one put there: conversions change nothing but the form of the file (CRINEX 1 for RINEX 2, CRINEX 3 later, none for data other than observations; restoring what is not compact changes nothing at all), a file gives back what was last saved under its name whatever was there before, operations by copy leave their operand as it was, and the production attributes are those the standard name of the file last loaded spells.",
 ["histories", "inputs"], "all sequences of operations over all data sets and several files",
 "unit tests convert a file once; no test chains conversions, edits and files",
 ["src/lib.rs", "src/header/mod.rs", "src/observation/rinex", "src/meteo/rinex", "src/production"],
 [("conversions", "Rinex::rnx2crnx, crnx2rnx and _mut"), ("files", "Rinex::to_file, from_file, to_gzip_file, from_gzip_file"), ("replacement", "Rinex::with_record, replace_record, with_header, replace_header")],
 "record, header and production attributes after each operation")

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        print(json.dumps(p))
