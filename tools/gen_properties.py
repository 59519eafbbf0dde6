#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Every reader returns a value or an error for any file content",
  "For any byte content of any supported input file, every public reader (sector, ese, airway, isec, aircraft, airlines, airports, navdata airports, profile, symbology, squawks, asr, TopSky folder, whole adaptation) terminates and returns either a parsed value or an error. It never panics, aborts or hangs, and in particular not on numbers that match the syntax but do not fit the numeric type they are stored in.",
  ["inputs"], "all byte strings: random bytes, mutated real files, and grammar-derived files carrying extreme numbers, odd unicode and truncated records",
  "tests feed a handful of hand-written well-formed files; the set of byte strings is unbounded and conversions are `unwrap`ped after the grammar accepted them",
  ["src/sct.rs","src/ese.rs","src/airway.rs","src/isec.rs","src/icao_aircraft.rs","src/icao_airlines.rs","src/icao_airports.rs","src/navdata_airports.rs","src/prf.rs","src/symbology.rs","src/squawks.rs","src/asr.rs","src/topsky/mod.rs","src/topsky/map/mod.rs","src/topsky/symbol.rs","src/topsky/settings.rs","src/adaptation/mod.rs"],
  [("grammars in src/pest/*.pest restrict what reaches the conversions","src/pest"),("Result-returning parse functions","src/*.rs")],
  ["return value of each public parse function"])

p("C02", "Sector file parsing keeps every record with its exact values",
  "Parsing a sector file yields exactly the records written in it - general information, colours, VORs, NDBs, fixes, airports, runways, high and low airways, SID/STAR/ARTCC/geo drawings, regions and labels - each with the written values, in file order per section. Comments, blank lines, indentation, section order, colour definitions between records, a section heading that occurs more than once, and undecodable fix or NDB lines neither remove, add nor alter any other record.",
  ["inputs"], "all sector files built from the documented record syntax with arbitrary values, layouts and interleavings",
  "the tests parse a few fixed files; they cannot settle every combination of section order, comment placement, colour definitions and value",
  ["src/sct.rs","src/pest/sct.pest","src/pest/base.pest"],
  [("Sct::parse two-pass section collection","src/sct.rs"),("parse_line_groups joins consecutive segments","src/sct.rs")],
  ["sct::Sct::parse"])

p("C03", "A written sector file reads back as the same sector data",
  "Writing parsed sector data out in sector-file text and parsing that text again gives the same records with the same values (coordinates to the thousandth of a second the text carries), and writing it once more gives the identical text. Nothing is dropped, duplicated or moved to another section by the round trip.",
  ["inputs"], "all sector data obtainable from a sector file with an information section",
  "one fixture text is compared today; the round trip quantifies over all record contents, including degenerate drawings and coordinates at rounding boundaries",
  ["src/sct.rs","src/lib.rs"],
  [("Display for Sct and ToEuroscope impls","src/sct.rs"),("DegMinSecExt formatting","src/lib.rs")],
  ["Display of sct::Sct","sct::Sct::parse"])

p("C04", "Degree-minute-second coordinates convert exactly and format canonically",
  "A coordinate given as hemisphere, degrees, minutes and seconds becomes the decimal degrees with that magnitude and hemisphere sign (also for zero degrees). Formatting any coordinate gives a canonical hemisphere/degrees/minutes/seconds text with minutes and seconds below 60 that is within half a thousandth of a second of the value and that formats back to itself after parsing.",
  ["inputs"], "all coordinates, including those that round up to a full minute or degree, negative zero, and the out-of-range dummy coordinates some countries use",
  "three fixed coordinates are tested; carry and sign errors show only on particular real numbers",
  ["src/lib.rs"],
  [("from_deg_min_sec","src/lib.rs"),("decimal_to_dms and *_deg_min_sec_fmt","src/lib.rs")],
  ["DegMinSecExt on geo::Coord and geo::Point"])

p("C05", "Legacy-encoded files parse the same as their UTF-8 version",
  "A text whose characters exist in Windows-1252 gives the same parse result whether its file is stored as UTF-8 or as Windows-1252, for every file format, and Unix and Windows line endings give the same result as well.",
  ["inputs"], "all documents of every format with arbitrary non-ASCII Western characters in their free-text fields",
  "tests contain one or two non-ASCII names in one format",
  ["src/lib.rs","src/sct.rs","src/ese.rs","src/icao_airlines.rs","src/icao_airports.rs","src/icao_aircraft.rs","src/topsky/mod.rs","src/symbology.rs","src/prf.rs","src/asr.rs"],
  [("read_to_string fallback decoding","src/lib.rs")],
  ["all public parse functions"])

p("C06", "ESE parsing keeps positions, sectors, agreements and procedures exactly",
  "Parsing an ese file yields exactly the positions, airspace sectors (with the border lines they name, in that order), coordination agreements (with wildcards as absent values) and SIDs/STARs written in it, with the written values, procedures and agreements in file order. Optional fields may be absent without affecting neighbouring ones, and unknown sections, repeated sections, comments, display lines, guest and alternative-owner lines do not change the rest.",
  ["inputs"], "all ese files built from the documented record syntax",
  "the tests parse a few fixed records; optional-field combinations and orderings are unbounded",
  ["src/ese.rs","src/pest/ese.pest"],
  [("Ese::parse, combine_sectors_with_borders","src/ese.rs")],
  ["ese::Ese::parse"])

p("C07", "Each airspace volume's outline is made of exactly its border lines",
  "An airspace sector whose border lines can be joined into one closed ring becomes a volume with the sector's id and level band whose outline is closed, counter-clockwise and uses every border segment exactly once and no other segment, whatever the order or direction in which the border lines are given. A sector whose border lines cannot be joined that way yields no volume.",
  ["inputs"], "all sets of border lines: permuted and reversed pieces of rings, rings with shared vertices, open chains, several rings, duplicate segments",
  "no test covers polygon assembly beyond the fixture; the guarantee is over all permutations and directions of lines",
  ["src/adaptation/sectors.rs"],
  [("polygon_from_ese Eulerian circuit","src/adaptation/sectors.rs"),("Volume::new winding","src/adaptation/sectors.rs")],
  ["adaptation::sectors::Sectors::from_ese","Adaptation.volumes"])

p("C08", "Volumes are grouped into sectors by owner priority and runway filter",
  "Every volume belongs to exactly one sector; two volumes belong to the same sector exactly when their owner priority lists and runway filters are equal; the sector carries that priority and filter and the union of its volumes' departure and arrival aerodromes and is named after one of its volumes. The same ese content always gives the same sectors with the same names.",
  ["inputs","histories"], "all sets of airspace sectors with arbitrary owner lists, runway filters and aerodromes, and repeated loads of the same content",
  "grouping is tested on fixtures only and run-to-run identity of names is never compared",
  ["src/adaptation/sectors.rs"],
  [("Sectors::from_ese grouping by two-key multimap","src/adaptation/sectors.rs")],
  ["adaptation::sectors::Sectors::from_ese","Sectors::find_id_by_volume"])

p("C09", "Airspace lookup equals checking every volume one by one",
  "Finding the sector at a position and level, the volumes at a position and the candidate volumes near a line gives the same answer as examining every indexed volume directly: level bands include their lower and exclude their upper limit, sectors without any owner are never found, the lowest sector id wins where several match, and candidates near a line never miss an intersecting volume. This holds after loading, after overlays, on copies, on deserialised data after a rebuild that follows a change, and for any number of threads asking at once.",
  ["inputs","histories","schedules"], "all airspace layouts, query points, levels and lines, and all sequences of queries, mutations, rebuilds, copies and overlays",
  "unit tests use one square volume per case and no sequence of operations",
  ["src/adaptation/sector_index.rs","src/adaptation/mod.rs"],
  [("R-tree with bounding boxes, exact containment filter","src/adaptation/sector_index.rs"),("rebuild in from_prf/apply_jsonnet_overlays","src/adaptation/mod.rs")],
  ["Adaptation::find_sector","Adaptation::volumes_at","Adaptation::volumes_near_line"],
  [dict(name="sector_index", meaning="lazily built cache of the volumes", where="src/adaptation/sector_index.rs")])

p("C10", "Airway data answers as the airway file's neighbour table says",
  "After reading an airway file, each airway answers membership and neighbours exactly as the file lists them, with fixes of equal name at different places kept distinct. The expansion of an airway between two of its fixes gives the fixes after the first up to and including the second, each a listed neighbour of the one before, flagged with whether that direction is permitted and with the lowest minimum level listed; on an unbranched airway it exists exactly when the two fixes are connected, and where an airway branches no step is guessed. The exported graph has exactly the listed links, in both directions, each with a kind the file gives it.",
  ["inputs","histories"], "all airway tables (including branching, cyclic, one-way and duplicated names) and all queries on them",
  "two tests query one short airway; route existence and direction are properties over all graphs",
  ["src/airway.rs","src/adaptation/locations/airways.rs","src/adaptation/locations/mod.rs"],
  [("parse_airway_txt","src/airway.rs"),("AirwayGraph","src/adaptation/locations/airways.rs")],
  ["airway::parse_airway_txt","AirwayGraph public methods"])

p("C11", "Waypoint names resolve by fixed precedence to the documented place",
  "A waypoint name resolves to the VOR, else NDB, else fix, else airport, else runway threshold of that name; otherwise a latitude/longitude name resolves to that coordinate in all its permitted abbreviations, and a name with bearing and range resolves to the point at that true bearing and nautical-mile distance from the named place. Any other name resolves to nothing, and no name makes resolution fail abnormally; the membership queries agree with the data.",
  ["inputs"], "all location databases and all waypoint strings",
  "some twenty fixed names are tested; precedence among clashing names, abbreviation rules and malformed names are unbounded",
  ["src/adaptation/locations/mod.rs"],
  [("convert_designator and helpers","src/adaptation/locations/mod.rs")],
  ["Locations::convert_designator","Locations::convert_location","Locations::contains_designator","Locations::contains_nav_element"])

p("C12", "Loaded locations combine all source files without loss",
  "Loading a profile gives a location database holding every VOR, NDB and fix of the sector file, every airport of the sector file or navigation data (the sector file's position winning) with its runways and the names and countries of the airport lists, and every SID and STAR of the ese file under its airport with its waypoints converted in order and unknown waypoints skipped. Positions carry over with all their fields.",
  ["inputs","configurations"], "all combinations of sector, ese, airport-list and navigation-data content",
  "the fixture load only checks two settings; merging of overlapping sources is never compared with the sources",
  ["src/adaptation/locations/mod.rs","src/adaptation/mod.rs"],
  [("Locations::from_euroscope","src/adaptation/locations/mod.rs"),("Position::from_ese_positions","src/adaptation/mod.rs")],
  ["Adaptation::from_prf"])

p("C13", "Coordination agreements are split and keyed without losing any",
  "Each agreement with at least one level appears once after loading - among departures if it has a climb level, otherwise among destinations - with all its values, and agreements without a level appear in neither. Agreements that differ in any of fixes, runways or sectors have different keys, and the key of an agreement depends on nothing else; agreements of one group that share all of these are one entry, the last one's.",
  ["inputs"], "all lists of agreements with arbitrary wildcards and field texts",
  "one test compares two fixed keys",
  ["src/adaptation/constraints.rs","src/ese.rs"],
  [("extract_constraints","src/adaptation/constraints.rs"),("Constraint::key","src/ese.rs")],
  ["Adaptation.departure_constraints","Adaptation.destination_constraints","ese::Constraint::key"])

p("C14", "Aircraft, airline and airport lists keep the first entry per code",
  "Reading the aircraft, airline, airport and navigation-airport lists yields one entry per code, carrying all the values of the first line with that code, whatever comments, blank lines or later duplicates the file has. Wake category and type lookups return what the line says.",
  ["inputs"], "all list files with arbitrary records, duplicates, comments and blank lines",
  "each test parses about five fixed lines",
  ["src/icao_aircraft.rs","src/icao_airlines.rs","src/icao_airports.rs","src/navdata_airports.rs","src/adaptation/icao.rs"],
  [("fold with entry API keeping the first","src/icao_*.rs")],
  ["parse_aircraft","parse_airlines","parse_airports","parse_navdata_airports","AircraftMap"])

p("C15", "Fix database text reads and writes without loss",
  "Reading a fix database keeps every entry with its name and coordinates, several entries of one name included; writing it out and reading it again gives the same database to the six decimals written, and the written text is stable.",
  ["inputs"], "all fix databases with repeated names and arbitrary coordinates",
  "one short fixture is tested",
  ["src/isec.rs","src/pest/isec.pest"],
  [("parse_isec_txt and Display for IsecMap","src/isec.rs")],
  ["isec::parse_isec_txt","Display of IsecMap"])

p("C16", "Profile settings resolve every referenced file to the right path",
  "Each file a profile refers to resolves to the written path with backslashes as separators - below the profile's folder when written with a leading separator, otherwise relative to the working directory - with the last of repeated entries winning, and missing entries never making unrelated entries unavailable; every entry is kept with its value. Plugin data paths are found from the plugin entries, and an adaptation description's profile and overlay paths resolve relative to that description.",
  ["inputs","configurations"], "all profiles and folder layouts",
  "one fixture profile is tested",
  ["src/prf.rs","src/adaptation/mod.rs"],
  [("Prf path accessors","src/prf.rs"),("AdaptationSetup::parse","src/adaptation/mod.rs")],
  ["prf::Prf","adaptation::AdaptationSetup::parse"])

p("C17", "Display configuration carries over symbology values or its defaults",
  "Parsing a symbology file yields exactly the item styles and symbol drawings written in it. In a loaded adaptation every colour, line, label and symbol setting equals the value the file gives for the corresponding item, and an item the file omits has its documented default, independently of the other items.",
  ["inputs","configurations"], "all symbology files with arbitrary subsets of items, attributes and symbol scripts",
  "tests cover one fixture; each of some hundred item-to-setting mappings must hold for every subset and value",
  ["src/symbology.rs","src/adaptation/colours.rs","src/adaptation/symbols.rs","src/adaptation/settings/mod.rs"],
  [("Symbology::parse","src/symbology.rs"),("from_euroscope constructors","src/adaptation")],
  ["symbology::Symbology::parse","MapColours/SectorColours/Symbols/Settings of Adaptation::from_prf"])

p("C18", "Display (asr) files parse to exactly the settings they contain",
  "Parsing an asr file yields the value written for each setting (the first occurrence of a repeated one), the documented default or absence for every setting not written, and exactly the listed map items and plugin values, independent of the order of lines with different keys and of comment and blank lines in between. A number outside its setting's range leaves the default.",
  ["inputs"], "all asr files with arbitrary subsets, orders and repetitions of lines",
  "two fixture files are tested",
  ["src/asr.rs","src/pest/asr.pest"],
  [("Asr::parse first-match extraction","src/asr.rs")],
  ["asr::Asr::parse"])

p("C19", "TopSky folders parse to exactly the definitions they contain",
  "Reading a TopSky folder yields exactly the settings, colours, symbols, line styles, map definitions and map rules written in its files, each with the written values and in file order; definitions in the map file override equal names of the symbol file, and missing optional files or comments change nothing else.",
  ["inputs","configurations"], "all TopSky folders built from the documented record syntax",
  "tests cover a few fixed maps; rule combinations (schedules, runway conditions, coordinates forms) are unbounded",
  ["src/topsky/mod.rs","src/topsky/settings.rs","src/topsky/symbol.rs","src/topsky/map/mod.rs","src/topsky/map/active.rs"],
  [("Topsky::parse","src/topsky/mod.rs")],
  ["topsky::Topsky::parse"])

p("C20", "Maps are drawn with the configuration in force at each element",
  "In the maps built from TopSky definitions every drawn line, polygon, symbol and text appears exactly once, in its map and folder, at the resolved position, with the colour, line style and width, font size, layer, zoom and asr data that the preceding lines of that map put in force; a later change never alters an earlier element, and one map never affects another. Elements without a resolvable place, and maps without a known colour, are left out and change nothing else. Hidden maps, active conditions, folders hidden by overrides and line style definitions carry over.",
  ["inputs","histories"], "all sequences of configuration and drawing rules within and across maps",
  "one or two fixed maps are tested; the guarantee is over all interleavings of configuration changes and drawing commands",
  ["src/adaptation/maps/mod.rs","src/adaptation/maps/active.rs"],
  [("from_topsky state machine","src/adaptation/maps/mod.rs")],
  ["adaptation::maps::from_topsky","Adaptation.maps"])

p("C21", "Colours convert exactly and names resolve by precedence",
  "Every 24-bit colour converts between its integer, component and hex text forms without change, and numbers or texts that are not colours are rejected. A colour name used in a map resolves to the TopSky definition, else the sector file's, else the default palette selected by the settings, else nothing.",
  ["inputs","configurations"], "all colour values, all texts, all name sets and palette settings",
  "a few colours are tested",
  ["src/adaptation/colours.rs"],
  [("Colour::from_euroscope/to_euroscope/serde","src/adaptation/colours.rs"),("Colours::get and from_euroscope","src/adaptation/colours.rs")],
  ["Colour","Colours::get"])

p("C22", "Transponder code lists and coordination times follow their sources",
  "The transponder codes and ranges of a loaded adaptation are exactly those of the squawk file, with ranges inclusive and codes octal. The coordination timing that applies to a transfer is, for each field separately, the agreement's own, else the neighbouring region's, else the global one.",
  ["inputs","configurations"], "all squawk files and all three-level timing configurations",
  "tests check one fixture and a few timing cases",
  ["src/squawks.rs","src/adaptation/settings/mod.rs"],
  [("SsrSettings::from_squawks_json","src/adaptation/settings/mod.rs"),("CoordinationSettings::resolve","src/adaptation/settings/mod.rs")],
  ["parse_squawks_json","Settings.ssr","CoordinationSettings::resolve"])

p("C23", "Map items from the sector file keep their geometry and colours",
  "In a loaded adaptation every drawing of the sector file appears under its name with its segments resolved to coordinates and its named colour (or the default of its kind of drawing when the name is unknown), and every high and low airway is drawn with exactly its resolvable segments. Regions and labels carry over unchanged and unresolvable points drop nothing else.",
  ["inputs"], "all sector files mixing named and coordinate points, branching airways, shared names and unknown colours",
  "the only test of this code has an empty body",
  ["src/adaptation/sct_items.rs"],
  [("SctItems::from_sct, airway_to_multi_line_string","src/adaptation/sct_items.rs")],
  ["Adaptation.sct_items"])

p("C24", "Adaptations survive export and overlays change only what they name",
  "An adaptation written as JSON and read back is the same adaptation; applying no overlay or an empty overlay changes nothing; an overlay changes exactly the fields it names, later overlays win over earlier ones, and a failing overlay reports an error. Loading the same files twice gives the same adaptation.",
  ["inputs","configurations","histories"], "all adaptations and all sequences of overlays",
  "tests apply one fixture overlay and look at two fields",
  ["src/adaptation/mod.rs","src/adaptation/settings/mod.rs","src/adaptation/locations/airways.rs"],
  [("apply_jsonnet_overlays","src/adaptation/mod.rs"),("serde implementations","src/adaptation")],
  ["serde_json of Adaptation","Adaptation::apply_jsonnet_overlays","Adaptation::from_prf"])

p("C25", "A profile loads exactly when its required files do, and reports what fails",
  "A profile loads exactly when each file it requires (sector, ese, airways, airport coordinates, aircraft, airlines, airports, symbology) is present and accepted by its own reader; otherwise loading reports an error of one of the failing files: the path of one that cannot be opened, the kind of one that cannot be parsed. A TopSky folder or squawk file that is missing or unreadable leaves the adaptation that a profile without that plugin gives, and files that are not loaded (displays, the fix database) have no effect at all. A description without a usable profile or overlay path gives an error.",
  ["inputs","fault_sequences","configurations"], "all sets of missing, unopenable, empty, truncated, damaged or exchanged files of an adaptation",
  "tests load one intact fixture; no test covers any failing file or the absence of an optional one",
  ["src/adaptation/mod.rs","src/prf.rs","src/topsky/mod.rs"],
  [("Adaptation::from_prf","src/adaptation/mod.rs"),("check_required_settings","src/prf.rs")],
  ["Adaptation::from_prf","Adaptation::from_adaptation_toml"])

p("C26", "Every parsed file exports as JSON with all of its values",
  "Whatever a reader returns (sector, ese, airways, fix database, aircraft, airlines, airports, navigation airports, profile, display, symbology, TopSky folder, squawk list) can be written as JSON, and that JSON has every value of it exactly once, under its name: text, numbers, colours, coordinates, alternatives with their kind, absent values as null, and every entry of its lists and tables.",
  ["inputs"], "all values that a reader returns for any accepted file",
  "the example programs print this JSON but no test reads it; key collisions and lost entries depend on the values",
  ["src/lib.rs","src/sct.rs","src/ese.rs","src/asr.rs","src/prf.rs","src/symbology.rs","src/isec.rs","src/squawks.rs","src/topsky/mod.rs","src/topsky/map/mod.rs","src/adaptation/colours.rs","src/adaptation/locations/airways.rs"],
  [("Serialize for TwoKeyMap","src/lib.rs"),("Serialize for Colour","src/adaptation/colours.rs"),("derived serde implementations","src")],
  ["serde_json of the readers' results"])

p("C27", "Values compare, hash and print by exactly what they hold",
  "Two fixes are the same exactly when their names are the same and their positions agree to the millionth of a degree, in comparisons, in hashed sets and as procedure waypoints; an arrival equals a name exactly when it is its own. Wake categories, aircraft types and engine types are read from exactly their published letters. Wake categories, airway types, airway fixes and agreements print exactly what they hold, absent values leaving their place empty.",
  ["inputs"], "all fixes, arrivals, one-character codes, airway fixes and agreements",
  "equality and hashing must agree for every pair of values, and printing must hold for every combination of present and absent fields; tests compare a few values for equality only",
  ["src/adaptation/locations/mod.rs","src/adaptation/locations/airways.rs","src/adaptation/icao.rs","src/adaptation/mod.rs","src/ese.rs"],
  [("PartialEq and Hash for Fix, GraphPosition, STAR","src/adaptation/locations/mod.rs"),("Quantize","src/adaptation/mod.rs"),("FromStr and Display for Wtc, AircraftType, EngineType","src/adaptation/icao.rs"),("Display for AirwayFix, AirwayType, Constraint","src/adaptation/locations/airways.rs, src/ese.rs")],
  ["==, Hash and Display of the public types", "FromStr of the letters"])

with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
