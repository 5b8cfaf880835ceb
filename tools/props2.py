prop("C07", "Squitter contents are interpreted by type code, subtype and version",
 "The 56-bit message of an extended squitter is interpreted as the register and format its type code (first five bits), its subtype and the sender's version (0, 1 or 2) prescribe: no position, identification, surface and airborne position, velocity, status, target state, or operational status. Contents whose type code, subtype or length has no such interpretation at that version are refused with an error and never interpreted as something else.",
 I, "all 2^56 contents at every version, and other lengths",
 "The tests decode one sample per type; the mapping has 32 type codes times subtypes times three versions.",
 [A, "pkg/bds"], [("type code dispatcher", A), ("register readers", "pkg/bds/*/reader.go")],
 "All 56 bits symbolic, versions 0-3; lengths 0 to 16.")
prop("C08", "Airborne position messages give the encoded altitude, time, parity and CPR",
 "For every airborne position message the surveillance status, antenna or supplement bit, time flag, CPR parity, 17-bit CPR latitude and longitude, and altitude (25 ft steps from -1000 ft with the Q bit, the 100 ft Gillham code without) are those encoded in its 56 bits, and the height source follows the type code. An altitude field that stands for no altitude is refused, never decoded to some number.",
 I, "all 2^56 messages of type 9 to 18 and 20 to 22 at every version",
 "The tests decode a few recorded messages per type.",
 ["pkg/bds/bds05"], [("field readers", "pkg/bds/bds05/fields"), ("message formats", "pkg/bds/bds05/messages")],
 "All 56 bits symbolic.")
prop("C09", "Surface position messages give the encoded speed, track and CPR",
 "For every surface position message the movement code decodes to the ground speed of the table in DO-260 (none, stopped, eight ranges of fixed steps, or above 175 kt), the ground track and its validity bit to N times 360/128 degrees, and the time flag, CPR parity and 17-bit CPR coordinates to the encoded bits.",
 I, "all 2^56 messages of type 5 to 8 at every version",
 "The tests cover a few movement codes and tracks.",
 ["pkg/bds/bds06"], [("field readers", "pkg/bds/bds06/fields")],
 "All 56 bits symbolic.")
prop("C10", "Velocity messages give the encoded speed, heading, climb and height offset",
 "For every airborne velocity message the east-west and north-south or heading and airspeed components, the vertical rate, the difference from barometric altitude, and their not-available and maximum codes decode to the values of DO-260 (supersonic subtypes at four times the step). The derived ground speed is the length and the derived track the direction, clockwise from north, of the velocity vector.",
 I, "all 2^56 velocity messages of subtypes 1 to 4 at every version",
 "The tests decode one message per subtype.",
 ["pkg/bds/bds09"], [("field readers", "pkg/bds/bds09/fields"), ("message formats", "pkg/bds/bds09/messages")],
 "All 56 bits symbolic; derived track within a tolerance, through function symbols for square root and arctangent.")
prop("C11", "Identification messages give the encoded call sign and emitter category",
 "The identification is exactly the eight six-bit characters of the message mapped through the ICAO alphabet (letters, digits, space), in squitters and in the Comm-B register alike, and the emitter category is the one of the type code and the three category bits. Distinct legal character sequences never give the same identification.",
 I, "all 2^48 character fields, all 32 categories",
 "The tests decode three call signs.",
 ["pkg/bds/bds08", "pkg/bds/bds20"], [("character decoding", "pkg/bds/bds08/fields, pkg/bds/bds20/fields")],
 "All 56 bits symbolic.")
prop("C12", "Aircraft status messages give the encoded emergency, squawk or advisory",
 "For every aircraft status squitter the subtype selects emergency information, whose emergency state and Mode A code are the encoded ones, or a resolution advisory broadcast, which carries the same advisory content as the Comm-B register.",
 I, "all 2^56 status messages at every version",
 "The tests decode a few recorded messages.",
 ["pkg/bds/bds61"], [("message formats", "pkg/bds/bds61")],
 "All 56 bits symbolic.")
prop("C13", "Target state messages give the encoded targets, modes and quality",
 "For every target state and status message each field - selected altitude and its source, barometric setting, selected or target heading with its validity, autopilot mode bits with their validity, ACAS and emergency bits, and the accuracy and integrity categories - holds the bits and the scaling DO-260A (subtype 0) or DO-260B (subtype 1) give it.",
 I, "all 2^56 target state messages of both subtypes",
 "The tests decode a few recorded messages, which leave most fields at zero.",
 ["pkg/bds/bds62"], [("message formats and fields", "pkg/bds/bds62")],
 "All 56 bits symbolic.")
prop("C14", "Operational status messages give the encoded capabilities and version",
 "For every operational status message the format is chosen by subtype and the version bits inside the message, and every capability class, operational mode, length and width, accuracy, integrity, heading reference and supplement field holds the bits of that format. The version a message reports about itself is the version it encodes.",
 I, "all 2^56 operational status messages",
 "The tests decode a few recorded messages per format.",
 ["pkg/bds/bds65"], [("message formats and fields", "pkg/bds/bds65")],
 "All 56 bits symbolic.")
prop("C15", "Quality categories and their bounds follow the type code tables",
 "The navigation integrity category, horizontal containment radius and protection limit categories of a position message are exactly those the DO-260 tables of the sender's version assign to the type code and the supplement bits. The numeric bounds reported for a category are its own, and within one version a higher integrity category never comes with a larger containment bound.",
 I, "all type codes, supplement bits, versions and categories",
 "The tests look at isolated rows of the tables.",
 ["pkg/bds/bds05/fields", "pkg/bds/bds06/fields"], [("category tables", "pkg/bds/bds05, pkg/bds/bds06")],
 "All type codes and supplement bits symbolic.")
CB = "pkg/commb/reader.go"
prop("C16", "A Comm-B reply is given every interpretation its 56 bits support, and no other",
 "The empty register, the status register and the identification register are recognised first and exclusively, when their identifying pattern fits; otherwise the reply is reported as exactly the set of registers whose format parses and whose status, reserved and plausibility checks all hold. The reported interpretations carry the register numbers and values those registers decode to on their own.",
 I, "all 2^56 Comm-B message fields",
 "The tests decode a few recorded replies.",
 [CB], [("candidate search", CB)],
 "All 56 bits symbolic.")
prop("C17", "Status and capability registers give the encoded bits",
 "For the empty, status, data link capability and common usage capability registers every reported flag, counter and code holds the bits the register's definition assigns to it, and the register is refused when its identifying bits do not match.",
 I, "all 2^56 contents of each register",
 "The tests decode one or two samples in which most bits are zero.",
 ["pkg/bds/bds00", "pkg/bds/bds07", "pkg/bds/bds10", "pkg/bds/bds17"], [("register readers", "pkg/bds/bds00, bds07, bds10, bds17")],
 "All 56 bits symbolic.")
prop("C18", "The selected vertical intention register gives the encoded targets",
 "For the selected vertical intention register the control panel altitude, the flight management altitude, the barometric setting, the mode bits and the target altitude source are the encoded ones in the encoded units, each present exactly when its status bit is set.",
 I, "all 2^56 contents",
 "The tests use contents in which the two altitudes are equal.",
 ["pkg/bds/bds40"], [("register reader", "pkg/bds/bds40")],
 "All 56 bits symbolic.")
prop("C19", "The track and heading registers give the encoded angles, rates and speeds",
 "For the track-and-turn and the heading-and-speed registers roll, track, heading, track rate, ground and air speeds, Mach number and both vertical rates decode, sign bit and scaling included, to the encoded values, each present exactly when its status bit is set.",
 I, "all 2^56 contents of both registers",
 "The tests decode a few recorded replies of one sign each.",
 ["pkg/bds/bds50", "pkg/bds/bds60"], [("register readers", "pkg/bds/bds50, pkg/bds/bds60")],
 "All 56 bits symbolic; floating point values within rounding.")
prop("C20", "The meteorological registers give the encoded weather",
 "For the meteorological routine and hazard registers wind, temperature, pressure, humidity, turbulence, shear, microburst, icing, wake and height values decode to the encoded ones, each present exactly when its status bit is set.",
 I, "all 2^56 contents of both registers, every format variant",
 "The tests decode single samples.",
 ["pkg/bds/bds44", "pkg/bds/bds45"], [("register readers", "pkg/bds/bds44, pkg/bds/bds45")],
 "All 56 bits symbolic; floating point values within rounding.")
prop("C21", "Resolution advisories give the encoded advisory and threat",
 "For every resolution advisory the active advisory bits, complements, termination and multiple threat flags and the threat identity - the intruder's address, or its altitude, range and bearing - are the encoded ones, in the register and in the squitter.",
 I, "all 2^56 contents",
 "The tests decode single recorded advisories.",
 ["pkg/acas", "pkg/bds/bds30"], [("advisory decoder", "pkg/acas/ra")],
 "All 56 bits symbolic.")
prop("C22", "Decoding any bytes ends with exactly one of a result and an error",
 "For every byte string of any length, every version and every combination of supplement bits, every decoding entry point returns normally with exactly one of a result and an error. It never panics and never returns a half-built result.",
 I, "every byte string up to the stated length at every entry point",
 "Tests reach a few hundred inputs; a receiver is exposed to whatever is on the air.",
 ["pkg"], [("entry points", "pkg/modes/reader, pkg/adsb/reader, pkg/commb, pkg/bds/*/reader.go")],
 "Frames, squitter contents and registers fully symbolic; every length up to 32.")
prop("C23", "Every decoded message renders to well-formed text",
 "Rendering anything that was decoded - a frame, a squitter content, a Comm-B register, or any of their fields - returns normally and yields non-empty text free of formatting errors.",
 I, "every decodable input of every kind",
 "The tests render a few sample messages.",
 ["pkg"], [("text rendering", "ToString methods throughout pkg")],
 "All bits symbolic; formatting verbs checked symbolically against argument count and type.")
prop("C24", "Rendered codes name the value they stand for and no two look the same",
 "The text of an enumerated field value starts with the value's own numeric code where the field is rendered that way, so two different values of one field never render to the same text.",
 I, "all values of all enumerated fields, and pairs of values",
 "No test compares the texts of two values.",
 ["pkg"], [("text rendering of enumerations", "ToString methods in */fields")],
 "Values symbolic over the field's width.")
prop("C25", "Decoding is a pure function of its arguments",
 "Decoding never modifies the bytes or lists it is given and its result depends on them alone: decoding the same input again, after any other input, gives the same result. Earlier results are not changed by later decoding.",
 ["inputs", "histories"], "every pair of inputs, decoded in the order first, second, first again",
 "Tests decode inputs in isolation; state shared between calls shows only in particular sequences.",
 ["pkg"], [("entry points", "pkg/modes/reader, pkg/adsb/reader, pkg/commb, pkg/bds")],
 "Histories of three calls with symbolic inputs.")
G = "pkg/geo"
prop("C26", "Longitude zones follow the CPR latitude table",
 "The number of longitude zones at a latitude is the one of the CPR definition: 59 near the equator, falling by one at each tabulated transition latitude, 2 up to and including 87 degrees north and south and 1 beyond, and the same for a latitude and its negative.",
 I, "every real latitude except slivers around the transitions",
 "The tests look at a few latitudes.",
 [G], [("zone count", G)],
 "Latitude a symbolic real, one query per zone.")
prop("C27", "Globally decoded airborne positions encode back to the received CPR",
 "Whenever an even and odd airborne pair is decoded to a position, that position lies within -90 to 90 degrees of latitude and one turn of longitude and encodes back, in the format received last, to the received CPR coordinates; a pair whose two latitudes have different numbers of longitude zones is refused. Every true position that both messages encode is recovered to within one CPR step, unless it lies that near a pole or a change of the number of zones.",
 I, "all pairs of CPR coordinates",
 "The tests decode a few pairs.",
 [G], [("airborne global decoding", G)],
 "CPR coordinates symbolic within stated zones.")
prop("C28", "Globally decoded surface positions encode back and lie near the reference",
 "Whenever an even and odd surface pair is decoded to a position, that position encodes back to the received CPR coordinates and is, of the candidate solutions, the one nearest to the reference position in latitude and in longitude, also across the antimeridian and the equator; a pair whose two latitudes have different numbers of longitude zones is refused.",
 I, "all pairs of CPR coordinates and reference positions",
 "The tests decode a few pairs with near references.",
 [G], [("surface global decoding", G)],
 "CPR coordinates and reference symbolic within stated zones.")
prop("C29", "Locally decoded positions encode back and lie within half a zone",
 "A position decoded from one airborne or surface message and a reference position encodes back to the received CPR coordinates and lies within half a CPR zone of the reference in latitude and longitude; so the true position is recovered whenever it is that near.",
 I, "all CPR coordinates and reference positions",
 "The tests decode a few messages.",
 [G], [("local decoding", G)],
 "CPR coordinates and reference symbolic.")
prop("C30", "Ground distance is a symmetric, non-negative number zero for equal points",
 "The ground distance between two positions is a number, never negative, zero for a position and itself, the same in both directions, never more than half the circumference, and the length of the great circle between them on a sphere of 6371 km.",
 I, "all pairs of positions",
 "The tests look at a few pairs.",
 [G], [("ground distance", G)],
 "Coordinates symbolic; trigonometric functions as function symbols with range and symmetry facts.")
prop("C31", "Plausibility verdicts reject every impossible register content",
 "A Comm-B register content is judged implausible whenever a value or mode is given although its status bit says it is not available, none of its measured values is available, a reserved code is used, or a value is beyond the stated limits (wind 250 kt, temperature -80 to 60, roll 50 degrees, ground speed 600, true air speed 500 and 200 between them when both are available, indicated air speed 500, Mach 1, climb 6000 ft/min); otherwise it is judged plausible. An unavailable temperature of the revised hazard format is not judged. Identifications with illegal characters or reserved categories and reserved emergency states are implausible in squitters too.",
 I, "all 2^56 contents of each register",
 "The tests judge a few samples.",
 ["pkg/bds"], [("coherency checks", "pkg/bds/*/messages")],
 "All 56 bits symbolic.")
prop("C32", "The command line tool prints the decoded frame or an error",
 "The example program decodes the frame named by its last argument, whichever options precede it, and prints the decoded message or an error.",
 ["inputs", "configurations"], "all argument lists",
 "The program has no tests.",
 ["cmd/main.go"], [("command line", "cmd/main.go")],
 "", na="the program is a thin main that reads process arguments, prints and exits; its behaviour is process I/O, which symbolic execution of the library code does not reach (the decoding it calls is covered by C01 to C31)")
prop("C33", "Rendered contents tell different contents apart",
 "Two plausible contents of one register format or squitter position, or two frames of one downlink format, that differ in any decoded value never render to the same text: every decoded value appears in the rendered text, and appears in full.",
 I, "all pairs of plausible contents of each register format and squitter position, all pairs of frames of each downlink format",
 "The tests render a few sample messages and compare no two of them; a line that is missing or printed from the wrong field shows only for particular pairs.",
 ["pkg/bds", "pkg/adsb", "pkg/acas", "pkg/modes/messages"], [("text rendering", "ToString methods of messages throughout pkg")],
 "All bits of both contents symbolic; texts compared as symbolic strings.")
prop("C34", "Labelled lines show the value their label names",
 "In the text of a plausible register content, squitter, advisory or frame, the line that carries the label of a decoded field shows that field's own value, whatever the other fields hold.",
 I, "all plausible contents of each register format and squitter position, all advisories, all frames of each downlink format",
 "The tests render a few samples and do not read the lines; a line that shows another field's value is right whenever the two agree.",
 ["pkg/bds", "pkg/adsb", "pkg/acas", "pkg/modes/messages"], [("text rendering", "ToString methods of messages throughout pkg")],
 "All bits of the content symbolic; the labelled line is cut from the symbolic text and compared with the field's value; of a value of several lines the first is compared.")
