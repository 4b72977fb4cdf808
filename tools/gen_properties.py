"""Regenerates /verif/properties.jsonl (one JSON object per line)."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

COV = "src/tatc/analysis/coverage.py"
LAT = "src/tatc/analysis/latency.py"
TRK = "src/tatc/analysis/track.py"
DOP = "src/tatc/analysis/dop.py"
RO = "src/tatc/analysis/ro_coverage.py"
ORB = "src/tatc/schemas/orbit.py"
SAT = "src/tatc/schemas/satellite.py"
INS = "src/tatc/schemas/instrument.py"
PNT = "src/tatc/schemas/point.py"
ARC = "src/tatc/schemas/architecture.py"
UTL = "src/tatc/utils.py"
PTS = "src/tatc/generation/points.py"
CEL = "src/tatc/generation/cells.py"
CFG = "src/tatc/config.py"

p("C01", "Downlink contacts are exactly the visible periods inside the window",
  "For a satellite in a near-circular orbit (period up to 12 hours, or geostationary; direct propagation) and a list of ground stations, the collected downlinks are exactly, for every station, the maximal periods inside the analysis window during which the satellite is at or above the station's minimum elevation angle, clipped to the window (a pass already in progress at the start, still in progress at the end, or covering the whole window is reported clipped) and kept only when at least the station's minimum access time long. "
  "Each contact carries its station, its satellite, and an epoch at the middle of the contact, contacts never overlap for one station, and the table is ordered by start time. "
  "A visible period with no end inside the window is never dropped and no time outside the window is ever reported.",
  ["inputs", "histories"],
  "every orbit, station list, minimum elevation/access time, analysis window, and every order of rise / culmination / set events that a window can cut out of a visibility history",
  "The tests sample a handful of long windows that start and end between passes; the clipped cases (window starting or ending inside a pass, window inside one pass, always visible) and station lists are an input x window product no test enumerates.",
  [COV, LAT, ORB, PNT], [("pairing of rise/set events into intervals", COV + ":_get_visible_interval_series"), ("per-station records, minimum access filter and sort", LAT + ":collect_downlinks"), ("event source", ORB + ":TwoLineElements.get_observation_events")],
  ["tatc.analysis.collect_downlinks"], [("events", "time ordered rise/culminate/set events of one station", COV)])

p("C02", "Observations are the accesses that meet every instrument requirement",
  "For a satellite in a near-circular orbit, collecting observations of a point returns one record for each maximal period inside the window during which the satellite is above the elevation implied by the instrument's field of regard at the altitude at the start of the window, is visible for at least the instrument's minimum access time, and meets at the middle of the period every requirement of the selected instrument (self sunlit, target sunlit, point inside the pointed instrument's footprint), and no other records. "
  "The record's epoch is the middle of the period; start and end are the ends of the period, or, for a fixed access time, the minimum access time centred on the middle. "
  "Satellite altitude/azimuth (and the solar columns on request) are those at the epoch, and the point id, coordinates, satellite and instrument name are those of the arguments.",
  ["inputs", "configurations"],
  "every point, satellite, instrument of the satellite (index), requirement combination, access-time setting and window",
  "Tests use one satellite and one or two instruments, never combine a minimum access time, a fixed access time, sunlit requirements and a non-zero instrument index, and cannot run any solar case without an ephemeris file.",
  [COV, INS, UTL, ORB], [("record filter", COV + ":collect_observations"), ("validity", INS + ":Instrument.is_valid_observation"), ("elevation threshold", UTL + ":compute_min_elevation_angle")],
  ["tatc.analysis.collect_observations"])

p("C03", "Multi-satellite observations are the ordered union over members",
  "Collecting observations for a list of satellites and constellations returns exactly the disjoint union, over every member satellite each of them generates and over every instrument of that member, of the observations collected for that single member and instrument. "
  "No record is lost, duplicated or altered, the records are ordered by start time and freshly indexed 0..n-1, and a single system behaves as a list of one. "
  "When nothing is observed the result is an empty table with the same columns.",
  ["inputs", "configurations"],
  "every mix of satellites, trains, Walker and other constellations, numbers of instruments, points and windows",
  "Tests check lengths for one or two satellites; the union over members x instruments and its ordering is never compared record by record.",
  [COV, SAT], [("nested union", COV + ":collect_multi_observations"), ("member generation", SAT + ":generate_members")],
  ["tatc.analysis.collect_multi_observations"])

p("C04", "Aggregation merges exactly the overlapping observations of each point",
  "Aggregating observations yields, for every point separately, one record per maximal group of observations whose time intervals overlap or touch (directly or through a chain), with start the earliest start, end the latest end, epoch the mean of the member epochs, and satellite and instrument names joined with ', ' in order of start. "
  "Access is end minus start, revisit is the gap between the start of a group and the end of the previous group of the same point (missing for the first), and groups of one point are disjoint and ordered. "
  "The result does not depend on the order of the input records and observations of different points never influence each other.",
  ["inputs", "histories"],
  "every table of observations: any number of points, any overlap/containment/touching pattern, any record order",
  "Tests aggregate two or three observations; containment (a long interval followed by short ones), touching ends, interleaved points and permuted inputs are a combinatorial space they do not reach.",
  [COV], [("running latest end and group counter", COV + ":aggregate_observations")],
  ["tatc.analysis.aggregate_observations"], [("obs group", "index of the current merged group", COV)])

p("C05", "Reduction computes per-point means over exactly the defined values",
  "Reducing aggregated observations yields exactly one record per point, whose samples is the number of aggregated observations of that point, whose access is their mean, and whose revisit is the mean over the records that have a revisit (missing when none has). "
  "Reducing latencies yields one record per point with samples the number of latency records of that point and latency the mean over the records that have one (missing when none has). "
  "Every point of the input appears once, with its own geometry, irrespective of record order.",
  ["inputs"],
  "every table of aggregated observations or latencies, including points with a single observation and records without revisit or downlink",
  "Tests reduce one point at a time; the treatment of missing revisit and latency values across several interleaved points is not sampled.",
  [COV, LAT], [("per-point statistics", COV + ":reduce_observations"), ("per-point latency statistics", LAT + ":reduce_latencies")],
  ["tatc.analysis.reduce_observations", "tatc.analysis.reduce_latencies"])

p("C06", "Gridding gives sample-weighted means of the points inside each cell",
  "Gridding reduced observations or latencies to cells yields exactly one record per cell that contains at least one reduced point, keyed by that cell's id and carrying the cell's own geometry; samples is the sum of the samples of the contained points and access, revisit and latency are the means of the contained points' values weighted by their samples. "
  "Cells that contain no point are absent, points outside all cells contribute nothing, and a missing value among the contained points makes that statistic missing. "
  "With no reduced records at all every cell is returned with zero samples and missing statistics, and the result does not depend on row labels of either table.",
  ["inputs"],
  "every set of cells and reduced points, any row labels, any distribution of points over cells",
  "Tests use one point in one cell, for which every weighting and every index lookup gives the same answer.",
  [COV, LAT], [("spatial join and weighted dissolve", COV + ":grid_observations"), ("spatial join and weighted dissolve", LAT + ":grid_latencies")],
  ["tatc.analysis.grid_observations", "tatc.analysis.grid_latencies"])

p("C07", "Latency pairs each observation with its satellite's next downlink",
  "Computing latencies yields exactly one record per observation, paired with the earliest-starting downlink of the same satellite that starts at or after the end of the observation; downlinked is that contact's epoch, station its station, observed the observation's epoch, and latency their difference. "
  "An observation with no such downlink keeps its record with station, downlinked and latency missing; when either table is empty the result is empty. "
  "Records are ordered by observed time, keep the observation's own attributes, and do not depend on the order of either input table.",
  ["inputs", "histories"],
  "every pair of observation and downlink tables over any number of satellites and stations, including ties and unsorted tables",
  "Tests check one satellite with one or two downlinks; interleavings of several satellites, ties at the observation end and unmatched tails are not enumerated.",
  [LAT], [("as-of merge by satellite", LAT + ":compute_latencies")],
  ["tatc.analysis.compute_latencies"])

p("C08", "Walker and streets-of-coverage members follow the declared pattern",
  "A Walker constellation of t satellites, p planes and relative spacing f generates exactly t members named with zero-padded 1..t, filling planes of ceil(t/p) satellites in order; within a plane mean anomaly advances by 360/ceil(t/p) degrees, between adjacent planes by 360 f/t degrees, and the ascending node by 360/p (delta) or 180/p (star) degrees, all relative to the lead orbit, while every other orbit element and an independent copy of every instrument carry over. "
  "Configurations with more planes than satellites or relative spacing not below the number of planes are rejected. "
  "A streets-of-coverage constellation generates a Walker delta pattern over the full circle with enough planes and satellites per plane that adjacent footprint centres are no further apart than the packing distance allows, and its members are that pattern's members.",
  ["configurations", "inputs"],
  "every (t, p, f, configuration), lead orbit type and elements, and every altitude/swath/packing combination",
  "Tests spot-check a few (t, p, f) triples with p dividing t; the remaining triples, star configurations and wrapped angles are not enumerated.",
  [SAT, ORB, UTL], [("member index to plane and slot", SAT + ":WalkerConstellation.generate_members"), ("pattern sizing", SAT + ":SOCConstellation.generate_walker")],
  ["WalkerConstellation.generate_members", "SOCConstellation.generate_members", "SOCConstellation.generate_walker"])

p("C09", "Train members trail the lead by whole multiples of the interval",
  "A train of n satellites generates exactly n members named with zero-padded 1..n in which member k trails the lead orbit by k times the interval: its mean anomaly is the lead's minus k times the angle travelled in one interval, modulo 360. "
  "With a repeating ground track its ascending node is the lead's plus k times the Earth rotation in one interval (360 degrees per day), otherwise the lead's. "
  "Every other orbit element is the lead's and every member owns an independent copy of every instrument.",
  ["configurations", "inputs"],
  "every number of satellites, interval (short, long, negative or several revolutions), repeat setting and lead orbit type",
  "Tests build one train and check two members; multiples that wrap past a revolution and the non-repeating case are sampled once.",
  [SAT, ORB], [("per-member offsets", SAT + ":TrainConstellation.generate_members")],
  ["TrainConstellation.generate_members"])

p("C10", "Derived orbits shift only mean anomaly and ascending node",
  "For every orbit type, deriving an orbit with given shifts yields an orbit whose mean anomaly and right ascension of ascending node are the original's plus the shifts, modulo 360 degrees, with the anomaly angle again inside [0, 360). "
  "Altitude, period, inclination, eccentricity, argument of perigee and epoch (and, for two line elements, every element set of a multi-set orbit and its drag terms) are unchanged, and the original is not modified. "
  "Deriving with zero shifts, with full revolutions, or with a shift followed by its opposite gives back the original elements.",
  ["inputs", "histories"],
  "every orbit type, element values (including 0 and just below 360), shifts of either sign and any size, and sequences of derivations",
  "Tests derive once with small positive shifts from one orbit per type and compare two fields.",
  [ORB, UTL], [("modular shift of anomaly and node", ORB + ":get_derived_orbit")],
  ["get_derived_orbit of each orbit type"])

p("C11", "Mutual orbiting groups circle their reference satellite",
  "A mutual orbiting group of n satellites around a circular reference orbit (CircularOrbit with true anomaly 0) generates exactly n members named with zero-padded 1..n, all with the reference altitude and epoch and with eccentricity equal to the parallel axis over four semimajor axes. "
  "Relative to the reference satellite at its ascending node, member k (counted from 0) has an orbit plane tilted by the transverse axis over twice the semimajor axis, with the tilt direction rotated by k/n of a full turn, and moves around the reference on an ellipse with the declared parallel and transverse axes (to first order in the axes over the orbit radius); all members follow exactly the same relative path, whatever the size of the axes, each k/n of a period apart. "
  "Reversing the sense of rotation mirrors the along-track phase, every angle lies in [0, 360), and every member owns an independent copy of every instrument.",
  ["configurations", "inputs"],
  "every number of members, axis lengths small against the orbit radius, sense of rotation and reference inclination/node",
  "Tests only check that members are generated and a few fields of one configuration.",
  [SAT, ORB], [("mutual orbit geometry", SAT + ":MOGConstellation.generate_members")],
  ["MOGConstellation.generate_members"])

p("C12", "Converting an orbit to two line elements preserves its elements",
  "Converting any orbit definition to two line elements yields a single valid element set whose inclination, ascending node, argument of perigee, eccentricity, mean anomaly, mean motion and epoch equal the elements the orbit definition prescribes, within the resolution of the format. "
  "Repeated conversions of one orbit object give the same text whatever was called in between and whatever the lazy-loading setting is, and a conversion never changes the orbit definition. "
  "An orbit given as two line elements converts to itself.",
  ["inputs", "histories", "configurations"],
  "every orbit type and element values, epochs, and every history of conversions with lazy loading on or off",
  "Tests compare a few elements with loose tolerances for one orbit per type; caching histories are not exercised.",
  [ORB, UTL, CFG], [("sgp4 initialisation and export", ORB + ":to_tle"), ("per-object cache", ORB + ":to_tle")],
  ["to_tle of each orbit type"], [("tle cache", "lazily stored conversion result", ORB)])

p("C13", "Two line element input is accepted exactly when it is well formed",
  "A list of strings is accepted as two line elements exactly when it has an even, non-zero number of lines in which every pair is a line 1 and a line 2 of 69 characters matching the element format column by column with correct modulo-10 checksums, and the epochs of successive pairs never decrease. "
  "Any single-character corruption that changes a line number, separator, decimal point, digit or checksum to a character not allowed there is rejected, as is a changed digit that breaks the checksum. "
  "Accepted text is kept unchanged, and rejection is always reported as a validation error.",
  ["inputs"],
  "every list of strings, in particular every single-character change, truncation, reordering and combination of valid element sets",
  "Tests reject a handful of hand-made malformed lines; the 69-column x character space and multi-set orderings are not covered.",
  [UTL, ORB], [("format, checksum, order validators", UTL + ":is_valid_tle"), ("order", UTL + ":is_chronological_tle")],
  ["TwoLineElements(tle=...)"])

p("C14", "Element accessors return the values written in the element text",
  "For every accepted element set with fully populated numeric fields and every index, the accessors for catalog number, classification, international designator, epoch, mean motion derivatives, drag term, ephemeris type, element set number, inclination, ascending node, eccentricity, argument of perigee, mean anomaly, mean motion and revolution number return exactly the value written in that set's columns. "
  "Signed and exponent fields keep their sign and exponent, the two-digit epoch and launch years mean 1957-2056, and period, semimajor axis, altitude and true anomaly are consistent with mean motion and mean anomaly. "
  "The index selects the set, and the number of sets is half the number of lines.",
  ["inputs"],
  "every well formed element set, every field value of the format and every index of a multi-set orbit",
  "Tests read fields of two fixed element sets, all positive.",
  [ORB], [("column slices", ORB + ":TwoLineElements.get_*")],
  ["TwoLineElements.get_*"])

p("C15", "Multi-set orbits always use the element set closest in time",
  "For an orbit with several element sets, the set used at any time, for one time or a list of times, is the one whose epoch is closest to it (either one of a tie). "
  "Orbit tracks, for one time or a list in any order, equal, in position and velocity, those of the closest set alone, and observation events over a window equal those of the closest set on each side of the midpoints between successive epochs. "
  "The partition of a window is ordered, starts and ends with the window, covers it without gaps and labels every part with the set closest to all its times.",
  ["inputs", "histories"],
  "every number and spacing of element set epochs (including equal epochs), every window and every query time",
  "Tests use two sets and one window; windows spanning several midpoints and times exactly between epochs are not enumerated.",
  [ORB], [("closest index", ORB + ":get_closest_tle_index"), ("window partition", ORB + ":partition_by_tle_index"), ("events and tracks", ORB + ":get_observation_events")],
  ["TwoLineElements.get_closest_tle_index", "partition_by_tle_index", "get_orbit_track", "get_observation_events"], [("tle_epochs cache", "epochs of the element sets", ORB)])

p("C16", "Repeat cycles fold tracks and events without loss or invention",
  "When an orbit has a repeat cycle and its use is enabled, the position and velocity at any time equal those one whole number of cycles closer to the epoch, with the offset inside one cycle and on the same side of the epoch, and the events reported over a window longer than one cycle are exactly the events of the first cycle repeated every cycle, in order, with none outside the window. "
  "With repeat use disabled, no repeat cycle, a window no longer than a cycle, or several element sets, tracks and events are those of direct propagation. "
  "The repeat cycle is the first return over the initial ground point within the position and velocity tolerances, and a cached value is used only when lazy loading is enabled.",
  ["inputs", "histories", "configurations"],
  "every orbit, query time before or after epoch, window, configuration setting and history of calls",
  "Tests look up one repeat cycle and compare one position; windows with several cycles, times before epoch and cache histories are not explored.",
  [ORB, CFG], [("repeat search and cache", ORB + ":get_repeat_cycle"), ("folding", ORB + ":get_orbit_track"), ("event repetition", ORB + ":get_observation_events")],
  ["TwoLineElements.get_repeat_cycle", "get_orbit_track", "get_observation_events"], [("repeat_cycle cache", "zero means none found", ORB)])

p("C17", "Generated points form the declared lattice and mask only selects",
  "Fibonacci points are exactly the lattice points i = 0..n-1 with sine of latitude 2(i+1)/(n+2)-1 and longitude i golden-angle turns in (-180, 180], numbered by i; equally spaced points are exactly the centres of the regular longitude/latitude grid of the requested spacing with distinct ids counting west to east then south to north. "
  "With a mask the result is exactly the unmasked points that lie in the mask, with the same ids; a mask may continue eastward beyond 180 degrees (for the regular grid, when the spacing divides the circle), and the points are then given in its chart. "
  "Ids are unique, all points carry the requested elevation, and an invalid mask is rejected.",
  ["inputs"],
  "every spacing, elevation and (multi)polygon mask",
  "Tests count points for one or two distances and masks, and never check that ids are distinct or stable under masking.",
  [PTS, UTL], [("lattice formulas", PTS), ("grid indices and ids", PTS)],
  ["tatc.generation.generate_fibonacci_lattice_points", "generate_equally_spaced_points"])

p("C18", "Generated cells tile the region with unique ids matching the points",
  "Equally spaced cells are exactly the cells of the regular grid of the requested spacing: interiors are disjoint, neighbours share their edges, ids are distinct, and every grid point generated for the same spacing and mask lies inside the cell that carries the same id. "
  "With latitude or longitude strips each cell spans the whole mask (or globe) in the other direction. "
  "With a mask the cells are those whose centre lies in the mask's bounding box and that meet the mask, each the convex hull of its part inside the mask, cells not meeting the mask are absent, ids are those of the unmasked grid, and all cells carry the requested elevation.",
  ["inputs"],
  "every spacing, strip mode, elevation and mask",
  "Tests count cells for one or two distances; tiling, id agreement with points and strip extents are not checked.",
  [CEL, PTS], [("cell corners", CEL), ("grid indices and ids", PTS)],
  ["tatc.generation.generate_equally_spaced_cells"])

p("C19", "Splitting a polygon over antimeridian or pole keeps the same region",
  "Splitting a polygon that crosses the antimeridian or exceeds a pole returns a valid geometry inside [-180, 180] x [-90, 90] that covers exactly the same part of the globe: a location away from the boundary belongs to the result if and only if it belongs to the input region, where longitudes are cyclic, vertices more than 180 degrees of longitude apart are joined across the antimeridian, and latitudes beyond a pole (short of the opposite equator) continue on the opposite meridian; a ring round a pole meets each meridian once. "
  "Polygons that need no splitting are unchanged, multi polygons are handled part by part, holes are kept, and splitting the result again changes nothing. "
  "Normalising a geometry, series or frame applies this to every geometry without modifying the caller's object, and rejects invalid polygons.",
  ["inputs"],
  "every polygon narrower than 360 degrees with edges shorter than 180 degrees, at any position relative to the antimeridian and the poles, in either vertex order",
  "Tests check a few boxes; vertex order, start vertex, direction of crossing, holes and pole overlap multiply into cases they do not reach.",
  [UTL], [("antimeridian split", UTL + ":_split_polygon_antimeridian"), ("pole wrapping", UTL + ":_split_polygon_north_pole"), ("normalisation", UTL + ":normalize_geometry")],
  ["tatc.utils.split_polygon", "tatc.utils.normalize_geometry"])

p("C20", "Orbit track has one exact record per sample, masked only by position",
  "Collecting an orbit track returns one record per requested time, in order, with the satellite's position at that time in the requested coordinate system (and velocity on request), the satellite and selected instrument names, the swath width of that instrument at that altitude, and the validity of that instrument's observation of the sub-satellite point. "
  "With a mask (polygon, series or frame) exactly the records whose sub-satellite point lies in the mask are kept, with unchanged values. "
  "Optional sunlit, solar altitude/azimuth and beta columns are those of each record's own time and position, and no times give an empty table.",
  ["inputs", "configurations"],
  "every list of times (any length and spacing), mask kind, instrument index, coordinate system, output and option combination",
  "Tests check lengths with a few masks; the values row by row under masks, instrument index and coordinate systems are not compared.",
  [TRK, INS, UTL], [("record construction and masking", TRK + ":collect_orbit_track")],
  ["tatc.analysis.collect_orbit_track"])

p("C21", "Masking a ground track equals clipping the unmasked ground track",
  "Collecting a ground track returns one polygon record per requested time, in order, each centred on where the instrument points at that time, with the instrument's validity there; equidistant tracks extend half a swath width around the sub-satellite point and SPICE tracks are the instrument footprint. "
  "The masked ground track is exactly the unmasked one clipped to the mask (row order aside; pointed instruments with SPICE footprints): every sample whose footprint meets the mask is present with the same attributes and the clipped geometry, and no other. "
  "This holds for polygons, multi polygons, series and frames, for one or many samples and for every instrument index and elevation.",
  ["inputs", "configurations"],
  "every list of times, mask kind with any number of parts, instrument (nadir or pointed) and crs option",
  "Tests compare counts for one mask; the pre-culling of samples is an optimisation whose losses only show for particular mask/track geometry.",
  [TRK, INS, UTL], [("cull by buffered mask, then by footprint, then clip", TRK + ":collect_ground_track"), ("buffer", UTL + ":buffer_target")],
  ["tatc.analysis.collect_ground_track"])

p("C22", "Aggregated ground track is the union of the valid samples' swaths",
  "The aggregated ground track (point method) covers exactly the union of the ground track polygons of the samples with a valid observation, as one geometry, or one per orbit revolution counted from the first sample when orbits are kept apart. "
  "The line method (equidistant projection, away from the poles) covers every valid sample's sub-satellite point and lies within the swath of each contiguous run of valid samples, including runs that cross the antimeridian, runs of a single sample, and several runs per orbit. "
  "Masks clip the result, invalid samples contribute nothing, and unknown methods or line with SPICE are rejected.",
  ["inputs", "histories"],
  "every list of times, validity pattern, revolution boundary position, antimeridian crossing, mask and option",
  "Tests only run a few minutes of one orbit and check that a geometry comes out.",
  [TRK], [("orbit and run grouping, buffering, dissolve", TRK + ":compute_ground_track")],
  ["tatc.analysis.compute_ground_track"], [("orbit_id, track_id", "grouping keys", TRK)])

p("C23", "Ground pixels are each instrument pixel projected at each sample",
  "Collecting ground pixels for a rectangular pointed instrument whose field of regard covers its pointing returns, for each requested time in order, one point for every cross-track and along-track pixel, at the projection of that pixel's view direction: pixel directions are evenly spaced over the field of view (reduced by the oversampling), symmetric about the pointing direction, left to right across track and fore to aft along track. "
  "Validity and satellite/solar angles are those of each pixel's own time and position. "
  "With a mask exactly the pixels inside the mask are kept; other instruments are rejected.",
  ["inputs", "configurations"],
  "every pixel count, oversampling, pointing, sample list and mask",
  "Tests use one configuration and count pixels.",
  [TRK, INS], [("pixel direction", INS + ":get_pixel_cone_and_clock_angle"), ("projection", INS + ":compute_footprint_pixel_array"), ("records", TRK + ":collect_ground_pixels")],
  ["tatc.analysis.collect_ground_pixels", "PointedInstrument.compute_footprint_pixel_array"])

p("C24", "Footprint outlines are exact projections of the field of view",
  "Every vertex of a computed footprint is where a ray on the boundary of the instrument's field of view (an ellipse, or a rectangle, in the plane perpendicular to nadir, displaced by the tangents of roll and pitch) first meets the Earth ellipsoid raised to the requested elevation, or a point of the visible limb where the ray misses the Earth. "
  "Footprints at several times equal those at each time alone, contain their computed centre (when the pointing meets the Earth), grow with the field of view, and have the requested number of boundary points. "
  "A limb outline consists of points where the line of sight is tangent to the Earth.",
  ["inputs", "configurations"],
  "every orbit position, field of view, roll, pitch, shape, elevation and number of points",
  "Tests check areas of a few nadir footprints; side-by-side ray equations (eight branches for rectangles) and off-nadir pointing are not verified.",
  [UTL, INS, CFG], [("ray construction", UTL + ":compute_projected_ray_position"), ("outline", UTL + ":compute_footprint"), ("limb", UTL + ":compute_limb")],
  ["tatc.utils.compute_footprint", "tatc.utils.compute_projected_ray_position", "tatc.utils.compute_limb", "Instrument.compute_footprint"])

p("C25", "Viewing-geometry conversions are consistent inverses",
  "Swath width and field of regard convert into each other and back, as do field of regard and minimum elevation angle, and along-track distance and access time; field of view for nadir looking agrees with field of regard. "
  "Swath width grows with field of regard and with altitude up to the horizon and stays there beyond it, minimum elevation falls from 90 to 0 degrees as field of regard grows and is 0 beyond the horizon, and orbit period grows with altitude with its square proportional to the cube of the semimajor axis. "
  "Ground speed is the orbital rate minus the Earth-rotation component along the inclination (so larger for retrograde orbits), times the Earth radius; true and mean anomaly convert into each other and back exactly (Kepler's equation). The longest access time is the fraction (180 - 2 elevation)/360 of the orbit period, and the number of samples for a spacing is the Earth's area over the area of a cap that wide.",
  ["inputs"],
  "every altitude, elevation, swath width, angle, inclination and small eccentricity in the valid range",
  "Tests check single values; inverse and monotonicity laws over the whole range are not sampled, and the ground speed tests use few inclinations.",
  [UTL, INS], [("conversion formulas", UTL)],
  ["tatc.utils.*", "Instrument.get_swath_width", "Instrument.get_min_elevation_angle"])

p("C26", "Dilution of precision follows from the visible geometry at each time",
  "The dilution of precision has one value per requested time, labelled with that time and located at the user point, computed from each satellite's element set closest to that time and the point's own elevation; the value is missing exactly when no more than the minimum count of satellites is at or above the minimum elevation at that time (or the geometry is singular). "
  "Values depend only on the satellites visible at that time, and satisfy GDOP^2 = PDOP^2 + TDOP^2 and PDOP^2 = HDOP^2 + VDOP^2. "
  "They do not depend on the order of satellites, on the other requested times or on whether repeat cycles are enabled (satellites are propagated directly), and adding a visible satellite never increases GDOP.",
  ["inputs"],
  "every constellation, point, time list, minimum elevation, method and minimum count",
  "Tests check one constellation at null island, where latitude and longitude cannot be confused.",
  [DOP], [("visibility mask and inverse", DOP + ":compute_dop")],
  ["tatc.analysis.compute_dop"])

p("C27", "Radio occultations are the maximal runs of valid consecutive samples",
  "Radio occultation observations of each transmitter are exactly the maximal runs of consecutive sample times at which the line of sight passes a tangent point between receiver and transmitter, the transmitter is within the maximum yaw (between 0 and 90 degrees) of the receiver's fore or aft direction, and the tangent height is inside the elevation range. "
  "Each observation lists the tangent points of exactly its samples in order, with start and end the first and last sample, and reports the attributes of the sample whose tangent height is closest to the requested elevation. "
  "Several transmitters give the union over transmitters, ordered by time, and a run is rising exactly when its first sample looks forward.",
  ["inputs", "histories"],
  "every receiver, transmitter list, sample times, yaw limit, elevation range and requested elevation; every pattern of validity along the samples",
  "Tests count observations for one day; runs ending by yaw, by elevation, at the last sample or at adjacent samples are not distinguished.",
  [RO], [("run state machine over samples", RO + ":_collect_ro_series"), ("records", RO + ":collect_ro_observations")],
  ["tatc.analysis.collect_ro_observations"], [("occ_arc", "run in progress", RO)])

p("C28", "Configuration files load exactly, or fail with a configuration error",
  "Loading a configuration file yields settings in which every value given in the file has that value and every other setting has its documented default. "
  "A missing file, text that is not a YAML mapping, an unreadable document, or a value of the wrong type or outside its range raises the configuration error and nothing else. "
  "Unknown settings are ignored, loading never changes the active configuration, the shipped defaults equal the built-in defaults, and settings changed on the active configuration take effect in later calls.",
  ["inputs", "configurations"],
  "every file content and every subset of settings and values at and around the range limits",
  "Tests load the default, one malformed and one invalid file.",
  [CFG], [("load and validate", CFG + ":load_yaml_config")],
  ["tatc.config.load_yaml_config", "tatc.config.rc"])

p("C29", "Analyses do not change their inputs or each other's results",
  "Every analysis, generation and conversion call returns the same result for the same arguments and configuration whatever other calls were made before it in the same process, including calls that share the same satellite, orbit, instrument, point, mask or table objects. "
  "No call changes the value of an argument: orbit, satellite and instrument definitions, masks, cells and tables compare equal before and after. "
  "Constellation members share no mutable state with each other or with the constellation. The documented lazy loading of element sets and repeat cycles is the only state kept, and equal definitions compare equal whatever was loaded.",
  ["histories"],
  "every sequence of calls over shared objects",
  "Tests call each function once on fresh objects.",
  [ORB, SAT, COV, LAT, TRK, UTL], [("lazy caches on orbit objects", ORB), ("copies before conversion of columns", COV), ("deep copies of instruments", SAT)],
  ["all public analysis functions"], [("caches", "tle, tle_epochs, repeat_cycle stored on orbit objects", ORB)])

p("C30", "Mission definitions are validated and survive serialisation",
  "Every satellite, constellation, ground station, point, instrument and architecture definition whose values are inside the documented ranges is accepted with exactly those values, and every one with a value outside its range or a missing required value is rejected with a validation error. "
  "Serialising an accepted definition to JSON or a dictionary and loading it back yields an equal definition of the same kind that generates the same members. "
  "Orbits and space systems are told apart by their type.",
  ["inputs", "configurations"],
  "every definition at, inside and outside each range limit, and every nesting of definitions",
  "Tests check a few invalid values per class.",
  [SAT, ORB, INS, PNT, ARC], [("field constraints", PNT), ("field constraints", INS), ("type discriminators", ORB)],
  ["schema constructors", "model_dump", "model_dump_json", "model_validate"])

p("C31", "An observation is valid exactly in the sunlight its instrument requires",
  "An instrument's observation of a target by a satellite is valid at a time exactly when every sunlight requirement of the instrument is met at that time: a requirement on the satellite (to be, or not to be, sunlit) is met according to whether the Earth hides the Sun from the satellite, and a requirement on the target according to whether the Sun is above the horizon there; without requirements every observation is valid. "
  "When no target is given, the point below the satellite at each time takes its place. "
  "A single time gives one truth value and a list of times gives one truth value per time, in order, each decided by that time alone, and nothing passed in is modified.",
  ["inputs"],
  "every combination of requirements, satellite orbit, target and list of times, including times around every entry into and exit from shadow",
  "Tests check single times far from the shadow; lists that mix lit and dark samples, and satellites lit above a dark ground, are not sampled.",
  [INS], [("sunlight requirements", INS + ":is_valid_observation")],
  ["Instrument.is_valid_observation"])

p("C32", "A buffered target keeps everything a satellite can see it from",
  "Buffering a target for an orbit, a swath and a time step yields a valid region, inside longitudes -180 to 180 and latitudes -90 to 90, that contains the target and every location whose distance from it is at most the distance the sub-satellite point travels in one time step plus half the swath width, times the requested scaling factor. "
  "This holds for points, polygons and regions of several parts everywhere on the globe, including next to the antimeridian and around the poles, and the target passed in is not modified. "
  "A track masked by the buffered target therefore never loses a sample between which the satellite could have observed the target.",
  ["inputs"],
  "every target geometry and position, orbit, swath, time step and scaling factor",
  "Tests check one target at the equator; the reach in longitude depends on the latitude and breaks down at the poles and at the antimeridian.",
  [UTL], [("buffer distance and projection", UTL + ":buffer_target")],
  ["tatc.utils.buffer_target"])

p("C33", "Gridded statistics follow from the raw observations and contacts",
  "Handing raw observations through aggregation, reduction and gridding gives, for every point, the number of periods during which the point was observed without interruption by any satellite, their mean length and the mean time the point was left unobserved between them, and for every cell the number of such periods over its points and the means of the point values weighted by it. "
  "Handing observations and downlinks through latency computation, reduction and gridding gives, for every point, the number of observations and the mean time from an observation to the next contact of the satellite that made it, and for every cell the weighted means likewise. "
  "A point observed once has no revisit and an observation never downlinked no latency; a cell with a point that has no value has none. The results do not depend on the order of the rows, on how the observations were collected (per point, per satellite or in parts, some of them empty) or on the time resolution of the tables, and no stage fails on what an earlier stage returns.",
  ["inputs", "histories"],
  "every set of observations and contacts of any number of satellites, points and cells, in any order, collected by the library or not, including none at all",
  "Tests check one stage at a time on tables with a few rows; what one stage returns for unusual input (no rows, missing values, empty parts) is never handed to the next.",
  [COV, LAT], [("stages", COV + ":aggregate_observations, reduce_observations, grid_observations"), ("stages", LAT + ":compute_latencies, reduce_latencies, grid_latencies")],
  ["aggregate_observations", "reduce_observations", "grid_observations", "compute_latencies", "reduce_latencies", "grid_latencies"])

p("C34", "A result table has the same columns whatever was found",
  "The columns of every result table (collected, aggregated, reduced and gridded observations and latencies, downlinks, orbit and ground tracks, swaths, pixels, occultations, dilution of precision, points and cells) depend only on the operation and the options asked for: they are the same, and complete, when there are no rows, one or many, whether the table is empty because no times, satellites or stations were given, because a mask excludes everything, or because nothing was seen. "
  "Every table is a geographic table (WGS 84 coordinates, active geometry column \"geometry\"), its rows are numbered from zero (dilution of precision: labelled by the times), its instants are in universal time and its durations are durations. "
  "Tables without rows come from inputs without rows and can be handed to every later stage.",
  ["inputs", "configurations"],
  "every operation, combination of options, number of rows, and reason for a table to be empty",
  "Tests look at the columns of tables with rows; an empty table is only ever tested for its length, in a few functions and with the default options.",
  [COV, LAT, TRK, RO, DOP], [("empty tables", COV + ":_get_empty_coverage_frame, _get_empty_aggregate_frame, _get_empty_reduce_frame"), ("empty tracks", TRK + ":_get_empty_orbit_track, _get_empty_ground_track"), ("empty latencies", LAT + ":_get_empty_latency_frame")],
  ["collect_observations", "aggregate_observations", "reduce_observations", "grid_observations", "collect_downlinks", "compute_latencies", "reduce_latencies", "grid_latencies", "collect_orbit_track", "collect_ground_track", "collect_ground_pixels", "compute_ground_track", "collect_ro_observations", "compute_dop"])

p("C35", "Results depend on instants, not on how times are written",
  "Two calls whose times denote the same instants give the same result, whatever time zones the times are written in (universal, fixed offsets, or zones whose clocks change), whether or not the zones differ between the start, the end and the entries of a list, and wherever the instants lie relative to a change of the clocks, including the hour that occurs twice and the hour that is skipped. "
  "This holds for collected observations, downlinks, latencies, tracks, swaths, pixels, occultations, dilution of precision, rise and set events, positions and element set selection, and for the epochs from which element sets and constellation members are generated. "
  "Durations (access, revisit, latency, repeat cycles, separations) are elapsed time, not differences of clock readings, and reported instants are in universal time. "
  "A time without a zone denotes no instant and is refused instead of being interpreted silently.",
  ["inputs"],
  "every operation that takes times, every pair of instants and every notation for them",
  "Tests write every time in universal time.",
  [ORB, COV, RO, TRK, LAT, DOP],
  [("events repeated over cycles", ORB + ":TwoLineElements.get_observation_events"), ("observation periods", COV + ":_get_visible_interval_series"), ("occultation records", RO + ":collect_ro_observations"), ("element set selection", ORB + ":TwoLineElements.partition_by_tle_index, get_closest_tle_index")],
  ["collect_observations", "collect_multi_observations", "collect_downlinks", "compute_latencies", "collect_orbit_track", "collect_ground_track", "collect_ground_pixels", "compute_ground_track", "collect_ro_observations", "compute_dop", "TwoLineElements", "generate_members"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
