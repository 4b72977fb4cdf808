"""Per property: (spec module: what it states, oracle, what tests cannot reach)."""
NOTES = {
"C01": ("Downlink: `Visibility` sweeps the rise/set transitions of each station through a window, opening, closing and clipping periods; `Downlink` keeps those at least as long as the station's minimum. Invariants: periods are exactly the visible parts of the window, in order, disjoint, never longer than the window; whole-window and no-transition cases included.",
        "true passes by dense sampling of topocentric elevation and bisection (never skyfield's event search, never TATC code).",
        "windows cut at every position relative to passes, several stations with different minima, orbits from 300 km to geostationary; the tests sample two fixed windows of one orbit."),
"C02": ("Observation: the same sweep with the instrument's conditions evaluated at the middle of each visible period; a judgement operator with a must/may split for conditions in transition.",
        "independent passes, sunlight and footprint membership by ray geometry in the (nadir, velocity, normal) frame.",
        "every combination of requirement, minimum access, fixed access, pointing and window cut."),
"C03": ("Merge: k-way merge of the members' record sequences; invariant: sorted by start, nothing lost, nothing invented, identity columns kept.",
        "the union of real single-member, single-instrument collections (judged by C02).",
        "nested systems, shared names/orbits, empty parts, ordering across all of them."),
"C04": ("Aggregate: a scan that keeps a group in progress with its running latest end; invariants: groups are the connected components of overlap, revisit is the gap to the previous group's end, first revisit missing.",
        "the specification itself computes the expected table from the recorded input.",
        "containment and transitive chains in every record order; tests only overlap consecutive pairs."),
"C05": ("Reduce: accumulates records in every order, counting only defined values.",
        "sums computed in TLA+ on integers (ms) from the input table.",
        "missing values anywhere, duplicate row labels, tables of any size and order, chained on real aggregation output."),
"C06": ("Grid: cells and points on a raster; the weighted sums of the points inside each cell, NA-aware; untouched cells stay missing.",
        "point-in-convex-polygon and weighted means in TLA+ on integers.",
        "overlapping cells, points on edges, arbitrary row labels and ids; chained on real reduction output."),
"C07": ("Latency: a backward sweep over observation ends and contact starts; invariant: equals the declarative `next contact of the same satellite that starts at or after the end`.",
        "declarative pairing evaluated by TLC on the recorded tables.",
        "ties, contacts in progress, satellites without contacts, any row order."),
"C08": ("Constellation: places members one by one with plane and slot counters; invariants: Walker relations (plane spacing, slot spacing, phasing), distinctness, symmetry; acceptance of t/p/f.",
        "offset arithmetic in millidegrees in TLA+; streets-of-coverage counts from an independent spherical computation.",
        "all t/p/f up to the bound on each orbit class, with angles next to 0/360."),
"C09": ("Constellation: the train machine (n members, interval, same or repeated ground track).",
        "offsets from the interval and the period.",
        "negative and multi-day intervals, all orbit classes, sizes up to 120."),
"C10": ("Derive: the angles of an orbit under a history of shifts; invariant: only the sum of shifts (mod a turn) matters, all other elements unchanged.",
        "mean anomaly via an exact Kepler solution in the harness; TLE fields parsed by column.",
        "histories of derivations over every orbit class and epoch, including multi-set orbits."),
"C11": ("Mutual: moves the reference in 15 degree steps with every member's along/radial/across offsets on the ellipse; invariants: centring, separation, mirroring with sense, same path for all members.",
        "two-body propagation of the generated elements in the harness.",
        "sizes 1-40, axes from 1 km to 8000 km, all inclinations, both senses."),
"C12": ("Convert: an orbit object with a lazily loaded text, under histories of conversions, copies and reconfiguration; invariant: every returned text stands for the object's definition.",
        "element text parsed column by column, sun-synchronous node/inclination from independent formulas.",
        "whole field domains of all orbit classes and cache histories."),
"C13": ("TleFormat: reader over character sequences: length, columns, checksum, matching catalogue numbers, chronological order.",
        "the reader in TLA+ judges the same text given to the code.",
        "every single-character change at every column with checksum kept or repaired."),
"C14": ("TleValues: the value written in every column group, written field by field and read back.",
        "the specification parses the recorded text to integers.",
        "extremes and signs of each field, alpha-5 numbers, pivot years, multi-set indices."),
"C15": ("MultiSet: time moves through a window over an arrangement of epochs; the set in use is a closest one; switches at midpoints; parts partition the window.",
        "closest index in TLA+; tracks and events compared with single-set objects.",
        "equal epochs, windows outside the epochs, lists of times in any order."),
"C16": ("Repeat: one orbit object with cached cycle, settings and queries; folding of times into the first cycle and unrolling of events.",
        "returned positions identified with offsets from the epoch; events compared with the unrolled first cycle.",
        "histories of settings and queries, times before the epoch, windows across many cycles."),
"C17": ("Lattice: index walk over rounded bounding boxes; equally spaced and Fibonacci lattices; masks select by the even-odd rule.",
        "TLA+ tests every lattice point against the mask on integers.",
        "all boxes on the raster, spacings that do not divide the circle, holes, multi polygons."),
"C18": ("Lattice: the cells of the same walk, strips, disjointness, unique ids, matching ids of points and cells.",
        "rectangles on the raster; convex hull areas in the harness for clipped cells.",
        "as C17."),
"C19": ("Wrap: cutting, shifting and flipping regions on the unrolled plane in any order keeps the globe squares.",
        "crossing counts of the unrolled ring in TLA+ decide every probe.",
        "any starting vertex and orientation, holes, both poles, multi polygons."),
"C20": ("Track: one record per sample, masked by sub-satellite point only; validity by requirement.",
        "independent state (sgp4, geodesy by pyproj, synthetic sun).",
        "orders of times, coordinate systems, mask forms, optional columns."),
"C21": ("Track: clipping after any sound culling equals clipping the unmasked track.",
        "masked result against unmasked result; unmasked geometry probed on rays.",
        "footprints that only graze the mask, multi-part masks, all projections, antimeridian and poles."),
"C22": ("Track: partition of valid samples into maximal stretches of a revolution; union of their swaths.",
        "membership of probes in every sample's polygon or distance to every segment, combined in TLA+.",
        "valid/invalid patterns over three revolutions, masks that exclude the first sample, both methods."),
"C23": ("Pixels: one record per pixel per sample in order, evenly spread; a mask only selects.",
        "ray/ellipsoid intersection of each pixel direction in the harness.",
        "all small pixel counts, oversampling, pointing, masks."),
"C24": ("Footprint: outline of an ellipse/rectangle in the view plane cut by the Earth disc; contains its centre; monotone in the field of view.",
        "every vertex traced back to view coordinates.",
        "fields of view up to beyond the limb, roll/pitch, elevations, any latitude."),
"C25": ("Viewing: exact lattice circles; ground distance, view angle, elevation angle inverse to each other up to the horizon.",
        "coordinates of Pythagorean lattice points scaled to the Earth.",
        "the whole domain including horizon, above 180 degrees, eccentric anomalies."),
"C26": ("Dop: exact integer Gram matrices; defined only with four independent directions; monotone in satellites; components are sums of squares.",
        "matrix inverse from independently propagated Earth-fixed positions.",
        "skies at and below four satellites, singular skies, thresholds, multi-set satellites."),
"C27": ("Occult: samples read one by one; observations are maximal runs of good samples.",
        "classes, tangent points and angles from an independent computation.",
        "every word of sample classes up to the bound; merge over transmitters."),
"C28": ("Config: histories of writing, loading and using configuration files. Effects: histories of changing single settings or the whole configuration between calls that read them; invariants: a call left to the configuration uses what is active when it is made, an explicit argument wins for that call, calls do not configure.",
        "value classes known by construction; effects of every setting compared with the same call given the level explicitly.",
        "every small file of value classes over all settings; malformed documents."),
"C29": ("History: histories of plain and lazy calls, spoilt results and configuration changes over shared objects; every call returns what it denotes on the unchanged objects.",
        "the same call in a new process on newly built objects.",
        "histories: no test calls two analyses on the same objects and compares."),
"C30": ("Schema: acceptance exactly when every required setting is given and inside its range; carrying through dictionary and JSON changes nothing.",
        "documented ranges, enumerated at and next to every bound.",
        "triples of settings at bounds for every schema, nested definitions."),
"C31": ("Sunlit: a track of samples, each decided by the requirements and whether the satellite is in the Earth's half cylinder of shadow and the Sun above the target's horizon; invariants: samples are decided by themselves, opposite requirements exclude each other.",
        "vectors of satellite, Sun and target recorded as integers; the specification decides every sample.",
        "mixed lists around every entry into shadow, satellites lit over dark ground and targets away from the track."),
"C33": ("Pipeline: watches observations begin and end and contacts begin, in time, keeping the open samples of each point and what each satellite carries; invariants: samples are the connected groups (Aggregate), covered and uncovered time add up, latencies are the next contact (Latency), nothing is lost or carried past a contact, in every order of simultaneous events.",
        "per-point and weighted statistics computed in TLA+ from the raw records, whatever the stages in between did.",
        "every small world through the whole chain, random missions, missions collected by the library with unobserved points and mixed time resolutions."),
"C34": ("Tables: the declared columns of every kind of table under every set of options, and the pipelines that derive one table from others over zero, one or several rows; invariants: every operation finds the columns it relies on, nothing comes from nothing, tables already computed stay as they are.",
        "the declared columns, reference system, labels and column types, compared in TLA+ with those of recorded tables.",
        "every pipeline and option combination, with tables made empty in different ways (no times, masks, nothing visible, no satellites, no stations)."),
"C35": ("Instants: a small calendar with a skipped and a repeated hour; instants are carried through notations in three kinds of zone, rewritten and moved; invariants: a notation denotes one instant, moving keeps it, and wall clock arithmetic agrees with it exactly when no change of offset lies between (the ways it fails are the model's cases).",
        "the same call with its instants in universal time, compared in TLA+ (texts, numbers, zones of the results); the outcome without zones must be a refusal.",
        "every interval of the model in every pair of zones, placed at the real changes of 2022 in New York (also Kathmandu, +14 h, and equivalent zones), through 18 operations.",
        ),
"C32": ("Buffer: a disc on a plate stretched for its farthest latitude, or a cap near the poles, on a five-degree globe; invariant: nothing within the distance of the target is lost.",
        "reach computed in TLA+ from the recorded period, step and swath; great circle distances of probes.",
        "targets at the poles and over the antimeridian, several parts, extreme steps and scalings."),
}
