import subprocess
M={'6b5a854':'C16','48f7b70':'C19','a1a495f':'C35','8cf2068':'C35','0de7695':'C34','6803e9f':'C34','bf204a2':'C34','c1c6bff':'C22','7dbdf91':'C06','584330a':'C17','f2745e1':'C10','5eeb33d':'C25','287ed1c':'C15','774b334':'C26','e835a11':'C13','b4d316a':'C14','ec59236':'C14','8279067':'C28','2bb834e':'C19','c160281':'C19','ddee6a3':'C21','e877ce7':'C01','4606527':'C22','b35b5a6':'C30','586fca8':'C30','9f5bd10':'C10','6d3d7b0':'C12','74f49e9':'C23','25678af':'C24','6a18d4f':'C25','440a989':'C25','63c4481':'C25','9e14103':'C15','d1f7440':'C19','dc42d56':'C20','50835eb':'C24','355fa2c':'C21','24871f4':'C24','48ba759':'C26','e6dbe9a':'C26','6fe4da8':'C26','efdd3fa':'C26','817b1c2':'C27','f19b1f0':'C28','b7d00e9':'C29','cd39ee1':'C17','b81a43f':'C33','cf22838':'C06','ee1b576':'C01'}
T={'6b5a854':'get_observation_events in a repeat cycle without events returned a Time that is neither iterable nor convertible (TypeError)',
'48f7b70':'splitting a polygon whose parts overlap once folded over a pole (wider than 180 degrees there, or several parts) dropped the part covered twice',
'a1a495f':'observations collected with local times across a change of the clocks were lost or had wrong periods (daylight saving ends or begins inside the window)',
'8cf2068':'collect_ro_observations reported times in the zone the epochs of the result were not labelled with',
'0de7695':'empty aggregates lacked access and revisit, empty latencies sat_alt and sat_az, and observing with no satellites raised ValueError',
'6803e9f':'empty orbit, ground and pixel tracks lacked the optional columns asked for (velocity, sunlit, solar and satellite angles)',
'bf204a2':'collect_ro_observations and compute_dop raised ValueError when given no times',
'c1c6bff':'the line ground track of a full retrograde revolution raised UnboundLocalError (a buffer spanning more than 360 degrees of longitude)',
'ee1b576':'passes longer than twice the access time at the starting altitude (prograde orbits with periods above 12 h, eccentric orbits) were dropped',
'7dbdf91':'weights of gridded means were looked up by point row label although several cells share labels: wrong weighted means or an exception',
'584330a':'ids of equally spaced points/cells repeated (row stride too small), and a point and its cell carried different ids',
'f2745e1':'get_derived_orbit of Molniya/Tundra orbits lost a non-default orbital_period',
'5eeb33d':'compute_ground_velocity took the cosine of the inclination in degrees as radians',
'287ed1c':'partition_by_tle_index returned parts with gaps / labelled with a set that is not the closest',
'774b334':'DOP rows were located at (latitude, longitude) instead of (longitude, latitude)',
'e835a11':'TLE validators ran in an order in which malformed lines raised IndexError/ValueError outside validation',
'b4d316a':'negative b-star and second derivative of mean motion lost their sign or raised',
'ec59236':'alpha-5 catalog numbers (e.g. A0000) raised in get_catalog_number',
'8279067':'a configuration that is not a mapping, or has a wrong value, raised TypeError/ValidationError instead of ConfigError',
'2bb834e':'normalize_geometry changed the caller\'s GeoDataFrame',
'c160281':'holes of polygons round the south pole were lost',
'ddee6a3':'GeoSeries masks of several geometries: culling used one of them only, samples lost',
'e877ce7':'a visible period covering the whole window was dropped',
'4606527':'the line ground track lost contiguous segments and single-sample runs',
'b35b5a6':'a PointedInstrument became an Instrument when loaded from its own dump',
'586fca8':'an Architecture did not accept SOC constellations it had dumped',
'9f5bd10':'derived anomalies could be exactly 360 and then be rejected or not normalised',
'6d3d7b0':'Molniya/Tundra get_orbit_period ignored orbital_period',
'74f49e9':'pixels were spaced over a fraction of the field of view',
'25678af':'rectangular footprints missed their corners',
'6a18d4f':'a field of regard above 180 degrees gave a negative or wrapped swath/elevation instead of the horizon',
'440a989':'swath_width_to_field_of_view halved the look angle',
'63c4481':'mean/true anomaly conversions were truncated series, wrong by degrees for eccentric orbits',
'9e14103':'get_observation_events raised for a multi-TLE orbit without events in the window',
'd1f7440':'the latitude where a polar footprint meets the antimeridian was not interpolated',
'dc42d56':'masks of orbit tracks were applied to ECI/ECEF coordinates and needed increasing times',
'50835eb':'the footprint of a field of regard above 180 degrees wrapped instead of reaching the limb',
'355fa2c':'the culling buffer was too small: samples whose footprint meets the mask were lost',
'24871f4':'footprints of an orbit track holding one sample in an array raised',
'48ba759':'DOP ignored the elevation of the user point',
'e6dbe9a':'DOP used the first element set of a multi-TLE orbit at every time',
'6fe4da8':'DOP without satellites raised IndexError',
'efdd3fa':'DOP of a singular geometry was a number near 1e8 instead of missing',
'817b1c2':'azimuths of radio occultations used the first element set of a multi-TLE orbit',
'f19b1f0':'unreadable configuration files (directories, bad YAML tags, deep nesting) raised other exceptions',
'b7d00e9':'comparing two equal multi-TLE orbits after both were used raised ValueError (cached array)',
'cd39ee1':'Fibonacci points between the west edge of a mask and longitude zero were lost when the mask continued beyond 180 degrees',
'b81a43f':'latencies of concatenated collections with an unobserved point raised MergeError (time resolutions of observations and downlinks differed)',
'cf22838':'reducing when no point has a revisit (or latency) gave a datetime column, so that gridding it raised TypeError'}
log=subprocess.run(['git','-C','/repo','log','--format=%h'],capture_output=True,text=True).stdout.split()
assert not set(M)-set(log), set(M)-set(log)
fx=[l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines() if 'fix:' in l]
assert set(fx)==set(M),(set(fx)^set(M))
with open('/verif/known_findings.txt','w') as f:
    f.write('''# Findings about code-lab-org/tatc.  Lines:
#   known: property=<id> label=<specific input> <what fails>     recorded, not repaired
#   fixed: property=<id> <commit> <what failed>                  repaired in /repo (suppresses nothing)
''')
    for h in reversed(fx): f.write(f'fixed: property={M[h]} {h} {T[h]}\n')
