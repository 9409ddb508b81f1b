import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs or ["NavigationClient::navigate (include/navigine/navigation-core/navigation_client.h)"],"hook_needed":None}})
NC="src/navigation_client_impl.cpp"; MP="src/measurements/measurement_preprocessor.cpp"; PP="src/position_postprocessor/position_postprocessor.cpp"
NT="No test runs the navigation client on any input: navigation_test is a command line player without an assertion. "
p("C01","One report per message, in order; late messages have no effect",
 "A navigation call returns exactly one report for every message of its batch that is not older than a message accepted before it in the same batch, in message order. A message that is older yields no report and changes nothing about any later report of this or later calls. An empty batch yields no report and leaves the client as it was.",
 ["histories","inputs"],"every sequence of calls and every order of message times inside a batch",
 NT+"The guarantee ranges over all orders of message times and over what happens afterwards.",
 [NC],[("message loop with the per-batch lateness test","NavigationClientImpl::navigate"),("per-message state update","MeasurementsPreprocessor::updateMeasurements")])
p("C02","Batching and other clients never change a client's answers",
 "For the same messages in the same order, a client's reports are the same however the messages are divided into calls. They depend only on that client's settings, the loaded levels and its own messages: other clients, called in any interleaving or at the same time on other threads, change nothing, and a client created with the same settings and given the same messages gives bit-identical reports.",
 ["schedules","histories"],"every division of a message stream into calls and every interleaving, on one thread or several, of clients sharing the levels",
 NT+"It is a relation between runs: two divisions, two interleavings, two instances.",
 [NC,"src/level_collector.cpp",MP],[("all per-client state lives in the client","NavigationClientImpl members"),("levels are shared read-only","LevelCollector")])
p("C03","Only admissible radio measurements influence positioning",
 "A radio measurement influences later reports only if its transmitter belongs to a loaded level (locators only when tracking is on, everything else only when it is off) or unknown transmitters are allowed, its kind is among the enabled ones (Wi-Fi and Wi-Fi RTT, or beacon, Bluetooth and Eddystone), and, in signal strength mode, its strength is negative and above the cut-off. In the distance modes only Wi-Fi RTT measurements are used, whatever their strength. A measurement that is not admitted has no effect other than the report of its message; in particular it does not keep the signal alive.",
 ["inputs","configurations","histories"],"every measurement kind, strength, transmitter, setting combination and position in a history",
 NT+"Inputs times settings times histories: an inadmissible measurement may only show many messages later.",
 [MP],[("validity filter","MeasurementsPreprocessor::getValidSignalEntry, isSignalTypeSupported, isRssiValid, isTransmitterSupported"),("transmitter lookup","LevelCollector::findLevelByTransmitterId in src/level_collector.cpp")])
p("C04","Signals are averaged per transmitter over a sliding window",
 "Admitted radio measurements are collected and used once per window shift (the averaging time when no shift, or one longer than the averaging time, is set): then each transmitter counts with the arithmetic mean of its collected signals, and between shifts no radio measurement counts. After each use the collection keeps exactly the measurements of the last (averaging time - shift) milliseconds; while stops are used and the user has stood still longer than the stop detection time it keeps all. The first admitted measurement starts the clock; times are those of admitted radio measurements, not of other messages.",
 ["histories","configurations"],"every history of radio measurements and every averaging time and shift",
 NT+"Window contents depend on the whole arrival history around every shift boundary.",
 [MP],[("window extraction and averaging","RadioMeasurementBuffer::extractMeasurements, MeasurementsPreprocessor::extractRadioMeasurements"),("averaging","RadioMeasurementBuffer in measurement_preprocessor.cpp")])
p("C05","The detected level is the one whose signals score best",
 "When averaged signals exist, the level detected from them is the one with the highest score, the first loaded one on a tie: without a radio map, the mean strength (plus the mean transmit power when enabled) of its own transmitters, divided by one plus a tenth of their share of all heard transmitters; with a radio map, the similarity sum over its fingerprints times the number of matching transmitters, or the weight of its best reference point when that is selected. When closest access points are enabled, only the configured number of strongest averaged signals takes part in detection and positioning. Signals that belong to no level detect none.",
 ["inputs","configurations"],"every set of averaged signals, every set of levels and fingerprints, every detection setting",
 NT+"The claim ranges over all signal sets and level sets.",
 ["src/level_estimator/level_estimator_transmitters.cpp","src/level_estimator/level_estimator_radiomap.cpp","src/knn/knn_utils.cpp",MP],
 [("transmitter score","LevelEstimatorTransmitters::detectCurrentLevel"),("radio map scores","LevelEstimatorRadiomap::detectCurrentLevel, calcWeight, calcWeightBestRp"),("strongest signals","MeasurementsPreprocessor::extractRadioMeasurements, useClosestAps")])
p("C06","The level changes only after repeated detection",
 "The first detected level is used at once. Afterwards detections are counted per level, and only a level that reaches five becomes the level in use; all other counts then start from zero, and its own stays one short of five. Messages without a detection count for nothing, so stray detections never move the user to another floor.",
 ["histories"],"every sequence of level detections",
 NT+"It is a statement about all detection sequences; the counter reset only shows in long alternating ones.",
 ["src/level_estimator/level_history.cpp","src/level_estimator/level_estimator.cpp"],[("detection counters","LevelHistory::detectLevelUsingHistory"),("level choice per message","LevelEstimator::calculateLevel")])
p("C07","With the barometer on, a level change needs a pressure change",
 "With the barometer enabled and both pressure windows (of one hundred samples each) full, a new level is accepted only while their means differ by the equivalent of more than two metres of height; otherwise the level accepted before stays in use. Samples that average to zero accept nothing. Until the windows are full the level follows the radio estimate.",
 ["histories","inputs"],"every interleaving of pressure samples and level detections",
 NT+"The gate depends on two hundred samples of history and their interleaving with detections.",
 ["src/level_estimator/barometer.cpp","src/level_estimator/level_estimator.cpp"],[("pressure windows and height test","Barometer::checkLevelChange, updateBuffers, updateLevel"),("gate","LevelEstimator::calculateLevel")])
p("C08","Reports are complete or empty, and positions expire when signals stop",
 "A report either is successful and carries a finite position on a loaded level with a provider, or carries an error status, no level, no provider and a zero position. When no radio signal was admitted for the no-signal time, or there were none for the no-action time and no step for that time, the level is given up; with a level in use no position is reported once the estimate it rests on is as old as the dead reckoning time, and after the level is given up the last reported one (or a valid satellite fix) is reported for at most that time. Signals that return give reports again, but an expired position never comes back without a new estimate.",
 ["histories","fault_sequences"],"every history, in particular every pattern of signal loss and return",
 NT+"Expiry is about what happens after any history, at every timeout boundary.",
 [NC,PP,"src/position.h"],[("loss of signal","NavigationClientImpl::navigate, noSignalTimeThreshold / noActionTimeThreshold"),("dead reckoning time","PositionPostprocessor::getProcessedPosition and NavigationClientImpl::navigate"),("held KNN position","src/position_estimator/position_estimator_knn.cpp")])
p("C09","Zone positioning reports the strongest known transmitter",
 "With the zone algorithms, each set of averaged signals that contains a transmitter of the level in use yields as indoor estimate the position of the strongest of them, with precision one plus the square root of exp((A - signal)/B) for that level's A and B, and the time of the message; no other transmitter, level or unknown source influences it. Without such a signal there is no new estimate.",
 ["inputs","configurations"],"every set of averaged signals, levels and level settings",
 NT+"All signal sets: the strongest signal may be unknown or belong to another level.",
 ["src/position_estimator/position_estimator_zone.cpp","src/level.cpp"],[("strongest transmitter","PositionEstimatorZone::calculatePosition"),("own transmitters","getLevelRadioMeasurements in src/level.cpp")])
p("C10","Fingerprinting averages the best matching reference points",
 "With fingerprinting, an estimate needs at least the configured number of signals that occur in the level's radio map, and is the weighted mean of the k reference points with the largest weights, or of the corners of the heaviest Delaunay triangle of the level's reference points (no longer edge than the level) when triangles are used. A reference point has a weight only if it shares at least three transmitters; the weight falls with the mismatch between heard and recorded signals (of pairwise differences in difference mode), each transmitter counting by its strength relative to the one it announces for a metre (-10 dBm unless it announces a positive one). Without enough signals or weighted points no new estimate is made and the last one is repeated with its own time.",
 ["inputs","configurations"],"every radio map, set of averaged signals and parameter choice",
 NT+"Ranges over all maps, signal sets and parameters.",
 ["src/position_estimator/position_estimator_knn.cpp","src/knn/knn_utils.cpp","src/triangulation.cpp","src/radiomap.cpp"],
 [("weights","calcRpWeightsKnn in src/knn/knn_utils.cpp"),("triangles","triangulate in src/knn/knn_utils.cpp, src/triangulation.cpp"),("estimate","PositionEstimatorKnn::calculatePosition")])
p("C11","Only acceptable satellite fixes are used, and only while valid",
 "A satellite fix becomes an outdoor estimate only if its deviation does not exceed the maximum, it lies inside a level (the first loaded one that contains it) unless positions outside the map are allowed, the latest satellite report does not name fewer satellites than required, and, with the sigma filter, the window of earlier fixes is full and the fix lies within three standard deviations plus the margin of their mean on both axes. Its deviation is at least the configured minimum. An accepted fix stays valid for the configured time and is then dropped; a rejected fix gives no estimate, and the sigma filter starts anew after an indoor estimate or a fix that is too imprecise.",
 ["inputs","histories","configurations"],"every history of fixes, satellite reports and settings",
 NT+"The sigma window and the validity time depend on the history of fixes.",
 ["src/position_estimator/position_estimator_outdoor.cpp"],[("acceptance","PositionEstimatorOutdoor::calculatePosition, extractGpsPosition"),("sigma filter","SigmaFilter::add"),("validity","PositionEstimatorOutdoor, gpsValidTimeWindowSec")])
p("C12","Indoor and satellite estimates are chosen or fused by their accuracy",
 "On a level, the position is the current fix if instant satellite positions are on, else the current indoor estimate if indoor is preferred, else chosen from the latest estimates: the only one there is, the one that is not too old, their accuracy-weighted mean (provider fused, deviation the smaller) if fusion is on and they are closer than the sum of their deviations and the border, otherwise the one with the smaller deviation. Deviations are running means that grow with walking speed times age, capped by the prior when updated. A fused position lies between the two estimates.",
 ["inputs","histories","configurations"],"every interleaving of indoor and satellite estimates and every setting",
 NT+"The running deviations depend on the whole history of both sources.",
 [PP],[("running deviations","PositionPostprocessor::fillIndoorOutdoorPositionStates"),("choice and fusion","PositionPostprocessor::fusePositions")])
p("C13","Positions lie inside their level, on the graph if asked, to the centimetre",
 "Every position reported on the level in use lies inside that level's bounding box and on its centimetre grid (rounded down). With graph projection on, a position closer to the walk graph than the projection distance is moved to the nearest point of the nearest edge before that, otherwise it is left where it is. An estimate outside the level is refused unless positions outside the map are allowed, and is then moved to the border.",
 ["inputs","configurations"],"every estimate, level shape and graph",
 NT+"All estimates, in particular those beyond the border and near the ends of edges.",
 [PP,"include/navigine/navigation-core/graph.h","src/level.cpp"],[("projection","include/navigine/navigation-core/graph.h, PositionPostprocessor::getProcessedPosition"),("fit into level and rounding","PositionPostprocessor::getProcessedPosition")])
p("C14","The position is frozen while the user stands still",
 "With stops enabled, once a step has been detected and none followed for the stop detection time, the reported position stays put (within 5 cm) except that, at most once per stop update time, it moves to the new position if that is nearer than the distance threshold or none has been reported yet. The first step afterwards frees the position again. A client that never detected a step never stands still.",
 ["histories","configurations"],"every interleaving of steps, pauses and estimates",
 NT+"Timing of steps against estimates over whole histories.",
 [PP,"src/sensor_fusion/pedometer.cpp"],[("stop handling","PositionPostprocessor::getProcessedPosition, useStops"),("time of last motion","src/sensor_fusion/sensor_fusion.cpp")])
p("C15","Smoothing follows its filter and restarts where it must",
 "With the alpha-beta filter, the smoothed position and velocity follow the filter equations with the configured (or accuracy-derived) gain; it restarts at the raw position on its first use, on a change of level, after a gap of more than ten seconds, when its speed exceeds 4 m/s with the speed constraint on, or when its result leaves the walkable area with barriers on. With the alternative filter, each axis follows the least squares line through the estimates of the averaging time, shifted and weighted as configured, restarting on a level change or at a barrier. Time smoothing interpolates linearly between the two latest positions of one level and never extrapolates beyond the later one.",
 ["histories","configurations"],"every history of estimates and every smoothing setting",
 NT+"Filter state is a function of the whole history, with restarts at specific events.",
 ["src/position_postprocessor/position_smoother_ab.cpp","src/position_postprocessor/position_smoother_lstsq.cpp","src/position_postprocessor/polynomial_fit.cpp","src/position_postprocessor/navigation_time_smoother.cpp",PP],
 [("alpha-beta","PositionSmootherAB::smoothPosition"),("least squares","PositionSmootherLstsq::smoothPosition, PolynomialFit"),("time smoothing","NavigationTimeSmoother::getTimeSmoothedPosition")])
p("C16","Steps are counted once, and only on rising acceleration",
 "The step counter grows by one, and a step length is reported, exactly when an accelerometer sample lifts the filtered acceleration magnitude (mean of the last 200 ms minus mean of the last 2.5 s) from below to above 5 percent of gravity, more than 300 ms after the previous step and not among the first three samples. The length is the configured multiple of 0.52 times the fourth root of the magnitude range over the last 700 ms. No other message changes the counter, and it never decreases.",
 ["histories","inputs"],"every acceleration history, at every sampling rate, interleaved with any other messages",
 NT+"The standalone pedometer's test needs data files that are not there; windows and rates range over all histories.",
 ["src/sensor_fusion/pedometer.cpp","src/sensor_fusion/sensor_fusion.cpp",NC],[("step detection","Pedometer::update, calculateFilteredAccMagnitudes, calculateSteps, calculateStepLength"),("step counter","SensorFusion::calculateDisplacement")],
 ["NavigationClient::getStates (include/navigine/navigation-core/navigation_state.h)"])
p("C17","Orientation comes from the chosen source, in the chosen convention",
 "The reported orientation is normalised to [-pi, pi). With the calculated azimuth it is the tilt-compensated magnetic azimuth of the complementary filter driven by accelerometer, magnetometer and gyroscope; otherwise it is the device's own azimuth while that is not older than its lifetime (against the latest motion sample), else east (pi/2) on a level and zero off it. In the mathematical convention (counter-clockwise from east) every reported orientation is pi/2 minus that.",
 ["histories","configurations"],"every interleaving of sensor samples and every setting",
 NT+"The core filter is untested; staticTilt samples one static pose of the standalone copy.",
 ["src/sensor_fusion/complementary_filter.cpp","src/sensor_fusion/quaternion.cpp","src/sensor_fusion/sensor_fusion.cpp","src/vector3d.cpp",NC],[("orientation filter","ComplementaryFilter::update"),("choice of source","SensorFusion::calculateDisplacement, NavigationClientImpl::navigate")])
p("C18","A loaded level keeps its metric frame, content and identity",
 "For every set of level descriptions anywhere on earth, a level's frame has its origin at the south-west corner and its size from the extent of its areas' outer borders, and transmitters, reference points, walk graph and fixes are placed in it at their true metric offsets; a reported geographic position is that frame's position converted back, its longitude in (-180, 180], also for a level across the 180th meridian. Levels keep their load order and identifiers; a transmitter listed twice on a level counts once, as listed first; several areas and holes delimit the walkable area.",
 ["inputs","programs"],"every set of level descriptions",
 NT+"All level descriptions, in both hemispheres and near the date line.",
 ["src/level_collector.cpp","src/level.cpp","src/level_geometry.cpp","src/point.cpp","src/barriers_geometry_builder.cpp","src/radiomap.cpp"],
 [("conversion and loading","LevelCollector::addGeoLevel in src/level_collector.cpp"),("local and geographic coordinates","src/point.cpp"),("areas","getGeometry in src/barriers_geometry_builder.cpp")])
p("C19","Files are read as documented: messages, settings and maps",
 "Reading a message log gives one message per line in order, with its time, its documented type (101-106, 201-205, 300), and every documented field of that type; absent optional fields are zero. Reading settings sets for every documented key exactly its own field and leaves the field of every absent key, and of every level an absent A or B, at its default; a settings file that cannot be opened is reported as error 25. Reading a map gives its levels, each once, in the order of their names; each holds exactly its own transmitters and reference points in file order (position, path loss or the default -80 and 3, type; every fingerprint entry with the number and mean of its counted values), its walkable areas with holes (so a point is inside, and a path free of barriers, exactly as drawn), their bounding box, and a walk graph in which line ends closer than 10 cm are one vertex and every drawn line is one edge. What was read before has no influence.",
 ["inputs","programs"],"every message log, settings file and map",
 "No test reads a file; the reader of the command line player is only ever run by hand.",
 ["tools/verification/helpers.cpp","src/barriers_geometry_builder.cpp","src/level_geometry.cpp","include/navigine/navigation-core/graph.h"],
 [("messages","GetNavMessages"),("settings","CreateSettingsFromJson"),("maps","ParseGeojson, parseGraph, parseReferencePoint, parseTransmitter, parseLevel"),("barriers","LevelGeometry::isPathTouchesBarriers")],
 ["GetNavMessages, CreateSettingsFromJson, ParseGeojson (tools/verification/helpers.h)"])
SA="standalone_algorithms/"
p("C20","Standalone zone positioning: averaged signals, nearest transmitter, smoothed",
 "In standalone_algorithms/position_estimation, a measurement counts only if its type is enabled and its strength lies strictly between -100 and 0. Counted measurements newer than the last extraction are collected; the first counted one only starts the clock. An extraction gives nothing until the newest counted measurement is at least one window shift (the averaging time when the shift is zero or longer) after the last extraction; then it gives, strongest first and at most five, every collected transmitter once with the mean strength and mean distance of its collected measurements and the time of one of them, and keeps only what is at most (averaging time - shift) older than the newest. The estimator uses only registered transmitters (the last registered under an id), takes the place of the strongest, with precision 1+sqrt(exp((-82-strength)/3)), the time of the last registered measurement in the list, and no position when there is none. Places are smoothed by an alpha-beta filter (alpha 0.18, beta alpha^2/(2-alpha)) that starts at the first place, starts again after a gap of more than ten seconds, and answers a place not newer than its last one with its last one. getCurrentTs is the newest time of all measurements seen.",
 ["histories","inputs","configurations"],"every sequence of measurements (in any time order), extractions and estimates, every averaging time, shift and set of transmitters",
 "It has no test; windows and filter depend on the whole history.",
 [SA+"position_estimation/src/measurement_preprocessor.cpp",SA+"position_estimation/src/nearest_transmitter_estimator.cpp",SA+"position_estimation/src/position_smoother.cpp"],
 [("collection and averaging","MeasurementsPreprocessor, RadioMeasurementBuffer"),("nearest transmitter","NearestTransmitterPositionEstimator::calculatePosition"),("smoothing","PositionSmoother::smoothPosition")],
 ["MeasurementsPreprocessor::update, extractRadioMeasurements, getCurrentTs; NearestTransmitterPositionEstimator::calculatePosition"])
p("C21","Standalone trilateration: a weighted mean of known beacons, or the right error",
 "calculateCoordinates depends on nothing but the map beacons and the measurements given last: calculated again, from a copy, or after other calculations, the result is the same. A negative distance gives error 28; otherwise fewer than three distinct measured beacons, or none that is on the map, give error 4; otherwise 0. Coordinates are the mean of the measured beacons on the map, weighted with the inverse of their mean measured distance (several measurements of a beacon count as one with the mean distance; the first beacon listed under an id counts; a distance below a micrometre counts as one micrometre), so they are finite and lie among those beacons. An error leaves the coordinates as they were. The error message is that of the last calculation with fewer than three beacons.",
 ["inputs","histories"],"every map, every set of measurements with duplicates and unknown beacons in any order, every sequence of calls on one object",
 "test_trilateration calculates one set of measurements once, without duplicates; it cannot see what a second calculation, a duplicate or a zero distance does.",
 [SA+"trilateteration/src/trilateration.cpp",SA+"trilateteration/src/trilateration.h",SA+"trilateteration/src/beacon.cpp"],
 [("preparation of measurements","Trilateration::deleteDuplicateMeasurements, filterUnknownBeacons"),("weighted mean","Trilateration::calculateTrilaterationCoordinates"),("entry","Trilateration::calculateCoordinates")],
 ["Trilateration::calculateCoordinates, getX, getY, getErrorMessage"])
p("C22","Standalone pedometer: steps at rising acceleration, independent of batching",
 "The standalone pedometer reports a step, with the time of the sample, exactly for the samples of the latest update whose filtered magnitude (mean of the last 200 ms minus mean of the last 2.5 s, the latter with the former added to its sum) rises from below to above 5 percent of gravity, more than 300 ms after the step reported before. It reports none before the fourth sample, and never for the first sample. A step's length is 0.52 times the fourth root of the magnitude range over the 700 ms before it (and the one magnitude before these). Asking again without new samples reports nothing new, so the steps do not depend on how samples are grouped into updates, provided steps are asked for after each.",
 ["histories","inputs","schedules"],"every acceleration history at every sampling rate, and every division of it into updates",
 "Its tests need data files that are not in the repository, and all 13 of them fail; they count steps of a few recordings only.",
 [SA+"pedometer/src/pedometer.cpp",SA+"pedometer/src/vector3d.cpp",SA+"pedometer/include/pedometer.h"],
 [("magnitudes","Pedometer::update, calculateFilteredAccMagnitudes"),("steps","Pedometer::calculateSteps, calculateStepLength")],
 ["Pedometer::update, calculateSteps"])
p("C23","Standalone orientation filter follows its equations and keeps a unit attitude",
 "The standalone complementary filter starts at the identity attitude and keeps a unit quaternion. An accelerometer sample turns it by the accelerometer gain times the cross product of the measured and the estimated vertical; a magnetometer sample, only before the first gyroscope sample and only with a nonzero field, by the magnetometer gain times the cross product of the measured and the estimated north; with an integral gain above 1e-8 both errors, times that gain, are added to a bias. A gyroscope sample turns it by (rate + bias) times the time since the previous gyroscope sample (none for the first). Every magnetometer sample sets the magnetic azimuth, tilt-compensated and in [-pi, pi). The fused azimuth is minus the yaw of the reported roll, pitch and yaw, stamped with the time of the last sample of any kind; the device azimuth is the x of the last orientation sample. Other samples change nothing but that time.",
 ["histories","inputs","configurations"],"every interleaving of sensor samples, every attitude, every gain",
 "staticTilt samples one static pose with random noise; turning, magnetometer-only use, bias and azimuths are untested.",
 [SA+"complementary_filter/src/complementary_filter.cpp",SA+"complementary_filter/src/quaternion.cpp",SA+"complementary_filter/src/vector3d.cpp",SA+"complementary_filter/include/complementary_filter.h"],
 [("corrections","ComplementaryFilter::update, updateUsingAccelerometer, updateUsingMagnetometer, updateUsingGyroscope"),("azimuth","ComplementaryFilter::caclulateMagneticAzimuth, getFusedOrientation"),("attitude algebra","Quaternion in quaternion.cpp")],
 ["ComplementaryFilter::update, getFusedOrientation, getFusedAzimuth, getMagneticAzimuth, getDeviceAzimuth"])
p("C24","The reported altitude follows from the ranges of the moment",
 "With the altitude option, a report with a position carries an altitude exactly when its message completes a signal window that gives ranges to at least four transmitters of the reported level that are consistent with each other: taken from the nearest outwards, a transmitter that is not dropped itself drops every transmitter farther from it (in space) than the sum of their two ranges. A range is the mean distance less the Wi-Fi RTT offset for Wi-Fi RTT, otherwise exp((A-strength)/B) by the path loss of the transmitter itself. The altitude is the sum, over the consistent transmitters whose range exceeds their horizontal distance from the least-squares plan position, of (height of the transmitter + height of the range above it) / range, where the height of a transmitter is that of its level plus its own. Every other report has altitude zero; no altitude outlives its message.",
 ["inputs","histories","configurations"],"every set of ranges to the transmitters of a level, every settings combination and history",
 NT+"No test computes an altitude at all.",
 ["src/trilateration.cpp",NC,MP,"src/level_collector.cpp"],[("consistent ranges","getIntersectedMeasurements in src/trilateration.cpp"),("altitude","Trilateration::calculateAltitude"),("ranges","MeasurementsPreprocessor::extractRadioMeasurements"),("report","NavigationClientImpl::navigate")])
p("C25","Level queries: what is on a loaded level is found where the map put it",
 "The loaded levels are kept in the order in which they were added. A name that no level has is not found; a name that several have means the first. A transmitter is found on the first level that has it (exact name) and not otherwise. On a level every transmitter, reference point, graph vertex, area and hole of its description is present, no other is, at its place in the level's own metric frame (metres east and north of the south-west corner of its areas) with the values it was given; of transmitters with one name the first counts; a graph edge listed again in either direction is one edge, and one to a vertex that is not there is refused, as is asking for anything that is not there. Of a list of heard signals exactly those of the level's transmitters remain, in their order, repeats included. A path on a level is free exactly when it stays inside one of its areas and meets no hole. Converting between a metric frame and latitude and longitude there and back gives the same point. None of these answers changes when other levels are added or asked about.",
 ["inputs","histories"],"every sequence of added levels and of questions about them, in every place of the world",
 NT+"The two tests load no level; the guarantee ranges over all maps and all orders in which they are loaded.",
 ["src/level.cpp","src/level_collector.cpp","src/level_geometry.cpp","src/radiomap.cpp","src/point.cpp","include/navigine/navigation-core/graph.h","src/barriers_geometry_builder.cpp"],
 [("levels by name and by transmitter","LevelCollector in src/level_collector.cpp"),("what is on a level","Level, LevelGeometry, Radiomap, Graph"),("heard signals of the level","getLevelRadioMeasurements in src/level.cpp"),("frames","gpsToLocal, localToGps in src/point.cpp")],
 ["LevelCollector (include/navigine/navigation-core/level_collector.h), Level, gpsToLocal, localToGps"])
p("C26","A recorded walk played from its files gives the reports its files imply",
 "Playing a recorded walk - a map, a settings file and a message log, read by the documented readers, the levels added in the order in which they were read, the messages given to one client in calls of any size - yields for every message exactly the report that the drawn map, the named settings and the written messages imply: level, position, radius, altitude, orientation, provider, status and step count are those of a venue built by hand with the same levels, transmitters, fingerprint means, areas and graph, and of settings in which every key the file names has its value and every other its documented default. Neither the order of features or keys in the files, nor comments in the log, nor walks played before matter.",
 ["inputs","programs","histories"],"every map, settings file, message log and call size",
 "No test plays a walk: navigation_test is a command line player without an assertion, and no recorded walk is in the repository. The guarantee joins readers, level loading and the whole client.",
 ["tools/verification/helpers.cpp","src/level_collector.cpp",NC,"include/navigine/navigation-core/navigation_settings.h"],
 [("the player's steps","main in tests/navigation_test.cpp"),("readers","ParseGeojson, CreateSettingsFromJson, GetNavMessages"),("loading","LevelCollector::addGeoLevel"),("settings in use","createNavigationClient and the constructors below it")],
 ["GetNavMessages, CreateSettingsFromJson, ParseGeojson (tools/verification/helpers.h)","NavigationClient::navigate"])
with open("/verif/properties.jsonl","w") as fh:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"])); fh.write(json.dumps(q)+"\n")
