From 36ece6df0f02726f0ba49f8ca9f0e1cf8edb4f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 01/24] fix: use each sensor sample once, in the message that
 carries it

The last sensor sample was handed again to the pedometer, the orientation
filter, the barometer and the GPS estimator with every later radio or NMEA
message (and an uninitialised one before the first sample), so a GPS fix never
expired and pressure/acceleration samples were counted several times.
---
 src/level_estimator/barometer.cpp                  |  5 +++--
 src/level_estimator/barometer.h                    |  3 ++-
 src/level_estimator/level_estimator.cpp            |  2 +-
 src/level_estimator/level_estimator.h              |  4 +++-
 src/measurements/measurement_preprocessor.cpp      |  6 +++---
 src/measurements/measurement_preprocessor.h        |  4 ++--
 src/navigation_client_impl.cpp                     |  2 +-
 .../position_estimator_outdoor.cpp                 | 12 ++++++------
 .../position_estimator_outdoor.h                   |  5 +++--
 src/sensor_fusion/sensor_fusion.cpp                | 14 +++++++++-----
 src/sensor_fusion/sensor_fusion.h                  |  3 ++-
 11 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/level_estimator/barometer.cpp b/src/level_estimator/barometer.cpp
index 7d04b15..bec81e0 100644
--- a/src/level_estimator/barometer.cpp
+++ b/src/level_estimator/barometer.cpp
@@ -41,7 +41,7 @@ static double calcMean(const std::deque<double>& measurements)
 // - the floor is changed only if the vertical displacement is more than distance between floors (i.e. 3m)
 LevelId Barometer::checkLevelChange(
   const LevelId& levelId,
-  const SensorMeasurement& sensorMsr)
+  const boost::optional<SensorMeasurement>& sensorMsr)
 {
   if (!mIsInitialized)
   {
@@ -49,7 +49,8 @@ LevelId Barometer::checkLevelChange(
     return levelId;
   }
 
-  updateBuffers(sensorMsr);
+  if (sensorMsr.is_initialized())
+    updateBuffers(sensorMsr.get());
   updateLevel(levelId);
   return mLastKnownLevel;
 }
diff --git a/src/level_estimator/barometer.h b/src/level_estimator/barometer.h
index fb90a2b..0256131 100644
--- a/src/level_estimator/barometer.h
+++ b/src/level_estimator/barometer.h
@@ -10,6 +10,7 @@
 #include <navigine/navigation-core/navigation_input.h>
 
 #include <deque>
+#include <boost/optional.hpp>
 #include <navigine/navigation-core/level.h>
 
 #include "../measurement_types.h"
@@ -23,7 +24,7 @@ class Barometer
     Barometer() : mIsInitialized ( false ), mLastKnownLevel ( LevelId("")) {}
     LevelId checkLevelChange(
       const LevelId &levelId,
-      const SensorMeasurement& sensorMsr);
+      const boost::optional<SensorMeasurement>& sensorMsr);
 
   private:
     void updateBuffers(const SensorMeasurement& sensorMsr);
diff --git a/src/level_estimator/level_estimator.cpp b/src/level_estimator/level_estimator.cpp
index e10f0d9..ae8c767 100644
--- a/src/level_estimator/level_estimator.cpp
+++ b/src/level_estimator/level_estimator.cpp
@@ -22,7 +22,7 @@ LevelEstimator::LevelEstimator(const NavigationSettings& navProps)
  */
 LevelId LevelEstimator::calculateLevel(
   const RadioMeasurementsData& radioMsr,
-  const SensorMeasurement& sensorMsr)
+  const boost::optional<SensorMeasurement>& sensorMsr)
 {
   LevelId detectedLevelId = detectCurrentLevel(radioMsr);
   LevelId levelIdWithHistory = mHistory.detectLevelUsingHistory(detectedLevelId);
diff --git a/src/level_estimator/level_estimator.h b/src/level_estimator/level_estimator.h
index 2be6fac..40dedea 100644
--- a/src/level_estimator/level_estimator.h
+++ b/src/level_estimator/level_estimator.h
@@ -11,6 +11,8 @@
 #include <navigine/navigation-core/navigation_settings.h>
 #include <navigine/navigation-core/level_collector.h>
 
+#include <boost/optional.hpp>
+
 #include "level_history.h"
 #include "barometer.h"
 
@@ -26,7 +28,7 @@ class LevelEstimator
     virtual ~LevelEstimator() {}
     LevelId calculateLevel(
       const RadioMeasurementsData& radioMsr,
-      const SensorMeasurement& sensorMsr);
+      const boost::optional<SensorMeasurement>& sensorMsr);
 
   protected:
     virtual LevelId detectCurrentLevel(const RadioMeasurementsData& radioMsr) = 0;
diff --git a/src/measurements/measurement_preprocessor.cpp b/src/measurements/measurement_preprocessor.cpp
index 1129dc1..d03c5cc 100644
--- a/src/measurements/measurement_preprocessor.cpp
+++ b/src/measurements/measurement_preprocessor.cpp
@@ -92,6 +92,7 @@ MeasurementsPreprocessor::MeasurementsPreprocessor(
 void MeasurementsPreprocessor::updateMeasurements(const Measurement& navMsg)
 {
   mCurrentTs = navMsg.ts;
+  mSensor = boost::none;
   boost::apply_visitor(*this, navMsg.data);
 }
 
@@ -111,8 +112,7 @@ void MeasurementsPreprocessor::operator()(const RadioMeasurementData& measuremen
 
 void MeasurementsPreprocessor::operator()(const SensorMeasurementData& measurement)
 {
-  mSensor.data = measurement;
-  mSensor.ts = mCurrentTs;
+  mSensor = SensorMeasurement{measurement, mCurrentTs};
 }
 
 void MeasurementsPreprocessor::operator()(const NmeaMeasurementData& measurement)
@@ -337,7 +337,7 @@ RadioMeasurementsData RadioMeasurementBuffer::extractMeasurements(long long last
   return measurements;
 }
 
-SensorMeasurement MeasurementsPreprocessor::getValidSensor() const
+boost::optional<SensorMeasurement> MeasurementsPreprocessor::getValidSensor() const
 {
   return mSensor;
 }
diff --git a/src/measurements/measurement_preprocessor.h b/src/measurements/measurement_preprocessor.h
index bdb58f6..71786c0 100644
--- a/src/measurements/measurement_preprocessor.h
+++ b/src/measurements/measurement_preprocessor.h
@@ -57,7 +57,7 @@ class MeasurementsPreprocessor: public boost::static_visitor<>
     long long getCurrentTs() const;
     long long getLastSignalTs() const;
     RadioMeasurementsData extractRadioMeasurements(long long lastStepTime);
-    SensorMeasurement getValidSensor() const;
+    boost::optional<SensorMeasurement> getValidSensor() const;
     NmeaMeasurement getCurrentNmea() const;
 
     void operator()(const RadioMeasurementData& measurement);
@@ -88,7 +88,7 @@ class MeasurementsPreprocessor: public boost::static_visitor<>
     RadioMeasurementBuffer mRadiosBuffer;
     long long mCurrentTs;
 
-    SensorMeasurement mSensor;
+    boost::optional<SensorMeasurement> mSensor; // sensor sample of the current message, if it carries one
     NmeaMeasurement mNmea;
 };
 
diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index aee6263..6c9389e 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -55,7 +55,7 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
     mMsrPreprocessor->updateMeasurements(navInput);
     const long long curTs = mMsrPreprocessor->getCurrentTs();
     const long long lastSignalTs = mMsrPreprocessor->getLastSignalTs();
-    const SensorMeasurement sensorMsr = mMsrPreprocessor->getValidSensor();
+    const boost::optional<SensorMeasurement> sensorMsr = mMsrPreprocessor->getValidSensor();
     const NmeaMeasurement nmeaMsr = mMsrPreprocessor->getCurrentNmea();
     MotionInfo motionInfo = mSensorFusion->calculateDisplacement(sensorMsr, curTs);
     const auto radioMsr = mMsrPreprocessor->extractRadioMeasurements(motionInfo.lastMotionTs);
diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index aba6627..385b9ff 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -61,14 +61,14 @@ PositionEstimatorOutdoor::PositionEstimatorOutdoor(
   , mMaxGpsDeviation(navProps.commonSettings.maxGpsDeviation)
 { }
 
-GpsPosition PositionEstimatorOutdoor::extractGpsPosition(long long ts, const SensorMeasurement& sensorMsr)
+GpsPosition PositionEstimatorOutdoor::extractGpsPosition(long long ts, const boost::optional<SensorMeasurement>& sensorMsr)
 {
 
-  if (sensorMsr.data.type == SensorMeasurementData::Type::LOCATION)
+  if (sensorMsr.is_initialized() && sensorMsr->data.type == SensorMeasurementData::Type::LOCATION)
   {
-    double lat = sensorMsr.data.values.x;
-    double lng = sensorMsr.data.values.y;
-    double dev = std::max(sensorMsr.data.values.z, mMinGpsDeviation);
+    double lat = sensorMsr->data.values.x;
+    double lng = sensorMsr->data.values.y;
+    double dev = std::max(sensorMsr->data.values.z, mMinGpsDeviation);
     GpsPosition pos = GpsPosition(lat, lng, dev, ts);
     return pos;
   }
@@ -89,7 +89,7 @@ int PositionEstimatorOutdoor::extractNumberOfSatellites(const NmeaMeasurement& n
 
 Position PositionEstimatorOutdoor::calculatePosition(
   long long ts,
-  const SensorMeasurement& sensorEntry,
+  const boost::optional<SensorMeasurement>& sensorEntry,
   const NmeaMeasurement& nmeaEntry,
   const bool flagIndoorPos)
 {
diff --git a/src/position_estimator/position_estimator_outdoor.h b/src/position_estimator/position_estimator_outdoor.h
index 3461cb7..c23980b 100644
--- a/src/position_estimator/position_estimator_outdoor.h
+++ b/src/position_estimator/position_estimator_outdoor.h
@@ -12,6 +12,7 @@
 #include <navigine/navigation-core/navigation_settings.h>
 #include <navigine/navigation-core/level_collector.h>
 #include <deque>
+#include <boost/optional.hpp>
 
 #include "../position.h"
 #include "../measurement_types.h"
@@ -71,12 +72,12 @@ public:
 
   Position calculatePosition(
     long long ts,
-    const SensorMeasurement& sensorMsr,
+    const boost::optional<SensorMeasurement>& sensorMsr,
     const NmeaMeasurement& nmeaMsr,
     const bool flagIndoorPos);
 
   private:
-    GpsPosition extractGpsPosition(long long ts, const SensorMeasurement& sensorEntry);
+    GpsPosition extractGpsPosition(long long ts, const boost::optional<SensorMeasurement>& sensorEntry);
     int extractNumberOfSatellites(const NmeaMeasurement& nmeaEntry);
     Position mLastGpsPosition;
 
diff --git a/src/sensor_fusion/sensor_fusion.cpp b/src/sensor_fusion/sensor_fusion.cpp
index a419761..a879ddd 100644
--- a/src/sensor_fusion/sensor_fusion.cpp
+++ b/src/sensor_fusion/sensor_fusion.cpp
@@ -14,12 +14,16 @@ SensorFusion::SensorFusion(const NavigationSettings& navProps)
 {
 }
 
-MotionInfo SensorFusion::calculateDisplacement(const SensorMeasurement& msr, long long tsMs)
+MotionInfo SensorFusion::calculateDisplacement(const boost::optional<SensorMeasurement>& msr, long long tsMs)
 {
-  mPedometer.update(msr);
-  std::deque<Step> steps = mPedometer.calculateSteps();
-  
-  mComplFilter.update(msr);
+  std::deque<Step> steps;
+  if (msr.is_initialized())
+  {
+    mPedometer.update(msr.get());
+    steps = mPedometer.calculateSteps();
+
+    mComplFilter.update(msr.get());
+  }
 
   MotionInfo motionInfo;
   motionInfo.heading = -mComplFilter.getFusedAzimuth(); // the counter-clockwise rotation needed
diff --git a/src/sensor_fusion/sensor_fusion.h b/src/sensor_fusion/sensor_fusion.h
index 9cc56b2..1ee8620 100644
--- a/src/sensor_fusion/sensor_fusion.h
+++ b/src/sensor_fusion/sensor_fusion.h
@@ -12,6 +12,7 @@
 #include <navigine/navigation-core/navigation_settings.h>
 
 #include <vector>
+#include <boost/optional.hpp>
 
 #include "complementary_filter.h"
 #include "pedometer.h"
@@ -23,7 +24,7 @@ class SensorFusion
 {
 public:
   SensorFusion(const NavigationSettings& navProps);
-  MotionInfo calculateDisplacement(const SensorMeasurement& msr, long long tsMs);
+  MotionInfo calculateDisplacement(const boost::optional<SensorMeasurement>& msr, long long tsMs);
 
 private:
   const bool mUseCalcAzimuth;
-- 
2.43.0


From 2b978dfdfe0503940d00713fa3666b99eba4ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 02/24] fix: initialise the last signal time and the satellite
 data

They were read before the first signal / NMEA message arrived.
---
 src/measurements/measurement_preprocessor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/measurements/measurement_preprocessor.cpp b/src/measurements/measurement_preprocessor.cpp
index d03c5cc..a601532 100644
--- a/src/measurements/measurement_preprocessor.cpp
+++ b/src/measurements/measurement_preprocessor.cpp
@@ -85,8 +85,10 @@ MeasurementsPreprocessor::MeasurementsPreprocessor(
   , mUseWifi(checkUseWifi(navProps))
   , mUseBle(checkUseBle(navProps))
   , mIsTracking(navProps.commonSettings.useTracking)
+  , mLastSignalTs(0)
   , mRadiosBuffer(createRadioMeasurementBuffer(navProps))
   , mCurrentTs(0)
+  , mNmea()
 { }
 
 void MeasurementsPreprocessor::updateMeasurements(const Measurement& navMsg)
-- 
2.43.0


From a4137010f6ed09146147bae05b69553aed7669cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 03/24] fix: initialise navigation outputs and states

An output without a position carried an indeterminate provider, radius and
orientation, and states an indeterminate heading.
---
 include/navigine/navigation-core/navigation_output.h | 8 ++++----
 include/navigine/navigation-core/navigation_state.h  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/navigine/navigation-core/navigation_output.h b/include/navigine/navigation-core/navigation_output.h
index 17edabe..462eac1 100644
--- a/include/navigine/navigation-core/navigation_output.h
+++ b/include/navigine/navigation-core/navigation_output.h
@@ -24,15 +24,15 @@ enum class Provider { GNSS, INDOOR, FUSED, NONE };
 
 struct NavigationOutput
 {
-  NavigationStatus status;
+  NavigationStatus status = NAVIGATION_ERROR;
 
   LevelId posLevel;       // Level identifier
   double posLatitude = 0.0;
   double posLongitude = 0.0;
   double posAltitude = 0.0;
-  double posR;           // Output radius (meters)
-  double posOrientation; // Output orientation in radians (clockwise)
-  Provider provider;
+  double posR = 0.0;     // Output radius (meters)
+  double posOrientation = 0.0; // Output orientation in radians (clockwise)
+  Provider provider = Provider::NONE;
 };
 
 } } // namespace navigine::navigation_core
diff --git a/include/navigine/navigation-core/navigation_state.h b/include/navigine/navigation-core/navigation_state.h
index ab90ba2..b12a31a 100644
--- a/include/navigine/navigation-core/navigation_state.h
+++ b/include/navigine/navigation-core/navigation_state.h
@@ -60,9 +60,9 @@ class NavigationState
     RadioMeasurementsData        mMeasurements;
     std::vector<XYParticle>  mLikelihoodMapPoints;
     std::vector<double>      mLikelihoodMapWeights;
-    double                   mHeading;
-    double                   mStepLen;
-    int                      mStepCounter;
+    double                   mHeading = 0.0;
+    double                   mStepLen = 0.0;
+    int                      mStepCounter = 0;
     XYPoint                  mIndoorPosition;
     XYPoint                  mOutdoorPosition;
 };
-- 
2.43.0


From eb537429c19369c935c4db3317600df5478987ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 04/24] fix: average the K heaviest reference points

partial_sort_copy copied into an empty range (reserve does not resize), so the
result was always (0, 0).
---
 src/knn/knn_utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 1c40fc6..bd677ec 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -354,8 +354,7 @@ XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
                                      size_t k)
 {
   k = std::min(k, rpToWeight.size());
-  std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints;
-  kHeaviestPoints.reserve(k);
+  std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints(k, {ReferencePointId(""), 0.0});
   std::partial_sort_copy(
       rpToWeight.begin(), rpToWeight.end(),
       kHeaviestPoints.begin(), kHeaviestPoints.end(),
-- 
2.43.0


From f522513c47630ee5bbd9c73020cbb98121c02111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 05/24] fix: report step count and last motion time in every
 message

Both were set only in the message a step was detected in and were zero
otherwise, so the step counter dropped to 0 between steps and
No_action_time_threshold never had an effect.
---
 src/sensor_fusion/sensor_fusion.cpp | 5 +++--
 src/sensor_fusion/sensor_fusion.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sensor_fusion/sensor_fusion.cpp b/src/sensor_fusion/sensor_fusion.cpp
index a879ddd..12ae688 100644
--- a/src/sensor_fusion/sensor_fusion.cpp
+++ b/src/sensor_fusion/sensor_fusion.cpp
@@ -48,10 +48,11 @@ MotionInfo SensorFusion::calculateDisplacement(const boost::optional<SensorMeasu
     motionInfo.distance     = std::accumulate(steps.begin(), steps.end(), 0.0,
                                 [](double sum, const Step& s) { return sum + s.len; });
     motionInfo.distance    *= mStepMultiplier;
-    motionInfo.lastMotionTs = tsMs;
+    mLastMotionTs           = tsMs;
     mStepCounter           += steps.size();
-    motionInfo.stepCounter  = mStepCounter;
   }
+  motionInfo.lastMotionTs = mLastMotionTs;
+  motionInfo.stepCounter  = mStepCounter;
 
   return motionInfo;
 }
diff --git a/src/sensor_fusion/sensor_fusion.h b/src/sensor_fusion/sensor_fusion.h
index 1ee8620..6bde96a 100644
--- a/src/sensor_fusion/sensor_fusion.h
+++ b/src/sensor_fusion/sensor_fusion.h
@@ -32,6 +32,7 @@ private:
   ComplementaryFilter mComplFilter;
   Pedometer mPedometer;
   int mStepCounter = 0;
+  long long mLastMotionTs = 0;
   double mPrevHeading = 0.0;
 };
 
-- 
2.43.0


From 5b5ea777141e44f3bf400492fa663c6270aa1f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 06/24] fix: do not report an expired position once the level
 is lost

With no level and no GPS position the last position was kept and reported with
status OK for ever; it is now dropped after the dead reckoning time, as it is
while the level is known.
---
 src/navigation_client_impl.cpp | 3 +++
 src/navigation_client_impl.h   | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index 6c9389e..230866f 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -17,6 +17,7 @@ NavigationClientImpl::NavigationClientImpl(
   : mUseEnuAzimuth(navProps.commonSettings.useEnuAzimuth)
   , mNoSignalTimeThreshold((long long)(1000 * navProps.commonSettings.noSignalTimeThreshold))
   , mNoActionTimeThreshold((long long)(1000 * navProps.commonSettings.noActionTimeThreshold))
+  , mDeadReckonTimeMs((long long)(1000 * navProps.commonSettings.deadReckoningTime))
   , mLevelIndex(levelCollector)
   , mLevelEstimator(createLevelEstimator(levelCollector, navProps))
   , mPositionEstimatorIndoor(createPostitionEstimator(levelCollector, navProps))
@@ -115,6 +116,8 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
     else
     {
       retStatus = NavigationStatus::NO_LEVEL;
+      if (curTs - mPosition.ts >= mDeadReckonTimeMs)
+        mPosition = Position(); // last known position is too old
     }
 
     // Filling navigationSate for Debug
diff --git a/src/navigation_client_impl.h b/src/navigation_client_impl.h
index 7f79324..c4b3276 100644
--- a/src/navigation_client_impl.h
+++ b/src/navigation_client_impl.h
@@ -46,6 +46,7 @@ class NavigationClientImpl : public NavigationClient
     const bool mUseEnuAzimuth;
     const long long mNoSignalTimeThreshold;
     const long long mNoActionTimeThreshold;
+    const long long mDeadReckonTimeMs;
     std::shared_ptr<LevelCollector> mLevelIndex;
     std::unique_ptr<LevelEstimator> mLevelEstimator;
     std::unique_ptr<PositionEstimator> mPositionEstimatorIndoor;
-- 
2.43.0


From ba03794bddb1938860d27d4f5c569277a375f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 07/24] fix: apply the ENU convention to every reported
 orientation

Positions reported without a radio level (GPS only, or held) ignored
Use_enu_azimuth.
---
 src/navigation_client_impl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index 230866f..bf009a0 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -105,9 +105,6 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       if (!motionInfo.isAzimuthValid) {
         motionInfo.azimuth = - (fusedPos.heading - M_PI_2); // convert from ENU to NED
       }
-
-      if (mUseEnuAzimuth)
-        motionInfo.azimuth = -motionInfo.azimuth + M_PI_2; // convert from NED to ENU
     }
     else if (!outdoorPos.isEmpty)
     {
@@ -120,6 +117,9 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
         mPosition = Position(); // last known position is too old
     }
 
+    if (mUseEnuAzimuth)
+      motionInfo.azimuth = -motionInfo.azimuth + M_PI_2; // convert from NED to ENU
+
     // Filling navigationSate for Debug
     auto navigationState = mPositionEstimatorIndoor->getParticleFilterState();
     navigationState.setStepCounter(motionInfo.stepCounter);
-- 
2.43.0


From 47771c8b9b1a2688ba5f4e05c1a345a2d110fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 08/24] fix: reject GPS fixes less accurate than the accepted
 maximum

Maximum_to_accept_gps_measurement only cleared the sigma filter buffer, so
without the sigma filter such fixes were accepted.
---
 src/position_estimator/position_estimator_outdoor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index 385b9ff..1de2bb9 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -110,6 +110,9 @@ Position PositionEstimatorOutdoor::calculatePosition(
         return mLastGpsPosition;
   }
 
+  if (gpsPos.deviation > mMaxGpsDeviation)
+    return Position(); // fix is not accurate enough
+
   //TODO find map closest to previous position (at least check if inside)!!!!
   for (const Level& level: mLevelIndex->levels())
   {
-- 
2.43.0


From c527f6f917cbd350c8423c09307dc083f4cc8da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 09/24] fix: report the radius of the position that is output

GNSS and fused positions were output with the radius of the last indoor
position, or 0 if there was none.
---
 src/position_postprocessor/position_postprocessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 0fc7a76..3f2da22 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -209,7 +209,8 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   {
     mLastOutPosition = result;
     mLastOutPosition.ts = ts;
-    mLastOutPosition.deviationM = mIndoorPos.deviationM;
+    if (result.provider == Provider::INDOOR)
+      mLastOutPosition.deviationM = mIndoorPos.deviationM;
   }
 
 
-- 
2.43.0


From e73be4c4b111a1d07e7cc2e00105bb99819971a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 10/24] fix: a level that cannot be triangulated does not
 disable the others

---
 src/knn/knn_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index bd677ec..8d9dedb 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -55,7 +55,7 @@ std::map<LevelId, std::vector<RefPointsTriangle>> triangulate(const std::shared_
       if (triangles.empty())
       {
         // triangulation failed!
-        return levelTriangles;
+        continue;
       }
 #ifdef DEBUG_OUTPUT_TRIANGULATION
       std::ofstream debugOs;
-- 
2.43.0


From f83badc488d8f2538f7a794a8fc7860519c2d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 11/24] fix: keep one point per time in the least squares
 smoother

Two different positions with one timestamp (fused GPS) made the system
singular: the smoothed position became arbitrary or NaN, and NaN stayed in
mLastOutput for ever.
---
 src/position_postprocessor/polynomial_fit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index c65eb33..3349562 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -24,7 +24,8 @@ void PolynomialFit::addSequencePoint(double x, double y)
     if (mY.empty())
         mCoeff.assign(mPower + 1, 0.);
 
-    if (mY.empty() || mY.back() != y)
+    // points must have different times, otherwise the least squares system is singular
+    if (mY.empty() || (mY.back() != y && mX.back() != x))
     {
         mY.push_back(y);
         mX.push_back(x);
-- 
2.43.0


From d0303b151bed4cfdcae8554f76ac05a66fa86bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 12/24] fix: accept the first position while standing still

The distance of the first position was measured from the origin of the level,
so nothing was reported while standing more than the threshold away from it.
---
 src/position_postprocessor/position_postprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 3f2da22..4f60a20 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -189,7 +189,7 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   //TODO be very carefull when use stops and gps simultaneously
   bool lastStepWasTooLongAgo = (mLastStepTs > 0) && (ts - mLastStepTs >= mStopDetectionTimeMs);
   double dist = GetDist(mLastOutPosition.x, mLastOutPosition.y, result.x, result.y);
-  bool newPositionIsNotTooFar = dist < mStopsDistThresholdM;
+  bool newPositionIsNotTooFar = mLastOutPosition.isEmpty || dist < mStopsDistThresholdM;
 
   mLastOutPosition.ts = ts;
   if (mUseStops && lastStepWasTooLongAgo)
-- 
2.43.0


From bcf98d0272d14601e636e6ed0cda16d186a0e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 13/24] fix: KNN reports no solution when no reference point
 has a weight

It reported the origin of the level as a valid position.
---
 .../position_estimator_knn.cpp                | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/position_estimator/position_estimator_knn.cpp b/src/position_estimator/position_estimator_knn.cpp
index d60a956..687bf76 100644
--- a/src/position_estimator/position_estimator_knn.cpp
+++ b/src/position_estimator/position_estimator_knn.cpp
@@ -69,6 +69,13 @@ Position PositionEstimatorKnn::calculatePosition(
   debugRefPointWeights = weights;
 #endif
 
+  if (rpToWeight.empty())
+  {
+    // no reference point shares enough transmitters with the measurements
+    retStatus = NavigationStatus::NO_SOLUTION;
+    return mPosition;
+  }
+
   XYPoint p = XYPoint(0.0, 0.0);
   if (mUseTriangles)
   {
@@ -85,6 +92,18 @@ Position PositionEstimatorKnn::calculatePosition(
       retStatus = NavigationStatus::NO_RPS;
       return mPosition;
     }
+
+    const bool hasWeightedTriangle = std::any_of(triangles.begin(), triangles.end(),
+      [&rpToWeight](const RefPointsTriangle& t)
+      {
+        return rpToWeight.count(t.rp1) + rpToWeight.count(t.rp2) + rpToWeight.count(t.rp3) > 0;
+      });
+
+    if (!hasWeightedTriangle)
+    {
+      retStatus = NavigationStatus::NO_SOLUTION;
+      return mPosition;
+    }
     p = calcPositionInTriangle(triangles, refPointsMap, rpToWeight);
   }
   else
-- 
2.43.0


From 0ddfa82b42d92ab54d3709f2a711459e192efa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 14/24] fix: trilateration averages the distances of one
 beacon, not only its RSSI

deleteDuplicateMeasurements computed the mean distance of the duplicates and
dropped it, so the position depended on which duplicate happened to stay.
---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index e6d2ede..83f8d8a 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -264,6 +264,7 @@ int Trilateration::deleteDuplicateMeasurements( vector<BeaconMeas>& beaconMeas )
     distance /= (std::max)(nOfMeasFromSameAp, 1);
      
     itBeaconMeas->setRssi( rssi );
+    itBeaconMeas->setDistance( distance );
   }
 
   if (beaconMeas.size() < 3)
-- 
2.43.0


From 8f08bdfcfe06794dc3cf74a4f255818ac97d3c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 15/24] fix: trilateration does not add the previous
 coordinates to the new ones

mXY was accumulated into and never reset, so every position after the first
one of a Trilateration object was the sum of all positions so far.
---
 .../trilateteration/src/trilateration.cpp                  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 83f8d8a..171ff88 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -179,6 +179,7 @@ int Trilateration::calculateTrilaterationCoordinates()
     normalizeCoefficient += 1.0 / fabs( mBeaconMeas[ i ].getDistance() );
 
   vector <double> weight( mBeaconMeas.size(), 0.0 );
+  vector <double> xy( 2, 0.0 );
 
   for (unsigned int i = 0; i < mBeaconMeas.size(); i++)
   {
@@ -197,9 +198,11 @@ int Trilateration::calculateTrilaterationCoordinates()
     beaconY = mBeaconMeas[ i ].getBeaconPtr()->getY();
 
     //find final coordinates according to probability
-    mXY[ 0 ] += weight[ i ] * beaconX;
-    mXY[ 1 ] += weight[ i ] * beaconY;
+    xy[ 0 ] += weight[ i ] * beaconX;
+    xy[ 1 ] += weight[ i ] * beaconY;
   }
+
+  mXY = xy;
   return 0;
 }
 
-- 
2.43.0


From a99ec21b9e32da49d5ed94f210b191b5724794b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 16/24] fix: trilateration gives finite coordinates at distance
 zero

A measured distance of zero divided by zero and made both coordinates NaN; such
a beacon now gets practically all the weight.
---
 .../trilateteration/src/trilateration.cpp                 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 171ff88..6ba8346 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -15,6 +15,8 @@
 
 using namespace std;
 
+// distances below this one (in metres) would only make the weights overflow
+static const double MIN_DISTANCE = 1e-6;
 
 
 Trilateration::Trilateration()
@@ -176,7 +178,7 @@ int Trilateration::calculateTrilaterationCoordinates()
   double normalizeCoefficient = 0.0;
   //take revert values, because lower is the distance, greater the weight gets
   for (unsigned int i = 0; i < mBeaconMeas.size(); i++)
-    normalizeCoefficient += 1.0 / fabs( mBeaconMeas[ i ].getDistance() );
+    normalizeCoefficient += 1.0 / (std::max)( MIN_DISTANCE, fabs( mBeaconMeas[ i ].getDistance() ) );
 
   vector <double> weight( mBeaconMeas.size(), 0.0 );
   vector <double> xy( 2, 0.0 );
@@ -190,8 +192,8 @@ int Trilateration::calculateTrilaterationCoordinates()
       return ERROR_IN_TRILATER;
     }
     // calculate probability of being at beacons x,y coordinates
-    weight[ i ] += 1.0 / (fabs( mBeaconMeas[ i ].getDistance() *
-      normalizeCoefficient ));
+    weight[ i ] += 1.0 / ((std::max)( MIN_DISTANCE, fabs( mBeaconMeas[ i ].getDistance() ) ) *
+      normalizeCoefficient);
 
     double beaconX = 0, beaconY = 0.;
     beaconX = mBeaconMeas[ i ].getBeaconPtr()->getX();
-- 
2.43.0


From 8f18bb6d5acd4bfd16d44fb9e636095d7cd48554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 17/24] fix: a repeated trilateration of the same measurements
 gives the same result

calculateCoordinates removed duplicates and unknown beacons from the stored
measurements themselves, so calculating again (or after setting another map)
worked on what was left and could fail.
---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 6 +++++-
 standalone_algorithms/trilateteration/src/trilateration.h   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 6ba8346..4752093 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -27,6 +27,7 @@ Trilateration::Trilateration()
 
 Trilateration::Trilateration( const Trilateration& trilat )
   : mLocationBeacons( trilat.mLocationBeacons )
+  , mInputMeas      ( trilat.mInputMeas )
   , mBeaconMeas     ( trilat.mBeaconMeas )
   , mXY             ( trilat.mXY )
   , mCurLocationId  ( trilat.mCurLocationId )
@@ -44,7 +45,7 @@ Trilateration::~Trilateration()
 
 void Trilateration::updateMeasurements( std::vector < BeaconMeas >& beaconMeas )
 {
-  Trilateration::mBeaconMeas = beaconMeas;
+  Trilateration::mInputMeas = beaconMeas;
 }
 
 
@@ -56,6 +57,9 @@ void Trilateration::fillLocationBeacons( std::vector <Beacon>& beaconsOnFloor )
 
 int Trilateration::calculateCoordinates()
 {
+  // the measurements themselves stay as they were given
+  mBeaconMeas = mInputMeas;
+
   int errorCode = deleteDuplicateMeasurements( Trilateration::mBeaconMeas );
 
   if (errorCode)
diff --git a/standalone_algorithms/trilateteration/src/trilateration.h b/standalone_algorithms/trilateteration/src/trilateration.h
index 1cd986e..516b10b 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.h
+++ b/standalone_algorithms/trilateteration/src/trilateration.h
@@ -62,7 +62,8 @@ class Trilateration
   private:
 
     std::vector <Beacon>     mLocationBeacons;      //set of beacons at the current location
-    std::vector <BeaconMeas> mBeaconMeas;           //set of beacon measurements
+    std::vector <BeaconMeas> mInputMeas;            //set of beacon measurements as they were given
+    std::vector <BeaconMeas> mBeaconMeas;           //working set of beacon measurements
     std::vector <double>     mXY;                   //desired X,Y coordinates
     int                      mCurLocationId;        //id of location
     
-- 
2.43.0


From 433896e292e7f4478c651c39bd9f08ba8dfe95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 18/24] fix: the trilateration error message is the one of the
 last error

setErrorMessage appended to the messages of all earlier errors.
---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 4752093..01f16cc 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -413,7 +413,7 @@ void Trilateration::solveLinearSystem( vector<double> matrixA,
 
 void Trilateration::setErrorMessage(const char* errorMsg )
 {
-  Trilateration::mErrorMessage += errorMsg;
+  Trilateration::mErrorMessage = errorMsg;
 }
 
 
-- 
2.43.0


From 32c939e9e16adf6e2feb6e1ef9aa79364688101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 19/24] fix: messages of type 204 are read as Eddystone, not as
 WIFI

---
 tools/verification/helpers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 73ebe23..2a8da4b 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -22,6 +22,7 @@ NLOHMANN_JSON_SERIALIZE_ENUM(navigine::navigation_core::RadioMeasurementData::Ty
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI, 201},
   {navigine::navigation_core::RadioMeasurementData::Type::BEACON, 203},
   {navigine::navigation_core::RadioMeasurementData::Type::BLUETOOTH, 202},
+  {navigine::navigation_core::RadioMeasurementData::Type::EDDYSTONE, 204},
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI_RTT, 205}
 })
 
-- 
2.43.0


From cfc9d4a5264ceacec8785ba24225bd317a545a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 20/24] fix: the documented power and stddev of a radio message
 are read

---
 tools/verification/helpers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 2a8da4b..62c830a 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -86,6 +86,12 @@ static void from_json(const nlohmann::json& j, RadioMeasurementData& radioMsr)
 
   if (j.count("distance"))
     j.at("distance").get_to(radioMsr.distance);
+
+  if (j.count("power"))
+    j.at("power").get_to(radioMsr.power);
+
+  if (j.count("stddev"))
+    j.at("stddev").get_to(radioMsr.stddev);
 }
 
 static void from_json(const nlohmann::json& j, NmeaMeasurementData& nmeaMsr)
-- 
2.43.0


From 2a4d266a32703e665699370da248c82326df69ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 21/24] fix: the setting Use_altitude is read

---
 tools/verification/helpers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 62c830a..561143f 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -231,6 +231,8 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
       else if (key == "Use_ab_filter")
         j.at(key).get_to(commonSettings.useAbFilter);
 
+      else if (key == "Use_altitude")
+        j.at(key).get_to(commonSettings.useAltitude);
       else if (key == "Use_gps")
         j.at(key).get_to(commonSettings.useGps);
       else if (key == "Use_instant_gps_position")
-- 
2.43.0


From d06f0fd50cee2ad0e2bcbd96720ae319db4de11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 22/24] fix: every point of the walk graph of a map is one
 vertex

---
 tools/verification/helpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 561143f..2a4c75e 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -445,7 +445,8 @@ std::pair<LevelId, Graph<GeoPoint>> parseGraph(const nlohmann::json& j)
     int v1 = it.first;
     std::set<int> adjacentVertexes = it.second;
     GeoPoint p1 = vertexMap[v1];
-    Graph<GeoPoint>::Vertex vertex1 = graph.addVertex(p1);
+    auto added = addedVertices.find(v1);
+    Graph<GeoPoint>::Vertex vertex1 = added == addedVertices.end() ? graph.addVertex(p1) : added->second;
     addedVertices.insert({v1, vertex1});
     for (int v2: adjacentVertexes)
     {
-- 
2.43.0


From e0115c143a6c2259fad4f52beeba80cc95a4bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 23/24] fix: the altitude uses the horizontal distance to each
 transmitter

The parentheses put the square of the second coordinate difference into
the exponent of the first one.
---
 src/trilateration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trilateration.cpp b/src/trilateration.cpp
index f55ee26..5bff23c 100644
--- a/src/trilateration.cpp
+++ b/src/trilateration.cpp
@@ -104,7 +104,7 @@ boost::optional<double> Trilateration::calculateAltitude(const Level& level, con
     for (const auto& msr : radioMsrs)
     {
       Transmitter<XYZPoint> tx = level.transmitter(msr.id);
-      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2 - pow((y - tx.point.y), 2)));
+      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2) - pow((y - tx.point.y), 2));
       if (!std::isnan(deltaZ))
       {
         nanFlag = false;
-- 
2.43.0


From c13cdba7972de58a28e0df2aec064be5488f049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 24/24] fix: a level across the 180th meridian keeps its frame

---
 src/level_collector.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/level_collector.cpp b/src/level_collector.cpp
index 9bb5431..9faac2b 100644
--- a/src/level_collector.cpp
+++ b/src/level_collector.cpp
@@ -6,6 +6,8 @@
 
 #include <navigine/navigation-core/level_collector.h>
 
+#include <algorithm>
+
 namespace navigine {
 namespace navigation_core {
 
@@ -67,6 +69,29 @@ Polygon getPolygonInLocalCoordinates(
   return result;
 }
 
+// The box of a level that lies across the 180th meridian extends eastwards from
+// the eastern hemisphere into the western one (its longitudes exceed 180).
+Box getGeoBox(const LevelGeometry& geometry)
+{
+  const Box& box = geometry.boundingBox();
+  if (box.max_corner().y() - box.min_corner().y() <= 180.0)
+    return box;
+
+  double west = box.max_corner().y();
+  double east = box.min_corner().y();
+  for (const auto& polygon : geometry.allowedArea())
+  {
+    for (const auto& p : polygon.outer())
+    {
+      if (p.y() > 0.0)
+        west = std::min(west, p.y());
+      else
+        east = std::max(east, p.y());
+    }
+  }
+  return Box(Point(box.min_corner().x(), west), Point(box.max_corner().x(), east + 360.0));
+}
+
 Box getBBoxInLocalCoordinates(const GeoPoint& binding, const Box& geoBox)
 {
   XYPoint pmin = gpsToLocal(GeoPoint(geoBox.min_corner().x(), geoBox.min_corner().y()), binding);
@@ -85,7 +110,7 @@ LevelGeometry getGeometryInLocalCoordinates(
   }
   boost::geometry::correct(localArea);
 
-  Box localBox = getBBoxInLocalCoordinates(binding, geolevelGeometry.boundingBox());
+  Box localBox = getBBoxInLocalCoordinates(binding, getGeoBox(geolevelGeometry));
   boost::geometry::correct(localBox);
 
   return LevelGeometry{localArea, localBox};
@@ -153,7 +178,7 @@ const Level& LevelCollector::level(const LevelId& levelId) const
 
 GeoPoint getBinding(const GeoLevel& geoLevel)
 {
-  auto geoBox = geoLevel.geometry.boundingBox();
+  auto geoBox = getGeoBox(geoLevel.geometry);
   boost::geometry::correct(geoBox);
   double minLatitude = geoBox.min_corner().x();
   double minLongitude = geoBox.min_corner().y();
-- 
2.43.0

