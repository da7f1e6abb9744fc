From 636b6d5e94b49242f60c77108661095cedfcf48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 01/88] fix: finiteTimeAccControl has the wrong sign and is
 undefined at the equilibrium

With the documented negative gains the acceleration drove the state away from
the surface xd = kp sgn(x) sqrt|x|, and x = xd = 0 gave 0/0.
---
 .../state-observation/tools/miscellaneous-algorithms.hpp  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 809bbd7..078ab6e 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -151,8 +151,12 @@ inline double STATE_OBSERVATION_DLLAPI finiteTimeAccControl(double x, double xd,
   double sax = sqrt(fabs(x));
   double xdr = kp * signum(x) * sax;
   double y = xd - xdr;
-  double ydr = -kv * signum(y) * sqrt(fabs(y));
-  return ydr - kp * xd / (2 * sax);
+  double ydr = kv * signum(y) * sqrt(fabs(y));
+  if(sax == 0)
+  {
+    return ydr;
+  }
+  return ydr + kp * xd / (2 * sax);
 }
 
 /// sqme as the scalar version but for every member of the vector
-- 
2.43.0


From 2b3f8f87d4e126872af9336fe0e5409d7896b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 02/88] fix: vector finiteTimeAccControl skips the first
 component

---
 include/state-observation/tools/miscellaneous-algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 078ab6e..d05f78e 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -166,7 +166,7 @@ inline Vector STATE_OBSERVATION_DLLAPI finiteTimeAccControl(const Vector & x,
                                                             double kv = -1)
 {
   Vector xdd(x.size());
-  for(Index i = 1; i < x.size(); ++i)
+  for(Index i = 0; i < x.size(); ++i)
   {
     xdd(i) = finiteTimeAccControl(x(i), xd(i), kp, kv);
   }
-- 
2.43.0


From 0ebd2ad092987bd358cef9bd2d791a97045c5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:33 +0000
Subject: [PATCH 03/88] fix: setLastIndex of indexed arrays shifts the array by
 two

---
 include/state-observation/tools/definitions.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 6933f0e..37a1d89 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -355,7 +355,7 @@ inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::getFirstIndex()cons
 template <typename MatrixType, typename Allocator>
 inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(int index)
 {
-  return k_=index-(v_.size()+1);
+  return k_=index-TimeIndex(v_.size())+1;
 }
 
 template <typename MatrixType, typename Allocator>
-- 
2.43.0


From 131fad19a799732363dab72473548fefd5ce8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 04/88] fix: truncateBefore drops the element at the given time
 or relabels the array

---
 include/state-observation/tools/definitions.hxx | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 37a1d89..0d28427 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -474,21 +474,9 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::truncateAfter(TimeIndex time)
 template <typename MatrixType, typename Allocator>
 void IndexedMatrixArrayT<MatrixType, Allocator>::truncateBefore(TimeIndex time)
 {
-  if (v_.size()>0)
+  while (v_.size()>0 && getFirstIndex()<time)
   {
-    if (time < getLastIndex())
-    {
-      for (TimeIndex i=getFirstIndex(); i<time ; ++i)
-      {
-        v_.pop_front();
-      }
-
-      setFirstIndex(time);
-    }
-    else
-    {
-      v_.clear();
-    }
+    popFront();
   }
 }
 
-- 
2.43.0


From 8217c86161791522d0b2566f5627649aa01ee4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:19 +0000
Subject: [PATCH 05/88] fix: Logger::push of a single variable does not compile
 and always throws

---
 include/state-observation/tools/logger.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index f465474..012845b 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -36,20 +36,22 @@ namespace stateObservation
     template <typename T>
     void Logger::push(const T * address)
     {
-      Tmap::iterator i= logs_.find( * address );
+      Tmap::iterator i= logs_.find(address);
 
       if (i!=logs_.end())
         update_(i);
       else
+      {
         BOOST_ASSERT(false && "The logger cannot find the data to push, please use record function");
         throw std::invalid_argument
                 ("The logger cannot find the data, please use record function");
+      }
     }
 
     template <typename T>
     void Logger::push(const T & reference)
     {
-      push(*reference);
+      push<T>(&reference);
     }
 
     template <typename T>
-- 
2.43.0


From 66a099b459359953fcbc51319abd544fa7874c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:45 +0000
Subject: [PATCH 06/88] fix: readFromFile appends an incomplete record at the
 end of the file

---
 include/state-observation/tools/definitions.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 0d28427..59986fd 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -525,8 +525,13 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
           }
         }
 
-        setValue(m,k);
-        ++k;
+        if (f.fail()) // the file ended before a complete matrix was read
+          continuation=false;
+        else
+        {
+          setValue(m,k);
+          ++k;
+        }
       }
     }
   }
-- 
2.43.0


From 59ec791357d080b4500b094ad9bdcba022416bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 07/88] fix: Logger::updateAddress loses the values recorded so
 far

---
 include/state-observation/tools/logger.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index 012845b..a7ac56f 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -66,10 +66,10 @@ namespace stateObservation
       }
       else
       {
-        log_s log(i->second.filename);
+        log_s log(i->second);
         log.setType<T>();
-        logs_.insert(Tpair(newAddress,log));
         logs_.erase(i);
+        logs_.insert(Tpair(newAddress,log));
       }
     }
 
-- 
2.43.0


From d5e6881e289d160aae58798efe8f76cd49f0118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 08/88] fix: ZeroDelayObserver::setState keeps measurements and
 inputs when going back in time

---
 src/zero-delay-observer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 3c595aa..80ee93f 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -7,9 +7,11 @@ void ZeroDelayObserver::setState(const ObserverBase::StateVector & x_k, TimeInde
 {
   BOOST_ASSERT(checkStateVector(x_k) && "The size of the state vector is incorrect");
 
+  bool backInTime = stateIsSet() && k < getCurrentTime();
+
   x_.set(x_k, k);
 
-  if(k < getCurrentTime())
+  if(backInTime)
   {
     y_.clear();
     u_.clear();
-- 
2.43.0


From 96d0925aaab70ee22b689d88a59c202ebc440b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 09/88] fix: getInputTime asserts that there are measurements
 instead of inputs

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 80ee93f..5744b46 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -189,7 +189,7 @@ TimeSize ZeroDelayObserver::getInputsNumber() const
 TimeIndex ZeroDelayObserver::getInputTime() const
 {
 
-  BOOST_ASSERT(y_.size() > 0 && "ERROR: There is no measurements registered (past measurements are erased)");
+  BOOST_ASSERT(u_.size() > 0 && "ERROR: There is no inputs registered (past inputs are erased)");
   return u_.getLastIndex();
 }
 
-- 
2.43.0


From b3b0e8bfa18172dc9b0e037686e16f0f98f20a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:20 +0000
Subject: [PATCH 10/88] fix: getEstimatedState pops from an empty array when
 the system does not need the inputs

---
 src/zero-delay-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 5744b46..529aac3 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -155,10 +155,10 @@ ObserverBase::StateVector ZeroDelayObserver::getEstimatedState(TimeIndex k)
   for(TimeIndex i = k0; i < k; ++i)
   {
     oneStepEstimation_();
-    if(y_.getFirstIndex() < k) y_.popFront();
+    if(y_.size() > 0 && y_.getFirstIndex() < k) y_.popFront();
 
     if(p_ > 0)
-      if(u_.getFirstIndex() < k) u_.popFront();
+      if(u_.size() > 0 && u_.getFirstIndex() < k) u_.popFront();
   }
 
   return x_();
-- 
2.43.0


From c5aa4438d6fb822e6bb2e0b2253ba36e5fe241aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:54 +0000
Subject: [PATCH 11/88] fix: LinearKalmanFilter requires a B matrix for systems
 without input

---
 src/linear-kalman-filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear-kalman-filter.cpp b/src/linear-kalman-filter.cpp
index af5d369..a682d84 100644
--- a/src/linear-kalman-filter.cpp
+++ b/src/linear-kalman-filter.cpp
@@ -31,7 +31,7 @@ ObserverBase::StateVector LinearKalmanFilter::prediction_(TimeIndex k)
   (void)k; // unused
 
   BOOST_ASSERT(checkAmatrix(a_) && "ERROR: The A matrix is not initialized");
-  BOOST_ASSERT(checkBmatrix(b_) && "ERROR: The B matrix is not initialized");
+  BOOST_ASSERT((p_ == 0 || checkBmatrix(b_)) && "ERROR: The B matrix is not initialized");
   BOOST_ASSERT(checkCmatrix(c_) && "ERROR: The C matrix is not initialized");
 
   xbar_.set(a_ * x_(), k);
-- 
2.43.0


From 346cf632a4e2e35c83c21cf487f34a79d2dffbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:16 +0000
Subject: [PATCH 12/88] fix: simulating a measurement overwrites the last
 predicted measurement of the linear filter

---
 src/linear-kalman-filter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/linear-kalman-filter.cpp b/src/linear-kalman-filter.cpp
index a682d84..7724662 100644
--- a/src/linear-kalman-filter.cpp
+++ b/src/linear-kalman-filter.cpp
@@ -61,13 +61,12 @@ ObserverBase::MeasureVector LinearKalmanFilter::simulateSensor_(const StateVecto
                     "(the measurement at time k needs the input at time k which was not given) "
                     "if you don't need the input in the computation of measurement, you "
                     "must set D matrix to zero");
-    ybar_.set(c_ * x + d_ * u_[k], k);
+    return c_ * x + d_ * u_[k];
   }
   else
   {
-    ybar_.set(c_ * x, k);
+    return c_ * x;
   }
-  return ybar_();
 }
 
 LinearKalmanFilter::Bmatrix LinearKalmanFilter::getBmatrixConstant(double c) const
-- 
2.43.0


From 0c1f234a5764ae53b81a4b9112c640e912082b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:18 +0000
Subject: [PATCH 13/88] fix: ExtendedKalmanFilter reuses outdated predictions

---
 src/extended-kalman-filter.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 79e7cde..f37f489 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -85,32 +85,28 @@ void ExtendedKalmanFilter::setDirectInputStateFeedthrough(bool b)
 
 ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 {
-  if(!xbar_.isSet() || xbar_.getTime() != k)
+  if((p_ > 0) && (directInputStateProcessFeedthrough_))
   {
-    if((p_ > 0) && (directInputStateProcessFeedthrough_))
-    {
 
-      BOOST_ASSERT(this->u_.size() > 0 && this->u_.checkIndex(k - 1) && "ERROR: The input vector is not set");
-      opt.u_ = this->u_[k - 1];
-    }
-    else
-    {
-      opt.u_ = inputVectorZero();
-    }
-    BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
-    xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
+    BOOST_ASSERT(this->u_.size() > 0 && this->u_.checkIndex(k - 1) && "ERROR: The input vector is not set");
+    opt.u_ = this->u_[k - 1];
   }
+  else
+  {
+    opt.u_ = inputVectorZero();
+  }
+  BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
+
+  // a prediction made earlier for the same instant cannot be reused: the state, the input, the functor or its parameters
+  // may have changed since then
+  xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
 
   return xbar_();
 }
 
 ObserverBase::MeasureVector ExtendedKalmanFilter::predictSensor_(TimeIndex k)
 {
-
-  if(!this->ybar_.isSet() || this->ybar_.getTime() != k)
-  {
-    ybar_.set(simulateSensor_(xbar_(), k), k);
-  }
+  ybar_.set(simulateSensor_(xbar_(), k), k);
 
   return ybar_();
 }
-- 
2.43.0


From a84968403d0862c4cbcc0e222268fc0309db5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 14/88] fix: getCMatrixFD ignores the measurement arithmetics
 and tangent size

---
 .../observer/extended-kalman-filter.hpp                  | 1 +
 src/extended-kalman-filter.cpp                           | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 73a9019..e2ee938 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -146,6 +146,7 @@ protected:
     ObserverBase::StateVector dx_;
     ObserverBase::StateVector xp_;
     ObserverBase::MeasureVector yp_;
+    KalmanFilterBase::MeasureVectorTan dy_;
 
   } opt;
 
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index f37f489..86925c0 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -180,7 +180,7 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 {
   TimeIndex k = this->x_.getTime();
 
-  opt.c_.resize(m_, nt_);
+  opt.c_.resize(mt_, nt_);
 
   updateStateAndMeasurementPrediction();
 
@@ -197,10 +197,11 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    opt.yp_ -= ybar_();
-    opt.yp_ /= dx[i];
+    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dy_);
 
-    opt.c_.col(i) = opt.yp_;
+    opt.dy_ /= dx[i];
+
+    opt.c_.col(i) = opt.dy_;
   }
 
   return opt.c_;
-- 
2.43.0


From 7a6f0be01bac951ede5e73c8d12a2d45af3cd2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:11 +0000
Subject: [PATCH 15/88] fix: aliasing leaves the state covariance asymmetric

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index c108803..291ee26 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -165,7 +165,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   pr_ *= oc_.pbar;
 
   // simmetrize the pr_ matrix
-  pr_ = (pr_ + pr_.transpose()) * 0.5;
+  pr_ = ((pr_ + pr_.transpose()) * 0.5).eval();
 
   return oc_.xhat;
 }
-- 
2.43.0


From 1d539a94f9a9f5b75eb682753b9f81f78dba2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:32 +0000
Subject: [PATCH 16/88] fix: regulateRotationVector is declared but not defined

---
 include/state-observation/tools/rigid-body-kinematics.hpp | 3 +++
 include/state-observation/tools/rigid-body-kinematics.hxx | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hpp b/include/state-observation/tools/rigid-body-kinematics.hpp
index ee69d3b..eac1d9b 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hpp
+++ b/include/state-observation/tools/rigid-body-kinematics.hpp
@@ -82,6 +82,9 @@ inline void integrateKinematics(Vector3 & position,
 /// gets close to 2pi
 inline Vector regulateRotationVector(const Vector3 & v);
 
+/// Same as regulateRotationVector()
+inline Vector regulateOrientationVector(const Vector3 & v);
+
 /// Transform the rotation vector into angle axis
 inline AngleAxis rotationVectorToAngleAxis(const Vector3 & v);
 
diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 15b2688..851935b 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -105,6 +105,13 @@ inline void integrateKinematics(Vector3 & position,
 /// Puts the orientation vector norm between 0 and Pi if it
 /// gets close to 2pi
 inline Vector regulateOrientationVector(const Vector3 & v)
+{
+  return regulateRotationVector(v);
+}
+
+/// Puts the orientation vector norm between 0 and Pi if it
+/// gets close to 2pi
+inline Vector regulateRotationVector(const Vector3 & v)
 {
   double n2 = v.squaredNorm();
   if(n2 > std::pow(3. / 2. * M_PI, 2))
-- 
2.43.0


From 2a99088e829e0cb9081f2b28d24b63d9f0cf56a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:44 +0000
Subject: [PATCH 17/88] fix: roll pitch yaw of a rotation matrix are
 inconsistent at the gimbal lock

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 851935b..0962bbb 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -197,8 +197,12 @@ inline Vector3 rotationMatrixToRollPitchYaw(const Matrix3 & R, Vector3 & v)
 inline Vector3 rotationMatrixToRollPitchYaw(const Matrix3 & R)
 {
   Vector3 v;
-  v << atan2(R(2, 1), R(2, 2)), atan2(-R(2, 0), sqrt(tools::square(R(2, 1)) + tools::square(R(2, 2)))),
-      atan2(R(1, 0), R(0, 0));
+  const double yaw = atan2(R(1, 0), R(0, 0));
+  const double c = cos(yaw);
+  const double s = sin(yaw);
+  /// the roll is computed after the yaw has been removed, so that both angles remain consistent with each other at
+  /// the gimbal lock (abs(pitch)=pi/2)
+  v << atan2(s * R(0, 2) - c * R(1, 2), c * R(1, 1) - s * R(0, 1)), atan2(-R(2, 0), c * R(0, 0) + s * R(1, 0)), yaw;
   return v;
   /// previous implementation using Eigen, does not respect the constraint that
   /// abs(roll)<pi ; abs(pitch)<pi/2 ; abs(yaw)<pi
-- 
2.43.0


From 2da8861ced48a9661a11cc9788288e45e4ae666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 18/88] fix: Kinematics::update multiplies the acceleration by
 2*dt^2 when there is no velocity

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 0962bbb..a23ef11 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1381,7 +1381,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisPos() += thisAcc() * dt * dt / 0.5;
+            thisPos() += thisAcc() * dt * dt / 2;
           }
         }
       }
@@ -1579,7 +1579,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisOri.integrate(thisAcc() * dt * dt / 0.5);
+            thisOri.integrate(thisAcc() * dt * dt / 2);
           }
         }
       }
-- 
2.43.0


From aaefc9edc196c8d266bd4633dec714bc93137e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 19/88] fix: Kinematics::update deduces the opposite angular
 acceleration from orientations

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index a23ef11..0b02608 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1540,7 +1540,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
     {
       if(accMethod == useOrientation) // then velocity cannot use accelerations
       {
-        thisAcc = 2 * newOri.differentiate(thisOri) / (dt * dt);
+        thisAcc = 2 * thisOri.differentiate(newOri) / (dt * dt);
       }
     }
 
-- 
2.43.0


From b1110793eec72f04853f31a375887e68919cee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 20/88] fix: Kinematics::update does not update the angular
 acceleration from orientation and velocity

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 0b02608..d271639 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1546,7 +1546,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
 
     if(velMethod == useOrientation) // then position cannot use velocity
     {
-      if(accMethod == useVelAndAcc)
+      if(accMethod == useOriAndVel) // use orientation and velocity to get the accelerations
       {
         thisAcc = -thisVel();
         thisVel = thisOri.differentiate(newOri) / dt;
-- 
2.43.0


From 18fefdfa69a991f71ef9c824c30972919c8e4f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 21/88] fix: derivateRtvMultiplicative has the wrong sign

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index d271639..6832b59 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -559,7 +559,7 @@ inline void derivateRotationMultiplicative(const Vector3 & deltaR, Matrix3 & dRd
 /// local frame
 inline Matrix3 derivateRtvMultiplicative(const Matrix3 & R, const Vector3 & v)
 {
-  return -R.transpose() * skewSymmetric(v);
+  return R.transpose() * skewSymmetric(v);
 }
 
 /// derivates a quaternion using finite difference to get a angular velocity vector
-- 
2.43.0


From 7c0b9d94304fac01c6f1d0e2cfff2c302a904f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:29 +0000
Subject: [PATCH 22/88] fix: isRotationMatrix accepts some reflections

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 6832b59..0a9e260 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -508,7 +508,7 @@ inline double randomAngle()
 inline bool isRotationMatrix(const Matrix3 & M, double precision)
 {
   /// The test checks that it is unitary then checks that the cross product of the two first vectors gets you the last
-  return (M.isUnitary()
+  return (M.isUnitary() && M.determinant() > 0
           && (isApproxAbs(M.topLeftCorner<2, 2>().determinant(), M(2, 2), precision)
               && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)));
 }
-- 
2.43.0


From 079a11633017fb574a885ed81ab6fe2fe0307c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:29 +0000
Subject: [PATCH 23/88] fix: orthogonalizeRotationMatrix may return a
 reflection

---
 .../state-observation/tools/rigid-body-kinematics.hxx    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 0a9e260..5504104 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -250,7 +250,14 @@ inline Vector3 vectorComponent(const Quaternion & q)
 inline Matrix3 orthogonalizeRotationMatrix(const Matrix3 & M)
 {
   Eigen::JacobiSVD<Matrix3> svd(M, Eigen::ComputeFullU | Eigen::ComputeFullV);
-  return svd.matrixU() * svd.matrixV().transpose();
+  Matrix3 R = svd.matrixU() * svd.matrixV().transpose();
+  if(R.determinant() < 0)
+  { /// the closest orthogonal matrix is a reflection, get the closest rotation instead
+    Matrix3 U = svd.matrixU();
+    U.col(2) = -U.col(2);
+    R = U * svd.matrixV().transpose();
+  }
+  return R;
 }
 
 /// transform a 3d vector into a skew symmetric 3x3 matrix
-- 
2.43.0


From bbeec6502e1f59948f5044f6cea6e5cdbc48bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:29 +0000
Subject: [PATCH 24/88] fix: mergeRoll1Pitch1WithYaw2 is declared and defined
 with different signatures

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 5504104..f3159c6 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -425,7 +425,7 @@ inline Matrix3 mergeTiltWithYaw(const Vector3 & Rtez, const Matrix3 & R2, const
   }
 }
 
-inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 v)
+inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 & v)
 {
   return mergeTiltWithYaw(R1.transpose() * Vector3::UnitZ(), R2, v);
 }
-- 
2.43.0


From 6946933a3d2d9c6a4aad799b466cb915abc91d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:25 +0000
Subject: [PATCH 25/88] fix: twoVectorsToRotationMatrix rejects normalized
 vectors because of rounding

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index f3159c6..aadf944 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -329,7 +329,7 @@ inline Matrix4 vector6ToHomogeneousMatrix(const Vector6 & v)
 inline Matrix3 twoVectorsToRotationMatrix(const Vector3 & v1, const Vector3 Rv1)
 {
 
-  BOOST_ASSERT(v1.isUnitary(cst::epsilon1) && Rv1.isUnitary(cst::epsilon1)
+  BOOST_ASSERT(v1.isUnitary() && Rv1.isUnitary()
                && "The vectors v1 and Rv1 need to be normalized");
 
   double v1dotRv1 = v1.dot(Rv1);
-- 
2.43.0


From 234f4c1ae6cb83430713e29eda258372a4808156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:10 +0000
Subject: [PATCH 26/88] fix: DynamicalSystemSimulator::setInput ignores the new
 value of an input

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 22058ad..56a1657 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -28,7 +28,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
 
 void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 {
-  u_.insert(std::pair<TimeIndex, Vector>(k, u));
+  u_[k] = u;
 }
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
-- 
2.43.0


From fd050d8c91588a2673f02eb13949ac4c3a67702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:10 +0000
Subject: [PATCH 27/88] fix: DynamicalSystemSimulator::setState keeps the
 measurements of the replaced state

---
 src/dynamical-system-simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 56a1657..0ae3a5e 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -23,6 +23,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
                && "ERROR: Only consecutive states can be set. If you want to restart a new dynamics please call "
                   "resetDynamics before");
   x_.truncateAfter(k - 1);
+  y_.truncateAfter(k - 1);
   x_.setValue(x, k);
 }
 
-- 
2.43.0


From 75ac5e321447f5d080359c15a18b495f8a023f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:10 +0000
Subject: [PATCH 28/88] fix: DynamicalSystemSimulator reads states and
 measurements which are not simulated yet

---
 .../dynamical-system-simulator.hpp            |  3 +++
 src/dynamical-system-simulator.cpp            | 23 ++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/state-observation/dynamical-system/dynamical-system-simulator.hpp b/include/state-observation/dynamical-system/dynamical-system-simulator.hpp
index eb0b9cc..88c9d78 100644
--- a/include/state-observation/dynamical-system/dynamical-system-simulator.hpp
+++ b/include/state-observation/dynamical-system/dynamical-system-simulator.hpp
@@ -90,6 +90,9 @@ public:
   virtual void resetSimulator();
 
 protected:
+  /// Computes the missing measurements up to a time for which the state is known
+  void simulateMeasurementsTo_(TimeIndex k);
+
   DynamicalSystemFunctorBase * f_;
 
   IndexedVectorArray x_;
diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 0ae3a5e..4f93009 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -34,8 +34,9 @@ void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 {
-  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() < k) && "ERROR: Only future measurements can be obtained");
-  if(y_.getNextIndex() < k) simulateDynamicsTo(k);
+  BOOST_ASSERT((x_.size() == 0 || x_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
+  simulateDynamicsTo(k);
+  simulateMeasurementsTo_(k);
 
   return y_[k];
 }
@@ -43,7 +44,7 @@ Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 Vector DynamicalSystemSimulator::getState(TimeIndex k)
 {
   BOOST_ASSERT((x_.size() == 0 || x_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
-  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k - 1);
+  simulateDynamicsTo(k);
 
   return x_[k];
 }
@@ -76,7 +77,7 @@ void DynamicalSystemSimulator::simulateDynamics()
 
   TimeIndex k(x_.getLastIndex());
   Vector u = getInput(k);
-  y_.setValue(f_->measureDynamics(x_[k], u, k), k);
+  simulateMeasurementsTo_(k);
   x_.setValue(f_->stateDynamics(x_[k], u, k), k + 1);
 }
 
@@ -88,9 +89,19 @@ void DynamicalSystemSimulator::simulateDynamicsTo(TimeIndex k)
   }
 }
 
+void DynamicalSystemSimulator::simulateMeasurementsTo_(TimeIndex k)
+{
+  BOOST_ASSERT(f_ != 0x0 && "ERROR: A dynamics functor must be set");
+
+  for(TimeIndex i = (y_.size() > 0) ? y_.getNextIndex() : x_.getFirstIndex(); i <= k; ++i)
+  {
+    y_.setValue(f_->measureDynamics(x_[i], getInput(i), i), i);
+  }
+}
+
 IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime > y_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT(startingTime >= x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
   IndexedVectorArray a;
 
   for(TimeIndex i = startingTime; i < startingTime + TimeIndex(duration); ++i)
@@ -102,7 +113,7 @@ IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex start
 
 IndexedVectorArray DynamicalSystemSimulator::getStateArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime > x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT(startingTime >= x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
 
   IndexedVectorArray a;
 
-- 
2.43.0


From bde8f9bc1c17f989047156d797ece351b3d0c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:11 +0000
Subject: [PATCH 29/88] fix: noisy measurements of sensors concatenated with an
 input fail an assertion

---
 src/algebraic-sensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic-sensor.cpp b/src/algebraic-sensor.cpp
index 09affd5..fe1a083 100644
--- a/src/algebraic-sensor.cpp
+++ b/src/algebraic-sensor.cpp
@@ -67,7 +67,7 @@ Vector AlgebraicSensor::computeNoisyMeasurement_()
 {
   if(!storedNoiselessMeasurement_)
   {
-    BOOST_ASSERT(checkStateVector(state_) && "The state is not set or incorrectly set");
+    BOOST_ASSERT(state_.size() == getStateSize_() && "The state is not set or incorrectly set");
 
     if(concat_ > 0)
       noiselessMeasurement_ << computeNoiselessMeasurement_(), directInputToOutput_;
-- 
2.43.0


From 1ac0a7176469b2ec50c2403f87ced24a2919c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:11 +0000
Subject: [PATCH 30/88] fix: GaussianWhiteNoise has a wrong covariance when it
 is singular

---
 src/gaussian-white-noise.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gaussian-white-noise.cpp b/src/gaussian-white-noise.cpp
index b5b74dd..9c72054 100644
--- a/src/gaussian-white-noise.cpp
+++ b/src/gaussian-white-noise.cpp
@@ -32,8 +32,18 @@ void GaussianWhiteNoise::setStandardDeviation(const Matrix & std)
 void GaussianWhiteNoise::setCovarianceMatrix(const Matrix & cov)
 {
   checkMatrix_(cov);
-  Matrix L(cov.llt().matrixL());
-  std_ = L;
+  Eigen::LLT<Matrix> llt(cov);
+  if(llt.info() == Eigen::Success)
+  {
+    std_ = llt.matrixL();
+  }
+  else
+  { /// the matrix is singular, a pivoting decomposition is required
+    Eigen::LDLT<Matrix> ldlt(cov);
+    Matrix L = ldlt.matrixL();
+    L *= Vector(ldlt.vectorD().cwiseMax(0.).cwiseSqrt()).asDiagonal();
+    std_ = ldlt.transpositionsP().transpose() * L;
+  }
 }
 
 void GaussianWhiteNoise::setBias(const Vector & bias)
-- 
2.43.0


From ec17d23e7369252e244ddb9e4c3e058790d016ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:01 +0000
Subject: [PATCH 31/88] fix: both IMU system headers have the same include
 guard

---
 .../dynamical-system/imu-magnetometer-dynamical-system.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp b/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
index f7d82a5..42504bf 100644
--- a/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
+++ b/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
@@ -11,8 +11,8 @@
  *
  */
 
-#ifndef IMU_DYNAMICAL_SYSTEM_HPP
-#define IMU_DYNAMICAL_SYSTEM_HPP
+#ifndef IMU_MAGNETOMETER_DYNAMICAL_SYSTEM_HPP
+#define IMU_MAGNETOMETER_DYNAMICAL_SYSTEM_HPP
 
 #include <state-observation/api.h>
 #include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
-- 
2.43.0


From 5957507242d4d6bb49c0f0b561aef5fc26d1258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:30 +0000
Subject: [PATCH 32/88] fix: the Coriolis term of the elastic pendulum uses the
 height instead of the position of the mass

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index 032695e..caef4a8 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -33,7 +33,7 @@ Vector BidimElasticInvPendulum::stateDynamics(const Vector & x, const Vector & u
   double thetadot = x[3];
   double thetadotdot = (1 / (m_ * (p * p + h_ * h_)))
                        * (-k_ * theta - m_ * gravityConstant * (cos(theta) * p - sin(theta) * h_)
-                          + m_ * (h_ * pdotdot - 2 * thetadot * (h_ * pdot)));
+                          + m_ * (h_ * pdotdot - 2 * thetadot * (p * pdot)));
 
   xk1[0] = p + dt_ * pdot;
   xk1[1] = theta + dt_ * thetadot;
-- 
2.43.0


From 0f1cef5edacf876dad935a47d6acae3585e13c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:43 +0000
Subject: [PATCH 33/88] fix: LipmDcmEstimator::setInputs estimates a pending
 measurement with the next rotation

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index a624a09..d2abcfc 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -198,7 +198,7 @@ void LipmDcmEstimator::setInputs(const Vector2 & dcm, const Vector2 & zmp, const
 {
   if(filter_.stateIsSet())
   {
-    if(filter_.getMeasurementsNumber() > 1)
+    if(filter_.getMeasurementsNumber() > 0)
     {
       update(); /// update the estimation of the state to synchronize with the measurements
     }
-- 
2.43.0


From 966d452730b1cd80cf0f6a8c41d94f42ce9cad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:43 +0000
Subject: [PATCH 34/88] fix: setBiasDriftPerSecond ignores the sampling time
 and is forgotten by other setters

---
 src/lipm-dcm-estimator.cpp        | 5 ++---
 src/unidim-lipm-dcm-estimator.cpp | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index d2abcfc..3dc2ea8 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -132,9 +132,8 @@ void LipmDcmEstimator::setBias(const Vector2 & bias, const Vector2 & uncertainty
 
 void LipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  /// update the corresponding part in the process noise matrix
-  Q_.bottomRightCorner<2, 2>() = dblToSqDiag(driftPerSecond);
-  filter_.setProcessCovariance(Q_);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void LipmDcmEstimator::setBiasLimit(const Vector2 & biasLimit)
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index ee7c751..ff4fbe3 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -130,10 +130,8 @@ void UnidimLipmDcmEstimator::setBias(double bias, double uncertainty)
 
 void UnidimLipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  Matrix2 Q = filter_.getProcessCovariance();
-  /// update the corresponding part in the process noise matrix
-  Q(1, 1) = square(driftPerSecond);
-  filter_.setProcessCovariance(Q);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void UnidimLipmDcmEstimator::setUnbiasedDCM(double dcm)
-- 
2.43.0


From c83adefddbccbd73ab485c420fddc6766a62ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:43 +0000
Subject: [PATCH 35/88] fix: setDcmMeasureErrorStd has no effect

---
 src/lipm-dcm-estimator.cpp        | 4 ++--
 src/unidim-lipm-dcm-estimator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 3dc2ea8..13ff7f3 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -168,8 +168,8 @@ void LipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void LipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix2 R;
-  R = dblToSqDiag(std);
+  R_ = dblToSqDiag(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void LipmDcmEstimator::update()
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index ff4fbe3..c9b2738 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -160,8 +160,8 @@ void UnidimLipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void UnidimLipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix1 R;
-  R(0, 0) = square(std);
+  R_(0, 0) = square(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void UnidimLipmDcmEstimator::setInputs(double dcm, double zmp)
-- 
2.43.0


From 02ae84cd4e457c9ccea41a9199c30ccf77ab4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:43 +0000
Subject: [PATCH 36/88] fix: limiting the DCM bias on one axis uses an
 uninitialized value on the other

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 13ff7f3..29c30c0 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -178,7 +178,7 @@ void LipmDcmEstimator::update()
   if(biasLimit_.x() > 0 || biasLimit_.y() > 0)
   {
     Vector2 localBias = getLocalBias();
-    Vector2 clampedLocalBias;
+    Vector2 clampedLocalBias = localBias;
     if(biasLimit_.x() > 0)
     {
       clampedLocalBias.x() = tools::clampScalar(localBias.x(), biasLimit_.x());
-- 
2.43.0


From 8e783b96351291bdf215e5557d01268f5a072006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:43 +0000
Subject: [PATCH 37/88] fix: the removed part of the limited bias is added to
 the DCM in the wrong frame

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 29c30c0..561f08e 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -189,7 +189,7 @@ void LipmDcmEstimator::update()
     }
 
     setBias(previousOrientation_ * clampedLocalBias);
-    setUnbiasedDCM(getUnbiasedDCM() + localBias - clampedLocalBias);
+    setUnbiasedDCM(getUnbiasedDCM() + previousOrientation_ * (localBias - clampedLocalBias));
   }
 }
 
-- 
2.43.0


From 020fd14cba70e2fc3d705b9ac114f0b7fdfe57c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:52 +0000
Subject: [PATCH 38/88] fix: LipmDcmEstimator::setInputs updates again when
 every measurement is already used

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 561f08e..337d6a5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -197,7 +197,7 @@ void LipmDcmEstimator::setInputs(const Vector2 & dcm, const Vector2 & zmp, const
 {
   if(filter_.stateIsSet())
   {
-    if(filter_.getMeasurementsNumber() > 0)
+    if(filter_.getMeasurementsNumber() > 0 && filter_.getMeasurementTime() > filter_.getCurrentTime())
     {
       update(); /// update the estimation of the state to synchronize with the measurements
     }
-- 
2.43.0


From 910806abb254b93320ecbf4418e4b3ed0d0d87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:35 +0000
Subject: [PATCH 39/88] fix: TiltEstimator drops measurements when it estimates
 several steps at once

---
 src/tilt-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tilt-estimator.cpp b/src/tilt-estimator.cpp
index 6d6c5d5..30e7cda 100644
--- a/src/tilt-estimator.cpp
+++ b/src/tilt-estimator.cpp
@@ -42,7 +42,7 @@ ObserverBase::StateVector TiltEstimator::oneStepEstimation_()
 
   x_hat.tail<3>() /= x_hat.tail<3>().norm();
 
-  setState(x_hat, k + 1);
+  this->x_.set(x_hat, k + 1);
 
   return x_hat;
 }
-- 
2.43.0


From b01eb7f43d844efca456b74e340fa68eca3d8122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:25 +0000
Subject: [PATCH 40/88] fix: setFlexibilityGuess rejects homogeneous matrices

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 11 +++++++----
 src/model-base-ekf-flex-estimator-imu.cpp    | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 4cb4a79..683e6f1 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -106,7 +106,7 @@ double FixedContactEKFFlexEstimatorIMU::getVirtualMeasurementsCovariance() const
 
 void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -115,7 +115,12 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 18x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0 = x;
+  Vector x0;
+
+  if(bhomogeneous)
+    x0 = kine::homogeneousMatrixToVector6(x);
+  else
+    x0 = x;
 
   if(bstate)
   {
@@ -123,8 +128,6 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
-
     Vector x_s = ekf_.stateVectorZero();
 
     x_s.segment(indexes::pos, 3) = x0.head(3);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 82eb8e2..8c25118 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -156,7 +156,7 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurement(const Vector & y)
 
 void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -165,7 +165,12 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 23x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0(x);
+  Vector x0;
+
+  if(bhomogeneous)
+    x0 = kine::homogeneousMatrixToVector6(x);
+  else
+    x0 = x;
 
   if(bstate)
   {
@@ -173,8 +178,6 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
-
     Vector x_s = ekf_.stateVectorZero();
 
     x_s.segment(state::pos, 3) = x0.head<3>();
-- 
2.43.0


From d36a14f220b731e9cc7aea1b469e61525af90704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:25 +0000
Subject: [PATCH 41/88] fix: the flexibility estimators do not report the guess
 they are given

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 3 +++
 src/model-base-ekf-flex-estimator-imu.cpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 683e6f1..06521a2 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -138,6 +138,9 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
     ekf_.setQ(Q_);
   }
+
+  /// the guess replaces the last estimation until the next measurement
+  lastX_ = ekf_.getCurrentEstimatedState();
 }
 
 void FixedContactEKFFlexEstimatorIMU::setMeasurementNoiseCovariance(const Matrix & R)
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 8c25118..65d38d3 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -188,6 +188,9 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
     ekf_.setQ(Q_);
   }
+
+  /// the guess replaces the last estimation until the next measurement
+  lastX_ = ekf_.getCurrentEstimatedState();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setComBiasGuess(const stateObservation::Vector & x)
-- 
2.43.0


From 5f83f57d9d47c1e9b87043fb45fc39ccd0c2e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:25 +0000
Subject: [PATCH 42/88] fix: FixedContactEKFFlexEstimatorIMU::setSamplingPeriod
 has no effect

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 06521a2..d8b1351 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -225,6 +225,7 @@ const Vector & FixedContactEKFFlexEstimatorIMU::getFlexibilityVector()
 void FixedContactEKFFlexEstimatorIMU::setSamplingPeriod(double dt)
 {
   dt_ = dt;
+  functor_.setSamplingPeriod(dt);
 }
 
 } // namespace flexibilityEstimation
-- 
2.43.0


From 76591cb9aa7682058613d66ab470da4f814a830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:25 +0000
Subject: [PATCH 43/88] fix: offlineEKFFlexibilityEstimation ignores the
 sampling period

---
 .../examples/offline-ekf-flexibility-estimation.hxx          | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/state-observation/examples/offline-ekf-flexibility-estimation.hxx b/include/state-observation/examples/offline-ekf-flexibility-estimation.hxx
index b588e93..86eef2d 100644
--- a/include/state-observation/examples/offline-ekf-flexibility-estimation.hxx
+++ b/include/state-observation/examples/offline-ekf-flexibility-estimation.hxx
@@ -9,10 +9,9 @@ stateObservation::IndexedVectorArray offlineEKFFlexibilityEstimation(
             IndexedVectorArray * premea)
 {
 
-    (void)dt;
-        ///Sizes of the states for the state, the measurement, and the input vector
+    ///Sizes of the states for the state, the measurement, and the input vector
 
-    flexibilityEstimation::FixedContactEKFFlexEstimatorIMU estimator;
+    flexibilityEstimation::FixedContactEKFFlexEstimatorIMU estimator(dt);
 
 
     Matrix R(estimator.getEKF().getRmatrixIdentity());
-- 
2.43.0


From a6b7546bbea72fa73b663d98ea6b1d4776c04f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:13 +0000
Subject: [PATCH 44/88] fix: the Jacobians of the elastic model at a given
 state are declared but not defined

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 3523fd4..690d5e6 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -1238,6 +1238,22 @@ stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::stateDynamicsJacob
   return op_.Jx;
 }
 
+stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::stateDynamicsJacobian(const Vector & x,
+                                                                                    const Vector & u,
+                                                                                    TimeIndex k)
+{
+  stateDynamics(x, u, k);
+  return stateDynamicsJacobian();
+}
+
+stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::measureDynamicsJacobian(const Vector & x,
+                                                                                      const Vector & u,
+                                                                                      TimeIndex k)
+{
+  measureDynamics(x, u, k);
+  return measureDynamicsJacobian();
+}
+
 void IMUElasticLocalFrameDynamicalSystem::setProcessNoise(NoiseBase * n)
 {
   processNoise_ = n;
-- 
2.43.0


From 811d8ca84f4e79cd67ebba1fe0043d25097178af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:15 +0000
Subject: [PATCH 45/88] fix: the noisy state of the elastic model is not the
 predicted one

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 690d5e6..aac6c57 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -907,7 +907,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::stateDynamics(const Vector & x, cons
   }
 
   if(processNoise_ != 0x0)
-    return processNoise_->getNoisy(op_.xk1);
+    return processNoise_->getNoisy(xk1_);
   else
     return xk1_;
 }
-- 
2.43.0


From 6e00ce520e2fc33e0d972d6b5de009e89a2140a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:15 +0000
Subject: [PATCH 46/88] fix: the measurements of the elastic model fail before
 the first prediction

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index aac6c57..12da873 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -939,7 +939,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::measureDynamics(const Vector & x, co
   op_.orientationFlexV = x.segment(state::ori, 3);
   op_.angularVelocityFlex = x.segment(state::angVel, 3);
 
-  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts[i] = x.segment(state::fc + 6 * i, 6);
+  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts.setValue(x.segment(state::fc + 6 * i, 6), i);
 
   op_.fm = x.segment(state::unmodeledForces, 3);
   op_.tm = x.segment(state::unmodeledForces + 3, 3);
-- 
2.43.0


From 41f91938d7f30f331606500c5b49542a7ccd99cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:15 +0000
Subject: [PATCH 47/88] fix: the Runge-Kutta step of the elastic model swaps
 forces and moments

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 12da873..bcb7132 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -774,7 +774,7 @@ void IMUElasticLocalFrameDynamicalSystem::iterateDynamicsRK4(const Vector3 & pos
   angVelocity3 = angularVel + (dt / 2) * angAcc2;
 
   computeAccelerations(positionCom, velocityCom, accelerationCom, AngMomentum, dotAngMomentum, inertia, dotInertia,
-                       contactPos, contactOri, pos3, linVelocity3, linAcc3, oriv3, ori3, angVelocity3, angAcc3, tc, fc,
+                       contactPos, contactOri, pos3, linVelocity3, linAcc3, oriv3, ori3, angVelocity3, angAcc3, fc, tc,
                        fm, tm, addForces, addMoments);
 
   ////////////4th/////////////
-- 
2.43.0


From 128dc610b79db59f2ee09fb44afe32ab984f806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:15 +0000
Subject: [PATCH 48/88] fix: the momentum rates of the elastic model ignore the
 mass of the robot

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index bcb7132..cb3bc6b 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -173,9 +173,9 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromForces(const Vector
   computeContactWrench(op_.rFlex, op_.positionFlex, op_.contactPosV, op_.contactOriV, fc_, tc_, op_.fm, op_.tm,
                        op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = op_.f - hrp2::m * cst::gravity;
+  op_.momentaDot.segment<3>(0) = op_.f - robotMass_ * cst::gravity;
   op_.momentaDot.segment<3>(3) =
-      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * hrp2::m * cst::gravity;
+      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * robotMass_ * cst::gravity;
 
   return op_.momentaDot;
 }
@@ -237,7 +237,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
                        op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
                        op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = hrp2::m
+  op_.momentaDot.segment<3>(0) = robotMass_
                                  * (kine::skewSymmetric(op_.angularAcceleration) * op_.rFlex * op_.positionCom
                                     + kine::skewSymmetric2(op_.angularVelocityFlex) * op_.rFlex * op_.positionCom
                                     + 2 * kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.velocityCom
@@ -248,7 +248,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
       + op_.rFlex * op_.inertia * op_.rFlexT * op_.angularAcceleration
       + kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.AngMomentum + op_.rFlex * op_.dotAngMomentum
       + kine::skewSymmetric(op_.positionFlex) * op_.momentaDot.segment<3>(0)
-      + hrp2::m * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
+      + robotMass_ * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
 
   return op_.momentaDot;
 }
-- 
2.43.0


From 04c6107ff2fda7613b1f2407c83a8e95b3c947bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:15 +0000
Subject: [PATCH 49/88] fix: getMomentaDotFromKinematics uses the linear
 velocity as the angular one

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index cb3bc6b..2f0de6f 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -234,7 +234,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
 
   computeAccelerations(op_.positionCom, op_.velocityCom, op_.accelerationCom, op_.AngMomentum, op_.dotAngMomentum,
                        op_.inertia, op_.dotInertia, op_.contactPosV, op_.contactOriV, op_.positionFlex,
-                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
+                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.angularVelocityFlex,
                        op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
 
   op_.momentaDot.segment<3>(0) = robotMass_
-- 
2.43.0


From 502bbd274e0e3c4d8c33f3d0d3a0d4bf64c63fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 50/88] fix: the default IMU covariance of the model-based
 estimator is partly uninitialized

---
 src/model-base-ekf-flex-estimator-imu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 65d38d3..a00b160 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -80,7 +80,7 @@ Matrix ModelBaseEKFFlexEstimatorIMU::getDefaultQ()
 
 Matrix6 ModelBaseEKFFlexEstimatorIMU::getDefaultRIMU()
 {
-  Matrix6 R;
+  Matrix6 R = Matrix6::Zero();
 
   R.block<3, 3>(0, 0) = Matrix3::Identity() * 1.e-6; // accelerometer
   R.block<3, 3>(3, 3) = Matrix3::Identity() * 1.e-6; // gyrometer
-- 
2.43.0


From cc889548e51104581e24bf1ef583fcfa173b64ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:49 +0000
Subject: [PATCH 51/88] fix: the model-based estimator ignores the variances of
 the force and pose sensors

---
 src/model-base-ekf-flex-estimator-imu.cpp | 57 +++++++++++------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index a00b160..2350233 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -208,7 +208,16 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurementNoiseCovariance(const Matrix &
   /// and have a size multiple of 6
 
   R_ = R;
-  updateMeasurementCovarianceMatrix_();
+
+  /// complete the matrix when it is not given for all the sensors
+  if(R_.rows() != getMeasurementSize())
+  {
+    updateMeasurementCovarianceMatrix_();
+  }
+  else
+  {
+    ekf_.setR(R_);
+  }
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setProcessNoiseCovariance(const Matrix & Q)
@@ -269,41 +278,27 @@ Vector ModelBaseEKFFlexEstimatorIMU::getForcesAndMoments()
 void ModelBaseEKFFlexEstimatorIMU::updateMeasurementCovarianceMatrix_()
 {
 
-  if(R_.rows() != getMeasurementSize())
-  {
-
-    Index realIndex = R_.rows();
-    R_.conservativeResize(getMeasurementSize(), getMeasurementSize());
+  /// the part of the IMU is kept, those of the other sensors are rebuilt from their variances
+  Matrix R = Matrix::Zero(getMeasurementSize(), getMeasurementSize());
+  R.block<6, 6>(0, 0) = R_.block<6, 6>(0, 0);
 
-    Index currIndex = 6;
-    if(useFTSensors_)
+  Index currIndex = 6;
+  if(useFTSensors_)
+  {
+    for(Index i = 0; i < functor_.getContactsNumber(); ++i)
     {
-      /// if the force part of the matrix is not filled
-      if(realIndex < currIndex + functor_.getContactsNumber() * 6)
-      {
-        R_.block(currIndex, 0, functor_.getContactsNumber() * 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, functor_.getContactsNumber() * 6).setZero();
-        for(Index i = 0; i < functor_.getContactsNumber(); ++i)
-        {
-          R_.block(currIndex, currIndex, 6, 6) = forceVariance_;
-          currIndex += 6;
-        }
-      }
+      R.block(currIndex, currIndex, 6, 6) = forceVariance_;
+      currIndex += 6;
     }
+  }
 
-    if(withAbsolutePos_)
-    {
-      if(realIndex < currIndex + 6)
-      {
-
-        R_.block(currIndex, 0, 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, 6).setZero();
-        R_.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
-
-        currIndex += 6;
-      }
-    }
+  if(withAbsolutePos_)
+  {
+    R.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
+    currIndex += 6;
   }
+
+  R_ = R;
   ekf_.setR(R_);
 }
 
-- 
2.43.0


From a5ed0ee105d427df9f843c1f06e35a57de76972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:49 +0000
Subject: [PATCH 52/88] fix: setForceVariance with a 3x3 matrix fails an
 assertion

---
 src/model-base-ekf-flex-estimator-imu.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 2350233..a137309 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -597,7 +597,10 @@ void ModelBaseEKFFlexEstimatorIMU::setForceVariance(double d)
 
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
 {
-  forceVariance_ = v;
+  /// the same covariance for the force and for the moment
+  forceVariance_ = Matrix::Zero(6, 6);
+  forceVariance_.block<3, 3>(0, 0) = v;
+  forceVariance_.block<3, 3>(3, 3) = v;
   updateMeasurementCovarianceMatrix_();
 }
 
-- 
2.43.0


From 9cb422333f100546dbef7c41bed09804fdc2cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:49 +0000
Subject: [PATCH 53/88] fix: the limits of the contact torques are applied to
 the force of the second contact

---
 src/model-base-ekf-flex-estimator-imu.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index a137309..9d081c4 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -387,11 +387,14 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
         {
           for(int i = 0; i < 3; i++)
           {
-            // Saturation for bounded forces and torques
-            lastX_[Index(state::fc + 6 + i)] = std::min(lastX_[Index(state::fc + 6 + i)], limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::min(lastX_[Index(state::fc + i)], limitForces_[i]);
-            lastX_[Index(state::fc + 6 + i)] = std::max(lastX_[Index(state::fc + 6 + i)], -limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::max(lastX_[Index(state::fc + i)], -limitForces_[i]);
+            // Saturation for bounded forces and torques of the two contacts
+            for(Index f = state::fc + i; f < state::fc + 12; f += 6)
+            {
+              lastX_[f + 3] = std::min(lastX_[f + 3], limitTorques_[i]);
+              lastX_[f] = std::min(lastX_[f], limitForces_[i]);
+              lastX_[f + 3] = std::max(lastX_[f + 3], -limitTorques_[i]);
+              lastX_[f] = std::max(lastX_[f], -limitForces_[i]);
+            }
           }
         }
         ekf_.setState(lastX_, ekf_.getCurrentTime());
-- 
2.43.0


From f90380a7833e09b35f04a133836467f26ed13cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:49 +0000
Subject: [PATCH 54/88] fix: the momentum rates of a new estimate use the input
 of the previous one

---
 .../model-base-ekf-flex-estimator-imu.hpp                   | 3 ++-
 src/model-base-ekf-flex-estimator-imu.cpp                   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index adc7df6..983c892 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -67,7 +67,8 @@ public:
 
   virtual stateObservation::Vector computeAccelerations()
   {
-    return functor_.computeAccelerations(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // may move to the next input
+    return functor_.computeAccelerations(x, getInput());
   }
 
   void setContactModel(unsigned nb);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 9d081c4..fa7b698 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -240,7 +240,8 @@ Vector ModelBaseEKFFlexEstimatorIMU::getMomentaDotFromForces()
 {
   if(on_ == true)
   {
-    return functor_.getMomentaDotFromForces(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // may move to the next input
+    return functor_.getMomentaDotFromForces(x, getInput());
   }
   else
   {
@@ -254,7 +255,8 @@ Vector ModelBaseEKFFlexEstimatorIMU::getMomentaDotFromKinematics()
 {
   if(on_ == true)
   {
-    return functor_.getMomentaDotFromKinematics(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector(); // may move to the next input
+    return functor_.getMomentaDotFromKinematics(x, getInput());
   }
   else
   {
-- 
2.43.0


From 1d944657e28fe965e0a6019388bf756fd1c84779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:51 +0000
Subject: [PATCH 55/88] Revert "fix: offlineEKFFlexibilityEstimation ignores
 the sampling period"

This reverts commit 76591cb9aa7682058613d66ab470da4f814a830e.
---
 .../examples/offline-ekf-flexibility-estimation.hxx          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/examples/offline-ekf-flexibility-estimation.hxx b/include/state-observation/examples/offline-ekf-flexibility-estimation.hxx
index 86eef2d..b588e93 100644
--- a/include/state-observation/examples/offline-ekf-flexibility-estimation.hxx
+++ b/include/state-observation/examples/offline-ekf-flexibility-estimation.hxx
@@ -9,9 +9,10 @@ stateObservation::IndexedVectorArray offlineEKFFlexibilityEstimation(
             IndexedVectorArray * premea)
 {
 
-    ///Sizes of the states for the state, the measurement, and the input vector
+    (void)dt;
+        ///Sizes of the states for the state, the measurement, and the input vector
 
-    flexibilityEstimation::FixedContactEKFFlexEstimatorIMU estimator(dt);
+    flexibilityEstimation::FixedContactEKFFlexEstimatorIMU estimator;
 
 
     Matrix R(estimator.getEKF().getRmatrixIdentity());
-- 
2.43.0


From f81c998921cdca7f69b0d79a4b16df7ffa430049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:10 +0000
Subject: [PATCH 56/88] fix: setUnmodeledForceVariance may leave an indefinite
 state covariance

---
 src/model-base-ekf-flex-estimator-imu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index fa7b698..ffd0bff 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -580,6 +580,9 @@ void ModelBaseEKFFlexEstimatorIMU::setUnmodeledForceVariance(double d)
     setWithUnmodeledForces(true);
   }
   P_ = ekf_.getStateCovariance();
+  /// the correlations with the other parts hold for the previous variance only
+  P_.middleRows<6>(state::unmodeledForces).setZero();
+  P_.middleCols<6>(state::unmodeledForces).setZero();
   P_.diagonal().segment<6>(state::unmodeledForces).setConstant(unmodeledForceVariance_);
   ekf_.setStateCovariance(P_);
 }
-- 
2.43.0


From 081876189e22c5b22661073cee055dca92372185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:03 +0000
Subject: [PATCH 57/88] fix: setKinematicsProcessCovariance is declared but not
 defined

---
 src/kinetics-observer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 08bfdf0..206165c 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1015,6 +1015,13 @@ void KineticsObserver::setKinematicsInitCovarianceDefault(const Matrix & P_kine)
   stateKinematicsInitCovMat_ = P_kine;
 }
 
+void KineticsObserver::setKinematicsProcessCovariance(const Matrix & P_kine)
+{
+  Matrix P = ekf_.getProcessCovariance();
+  setBlockStateCovariance<sizeStateKineTangent>(P, P_kine, kineIndexTangent());
+  ekf_.setProcessCovariance(P);
+}
+
 void KineticsObserver::setGyroBiasStateCovariance(const Matrix3 & covMat, unsigned imuNumber)
 {
   Matrix P = ekf_.getStateCovariance();
-- 
2.43.0


From 8f9d5667188b922afebe1b59a3f77acefdac16c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:25 +0000
Subject: [PATCH 58/88] fix: the initial state of the kinetics observer has no
 valid orientation

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 206165c..b14630e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -131,6 +131,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   ekf_.setStateArithmetics(this);
 
   stateVector_.setZero();
+  stateVector_.segment<sizeOri>(oriIndex()) = Orientation::zeroRotation().toVector4();
   oldStateVector_ = stateVector_;
 
   ekf_.setState(stateVector_, k_est_);
-- 
2.43.0


From aba1da91e9991e92c0fdcccd5b189daeb9810d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:25 +0000
Subject: [PATCH 59/88] fix: a kinetics observer without IMU cannot be built

---
 .../dynamics-estimators/kinetics-observer.hxx                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hxx b/include/state-observation/dynamics-estimators/kinetics-observer.hxx
index 1b723a0..e1297de 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hxx
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hxx
@@ -26,7 +26,7 @@ inline unsigned KineticsObserver::gyroBiasIndex( unsigned numberOfIMU) const
 }
 inline unsigned KineticsObserver::unmodeledWrenchIndex() const
 {
-  return gyroBiasIndex(0)+ sizeGyroBias*maxImuNumber_;
+  return angVelIndex() + sizeAngVel + sizeGyroBias * maxImuNumber_;
 }
 inline unsigned KineticsObserver::unmodeledForceIndex() const
 {
@@ -134,7 +134,7 @@ inline unsigned KineticsObserver::gyroBiasIndexTangent( unsigned numberOfIMU) co
 }
 inline unsigned KineticsObserver::unmodeledWrenchIndexTangent() const
 {
-  return gyroBiasIndexTangent(0)+sizeGyroBias*maxImuNumber_;
+  return angVelIndexTangent() + sizeAngVel + sizeGyroBias * maxImuNumber_;
 }
 inline unsigned KineticsObserver::unmodeledForceIndexTangent() const
 {
-- 
2.43.0


From 841b8f38063e04e196242c5505e73c2b6c314e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 60/88] fix: setWithGyroBias switches the estimation of the
 accelerations

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index b14630e..8fcac89 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -498,7 +498,7 @@ void KineticsObserver::setWithAccelerationEstimation(bool b)
 
 void KineticsObserver::setWithGyroBias(bool b)
 {
-  withAccelerationEstimation_ = b;
+  withGyroBias_ = b;
 }
 
 int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer, const Kinematics & localKine, int num)
-- 
2.43.0


From 6b879e1269bdde07b588560428fcf66be75eb85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 61/88] fix: the difference of states is uninitialised for the
 parts that are not estimated

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 8fcac89..b6f0fef 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1448,7 +1448,7 @@ void KineticsObserver::stateDifference(const Vector & stateVector1, const Vector
 {
   Orientation & o1 = opt_.ori1;
   Orientation & o2 = opt_.ori2;
-  difference.resize(stateTangentSize_);
+  difference.setZero(stateTangentSize_);
   difference.segment<sizePos>(posIndexTangent()).noalias() =
       stateVector1.segment<sizePos>(posIndex()) - stateVector2.segment<sizePos>(posIndex());
   o1.fromVector4(stateVector1.segment<sizeOri>(oriIndex()));
-- 
2.43.0


From 281a625c2060cd5099851606c78d480ff3af7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 62/88] fix: covariances of parts of the kinetics observer
 state are reset at the indexes of the state vector

---
 src/kinetics-observer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index b6f0fef..d690844 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -423,7 +423,7 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndex());
+    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndexTangent());
 
     if(resetForces)
     {
@@ -431,7 +431,7 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
       {
         if(i->isSet)
         {
-          setBlockStateCovariance<sizeContact>(stateCovariance, contactInitCovMatDefault_, contactIndex(i));
+          setBlockStateCovariance<sizeContactTangent>(stateCovariance, contactInitCovMatDefault_, contactIndexTangent(i));
         }
       }
     }
@@ -447,7 +447,7 @@ void KineticsObserver::setGyroBias(const Vector3 & bias, unsigned numberOfIMU, b
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndex(numberOfIMU));
+    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndexTangent(numberOfIMU));
 
     ekf_.setStateCovariance(stateCovariance);
   }
@@ -461,7 +461,7 @@ void KineticsObserver::setStateUnmodeledWrench(const Vector6 & wrench, bool rese
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndex());
+    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndexTangent());
 
     ekf_.setStateCovariance(stateCovariance);
   }
-- 
2.43.0


From 3c218bc89c71ba51c3449523a5ad88990a28b727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:26 +0000
Subject: [PATCH 63/88] fix: no contact can be added after clearContacts

---
 src/kinetics-observer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d690844..94b04bc 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -976,7 +976,11 @@ void KineticsObserver::removeContact(int contactNbr)
 
 void KineticsObserver::clearContacts()
 {
-  contacts_.clear();
+  for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    i->isSet = false;
+    i->withRealSensor = false;
+  }
   numberOfContactRealSensors_ = 0;
 }
 
-- 
2.43.0


From 0cb21fa758e8ca1e30c091abe34adeb452fda409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:26 +0000
Subject: [PATCH 64/88] fix: an added contact is lost by the next update

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 94b04bc..a7e70b5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -937,6 +937,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   /// update the state vector
   stateVector_.segment<sizeContact>(contact.stateIndex) << pose.toVector(flagsContactKine), Vector6::Zero();
+  ekf_.setState(stateVector_, k_est_);
 
   /// sets the initial covariance matrix
   Matrix stateCovMat = ekf_.getStateCovariance();
-- 
2.43.0


From d15ff8f1bf3856d3a6a3f2eb236c2c34493d8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:26 +0000
Subject: [PATCH 65/88] fix: the center of mass is not initialized

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index a7e70b5..19d3707 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -164,6 +164,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
+  com_.set(Vector3::Zero(), k_data_);
   comd_.set(Vector3::Zero(), k_data_);
   comdd_.set(Vector3::Zero(), k_data_);
   sigma_.set(Vector3::Zero(), k_data_);
-- 
2.43.0


From 2ec4917c0a2398700fa9fdec80aa4b265b624dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:57 +0000
Subject: [PATCH 66/88] fix: the process covariance of the contact wrenches is
 their initial one

---
 src/kinetics-observer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 19d3707..80c3667 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -124,8 +124,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   unmodeledWrenchProcessCovMat_(Matrix6::Identity() * unmodeledWrenchProcessVarianceDefault),
   contactPositionProcessCovMat_(Matrix3::Identity() * contactPositionProcessVarianceDefault),
   contactOrientationProcessCovMat_(Matrix3::Identity() * contactOrientationProcessVarianceDefault),
-  contactForceProcessCovMat_(Matrix3::Identity() * contactForceInitVarianceDefault),
-  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueInitVarianceDefault)
+  contactForceProcessCovMat_(Matrix3::Identity() * contactForceProcessVarianceDefault),
+  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueProcessVarianceDefault)
 {
   ekf_.setFunctor(this);
   ekf_.setStateArithmetics(this);
@@ -161,6 +161,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   contactProcessCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = contactTorqueProcessCovMat_;
 
   contactInitCovMatDefault_ = contactProcessCovMatDefault_;
+  contactInitCovMatDefault_.block<sizeForce, sizeForce>(6, 6) = Matrix3::Identity() * contactForceInitVarianceDefault;
+  contactInitCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = Matrix3::Identity() * contactTorqueInitVarianceDefault;
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
-- 
2.43.0


From 1e4480ca0a3e0b9cd47751d253fc748e0ec12e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:24 +0000
Subject: [PATCH 67/88] fix: the predicted measurements write the accelerations
 over the flags of the kinematics

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 80c3667..a735071 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1601,8 +1601,8 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
   stateKine.linAcc.set(true);
   stateKine.angAcc.set(true);
 
-  Vector3 & linacc = (Vector3 &)(stateKine.linAcc);
-  Vector3 & angacc = (Vector3 &)(stateKine.angAcc);
+  Vector3 & linacc = stateKine.linAcc(); /// reference
+  Vector3 & angacc = stateKine.angAcc(); /// reference
 
   computeAccelerations_(stateKine, forceLocal, torqueLocal, linacc, angacc);
 
-- 
2.43.0


From 6d7c1f695aca4dbff26c7297084ea8c3811ebff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 68/88] fix: by default setGyroBias sets the bias of an IMU
 that the default observer does not have

---
 .../state-observation/dynamics-estimators/kinetics-observer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index e776636..f7fd952 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -463,7 +463,7 @@ public:
   ///
   /// @param numberOfIMU number id of the IMU
   /// @param resetCovariance set if the covariance of the IMU bias should be reset
-  void setGyroBias(const Vector3 &, unsigned numberOfIMU = 1, bool resetCovariance = true);
+  void setGyroBias(const Vector3 &, unsigned numberOfIMU = 0, bool resetCovariance = true);
 
   /// @brief Set the State Unmodeled Wrench
   /// @details this modifies the current guess for external unmodeled Wrench. This is different from
-- 
2.43.0


From 95e4345ff6fc24871a4d1d69297a635342cf5e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 69/88] fix: removeContact rejects the contacts that exist

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index a735071..c481b53 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -969,7 +969,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
 void KineticsObserver::removeContact(int contactNbr)
 {
-  BOOST_ASSERT(!contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
+  BOOST_ASSERT(contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
   contacts_[contactNbr].isSet = false;
   if(contacts_[contactNbr].withRealSensor)
   {
-- 
2.43.0


From 3d5db986d87d99b321bbda4cf09172312127a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 70/88] fix: the wrench sensors of the previous iteration are
 not forgotten

---
 src/kinetics-observer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index c481b53..2abc2d2 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1305,6 +1305,10 @@ void KineticsObserver::startNewIteration_()
   if(k_est_ == k_data_)
   {
     ++k_data_;
+    for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+    {
+      i->withRealSensor = false;
+    }
     numberOfContactRealSensors_ = 0;
     currentIMUSensorNumber_ = 0;
   }
-- 
2.43.0


From 87cb0f21c956ee1136746a9707b34489f92aa5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 71/88] fix: setStateVector keeps the accelerations of the
 previous state

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 2abc2d2..aa35a0a 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -474,6 +474,7 @@ void KineticsObserver::setStateVector(const Vector & v, bool resetCovariance)
 {
   stateVector_ = v;
   ekf_.setState(v, k_est_);
+  stateKinematics_.reset();
   updateKine_();
 
   if(resetCovariance)
-- 
2.43.0


From a9b5069ebd13f0dc7fa3558e9dcecf10a4f1b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:16 +0000
Subject: [PATCH 72/88] fix: resetStateCovarianceMat skips the biases of the
 IMUs without new measurement

---
 src/kinetics-observer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index aa35a0a..11f4b3c 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1150,10 +1150,7 @@ void KineticsObserver::resetStateCovarianceMat()
   resetStateKinematicsCovMat();
   for(unsigned i = 0; i < imuSensors_.size(); ++i)
   {
-    if(imuSensors_[i].time == k_data_)
-    {
-      resetStateGyroBiasCovMat(i);
-    }
+    resetStateGyroBiasCovMat(i);
   }
   resetStateUnmodeledWrenchCovMat();
   resetStateContactsCovMat();
-- 
2.43.0


From a71d796670abbd3bc971a2eabe0c1515b1cd2ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:32 +0000
Subject: [PATCH 73/88] fix: getNumberOfContacts returns the maximum number of
 contacts

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 11f4b3c..f867043 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -991,7 +991,7 @@ void KineticsObserver::clearContacts()
 
 Index KineticsObserver::getNumberOfContacts() const
 {
-  return contacts_.size();
+  return Index(getListOfContacts().size());
 }
 
 std::vector<int> KineticsObserver::getListOfContacts() const
-- 
2.43.0


From e80709948677c70b5ce9c1344c796aec529005ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:32 +0000
Subject: [PATCH 74/88] fix: the number of an IMU given without number is out
 of range

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index f867043..f6a7260 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -513,7 +513,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
@@ -571,7 +571,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
-- 
2.43.0


From 8e2429f4a8bdaca1490f92867464d3f85ddbdcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:32 +0000
Subject: [PATCH 75/88] fix: the velocities of an IMU are differentiated over a
 null period

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index f6a7260..c8f997b 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -549,7 +549,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
@@ -608,7 +608,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
-- 
2.43.0


From 615c7e43505cdb58f24c74d9e3ca242291096554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:32 +0000
Subject: [PATCH 76/88] fix: the default covariances of the sensors are not
 used when no covariance is given

---
 src/kinetics-observer.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index c8f997b..f7d069e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -527,10 +527,11 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
 
   imu.acceleroGyro.head<3>() = accelero;
   imu.acceleroGyro.tail<3>() = gyrometer;
+  imu.covMatrixAccelero = acceleroCovMatDefault_;
+  imu.covMatrixGyro = gyroCovMatDefault_;
+
   if(imuSensors_[num].time == 0) /// this is the first value for the IMU
   {
-    imu.covMatrixAccelero = acceleroCovMatDefault_;
-    imu.covMatrixGyro = gyroCovMatDefault_;
     imu.kinematics = localKine;
     BOOST_ASSERT(imu.kinematics.position.isSet() && imu.kinematics.orientation.isSet()
                  && "The kinematics of the IMU is incorrectly initialized");
@@ -646,11 +647,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   }
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
-
-  if(!contacts_[contactNumber].sensorCovMatrix.isSet())
-  {
-    contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
-  }
+  contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
 
   if(!(contacts_[contactNumber].withRealSensor))
   {
@@ -731,11 +728,7 @@ void KineticsObserver::setAbsolutePoseSensor(const Kinematics & pose)
 
   absPoseSensor_.time = k_data_;
   absPoseSensor_.pose = pose;
-
-  if(!(absPoseSensor_.covMatrix.isSet()))
-  {
-    absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;
-  }
+  absPoseSensor_.covMatrix = absPoseSensorCovMatDefault_;
 }
 
 void KineticsObserver::setAbsolutePoseSensor(const Kinematics & pose, const Matrix6 & CovarianceMatrix)
-- 
2.43.0


From b037eefa226605033fb702f2adde33dc8a46bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:48 +0000
Subject: [PATCH 77/88] fix: the centrifugal acceleration of the center of mass
 is counted twice

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index f7d069e..37c02e8 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1376,7 +1376,7 @@ void KineticsObserver::computeAccelerations_(Kinematics & stateKine,
 {
   Matrix3 Rt = stateKine.orientation.toMatrix3().transpose();
   Vector3 Rtw = Rt * stateKine.angVel();
-  Vector3 corioCentri = 2 * Rtw.cross(comd_() + Rtw.cross(com_()));
+  Vector3 corioCentri = 2 * Rtw.cross(comd_()) + Rtw.cross(Rtw.cross(com_()));
 
   angAcc = stateKine.orientation
            * ((I_() + mass_ * kine::skewSymmetric2(com_())).inverse()
-- 
2.43.0


From 8a6e44f612d16860177b0f0e901d4a8ec5c71e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:25 +0000
Subject: [PATCH 78/88] fix: the kinematics of a new contact may be derived
 from those of a previous one or miss the velocities

---
 .../dynamics-estimators/kinetics-observer.hpp |  4 ++
 src/kinetics-observer.cpp                     | 48 +++++++++----------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index f7fd952..3ace7d5 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -1060,6 +1060,10 @@ protected:
   /// calls the reset of the iteration
   void startNewIteration_();
 
+  /// updates the local kinematics of a contact, the velocities which are not given are null for a new contact and finite
+  /// differences afterwards
+  void updateContactKine_(Contact & contact, const Kinematics & localKine);
+
   virtual Matrix computeAMatrix_();
   virtual Matrix computeCMatrix_();
 
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 37c02e8..76ee131 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -625,6 +625,26 @@ void KineticsObserver::setIMUDefaultCovarianceMatrix(const Matrix3 & acceleroCov
   gyroCovMatDefault_ = gyroCov;
 }
 
+void KineticsObserver::updateContactKine_(Contact & contact, const Kinematics & localKine)
+{
+  if(contact.localKine.position.isSet() && contact.time < k_data_) /// the contact is not newly set
+  {
+    contact.localKine.update(localKine, dt_, Contact::localKineFlags);
+  }
+  else /// the contact is newlyset
+  {
+    contact.localKine = localKine;
+    if(!contact.localKine.linVel.isSet())
+    {
+      contact.localKine.linVel.set().setZero();
+    }
+    if(!contact.localKine.angVel.isSet())
+    {
+      contact.localKine.angVel.set().setZero();
+    }
+  }
+}
+
 void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
                                                      const Kinematics & localKine,
                                                      unsigned contactNumber)
@@ -637,14 +657,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactKine_(contacts_[contactNumber], localKine);
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
   contacts_[contactNumber].sensorCovMatrix = contactWrenchSensorCovMatDefault_;
@@ -669,14 +682,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactKine_(contacts_[contactNumber], localKine);
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
   contacts_[contactNumber].sensorCovMatrix = wrenchCovMatrix;
@@ -703,14 +709,7 @@ void KineticsObserver::updateContactWithNoSensor(const Kinematics & localKine, u
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactKine_(contacts_[contactNumber], localKine);
 
   contacts_[contactNumber].time = k_data_;
 
@@ -895,6 +894,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
   contact.stateIndexTangent = contactsIndexTangent() + contactNumber * sizeContactTangent;
 
   contact.absPose = pose;
+  contact.localKine.reset(); /// unknown until the first update of the contact
 
   if(linearDamping != Matrix3::Zero())
   {
-- 
2.43.0


From e5c73269bfa06ad2386e7896dac096876d9cd2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 79/88] fix: resetInputs keeps counting the discarded sensors

---
 src/kinetics-observer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 76ee131..045fb9c 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1263,15 +1263,18 @@ void KineticsObserver::resetInputs()
 {
   for(VectorIMUIterator i = imuSensors_.begin(); i != imuSensors_.end(); ++i)
   {
-    i->time = k_est_;
+    i->time = std::min(i->time, k_est_);
   }
 
   for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
   {
-    i->time = k_est_;
+    i->time = std::min(i->time, k_est_);
   }
 
-  absPoseSensor_.time = k_est_;
+  absPoseSensor_.time = std::min(absPoseSensor_.time, k_est_);
+
+  /// there is no new data anymore, the next one starts a new iteration
+  k_data_ = k_est_;
 }
 
 void KineticsObserver::setFiniteDifferenceStep(const Vector & v)
-- 
2.43.0


From e0c7da2b539dcb7322478f3a0066bf06a4c11694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 80/88] fix: the biases of the gyrometers are not in their
 predicted measurements

---
 src/kinetics-observer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 045fb9c..0304d97 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1620,6 +1620,11 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
       /// gyrometer
       y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal).noalias() =
           globalOri.transpose() * globalKine.angVel();
+      if(withGyroBias_)
+      {
+        y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal) +=
+            x.segment<sizeGyroBias>(gyroBiasIndex(unsigned(i - imuSensors_.begin())));
+      }
     }
   }
 
-- 
2.43.0


From 7186a1ee7ba9472d732997f63173104a200df054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 81/88] fix: the stiffness of a contact is ignored when its
 damping is the default one

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 0304d97..d8d8f48 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -896,7 +896,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
   contact.absPose = pose;
   contact.localKine.reset(); /// unknown until the first update of the contact
 
-  if(linearDamping != Matrix3::Zero())
+  if(linearStiffness != Matrix3::Zero())
   {
     contact.linearStiffness = linearStiffness;
   }
-- 
2.43.0


From 19bbb52b6420f30cb3f00dfb57be18cb5d22223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 82/88] fix: the predicted contact wrenches ignore the rest
 pose of the contact

---
 .../dynamics-estimators/kinetics-observer.hpp |  2 +-
 src/kinetics-observer.cpp                     | 30 +++++--------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index 3ace7d5..b3cf6be 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -928,7 +928,7 @@ protected:
                              Kinematics & stateKine,
                              Kinematics & contactPose,
                              Vector3 & Force,
-                             Vector3 torque);
+                             Vector3 & torque);
 
   /// Sets a noise which disturbs the state dynamics
   virtual void setProcessNoise(NoiseBase *);
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d8d8f48..b87571f 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1394,7 +1394,7 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
                                              Kinematics & stateKine,
                                              Kinematics & contactPose,
                                              Vector3 & force,
-                                             Vector3 torque)
+                                             Vector3 & torque)
 {
   Contact & contact = *i;
 
@@ -1549,30 +1549,14 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
   {
     if(i->isSet)
     {
-      Kinematics & localKine = i->localKine;
+      /// the rest pose of the contact
+      Kinematics contactPose(x.segment<sizePose>(contactKineIndex(i)), flagsContactKine);
 
-      Matrix3 & Kpt = i->linearStiffness;
-      Matrix3 & Kdt = i->linearDamping;
-      Matrix3 & Kpr = i->angularStiffness;
-      Matrix3 & Kdr = i->angularDamping;
+      Vector3 force, torque;
+      computeContactForces_(i, stateKine, contactPose, force, torque);
 
-      /// the posiiton of the contact in the global frame
-      Kinematics globalKine;
-
-      globalKine.setToProductNoAlias(stateKine, localKine);
-
-      /// The error between the current kinematics and the rest kinematics
-      /// of the flexibility
-      Kinematics errorKine;
-      errorKine.setToProductNoAlias(globalKine, localKine.getInverse());
-
-      /// Inverse of the orientation of the foot in the global frame
-      Orientation Rcit(globalKine.orientation.inverse());
-
-      x.segment<sizeForce>(contactForceIndex(i)) = -(Rcit * (Kpt * errorKine.position() + Kdt * errorKine.linVel()));
-
-      x.segment<sizeTorque>(contactTorqueIndex(i)) = -(
-          Rcit * (Kpr * kine::vectorComponent(errorKine.orientation.toQuaternion()) * 0.5 + Kdr * errorKine.angVel()));
+      x.segment<sizeForce>(contactForceIndex(i)) = force;
+      x.segment<sizeTorque>(contactTorqueIndex(i)) = torque;
     }
   }
 
-- 
2.43.0


From 597a9b2749ba05269a81db877173012f127616ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 83/88] fix: the predicted contact torque depends on the signs
 of the quaternions

---
 src/kinetics-observer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index b87571f..c1420ec 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1404,12 +1404,17 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
 
   Matrix3 globKineOriInverse = globalKine.orientation.toMatrix3().transpose();
 
+  Quaternion oriError = globalKine.orientation.toQuaternion() * contactPose.orientation.toQuaternion().inverse();
+  if(oriError.w() < 0) /// both signs are the same rotation
+  {
+    oriError.coeffs() = -oriError.coeffs();
+  }
+
   force = globKineOriInverse
           * (contact.linearStiffness * (contactPose.position() - globalKine.position())
              - contact.linearDamping * globalKine.linVel());
   torque = globKineOriInverse
-           * (-0.5 * contact.angularStiffness
-                  * (globalKine.orientation.toQuaternion() * contactPose.orientation.toQuaternion().inverse()).vec()
+           * (-0.5 * contact.angularStiffness * oriError.vec()
               - contact.angularDamping * globalKine.angVel());
 }
 
-- 
2.43.0


From 0be67bc50c5a45f360240aa532ad7ca221db0c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 84/88] fix: the first inertia, center of mass and angular
 momentum are differentiated from values never given

---
 src/kinetics-observer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index c1420ec..65869a1 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -757,7 +757,7 @@ void KineticsObserver::setInertiaMatrix(const Matrix3 & I)
 {
   startNewIteration_();
 
-  if(I_.getTime() < k_data_)
+  if(I_.getTime() > 0 && I_.getTime() < k_data_)
   {
     Id_.set(tools::derivate(I_(), I, dt_ * double(k_data_ - I_.getTime())), k_data_);
   }
@@ -782,7 +782,7 @@ void KineticsObserver::setInertiaMatrix(const Vector6 & Iv)
   startNewIteration_();
   namespace t = tools;
 
-  if(I_.getTime() < k_data_)
+  if(I_.getTime() > 0 && I_.getTime() < k_data_)
   {
     Id_.set();
     Id_.setIndex(k_data_);
@@ -810,7 +810,7 @@ void KineticsObserver::setCenterOfMass(const Vector3 & com, const Vector3 & com_
   startNewIteration_();
   com_.set(com, k_data_);
 
-  if(comd_.getTime() < k_data_)
+  if(comd_.getTime() > 0 && comd_.getTime() < k_data_)
   {
     comdd_.set(tools::derivate(comd_(), com_dot, dt_ * double(k_data_ - comd_.getTime())), k_data_);
   }
@@ -821,7 +821,7 @@ void KineticsObserver::setCenterOfMass(const Vector3 & com)
 {
   startNewIteration_();
 
-  if(com_.getTime() < k_data_)
+  if(com_.getTime() > 0 && com_.getTime() < k_data_)
   {
     double dt = dt_ * double(k_data_ - com_.getTime());
     Vector3 com_dot = tools::derivate(com_(), com, dt);
@@ -844,7 +844,7 @@ void KineticsObserver::setAngularMomentum(const Vector3 & sigma, const Vector3 &
 void KineticsObserver::setAngularMomentum(const Vector3 & sigma)
 {
   startNewIteration_();
-  if(sigma_.getTime() < k_data_)
+  if(sigma_.getTime() > 0 && sigma_.getTime() < k_data_)
   {
     sigmad_.set(tools::derivate(sigma_(), sigma, dt_ * double(k_data_ - sigma_.getTime())), k_data_);
   }
-- 
2.43.0


From 6655ec1fe236ec21da75efe704be090470572e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:47 +0000
Subject: [PATCH 85/88] fix: the noises set on the kinetics observer are
 ignored

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 65869a1..0ff4b1d 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1567,7 +1567,7 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
 
   if(processNoise_ != 0x0)
   {
-    processNoise_->getNoisy(x);
+    x = processNoise_->getNoisy(x);
   }
 
   return x;
@@ -1632,7 +1632,7 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
 
   if(measurementNoise_ != 0x0)
   {
-    measurementNoise_->getNoisy(y);
+    y = measurementNoise_->getNoisy(y);
   }
 
   return y;
-- 
2.43.0


From 1a4b66d23967534d7db188bec5dbe6ca247af046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:01 +0000
Subject: [PATCH 86/88] fix: isApprox says that zero is not equal to zero

---
 include/state-observation/tools/definitions.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 59986fd..8dd5bf9 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -666,7 +666,7 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::writeInFile(const char * filena
 
 inline bool isApprox(double a, double b, double relativePrecision)
 {
-  return fabs(a - b) < fabs(a + b) * relativePrecision;
+  return fabs(a - b) <= fabs(a + b) * relativePrecision;
 }
 
 inline bool isApproxAbs(double a, double b, double absolutePrecision)
-- 
2.43.0


From 9262ca3df95b446024607cd59591634c5efd1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 87/88] fix: time indexes beyond the range of int are truncated
 when set or read from a file

---
 include/state-observation/tools/definitions.hpp | 4 ++--
 include/state-observation/tools/definitions.hxx | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/state-observation/tools/definitions.hpp b/include/state-observation/tools/definitions.hpp
index a9ed2ce..24cf3e9 100644
--- a/include/state-observation/tools/definitions.hpp
+++ b/include/state-observation/tools/definitions.hpp
@@ -469,13 +469,13 @@ public:
   inline TimeIndex getNextIndex() const;
 
   /// Set the time index of the last element
-  inline TimeIndex setLastIndex(int index);
+  inline TimeIndex setLastIndex(TimeIndex index);
 
   /// Get the time index
   inline TimeIndex getFirstIndex() const;
 
   /// set the time index of the first element
-  inline TimeIndex setFirstIndex(int index);
+  inline TimeIndex setFirstIndex(TimeIndex index);
 
   inline TimeSize size() const;
 
diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 8dd5bf9..efc0023 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -353,13 +353,13 @@ inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::getFirstIndex()cons
 }
 
 template <typename MatrixType, typename Allocator>
-inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(int index)
+inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(TimeIndex index)
 {
   return k_=index-TimeIndex(v_.size())+1;
 }
 
 template <typename MatrixType, typename Allocator>
-inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setFirstIndex(int index)
+inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setFirstIndex(TimeIndex index)
 {
   return k_=index;
 }
@@ -501,7 +501,7 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
     Matrix m(Matrix::Zero(rows,cols));
 
     bool continuation=true;
-    int k=0;
+    TimeIndex k=0;
 
     while (continuation)
     {
@@ -556,7 +556,7 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readVectorsFromFile(const char
   {
     std::string s;
     Vector v;
-    int k=0;
+    TimeIndex k=0;
 
     bool continuation=true;
 
-- 
2.43.0


From 263327749f2048d2a9b24a8fe237e0250dda95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 88/88] fix: a copied Kalman filter uses the state arithmetics
 of the original, even when it no longer exists

---
 .../state-observation/observer/kalman-filter-base.hpp  |  7 +++++++
 src/extended-kalman-filter.cpp                         |  8 ++++----
 src/kalman-filter-base.cpp                             | 10 +++++-----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/state-observation/observer/kalman-filter-base.hpp b/include/state-observation/observer/kalman-filter-base.hpp
index a4b7bab..859a502 100644
--- a/include/state-observation/observer/kalman-filter-base.hpp
+++ b/include/state-observation/observer/kalman-filter-base.hpp
@@ -375,8 +375,15 @@ protected:
     Matrix t;
   } oc_;
 
+  /// The arithmetics given by the user, or null for the default ones
   StateVectorArithmetics * arithm_;
 
+  /// The arithmetics in use. The default ones are those of this object and not of the one it has been copied from
+  inline StateVectorArithmetics & arithmetics_()
+  {
+    return arithm_ ? *arithm_ : *this;
+  }
+
 public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 86925c0..c438248 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -162,11 +162,11 @@ KalmanFilterBase::Amatrix // ExtendedKalmanFilter<n,m,p>::Amatrix does not work
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(this->x_(), opt.dx_, opt.x_);
+    arithmetics_().stateSum(this->x_(), opt.dx_, opt.x_);
 
     opt.xp_ = f_->stateDynamics(opt.x_, opt.u_, k);
 
-    arithm_->stateDifference(opt.xp_, xbar_(), opt.dx_);
+    arithmetics_().stateDifference(opt.xp_, xbar_(), opt.dx_);
 
     opt.dx_ /= dx[i];
 
@@ -193,11 +193,11 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(xbar_(), opt.dx_, opt.xp_);
+    arithmetics_().stateSum(xbar_(), opt.dx_, opt.xp_);
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dy_);
+    arithmetics_().measurementDifference(opt.yp_, ybar_(), opt.dy_);
 
     opt.dy_ /= dx[i];
 
diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 291ee26..bdf2c8c 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,15 +12,15 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), arithm_(nullptr) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
-: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(nullptr)
 {
 }
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index nt, Index m, Index mt, Index p)
-: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(nullptr)
 {
 }
 
@@ -122,7 +122,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   oc_.pbar.noalias() = q_ + a_ * (pr_ * a_.transpose());
 
   // innovation Measurements
-  arithm_->measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
+  arithmetics_().measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
   oc_.inoMeasCov.noalias() = r_ + c_ * (oc_.pbar * c_.transpose());
 
   Index & measurementTangentSize = mt_;
@@ -139,7 +139,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
 
   // update
 
-  arithm_->stateSum(xbar_(), innovation_, oc_.xhat);
+  arithmetics_().stateSum(xbar_(), innovation_, oc_.xhat);
 
 #ifdef VERBOUS_KALMANFILTER
   Eigen::IOFormat CleanFmt(2, 0, " ", "\n", "", "");
-- 
2.43.0

